// ---------------------------------------------------------------- polynomial normal form (real mode)
// Sums of products over named atoms, reduced by s*s = 1-c*c, r*r = e (roots) and v*y = x
// (quotients), so that equal values usually get the same term.
typedef std::vector<unsigned> Mono;
typedef std::map<Mono, BigRat> Poly;
struct PolyBig {};
static std::unordered_map<unsigned, expr> patom;              // atoms by id
static std::map<std::pair<unsigned, unsigned>, Poly> prule;   // product of two atoms -> polynomial
static const size_t POLY_MAX = 300;

static void padd(Poly &p, const Mono &m, const BigRat &k) {
    if (k == 0) return;
    auto it = p.find(m);
    if (it == p.end()) { p.emplace(m, k); if (p.size() > POLY_MAX) throw PolyBig(); return; }
    it->second += k;
    if (it->second == 0) p.erase(it);
}
static void preduce_into(Poly &out, const Mono &m, const BigRat &k, int depth);
static Poly pmul(const Poly &a, const Poly &b, int depth = 0) {
    Poly r;
    if (a.size() * b.size() > POLY_MAX * 4) throw PolyBig();
    for (auto &x : a) for (auto &y : b) {
        Mono m;
        std::merge(x.first.begin(), x.first.end(), y.first.begin(), y.first.end(), std::back_inserter(m));
        preduce_into(r, m, x.second * y.second, depth);
    }
    return r;
}
static void preduce_into(Poly &out, const Mono &m, const BigRat &k, int depth) {
    if (depth > 40) throw PolyBig();
    if (m.size() >= 2 && !prule.empty()) {
        for (size_t i = 0; i < m.size(); ++i) for (size_t j = i + 1; j < m.size(); ++j) {
            if (j > i + 1 && m[j] == m[j - 1]) continue;
            auto it = prule.find({m[i], m[j]});
            if (it == prule.end()) continue;
            Mono rest;
            for (size_t q = 0; q < m.size(); ++q) if (q != i && q != j) rest.push_back(m[q]);
            for (auto &t : it->second) {
                Mono mm;
                std::merge(rest.begin(), rest.end(), t.first.begin(), t.first.end(), std::back_inserter(mm));
                preduce_into(out, mm, k * t.second, depth + 1);
            }
            return;
        }
    }
    padd(out, m, k);
}
static std::unordered_map<unsigned, std::shared_ptr<Poly>> pcache;
static size_t pcache_rules = 0;
static std::shared_ptr<Poly> poly(const expr &e) {
    if (pcache_rules != prule.size()) { pcache.clear(); pcache_rules = prule.size(); }
    auto it = pcache.find(e.id());
    if (it != pcache.end()) return it->second;
    auto r = std::make_shared<Poly>();
    if (e.is_numeral()) padd(*r, {}, numeral_rat(e));
    else if (e.is_app()) {
        Z3_decl_kind k = e.decl().decl_kind();
        unsigned n = e.num_args();
        if (k == Z3_OP_ADD) for (unsigned i = 0; i < n; ++i) for (auto &t : *poly(e.arg(i))) padd(*r, t.first, t.second);
        else if (k == Z3_OP_SUB) for (unsigned i = 0; i < n; ++i) for (auto &t : *poly(e.arg(i))) padd(*r, t.first, i ? BigRat(-t.second) : t.second);
        else if (k == Z3_OP_UMINUS) for (auto &t : *poly(e.arg(0))) padd(*r, t.first, -t.second);
        else if (k == Z3_OP_MUL) {
            Poly a = *poly(e.arg(0));
            for (unsigned i = 1; i < n; ++i) a = pmul(a, *poly(e.arg(i)));
            *r = a;
        } else if (k == Z3_OP_DIV && e.arg(1).is_numeral() && numeral_rat(e.arg(1)) != 0) {
            BigRat d = 1 / numeral_rat(e.arg(1));
            for (auto &t : *poly(e.arg(0))) padd(*r, t.first, t.second * d);
        } else if (k == Z3_OP_POWER && e.arg(1).is_numeral() && numeral_rat(e.arg(1)) >= 1 && numeral_rat(e.arg(1)) <= 8 && denominator(numeral_rat(e.arg(1))) == 1) {
            int ex = (int)numerator(numeral_rat(e.arg(1)));
            Poly b = *poly(e.arg(0)), a = b;
            for (int i = 1; i < ex; ++i) a = pmul(a, b);
            *r = a;
        } else { patom.emplace(e.id(), e); keepalive.push_back(e); padd(*r, {e.id()}, 1); }
    } else { patom.emplace(e.id(), e); keepalive.push_back(e); padd(*r, {e.id()}, 1); }
    keepalive.push_back(e);
    pcache.emplace(e.id(), r);
    return r;
}
static expr unpoly(const Poly &p) {
    z3::expr_vector sum(*zc);
    for (auto &t : p) {
        expr m = rat_expr(t.second);
        bool one = t.second == 1 && !t.first.empty();
        z3::expr_vector f(*zc);
        if (!one) f.push_back(m);
        for (unsigned id : t.first) f.push_back(patom.at(id));
        if (f.size() == 1) sum.push_back(f[0]);
        else {
            std::vector<Z3_ast> v;
            for (unsigned i = 0; i < f.size(); ++i) v.push_back(f[i]);
            sum.push_back(expr(*zc, Z3_mk_mul(*zc, v.size(), v.data())));
        }
    }
    if (sum.empty()) return zc->real_val(0);
    if (sum.size() == 1) return sum[0];
    std::vector<Z3_ast> v;
    for (unsigned i = 0; i < sum.size(); ++i) v.push_back(sum[i]);
    return expr(*zc, Z3_mk_add(*zc, v.size(), v.data()));
}
static void sq_rule(const expr &a, const expr &sq) {          // a*a = sq
    try {
        patom.emplace(a.id(), a); keepalive.push_back(a);
        Poly p = *poly(sq);
        if (p.size() > 30) return;
        prule[{a.id(), a.id()}] = p;
    } catch (PolyBig &) {}
}
static std::unordered_map<unsigned, BigRat> magnitude;        // bounds of atoms' absolute values
static void trig_rule(const expr &c, const expr &s) {
    sq_rule(s, zc->real_val(1) - c * c);
    magnitude[c.id()] = 1; magnitude[s.id()] = 1;
}
static std::unordered_map<unsigned, expr> canon_cache;
static size_t canon_rules = 0;
static expr canon(const expr &e) {
    if (canon_rules != prule.size()) { canon_cache.clear(); canon_rules = prule.size(); }
    auto it = canon_cache.find(e.id());
    if (it != canon_cache.end()) return it->second;
    expr r = e;
    try { r = unpoly(*poly(e)).simplify(); } catch (PolyBig &) { r = e.simplify(); }
    keepalive.push_back(e); keepalive.push_back(r);
    canon_cache.emplace(e.id(), r);
    canon_cache.emplace(r.id(), r);
    return r;
}
// x / y for y != 0: exact where x contains y as a factor, the rest a named quotient
static expr quotient(const expr &x0, const expr &y0) {
    expr cx = canon(x0), cy = canon(y0);
    if (cx.is_numeral() && numeral_rat(cx) == 0) return zc->real_val(0);
    if (cy.is_numeral()) return canon(cx / cy);
    Poly exact, rest;
    try {
        Poly px = *poly(cx), py = *poly(cy);
        if (py.size() == 1 && py.begin()->first.size() == 1) {
            unsigned y = py.begin()->first[0];
            BigRat k = py.begin()->second;
            for (auto &t : px) {
                Mono m = t.first;
                auto f = std::find(m.begin(), m.end(), y);
                if (f != m.end()) { m.erase(f); padd(exact, m, t.second / k); } else padd(rest, t.first, t.second / k);
            }
            if (rest.empty()) return unpoly(exact).simplify();
            cx = unpoly(rest).simplify();
            cy = patom.at(y);
        } else {
            // a multiple of the divisor?
            auto a = px.find(py.begin()->first);
            if (a != px.end() && px.size() == py.size()) {
                BigRat k = a->second / py.begin()->second;
                bool same = true;
                for (auto &t : py) { auto b = px.find(t.first); if (b == px.end() || b->second != k * t.second) same = false; }
                if (same) return rat_expr(k);
            }
        }
    } catch (PolyBig &) { exact.clear(); }
    static std::map<std::pair<unsigned, unsigned>, expr> quo;
    auto key = std::make_pair(cx.id(), cy.id());
    auto it = quo.find(key);
    if (it == quo.end()) {
        keepalive.push_back(cx); keepalive.push_back(cy);
        static int n = 0;
        // name the quotient so that the solver only sees polynomials
        expr v = zc->real_const(("quo!" + std::to_string(n++)).c_str());
        defs[v.id()] = {z3::implies(cy != 0, v * cy == cx)};
        keepalive.push_back(v);
        syms(v);
        it = quo.emplace(key, v).first;
        try {
            Poly py = *poly(cy), px = *poly(cx);
            patom.emplace(v.id(), v);
            if (py.size() == 1 && py.begin()->first.size() == 1 && py.begin()->second == 1 && px.size() <= 30) {
                unsigned a = py.begin()->first[0], b = v.id();
                prule[{std::min(a, b), std::max(a, b)}] = px;
            }
        } catch (PolyBig &) {}
    }
    if (exact.empty()) return it->second;
    return (unpoly(exact) + it->second).simplify();
}

// x = f * y for a number f?
static bool proportional(const expr &x, const expr &y, BigRat &f) {
    try {
        Poly a = *poly(x), b = *poly(y);
        if (a.empty() || a.size() != b.size()) return false;
        f = a.begin()->second / b.begin()->second;
        for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) if (i->first != j->first || i->second != f * j->second) return false;
        return true;
    } catch (PolyBig &) { return false; }
}

// the value at the origin and a bound of the distance from it, by the ranges of the atoms
static bool poly_range(const expr &e, BigRat &mid, BigRat &dev) {
    try {
        auto p = poly(e);
        mid = 0; dev = 0;
        for (auto &t : *p) {
            if (t.first.empty()) { mid = t.second; continue; }
            BigRat b = t.second < 0 ? BigRat(-t.second) : t.second;
            for (unsigned id : t.first) {
                auto it = magnitude.find(id);
                if (it == magnitude.end()) return false;
                b *= it->second;
            }
            dev += b;
        }
        return true;
    } catch (PolyBig &) { return false; }
}
