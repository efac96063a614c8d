// ---------------------------------------------------------------- floating point
static expr RNE() { return expr(*zc, Z3_mk_fpa_rne(*zc)); }
static expr RTZ() { return expr(*zc, Z3_mk_fpa_rtz(*zc)); }
static expr rc(int n, int d = 1) { return d == 1 ? zc->real_val(n) : zc->real_val(n, d); }
static expr rdbl(double d) { return rat_of_double(d); }

#include "poly.inc"

static bool exact_add(double a, double b, double r) {
    if (!std::isfinite(r)) return false;
    volatile double bb = r - a, err = (a - (r - bb)) + (b - bb);
    return err == 0;
}
static bool tiny(double r) { return r != 0 && std::fabs(r) < 1e-250; }

static Val fneg_v(const Ty &t, const Val &a) {
    MkTy mkty(t);
    if (a.conc()) return fconst(t, -fval(t, a.c));
    if (REAL) return mkreal(-a.e());
    return Val(expr(*zc, Z3_mk_fpa_neg(*zc, a.e())));
}
static expr drop_pi_sum(const expr &e) { return e; }

static Val fbin(State &s, unsigned opc, const Ty &t, const Val &a, const Val &b) {
    MkTy mkty(t);
    if (a.conc() && b.conc()) {
        double x = fval(t, a.c), y = fval(t, b.c);
        if (!REAL || opt.mixed) {
            if (t.k == T_FLT) {
                float u = (float)x, v = (float)y, r = 0;
                switch (opc) {
                case Instruction::FAdd: r = u + v; break;
                case Instruction::FSub: r = u - v; break;
                case Instruction::FMul: r = u * v; break;
                case Instruction::FDiv: r = u / v; break;
                case Instruction::FRem: r = std::fmod(u, v); break;
                }
                return Val(f2bits(r));
            }
            double r = 0;
            switch (opc) {
            case Instruction::FAdd: r = x + y; break;
            case Instruction::FSub: r = x - y; break;
            case Instruction::FMul: r = x * y; break;
            case Instruction::FDiv: r = x / y; break;
            case Instruction::FRem: r = std::fmod(x, y); break;
            }
            return Val(d2bits(r));
        }
        double r = 0;
        bool ok = false;
        switch (opc) {
        case Instruction::FAdd: r = x + y; ok = exact_add(x, y, r); break;
        case Instruction::FSub: r = x - y; ok = exact_add(x, -y, r); break;
        case Instruction::FMul: r = x * y; ok = std::fma(x, y, -r) == 0 && !tiny(r); break;
        case Instruction::FDiv: r = x / y; ok = y != 0 && std::fma(r, y, -x) == 0 && !tiny(r); break;
        case Instruction::FRem: r = std::fmod(x, y); ok = true; break;
        }
        if (ok || !std::isfinite(r) || !std::isfinite(x) || !std::isfinite(y)) return fconst(t, r);
    }
    if (!REAL) {
        expr x = fexpr(t, a), y = fexpr(t, b);
        Z3_ast r;
        switch (opc) {
        case Instruction::FAdd: r = Z3_mk_fpa_add(*zc, RNE(), x, y); break;
        case Instruction::FSub: r = Z3_mk_fpa_sub(*zc, RNE(), x, y); break;
        case Instruction::FMul: r = Z3_mk_fpa_mul(*zc, RNE(), x, y); break;
        case Instruction::FDiv: r = Z3_mk_fpa_div(*zc, RNE(), x, y); break;
        default: unsupported("symbolic frem");
        }
        return Val(expr(*zc, r));
    }
    // real mode
    for (int k = 0; k < 2; ++k) {
        const Val &p = k ? b : a;
        if (p.conc() && std::isnan(fval(t, p.c))) return fconst(t, NAN);
        if (p.conc() && std::isinf(fval(t, p.c))) {
            double v = fval(t, p.c);
            if (opc == Instruction::FAdd) return fconst(t, v);
            if (opc == Instruction::FSub) return fconst(t, k ? -v : v);
            if (opc == Instruction::FDiv && k) return fconst(t, 0.0);
            if (opc == Instruction::FMul || opc == Instruction::FDiv) {
                const Val &o = k ? a : b;
                bool neg = branch(s, (fexpr(t, o) < 0).simplify());
                return fconst(t, neg ? -v : v);
            }
            unsupported("infinity in real arithmetic");
        }
    }
    expr x = fexpr(t, a), y = fexpr(t, b);
    switch (opc) {
    case Instruction::FAdd: return mkreal(x + y);
    case Instruction::FSub: return mkreal(x - y);
    case Instruction::FMul: return mkreal(x * y);
    case Instruction::FDiv: {
        if (y.is_numeral() || is_pi(y)) {
            if (y.is_numeral() && numeral_rat(y) == 0) {
                if (branch(s, (x > 0).simplify())) return fconst(t, std::signbit(fval(t, b.c)) ? -INFINITY : INFINITY);
                if (branch(s, (x < 0).simplify())) return fconst(t, std::signbit(fval(t, b.c)) ? INFINITY : -INFINITY);
                return fconst(t, NAN);
            }
            return mkreal(x / y);
        }
        if (branch(s, (y == 0).simplify())) {
            if (branch(s, (x > 0).simplify())) return fconst(t, INFINITY);
            if (branch(s, (x < 0).simplify())) return fconst(t, -INFINITY);
            return fconst(t, NAN);
        }
        // a ratio of two multiples of the same thing?
        expr q = (x / y).simplify();
        if (q.is_numeral()) return mkreal(q);
        BigRat f;
        if (proportional(x, y, f)) return mkreal(rat_expr(f));
        return mkreal(quotient(x, y));
    }
    default: unsupported("frem on reals");
    }
}

static bool cmpd(unsigned pred, double x, double y) {
    bool un = std::isnan(x) || std::isnan(y);
    switch (pred) {
    case CmpInst::FCMP_FALSE: return false;
    case CmpInst::FCMP_OEQ: return !un && x == y;
    case CmpInst::FCMP_OGT: return !un && x > y;
    case CmpInst::FCMP_OGE: return !un && x >= y;
    case CmpInst::FCMP_OLT: return !un && x < y;
    case CmpInst::FCMP_OLE: return !un && x <= y;
    case CmpInst::FCMP_ONE: return !un && x != y;
    case CmpInst::FCMP_ORD: return !un;
    case CmpInst::FCMP_UNO: return un;
    case CmpInst::FCMP_UEQ: return un || x == y;
    case CmpInst::FCMP_UGT: return un || x > y;
    case CmpInst::FCMP_UGE: return un || x >= y;
    case CmpInst::FCMP_ULT: return un || x < y;
    case CmpInst::FCMP_ULE: return un || x <= y;
    case CmpInst::FCMP_UNE: return un || x != y;
    default: return true;
    }
}
static Val fcmp_v(State &s, unsigned pred, const Ty &t, const Val &a, const Val &b) {
    if (a.conc() && b.conc()) return Val(cmpd(pred, fval(t, a.c), fval(t, b.c)));
    if (REAL) {
        for (int k = 0; k < 2; ++k) {
            const Val &p = k ? b : a;
            if (p.conc() && !std::isfinite(fval(t, p.c))) {
                double v = fval(t, p.c);
                return Val(k ? cmpd(pred, 0.0, v) : cmpd(pred, v, 0.0));
            }
        }
        expr x = fexpr(t, a), y = fexpr(t, b);
        if (!opt.rawcmp) {
            expr d = canon(x - y);
            x = d; y = zc->real_val(0);
        }
        switch (pred) {
        case CmpInst::FCMP_FALSE: case CmpInst::FCMP_UNO: return Val((uint64_t)0);
        case CmpInst::FCMP_TRUE: case CmpInst::FCMP_ORD: return Val(1);
        case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return mkint(1, x == y);
        case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return mkint(1, x != y);
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return mkint(1, x > y);
        case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return mkint(1, x >= y);
        case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return mkint(1, x < y);
        default: return mkint(1, x <= y);
        }
    }
    expr x = fexpr(t, a), y = fexpr(t, b);
    auto B = [&](Z3_ast r) { return expr(*zc, r); };
    expr un = B(Z3_mk_fpa_is_nan(*zc, x)) || B(Z3_mk_fpa_is_nan(*zc, y));
    switch (pred) {
    case CmpInst::FCMP_FALSE: return Val((uint64_t)0);
    case CmpInst::FCMP_TRUE: return Val(1);
    case CmpInst::FCMP_ORD: return mkint(1, !un);
    case CmpInst::FCMP_UNO: return mkint(1, un);
    case CmpInst::FCMP_OEQ: return mkint(1, B(Z3_mk_fpa_eq(*zc, x, y)));
    case CmpInst::FCMP_UNE: return mkint(1, !B(Z3_mk_fpa_eq(*zc, x, y)));
    case CmpInst::FCMP_ONE: return mkint(1, !un && !B(Z3_mk_fpa_eq(*zc, x, y)));
    case CmpInst::FCMP_UEQ: return mkint(1, un || B(Z3_mk_fpa_eq(*zc, x, y)));
    case CmpInst::FCMP_OGT: return mkint(1, B(Z3_mk_fpa_gt(*zc, x, y)));
    case CmpInst::FCMP_OGE: return mkint(1, B(Z3_mk_fpa_geq(*zc, x, y)));
    case CmpInst::FCMP_OLT: return mkint(1, B(Z3_mk_fpa_lt(*zc, x, y)));
    case CmpInst::FCMP_OLE: return mkint(1, B(Z3_mk_fpa_leq(*zc, x, y)));
    case CmpInst::FCMP_UGT: return mkint(1, !B(Z3_mk_fpa_leq(*zc, x, y)));
    case CmpInst::FCMP_UGE: return mkint(1, !B(Z3_mk_fpa_lt(*zc, x, y)));
    case CmpInst::FCMP_ULT: return mkint(1, !B(Z3_mk_fpa_geq(*zc, x, y)));
    default: return mkint(1, !B(Z3_mk_fpa_gt(*zc, x, y)));
    }
}

// ------------------------------------------------ real mode: roots and angles
struct Atom { expr th, c, s; bool ranged; };
static std::unordered_map<unsigned, Atom> atoms;      // by id of the angle expression
static std::vector<unsigned> ranged_atoms;            // ids of the angle symbols

static expr fresh_real(const std::string &n) {
    static int k = 0;
    expr v = zc->real_const((n + "!" + std::to_string(k++)).c_str());
    keepalive.push_back(v);
    syms(v);
    return v;
}
static void add_def(const expr &sym, const expr &ax) { defs[sym.id()].push_back(ax); }

static expr sqrt_atom(const expr &e0) {
    static std::unordered_map<unsigned, expr> tab;
    expr e = canon(e0);
    if (e.is_numeral()) {
        // pull out perfect squares
        BigRat q = numeral_rat(e);
        BigInt n = numerator(q), d = denominator(q);
        BigInt rn = boost::multiprecision::sqrt(n), rd = boost::multiprecision::sqrt(d);
        if (rn * rn == n && rd * rd == d) return rat_expr(BigRat(rn, rd));
    }
    auto it = tab.find(e.id());
    if (it != tab.end()) return it->second;
    keepalive.push_back(e);
    // a plain square v*v: |v|, left to the solver through r*r = v*v
    expr r = fresh_real("sqrt");
    add_def(r, r >= 0);
    add_def(r, r * r == e);
    sq_rule(r, e);
    if (e.is_numeral()) {
        double v = std::sqrt(rat_double(numeral_rat(e)));
        add_def(r, r >= rdbl(v * (1 - 1e-15)));
        add_def(r, r <= rdbl(v * (1 + 1e-15)));
        magnitude[r.id()] = numeral_rat(rdbl(v * (1 + 1e-15)));
    }
    tab.emplace(e.id(), r);
    return r;
}

static std::set<unsigned> half_turn;      // angles in [-pi,pi]
static void ranged_axioms(const Atom &a, const expr &owner) {
    expr pi = *pi_e;
    std::vector<expr> ax;
    ax.push_back(a.c * a.c + a.s * a.s == 1);
    ax.push_back(z3::implies(a.th > 0 && a.th < pi, a.s > 0));
    ax.push_back(z3::implies(a.th < 0 && a.th > -pi, a.s < 0));
    ax.push_back(z3::implies(a.th == 0, a.s == 0 && a.c == 1));
    ax.push_back(z3::implies(a.th == pi || a.th == -pi, a.s == 0 && a.c == -1));
    ax.push_back(z3::implies(2 * a.th < pi && 2 * a.th > -pi, a.c > 0));
    ax.push_back(z3::implies(2 * a.th > pi || 2 * a.th < -pi, a.c < 0));
    ax.push_back(z3::implies(2 * a.th == pi, a.c == 0 && a.s == 1));
    ax.push_back(z3::implies(2 * a.th == -pi, a.c == 0 && a.s == -1));
    (void)owner;
    for (auto &x : ax) { add_def(a.th, x); link_axioms.insert(x.id()); }
    for (auto &x : {a.c, a.s}) for (unsigned id : syms(x)) trig_syms.insert(id);
    ranged_atoms.push_back(a.th.id());
}
static Atom &new_ranged(const expr &th, const expr &c, const expr &s) {
    Atom a{th, c, s, true};
    keepalive.push_back(th);
    auto &r = atoms.emplace(th.id(), a).first->second;
    trig_rule(c, s);
    ranged_axioms(r, th);
    add_def(th, th <= *pi_e);
    add_def(th, th >= -*pi_e);
    half_turn.insert(th.id());
    return r;
}
static bool angle_value(const expr &e, z3::model &m, double &v) {
    auto it = atoms.find(e.id());
    if (it == atoms.end()) return false;
    std::string c = num_str(m.eval(it->second.c, true), 'd'), s = num_str(m.eval(it->second.s, true), 'd');
    double cv = strtod(c.c_str(), 0), sv = strtod(s.c_str(), 0);
    if (std::fabs(cv * cv + sv * sv - 1) > 1e-6) return false;
    v = std::atan2(sv, cv);
    return true;
}
static std::vector<expr> pair_axioms(const std::set<unsigned> &used) {
    std::vector<expr> out;
    if (!REAL) return out;
    std::vector<unsigned> in;
    for (unsigned id : ranged_atoms) if (used.count(id)) in.push_back(id);
    expr pi = *pi_e;
    for (size_t i = 0; i < in.size(); ++i)
        for (size_t j = i + 1; j < in.size(); ++j) {
            Atom &a = atoms.at(in[i]), &b = atoms.at(in[j]);
            expr d = a.th - b.th, sd = a.s * b.c - a.c * b.s;
            out.push_back(z3::implies(d > 0 && d < pi, sd > 0));
            out.push_back(z3::implies(d < 0 && d > -pi, sd < 0));
            out.push_back(z3::implies(d > pi && d < 2 * pi, sd < 0));
            out.push_back(z3::implies(d < -pi && d > -2 * pi, sd > 0));
            out.push_back(z3::implies(d == 0, a.s == b.s && a.c == b.c));
            out.push_back(z3::implies(d == pi || d == -pi, a.s == -b.s && a.c == -b.c));
        }
    return out;
}

struct Lin { std::map<unsigned, std::pair<expr, BigRat>> t; BigRat pi = 0, k = 0; };
static void lin_add(Lin &l, const expr &e, const BigRat &f) {
    if (e.is_numeral()) { l.k += f * numeral_rat(e); return; }
    if (is_pi(e)) { l.pi += f; return; }
    if (e.is_app()) {
        switch (e.decl().decl_kind()) {
        case Z3_OP_ADD: for (unsigned i = 0; i < e.num_args(); ++i) lin_add(l, e.arg(i), f); return;
        case Z3_OP_SUB: lin_add(l, e.arg(0), f); for (unsigned i = 1; i < e.num_args(); ++i) lin_add(l, e.arg(i), -f); return;
        case Z3_OP_UMINUS: lin_add(l, e.arg(0), -f); return;
        case Z3_OP_MUL:
            if (e.num_args() == 2 && e.arg(0).is_numeral()) { lin_add(l, e.arg(1), f * numeral_rat(e.arg(0))); return; }
            if (e.num_args() > 2 && e.arg(0).is_numeral()) {
                expr r = e.arg(1);
                for (unsigned i = 2; i < e.num_args(); ++i) r = r * e.arg(i);
                lin_add(l, r.simplify(), f * numeral_rat(e.arg(0)));
                return;
            }
            break;
        case Z3_OP_DIV:
            if (e.arg(1).is_numeral()) { lin_add(l, e.arg(0), f / numeral_rat(e.arg(1))); return; }
            break;
        default: break;
        }
    }
    auto it = l.t.find(e.id());
    if (it == l.t.end()) { keepalive.push_back(e); l.t.emplace(e.id(), std::make_pair(e, f)); }
    else { it->second.second += f; if (it->second.second == 0) l.t.erase(it); }
}
static void lin_range(const Lin &l, double &mid, double &rad) {
    mid = rat_double(l.k) + rat_double(l.pi) * M_PI;
    rad = 0;
    for (auto &kv : l.t) rad += half_turn.count(kv.first) ? std::fabs(rat_double(kv.second.second)) * M_PI : INFINITY;
}
// mixed mode: sums of rounded right angles beside an unknown angle are multiples of pi
static expr right_angles(const expr &e) {
    if (!opt.mixed) return e;
    Lin l; lin_add(l, e, 1);
    BigRat q;
    if (l.t.empty() || !pi_near(rat_double(l.k), q)) return e;
    return canon(e - rat_expr(l.k) + rat_expr(q) * *pi_e);
}
typedef std::pair<expr, expr> CS;
static CS cs_add(const CS &a, const CS &b) {
    return CS((a.first * b.first - a.second * b.second).simplify(), (a.second * b.first + a.first * b.second).simplify());
}
static CS atom_cs(const expr &e) {
    auto it = atoms.find(e.id());
    if (it == atoms.end()) {
        keepalive.push_back(e);
        expr c = fresh_real("cos"), s = fresh_real("sin");
        expr ax = c * c + s * s == 1;
        add_def(c, ax); add_def(s, ax);
        for (auto &x : {c, s}) { add_def(x, x >= -1); add_def(x, x <= 1); }
        if (e.is_numeral()) {
            double v = rat_double(numeral_rat(e));
            for (int k = 0; k < 2; ++k) {
                expr x = k ? s : c;
                double m = k ? std::sin(v) : std::cos(v);
                add_def(x, x >= rdbl(m - 1e-14)); add_def(x, x <= rdbl(m + 1e-14));
            }
        }
        it = atoms.emplace(e.id(), Atom{e, c, s, false}).first;
        trig_rule(c, s);
    }
    return CS(it->second.c, it->second.s);
}
static CS pi_cs(BigRat q) {
    // q in units of pi
    BigInt n = numerator(q), d = denominator(q);
    BigInt two = 2 * d;
    BigInt m = n % two;
    if (m < 0) m += two;
    // m/d in [0,2)
    expr h = rc(1, 2);
    auto at = [&](int a, int b) { return m * b == d * a; };
    if (m == 0) return CS(rc(1), rc(0));
    if (at(1, 2)) return CS(rc(0), rc(1));
    if (at(1, 1)) return CS(rc(-1), rc(0));
    if (at(3, 2)) return CS(rc(0), rc(-1));
    BigInt mm = m, dd = d;
    // reduce to the first quadrant
    if (2 * mm > dd) {
        BigRat rest = BigRat(mm, dd) - BigRat(1, 2);
        CS r = pi_cs(rest);
        return CS((-r.second).simplify(), r.first);
    }
    if (at(1, 4)) { expr r = (sqrt_atom(rc(2)) / 2).simplify(); return CS(r, r); }
    if (at(1, 6)) return CS((sqrt_atom(rc(3)) / 2).simplify(), h);
    if (at(1, 3)) return CS(h, (sqrt_atom(rc(3)) / 2).simplify());
    // other fractions: a fresh pair with tight bounds
    expr key = (rat_expr(BigRat(m, d)) * *pi_e).simplify();
    bool isnew = !atoms.count(key.id());
    CS r = atom_cs(key);
    if (isnew) {
        double v = rat_double(BigRat(m, d)) * M_PI;
        for (int k = 0; k < 2; ++k) {
            expr x = k ? r.second : r.first;
            double mv = k ? std::sin(v) : std::cos(v);
            add_def(x, x >= rdbl(mv - 1e-14)); add_def(x, x <= rdbl(mv + 1e-14));
        }
    }
    return r;
}
static CS cos_sin(const expr &e0) {
    expr e = canon(e0);
    Lin l;
    lin_add(l, e, 1);
    CS acc(rc(1), rc(0));
    bool first = true;
    auto add = [&](const CS &x) { acc = first ? x : cs_add(acc, x); first = false; };
    for (auto &kv : l.t) {
        expr th = kv.second.first;
        BigRat q = kv.second.second;
        BigInt n = numerator(q), d = denominator(q);
        bool neg = n < 0;
        if (neg) n = -n;
        if (n > 6) { n = 1; th = (rat_expr(neg ? BigRat(-q) : q) * th).simplify(); d = 1; }
        CS b(rc(1), rc(0));
        if (d == 1) b = atom_cs(th);
        else {
            expr half = (th / rat_expr(BigRat(d))).simplify();
            bool isnew = !atoms.count(half.id());
            b = atom_cs(half);
            if (isnew && d == 2) {
                CS f = atom_cs(th);
                expr a1 = b.first * b.first - b.second * b.second == f.first, a2 = 2 * b.first * b.second == f.second;
                for (auto &x : {b.first, b.second}) { add_def(x, a1); add_def(x, a2); }
                auto &at = atoms.at(th.id());
                if (at.ranged) {     // th in [-pi,pi]: cos(th/2) >= 0
                    for (auto &x : {b.first, b.second}) {
                        add_def(x, b.first >= 0);
                        add_def(x, z3::implies(th >= 0, b.second >= 0));
                        add_def(x, z3::implies(th <= 0, b.second <= 0));
                    }
                }
            }
        }
        if (neg) b.second = (-b.second).simplify();
        CS p = b;
        for (BigInt i = 1; i < n; ++i) p = cs_add(p, b);
        add(p);
    }
    if (l.k != 0) {
        double kd = rat_double(l.k);
        BigRat turns;
        if (opt.mixed && pi_near(kd, turns)) l.pi += turns;      // sums of rounded right angles
        else if (opt.mixed) add(CS(rdbl(std::cos(kd)), rdbl(std::sin(kd))));
        else add(atom_cs(rat_expr(l.k)));
    }
    if (l.pi != 0 || first) add(pi_cs(l.pi));
    return acc;
}

// integer n with n <= e < n+1, forking over the feasible ones
static BigInt real_floor(State &s, const expr &e0) {
    expr e = canon(e0);
    if (e.is_numeral()) {
        BigRat q = numeral_rat(e);
        BigInt n = numerator(q), d = denominator(q), f = n / d;
        if (n < 0 && f * d != n) f -= 1;
        return f;
    }
    static std::unordered_map<unsigned, std::vector<std::pair<int64_t, expr>>> seen;
    for (auto &p : seen[e.id()]) {
        auto it = s.known.find(p.second.id());
        if (it != s.known.end() && it->second) return p.first;
    }
    keepalive.push_back(e);
    if (opt.lazy) {       // often there is no choice
        expr c = (e >= 0 && e < 1).simplify();
        if (query(s, simp(!c), nullptr, false, opt.fms) == UNSAT) return 0;
    }
    for (int n = 0;; ++n) {
        if (n > opt.concmax) unsupported("too many integer parts");
        std::shared_ptr<z3::model> mo;
        static expr probe = zc->real_const("floor!argument");
        keepalive.push_back(probe);
        Res r = query(s, probe == e, &mo, !opt.apart);
        if (r == UNSAT) throw PathEnd{"infeasible", ""};
        if (!mo) unsupported("unknown while taking an integer part");
        expr v = mo->eval(e, true);
        double lo;
        if (v.is_numeral()) {
            BigRat q = numeral_rat(v);
            BigInt f = numerator(q) / denominator(q);
            if (q < 0 && f * denominator(q) != numerator(q)) f -= 1;
            lo = (double)f;
        } else lo = std::floor(strtod(num_str(v, 'r').c_str(), 0));
        for (int dlt : {0, -1, 1}) {
            int64_t k = (int64_t)lo + dlt;
            expr c = (e >= zc->real_val((int64_t)k) && e < zc->real_val((int64_t)(k + 1))).simplify();
            if (dlt != 0 && v.is_numeral()) break;
            // only take the side that is feasible
            if (dlt == 0 || query(s, c) != UNSAT) {
                seen[e.id()].push_back({k, c});
                if (branch(s, c)) return k;
                break;
            }
        }
    }
}
static BigInt real_trunc(State &s, const expr &e) {
    if (branch(s, (e < 0).simplify())) return -real_floor(s, -e);
    return real_floor(s, e);
}
static int64_t lazy_value(State &s, const expr &real) { return (int64_t)real_trunc(s, real); }
static Val big_to_real(const Ty &t, const BigInt &n) { return mkreal(zc->real_val(n.str().c_str())); }

// ------------------------------------------------ libm
static Val fp_round_int(State &s, const Ty &t, const Val &a, char how) {   // f c t r(half away) e(half even)
    MkTy mkty(t);
    if (a.conc()) {
        double x = fval(t, a.c);
        double r = how == 'f' ? std::floor(x) : how == 'c' ? std::ceil(x) : how == 't' ? std::trunc(x) : how == 'r' ? std::round(x) : std::nearbyint(x);
        return fconst(t, r);
    }
    if (!REAL) {
        Z3_ast rm = how == 'f' ? Z3_mk_fpa_rtn(*zc) : how == 'c' ? Z3_mk_fpa_rtp(*zc) : how == 't' ? Z3_mk_fpa_rtz(*zc) : how == 'r' ? Z3_mk_fpa_rna(*zc) : Z3_mk_fpa_rne(*zc);
        return Val(expr(*zc, Z3_mk_fpa_round_to_integral(*zc, rm, a.e())));
    }
    const expr &e = a.e();
    switch (how) {
    case 'f': return big_to_real(t, real_floor(s, e));
    case 'c': return big_to_real(t, -real_floor(s, -e));
    case 't': return big_to_real(t, real_trunc(s, e));
    case 'r':
        if (branch(s, (e < 0).simplify())) return big_to_real(t, -real_floor(s, -e + rc(1, 2)));
        return big_to_real(t, real_floor(s, e + rc(1, 2)));
    default: {
        BigInt n = real_floor(s, e + rc(1, 2));
        if (n % 2 != 0 && branch(s, (e + rc(1, 2) == zc->real_val(n.str().c_str())).simplify())) n -= 1;
        return big_to_real(t, n); }
    }
}
// a single product of powers?
static bool monomial(const expr &e, Mono &m, BigRat &k) {
    try {
        auto p = poly(e);
        if (p->size() != 1) return false;
        m = p->begin()->first; k = p->begin()->second;
        return true;
    } catch (PolyBig &) { return false; }
}
static expr mono_expr(const Mono &m, const BigRat &k) { Poly p; p.emplace(m, k); return unpoly(p); }
static Val fp_sqrt(State &s, const Ty &t, const Val &a) {
    MkTy mkty(t);
    if (a.conc()) {
        double x = fval(t, a.c);
        if (t.k == T_FLT && (!REAL || opt.mixed)) return Val(f2bits(std::sqrt((float)x)));
        double r = std::sqrt(x);
        if (!REAL || opt.mixed || !std::isfinite(r) || std::fma(r, r, -x) == 0) return fconst(t, r);
        return mkreal(sqrt_atom(rdbl(x)));
    }
    if (!REAL) return Val(expr(*zc, Z3_mk_fpa_sqrt(*zc, RNE(), a.e())));
    {   // a square: the absolute value
        Mono m, h; BigRat k;
        expr n = canon(a.e());
        if (opt.mixed && n.is_numeral()) return fconst(t, std::sqrt(rat_double(numeral_rat(n))));
        bool even = monomial(canon(a.e()), m, k) && !m.empty() && m.size() % 2 == 0 && k > 0;
        for (size_t i = 0; even && i < m.size(); i += 2) { even = m[i] == m[i + 1]; h.push_back(m[i]); }
        if (even) {
            expr v = mono_expr(h, 1);
            bool neg = branch(s, (v < 0).simplify());
            return mkreal(canon(sqrt_atom(rat_expr(k)) * (neg ? -v : v)));
        }
    }
    if (branch(s, (a.e() < 0).simplify())) return fconst(t, NAN);
    return mkreal(sqrt_atom(a.e()));
}
static Val fp_abs(State &s, const Ty &t, const Val &a) {
    MkTy mkty(t);
    if (a.conc()) return fconst(t, std::fabs(fval(t, a.c)));
    if (!REAL) return Val(expr(*zc, Z3_mk_fpa_abs(*zc, a.e())));
    if (branch(s, (a.e() < 0).simplify())) return mkreal(-a.e());
    return a;
}
static Val fp_atan2(State &s, const Ty &t, const Val &y, const Val &x) {
    MkTy mkty(t);
    if (y.conc() && x.conc()) {
        double yd = fval(t, y.c), xd = fval(t, x.c);
        if (!REAL || opt.mixed) return fconst(t, std::atan2(yd, xd));
        if (yd == 0) { if (xd >= 0) return fconst(t, 0.0); return Val(*pi_e); }
        if (xd == 0) return mkreal(*pi_e / (yd > 0 ? 2 : -2));
        if (std::fabs(xd) == std::fabs(yd)) {
            expr q = xd > 0 ? *pi_e / 4 : 3 * *pi_e / 4;
            return mkreal(yd > 0 ? q : -q);
        }
    }
    if (!REAL) unsupported("atan2 of symbolic IEEE values");
    expr ye = canon(fexpr(t, y)), xe = canon(fexpr(t, x));
    if (branch(s, (ye == 0 && xe == 0).simplify())) return fconst(t, 0.0);
    {   // a fixed direction, scaled
        Mono my, mx; BigRat ky = 0, kx = 0;
        bool oy = ye.is_numeral() && numeral_rat(ye) == 0, ox = xe.is_numeral() && numeral_rat(xe) == 0;
        bool fixed = (oy || monomial(ye, my, ky)) && (ox || monomial(xe, mx, kx)) && !(oy && ox);
        if (fixed && !oy && !ox) fixed = my == mx;
        Mono m = oy ? mx : my;
        if (fixed) {
            if (!m.empty() && branch(s, (mono_expr(m, 1) < 0).simplify())) { ky = -ky; kx = -kx; }
            if (opt.mixed) return fconst(t, std::atan2(rat_double(ky), rat_double(kx)));
            if (ky == 0) return kx > 0 ? fconst(t, 0.0) : Val(*pi_e);
            if (kx == 0) return mkreal(*pi_e / (ky > 0 ? 2 : -2));
            BigRat ax = kx < 0 ? BigRat(-kx) : kx, ay = ky < 0 ? BigRat(-ky) : ky;
            if (ax == ay) { expr q = kx > 0 ? *pi_e / 4 : 3 * *pi_e / 4; return mkreal(ky > 0 ? q : -q); }
            BigRat q = ky / ax;
            bool left = kx < 0;
            static std::map<std::pair<BigRat, bool>, expr> fix;
            auto it = fix.find({q, left});
            if (it == fix.end()) {
                expr r = sqrt_atom(rat_expr(q * q + 1)), th = fresh_real("atan2");
                expr c = canon(rc(left ? -1 : 1) / rc(1)), sn = rat_expr(q);
                double v = std::atan2(rat_double(q), left ? -1.0 : 1.0);
                if (r.is_numeral()) { c = (c / r).simplify(); sn = (sn / r).simplify(); }
                else { c = quotient(c, r); sn = quotient(sn, r); }
                Atom at{th, c, sn, true};
                atoms.emplace(th.id(), at);
                keepalive.push_back(th); keepalive.push_back(c); keepalive.push_back(sn);
                ranged_atoms.push_back(th.id());
                add_def(th, th >= rdbl(v - 1e-14)); add_def(th, th <= rdbl(v + 1e-14));
                it = fix.emplace(std::make_pair(q, left), th).first;
            }
            return Val(it->second);
        }
    }
    try {   // the direction of a known angle, turned by a fixed one and scaled: m * (f + i g) * (c + i s)
        auto px = poly(xe), py = poly(ye);
        if (px->size() <= 2 && py->size() <= 2 && !px->empty() && !py->empty()) for (unsigned id : ranged_atoms) {
            Atom &A = atoms.at(id);
            if (A.c.is_numeral() || A.s.is_numeral()) continue;
            auto without = [](const Mono &mono, unsigned a, Mono &rest) {
                rest = mono;
                auto q = std::find(rest.begin(), rest.end(), a);
                if (q == rest.end()) return false;
                rest.erase(q);
                return true;
            };
            Mono m;
            if (!without(px->begin()->first, A.c.id(), m) && !without(px->begin()->first, A.s.id(), m)) continue;
            auto with = [&](const expr &a) { Mono r = m; r.insert(std::upper_bound(r.begin(), r.end(), a.id()), a.id()); return r; };
            Mono mc = with(A.c), ms = with(A.s);
            auto get = [](const Poly &p, const Mono &mono) { auto q = p.find(mono); return q == p.end() ? BigRat(0) : q->second; };
            BigRat f = get(*px, mc), g = -get(*px, ms);
            Poly wx, wy;
            padd(wx, mc, f); padd(wx, ms, -g); padd(wy, ms, f); padd(wy, mc, g);
            auto same = [](const Poly &u, const Poly &v) {
                if (u == v) return true;
                // constants are rounded in mixed mode
                if (!opt.mixed || u.size() != v.size()) return false;
                for (auto i = u.begin(), j = v.begin(); i != u.end(); ++i, ++j) {
                    if (i->first != j->first) return false;
                    double a = rat_double(i->second), b = rat_double(j->second);
                    if (std::fabs(a - b) > 1e-13 * std::fabs(a)) return false;
                }
                return true;
            };
            if (!same(wx, *px) || !same(wy, *py)) continue;
            expr th = A.th;
            if (!m.empty() && branch(s, (mono_expr(m, 1) < 0).simplify())) { f = -f; g = -g; }
            Val turn = fp_atan2(s, t, mkreal(rat_expr(g)), mkreal(rat_expr(f)));
            expr r = right_angles(canon(th + fexpr(t, turn)));
            if (branch(s, (r > *pi_e).simplify())) r = canon(r - 2 * *pi_e);
            else if (branch(s, (r <= -*pi_e).simplify())) r = canon(r + 2 * *pi_e);
            return mkreal(r);
        }
    } catch (PolyBig &) {}
    static std::map<std::pair<unsigned, unsigned>, expr> tab;
    auto key = std::make_pair(ye.id(), xe.id());
    auto it = tab.find(key);
    if (it == tab.end()) {
        keepalive.push_back(ye); keepalive.push_back(xe);
        expr th = fresh_real("atan2"), c = fresh_real("cos"), sn = fresh_real("sin");
        expr r = sqrt_atom(xe * xe + ye * ye);
        std::vector<expr> ax = {xe == r * c, ye == r * sn, c * c + sn * sn == 1};
        for (auto &v : {c, sn, th}) for (auto &a : ax) add_def(v, a);
        new_ranged(th, c, sn);
        add_def(th, th > -*pi_e);
        it = tab.emplace(key, th).first;
    }
    return Val(it->second);
}
static Val fp_trig(State &s, const Ty &t, const Val &a, char which) {
    MkTy mkty(t);
    if (a.conc() && (!REAL || opt.mixed)) {
        double x = fval(t, a.c);
        if (t.k == T_FLT) { float f = (float)x; return Val(f2bits(which == 'c' ? std::cos(f) : which == 's' ? std::sin(f) : std::tan(f))); }
        return fconst(t, which == 'c' ? std::cos(x) : which == 's' ? std::sin(x) : std::tan(x));
    }
    if (!REAL) unsupported("trigonometry on symbolic IEEE values");
    if (a.conc() && !std::isfinite(fval(t, a.c))) return fconst(t, NAN);
    CS cs = cos_sin(fexpr(t, a));
    if (which == 'c') return mkreal(cs.first);
    if (which == 's') return mkreal(cs.second);
    Ty dt = t;
    return fbin(s, Instruction::FDiv, dt, mkreal(cs.second), mkreal(cs.first));
}
static Val fp_arc(State &s, const Ty &t, const Val &a, char which) {   // a acos, s asin, t atan
    MkTy mkty(t);
    if (a.conc()) {
        double x = fval(t, a.c);
        if (!REAL || opt.mixed) return fconst(t, which == 'a' ? std::acos(x) : which == 's' ? std::asin(x) : std::atan(x));
        if (std::isnan(x)) return fconst(t, NAN);
        expr pi = *pi_e;
        if (which == 'a') {
            if (x == 1) return fconst(t, 0.0);
            if (x == 0) return mkreal(pi / 2);
            if (x == -1) return Val(pi);
            if (x == 0.5) return mkreal(pi / 3);
            if (x == -0.5) return mkreal(2 * pi / 3);
        } else if (which == 's') {
            if (x == 0) return fconst(t, 0.0);
            if (x == 1) return mkreal(pi / 2);
            if (x == -1) return mkreal(-pi / 2);
            if (x == 0.5) return mkreal(pi / 6);
            if (x == -0.5) return mkreal(-pi / 6);
        } else {
            if (x == 0) return fconst(t, 0.0);
            if (x == 1) return mkreal(pi / 4);
            if (x == -1) return mkreal(-pi / 4);
            if (std::isinf(x)) return mkreal(x > 0 ? pi / 2 : -pi / 2);
        }
        if (which != 't' && std::fabs(x) > 1) return fconst(t, NAN);
    }
    if (!REAL) unsupported("inverse trigonometry on symbolic IEEE values");
    expr v = canon(fexpr(t, a));
    if (which != 't' && branch(s, (v > 1 || v < -1).simplify())) return fconst(t, NAN);
    static std::map<std::pair<char, unsigned>, expr> tab;
    auto key = std::make_pair(which, v.id());
    auto it = tab.find(key);
    if (it == tab.end()) {
        keepalive.push_back(v);
        expr th = fresh_real("arc"), c = fresh_real("cos"), sn = fresh_real("sin");
        std::vector<expr> ax = {c * c + sn * sn == 1};
        expr pi = *pi_e;
        if (which == 'a') { ax.push_back(c == v); ax.push_back(sn >= 0); ax.push_back(th >= 0); }
        else if (which == 's') { ax.push_back(sn == v); ax.push_back(c >= 0); ax.push_back(2 * th <= pi); ax.push_back(2 * th >= -pi); }
        else { ax.push_back(sn == v * c); ax.push_back(c > 0); ax.push_back(2 * th < pi); ax.push_back(2 * th > -pi); }
        for (auto &x : {c, sn, th}) for (auto &q : ax) add_def(x, q);
        if (v.is_numeral()) {
            double d = rat_double(numeral_rat(v));
            double m = which == 'a' ? std::acos(d) : which == 's' ? std::asin(d) : std::atan(d);
            add_def(th, th >= rdbl(m - 1e-14)); add_def(th, th <= rdbl(m + 1e-14));
        }
        new_ranged(th, c, sn);
        it = tab.emplace(key, th).first;
    }
    return Val(it->second);
}
static Val fp_pow(State &s, const Ty &t, const Val &a, const Val &b) {
    MkTy mkty(t);
    if (b.conc()) {
        double n = fval(t, b.c);
        if (n == 2.0) return fbin(s, Instruction::FMul, t, a, a);
        if (n == 1.0) return a;
        if (n == 0.0) return fconst(t, 1.0);
        if (n == 0.5) return fp_sqrt(s, t, a);
        if (n == 3.0) return fbin(s, Instruction::FMul, t, fbin(s, Instruction::FMul, t, a, a), a);
        if (a.conc() && !REAL) return fconst(t, std::pow(fval(t, a.c), n));
    }
    unsupported("pow");
}
static Val fp_fmod(State &s, const Ty &t, const Val &a, const Val &b) {
    MkTy mkty(t);
    if (a.conc() && b.conc()) return fconst(t, std::fmod(fval(t, a.c), fval(t, b.c)));
    if (!REAL) unsupported("fmod on symbolic IEEE values");
    expr x = fexpr(t, a), m = fexpr(t, b);
    // x/m as a term the floor search can evaluate
    BigInt n = 0;
    expr r = x;
    if (branch(s, (x < 0).simplify())) {
        Lin l; lin_add(l, canon(-x), 1);
        if (is_pi((m / 2).simplify()) && l.t.empty() && l.k == 0) { BigRat q = l.pi / 2; n = numerator(q) / denominator(q); return mkreal(x + zc->real_val(n.str().c_str()) * m); }
        for (int k = 0; k < 64; ++k) if (branch(s, (-x < zc->real_val(k + 1) * m).simplify())) return mkreal(x + zc->real_val(k) * m);
    } else {
        Lin l; lin_add(l, canon(x), 1);
        if (is_pi((m / 2).simplify()) && l.t.empty() && l.k == 0) { BigRat q = l.pi / 2; n = numerator(q) / denominator(q); return mkreal(x - zc->real_val(n.str().c_str()) * m); }
        for (int k = 0; k < 64; ++k) if (branch(s, (x < zc->real_val(k + 1) * m).simplify())) return mkreal(x - zc->real_val(k) * m);
    }
    unsupported("fmod quotient too large");
}
static Val fp_to_int(State &s, const Ty &t, const Val &a, unsigned w, bool sgn) {
    if (a.conc()) {
        double x = fval(t, a.c);
        // x86 semantics of cvttsd2si
        if (sgn || w < 64) {
            if (sgn && w <= 32) {
                if (!(x > -2147483649.0 && x < 2147483648.0)) return Val(maskw(0x80000000u, w));
                return Val(maskw((uint64_t)(int64_t)x, w));
            }
            if (!(x >= -9223372036854775808.0 && x < 9223372036854775808.0)) return Val(maskw(0x8000000000000000ull, w));
            return Val(maskw((uint64_t)(int64_t)x, w));
        }
        if (x >= 9223372036854775808.0) return Val((uint64_t)x);
        if (!(x > -9223372036854775808.0)) return Val(0x8000000000000000ull);
        return Val((uint64_t)(int64_t)x);
    }
    if (REAL) {
        if (opt.lazy) {
            expr e = canon(a.e());
            static std::map<std::pair<unsigned, unsigned>, expr> tab;
            auto key = std::make_pair(e.id(), w);
            auto it = tab.find(key);
            if (!e.is_numeral()) {
                if (it == tab.end()) {
                    keepalive.push_back(e);
                    expr b = zc->bv_const(("part!" + std::to_string(tab.size())).c_str(), w);
                    keepalive.push_back(b);
                    lazies.emplace(b.id(), std::make_pair(b, e));
                    it = tab.emplace(key, b).first;
                }
                return Val(it->second);
            }
        }
        BigInt n = real_trunc(s, a.e());
        return Val(maskw((uint64_t)(int64_t)n, w));
    }
    unsigned iw = (sgn && w <= 32) ? 32 : 64;
    expr e = a.e();
    double lim = std::ldexp(1.0, iw - 1);
    Ty dt = t;
    Val lo = fcmp_v(s, CmpInst::FCMP_OGT, dt, a, fconst(dt, iw == 32 ? -2147483649.0 : -std::ldexp(1.0, 63) * (1 + 2e-16)));
    Val hi = fcmp_v(s, CmpInst::FCMP_OLT, dt, a, fconst(dt, lim));
    expr in = (asbool(lo) && asbool(hi)).simplify();
    if (!branch(s, in)) return Val(maskw(iw == 32 ? 0x80000000ull : 0x8000000000000000ull, w));
    expr b(*zc, Z3_mk_fpa_to_sbv(*zc, RTZ(), e, iw));
    if (w < iw) b = b.extract(w - 1, 0);
    return mkint(w, b);
}
static std::unordered_map<unsigned, std::pair<int64_t, int64_t>> wide_inputs;      // plain int inputs of more than a million values
static Val int_to_fp(State &s, const Ty &t, const Val &a, unsigned w, bool sgn) {
    MkTy mkty(t);
    Val v = a;
    if (v.sym() && w == 1) v = Val((uint64_t)bval(s, v));
    if (v.sym() && REAL) {
        // an input of wide range becomes a real number; everything else is split into cases
        expr b = v.e();
        if (w == 32 && b.is_const() && wide_inputs.count(b.id())) {
            static std::unordered_map<unsigned, expr> tab;
            auto it = tab.find(b.id());
            if (it == tab.end()) {
                keepalive.push_back(b);
                expr r = fresh_real("int");
                add_def(r, r == expr(*zc, Z3_mk_int2real(*zc, Z3_mk_bv2int(*zc, b, sgn))));
                add_def(r, r >= zc->real_val((int64_t)wide_inputs[b.id()].first)); add_def(r, r <= zc->real_val((int64_t)wide_inputs[b.id()].second));
                it = tab.emplace(b.id(), r).first;
            }
            return Val(it->second);
        }
        v = Val(concretize(s, v, w));
    }
    if (v.conc()) {
        if (sgn) return fconst(t, (double)sext(v.c, w));
        return fconst(t, (double)maskw(v.c, w));
    }
    expr e = v.e();
    if (sgn) return Val(expr(*zc, Z3_mk_fpa_to_fp_signed(*zc, RNE(), e, zc->fpa_sort(fp_e(t), fp_s(t)))));
    return Val(expr(*zc, Z3_mk_fpa_to_fp_unsigned(*zc, RNE(), e, zc->fpa_sort(fp_e(t), fp_s(t)))));
}
