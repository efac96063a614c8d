// Models of functions that are not executed from IR: harness inputs, allocation,
// exceptions, libm, and output (which is dropped).
static const std::string *curdem;
static Function *curcallee;
static bool transferred;

static void x_nop(State &s, Ins &, std::vector<Val> &a, Val &r) { r = Val((uint64_t)0); }
static void x_arg0(State &s, Ins &, std::vector<Val> &a, Val &r) { r = a.empty() ? Val((uint64_t)0) : a[0]; }

static void x_malloc(State &s, Ins &, std::vector<Val> &a, Val &r) {
    uint64_t n = concretize(s, a[0], 64);
    uint32_t id = alloc_obj(s, n, 'h', "heap block");
    r = Val(base_of(id));
}
static void x_calloc(State &s, Ins &, std::vector<Val> &a, Val &r) {
    uint64_t n = concretize(s, a[0], 64), m = concretize(s, a[1], 64);
    uint32_t id = alloc_obj(s, n * m, 'h', "heap block");
    mem_set(s, base_of(id), Val((uint64_t)0), n * m);
    r = Val(base_of(id));
}
static void x_free(State &s, Ins &, std::vector<Val> &a, Val &r) {
    uint64_t p = concretize(s, a[0], 64);
    if (p == 0) return;
    Obj *o = s.mem.get(p >> 32);
    if (!o || (p & 0xffffffff) || o->kind != 'h') path_error(s, "memory", o && o->kind == 'h' ? "free of a pointer into a block" : "double or invalid free");
    s.mem.kill(p >> 32);
}
static void x_realloc(State &s, Ins &, std::vector<Val> &a, Val &r) {
    uint64_t p = concretize(s, a[0], 64), n = concretize(s, a[1], 64);
    uint32_t id = alloc_obj(s, n, 'h', "heap block");
    if (p) { Obj *o = s.mem.get(p >> 32); if (!o) path_error(s, "memory", "realloc of freed block"); mem_copy(s, base_of(id), p, std::min(n, o->size)); s.mem.kill(p >> 32); }
    r = Val(base_of(id));
}
static void x_memcpy(State &s, Ins &, std::vector<Val> &a, Val &r) {
    uint64_t n = concretize(s, a[2], 64);
    if (n) mem_copy(s, concretize(s, a[0], 64), concretize(s, a[1], 64), n);
    r = a[0];
}
static void x_memset(State &s, Ins &in, std::vector<Val> &a, Val &r) {
    uint64_t n = concretize(s, a[2], 64);
    Val v = a[1];
    if (v.conc()) v = Val(v.c & 255);
    else if (v.e().is_bv() && v.e().get_sort().bv_size() > 8) v = mkint(8, v.e().extract(7, 0));
    if (n) mem_set(s, concretize(s, a[0], 64), v, n);
    r = a[0];
}
// ---- harness inputs
static void push_input(State &s, const std::string &n, char kind, const Val &v, int w) { s.inputs.push_back(Input{n, kind, v, w}); }
static void x_sx_int(State &s, Ins &, std::vector<Val> &a, Val &r) {
    std::string n = read_cstr(s, a[0].c);
    int64_t lo = sext(concretize(s, a[1], 32), 32), hi = sext(concretize(s, a[2], 32), 32);
    if (lo > hi) throw PathEnd{"infeasible", ""};
    if (lo == hi) { r = Val(maskw((uint64_t)lo, 32)); push_input(s, n, 'i', r, 32); return; }
    r = fresh_int(s, n, 32);
    push_input(s, n, 'i', r, 32);
    if (hi - lo > 1000000) wide_inputs[r.e().id()] = {lo, hi};
    add_pc(s, (r.e() >= zc->bv_val((int64_t)lo, 32) && r.e() <= zc->bv_val((int64_t)hi, 32)).simplify());
    s.model = nullptr;
}
static void x_sx_u8(State &s, Ins &, std::vector<Val> &a, Val &r) {
    std::string n = read_cstr(s, a[0].c);
    r = fresh_int(s, n, 8);
    push_input(s, n, 'i', r, 8);
}
static void x_sx_u32(State &s, Ins &, std::vector<Val> &a, Val &r) {
    std::string n = read_cstr(s, a[0].c);
    r = fresh_int(s, n, 32);
    push_input(s, n, 'i', r, 32);
}
static void x_sx_bool(State &s, Ins &, std::vector<Val> &a, Val &r) {
    std::string n = read_cstr(s, a[0].c);
    r = fresh_int(s, n, 1);
    push_input(s, n, 'i', r, 1);
}
static void x_sx_real(State &s, Ins &, std::vector<Val> &a, Val &r) {
    std::string n = read_cstr(s, a[0].c);
    std::string nm = n + "#" + std::to_string(s.inputs.size());
    Ty t; t.k = T_DBL; t.w = 64; t.size = 8;
    if (REAL) {
        expr v = zc->real_const(nm.c_str());
        r = Val(v);
        if (a[1].conc() && a[2].conc() && std::isfinite(bits2d(a[1].c)) && std::isfinite(bits2d(a[2].c))) {
            keepalive.push_back(v);
            auto p = magnitude.emplace(v.id(), 0).first;
            for (int k = 1; k < 3; ++k) { BigRat b = numeral_rat(rdbl(std::fabs(bits2d(a[k].c)))); if (b > p->second) p->second = b; }
        }
        if (!(a[1].conc() && std::isinf(bits2d(a[1].c)))) add_pc(s, v >= fexpr(t, a[1]));
        if (!(a[2].conc() && std::isinf(bits2d(a[2].c)))) add_pc(s, v <= fexpr(t, a[2]));
    } else {
        expr v = zc->constant(nm.c_str(), zc->fpa_sort(11, 53));
        r = Val(v);
        add_pc(s, expr(*zc, Z3_mk_fpa_geq(*zc, v, fexpr(t, a[1]))));
        add_pc(s, expr(*zc, Z3_mk_fpa_leq(*zc, v, fexpr(t, a[2]))));
    }
    push_input(s, n, 'd', r, 64);
    s.model = nullptr;
}
static void x_sx_f64(State &s, Ins &, std::vector<Val> &a, Val &r) {
    std::string n = read_cstr(s, a[0].c);
    std::string nm = n + "#" + std::to_string(s.inputs.size());
    if (REAL) r = Val(zc->real_const(nm.c_str()));
    else r = Val(zc->constant(nm.c_str(), zc->fpa_sort(11, 53)));
    push_input(s, n, 'd', r, 64);
    s.model = nullptr;
}
// an angle in [-pi,pi]
static void x_sx_angle(State &s, Ins &, std::vector<Val> &a, Val &r) {
    if (!REAL) unsupported("sx_angle outside real mode");
    std::string n = read_cstr(s, a[0].c);
    std::string nm = n + "#" + std::to_string(s.inputs.size());
    expr th = zc->real_const(nm.c_str());
    if (!atoms.count(th.id())) {
        keepalive.push_back(th); syms(th);
        expr c = zc->real_const((nm + ".cos").c_str()), sn = zc->real_const((nm + ".sin").c_str());
        syms(c); syms(sn); keepalive.push_back(c); keepalive.push_back(sn);
        expr ax = c * c + sn * sn == 1;
        add_def(c, ax); add_def(sn, ax);
        new_ranged(th, c, sn);
        // a query about cos/sin alone does not need the angle
    }
    r = Val(th);
    push_input(s, n, 'd', r, 64);
}
// the same direction in [-pi,pi), without splitting into cases
static void x_sx_clamp(State &s, Ins &, std::vector<Val> &a, Val &r) {
    Ty t; t.k = T_DBL; t.w = 64; t.size = 8;
    if (!REAL) unsupported("sx_clamp outside real mode");
    if (a[0].conc() && opt.mixed) {
        double x = bits2d(a[0].c);
        while (x >= M_PI) x -= 2 * M_PI;
        while (x < -M_PI) x += 2 * M_PI;
        r = fconst(t, x);
        return;
    }
    if (a[0].conc() && !std::isfinite(bits2d(a[0].c))) { r = fconst(t, NAN); return; }
    expr e = right_angles(canon(fexpr(t, a[0]))), pi = *pi_e;
    static std::unordered_map<unsigned, expr> tab;
    static std::set<unsigned> small;
    auto it = tab.find(e.id());
    if (it == tab.end()) {
        Lin l; lin_add(l, e, 1);
        keepalive.push_back(e);
        if (l.t.empty()) {
            double v = rat_double(l.k) + rat_double(l.pi) * M_PI;
            double k = std::floor((v + M_PI) / (2 * M_PI) + (l.k == 0 ? 1e-12 : 0));
            it = tab.emplace(e.id(), canon(e - zc->real_val((int64_t)(2 * k)) * pi)).first;
        } else {
            CS cs = cos_sin(e);
            expr c = fresh_real("clamp");
            Atom at{c, cs.first, cs.second, true};
            Atom &A = atoms.emplace(c.id(), at).first->second;
            size_t n = ranged_atoms.size();
            bool exact = !opt.mixed;
            if (!exact) try { expr u = canon(A.c * A.c + A.s * A.s); exact = u.is_numeral() && numeral_rat(u) == 1; } catch (PolyBig &) {}
            if (exact) ranged_axioms(A, c);      // rounded constants do not satisfy them exactly
            else for (auto &x : {A.c, A.s}) for (unsigned id : syms(x)) trig_syms.insert(id);
            ranged_atoms.resize(n);       // relations to other angles follow from those of its parts
            add_def(c, c >= -pi); add_def(c, c < pi); half_turn.insert(c.id());
            // only the turns its parts allow
            double mid, rad;
            lin_range(l, mid, rad);
            expr any = zc->bool_val(false);
            for (int m = -2; m <= 2; ++m) if (mid + rad >= -M_PI * (1 + 2 * m) - 1e-6 && mid - rad <= M_PI * (1 - 2 * m) + 1e-6) any = any || c == (m ? (e + zc->real_val(2 * m) * pi) : e);
            add_def(c, any.simplify());
            if (mid + rad < 5 * M_PI - 1e-6 && mid - rad > -5 * M_PI + 1e-6) small.insert(e.id());
            it = tab.emplace(e.id(), c).first;
        }
    }
    expr e0 = e;
    if (!small.count(e.id()) && it->second.is_const() && !it->second.is_numeral() && !branch(s, (e0 < 5 * pi && e0 >= -5 * pi).simplify())) unsupported("angle too large for sx_clamp");
    r = Val(it->second);
}
// a rational direction: returns an angle whose cos/sin are (1-t^2)/(1+t^2), 2t/(1+t^2)
static void x_sx_assume(State &s, Ins &, std::vector<Val> &a, Val &r) {
    if (a[0].conc()) { if (!(a[0].c & 1)) throw PathEnd{"infeasible", ""}; return; }
    expr c = force(s, asbool(a[0]));
    if (c.is_true()) return;
    auto it = s.known.find(c.id());
    if (it != s.known.end()) { if (!it->second) throw PathEnd{"infeasible", ""}; return; }
    if (s.model && model_true(s, c)) { add_pc(s, c); note_known(s, c, 1); return; }
    std::shared_ptr<z3::model> m;
    Res q = query(s, c, REAL ? nullptr : &m);
    if (q == UNSAT) throw PathEnd{"infeasible", ""};
    s.model = m;
    add_pc(s, c);
    note_known(s, c, 1);
}
static void x_sx_check(State &s, Ins &, std::vector<Val> &a, Val &r) { do_check(s, a[0], read_cstr(s, a[1].c)); }
static void x_sx_fail(State &s, Ins &, std::vector<Val> &a, Val &r) { stats.checks++; stats.checkmsgs[read_cstr(s, a[0].c)]++; report(s, "assert", read_cstr(s, a[0].c), nullptr); throw PathEnd{"error", "fail"}; }
static void x_sx_conc(State &s, Ins &, std::vector<Val> &a, Val &r) { r = Val(concretize(s, a[0], 32)); }
static void x_sx_fork(State &s, Ins &, std::vector<Val> &a, Val &r) { r = Val((uint64_t)bval(s, a[0])); }
static void x_sx_reach(State &s, Ins &, std::vector<Val> &a, Val &r) { s.reached.push_back(read_cstr(s, a[0].c)); }
static void x_sx_stop(State &s, Ins &, std::vector<Val> &a, Val &r) { throw PathEnd{"exit", ""}; }
static void x_sx_is_symbolic(State &s, Ins &, std::vector<Val> &a, Val &r) { r = Val(1); }
static void x_sx_real_mode(State &s, Ins &, std::vector<Val> &a, Val &r) { r = Val((uint64_t)REAL); }
static void x_sx_logi(State &s, Ins &, std::vector<Val> &a, Val &r) { Ty t; t.k = T_INT; t.w = 32; s.dumps.push_back({read_cstr(s, a[0].c), a[1]}); s.dumpty.push_back(t); }
static void x_sx_logd(State &s, Ins &, std::vector<Val> &a, Val &r) { Ty t; t.k = T_DBL; t.w = 64; s.dumps.push_back({read_cstr(s, a[0].c), a[1]}); s.dumpty.push_back(t); }
// |a-b| <= tol, in real mode without a fork
static void x_sx_near(State &s, Ins &, std::vector<Val> &a, Val &r) {
    Ty t; t.k = T_DBL; t.w = 64; t.size = 8;
    if (a[0].conc() && a[1].conc()) {
        double d = std::fabs(bits2d(a[0].c) - bits2d(a[1].c));
        r = Val((uint64_t)(d <= bits2d(a[2].c)));
        return;
    }
    for (int k = 0; k < 2; ++k) if (a[k].conc() && !std::isfinite(bits2d(a[k].c))) { r = Val((uint64_t)0); return; }
    if (!REAL) {
        Val d = fp_abs(s, t, fbin(s, Instruction::FSub, t, a[0], a[1]));
        r = fcmp_v(s, CmpInst::FCMP_OLE, t, d, a[2]);
        return;
    }
    expr x = fexpr(t, a[0]), y = fexpr(t, a[1]), tol = fexpr(t, a[2]);
    expr d = canon(x - y);
    if (d.is_numeral()) { BigRat q = numeral_rat(d), tq = numeral_rat(tol.simplify()); r = Val((uint64_t)(q <= tq && q >= -tq)); return; }
    {   // settled by the ranges of the inputs alone?
        BigRat mid, dev, tq;
        expr te = tol.simplify();
        if (te.is_numeral() && poly_range(d, mid, dev)) {
            tq = numeral_rat(te);
            if (mid + dev <= tq && mid - dev >= -tq) { r = Val((uint64_t)1); return; }
            if (mid - dev > tq || mid + dev < -tq) { r = Val((uint64_t)0); return; }
        }
    }
    // first try exact equality (much easier to prove); fall back to the tolerance
    r = mkint(1, d <= tol && -d <= tol);
    if (r.sym()) {
        expr c = r.e();
        if (!s.known.count(c.id())) {
            Res q = query(s, d != 0, nullptr, false, std::min(opt.qms, 8000u));
            if (q == UNSAT) { note_known(s, c, 1); r = Val(1); }
        }
    }
}
// ---- process level
static void x_abort(State &s, Ins &, std::vector<Val> &a, Val &r) { path_error(s, "abort", "abort/terminate called"); }
static void x_assert_fail(State &s, Ins &, std::vector<Val> &a, Val &r) { path_error(s, "abort", "assert(" + read_cstr(s, a[0].c) + ") failed"); }
static void x_pure(State &s, Ins &, std::vector<Val> &a, Val &r) { path_error(s, "abort", "pure virtual call"); }
static void x_clock(State &s, Ins &, std::vector<Val> &a, Val &r) { r = Val((uint64_t)(1000000ull * ++s.clk)); }
static void x_rand(State &s, Ins &, std::vector<Val> &a, Val &r) {
    r = fresh_int(s, "rand", 32);
    push_input(s, "rand", 'i', r, 32);
    wide_inputs[r.e().id()] = {0, 2147483647};
    add_pc(s, r.e() >= zc->bv_val(0, 32));
    s.model = nullptr;
}
// ---- exceptions
static void x_cxa_alloc(State &s, Ins &in, std::vector<Val> &a, Val &r) { x_malloc(s, in, a, r); s.mem.wr(r.c >> 32)->kind = 'e'; }
static void x_cxa_throw(State &s, Ins &, std::vector<Val> &a, Val &r) {
    s.exc_ti[a[0].c] = a[1].c;
    transferred = true;
    unwind(s, a[0].c);
}
static void x_begin_catch(State &s, Ins &, std::vector<Val> &a, Val &r) { s.caught.push_back(a[0].c); r = a[0]; }
static void x_end_catch(State &s, Ins &, std::vector<Val> &a, Val &r) { if (!s.caught.empty()) s.caught.pop_back(); }
static void x_rethrow(State &s, Ins &, std::vector<Val> &a, Val &r) {
    if (s.caught.empty()) path_error(s, "abort", "rethrow without exception");
    uint64_t o = s.caught.back();
    s.caught.pop_back();
    transferred = true;
    unwind(s, o);
}
static void x_std_throw(State &s, Ins &, std::vector<Val> &a, Val &r) {
    // std::__throw_xxx(...): an exception object without contents
    std::string n = *curdem;
    static const std::map<std::string, std::string> ti = {
        {"std::__throw_out_of_range", "_ZTISt12out_of_range"}, {"std::__throw_out_of_range_fmt", "_ZTISt12out_of_range"},
        {"std::__throw_length_error", "_ZTISt12length_error"}, {"std::__throw_bad_alloc", "_ZTISt9bad_alloc"},
        {"std::__throw_bad_array_new_length", "_ZTISt20bad_array_new_length"}, {"std::__throw_logic_error", "_ZTISt11logic_error"},
        {"std::__throw_bad_function_call", "_ZTISt17bad_function_call"}, {"std::__throw_bad_cast", "_ZTISt8bad_cast"}};
    size_t p = n.find('(');
    std::string base = p == std::string::npos ? n : n.substr(0, p);
    uint64_t t = 0;
    auto it = ti.find(base);
    if (it != ti.end()) if (auto *g = M->getGlobalVariable(it->second)) t = gaddr[g];
    uint32_t id = alloc_obj(s, 64, 'e', "exception");
    if (!t) {
        // nobody names the type: only catch(...) or std::exception handlers see it
        path_error(s, "exception", base + " called");
    }
    s.exc_ti[base_of(id)] = t;
    transferred = true;
    unwind(s, base_of(id));
}
static void x_typeid_for(State &s, Ins &, std::vector<Val> &a, Val &r) { r = Val(a[0].c ? a[0].c >> 32 : 1); }
static void x_dyncast(State &s, Ins &, std::vector<Val> &a, Val &r) {
    uint64_t p = concretize(s, a[0], 64);
    if (!p) { r = Val((uint64_t)0); return; }
    Ty pt; pt.k = T_PTR; pt.w = 64; pt.size = 8;
    Ty it; it.k = T_INT; it.w = 64; it.size = 8;
    uint64_t vp = concretize(s, load_at(s, p, pt), 64);
    int64_t top = (int64_t)load_at(s, vp - 16, it).c;
    uint64_t ti = load_at(s, vp - 8, pt).c;
    int64_t off;
    if (ti_offset(ti, a[2].c, off)) r = Val(p + top + off);
    else r = Val((uint64_t)0);
}
static void x_guard(State &s, Ins &, std::vector<Val> &a, Val &r) {
    Ty t; t.k = T_INT; t.w = 8; t.size = 1;
    Val v = load_at(s, a[0].c, t);
    r = Val((uint64_t)(v.c == 0));
}
static void x_guard_rel(State &s, Ins &, std::vector<Val> &a, Val &r) {
    Ty t; t.k = T_INT; t.w = 8; t.size = 1;
    store_at(s, a[0].c, t, Val(1));
}
// ---- intrinsics on integers
static void x_minmax(State &s, Ins &in, std::vector<Val> &a, Val &r) {
    unsigned w = in.ty.w;
    auto id = curcallee->getIntrinsicID();
    unsigned pred = id == Intrinsic::smax ? CmpInst::ICMP_SGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT;
    Val c = icmp_v(pred, w, a[0], a[1]);
    if (c.conc()) r = c.c ? a[0] : a[1];
    else r = mkint(w, z3::ite(asbool(c), iexpr(w, a[0]), iexpr(w, a[1])));
}
static void x_iabs(State &s, Ins &in, std::vector<Val> &a, Val &r) {
    unsigned w = in.ty.w;
    if (a[0].conc()) { int64_t v = sext(a[0].c, w); r = Val(maskw((uint64_t)(v < 0 ? -(uint64_t)v : (uint64_t)v), w)); return; }
    expr e = a[0].e();
    r = mkint(w, z3::ite(e < zc->bv_val(0, w), -e, e));
}
static void x_ovf(State &s, Ins &in, std::vector<Val> &a, Val &r) {
    auto id = curcallee->getIntrinsicID();
    unsigned w = curcallee->getArg(0)->getType()->getIntegerBitWidth();
    uint64_t x = concretize(s, a[0], w), y = concretize(s, a[1], w);
    __int128 sx = sext(x, w), sy = sext(y, w), res;
    unsigned __int128 ux = x, uy = y;
    bool o;
    uint64_t v;
    switch (id) {
    case Intrinsic::umul_with_overflow: { unsigned __int128 m = ux * uy; v = maskw((uint64_t)m, w); o = m != v; break; }
    case Intrinsic::uadd_with_overflow: { unsigned __int128 m = ux + uy; v = maskw((uint64_t)m, w); o = m != v; break; }
    case Intrinsic::usub_with_overflow: { v = maskw(x - y, w); o = y > x; break; }
    default:
        res = id == Intrinsic::smul_with_overflow ? sx * sy : id == Intrinsic::sadd_with_overflow ? sx + sy : sx - sy;
        v = maskw((uint64_t)res, w);
        o = res != (__int128)sext(v, w);
    }
    r = Val(); r.s = new SymBox(*zc); r.s->rc = 1;
    r.s->agg.push_back(Val(v));
    r.s->agg.push_back(Val((uint64_t)o));
}
static void x_bits(State &s, Ins &in, std::vector<Val> &a, Val &r) {
    unsigned w = in.ty.w;
    uint64_t x = concretize(s, a[0], w);
    switch (curcallee->getIntrinsicID()) {
    case Intrinsic::ctlz: { unsigned n = 0; while (n < w && !((x >> (w - 1 - n)) & 1)) ++n; r = Val(n); break; }
    case Intrinsic::cttz: { unsigned n = 0; while (n < w && !((x >> n) & 1)) ++n; r = Val(n); break; }
    case Intrinsic::bswap: { uint64_t v = 0; for (unsigned i = 0; i < w / 8; ++i) v |= ((x >> (8 * i)) & 255) << (w - 8 - 8 * i); r = Val(v); break; }
    default: { r = Val((uint64_t)__builtin_popcountll(x)); }
    }
}
static void x_fsh(State &s, Ins &in, std::vector<Val> &a, Val &r) {
    unsigned w = in.ty.w;
    uint64_t x = concretize(s, a[0], w), y = concretize(s, a[1], w), k = concretize(s, a[2], w) % w;
    if (curcallee->getIntrinsicID() == Intrinsic::fshl) r = Val(k ? maskw((x << k) | (y >> (w - k)), w) : x);
    else r = Val(k ? maskw((x << (w - k)) | (y >> k), w) : y);
}
static void x_sat(State &s, Ins &in, std::vector<Val> &a, Val &r) {
    unsigned w = in.ty.w;
    uint64_t x = concretize(s, a[0], w), y = concretize(s, a[1], w);
    if (curcallee->getIntrinsicID() == Intrinsic::usub_sat) r = Val(x > y ? x - y : 0);
    else { uint64_t v = maskw(x + y, w); r = Val(v < x ? maskw(~0ull, w) : v); }
}
static void x_expect(State &s, Ins &, std::vector<Val> &a, Val &r) { r = a[0]; }
static void x_objsize(State &s, Ins &, std::vector<Val> &a, Val &r) { r = Val(~0ull); }
static void x_isconst(State &s, Ins &, std::vector<Val> &a, Val &r) { r = Val((uint64_t)0); }
// ---- libm
#define FT in.oty
static void x_sqrt(State &s, Ins &in, std::vector<Val> &a, Val &r) { r = fp_sqrt(s, FT, a[0]); }
static void x_fabs(State &s, Ins &in, std::vector<Val> &a, Val &r) { r = fp_abs(s, FT, a[0]); }
static void x_floor(State &s, Ins &in, std::vector<Val> &a, Val &r) { r = fp_round_int(s, FT, a[0], 'f'); }
static void x_ceil(State &s, Ins &in, std::vector<Val> &a, Val &r) { r = fp_round_int(s, FT, a[0], 'c'); }
static void x_trunc(State &s, Ins &in, std::vector<Val> &a, Val &r) { r = fp_round_int(s, FT, a[0], 't'); }
static void x_round(State &s, Ins &in, std::vector<Val> &a, Val &r) { r = fp_round_int(s, FT, a[0], 'r'); }
static void x_rint(State &s, Ins &in, std::vector<Val> &a, Val &r) { r = fp_round_int(s, FT, a[0], 'e'); }
static void x_lround(State &s, Ins &in, std::vector<Val> &a, Val &r) { r = fp_to_int(s, FT, fp_round_int(s, FT, a[0], 'r'), 64, true); }
static void x_lrint(State &s, Ins &in, std::vector<Val> &a, Val &r) { r = fp_to_int(s, FT, fp_round_int(s, FT, a[0], 'e'), 64, true); }
static void x_cos(State &s, Ins &in, std::vector<Val> &a, Val &r) { r = fp_trig(s, FT, a[0], 'c'); }
static void x_sin(State &s, Ins &in, std::vector<Val> &a, Val &r) { r = fp_trig(s, FT, a[0], 's'); }
static void x_tan(State &s, Ins &in, std::vector<Val> &a, Val &r) { r = fp_trig(s, FT, a[0], 't'); }
static void x_sincos(State &s, Ins &in, std::vector<Val> &a, Val &r) {
    Ty t; t.k = T_DBL; t.w = 64; t.size = 8;
    Val sn = fp_trig(s, t, a[0], 's'), c = fp_trig(s, t, a[0], 'c');
    store_at(s, a[1].c, t, sn); store_at(s, a[2].c, t, c);
}
static void x_atan2(State &s, Ins &in, std::vector<Val> &a, Val &r) { r = fp_atan2(s, FT, a[0], a[1]); }
static void x_acos(State &s, Ins &in, std::vector<Val> &a, Val &r) { r = fp_arc(s, FT, a[0], 'a'); }
static void x_asin(State &s, Ins &in, std::vector<Val> &a, Val &r) { r = fp_arc(s, FT, a[0], 's'); }
static void x_atan(State &s, Ins &in, std::vector<Val> &a, Val &r) { r = fp_arc(s, FT, a[0], 't'); }
static void x_pow(State &s, Ins &in, std::vector<Val> &a, Val &r) { r = fp_pow(s, FT, a[0], a[1]); }
static void x_powi(State &s, Ins &in, std::vector<Val> &a, Val &r) { Ty t = FT; r = fp_pow(s, t, a[0], fconst(t, (double)sext(a[1].c, 32))); }
static void x_hypot(State &s, Ins &in, std::vector<Val> &a, Val &r) {
    if (a[0].conc() && a[1].conc() && (!REAL || opt.mixed)) { r = fconst(FT, std::hypot(fval(FT, a[0].c), fval(FT, a[1].c))); return; }
    r = fp_sqrt(s, FT, fbin(s, Instruction::FAdd, FT, fbin(s, Instruction::FMul, FT, a[0], a[0]), fbin(s, Instruction::FMul, FT, a[1], a[1])));
}
static void x_fmod(State &s, Ins &in, std::vector<Val> &a, Val &r) { r = fp_fmod(s, FT, a[0], a[1]); }
static void x_fma(State &s, Ins &in, std::vector<Val> &a, Val &r) { r = fbin(s, Instruction::FAdd, FT, fbin(s, Instruction::FMul, FT, a[0], a[1]), a[2]); }
static void x_fmax(State &s, Ins &in, std::vector<Val> &a, Val &r) { r = bval(s, fcmp_v(s, CmpInst::FCMP_OLT, FT, a[0], a[1])) ? a[1] : a[0]; }
static void x_fmin(State &s, Ins &in, std::vector<Val> &a, Val &r) { r = bval(s, fcmp_v(s, CmpInst::FCMP_OLT, FT, a[1], a[0])) ? a[1] : a[0]; }
static void x_copysign(State &s, Ins &in, std::vector<Val> &a, Val &r) {
    if (a[0].conc() && a[1].conc()) { r = fconst(FT, std::copysign(fval(FT, a[0].c), fval(FT, a[1].c))); return; }
    Val m = fp_abs(s, FT, a[0]);
    r = bval(s, fcmp_v(s, CmpInst::FCMP_OLT, FT, a[1], fconst(FT, 0.0))) ? fneg_v(FT, m) : m;
}
static void x_exp(State &s, Ins &in, std::vector<Val> &a, Val &r) { if (!a[0].conc() || (REAL && !opt.mixed)) unsupported("exp"); r = fconst(FT, std::exp(fval(FT, a[0].c))); }
static void x_log(State &s, Ins &in, std::vector<Val> &a, Val &r) { if (!a[0].conc() || (REAL && !opt.mixed)) unsupported("log"); r = fconst(FT, std::log(fval(FT, a[0].c))); }
static void x_fpclass(State &s, Ins &in, std::vector<Val> &a, Val &r) {
    uint64_t m = a[1].c;
    if (a[0].conc()) {
        double d = fval(FT, a[0].c);
        int bit;
        if (std::isnan(d)) bit = 3;
        else if (std::isinf(d)) bit = d < 0 ? 4 : 512;
        else if (d == 0) bit = std::signbit(d) ? 32 : 64;
        else if (std::fpclassify(d) == FP_SUBNORMAL) bit = d < 0 ? 16 : 128;
        else bit = d < 0 ? 8 : 256;
        r = Val((uint64_t)((m & bit) != 0));
        return;
    }
    if (REAL) { // finite; masks that separate by sign are not used by isnan/isinf/isfinite
        r = Val((uint64_t)((m & 0x108) != 0)); return;
    }
    expr e = a[0].e(), c = zc->bool_val(false);
    auto B = [&](Z3_ast x) { return expr(*zc, x); };
    expr neg = B(Z3_mk_fpa_is_negative(*zc, e));
    if (m & 3) c = c || B(Z3_mk_fpa_is_nan(*zc, e));
    expr inf = B(Z3_mk_fpa_is_infinite(*zc, e)), nor = B(Z3_mk_fpa_is_normal(*zc, e)), sub = B(Z3_mk_fpa_is_subnormal(*zc, e)), zer = B(Z3_mk_fpa_is_zero(*zc, e));
    if (m & 4) c = c || (inf && neg);
    if (m & 512) c = c || (inf && !neg);
    if (m & 8) c = c || (nor && neg);
    if (m & 256) c = c || (nor && !neg);
    if (m & 16) c = c || (sub && neg);
    if (m & 128) c = c || (sub && !neg);
    if (m & 32) c = c || (zer && neg);
    if (m & 64) c = c || (zer && !neg);
    r = mkint(1, c);
}
static void x_isnan(State &s, Ins &in, std::vector<Val> &a, Val &r) {
    r = fcmp_v(s, CmpInst::FCMP_UNO, FT, a[0], a[0]);
    if (r.sym()) r = mkint(32, z3::ite(asbool(r), zc->bv_val(1, 32), zc->bv_val(0, 32)));
}
static void x_strret(State &s, Ins &in, std::vector<Val> &a, Val &r) {
    // std::string by sret: construct the empty string {ptr -> local buffer, size 0, buf[0]=0}
    uint64_t p = a[0].c;
    Ty t; t.k = T_INT; t.w = 64; t.size = 8;
    Ty b; b.k = T_INT; b.w = 8; b.size = 1;
    store_at(s, p, t, Val(p + 16));
    store_at(s, p + 8, t, Val((uint64_t)0));
    store_at(s, p + 16, b, Val((uint64_t)0));
}

// a member or function of namespace std, by its mangled name
static bool of_std(const std::string &n) {
    if (n.compare(0, 2, "_Z")) return false;
    size_t i = 2;
    if (n[i] == 'T') { i = n.rfind("NS"); if (i == std::string::npos) return false; }
    if (n[i] == 'N') { ++i; while (i < n.size() && (n[i] == 'K' || n[i] == 'V')) ++i; }
    return i + 1 < n.size() && n[i] == 'S' && strchr("tosida", n[i + 1]);
}
static ExtFn find_ext(const std::string &name, const std::string &dem) {
    static std::unordered_map<std::string, ExtFn> memo;
    auto mi = memo.find(name);
    if (mi != memo.end()) return mi->second;
    static const std::unordered_map<std::string, ExtFn> tab = {
        {"malloc", x_malloc}, {"_Znwm", x_malloc}, {"_Znam", x_malloc}, {"_ZnwmRKSt9nothrow_t", x_malloc}, {"_ZnamRKSt9nothrow_t", x_malloc}, {"calloc", x_calloc}, {"realloc", x_realloc},
        {"free", x_free}, {"_ZdlPv", x_free}, {"_ZdaPv", x_free}, {"_ZdlPvm", x_free}, {"_ZdaPvm", x_free},
        {"memcpy", x_memcpy}, {"memmove", x_memcpy}, {"memset", x_memset},
        {"sx_int", x_sx_int}, {"sx_u8", x_sx_u8}, {"sx_u32", x_sx_u32}, {"sx_bool", x_sx_bool}, {"sx_real", x_sx_real}, {"sx_f64", x_sx_f64}, {"sx_angle", x_sx_angle},
        {"sx_assume", x_sx_assume}, {"sx_check", x_sx_check}, {"sx_fail", x_sx_fail}, {"sx_conc", x_sx_conc}, {"sx_fork", x_sx_fork}, {"sx_reach", x_sx_reach}, {"sx_stop", x_sx_stop},
        {"sx_symbolic", x_sx_is_symbolic}, {"sx_clamp", x_sx_clamp}, {"sx_real_mode", x_sx_real_mode}, {"sx_logi", x_sx_logi}, {"sx_logd", x_sx_logd}, {"sx_near", x_sx_near},
        {"abort", x_abort}, {"exit", x_abort}, {"_exit", x_abort}, {"_ZSt9terminatev", x_abort}, {"__clang_call_terminate", x_abort}, {"__assert_fail", x_assert_fail}, {"__cxa_pure_virtual", x_pure}, {"__cxa_throw_bad_array_new_length", x_abort},
        {"__cxa_atexit", x_nop}, {"atexit", x_nop}, {"rand", x_rand}, {"srand", x_nop}, {"random", x_rand},
        {"__cxa_allocate_exception", x_cxa_alloc}, {"__cxa_free_exception", x_nop}, {"__cxa_throw", x_cxa_throw}, {"__cxa_begin_catch", x_begin_catch}, {"__cxa_end_catch", x_end_catch}, {"__cxa_rethrow", x_rethrow}, {"__cxa_get_exception_ptr", x_arg0},
        {"__dynamic_cast", x_dyncast}, {"__cxa_guard_acquire", x_guard}, {"__cxa_guard_release", x_guard_rel}, {"__cxa_guard_abort", x_nop},
        {"sqrt", x_sqrt}, {"sqrtf", x_sqrt}, {"fabs", x_fabs}, {"fabsf", x_fabs}, {"floor", x_floor}, {"floorf", x_floor}, {"ceil", x_ceil}, {"ceilf", x_ceil}, {"trunc", x_trunc}, {"round", x_round}, {"roundf", x_round}, {"rint", x_rint}, {"nearbyint", x_rint},
        {"lround", x_lround}, {"llround", x_lround}, {"lrint", x_lrint}, {"llrint", x_lrint},
        {"cos", x_cos}, {"sin", x_sin}, {"tan", x_tan}, {"cosf", x_cos}, {"sinf", x_sin}, {"tanf", x_tan}, {"sincos", x_sincos}, {"atan2", x_atan2}, {"atan2f", x_atan2}, {"acos", x_acos}, {"asin", x_asin}, {"atan", x_atan}, {"acosf", x_acos}, {"asinf", x_asin}, {"atanf", x_atan},
        {"pow", x_pow}, {"powf", x_pow}, {"hypot", x_hypot}, {"hypotf", x_hypot}, {"fmod", x_fmod}, {"fmodf", x_fmod}, {"fmax", x_fmax}, {"fmin", x_fmin}, {"copysign", x_copysign}, {"exp", x_exp}, {"log", x_log},
        {"isnan", x_isnan}, {"__isnan", x_isnan},
        {"printf", x_nop}, {"puts", x_nop}, {"putchar", x_nop}, {"fprintf", x_nop}, {"fflush", x_nop}, {"perror", x_nop}, {"fwrite", x_nop}, {"time", x_clock}, {"clock", x_clock}, {"usleep", x_nop}, {"sleep", x_nop},
        {"_ZNSt6chrono3_V212steady_clock3nowEv", x_clock}, {"_ZNSt6chrono3_V212system_clock3nowEv", x_clock},
    };
    ExtFn r = nullptr;
    auto it = tab.find(name);
    auto starts = [&](const std::string &a, const char *p) { return a.compare(0, strlen(p), p) == 0; };
    if (it != tab.end()) r = it->second;
    else if (starts(name, "llvm.")) {
        static const std::vector<std::pair<const char *, ExtFn>> in = {
            {"llvm.memcpy", x_memcpy}, {"llvm.memmove", x_memcpy}, {"llvm.memset", x_memset}, {"llvm.smax", x_minmax}, {"llvm.smin", x_minmax}, {"llvm.umax", x_minmax}, {"llvm.umin", x_minmax}, {"llvm.abs", x_iabs},
            {"llvm.umul.with", x_ovf}, {"llvm.uadd.with", x_ovf}, {"llvm.usub.with", x_ovf}, {"llvm.smul.with", x_ovf}, {"llvm.sadd.with", x_ovf}, {"llvm.ssub.with", x_ovf},
            {"llvm.ctlz", x_bits}, {"llvm.cttz", x_bits}, {"llvm.ctpop", x_bits}, {"llvm.bswap", x_bits}, {"llvm.fshl", x_fsh}, {"llvm.fshr", x_fsh}, {"llvm.usub.sat", x_sat}, {"llvm.uadd.sat", x_sat},
            {"llvm.expect", x_expect}, {"llvm.objectsize", x_objsize}, {"llvm.is.constant", x_isconst}, {"llvm.sqrt", x_sqrt}, {"llvm.fabs", x_fabs}, {"llvm.floor", x_floor}, {"llvm.ceil", x_ceil}, {"llvm.trunc", x_trunc}, {"llvm.round.", x_round}, {"llvm.rint", x_rint}, {"llvm.nearbyint", x_rint}, {"llvm.lround", x_lround}, {"llvm.llround", x_lround},
            {"llvm.cos", x_cos}, {"llvm.sin", x_sin}, {"llvm.powi", x_powi}, {"llvm.pow", x_pow}, {"llvm.fmuladd", x_fma}, {"llvm.maxnum", x_fmax}, {"llvm.minnum", x_fmin}, {"llvm.copysign", x_copysign}, {"llvm.exp", x_exp}, {"llvm.log", x_log}, {"llvm.is.fpclass", x_fpclass},
            {"llvm.eh.typeid.for", x_typeid_for}, {"llvm.trap", x_abort}, {"llvm.stacksave", x_nop}, {"llvm.stackrestore", x_nop}, {"llvm.va_start", x_nop}, {"llvm.va_end", x_nop}};
        for (auto &p : in) if (starts(name, p.first)) { r = p.second; break; }
    } else {
        // output streams and friends are dropped
        std::string d = dem;
        auto has = [&](const char *p) { return d.find(p) != std::string::npos; };
        std::string head = d.substr(0, d.find('('));
        if (starts(d, "std::__throw_")) r = x_std_throw;
        else if ((of_std(name) || head.find("operator<<") != std::string::npos) &&      // functions of the program may take streams, too
                 (has("std::basic_ostream<") || has("std::ostream") || has("std::ios_base") || has("std::basic_ios<") || has("std::basic_stringbuf") || has("std::basic_stringstream") || has("std::basic_ostringstream") || has("std::__cxx11::basic_stringstream") || has("std::__cxx11::basic_ostringstream") || has("std::__cxx11::basic_stringbuf") || has("std::basic_streambuf") || has("std::locale") || has("std::basic_ofstream") || has("std::basic_ifstream") || has("std::basic_filebuf"))) {
            if (has("::str() const") || has("::str()")) r = x_strret;
            else r = x_arg0;
        }
        else if (starts(head, "std::exception::") || starts(head, "std::runtime_error::") || starts(head, "std::logic_error::") || starts(head, "std::out_of_range::") || starts(head, "std::bad_alloc::") || starts(head, "std::invalid_argument::") || starts(head, "std::domain_error::") || starts(head, "std::length_error::")) r = x_arg0;
        else if (starts(head, "boost::this_thread::interruption_point") || starts(head, "boost::this_thread::") ) r = x_nop;
    }
    memo[name] = r;
    return r;
}
