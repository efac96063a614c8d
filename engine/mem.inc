// ---------------------------------------------------------------- memory
static uint64_t base_of(uint32_t id) { return (uint64_t)id << 32; }
static uint32_t alloc_obj(State &s, uint64_t size, char kind, const std::string &name) {
    if (size > (64u << 20)) unsupported("allocation of " + std::to_string(size) + " bytes");
    auto o = std::make_shared<Obj>();
    o->size = size;
    o->b.assign(size, 0);
    o->init.assign(size, 0);
    o->kind = kind;
    o->name = name;
    return s.mem.add(o);
}
static Obj *check_access(State &s, uint64_t a, uint64_t n, bool wr, const char *what) {
    uint32_t id = a >> 32;
    uint64_t off = a & 0xffffffffu;
    if (id == 0) path_error(s, "memory", std::string("null or invalid pointer ") + (wr ? "write" : "read") + what);
    Obj *o = s.mem.get(id);
    if (!o) path_error(s, "memory", std::string("access to a freed or invalid object (") + (wr ? "write" : "read") + ")" + what);
    if (off + n > o->size) path_error(s, "memory", std::string(wr ? "write" : "read") + " outside an object (" + o->name + " of " + std::to_string(o->size) + " bytes, offset " + std::to_string((int64_t)(int32_t)off) + ", " + std::to_string(n) + " bytes)" + what);
    if (wr && o->ro) path_error(s, "memory", "write to a constant");
    return o;
}
static Val byte_of_cell(const Cell &c, unsigned i) {
    if (c.v.conc()) return Val((c.v.c >> (8 * i)) & 255);
    expr e = c.v.e();
    if (e.is_bool()) return i ? Val((uint64_t)0) : mkint(8, z3::ite(e, zc->bv_val(1, 8), zc->bv_val(0, 8)));
    if (e.is_fpa()) e = expr(*zc, Z3_mk_fpa_to_ieee_bv(*zc, e));
    if (e.is_real() || e.is_int()) unsupported("byte access to a real number");
    unsigned w = e.get_sort().bv_size();
    if (8 * i >= w) return Val((uint64_t)0);
    if (8 * (i + 1) > w) return mkint(8, z3::zext(e.extract(w - 1, 8 * i), 8 * (i + 1) - w));
    return mkint(8, e.extract(8 * i + 7, 8 * i));
}
// make [off,off+n) free of symbolic cells, splitting partially covered ones
static void clear_cells(Obj *o, uint32_t off, uint32_t n) {
    if (o->sym.empty()) return;
    auto it = o->sym.lower_bound(off);
    if (it != o->sym.begin()) { auto p = std::prev(it); if (p->first + p->second.size > off) it = p; }
    while (it != o->sym.end() && it->first < off + n) {
        uint32_t a = it->first;
        Cell c = it->second;
        it = o->sym.erase(it);
        if (a >= off && a + c.size <= off + n) continue;
        for (uint32_t i = 0; i < c.size; ++i) {
            if (a + i >= off && a + i < off + n) continue;
            Val b = byte_of_cell(c, i);
            if (b.conc()) { o->b[a + i] = b.c; }
            else {
                Cell bc; bc.v = b; bc.size = 1; bc.ty.k = T_INT; bc.ty.w = 8; bc.ty.size = 1;
                o->sym[a + i] = bc;
            }
        }
        it = o->sym.lower_bound(off);
    }
}
static Val conv_cell(const Val &v, const Ty &from, const Ty &to) {
    if (v.conc()) return v;
    const expr &e = v.e();
    if (to.k == T_FLT || to.k == T_DBL) {
        if (e.is_real() || e.is_fpa()) return v;
        if (REAL) unsupported("integer bits read as a real");
        return Val(expr(*zc, Z3_mk_fpa_to_fp_bv(*zc, e, zc->fpa_sort(fp_e(to), fp_s(to)))).simplify());
    }
    if (e.is_fpa()) return mkint(to.w, expr(*zc, Z3_mk_fpa_to_ieee_bv(*zc, e)));
    if (e.is_bool() && to.w != 1) return mkint(to.w, z3::ite(e, zc->bv_val(1, to.w), zc->bv_val(0, to.w)));
    return v;   // reals pass through integer typed copies untouched
}
static Val load_at(State &s, uint64_t a, const Ty &t, const char *what = "") {
    if (t.k == T_AGG) {
        Val r; r = Val(); r.s = new SymBox(*zc); r.s->rc = 1;
        Type *ty = t.t;
        unsigned n = ty->isStructTy() ? ty->getStructNumElements() : ty->isArrayTy() ? ty->getArrayNumElements() : cast<FixedVectorType>(ty)->getNumElements();
        for (unsigned i = 0; i < n; ++i) {
            Type *et = ty->isStructTy() ? ty->getStructElementType(i) : ty->isArrayTy() ? ty->getArrayElementType() : cast<FixedVectorType>(ty)->getElementType();
            uint64_t off = ty->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(ty))->getElementOffset(i) : i * (uint64_t)DL->getTypeAllocSize(et);
            r.s->agg.push_back(load_at(s, a + off, tyof(et), what));
        }
        return r;
    }
    unsigned n = t.size;
    if (n == 0 || n > 8) unsupported("load of type size " + std::to_string(n));
    Obj *o = check_access(s, a, n, false, what);
    uint32_t off = a & 0xffffffffu;
    bool anysym = false;
    if (!o->sym.empty()) {
        auto it = o->sym.lower_bound(off);
        if (it != o->sym.end() && it->first == off && it->second.size == n) {
            Val v = conv_cell(it->second.v, it->second.ty, t);
            if (t.k == T_INT && t.w < 8 * n && v.sym()) {
                if (t.w == 1) return v.e().is_bool() ? v : mkint(1, v.e().extract(0, 0) == zc->bv_val(1, 1));
                return mkint(t.w, v.e().extract(t.w - 1, 0));
            }
            return v;
        }
        if (it != o->sym.end() && it->first < off + n) anysym = true;
        if (it != o->sym.begin()) { auto p = std::prev(it); if (p->first + p->second.size > off) anysym = true; }
    }
    bool allinit = o->all_init;
    if (!allinit) {
        allinit = true;
        unsigned cnt = 0;
        for (unsigned i = 0; i < n; ++i) if (!o->init[off + i]) { allinit = false; cnt++; }
        if (cnt == n && !anysym) {
            // fresh arbitrary value, remembered
            stats.uninit_reads++;
            Ty ft = t;
            if (ft.k == T_INT && ft.w < 8) ft.w = 8;
            Val v = fresh_any(ft, "uninit");
            o = s.mem.wr(a >> 32);
            Cell c; c.v = v; c.size = n; c.ty = ft;
            o->sym[off] = c;
            for (unsigned i = 0; i < n; ++i) o->init[off + i] = 1;
            return load_at(s, a, t, what);
        }
        if (!allinit) {
            stats.uninit_reads++;
            o = s.mem.wr(a >> 32);
            for (unsigned i = 0; i < n; ++i) if (!o->init[off + i]) {
                Cell c; c.size = 1; c.ty.k = T_INT; c.ty.w = 8; c.ty.size = 1;
                c.v = fresh_any(c.ty, "uninit");
                o->sym[off + i] = c;
                o->init[off + i] = 1;
                anysym = true;
            }
        }
    }
    if (!anysym) {
        uint64_t v = 0;
        memcpy(&v, &o->b[off], n);
        if (t.k == T_INT) v = maskw(v, t.w);
        return Val(v);
    }
    // assemble from bytes
    std::vector<Val> bs(n);
    for (unsigned i = 0; i < n; ++i) {
        auto it = o->sym.upper_bound(off + i);
        bool got = false;
        if (it != o->sym.begin()) {
            auto p = std::prev(it);
            if (p->first + p->second.size > off + i) { bs[i] = byte_of_cell(p->second, off + i - p->first); got = true; }
        }
        if (!got) bs[i] = Val(o->b[off + i]);
    }
    expr e = iexpr(8, bs[n - 1]);
    for (int i = (int)n - 2; i >= 0; --i) e = z3::concat(e, iexpr(8, bs[i]));
    e = e.simplify();
    Ty it; it.k = T_INT; it.w = 8 * n;
    Val v = mkint(8 * n, e);
    if (t.k == T_INT && t.w < 8 * n) {
        if (v.conc()) return Val(maskw(v.c, t.w));
        if (t.w == 1) return mkint(1, v.e().extract(0, 0) == zc->bv_val(1, 1));
        return mkint(t.w, v.e().extract(t.w - 1, 0));
    }
    return conv_cell(v, it, t);
}
static void store_at(State &s, uint64_t a, const Ty &t, const Val &v, const char *what = "") {
    if (t.k == T_AGG) {
        Type *ty = t.t;
        unsigned n = ty->isStructTy() ? ty->getStructNumElements() : ty->isArrayTy() ? ty->getArrayNumElements() : cast<FixedVectorType>(ty)->getNumElements();
        for (unsigned i = 0; i < n; ++i) {
            Type *et = ty->isStructTy() ? ty->getStructElementType(i) : ty->isArrayTy() ? ty->getArrayElementType() : cast<FixedVectorType>(ty)->getElementType();
            uint64_t off = ty->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(ty))->getElementOffset(i) : i * (uint64_t)DL->getTypeAllocSize(et);
            store_at(s, a + off, tyof(et), v.agg() ? v.s->agg[i] : Val((uint64_t)0), what);
        }
        return;
    }
    unsigned n = t.size;
    check_access(s, a, n, true, what);
    Obj *o = s.mem.wr(a >> 32);
    uint32_t off = a & 0xffffffffu;
    clear_cells(o, off, n);
    if (!o->all_init) for (unsigned i = 0; i < n; ++i) o->init[off + i] = 1;
    if (v.conc()) { uint64_t x = v.c; memcpy(&o->b[off], &x, n); return; }
    Cell c; c.size = n; c.ty = t;
    if (t.k == T_INT && t.w < 8 * n) {
        expr e = v.e();
        if (t.w == 1) e = z3::ite(asbool(v), zc->bv_val(1, 8 * n), zc->bv_val(0, 8 * n));
        else e = z3::zext(e, 8 * n - t.w);
        c.v = mkint(8 * n, e);
        c.ty.w = 8 * n;
    } else c.v = v;
    o->sym[off] = c;
}
static void mem_copy(State &s, uint64_t d, uint64_t src, uint64_t n) {
    if (n == 0) return;
    Obj *so = check_access(s, src, n, false, " (memcpy)");
    check_access(s, d, n, true, " (memcpy)");
    uint32_t soff = src & 0xffffffffu, doff = d & 0xffffffffu;
    // split cells on the borders of the source range
    if (!so->sym.empty()) {
        bool partial = false;
        for (auto &kv : so->sym) {
            uint32_t a = kv.first, b = a + kv.second.size;
            if (b > soff && a < soff + n && (a < soff || b > soff + n)) partial = true;
        }
        if (partial) {
            so = s.mem.wr(src >> 32);
            std::vector<std::pair<uint32_t, Cell>> sp;
            for (auto &kv : so->sym) {
                uint32_t a = kv.first, b = a + kv.second.size;
                if (b > soff && a < soff + n && (a < soff || b > soff + n)) sp.push_back(kv);
            }
            for (auto &kv : sp) {
                so->sym.erase(kv.first);
                for (uint32_t i = 0; i < kv.second.size; ++i) {
                    Val b = byte_of_cell(kv.second, i);
                    if (b.conc()) so->b[kv.first + i] = b.c;
                    else { Cell bc; bc.v = b; bc.size = 1; bc.ty.k = T_INT; bc.ty.w = 8; bc.ty.size = 1; so->sym[kv.first + i] = bc; }
                }
            }
        }
    }
    ObjP hold = s.mem.ch[(src >> 32) / Mem::CH]->o[(src >> 32) % Mem::CH];
    std::vector<uint8_t> bytes(hold->b.begin() + soff, hold->b.begin() + soff + n), ini;
    if (hold->all_init) ini.assign(n, 1); else ini.assign(hold->init.begin() + soff, hold->init.begin() + soff + n);
    std::vector<std::pair<uint32_t, Cell>> cells;
    for (auto it = hold->sym.lower_bound(soff); it != hold->sym.end() && it->first < soff + n; ++it) cells.push_back({it->first - soff, it->second});
    hold.reset();
    Obj *o = s.mem.wr(d >> 32);
    clear_cells(o, doff, n);
    memcpy(&o->b[doff], bytes.data(), n);
    if (o->all_init) {
        bool all = true;
        for (auto x : ini) all &= x;
        if (!all) { o->all_init = false; o->init.assign(o->size, 1); }
    }
    if (!o->all_init) memcpy(&o->init[doff], ini.data(), n);
    for (auto &kv : cells) o->sym[doff + kv.first] = kv.second;
}
static void mem_set(State &s, uint64_t d, const Val &v, uint64_t n) {
    if (n == 0) return;
    check_access(s, d, n, true, " (memset)");
    Obj *o = s.mem.wr(d >> 32);
    uint32_t off = d & 0xffffffffu;
    clear_cells(o, off, n);
    if (!o->all_init) memset(&o->init[off], 1, n);
    if (v.conc()) memset(&o->b[off], (int)v.c, n);
    else for (uint64_t i = 0; i < n; ++i) { Cell c; c.v = v; c.size = 1; c.ty.k = T_INT; c.ty.w = 8; c.ty.size = 1; o->sym[off + i] = c; }
}
