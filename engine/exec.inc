// ---------------------------------------------------------------- constants
static Val const_val(Constant *c);
static uint64_t global_addr(const GlobalValue *g) {
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    unsupported("address of unknown global " + g->getName().str());
}
static Val pi_const(double d) {
    BigRat q;
    if (REAL && !opt.mixed && pi_multiple(d, q)) return Val((rat_expr(q) * *pi_e).simplify());
    return Val(d2bits(d));
}
static Val const_val(Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() > 64) {
            if (ci->getValue().getActiveBits() <= 64) return Val(ci->getValue().getLimitedValue());
            unsupported("wide integer constant");
        }
        return Val(ci->getZExtValue());
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
        if (c->getType()->isDoubleTy()) return pi_const(cf->getValueAPF().convertToDouble());
        if (c->getType()->isFloatTy()) return Val(f2bits(cf->getValueAPF().convertToFloat()));
        return Val((uint64_t)0);
    }
    if (isa<ConstantPointerNull>(c)) return Val((uint64_t)0);
    if (auto *gv = dyn_cast<GlobalAlias>(c)) return const_val(gv->getAliasee());
    if (auto *gv = dyn_cast<GlobalValue>(c)) return Val(global_addr(gv));
    Type *t = c->getType();
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        Val r; r.s = new SymBox(*zc); r.s->rc = 1;
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; ++i) r.s->agg.push_back(const_val(c->getAggregateElement(i)));
        return r;
    }
    if (isa<UndefValue>(c)) {
        Ty ty = tyof(t);
        if (ty.k == T_INT || ty.k == T_DBL || ty.k == T_FLT || ty.k == T_PTR) return fresh_any(ty, "undef");
        return Val((uint64_t)0);
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            Val b = const_val(ce->getOperand(0));
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) unsupported("constant gep");
            return Val(b.c + off.getSExtValue());
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
            return const_val(ce->getOperand(0));
        case Instruction::Sub: { Val a = const_val(ce->getOperand(0)), b = const_val(ce->getOperand(1)); return Val(maskw(a.c - b.c, t->getIntegerBitWidth())); }
        case Instruction::Add: { Val a = const_val(ce->getOperand(0)), b = const_val(ce->getOperand(1)); return Val(maskw(a.c + b.c, t->getIntegerBitWidth())); }
        case Instruction::Trunc: { Val a = const_val(ce->getOperand(0)); return Val(maskw(a.c, t->getIntegerBitWidth())); }
        default: break;
        }
        unsupported(std::string("constant expression ") + ce->getOpcodeName());
    }
    unsupported("constant");
}
static void init_global(State &s, uint64_t a, Constant *c) {
    Ty t = tyof(c->getType());
    if (isa<UndefValue>(c)) return;
    if (c->isNullValue()) { mem_set(s, a, Val((uint64_t)0), DL->getTypeAllocSize(c->getType())); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t es = DL->getTypeAllocSize(cd->getElementType());
        for (unsigned i = 0; i < cd->getNumElements(); ++i) store_at(s, a + i * es, tyof(cd->getElementType()), const_val(cd->getElementAsConstant(i)));
        return;
    }
    if (t.k == T_AGG) {
        Type *ty = c->getType();
        unsigned n = ty->isStructTy() ? ty->getStructNumElements() : ty->isArrayTy() ? ty->getArrayNumElements() : cast<FixedVectorType>(ty)->getNumElements();
        for (unsigned i = 0; i < n; ++i) {
            Type *et = ty->isStructTy() ? ty->getStructElementType(i) : ty->isArrayTy() ? ty->getArrayElementType() : cast<FixedVectorType>(ty)->getElementType();
            uint64_t off = ty->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(ty))->getElementOffset(i) : i * (uint64_t)DL->getTypeAllocSize(et);
            init_global(s, a + off, c->getAggregateElement(i));
        }
        return;
    }
    store_at(s, a, t, const_val(c));
}

// ---------------------------------------------------------------- compile
static ExtFn find_ext(const std::string &name, const std::string &dem);
static FuncInfo *info(Function *f) {
    auto it = finfo.find(f);
    if (it != finfo.end()) return it->second;
    auto *fi = new FuncInfo;
    fi->F = f;
    fi->dem = llvm::demangle(f->getName().str());
    finfo[f] = fi;
    return fi;
}
static Opnd opnd(FuncInfo *fi, Value *v) {
    Opnd o;
    if (auto *c = dyn_cast<Constant>(v)) { o.k = const_val(c); return o; }
    auto it = fi->reg.find(v);
    if (it == fi->reg.end()) { if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return o; unsupported("operand"); }
    o.reg = it->second;
    return o;
}
static bool body_replaced(const std::string &dem);
static void compile(FuncInfo *fi) {
    if (fi->compiled) return;
    fi->compiled = true;
    Function *F = fi->F;
    for (auto &a : F->args()) fi->reg[&a] = fi->nregs++;
    int k = 0;
    for (auto &bb : *F) {
        fi->bbidx[&bb] = k++;
        for (auto &i : bb) if (!i.getType()->isVoidTy()) fi->reg[&i] = fi->nregs++;
    }
    fi->bbs.resize(k);
    for (auto &bb : *F) {
        BBInfo &b = fi->bbs[fi->bbidx[&bb]];
        b.bb = &bb;
        for (auto &i : bb) {
            if (auto *p = dyn_cast<PHINode>(&i)) {
                Phi ph;
                ph.dst = fi->reg[p];
                for (unsigned j = 0; j < p->getNumIncomingValues(); ++j) ph.in.push_back({fi->bbidx[p->getIncomingBlock(j)], opnd(fi, p->getIncomingValue(j))});
                b.phis.push_back(ph);
                continue;
            }
            if (auto *ii = dyn_cast<IntrinsicInst>(&i)) {
                switch (ii->getIntrinsicID()) {
                case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::lifetime_start:
                case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
                case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::var_annotation:
                    continue;
                default: break;
                }
            }
            Ins n;
            n.opc = i.getOpcode();
            n.I = &i;
            if (!i.getType()->isVoidTy()) n.dst = fi->reg[&i];
            n.ty = tyof(i.getType());
            if (auto *br = dyn_cast<BranchInst>(&i)) {
                n.bb0 = fi->bbidx[br->getSuccessor(0)];
                if (br->isConditional()) { n.bb1 = fi->bbidx[br->getSuccessor(1)]; n.ops.push_back(opnd(fi, br->getCondition())); }
            } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
                n.ops.push_back(opnd(fi, sw->getCondition()));
                n.oty = tyof(sw->getCondition()->getType());
                n.bb0 = fi->bbidx[sw->getDefaultDest()];
                for (auto &cs : sw->cases()) n.cases.push_back({cs.getCaseValue()->getZExtValue(), fi->bbidx[cs.getCaseSuccessor()]});
            } else if (auto *gep = dyn_cast<GetElementPtrInst>(&i)) {
                n.ops.push_back(opnd(fi, gep->getPointerOperand()));
                if (gep->getType()->isVectorTy()) { n.imm = 0; }
                for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) {
                    Value *ix = gi.getOperand();
                    if (StructType *st = gi.getStructTypeOrNull()) {
                        n.imm += (int64_t)(uint64_t)DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    } else {
                        int64_t sc = (int64_t)(uint64_t)DL->getTypeAllocSize(gi.getIndexedType());
                        if (auto *ci = dyn_cast<ConstantInt>(ix)) n.imm += sc * ci->getSExtValue();
                        else {
                            n.ops.push_back(opnd(fi, ix));
                            n.scale.push_back(sc);
                            n.idx.push_back(ix->getType()->getIntegerBitWidth());
                        }
                    }
                }
            } else if (auto *cb = dyn_cast<CallBase>(&i)) {
                for (auto &a : cb->args()) {
                    Value *av = a.get();
                    if (isa<MetadataAsValue>(av)) { n.ops.push_back(Opnd()); continue; }
                    n.ops.push_back(opnd(fi, av));
                }
                Value *cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
                n.callee = dyn_cast<Function>(cv);
                if (!n.callee) {
                    if (isa<InlineAsm>(cv)) n.extname = "asm";
                    else n.ops.push_back(opnd(fi, cb->getCalledOperand()));
                }
                else {
                    n.cf = info(n.callee);
                    n.ext = find_ext(n.callee->getName().str(), n.cf->dem);
                    n.extname = n.callee->getName().str();
                }
                if (auto *iv = dyn_cast<InvokeInst>(&i)) { n.bb0 = fi->bbidx[iv->getNormalDest()]; n.bb1 = fi->bbidx[iv->getUnwindDest()]; }
                if (cb->arg_size() > 0) n.oty = tyof(cb->getArgOperand(0)->getType());
            } else if (auto *ld = dyn_cast<LoadInst>(&i)) {
                n.ops.push_back(opnd(fi, ld->getPointerOperand()));
            } else if (auto *st = dyn_cast<StoreInst>(&i)) {
                n.ops.push_back(opnd(fi, st->getValueOperand()));
                n.ops.push_back(opnd(fi, st->getPointerOperand()));
                n.oty = tyof(st->getValueOperand()->getType());
            } else if (auto *al = dyn_cast<AllocaInst>(&i)) {
                n.imm = DL->getTypeAllocSize(al->getAllocatedType());
                n.ops.push_back(opnd(fi, al->getArraySize()));
            } else {
                for (auto &o : i.operands()) n.ops.push_back(opnd(fi, o.get()));
                if (i.getNumOperands()) n.oty = tyof(i.getOperand(0)->getType());
                if (auto *c = dyn_cast<CmpInst>(&i)) n.pred = c->getPredicate();
                if (auto *x = dyn_cast<ExtractValueInst>(&i)) n.idx.assign(x->idx_begin(), x->idx_end());
                if (auto *x = dyn_cast<InsertValueInst>(&i)) n.idx.assign(x->idx_begin(), x->idx_end());
                if (auto *x = dyn_cast<ShuffleVectorInst>(&i)) n.mask.assign(x->getShuffleMask().begin(), x->getShuffleMask().end());
            }
            b.ins.push_back(std::move(n));
        }
    }
}

// ---------------------------------------------------------------- locations
static std::string loc_of(Instruction *I) {
    if (!I) return "?";
    if (DILocation *d = I->getDebugLoc()) {
        std::string f = d->getFilename().str();
        return f + ":" + std::to_string(d->getLine());
    }
    return I->getFunction()->getName().str();
}
static std::string where_now() {
    if (!cur) return "?";
    std::string r;
    int n = 0;
    for (int i = (int)cur->st.size() - 1; i >= 0 && n < 6; --i) {
        Frame &f = cur->st[i];
        if (f.pc < (int)f.f->bbs[f.bb].ins.size()) {
            std::string l = loc_of(f.f->bbs[f.bb].ins[f.pc].I);
            if (!r.empty()) r += " < ";
            r += l;
            n++;
        }
    }
    return r;
}

// ---------------------------------------------------------------- integer ops
// the bits of an unknown real: sign and zero are exact (no negative zero), the rest is left open
static expr real_bits(const expr &x, unsigned w) {
    static std::unordered_map<unsigned, expr> tab;
    if (w != 64 && w != 32) unsupported("part of a real number");
    auto it = tab.find(x.id());
    if (it != tab.end() && it->second.get_sort().bv_size() == w) return it->second;
    static int n = 0;
    keepalive.push_back(x);
    expr f = zc->bv_const(("bits!" + std::to_string(n++)).c_str(), w - 1);
    expr r = z3::ite(x == 0, zc->bv_val(0, w), z3::ite(x < 0, z3::concat(zc->bv_val(1, 1), f), z3::concat(zc->bv_val(0, 1), f)));
    tab.erase(x.id()); tab.emplace(x.id(), r);
    return r;
}
static Val ibin(State &s, Ins &in, unsigned opc, unsigned w, const Val &a, const Val &b) {
    if (a.conc() && b.conc()) {
        uint64_t x = a.c, y = b.c;
        switch (opc) {
        case Instruction::Add: return Val(maskw(x + y, w));
        case Instruction::Sub: return Val(maskw(x - y, w));
        case Instruction::Mul: return Val(maskw(x * y, w));
        case Instruction::And: return Val(x & y);
        case Instruction::Or: return Val(x | y);
        case Instruction::Xor: return Val(x ^ y);
        case Instruction::Shl: return Val(y >= w ? 0 : maskw(x << y, w));
        case Instruction::LShr: return Val(y >= w ? 0 : x >> y);
        case Instruction::AShr: return Val(maskw((uint64_t)(sext(x, w) >> (y >= w ? w - 1 : y)), w));
        case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
            if (y == 0) path_error(s, "arith", "integer division by zero");
            if (opc == Instruction::UDiv) return Val(x / y);
            if (opc == Instruction::URem) return Val(x % y);
            if (sext(y, w) == -1) return Val(opc == Instruction::SDiv ? maskw(-x, w) : 0);
            if (opc == Instruction::SDiv) return Val(maskw((uint64_t)(sext(x, w) / sext(y, w)), w));
            return Val(maskw((uint64_t)(sext(x, w) % sext(y, w)), w));
        }
    }
    if (w == 1) {
        expr x = asbool(a), y = asbool(b);
        switch (opc) {
        case Instruction::And: return mkint(1, x && y);
        case Instruction::Or: return mkint(1, x || y);
        case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return mkint(1, x != y);
        }
        unsupported("i1 arithmetic");
    }
    expr x = iexpr(w, a), y = iexpr(w, b);
    if (x.is_real()) x = real_bits(x, w);
    if (y.is_real()) y = real_bits(y, w);
    if (x.is_fpa()) x = expr(*zc, Z3_mk_fpa_to_ieee_bv(*zc, x));
    if (y.is_fpa()) y = expr(*zc, Z3_mk_fpa_to_ieee_bv(*zc, y));
    if (!x.is_bv() || !y.is_bv()) unsupported("bit operation on this type");
    switch (opc) {
    case Instruction::Add: return mkint(w, x + y);
    case Instruction::Sub: return mkint(w, x - y);
    case Instruction::Mul: return mkint(w, x * y);
    case Instruction::And: return mkint(w, x & y);
    case Instruction::Or: return mkint(w, x | y);
    case Instruction::Xor: return mkint(w, x ^ y);
    case Instruction::Shl: return mkint(w, z3::shl(x, y));
    case Instruction::LShr: return mkint(w, z3::lshr(x, y));
    case Instruction::AShr: return mkint(w, z3::ashr(x, y));
    default:
        if (branch(s, (y == zc->bv_val(0, w)).simplify())) path_error(s, "arith", "integer division by zero");
        switch (opc) {
        case Instruction::UDiv: return mkint(w, z3::udiv(x, y));
        case Instruction::URem: return mkint(w, z3::urem(x, y));
        case Instruction::SDiv: return mkint(w, x / y);
        case Instruction::SRem: return mkint(w, z3::srem(x, y));
        }
    }
    unsupported("integer op");
}
static Val icmp_v(unsigned pred, unsigned w, const Val &a, const Val &b) {
    if (a.conc() && b.conc()) {
        uint64_t x = a.c, y = b.c;
        int64_t sx = sext(x, w), sy = sext(y, w);
        switch (pred) {
        case CmpInst::ICMP_EQ: return Val(x == y);
        case CmpInst::ICMP_NE: return Val(x != y);
        case CmpInst::ICMP_UGT: return Val(x > y);
        case CmpInst::ICMP_UGE: return Val(x >= y);
        case CmpInst::ICMP_ULT: return Val(x < y);
        case CmpInst::ICMP_ULE: return Val(x <= y);
        case CmpInst::ICMP_SGT: return Val(sx > sy);
        case CmpInst::ICMP_SGE: return Val(sx >= sy);
        case CmpInst::ICMP_SLT: return Val(sx < sy);
        default: return Val(sx <= sy);
        }
    }
    if (w == 1) {
        expr x = asbool(a), y = asbool(b);
        switch (pred) {
        case CmpInst::ICMP_EQ: return mkint(1, x == y);
        case CmpInst::ICMP_NE: return mkint(1, x != y);
        case CmpInst::ICMP_UGT: case CmpInst::ICMP_SLT: return mkint(1, x && !y);
        case CmpInst::ICMP_ULT: case CmpInst::ICMP_SGT: return mkint(1, !x && y);
        case CmpInst::ICMP_UGE: case CmpInst::ICMP_SLE: return mkint(1, x || !y);
        default: return mkint(1, !x || y);
        }
    }
    expr x = iexpr(w, a), y = iexpr(w, b);
    if (w >= 32 && x.is_real() && b.conc()) {       // the sign bit (real numbers have no negative zero)
        int64_t k = sext(b.c, w);
        if ((pred == CmpInst::ICMP_SLT && k == 0) || (pred == CmpInst::ICMP_SLE && k == -1)) return mkint(1, x < 0);
        if ((pred == CmpInst::ICMP_SGE && k == 0) || (pred == CmpInst::ICMP_SGT && k == -1)) return mkint(1, x >= 0);
    }
    if (x.is_real()) x = real_bits(x, w);
    if (y.is_real()) y = real_bits(y, w);
    if (x.is_fpa()) x = expr(*zc, Z3_mk_fpa_to_ieee_bv(*zc, x));
    if (y.is_fpa()) y = expr(*zc, Z3_mk_fpa_to_ieee_bv(*zc, y));
    switch (pred) {
    case CmpInst::ICMP_EQ: return mkint(1, x == y);
    case CmpInst::ICMP_NE: return mkint(1, x != y);
    case CmpInst::ICMP_UGT: return mkint(1, z3::ugt(x, y));
    case CmpInst::ICMP_UGE: return mkint(1, z3::uge(x, y));
    case CmpInst::ICMP_ULT: return mkint(1, z3::ult(x, y));
    case CmpInst::ICMP_ULE: return mkint(1, z3::ule(x, y));
    case CmpInst::ICMP_SGT: return mkint(1, x > y);
    case CmpInst::ICMP_SGE: return mkint(1, x >= y);
    case CmpInst::ICMP_SLT: return mkint(1, x < y);
    default: return mkint(1, x <= y);
    }
}

static std::string read_cstr(State &s, uint64_t a) {
    std::string r;
    Obj *o = s.mem.get(a >> 32);
    if (!o) return "?";
    for (uint64_t i = a & 0xffffffff; i < o->size && o->b[i]; ++i) r += (char)o->b[i];
    return r;
}

// ---------------------------------------------------------------- exceptions
static void ti_bases(uint64_t ti, std::vector<std::pair<uint64_t, int64_t>> &out) {
    auto it = addrg.find(ti);
    if (it == addrg.end()) return;
    const GlobalVariable *g = it->second;
    if (!g->hasInitializer()) return;
    auto *cs = dyn_cast<ConstantStruct>(g->getInitializer());
    if (!cs) return;
    auto addr = [&](Constant *c) -> uint64_t { c = cast<Constant>(c->stripPointerCasts()); if (auto *gv = dyn_cast<GlobalValue>(c)) return global_addr(gv); return 0; };
    if (cs->getNumOperands() == 3) out.push_back({addr(cs->getOperand(2)), 0});
    else if (cs->getNumOperands() > 4)
        for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2)
            out.push_back({addr(cs->getOperand(i)), cast<ConstantInt>(cs->getOperand(i + 1))->getSExtValue() >> 8});
}
static bool ti_offset(uint64_t from, uint64_t to, int64_t &off) {
    if (from == to) { off = 0; return true; }
    auto it = addrg.find(from);
    if (it != addrg.end() && !it->second->hasInitializer()) {
        auto jt = addrg.find(to);
        std::string a = it->second->getName().str(), b = jt == addrg.end() ? "" : jt->second->getName().str();
        if (a.substr(0, 6) == "_ZTISt" && b == "_ZTISt9exception") { off = 0; return true; }
    }
    std::vector<std::pair<uint64_t, int64_t>> bs;
    ti_bases(from, bs);
    for (auto &b : bs) { int64_t o; if (ti_offset(b.first, to, o)) { off = b.second + o; return true; } }
    return false;
}
static void pop_frame(State &s) {
    for (uint32_t id : s.st.back().allocas) s.mem.kill(id);
    s.st.pop_back();
}
static void enter_bb(State &s, Frame &f, int bb);
// unwind from the current instruction (a call that threw)
static void unwind(State &s, uint64_t obj) {
    s.exc_obj = obj;
    uint64_t ti = s.exc_ti[obj];
    for (;;) {
        if (s.st.empty()) throw PathEnd{"exit", "uncaught"};
        Frame &f = s.st.back();
        Ins &in = f.f->bbs[f.bb].ins[f.pc];
        if (in.opc == Instruction::Invoke) {
            BBInfo &ub = f.f->bbs[in.bb1];
            LandingPadInst *lp = nullptr;
            for (auto &x : *ub.bb) if ((lp = dyn_cast<LandingPadInst>(&x))) break;
            bool take = lp && lp->isCleanup();
            if (lp) for (unsigned i = 0; i < lp->getNumClauses() && !take; ++i) {
                if (lp->isFilter(i)) { take = true; break; }
                Constant *c = lp->getClause(i);
                if (isa<ConstantPointerNull>(c)) take = true;
                else { int64_t o; if (ti_offset(ti, const_val(c).c, o)) take = true; }
            }
            if (take) { enter_bb(s, f, in.bb1); return; }
        }
        if (s.st.size() == 1) {
            auto it = addrg.find(ti);
            path_error(s, "exception", "uncaught exception of type " + (it == addrg.end() ? std::string("?") : llvm::demangle(it->second->getName().str())));
        }
        pop_frame(s);
    }
}

// ---------------------------------------------------------------- externals
#include "ext.inc"

// ---------------------------------------------------------------- stepping
static Val &R(Frame &f, const Opnd &o) { return o.reg >= 0 ? f.regs[o.reg] : const_cast<Val &>(o.k); }
static void enter_bb(State &s, Frame &f, int bb) {
    BBInfo &b = f.f->bbs[bb];
    b.covered = true;
    if (!b.phis.empty()) {
        static std::vector<Val> tmp;
        tmp.clear();
        for (auto &p : b.phis) {
            bool ok = false;
            for (auto &x : p.in) if (x.first == f.bb) { tmp.push_back(R(f, x.second)); ok = true; break; }
            if (!ok) unsupported("phi");
        }
        for (size_t i = 0; i < b.phis.size(); ++i) f.regs[b.phis[i].dst] = tmp[i];
    }
    f.bb = bb;
    f.pc = 0;
}
static void push_frame(State &s, FuncInfo *fi, std::vector<Val> &args) {
    if (s.st.size() > 400) path_error(s, "stack", "call depth over 400 in " + fi->dem);
    compile(fi);
    s.st.emplace_back();
    Frame &f = s.st.back();
    f.f = fi;
    f.regs.resize(fi->nregs);
    unsigned n = fi->F->arg_size();
    for (unsigned i = 0; i < n && i < args.size(); ++i) f.regs[i] = args[i];
    // byval arguments are copied
    for (unsigned i = 0; i < n; ++i)
        if (fi->F->getArg(i)->hasByValAttr()) {
            uint64_t sz = DL->getTypeAllocSize(fi->F->getArg(i)->getParamByValType());
            uint32_t id = alloc_obj(s, sz, 's', "byval");
            mem_copy(s, base_of(id), args[i].c, sz);
            f.regs[i] = Val(base_of(id));
            f.allocas.push_back(id);
        }
    f.bb = 0; f.pc = 0;
    fi->bbs[0].covered = true;
}
// after a call instruction at the top frame finished with value v
static void finish_call(State &s, const Val &v) {
    Frame &f = s.st.back();
    Ins &in = f.f->bbs[f.bb].ins[f.pc];
    if (in.dst >= 0) f.regs[in.dst] = v;
    if (in.opc == Instruction::Invoke) enter_bb(s, f, in.bb0);
    else f.pc++;
}
static Val lanes(State &s, Ins &in, Val **op, unsigned nop);
static Val scalar_op(State &s, Ins &in, const Ty &ty, const Ty &oty, Val **op) {
    switch (in.opc) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        return ibin(s, in, in.opc, ty.w, *op[0], *op[1]);
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
        return fbin(s, in.opc, ty, *op[0], *op[1]);
    case Instruction::FNeg: return fneg_v(ty, *op[0]);
    case Instruction::ICmp: return icmp_v(in.pred, oty.w, *op[0], *op[1]);
    case Instruction::FCmp: return fcmp_v(s, in.pred, oty, *op[0], *op[1]);
    case Instruction::ZExt:
        if (op[0]->conc()) return *op[0];
        if (op[0]->e().is_bool()) return mkint(ty.w, z3::ite(op[0]->e(), zc->bv_val(1, ty.w), zc->bv_val(0, ty.w)));
        return mkint(ty.w, z3::zext(op[0]->e(), ty.w - oty.w));
    case Instruction::SExt:
        if (op[0]->conc()) return Val(maskw((uint64_t)sext(op[0]->c, oty.w), ty.w));
        if (op[0]->e().is_bool()) return mkint(ty.w, z3::ite(op[0]->e(), zc->bv_val(-1, ty.w), zc->bv_val(0, ty.w)));
        return mkint(ty.w, z3::sext(op[0]->e(), ty.w - oty.w));
    case Instruction::Trunc:
        if (op[0]->conc()) return Val(maskw(op[0]->c, ty.w));
        if (op[0]->e().is_real()) unsupported("truncation of a real number's bits");
        if (ty.w == 1) return mkint(1, op[0]->e().extract(0, 0) == zc->bv_val(1, 1));
        if (op[0]->e().is_fpa()) return mkint(ty.w, expr(*zc, Z3_mk_fpa_to_ieee_bv(*zc, op[0]->e())).extract(ty.w - 1, 0));
        return mkint(ty.w, op[0]->e().extract(ty.w - 1, 0));
    case Instruction::FPToSI: return fp_to_int(s, oty, *op[0], ty.w, true);
    case Instruction::FPToUI: return fp_to_int(s, oty, *op[0], ty.w, false);
    case Instruction::SIToFP: return int_to_fp(s, ty, *op[0], oty.w, true);
    case Instruction::UIToFP: return int_to_fp(s, ty, *op[0], oty.w, false);
    case Instruction::FPTrunc:
        if (op[0]->conc()) return fconst(ty, bits2d(op[0]->c));
        if (REAL) return *op[0];
        return Val(expr(*zc, Z3_mk_fpa_to_fp_float(*zc, RNE(), op[0]->e(), zc->fpa_sort(8, 24))));
    case Instruction::FPExt:
        if (ty.k != T_DBL) unsupported("long double");
        if (op[0]->conc()) return Val(d2bits(bits2f(op[0]->c)));
        if (REAL) return *op[0];
        return Val(expr(*zc, Z3_mk_fpa_to_fp_float(*zc, RNE(), op[0]->e(), zc->fpa_sort(11, 53))));
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Freeze: {
        if (op[0]->conc()) return ty.k == T_INT ? Val(maskw(op[0]->c, ty.w)) : *op[0];
        if (ty.k == T_INT || ty.k == T_PTR) {
            if (op[0]->e().is_fpa() && (oty.k == T_DBL || oty.k == T_FLT)) return mkint(ty.w, expr(*zc, Z3_mk_fpa_to_ieee_bv(*zc, op[0]->e())));
            return *op[0];
        }
        if (in.opc == Instruction::BitCast) return conv_cell(*op[0], oty, ty);
        return *op[0];
    }
    case Instruction::Select: {
        // op[0] is i1
        if (op[0]->conc()) return (op[0]->c & 1) ? *op[1] : *op[2];
        if (ty.k == T_INT && !op[1]->agg()) {
            if (op[1]->conc() && op[2]->conc() && op[1]->c == op[2]->c) return *op[1];
            return mkint(ty.w, z3::ite(asbool(*op[0]), iexpr(ty.w, *op[1]), iexpr(ty.w, *op[2])));
        }
        if (!REAL && (ty.k == T_DBL || ty.k == T_FLT) && (op[1]->sym() || op[2]->sym()))
            return Val(z3::ite(asbool(*op[0]), fexpr(ty, *op[1]), fexpr(ty, *op[2])));
        return bval(s, *op[0]) ? *op[1] : *op[2];
    }
    }
    unsupported(std::string("instruction ") + in.I->getOpcodeName());
}
static Ty elemty(Type *t) { return tyof(cast<FixedVectorType>(t)->getElementType()); }

static void step(State &s) {
    Frame &f = s.st.back();
    Ins &in = f.f->bbs[f.bb].ins[f.pc];
    s.steps++;
    switch (in.opc) {
    case Instruction::Br:
        if (in.bb1 < 0) { enter_bb(s, f, in.bb0); return; }
        { bool t = bval(s, R(f, in.ops[0])); enter_bb(s, f, t ? in.bb0 : in.bb1); return; }
    case Instruction::Switch: {
        Val &v = R(f, in.ops[0]);
        if (v.conc()) {
            for (auto &c : in.cases) if (c.first == v.c) { enter_bb(s, f, c.second); return; }
            enter_bb(s, f, in.bb0); return;
        }
        for (auto &c : in.cases)
            if (branch(s, (iexpr(in.oty.w, v) == zc->bv_val((uint64_t)c.first, in.oty.w)).simplify())) { enter_bb(s, f, c.second); return; }
        enter_bb(s, f, in.bb0);
        return;
    }
    case Instruction::Load: {
        uint64_t a = concretize(s, R(f, in.ops[0]), 64);
        f.regs[in.dst] = load_at(s, a, in.ty);
        f.pc++;
        return;
    }
    case Instruction::Store: {
        uint64_t a = concretize(s, R(f, in.ops[1]), 64);
        store_at(s, a, in.oty, R(f, in.ops[0]));
        f.pc++;
        return;
    }
    case Instruction::AtomicRMW: {       // one thread
        uint64_t a = concretize(s, R(f, in.ops[0]), 64);
        Val old = load_at(s, a, in.ty), v = R(f, in.ops[1]);
        auto how = cast<AtomicRMWInst>(in.I)->getOperation();
        if (in.ty.k != T_INT || (how != AtomicRMWInst::Add && how != AtomicRMWInst::Sub && how != AtomicRMWInst::Xchg)) unsupported("this atomicrmw");
        store_at(s, a, in.ty, how == AtomicRMWInst::Xchg ? v : ibin(s, in, how == AtomicRMWInst::Add ? Instruction::Add : Instruction::Sub, in.ty.w, old, v));
        f.regs[in.dst] = old;
        f.pc++;
        return;
    }
    case Instruction::GetElementPtr: {
        Val base = R(f, in.ops[0]);
        if (base.conc()) {
            uint64_t a = base.c + in.imm;
            bool sym = false;
            for (size_t i = 0; i < in.scale.size(); ++i) {
                Val &x = R(f, in.ops[i + 1]);
                if (!x.conc()) { sym = true; break; }
                a += in.scale[i] * sext(x.c, in.idx[i]);
            }
            if (!sym) { f.regs[in.dst] = Val(a); f.pc++; return; }
        }
        expr e = iexpr(64, base) + zc->bv_val((uint64_t)in.imm, 64);
        for (size_t i = 0; i < in.scale.size(); ++i) {
            Val &x = R(f, in.ops[i + 1]);
            expr xe = iexpr(in.idx[i], x);
            if (in.idx[i] < 64) xe = z3::sext(xe, 64 - in.idx[i]);
            e = e + xe * zc->bv_val((uint64_t)in.scale[i], 64);
        }
        f.regs[in.dst] = mkint(64, e);
        f.pc++;
        return;
    }
    case Instruction::Alloca: {
        uint64_t n = concretize(s, R(f, in.ops[0]), 64);
        uint32_t id = alloc_obj(s, in.imm * n, 's', "local");
        f.allocas.push_back(id);
        f.regs[in.dst] = Val(base_of(id));
        f.pc++;
        return;
    }
    case Instruction::Call: case Instruction::Invoke: {
        static std::vector<Val> args;
        args.clear();
        CallBase *cb = cast<CallBase>(in.I);
        unsigned na = cb->arg_size();
        for (unsigned i = 0; i < na; ++i) args.push_back(R(f, in.ops[i]));
        FuncInfo *cf = in.cf;
        ExtFn ext = in.ext;
        if (!in.callee) {
            if (in.extname == "asm") { finish_call(s, Val((uint64_t)0)); return; }
            uint64_t a = concretize(s, R(f, in.ops.back()), 64);
            auto it = faddr.find(a);
            if (it == faddr.end()) path_error(s, "memory", a == 0 ? "call through a null function pointer" : "call through an invalid function pointer");
            cf = info(it->second);
            ext = find_ext(it->second->getName().str(), cf->dem);
        }
        if (ext) {
            Val r;
            Ins &ci = in;
            std::vector<Val> a2(args);
            size_t depth = s.st.size();
            curdem = cf ? &cf->dem : nullptr;
            curcallee = cf ? cf->F : nullptr;
            transferred = false;
            ext(s, ci, a2, r);
            (void)depth;
            if (!transferred) finish_call(s, r);
            return;
        }
        if (cf->F->isDeclaration()) unsupported("call of external function " + cf->dem);
        std::vector<Val> a2(args);
        push_frame(s, cf, a2);
        return;
    }
    case Instruction::Ret: {
        Val v;
        if (!in.ops.empty()) v = R(f, in.ops[0]);
        pop_frame(s);
        if (s.st.empty()) throw PathEnd{"exit", ""};
        finish_call(s, v);
        return;
    }
    case Instruction::Unreachable: path_error(s, "abort", "unreachable code reached");
    case Instruction::LandingPad: {
        LandingPadInst *lp = cast<LandingPadInst>(in.I);
        uint64_t ti = s.exc_ti[s.exc_obj];
        uint64_t sel = 0;
        for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
            if (lp->isFilter(i)) continue;
            Constant *c = lp->getClause(i);
            if (isa<ConstantPointerNull>(c)) { sel = 1; break; }
            int64_t o;
            uint64_t ct = const_val(c).c;
            if (ti_offset(ti, ct, o)) { sel = ct >> 32; break; }
        }
        Val r; r.s = new SymBox(*zc); r.s->rc = 1;
        r.s->agg.push_back(Val(s.exc_obj));
        r.s->agg.push_back(Val(sel));
        f.regs[in.dst] = r;
        f.pc++;
        return;
    }
    case Instruction::Resume: {
        uint64_t obj = R(f, in.ops[0]).s->agg[0].c;
        pop_frame(s);
        if (s.st.empty()) throw PathEnd{"exit", "uncaught"};
        unwind(s, obj);
        return;
    }
    case Instruction::ExtractValue: {
        Val v = R(f, in.ops[0]);
        for (unsigned i : in.idx) { if (!v.agg()) unsupported("extractvalue"); Val t = v.s->agg[i]; v = t; }
        f.regs[in.dst] = v;
        f.pc++;
        return;
    }
    case Instruction::InsertValue: {
        Val v = R(f, in.ops[0]);
        std::function<Val(const Val &, Type *, unsigned)> ins = [&](const Val &b, Type *t, unsigned d) -> Val {
            if (d == in.idx.size()) return R(f, in.ops[1]);
            Val r; r.s = new SymBox(*zc); r.s->rc = 1;
            unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
            if (b.agg()) r.s->agg = b.s->agg; else r.s->agg.resize(n);
            Type *et = t->isStructTy() ? t->getStructElementType(in.idx[d]) : t->getArrayElementType();
            r.s->agg[in.idx[d]] = ins(r.s->agg[in.idx[d]], et, d + 1);
            return r;
        };
        f.regs[in.dst] = ins(v, in.I->getType(), 0);
        f.pc++;
        return;
    }
    case Instruction::ExtractElement: {
        uint64_t i = concretize(s, R(f, in.ops[1]), 64);
        f.regs[in.dst] = Val(R(f, in.ops[0]).s->agg[i]);
        f.pc++;
        return;
    }
    case Instruction::InsertElement: {
        Val b = R(f, in.ops[0]);
        uint64_t i = concretize(s, R(f, in.ops[2]), 64);
        Val r; r.s = new SymBox(*zc); r.s->rc = 1;
        unsigned n = cast<FixedVectorType>(in.I->getType())->getNumElements();
        if (b.agg()) r.s->agg = b.s->agg; else r.s->agg.resize(n);
        r.s->agg[i] = R(f, in.ops[1]);
        f.regs[in.dst] = r;
        f.pc++;
        return;
    }
    case Instruction::ShuffleVector: {
        Val a = R(f, in.ops[0]), b = R(f, in.ops[1]);
        unsigned n = cast<FixedVectorType>(in.I->getOperand(0)->getType())->getNumElements();
        Val r; r.s = new SymBox(*zc); r.s->rc = 1;
        for (int m : in.mask) {
            if (m < 0) r.s->agg.push_back(Val((uint64_t)0));
            else if ((unsigned)m < n) r.s->agg.push_back(a.agg() ? a.s->agg[m] : Val((uint64_t)0));
            else r.s->agg.push_back(b.agg() ? b.s->agg[m - n] : Val((uint64_t)0));
        }
        f.regs[in.dst] = r;
        f.pc++;
        return;
    }
    default: break;
    }
    Val *op[3] = {nullptr, nullptr, nullptr};
    for (size_t i = 0; i < in.ops.size() && i < 3; ++i) op[i] = &R(f, in.ops[i]);
    if (in.I->getType()->isVectorTy()) {
        Val r; r.s = new SymBox(*zc); r.s->rc = 1;
        unsigned n = cast<FixedVectorType>(in.I->getType())->getNumElements();
        Ty et = elemty(in.I->getType()), ot = in.I->getOperand(0)->getType()->isVectorTy() ? elemty(in.I->getOperand(0)->getType()) : tyof(in.I->getOperand(0)->getType());
        if (in.opc == Instruction::BitCast) unsupported("vector bitcast");
        for (unsigned k = 0; k < n; ++k) {
            Val *p[3];
            for (int j = 0; j < 3; ++j) p[j] = op[j] && op[j]->agg() ? &op[j]->s->agg[k] : op[j];
            r.s->agg.push_back(scalar_op(s, in, et, ot, p));
        }
        f.regs[in.dst] = r;
        f.pc++;
        return;
    }
    if (in.opc == Instruction::BitCast && in.I->getOperand(0)->getType()->isVectorTy()) unsupported("vector bitcast");
    Val r = scalar_op(s, in, in.ty, in.oty, op);
    f.regs[in.dst] = r;
    f.pc++;
}

// ---------------------------------------------------------------- exploration
static uint64_t path_no = 0;
static void sample_path(State &s, const std::string &end) {
    // the first path, then ever rarer ones, so that the samples are spread out
    uint64_t k = path_no++;
    bool want = (int)stats.traces.size() < opt.maxtraces && (k & (k + 1)) == 0;
    bool show = (int)stats.samples.size() < opt.maxsamples;
    if (!want && !show) return;
    std::shared_ptr<z3::model> m = s.model;
    if (!m) { Res r = query(s, zc->bool_val(true), &m, true, 5000); (void)r; }
    if (!m) return;
    Viol t;
    t.kind = "trace";
    t.inputs = model_inputs(s, *m);
    for (size_t i = 0; i < s.dumps.size(); ++i) t.dumps.push_back(s.dumps[i].first + "=" + show_val(s, s.dumps[i].second, s.dumpty[i], m.get()));
    if (show) {
        std::string r = "inputs{";
        int n = 0;
        for (auto &p : t.inputs) {
            if (n++ > 40) { r += " ..."; break; }
            std::string v = p.second;
            if (v.find("0x") != std::string::npos) { char b[40]; snprintf(b, 40, "%.6g", strtod(v.c_str(), 0)); v = b; }
            r += (n > 1 ? " " : "") + p.first + "=" + v;
        }
        r += "} " + std::to_string(s.steps) + " instructions, " + std::to_string(s.pc ? s.pc->depth : 0) + " branch constraints";
        for (size_t i = 0; i < t.dumps.size() && i < 12; ++i) r += (i ? ", " : "; ") + t.dumps[i];
        stats.samples.push_back(r);
    }
    if (want) stats.traces.push_back(t);
}
// ---- sharing of the work among processes
enum { MAXWORKERS = 20000 };
struct Share { std::atomic<int> active{0}, made{0}; int pids[MAXWORKERS]; char done[MAXWORKERS]; };
static Share *share = nullptr;
static int worker = -1;
static double last_share = 0;
[[noreturn]] static void work_off();
// hand everything that is queued to a new process when one may be started
static void maybe_share() {
    if (!share || worker < 0 || work.empty()) return;
    if (share->active >= opt.jobs) return;
    double t = now();
    if (t - last_share < (share->made < 3 * opt.jobs ? 0.02 : 0.25)) return;
    if (share->active.fetch_add(1) >= opt.jobs || share->made >= MAXWORKERS - 64) { share->active--; return; }
    last_share = t;
    int k = share->made.fetch_add(1);
    pid_t p = fork();
    if (p < 0) { share->active--; share->done[k] = 0; share->made--; return; }
    if (p == 0) {
        worker = k;
        share->pids[k] = getpid();
        stats = Stats();
        violcount.clear();
        throw PathEnd{"handed over", ""};
    }
    share->pids[k] = p;
    work.clear();
}

static void run_state(StateP sp) {
    State &s = *sp;
    cur = &s;
    try {
        for (;;) {
            for (int i = 0; i < 4096; ++i) { step(s); }
            stats.instrs += 4096;
            if (s.steps > opt.steps) {
                if (opt.hang_is_violation) path_error(s, "nontermination", "no result after " + std::to_string(opt.steps) + " instructions");
                throw PathEnd{"abort", "instruction budget of a path exhausted"};
            }
            if (now() - t_start > opt.time) { stats.unexplored++; cur = nullptr; return; }
        }
    } catch (PathEnd &e) {
        if (e.kind != "handed over") stats.instrs += s.steps % 4096;
        if (e.kind == "exit") {
            // only count the path when a solver confirms it can happen
            if (!s.model && REAL) {
                static int open = 0;
                Res r = opt.apart && open >= 2 ? UNK : query(s, zc->bool_val(true), nullptr, true, opt.fms);
                open += r == UNK;
                if (r == UNSAT) { stats.infeasible++; cur = nullptr; return; }
                if (r == UNK) { stats.aborts["feasibility of a finished path unknown (its checks were still decided)"]++; }
                if (r == SAT) for (auto &l : s.reached) stats.reach[l]++;
            } else for (auto &l : s.reached) stats.reach[l]++;
            stats.paths++;
            sample_path(s, e.msg);
        }
        else if (e.kind == "error") { stats.paths++; }
        else if (e.kind == "infeasible") stats.infeasible++;
        else if (e.kind == "handed over") {}
        else { stats.aborted++; std::string k = e.msg + " @ " + where_now(); if (stats.aborts.size() < 40) stats.aborts[k]++; }
    } catch (z3::exception &e) {
        stats.aborted++;
        stats.aborts[std::string("z3: ") + e.msg() + " @ " + where_now()]++;
    }
    cur = nullptr;
}

static std::string stats_blob(const Stats &st, const std::set<std::string> &funcs, const std::map<std::string, std::set<int>> &lines) {
    // line based format, merged by the parent
    std::ostringstream o;
    o << "N instrs " << st.instrs << "\nN forks " << st.forks << "\nN q " << st.q << "\nN qsat " << st.qsat << "\nN qunsat " << st.qunsat << "\nN qunk " << st.qunk << "\n";
    o << "N paths " << st.paths << "\nN aborted " << st.aborted << "\nN checks " << st.checks << "\nN checks_const " << st.checks_const << "\nN checks_solved " << st.checks_solved << "\nN checks_unknown " << st.checks_unknown << "\n";
    o << "N uninit_reads " << st.uninit_reads << "\nN infeasible " << st.infeasible << "\nN unexplored " << st.unexplored << "\n";
    o << "T " << st.qtime << "\n";
    auto esc = [](std::string s) { for (auto &c : s) if (c == '\n') c = ' '; return s; };
    for (auto &k : st.aborts) o << "A " << k.second << " " << esc(k.first) << "\n";
    for (auto &k : st.reach) o << "R " << k.second << " " << esc(k.first) << "\n";
    for (auto &k : st.checkmsgs) o << "C " << k.second << " " << esc(k.first) << "\n";
    for (auto &k : st.unkmsgs) o << "U " << esc(k) << "\n";
    for (auto &k : st.samples) o << "S " << esc(k) << "\n";
    for (auto &k : funcs) o << "F " << esc(k) << "\n";
    for (auto &k : lines) for (int l : k.second) o << "L " << l << " " << k.first << "\n";
    for (auto *vs : {&st.viols, &st.traces}) for (auto &v : *vs) {
        o << "V " << esc(v.kind) << "\t" << esc(v.msg) << "\t" << esc(v.where) << "\n";
        for (auto &p : v.inputs) o << "I " << p.first << " " << p.second << "\n";
        for (auto &p : v.dumps) o << "D " << esc(p) << "\n";
        o << "E\n";
    }
    return o.str();
}
static void coverage(std::set<std::string> &funcs, std::map<std::string, std::set<int>> &lines) {
    for (auto &kv : finfo) {
        FuncInfo *fi = kv.second;
        if (!fi->compiled) continue;
        for (auto &b : fi->bbs) {
            if (!b.covered) continue;
            for (auto &i : *b.bb) {
                DILocation *d = i.getDebugLoc();
                for (; d; d = d->getInlinedAt()) {
                    auto *sp = d->getScope()->getSubprogram();
                    if (!sp) continue;
                    std::string file = sp->getFilename().str();
                    if (file.empty() || file[0] != '/') file = sp->getDirectory().str() + "/" + file;
                    if (file.compare(0, opt.covroot.size(), opt.covroot) != 0) continue;
                    std::string n = llvm::demangle(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str());
                    funcs.insert(n);
                    if (d->getLine()) lines[file].insert(d->getLine());
                }
            }
        }
    }
}
static void merge_blob(const std::string &b, Stats &st, std::set<std::string> &funcs, std::map<std::string, std::set<int>> &lines) {
    std::istringstream is(b);
    std::string l;
    Viol v;
    while (std::getline(is, l)) {
        if (l.size() < 1) continue;
        std::istringstream ls(l.size() > 2 ? l.substr(2) : "");
        switch (l[0]) {
        case 'N': {
            std::string k; uint64_t n; ls >> k >> n;
            std::map<std::string, uint64_t *> m = {{"instrs", &st.instrs}, {"forks", &st.forks}, {"q", &st.q}, {"qsat", &st.qsat}, {"qunsat", &st.qunsat}, {"qunk", &st.qunk}, {"paths", &st.paths}, {"aborted", &st.aborted}, {"checks", &st.checks}, {"checks_const", &st.checks_const}, {"checks_solved", &st.checks_solved}, {"checks_unknown", &st.checks_unknown}, {"uninit_reads", &st.uninit_reads}, {"infeasible", &st.infeasible}, {"unexplored", &st.unexplored}};
            if (m.count(k)) *m[k] += n;
            break; }
        case 'T': { double t; ls >> t; st.qtime += t; break; }
        case 'A': case 'R': case 'C': {
            uint64_t n; ls >> n; std::string k; std::getline(ls, k); k = k.substr(1);
            (l[0] == 'A' ? st.aborts : l[0] == 'R' ? st.reach : st.checkmsgs)[k] += n; break; }
        case 'U': st.unkmsgs.insert(l.substr(2)); break;
        case 'S': if ((int)st.samples.size() < opt.maxsamples) st.samples.push_back(l.substr(2)); break;
        case 'F': funcs.insert(l.substr(2)); break;
        case 'L': { int n; ls >> n; std::string k; std::getline(ls, k); lines[k.substr(1)].insert(n); break; }
        case 'V': {
            v = Viol();
            std::string r = l.substr(2);
            size_t a = r.find('\t'), b2 = r.find('\t', a + 1);
            v.kind = r.substr(0, a); v.msg = r.substr(a + 1, b2 - a - 1); v.where = r.substr(b2 + 1);
            break; }
        case 'I': { size_t a = l.rfind(' '); v.inputs.push_back({l.substr(2, a - 2), l.substr(a + 1)}); break; }
        case 'D': v.dumps.push_back(l.substr(2)); break;
        case 'E': if (v.kind != "trace") st.viols.push_back(v); else if ((int)st.traces.size() < opt.maxtraces * 2) st.traces.push_back(v); break;
        }
    }
}
static void write_out(const Stats &st, const std::set<std::string> &funcs, const std::map<std::string, std::set<int>> &lines, double wall, bool complete) {
    std::ofstream o(opt.out);
    o << "{\n \"entry\": " << jstr(opt.entry) << ", \"mode\": \"" << (REAL ? "real" : "fp") << "\", \"complete\": " << (complete ? "true" : "false") << ",\n";
    o << " \"wall\": " << wall << ", \"instructions\": " << st.instrs << ", \"forks\": " << st.forks << ", \"queries\": " << st.q << ", \"sat\": " << st.qsat << ", \"unsat\": " << st.qunsat << ", \"unknown\": " << st.qunk << ", \"solver_s\": " << st.qtime << ",\n";
    o << " \"paths\": " << st.paths << ", \"infeasible\": " << st.infeasible << ", \"aborted\": " << st.aborted << ", \"unexplored\": " << st.unexplored << ",\n";
    o << " \"checks\": " << st.checks << ", \"checks_const\": " << st.checks_const << ", \"checks_solved\": " << st.checks_solved << ", \"checks_unknown\": " << st.checks_unknown << ", \"uninit_reads\": " << st.uninit_reads << ",\n";
    auto mp = [&](const char *n, const std::map<std::string, uint64_t> &m) {
        o << " \"" << n << "\": {"; bool f = true;
        for (auto &k : m) { o << (f ? "" : ", ") << jstr(k.first) << ": " << k.second; f = false; }
        o << "},\n";
    };
    mp("aborts", st.aborts); mp("reach", st.reach); mp("check_msgs", st.checkmsgs);
    auto ls = [&](const char *n, const auto &m) {
        o << " \"" << n << "\": ["; bool f = true;
        for (auto &k : m) { o << (f ? "" : ", ") << jstr(k); f = false; }
        o << "],\n";
    };
    ls("unknown_checks", st.unkmsgs); ls("samples", st.samples); ls("functions", funcs);
    o << " \"lines\": {"; bool f = true;
    for (auto &k : lines) { o << (f ? "" : ", ") << jstr(k.first) << ": ["; bool g = true; for (int x : k.second) { o << (g ? "" : ",") << x; g = false; } o << "]"; f = false; }
    o << "}";
    for (int tr = 0; tr < 2; ++tr) {
    o << (tr ? ",\n \"traces\": [" : ",\n \"violations\": ["); f = true;
    for (auto &v : tr ? st.traces : st.viols) {
        o << (f ? "\n" : ",\n") << "  {\"kind\": " << jstr(v.kind) << ", \"msg\": " << jstr(v.msg) << ", \"where\": " << jstr(v.where) << ", \"inputs\": [";
        bool g = true;
        for (auto &p : v.inputs) { o << (g ? "" : ", ") << "[" << jstr(p.first) << ", " << jstr(p.second) << "]"; g = false; }
        o << "], \"dumps\": ["; g = true;
        for (auto &p : v.dumps) { o << (g ? "" : ", ") << jstr(p); g = false; }
        o << "]}"; f = false;
    }
    o << "]";
    }
    o << "\n}\n";
}

// --link: one module with only the harness entries visible, simplified by LLVM's
// own pipeline. Stream output is cut off before anything of it can be inlined.
static int link_and_optimise(Module &m) {
    for (auto &f : m) {
        if (f.isDeclaration()) continue;
        std::string n = f.getName().str();
        ExtFn e = find_ext(n, llvm::demangle(n));
        if (e) { f.deleteBody(); f.setComdat(nullptr); f.setLinkage(GlobalValue::ExternalLinkage); continue; }
        if (n.compare(0, 2, "h_") == 0) continue;
        if (f.hasLocalLinkage()) continue;
        f.setComdat(nullptr);
        f.setLinkage(GlobalValue::InternalLinkage);
    }
    for (auto &g : m.globals()) {
        if (g.isDeclaration() || g.getName().starts_with("llvm.")) continue;
        if (g.hasAvailableExternallyLinkage()) continue;
        g.setComdat(nullptr);
        if (!g.hasLocalLinkage()) g.setLinkage(GlobalValue::InternalLinkage);
    }
    // sx_check and friends must stay calls; nothing else is needed here
    PipelineTuningOptions pto;
    pto.LoopUnrolling = false; pto.LoopVectorization = false; pto.SLPVectorization = false; pto.LoopInterleaving = false;
    PassBuilder pb(nullptr, pto);
    LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
    pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
    pb.crossRegisterProxies(lam, fam, cam, mam);
    auto mpm = pb.buildPerModuleDefaultPipeline(OptimizationLevel::O1);
    mpm.run(m, mam);
    std::error_code ec;
    raw_fd_ostream o(opt.linkto, ec, sys::fs::OF_None);
    if (ec) return 2;
    WriteBitcodeToFile(m, o);
    return 0;
}

[[noreturn]] static void work_off() {
    std::set<std::string> fn; std::map<std::string, std::set<int>> ln;
    while (!work.empty() && now() - t_start < opt.time) {
        StateP s = std::move(work.back()); work.pop_back();
        run_state(std::move(s));
    }
    stats.unexplored += work.size();
    work.clear();
    coverage(fn, ln);
    { std::ofstream(opt.out + ".w" + std::to_string(worker)) << stats_blob(stats, fn, ln); }
    share->done[worker] = 1;
    share->active--;
    _exit(0);
}

int main(int argc, char **argv) {
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&](const char *p) -> const char * { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr; };
        if (auto v = val("--entry=")) opt.entry = v;
        else if (auto v = val("--out=")) opt.out = v;
        else if (auto v = val("--mode=")) { opt.mixed = std::string(v) == "mixed"; REAL = opt.mixed || std::string(v) == "real"; }
        else if (auto v = val("--time=")) opt.time = atof(v);
        else if (auto v = val("--steps=")) opt.steps = strtoull(v, 0, 10);
        else if (auto v = val("--jobs=")) opt.jobs = atoi(v);
        else if (auto v = val("--qms=")) opt.qms = atoi(v);
        else if (auto v = val("--fms=")) opt.fms = atoi(v);
        else if (auto v = val("--conc=")) opt.concmax = atoi(v);
        else if (auto v = val("--covroot=")) opt.covroot = v;
        else if (auto v = val("--link=")) opt.linkto = v;
        else if (auto v = val("--maxviol=")) opt.maxviol = atoi(v);
        else if (a == "--fresh") opt.fresh = true;
        else if (a == "--lazy") opt.lazy = true;
        else if (a == "--apart") opt.apart = true;
        else if (a == "--bfs") opt.bfs = true;
        else if (a == "--nohang") opt.hang_is_violation = false;
        else if (a == "-v") opt.verbose = true;
        else opt.bcs.push_back(a);
    }
    t_start = now();
    LLVMContext lc;
    SMDiagnostic err;
    std::unique_ptr<Module> mod;
    for (auto &f : opt.bcs) {
        auto m2 = parseIRFile(f, err, lc);
        if (!m2) { err.print("symx", errs()); return 2; }
        if (!mod) mod = std::move(m2);
        else if (Linker::linkModules(*mod, std::move(m2))) { fprintf(stderr, "link error\n"); return 2; }
    }
    if (!mod) return 2;
    if (!opt.linkto.empty()) return link_and_optimise(*mod);
    M = mod.get();
    DataLayout dl = M->getDataLayout();
    DL = &dl;
    zc = new z3::context;
    pi_e = new expr(zc->real_const("pi"));
    syms(*pi_e);
    defs[pi_e->id()] = {*pi_e > rdbl(3.1415926535897931), *pi_e < zc->real_val("3.1415926535897933")};
    inc = new IncSolver;

    StateP s0(new State);
    cur = s0.get();
    try {
        uint64_t fa = 0x10000;
        for (auto &f : *M) { gaddr[&f] = fa; faddr[fa] = &f; fa += 16; }
        for (auto &g : M->globals()) {
            uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 64;
            if (!g.hasInitializer() && sz < 512) sz = 512;
            uint32_t id = alloc_obj(*s0, sz, 'g', g.getName().str());
            gaddr[&g] = base_of(id);
            addrg[base_of(id)] = &g;
        }
        for (auto &g : M->globals()) {
            uint64_t a = gaddr[&g];
            if (g.hasInitializer()) init_global(*s0, a, g.getInitializer());
            else mem_set(*s0, a, Val((uint64_t)0), s0->mem.get(a >> 32)->size);
            if (g.isConstant() && g.hasInitializer()) s0->mem.wr(a >> 32)->ro = true;
        }
        // static constructors, then the harness
        if (auto *gc = M->getGlobalVariable("llvm.global_ctors"))
            if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
                for (unsigned i = 0; i < ca->getNumOperands(); ++i) {
                    auto *f = dyn_cast<Function>(ca->getOperand(i)->getOperand(1)->stripPointerCasts());
                    if (!f) continue;
                    std::vector<Val> none;
                    push_frame(*s0, info(f), none);
                    try { for (;;) step(*s0); } catch (PathEnd &e) { if (e.kind != "exit") throw; }
                    s0->st.clear();
                }
        Function *ef = M->getFunction(opt.entry);
        if (!ef) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 2; }
        std::vector<Val> none;
        push_frame(*s0, info(ef), none);
    } catch (PathEnd &e) { fprintf(stderr, "initialisation failed: %s %s\n", e.kind.c_str(), e.msg.c_str()); return 2; }
    s0->steps = 0;
    work.push_back(std::move(s0));

    std::set<std::string> funcs;
    std::map<std::string, std::set<int>> lines;
    bool complete = true;
    if (opt.jobs > 1) {
        share = (Share *)mmap(0, sizeof(Share), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        new (share) Share();
        prctl(PR_SET_CHILD_SUBREAPER, 1);
        share->active = 1;
        share->pids[share->made++] = 0;
        pid_t p = fork();
        if (p == 0) { worker = 0; share->pids[0] = getpid(); work_off(); }
        // workers hand over parts of their work to new workers; all of them are waited for here
        bool killed = false;
        for (;;) {
            int stt = 0;
            pid_t r = waitpid(-1, &stt, WNOHANG);
            if (r < 0) break;
            if (r == 0) {
                if (!killed && now() - t_start > opt.time + 45) {
                    // stuck in the solver past the budget
                    killed = true;
                    for (int i = 0; i < std::min((int)share->made, (int)MAXWORKERS); ++i) if (share->pids[i] > 0 && !share->done[i]) kill(share->pids[i], SIGKILL);
                }
                usleep(5000);
                continue;
            }
            if (!WIFEXITED(stt) || WEXITSTATUS(stt)) share->active--;
        }
        for (int i = 0; i < std::min((int)share->made, (int)MAXWORKERS); ++i) {
            std::string tmp = opt.out + ".w" + std::to_string(i);
            if (!share->done[i]) { complete = false; stats.unexplored++; stats.aborts["worker ended abnormally"]++; unlink(tmp.c_str()); continue; }
            std::ifstream f(tmp);
            std::stringstream ss; ss << f.rdbuf();
            merge_blob(ss.str(), stats, funcs, lines);
            unlink(tmp.c_str());
        }
    } else {
        while (!work.empty() && now() - t_start < opt.time) {
            StateP s;
            if (opt.bfs) { s = std::move(work.front()); work.pop_front(); }
            else { s = std::move(work.back()); work.pop_back(); }
            run_state(std::move(s));
        }
        stats.unexplored += work.size();
    }
    coverage(funcs, lines);
    complete = complete && stats.unexplored == 0 && stats.aborted == 0 && stats.checks_unknown == 0;
    write_out(stats, funcs, lines, now() - t_start, complete);
    fflush(nullptr);
    _exit(stats.viols.empty() ? 0 : 1);
}
