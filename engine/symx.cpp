// symx: a bounded symbolic executor for LLVM IR.
//
//   symx module.bc --entry=f [--mode=fp|real] [--time=S] [--steps=N] [--jobs=N] --out=res.json
//
// Executes one harness function of an LLVM module.  Every value obtained from
// the sx_* input functions is a solver variable; each branch whose condition
// depends on one is decided by Z3 and forks when both outcomes are feasible;
// each sx_check() asks Z3 for inputs that make the condition false on that
// path.  Memory is modelled per object with bounds, lifetime and
// initialisation; uninitialised bytes read as fresh variables.
//
// --mode=fp   doubles are IEEE: constants are folded by the host FPU, terms over
//             symbolic doubles are SMT floating point terms
// --mode=mixed like real, but arithmetic on concrete values is done in doubles
// --mode=real doubles are exact real numbers (no rounding); libm functions are
//             axiomatised (see trig section)
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Analysis/CGSCCPassManager.h>
#include <llvm/Analysis/LoopAnalysisManager.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/PassManager.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/raw_ostream.h>
#include "value.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <atomic>
#include <cfenv>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <deque>
#include <functional>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <signal.h>
#include <atomic>
#include <unistd.h>
#include <signal.h>

using namespace llvm;
using z3::expr;
typedef boost::multiprecision::cpp_int BigInt;
typedef boost::multiprecision::cpp_rational BigRat;

static z3::context *zc;
static const DataLayout *DL;
static Module *M;
static bool REAL = false;

static double now() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- options
struct Options {
    std::vector<std::string> bcs;
    std::string entry, out, covroot = "/repo", linkto;
    double time = 300;
    uint64_t steps = 20000000;
    int jobs = 1;
    unsigned qms = 20000;      // per query time limit
    unsigned fms = 0;          // the same for questions whether a branch or path is feasible (0: qms)
    int maxviol = 3;
    int maxsamples = 3, maxtraces = 12;
    uint64_t maxpaths = ~0ull;
    int concmax = 4096;
    bool fresh = false, verbose = false, hang_is_violation = true;
    bool bfs = false, rawcmp = false, mixed = false, lazy = false, apart = false;
} opt;

// ---------------------------------------------------------------- path ends
struct PathEnd { std::string kind, msg; };   // kind: "abort" (engine limit), "infeasible", "exit"
[[noreturn]] static void unsupported(const std::string &m) { throw PathEnd{"abort", m}; }
struct Retry {};     // state forked at this instruction; run it again

// ---------------------------------------------------------------- types
static Ty tyof(Type *t) {
    static std::unordered_map<Type *, Ty> cache;
    auto it = cache.find(t);
    if (it != cache.end()) return it->second;
    Ty r;
    r.t = t;
    if (t->isVoidTy()) { r.k = T_VOID; }
    else if (t->isIntegerTy()) { r.k = T_INT; r.w = t->getIntegerBitWidth(); r.size = DL->getTypeStoreSize(t); }
    else if (t->isFloatTy()) { r.k = T_FLT; r.w = 32; r.size = 4; }
    else if (t->isDoubleTy()) { r.k = T_DBL; r.w = 64; r.size = 8; }
    else if (t->isPointerTy()) { r.k = T_PTR; r.w = 64; r.size = 8; }
    else if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) { r.k = T_AGG; r.size = DL->getTypeStoreSize(t); }
    else r.k = T_OTHER;
    cache[t] = r;
    return r;
}
static uint64_t maskw(uint64_t v, unsigned w) { return w >= 64 ? v : (v & ((1ull << w) - 1)); }
static int64_t sext(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }
static double bits2d(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static uint64_t d2bits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static float bits2f(uint64_t b) { uint32_t x = (uint32_t)b; float d; memcpy(&d, &x, 4); return d; }
static uint64_t f2bits(float d) { uint32_t b; memcpy(&b, &d, 4); return b; }
static double fval(const Ty &t, uint64_t c) { return t.k == T_FLT ? (double)bits2f(c) : bits2d(c); }
static Val fconst(const Ty &t, double d) { return Val(t.k == T_FLT ? f2bits((float)d) : d2bits(d)); }

static unsigned fp_e(const Ty &t) { return t.k == T_FLT ? 8 : 11; }
static unsigned fp_s(const Ty &t) { return t.k == T_FLT ? 24 : 53; }

// ---------------------------------------------------------------- exact rationals
static expr rat_of_double(double d) {
    int ex;
    double m = std::frexp(d, &ex);
    int64_t mi = (int64_t)std::ldexp(m, 53);
    ex -= 53;
    while (mi && !(mi & 1)) { mi >>= 1; ex++; }
    if (mi == 0) return zc->real_val(0);
    BigInt num = mi, den = 1;
    if (ex > 0) num <<= ex; else den <<= -ex;
    std::string s = num.str();
    if (den != 1) s += "/" + den.str();
    return zc->real_val(s.c_str());
}
// the double that equals a numeral exactly, if there is one
static bool exact_double(const expr &e, double &out) {
    if (!e.is_numeral()) return false;
    std::string s = Z3_get_numeral_string(*zc, e);
    try {
        size_t p = s.find('/');
        BigInt n(p == std::string::npos ? s : s.substr(0, p));
        BigInt d(p == std::string::npos ? "1" : s.substr(p + 1));
        if (d != 1) {
            BigInt t = d;
            if ((t & (t - 1)) != 0) return false;      // not dyadic
        }
        BigInt an = n < 0 ? BigInt(-n) : n;
        if (an != 0) {
            unsigned hi = msb(an), lo = lsb(an);
            if (hi - lo > 52) return false;
            int sh = d == 1 ? 0 : (int)msb(d);
            if ((int)hi - sh > 900 || (int)lo - sh < -900) return false;
            BigInt m = an >> lo;
            double v = std::ldexp((double)m.convert_to<uint64_t>(), (int)lo - sh);
            out = n < 0 ? -v : v;
        } else out = 0;
        return true;
    } catch (...) { return false; }
}
static BigRat numeral_rat(const expr &e) {
    std::string s = Z3_get_numeral_string(*zc, e);
    size_t p = s.find('/');
    BigInt n(p == std::string::npos ? s : s.substr(0, p));
    BigInt d(p == std::string::npos ? "1" : s.substr(p + 1));
    return BigRat(n, d);
}
static expr rat_expr(const BigRat &r) {
    std::string s = numerator(r).str();
    if (denominator(r) != 1) s += "/" + denominator(r).str();
    return zc->real_val(s.c_str());
}
static double rat_double(const BigRat &r) { return r.convert_to<double>(); }

// ---------------------------------------------------------------- pi
static expr *pi_e;
static bool is_pi(const expr &e) { return z3::eq(e, *pi_e); }
// a double literal that is a rational multiple of M_PI
// a multiple of a quarter turn but for rounding
static bool pi_near(double d, BigRat &q) {
    double r = std::round(d / (M_PI / 2));
    if (r == 0 || std::fabs(r) > 64 || std::fabs(d - r * (M_PI / 2)) > 4e-15 * std::fabs(r)) return false;
    q = BigRat(BigInt((long long)r), BigInt(2));
    return true;
}
static bool pi_multiple(double d, BigRat &q) {
    static const int dens[] = {1, 2, 3, 4, 6, 8, 12, 16, 18, 24, 32, 36, 45, 60, 64, 90, 128, 180, 360};
    if (d == 0 || !std::isfinite(d)) return false;
    double r = d / M_PI;
    if (std::fabs(r) > 1000 || std::fabs(r) < 1e-4) return false;
    if (d == std::floor(d)) return false;
    for (int den : dens) {
        double n = std::round(r * den);
        if (n == 0) continue;
        double v = n * M_PI / den;
        if (std::fabs(v - d) <= 3e-16 * std::fabs(d)) { q = BigRat(BigInt((long long)n), BigInt(den)); return true; }
    }
    // reciprocals: k/pi
    return false;
}

// real-valued expression of a floating value
static bool mk_float = false;          // results of the current operation are floats
struct MkTy { bool old; MkTy(const Ty &t) : old(mk_float) { mk_float = t.k == T_FLT; } ~MkTy() { mk_float = old; } };
static Val mkreal(const expr &e0) {
    expr e = e0.simplify();
    double d;
    if (e.is_numeral() && exact_double(e, d)) {
        if (!mk_float) return Val(d2bits(d));
        if ((double)(float)d == d) return Val(f2bits((float)d));
    }
    return Val(e);
}

static expr fexpr(const Ty &t, const Val &v) {
    if (v.sym()) return v.e();
    double d = fval(t, v.c);
    if (REAL) {
        if (!std::isfinite(d)) unsupported("non-finite constant in real arithmetic");
        return rat_of_double(d);
    }
    if (t.k == T_FLT) return expr(*zc, Z3_mk_fpa_to_fp_bv(*zc, zc->bv_val((uint64_t)v.c, 32), zc->fpa_sort(8, 24)));
    return expr(*zc, Z3_mk_fpa_to_fp_bv(*zc, zc->bv_val((uint64_t)v.c, 64), zc->fpa_sort(11, 53)));
}
static expr iexpr(unsigned w, const Val &v) {
    if (v.sym()) {
        if (w == 1 && v.e().is_bv()) return v.e() == zc->bv_val(1, 1);
        return v.e();
    }
    if (w == 1) return zc->bool_val(v.c & 1);
    return zc->bv_val((uint64_t)v.c, w);
}
// large terms are left as built: the simplifier would walk the whole term every time
static expr simp(const expr &e) { return Z3_get_depth(*zc, e) > 10 ? e : e.simplify(); }
static Val mkint(unsigned w, const expr &e0) {
    expr e = simp(e0);
    if (w == 1) {
        if (e.is_true()) return Val(1);
        if (e.is_false()) return Val((uint64_t)0);
        return Val(e);
    }
    uint64_t u;
    if (e.is_numeral() && e.is_numeral_u64(u)) return Val(u);
    return Val(e);
}
static expr asbool(const Val &v) {
    if (v.conc()) return zc->bool_val(v.c & 1);
    if (v.e().is_bv()) return v.e() == zc->bv_val(1, v.e().get_sort().bv_size());
    return v.e();
}

// ---------------------------------------------------------------- program
struct Opnd { int reg = -1; Val k; };
struct Ins;
struct FuncInfo;
typedef void (*ExtFn)(struct State &, Ins &, std::vector<Val> &, Val &);
struct Ins {
    unsigned opc = 0;
    Instruction *I = nullptr;
    int dst = -1;
    Ty ty;                 // result type
    Ty oty;                // operand type
    std::vector<Opnd> ops;
    std::vector<int64_t> scale;   // GEP scales for ops[1..]
    int64_t imm = 0;
    int bb0 = -1, bb1 = -1;
    std::vector<std::pair<uint64_t, int>> cases;
    Function *callee = nullptr;
    FuncInfo *cf = nullptr;
    ExtFn ext = nullptr;
    std::string extname;
    unsigned pred = 0;
    std::vector<int> mask;
    std::vector<unsigned> idx;
};
struct Phi { int dst; std::vector<std::pair<int, Opnd>> in; };
struct BBInfo { std::vector<Phi> phis; std::vector<Ins> ins; bool covered = false; BasicBlock *bb; };
struct FuncInfo {
    Function *F;
    bool compiled = false;
    int nregs = 0;
    std::vector<BBInfo> bbs;
    std::unordered_map<const Value *, int> reg;
    std::unordered_map<const BasicBlock *, int> bbidx;
    std::string dem;
};
static std::unordered_map<const Function *, FuncInfo *> finfo;
static std::unordered_map<uint64_t, Function *> faddr;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::unordered_map<uint64_t, const GlobalVariable *> addrg;

// ---------------------------------------------------------------- states
struct Frame {
    FuncInfo *f;
    std::vector<Val> regs;
    int bb = 0, pc = 0;
    std::vector<uint32_t> allocas;
};
struct Input { std::string name; char kind; Val v; int w; };   // kind i,d,r
struct State {
    std::vector<Frame> st;
    Mem mem;
    PC pc;
    std::shared_ptr<z3::model> model;
    std::vector<Input> inputs;
    std::unordered_map<unsigned, uint64_t> known;   // ast id -> concretised value
    std::vector<expr> keep;                         // keeps asts in `known` alive
    uint64_t steps = 0;
    int clk = 0;
    std::vector<std::pair<std::string, Val>> dumps;
    std::vector<Ty> dumpty;
    // exception in flight
    uint64_t exc_obj = 0;
    std::vector<uint64_t> caught;
    std::map<uint64_t, uint64_t> exc_ti;            // exception object -> type_info
    std::vector<std::string> reached;
};
typedef std::unique_ptr<State> StateP;
static std::deque<StateP> work;
static State *cur;

// ---------------------------------------------------------------- statistics
struct Viol { std::string kind, msg, where; std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::string> dumps; };
struct Stats {
    uint64_t instrs = 0, forks = 0, q = 0, qsat = 0, qunsat = 0, qunk = 0;
    double qtime = 0;
    uint64_t paths = 0, aborted = 0, checks = 0, checks_const = 0, checks_solved = 0, checks_unknown = 0;
    uint64_t uninit_reads = 0, infeasible = 0, unexplored = 0;
    std::map<std::string, uint64_t> aborts, reach, checkmsgs;
    std::vector<Viol> viols;
    std::vector<std::string> samples;
    std::vector<Viol> traces;          // solved inputs of some finished paths, for native validation
    std::set<std::string> unkmsgs;
} stats;
static double t_start;
static std::string where_now();

static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

// ---------------------------------------------------------------- solver
static std::unordered_map<unsigned, std::vector<unsigned>> symcache;    // ast id -> const ids
static std::unordered_map<unsigned, expr> symexpr;
static std::vector<expr> keepalive;
static const std::vector<unsigned> &syms(const expr &e) {
    auto it = symcache.find(e.id());
    if (it != symcache.end()) return it->second;
    keepalive.push_back(e);
    std::set<unsigned> r;
    if (e.is_app()) {
        if (e.num_args() == 0) {
            if (e.decl().decl_kind() == Z3_OP_UNINTERPRETED) { r.insert(e.id()); symexpr.emplace(e.id(), e); }
        } else
            for (unsigned i = 0; i < e.num_args(); ++i) {
                auto &x = syms(e.arg(i));
                r.insert(x.begin(), x.end());
            }
    }
    return symcache[e.id()] = std::vector<unsigned>(r.begin(), r.end());
}

// definitional axioms of a fresh symbol (real mode)
static std::unordered_map<unsigned, std::vector<expr>> defs;
static std::vector<expr> pair_axioms(const std::set<unsigned> &used);

enum Res { SAT, UNSAT, UNK };

struct IncSolver {
    z3::solver s;
    std::vector<CNode *> stk;
    std::vector<PC> hold;
    IncSolver() : s(*zc) {}
    void sync(const PC &pc) {
        int d = pc ? pc->depth : 0;
        std::vector<CNode *> chain(d);
        CNode *n = pc.get();
        for (int i = d - 1; i >= 0; --i) { chain[i] = n; n = n->up.get(); }
        size_t k = 0;
        while (k < stk.size() && k < chain.size() && stk[k] == chain[k]) ++k;
        if (stk.size() > k) { s.pop(stk.size() - k); stk.resize(k); hold.resize(k); }
        for (; k < chain.size(); ++k) {
            s.push();
            s.add(chain[k]->e);
            stk.push_back(chain[k]);
            PC h = pc;      // keep node alive
            while (h.get() != chain[k]) h = h->up;
            hold.push_back(h);
        }
    }
};
static IncSolver *inc;

static std::map<std::vector<unsigned>, Res> qcache;

// what ties an angle to its cosine and sine (satisfiable for every angle by itself)
static std::set<unsigned> link_axioms, trig_syms;
static std::vector<expr> close_defs(std::vector<expr> cs, bool all = true) {
    std::set<unsigned> used, done;
    std::vector<expr> out = cs, left;
    auto close = [&](size_t i) {
        for (; i < out.size(); ++i)
            for (unsigned id : syms(out[i])) {
                if (!used.insert(id).second) continue;
                auto it = defs.find(id);
                if (it != defs.end())
                    for (auto &a : it->second)
                        if (done.insert(a.id()).second) (!all && link_axioms.count(a.id()) ? left : out).push_back(a);
            }
    };
    close(0);
    if (!all) {     // angles alone are linear
        bool trig = false;
        for (unsigned id : used) if (trig_syms.count(id)) { trig = true; break; }
        if (!trig) return out;
        all = true;
        size_t n = out.size();
        for (auto &a : left) out.push_back(a);
        close(n);
    }
    for (auto &a : pair_axioms(used)) out.push_back(a);
    return out;
}

static std::string cvc5_check(const std::vector<expr> &) { return "unknown"; }

static bool has_real(const expr &e) {
    static std::unordered_map<unsigned, bool> cache;
    auto it = cache.find(e.id());
    if (it != cache.end()) return it->second;
    bool r = false;
    for (unsigned id : syms(e)) if (symexpr.at(id).is_real()) { r = true; break; }
    return cache[e.id()] = r;
}
static bool is_linear(const expr &e) {
    static std::unordered_map<unsigned, bool> cache;
    auto it = cache.find(e.id());
    if (it != cache.end()) return it->second;
    bool ok = !e.is_bv();
    if (e.is_app() && e.num_args()) {
        Z3_decl_kind k = e.decl().decl_kind();
        int nc = 0;
        for (unsigned i = 0; i < e.num_args() && ok; ++i) { ok = is_linear(e.arg(i)); if (!e.arg(i).is_numeral()) nc++; }
        if (k == Z3_OP_MUL && nc > 1) ok = false;
        if (k == Z3_OP_DIV && !e.arg(1).is_numeral()) ok = false;
        if (k == Z3_OP_POWER) ok = false;
    }
    keepalive.push_back(e);
    return cache[e.id()] = ok;
}
static Res solve_list(const std::vector<expr> &cs, std::shared_ptr<z3::model> *mo, unsigned ms) {
    double t0 = now();
    Res r = UNK;
    stats.q++;
    try {
        bool real = false;
        if (REAL) for (auto &c : cs) if (has_real(c)) { real = true; break; }
        if (REAL && !real) {           // no real arithmetic involved
            z3::params p(*zc);
            p.set("timeout", ms);
            static z3::solver s(*zc, "QF_BV");
            s.push();
            s.set(p);
            for (auto &c : cs) s.add(c);
            auto k = s.check();
            if (k == z3::sat) { r = SAT; if (mo) *mo = std::make_shared<z3::model>(s.get_model()); }
            else if (k == z3::unsat) r = UNSAT;
            s.pop();
        } else if (REAL) {
            // first what is linear, which often decides it; then the general solver with a short limit, then nlsat
            {
                z3::params p(*zc);
                p.set("timeout", std::min(ms, 2000u));
                static z3::solver kept(*zc, "QF_LRA");
                z3::solver s = opt.apart ? kept : z3::solver(*zc, "QF_LRA");
                s.push();
                struct Pop { z3::solver &s; ~Pop() { try { s.pop(); } catch (z3::exception &) {} } } pop{s};
                s.set(p);
                size_t n = 0;
                for (auto &c : cs) if (is_linear(c)) { s.add(c); n++; }
                auto k = n ? s.check() : z3::unknown;
                if (k == z3::unsat) r = UNSAT;
                else if (k == z3::sat && n == cs.size()) { r = SAT; if (mo) *mo = std::make_shared<z3::model>(s.get_model()); }
            }
            for (int round = 0; round < 2 && r == UNK; ++round) {
                z3::params p(*zc);
                p.set("timeout", round == 0 ? std::min(ms, 1500u) : ms);
                z3::solver s = round == 0 ? z3::solver(*zc) : z3::tactic(*zc, "qfnra-nlsat").mk_solver();
                s.set(p);
                for (auto &c : cs) s.add(c);
                auto k = s.check();
                if (k == z3::sat) { r = SAT; if (mo) *mo = std::make_shared<z3::model>(s.get_model()); }
                else if (k == z3::unsat) r = UNSAT;
            }
        } else {
            z3::params p(*zc);
            p.set("timeout", ms);
            z3::solver s = opt.fresh ? z3::tactic(*zc, "qffpbv").mk_solver() : z3::solver(*zc);
            s.set(p);
            for (auto &c : cs) s.add(c);
            auto k = s.check();
            if (k == z3::sat) { r = SAT; if (mo) *mo = std::make_shared<z3::model>(s.get_model()); }
            else if (k == z3::unsat) r = UNSAT;
        }
    } catch (z3::exception &e) { r = UNK; }
    stats.qtime += now() - t0;
    if (opt.verbose && now() - t0 > 2) {
        fprintf(stderr, "slow query %.1fs res=%d\n", now() - t0, r);
        if (getenv("SX_DUMP")) {
            static int n = 0;
            z3::solver s(*zc);
            for (auto &c : cs) s.add(c);
            std::ofstream(std::string(getenv("SX_DUMP")) + "/q" + std::to_string(getpid()) + "_" + std::to_string(n++) + ".smt2") << s.to_smt2();
        }
    }
    return r;
}

static std::vector<expr> pclist(const PC &pc) {
    std::vector<expr> r;
    for (CNode *n = pc.get(); n; n = n->up.get()) r.push_back(n->e);
    std::reverse(r.begin(), r.end());
    return r;
}

// the symbols of an expression and of what defines them, but for what ties angles to their sines (--apart)
static const std::set<unsigned> &reach_syms(const expr &e) {
    static std::unordered_map<unsigned, std::set<unsigned>> tab;
    auto it = tab.find(e.id());
    if (it != tab.end()) return it->second;
    keepalive.push_back(e);
    std::set<unsigned> got;
    std::vector<unsigned> todo(syms(e));
    while (!todo.empty()) {
        unsigned id = todo.back(); todo.pop_back();
        if (id == pi_e->id() || !got.insert(id).second) continue;
        auto d = defs.find(id);
        if (d != defs.end())
            for (auto &a : d->second)
                if (!link_axioms.count(a.id()))
                    for (unsigned x : syms(a)) todo.push_back(x);
    }
    return tab.emplace(e.id(), got).first->second;
}
static std::vector<expr> slice_apart(State &s, const expr &c) {
    std::vector<expr> all = pclist(s.pc), r;
    std::set<unsigned> want = reach_syms(c);
    std::vector<char> in(all.size(), 0);
    for (bool ch = true; ch;) {
        ch = false;
        for (size_t i = 0; i < all.size(); ++i) {
            if (in[i]) continue;
            auto &w = reach_syms(all[i]);
            bool hit = false;
            for (unsigned id : w) if (want.count(id)) { hit = true; break; }
            if (hit) { in[i] = 1; ch = true; want.insert(w.begin(), w.end()); }
        }
    }
    for (size_t i = 0; i < all.size(); ++i) if (in[i]) r.push_back(all[i]);
    r.push_back(c);
    return r;
}
static std::vector<expr> slice(State &s, const expr &c) {
    std::vector<expr> all = pclist(s.pc);
    std::set<unsigned> want;
    std::vector<unsigned> todo(syms(c));
    auto absorb = [&]() {
        while (!todo.empty()) {
            unsigned id = todo.back(); todo.pop_back();
            if (id == pi_e->id() || !want.insert(id).second) continue;
            auto it = defs.find(id);
            if (it != defs.end())
                for (auto &a : it->second)
                    for (unsigned x : syms(a)) todo.push_back(x);
        }
    };
    absorb();
    std::vector<char> in(all.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < all.size(); ++i) {
            if (in[i]) continue;
            for (unsigned id : syms(all[i]))
                if (want.count(id)) {
                    in[i] = 1; ch = true;
                    for (unsigned x : syms(all[i])) todo.push_back(x);
                    absorb();
                    break;
                }
        }
    }
    std::vector<expr> r;
    for (size_t i = 0; i < all.size(); ++i) if (in[i]) r.push_back(all[i]);
    r.push_back(c);
    return r;
}

// is pc && c satisfiable?
static Res query(State &s, const expr &c, std::shared_ptr<z3::model> *mo = nullptr, bool full = false, unsigned ms = 0) {
    if (c.is_false()) return UNSAT;
    if (!ms) ms = opt.qms;
    Res r;
    if (!REAL && !opt.fresh) {
        double t0 = now();
        stats.q++;
        inc->sync(s.pc);
        inc->s.push();
        inc->s.add(c);
        z3::check_result k = z3::unknown;
        try {
            z3::params p(*zc);
            p.set("timeout", ms);
            inc->s.set(p);
            k = inc->s.check();
            if (k == z3::sat && mo) *mo = std::make_shared<z3::model>(inc->s.get_model());
        } catch (z3::exception &e) {}
        inc->s.pop();
        stats.qtime += now() - t0;
        r = k == z3::sat ? SAT : k == z3::unsat ? UNSAT : UNK;
    } else {
        std::vector<expr> cs;
        if (full || !REAL) { cs = pclist(s.pc); cs.push_back(c); }
        else cs = opt.apart ? slice_apart(s, c) : slice(s, c);
        if (REAL) cs = close_defs(cs, full || !opt.apart);
        std::vector<unsigned> key;
        if (!mo) {
            for (auto &x : cs) { key.push_back(x.id()); keepalive.push_back(x); }
            std::sort(key.begin(), key.end());
            auto it = qcache.find(key);
            if (it != qcache.end()) return it->second;
        }
        r = solve_list(cs, mo, ms);
        if (!mo) qcache[key] = r;
    }
    if (r == SAT) stats.qsat++; else if (r == UNSAT) stats.qunsat++; else stats.qunk++;
    return r;
}

static void add_pc(State &s, const expr &c) {
    if (c.is_true()) return;
    s.pc = std::make_shared<CNode>(c, s.pc);
}
static bool model_true(State &s, const expr &c) {
    if (!s.model) return false;
    expr v = s.model->eval(c, true);
    return v.is_true();
}

static void note_known(State &s, const expr &c, uint64_t v) {
    s.known[c.id()] = v;
    s.keep.push_back(c);
}

static void maybe_share();
// Integer parts of real numbers are taken only when something depends on them (--lazy).
static std::unordered_map<unsigned, std::pair<expr, expr>> lazies;     // id of the integer symbol -> symbol, real number
static int64_t lazy_value(State &s, const expr &real);
static expr force(State &s, const expr &c0) {
    if (lazies.empty()) return c0;
    z3::expr_vector from(*zc), to(*zc);
    std::vector<unsigned> ids = syms(c0);
    for (unsigned id : ids) {
        auto it = lazies.find(id);
        if (it == lazies.end()) continue;
        int64_t n = lazy_value(s, it->second.second);
        from.push_back(it->second.first);
        to.push_back(zc->bv_val(n, it->second.first.get_sort().bv_size()));
    }
    if (from.empty()) return c0;
    expr c = c0;
    c = simp(c.substitute(from, to));
    keepalive.push_back(c);
    return c;
}

// Decide a branch. Returns the side the current state takes; the other side, when
// feasible, is queued as a copy (it re-executes the instruction with its condition known).
static bool branch(State &s, const expr &c0) {
    expr c = force(s, c0);
    if (c.is_true()) return true;
    if (c.is_false()) return false;
    auto it = s.known.find(c.id());
    if (it != s.known.end()) return it->second;
    expr nc = simp(!c);
    bool side;
    Res rt = UNK, rf = UNK;
    std::shared_ptr<z3::model> mt, mf;
    bool cache = !REAL;
    if (cache && s.model) {
        if (model_true(s, c)) { rt = SAT; mt = s.model; rf = query(s, nc, &mf); }
        else if (model_true(s, nc)) { rf = SAT; mf = s.model; rt = query(s, c, &mt); }
        else { rt = query(s, c, &mt); rf = query(s, nc, &mf); }
    } else if (cache) { rt = query(s, c, &mt); rf = query(s, nc, &mf); }
    else {
        rt = query(s, c, nullptr, false, opt.fms);
        rf = rt == UNSAT ? SAT : query(s, nc, nullptr, false, opt.fms);
    }
    if (rt == UNSAT && rf == UNSAT) throw PathEnd{"infeasible", ""};
    if (rt != UNSAT && rf != UNSAT) {
        stats.forks++;
        StateP o(new State(s));
        // the original takes the true side, the copy the false side
        add_pc(*o, nc);
        note_known(*o, c, 0);
        o->model = mf;
        work.push_back(std::move(o));
        maybe_share();
        add_pc(s, c);
        note_known(s, c, 1);
        s.model = mt;
        return true;
    }
    side = rt != UNSAT;
    note_known(s, c, side);
    if (side) { if (mt) s.model = mt; } else if (mf) s.model = mf;
    return side;
}

static bool bval(State &s, const Val &v) {
    if (v.conc()) return v.c & 1;
    return branch(s, asbool(v));
}

static expr bv_of(State &s, const Val &v, unsigned w) { return iexpr(w, v); }

// a concrete value for an integer, forking over all feasible ones
static uint64_t concretize(State &s, const Val &v, unsigned w) {
    if (v.conc()) return v.c;
    if (v.agg()) unsupported("concretize aggregate");
    expr e = v.e();
    if (e.is_bool()) return branch(s, e);
    e = force(s, e);
    { uint64_t n; if (e.is_numeral_u64(n)) return n; }
    auto it = s.known.find(e.id());
    if (it != s.known.end()) return it->second;
    if (!e.is_bv()) unsupported("concretising a non-integer");
    for (int n = 0;; ++n) {
        if (n > opt.concmax) unsupported("too many values to concretise");
        uint64_t val;
        std::shared_ptr<z3::model> mo = s.model;
        if (!mo) {
            Res r = query(s, zc->bool_val(true), &mo, true);
            if (r == UNSAT) throw PathEnd{"infeasible", ""};
            if (r == UNK || !mo) unsupported("unknown while concretising");
        }
        expr x = mo->eval(e, true);
        if (!x.is_numeral_u64(val)) unsupported("concretise: no numeral");
        expr eq = (e == zc->bv_val((uint64_t)val, e.get_sort().bv_size())).simplify();
        if (branch(s, eq)) {
            note_known(s, e, val);
            return val;
        }
    }
}

static uint64_t input_seq = 0;
static Val fresh_int(State &s, const std::string &n, unsigned w) {
    std::string nm = n + "#" + std::to_string(s.inputs.size());
    if (w == 1) return Val(zc->bool_const(nm.c_str()));
    return Val(zc->bv_const(nm.c_str(), w));
}
static Val fresh_any(const Ty &t, const std::string &n) {
    static uint64_t k = 0;
    std::string nm = n + "!" + std::to_string(k++);
    switch (t.k) {
    case T_INT: if (t.w == 1) return Val(zc->bool_const(nm.c_str()));
        return Val(zc->bv_const(nm.c_str(), t.w));
    case T_PTR: return Val(zc->bv_const(nm.c_str(), 64));
    case T_FLT: case T_DBL:
        if (REAL) return Val(zc->real_const(nm.c_str()));
        return Val(zc->constant(nm.c_str(), zc->fpa_sort(fp_e(t), fp_s(t))));
    default: unsupported("fresh value of this type");
    }
}

// ---------------------------------------------------------------- violations
static std::string num_str(const expr &v, char kind) {
    char b[64];
    if (v.is_bv()) { uint64_t u; if (v.is_numeral_u64(u)) { snprintf(b, 64, "%llu", (unsigned long long)u); return b; } }
    if (v.is_bool()) return v.is_true() ? "1" : "0";
    if (v.is_fpa()) {
        expr bv(*zc, Z3_mk_fpa_to_ieee_bv(*zc, v));
        bv = bv.simplify();
        uint64_t u;
        if (bv.is_numeral_u64(u)) {
            double d = v.get_sort().fpa_sbits() == 24 ? bits2f(u) : bits2d(u);
            snprintf(b, 64, "%a", d); return b;
        }
        return "nan";
    }
    if (v.is_numeral() || v.is_algebraic()) {
        expr x = v;
        if (x.is_algebraic() && !x.is_numeral()) x = expr(*zc, Z3_get_algebraic_number_lower(*zc, v, 80));
        if (x.is_numeral()) { snprintf(b, 64, "%a", rat_double(numeral_rat(x))); return b; }
        std::string ds = x.get_decimal_string(30);
        snprintf(b, 64, "%a", atof(ds.c_str()));
        return b;
    }
    return "?" + v.to_string();
}
static std::string show_val(State &s, const Val &v, const Ty &t, z3::model *m) {
    char b[64];
    if (v.agg()) return "{...}";
    if (v.conc()) {
        if (t.k == T_DBL || t.k == T_FLT) snprintf(b, 64, "%.17g", fval(t, v.c));
        else if (t.w == 1) snprintf(b, 64, "%d", (int)(v.c & 1));
        else snprintf(b, 64, "%lld", (long long)sext(v.c, t.w));
        return b;
    }
    expr x = m->eval(v.e(), true);
    std::string n = num_str(x, 'i');
    if (t.k == T_DBL || t.k == T_FLT) { snprintf(b, 64, "%.17g", strtod(n.c_str(), 0)); return b; }
    if (t.k == T_INT && !x.is_bool()) { snprintf(b, 64, "%lld", (long long)sext(strtoull(n.c_str(), 0, 10), t.w)); return b; }
    return n;
}
static bool angle_value(const expr &e, z3::model &m, double &v);
// directions: take angles from the cosine and sine the model gives them
static std::vector<std::pair<std::string, std::string>> model_inputs(State &s, z3::model &m, bool directions = false) {
    std::vector<std::pair<std::string, std::string>> r;
    for (auto &in : s.inputs) {
        std::string v;
        if (in.v.conc()) {
            char b[64];
            if (in.kind == 'd') snprintf(b, 64, "%a", bits2d(in.v.c)); else snprintf(b, 64, "%llu", (unsigned long long)in.v.c);
            v = b;
        } else v = num_str(m.eval(in.v.e(), true), in.kind);
        double th;
        if (directions && in.v.sym() && angle_value(in.v.e(), m, th)) { char b[64]; snprintf(b, 64, "%a", th); v = b; }
        r.push_back({in.name, v});
    }
    return r;
}
static std::map<std::string, int> violcount;
static void report(State &s, const std::string &kind, const std::string &msg, std::shared_ptr<z3::model> m) {
    std::string key = kind + ":" + msg;
    if (++violcount[key] > opt.maxviol) return;
    if (!m) {
        if (s.model) m = s.model;
        else {
            Res r = query(s, zc->bool_val(true), &m, true);
            if (r == UNSAT) throw PathEnd{"infeasible", ""};
            if (!m) { stats.checks_unknown++; stats.unkmsgs.insert(kind + ": " + msg + " (path feasibility unknown)"); return; }
        }
    }
    Viol v;
    v.kind = kind; v.msg = msg; v.where = where_now();
    v.inputs = model_inputs(s, *m);
    for (size_t i = 0; i < s.dumps.size(); ++i) v.dumps.push_back(s.dumps[i].first + "=" + show_val(s, s.dumps[i].second, s.dumpty[i], m.get()));
    if (opt.verbose) {
        fprintf(stderr, "VIOL %s %s at %s\n", kind.c_str(), msg.c_str(), v.where.c_str());
        for (auto &p : v.inputs) fprintf(stderr, "   %s = %s\n", p.first.c_str(), p.second.c_str());
    }
    stats.viols.push_back(v);
    auto in = model_inputs(s, *m, true);
    if (in != v.inputs) { v.inputs = in; stats.viols.push_back(v); }
}
// an execution error on the current path (not an assertion)
[[noreturn]] static void path_error(State &s, const std::string &kind, const std::string &msg) {
    report(s, kind, msg, nullptr);
    throw PathEnd{"error", kind + ": " + msg};
}

// sx_check
static void do_check(State &s, const Val &cond, const std::string &msg) {
    stats.checks++;
    stats.checkmsgs[msg]++;
    if (cond.conc()) {
        stats.checks_const++;
        if (!(cond.c & 1)) { report(s, "assert", msg, nullptr); throw PathEnd{"error", "assert"}; }
        return;
    }
    expr c = force(s, asbool(cond));
    if (c.is_true()) { stats.checks_solved++; return; }
    auto it = s.known.find(c.id());
    if (it != s.known.end() && it->second) { stats.checks_solved++; return; }
    std::shared_ptr<z3::model> m;
    expr nc = simp(!c);
    Res r = query(s, nc, REAL ? nullptr : &m);
    if (r == UNSAT) { stats.checks_solved++; note_known(s, c, 1); return; }
    if (r == SAT && REAL) {
        r = query(s, nc, &m, true);
        if (r == UNSAT) { stats.checks_solved++; return; }
    }
    if (r == SAT) report(s, "assert", msg, m);
    else { stats.checks_unknown++; stats.unkmsgs.insert("assert: " + msg); }
    // continue on the part where it holds
    if (r == SAT) {
        std::shared_ptr<z3::model> m2;
        Res r2 = query(s, c, REAL ? nullptr : &m2);
        if (r2 == UNSAT) throw PathEnd{"error", "assert"};
        s.model = m2;
    } else s.model = nullptr;
    add_pc(s, c);
    note_known(s, c, 1);
}

#include "mem.inc"
#include "fp.inc"
#include "exec.inc"
