// Values, memory objects and states of the symbolic executor.
#pragma once
#include <z3++.h>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

struct Val;
struct SymBox {
    int rc = 0;
    z3::expr e;                 // symbolic scalar (valid when !is_agg)
    std::vector<Val> agg;       // aggregate / vector members
    bool is_agg;
    explicit SymBox(const z3::expr &x) : e(x), is_agg(false) {}
    explicit SymBox(z3::context &c) : e(c), is_agg(true) {}
};

struct Val {
    uint64_t c = 0;
    SymBox *s = nullptr;
    Val() {}
    explicit Val(uint64_t v) : c(v) {}
    explicit Val(const z3::expr &e) : s(new SymBox(e)) { s->rc = 1; }
    Val(const Val &o) : c(o.c), s(o.s) { if (s) ++s->rc; }
    Val(Val &&o) noexcept : c(o.c), s(o.s) { o.s = nullptr; }
    Val &operator=(const Val &o) {
        if (o.s) ++o.s->rc;
        drop();
        c = o.c; s = o.s;
        return *this;
    }
    Val &operator=(Val &&o) noexcept {
        if (this != &o) { drop(); c = o.c; s = o.s; o.s = nullptr; }
        return *this;
    }
    ~Val() { drop(); }
    bool conc() const { return s == nullptr; }
    bool sym() const { return s && !s->is_agg; }
    bool agg() const { return s && s->is_agg; }
    const z3::expr &e() const { return s->e; }
private:
    void drop() { if (s && --s->rc == 0) delete s; s = nullptr; }
};

enum TyK : uint8_t { T_VOID, T_INT, T_FLT, T_DBL, T_PTR, T_AGG, T_OTHER };
struct Ty {
    TyK k = T_VOID;
    uint16_t w = 0;          // bits for ints
    uint32_t size = 0;       // store size in bytes
    llvm::Type *t = nullptr;
};

struct Cell { Val v; uint32_t size; Ty ty; };

struct Obj {
    uint64_t size = 0;
    std::vector<uint8_t> b;
    std::vector<uint8_t> init;      // 1 = byte has a defined value
    std::map<uint32_t, Cell> sym;   // symbolic cells, non overlapping
    bool ro = false, freed = false, all_init = false;
    char kind = 'h';                // h heap, s stack, g global
    std::string name;
};
typedef std::shared_ptr<Obj> ObjP;

struct Mem {
    static const int CH = 64;
    struct Chunk { ObjP o[CH]; };
    std::vector<std::shared_ptr<Chunk>> ch;
    uint32_t n = 1;                 // next object id (0 is null page)
    Obj *get(uint32_t id) const {
        if (id >= n) return nullptr;
        return ch[id / CH]->o[id % CH].get();
    }
    Obj *wr(uint32_t id) {
        auto &c = ch[id / CH];
        if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
        ObjP &o = c->o[id % CH];
        if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
        return o.get();
    }
    uint32_t add(ObjP o) {
        uint32_t id = n++;
        while (ch.size() <= id / CH) ch.push_back(std::make_shared<Chunk>());
        auto &c = ch[id / CH];
        if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
        c->o[id % CH] = o;
        return id;
    }
    void kill(uint32_t id) {
        auto &c = ch[id / CH];
        if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
        c->o[id % CH].reset();
    }
};

struct CNode {                     // path condition, a persistent list
    z3::expr e;
    std::shared_ptr<CNode> up;
    int depth;
    CNode(const z3::expr &x, std::shared_ptr<CNode> u) : e(x), up(u), depth(u ? u->depth + 1 : 1) {}
};
typedef std::shared_ptr<CNode> PC;
