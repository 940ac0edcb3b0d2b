// Abstract values, memory regions and abstract states.
#pragma once
#include "poly.hpp"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include <deque>

struct Val;
struct Piece;
struct Val {
    enum K : uint8_t { Undef, Int, Ptr, Fp, Agg, Blob } k = Undef;
    int region = 0; // Ptr: region id, 0 = absolute address (null when e == 0)
    Lin e;          // Int value / Ptr offset / Fp value
    std::shared_ptr<std::vector<Val>> agg;
    std::shared_ptr<std::vector<Piece>> pieces; // Blob: raw bytes
    static Val undef() { return Val(); }
    static Val i(const Lin& l) {
        Val v;
        v.k = Int;
        v.e = l;
        return v;
    }
    static Val f(const Lin& l) {
        Val v;
        v.k = Fp;
        v.e = l;
        return v;
    }
    static Val p(int r, const Lin& off) {
        Val v;
        v.k = Ptr;
        v.region = r;
        v.e = off;
        return v;
    }
    bool isNull() const { return k == Ptr && region == 0; }
};
struct Piece {
    int64_t off;
    unsigned size;
    Val v;
};

struct Node;
typedef std::shared_ptr<const Node> LogP;
struct Node {
    enum K { Base, Store, Fill, Copy } k = Base;
    enum B { Zero, UndefB, Unknown, Init } b = UndefB;
    LogP next;
    Lin off, len;       // bytes
    unsigned size = 0;  // Store: access size
    Val v;              // Store
    Val byte;           // Fill
    LogP src;           // Copy
    Lin srcOff;
    int baseId = 0;
    const llvm::Constant* init = nullptr;
    int depth = 0;
};
struct Cell {
    unsigned size;
    Val v;
};
struct Region {
    enum K { Stack, Heap, Global, Func, Opaque } kind = Stack;
    Lin size;
    bool freed = false;
    bool constant = false;
    std::string name;
    const llvm::Value* site = nullptr;
    std::map<int64_t, Cell> top;
    LogP log;
    const llvm::Function* fn = nullptr;
    int allocKind = 0; // 1 malloc, 2 new, 3 new[]
};
struct LazyCell {
    Lin off;
    unsigned size;
    Val v;
};
struct TraceNode {
    std::shared_ptr<const TraceNode> prev;
    std::string what;
    int n = 0;
    ~TraceNode() {
        // iterative destruction of long chains
        auto p = std::move(prev);
        while (p && p.use_count() == 1) {
            auto q = const_cast<TraceNode*>(p.get())->prev;
            const_cast<TraceNode*>(p.get())->prev.reset();
            p = q;
        }
    }
};
struct State {
    std::map<int, std::shared_ptr<Region>> mem;
    std::map<int, std::shared_ptr<std::vector<LazyCell>>> lazy;
    std::map<const void*, int> globals;
    std::shared_ptr<Poly> poly = std::make_shared<Poly>();
    std::shared_ptr<const TraceNode> trace;
    std::map<int, int> keys; // user partition keys
    std::vector<Lin> terms;  // client terms loops should relate their variables to
    std::string excType;     // in-flight exception
    const Poly& P() const { return *poly; }
    Poly& Pm() {
        if (poly.use_count() > 1) poly = std::make_shared<Poly>(*poly);
        return *poly;
    }
    Region& R(int id) {
        auto& r = mem[id];
        if (r.use_count() > 1) r = std::make_shared<Region>(*r);
        return *r;
    }
    const Region* getR(int id) const {
        auto it = mem.find(id);
        return it == mem.end() ? nullptr : it->second.get();
    }
    std::vector<LazyCell>& L(int id) {
        auto& r = lazy[id];
        if (!r)
            r = std::make_shared<std::vector<LazyCell>>();
        else if (r.use_count() > 1)
            r = std::make_shared<std::vector<LazyCell>>(*r);
        return *r;
    }
};
