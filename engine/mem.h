// Memory objects: an overlay of concrete-offset cells over a chain of symbolic-offset updates over a base.
#pragma once
#include "ops.h"

struct Node;
typedef std::shared_ptr<const Node> NodeP;
struct Cell {
    Val v;
    unsigned n;
};
typedef std::map<uint64_t, Cell> Cells;
struct Snap {
    Cells cells;
    NodeP chain;
    unsigned es;
};
struct Node {
    enum Ty { Zero, Fun, Const, Store, Copy, Set, Mask } t;
    // Fun
    std::shared_ptr<z3::func_decl> f;
    unsigned es = 1;
    // Const
    std::shared_ptr<std::vector<uint8_t>> bytes;
    // Store (off,n,v) / Copy (off=dst,len,src,soff) / Set (off,len,v)
    Val off, len, v, soff;
    unsigned n = 0;
    std::shared_ptr<const Snap> src;
    NodeP next;
    explicit Node(Ty ty) : t(ty) {}
};

struct Obj {
    enum Kind : uint8_t { Global, Stack, Heap, Func, Extern } kind = Heap;
    Val size;
    bool isNew = false, isArr = false, readonly = false;
    Cells cells;
    NodeP chain;
    unsigned es = 1;
    std::string name;
};
typedef std::shared_ptr<Obj> ObjP;
