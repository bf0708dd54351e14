#pragma once
#include "mem.h"
#include "solver.h"
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/Module.h>
#include <unordered_map>
#include <unordered_set>

struct LoopSpec {
    llvm::Function* inv = nullptr;
    unsigned idx = 0;
    const llvm::Loop* loop = nullptr;
    std::string fn;
};
struct FnInfo {
    llvm::Function* F;
    std::string dem;    // full demangled
    std::string qual;   // qualified name without arguments
    std::unordered_map<const llvm::Value*, unsigned> slot;
    unsigned nslots = 0;
    std::map<const llvm::BasicBlock*, LoopSpec*> loopHdr;
    std::map<std::string, const llvm::Value*> locals;  // name -> alloca
    std::map<std::string, std::vector<std::pair<const llvm::DILocalScope*, const llvm::Value*>>> scoped;   // those of each name, by scope
    std::set<std::string> indirect;                    // those whose alloca holds the address
    std::unique_ptr<llvm::DominatorTree> dt;
    std::unique_ptr<llvm::LoopInfo> li;
    std::string file;
    bool isRepo = false;
};
struct ActiveLoop {
    LoopSpec* spec;
    size_t heapLimit;
};
enum Hook : uint8_t { HNone, HInvEntry, HInvAssume, HInvBack };
struct Frame {
    FnInfo* fi;
    const llvm::BasicBlock* bb = nullptr;
    const llvm::Instruction* ip = nullptr;
    std::vector<Val> regs;
    std::vector<int> allocas;
    Hook hook = HNone;
    LoopSpec* spec = nullptr;
    std::vector<ActiveLoop> loops;
    std::map<const llvm::Instruction*, unsigned> forks;
};
struct Input {
    std::string name;
    char kind;  // 's' scalar, 'a' array
    Val v;      // scalar value / number of elements
    unsigned es = 1;
    std::shared_ptr<z3::func_decl> f;
    bool isSize = false;
};
struct State {
    std::vector<Frame> st;
    std::map<int, ObjP> g;
    std::vector<ObjP> heap;
    PC pc;
    ModelP model;
    std::vector<Input> inputs;
    Val excPtr;
    const llvm::Value* excTI = nullptr;
    std::vector<std::pair<Val, const llvm::Value*>> caught;
    std::shared_ptr<std::unordered_map<unsigned, std::pair<z3::expr, bool>>> decided;
    bool ghostMode = false;
    bool unkFeas = false;
    unsigned depthForks = 0;
};

struct Fork { z3::expr c; };
struct PathEnd { std::string why; };
struct Unsupported { std::string what; };
struct Restart {};

struct Oblig {
    std::string kind, name, loc;
    long inst = 0, discharged = 0, failed = 0, unknown = 0, trivial = 0;
    double ms = 0;
    std::string replay;  // model text for first failure
    std::string note;
};
