#pragma once
#include "expr.h"
#include "solver.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"

struct Val {
    uint64_t c = 0; Expr* e = nullptr; uint32_t w = 0;
    std::shared_ptr<std::vector<Val>> agg;
    bool conc() const { return !e && !agg; }
};

static const unsigned PG = 256;
struct Page {
    uint8_t c[PG]; uint8_t st[PG];      // 0 uninit, 1 concrete, 2 symbolic
    Expr** e = nullptr;
    Page() { memset(c, 0, PG); memset(st, 0, PG); }
    Page(const Page& o) { memcpy(c, o.c, PG); memcpy(st, o.st, PG); if (o.e) { e = (Expr**)malloc(PG * sizeof(Expr*)); memcpy(e, o.e, PG * sizeof(Expr*)); } }
    ~Page() { free(e); }
};
enum ObjKind : uint8_t { OGlobal, OStack, OHeap, OFunc };
struct Obj {
    uint64_t base, size; ObjKind kind; bool ro = false, zero = false; uint32_t tag = 0;
    std::string name;
    std::map<uint32_t, std::shared_ptr<Page>> pages;
};

struct KFunction;
struct KInst {
    llvm::Instruction* I; unsigned op; int dest; std::vector<int> ops;
    unsigned w = 0;                  // result/value width
    uint64_t cst = 0;                // gep const offset
    std::vector<std::pair<int, uint64_t>> scaled;   // gep
    int blk = 0;
    llvm::Function* callee = nullptr; unsigned intrin = 0; int special = -1;
};
struct KBlock { int start; llvm::BasicBlock* bb; };
struct KFunction {
    llvm::Function* F; std::vector<KInst> insts; std::vector<KBlock> blocks;
    std::unordered_map<llvm::BasicBlock*, int> bidx;
    std::vector<char> covered; int nslots = 0; bool noPreempt = false;
};
struct Frame {
    KFunction* kf; int pc = 0, prevBlk = -1, curBlk = 0;
    std::vector<Val> regs; std::vector<uint64_t> allocas; std::vector<Val> varargs;
    int retDest = -1; int normalBlk = -1, unwindBlk = -1;   // for invoke in the caller
};
enum TStat : uint8_t { TRun, TBlocked, TTimed, TDone };
struct Thread {
    int id; std::vector<Frame> stack; TStat st = TRun; uint64_t key = 0; bool woken = false;
    std::map<llvm::GlobalVariable*, uint64_t> tls;
    uint64_t excPtr = 0, excType = 0; int noPre = 0; bool yielded = false; int timedDest = -1;
    std::string name;
    std::vector<std::pair<uint64_t, uint64_t>> dtors;   // thread_local destructors
};
struct Input { std::string name; std::vector<Val> bytes; };

struct State {
    uint64_t id = 0;
    std::vector<Thread> th; int cur = 0;
    std::map<uint64_t, std::shared_ptr<Obj>> mem;
    std::unordered_map<uint64_t, bool> unlinkedGlobals;
    uint64_t heapNext = 0x100000000ULL;
    uint64_t stackNext = 0x7f0000000000ULL;
    std::vector<Expr*> pc;
    std::unordered_set<uint32_t> pcSet;
    std::unordered_map<uint32_t, Expr*> eq; // expr id -> const
    std::unordered_set<uint32_t> eqVars;
    std::unordered_map<uint32_t, Expr*> substMemo;
    std::shared_ptr<Model> model = std::make_shared<Model>();
    std::vector<Input> inputs;
    std::vector<std::pair<uint64_t, int>> sched; // (switch point no, thread)
    std::vector<std::string> notes;
    uint64_t switchPts = 0, consec = 0, alone = 0; int preemptions = 0;
    bool threadsOn = false; std::vector<std::pair<std::string, Val>> obs; bool exitOk = false;
    std::vector<std::pair<uint64_t, uint64_t>> shared; // ranges

    uint64_t insts = 0, loopBudget = 0;
    int depth = 0; uint64_t uninits = 0;
    std::map<std::string, uint64_t> ghost;
    std::map<std::string, int> exitHook;
};
