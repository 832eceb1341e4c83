// symx: symbolic execution of LLVM IR, deciding assertions with z3.
#include "state.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/Demangle/Demangle.h"
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <sys/resource.h>
using namespace llvm;

static ExprCtx X;
static Solver* S;
static Module* M;
static const DataLayout* DL;

// ---------------------------------------------------------------- options
static std::string optEntry, optOut, optReplayDir = ".", optProperty;
static double optTime = 300; static int optPreempt = 2; static uint64_t optMaxInst = 200000000ULL;
static std::vector<int64_t> optParams; static int optMaxViol = 8; static bool optVerbose = false, optTrace = false;
static unsigned optQTimeout = 0; static bool optLia = false, optWide = false; static int optSpin = 0; static int optMaxSwitchPts = 100000; static uint64_t optPathInst = 5000000; static uint64_t optMaxRSS = 3500ULL << 20;
static bool optNoCtors = false; static int optMaxPreemptTotal = 1000000;
static bool optSampleMode = false;

// ---------------------------------------------------------------- values
static inline Val mkc(uint64_t v, unsigned w) { Val r; r.w = w; if (w > 64) { r.e = X.c(v, w); } else r.c = w == 64 ? v : (v & (((uint64_t)1 << w) - 1)); return r; }
static inline Val mke(Expr* e) { Val r; r.w = e->w; if (e->isConst() && e->w <= 64) r.c = (uint64_t)e->v; else r.e = e; return r; }
static inline Expr* toE(const Val& v) { assert(!v.agg); return v.e ? v.e : X.c(v.c, v.w); }

// ---------------------------------------------------------------- statistics
static struct { uint64_t paths = 0, killed = 0, forks = 0, insts = 0, errors = 0, switches = 0, checks = 0, checksProved = 0, checksConcrete = 0, checksSym = 0; } ST;
static std::map<std::string, uint64_t> incomplete;      // reason -> count
static std::map<std::string, uint64_t> reached, calledExt;
struct Violation { std::string kind, msg, where; std::string file; };
static std::vector<Violation> viols;
static std::set<std::string> violKeys;
static std::map<std::string, std::pair<uint64_t,uint64_t>> checkStats; // msg -> (evaluated, solver/folded)
static std::vector<std::string> samplePaths;
static std::set<std::tuple<int, int, bool>> accTab, useTab;      // shared range, thread, write
static bool restart = false; static int samplesDumped = 0;

struct PathEnd { std::string why; };   // thrown to end the current path

static std::unordered_map<Function*, KFunction*> kfs;
static std::vector<Val> consts;
static std::unordered_map<const Value*, int> constIdx;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::map<uint64_t, Function*> funcAt;
static std::map<uint64_t, std::shared_ptr<Obj>> gmem;    // initial globals
static std::vector<State*> work;
static uint64_t gNext = 0x10000;

static std::string demangleN(const std::string& s) { return llvm::demangle(s); }

static std::string locStr(const Instruction* I) {
    std::string r;
    if (const DebugLoc& d = I->getDebugLoc()) {
        auto* L = d.get();
        while (L) {
            if (!r.empty()) r += " <- ";
            std::string fn = L->getFilename().str();
            r += fn + ":" + std::to_string(L->getLine());
            L = L->getInlinedAt();
        }
    } else r = I->getFunction()->getName().str();
    return r;
}
static std::string stackStr(State& s) {
    std::string r;
    auto& st = s.th[s.cur].stack;
    for (int i = (int)st.size() - 1; i >= 0; i--) {
        auto& f = st[i];
        if (f.pc < 0 || f.pc >= (int)f.kf->insts.size()) continue;
        if (!r.empty()) r += " | ";
        r += locStr(f.kf->insts[f.pc].I);
    }
    return r;
}

// ---------------------------------------------------------------- types
static unsigned bitW(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isX86_FP80Ty()) return 80;
    if (t->isHalfTy()) return 16;
    if (t->isFP128Ty()) return 128;
    if (t->isVoidTy()) return 0;
    return 0;
}
static bool isAgg(Type* t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
static unsigned aggN(Type* t) {
    if (auto* s = dyn_cast<StructType>(t)) return s->getNumElements();
    if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements();
    return cast<FixedVectorType>(t)->getNumElements();
}
static Type* aggT(Type* t, unsigned i) {
    if (auto* s = dyn_cast<StructType>(t)) return s->getElementType(i);
    if (auto* a = dyn_cast<ArrayType>(t)) return a->getElementType();
    return cast<FixedVectorType>(t)->getElementType();
}
static uint64_t aggOff(Type* t, unsigned i) {
    if (auto* s = dyn_cast<StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i);
    if (auto* a = dyn_cast<ArrayType>(t)) return i * DL->getTypeAllocSize(a->getElementType());
    auto* e = cast<FixedVectorType>(t)->getElementType();
    return (uint64_t)i * ((DL->getTypeSizeInBits(e) + 7) / 8);
}
static Val zeroOf(Type* t) {
    if (!isAgg(t)) return mkc(0, bitW(t));
    Val r; r.agg = std::make_shared<std::vector<Val>>();
    for (unsigned i = 0; i < aggN(t); i++) r.agg->push_back(zeroOf(aggT(t, i)));
    return r;
}

// ---------------------------------------------------------------- path conditions
static Expr* substRec(State& s, Expr* e) {
    if (e->k == K::Const) return e;
    bool hit = false;
    if (e->vars->size() > 32) hit = true;
    else for (uint32_t v : *e->vars) if (s.eqVars.count(v)) { hit = true; break; }
    if (!hit) return e;
    auto q = s.eq.find(e->id); if (q != s.eq.end()) return q->second;
    if (e->k == K::Var) return e;
    auto m = s.substMemo.find(e->id); if (m != s.substMemo.end()) return m->second;
    Expr* a = e->a ? substRec(s, e->a) : nullptr; Expr* b = e->b ? substRec(s, e->b) : nullptr; Expr* c = e->c ? substRec(s, e->c) : nullptr;
    Expr* r = e;
    if (a != e->a || b != e->b || c != e->c) {
        switch (e->k) {
        case K::Extract: r = X.extract(a, (unsigned)e->v, e->w); break;
        case K::Concat: r = X.concat(a, b); break;
        case K::ZExt: r = X.zext(a, e->w); break;
        case K::SExt: r = X.sext(a, e->w); break;
        case K::Ite: r = X.ite(a, b, c); break;
        default: if (e->k >= K::FAdd) r = X.fp(e->k, a, b, e->w, (unsigned)e->v); else r = X.bin(e->k, a, b);
        }
        auto q2 = s.eq.find(r->id); if (q2 != s.eq.end()) r = q2->second;
    }
    s.substMemo[e->id] = r;
    return r;
}
static Expr* subst(State& s, Expr* e) { if (s.eq.empty() || e->isConst()) return e; return substRec(s, e); }

static void addEq(State& s, Expr* e, Expr* c) {
    while (true) {
        s.eq[e->id] = c;
        for (uint32_t v : *e->vars) s.eqVars.insert(v);
        if (e->k == K::ZExt) { c = X.c(c->v, e->a->w); e = e->a; continue; }
        if (e->k == K::SExt) { c = X.c(c->v, e->a->w); e = e->a; continue; }
        if (e->k == K::Concat) { addEq(s, e->a, X.c(c->v >> e->b->w, e->a->w)); c = X.c(c->v, e->b->w); e = e->b; continue; }
        break;
    }
    s.substMemo.clear();
}
static void addPC(State& s, Expr* c) {
    if (c->isConst()) { if (!c->v) throw PathEnd{"infeasible"}; return; }
    if (c->k == K::And && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; }
    if (!s.pcSet.insert(c->id).second) return;
    s.pc.push_back(c);
    if (c->k == K::Eq && c->b->isConst()) addEq(s, c->a, c->b);
    else if (c->k == K::Xor && c->b->isConst()) addEq(s, c->a, X.c(0, 1));
    addEq(s, c, X.tru());
}

static State* forkState(State& s) {
    State* n = new State(s);
    static uint64_t ids = 1; n->id = ids++;
    ST.forks++;
    return n;
}
static bool evalBool(State& s, Expr* c) { Eval E(*s.model); return E.ev(c) != 0; }

// Decide a condition. Returns the side the current state takes; other (if feasible) is a fork
// with the negation, *not yet* on the worklist.
static bool branch(State& s, Expr* c0, State** other) {
    *other = nullptr;
    Expr* c = subst(s, c0);
    if (c->isConst()) return c->v;
    bool side = evalBool(s, c);
    Expr* nc = side ? X.notE(c) : c;
    auto m = std::make_shared<Model>();
    int r = S->check(s.pc, nc, m.get(), s.model.get());
    if (r < 0) { incomplete["solver-unknown"]++; r = 0; }
    if (r == 1) {
        State* o = forkState(s);
        o->model = m;
        try { addPC(*o, nc); *other = o; } catch (PathEnd&) { delete o; }
    }
    addPC(s, side ? c : X.notE(c));
    return side;
}
static bool mayBe(State& s, Expr* c, std::shared_ptr<Model>* mo = nullptr) {
    c = subst(s, c);
    if (c->isConst()) { if (mo) *mo = s.model; return c->v; }
    if (evalBool(s, c)) { if (mo) *mo = s.model; return true; }
    auto m = std::make_shared<Model>();
    int r = S->check(s.pc, c, m.get(), s.model.get());
    if (r < 0) { incomplete["solver-unknown"]++; return false; }
    if (r == 1 && mo) *mo = m;
    return r == 1;
}
// Make e concrete, forking over every other feasible value (the fork re-executes the instruction).
static uint64_t concretize(State& s, const Val& v) {
    if (v.conc()) return v.c;
    Expr* e = subst(s, toE(v));
    if (e->isConst()) return (uint64_t)e->v;
    Eval E(*s.model);
    u128 val = E.ev(e);
    Expr* eqc = X.bin(K::Eq, e, X.c(val, e->w));
    auto m = std::make_shared<Model>();
    int r = S->check(s.pc, X.notE(eqc), m.get(), s.model.get());
    if (r < 0) { incomplete["solver-unknown"]++; }
    if (r == 1) {
        State* o = forkState(s);
        o->model = m;
        try { addPC(*o, X.notE(eqc)); work.push_back(o); } catch (PathEnd&) { delete o; }
    }
    addPC(s, eqc);
    addEq(s, e, X.c(val, e->w));
    return (uint64_t)val;
}

// ---------------------------------------------------------------- violations
static std::string jesc(const std::string& s) {
    std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r;
}
static void dumpInputs(State& s, const Model& m, std::ostream& o) {
    Eval E(m);
    for (auto& in : s.inputs) {
        o << "in " << in.name << " ";
        for (auto& b : in.bytes) { char t[4]; snprintf(t, 4, "%02x", (unsigned)(uint8_t)E.ev(toE(b))); o << t; }
        if (in.bytes.empty()) o << "-";
        o << "\n";
    }
    if (!s.shared.empty()) for (auto& t : useTab) o << "acc " << std::get<0>(t) << " " << std::get<1>(t) << " " << std::get<2>(t) << "\n";
    for (auto& p : s.sched) o << "sched " << p.first << " " << p.second << "\n";
}
static void report(State& s, const std::string& kind, const std::string& msg, std::shared_ptr<Model> m) {
    ST.errors++;
    std::string where = stackStr(s);
    std::string first = where.substr(0, where.find(" | "));
    std::string key = kind + "|" + msg + "|" + first;
    if (!violKeys.insert(key).second) return;
    if ((int)viols.size() >= optMaxViol) return;
    std::string fn = optReplayDir + "/" + optEntry + "." + std::to_string(viols.size()) + ".replay";
    std::ofstream o(fn);
    o << "# property " << optProperty << "\n# entry " << optEntry << "\n# kind " << kind << "\n# msg " << msg << "\n# where " << where << "\n";
    for (auto p : optParams) o << "param " << p << "\n";
    o << "entry " << optEntry << "\n";
    dumpInputs(s, *m, o);
    for (auto& n : s.notes) o << "# note " << n << "\n";
    viols.push_back({kind, msg, where, fn});
    if (optVerbose) fprintf(stderr, "VIOL %s: %s at %s -> %s\n", kind.c_str(), msg.c_str(), where.c_str(), fn.c_str());
}
[[noreturn]] static void err(State& s, const std::string& kind, const std::string& msg) {
    report(s, kind, msg, s.model);
    throw PathEnd{"error"};
}
[[noreturn]] static void unsupported(State& s, const std::string& what) {
    incomplete["unsupported: " + what + " @ " + stackStr(s).substr(0, 300)]++;
    throw PathEnd{"unsupported"};
}

// ---------------------------------------------------------------- memory
static Obj* findObj(State& s, uint64_t a, uint64_t n, bool forWrite = false) {
    auto it = s.mem.upper_bound(a);
    if (it != s.mem.begin()) {
        --it;
        Obj* o = it->second.get();
        if (a >= o->base && a - o->base <= o->size && n <= o->size - (a - o->base)) {
            if (forWrite && it->second.use_count() > 1) it->second = std::make_shared<Obj>(*o);
            return it->second.get();
        }
    }
    auto g = gmem.upper_bound(a);
    if (g != gmem.begin()) {
        --g;
        Obj* o = g->second.get();
        if (a >= o->base && a - o->base <= o->size && n <= o->size - (a - o->base)) {
            auto own = s.mem.find(o->base);
            if (own != s.mem.end()) return nullptr;
            if (forWrite) { auto c = std::make_shared<Obj>(*o); s.mem[o->base] = c; return c.get(); }
            return o;
        }
    }
    return nullptr;
}
static Page* wpage(Obj* o, uint32_t i) {
    auto& p = o->pages[i];
    if (!p) { p = std::make_shared<Page>(); if (o->zero) memset(p->st, 1, PG); }
    else if (p.use_count() > 1) p = std::make_shared<Page>(*p);
    return p.get();
}
static void wrByteC(Obj* o, uint64_t off, uint8_t v) { Page* p = wpage(o, off / PG); p->c[off % PG] = v; p->st[off % PG] = 1; }
static void wrByteE(Obj* o, uint64_t off, Expr* e) {
    if (e->isConst()) return wrByteC(o, off, (uint8_t)e->v);
    Page* p = wpage(o, off / PG);
    if (!p->e) p->e = (Expr**)calloc(PG, sizeof(Expr*));
    p->e[off % PG] = e; p->st[off % PG] = 2;
}
static const Page* rpage(Obj* o, uint32_t i) { auto it = o->pages.find(i); return it == o->pages.end() ? nullptr : it->second.get(); }
// variables are named by their position in the path, so sibling paths share them (and cached queries)
static std::unordered_map<std::string, Expr*> pathVars;
static Expr* pathVar(const std::string& n) { Expr*& e = pathVars[n]; if (!e) e = X.var(n, 8); return e; }
// byte value; uninitialised bytes become fresh symbols (stored back)
static Val rdByte(State& s, Obj*& o, uint64_t off) {
    const Page* p = rpage(o, off / PG);
    uint8_t st = p ? p->st[off % PG] : (o->zero ? 1 : 0);
    if (st == 1) return mkc(p ? p->c[off % PG] : 0, 8);
    if (st == 2) return mke(p->e[off % PG]);
    Obj* w = findObj(s, o->base, 0, true);
    if (!w) w = o;
    o = w;
    Expr* e = pathVar("uninit#" + std::to_string(s.uninits++));
    wrByteE(w, off, e);
    return mke(e);
}
static Val rdScalar(State& s, Obj* o, uint64_t off, unsigned w) {
    unsigned n = (w + 7) / 8;
    const Page* p = rpage(o, off / PG);
    uint64_t po = off % PG;
    bool allc = n <= 8 && po + n <= PG;
    if (allc) {
        if (!p) { if (!o->zero) allc = false; else return mkc(0, w); }
        else for (unsigned i = 0; i < n; i++) if (p->st[po + i] != 1) { allc = false; break; }
    }
    if (allc) { uint64_t v = 0; memcpy(&v, p->c + po, n); return mkc(v, w); }
    Expr* r = nullptr;
    Expr* bs[16]; bool same = n <= 16 && n > 0;
    for (unsigned i = 0; i < n; i++) {
        Expr* e = toE(rdByte(s, o, off + i));
        if (n <= 16) { bs[i] = e; same = same && e->k == K::Extract && e->a == bs[0]->a && (unsigned)e->v == (unsigned)bs[0]->v + 8 * i; }
    }
    if (same) r = X.extract(bs[0]->a, (unsigned)bs[0]->v, 8 * n);      // the bytes of one stored value
    else for (unsigned i = 0; i < n; i++) {
        Expr* e = n <= 16 ? bs[i] : toE(rdByte(s, o, off + i));
        if (e->k == K::Extract) e = X.extract(e->a, (unsigned)e->v, e->w);
        r = r ? X.concat(e, r) : e;
    }
    if (w != 8 * n) r = X.extract(r, 0, w);
    return mke(r);
}
static void wrScalar(State& s, Obj* o, uint64_t off, const Val& v) {
    unsigned n = (v.w + 7) / 8;
    if (v.conc()) { for (unsigned i = 0; i < n; i++) wrByteC(o, off + i, (uint8_t)(v.c >> (8 * i))); return; }
    Expr* e = v.e;
    if (e->w != 8 * n) e = X.zext(e, 8 * n);
    for (unsigned i = 0; i < n; i++) wrByteE(o, off + i, n > 1 && (e->k == K::Add || e->k == K::Sub || e->k == K::Mul) ? X.intern(K::Extract, 8, e, nullptr, nullptr, 8 * i) : X.extract(e, 8 * i, 8));
}
static uint64_t allocObj(State& s, uint64_t size, ObjKind k, const std::string& name, bool zero = false, uint64_t align = 16) {
    if (align < 16) align = 16;
    uint64_t& nx = k == OStack ? s.stackNext : s.heapNext;
    uint64_t b = (nx + align - 1) / align * align;
    nx = b + size + 64;
    auto o = std::make_shared<Obj>();
    o->base = b; o->size = size; o->kind = k; o->name = name; o->zero = zero;
    s.mem[b] = o;
    return b;
}
// Resolve an access. Concretises symbolic addresses by forking.
static Obj* access(State& s, const Val& addr, uint64_t n, bool write, uint64_t& off) {
    uint64_t a;
    if (addr.conc()) a = addr.c;
    else {
        // first detect whether it may be out of bounds, so that the report is an input, not an enumeration
        a = concretize(s, addr);
    }
    Obj* o = findObj(s, a, n, write);
    if (!o) {
        char b[160];
        Obj* near = nullptr; auto it = s.mem.upper_bound(a); if (it != s.mem.begin()) { --it; near = it->second.get(); }
        if (near && a - near->base < near->size + 64)
            snprintf(b, sizeof b, "out-of-bounds %s of %lu bytes at offset %ld of %s object '%s' (%lu bytes)", write ? "write" : "read", (unsigned long)n, (long)(a - near->base), near->kind == OHeap ? "heap" : near->kind == OStack ? "stack" : "global", near->name.c_str(), (unsigned long)near->size);
        else { auto g = gmem.upper_bound(a); near = nullptr; if (g != gmem.begin()) { --g; near = g->second.get(); }
            if (near && a - near->base < near->size + 64) snprintf(b, sizeof b, "out-of-bounds %s of %lu bytes at offset %ld of global '%s' (%lu bytes)", write ? "write" : "read", (unsigned long)n, (long)(a - near->base), near->name.c_str(), (unsigned long)near->size);
            else snprintf(b, sizeof b, "invalid %s of %lu bytes at address 0x%lx", write ? "write" : "read", (unsigned long)n, (unsigned long)a); }
        err(s, "memory", b);
    }
    if (write && o->ro) err(s, "memory", "write to constant object '" + o->name + "'");
    off = a - o->base;
    return o;
}
static Val loadTy(State& s, const Val& addr, Type* t);
static void storeTy(State& s, const Val& addr, Type* t, const Val& v);
static Val addC(const Val& a, uint64_t k) { if (!k) return a; if (a.conc()) return mkc(a.c + k, 64); return mke(X.bin(K::Add, a.e, X.c(k, 64))); }

// symbolic read from a small read-only table: one ite chain instead of forks
static bool tableRead(State& s, const Val& addr, unsigned w, Val& out) {
    Expr* e = subst(s, toE(addr));
    if (e->isConst()) return false;
    Eval E(*s.model); uint64_t a = (uint64_t)E.ev(e);
    unsigned n = (w + 7) / 8;
    Obj* o = findObj(s, a, n);
    if (!o || o->size > 2048 || o->size < n) return false;
    if (!o->ro && o->size > 256) return false;
    Expr* inb = X.bin(K::Ule, X.bin(K::Sub, e, X.c(o->base, 64)), X.c(o->size - n, 64));
    if (mayBe(s, X.notE(inb))) return false;
    // stride: use n if the offset is provably a multiple, else 1
    uint64_t stride = 1;
    if (n > 1 && (n & (n - 1)) == 0) {
        Expr* low = X.extract(X.bin(K::Sub, e, X.c(o->base, 64)), 0, __builtin_ctz(n));
        if (!mayBe(s, X.notE(X.bin(K::Eq, low, X.c(0, low->w))))) stride = n;
    }
    if ((o->size / stride) > 256) return false;
    Expr* r = nullptr;
    for (uint64_t off = 0; off + n <= o->size; off += stride) {
        // only concrete or already symbolic bytes; uninitialised ones would be materialised
        Val v = rdScalar(s, o, off, w);
        Expr* c = X.bin(K::Eq, e, X.c(o->base + off, 64));
        if (c->isConst() && !c->v) continue;
        r = r ? X.ite(c, toE(v), r) : toE(v);
    }
    if (!r) return false;
    out = mke(r);
    return true;
}
static Val loadTy(State& s, const Val& addr, Type* t) {
    if (isAgg(t)) {
        Val r; r.agg = std::make_shared<std::vector<Val>>();
        for (unsigned i = 0; i < aggN(t); i++) r.agg->push_back(loadTy(s, addC(addr, aggOff(t, i)), aggT(t, i)));
        return r;
    }
    unsigned w = bitW(t);
    if (!addr.conc()) { Val r; if (tableRead(s, addr, w, r)) return r; }
    uint64_t off; Obj* o = access(s, addr, (w + 7) / 8, false, off);
    return rdScalar(s, o, off, w);
}
static void storeTy(State& s, const Val& addr, Type* t, const Val& v) {
    if (isAgg(t)) {
        for (unsigned i = 0; i < aggN(t); i++) storeTy(s, addC(addr, aggOff(t, i)), aggT(t, i), (*v.agg)[i]);
        return;
    }
    uint64_t off; Obj* o = access(s, addr, (v.w + 7) / 8, true, off);
    wrScalar(s, o, off, v);
}
static void copyMem(State& s, const Val& d, const Val& sr, uint64_t n) {
    if (!n) return;
    uint64_t doff, soff;
    Obj* so = access(s, sr, n, false, soff);
    uint64_t sa = so->base + soff;
    Obj* dO = access(s, d, n, true, doff);
    so = findObj(s, sa, n); // may have been cloned
    struct B { uint8_t st, c; Expr* e; };
    std::vector<B> tmp(n);
    for (uint64_t i = 0; i < n; i++) {
        const Page* p = rpage(so, (soff + i) / PG); uint64_t po = (soff + i) % PG;
        if (!p) tmp[i] = {(uint8_t)(so->zero ? 1 : 0), 0, nullptr};
        else tmp[i] = {p->st[po], p->c[po], p->st[po] == 2 ? p->e[po] : nullptr};
    }
    for (uint64_t i = 0; i < n; i++) {
        if (tmp[i].st == 1) wrByteC(dO, doff + i, tmp[i].c);
        else if (tmp[i].st == 2) wrByteE(dO, doff + i, tmp[i].e);
        else { Page* p = wpage(dO, (doff + i) / PG); p->st[(doff + i) % PG] = 0; }
    }
}
static void setMem(State& s, const Val& d, const Val& v, uint64_t n) {
    if (!n) return;
    uint64_t off; Obj* o = access(s, d, n, true, off);
    if (v.conc() && v.c == 0 && off == 0 && n == o->size && n > 4096) { o->pages.clear(); o->zero = true; return; }
    for (uint64_t i = 0; i < n; i++) if (v.conc()) wrByteC(o, off + i, (uint8_t)v.c); else wrByteE(o, off + i, v.e);
}
static std::string cstr(State& s, const Val& a) {
    std::string r; uint64_t p = concretize(s, a);
    for (int i = 0; i < 4096; i++) { uint64_t off; Obj* o = access(s, mkc(p + i, 64), 1, false, off); Val b = rdByte(s, o, off); if (!b.conc()) { r += '?'; continue; } if (!b.c) break; r += (char)b.c; }
    return r;
}

// ---------------------------------------------------------------- constants
static Val evalConst(const Constant* C);
static uint64_t constAddr(const Constant* C) { Val v = evalConst(C); if (!v.conc()) { errs() << "non concrete const " << *C << "\n"; abort(); } return v.c; }
static Val binVal(K k, const Val& a, const Val& b);
static Val castVal(unsigned op, const Val& v, unsigned w, Type* from, Type* to);
static Val evalConst(const Constant* C) {
    Type* t = C->getType();
    if (auto* ci = dyn_cast<ConstantInt>(C)) {
        unsigned w = ci->getBitWidth();
        if (w <= 64) return mkc(ci->getZExtValue(), w);
        APInt v = ci->getValue(); u128 x = ((u128)v.extractBitsAsZExtValue(w - 64, 64) << 64) | v.extractBitsAsZExtValue(64, 0);
        return mke(X.c(x, w));
    }
    if (auto* cf = dyn_cast<ConstantFP>(C)) {
        APInt v = cf->getValueAPF().bitcastToAPInt(); unsigned w = v.getBitWidth();
        if (w <= 64) return mkc(v.getZExtValue(), w);
        u128 x = ((u128)v.extractBitsAsZExtValue(w - 64, 64) << 64) | v.extractBitsAsZExtValue(64, 0);
        return mke(X.c(x, w));
    }
    if (isa<ConstantPointerNull>(C)) return mkc(0, 64);
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return zeroOf(t);
    if (auto* gv = dyn_cast<GlobalValue>(C)) {
        if (auto* ga = dyn_cast<GlobalAlias>(gv)) return evalConst(ga->getAliasee());
        auto it = gaddr.find(gv); if (it == gaddr.end()) { errs() << "no addr " << gv->getName() << "\n"; return mkc(0, 64); }
        return mkc(it->second, 64);
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(C)) {
        Val r; r.agg = std::make_shared<std::vector<Val>>();
        for (unsigned i = 0; i < cd->getNumElements(); i++) r.agg->push_back(evalConst(cd->getElementAsConstant(i)));
        return r;
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(C)) {
        Val r; r.agg = std::make_shared<std::vector<Val>>();
        for (unsigned i = 0; i < ca->getNumOperands(); i++) r.agg->push_back(evalConst(cast<Constant>(ca->getOperand(i))));
        return r;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(C)) {
        if (auto* gep = dyn_cast<GEPOperator>(ce)) {
            uint64_t a = constAddr(cast<Constant>(gep->getPointerOperand()));
            for (auto gti = gep_type_begin(gep), e = gep_type_end(gep); gti != e; ++gti) {
                auto* idx = cast<ConstantInt>(gti.getOperand());
                if (StructType* st = gti.getStructTypeOrNull()) a += DL->getStructLayout(st)->getElementOffset(idx->getZExtValue());
                else a += idx->getSExtValue() * (int64_t)DL->getTypeAllocSize(gti.getIndexedType());
            }
            return mkc(a, 64);
        }
        if (ce->isCast()) { Val v = evalConst(cast<Constant>(ce->getOperand(0))); return castVal(ce->getOpcode(), v, bitW(t), ce->getOperand(0)->getType(), t); }
        Val a = evalConst(cast<Constant>(ce->getOperand(0))), b = evalConst(cast<Constant>(ce->getOperand(1)));
        switch (ce->getOpcode()) {
        case Instruction::Add: return binVal(K::Add, a, b);
        case Instruction::Sub: return binVal(K::Sub, a, b);
        case Instruction::And: return binVal(K::And, a, b);
        case Instruction::Or: return binVal(K::Or, a, b);
        case Instruction::Xor: return binVal(K::Xor, a, b);
        case Instruction::Mul: return binVal(K::Mul, a, b);
        case Instruction::Shl: return binVal(K::Shl, a, b);
        case Instruction::LShr: return binVal(K::LShr, a, b);
        case Instruction::ICmp: { auto p = (CmpInst::Predicate)ce->getPredicate(); if (p == CmpInst::ICMP_EQ) return binVal(K::Eq, a, b); if (p == CmpInst::ICMP_NE) return mke(X.notE(toE(binVal(K::Eq, a, b)))); if (p == CmpInst::ICMP_ULT) return binVal(K::Ult, a, b); break; }
        default: break;
        }
    }
    if (isa<BlockAddress>(C)) return mkc(0, 64);
    errs() << "unsupported constant " << *C << "\n"; 
    return zeroOf(t);
}
static Val binVal(K k, const Val& a, const Val& b) {
    if (a.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(binVal(k, (*a.agg)[i], (*b.agg)[i])); return r; }
    if (a.conc() && b.conc()) {
        // fast concrete path
        unsigned w = a.w; uint64_t m = w == 64 ? ~0ULL : ((1ULL << w) - 1);
        switch (k) {
        case K::Add: return mkc((a.c + b.c) & m, w);
        case K::Sub: return mkc((a.c - b.c) & m, w);
        case K::And: return mkc(a.c & b.c, w);
        case K::Or: return mkc(a.c | b.c, w);
        case K::Xor: return mkc(a.c ^ b.c, w);
        case K::Eq: return mkc(a.c == b.c, 1);
        case K::Ult: return mkc(a.c < b.c, 1);
        case K::Ule: return mkc(a.c <= b.c, 1);
        default: { u128 r; ExprCtx::evalBin(k, w, a.c, b.c, r); return mkc((uint64_t)r, ExprCtx::isCmp(k) ? 1 : w); }
        }
    }
    return mke(X.bin(k, toE(a), toE(b)));
}
static long double fp80to(u128 v) { long double d = 0; memcpy(&d, &v, 10); return d; }
static u128 fp80from(long double d) { u128 v = 0; memcpy(&v, &d, 10); return v; }
static bool cval(const Val& v, u128& o) { if (v.agg) return false; if (!v.e) { o = v.c; return true; } if (v.e->isConst()) { o = v.e->v; return true; } return false; }

struct Unsup { std::string what; };
static Val castVal(unsigned op, const Val& v, unsigned w, Type* from, Type* to) {
    if (v.agg) {
        if (op == Instruction::BitCast) {
            // flatten then rebuild / or to scalar
            Expr* acc = nullptr; for (auto& x : *v.agg) { Expr* e = toE(x); acc = acc ? X.concat(e, acc) : e; }
            if (!isAgg(to)) return mke(acc);
            Val r; r.agg = std::make_shared<std::vector<Val>>(); unsigned n = aggN(to), ew = bitW(aggT(to, 0));
            for (unsigned i = 0; i < n; i++) r.agg->push_back(mke(X.extract(acc, i * ew, ew)));
            return r;
        }
        Val r; r.agg = std::make_shared<std::vector<Val>>();
        for (auto& x : *v.agg) r.agg->push_back(castVal(op, x, bitW(aggT(to, 0)), aggT(from, 0), aggT(to, 0)));
        return r;
    }
    switch (op) {
    case Instruction::Trunc: if (v.conc()) return mkc(v.c, w); return mke(X.extract(v.e, 0, w));
    case Instruction::ZExt: if (v.conc() && w <= 64) return mkc(v.c, w); return mke(X.zext(toE(v), w));
    case Instruction::SExt: return mke(X.sext(toE(v), w));
    case Instruction::PtrToInt: case Instruction::IntToPtr:
        if (v.w == w) return v; if (v.w > w) return mke(X.extract(toE(v), 0, w)); return mke(X.zext(toE(v), w));
    case Instruction::BitCast: case Instruction::AddrSpaceCast: {
        if (to && isAgg(to)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); unsigned n = aggN(to), ew = bitW(aggT(to, 0)); for (unsigned i = 0; i < n; i++) r.agg->push_back(mke(X.extract(toE(v), i * ew, ew))); return r; }
        return v; }
    }
    unsigned fw = v.w;
    u128 cv;
    if (fw == 80 || w == 80) {
        if (!cval(v, cv)) throw Unsup{"symbolic x86_fp80 conversion"};
        switch (op) {
        case Instruction::FPExt: return mke(X.c(fp80from((long double)ExprCtx::tod(cv, fw)), 80));
        case Instruction::FPTrunc: { long double d = fp80to(cv); if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return mkc(u, 32); } double x = (double)d; uint64_t u; memcpy(&u, &x, 8); return mkc(u, 64); }
        case Instruction::SIToFP: return mke(X.c(fp80from((long double)(int64_t)sext128(cv, fw)), 80));
        case Instruction::UIToFP: return mke(X.c(fp80from((long double)(uint64_t)cv), 80));
        case Instruction::FPToSI: return mkc((uint64_t)(int64_t)fp80to(cv), w);
        case Instruction::FPToUI: return mkc((uint64_t)fp80to(cv), w);
        }
    }
    switch (op) {
    case Instruction::FPExt: return mke(X.fp(K::FPExt, toE(v), nullptr, w));
    case Instruction::FPTrunc: return mke(X.fp(K::FPTrunc, toE(v), nullptr, w));
    case Instruction::SIToFP: return mke(X.fp(K::SIToFP, toE(v), nullptr, w));
    case Instruction::UIToFP: return mke(X.fp(K::UIToFP, toE(v), nullptr, w));
    case Instruction::FPToSI: return mke(X.fp(K::FPToSI, toE(v), nullptr, w));
    case Instruction::FPToUI: return mke(X.fp(K::FPToUI, toE(v), nullptr, w));
    }
    throw Unsup{"cast"};
}

// ---------------------------------------------------------------- function preparation
static int constSlot(const Constant* C) {
    auto it = constIdx.find(C); if (it != constIdx.end()) return it->second;
    consts.push_back(evalConst(C));
    int r = -1 - (int)(consts.size() - 1);
    constIdx[C] = r; return r;
}
static const int NOOP = INT_MIN;
static std::unordered_map<std::string, int> specialIdx;
static void initSpecials();
static KFunction* prep(Function* F) {
    auto it = kfs.find(F); if (it != kfs.end()) return it->second;
    KFunction* kf = new KFunction(); kfs[F] = kf; kf->F = F;
    kf->noPreempt = F->getName().starts_with("sym_") || F->hasFnAttribute("sym_atomic");
    std::unordered_map<const Value*, int> slot; int n = 0;
    for (auto& A : F->args()) slot[&A] = n++;
    for (auto& I : instructions(F)) if (!I.getType()->isVoidTy()) slot[&I] = n++;
    kf->nslots = n;
    int bi = 0;
    for (auto& B : *F) { kf->bidx[&B] = bi++; }
    auto opnd = [&](Value* v) -> int {
        if (auto* c = dyn_cast<Constant>(v)) return constSlot(c);
        auto f = slot.find(v); if (f != slot.end()) return f->second;
        return NOOP;
    };
    for (auto& B : *F) {
        kf->blocks.push_back({(int)kf->insts.size(), &B});
        for (auto& I : B) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            KInst k; k.I = &I; k.op = I.getOpcode(); k.dest = I.getType()->isVoidTy() ? -1 : slot[&I]; k.w = bitW(I.getType());
            k.blk = kf->bidx[&B];
            if (auto* cb = dyn_cast<CallBase>(&I)) {
                k.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
                if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) k.callee = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
                if (k.callee) { k.intrin = k.callee->getIntrinsicID(); auto sp = specialIdx.find(k.callee->getName().str()); if (sp != specialIdx.end() ) k.special = sp->second; }
                for (auto& a : cb->args()) k.ops.push_back(isa<MetadataAsValue>(a.get()) ? NOOP : opnd(a.get()));
                k.ops.push_back(isa<InlineAsm>(cb->getCalledOperand()) ? NOOP : opnd(cb->getCalledOperand()));
            } else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
                k.ops.push_back(opnd(gep->getPointerOperand()));
                for (auto gti = gep_type_begin(gep), e = gep_type_end(gep); gti != e; ++gti) {
                    if (StructType* st = gti.getStructTypeOrNull()) { k.cst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gti.getOperand())->getZExtValue()); }
                    else {
                        uint64_t sz = DL->getTypeAllocSize(gti.getIndexedType());
                        if (auto* ci = dyn_cast<ConstantInt>(gti.getOperand())) k.cst += ci->getSExtValue() * sz;
                        else k.scaled.push_back({opnd(gti.getOperand()), sz});
                    }
                }
            } else for (auto& o : I.operands()) k.ops.push_back(isa<BasicBlock>(o.get()) ? NOOP : opnd(o.get()));
            kf->insts.push_back(std::move(k));
        }
    }
    kf->covered.assign(kf->blocks.size(), 0);
    return kf;
}

static inline Val& reg(Frame& f, int i) { return f.regs[i]; }
static inline const Val& get(State& s, Frame& f, int i) { return i >= 0 ? f.regs[i] : consts[-1 - i]; }

static void enterBlock(State& s, Frame& f, BasicBlock* to) {
    f.prevBlk = f.curBlk; f.curBlk = f.kf->bidx[to];
    f.kf->covered[f.curBlk] = 1;
    int pc = f.kf->blocks[f.curBlk].start;
    // phis
    std::vector<std::pair<int, Val>> vals;
    BasicBlock* prev = f.kf->blocks[f.prevBlk].bb;
    while (f.kf->insts[pc].op == Instruction::PHI) {
        auto& k = f.kf->insts[pc]; auto* phi = cast<PHINode>(k.I);
        int ix = phi->getBasicBlockIndex(prev);
        vals.push_back({k.dest, get(s, f, k.ops[ix])});
        pc++;
    }
    for (auto& p : vals) f.regs[p.first] = std::move(p.second);
    f.pc = pc;
}
static void pushFrame(State& s, Thread& t, Function* F, const std::vector<Val>& args, int retDest, int normalBlk, int unwindBlk) {
    if (t.stack.size() > 400) err(s, "stack", "recursion deeper than 400 frames");
    KFunction* kf = prep(F);
    Frame f; f.kf = kf; f.regs.resize(kf->nslots); f.retDest = retDest; f.normalBlk = normalBlk; f.unwindBlk = unwindBlk;
    unsigned na = F->arg_size();
    for (unsigned i = 0; i < na && i < args.size(); i++) {
        f.regs[i] = args[i];
        // byval aggregates: copy
        if (F->hasParamAttribute(i, Attribute::ByVal)) {
            Type* bt = F->getParamByValType(i); uint64_t sz = DL->getTypeAllocSize(bt);
            uint64_t a = allocObj(s, sz, OStack, "byval"); f.allocas.push_back(a);
            copyMem(s, mkc(a, 64), args[i], sz); f.regs[i] = mkc(a, 64);
        }
    }
    for (unsigned i = na; i < args.size(); i++) f.varargs.push_back(args[i]);
    kf->covered[0] = 1; f.curBlk = 0; f.pc = 0;
    if (kf->noPreempt) t.noPre++;
    t.stack.push_back(std::move(f));
}

static std::map<std::string, uint64_t> optStubs, stubbed;
#include "exec.inc"
