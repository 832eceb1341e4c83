// Interpreter loop, intrinsics, scheduler, main.
typedef void (*SpecialFn)(State&, Frame&, KInst&, std::vector<Val>&, Val&);
static std::vector<SpecialFn> specials;
static std::vector<std::string> specialNames;

static bool optPts = getenv("SYMX_PTS") != 0;
struct Resched {};   // the current thread can no longer run: a new one has been picked

static void switchTo(State& s, int id) {
    s.cur = id; s.consec = s.alone = 0; s.sched.push_back({s.switchPts, id});
    if (s.th[id].st == TTimed) s.th[id].st = TRun;
    ST.switches++;
}
// The current thread stops here (unless self is allowed): every other choice of the next one is a new path. A
// timeout that fires while another thread could run counts as a preemption.
static void pickNext(State& s, bool notSelf = false) {
    std::vector<int> cand, timed;
    for (auto& t : s.th) if (t.st == TRun && !(notSelf && t.id == s.cur)) cand.push_back(t.id);
    for (auto& t : s.th) if (t.st == TTimed) timed.push_back(t.id);
    s.switchPts++;
    if (optPts) fprintf(stderr, "s%lu T%d pick %lu %s\n", (unsigned long)s.id, s.cur, (unsigned long)s.switchPts, stackStr(s).substr(0, 200).c_str());
    if ((int)s.switchPts > optMaxSwitchPts) { incomplete["switch-point bound"]++; throw PathEnd{"switch bound"}; }
    size_t nrun = cand.size();
    if (!nrun || s.preemptions < optPreempt) cand.insert(cand.end(), timed.begin(), timed.end());
    if (cand.empty() && notSelf) { switchTo(s, s.cur); return; }
    if (cand.empty()) {
        bool blocked = false;
        for (auto& t : s.th) if (t.st == TBlocked) blocked = true;
        if (s.th[0].st == TDone) throw PathEnd{"done"};
        if (blocked) {
            std::string d; for (auto& t : s.th) if (t.st == TBlocked) { int c = s.cur; s.cur = t.id; d += " thread " + std::to_string(t.id) + " at " + stackStr(s) + ";"; s.cur = c; }
            s.notes.push_back("blocked:" + d);
            err(s, "deadlock", "all threads blocked"); }
        throw PathEnd{"done"};
    }
    for (size_t i = 1; i < cand.size(); i++) {
        State* o = forkState(s);
        if (nrun && i >= nrun) o->preemptions++;
        switchTo(*o, cand[i]);
        work.push_back(o);
    }
    switchTo(s, cand[0]);
}
// A switch point of the running thread. yielded: the point has been passed, the access itself is still to come.
// A thread that makes this many shared accesses in a row which no other thread is known to interfere with (it waits for
// a thread that has not run yet) lets another one run; harness/native_sched.cc counts alike.
static const uint64_t ALONE = 400;
static void preemptPoint(State& s, bool force = false, bool must = false) {
    Thread& t = s.th[s.cur];
    if (!s.threadsOn || (t.noPre && !force) || t.yielded) return;
    t.yielded = true;
    s.switchPts++;
    if (optPts) fprintf(stderr, "s%lu T%d point %lu %s\n", (unsigned long)s.id, s.cur, (unsigned long)s.switchPts, stackStr(s).substr(0, 200).c_str());
    if ((int)s.switchPts > optMaxSwitchPts) { incomplete["switch-point bound"]++; throw PathEnd{"switch bound"}; }
    std::vector<int> cand;
    for (auto& u : s.th) if (u.id != s.cur && (u.st == TRun || u.st == TTimed)) cand.push_back(u.id);
    if (must) s.consec = (uint64_t)optSpin;
    bool spin = optSpin && ++s.consec >= (uint64_t)optSpin;      // fairness: nobody runs for ever
    if (cand.empty()) return;
    if (spin) {
        for (size_t i = 1; i < cand.size(); i++) { State* o = forkState(s); switchTo(*o, cand[i]); work.push_back(o); }
        switchTo(s, cand[0]); throw Resched{};
    }
    if (s.preemptions >= optPreempt) return;
    for (int u : cand) { State* o = forkState(s); o->preemptions++; switchTo(*o, u); work.push_back(o); }
}
static bool isShared(State& s, const Val& a, uint64_t n) {
    if (s.shared.empty()) return false;
    if (!a.conc()) return true;
    for (auto& r : s.shared) if (a.c < r.second && a.c + n > r.first) return true;
    return false;
}
// An access needs a switch point only if another thread makes a conflicting access to the same shared range on some
// path. The table of accesses is collected while exploring; when it grows, exploration starts over.
static bool needsPoint(State& s, const Val& a, uint64_t n, bool w) {
    if (!a.conc()) return !s.shared.empty();
    bool need = false;
    for (size_t i = 0; i < s.shared.size(); i++) if (a.c < s.shared[i].second && a.c + n > s.shared[i].first) {
        if (accTab.insert({(int)i, s.cur, w}).second) {
            for (auto& t : accTab) if (std::get<0>(t) == (int)i && std::get<1>(t) != s.cur && (w || std::get<2>(t))) restart = true;
        }
        for (auto& t : useTab) if (std::get<0>(t) == (int)i && std::get<1>(t) != s.cur && (w || std::get<2>(t))) need = true;
    }
    if (restart) throw PathEnd{"restart"};
    return need;
}
static void popFrame(State& s, Thread& t) {
    Frame& f = t.stack.back();
    for (uint64_t a : f.allocas) s.mem.erase(a);
    if (f.kf->noPreempt) t.noPre--;
    t.stack.pop_back();
}
static void threadDone(State& s) {
    Thread& t = s.th[s.cur];
    t.st = TDone;
    for (auto& u : s.th) if (u.st == TBlocked && u.key == 0xF000000000000000ULL + t.id) u.st = TRun;
    if (s.cur == 0) throw PathEnd{"done"};
    pickNext(s);
}
static void doReturn(State& s, const Val& v) {
    Thread& t = s.th[s.cur];
    int rd = t.stack.back().retDest, nb = t.stack.back().normalBlk;
    popFrame(s, t);
    if (t.stack.empty()) {
        if (s.cur != 0 && !t.dtors.empty()) { auto d = t.dtors.back(); t.dtors.pop_back(); auto it = funcAt.find(d.first); if (it == funcAt.end() || it->second->isDeclaration()) unsupported(s, "thread_local destructor"); std::vector<Val> ar{mkc(d.second, 64)}; pushFrame(s, t, it->second, ar, -1, -1, -1); return; }
        threadDone(s); return; }
    Frame& f = t.stack.back();
    if (rd >= 0) f.regs[rd] = v;
    if (nb >= 0) enterBlock(s, f, f.kf->blocks[nb].bb); else f.pc++;
}

// ---- exceptions
static bool typeMatch(uint64_t thrown, uint64_t want) {
    if (want == 0 || thrown == want) return true;
    // walk single inheritance through the type_info initialisers
    std::string tn, wn;
    const GlobalVariable* tg = nullptr;
    for (auto& p : gaddr) { if (p.second == thrown && isa<GlobalVariable>(p.first)) { tn = p.first->getName().str(); tg = cast<GlobalVariable>(p.first); } if (p.second == want) wn = p.first->getName().str(); }
    if (tg && tg->hasInitializer()) if (auto* cs = dyn_cast<ConstantStruct>(tg->getInitializer())) if (cs->getNumOperands() >= 3) {
        Val b = evalConst(cs->getOperand(2)); if (b.conc() && b.c) return typeMatch(b.c, want);
    }
    if (wn == "_ZTISt9exception" && tn.rfind("_ZTISt", 0) == 0) return true;
    return false;
}
static void unwind(State& s) {
    Thread& t = s.th[s.cur];
    while (true) {
        int ub = t.stack.back().unwindBlk;
        popFrame(s, t);
        if (t.stack.empty()) { 
            std::string tn; for (auto& p : gaddr) if (p.second == t.excType) tn = p.first->getName().str();
            report(s, "exception", "uncaught exception " + tn, s.model); throw PathEnd{"error"}; }
        if (ub < 0) continue;
        Frame& f = t.stack.back();
        BasicBlock* bb = f.kf->blocks[ub].bb;
        auto* lp = dyn_cast<LandingPadInst>(bb->getFirstNonPHI());
        if (!lp) continue;
        bool ok = lp->isCleanup(); uint64_t sel = 0;
        for (unsigned i = 0; i < lp->getNumClauses(); i++) if (lp->isCatch(i)) {
            uint64_t want = evalConst(cast<Constant>(lp->getClause(i))).c;
            if (typeMatch(t.excType, want)) { ok = true; sel = want ? want : 1; break; }
        } else { ok = true; }
        if (!ok) continue;
        enterBlock(s, f, bb);
        KInst& k = f.kf->insts[f.pc];
        Val r; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(mkc(t.excPtr, 64)); r.agg->push_back(mkc((uint32_t)sel, 32));
        f.regs[k.dest] = r; f.pc++;
        return;
    }
}

static void finishCall(State& s, Frame& f, KInst& k) {
    if (auto* iv = dyn_cast<InvokeInst>(k.I)) enterBlock(s, f, iv->getNormalDest()); else f.pc++;
}

static Val fpBin(unsigned op, const Val& a, const Val& b, unsigned w) {
    if (a.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(fpBin(op, (*a.agg)[i], (*b.agg)[i], (*a.agg)[i].w)); return r; }
    w = a.w;
    if (w == 80) {
        u128 x, y; if (!cval(a, x) || !cval(b, y)) throw Unsup{"symbolic x86_fp80 arithmetic"};
        long double l = fp80to(x), r = fp80to(y), q = 0;
        switch (op) { case Instruction::FAdd: q = l + r; break; case Instruction::FSub: q = l - r; break; case Instruction::FMul: q = l * r; break; case Instruction::FDiv: q = l / r; break; }
        return mke(X.c(fp80from(q), 80));
    }
    K k = op == Instruction::FAdd ? K::FAdd : op == Instruction::FSub ? K::FSub : op == Instruction::FMul ? K::FMul : K::FDiv;
    return mke(X.fp(k, toE(a), toE(b), w));
}
static Val icmpVal(CmpInst::Predicate p, const Val& a, const Val& b) {
    if (a.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(icmpVal(p, (*a.agg)[i], (*b.agg)[i])); return r; }
    switch (p) {
    case CmpInst::ICMP_EQ: return binVal(K::Eq, a, b);
    case CmpInst::ICMP_NE: { Val r = binVal(K::Eq, a, b); if (r.conc()) return mkc(!r.c, 1); return mke(X.notE(r.e)); }
    case CmpInst::ICMP_ULT: return binVal(K::Ult, a, b);
    case CmpInst::ICMP_ULE: return binVal(K::Ule, a, b);
    case CmpInst::ICMP_UGT: return binVal(K::Ult, b, a);
    case CmpInst::ICMP_UGE: return binVal(K::Ule, b, a);
    case CmpInst::ICMP_SLT: return binVal(K::Slt, a, b);
    case CmpInst::ICMP_SLE: return binVal(K::Sle, a, b);
    case CmpInst::ICMP_SGT: return binVal(K::Slt, b, a);
    case CmpInst::ICMP_SGE: return binVal(K::Sle, b, a);
    default: throw Unsup{"icmp predicate"};
    }
}
static Val selVal(const Val& c, const Val& t, const Val& e) {
    if (c.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < c.agg->size(); i++) r.agg->push_back(selVal((*c.agg)[i], (*t.agg)[i], (*e.agg)[i])); return r; }
    if (c.conc()) return c.c ? t : e;
    if (t.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < t.agg->size(); i++) r.agg->push_back(selVal(c, (*t.agg)[i], (*e.agg)[i])); return r; }
    return mke(X.ite(c.e, toE(t), toE(e)));
}

static bool doIntrinsic(State& s, Frame& f, KInst& k, Val& ret) {
    auto A = [&](int i) -> const Val& { return get(s, f, k.ops[i]); };
    switch (k.intrin) {
    case Intrinsic::dbg_assign: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
    case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::pseudoprobe:
        if (k.dest >= 0) ret = mkc(0, 64);
        return true;
    case Intrinsic::expect: ret = A(0); return true;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: ret = A(0); return true;
    case Intrinsic::stacksave: ret = mkc(0, 64); return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        Val d = A(0), sr = A(1);
        uint64_t n = concretize(s, A(2)); copyMem(s, d, sr, n); return true; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t n = concretize(s, A(2)); setMem(s, A(0), A(1), n); return true; }
    case Intrinsic::umin: ret = selVal(icmpVal(CmpInst::ICMP_ULT, A(0), A(1)), A(0), A(1)); return true;
    case Intrinsic::umax: ret = selVal(icmpVal(CmpInst::ICMP_UGT, A(0), A(1)), A(0), A(1)); return true;
    case Intrinsic::smin: ret = selVal(icmpVal(CmpInst::ICMP_SLT, A(0), A(1)), A(0), A(1)); return true;
    case Intrinsic::smax: ret = selVal(icmpVal(CmpInst::ICMP_SGT, A(0), A(1)), A(0), A(1)); return true;
    case Intrinsic::abs: { Val z = mkc(0, A(0).w); ret = selVal(icmpVal(CmpInst::ICMP_SLT, A(0), z), binVal(K::Sub, z, A(0)), A(0)); return true; }
    case Intrinsic::ctpop: { Expr* e = toE(A(0)); Expr* r = X.c(0, e->w); for (unsigned i = 0; i < e->w; i++) r = X.bin(K::Add, r, X.zext(X.extract(e, i, 1), e->w)); ret = mke(r); return true; }
    case Intrinsic::ctlz: { Expr* e = toE(A(0)); Expr* r = X.c(e->w, e->w); for (unsigned i = 0; i < e->w; i++) r = X.ite(X.extract(e, i, 1), X.c(e->w - 1 - i, e->w), r); ret = mke(r); return true; }
    case Intrinsic::cttz: { Expr* e = toE(A(0)); Expr* r = X.c(e->w, e->w); for (int i = e->w - 1; i >= 0; i--) r = X.ite(X.extract(e, i, 1), X.c(i, e->w), r); ret = mke(r); return true; }
    case Intrinsic::bswap: { Expr* e = toE(A(0)); Expr* r = X.extract(e, 0, 8); for (unsigned i = 8; i < e->w; i += 8) r = X.concat(r, X.extract(e, i, 8)); ret = mke(r); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        Expr* a = toE(A(0)); Expr* b = toE(A(1)); Expr* c = toE(A(2)); unsigned w = a->w;
        Expr* m = X.bin(K::URem, c, X.c(w, w)); Expr* inv = X.bin(K::Sub, X.c(w, w), m);
        Expr* z = X.bin(K::Eq, m, X.c(0, w));
        if (k.intrin == Intrinsic::fshl) ret = mke(X.ite(z, a, X.bin(K::Or, X.bin(K::Shl, a, m), X.bin(K::LShr, b, inv))));
        else ret = mke(X.ite(z, b, X.bin(K::Or, X.bin(K::Shl, a, inv), X.bin(K::LShr, b, m))));
        return true; }
    case Intrinsic::uadd_sat: { Expr* a = toE(A(0)); Expr* b = toE(A(1)); Expr* sm = X.bin(K::Add, a, b); ret = mke(X.ite(X.bin(K::Ult, sm, a), X.c(maskw(a->w), a->w), sm)); return true; }
    case Intrinsic::usub_sat: { Expr* a = toE(A(0)); Expr* b = toE(A(1)); ret = mke(X.ite(X.bin(K::Ult, a, b), X.c(0, a->w), X.bin(K::Sub, a, b))); return true; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        Expr* a = toE(A(0)); Expr* b = toE(A(1)); unsigned w = a->w; Expr *r, *o;
        bool sg = k.intrin == Intrinsic::sadd_with_overflow || k.intrin == Intrinsic::ssub_with_overflow || k.intrin == Intrinsic::smul_with_overflow;
        K op = (k.intrin == Intrinsic::uadd_with_overflow || k.intrin == Intrinsic::sadd_with_overflow) ? K::Add : (k.intrin == Intrinsic::usub_with_overflow || k.intrin == Intrinsic::ssub_with_overflow) ? K::Sub : K::Mul;
        r = X.bin(op, a, b);
        unsigned ww = op == K::Mul ? 2 * w : w + 1; if (ww > 128) { incomplete["wide overflow"]++; ww = 128; }
        Expr* wa = sg ? X.sext(a, ww) : X.zext(a, ww); Expr* wb = sg ? X.sext(b, ww) : X.zext(b, ww);
        Expr* wr = X.bin(op, wa, wb);
        o = X.notE(X.bin(K::Eq, wr, sg ? X.sext(r, ww) : X.zext(r, ww)));
        ret = Val(); ret.agg = std::make_shared<std::vector<Val>>(); ret.agg->push_back(mke(r)); ret.agg->push_back(mke(o)); return true; }
    case Intrinsic::objectsize: ret = mkc(A(1).c ? 0 : ~0ULL, k.w); return true;
    case Intrinsic::ptrmask: ret = binVal(K::And, A(0), A(1)); return true;
    case Intrinsic::is_constant: ret = mkc(0, 1); return true;
    case Intrinsic::threadlocal_address: {
        auto* g = cast<GlobalVariable>(cast<CallBase>(k.I)->getArgOperand(0)->stripPointerCasts());
        Thread& t = s.th[s.cur]; auto it = t.tls.find(g);
        if (it != t.tls.end()) { ret = mkc(it->second, 64); return true; }
        uint64_t init = gaddr[g]; Obj* src = findObj(s, init, 0);
        uint64_t a = allocObj(s, src->size, OHeap, "tls:" + g->getName().str());
        copyMem(s, mkc(a, 64), mkc(init, 64), src->size);
        s.th[s.cur].tls[g] = a; ret = mkc(a, 64); return true; }
    case Intrinsic::vastart: {
        Frame& fr = f; // va_list of this frame's varargs
        uint64_t sz = 0; std::vector<uint64_t> offs;
        for (auto& v : fr.varargs) { if (v.w == 80) sz = (sz + 15) / 16 * 16; offs.push_back(sz); sz += v.w == 80 ? 16 : v.w > 64 ? 16 : 8; }
        uint64_t a = allocObj(s, sz ? sz : 1, OStack, "varargs"); fr.allocas.push_back(a);
        for (size_t i = 0; i < fr.varargs.size(); i++) {
            Val v = fr.varargs[i]; if (!v.agg && v.w < 64) v = v.conc() ? mkc(v.c, 64) : mke(X.zext(v.e, 64));
            Obj* o = findObj(s, a, 0, true); wrScalar(s, o, offs[i], v);
        }
        Val vl = get(s, f, k.ops[0]);
        storeTy(s, vl, Type::getInt32Ty(M->getContext()), mkc(48, 32));
        storeTy(s, addC(vl, 4), Type::getInt32Ty(M->getContext()), mkc(304, 32));
        storeTy(s, addC(vl, 8), Type::getInt64Ty(M->getContext()), mkc(a, 64));
        storeTy(s, addC(vl, 16), Type::getInt64Ty(M->getContext()), mkc(0, 64));
        return true; }
    case Intrinsic::vaend: return true;
    case Intrinsic::vacopy: copyMem(s, A(0), A(1), 24); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: err(s, "trap", "llvm.trap reached");
    case Intrinsic::eh_typeid_for: { uint64_t w = A(0).c; ret = mkc((uint32_t)w, 32); return true; }
    case Intrinsic::fabs: { unsigned w = A(0).w; ret = mke(X.bin(K::And, toE(A(0)), X.c(maskw(w - 1), w))); return true; }
    case Intrinsic::floor: ret = mke(X.fp(K::FRound, toE(A(0)), nullptr, A(0).w, 0)); return true;
    case Intrinsic::ceil: ret = mke(X.fp(K::FRound, toE(A(0)), nullptr, A(0).w, 1)); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: ret = mke(X.fp(K::FRound, toE(A(0)), nullptr, A(0).w, 3)); return true;
    case Intrinsic::round: ret = mke(X.fp(K::FRound, toE(A(0)), nullptr, A(0).w, 4)); return true;
    case Intrinsic::trunc: ret = mke(X.fp(K::FRound, toE(A(0)), nullptr, A(0).w, 2)); return true;
    case Intrinsic::fmuladd: ret = fpBin(Instruction::FAdd, fpBin(Instruction::FMul, A(0), A(1), A(0).w), A(2), A(0).w); return true;
    case Intrinsic::load_relative: { uint64_t b = concretize(s, A(0)); Val off = loadTy(s, addC(A(0), concretize(s, A(1))), Type::getInt32Ty(M->getContext())); ret = mkc(b + (int64_t)(int32_t)concretize(s, off), 64); return true; }
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: {
        K kk = k.intrin == Intrinsic::vector_reduce_or ? K::Or : k.intrin == Intrinsic::vector_reduce_add ? K::Add : k.intrin == Intrinsic::vector_reduce_and ? K::And : K::Xor;
        Val r = (*A(0).agg)[0]; for (size_t i = 1; i < A(0).agg->size(); i++) r = binVal(kk, r, (*A(0).agg)[i]); ret = r; return true; }
    default: return false;
    }
}

static void step(State& s) {
    Thread& t = s.th[s.cur];
    Frame& f = t.stack.back();
    KInst& k = f.kf->insts[f.pc];
    ST.insts++; s.insts++;
    if (optTrace) { errs() << "[" << s.id << ":" << s.cur << "] " << *k.I << "\n"; }
    auto A = [&](int i) -> const Val& { return get(s, f, k.ops[i]); };
    auto set = [&](Val v) { f.regs[k.dest] = std::move(v); f.pc++; };
    switch (k.op) {
    case Instruction::Add: set(binVal(K::Add, A(0), A(1))); break;
    case Instruction::Sub: set(binVal(K::Sub, A(0), A(1))); break;
    case Instruction::Mul: set(binVal(K::Mul, A(0), A(1))); break;
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        const Val& d = A(1);
        if (!d.agg) {
            if (d.conc()) { if (!d.c) err(s, "arith", "division by zero"); }
            else { std::shared_ptr<Model> m; Expr* z = X.bin(K::Eq, d.e, X.c(0, d.w)); if (mayBe(s, z, &m)) { report(s, "arith", "division by zero", m); s.model = s.model; Expr* nz = X.notE(z); State* o; if (!branch(s, nz, &o)) throw PathEnd{"error"}; delete o; } }
        }
        K kk = k.op == Instruction::UDiv ? K::UDiv : k.op == Instruction::SDiv ? K::SDiv : k.op == Instruction::URem ? K::URem : K::SRem;
        set(binVal(kk, A(0), A(1))); break; }
    case Instruction::And: set(binVal(K::And, A(0), A(1))); break;
    case Instruction::Or: set(binVal(K::Or, A(0), A(1))); break;
    case Instruction::Xor: set(binVal(K::Xor, A(0), A(1))); break;
    case Instruction::Shl: set(binVal(K::Shl, A(0), A(1))); break;
    case Instruction::LShr: set(binVal(K::LShr, A(0), A(1))); break;
    case Instruction::AShr: set(binVal(K::AShr, A(0), A(1))); break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: set(fpBin(k.op, A(0), A(1), k.w)); break;
    case Instruction::FNeg: set(mke(X.bin(K::Xor, toE(A(0)), X.c((u128)1 << (k.w - 1), k.w)))); break;
    case Instruction::ICmp: set(icmpVal(cast<ICmpInst>(k.I)->getPredicate(), A(0), A(1))); break;
    case Instruction::FCmp: {
        auto p = cast<FCmpInst>(k.I)->getPredicate();
        if (A(0).w == 80) {
            u128 x, y; if (!cval(A(0), x) || !cval(A(1), y)) throw Unsup{"symbolic x86_fp80 compare"};
            long double a = fp80to(x), b = fp80to(y); bool r = false;
            switch (p) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = a == b; break; case CmpInst::FCMP_UNE: case CmpInst::FCMP_ONE: r = a != b; break; case CmpInst::FCMP_OLT: r = a < b; break; case CmpInst::FCMP_OGT: r = a > b; break; default: throw Unsup{"fcmp80"}; }
            set(mkc(r, 1)); break;
        }
        set(mke(X.fp(K::FCmp, toE(A(0)), toE(A(1)), 1, (unsigned)p))); break; }
    case Instruction::Select: set(selVal(A(0), A(1), A(2))); break;
    case Instruction::Freeze: set(A(0)); break;
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI:
        set(castVal(k.op, A(0), k.w, k.I->getOperand(0)->getType(), k.I->getType())); break;
    case Instruction::GetElementPtr: {
        Val b = A(0);
        if (b.agg) throw Unsup{"vector gep"};
        b = addC(b, k.cst);
        for (auto& sc : k.scaled) {
            Val ix = get(s, f, sc.first);
            if (ix.agg) throw Unsup{"vector gep"};
            if (ix.w < 64) ix = mke(X.sext(toE(ix), 64));
            if (b.conc() && ix.conc()) b = mkc(b.c + ix.c * sc.second, 64);
            else b = mke(X.bin(K::Add, toE(b), X.bin(K::Mul, toE(ix), X.c(sc.second, 64))));
        }
        set(b); break; }
    case Instruction::Alloca: {
        auto* ai = cast<AllocaInst>(k.I); uint64_t n = concretize(s, A(0));
        uint64_t sz = n * DL->getTypeAllocSize(ai->getAllocatedType());
        uint64_t a = allocObj(s, sz, OStack, ai->getName().str(), false, ai->getAlign().value());
        f.allocas.push_back(a); set(mkc(a, 64)); break; }
    case Instruction::Load: {
        Type* ty = k.I->getType();
        Val v = loadTy(s, A(0), ty); t.yielded = false; set(v); break; }
    case Instruction::Store: {
        Type* ty = k.I->getOperand(0)->getType();
        storeTy(s, A(1), ty, A(0)); t.yielded = false; f.pc++; break; }
    case Instruction::AtomicRMW: {
        auto* rm = cast<AtomicRMWInst>(k.I);
        Val old = loadTy(s, A(0), k.I->getType()), nv;
        switch (rm->getOperation()) {
        case AtomicRMWInst::Xchg: nv = A(1); break;
        case AtomicRMWInst::Add: nv = binVal(K::Add, old, A(1)); break;
        case AtomicRMWInst::Sub: nv = binVal(K::Sub, old, A(1)); break;
        case AtomicRMWInst::And: nv = binVal(K::And, old, A(1)); break;
        case AtomicRMWInst::Or: nv = binVal(K::Or, old, A(1)); break;
        case AtomicRMWInst::Xor: nv = binVal(K::Xor, old, A(1)); break;
        default: throw Unsup{"atomicrmw"};
        }
        storeTy(s, A(0), k.I->getType(), nv); t.yielded = false; set(old); break; }
    case Instruction::AtomicCmpXchg: {
        Type* ty = k.I->getOperand(1)->getType();
        Val old = loadTy(s, A(0), ty);
        Val eq = binVal(K::Eq, old, A(1));
        storeTy(s, A(0), ty, selVal(eq, A(2), old));
        Val r; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(old); r.agg->push_back(eq); t.yielded = false; set(r); break; }
    case Instruction::Fence: f.pc++; break;
    case Instruction::ExtractValue: { Val v = A(0); for (unsigned i : cast<ExtractValueInst>(k.I)->indices()) { Val n = (*v.agg)[i]; v = n; } set(v); break; }
    case Instruction::InsertValue: {
        std::function<Val(const Val&, ArrayRef<unsigned>, const Val&)> ins = [&](const Val& a, ArrayRef<unsigned> ix, const Val& v) -> Val {
            if (ix.empty()) return v;
            Val r; r.agg = std::make_shared<std::vector<Val>>(*a.agg); (*r.agg)[ix[0]] = ins((*a.agg)[ix[0]], ix.slice(1), v); return r; };
        set(ins(A(0), cast<InsertValueInst>(k.I)->getIndices(), A(1))); break; }
    case Instruction::ExtractElement: { uint64_t i = concretize(s, A(1)); Val v = A(0); Val r = (*v.agg)[i]; set(r); break; }
    case Instruction::InsertElement: { uint64_t i = concretize(s, A(2)); Val r; r.agg = std::make_shared<std::vector<Val>>(*A(0).agg); (*r.agg)[i] = A(1); set(r); break; }
    case Instruction::ShuffleVector: {
        auto* sv = cast<ShuffleVectorInst>(k.I); Val r; r.agg = std::make_shared<std::vector<Val>>();
        size_t n = A(0).agg->size();
        for (int m : sv->getShuffleMask()) { if (m < 0) r.agg->push_back((*A(0).agg)[0]); else if ((size_t)m < n) r.agg->push_back((*A(0).agg)[m]); else r.agg->push_back((*A(1).agg)[m - n]); }
        set(r); break; }
    case Instruction::Br: {
        auto* br = cast<BranchInst>(k.I);
        if (!br->isConditional()) { enterBlock(s, f, br->getSuccessor(0)); break; }
        Val c = get(s, f, k.ops[0]);
        if (c.conc()) { enterBlock(s, f, br->getSuccessor(c.c ? 0 : 1)); break; }
        State* o; bool side = branch(s, c.e, &o);
        if (o) { Frame& of = o->th[o->cur].stack.back(); enterBlock(*o, of, br->getSuccessor(side ? 1 : 0)); work.push_back(o); }
        enterBlock(s, f, br->getSuccessor(side ? 0 : 1)); break; }
    case Instruction::Switch: {
        auto* sw = cast<SwitchInst>(k.I); Val c = A(0);
        if (!c.conc()) { Expr* e = subst(s, c.e); c = mke(e); }
        if (c.conc()) {
            BasicBlock* to = sw->getDefaultDest();
            for (auto& cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == c.c) { to = cs.getCaseSuccessor(); break; }
            enterBlock(s, f, to); break;
        }
        // group cases by successor
        std::map<BasicBlock*, Expr*> groups; std::vector<BasicBlock*> order; Expr* none = X.tru();
        for (auto& cs : sw->cases()) {
            Expr* q = X.bin(K::Eq, c.e, X.c(cs.getCaseValue()->getZExtValue(), c.w));
            none = X.bin(K::And, none, X.notE(q));
            auto*& g = groups[cs.getCaseSuccessor()]; if (!g) { g = q; order.push_back(cs.getCaseSuccessor()); } else g = X.bin(K::Or, g, q);
        }
        { auto*& g = groups[sw->getDefaultDest()]; if (!g) { g = none; order.push_back(sw->getDefaultDest()); } else g = X.bin(K::Or, g, none); }
        BasicBlock* mine = nullptr;
        for (auto* b : order) { if (!mine && evalBool(s, subst(s, groups[b]))) { mine = b; continue; }
            auto m = std::make_shared<Model>(); Expr* g = subst(s, groups[b]);
            int r = S->check(s.pc, g, m.get(), s.model.get());
            if (r < 0) incomplete["solver-unknown"]++;
            if (r == 1) { State* o = forkState(s); o->model = m; try { addPC(*o, g); Frame& of = o->th[o->cur].stack.back(); enterBlock(*o, of, b); work.push_back(o); } catch (PathEnd&) { delete o; } } }
        if (!mine) throw PathEnd{"infeasible"};
        addPC(s, subst(s, groups[mine]));
        enterBlock(s, f, mine); break; }
    case Instruction::Ret: { Val v; if (!k.ops.empty()) v = A(0); doReturn(s, v); break; }
    case Instruction::Unreachable: err(s, "unreachable", "unreachable instruction reached (undefined behaviour)");
    case Instruction::Resume: { unwind(s); break; }
    case Instruction::Call: case Instruction::Invoke: {
        auto* cb = cast<CallBase>(k.I);
        int normalBlk = -1, unwindBlk = -1;
        if (auto* iv = dyn_cast<InvokeInst>(k.I)) { normalBlk = f.kf->bidx[iv->getNormalDest()]; unwindBlk = f.kf->bidx[iv->getUnwindDest()]; }
        Function* F = k.callee;
        if (cb->isInlineAsm()) {
            auto* ia = cast<InlineAsm>(cb->getCalledOperand()); std::string as = ia->getAsmString();
            if (k.dest >= 0) {
                if (as.find("rdtsc") != std::string::npos) {
                    uint64_t tv = ++s.ghost["tsc"] * 1000; Type* rt = k.I->getType();
                    if (auto* st = dyn_cast<StructType>(rt)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(mkc((uint32_t)tv, bitW(st->getElementType(0)))); r.agg->push_back(mkc(tv >> 32, bitW(st->getElementType(1)))); f.regs[k.dest] = r; }
                    else f.regs[k.dest] = mkc(tv, bitW(rt));
                } else {
                    f.regs[k.dest] = zeroOf(k.I->getType()); calledExt["asm:" + as.substr(0, 20)]++;
                    if (!as.empty() && as.find("fence") == std::string::npos && as.find("cpuid") == std::string::npos) incomplete["inline asm with result: " + as.substr(0, 30)]++;
                }
            }
            finishCall(s, f, k); break;
        }
        if (!F) {
            Val fp = A(k.ops.size() - 1); uint64_t a = concretize(s, fp);
            auto it = funcAt.find(a); if (it == funcAt.end()) err(s, "memory", "call through invalid function pointer");
            F = it->second;
        }
        if (F->isIntrinsic()) {
            Val r; if (!doIntrinsic(s, f, k, r)) unsupported(s, "intrinsic " + F->getName().str());
            Frame& f2 = s.th[s.cur].stack.back();
            s.th[s.cur].yielded = false;
            if (k.dest >= 0) f2.regs[k.dest] = r;
            finishCall(s, f2, k); break;
        }
        if (!optStubs.empty()) { auto q = optStubs.find(F->getName().str()); if (q != optStubs.end()) { stubbed[q->first]++; if (k.dest >= 0) f.regs[k.dest] = bitW(k.I->getType()) <= 64 ? mkc(q->second, bitW(k.I->getType())) : mke(X.c(q->second, bitW(k.I->getType()))); finishCall(s, f, k); break; } }
        int sp = k.special;
        if (!k.callee) { auto q = specialIdx.find(F->getName().str()); if (q != specialIdx.end()) sp = q->second; }
        std::vector<Val> args; for (size_t i = 0; i + 1 < k.ops.size(); i++) args.push_back(A(i));
        if (sp >= 0 && (F->isDeclaration() || !F->hasFnAttribute("sym_override"))) {
            if (!optTrace) {}
            Val r; int tc = s.cur;
            specials[sp](s, f, k, args, r);
            // specials that reschedule/unwind do their own pc handling and throw Resched
            Frame& f2 = s.th[tc].stack.back();
            s.th[tc].yielded = false;
            if (k.dest >= 0) f2.regs[k.dest] = r;
            finishCall(s, f2, k); break;
        }
        if (F->isDeclaration()) {
            calledExt[F->getName().str()]++;
            unsupported(s, "external function " + F->getName().str());
        }
        pushFrame(s, t, F, args, k.dest, normalBlk, unwindBlk);
        break; }
    case Instruction::PHI: throw Unsup{"phi"};
    case Instruction::LandingPad: f.pc++; break;
    default: throw Unsup{std::string("instruction ") + k.I->getOpcodeName()};
    }
}

// ---------------------------------------------------------------- specials
#define SPECIAL(nm) { specialIdx[nm] = (int)specials.size(); specialNames.push_back(nm); specials.push_back([](State& s, Frame& f, KInst& k, std::vector<Val>& a, Val& ret)
#define END ); }
static uint64_t sizeArg(State& s, const Val& v) { return concretize(s, v); }
static void doFree(State& s, const Val& p) {
    uint64_t a = concretize(s, p); if (!a) return;
    auto it = s.mem.find(a);
    if (it == s.mem.end() || it->second->kind != OHeap) err(s, "memory", "invalid or double free");
    s.mem.erase(it);
}
static void addInput(State& s, const std::string& name, uint64_t addr, uint64_t n) {
    Input in; in.name = name;
    Obj* o = findObj(s, addr, n, true);
    if (!o) err(s, "memory", "sym_bytes out of bounds");
    for (uint64_t i = 0; i < n; i++) { Expr* e = pathVar(name + "#" + std::to_string(s.inputs.size()) + "[" + std::to_string(i) + "]"); wrByteE(o, addr - o->base + i, e); in.bytes.push_back(mke(e)); }
    s.inputs.push_back(in);
}
// one variable for the whole value
static void addInt(State& s, const std::string& name, uint64_t addr, uint64_t n) {
    Input in; in.name = name;
    Obj* o = findObj(s, addr, n, true);
    if (!o) err(s, "memory", "sym_int out of bounds");
    std::string vn = name + "#" + std::to_string(s.inputs.size());
    Expr*& v = pathVars[vn]; if (!v) v = X.var(vn, 8 * n);
    for (uint64_t i = 0; i < n; i++) { Expr* e = X.extract(v, 8 * i, 8); wrByteE(o, addr - o->base + i, e); in.bytes.push_back(mke(e)); }
    s.inputs.push_back(in);
}
static Val boolOf(const Val& v) { if (v.conc()) return mkc(v.c != 0, 1); return mke(X.notE(X.bin(K::Eq, v.e, X.c(0, v.w)))); }

static void initSpecials() {
    for (const char* n : {"malloc", "_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "valloc"})
        SPECIAL(n) { uint64_t n = sizeArg(s, a[0]); if (n > (1ULL << 40)) { ret = mkc(0, 64); err(s, "memory", "allocation of more than 2^40 bytes"); } uint64_t al = 16; if (a.size() > 1 && a[1].conc() && a[1].w == 64) al = a[1].c ? a[1].c : 16; if (al > (1 << 20) || (al & (al - 1))) al = 16; ret = mkc(allocObj(s, n, OHeap, "alloc@" + std::string(k.I->getDebugLoc() ? std::to_string(k.I->getDebugLoc().getLine()) : "?"), false, al), 64); } END
    SPECIAL("calloc") { uint64_t n = sizeArg(s, a[0]) * sizeArg(s, a[1]); ret = mkc(allocObj(s, n, OHeap, "calloc", true), 64); } END
    SPECIAL("realloc") { uint64_t p = concretize(s, a[0]), n = sizeArg(s, a[1]); uint64_t q = allocObj(s, n, OHeap, "realloc"); if (p) { Obj* o = findObj(s, p, 0); if (!o) err(s, "memory", "realloc of invalid pointer"); copyMem(s, mkc(q, 64), mkc(p, 64), std::min(n, o->size)); s.mem.erase(p); } ret = mkc(q, 64); } END
    SPECIAL("posix_memalign") { uint64_t al = sizeArg(s, a[1]), n = sizeArg(s, a[2]); uint64_t p = allocObj(s, n, OHeap, "memalign", false, al); storeTy(s, a[0], Type::getInt64Ty(M->getContext()), mkc(p, 64)); ret = mkc(0, 32); } END
    for (const char* n : {"aligned_alloc", "memalign"}) SPECIAL(n) { uint64_t al = sizeArg(s, a[0]), n = sizeArg(s, a[1]); ret = mkc(allocObj(s, n, OHeap, "aligned_alloc", false, al), 64); } END
    for (const char* n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) SPECIAL(n) { doFree(s, a[0]); } END
    for (const char* n : {"memcpy", "memmove", "__memcpy_chk", "__memmove_chk"}) SPECIAL(n) { uint64_t n = concretize(s, a[2]); copyMem(s, a[0], a[1], n); ret = a[0]; } END
    for (const char* n : {"memset", "__memset_chk"}) SPECIAL(n) { uint64_t n = concretize(s, a[2]); Val v = mke(X.extract(toE(a[1]), 0, 8)); setMem(s, a[0], v, n); ret = a[0]; } END
    SPECIAL("__assert_fail") { err(s, "assert", "assertion failed: " + cstr(s, a[0])); } END
    SPECIAL("abort") { err(s, "abort", "abort() called"); } END
    SPECIAL("_ZSt9terminatev") { err(s, "abort", "std::terminate"); } END
    SPECIAL("__cxa_pure_virtual") { err(s, "abort", "pure virtual call"); } END
    for (const char* n : {"exit", "_exit", "quick_exit"}) SPECIAL(n) { if (s.exitOk) throw PathEnd{"exit"}; err(s, "exit", "exit() called"); } END
    for (const char* n : {"__cxa_atexit", "atexit"}) SPECIAL(n) { ret = mkc(0, 32); } END
    SPECIAL("__cxa_thread_atexit") { s.th[s.cur].dtors.push_back({concretize(s, a[0]), concretize(s, a[1])}); ret = mkc(0, 32); } END
    SPECIAL("__cxa_guard_acquire") { Val g = loadTy(s, a[0], Type::getInt8Ty(M->getContext())); ret = mkc(g.conc() && g.c == 0, 32); } END
    SPECIAL("__cxa_guard_release") { storeTy(s, a[0], Type::getInt8Ty(M->getContext()), mkc(1, 8)); } END
    SPECIAL("__cxa_guard_abort") { } END
    SPECIAL("__cxa_allocate_exception") { ret = mkc(allocObj(s, concretize(s, a[0]) + 64, OHeap, "exception", true), 64); } END
    SPECIAL("__cxa_free_exception") { } END
    SPECIAL("__cxa_throw") { Thread& t = s.th[s.cur]; t.excPtr = concretize(s, a[0]); t.excType = concretize(s, a[1]);
        int ub = -1; if (auto* iv = dyn_cast<InvokeInst>(k.I)) ub = f.kf->bidx[iv->getUnwindDest()];
        // push a pseudo frame so that unwind() pops it first
        Frame pf; pf.kf = f.kf; pf.pc = 0; pf.unwindBlk = ub; if (pf.kf->noPreempt) t.noPre++; t.stack.push_back(pf); unwind(s); throw Resched{}; } END
    SPECIAL("__cxa_rethrow") { Thread& t = s.th[s.cur]; int ub = -1; if (auto* iv = dyn_cast<InvokeInst>(k.I)) ub = f.kf->bidx[iv->getUnwindDest()]; Frame pf; pf.kf = f.kf; pf.pc = 0; pf.unwindBlk = ub; if (pf.kf->noPreempt) t.noPre++; t.stack.push_back(pf); unwind(s); throw Resched{}; } END
    SPECIAL("__cxa_begin_catch") { ret = a[0]; } END
    SPECIAL("__cxa_end_catch") { } END
    for (const char* n : {"_ZSt17__throw_bad_allocv", "_ZSt20__throw_length_errorPKc", "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt19__throw_logic_errorPKc", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt25__throw_bad_function_callv", "_ZSt24__throw_invalid_argumentPKc", "_ZSt20__throw_system_errori", "_ZSt16__throw_bad_castv"})
        SPECIAL(n) { err(s, "exception", "library exception thrown: " + std::string(k.callee->getName())); } END

    // --- harness API
    SPECIAL("sym_bytes") { uint64_t n = concretize(s, a[1]); addInput(s, cstr(s, a[2]), concretize(s, a[0]), n); } END
    SPECIAL("sym_int") { uint64_t n = concretize(s, a[1]); addInt(s, cstr(s, a[2]), concretize(s, a[0]), n); } END
    SPECIAL("sym_param") { uint64_t i = concretize(s, a[0]); ret = mkc(i < optParams.size() ? (uint64_t)optParams[i] : 0, 64); } END
    SPECIAL("sym_symbolic") { ret = mkc(1, 32); } END
    SPECIAL("sym_assume") { Val c = boolOf(a[0]); if (c.conc()) { if (!c.c) throw PathEnd{"assume"}; return; }
        std::shared_ptr<Model> m; if (!mayBe(s, c.e, &m)) throw PathEnd{"assume"}; s.model = m; addPC(s, subst(s, c.e)); } END
    SPECIAL("sym_check") {
        std::string msg = cstr(s, a[1]); Val c = boolOf(a[0]);
        ST.checks++; auto& cs = checkStats[msg]; cs.first++;
        if (!c.conc()) c = mke(subst(s, c.e));
        if (c.conc()) { ST.checksConcrete++; if (!c.c) { report(s, "check", msg, s.model); throw PathEnd{"error"}; } ST.checksProved++; return; }
        ST.checksSym++; cs.second++;
        std::shared_ptr<Model> m;
        Expr* nc = X.notE(c.e);
        if (evalBool(s, nc)) m = s.model;
        else { m = std::make_shared<Model>(); int r = S->check(s.pc, nc, m.get(), s.model.get()); if (r < 0) { incomplete["solver-unknown on check: " + msg]++; m = nullptr; } else if (r == 0) { m = nullptr; ST.checksProved++; } }
        if (m) { report(s, "check", msg, m); std::shared_ptr<Model> m2; if (!mayBe(s, c.e, &m2)) throw PathEnd{"error"}; s.model = m2; }
        addPC(s, c.e); } END
    SPECIAL("sym_fail") { report(s, "check", cstr(s, a[0]), s.model); throw PathEnd{"error"}; } END
    SPECIAL("sym_reach") { reached[cstr(s, a[0])]++; } END
    SPECIAL("sym_stop") { throw PathEnd{"stop"}; } END
    SPECIAL("sym_incomplete") { incomplete["harness: " + cstr(s, a[0])]++; throw PathEnd{"incomplete"}; } END
    SPECIAL("sym_note") { s.notes.push_back(cstr(s, a[0])); } END
    SPECIAL("sym_debug") { std::string m = cstr(s, a[0]); if (optVerbose) { Val v = a[1]; if (!v.conc()) v = mke(subst(s, v.e)); if (v.conc()) fprintf(stderr, "[st %lu th %d] %s = %lu (0x%lx)\n", s.id, s.cur, m.c_str(), v.c, v.c); else { Eval E(*s.model); fprintf(stderr, "[st %lu th %d] %s = symbolic (e.g. %lu)\n", s.id, s.cur, m.c_str(), (unsigned long)E.ev(v.e)); } } } END
    SPECIAL("sym_obs") { s.obs.push_back({cstr(s, a[0]), a[1]}); } END
    SPECIAL("sym_concretize") { ret = mkc(concretize(s, a[0]), 64); } END
    SPECIAL("sym_is_concrete") { Val v = a[0]; if (!v.conc()) v = mke(subst(s, v.e)); ret = mkc(v.conc(), 32); } END
    SPECIAL("sym_choose") { // one symbolic byte, concretised by forking
        uint64_t n = concretize(s, a[0]); std::string nm = cstr(s, a[1]);
        // fork directly, no solver needed
        for (uint64_t i = 1; i < n; i++) {
            State* o = forkState(s); Input in; in.name = nm; for (int b = 0; b < 4; b++) in.bytes.push_back(mkc((i >> (8 * b)) & 255, 8)); o->inputs.push_back(in);
            Frame& of = o->th[o->cur].stack.back(); of.regs[k.dest] = mkc(i, 32); finishCall(*o, of, k); work.push_back(o);
        }
        Input in; in.name = nm; for (int b = 0; b < 4; b++) in.bytes.push_back(mkc(0, 8)); s.inputs.push_back(in);
        ret = mkc(0, 32); } END
    SPECIAL("sym_exit_ok") { s.exitOk = a[0].c; } END
    SPECIAL("sym_bytes_left") { uint64_t p = concretize(s, a[0]); Obj* o = findObj(s, p, 0); ret = mkc(o ? o->base + o->size - p : 0, 64); } END
    SPECIAL("sym_is_heap") { uint64_t p = concretize(s, a[0]); Obj* o = findObj(s, p, 0); ret = mkc(o && o->kind == OHeap, 32); } END
    // --- threads
    SPECIAL("sym_thread_create") {
        uint64_t fa = concretize(s, a[0]); auto it = funcAt.find(fa); if (it == funcAt.end()) err(s, "memory", "bad thread function");
        Thread n; n.id = s.th.size(); s.th.push_back(n);
        std::vector<Val> ar{a[1]}; pushFrame(s, s.th.back(), it->second, ar, -1, -1, -1);
        Frame& f2 = s.th[s.cur].stack.back(); (void)f2; ret = mkc(s.th.back().id, 32); } END
    SPECIAL("sym_threads_on") { s.threadsOn = a[0].c; } END
    SPECIAL("sym_self") { ret = mkc(s.cur, 32); } END
    SPECIAL("sym_thread_done") { uint64_t t = concretize(s, a[0]); ret = mkc(t < s.th.size() && s.th[t].st == TDone, 32); } END
    SPECIAL("sym_shared") { uint64_t p = concretize(s, a[0]), n = concretize(s, a[1]); s.shared.push_back({p, p + n}); } END
    SPECIAL("sym_access") { uint64_t n = concretize(s, a[1]); if (s.threadsOn) {
        if (needsPoint(s, a[0], n, concretize(s, a[2]) != 0)) { preemptPoint(s); }
        else if (!s.th[s.cur].yielded && isShared(s, a[0], n) && ++s.alone >= ALONE) { s.alone = 0; preemptPoint(s, false, true); } } } END
    SPECIAL("sym_pass") { int c = s.cur; if (!s.threadsOn) return; finishCall(s, f, k); s.th[c].yielded = false; pickNext(s, true); throw Resched{}; } END
    SPECIAL("sym_yield") { preemptPoint(s, true); } END
    SPECIAL("sym_block") { int c = s.cur; finishCall(s, f, k); s.th[c].st = TBlocked; s.th[c].key = concretize(s, a[0]); pickNext(s); throw Resched{}; } END
    SPECIAL("sym_block_timed") { int c = s.cur; f.regs[k.dest] = mkc(0, 32); s.th[c].timedDest = k.dest; finishCall(s, f, k); s.th[c].st = TTimed; s.th[c].key = concretize(s, a[0]); pickNext(s); throw Resched{}; } END
    SPECIAL("sym_wake") { uint64_t key = concretize(s, a[0]); uint64_t n = concretize(s, a[1]);
        std::vector<int> c; for (auto& t : s.th) if ((t.st == TBlocked || t.st == TTimed) && t.key == key) c.push_back(t.id);
        auto wake = [](State& q, int i) { Thread& t = q.th[i]; if (t.st == TTimed) t.stack.back().regs[t.timedDest] = mkc(1, 32); t.st = TRun; };
        if (n == 0 || c.size() <= n) { for (int i : c) wake(s, i); }
        else { for (size_t i = 1; i < c.size(); i++) { State* o = forkState(s); wake(*o, c[i]); o->sched.push_back({1000000 + s.switchPts, c[i]}); Frame& of = o->th[o->cur].stack.back(); finishCall(*o, of, k); work.push_back(o); } wake(s, c[0]); s.sched.push_back({1000000 + s.switchPts, c[0]}); }
        ret = mkc(c.size(), 32); } END
    SPECIAL("sym_tsc") { ret = mkc(++s.ghost["tsc"] * 1000, 64); } END
}

// Direct uses of thread-local variables go through llvm.threadlocal.address, so that every thread has its own.
static void resolveTls() {
    for (GlobalVariable& g : M->globals()) {
        if (!g.isThreadLocal()) continue;
        std::vector<Use*> us; for (Use& u : g.uses()) us.push_back(&u);
        for (Use* u : us) {
            auto* I = dyn_cast<Instruction>(u->getUser());
            if (!I) { if (auto* ce = dyn_cast<ConstantExpr>(u->getUser())) for (User* w : std::vector<User*>(ce->user_begin(), ce->user_end())) if (auto* J = dyn_cast<Instruction>(w)) {
                    Instruction* at = isa<PHINode>(J) ? nullptr : J; if (!at) continue;
                    IRBuilder<> B(at); Value* a = B.CreateThreadLocalAddress(&g); Instruction* ci = ce->getAsInstruction(); ci->insertBefore(at); ci->replaceUsesOfWith(&g, a); J->replaceUsesOfWith(ce, ci); }
                continue; }
            if (auto* ii = dyn_cast<IntrinsicInst>(I)) if (ii->getIntrinsicID() == Intrinsic::threadlocal_address || isa<DbgInfoIntrinsic>(ii)) continue;
            Instruction* at = I; if (auto* p = dyn_cast<PHINode>(I)) at = p->getIncomingBlock(*u)->getTerminator();
            IRBuilder<> B(at); u->set(B.CreateThreadLocalAddress(&g));
        }
    }
}
// ---------------------------------------------------------------- setup
static void initConstMem(Obj* o, uint64_t off, const Constant* C) {
    Type* t = C->getType();
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return; // object is zero-filled
    if (isAgg(t)) {
        if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { StringRef r = cd->getRawDataValues(); for (size_t i = 0; i < r.size(); i++) wrByteC(o, off + i, (uint8_t)r[i]); return; }
        for (unsigned i = 0; i < C->getNumOperands(); i++) initConstMem(o, off + aggOff(t, i), cast<Constant>(C->getOperand(i)));
        return;
    }
    Val v = evalConst(C);
    unsigned n = (v.w + 7) / 8; u128 x; cval(v, x);
    for (unsigned i = 0; i < n; i++) wrByteC(o, off + i, (uint8_t)(x >> (8 * i)));
}
static void setupGlobals() {
    for (auto& F : *M) { gaddr[&F] = gNext; funcAt[gNext] = &F; gNext += 16; }
    gNext = 0x1000000;
    for (auto& G : M->globals()) {
        uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 8;
        uint64_t al = std::max<uint64_t>(16, G.getAlign() ? G.getAlign()->value() : 16);
        gNext = (gNext + al - 1) / al * al;
        gaddr[&G] = gNext;
        auto o = std::make_shared<Obj>(); o->base = gNext; o->size = sz; o->kind = OGlobal; o->zero = true; o->name = G.getName().str();
        o->ro = G.isConstant() && G.hasInitializer();
        if (G.isDeclaration()) o->size = std::max<uint64_t>(sz, 64);
        gmem[gNext] = o; gNext += o->size + 64;
    }
    for (auto& G : M->globals()) if (G.hasInitializer()) initConstMem(gmem[gaddr[&G]].get(), 0, G.getInitializer());
}
static void runState(State* s, double deadline);
static uint64_t rssBytes() { std::ifstream f("/proc/self/statm"); uint64_t a = 0, b = 0; f >> a >> b; return b * 4096; }

static void endPath(State* s, const std::string& why) {
    if (why == "done" || why == "exit" || why == "stop") {
        ST.paths++;
        int& dumped = samplesDumped;
        if (dumped < 6 && (why == "done")) {
            // spread the samples: 1st, 2nd, 4th, 8th ... completed path
            if ((ST.paths & (ST.paths - 1)) == 0 || ST.paths == 1) {
                std::string fn = optReplayDir + "/" + optEntry + ".sample" + std::to_string(dumped++) + ".replay";
                std::ofstream o(fn);
                o << "# sample path\n"; for (auto p : optParams) o << "param " << p << "\n"; o << "entry " << optEntry << "\n";
                dumpInputs(*s, *s->model, o);
                Eval E(*s->model);
                for (auto& ob : s->obs) { char b[40]; snprintf(b, 40, "%016lx", (unsigned long)E.ev(toE(ob.second))); o << "obs " << ob.first << " " << b << "\n"; }
                samplePaths.push_back(fn);
            }
        }
    } else ST.killed++;
}
static void runState(State* s, double deadline) {
    try {
        uint64_t n = 0;
        while (true) {
            try { step(*s); } catch (Resched&) {} catch (Unsup& u) { unsupported(*s, u.what); }
            if (s->insts > optPathInst) { incomplete["path instruction bound @ " + stackStr(*s).substr(0, 200)]++; throw PathEnd{"bound"}; }
            if ((++n & 1023) == 0) {
                if (now_s() > deadline) { incomplete["time budget"]++; throw PathEnd{"time"}; }
                if ((n & 0xffff) == 0 && rssBytes() > optMaxRSS) { incomplete["memory budget"]++; throw PathEnd{"memory"}; }
            }
        }
    } catch (PathEnd& p) { endPath(s, p.why); }
    delete s;
}

int main(int argc, char** argv) {
    std::string bc;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") optEntry = nx(); else if (a == "--out") optOut = nx(); else if (a == "--replay-dir") optReplayDir = nx();
        else if (a == "--time") optTime = std::stod(nx()); else if (a == "--preempt") optPreempt = std::stoi(nx()); else if (a == "--param") optParams.push_back(std::stoll(nx()));
        else if (a == "--property") optProperty = nx(); else if (a == "--max-viol") optMaxViol = std::stoi(nx()); else if (a == "-v") optVerbose = true; else if (a == "--trace") optTrace = true;
        else if (a == "--path-inst") optPathInst = std::stoull(nx()); else if (a == "--max-switch") optMaxSwitchPts = std::stoi(nx()); else if (a == "--stub") { std::string v = nx(); size_t q = v.find('='); optStubs[v.substr(0, q)] = q == std::string::npos ? 0 : std::stoull(v.substr(q + 1)); } else if (a == "--no-ctors") optNoCtors = true;
        else if (a == "--lia") optLia = true; else if (a == "--wide") optWide = true; else if (a == "--spin") optSpin = std::stoi(nx()); else if (a == "--qtimeout") optQTimeout = std::stoul(nx()) * 1000; else if (a == "--rss") optMaxRSS = std::stoull(nx()) << 20; else bc = a;
    }
    LLVMContext C; SMDiagnostic e; auto mod = parseIRFile(bc, e, C);
    if (!mod) { e.print("symx", errs()); return 2; }
    M = mod.get(); DL = &M->getDataLayout();
    Solver sol(X); S = &sol; if (optQTimeout) sol.timeoutMs = optQTimeout; sol.lia = optLia; sol.wide = optWide;
    if (const char* d = getenv("SYMX_SLOW")) S->dumpSlow = atof(d);
    resolveTls(); initSpecials(); setupGlobals();
    double t0 = now_s(), deadline = t0 + optTime;
    State* s = new State();
    s->th.resize(1); s->th[0].id = 0;
    // global constructors, then the entry
    Function* F = M->getFunction(optEntry);
    if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 2; }
    try { pushFrame(*s, s->th[0], F, {}, -1, -1, -1); } catch (PathEnd&) { return 2; }
    if (!optNoCtors) if (auto* g = M->getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) {
        std::vector<std::pair<uint64_t, Function*>> cs;
        for (auto& o : ca->operands()) { auto* st = cast<ConstantStruct>(o); if (auto* cf = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), cf}); }
        std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (int i = (int)cs.size() - 1; i >= 0; i--) { pushFrame(*s, s->th[0], cs[i].second, {}, -1, -1, -1); }
        // returning from a ctor pops to the next one, whose pc must not advance
        for (auto& f : s->th[0].stack) if (&f != &s->th[0].stack.back()) f.pc = -1;
    }
    State* init = s; init->model = std::make_shared<Model>();
  again:
    for (State* w : work) delete w;
    work.clear(); restart = false; useTab = accTab; incomplete.clear(); samplePaths.clear(); samplesDumped = 0; reached.clear(); ST = {};
    work.push_back(new State(*init));
    while (!work.empty()) {
        if (restart) goto again;
        if (now_s() > deadline) { incomplete["time budget"] += work.size(); break; }
        if (rssBytes() > optMaxRSS) { incomplete["memory budget"] += work.size(); break; }
        State* n = work.back(); work.pop_back();
        runState(n, deadline);
    }
    if (restart && now_s() <= deadline) goto again;
    double wall = now_s() - t0;
    // coverage
    std::map<std::string, std::set<unsigned>> fl; std::set<std::string> fns;
    for (auto& kv : kfs) { KFunction* kf = kv.second; for (auto& in : kf->insts) if (kf->covered[in.blk]) { 
        for (DILocation* L = in.I->getDebugLoc().get(); L; L = L->getInlinedAt()) { fl[L->getFilename().str()].insert(L->getLine()); if (auto* sp = L->getScope()->getSubprogram()) fns.insert(L->getFilename().str() + ":" + sp->getName().str()); } } }
    std::ofstream o(optOut.empty() ? "/dev/stdout" : optOut);
    o << "{\n \"entry\":\"" << optEntry << "\",\n \"paths\":" << ST.paths << ",\"killed\":" << ST.killed << ",\"forks\":" << ST.forks << ",\"insts\":" << ST.insts << ",\"switches\":" << ST.switches
      << ",\n \"checks\":" << ST.checks << ",\"checks_proved\":" << ST.checksProved << ",\"checks_concrete\":" << ST.checksConcrete << ",\"checks_symbolic\":" << ST.checksSym
      << ",\n \"queries\":" << S->queries << ",\"cache_hits\":" << S->cacheHits << ",\"sat\":" << S->sats << ",\"unsat\":" << S->unsats << ",\"unknown\":" << S->unknowns << ",\"solver_s\":" << S->time << ",\"max_query_s\":" << S->maxTime
      << ",\n \"wall_s\":" << wall << ",\"vars\":" << X.vars.size() << ",\"exprs\":" << X.all.size() << ",\"rss_mb\":" << (rssBytes() >> 20);
    o << ",\n \"incomplete\":{"; bool fst = true; for (auto& p : incomplete) { if (!fst) o << ","; fst = false; o << "\"" << jesc(p.first) << "\":" << p.second; } o << "}";
    o << ",\n \"reached\":{"; fst = true; for (auto& p : reached) { if (!fst) o << ","; fst = false; o << "\"" << jesc(p.first) << "\":" << p.second; } o << "}";
    o << ",\n \"check_stats\":{"; fst = true; for (auto& p : checkStats) { if (!fst) o << ","; fst = false; o << "\"" << jesc(p.first) << "\":[" << p.second.first << "," << p.second.second << "]"; } o << "}";
    o << ",\n \"violations\":["; fst = true; for (auto& v : viols) { if (!fst) o << ","; fst = false; o << "{\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"file\":\"" << jesc(v.file) << "\"}"; } o << "]";
    o << ",\n \"samples\":["; fst = true; for (auto& v : samplePaths) { if (!fst) o << ","; fst = false; o << "\"" << jesc(v) << "\""; } o << "]";
    o << ",\n \"functions\":["; fst = true; for (auto& v : fns) if (v.find("/repo/") != std::string::npos || v.find("runtime/") == 0 || v.find("gen/") != std::string::npos) { if (!fst) o << ","; fst = false; o << "\"" << jesc(v) << "\""; } o << "]";
    o << "\n}\n";
    o.close();
    _exit(0);
}
