// ---- models of external functions and intrinsics (included inside struct Engine)
typedef int (*NatFn)(Engine&, State&, Inst&);
struct NA { // argument access
    Engine& E; State& s; Inst& x; Thread& t; Frame& f;
    NA(Engine& E, State& s, Inst& x) : E(E), s(s), x(x), t(s.th[s.cur]), f(t.fr.back()) {}
    const Val& a(int i, int lane = 0) { return E.G(t, f, x.args[i], lane); }
    unsigned w(int i) { return x.argw[i]; }
    u64 c(int i) { return E.conc(s, a(i)); }
    void ret(const Val& v, int lane = 0) { if (x.dst >= 0) { Thread& tt = s.th[s.cur]; tt.regs[tt.fr.back().base + x.dst + lane] = v; } }
};
static void finishCall(Engine& E, State& s, Inst& x, const Val& v) {
    Thread& t = s.th[s.cur];
    if (x.dst >= 0) t.regs[t.fr.back().base + x.dst] = v;
    E.afterCall(t, t.fr.back(), x);
}
std::string cstr(State& s, u64 a) {
    std::string r;
    for (int i = 0; i < 256; i++) {
        ObjRef* o = objAt(s, a + i);
        if (!o || !o->p || a + i >= o->p->base + o->p->size) break;
        u8 c = o->p->b[a + i - o->p->base];
        if (!c) break;
        r += (char)c;
    }
    return r;
}
u64 stdTi(const char* mangled) {
    auto* g = M->getGlobalVariable(mangled);
    return g ? gaddr(g) : 0;
}
int throwStd(State& s, const char* ti) {
    u64 p = allocHeap(s, 32, OExc);
    s.excs[p] = ExcInfo{ p, stdTi(ti), 0, 0, false };
    unwind(s, p, false);
    return R_NOADV;
}
static int n_nop(Engine& E, State& s, Inst& x) { NA A(E, s, x); if (x.dst >= 0) for (int i = 0; i < x.n; i++) A.ret(CV(0), i); return R_DONE; }
static int n_copy0(Engine& E, State& s, Inst& x) { NA A(E, s, x); for (int i = 0; i < x.n; i++) { Val v = A.a(0, i); A.ret(v, i); } return R_DONE; }

// ---------------------------------------------------------------- heap
int doAlloc(State& s, Inst& x, u64 n, OKind k, bool nothrow) {
    if (n > (1ull << 27)) { if (nothrow) { finishCall(*this, s, x, CV(0)); return R_NOADV; } return throwStd(s, "_ZTISt9bad_alloc"); }
    u64 p = allocHeap(s, n, k);
    finishCall(*this, s, x, CV(p));
    return R_NOADV;
}
void doFree(State& s, u64 a, OKind k) {
    if (!a) return;
    ObjRef* r = objAt(s, a);
    if (!r || !r->p || r->p->base != a || r->p->kind < OHeapNew || r->p->kind > OHeapMalloc) violation(s, "memory", "free of a pointer that was not allocated");
    if (r->p->freed) violation(s, "memory", "double free");
    if (r->p->kind != k) violation(s, "memory", "allocation and deallocation functions do not match");
    if (s.mt() && O.races && r->p->size) { Acc A; A.addr = a; A.off = 0; A.o = r->p; raceAcc(s, A, r->p->size, true, false); }
    Obj* o = writableAt(s, a);
    o->freed = true;
    o->b.clear(); o->b.shrink_to_fit(); o->s.clear(); o->s.shrink_to_fit(); o->sh.clear(); o->sh.shrink_to_fit();
    s.live--;
}
static int n_new(Engine& E, State& s, Inst& x) { NA A(E, s, x); return E.doAlloc(s, x, A.c(0), OHeapNew, false); }
static int n_newarr(Engine& E, State& s, Inst& x) { NA A(E, s, x); return E.doAlloc(s, x, A.c(0), OHeapNewArr, false); }
static int n_newnt(Engine& E, State& s, Inst& x) { NA A(E, s, x); return E.doAlloc(s, x, A.c(0), OHeapNew, true); }
static int n_malloc(Engine& E, State& s, Inst& x) { NA A(E, s, x); return E.doAlloc(s, x, A.c(0), OHeapMalloc, true); }
static int n_aligned_alloc(Engine& E, State& s, Inst& x) { NA A(E, s, x); return E.doAlloc(s, x, A.c(1), OHeapMalloc, true); }
static int n_calloc(Engine& E, State& s, Inst& x) {
    NA A(E, s, x);
    u64 n = A.c(0) * A.c(1);
    if (n > (1ull << 27)) { A.ret(CV(0)); return R_DONE; }
    u64 p = E.allocHeap(s, n, OHeapMalloc);
    Obj* o = E.writableAt(s, p); std::fill(o->b.begin(), o->b.end(), 0);
    A.ret(CV(p)); return R_DONE;
}
static int n_realloc(Engine& E, State& s, Inst& x) {
    NA A(E, s, x);
    u64 a = A.c(0), n = A.c(1);
    if (n > (1ull << 27)) { A.ret(CV(0)); return R_DONE; }
    u64 old = 0;
    if (a) { ObjRef* r = E.objAt(s, a); if (!r || !r->p || r->p->base != a || r->p->freed || r->p->kind != OHeapMalloc) E.violation(s, "memory", "realloc of an invalid pointer"); old = r->p->size; }
    u64 p = E.allocHeap(s, n, OHeapMalloc);
    if (a) { E.memCopy(s, CV(p), CV(a), std::min(old, n), true); E.doFree(s, a, OHeapMalloc); }
    A.ret(CV(p)); return R_DONE;
}
static int n_free(Engine& E, State& s, Inst& x) { NA A(E, s, x); E.doFree(s, A.c(0), OHeapMalloc); return R_DONE; }
static int n_del(Engine& E, State& s, Inst& x) {
    NA A(E, s, x); u64 a = A.c(0);
    if (a && A.x.args.size() >= 2 && A.w(1) == 64 && A.x.I) {
        auto* CB = cast<CallBase>(A.x.I); auto* F = CB->getCalledFunction();
        if (F && F->getName() == "_ZdlPvm") { u64 n = A.c(1); ObjRef* r = E.objAt(s, a); if (r && r->p && r->p->base == a && !r->p->freed && r->p->size != n) E.violation(s, "memory", "sized deallocation with a wrong size"); }
    }
    E.doFree(s, a, OHeapNew); return R_DONE;
}
static int n_delarr(Engine& E, State& s, Inst& x) { NA A(E, s, x); E.doFree(s, A.c(0), OHeapNewArr); return R_DONE; }
static int n_posix_memalign(Engine& E, State& s, Inst& x) {
    NA A(E, s, x); u64 n = A.c(2), d = A.c(0);
    if (n > (1ull << 27)) { A.ret(CV(12)); return R_DONE; }
    u64 p = E.allocHeap(s, n, OHeapMalloc); E.storeVal(s, CV(d), 64, CV(p)); A.ret(CV(0)); return R_DONE;
}
static int n_usable(Engine& E, State& s, Inst& x) { NA A(E, s, x); u64 a = A.c(0); ObjRef* r = a ? E.objAt(s, a) : nullptr; A.ret(CV(r && r->p ? r->p->size : 0)); return R_DONE; }

// ---------------------------------------------------------------- memory functions
static int n_memcpy(Engine& E, State& s, Inst& x) { NA A(E, s, x); u64 n = A.c(2); E.memCopy(s, A.a(0), A.a(1), n, false); if (x.dst >= 0) { Val v = A.a(0); A.ret(v); } return R_DONE; }
static int n_memmove(Engine& E, State& s, Inst& x) { NA A(E, s, x); u64 n = A.c(2); E.memCopy(s, A.a(0), A.a(1), n, true); if (x.dst >= 0) { Val v = A.a(0); A.ret(v); } return R_DONE; }
static int n_memset(Engine& E, State& s, Inst& x) {
    NA A(E, s, x);
    u64 n = A.c(2); u64 d = A.c(0);
    Val v = A.a(1);
    if (n) {
        Val b = E.truncV(v, A.w(1), 8); if (A.w(1) == 8) b = v;
        Acc C = E.resolve(s, CV(d), n, true);
        E.raceAcc(s, C, n, true, false);
        Obj* o = E.writableAt(s, d);
        for (u64 i = 0; i < n; i++) E.wrBytes(o, C.off + i, 8, b);
    }
    if (x.dst >= 0) A.ret(CV(d));
    return R_DONE;
}
static int n_memcmp_(Engine& E, State& s, Inst& x, bool eqOnly) {
    NA A(E, s, x);
    u64 n = A.c(2), p = A.c(0), q = A.c(1);
    if (!n) { A.ret(CV(0)); return R_DONE; }
    Acc Pa = E.resolve(s, CV(p), n, false); Acc Qa = E.resolve(s, CV(q), n, false);
    E.raceAcc(s, Pa, n, false, false); E.raceAcc(s, Qa, n, false, false);
    Obj *po = E.objAt(s, p)->p, *qo = E.objAt(s, q)->p;
    Expr* r = P.cst(0, 32);
    for (u64 i = n; i-- > 0;) {
        Expr* a = ex(E.rdBytes(po, Pa.off + i, 8), 8); Expr* b = ex(E.rdBytes(qo, Qa.off + i, 8), 8);
        Expr* eq = P.bin(KEq, a, b);
        Expr* d = eqOnly ? P.cst(1, 32) : P.bin(KSub, P.zext(a, 32), P.zext(b, 32));
        r = P.ite(eq, r, d);
    }
    A.ret(fromE(r));
    return R_DONE;
}
static int n_memcmp(Engine& E, State& s, Inst& x) { return n_memcmp_(E, s, x, false); }
static int n_bcmp(Engine& E, State& s, Inst& x) { return n_memcmp_(E, s, x, true); }

// ---------------------------------------------------------------- harness interface
static int n_sym_u64(Engine& E, State& s, Inst& x) {
    NA A(E, s, x);
    std::string nm = E.cstr(s, A.c(0)); unsigned w = (unsigned)A.c(1);
    u32 id = E.freshSym(s, nm, w);
    A.ret(fromE(P.zext(P.syms[id].e, 64)));
    return R_DONE;
}
static int n_sym_assume(Engine& E, State& s, Inst& x) {
    NA A(E, s, x); Val v = A.a(0);
    Val nz = E.icmp(CmpInst::ICMP_NE, v, CV(0), A.w(0));
    if (nz.e) E.assume(s, nz.e); else if (!nz.c) throw PathEnd{ 1 };
    return R_DONE;
}
static int n_sym_assert(Engine& E, State& s, Inst& x) {
    NA A(E, s, x); Val v = A.a(0);
    E.asserts++;
    Val z = E.icmp(CmpInst::ICMP_EQ, v, CV(0), A.w(0));
    if (!z.e) { if (z.c) E.violation(s, "assertion", E.cstr(s, A.c(1))); return R_DONE; }
    Expr* ze = E.simp(s, z.e);
    if (ze->k == KConst) { if (ze->cv) E.violation(s, "assertion", E.cstr(s, A.c(1))); s.known[z.e] = 0; return R_DONE; }
    std::vector<std::pair<u32, u64>> asg;
    E.assertQ++;
    if (P.eval(ze, *s.model)) E.violation(s, "assertion", E.cstr(s, A.c(1)));
    Res r = SLV->check(s.cons, ze, s.syms, asg);
    if (r == SAT) { auto m = E.mergeModel(s, asg); E.violation(s, "assertion", E.cstr(s, A.c(1)), m.get()); }
    E.learn(s, ze, 0);
    s.known[z.e] = 0;
    return R_DONE;
}
static int n_sym_choice(Engine& E, State& s, Inst& x) {
    NA A(E, s, x); unsigned n = (unsigned)A.c(0); std::string nm = E.cstr(s, A.c(1));
    if (n == 0) throw PathEnd{ 1 };
    E.chooseFork(s, nm.c_str(), n, [&](State& st, unsigned i) { finishCall(E, st, x, CV(i)); });
    return R_NOADV;
}
static int n_sym_concretize(Engine& E, State& s, Inst& x) { NA A(E, s, x); u64 v = A.c(0); A.ret(CV(v)); return R_DONE; }
static int n_sym_param(Engine& E, State& s, Inst& x) { NA A(E, s, x); u64 i = A.c(0); A.ret(CV(i < O.params.size() ? (u64)O.params[i] : 0)); return R_DONE; }
static int n_sym_cover(Engine& E, State& s, Inst& x) { NA A(E, s, x); s.covers.push_back(E.cstr(s, A.c(0))); return R_DONE; }
static int n_sym_live(Engine& E, State& s, Inst& x) { NA A(E, s, x); A.ret(CV(s.live)); return R_DONE; }
static int n_sym_print(Engine& E, State& s, Inst& x) {
    NA A(E, s, x); const Val& v = A.a(1);
    fprintf(stderr, "[sym_print] %s ", E.cstr(s, A.c(0)).c_str());
    if (v.e) fprintf(stderr, "<sym> (model %lu)\n", (u64)P.eval(v.e, *s.model)); else fprintf(stderr, "%ld (0x%lx)\n", (long)v.c, v.c);
    return R_DONE;
}
static int n_sym_thread(Engine& E, State& s, Inst& x) {
    NA A(E, s, x);
    u64 fa = A.c(0); Val arg = A.a(1);
    u64 i = (fa - FBASE) / 16;
    if (fa < FBASE || i >= E.fnByIdx.size()) E.unsupported(s, "thread function");
    Fn* fn = E.fnByIdx[i];
    // finish the call in the parent first
    finishCall(E, s, x, CV(0));
    int parent = s.cur;
    if (s.th.size() >= 4) E.unsupported(s, "too many threads");
    E.vcInc(s);
    s.th.emplace_back();
    int id = (int)s.th.size() - 1;
    s.th[id].vc = s.th[parent].vc;
    s.th[id].vc.resize(std::max<size_t>(s.th[id].vc.size(), id + 1), 0);
    s.th[id].vc[id] = 1;
    s.cur = id;
    E.pushFrame(s, fn, { arg });
    s.cur = parent;
    E.vcInc(s);
    return R_NOADV;
}
static int n_sym_join(Engine& E, State& s, Inst& x) {
    if (!s.mt()) return R_DONE;
    Thread& t = s.th[s.cur];
    bool all = true;
    for (size_t k = 0; k < s.th.size(); k++) if ((int)k != s.cur && s.th[k].st != TDone) all = false;
    if (all) { for (auto& o : s.th) vcJoin(t.vc, o.vc); t.schedDone = false; return R_DONE; }
    t.st = TBlockJoin;
    E.schedule(s);
    return R_NOADV;
}
static int n_yield(Engine& E, State& s, Inst& x) { if (!E.schedPoint(s)) return R_NOADV; NA A(E, s, x); if (x.dst >= 0) A.ret(CV(0)); return R_DONE; }

// ---------------------------------------------------------------- locks
bool lockAvail(State& s, u64 m, bool shared) {
    auto it = s.mtx.find(m);
    if (it == s.mtx.end()) return true;
    if (it->second.owner >= 0) return false;
    return shared || it->second.readers.empty();
}
void lockTake(State& s, u64 m, bool shared) {
    auto& M = s.mtx[m];
    Thread& t = s.th[s.cur];
    vcJoin(t.vc, M.rel);
    if (shared) M.readers.push_back(s.cur);
    else { vcJoin(t.vc, M.rrel); M.owner = s.cur; }
}
int doLock(State& s, Inst& x, u64 m, bool shared) {
    if (!schedPoint(s)) return R_NOADV;
    // the lock word itself must be live memory
    Acc A0 = resolve(s, CV(m), 8, true); (void)A0;
    if (lockAvail(s, m, shared)) { lockTake(s, m, shared); finishCall(*this, s, x, CV(0)); return R_NOADV; }
    Thread& t = s.th[s.cur];
    t.st = TBlockMutex; t.waitOn = m; t.waitShared = shared;
    schedule(s);
    return R_NOADV;
}
int doTry(State& s, Inst& x, u64 m, bool shared) {
    if (!schedPoint(s)) return R_NOADV;
    Acc A0 = resolve(s, CV(m), 8, true); (void)A0;
    if (lockAvail(s, m, shared)) { lockTake(s, m, shared); finishCall(*this, s, x, CV(0)); }
    else finishCall(*this, s, x, CV(16));
    return R_NOADV;
}
int doUnlock(State& s, Inst& x, u64 m) {
    if (O.schedUnlock && !schedPoint(s)) return R_NOADV;
    Acc A0 = resolve(s, CV(m), 8, true); (void)A0;
    auto it = s.mtx.find(m);
    if (it == s.mtx.end()) violation(s, "locking", "unlock of a lock that is not held");
    auto& M = it->second;
    if (M.owner == s.cur) { M.rel = s.th[s.cur].vc; M.owner = -1; }
    else {
        auto r = std::find(M.readers.begin(), M.readers.end(), s.cur);
        if (r == M.readers.end()) violation(s, "locking", "unlock of a lock that this thread does not hold");
        M.readers.erase(r);
        vcJoin(M.rrel, s.th[s.cur].vc);
    }
    vcInc(s);
    finishCall(*this, s, x, CV(0));
    return R_NOADV;
}
static int n_mlock(Engine& E, State& s, Inst& x) { NA A(E, s, x); return E.doLock(s, x, A.c(0), false); }
static int n_rdlock(Engine& E, State& s, Inst& x) { NA A(E, s, x); return E.doLock(s, x, A.c(0), true); }
static int n_mtry(Engine& E, State& s, Inst& x) { NA A(E, s, x); return E.doTry(s, x, A.c(0), false); }
static int n_rdtry(Engine& E, State& s, Inst& x) { NA A(E, s, x); return E.doTry(s, x, A.c(0), true); }
static int n_munlock(Engine& E, State& s, Inst& x) { NA A(E, s, x); return E.doUnlock(s, x, A.c(0)); }
static int n_mdestroy(Engine& E, State& s, Inst& x) {
    NA A(E, s, x); u64 m = A.c(0);
    auto it = s.mtx.find(m);
    if (it != s.mtx.end()) { if (it->second.owner >= 0 || !it->second.readers.empty()) E.violation(s, "locking", "destruction of a held lock"); s.mtx.erase(it); }
    A.ret(CV(0)); return R_DONE;
}
static int n_held(Engine& E, State& s, Inst& x) { // number of locks held by the calling thread
    NA A(E, s, x); u64 n = 0;
    for (auto& [k, m] : s.mtx) { if (m.owner == s.cur) n++; for (int r : m.readers) if (r == s.cur) n++; }
    A.ret(CV(n)); return R_DONE;
}
static int n_self(Engine& E, State& s, Inst& x) { NA A(E, s, x); A.ret(CV(0x7000 + s.cur)); return R_DONE; }

// ---------------------------------------------------------------- exceptions
static int n_allocexc(Engine& E, State& s, Inst& x) { NA A(E, s, x); u64 n = A.c(0); u64 p = E.allocHeap(s, n, OExc); A.ret(CV(p)); return R_DONE; }
static int n_freeexc(Engine& E, State& s, Inst& x) { NA A(E, s, x); s.excs.erase(A.c(0)); return R_DONE; }
static int n_throw(Engine& E, State& s, Inst& x) {
    NA A(E, s, x); u64 p = A.c(0), ti = A.c(1), d = A.c(2);
    s.excs[p] = ExcInfo{ p, ti, d, 0, false };
    E.unwind(s, p, false);
    return R_NOADV;
}
static int n_begincatch(Engine& E, State& s, Inst& x) { NA A(E, s, x); u64 p = A.c(0); s.th[s.cur].caught.push_back(p); s.excs[p].handlers++; A.ret(CV(p)); return R_DONE; }
static int n_endcatch(Engine& E, State& s, Inst& x) {
    auto& c = s.th[s.cur].caught;
    if (c.empty()) E.unsupported(s, "end_catch without catch");
    u64 p = c.back(); c.pop_back();
    auto& e = s.excs[p];
    if (--e.handlers == 0 && !e.rethrown) s.excs.erase(p);
    return R_DONE;
}
static int n_rethrow(Engine& E, State& s, Inst& x) {
    auto& c = s.th[s.cur].caught;
    if (c.empty()) E.violation(s, "exception", "rethrow with no exception");
    u64 p = c.back();
    s.excs[p].rethrown = true;
    E.unwind(s, p, false);
    s.excs[p].rethrown = false;
    return R_NOADV;
}
static int n_terminate(Engine& E, State& s, Inst& x) { E.violation(s, "abort", "std::terminate / abort reached"); }
static int n_assertfail(Engine& E, State& s, Inst& x) { NA A(E, s, x); E.violation(s, "abort", "assert failed: " + E.cstr(s, A.c(0))); }
static int n_trap(Engine& E, State& s, Inst& x) {
    std::string m = "undefined behaviour check failed";
    if (x.args.size() == 1 && x.argw[0] == 8) {
        NA A(E, s, x);
        static const std::map<int, const char*> nm = { { 0, "integer add overflow" }, { 1, "builtin unreachable" }, { 3, "divide/remainder overflow" }, { 10, "shift out of bounds" }, { 12, "negate overflow" }, { 7, "implicit conversion" },
            { 2, "cfi" }, { 4, "dynamic type" }, { 5, "float cast overflow" }, { 6, "function type" }, { 8, "invalid builtin" }, { 9, "invalid objc" }, { 11, "load of invalid value" }, { 13, "missing return" }, { 14, "mul overflow" }, { 16, "nonnull arg" }, { 18, "nonnull return" }, { 20, "out of bounds" }, { 21, "pointer overflow" }, { 22, "shift out of bounds" }, { 23, "sub overflow" }, { 24, "type mismatch" }, { 25, "alignment" } };
        u64 k = A.c(0); auto it = nm.find((int)k); m = "undefined behaviour: " + std::string(it == nm.end() ? "check" : it->second) + " (ubsan trap " + std::to_string(k) + ")";
    }
    E.violation(s, "undefined behaviour", m);
}
#define THROWER(NAME, TI) static int NAME(Engine& E, State& s, Inst& x) { return E.throwStd(s, TI); }
THROWER(n_thr_oor, "_ZTISt12out_of_range") THROWER(n_thr_len, "_ZTISt12length_error") THROWER(n_thr_logic, "_ZTISt11logic_error") THROWER(n_thr_inv, "_ZTISt16invalid_argument")
THROWER(n_thr_ba, "_ZTISt9bad_alloc") THROWER(n_thr_anl, "_ZTISt20bad_array_new_length") THROWER(n_thr_bfc, "_ZTISt17bad_function_call") THROWER(n_thr_sys, "_ZTISt12system_error") THROWER(n_thr_boa, "_ZTISt19bad_optional_access") THROWER(n_thr_rt, "_ZTISt13runtime_error")

static int n_guard_acq(Engine& E, State& s, Inst& x) { NA A(E, s, x); u64 g = A.c(0); Acc C = E.resolve(s, CV(g), 1, false); Val v = E.rdBytes(C.o, C.off, 8); A.ret(CV(!v.c)); return R_DONE; }
static int n_guard_rel(Engine& E, State& s, Inst& x) { NA A(E, s, x); u64 g = A.c(0); Acc C = E.resolve(s, CV(g), 1, true); Obj* o = E.writableAt(s, g); E.wrBytes(o, C.off, 8, CV(1)); return R_DONE; }
static int n_now(Engine& E, State& s, Inst& x) {
    NA A(E, s, x);
    // a fresh monotonic clock reading
    u32 id = E.freshSym(s, "time", 40);
    Expr* e = P.zext(P.syms[id].e, 64);
    if (s.lastTimeE) {
        Expr* ge = P.bin(KUle, s.lastTimeE, e);
        std::vector<std::pair<u32, u64>> asg;
        if (ge->k != KConst) { if (!P.eval(ge, *s.model)) { if (SLV->check(s.cons, ge, s.syms, asg) != SAT) throw PathEnd{ 1 }; s.model = E.mergeModel(s, asg); } s.cons.push_back(ge); }
    }
    s.lastTimeE = e;
    A.ret(fromE(e));
    return R_DONE;
}

// ---------------------------------------------------------------- intrinsics
Expr* popcE(Expr* a) {
    Expr* r = P.cst(0, a->w);
    for (unsigned i = 0; i < a->w; i++) r = P.bin(KAdd, r, P.zext(P.extract(a, i, 1), a->w));
    return r;
}
Val ctz(const Val& v, unsigned w) {
    if (!v.e) { u64 c = v.c; return CV(c ? (u64)std::countr_zero(c) : w); }
    Expr* r = P.cst(w, w);
    for (unsigned i = w; i-- > 0;) r = P.ite(P.extract(v.e, i, 1), P.cst(i, w), r);
    return fromE(r);
}
Val clz(const Val& v, unsigned w) {
    if (!v.e) { u64 c = v.c; return CV(c ? (u64)std::countl_zero(c) - (64 - w) : w); }
    Expr* r = P.cst(w, w);
    for (unsigned i = 0; i < w; i++) r = P.ite(P.extract(v.e, i, 1), P.cst(w - 1 - i, w), r);
    return fromE(r);
}
// count of trailing/leading zeros of a value known to be a sparse mask still works bit by bit
Val popc(const Val& v, unsigned w) {
    if (!v.e) return CV((u64)std::popcount(v.c));
    // parallel popcount keeps the term small
    Expr* x = v.e;
    if (w <= 8) return fromE(popcE(x));
    std::vector<Expr*> t;
    for (unsigned i = 0; i < w; i++) t.push_back(P.extract(x, i, 1));
    unsigned cw = 1;
    while (t.size() > 1) {
        std::vector<Expr*> n; cw++;
        for (size_t i = 0; i + 1 < t.size(); i += 2) n.push_back(P.bin(KAdd, P.zext(t[i], cw), P.zext(t[i + 1], cw)));
        if (t.size() & 1) n.push_back(P.zext(t.back(), cw));
        t.swap(n);
    }
    return fromE(P.zext(t[0], w));
}
template <class F> static int lanewise1(Engine& E, State& s, Inst& x, F fn) {
    NA A(E, s, x); std::vector<Val> o;
    for (int i = 0; i < x.n; i++) o.push_back(fn(A.a(0, i), x.w));
    for (int i = 0; i < x.n; i++) A.ret(o[i], i);
    return R_DONE;
}
static int n_ctpop(Engine& E, State& s, Inst& x) { return lanewise1(E, s, x, [&](const Val& v, unsigned w) { return E.popc(v, w); }); }
static int n_cttz(Engine& E, State& s, Inst& x) { return lanewise1(E, s, x, [&](const Val& v, unsigned w) { return E.ctz(v, w); }); }
static int n_ctlz(Engine& E, State& s, Inst& x) { return lanewise1(E, s, x, [&](const Val& v, unsigned w) { return E.clz(v, w); }); }
static int n_bswap(Engine& E, State& s, Inst& x) {
    return lanewise1(E, s, x, [&](const Val& v, unsigned w) {
        Expr* e = ex(v, w); Expr* r = nullptr;
        for (unsigned i = 0; i < w / 8; i++) { Expr* b = P.extract(e, i * 8, 8); r = r ? P.concat(r, b) : b; }
        return fromE(r);
    });
}
static int n_bitrev(Engine& E, State& s, Inst& x) {
    return lanewise1(E, s, x, [&](const Val& v, unsigned w) {
        Expr* e = ex(v, w); Expr* r = nullptr;
        for (unsigned i = 0; i < w; i++) { Expr* b = P.extract(e, i, 1); r = r ? P.concat(r, b) : b; }
        return fromE(r);
    });
}
static int n_abs(Engine& E, State& s, Inst& x) {
    return lanewise1(E, s, x, [&](const Val& v, unsigned w) { Expr* e = ex(v, w); return fromE(P.ite(P.bin(KSlt, e, P.cst(0, w)), P.bin(KSub, P.cst(0, w), e), e)); });
}
static int n_fabs(Engine& E, State& s, Inst& x) { return lanewise1(E, s, x, [&](const Val& v, unsigned w) { return E.binop(KAnd, v, mkC(maskw(w - 1), w), w); }); }
template <int K> static int n_minmax(Engine& E, State& s, Inst& x) { // 0 umin 1 umax 2 smin 3 smax
    NA A(E, s, x); std::vector<Val> o;
    for (int i = 0; i < x.n; i++) {
        Val a = A.a(0, i), b = A.a(1, i);
        Val c = E.icmp(K < 2 ? CmpInst::ICMP_ULT : CmpInst::ICMP_SLT, a, b, x.w);
        if (K & 1) std::swap(a, b);
        o.push_back(c.e ? E.iteV(c.e, a, b, x.w) : c.c ? a : b);
    }
    for (int i = 0; i < x.n; i++) A.ret(o[i], i);
    return R_DONE;
}
template <int K> static int n_ovf(Engine& E, State& s, Inst& x) { // 0 uadd 1 sadd 2 usub 3 ssub 4 umul 5 smul
    NA A(E, s, x); unsigned w = A.w(0);
    if (2 * w > 128) { // wide operands only support concrete
    }
    Expr *a = ex(A.a(0), w), *b = ex(A.a(1), w);
    EK k = K < 2 ? KAdd : K < 4 ? KSub : KMul;
    unsigned ww = K < 4 ? w + 1 : 2 * w;
    Expr* r = P.bin(k, a, b);
    Expr* ov;
    if (ww > 128) E.unsupported(s, "wide overflow intrinsic");
    if (K & 1) ov = P.mkNot(P.bin(KEq, P.bin(k, P.sext(a, ww), P.sext(b, ww)), P.sext(r, ww)));
    else ov = P.mkNot(P.bin(KEq, P.bin(k, P.zext(a, ww), P.zext(b, ww)), P.zext(r, ww)));
    if (K == 0) ov = P.bin(KUlt, r, a);
    if (K == 2) ov = P.bin(KUlt, a, b);
    A.ret(fromE(r), 0); A.ret(fromE(ov), 1);
    return R_DONE;
}
template <int K> static int n_sat(Engine& E, State& s, Inst& x) { // 0 uadd 1 usub
    NA A(E, s, x); unsigned w = x.w; std::vector<Val> o;
    for (int i = 0; i < x.n; i++) {
        Expr *a = ex(A.a(0, i), w), *b = ex(A.a(1, i), w);
        if (K == 0) { Expr* r = P.bin(KAdd, a, b); o.push_back(fromE(P.ite(P.bin(KUlt, r, a), P.cst(maskw(w), w), r))); }
        else o.push_back(fromE(P.ite(P.bin(KUlt, a, b), P.cst(0, w), P.bin(KSub, a, b))));
    }
    for (int i = 0; i < x.n; i++) A.ret(o[i], i);
    return R_DONE;
}
template <int L> static int n_fsh(Engine& E, State& s, Inst& x) {
    NA A(E, s, x); unsigned w = x.w; std::vector<Val> o;
    for (int i = 0; i < x.n; i++) {
        Val a = A.a(0, i), b = A.a(1, i), c = A.a(2, i);
        Val sh = (w & (w - 1)) ? E.binop(KURem, c, mkC(w, w), w) : E.binop(KAnd, c, mkC(w - 1, w), w);
        Val inv = E.binop(KSub, mkC(w, w), sh, w);
        Val r = L ? E.binop(KOr, E.binop(KShl, a, sh, w), E.binop(KLShr, b, inv, w), w)   // shift by w yields 0
                  : E.binop(KOr, E.binop(KLShr, b, sh, w), E.binop(KShl, a, inv, w), w);
        o.push_back(r);
    }
    for (int i = 0; i < x.n; i++) A.ret(o[i], i);
    return R_DONE;
}
template <int K> static int n_reduce(Engine& E, State& s, Inst& x) { // EK or 100+ minmax
    NA A(E, s, x); int n = x.argn[0]; unsigned w = x.w; Val r = A.a(0, 0);
    for (int i = 1; i < n; i++) {
        Val v = A.a(0, i);
        if (K < 100) r = E.binop((EK)K, r, v, w);
        else { Val c = E.icmp(K < 102 ? CmpInst::ICMP_ULT : CmpInst::ICMP_SLT, r, v, w); Val p = r, q = v; if (K & 1) std::swap(p, q); r = c.e ? E.iteV(c.e, p, q, w) : c.c ? p : q; }
    }
    A.ret(r); return R_DONE;
}
static int n_pmovmskb(Engine& E, State& s, Inst& x) {
    NA A(E, s, x); int n = x.argn[0]; Expr* r = P.cst(0, 32); bool conc = true; u64 c = 0;
    for (int i = 0; i < n; i++) { Val v = A.a(0, i); if (v.e) conc = false; else c |= ((v.c >> 7) & 1) << i; }
    if (conc) { A.ret(CV(c)); return R_DONE; }
    Expr* cc = nullptr;
    for (int i = n - 1; i >= 0; i--) { Expr* b = P.extract(ex(A.a(0, i), 8), 7, 1); cc = cc ? P.concat(cc, b) : b; }
    r = P.zext(cc, 32);
    A.ret(fromE(r)); return R_DONE;
}
static int n_pshufb(Engine& E, State& s, Inst& x) {
    NA A(E, s, x); std::vector<Val> o;
    for (int i = 0; i < 16; i++) {
        Val m = A.a(1, i);
        if (!m.e) { o.push_back((m.c & 0x80) ? CV(0) : A.a(0, (int)(m.c & 15))); continue; }
        Expr* idx = P.extract(m.e, 0, 4); Val r = A.a(0, 15);
        for (int k = 14; k >= 0; k--) r = E.iteV(P.bin(KEq, idx, P.cst(k, 4)), A.a(0, k), r, 8);
        o.push_back(E.iteV(P.extract(m.e, 7, 1), CV(0), r, 8));
    }
    for (int i = 0; i < 16; i++) A.ret(o[i], i);
    return R_DONE;
}
static int n_psignb(Engine& E, State& s, Inst& x) {
    NA A(E, s, x); std::vector<Val> o;
    for (int i = 0; i < x.argn[0]; i++) {
        Expr *a = ex(A.a(0, i), 8), *b = ex(A.a(1, i), 8), *z = P.cst(0, 8);
        o.push_back(fromE(P.ite(P.bin(KSlt, b, z), P.bin(KSub, z, a), P.ite(P.bin(KEq, b, z), z, a))));
    }
    for (size_t i = 0; i < o.size(); i++) A.ret(o[i], (int)i);
    return R_DONE;
}
static int n_expect(Engine& E, State& s, Inst& x) { NA A(E, s, x); Val v = A.a(0); A.ret(v); return R_DONE; }
static int n_isconst(Engine& E, State& s, Inst& x) { NA A(E, s, x); A.ret(CV(0)); return R_DONE; }
static int n_objsize(Engine& E, State& s, Inst& x) { NA A(E, s, x); A.ret(A.c(1) ? CV(0) : CV(~0ull)); return R_DONE; }
static int n_typeid(Engine& E, State& s, Inst& x) { NA A(E, s, x); u64 a = A.c(0); A.ret(CV(E.typeId(a))); return R_DONE; }
static int n_uadd_dummy(Engine& E, State& s, Inst& x) { return R_DONE; }

std::unordered_map<std::string, NatFn> natTab;
void initNat() {
    auto& T = natTab;
    T["sym_u64"] = n_sym_u64; T["sym_assume"] = n_sym_assume; T["sym_assert"] = n_sym_assert; T["sym_choice"] = n_sym_choice; T["sym_concretize"] = n_sym_concretize;
    T["sym_param"] = n_sym_param; T["sym_cover"] = n_sym_cover; T["sym_live"] = n_sym_live; T["sym_print"] = n_sym_print; T["sym_thread"] = n_sym_thread; T["sym_join"] = n_sym_join;
    T["sym_yield"] = n_yield; T["sym_held"] = n_held;
    T["_Znwm"] = n_new; T["_ZnwmSt11align_val_t"] = n_new; T["_Znam"] = n_newarr; T["_ZnamSt11align_val_t"] = n_newarr; T["_ZnwmRKSt9nothrow_t"] = n_newnt; T["_ZnwmSt11align_val_tRKSt9nothrow_t"] = n_newnt;
    T["_ZdlPv"] = n_del; T["_ZdlPvm"] = n_del; T["_ZdlPvSt11align_val_t"] = n_del; T["_ZdlPvmSt11align_val_t"] = n_del; T["_ZdlPvRKSt9nothrow_t"] = n_del;
    T["_ZdaPv"] = n_delarr; T["_ZdaPvm"] = n_delarr; T["_ZdaPvSt11align_val_t"] = n_delarr; T["_ZdaPvmSt11align_val_t"] = n_delarr;
    T["malloc"] = n_malloc; T["free"] = n_free; T["calloc"] = n_calloc; T["realloc"] = n_realloc; T["aligned_alloc"] = n_aligned_alloc; T["memalign"] = n_aligned_alloc; T["posix_memalign"] = n_posix_memalign; T["malloc_usable_size"] = n_usable;
    T["memcpy"] = n_memcpy; T["memmove"] = n_memmove; T["memset"] = n_memset; T["memcmp"] = n_memcmp; T["bcmp"] = n_bcmp;
    T["pthread_mutex_lock"] = n_mlock; T["pthread_mutex_unlock"] = n_munlock; T["pthread_mutex_trylock"] = n_mtry; T["pthread_mutex_destroy"] = n_mdestroy; T["pthread_mutex_init"] = n_nop;
    T["pthread_rwlock_wrlock"] = n_mlock; T["pthread_rwlock_rdlock"] = n_rdlock; T["pthread_rwlock_unlock"] = n_munlock; T["pthread_rwlock_trywrlock"] = n_mtry; T["pthread_rwlock_tryrdlock"] = n_rdtry; T["pthread_rwlock_destroy"] = n_mdestroy; T["pthread_rwlock_init"] = n_nop;
    T["pthread_self"] = n_self; T["sched_yield"] = n_yield; T["_ZNSt6thread20hardware_concurrencyEv"] = n_nop;
    T["__cxa_allocate_exception"] = n_allocexc; T["__cxa_free_exception"] = n_freeexc; T["__cxa_throw"] = n_throw; T["__cxa_begin_catch"] = n_begincatch; T["__cxa_end_catch"] = n_endcatch; T["__cxa_rethrow"] = n_rethrow; T["__cxa_get_exception_ptr"] = n_copy0;
    T["_Unwind_Resume"] = [](Engine& E, State& s, Inst& x) -> int { NA A(E, s, x); E.unwind(s, A.c(0), true); return R_NOADV; };
    T["_ZSt9terminatev"] = n_terminate; T["abort"] = n_terminate; T["__cxa_pure_virtual"] = n_terminate; T["__cxa_call_unexpected"] = n_terminate; T["exit"] = n_terminate; T["__assert_fail"] = n_assertfail; T["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = n_terminate;
    T["_ZSt20__throw_out_of_rangePKc"] = n_thr_oor; T["_ZSt24__throw_out_of_range_fmtPKcz"] = n_thr_oor; T["_ZSt20__throw_length_errorPKc"] = n_thr_len; T["_ZSt19__throw_logic_errorPKc"] = n_thr_logic; T["_ZSt24__throw_invalid_argumentPKc"] = n_thr_inv;
    T["_ZSt17__throw_bad_allocv"] = n_thr_ba; T["_ZSt28__throw_bad_array_new_lengthv"] = n_thr_anl; T["_ZSt25__throw_bad_function_callv"] = n_thr_bfc; T["_ZSt20__throw_system_errori"] = n_thr_sys; T["_ZSt21__throw_runtime_errorPKc"] = n_thr_rt; T["_ZSt27__throw_bad_optional_accessv"] = n_thr_boa;
    T["__cxa_guard_acquire"] = n_guard_acq; T["__cxa_guard_release"] = n_guard_rel; T["__cxa_guard_abort"] = n_nop; T["__cxa_atexit"] = n_nop; T["__cxa_thread_atexit"] = n_nop;
    T["_ZNSt6chrono3_V212steady_clock3nowEv"] = n_now; T["_ZNSt6chrono3_V212system_clock3nowEv"] = n_now;
    T["_ZNSt8ios_base4InitC1Ev"] = n_nop; T["_ZNSt8ios_base4InitD1Ev"] = n_nop;
    for (const char* c : { "12out_of_range", "12length_error", "11logic_error", "16invalid_argument", "13runtime_error", "12domain_error", "14overflow_error", "11range_error" }) {
        for (const char* k : { "C1EPKc", "C2EPKc", "D1Ev", "D2Ev", "D0Ev", "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "C1ERKS_", "C2ERKS_" }) T[std::string("_ZNSt") + c + k] = n_nop;
    }
    for (const char* c : { "_ZNSt9exceptionD1Ev", "_ZNSt9exceptionD2Ev", "_ZNSt9bad_allocD1Ev", "_ZNSt8bad_castD1Ev", "_ZNSt12system_errorD1Ev", "_ZNSt9bad_allocD2Ev", "_ZNSt9exceptionD0Ev" }) T[c] = n_nop;
}
NatFn findNative(Function* F, Inst& x) {
    if (F->isIntrinsic()) {
        switch (F->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return n_memcpy;
        case Intrinsic::memmove: return n_memmove;
        case Intrinsic::memset: case Intrinsic::memset_inline: return n_memset;
        case Intrinsic::ctpop: return n_ctpop;
        case Intrinsic::cttz: return n_cttz;
        case Intrinsic::ctlz: return n_ctlz;
        case Intrinsic::bswap: return n_bswap;
        case Intrinsic::bitreverse: return n_bitrev;
        case Intrinsic::abs: return n_abs;
        case Intrinsic::fabs: return n_fabs;
        case Intrinsic::umin: return n_minmax<0>; case Intrinsic::umax: return n_minmax<1>; case Intrinsic::smin: return n_minmax<2>; case Intrinsic::smax: return n_minmax<3>;
        case Intrinsic::uadd_with_overflow: return n_ovf<0>; case Intrinsic::sadd_with_overflow: return n_ovf<1>; case Intrinsic::usub_with_overflow: return n_ovf<2>; case Intrinsic::ssub_with_overflow: return n_ovf<3>;
        case Intrinsic::umul_with_overflow: return n_ovf<4>; case Intrinsic::smul_with_overflow: return n_ovf<5>;
        case Intrinsic::uadd_sat: return n_sat<0>; case Intrinsic::usub_sat: return n_sat<1>;
        case Intrinsic::fshl: return n_fsh<1>; case Intrinsic::fshr: return n_fsh<0>;
        case Intrinsic::vector_reduce_add: return n_reduce<KAdd>; case Intrinsic::vector_reduce_or: return n_reduce<KOr>; case Intrinsic::vector_reduce_and: return n_reduce<KAnd>; case Intrinsic::vector_reduce_xor: return n_reduce<KXor>; case Intrinsic::vector_reduce_mul: return n_reduce<KMul>;
        case Intrinsic::vector_reduce_umin: return n_reduce<100>; case Intrinsic::vector_reduce_umax: return n_reduce<101>; case Intrinsic::vector_reduce_smin: return n_reduce<102>; case Intrinsic::vector_reduce_smax: return n_reduce<103>;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::annotation: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: return n_expect;
        case Intrinsic::is_constant: return n_isconst;
        case Intrinsic::objectsize: return n_objsize;
        case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::invariant_start: case Intrinsic::x86_sse2_pause: return n_nop;
        case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: return n_trap;
        case Intrinsic::eh_typeid_for: return n_typeid;
        case Intrinsic::x86_sse2_pmovmskb_128: return n_pmovmskb;
        case Intrinsic::x86_ssse3_pshuf_b_128: return n_pshufb;
        case Intrinsic::x86_ssse3_psign_b_128: return n_psignb;
        default: return nullptr;
        }
    }
    if (!F->isDeclaration()) return nullptr;
    auto it = natTab.find(F->getName().str());
    return it == natTab.end() ? nullptr : it->second;
}
