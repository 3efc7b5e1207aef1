// ---- execution (included inside struct Engine)
struct PathEnd { int why; }; // 0 ok, 1 assume/infeasible, 2 violation, 3 limit, 4 unsupported

std::string whereOf(State& s) {
    std::string r;
    if (s.cur < 0 || s.th.empty()) return r;
    auto& t = s.th[s.cur];
    int cnt = 0;
    for (int i = (int)t.fr.size() - 1; i >= 0 && cnt < 12; i--) {
        auto& f = t.fr[i];
        if (f.pc < 0 || f.pc >= (int)f.fn->code.size()) continue;
        const Instruction* I = f.fn->code[f.pc].I;
        if (!I) continue;
        if (DILocation* L = I->getDebugLoc().get()) {
            for (; L && cnt < 12; L = L->getInlinedAt()) {
                std::string fnm = L->getFilename().str();
                size_t p = fnm.rfind('/');
                if (!r.empty()) r += " < ";
                r += (p == std::string::npos ? fnm : fnm.substr(p + 1)) + ":" + std::to_string(L->getLine());
                cnt++;
            }
        } else { if (!r.empty()) r += " < "; r += f.fn->F->getName().str(); cnt++; }
    }
    return r;
}
[[noreturn]] void violation(State& s, const std::string& kind, const std::string& msg, const Model* m = nullptr) {
    addViolation(s, kind, msg, m);
    throw PathEnd{ 2 };
}
void addViolation(State& s, const std::string& kind, const std::string& msg, const Model* m = nullptr) {
    Violation v;
    v.kind = kind; v.msg = msg; v.where = whereOf(s);
    const Model& mm = m ? *m : *s.model;
    for (u32 si : s.syms) { v.vals.push_back({ P.syms[si].name, si < mm.v.size() ? mm.v[si] : 0 }); v.widths.push_back(P.syms[si].w); }
    viol.push_back(v);
}
[[noreturn]] void unsupported(State& s, const std::string& msg) {
    unsupMsgs[msg + " @ " + whereOf(s)]++;
    throw PathEnd{ 4 };
}

// ---------------------------------------------------------------- path conditions
std::shared_ptr<Model> mergeModel(State& s, const std::vector<std::pair<u32, u64>>& asg) {
    auto m = std::make_shared<Model>();
    m->uid = ++uidCtr;
    m->v = s.model->v;
    for (auto& [i, v] : asg) { if (i >= m->v.size()) m->v.resize(i + 1, 0); m->v[i] = v; }
    return m;
}
void pushWork(State* n) { n->depth++; forks++; work.push_back(n); }

std::map<std::string, u64> qlog;
// record e == v and what follows from it structurally
void learn(State& s, Expr* e, u64 v) {
    if (e->k == KConst) return;
    if (!s.known.emplace(e, v).second) return;
    u64 m = mask64(e->w);
    switch (e->k) {
    case KNot: learn(s, e->a, !v); break;
    case KAnd: if (e->w == 1 && v) { learn(s, e->a, 1); learn(s, e->b, 1); } break;
    case KOr: if (e->w == 1 && !v) { learn(s, e->a, 0); learn(s, e->b, 0); } break;
    case KXor: if (e->b->k == KConst) learn(s, e->a, v ^ (u64)e->b->cv); break;
    case KAdd: if (e->b->k == KConst) learn(s, e->a, (v - (u64)e->b->cv) & m); break;
    case KSub: if (e->b->k == KConst) learn(s, e->a, (v + (u64)e->b->cv) & m); break;
    case KZExt: case KSExt: learn(s, e->a, v & mask64(e->a->w)); break;
    case KConcat: if (e->w <= 64) { learn(s, e->b, v & mask64(e->b->w)); learn(s, e->a, (v >> e->b->w) & mask64(e->a->w)); } break;
    case KShl: if (e->b->k == KConst && (u64)e->b->cv < e->w) { unsigned c = (unsigned)e->b->cv; if (c == 0 || ((e->a->kz >> (e->w - c)) == (m >> (e->w - c)))) learn(s, e->a, v >> c); } break;
    case KMul: if (e->b->k == KConst && std::has_single_bit((u64)e->b->cv)) { unsigned c = std::countr_zero((u64)e->b->cv); if (c == 0 || ((e->a->kz >> (e->w - c)) == (m >> (e->w - c)))) learn(s, e->a, v >> c); } break;
    case KEq:
        if (v) {
            if (e->b->k == KConst) { if (e->b->w <= 64) learn(s, e->a, (u64)e->b->cv); }
            else if (e->a->k == KConst) { if (e->a->w <= 64) learn(s, e->b, (u64)e->a->cv); }
            else { Expr *x = e->a, *y = e->b; if (x->id < y->id) std::swap(x, y); s.subst.emplace(x, y); }
        }
        break;
    default: break;
    }
}
// rewrite e under the facts learned on this path
std::unordered_map<Expr*, Expr*> simpMemo;
Expr* simp(State& s, Expr* e) {
    if (s.known.empty() && s.subst.empty()) return e;
    simpMemo.clear();
    return simpRec(s, e);
}
Expr* simpRec(State& s, Expr* e) {
    if (e->k == KConst || e->fp) return e;
    auto it = s.known.find(e);
    if (it != s.known.end()) return P.cst(it->second, e->w);
    auto m = simpMemo.find(e);
    if (m != simpMemo.end()) return m->second;
    Expr* r = e;
    auto sb = s.subst.find(e);
    if (sb != s.subst.end()) r = simpRec(s, sb->second);
    else if (e->k != KSym) {
        Expr* a = e->a ? simpRec(s, e->a) : nullptr;
        if (e->k == KIte && a->k == KConst) r = simpRec(s, a->cv ? e->b : e->c);
        else {
            Expr* b = e->b ? simpRec(s, e->b) : nullptr;
            Expr* c = e->c ? simpRec(s, e->c) : nullptr;
            if (a != e->a || b != e->b || c != e->c) {
                switch (e->k) {
                case KNot: r = P.mkNot(a); break;
                case KIte: r = P.ite(a, b, c); break;
                case KConcat: r = P.concat(a, b); break;
                case KExtract: r = P.extract(a, e->aux, e->w); break;
                case KZExt: r = P.zext(a, e->w); break;
                case KSExt: r = P.sext(a, e->w); break;
                default: r = P.bin(e->k, a, b); break;
                }
                if (r != e && r->k != KConst) { auto k2 = s.known.find(r); if (k2 != s.known.end()) r = P.cst(k2->second, r->w); }
            }
        }
    }
    simpMemo.emplace(e, r);
    return r;
}
bool decide(State& s, Expr* c0) {
    if (c0->k == KConst) return c0->cv;
    auto it = s.known.find(c0);
    if (it != s.known.end()) return it->second;
    Expr* c = simp(s, c0);
    if (c->k == KConst) { s.known[c0] = (u64)c->cv; return c->cv; }
    bool v = P.eval(c, *s.model);
    Expr* other = v ? P.mkNot(c) : c;
    std::vector<std::pair<u32, u64>> asg;
    Res r = SLV->check(s.cons, other, s.syms, asg);
    if (O.verbose > 1) qlog[whereOf(s).substr(0, 80) + (r == SAT ? " SAT" : " UNSAT")]++;
    if (r == SAT) {
        State* n = new State(s);
        n->model = mergeModel(s, asg);
        n->cons.push_back(other);
        learn(*n, c, !v);
        n->known[c0] = !v;
        pushWork(n);
        s.cons.push_back(v ? c : P.mkNot(c));
    }
    learn(s, c, v);
    s.known[c0] = v;
    return v;
}
// can c be true on this path?  (no fork)
Res feasible(State& s, Expr* c, std::vector<std::pair<u32, u64>>& asg) {
    c = simp(s, c);
    if (c->k == KConst) return c->cv ? SAT : UNSAT;
    if (P.eval(c, *s.model)) return SAT;
    return SLV->check(s.cons, c, s.syms, asg);
}
void assume(State& s, Expr* c0) {
    Expr* c = simp(s, c0);
    if (c->k == KConst) { if (!c->cv) throw PathEnd{ 1 }; return; }
    if (!P.eval(c, *s.model)) {
        std::vector<std::pair<u32, u64>> asg;
        Res r = SLV->check(s.cons, c, s.syms, asg);
        if (r != SAT) throw PathEnd{ 1 };
        s.model = mergeModel(s, asg);
    }
    s.cons.push_back(c);
    learn(s, c, 1);
    s.known[c0] = 1;
}
u64 concretize(State& s, Expr* e0) {
    if (e0->k == KConst) return (u64)e0->cv;
    auto it = s.known.find(e0);
    if (it != s.known.end()) return it->second;
    Expr* e = simp(s, e0);
    if (e->k == KConst) { s.known[e0] = (u64)e->cv; return (u64)e->cv; }
    u64 v = (u64)P.eval(e, *s.model);
    Expr* eq = P.bin(KEq, e, P.cst(v, e->w));
    if (eq->k != KConst) {
        std::vector<std::pair<u32, u64>> asg;
        Res r = SLV->check(s.cons, P.mkNot(eq), s.syms, asg);
        if (O.verbose > 1) qlog[whereOf(s).substr(0, 80) + (r == SAT ? " CSAT" : " CUNSAT")]++;
        if (r == SAT) {
            State* n = new State(s);
            n->model = mergeModel(s, asg);
            n->cons.push_back(P.mkNot(eq));
            n->known[eq] = 0;
            pushWork(n);
            s.cons.push_back(eq);
        }
        s.known[eq] = 1;
    }
    learn(s, e, v);
    s.known[e0] = v;
    return v;
}
u64 conc(State& s, const Val& v) { return v.e ? concretize(s, v.e) : v.c; }

// ---------------------------------------------------------------- memory
ObjRef* objAt(State& s, u64 a) {
    if (a >= HBASE && a < SBASE) {
        u64 i = (a - HBASE) >> SLOT;
        return i < s.heap.size() ? &s.heap[i] : nullptr;
    }
    if (a >= GBASE && a < HBASE) {
        u64 i = (a - GBASE) >> SLOT;
        return i < s.glob.size() ? &s.glob[i] : nullptr;
    }
    if (a >= SBASE) {
        u64 r = a - SBASE;
        u64 t = r >> 40, i = (r & ((1ull << 40) - 1)) >> SLOT;
        if (t < s.th.size() && i < s.th[t].stk.size()) return &s.th[t].stk[i];
    }
    return nullptr;
}
Obj* writable(ObjRef& r) {
    if (r.p->rc > 1) { Obj* n = new Obj(*r.p); n->rc = 0; r = ObjRef(n); }
    return r.p;
}
u64 allocHeap(State& s, u64 size, OKind k) {
    u64 slots = (size + 2 * SLOTOFF + (1ull << SLOT) - 1) >> SLOT;
    Obj* o = new Obj();
    o->base = HBASE + ((u64)s.heap.size() << SLOT) + SLOTOFF;
    o->size = size; o->kind = k;
    o->b.assign(size, 0xCD);
    ObjRef r(o);
    for (u64 i = 0; i < slots; i++) s.heap.push_back(r);
    if (slots > 1) { r.p->rc += 1000000; } // multi-slot objects are never COW-shared by slot: handled in writableAt
    if (k != OExc) { s.live++; if (s.live > maxLive) maxLive = s.live; }
    return o->base;
}
Obj* writableAt(State& s, u64 addr) {
    ObjRef* r = objAt(s, addr);
    Obj* o = r->p;
    u64 slots = (o->size + 2 * SLOTOFF + (1ull << SLOT) - 1) >> SLOT;
    if (o->kind >= OHeapNew && o->kind <= OHeapMalloc && slots > 1) {
        Obj* n = new Obj(*o); n->rc = 0; ObjRef nr(n); n->rc += 1000000; // always clone (rare)
        u64 i = (o->base - HBASE) >> SLOT;
        for (u64 k = 0; k < slots; k++) s.heap[i + k] = nr;
        return n;
    }
    return writable(*r);
}
u64 allocStack(State& s, u64 size) {
    Thread& t = s.th[s.cur];
    Obj* o = new Obj();
    if (size > (1ull << SLOT) - 2 * SLOTOFF) unsupported(s, "large alloca");
    o->base = SBASE + ((u64)s.cur << 40) + ((u64)t.stk.size() << SLOT) + SLOTOFF;
    o->size = size; o->kind = OStack;
    o->b.assign(size, 0xCD);
    t.stk.push_back(ObjRef(o));
    return o->base;
}

struct Acc { u64 addr; u64 off; Expr* offE = nullptr; std::vector<u64> cands; Obj* o; };

void memErr(State& s, u64 a, u64 n, bool wr, const Model* m = nullptr) {
    ObjRef* r = objAt(s, a);
    std::string k = wr ? "write" : "read";
    char buf[128];
    if (a < 0x10000) violation(s, "memory", "null pointer " + k, m);
    if (r && r->p && r->p->freed) violation(s, "memory", "use after free (" + k + ")", m);
    if (r && r->p) { snprintf(buf, sizeof buf, "out of bounds %s of %lu bytes at offset %ld of a %lu byte object", k.c_str(), n, (long)(a - r->p->base), r->p->size); violation(s, "memory", buf, m); }
    snprintf(buf, sizeof buf, "wild pointer %s at 0x%lx", k.c_str(), a);
    violation(s, "memory", buf, m);
}

Acc resolve(State& s, const Val& p, u64 n, bool wr) {
    Acc A;
    u64 a = p.c;
    Expr* pe = p.e;
    if (pe) { pe = simp(s, pe); if (pe->k == KConst) { a = (u64)pe->cv; pe = nullptr; } }
    if (!pe) {
        ObjRef* r = objAt(s, a);
        if (!r || !r->p || r->p->freed || a < r->p->base || a + n > r->p->base + r->p->size) memErr(s, a, n, wr);
        if (wr && r->p->kind == OConst) violation(s, "memory", "write to constant memory");
        A.o = r->p; A.addr = a; A.off = a - r->p->base;
        return A;
    }
    // symbolic address
    if (pe->k == KIte && (pe->b->k == KConst || pe->c->k == KConst || pe->b->k == KIte || pe->c->k == KIte)) {
        // select between pointers: split on the condition
        Val q = decide(s, pe->a) ? fromE(pe->b) : fromE(pe->c);
        return resolve(s, q, n, wr);
    }
    a = (u64)P.eval(pe, *s.model);
    ObjRef* r = objAt(s, a);
    if (!r || !r->p || r->p->freed || a < r->p->base || a + n > r->p->base + r->p->size) memErr(s, a, n, wr);
    Obj* o = r->p;
    if (wr && o->kind == OConst) violation(s, "memory", "write to constant memory");
    Expr* offE = P.bin(KSub, pe, P.cst(o->base, 64));
    Expr* inb = P.bin(KUle, offE, P.cst(o->size - n, 64));
    if (!decide(s, inb)) { // cannot happen: model says in bounds
        unsupported(s, "resolve");
    }
    if (offE->k == KConst) { A.o = o; A.addr = a; A.off = (u64)offE->cv; return A; }
    // candidate offsets by known bits
    u64 unk = ~(offE->kz | offE->ko);
    int limit = wr ? O.writeLimit : O.readLimit;
    bool doFork = wr ? O.forkWrite : O.forkRead;
    if (!doFork && std::popcount(unk) <= 12) {
        // enumerate subsets
        u64 sub = 0;
        std::vector<u64> c;
        bool over = false;
        do {
            u64 off = offE->ko | sub;
            if (off + n <= o->size) { c.push_back(off); if ((int)c.size() > limit) { over = true; break; } }
            sub = (sub - unk) & unk;
        } while (sub);
        if (!over && !c.empty()) {
            A.o = o; A.addr = a; A.offE = offE; A.cands = std::move(c);
            return A;
        }
    }
    u64 v = concretize(s, pe);
    s.known[pe] = v;
    A.o = o; A.addr = v; A.off = v - o->base;
    return A;
}

Val rdBytes(Obj* o, u64 off, unsigned w) {
    unsigned nb = (w + 7) / 8;
    if (!o->s.empty()) {
        bool sym = false;
        for (unsigned i = 0; i < nb; i++) if (o->s[off + i].e) { sym = true; break; }
        if (sym) {
            Cell& c0 = o->s[off];
            if (c0.e && c0.idx == 0 && c0.e->w == nb * 8) {
                bool ok = true;
                for (unsigned i = 1; i < nb; i++) if (o->s[off + i].e != c0.e || o->s[off + i].idx != i) { ok = false; break; }
                if (ok) return fromE(w == nb * 8 ? c0.e : P.extract(c0.e, 0, w));
            }
            auto byteE = [&](u64 i) { Cell& c = o->s[i]; return c.e ? P.extract(c.e, c.idx * 8, 8) : P.cst(o->b[i], 8); };
            // gather runs from the most significant byte down
            Expr* r = nullptr;
            for (int i = (int)nb - 1; i >= 0; i--) { Expr* b = byteE(off + i); r = r ? P.concat(r, b) : b; }
            if (w != nb * 8) r = P.extract(r, 0, w);
            return fromE(r);
        }
    }
    if (w <= 64) {
        u64 v = 0;
        memcpy(&v, &o->b[off], nb);
        return CV(v & mask64(w));
    }
    u128 v = 0;
    memcpy(&v, &o->b[off], nb);
    return mkC(v, w);
}
void wrBytes(Obj* o, u64 off, unsigned w, const Val& v) {
    unsigned nb = (w + 7) / 8;
    Expr* e = v.e;
    if (e && e->k == KConst) {
        u128 x = e->cv;
        memcpy(&o->b[off], &x, nb);
        if (!o->s.empty()) for (unsigned i = 0; i < nb; i++) o->s[off + i].e = nullptr;
        return;
    }
    if (!e) {
        u64 x = v.c;
        memcpy(&o->b[off], &x, nb);
        if (!o->s.empty()) for (unsigned i = 0; i < nb; i++) o->s[off + i].e = nullptr;
        return;
    }
    if (e->w != nb * 8) e = P.zext(e, nb * 8);
    if (o->s.empty()) o->s.assign(o->size, Cell{ nullptr, 0 });
    for (unsigned i = 0; i < nb; i++) { o->s[off + i] = Cell{ e, i }; }
}
void loadLane(State& s, Acc& A, u64 laneOff, unsigned w, Val& out) {
    if (!A.offE) { out = rdBytes(A.o, A.off + laneOff, w); return; }
    Expr* r = nullptr;
    for (size_t i = A.cands.size(); i-- > 0;) {
        Expr* v = ex(rdBytes(A.o, A.cands[i] + laneOff, w), w);
        r = r ? P.ite(P.bin(KEq, A.offE, P.cst(A.cands[i], 64)), v, r) : v;
    }
    out = fromE(r);
}
void storeLane(State& s, Acc& A, Obj* o, u64 laneOff, unsigned w, const Val& v) {
    if (!A.offE) { wrBytes(o, A.off + laneOff, w, v); return; }
    unsigned ww = ((w + 7) / 8) * 8;
    Expr* nv = P.zext(ex(v, w), ww);
    for (u64 c : A.cands) {
        Expr* old = ex(rdBytes(o, c + laneOff, ww), ww);
        wrBytes(o, c + laneOff, ww, fromE(P.ite(P.bin(KEq, A.offE, P.cst(c, 64)), nv, old)));
    }
}
void raceAcc(State& s, Acc& A, u64 n, bool wr, bool atomic) {
    if (!s.mt() || !O.races) return;
    if (A.addr >= SBASE && (int)((A.addr - SBASE) >> 40) == s.cur && s.cur != 0) return;
    int tid = s.cur;
    Thread& t = s.th[tid];
    Obj* o = writableAt(s, A.addr);
    A.o = o;
    if (o->sh.empty()) o->sh.assign(o->size, Shadow{ 0, -1, { 0, 0, 0, 0 } });
    u64 lo = A.off, hi = A.off + n;
    if (A.offE) { lo = A.cands.front(); hi = A.cands.back() + n; }
    for (u64 i = lo; i < hi; i++) {
        Shadow& h = o->sh[i];
        if (h.wtid >= 0 && h.wtid != tid && h.wclk > vcGet(t.vc, h.wtid)) violation(s, "data race", std::string(wr ? "write" : "read") + " races with an unsynchronised earlier write by another thread");
        if (wr && !atomic)
            for (int u = 0; u < 4; u++)
                if (u != tid && h.rclk[u] > vcGet(t.vc, u)) violation(s, "data race", "write races with an unsynchronised earlier access by another thread");
        if (wr && !atomic) { h.wtid = (int16_t)tid; h.wclk = vcGet(t.vc, tid); }
        else h.rclk[tid] = vcGet(t.vc, tid);
    }
}
static u32 vcGet(const VC& v, int i) { return i < (int)v.size() ? v[i] : 0; }
static void vcJoin(VC& a, const VC& b) {
    if (a.size() < b.size()) a.resize(b.size(), 0);
    for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]);
}
void vcInc(State& s) { auto& t = s.th[s.cur]; if ((int)t.vc.size() <= s.cur) t.vc.resize(s.cur + 1, 0); t.vc[s.cur]++; }

// plain helpers used by natives
Val loadVal(State& s, const Val& p, unsigned w) {
    Acc A = resolve(s, p, (w + 7) / 8, false);
    raceAcc(s, A, (w + 7) / 8, false, false);
    Val v; loadLane(s, A, 0, w, v); return v;
}
void storeVal(State& s, const Val& p, unsigned w, const Val& v) {
    Acc A = resolve(s, p, (w + 7) / 8, true);
    raceAcc(s, A, (w + 7) / 8, true, false);
    Obj* o = writableAt(s, A.addr);
    storeLane(s, A, o, 0, w, v);
}
void memCopy(State& s, const Val& d, const Val& sr, u64 n, bool overlapOk) {
    if (!n) return;
    Acc B = resolve(s, sr, n, false);
    if (B.offE) { u64 v = concretize(s, sr.e); B = resolve(s, CV(v), n, false); }
    Acc A = resolve(s, d, n, true);
    if (A.offE) { u64 v = concretize(s, d.e); A = resolve(s, CV(v), n, true); }
    if (!overlapOk && A.addr != B.addr && A.addr < B.addr + n && B.addr < A.addr + n) violation(s, "memory", "memcpy with overlapping ranges");
    raceAcc(s, B, n, false, false);
    raceAcc(s, A, n, true, false);
    std::vector<u8> tmp(n);
    std::vector<Cell> tc;
    Obj* so = objAt(s, B.addr)->p;
    memcpy(tmp.data(), &so->b[B.off], n);
    if (!so->s.empty()) tc.assign(so->s.begin() + B.off, so->s.begin() + B.off + n);
    Obj* o = writableAt(s, A.addr);
    memcpy(&o->b[A.off], tmp.data(), n);
    if (!tc.empty()) {
        if (o->s.empty()) o->s.assign(o->size, Cell{ nullptr, 0 });
        std::copy(tc.begin(), tc.end(), o->s.begin() + A.off);
    } else if (!o->s.empty()) for (u64 i = 0; i < n; i++) o->s[A.off + i].e = nullptr;
}

// ---------------------------------------------------------------- frames
inline const Val& G(Thread& t, Frame& f, int op, int lane = 0) { return op >= 0 ? t.regs[f.base + op + lane] : f.fn->consts[~op + lane]; }
void takeEdge(Thread& t, Frame& f, int e) {
    Edge& E = f.fn->edges[e];
    if (!E.moves.empty()) {
        if (E.moves.size() == 1) {
            Move& m = E.moves[0];
            if (m.n == 1) t.regs[f.base + m.dst] = G(t, f, m.src);
            else { tmpV.clear(); for (int k = 0; k < m.n; k++) tmpV.push_back(G(t, f, m.src, k)); for (int k = 0; k < m.n; k++) t.regs[f.base + m.dst + k] = tmpV[k]; }
        } else {
            tmpV.clear();
            for (auto& m : E.moves) for (int k = 0; k < m.n; k++) tmpV.push_back(G(t, f, m.src, k));
            size_t i = 0;
            for (auto& m : E.moves) for (int k = 0; k < m.n; k++) t.regs[f.base + m.dst + k] = tmpV[i++];
        }
    }
    f.pc = E.target;
}
std::vector<Val> tmpV;
void pushFrame(State& s, Fn* fn, const std::vector<Val>& args) {
    if (!fn->decoded) { if (fn->F->isDeclaration()) unsupported(s, "external function " + fn->F->getName().str()); decode(fn); }
    fn->calls++;
    Thread& t = s.th[s.cur];
    if (t.fr.size() > 2000) violation(s, "recursion", "unbounded recursion");
    Frame f;
    f.fn = fn; f.pc = 0; f.base = (int)t.regs.size(); f.stackMark = (int)t.stk.size();
    t.regs.resize(t.regs.size() + fn->nregs, Val{ 0, nullptr });
    for (size_t i = 0; i < args.size() && i < (size_t)fn->nregs; i++) t.regs[f.base + i] = args[i];
    t.fr.push_back(f);
}
void popFrame(State& s) {
    Thread& t = s.th[s.cur];
    Frame& f = t.fr.back();
    t.stk.resize(f.stackMark);
    t.regs.resize(f.base);
    t.fr.pop_back();
}
void afterCall(Thread& t, Frame& f, Inst& x) { if (x.e1 >= 0) takeEdge(t, f, x.e1); else f.pc++; }

// ---------------------------------------------------------------- exceptions
bool typeMatch(State& s, u64 thrown, u64 want) {
    for (int d = 0; d < 16 && thrown; d++) {
        if (thrown == want) return true;
        auto it = typeinfoBase.find(thrown);
        if (it == typeinfoBase.end()) return false;
        thrown = it->second;
    }
    return false;
}
int typeId(u64 ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int n = (int)typeIds.size() + 1; typeIds[ti] = n; return n; }
// unwind with exception object exc; the current frame's instruction is the call/resume that raises.
void unwind(State& s, u64 exc, bool fromResume) {
    Thread& t = s.th[s.cur];
    u64 ti = s.excs[exc].ti;
    bool first = true;
    while (!t.fr.empty()) {
        Frame& f = t.fr.back();
        Inst& x = f.fn->code[f.pc];
        if (x.op == OpCall && x.e2 >= 0 && !(first && fromResume)) {
            takeEdge(t, f, x.e2);
            Inst& lp = f.fn->code[f.pc];
            if (lp.op != OpLandingPad) unsupported(s, "landing pad expected");
            auto* L = cast<LandingPadInst>(lp.I);
            int sel = 0;
            bool enter = L->isCleanup();
            for (unsigned i = 0; i < L->getNumClauses(); i++) {
                if (L->isCatch(i)) {
                    Constant* c = L->getClause(i);
                    if (isa<ConstantPointerNull>(c)) { sel = typeId(0); enter = true; break; }
                    std::vector<Val> v; constVals(c, v);
                    if (typeMatch(s, ti, v[0].c)) { sel = typeId(v[0].c); enter = true; break; }
                } else { sel = -1; enter = true; break; }
            }
            if (enter) {
                t.regs[f.base + lp.dst] = CV(exc);
                t.regs[f.base + lp.dst + 1] = CV((u64)(u32)sel);
                f.pc++;
                return;
            }
        }
        first = false;
        if (t.fr.size() == 1) violation(s, "exception", "uncaught exception");
        popFrame(s);
    }
}

// ---------------------------------------------------------------- threads
bool lockable(State& s, Thread& t, int tid) {
    auto it = s.mtx.find(t.waitOn);
    if (it == s.mtx.end()) return true;
    if (it->second.owner >= 0) return false;
    if (!t.waitShared && !it->second.readers.empty()) return false;
    return true;
}
bool enabled(State& s, int i) {
    Thread& t = s.th[i];
    switch (t.st) {
    case TRun: return true;
    case TDone: return false;
    case TBlockMutex: return lockable(s, t, i);
    case TBlockJoin: for (size_t k = 0; k < s.th.size(); k++) if ((int)k != i && s.th[k].st != TDone) return false; return true;
    }
    return false;
}
u32 freshSym(State& s, const std::string& name, unsigned w) {
    auto key = std::make_pair((u32)s.syms.size(), name + "/" + std::to_string(w));
    auto it = symTab.find(key);
    u32 id;
    if (it == symTab.end()) { id = P.newSym(name, w); symTab[key] = id; } else id = it->second;
    s.syms.push_back(id);
    if (id < s.model->v.size() && s.model->v[id] != 0) {
        // symbol shared with a sibling path may carry a value in the inherited model; keep it (any value is fine)
    }
    return id;
}
// n-way choice on a fresh symbol.  Returns the alternative taken by this state; siblings are forked
// with `apply(state, i)` already executed.
template <class F> void chooseFork(State& s, const char* name, unsigned n, F apply) {
    u32 id = freshSym(s, name, 8);
    Expr* e = P.syms[id].e;
    for (unsigned i = n; i-- > 0;) {
        Expr* eq = P.bin(KEq, e, P.cst(i, 8));
        if (i == 0) {
            s.cons.push_back(eq); s.known[e] = 0;
            s.model = mergeModel(s, { { id, 0 } });
            apply(s, 0);
        } else {
            State* c = new State(s);
            c->cons.push_back(eq); c->known[e] = i;
            c->model = mergeModel(s, { { id, i } });
            apply(*c, i);
            pushWork(c);
        }
    }
}
void switchTo(State& s, int i) {
    Thread& t = s.th[i];
    if (t.st == TBlockJoin) { for (auto& o : s.th) vcJoin(t.vc, o.vc); }
    t.st = TRun;
    s.cur = i;
    t.schedDone = true;
}
// pick a next thread (current one not runnable or decision point). includeCur: current may continue.
void schedule(State& s) {
    std::vector<int> en;
    for (size_t i = 0; i < s.th.size(); i++) if (enabled(s, (int)i)) en.push_back((int)i);
    if (en.empty()) violation(s, "deadlock", "all threads are blocked");
    // prefer the current thread as alternative 0
    for (size_t i = 0; i < en.size(); i++) if (en[i] == s.cur) std::swap(en[0], en[i]);
    if (en.size() == 1) { switchTo(s, en[0]); return; }
    int me = s.cur; bool free_ = en[0] != me; // a switch away from a thread that could continue is a preemption
    unsigned alts = O.preempt >= 0 && !free_ && s.preempts >= O.preempt ? 1 : (unsigned)en.size();
    chooseFork(s, "sched", alts, [&](State& n, unsigned i) { if (!free_ && i) n.preempts++; switchTo(n, en[i]); });
}
// scheduling point before a visible operation; returns true if the operation may proceed now.
bool schedPoint(State& s) {
    if (!s.mt()) return true;
    Thread& t = s.th[s.cur];
    if (t.schedDone) { t.schedDone = false; return true; }
    int me = s.cur;
    schedule(s);
    if (s.cur == me) { s.th[me].schedDone = false; return true; }
    return false;
}

// ---------------------------------------------------------------- arithmetic helpers
Val binop(EK k, const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e && w <= 64) {
        u64 x = a.c, y = b.c, m = mask64(w);
        switch (k) {
        case KAdd: return CV((x + y) & m);
        case KSub: return CV((x - y) & m);
        case KMul: return CV((x * y) & m);
        case KAnd: return CV(x & y);
        case KOr: return CV(x | y);
        case KXor: return CV(x ^ y);
        case KShl: return CV(y >= w ? 0 : (x << y) & m);
        case KLShr: return CV(y >= w ? 0 : x >> y);
        default: return mkC(ExprPool::foldBin(k, x, y, w), w);
        }
    }
    return fromE(P.bin(k, ex(a, w), ex(b, w)));
}
Val icmp(unsigned pred, const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e) {
        u64 x = a.c, y = b.c;
        switch (pred) {
        case CmpInst::ICMP_EQ: return CV(x == y);
        case CmpInst::ICMP_NE: return CV(x != y);
        case CmpInst::ICMP_ULT: return CV(x < y);
        case CmpInst::ICMP_ULE: return CV(x <= y);
        case CmpInst::ICMP_UGT: return CV(x > y);
        case CmpInst::ICMP_UGE: return CV(x >= y);
        case CmpInst::ICMP_SLT: return CV(sext64(x, w) < sext64(y, w));
        case CmpInst::ICMP_SLE: return CV(sext64(x, w) <= sext64(y, w));
        case CmpInst::ICMP_SGT: return CV(sext64(x, w) > sext64(y, w));
        case CmpInst::ICMP_SGE: return CV(sext64(x, w) >= sext64(y, w));
        }
    }
    Expr *x = ex(a, w), *y = ex(b, w);
    switch (pred) {
    case CmpInst::ICMP_EQ: return fromE(P.bin(KEq, x, y));
    case CmpInst::ICMP_NE: return fromE(P.mkNot(P.bin(KEq, x, y)));
    case CmpInst::ICMP_ULT: return fromE(P.bin(KUlt, x, y));
    case CmpInst::ICMP_ULE: return fromE(P.bin(KUle, x, y));
    case CmpInst::ICMP_UGT: return fromE(P.bin(KUlt, y, x));
    case CmpInst::ICMP_UGE: return fromE(P.bin(KUle, y, x));
    case CmpInst::ICMP_SLT: return fromE(P.bin(KSlt, x, y));
    case CmpInst::ICMP_SLE: return fromE(P.bin(KSle, x, y));
    case CmpInst::ICMP_SGT: return fromE(P.bin(KSlt, y, x));
    case CmpInst::ICMP_SGE: return fromE(P.bin(KSle, y, x));
    }
    abort();
}
Val truncV(const Val& v, unsigned from, unsigned to) { if (!v.e) return CV(v.c & mask64(to)); return fromE(P.extract(v.e, 0, to)); }
Val zextV(const Val& v, unsigned from, unsigned to) { if (!v.e) return to <= 64 ? v : mkC(v.c, to); return fromE(P.zext(v.e, to)); }
Val sextV(const Val& v, unsigned from, unsigned to) {
    if (!v.e && to <= 64) return CV((u64)sext64(v.c, from) & mask64(to));
    return fromE(P.sext(ex(v, from), to));
}
Val iteV(Expr* c, const Val& a, const Val& b, unsigned w) {
    if (!a.e && !b.e && w <= 64 && a.c == b.c) return a;
    return fromE(P.ite(c, ex(a, w), ex(b, w)));
}
void atomicSync(State& s, u64 addr, unsigned ord, bool isLoad, bool isStore) {
    if (!s.mt()) return;
    Thread& t = s.th[s.cur];
    auto& A = s.atoms[addr];
    auto o = (AtomicOrdering)ord;
    bool acq = isLoad && (o == AtomicOrdering::Acquire || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent);
    bool rel = isStore && (o == AtomicOrdering::Release || o == AtomicOrdering::AcquireRelease || o == AtomicOrdering::SequentiallyConsistent);
    if (acq) vcJoin(t.vc, A.rel);
    if (rel) { if (isLoad) vcJoin(A.rel, t.vc); else A.rel = t.vc; vcInc(s); }
    else if (isStore && !isLoad) A.rel.clear();
}

// Predicated execution of a small branch body: both outcomes are kept in one path as if-then-else terms.
bool predicated(State& s, Thread& t, Frame& f, Inst& x, Expr* c) {
    Fn* fn = f.fn;
    Edge& in = fn->edges[x.tri == 1 ? x.e1 : x.e2];
    Expr* g = x.tri == 1 ? c : P.mkNot(c);
    struct W { u64 addr; unsigned w; Val v; };
    std::vector<W> ws;
    int pc = in.target;
    auto R = [&](int op, int lane = 0) -> const Val& { return G(t, f, op, lane); };
    auto okAddr = [&](const Val& p, u64 n, bool wr) {
        if (p.e) return false;
        ObjRef* r = objAt(s, p.c);
        if (!r || !r->p || r->p->freed || p.c < r->p->base || p.c + n > r->p->base + r->p->size) return false;
        return !(wr && r->p->kind == OConst);
    };
    for (;; pc++) {
        Inst& y = fn->code[pc];
        Val* D = y.dst >= 0 ? &t.regs[f.base + y.dst] : nullptr;
        switch (y.op) {
        case OpBin: *D = binop((EK)y.sub, R(y.a), R(y.b), y.w); break;
        case OpICmp: *D = icmp(y.sub, R(y.a), R(y.b), y.w2); break;
        case OpTrunc: *D = truncV(R(y.a), y.w2, y.w); break;
        case OpZExt: *D = zextV(R(y.a), y.w2, y.w); break;
        case OpSExt: *D = sextV(R(y.a), y.w2, y.w); break;
        case OpSelect: { const Val& q = R(y.a); *D = !q.e ? (q.c ? R(y.b) : R(y.c)) : iteV(q.e, R(y.b), R(y.c), y.w); break; }
        case OpGEP: {
            Val p = R(y.a);
            if (y.imm) p = binop(KAdd, p, CV((u64)y.imm), 64);
            for (auto& q : y.gep) { Val i = R(q.op); if (q.w < 64) i = sextV(i, q.w, 64); else if (q.w > 64) return false; p = binop(KAdd, p, binop(KMul, i, CV(q.scale), 64), 64); }
            *D = p;
            break;
        }
        case OpLoad: {
            if (!ws.empty() || !okAddr(R(y.a), y.ty->size, false)) return false;
            Acc A = resolve(s, R(y.a), y.ty->size, false);
            loadLane(s, A, 0, y.ty->l[0].w, *D);
            break;
        }
        case OpStore: if (!okAddr(R(y.a), y.ty->size, true) || y.ty->l[0].w > 64) return false; ws.push_back({ R(y.a).c, y.ty->l[0].w, R(y.b) }); break;
        case OpBr: {
            Edge &et = fn->edges[y.e1], &eo = fn->edges[x.tri == 1 ? x.e2 : x.e1];
            for (auto& m : et.moves) if (m.n != 1 || !m.w) return false;
            for (auto& w : ws) {
                u64 n = (w.w + 7) / 8;
                Acc A = resolve(s, CV(w.addr), n, true);
                Val old; loadLane(s, A, 0, w.w, old);
                Obj* o = writableAt(s, A.addr);
                storeLane(s, A, o, 0, w.w, iteV(g, w.v, old, w.w));
            }
            std::vector<Val> nv;
            for (size_t i = 0; i < et.moves.size(); i++) nv.push_back(iteV(g, R(et.moves[i].src), R(eo.moves[i].src), et.moves[i].w));
            for (size_t i = 0; i < et.moves.size(); i++) t.regs[f.base + et.moves[i].dst] = nv[i];
            for (int q = in.target; q <= pc; q++) fn->code[q].cov = true;
            f.pc = et.target;
            merged++;
            return true;
        }
        default: return false;
        }
    }
}
u64 merged = 0;

// ---------------------------------------------------------------- the interpreter
void step(State& s) {
    Thread& t = s.th[s.cur];
    Frame& f = t.fr.back();
    Inst& x = f.fn->code[f.pc];
    x.cov = true;
    s.insts++;
    auto R = [&](int op, int lane = 0) -> const Val& { return G(t, f, op, lane); };
    Val* D = x.dst >= 0 ? &t.regs[f.base + x.dst] : nullptr;
    switch (x.op) {
    case OpBin: {
        EK k = (EK)x.sub;
        if (k >= KUDiv && k <= KSRem) {
            for (int i = 0; i < x.n; i++) {
                Val z = icmp(CmpInst::ICMP_EQ, R(x.b, i), mkC(0, x.w), x.w);
                if (z.e ? decide(s, z.e) : z.c) violation(s, "arithmetic", "division by zero");
            }
        }
        for (int i = 0; i < x.n; i++) D[i] = binop(k, R(x.a, i), R(x.b, i), x.w);
        f.pc++;
        break;
    }
    case OpICmp: for (int i = 0; i < x.n; i++) D[i] = icmp(x.sub, R(x.a, i), R(x.b, i), x.w2); f.pc++; break;
    case OpTrunc: for (int i = 0; i < x.n; i++) D[i] = truncV(R(x.a, i), x.w2, x.w); f.pc++; break;
    case OpZExt: for (int i = 0; i < x.n; i++) D[i] = zextV(R(x.a, i), x.w2, x.w); f.pc++; break;
    case OpSExt: for (int i = 0; i < x.n; i++) D[i] = sextV(R(x.a, i), x.w2, x.w); f.pc++; break;
    case OpCopy: for (int i = 0; i < x.n; i++) D[i] = R(x.a, i); f.pc++; break;
    case OpBitcastLanes: {
        int sn = (int)x.imm;
        std::vector<Val> out(x.n);
        if (x.w2 > x.w) { // split
            int k = x.w2 / x.w;
            for (int i = 0; i < x.n; i++) {
                const Val& v = R(x.a, i / k);
                out[i] = v.e ? fromE(P.extract(v.e, (i % k) * x.w, x.w)) : CV((v.c >> ((i % k) * x.w)) & mask64(x.w));
            }
        } else { // join
            int k = x.w / x.w2;
            for (int i = 0; i < x.n; i++) {
                bool conc = x.w <= 64;
                for (int j = 0; j < k && conc; j++) if (R(x.a, i * k + j).e) conc = false;
                if (conc) { u64 v = 0; for (int j = 0; j < k; j++) v |= R(x.a, i * k + j).c << (j * x.w2); out[i] = CV(v); }
                else {
                    Expr* r = nullptr;
                    for (int j = k - 1; j >= 0; j--) { Expr* e = ex(R(x.a, i * k + j), x.w2); r = r ? P.concat(r, e) : e; }
                    out[i] = fromE(r);
                }
            }
        }
        (void)sn;
        for (int i = 0; i < x.n; i++) D[i] = out[i];
        f.pc++;
        break;
    }
    case OpSelect: {
        for (int i = 0; i < x.n; i++) {
            const Val& c = R(x.a, x.flag ? i : 0);
            if (!c.e) D[i] = c.c ? R(x.b, i) : R(x.c, i);
            else {
                auto it = s.known.find(c.e);
                if (it != s.known.end()) D[i] = it->second ? R(x.b, i) : R(x.c, i);
                else D[i] = iteV(c.e, R(x.b, i), R(x.c, i), x.ty->l[i].w);
            }
        }
        f.pc++;
        break;
    }
    case OpLoad: {
        if (x.sub && !schedPoint(s)) return;
        Acc A = resolve(s, R(x.a), x.ty->size, false);
        raceAcc(s, A, x.ty->size, false, x.sub != 0);
        if (x.sub) atomicSync(s, A.addr, x.sub, true, false);
        Val* D2 = &t.regs[f.base + x.dst];
        if (x.ty->packedBits) {
            unsigned bw = x.ty->l[0].w, tot = bw * (unsigned)x.ty->l.size();
            Val v; loadLane(s, A, 0, tot, v);
            for (size_t i = 0; i < x.ty->l.size(); i++) D2[i] = fromE(P.extract(ex(v, tot), (unsigned)i * bw, bw));
        } else
            for (size_t i = 0; i < x.ty->l.size(); i++) loadLane(s, A, x.ty->l[i].off, x.ty->l[i].w, D2[i]);
        f.pc++;
        break;
    }
    case OpStore: {
        if (x.sub && !schedPoint(s)) return;
        Acc A = resolve(s, R(x.a), x.ty->size, true);
        raceAcc(s, A, x.ty->size, true, x.sub != 0);
        if (x.sub) atomicSync(s, A.addr, x.sub, false, true);
        Obj* o = writableAt(s, A.addr);
        if (x.ty->packedBits) {
            unsigned bw = x.ty->l[0].w;
            Expr* r = nullptr;
            for (size_t i = x.ty->l.size(); i-- > 0;) { Expr* e = ex(R(x.b, (int)i), bw); r = r ? P.concat(r, e) : e; }
            storeLane(s, A, o, 0, r->w, fromE(r));
        } else
            for (size_t i = 0; i < x.ty->l.size(); i++) storeLane(s, A, o, x.ty->l[i].off, x.ty->l[i].w, R(x.b, (int)i));
        f.pc++;
        break;
    }
    case OpGEP: {
        Val p = R(x.a);
        if (x.imm) p = binop(KAdd, p, CV((u64)x.imm), 64);
        for (auto& g : x.gep) {
            Val i = R(g.op);
            if (g.w < 64) i = sextV(i, g.w, 64); else if (g.w > 64) i = truncV(i, g.w, 64);
            p = binop(KAdd, p, binop(KMul, i, CV(g.scale), 64), 64);
        }
        *D = p;
        f.pc++;
        break;
    }
    case OpBr: takeEdge(t, f, x.e1); break;
    case OpCondBr: {
        const Val& c = R(x.a);
        if (c.e && O.merge && x.tri && !s.mt()) {
            Expr* e = simp(s, c.e);
            if (e->k != KConst && !s.known.count(e) && predicated(s, t, f, x, e)) break;
        }
        bool b = c.e ? decide(s, c.e) : c.c;
        takeEdge(t, f, b ? x.e1 : x.e2);
        break;
    }
    case OpSwitch: {
        Val v = R(x.a);
        if (!v.e) {
            int e = x.e1;
            for (auto& c : x.sw) if (c.first == v.c) { e = c.second; break; }
            takeEdge(t, f, e);
        } else {
            int e = -1;
            for (auto& c : x.sw) {
                Expr* eq = P.bin(KEq, v.e, P.cst(c.first, x.w2));
                if (decide(s, eq)) { e = c.second; break; }
            }
            takeEdge(t, f, e < 0 ? x.e1 : e);
        }
        break;
    }
    case OpRet: {
        std::vector<Val> rv;
        for (int i = 0; i < x.n; i++) rv.push_back(R(x.a, i));
        popFrame(s);
        if (t.fr.empty()) { threadExit(s); return; }
        Frame& g = t.fr.back();
        Inst& call = g.fn->code[g.pc];
        if (call.op != OpCall) unsupported(s, "return to non-call");
        if (call.dst >= 0 && !call.nat) for (size_t i = 0; i < rv.size() && i < call.n; i++) t.regs[g.base + call.dst + i] = rv[i];
        afterCall(t, g, call);
        break;
    }
    case OpCall: {
        if (x.nat) {
            int r = x.nat(*this, s, x);
            if (r == R_DONE) { Thread& t2 = s.th[s.cur]; afterCall(t2, t2.fr.back(), x); }
            return;
        }
        Fn* callee = x.callee;
        if (!callee) {
            u64 a = conc(s, R(x.a));
            u64 i = (a - FBASE) / 16;
            if (a < FBASE || i >= fnByIdx.size()) violation(s, "memory", "call through a bad function pointer");
            callee = fnByIdx[i];
            if (callee->F->isDeclaration()) {
                Inst tmp = x; tmp.nat = nullptr;
                auto n = findNative(callee->F, tmp);
                if (!n) unsupported(s, "external function " + callee->F->getName().str());
                int r = n(*this, s, x);
                if (r == R_DONE) { Thread& t2 = s.th[s.cur]; afterCall(t2, t2.fr.back(), x); }
                return;
            }
        }
        std::vector<Val> args;
        for (size_t i = 0; i < x.args.size(); i++) {
            for (int k = 0; k < x.argn[i]; k++) args.push_back(R(x.args[i], k));
            if (x.argn[i] == 0) args.push_back(CV(0));
        }
        // byval arguments are passed as a copy
        if (auto* CB = dyn_cast<CallBase>(x.I)) {
            int ai = 0;
            for (unsigned i = 0; i < CB->arg_size(); i++) {
                if (CB->isByValArgument(i)) {
                    u64 sz = DL->getTypeAllocSize(CB->getParamByValType(i));
                    u64 src = conc(s, args[ai]);
                    u64 na = allocStack(s, sz);
                    memCopy(s, CV(na), CV(src), sz, true);
                    args[ai] = CV(na);
                }
                ai += std::max<int>(1, x.argn[i]);
            }
        }
        pushFrame(s, callee, args);
        break;
    }
    case OpAlloca: {
        u64 n = conc(s, R(x.a));
        u64 p = allocStack(s, n * (u64)x.imm);
        t.regs[f.base + x.dst] = CV(p);
        f.pc++;
        break;
    }
    case OpExtractElt: {
        const Val& i = R(x.b);
        if (!i.e) { if (i.c < (u64)x.imm) *D = R(x.a, (int)i.c); else *D = mkC(0, x.w); }
        else {
            Val r = R(x.a, (int)x.imm - 1);
            for (int k = (int)x.imm - 2; k >= 0; k--) r = iteV(P.bin(KEq, i.e, P.cst(k, x.w2)), R(x.a, k), r, x.w);
            *D = r;
        }
        f.pc++;
        break;
    }
    case OpInsertElt: {
        Val v = R(x.b), i = R(x.c);
        std::vector<Val> o(x.n);
        for (int k = 0; k < x.n; k++) {
            if (!i.e) o[k] = (u64)k == i.c ? v : R(x.a, k);
            else o[k] = iteV(P.bin(KEq, i.e, P.cst(k, x.w2)), v, R(x.a, k), x.w);
        }
        for (int k = 0; k < x.n; k++) D[k] = o[k];
        f.pc++;
        break;
    }
    case OpShuffle: {
        std::vector<Val> o(x.n);
        for (int k = 0; k < x.n; k++) {
            int m = x.mask[k];
            o[k] = m < 0 ? mkC(0, x.w) : m < x.imm ? R(x.a, m) : R(x.b, m - (int)x.imm);
        }
        for (int k = 0; k < x.n; k++) D[k] = o[k];
        f.pc++;
        break;
    }
    case OpExtractVal: for (int i = 0; i < x.n; i++) D[i] = R(x.a, (int)x.imm + i); f.pc++; break;
    case OpInsertVal:
        for (int i = 0; i < x.n; i++) D[i] = (i >= x.imm && i < x.imm + x.w2) ? R(x.b, i - (int)x.imm) : R(x.a, i);
        f.pc++;
        break;
    case OpUnreachable: violation(s, "undefined behaviour", "reached code marked unreachable"); break;
    case OpLandingPad: unsupported(s, "fell into landing pad"); break;
    case OpResume: { u64 e = conc(s, R(x.a)); unwind(s, e, true); break; }
    case OpRMW: {
        if (!schedPoint(s)) return;
        Acc A = resolve(s, R(x.a), x.ty->size, true);
        if (A.offE) { unsupported(s, "symbolic atomic address"); }
        raceAcc(s, A, x.ty->size, true, true);
        atomicSync(s, A.addr, (unsigned)x.imm, true, true);
        Val old; loadLane(s, A, 0, x.w, old);
        Val v = R(x.b), nv;
        switch ((AtomicRMWInst::BinOp)x.sub) {
        case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::Add: nv = binop(KAdd, old, v, x.w); break;
        case AtomicRMWInst::Sub: nv = binop(KSub, old, v, x.w); break;
        case AtomicRMWInst::And: nv = binop(KAnd, old, v, x.w); break;
        case AtomicRMWInst::Or: nv = binop(KOr, old, v, x.w); break;
        case AtomicRMWInst::Xor: nv = binop(KXor, old, v, x.w); break;
        default: unsupported(s, "atomicrmw op");
        }
        Obj* o = writableAt(s, A.addr);
        storeLane(s, A, o, 0, x.w, nv);
        t.regs[f.base + x.dst] = old;
        f.pc++;
        break;
    }
    case OpCmpXchg: {
        if (!schedPoint(s)) return;
        Acc A = resolve(s, R(x.a), (x.w + 7) / 8, true);
        if (A.offE) { unsupported(s, "symbolic atomic address"); }
        Val old; loadLane(s, A, 0, x.w, old);
        Val eq = icmp(CmpInst::ICMP_EQ, old, R(x.b), x.w);
        bool ok = eq.e ? decide(s, eq.e) : eq.c;
        raceAcc(s, A, (x.w + 7) / 8, true, true);
        atomicSync(s, A.addr, ok ? (unsigned)x.imm : x.sub, true, ok);
        if (ok) { Obj* o = writableAt(s, A.addr); storeLane(s, A, o, 0, x.w, R(x.c)); }
        t.regs[f.base + x.dst] = old;
        t.regs[f.base + x.dst + 1] = CV(ok);
        f.pc++;
        break;
    }
    case OpFence: f.pc++; break;
    case OpFBin:
        for (int i = 0; i < x.n; i++) D[i] = fromE(P.fbin((EK)x.sub, ex(R(x.a, i), x.w), ex(R(x.b, i), x.w)));
        f.pc++;
        break;
    case OpFCmp:
        for (int i = 0; i < x.n; i++) D[i] = fromE(P.fcmp(x.sub, ex(R(x.a, i), x.w2), ex(R(x.b, i), x.w2)));
        f.pc++;
        break;
    case OpFNeg:
        for (int i = 0; i < x.n; i++) D[i] = binop(KXor, R(x.a, i), mkC((u128)1 << (x.w - 1), x.w), x.w);
        f.pc++;
        break;
    case OpFConv:
        for (int i = 0; i < x.n; i++) D[i] = fromE(P.fconv((EK)x.sub, ex(R(x.a, i), x.w2), x.w));
        f.pc++;
        break;
    case OpUnsupported: { std::string b; raw_string_ostream os(b); x.I->print(os); unsupported(s, "instruction " + b.substr(0, 120)); }
    }
}
void threadExit(State& s) {
    Thread& t = s.th[s.cur];
    t.st = TDone;
    if (s.cur == 0) throw PathEnd{ 0 };
    schedule(s);
}
void runState(State* sp) {
    State& s = *sp;
    int why = 0;
    try {
        for (;;) {
            step(s);
            if ((s.insts & 0xfff) == 0) {
                if (nowS() - t0 > O.timeout) { timedOut = true; why = 3; break; }
            }
            if (s.insts > O.maxInst) { addViolation(s, "termination", "instruction bound exceeded (possible non-termination)"); why = 2; limits++; break; }
        }
    } catch (PathEnd& p) { why = p.why; }
    insts += s.insts;
    paths++;
    if (why == 0) {
        pathsOk++;
        for (auto& c : s.covers) covers[c]++;
        if (std::has_single_bit(pathsOk) && witness.size() < 12) {
            Violation v;
            for (u32 si : s.syms) { v.vals.push_back({ P.syms[si].name, si < s.model->v.size() ? s.model->v[si] : 0 }); v.widths.push_back(P.syms[si].w); }
            witness.push_back(v);
        }
    }
    else if (why == 1) pathsAssume++;
    else if (why == 4) unsup++;
    else if (why == 2) { for (auto& c : s.covers) covers[c]++; }
    delete sp;
}
