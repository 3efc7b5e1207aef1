// LRU cache: model is, per partition, the list of entries in order of use.
// params: 0 operations, 1 capacity per partition, 2 prefill, 3 op mask, 4 keys (0: 64-bit symbolic, n: one of n), 5 threads (0: single-threaded history), 6 op mask of the other threads
// ops: 0 insert 1 get 2 exists 3 clear 4 copy construct, drop original 5 move construct 6 copy assign over a used cache 7 move assign over a used cache 8 enlarge 9 reserve 10 copy, keep both 11 insert of another value type
#include "sym.h"
#define GTL_DISABLE_MIX 1
#include <gtl/lru_cache.hpp>
#include <mutex>
#include <shared_mutex>
#ifdef SYM_REPLAY // so that the race detector of the replay sees these accesses
namespace std { namespace __detail {
#include "list.inc"
} }
#endif
#ifndef MTX
#define MTX gtl::NullMutex
#endif
#ifndef NSUB
#define NSUB 0
#endif
typedef uint64_t u64;
struct H { size_t operator()(u64 k) const { return (size_t)k; } };
struct E { bool operator()(u64 a, u64 b) const { return a == b; } };
using C = gtl::lru_cache_impl<u64, u64, NSUB, H, E, MTX>;
static unsigned part(u64 k) { return NSUB == 0 ? 0 : (unsigned)sym_concretize(C::map_type::subidx((size_t)k)); }
static const unsigned P = 1u << NSUB, NOPS = 12, MAX = 16;
struct L { u64 k[MAX], v[MAX]; unsigned n = 0; // 0 is the most recently used
    int find(u64 key) const { for (unsigned i = 0; i < n; i++) if (k[i] == key) return (int)i; return -1; }
    void front(unsigned i) { u64 a = k[i], b = v[i]; for (; i > 0; i--) { k[i] = k[i - 1]; v[i] = v[i - 1]; } k[0] = a; v[0] = b; }
    void add(u64 key, u64 val) { k[n] = key; v[n] = val; front(n++); } };
struct M { L l[P]; u64 cap;
    void insert(u64 k, u64 v) { L& x = l[part(k)]; int i = x.find(k); if (i >= 0) { x.v[i] = v; x.front((unsigned)i); } else { x.add(k, v); if (x.n > cap) x.n--; } }
    bool get(u64 k, u64& v) { L& x = l[part(k)]; int i = x.find(k); if (i < 0) return false; v = x.v[i]; x.front((unsigned)i); return true; }
    bool has(u64 k) const { return l[part(k)].find(k) >= 0; }
    u64 size() const { u64 s = 0; for (unsigned i = 0; i < P; i++) s += l[i].n; return s; }
    void clear() { for (unsigned i = 0; i < P; i++) l[i].n = 0; } };
static u64 key(unsigned i) { return i == 0 ? 0x100 : i == 1 ? 0x205 : i == 2 ? 0x20a : i == 3 ? 0x7 : 0x107 + (u64)i * 0x1000; }
static void same(C& c, const M& m) {
    sym_assert(c.size() == m.size(), "size() differs from the number of entries that should be held");
    for (unsigned p = 0; p < P; p++) { sym_assert(m.l[p].n <= m.cap, "model"); for (unsigned i = 0; i < m.l[p].n; i++) sym_assert(c.exists(m.l[p].k[i]), "a recently used entry is missing"); }
}
// A fresh key of partition p that no other entry has.
static u64 fresh(unsigned p, unsigned i, const M& m, const L* o = nullptr) { u64 x = 0x5000000 + (u64)i * 0x10000; for (unsigned t = 0; t < 64; t++, x += 0x101) if (part(x) == p) { if (!m.has(x) && !(o && o->find(x) >= 0)) return x; } return x; }
// Evicts everything, oldest first; all entries must go in the model's order, with the right values.
static void drain(C& c, M& m) {
    same(c, m);
    for (unsigned p = 0; p < P; p++) {
        for (unsigned i = 0, n = m.l[p].n; m.l[p].n < m.cap; i++) { u64 f = fresh(p, i, m); c.insert(f, 7000 + n); m.insert(f, 7000 + n); }
        L o = m.l[p];
        for (unsigned i = 0; i < m.cap; i++) {
            u64 f = fresh(p, 20 + i, m, &o); c.insert(f, 8000 + i); m.insert(f, 8000 + i);
            for (unsigned j = 0; j < o.n; j++) sym_assert(c.exists(o.k[j]) == (j < o.n - 1 - i), "the entry evicted is not the least recently used");
        }
        for (unsigned j = 0; j < m.l[p].n; j++) { auto r = c.get(m.l[p].k[j]); sym_assert(r && *r == m.l[p].v[j], "get() returns another value than was inserted"); }
    }
}
static u64 pick() { unsigned nk = (unsigned)sym_param(4); return nk ? key((unsigned)sym_choice(nk, "k")) : sym_u64("k", 64); }
static void one(C& c, M& m, unsigned op, u64 k, u64 v) {
    u64 w = 0;
    switch (op) {
    case 0: c.insert(k, v); m.insert(k, v); sym_cover("insert"); break;
    case 11: { unsigned char b = (unsigned char)v; c.insert(k, std::move(b)); m.insert(k, b); break; }
    case 1: { auto r = c.get(k); bool has = m.get(k, w); sym_assert(!!r == has, "get() finds an entry wrongly"); if (has) { sym_assert(*r == w, "get() returns another value than was inserted"); sym_cover("hit"); } break; }
    case 2: sym_assert(c.exists(k) == m.has(k), "exists() answers wrongly"); break;
    case 3: c.clear(); m.clear(); sym_cover("clear"); break;
    case 8: m.cap += 2; c.set_cache_size(m.cap * P); break;
    case 9: c.reserve(40); break;
    }
}
#ifdef THREADS
struct Op { unsigned op; u64 k, v, r; };
struct Th { C* c; Op o[2]; unsigned n; };
static unsigned nth, nop;
static void body(void* p) {
    Th& t = *(Th*)p;
    for (unsigned i = 0; i < t.n; i++) { Op& o = t.o[i]; o.r = 0;
        switch (o.op) { case 0: t.c->insert(o.k, o.v); break; case 1: { auto r = t.c->get(o.k); if (r) o.r = 1000 + *r; break; } case 2: o.r = t.c->exists(o.k); break; case 3: t.c->clear(); break; }
        sym_assert(sym_held() == 0, "a lock is still held after the operation"); }
}
static bool eq(const M& a, const M& b) { for (unsigned p = 0; p < P; p++) { if (a.l[p].n != b.l[p].n) return false; for (unsigned i = 0; i < a.l[p].n; i++) if (a.l[p].k[i] != b.l[p].k[i]) return false; } return true; }
static bool search(const M& m, const Th* t, unsigned d0, unsigned d1, unsigned d2, const M& fin) {
    unsigned d[3] = { d0, d1, d2 }; bool any = false;
    for (unsigned i = 0; i < nth; i++)
        if (d[i] < t[i].n) {
            any = true; M x = m; const Op& o = t[i].o[d[i]]; u64 r = 0, w = 0;
            switch (o.op) { case 0: x.insert(o.k, o.v); break; case 1: if (x.get(o.k, w)) r = 1000 + w; break; case 2: r = x.has(o.k); break; case 3: x.clear(); break; }
            if (r == o.r && search(x, t, d0 + (i == 0), d1 + (i == 1), d2 + (i == 2), fin)) return true;
        }
    return !any && eq(m, fin);
}
extern "C" void sym_main() {
    nth = (unsigned)sym_param(5); nop = (unsigned)sym_param(0); u64 cap = (u64)sym_param(1);
    {
        C c(cap * P); M m; m.cap = cap; Th t[3];
        for (unsigned i = 0; i < (unsigned)sym_param(2); i++) { c.insert(key(i), 20 + i); m.insert(key(i), 20 + i); }
        for (unsigned i = 0; i < nth; i++) {
            t[i].c = &c; t[i].n = nop;
            for (unsigned j = 0; j < nop; j++) { Op& o = t[i].o[j]; o.op = (unsigned)sym_choice(4, "op"); sym_assume(((u64)sym_param(i ? 6 : 3) >> o.op) & 1); o.k = pick(); o.v = 40 + i * 2 + j * 5; }
        }
        for (unsigned i = 1; i < nth; i++) sym_thread(body, &t[i]);
        body(&t[0]);
        sym_join();
        // read the final state back: fill up, then evict one entry after another
        M fin; fin.cap = cap; u64 total = c.size();
        u64 ks[12]; unsigned n = 0;
        auto cand = [&](u64 k) { for (unsigned i = 0; i < n; i++) if (ks[i] == k) return; ks[n++] = k; };
        for (unsigned i = 0; i < (unsigned)sym_param(2); i++) cand(key(i));
        for (unsigned i = 0; i < nth; i++) for (unsigned j = 0; j < nop; j++) cand(t[i].o[j].k);
        bool in[12]; u64 cnt = 0; M held; held.cap = 100;
        for (unsigned i = 0; i < n; i++) { in[i] = c.exists(ks[i]); cnt += in[i]; if (in[i]) held.insert(ks[i], 0); }
        sym_assert(cnt == total, "size() differs from the number of entries");
        for (unsigned p = 0; p < P; p++) {
            sym_assert(held.l[p].n <= cap, "more entries are held than the capacity allows");
            unsigned f = 0;
            for (unsigned q = held.l[p].n; q < cap; q++) c.insert(fresh(p, f++, held), 1);
            for (unsigned q = 0, left = held.l[p].n; left > 0 && q < cap; q++) {
                c.insert(fresh(p, f++, held), 1); unsigned gone = 0;
                for (unsigned i = 0; i < n; i++) if (in[i] && part(ks[i]) == p && !c.exists(ks[i])) { in[i] = false; gone++; fin.l[p].add(ks[i], 0); }
                sym_assert(gone == 1, "inserting into a full cache does not evict exactly one entry"); left--;
            }
        }
        sym_assert(search(m, t, 0, 0, 0, fin), "the outcome is not that of any sequential order");
        sym_cover("joined");
    }
    sym_assert(sym_live() == 0, "memory is leaked");
}
#else
extern "C" void sym_main() {
    unsigned nops = (unsigned)sym_param(0), pre = (unsigned)sym_param(2), mask = (unsigned)sym_param(3); u64 cap = (u64)sym_param(1);
    {
        M m; m.cap = cap; C* c = new C(cap * P);
        for (unsigned i = 0; i < pre; i++) { c->insert(key(i), 20 + i); m.insert(key(i), 20 + i); }
        for (unsigned s = 0; s < nops; s++) {
            unsigned op = (unsigned)sym_choice(NOPS, "op"); sym_assume((mask >> op) & 1);
            u64 v = 100 + s;
            auto used = [&] { C* d = new C(cap * P); d->insert(0x333, 5); d->insert(0x205, 6); return d; };
            switch (op) {
            case 4: { C* d = new C(*c); delete c; c = d; sym_cover("copied"); break; }
            case 5: { C* d = new C(std::move(*c)); delete c; c = d; sym_cover("moved"); break; }
            case 6: { C* d = used(); *d = *c; delete c; c = d; break; }
            case 7: { C* d = used(); *d = std::move(*c); delete c; c = d; break; }
            case 10: { C d(*c); M md = m; one(d, md, 0, 0x4444, 55); one(d, md, 1, key(0), 0); drain(d, md); same(*c, m); break; }
            default: one(*c, m, op, op == 3 || op == 8 || op == 9 ? 0 : pick(), v);
            }
            same(*c, m);
        }
        drain(*c, m);
        sym_cover("drained");
        delete c;
    }
    sym_assert(sym_live() == 0, "memory is leaked");
}
#endif
