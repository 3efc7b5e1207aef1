// Memoized functions.  Model: per partition, the argument lists called since the last clear, in order of use, and which of them are retained.
// params: 0 operations, 1 limit per partition (LRU kinds), 2 prefill, 3 op mask, 4 key bits, 5 threads (0: single-threaded history), 6 op mask of the other threads
// ops: 0 call 1 contains 2 clear 3 call that throws 4 copy, drop original 5 move 6 reserve 7 copy assign 8 move assign
#include "sym.h"
#ifdef SYMHASH
#define GTL_DISABLE_MIX 1
#endif
#include <gtl/memoize.hpp>
#include <mutex>
#include <shared_mutex>
#ifdef SYM_REPLAY
namespace std { namespace __detail {
#include "list.inc"
} }
#endif
typedef uint64_t u64;
#ifndef NSUB
#define NSUB 0
#endif
#ifndef MTX
#define MTX std::mutex
#endif
#ifndef ARG
#define ARG A
#endif
#ifndef KIND
#define KIND 0 // 0 memoize 1 mt_memoize non-recursive 2 mt_memoize recursive 3 memoize_lru 4 mt_memoize_lru
#endif
struct Boom {};
struct Log { unsigned calls = 0; bool boom = false; u64 arg = 0; };
static u64 truth(u64 a, u64 b) { return a * 5 + b + 1; }
// An argument: equality and hash see only k; log tells who calls.
struct A { u64 k; Log* log; friend bool operator==(const A& x, const A& y) { return x.k == y.k; } friend size_t hash_value(const A& a) { return (size_t)a.k; } };
struct F { unsigned* copies; u64 operator()(ARG a, unsigned char b) const { Log* l = a.log; l->calls++; l->arg = a.k; if (l->boom) throw Boom{}; sym_yield(); return truth(a.k, b); } };
static Log idle;
#ifdef SYMHASH // fully symbolic arguments: a linear stand-in for the library's multiplicative combination of hash values
template<> struct gtl::Hash<std::tuple<A, unsigned char>> { size_t operator()(const std::tuple<A, unsigned char>& t) const { size_t h = (size_t)std::get<0>(t).k; return (h << 5 | h >> 59) ^ std::get<1>(t); } };
#endif
#if KIND == 0
using C = gtl::memoize<F, NSUB>;
#elif KIND == 1
using C = gtl::mt_memoize<F, false, NSUB, MTX>;
#elif KIND == 2
using C = gtl::mt_memoize<F, true, NSUB, MTX>;
#elif KIND == 3
using C = gtl::memoize_lru<F, NSUB>;
#else
using C = gtl::mt_memoize_lru<F, NSUB, MTX>;
#endif
static const bool LRU = KIND >= 3;
static const unsigned P = 1u << NSUB, NOPS = 9, MAX = 12;
static C* make(const F& f, u64 limit) {
    F g = f;
#if KIND >= 3
    return new C(std::move(g), limit * P);
#else
    (void)limit; return new C(std::move(g));
#endif
}
struct M { u64 k[MAX]; bool held[MAX]; unsigned n = 0; u64 limit; // 0 is the most recently used
    int find(u64 key) const { for (unsigned i = 0; i < n; i++) if (k[i] == key) return (int)i; return -1; }
    void front(unsigned i) { u64 a = k[i]; bool h = held[i]; for (; i > 0; i--) { k[i] = k[i - 1]; held[i] = held[i - 1]; } k[0] = a; held[0] = h; }
    void use(u64 key) { int i = find(key); if (i < 0) { i = (int)n; k[n] = key; held[n++] = true; } held[i] = true; front((unsigned)i); }
    unsigned count() const { unsigned c = 0; for (unsigned i = 0; i < n; i++) c += held[i]; return c; } };
static u64 call(C& c, u64 k, Log* log = &idle) { A a{ k, log }; return c(a, (unsigned char)(k & 3)); }
static bool has(C& c, u64 k, Log* log = &idle) { A a{ k, log }; auto r = c.contains(a, (unsigned char)(k & 3)); if (r) sym_assert(*r == truth(k, k & 3), "contains() returns another result than the function"); return !!r; }
// Adopts what is retained now, and checks that this is allowed.
static void settle(C& c, M& m, bool grew) {
    unsigned cnt = 0;
    for (unsigned i = 0; i < m.n; i++) { bool h = has(c, m.k[i]); sym_assert(!h || m.held[i], "a dropped result reappears without a call"); if (!grew || !LRU) sym_assert(h == m.held[i], "a result is dropped"); m.held[i] = h; cnt += h; }
    sym_assert(c.size() == cnt, "size() differs from the number of retained results");
    if (!LRU) return;
    sym_assert(cnt <= m.limit * P, "more results are retained than the limit allows");
    if (NSUB == 0) {
        sym_assert(cnt >= (m.n < m.limit ? m.n : m.limit - 1), "a result is dropped although the limit is not reached");
        for (unsigned i = 0; i < m.n; i++) sym_assert(m.held[i] == (i < cnt), "the result dropped is not the least recently used");
    }
}
#ifdef SYMHASH
static u64 pick() { return sym_u64("k", 64); }
#else
static u64 pick() { return sym_concretize(sym_u64("k", (unsigned)sym_param(4))); }
#endif
static u64 key(unsigned i) { return 2 * i + 1; }
#ifdef THREADS
struct Op { unsigned op; u64 k; unsigned called; u64 r; };
struct Th { C* c; Log* log; Op o[2]; unsigned n; };
static unsigned nop;
static void body(void* p) {
    Th& t = *(Th*)p;
    for (unsigned i = 0; i < t.n; i++) { Op& o = t.o[i]; o.r = 0; unsigned before = t.log->calls;
        switch (o.op) { case 0: o.r = call(*t.c, o.k, t.log); break; case 1: o.r = has(*t.c, o.k, t.log); break; case 2: t.c->clear(); break; }
        o.called = t.log->calls - before;
        sym_assert(sym_held() == 0, "a lock is still held after the operation"); }
}
struct S { bool in[16] = {}; };
static bool search(const S& s, const Th* t, unsigned d0, unsigned d1, const S& fin) {
    unsigned d[2] = { d0, d1 }; bool any = false;
    for (unsigned i = 0; i < 2; i++)
        if (d[i] < t[i].n) {
            any = true; S x = s; const Op& o = t[i].o[d[i]]; bool ok = true;
            switch (o.op) {
            case 0: ok = o.r == truth(o.k, o.k & 3) && (KIND == 2 ? o.called <= 1 && (x.in[o.k] || o.called == 1) : o.called == (x.in[o.k] ? 0u : 1u)); x.in[o.k] = true; break;
            case 1: ok = o.r == x.in[o.k] && o.called == 0; break;
            case 2: for (bool& b : x.in) b = false; break; }
            if (ok && search(x, t, d0 + (i == 0), d1 + (i == 1), fin)) return true;
        }
    if (any) return false;
    for (unsigned i = 0; i < 16; i++) if (s.in[i] != fin.in[i]) return false;
    return true;
}
extern "C" void sym_main() {
    nop = (unsigned)sym_param(0); u64 limit = (u64)sym_param(1);
    {
        Log log[2]; F f{ nullptr }; C* c = make(f, limit); S s; Th t[2];
        for (unsigned i = 0; i < (unsigned)sym_param(2); i++) { call(*c, key(i)); s.in[key(i)] = true; }
        for (unsigned i = 0; i < 2; i++) { t[i].c = c; t[i].n = nop; t[i].log = &log[i];
            for (unsigned j = 0; j < nop; j++) { Op& o = t[i].o[j]; o.op = (unsigned)sym_choice(3, "op"); sym_assume(((u64)sym_param(i ? 6 : 3) >> o.op) & 1); o.k = o.op == 2 ? 0 : pick(); } }
        sym_thread(body, &t[1]);
        body(&t[0]);
        sym_join();
        unsigned cnt = 0; S fin;
        for (unsigned i = 0; i < 16; i++) { fin.in[i] = has(*c, i); cnt += fin.in[i]; }
        sym_assert(c->size() == cnt, "size() differs from the number of retained results");
        if (LRU && limit < 8) sym_assert(cnt <= limit * P, "more results are retained than the limit allows");
        else sym_assert(search(s, t, 0, 0, fin), "the outcome is not that of any sequential order");
        for (unsigned i = 0; i < 2; i++) for (unsigned j = 0; j < nop; j++) if (t[i].o[j].op == 0) sym_assert(t[i].o[j].r == truth(t[i].o[j].k, t[i].o[j].k & 3), "a call returns another result than the function");
        sym_cover("joined");
        delete c;
    }
    sym_assert(sym_live() == 0, "memory is leaked");
}
#else
// A function that calls its own memoized version.
using RF = u64 (*)(u64); using RC = gtl::memoize<RF, 1>; using MRC = gtl::mt_memoize<RF, true, 1>;
static RC* rc; static MRC* mrc; static unsigned rcalls;
static u64 fib(u64 n) { ++rcalls; return n < 2 ? n : (*rc)(n - 1) + (*rc)(n - 2); }
static u64 mfib(u64 n) { ++rcalls; return n < 2 ? n : (*mrc)(n - 1) + (*mrc)(n - 2); }
template<class C1> static void rec(C1*& p, RF f, u64 n) {
    unsigned& calls = rcalls; calls = 0; C1 c(f); p = &c;
    u64 a = 0, b = 1; for (u64 i = 0; i < n; i++) { u64 t = a + b; a = b; b = t; }
    sym_assert(c(n) == a, "a recursive memoized function returns another result"); sym_assert(calls == (n < 2 ? 1 : n + 1), "a recursive memoized function is called more than once for an argument");
    sym_assert(c(n) == a && c.size() == (n < 2 ? 1 : n + 1), "a recursive memoized function does not retain its results");
}
using LRC = gtl::memoize_lru<RF, 0>; static LRC* lrc; static unsigned lcalls[16];
static u64 lfib(u64 n) { ++lcalls[n]; return n < 2 ? n : (*lrc)(n - 1) + (*lrc)(n - 2); }
static void reclru(u64 n, u64 limit, u64 n2) {
    for (unsigned& x : lcalls) x = 0; LRC c(&lfib, limit); lrc = &c; u64 f[16] = { 0, 1 }; for (unsigned i = 2; i < 16; i++) f[i] = f[i - 1] + f[i - 2];
    sym_assert(c(n) == f[n], "a recursive memoized function returns another result"); sym_assert(c(n2) == f[n2] && c(n) == f[n], "a recursive memoized function returns another result");
    unsigned cnt = 0; for (u64 i = 0; i < 16; i++) { auto r = c.contains(i); if (r) { cnt++; sym_assert(*r == f[i] && lcalls[i], "a retained result is wrong"); } else sym_assert(!lcalls[i] || c.size() + 1 >= limit, "a result is dropped although the limit is not reached"); if (limit > 15) sym_assert(lcalls[i] <= 1, "a recursive memoized function is called more than once for an argument although its result is retained"); }
    sym_assert(cnt == c.size() && cnt <= limit, "the number of retained results is wrong");
}
extern "C" void sym_main() {
    unsigned nops = (unsigned)sym_param(0), pre = (unsigned)sym_param(2), mask = (unsigned)sym_param(3); u64 limit = (u64)sym_param(1);
    {
        Log log; F f{ nullptr }; M m; m.limit = limit; C* c = make(f, limit);
        for (unsigned i = 0; i < pre; i++) { call(*c, key(i)); m.use(key(i)); settle(*c, m, true); }
        for (unsigned s = 0; s < nops; s++) {
            unsigned op = (unsigned)sym_choice(NOPS, "op"); sym_assume((mask >> op) & 1);
            log.calls = 0; bool grew = false;
            auto other = [&] { C* d = make(f, limit); call(*d, 2); call(*d, 3); log.calls = 0; return d; };
            switch (op) {
            case 0: { u64 k = pick(); int i = m.find(k); bool held = i >= 0 && m.held[i];
                sym_assert(call(*c, k, &log) == truth(k, k & 3), "a call returns another result than the function");
                sym_assert(log.calls == (held ? 0u : 1u), held ? "the function is called again although its result is retained" : "the function is not called exactly once"); if (!held) sym_assert(log.arg == k, "the function is called with other arguments");
                m.use(k); grew = !held; if (limit > 1 || !LRU) sym_assert(has(*c, k), "the result of the latest call is not retained"); sym_cover(held ? "hit" : "miss"); break; }
            case 1: { u64 k = pick(); int i = m.find(k); sym_assert(has(*c, k) == (i >= 0 && m.held[i]), "contains() answers wrongly"); break; }
            case 2: c->clear(); m.n = 0; break;
            case 3: { u64 k = pick(); int i = m.find(k); bool held = i >= 0 && m.held[i]; bool threw = false; log.boom = true;
                try { sym_assert(call(*c, k, &log) == truth(k, k & 3), "a call returns another result than the function"); } catch (Boom&) { threw = true; }
                log.boom = false; sym_assert(threw == !held, held ? "the function is called again although its result is retained" : "an exception of the function is lost"); if (held) m.use(k); else sym_cover("threw"); break; }
            case 4: { C* d = new C(*c); delete c; c = d; break; }
            case 5: { C* d = new C(std::move(*c)); delete c; c = d; break; }
            case 6: c->reserve(30); break;
            case 7: { C* d = other(); *d = *c; delete c; c = d; break; }
            case 8: { C* d = other(); *d = std::move(*c); delete c; c = d; break; }
            }
            if (op != 0) sym_assert(log.calls == (op == 3 ? log.calls : 0), "the function is called by another operation");
            settle(*c, m, grew);
        }
        sym_cover("done");
        delete c;
        if (nops == 1) { u64 n = sym_choice(7, "n"); rec(rc, &fib, n); rec(mrc, &mfib, n); static const u64 lim[] = { 3, 4, 6, 20 }; if (KIND == 3) reclru(sym_choice(11, "n1"), lim[sym_choice(4, "limit")], sym_choice(11, "n2")); }
    }
    sym_assert(sym_live() == 0, "memory is leaked");
}
#endif
