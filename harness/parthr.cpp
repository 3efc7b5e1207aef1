// Concurrent operations on a parallel container: every outcome must be that of some sequential order.
// params: 0 threads, 1 operations per thread, 2 op mask of thread 0, 3 op mask of the others, 4 prefill, 5 prefill of the second container, 6 keys (0: 64-bit symbolic, n: one of n)
// ops: 0 insert 1 try_emplace 2 insert_or_assign 3 erase 4 contains 5 if_contains 6 modify_if 7 erase_if 8 lazy_emplace_l 9 try_emplace_l 10 extract 11 find 12 clear 13 for_each 14 for_each_m
//      15 rehash/reserve 16 with_submap 17 with_submap_m 18 swap 19 merge 20 == 21 emplace_single 22 try_emplace_p / lazy_emplace 23 reinsert a node 24 other.swap 25 other.merge 27 *_with_hash 28 insert range 29 count 30 swap with another mutex type 26 emplace (opaque key)
#include "sym.h"
#define GTL_DISABLE_MIX 1
#include <gtl/phmap.hpp>
#include <execution>
#include <mutex>
#include <shared_mutex>
#ifndef MTX
#define MTX std::mutex
#endif
#ifndef NSUB
#define NSUB 1
#endif
typedef uint64_t u64;
struct H { size_t operator()(u64 k) const { return (size_t)k; } };
struct E { bool operator()(u64 a, u64 b) const { return a == b; } };
struct Wide { u64 a, b; explicit operator u64() const { return a ^ b; } };
#if NODE
using C = gtl::parallel_node_hash_map<u64, u64, H, E, std::allocator<std::pair<const u64, u64>>, NSUB, MTX>;
#else
using C = gtl::parallel_flat_hash_map<u64, u64, H, E, std::allocator<std::pair<const u64, u64>>, NSUB, MTX>;
#endif
#if NODE
using C2 = gtl::parallel_node_hash_map<u64, u64, H, E, std::allocator<std::pair<const u64, u64>>, NSUB, gtl::NullMutex>;
#else
using C2 = gtl::parallel_flat_hash_map<u64, u64, H, E, std::allocator<std::pair<const u64, u64>>, NSUB, gtl::NullMutex>;
#endif
typedef C::value_type VT;
static const unsigned NOPS = 31;
struct M1 { u64 k[12], v[12]; bool a[12]; unsigned n = 0;
    int find(u64 key) const { for (unsigned i = 0; i < n; i++) if (a[i] && k[i] == key) return (int)i; return -1; }
    void add(u64 key, u64 val) { k[n] = key; v[n] = val; a[n] = true; n++; }
    unsigned size() const { unsigned c = 0; for (unsigned i = 0; i < n; i++) c += a[i]; return c; }
    u64 sum() const { u64 s = 0; for (unsigned i = 0; i < n; i++) if (a[i]) s += v[i]; return s; } };
struct M { M1 a, b; };
struct Op { unsigned op; u64 k, v, r; };
struct World { C a, b; };
struct Th { World* w; Op o[2]; unsigned n; };
static u64 key(unsigned i) { return i == 0 ? 0x100 : i == 1 ? 0x205 : i == 2 ? 0x20a : i == 3 ? 0x7 : 0x107 + (u64)i * 0x1000; }
static u64 apply(World& w, Op& o) {
    C& c = w.a; C& d = w.b; u64 k = o.k, v = o.v, r = 0, seen = 0; unsigned calls = 0;
    auto rd = [&](const VT& e) { calls++; seen = e.second; sym_yield(); sym_assert(e.second == seen && e.first == k, "an element changes under a callback"); };
    auto wr = [&](VT& e) { calls++; seen = e.second; sym_yield(); sym_assert(e.second == seen && e.first == k, "an element changes under a callback"); e.second = seen + 1; };
    auto mk = [&](const C::constructor& ctor) { calls += 8; sym_yield(); ctor(k, v); };
    switch (o.op) {
    case 0: r = c.insert({ k, v }).second; break;
    case 1: r = c.try_emplace(k, v).second; break;
    case 2: r = c.insert_or_assign(k, v).second; break;
    case 3: r = c.erase(k); break;
    case 4: r = c.contains(k); sym_assert(c.count(k) <= 1, "count() exceeds one"); break;
    case 5: r = c.if_contains(k, rd); sym_assert(calls == r, "if_contains calls its function wrongly"); r = r * 1000 + seen; break;
    case 6: r = c.modify_if(k, wr); sym_assert(calls == r, "modify_if calls its function wrongly"); r = r * 1000 + seen; break;
    case 7: { r = c.erase_if(k, [&](VT& e) { wr(e); return (seen & 1) == 0; }); sym_assert(calls <= 1, "erase_if calls its function twice"); r = r * 1000 + calls * 500 + seen; break; }
    case 8: r = c.lazy_emplace_l(k, wr, mk); sym_assert(calls == (r ? 8u : 1u), "lazy_emplace_l calls its functions wrongly"); r = r * 1000 + seen; break;
    case 9: r = c.try_emplace_l(k, wr, v); sym_assert(calls == (r ? 0u : 1u), "try_emplace_l calls its function wrongly"); r = r * 1000 + seen; break;
    case 10: { auto n = c.extract(k); r = !n.empty(); if (r) { sym_assert(n.key() == k, "extract takes another element"); r = 1000 + n.mapped(); } break; }
    case 11: { r = c.find(k) != c.end(); break; }
    case 12: if (v & 1) for (size_t i = 0; i < C::subcnt(); i++) c.clear(i); else c.clear(); break;
    case 13: {
        auto f = [&](const VT& e) { u64 s = e.second; sym_yield(); sym_assert(e.second == s, "an element changes under a callback"); r += 1000 + s; };
        if (v & 1) c.for_each(std::execution::seq, f); else c.for_each(f); break; }
    case 14: {
        auto f = [&](VT& e) { u64 s = e.second; sym_yield(); sym_assert(e.second == s, "an element changes under a callback"); r += 1000 + s; e.second = s + 1; };
        if (v & 1) c.for_each_m(std::execution::seq, f); else c.for_each_m(f); break; }
    case 15: if (v & 1) c.rehash(20); else c.reserve(9); break;
    case 16: { for (size_t i = 0; i < C::subcnt(); i++) c.with_submap(i, [&](const C::EmbeddedSet& s) { size_t n = s.size(); sym_yield(); sym_assert(s.size() == n, "a submap changes under a callback"); r += n; }); break; }
    case 17: c.with_submap_m(C::subidx(c.hash(k)), [&](C::EmbeddedSet& s) { r = s.emplace(k, v).second; sym_yield(); sym_assert(s.contains(k), "a submap changes under a callback"); }); break;
    case 18: c.swap(d); break;
    case 24: d.swap(c); break;
    case 19: c.merge(d); break;
    case 25: d.merge(c); break;
    case 20: r = v & 1 ? c == c : c == d; break;
    case 21: c.emplace_single(k, mk); r = calls; break;
    case 22: if (v & 1) r = c.try_emplace_p(k, v).second; else { c.lazy_emplace(k, mk); r = calls / 8; } break;
    case 23: { C t; t.emplace(k, v); auto n = t.extract(k); r = c.insert(std::move(n)).inserted; break; }
    case 27: if (v & 1) r = c.emplace_with_hash(c.hash(k), k, v).second; else { c.lazy_emplace_with_hash(k, c.hash(k), mk); r = calls / 8; } break;
    case 28: if (v & 1) c.insert({ { k, v } }); else { std::pair<u64, u64> p[1] = { { k, v } }; c.insert(p, p + 1); } break;
    case 30: { C2 t; t.emplace(k, v); c.swap(t); for (auto& e : t) r += 1000 + e.second; break; }
    case 29: c.prefetch(k); r = c.count(k); { volatile size_t bc = c.bucket_count(); (void)bc; } break;
    case 26: r = c.emplace(Wide{ k ^ 0x55, 0x55 }, v).second; break;
    }
    return r;
}
static bool same1(const M1& a, const M1& b) { if (a.size() != b.size()) return false; for (unsigned i = 0; i < a.n; i++) if (a.a[i]) { int j = b.find(a.k[i]); if (j < 0 || b.v[j] != a.v[i]) return false; } return true; }
static u64 spec(M& m, const Op& o) {
    M1& c = m.a; int i = c.find(o.k); u64 r = 0;
    auto ins = [&] { if (i < 0) { c.add(o.k, o.v); return (u64)1; } return (u64)0; };
    auto inc = [&] { u64 s = c.v[i]; c.v[i]++; return s; };
    auto merge = [](M1& x, M1& y) { for (unsigned j = 0; j < y.n; j++) if (y.a[j] && x.find(y.k[j]) < 0) { x.add(y.k[j], y.v[j]); y.a[j] = false; } };
    switch (o.op) {
    case 0: case 1: case 17: case 22: case 23: case 26: case 27: r = ins(); break;
    case 28: ins(); break;

    case 2: if (i < 0) r = ins(); else c.v[i] = o.v; break;
    case 3: if (i >= 0) { c.a[i] = false; r = 1; } break;
    case 4: case 11: case 29: r = i >= 0; break;
    case 5: if (i >= 0) r = 1000 + c.v[i]; break;
    case 6: if (i >= 0) r = 1000 + inc(); break;
    case 7: if (i >= 0) { u64 s = inc(); bool e = (s & 1) == 0; if (e) c.a[i] = false; r = e * 1000 + 500 + s; } break;
    case 8: case 9: r = i < 0 ? ins() * 1000 : inc(); break;
    case 10: if (i >= 0) { c.a[i] = false; r = 1000 + c.v[i]; } break;
    case 12: for (unsigned j = 0; j < c.n; j++) c.a[j] = false; break;
    case 13: r = c.size() * 1000 + c.sum(); break;
    case 30: r = c.size() * 1000 + c.sum(); for (unsigned j = 0; j < c.n; j++) c.a[j] = false; c.add(o.k, o.v); break;
    case 14: r = c.size() * 1000 + c.sum(); for (unsigned j = 0; j < c.n; j++) c.v[j]++; break;
    case 16: r = c.size(); break;
    case 18: case 24: { M1 t = m.a; m.a = m.b; m.b = t; break; }
    case 19: merge(m.a, m.b); break;
    case 25: merge(m.b, m.a); break;
    case 20: r = o.v & 1 ? 1 : same1(m.a, m.b); break;
    case 21: if (i < 0) { ins(); r = 8; } else c.a[i] = false; break;
    }
    return r;
}
static unsigned nth, nop;
static bool matches(const M& m, const M& fin) { return same1(m.a, fin.a) && same1(m.b, fin.b); }
static bool search(const M& m, const Th* t, unsigned d0, unsigned d1, unsigned d2, const M& fin) {
    unsigned d[3] = { d0, d1, d2 }; bool any = false;
    for (unsigned i = 0; i < nth; i++)
        if (d[i] < t[i].n) {
            any = true;
            M x = m;
            if (spec(x, t[i].o[d[i]]) == t[i].o[d[i]].r && search(x, t, d0 + (i == 0), d1 + (i == 1), d2 + (i == 2), fin)) return true;
        }
    return !any && matches(m, fin);
}
static void body(void* p) { Th& t = *(Th*)p; for (unsigned i = 0; i < t.n; i++) { t.o[i].r = apply(*t.w, t.o[i]); sym_assert(sym_held() == 0, "a lock is still held after the operation"); } }
static void dump(C& c, M1& m) { for (auto& e : c) { sym_assert(m.find(e.first) < 0, "an element appears twice"); m.add(e.first, e.second); } sym_assert(c.size() == m.n, "size() differs from the number of elements"); for (unsigned i = 0; i < m.n; i++) { auto it = c.find(m.k[i]); sym_assert(it != c.end() && it->second == m.v[i], "an element is not found"); } }
extern "C" void sym_main() {
    nth = (unsigned)sym_param(0); nop = (unsigned)sym_param(1); unsigned nk = (unsigned)sym_param(6);
    {
        World w; M m; Th t[3];
        for (unsigned i = 0; i < (unsigned)sym_param(4); i++) { w.a.emplace(key(i), 20 + i); m.a.add(key(i), 20 + i); }
        for (unsigned i = 0; i < (unsigned)sym_param(5); i++) { w.b.emplace(key(i + 1), 30 + i); m.b.add(key(i + 1), 30 + i); }
        for (unsigned i = 0; i < nth; i++) {
            t[i].w = &w; t[i].n = nop;
            for (unsigned j = 0; j < nop; j++) {
                Op& o = t[i].o[j];
                unsigned mask = (unsigned)sym_param(i ? 3 : 2);
                o.op = (unsigned)sym_choice(NOPS, "op"); sym_assume((mask >> o.op) & 1);
                o.k = nk ? key((unsigned)sym_choice(nk, "k")) : sym_u64("k", 64);
                o.v = 40 + i * 3 + j * 5;
            }
        }
        for (unsigned i = 1; i < nth; i++) sym_thread(body, &t[i]);
        body(&t[0]);
        sym_join();
        M fin; dump(w.a, fin.a); dump(w.b, fin.b);
        sym_assert(search(m, t, 0, 0, 0, fin), "the outcome is not that of any sequential order");
        sym_cover("joined");
    }
    sym_assert(sym_live() == 0, "memory is leaked");
}
