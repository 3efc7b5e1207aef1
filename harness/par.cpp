// Extended operations of the parallel containers, one thread.
// params: 0 steps, 1 prefill, 2 prefill erases, 3 key pattern, 4 op mask, 5 home-position mask
// ops: 0 if_contains 1 modify_if 2 erase_if 3 lazy_emplace_l 4 try_emplace_l 5 try_emplace_p 6 for_each(_m) 7 with_submap(_m) 8 insert 9 erase
//      10 lazy_emplace(_with_hash) 11 emplace(_with_hash) 12 if_contains_unsafe 13 clear(idx) 14 equality 15 swap 16 extract/insert(node) 17 emplace_single 18 find/contains(hash)/equal_range/at 19 counts
#include "sym.h"
#ifndef MIX
#define GTL_DISABLE_MIX 1
#endif
#include <gtl/phmap.hpp>
#include <mutex>
#include <shared_mutex>
#ifndef KIND
#define KIND 4
#endif
#ifndef NSUB
#define NSUB 2
#endif
#ifndef MTX
#define MTX gtl::NullMutex
#define NULLMTX 1
#endif
#define IS_MAP (KIND % 2 == 0)
#define NODE (KIND >= 6)
typedef uint64_t u64;
struct H { size_t operator()(u64 k) const { return (size_t)k; } };
struct E { bool operator()(u64 a, u64 b) const { return a == b; } };
struct Wide { u64 a, b; explicit operator u64() const { return a ^ b; } }; // a key the container cannot see through before constructing it
#if KIND == 4
using C = gtl::parallel_flat_hash_map<u64, u64, H, E, std::allocator<std::pair<const u64, u64>>, NSUB, MTX>;
#elif KIND == 5
using C = gtl::parallel_flat_hash_set<u64, H, E, std::allocator<u64>, NSUB, MTX>;
#elif KIND == 6
using C = gtl::parallel_node_hash_map<u64, u64, H, E, std::allocator<std::pair<const u64, u64>>, NSUB, MTX>;
#else
using C = gtl::parallel_node_hash_set<u64, H, E, std::allocator<u64>, NSUB, MTX>;
#endif
typedef C::value_type VT;
static const int MAXN = 40;
struct Model {
    u64 k[MAXN], v[MAXN]; bool a[MAXN]; int n = 0; u64 sz = 0;
    int find(u64 key) const { for (int i = 0; i < n; i++) if (a[i] && k[i] == key) return i; return -1; }
    int add(u64 key, u64 val) { k[n] = key; v[n] = val; a[n] = true; sz++; return n++; }
    void del(int i) { a[i] = false; sz--; }
};
#if IS_MAP
static u64 keyOf(const VT& e) { return e.first; }
static u64 valOf(const VT& e) { return e.second; }
static void setVal(VT& e, u64 v) { e.second = v; }
#else
static u64 keyOf(const u64& e) { return e; }
static u64 valOf(const u64&) { return 0; }
static void setVal(const u64&, u64) {}
#endif
static u64 mval(u64 v) { return IS_MAP ? v : 0; }
static u64 pat(int mode, int i) {
    switch (mode) {
    case 0: return ((u64)i << 8) | (u64)((i * 5) & 0x7f);   // spread over the submaps
    case 1: return (u64)i;                                  // one submap, one home position, distinct tags
    default: return (u64)i << 32;                           // one submap, one home position, one tag
    }
}
static void held() {
#ifndef NULLMTX
    sym_assert(sym_held() == 1, "a callback runs without its submap's lock");
#endif
}
static void unheld() {
#ifndef NULLMTX
    sym_assert(sym_held() == 0, "a lock is still held after the operation");
#endif
}
static void elem(const VT& e, Model& m, u64 k, int i) {
    sym_assert(i >= 0, "an operation addresses an absent key");
    sym_assert(keyOf(e) == k, "an operation addresses another element");
    if (i >= 0) sym_assert(valOf(e) == m.v[i], "an element's value differs from the reference");
}
static void check(C& c, Model& m) {
    sym_assert(c.size() == m.sz && c.empty() == (m.sz == 0), "size differs from the reference");
    bool seen[MAXN] = {}; u64 cnt = 0;
    for (auto& e : c) {
        cnt++; int i = m.find(keyOf(e));
        sym_assert(i >= 0, "iteration yields a key that is not present"); if (i < 0) return;
        sym_assert(!seen[i], "iteration yields a key twice"); seen[i] = true;
        sym_assert(valOf(e) == m.v[i], "iterated value differs from the reference");
    }
    sym_assert(cnt == m.sz, "iteration misses elements");
    for (int i = 0; i < m.n; i++) if (m.a[i]) sym_assert(c.contains(m.k[i]), "a present key is not found");
}
// from any iterator the rest of the container is reached, and no more
template<class K, class It> static void walk(K& c, It it) {
    size_t n = c.size(), head = 0, tail = 0;
    for (It j = it; j != c.end(); ++j) if (++tail > n) break;
    for (It j = c.begin(); j != it; ++j) if (++head > n) break;
    sym_assert(head + tail == n, "advancing a returned iterator does not visit the rest of the elements");
}
template<class It> static void at(C& c, Model& m, It it, u64 k, int i) { sym_assert(it != c.end(), "iterator to a present key is end"); elem(*it, m, k, i); walk(c, it); }
static void step(C& c, Model& m, unsigned op, unsigned t, u64 hm) {
#ifdef MIX
    u64 k = pat(0, (int)sym_choice(MIX, "k"));
#else
    u64 k = sym_u64("k", 64);
#endif
    if (hm) sym_assume(((k >> 7) & hm) == 0);
    u64 v = 1000 + t; int i = m.find(k); const C& cc = c; unsigned calls = 0; u64 nv = mval(5000 + t);
    switch (op) {
    case 0: { bool r = cc.if_contains(k, [&](const VT& e) { calls++; held(); elem(e, m, k, i); }); sym_assert(r == (i >= 0) && calls == (r ? 1u : 0u), "if_contains reports a wrong outcome"); break; }
    case 1: { bool r = c.modify_if(k, [&](VT& e) { calls++; held(); elem(e, m, k, i); setVal(e, nv); }); sym_assert(r == (i >= 0) && calls == (r ? 1u : 0u), "modify_if reports a wrong outcome"); if (r && i >= 0) { m.v[i] = nv; sym_cover("modified"); } break; }
    case 2: {
        bool yes = sym_u64("yes", 1);
        bool r = c.erase_if(k, [&](VT& e) { calls++; held(); elem(e, m, k, i); setVal(e, nv); return yes; });
        sym_assert(calls == (i >= 0 ? 1u : 0u) && r == (i >= 0 && yes), "erase_if reports a wrong outcome");
        if (i >= 0) { m.v[i] = nv; if (yes) { m.del(i); sym_cover("erased by predicate"); } }
        break; }
    case 3: {
        unsigned ctor = 0;
        bool r = c.lazy_emplace_l(k, [&](VT& e) { calls++; held(); elem(e, m, k, i); setVal(e, nv); }, [&](const C::constructor& mk) { ctor++; held();
#if IS_MAP
            mk(k, v);
#else
            mk(k);
#endif
        });
        sym_assert(r == (i < 0) && calls == (i >= 0 ? 1u : 0u) && ctor == (i < 0 ? 1u : 0u), "lazy_emplace_l reports a wrong outcome");
        if (i < 0) m.add(k, mval(v)); else m.v[i] = nv;
        sym_cover("lazy"); break; }
#if IS_MAP
    case 4: { bool r = c.try_emplace_l(k, [&](VT& e) { calls++; held(); elem(e, m, k, i); setVal(e, nv); }, v); sym_assert(r == (i < 0) && calls == (i >= 0 ? 1u : 0u), "try_emplace_l reports a wrong outcome"); if (i < 0) m.add(k, v); else m.v[i] = nv; break; }
    case 5: { auto r = c.try_emplace_p(k, v); sym_assert(r.second == (i < 0), "try_emplace_p reports a wrong outcome"); if (i < 0) i = m.add(k, v); elem(*r.first, m, k, i); sym_assert(r.first == &*c.find(k), "try_emplace_p returns another element"); break; }
#endif
    case 6: {
        bool seen[MAXN] = {}; u64 n = 0; bool mod = sym_u64("mod", 1);
        auto f = [&](auto& e) { held(); int j = m.find(keyOf(e)); sym_assert(j >= 0, "for_each visits an absent element"); if (j < 0) return; sym_assert(!seen[j], "for_each visits an element twice"); seen[j] = true; elem(e, m, m.k[j], j); n++; };
        if (mod) c.for_each_m([&](auto& e) { f(e); setVal(e, nv); }); else cc.for_each([&](const VT& e) { f(e); });
        sym_assert(n == m.sz, "for_each misses an element");
        if (mod) for (int j = 0; j < m.n; j++) m.v[j] = nv;
        break; }
    case 7: {
        u64 n = 0; unsigned found = 0; bool mod = sym_u64("mod", 1);
        for (size_t s = 0; s < C::subcnt(); s++) {
            auto f = [&](auto& set) { held(); n += set.size(); for (auto& e : set) { sym_assert(C::subidx(c.hash(keyOf(e))) == s, "an element is in a submap that its key does not select"); int j = m.find(keyOf(e)); elem(e, m, keyOf(e), j); } if (set.contains(k)) found++; };
            if (mod) c.with_submap_m(s, [&](C::EmbeddedSet& set) { f(set); }); else cc.with_submap(s, [&](const C::EmbeddedSet& set) { f(set); });
        }
        sym_assert(n == m.sz && found == (i >= 0 ? 1u : 0u), "the submaps together hold other elements");
        break; }
    case 8: {
#if IS_MAP
        auto r = c.insert({ k, v });
#else
        auto r = c.insert(k);
#endif
        sym_assert(r.second == (i < 0), "insert reports a wrong outcome"); if (i < 0) i = m.add(k, mval(v)); at(c, m, r.first, k, i); break; }
    case 9: { size_t r = c.erase(k); sym_assert(r == (i >= 0 ? 1u : 0u), "erase reports a wrong outcome"); if (i >= 0) m.del(i); break; }
    case 10: {
        bool wh = sym_u64("wh", 1);
        auto f = [&](const C::constructor& mk) { calls++; held();
#if IS_MAP
            mk(k, v);
#else
            mk(k);
#endif
        };
        auto it = wh ? c.lazy_emplace_with_hash(k, c.hash(k), f) : c.lazy_emplace(k, f);
        sym_assert(calls == (i < 0 ? 1u : 0u), "lazy_emplace reports a wrong outcome"); if (i < 0) i = m.add(k, mval(v)); at(c, m, it, k, i); break; }
    case 11: {
        unsigned how = (unsigned)sym_choice(4, "how"); u64 mask = 0x5555; Wide w{ k ^ mask, mask };
#if IS_MAP
        auto r = how == 0 ? c.emplace(k, v) : how == 1 ? c.emplace_with_hash(c.hash(k), k, v) : how == 2 ? c.emplace(w, v) : c.emplace_with_hash(c.hash(k), w, v);
#else
        auto r = how == 0 ? c.emplace(k) : how == 1 ? c.emplace_with_hash(c.hash(k), k) : how == 2 ? c.emplace(w) : c.emplace_with_hash(c.hash(k), w);
#endif
        sym_assert(r.second == (i < 0), "emplace reports a wrong outcome"); if (i < 0) i = m.add(k, mval(v)); at(c, m, r.first, k, i); break; }
    case 12: { bool r = cc.if_contains_unsafe(k, [&](const VT& e) { calls++; elem(e, m, k, i); }); sym_assert(r == (i >= 0) && calls == (r ? 1u : 0u), "if_contains_unsafe reports a wrong outcome"); break; }
    case 13: { size_t s = (size_t)sym_choice(C::subcnt(), "sub"); c.clear(s); for (int j = 0; j < m.n; j++) if (m.a[j] && C::subidx(c.hash(m.k[j])) == s) m.del(j); sym_cover("one submap cleared"); break; }
    case 14: {
        sym_assert(c == c && !(c != c), "a container differs from itself");
        C d(c); sym_assert(c == d && d == c, "a copy differs");
        if (i >= 0) d.erase(k); else d.insert(*C(std::initializer_list<C::init_type>{
#if IS_MAP
            { k, v }
#else
            k
#endif
        }).begin());
        sym_assert(c != d && d != c, "containers with different elements are equal");
        break; }
    case 15: {
        c.swap(c); check(c, m);
        C d; 
#if IS_MAP
        d.emplace(k, 77);
#else
        d.emplace(k);
#endif
        if (sym_u64("fr", 1)) swap(c, d); else d.swap(c);
        sym_assert(c.size() == 1 && c.contains(k), "swap does not exchange the contents"); check(d, m); 
        c = std::move(d); check(c, m); C e(std::move(c)); check(e, m); c = e; break; }
    case 16: {
        auto nh = c.extract(k); sym_assert(nh.empty() == (i < 0), "extract reports a wrong outcome");
        if (i >= 0) { u64 ov = m.v[i]; m.del(i); check(c, m);
            bool blocked = sym_u64("blocked", 1); u64 nvv = 0;
            if (blocked) {
#if IS_MAP
                c.emplace(k, v); nvv = v;
#else
                c.emplace(k);
#endif
                i = m.add(k, nvv); }
            if (sym_u64("hint", 1)) { auto it = c.insert(c.end(), std::move(nh)); if (!blocked) i = m.add(k, ov); at(c, m, it, k, i); }
            else { auto r = c.insert(std::move(nh)); sym_assert(r.inserted == !blocked && r.node.empty() == !blocked, "insert of a node handle reports a wrong outcome"); if (!blocked) i = m.add(k, ov); at(c, m, r.position, k, i); }
            sym_cover("node");
        } else { auto r = c.insert(std::move(nh)); sym_assert(!r.inserted && r.position == c.end(), "insert of an empty node handle reports a wrong outcome"); }
        break; }
    case 17: {
        c.emplace_single(k, [&](const C::constructor& mk) { calls++; held();
#if IS_MAP
            mk(k, v);
#else
            mk(k);
#endif
        });
        sym_assert(calls == (i < 0 ? 1u : 0u), "emplace_single reports a wrong outcome"); // a second occurrence removes the element
        if (i < 0) m.add(k, mval(v)); else m.del(i);
        break; }
    case 18: {
        size_t h = c.hash(k);
        auto it = c.find(k, h); auto ci = cc.find(k, h); auto er = c.equal_range(k);
        c.prefetch(k);
        sym_assert((it != c.end()) == (i >= 0) && (ci != cc.end()) == (i >= 0) && cc.contains(k, h) == (i >= 0) && cc.count(k) == (i >= 0 ? 1u : 0u), "a lookup with a hash value reports a wrong outcome");
        sym_assert((er.first != er.second) == (i >= 0), "equal_range reports a wrong outcome");
        if (i >= 0) { at(c, m, it, k, i); at(c, m, er.first, k, i); ++er.first; sym_assert(er.first == er.second, "equal_range covers more than one element"); }
#if IS_MAP
        bool thrown = false; try { u64 x = cc.at(k); sym_assert(i >= 0 && x == m.v[i], "at() returns another value"); } catch (std::out_of_range&) { thrown = true; }
        sym_assert(thrown == (i < 0), "at() reports a wrong outcome");
        thrown = false; try { u64 x = c.at(k); sym_assert(i >= 0 && x == m.v[i], "at() returns another value"); } catch (std::out_of_range&) { thrown = true; }
        sym_assert(thrown == (i < 0), "at() reports a wrong outcome");
#endif
        break; }
    default: {
        sym_assert(c.capacity() >= m.sz && c.bucket_count() >= m.sz, "fewer buckets than elements");
        c.reserve(3 * m.sz + 1); check(c, m); c.rehash(0); break; }
    }
    unheld();
}
extern "C" void sym_main() {
    unsigned steps = (unsigned)sym_param(0), pre = (unsigned)sym_param(1), er = (unsigned)sym_param(2), mode = (unsigned)sym_param(3), mask = (unsigned)sym_param(4); u64 hm = (u64)sym_param(5);
    {
        C c; Model m;
        for (unsigned i = 0; i < pre; i++) { u64 k = pat((int)mode, (int)i);
#if IS_MAP
            c.emplace(k, 100 + i);
#else
            c.emplace(k);
#endif
            m.add(k, mval(100 + i)); }
        for (unsigned i = 0; i < er; i++) { u64 k = pat((int)mode, (int)(i * 2)); int j = m.find(k); if (j >= 0) { c.erase(k); m.del(j); } }
        for (unsigned s = 0; s < steps; s++) {
            unsigned op = (unsigned)sym_choice(20, "op"); sym_assume((mask >> op) & 1);
            step(c, m, op, s, hm);
            check(c, m);
        }
    }
    sym_assert(sym_live() == 0, "memory is leaked");
}
