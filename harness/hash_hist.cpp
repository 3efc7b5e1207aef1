// Histories of single-element operations on a hash container against a reference map.
// params: 0 steps, 1 prefill, 2 prefill erases, 3 prefill key pattern, 4 op mask, 5 H1 restriction mask
#include "sym.h"
#ifndef MIX
#define GTL_DISABLE_MIX 1
#endif
#include <gtl/phmap.hpp>
#include <utility>
#include <stdexcept>
#ifndef KIND
#define KIND 0
#endif
#define IS_MAP (KIND % 2 == 0)
typedef uint64_t u64;
struct H { size_t operator()(u64 k) const { return (size_t)k; } };
struct E { bool operator()(u64 a, u64 b) const { return a == b; } };
#if KIND == 0
using C = gtl::flat_hash_map<u64, u64, H, E>;
#elif KIND == 1
using C = gtl::flat_hash_set<u64, H, E>;
#elif KIND == 2
using C = gtl::node_hash_map<u64, u64, H, E>;
#elif KIND == 3
using C = gtl::node_hash_set<u64, H, E>;
#elif KIND == 4
using C = gtl::parallel_flat_hash_map<u64, u64, H, E, std::allocator<std::pair<const u64, u64>>, 1>;
#elif KIND == 5
using C = gtl::parallel_flat_hash_set<u64, H, E, std::allocator<u64>, 1>;
#elif KIND == 6
using C = gtl::parallel_node_hash_map<u64, u64, H, E, std::allocator<std::pair<const u64, u64>>, 1>;
#elif KIND == 7
using C = gtl::parallel_node_hash_set<u64, H, E, std::allocator<u64>, 1>;
#endif
#define PAR (KIND >= 4)
#define NODE (KIND % 4 >= 2)
static const int MAXN = 64;
struct Model {
    u64 k[MAXN]; u64 v[MAXN]; bool a[MAXN]; const void* p[MAXN]; int n = 0; u64 sz = 0;
    int find(u64 key) const { for (int i = 0; i < n; i++) if (a[i] && k[i] == key) return i; return -1; }
    int add(u64 key, u64 val) { k[n] = key; v[n] = val; a[n] = true; p[n] = nullptr; sz++; return n++; }
    void del(int i) { a[i] = false; sz--; }
};
#if IS_MAP
static u64 keyOf(const std::pair<const u64, u64>& e) { return e.first; }
#define VALOK(it, m, i) ((it)->second == (m).v[i])
#else
static u64 keyOf(const u64& e) { return e; }
#define VALOK(it, m, i) true
#endif
static u64 pat(int mode, int i) {
    switch (mode) {
    case 0: return ((u64)i << 7) | (u64)((i * 5) & 0x7f); // spread
    case 1: return (u64)i;                                // one home position, distinct tags
    case 2: return (u64)i << 20;                          // one home position (while capacity < 2^13), one tag
    default: return ((u64)(i & 1) << 7) | ((u64)i << 24) | (u64)(i % 3); // two home positions, three tags
    }
}
// from any iterator the rest of the container is reached, and no more
template<class K, class It> static void walk(K& c, It it) {
    size_t n = c.size(), head = 0, tail = 0;
    for (It j = it; j != c.end(); ++j) if (++tail > n) break;
    for (It j = c.begin(); j != it; ++j) if (++head > n) break;
    sym_assert(head + tail == n, "advancing a returned iterator does not visit the rest of the elements");
}
static void check_it(C& c, Model& m, decltype(c.begin()) it, u64 key, int i) {
    sym_assert(it != c.end(), "iterator to a present key is end");
    sym_assert(keyOf(*it) == key, "iterator refers to another key");
    sym_assert(VALOK(it, m, i), "mapped value differs from the reference");
    walk(c, it);
#if NODE
    if (m.p[i]) sym_assert(m.p[i] == (const void*)&*it, "element of a node container moved");
    else m.p[i] = (const void*)&*it;
#endif
}
static void check_all(C& c, Model& m) {
    sym_assert(c.size() == m.sz, "size differs from the reference");
    sym_assert(c.empty() == (m.sz == 0), "empty() differs from the reference");
    bool seen[MAXN] = {};
    u64 cnt = 0;
    for (auto it = c.begin(); it != c.end(); ++it) {
        cnt++;
        sym_assert(cnt <= m.sz, "iteration yields more elements than inserted");
        int i = m.find(keyOf(*it));
        sym_assert(i >= 0, "iteration yields a key that is not present");
        if (i < 0) return;
        sym_assert(!seen[i], "iteration yields a key twice");
        seen[i] = true;
        sym_assert(VALOK(it, m, i), "iterated value differs from the reference");
#if NODE
        if (m.p[i]) sym_assert(m.p[i] == (const void*)&*it, "element of a node container moved");
#endif
    }
    sym_assert(cnt == m.sz, "iteration misses elements");
    const C& cc = c;
    for (int i = 0; i < m.n; i++)
        if (m.a[i]) {
            auto it = cc.find(m.k[i]);
            sym_assert(it != cc.end() && keyOf(*it) == m.k[i] && VALOK(it, m, i), "a present key is not found");
        }
}
static void step(C& c, Model& m, int op, int t, u64 h1mask) {
#ifdef MIX
    u64 k = pat(0, (int)sym_choice(MIX, "k")); // the mixing function multiplies: keys are one of MIX values
#else
    u64 k = sym_u64("k", 64);
#endif
    if (h1mask) sym_assume(((k >> 7) & h1mask) == 0);
    u64 v = 1000 + t;
    int i = m.find(k);
    switch (op) {
    case 0: { // insert
#if IS_MAP
        auto r = c.insert({ k, v });
#else
        auto r = c.insert(k);
#endif
        sym_assert(r.second == (i < 0), "insert reports a wrong outcome");
        if (i < 0) i = m.add(k, v);
        check_it(c, m, r.first, k, i);
        sym_cover("insert");
        break;
    }
    case 1: { // emplace / emplace_hint
#if IS_MAP
        auto r = c.emplace(k, v);
#else
        auto r = c.emplace(k);
#endif
        sym_assert(r.second == (i < 0), "emplace reports a wrong outcome");
        if (i < 0) i = m.add(k, v);
        check_it(c, m, r.first, k, i);
        break;
    }
    case 2: { // try_emplace / insert lvalue
#if IS_MAP
        auto r = c.try_emplace(k, v);
#else
        const u64 kk = k;
        auto r = c.insert(kk);
#endif
        sym_assert(r.second == (i < 0), "try_emplace reports a wrong outcome");
        if (i < 0) i = m.add(k, v);
        check_it(c, m, r.first, k, i);
        break;
    }
    case 3: { // insert_or_assign / hinted insert
#if IS_MAP
        auto r = c.insert_or_assign(k, v);
        sym_assert(r.second == (i < 0), "insert_or_assign reports a wrong outcome");
        if (i < 0) i = m.add(k, v); else m.v[i] = v;
        check_it(c, m, r.first, k, i);
#else
        auto r = c.insert(c.cend(), k);
        if (i < 0) i = m.add(k, v);
        check_it(c, m, r, k, i);
#endif
        break;
    }
    case 4: { // operator[] / emplace_hint
#if IS_MAP
        u64& ref = c[k];
        if (i < 0) { sym_assert(ref == 0, "operator[] must value-initialise"); i = m.add(k, 0); }
        else sym_assert(ref == m.v[i], "operator[] refers to another value");
        ref = v; m.v[i] = v;
#else
        auto r = c.emplace_hint(c.cend(), k);
        if (i < 0) i = m.add(k, v);
        check_it(c, m, r, k, i);
#endif
        break;
    }
    case 5: { // erase by key
        auto n = c.erase(k);
        sym_assert(n == (i < 0 ? 0u : 1u), "erase(key) returns a wrong count");
        if (i >= 0) { m.del(i); sym_cover("erase hit"); }
        sym_assert(c.find(k) == c.end(), "erased key is still found");
        break;
    }
    case 6: { // lookup
        const C& cc = c;
        sym_assert(cc.contains(k) == (i >= 0), "contains() differs from the reference");
        sym_assert(cc.count(k) == (i >= 0 ? 1u : 0u), "count() differs from the reference");
        auto er = c.equal_range(k);
        sym_assert((er.first != er.second) == (i >= 0), "equal_range() differs from the reference");
        if (i >= 0) { check_it(c, m, er.first, k, i); sym_cover("lookup hit"); }
#if IS_MAP
        bool threw = false; u64 got = 0;
        try { got = c.at(k); } catch (const std::out_of_range&) { threw = true; }
        sym_assert(threw == (i < 0), "at() throws exactly for absent keys");
        if (i >= 0) sym_assert(got == m.v[i], "at() returns another value");
        threw = false; got = 0; try { got = cc.at(k); } catch (const std::out_of_range&) { threw = true; }
        sym_assert(threw == (i < 0) && (i < 0 || got == m.v[i]), "at() const differs");
#endif
        break;
    }
    case 7: { // erase through an iterator
        auto it = c.find(k);
        sym_assert((it != c.end()) == (i >= 0), "find() differs from the reference");
        if (i >= 0) { c.erase(it); m.del(i); sym_cover("erase iterator"); sym_assert(!c.contains(k), "erased key is still found"); }
        break;
    }
    case 8: c.rehash(0); break;
    case 9: c.reserve(m.sz + (k & 7)); break;
    case 10: c.clear(); for (int q = 0; q < m.n; q++) m.a[q] = false; m.sz = 0; sym_assert(c.begin() == c.end() && c.size() == 0, "clear() leaves elements"); break;
#if IS_MAP
    case 11: { // lazy construction
        bool called = false;
#if PAR
        bool fresh = c.lazy_emplace_l(k, [&](C::value_type& e) { e.second = v; }, [&](const C::constructor& ct) { called = true; ct(k, v); });
        sym_assert(fresh == (i < 0) && called == (i < 0), "lazy_emplace_l calls the wrong function");
        if (i < 0) i = m.add(k, v); else m.v[i] = v;
        check_it(c, m, c.find(k), k, i);
#else
        auto it = c.lazy_emplace(k, [&](const C::constructor& ct) { called = true; ct(k, v); });
        sym_assert(called == (i < 0), "lazy_emplace calls the constructor function exactly for absent keys");
        if (i < 0) i = m.add(k, v);
        check_it(c, m, it, k, i);
#endif
        break;
    }
#else
    case 11: {
        bool called = false;
#if PAR
        bool fresh = c.lazy_emplace_l(k, [&](const u64&) {}, [&](const C::constructor& ct) { called = true; ct(k); });
        sym_assert(fresh == (i < 0) && called == (i < 0), "lazy_emplace_l calls the wrong function");
        if (i < 0) i = m.add(k, v);
        check_it(c, m, c.find(k), k, i);
#else
        auto it = c.lazy_emplace(k, [&](const C::constructor& ct) { called = true; ct(k); });
        sym_assert(called == (i < 0), "lazy_emplace calls the constructor function exactly for absent keys");
        if (i < 0) i = m.add(k, v);
        check_it(c, m, it, k, i);
#endif
        break;
    }
#endif
    }
    sym_assert(c.size() == m.sz, "size differs from the reference");
}
extern "C" void sym_main() {
    int K = (int)sym_param(0), pre = (int)sym_param(1), er = (int)sym_param(2), mode = (int)sym_param(3);
    u64 mask = (u64)sym_param(4), h1 = (u64)sym_param(5);
    {
        C c;
        Model m;
        for (int i = 0; i < pre; i++) {
            u64 k = pat(mode, i);
#if IS_MAP
            c.insert({ k, (u64)i });
#else
            c.insert(k);
#endif
            m.add(k, (u64)i);
#if NODE
            m.p[i] = (const void*)&*c.find(k);
#endif
        }
        for (int i = 0; i < er; i++) { int j = (i * 3) % pre; while (!m.a[j]) j = (j + 1) % pre; c.erase(m.k[j]); m.del(j); }
        int ops[16], no = 0;
        for (int i = 0; i < 16; i++) if (mask >> i & 1) ops[no++] = i;
        for (int t = 0; t < K; t++) step(c, m, ops[sym_choice((unsigned)no, "op")], t, h1);
        check_all(c, m);
    }
    sym_assert(sym_live() == 0, "live heap blocks remain after destruction");
}
