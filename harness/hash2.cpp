// Hash containers: whole-container operations, node handles, lifetimes and exceptions, against a reference map.
// params: 0 steps, 1 prefill, 2 prefill erases, 3 key pattern, 4 op mask, 5 H1 restriction mask, 6 exceptions
#ifndef KIND
#define KIND 0 // 0 flat map 1 flat set 2 node map 3 node set, +4 parallel (1 bit of submaps)
#endif
#ifndef EL
#define EL 0 // 0 plain, 1 tracked
#endif
#include "track.h"
#ifndef MIX
#define GTL_DISABLE_MIX 1
#endif
#include <gtl/phmap.hpp>
#include <vector>
#include <utility>
#define MAP (KIND % 2 == 0)
#define NODE (KIND % 4 >= 2)
#define PAR (KIND >= 4)
#define TRK (EL == 1)
#if TRK
struct E : Tr { u64 k; E(u64 kk, u64 i) : Tr(i), k(kk) {} E() : Tr(), k(0) {} bool operator==(const E& o) const { return k == o.k && Tr::operator==(o); } };
static u64 idOf(const E& e) { e.ok(); return e.v; }
#else
struct E { u64 k, id; E(u64 kk = 0, u64 i = 0) : k(kk), id(i) {} bool operator==(const E& o) const { return k == o.k && id == o.id; } };
static u64 idOf(const E& e) { return e.id; }
#endif
#if MAP
typedef u64 KT; typedef std::pair<const u64, E> VT;
struct H { size_t operator()(u64 k) const { return (size_t)k; } };
struct H2_ { size_t operator()(u64 k) const { return (size_t)(k ^ 0x55); } };
struct Q { bool operator()(u64 a, u64 b) const { return a == b; } };
static u64 kof(const VT& e) { return e.first; } static u64 iof(const VT& e) { return idOf(e.second); }
static VT mkv(u64 k, u64 id) { return VT(k, E(k, id)); }
static KT mkk(u64 k) { return k; }
#else
typedef E KT; typedef E VT;
struct H { size_t operator()(const E& k) const { return (size_t)k.k; } };
struct H2_ { size_t operator()(const E& k) const { return (size_t)(k.k ^ 0x55); } };
struct Q { bool operator()(const E& a, const E& b) const { return a.k == b.k; } };
static u64 kof(const VT& e) { return e.k; } static u64 iof(const VT& e) { return idOf(e); }
static VT mkv(u64 k, u64 id) { return E(k, id); }
static KT mkk(u64 k) { return E(k, 777777); }
#endif
#if ALLOC
typedef TAlloc<VT> AL;
#else
typedef std::allocator<VT> AL;
#endif
template<class HH> struct Pick {
#if KIND == 0
    using T = gtl::flat_hash_map<u64, E, HH, Q, AL>;
#elif KIND == 1
    using T = gtl::flat_hash_set<E, HH, Q, AL>;
#elif KIND == 2
    using T = gtl::node_hash_map<u64, E, HH, Q, AL>;
#elif KIND == 3
    using T = gtl::node_hash_set<E, HH, Q, AL>;
#elif KIND == 4
    using T = gtl::parallel_flat_hash_map<u64, E, HH, Q, AL, 1>;
#elif KIND == 5
    using T = gtl::parallel_flat_hash_set<E, HH, Q, AL, 1>;
#elif KIND == 6
    using T = gtl::parallel_node_hash_map<u64, E, HH, Q, AL, 1>;
#elif KIND == 7
    using T = gtl::parallel_node_hash_set<E, HH, Q, AL, 1>;
#endif
};
using C = Pick<H>::T;
static const int MAXN = 56;
struct M {
    u64 k[MAXN], id[MAXN]; const void* p[MAXN]; unsigned n = 0;
    int find(u64 x) const { for (unsigned i = 0; i < n; i++) if (k[i] == x) return (int)i; return -1; }
    bool add(u64 x, u64 d, const void* q = nullptr) { if (find(x) >= 0) return false; k[n] = x; id[n] = d; p[n] = q; n++; return true; }
    void del(unsigned i) { n--; k[i] = k[n]; id[i] = id[n]; p[i] = p[n]; }
    void fresh() { for (unsigned i = 0; i < n; i++) p[i] = nullptr; }
};
static u64 nextId = 1, H1MASK = 0;
static bool EXC, MAYTHROW;
static u64 sk() { u64 k = sym_u64("k", 64); if (H1MASK) sym_assume(((k >> 7) & H1MASK) == 0); return k; }
static u64 pat(int mode, int i) {
    switch (mode) {
    case 0: return ((u64)i << 7) | (u64)((i * 5) & 0x7f);
    case 1: return (u64)i;
    case 2: return (u64)i << 20;
    default: return ((u64)(i & 1) << 7) | ((u64)i << 24) | (u64)(i % 3);
    }
}
template<class It> static void at(It it, M& m, int i, const char* what) {
    sym_assert(kof(*it) == m.k[i], what); sym_assert(iof(*it) == m.id[i], what);
#if NODE
    if (m.p[i]) sym_assert(m.p[i] == (const void*)&*it, "an element of a node container moved"); else m.p[i] = (const void*)&*it;
#endif
}
template<class X> static void same(X& c, M& m, const char* what) {
    sym_assert(c.size() == m.n, "size() differs from the reference"); sym_assert(c.empty() == (m.n == 0), "empty() differs from the reference");
    unsigned cnt = 0; bool seen[MAXN] = {};
    for (auto it = c.begin(); it != c.end(); ++it) {
        cnt++; sym_assert(cnt <= m.n, "iteration yields too many elements"); if (cnt > m.n) return;
        int i = m.find(kof(*it)); sym_assert(i >= 0, what); if (i < 0) return;
        sym_assert(!seen[i], "iteration yields an element twice"); seen[i] = true; at(it, m, i, what);
    }
    sym_assert(cnt == m.n, what);
    const X& cc = c;
    for (unsigned i = 0; i < m.n; i++) { KT kk = mkk(m.k[i]); auto it = cc.find(kk); sym_assert(it != cc.end(), what); if (it != cc.end()) sym_assert(kof(*it) == m.k[i] && iof(*it) == m.id[i], what); }
}
// an operation during which one planned element construction or allocation may fail
template<class F> static bool attempt(F f, unsigned na = 2, unsigned ne = 4) {
    if (!EXC) { f(); return true; }
    unsigned k = (unsigned)sym_choice(1 + na + ne, "throw_at"); trk_threw = alloc_failed = false;
    if (k >= 1 && k <= na) alloc_countdown = (long)k - 1;
    if (k > na) trk_countdown = (long)(k - na) - 1;
    bool ok = true; try { f(); } catch (const Boom&) { ok = false; } catch (const std::bad_alloc&) { ok = false; }
    trk_countdown = alloc_countdown = -1; if (!ok) sym_cover("exception");
    return ok;
}
template<class X> static void fillx(X& c, M& m, unsigned n, bool symbolic, int mode, u64 off = 0) {
    for (unsigned i = 0; i < n; i++) { u64 k = symbolic ? sk() : pat(mode, (int)i) + off, id = nextId++; if (m.add(k, id)) {} c.insert(mkv(k, id)); if (NODE) { int q = m.find(k); KT kk = mkk(k); at(c.find(kk), m, q, "a fresh element differs"); } }
}
static typename C::iterator nth(C& c, unsigned p) { auto it = c.begin(); while (p--) ++it; return it; }
static void usable(C& c, M& m) { u64 k = sk(), id = nextId++; bool in = m.add(k, id); auto r = c.insert(mkv(k, id)); sym_assert(r.second == in, "a container is not usable afterwards"); same(c, m, "a container is not usable afterwards"); KT kk = mkk(k); sym_assert(c.erase(kk) == 1, "a container is not usable afterwards"); m.del((unsigned)m.find(k)); same(c, m, "a container is not usable afterwards"); }
// the elements an iteration from `it` visits must be exactly those in `rest`
static void rest_is(C& c, typename C::iterator it, const std::vector<u64>& rest, const char* what) { size_t i = 0; for (; it != c.end(); ++it, ++i) { sym_assert(i < rest.size() && kof(*it) == rest[i], what); if (i >= rest.size()) return; } sym_assert(i == rest.size(), what); }
static void step(C& c, M& m, unsigned op) {
    unsigned n = m.n; u64 id = nextId++; bool ok = true; bool subset = false; M old = m;
    switch (op) {
    case 0: { u64 k = sk(); bool in = m.add(k, id); unsigned how = (unsigned)sym_choice(2, "how"); VT e = mkv(k, id);
        ok = attempt([&] { auto r = how ? c.insert(e) : c.insert(std::move(e)); if (!EXC) { sym_assert(r.second == in, "insert() reports a wrong outcome"); at(r.first, m, m.find(k), "insert() returns a wrong iterator"); } }); sym_cover("insert"); break; }
    case 1: { u64 k = sk(); bool in = m.add(k, id);
#if MAP
        ok = attempt([&] { auto r = c.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(k, id));
#elif PAR
        ok = attempt([&] { auto r = c.emplace(E(k, id));
#else
        ok = attempt([&] { auto r = c.emplace(k, id);
#endif
            if (!EXC) { sym_assert(r.second == in, "emplace() reports a wrong outcome"); at(r.first, m, m.find(k), "emplace() returns a wrong iterator"); } });
        break; }
    case 2: { u64 k = sk(); int i = m.find(k); KT kk = mkk(k); sym_assert(c.erase(kk) == (i >= 0 ? 1u : 0u), "erase(key) returns a wrong count"); if (i >= 0) { m.del((unsigned)i); sym_cover("erase"); } break; }
#if !PAR
    case 3: if (n) { unsigned p = (unsigned)sym_choice(n, "pos"); auto it = nth(c, p); u64 k = kof(*it); std::vector<u64> rest; auto jt = it; for (++jt; jt != c.end(); ++jt) rest.push_back(kof(*jt)); auto r = c.erase(it); rest_is(c, r, rest, "erase(iterator) does not return the next element"); m.del((unsigned)m.find(k)); } break;
    case 4: { unsigned p = (unsigned)sym_choice(n + 1, "pos"), q = p + (unsigned)sym_choice(n - p + 1, "len"); auto f = nth(c, p), l = nth(c, q); std::vector<u64> gone, rest; for (auto j = f; j != l; ++j) gone.push_back(kof(*j)); for (auto j = l; j != c.end(); ++j) rest.push_back(kof(*j));
        typename C::const_iterator cf = f, cl = l; auto r = c.erase(cf, cl); rest_is(c, r, rest, "erase(range) does not return the end of the range"); for (u64 k : gone) m.del((unsigned)m.find(k)); sym_cover("range erase"); break; }
    case 5: { u64 x = sk(); M r; for (unsigned i = 0; i < n; i++) if (!(m.k[i] < x)) r.add(m.k[i], m.id[i], m.p[i]); auto cnt = erase_if(c, [x](const VT& e) { return kof(e) < x; }); sym_assert(cnt == n - r.n, "erase_if() returns a wrong count"); m = r; break; }
#else
    case 3: if (n) { unsigned p = (unsigned)sym_choice(n, "pos"); auto it = nth(c, p); u64 k = kof(*it); c.erase(it); m.del((unsigned)m.find(k)); } break;
    case 5: { u64 x = sk(); M r; for (unsigned i = 0; i < n; i++) if (!(m.k[i] < x)) r.add(m.k[i], m.id[i], m.p[i]); for (auto it = c.begin(); it != c.end();) { if (kof(*it) < x) c._erase(it++); else ++it; } m = r; break; }
#endif
    case 6: c.clear(); m.n = 0; same(c, m, "clear() leaves elements"); break;
    case 7: {
#if MAP
        u64 k = sk(); unsigned how = (unsigned)sym_choice(3, "how"); int i = m.find(k); bool in = i < 0;
        E val(k, id);
        ok = attempt([&] {
            if (how == 0) { auto r = c.insert_or_assign(k, val); if (!EXC) sym_assert(r.second == in, "insert_or_assign() reports a wrong outcome"); }
            else if (how == 1) { auto r = c.try_emplace(k, k, id); if (!EXC) sym_assert(r.second == in, "try_emplace() reports a wrong outcome"); }
            else c[k] = val;
        });
        if (in) m.add(k, id); else if (how != 1) m.id[i] = id;
        if (!ok) { if (!in) { m = old; m.id[i] = how == 1 ? old.id[i] : idOf(c.find(k)->second); old = m; } else if (how == 2 && c.size() > n) { old.add(k, 0); m = old; } }
#endif
        break; }
    case 8: { // node handles
        if (!n) break;
        unsigned p = (unsigned)sym_choice(n, "pos"); auto it = nth(c, p); u64 k = kof(*it), i0 = iof(*it); const void* adr = NODE ? (const void*)&*it : nullptr; unsigned how = (unsigned)sym_choice(2, "how");
        KT kk = mkk(k);
#if PAR
        typename C::node_type nh = c.extract(kk);
#else
        typename C::node_type nh = how ? c.extract(kk) : c.extract(typename C::const_iterator(it));
#endif
        sym_assert(!nh.empty() && bool(nh), "extract() yields an empty handle"); m.del((unsigned)m.find(k)); same(c, m, "extract() disturbs other elements");
#if MAP
        sym_assert(nh.key() == k && idOf(nh.mapped()) == i0, "the extracted element changed"); if (NODE) sym_assert((const char*)&nh.mapped() - (const char*)adr == (long)sizeof(u64), "an extracted element of a node container moved");
#else
        sym_assert(kof(nh.value()) == k && iof(nh.value()) == i0, "the extracted element changed"); if (NODE) sym_assert((const void*)&nh.value() == adr, "an extracted element of a node container moved");
#endif
        { typename C::node_type nh2(std::move(nh)); sym_assert(nh.empty() && !nh2.empty(), "moving a node handle does not transfer it"); nh = std::move(nh2); }
        if (sym_choice(2, "back")) {
            if (sym_choice(2, "other")) { u64 k2 = sk(), d2 = nextId++; m.add(k2, d2); c.insert(mkv(k2, d2)); sym_cover("node insert contention"); }
            bool in = m.find(k) < 0; if (in) m.add(k, i0, adr);
            auto r = c.insert(std::move(nh)); sym_assert(r.inserted == in, "inserting a node reports a wrong outcome"); at(r.position, m, m.find(k), "inserting a node returns a wrong iterator");
            sym_assert(r.node.empty() == in, "the node handle is not handed back exactly when the insertion fails"); if (!in) {
#if MAP
                sym_assert(idOf(r.node.mapped()) == i0, "the node handed back changed");
#else
                sym_assert(iof(r.node.value()) == i0, "the node handed back changed");
#endif
            }
        }
        break; }
    case 9: { // copies
        long live = trk_live;
        ok = attempt([&] { C d(c); M g = m; g.fresh(); same(d, g, "a copy differs"); if (!EXC) { sym_assert(d == c && !(d != c), "a copy does not compare equal"); usable(d, g); } }, 3, 4);
        if (!ok) sym_cover("copy exception");
        if (TRK) sym_assert(trk_live == live, "copying leaks or loses elements"); same(c, m, "copying changes the source");
        if (ok) { C e; M f; fillx(e, f, (unsigned)sym_choice(3, "dn") * 3, false, 1, 64); M g = m; g.fresh(); bool ok2 = attempt([&] { e = c; }, 3, 4); if (ok2) same(e, g, "copy assignment differs"); else same(e, f, "a failed copy assignment changed the target"); }
        if (!EXC) { c = *&c; m.fresh(); same(c, m, "self assignment changes the contents"); }
        ok = true; old = m; break; }
    case 10: { C d(std::move(c)); same(d, m, "move construction differs"); M z; same(c, z, "a moved-from container is not empty"); usable(c, z);
        C e; M f; fillx(e, f, (unsigned)sym_choice(3, "dn") * 3, false, 1, 64); e = std::move(d); same(e, m, "move assignment differs"); M y; same(d, y, "a moved-from container is not empty"); c = std::move(e); break; }
    case 11: { C d; M f; fillx(d, f, (unsigned)sym_choice(4, "dn") * 2, false, 1, 64); if (sym_choice(2, "free")) swap(c, d); else c.swap(d); same(d, m, "swap differs"); usable(d, m); m = f; break; }
    case 12: { // merge
        M f, rest; unsigned dn = (unsigned)sym_choice(3, "dn");
        auto go = [&](auto& d) { fillx(d, f, dn, true, 0); M g = m; for (unsigned i = 0; i < f.n; i++) if (!g.add(f.k[i], f.id[i], f.p[i])) rest.add(f.k[i], f.id[i], f.p[i]); 
            ok = attempt([&] { c.merge(d); }, 2, 0);
            if (ok) { m = g; same(d, rest, "merge() leaves wrong elements in the source"); sym_cover("merge"); }
            else { sym_assert(c.size() + d.size() == n + f.n, "an interrupted merge() loses elements"); for (auto it = d.begin(); it != d.end(); ++it) { int i = f.find(kof(*it)); sym_assert(i >= 0 && iof(*it) == f.id[i], "an interrupted merge() changes elements"); } for (auto it = c.begin(); it != c.end(); ++it) { int i = g.find(kof(*it)); sym_assert(i >= 0 && iof(*it) == g.id[i], "an interrupted merge() changes elements"); } m.n = 0; for (auto it = c.begin(); it != c.end(); ++it) m.add(kof(*it), iof(*it)); for (unsigned i = 0; i < old.n; i++) sym_assert(m.find(old.k[i]) >= 0, "an interrupted merge() loses elements"); old = m; ok = true; } };
        { C d; go(d); }
        break; }
    case 13: { // ranges
        std::vector<VT> src; src.reserve(4); M f = m, g; unsigned cnt = (unsigned)sym_choice(4, "dn");
        for (unsigned i = 0; i < cnt; i++) { u64 kk = sk(), ii = nextId++; src.push_back(mkv(kk, ii)); f.add(kk, ii); g.add(kk, ii); }
        long live = trk_live;
        bool ok2 = attempt([&] { C d(src.begin(), src.end()); same(d, g, "range construction differs"); });
        if (TRK) sym_assert(trk_live == live, "a range construction leaks elements");
        if (!EXC && cnt == 3) { g.fresh(); C d({ src[0], src[1], src[2] }); same(d, g, "initializer construction differs"); }
        ok = attempt([&] { c.insert(src.begin(), src.end()); });
        if (ok) m = f; else { // a prefix was inserted
            for (auto it = c.begin(); it != c.end(); ++it) { int i = f.find(kof(*it)); sym_assert(i >= 0 && iof(*it) == f.id[i], "an interrupted range insertion changes elements"); }
            m.n = 0; unsigned q = 0; for (auto it = c.begin(); it != c.end(); ++it) { q++; m.add(kof(*it), iof(*it)); } sym_assert(q == c.size() && q == m.n, "size() is wrong after an exception");
            for (unsigned i = 0; i < old.n; i++) sym_assert(m.find(old.k[i]) >= 0, "an interrupted range insertion loses elements");
            old = m; ok = true; }
        break; }
    case 14: { // equality
        C d; M f; bool copy = sym_choice(2, "copy"); if (copy) { for (unsigned i = 0; i < n; i++) { f.add(m.k[i], m.id[i]); } if (sym_choice(2, "big")) d.reserve(n * 4 + 8); for (unsigned i = n; i-- > 0;) d.insert(mkv(m.k[i], m.id[i])); if (n && sym_choice(2, "drop")) { unsigned p = (unsigned)sym_choice(n, "pos"); u64 gk = f.k[p]; KT kk = mkk(gk); d.erase(kk); f.del(p); u64 k = sk(); if (f.add(k, 5)) d.insert(mkv(k, 5)); } } else fillx(d, f, (unsigned)sym_choice(3, "dn"), true, 0);
        bool eq = n == f.n; for (unsigned i = 0; i < n && eq; i++) { int j = f.find(m.k[i]); if (j < 0 || f.id[j] != m.id[i]) eq = false; }
        sym_assert((c == d) == eq && (d == c) == eq && (c != d) == !eq, "== is wrong"); if (eq) sym_cover("equal"); else sym_cover("unequal"); break; }
    case 15: { unsigned r = (unsigned)sym_choice(40, "count"); bool res = sym_choice(2, "reserve"); ok = attempt([&] { if (res) c.reserve(r); else c.rehash(r); }, 1, 0); if (!ok) m = old; else { sym_cover("rehash"); u64 qk = sk(); KT kk = mkk(qk); sym_assert((c.find(kk) != c.end()) == (m.find(qk) >= 0), "lookup after a rehash is wrong"); } break; }
    case 17: { u64 k = sk(); int i = m.find(k); KT kk = mkk(k); const C& cc = c; sym_assert(cc.contains(kk) == (i >= 0) && cc.count(kk) == (i >= 0 ? 1u : 0u), "lookup is wrong"); auto it = c.find(kk); sym_assert((it != c.end()) == (i >= 0), "find() is wrong"); if (i >= 0) at(it, m, i, "find() finds another element"); break; }
    }
    if (ok) { same(c, m, "contents differ from the reference"); return; }
    m = old;
    same(c, m, "an operation that threw changed the contents");
#if TRK
    sym_assert(trk_live == (long)c.size(), "after an exception the live elements are not exactly the container's");
#endif
}
extern "C" void sym_main() {
    unsigned K = (unsigned)sym_param(0), pre = (unsigned)sym_param(1), er = (unsigned)sym_param(2); int mode = (int)sym_param(3); u64 mask = (u64)sym_param(4); H1MASK = (u64)sym_param(5); EXC = sym_param(6) != 0;
    {
        C c; M m;
        fillx(c, m, pre, false, mode);
        for (unsigned i = 0; i < er; i++) { unsigned p = (i * 5 + 2) % m.n; KT kk = mkk(m.k[p]); c.erase(kk); m.del(p); }
        unsigned ops[24], no = 0; for (unsigned i = 0; i < 18; i++) if (mask >> i & 1) ops[no++] = i;
        for (unsigned t = 0; t < K; t++) step(c, m, ops[sym_choice(no, "op")]);
    }
#if TRK
    sym_assert(trk_live == 0, "elements remain alive after the container is destroyed");
#endif
    sym_assert(alloc_bytes == 0, "memory is not returned to the allocator");
    sym_assert(sym_live() == 0, "live heap blocks remain after destruction");
}
