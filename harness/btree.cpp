// B-tree containers against an ordered reference sequence.
// params: 0 steps, 1 prefill, 2 prefill order (0 ascending 1 descending 2 mixed 3 all equal (multi) 4 symbolic), 3 op mask, 4 prefill erases, 5 exceptions, 6 prefill key stride (0 = equal keys in pairs for multi)
#ifndef KIND
#define KIND 0 // 0 set 1 map 2 multiset 3 multimap
#endif
#ifndef EL
#define EL 0 // 0 80-byte trivially copyable (3 per node), 1 16-byte, 2 tracked 80-byte, 3 plain u64 (sets only), 4 32-byte (7 per node)
#endif
#ifndef CMP
#define CMP 0 // 0 functor, 1 std::less, 2 three-way functor, 3 reversed functor, 4 std::greater
#endif
#if EL == 2
#define TRK_PAD 8
#endif
#include "track.h"
#include <gtl/btree.hpp>
#include <vector>
#include <stdexcept>
#define MULTI (KIND >= 2)
#define MAP (KIND % 2 == 1)
#define TRK (EL == 2)
static bool LT(u64 a, u64 b) {
#if CMP == 3 || CMP == 4
    return b < a;
#else
    return a < b;
#endif
}
#if EL == 0
struct E { u64 k, id; u64 pad[8]; };
static E mk(u64 k, u64 id) { E e{ k, id, {} }; e.pad[7] = id; return e; }
static u64 idOf(const E& e) { sym_assert(e.pad[7] == e.id, "an element is torn"); return e.id; }
#elif EL == 4
struct E { u64 k, id; u64 pad[2]; };
static E mk(u64 k, u64 id) { return E{ k, id, { id, id } }; }
static u64 idOf(const E& e) { sym_assert(e.pad[1] == e.id, "an element is torn"); return e.id; }
#elif EL == 1
struct E { u64 k, id; };
static E mk(u64 k, u64 id) { return E{ k, id }; }
static u64 idOf(const E& e) { return e.id; }
#elif EL == 2
struct E : Tr { u64 k; E(u64 kk, u64 i) : Tr(i), k(kk) {} E() : Tr(), k(0) {} };
static E mk(u64 k, u64 id) { return E(k, id); }
static u64 idOf(const E& e) { e.ok(); return e.v; }
#elif EL == 3
typedef u64 E;
static E mk(u64 k, u64) { return k; }
#endif
#if MAP
typedef std::pair<const u64, E> VT;
typedef u64 KT;
static u64 kof(const VT& e) { return e.first; }
static u64 iof(const VT& e) { return idOf(e.second); }
static VT mkv(u64 k, u64 id) { return VT(k, mk(k, id)); }
static KT mkk(u64 k) { return k; }
struct Cmp { bool operator()(u64 a, u64 b) const { return LT(a, b); } };
struct Cmp3 { gtl::weak_ordering operator()(u64 a, u64 b) const { return a < b ? gtl::weak_ordering::less : b < a ? gtl::weak_ordering::greater : gtl::weak_ordering::equivalent; } };
#define IDS 1
#elif EL == 3
typedef u64 VT; typedef u64 KT;
static u64 kof(u64 e) { return e; }
static u64 iof(u64) { return 0; }
static VT mkv(u64 k, u64) { return k; }
static KT mkk(u64 k) { return k; }
struct Cmp { bool operator()(u64 a, u64 b) const { return LT(a, b); } };
struct Cmp3 { gtl::weak_ordering operator()(u64 a, u64 b) const { return a < b ? gtl::weak_ordering::less : b < a ? gtl::weak_ordering::greater : gtl::weak_ordering::equivalent; } };
#define IDS 0
#else
typedef E VT; typedef E KT;
static u64 kof(const E& e) { return e.k; }
static u64 iof(const E& e) { return idOf(e); }
static VT mkv(u64 k, u64 id) { return mk(k, id); }
static KT mkk(u64 k) { return mk(k, 777777); }
struct Cmp { bool operator()(const E& a, const E& b) const { return LT(a.k, b.k); } };
struct Cmp3 { gtl::weak_ordering operator()(const E& x, const E& y) const { u64 a = x.k, b = y.k; return a < b ? gtl::weak_ordering::less : b < a ? gtl::weak_ordering::greater : gtl::weak_ordering::equivalent; } };
#define IDS 1
#endif
#if CMP == 0 || CMP == 3
typedef Cmp CC;
#elif CMP == 1
typedef std::less<KT> CC;
#elif CMP == 2
typedef Cmp3 CC;
#else
typedef std::greater<KT> CC;
#endif
#if ALLOC
typedef TAlloc<VT> AL;
#else
typedef std::allocator<VT> AL;
#endif
#if KIND == 0
typedef gtl::btree_set<KT, CC, AL> C;
#elif KIND == 1
typedef gtl::btree_map<KT, E, CC, AL> C;
#elif KIND == 2
typedef gtl::btree_multiset<KT, CC, AL> C;
#else
typedef gtl::btree_multimap<KT, E, CC, AL> C;
#endif
#ifndef MAXEL
#define MAXEL 80
#endif
static const int MAXN = MAXEL;
struct M {
    u64 k[MAXN], id[MAXN]; unsigned n = 0;
    unsigned lb(u64 x) const { unsigned i = 0; while (i < n && LT(k[i], x)) i++; return i; }
    unsigned ub(u64 x) const { unsigned i = lb(x); while (i < n && k[i] == x) i++; return i; }
    bool has(u64 x) const { unsigned i = lb(x); return i < n && k[i] == x; }
    void ins(unsigned p, u64 x, u64 d) { for (unsigned i = n; i > p; i--) { k[i] = k[i - 1]; id[i] = id[i - 1]; } k[p] = x; id[p] = d; n++; }
    void del(unsigned p) { for (unsigned i = p; i + 1 < n; i++) { k[i] = k[i + 1]; id[i] = id[i + 1]; } n--; }
    // standard insertion: returns the position; inserted tells whether it was
    unsigned add(u64 x, u64 d, bool& ins_) { unsigned p = MULTI ? ub(x) : lb(x); ins_ = MULTI || !(p < n && k[p] == x); if (ins_) ins(p, x, d); return p; }
};
template<class It> static void at(It it, const M& m, unsigned p, const char* what) { sym_assert(kof(*it) == m.k[p], what); if (IDS) sym_assert(iof(*it) == m.id[p], what); }
static void same(C& c, const M& m, const char* what) {
    sym_assert(c.size() == m.n, "size() differs from the reference"); sym_assert(c.empty() == (m.n == 0), "empty() differs from the reference");
    unsigned i = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++i) { sym_assert(i < m.n, "iteration yields too many elements"); if (i >= m.n) return; at(it, m, i, what); }
    sym_assert(i == m.n, "iteration misses elements");
    const C& cc = c;
    for (auto it = cc.rbegin(); it != cc.rend(); ++it) { sym_assert(i > 0, "reverse iteration yields too many elements"); if (!i) return; i--; at(it, m, i, "reverse iteration differs from the reference"); }
    sym_assert(i == 0, "reverse iteration misses elements");
    if (m.n) { auto it = c.end(); --it; at(it, m, m.n - 1, "decrementing end() does not reach the last element"); }
}
static u64 nextId = 1;
static u64 sk() { return sym_u64("k", 64); }
static bool EXC;
template<class F> static bool attempt(F f) {
    if (!EXC) { f(); return true; }
    unsigned k = (unsigned)sym_choice(8, "throw_at"); trk_threw = alloc_failed = false;
    if (k >= 1 && k <= 2) alloc_countdown = (long)k - 1;
    if (k >= 3) trk_countdown = (long)k - 3;
    bool ok = true; try { f(); } catch (const Boom&) { ok = false; } catch (const std::bad_alloc&) { ok = false; }
    trk_countdown = alloc_countdown = -1; if (!ok) sym_cover("exception");
    return ok;
}
static void fillc(C& c, M& m, unsigned n, unsigned order, u64 base, u64 stride) {
    for (unsigned j = 0; j < n; j++) {
        unsigned i = order == 0 ? j : order == 1 ? n - 1 - j : order == 2 ? (j * 7 + 3) % n : order == 3 ? 0 : j;
        if (order == 2) { unsigned s = 0; for (unsigned q = 0; q < n; q++) { i = (q * 7 + 3) % n; if (n % 7 == 0) i = (q * 5 + 3) % n; if (s++ == j) break; } }
        u64 k = order == 4 ? sk() : base + i * stride, id = nextId++; bool in;
        if (order == 5) k = base + (j % 3) * stride;
        m.add(k, id, in);
        c.insert(mkv(k, id));
    }
}
static typename C::iterator nth(C& c, unsigned p) { auto it = c.begin(); while (p--) ++it; return it; }
// the place a symbolic key belongs to
static unsigned place(C& c, M& m) { u64 k = sk(); auto it = c.lower_bound(mkk(k)); unsigned p = m.lb(k); if (p == m.n) sym_assert(it == c.end(), "lower_bound() is wrong"); else if (it == c.end()) sym_assert(false, "lower_bound() is wrong"); else at(it, m, p, "lower_bound() is wrong"); return p; }
static bool step(C& c, M& m, unsigned op) {
    unsigned n = m.n; u64 k = 0, id = nextId++; bool in = false, ok = true;
    M old = m;
    switch (op) {
    case 0: case 1: { // insert / emplace / rvalue insert
        k = sk(); unsigned p = m.add(k, id, in); unsigned how = (unsigned)sym_choice(op ? 1 : 2, "how");
        { VT e = mkv(k, id);
#if MULTI
        ok = attempt([&] { auto it = op ? c.emplace(std::move(e)) : how ? c.insert(e) : c.insert(std::move(e)); if (!EXC) at(it, m, p, "insert() returns a wrong iterator"); });
#else
        ok = attempt([&] { auto r = op ? c.emplace(std::move(e)) : how ? c.insert(e) : c.insert(std::move(e)); sym_assert(r.second == in, "insert() reports a wrong outcome"); if (!EXC) at(r.first, m, p, "insert() returns a wrong iterator"); });
#endif
        }
        sym_cover("insert");
        break; }
    case 2: { // hinted
        k = sk(); unsigned h = (unsigned)sym_choice(n + 1, "hint");
#if MULTI
        unsigned l = m.lb(k), u = m.ub(k); // with a hint the element goes as close to the hint as the order allows
        auto it = c.insert(nth(c, h), mkv(k, id));
        unsigned p = 0; auto jt = c.begin(); while (jt != it && p <= n) { ++jt; p++; }
        sym_assert(p >= l && p <= u, "a hinted insert breaks the order"); if (p < l || p > u) return false;
        if (h >= l && h <= u) sym_assert(p == h, "a usable hint is not used");
        m.ins(p, k, id); at(it, m, p, "hinted insert returns a wrong iterator");
#else
        unsigned p = m.add(k, id, in);
        auto it = sym_choice(2, "how") ? c.insert(nth(c, h), mkv(k, id)) : c.emplace_hint(nth(c, h), mkv(k, id));
        at(it, m, p, "hinted insert returns a wrong iterator");
#endif
        break; }
    case 3: { // erase by key
        k = sk(); unsigned l = m.lb(k), u = m.ub(k); KT kk = mkk(k);
        size_t g = 0; g = c.erase(kk);
        sym_assert(g == u - l, "erase(key) returns a wrong count");
        for (unsigned i = l; i < u; i++) m.del(l);
        if (u > l) sym_cover("erase");
        break; }
    case 4: { // lookups
        k = sk(); unsigned l = m.lb(k), u = m.ub(k); KT kk = mkk(k); const C& cc = c;
        auto idx = [&](typename C::const_iterator it) { unsigned p = 0; auto jt = cc.begin(); while (jt != it) { if (jt == cc.end()) return 9999u; ++jt; p++; } return p; };
        sym_assert(cc.contains(kk) == (u > l), "contains() is wrong"); sym_assert(cc.count(kk) == u - l, "count() is wrong");
        sym_assert(idx(cc.lower_bound(kk)) == l, "lower_bound() is wrong"); sym_assert(idx(cc.upper_bound(kk)) == u, "upper_bound() is wrong");
        auto er = cc.equal_range(kk); sym_assert(idx(er.first) == l && idx(er.second) == u, "equal_range() is wrong");
        auto it = cc.find(kk); sym_assert((it != cc.end()) == (u > l), "find() is wrong"); if (u > l) { unsigned p = idx(it); sym_assert(p >= l && p < u, "find() finds another key"); sym_cover("lookup hit"); }
        auto ml = c.lower_bound(kk); sym_assert(idx(ml) == l, "lower_bound() is wrong"); auto mf = c.find(kk); sym_assert((mf != c.end()) == (u > l), "find() is wrong");
        break; }
    case 5: if (n) { unsigned p = (unsigned)sym_choice(n, "pos"); auto it = c.erase(nth(c, p)); m.del(p); if (p < m.n) { sym_assert(it != c.end(), "erase(iterator) returns end too early"); at(it, m, p, "erase(iterator) does not return the next element"); } else sym_assert(it == c.end(), "erase(iterator) of the last element does not return end"); } break;
    case 6: { unsigned p = (unsigned)sym_choice(n + 1, "pos"), q = p + (unsigned)sym_choice(n - p + 1, "len"); typename C::const_iterator f = nth(c, p), l = nth(c, q); auto it = c.erase(f, l); for (unsigned i = p; i < q; i++) m.del(p);
        if (p < m.n) { sym_assert(it != c.end(), "erase(range) returns end too early"); at(it, m, p, "erase(range) does not return the next element"); } else sym_assert(it == c.end(), "erase(range) does not return end"); sym_cover("range erase"); } break;
    case 7: { // map access
#if KIND == 1
        k = sk(); unsigned how = (unsigned)sym_choice(4, "how");
        if (how == 3) { bool threw = false; u64 g = 0; const C& cc = c; if (sym_choice(2, "const")) try { g = idOf(cc.at(k)); } catch (const std::out_of_range&) { threw = true; } else try { g = idOf(c.at(k)); } catch (const std::out_of_range&) { threw = true; } sym_assert(threw == !m.has(k), "at() throws exactly for absent keys"); if (!threw) sym_assert(g == m.id[m.lb(k)], "at() returns another value"); break; }
        bool had = m.has(k); unsigned p = m.add(k, 0, in);
        if (how == 0) { E& r = c[k]; if (had) sym_assert(idOf(r) == m.id[p], "operator[] refers to another value"); r = mk(k, id); m.id[p] = id; }
        else if (how == 1) { auto r = c.try_emplace(k, mk(k, id)); sym_assert(r.second == !had, "try_emplace() reports a wrong outcome"); if (!had) m.id[p] = id; at(r.first, m, p, "try_emplace() returns a wrong iterator"); }
        else { auto it = c.try_emplace(nth(c, (unsigned)sym_choice(n + 1, "hint")), k, mk(k, id)); if (!had) m.id[p] = id; at(it, m, p, "hinted try_emplace() returns a wrong iterator"); }
#endif
        break; }
    case 8: { // extract and reinsert
        if (!n) break;
        unsigned p = (unsigned)sym_choice(n, "pos"); auto nh = c.extract(nth(c, p)); sym_assert(!nh.empty(), "extract() yields an empty handle");
#if MAP
        sym_assert(nh.key() == m.k[p] && idOf(nh.mapped()) == m.id[p], "the extracted element changed");
#elif IDS
        sym_assert(nh.value().k == m.k[p] && idOf(nh.value()) == m.id[p], "the extracted element changed");
#endif
        u64 ok_ = m.k[p], oi = m.id[p]; m.del(p); same(c, m, "extract() disturbs other elements");
        if (sym_choice(2, "back")) {
#if MULTI
            unsigned q = m.add(ok_, oi, in); auto it = c.insert(std::move(nh)); at(it, m, q, "inserting a node returns a wrong iterator");
#else
            u64 k2 = ok_;
            if (sym_choice(2, "other")) { k2 = sk(); id = nextId++; bool i2; m.add(k2, id, i2); c.insert(mkv(k2, id)); }
            unsigned q = m.add(ok_, oi, in); auto r = c.insert(std::move(nh)); sym_assert(r.inserted == in, "inserting a node reports a wrong outcome"); at(r.position, m, q, "inserting a node returns a wrong iterator");
            sym_assert(r.node.empty() == in, "the node handle is not returned exactly when the insertion fails");
#endif
        }
        break; }
    case 9: c.clear(); m.n = 0; sym_assert(c.begin() == c.end(), "clear() leaves elements"); break;
    case 10: { u64 x = sk(); M r; for (unsigned i = 0; i < n; i++) if (!(m.k[i] < x)) r.ins(r.n, m.k[i], m.id[i]); erase_if(c, [x](const VT& e) { return kof(e) < x; }); m = r; break; }
    case 11: { // inserting an own element
#if MULTI
        if (!n) break;
        unsigned p = (unsigned)sym_choice(n, "pos"); const VT& e = *nth(c, p); u64 kk = m.k[p], ii = m.id[p]; unsigned q = m.ub(kk); auto it = c.insert(e); m.ins(q, kk, ii); at(it, m, q, "inserting an own element loses its value"); sym_cover("alias");
#else
        if (!n) break;
        unsigned p = (unsigned)sym_choice(n, "pos"); auto r = c.insert(*nth(c, p)); sym_assert(!r.second, "inserting an own element succeeds"); at(r.first, m, p, "inserting an own element returns another one");
#endif
        break; }
    case 12: { // key extraction
#if !MULTI
        k = sk(); unsigned l = m.lb(k); bool had = m.has(k); auto nh = c.extract(mkk(k)); sym_assert(nh.empty() == !had, "extract(key) is wrong"); if (had) m.del(l);
#endif
        break; }
    // whole-container operations
    case 13: { C d(c); same(d, m, "copy differs"); sym_assert(d == c && !(d != c) && !(d < c) && !(c < d) && d <= c && d >= c, "a copy does not compare equal");
        C e; M f; fillc(e, f, (unsigned)sym_choice(3, "dn") * 3, 0, 5, 16); e = c; same(e, m, "copy assignment differs"); same(c, m, "copying changed the source"); c = *&c; same(c, m, "self assignment differs");
        step(d, f = m, 0); same(c, m, "changing a copy changes the original"); break; }
    case 14: { C d(std::move(c)); same(d, m, "move construction differs"); M z; same(c, z, "a moved-from container is not empty"); { bool i2; u64 kk = sk(); z.add(kk, id, i2); c.insert(mkv(kk, id)); same(c, z, "a moved-from container is unusable"); }
        C e; M f; fillc(e, f, (unsigned)sym_choice(3, "dn") * 3, 0, 5, 16); e = std::move(d); same(e, m, "move assignment differs"); c = std::move(e); break; }
    case 15: { C d; M f; fillc(d, f, (unsigned)sym_choice(4, "dn") * 2, 0, 5, 16); if (sym_choice(2, "free")) swap(c, d); else c.swap(d); same(d, m, "swap differs"); m = f; break; }
    case 16: { // merge
        C d; M f; fillc(d, f, (unsigned)sym_choice(4, "dn"), 4, 0, 0); M rest;
#if MULTI
        for (unsigned i = 0; i < f.n; i++) { bool i2; m.add(f.k[i], f.id[i], i2); }
#else
        for (unsigned i = 0; i < f.n; i++) { bool i2; m.add(f.k[i], f.id[i], i2); if (!i2) rest.ins(rest.n, f.k[i], f.id[i]); }
#endif
        c.merge(d); same(d, rest, "merge() leaves wrong elements in the source"); sym_cover("merge"); break; }
    case 17: { // range and initializer insertion/construction
        std::vector<VT> src; M f = m, g; unsigned cnt = (unsigned)sym_choice(4, "dn");
        src.reserve(8);
        for (unsigned i = 0; i < cnt; i++) { u64 kk = sk(), ii = nextId++; bool i2; src.push_back(mkv(kk, ii)); f.add(kk, ii, i2); g.add(kk, ii, i2); }
        C d(src.begin(), src.end()); same(d, g, "range construction differs");
        c.insert(src.begin(), src.end()); m = f; break; }
    case 19: { // a run of erasures around one place, leaving neighbouring nodes at every fill
        unsigned R = (unsigned)sym_param(7), p = place(c, m), r = 1 + (unsigned)sym_choice(R, "run"), dir = (unsigned)sym_choice(3, "dir");
        for (unsigned i = 0; i < r && m.n; i++) {
            unsigned q = dir == 0 ? p : dir == 1 ? (p >= i ? p - i : 0) : i % 2 ? (p >= i / 2 + 1 ? p - i / 2 - 1 : 0) : (p >= i / 2 ? p - i / 2 : 0); if (q >= m.n) q = m.n - 1;
            auto it = c.erase(nth(c, q)); m.del(q);
            if (q == m.n) sym_assert(it == c.end(), "erase() returns the wrong iterator"); else if (it == c.end()) sym_assert(false, "erase() returns the wrong iterator"); else at(it, m, q, "erase() returns the wrong iterator");
        }
        sym_cover("run erased"); break; }
    case 20: { // a run of insertions into one gap, ascending or descending
        unsigned R = (unsigned)sym_param(7), p = place(c, m), r = 1 + (unsigned)sym_choice(R, "run"), dir = (unsigned)sym_choice(2, "dir");
        u64 base = LT(1, 0) ? (p < n ? m.k[p] : m.k[n - 1] - 100) : (p ? m.k[p - 1] : m.k[0] - 100);
        for (unsigned i = 0; i < r; i++) { u64 kk = base + 1 + (dir ? r - i : i), d = nextId++; bool i2; m.add(kk, d, i2); c.insert(mkv(kk, d)); }
        sym_cover("run inserted"); break; }
    case 18: { // ordering comparison of two containers
        C d; M f; fillc(d, f, (unsigned)sym_choice(4, "dn"), 4, 0, 0);
#if EL == 3 && (CMP == 0 || CMP == 1)
        bool eq = n == f.n, lt = false, dec = false; for (unsigned i = 0; i < n && i < f.n && !dec; i++) if (m.k[i] != f.k[i]) { dec = true; eq = false; lt = m.k[i] < f.k[i]; } if (!dec) lt = n < f.n;
        sym_assert((c == d) == eq && (c != d) == !eq && (c < d) == lt && (c > d) == (!lt && !eq) && (c <= d) == (lt || eq) && (c >= d) == !lt, "comparison is wrong");
#endif
        break; }
    }
    if (ok) { same(c, m, "contents differ from the reference"); return true; }
    // an exception: a valid container (a single insertion: unchanged), no leak
    m = old;
#if TRK
    sym_assert(trk_live == (long)c.size(), "after an exception the live elements are not exactly the container's");
#endif
    u64 prev = 0; bool first = true; for (auto it = c.begin(); it != c.end(); ++it) { u64 q = kof(*it); iof(*it); if (!first) sym_assert(LT(prev, q) || (MULTI && prev == q), "order broken after an exception"); prev = q; first = false; }
    same(c, m, "an insertion that throws changed the contents");
    return true;
}
#if EL == 0 || EL == 1 || EL == 4
static bool operator==(const E& a, const E& b) { return a.k == b.k && a.id == b.id; }
static bool operator<(const E& a, const E& b) { return a.k < b.k; }
#endif
extern "C" void sym_main() {
    unsigned K = (unsigned)sym_param(0), pre = (unsigned)sym_param(1), ord = (unsigned)sym_param(2); u64 mask = (u64)sym_param(3); unsigned er = (unsigned)sym_param(4); EXC = sym_param(5) != 0;
    {
        C c; M m;
        fillc(c, m, pre, ord, 1000, 16);
        for (unsigned i = 0; i < er; i++) { unsigned p = (i * 5 + 2) % m.n; c.erase(nth(c, p)); m.del(p); }
        same(c, m, "contents differ from the reference");
        unsigned ops[24], no = 0; for (unsigned i = 0; i < 21; i++) if (mask >> i & 1) ops[no++] = i;
        bool go = true;
        for (unsigned t = 0; t < K && go; t++) go = step(c, m, ops[sym_choice(no, "op")]);
    }
#if TRK
    sym_assert(trk_live == 0, "elements remain alive after the container is destroyed");
#endif
    sym_assert(alloc_bytes == 0, "memory is not returned to the allocator");
    sym_assert(sym_live() == 0, "live heap blocks remain after destruction");
}
