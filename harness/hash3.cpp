// Hash containers: constructors, stateful hash / equality functions and allocators through copies, moves, assignments and swaps,
// and the single-element overloads the other harnesses do not use (hints, given hash values, rvalue keys).
// params: 0 steps, 1 prefill, 2 prefill erases, 3 op mask, 4 H1 restriction mask
#ifndef KIND
#define KIND 0 // 0 flat map 1 flat set 2 node map 3 node set, +4 parallel (1 bit of submaps)
#endif
#ifndef PROPAGATE
#define PROPAGATE 0 // 1 on copy assignment, 2 on move assignment, 4 on swap
#endif
#include "track.h"
#define GTL_DISABLE_MIX 1
#include <gtl/phmap.hpp>
#include <memory>
#include <tuple>
#include <vector>
#define MAP (KIND % 2 == 0)
#define NODE (KIND % 4 >= 2)
#define PAR (KIND >= 4)
// an owned value: moving from it leaves it marked
struct O { u64 v; O(u64 x = 0) : v(x) {} O(const O& o) : v(o.v) {} O(O&& o) noexcept : v(o.v) { o.v = 0xdeadull << 40; } O& operator=(const O& o) { v = o.v; return *this; } O& operator=(O&& o) noexcept { u64 x = o.v; o.v = 0xdeadull << 40; v = x; return *this; } bool operator==(const O& o) const { return v == o.v; } };
// functions with state; one that was moved from must not be used
struct Fn { u64 seed; bool valid = true; Fn(u64 s = 0) : seed(s) {} Fn(const Fn& o) : seed(o.seed), valid(o.valid) {} Fn(Fn&& o) noexcept : seed(o.seed), valid(o.valid) { o.valid = false; } Fn& operator=(const Fn& o) { seed = o.seed; valid = o.valid; return *this; } Fn& operator=(Fn&& o) noexcept { u64 s = o.seed; bool b = o.valid; o.valid = false; seed = s; valid = b; return *this; } void use() const { sym_assert(valid, "a moved-from hash or equality function is used"); } };
struct H : Fn { using Fn::Fn; size_t operator()(const O& o) const { use(); return (size_t)(o.v ^ seed); } };
struct Q : Fn { using Fn::Fn; bool operator()(const O& a, const O& b) const { use(); return a.v == b.v; } };
template<class T> struct PA {
    using value_type = T; u64 id;
    using propagate_on_container_copy_assignment = std::bool_constant<(PROPAGATE & 1) != 0>;
    using propagate_on_container_move_assignment = std::bool_constant<(PROPAGATE & 2) != 0>;
    using propagate_on_container_swap = std::bool_constant<(PROPAGATE & 4) != 0>;
    using is_always_equal = std::false_type;
    PA(u64 i = 0) : id(i) {} template<class X> PA(const PA<X>& o) : id(o.id) {}
    PA select_on_container_copy_construction() const { return PA(id + 100); }
    T* allocate(size_t n) { u64* p = (u64*)::operator new(n * sizeof(T) + 16); p[0] = n; p[1] = id; alloc_bytes += (long)(n * sizeof(T)); return (T*)(p + 2); }
    void deallocate(T* q, size_t n) { u64* p = (u64*)q - 2; sym_assert(p[0] == n, "deallocate() is given another size than allocate()"); sym_assert(p[1] == id, "memory is returned to another allocator"); alloc_bytes -= (long)(n * sizeof(T)); ::operator delete(p); }
    bool operator==(const PA& o) const { return id == o.id; } bool operator!=(const PA& o) const { return id != o.id; }
};
#if MAP
typedef std::pair<const O, O> VT; typedef std::pair<O, O> IT;
static u64 kof(const VT& e) { return e.first.v; } static u64 iof(const VT& e) { return e.second.v; }
static IT mki(u64 k, u64 id) { return IT(O(k), O(id)); }
#else
typedef O VT; typedef O IT;
static u64 kof(const O& e) { return e.v; } static u64 iof(const O&) { return 0; }
static O mki(u64 k, u64) { return O(k); }
#endif
typedef PA<VT> A;
#if KIND == 0
using C = gtl::flat_hash_map<O, O, H, Q, A>;
#elif KIND == 1
using C = gtl::flat_hash_set<O, H, Q, A>;
#elif KIND == 2
using C = gtl::node_hash_map<O, O, H, Q, A>;
#elif KIND == 3
using C = gtl::node_hash_set<O, H, Q, A>;
#elif KIND == 4
using C = gtl::parallel_flat_hash_map<O, O, H, Q, A, 1>;
#elif KIND == 5
using C = gtl::parallel_flat_hash_set<O, H, Q, A, 1>;
#elif KIND == 6
using C = gtl::parallel_node_hash_map<O, O, H, Q, A, 1>;
#elif KIND == 7
using C = gtl::parallel_node_hash_set<O, H, Q, A, 1>;
#endif
static const int MAXN = 24;
struct M { // reference: contents, state of the functions and the allocator
    u64 k[MAXN], id[MAXN]; const void* p[MAXN]; unsigned n = 0; u64 h = 0, e = 0, a = 0;
    int find(u64 x) const { for (unsigned i = 0; i < n; i++) if (k[i] == x) return (int)i; return -1; }
    bool add(u64 x, u64 d, const void* q = nullptr) { if (find(x) >= 0) return false; k[n] = x; id[n] = MAP ? d : 0; p[n] = q; n++; return true; }
    void del(unsigned i) { n--; k[i] = k[n]; id[i] = id[n]; p[i] = p[n]; }
    M& fresh() { for (unsigned i = 0; i < n; i++) p[i] = nullptr; return *this; }
    M& state(const M& o) { h = o.h; e = o.e; return *this; }
};
static u64 nextId = 1, H1MASK = 0, SEED = 0x187;
static u64 sk() { u64 k = sym_u64("k", 64); if (H1MASK) sym_assume((((k ^ SEED) >> 7) & H1MASK) == 0); return k; }
// from any iterator the rest of the container is reached, and no more
template<class K, class It> static void walk(K& c, It it) {
    size_t n = c.size(), head = 0, tail = 0;
    for (It j = it; j != c.end(); ++j) if (++tail > n) break;
    for (It j = c.begin(); j != it; ++j) if (++head > n) break;
    sym_assert(head + tail == n, "advancing a returned iterator does not visit the rest of the elements");
}
static C* cur; // the container the returned iterators belong to
template<class It> static void at(It it, M& m, int i, const char* what) {
    sym_assert(i >= 0, what); if (i < 0) return;
    sym_assert(kof(*it) == m.k[i] && iof(*it) == m.id[i], what);
    if (cur) { if constexpr (std::is_same_v<It, typename C::iterator>) walk(*cur, it); else walk(*(const C*)cur, it); }
#if NODE
    if (m.p[i]) sym_assert(m.p[i] == (const void*)&*it, "an element of a node container moved"); else m.p[i] = (const void*)&*it;
#endif
}
static void same(C& c, M& m, const char* what) {
    sym_assert(c.size() == m.n && c.empty() == (m.n == 0), "size() or empty() differs from the reference");
    sym_assert(c.hash_function().seed == m.h && c.hash_function().valid, "the container has another hash function than it should");
    sym_assert(c.key_eq().seed == m.e && c.key_eq().valid, "the container has another equality function than it should");
    sym_assert(c.get_allocator().id == m.a, "the container has another allocator than it should");
    unsigned cnt = 0; bool seen[MAXN] = {}; const C& cc = c;
    for (auto it = cc.cbegin(); it != cc.cend(); it++) {
        cnt++; sym_assert(cnt <= m.n, "iteration yields too many elements"); if (cnt > m.n) return;
        int i = m.find(kof(*it)); sym_assert(i >= 0, what); if (i < 0) return; sym_assert(!seen[i], "iteration yields an element twice"); seen[i] = true; at(it, m, i, what);
    }
    sym_assert(cnt == m.n, what);
    for (unsigned i = 0; i < m.n; i++) { O kk(m.k[i]); auto it = cc.find(kk); sym_assert(it != cc.end(), what); if (it != cc.end()) sym_assert(kof(*it) == m.k[i] && iof(*it) == m.id[i], what); }
}
static void usable(C& c, M& m) { u64 k = sk(), id = nextId++; bool in = m.add(k, id); auto r = c.insert(mki(k, id)); sym_assert(r.second == in, "a container is not usable afterwards"); same(c, m, "a container is not usable afterwards"); sym_assert(c.erase(O(k)) == 1, "a container is not usable afterwards"); m.del((unsigned)m.find(k)); same(c, m, "a container is not usable afterwards"); }
static void put(C& c, M& m, u64 k, u64 id) { m.add(k, id); c.insert(mki(k, id)); }
static typename C::iterator nth(C& c, unsigned p) { auto it = c.begin(); while (p--) ++it; return it; }
// another container, of symbolic size, with its own functions and allocator
struct Other { M m; C c; Other(u64 h, u64 e, u64 a) : c(0, H(h), Q(e), A(a)) { m.h = h; m.e = e; m.a = a; unsigned n = (unsigned)sym_choice(3, "dn"); for (unsigned i = 0; i < n; i++) put(c, m, ((u64)i << 7 | 3) ^ h, nextId++); } };
static void gone(C& d, M& was, bool stolen, const char* what) { M z; z.state(was); z.a = was.a; if (stolen) { same(d, z, what); } else d.clear(); same(d, z, what); usable(d, z); }
static void step(C& c, M& m, unsigned op) {
    unsigned n = m.n; u64 id = nextId++; cur = op >= 6 ? &c : nullptr;
    switch (op) {
    case 0: { // constructors
        u64 k[3], d[3]; M x; unsigned cnt = 3; for (unsigned i = 0; i < 3; i++) { k[i] = sk(); d[i] = nextId++; } for (unsigned i = 0; i < cnt; i++) x.add(k[i], d[i]);
        std::vector<IT> v; v.reserve(3); for (unsigned i = 0; i < 3; i++) v.push_back(mki(k[i], d[i]));
        size_t b = (size_t)sym_choice(4, "buckets") * 3; H h(SEED + 1); Q q(8); A a(9); M y = x; M z;
        auto test = [&](C&& t, M& r, u64 hs, u64 es, u64 as, size_t bc) { r.h = hs; r.e = es; r.a = as; same(t, r, "a constructor yields other contents"); sym_assert(t.bucket_count() >= bc, "a constructor ignores the bucket count"); if (bc == b) usable(t, r); };
        switch (sym_choice(17, "ctor")) {
        case 0: test(C(), z, 0, 0, 0, 0); break; case 1: test(C(b), z, 0, 0, 0, b); break; case 2: test(C(b, h), z, SEED + 1, 0, 0, b); break; case 3: test(C(b, h, q, a), z, SEED + 1, 8, 9, b); break;
        case 4: test(C(b, h, a), z, SEED + 1, 0, 9, b); break; case 5: test(C(b, a), z, 0, 0, 9, b); break; case 6: test(C(a), z, 0, 0, 9, 0); break;
        case 7: test(C(v.begin(), v.end(), b, h, q, a), y, SEED + 1, 8, 9, b); break; case 8: test(C(v.begin(), v.end(), b, h, a), y, SEED + 1, 0, 9, b); break; case 9: test(C(v.begin(), v.end(), b, a), y, 0, 0, 9, b); break;
        case 10: test(C(v.begin(), v.end(), a), y, 0, 0, 9, 0); break; case 11: test(C(v.begin(), v.end()), y, 0, 0, 0, 0); break;
        case 12: test(C({ mki(k[0], d[0]), mki(k[1], d[1]), mki(k[2], d[2]) }, b, h, q, a), y, SEED + 1, 8, 9, b); break; case 13: test(C({ mki(k[0], d[0]), mki(k[1], d[1]), mki(k[2], d[2]) }, b, h, a), y, SEED + 1, 0, 9, b); break;
        case 14: test(C({ mki(k[0], d[0]), mki(k[1], d[1]), mki(k[2], d[2]) }, b, a), y, 0, 0, 9, b); break; case 15: test(C({ mki(k[0], d[0]), mki(k[1], d[1]), mki(k[2], d[2]) }, a), y, 0, 0, 9, 0); break;
        default: test(C({ mki(k[0], d[0]), mki(k[1], d[1]), mki(k[2], d[2]) }), y, 0, 0, 0, 0); break;
        }
        sym_cover("constructed"); break; }
    case 1: { // copies
        { C d(c); M g = m; g.fresh(); g.a = m.a + 100; same(d, g, "a copy differs"); usable(d, g); }
        { u64 na = sym_choice(2, "alloc") ? m.a : 55; C d(c, A(na)); M g = m; g.fresh(); g.a = na; same(d, g, "a copy with an allocator differs"); usable(d, g); }
        break; }
    case 2: { // moves
        u64 na = sym_choice(2, "alloc") ? m.a : 55; bool stolen = na == m.a;
        if (sym_choice(2, "how")) { C d(std::move(c)); same(d, m, "a moved container differs"); usable(d, m); gone(c, m, true, "a moved-from container is not empty"); c.swap(d); same(c, m, "swap of a moved-from container differs"); }
        else { C d(std::move(c), A(na)); M g = m; g.a = na; if (!stolen) g.fresh(); same(d, g, "a container moved with an allocator differs"); usable(d, g); gone(c, m, stolen, "a moved-from container is not empty"); m.n = 0; sym_cover(stolen ? "moved" : "moved elementwise"); for (unsigned i = 0; i < g.n; i++) put(c, m, g.k[i], g.id[i]); }
        break; }
    case 3: { Other o(SEED * 3, 6, sym_choice(2, "alloc") ? m.a : 56); if (sym_choice(2, "dir")) { M g = o.m; g.fresh(); g.a = PROPAGATE & 1 ? o.m.a : m.a; c = o.c; m = g; } else { M g = m; g.fresh(); g.a = PROPAGATE & 1 ? m.a : o.m.a; o.c = c; o.m = g; } same(c, m, "copy assignment differs"); same(o.c, o.m, "copy assignment changes the source"); usable(o.c, o.m); usable(c, m); c = *&c; m.fresh(); break; }
    case 4: { Other o(SEED * 3, 6, sym_choice(2, "alloc") ? m.a : 56); bool st = PROPAGATE & 2 || o.m.a == m.a;
        if (sym_choice(2, "dir")) { M g = o.m; if (!st) g.fresh(); g.a = PROPAGATE & 2 ? o.m.a : m.a; M was = o.m; c = std::move(o.c); m = g; same(c, m, "move assignment differs"); usable(c, m); gone(o.c, was, st, "a moved-from container is not empty"); }
        else { M g = m; if (!st) g.fresh(); g.a = PROPAGATE & 2 ? m.a : o.m.a; o.c = std::move(c); same(o.c, g, "move assignment differs"); usable(o.c, g); gone(c, m, st, "a moved-from container is not empty"); m.n = 0; for (unsigned i = 0; i < g.n; i++) put(c, m, g.k[i], g.id[i]); }
        break; }
    case 5: { Other o(SEED * 3, 6, PROPAGATE & 4 ? 57 : m.a); if (sym_choice(2, "how")) swap(c, o.c); else o.c.swap(c); std::swap(m, o.m); if (!(PROPAGATE & 4)) std::swap(m.a, o.m.a); same(c, m, "swap differs"); same(o.c, o.m, "swap differs"); usable(c, m); usable(o.c, o.m); break; }
    case 6: { // insertion overloads
        u64 k = sk(); int i = m.find(k); bool in = i < 0; O key(k), val(id); IT e = mki(k, id); auto hint = n ? nth(c, 0) : c.end(); typename C::const_iterator ch = hint; size_t hv = c.hash(key); sym_assert(hv == (size_t)(k ^ m.h), "hash() is not the hash function's value"); m.add(k, id); i = m.find(k); bool assigned = false; const IT& ce = e;
        bool kept = true; // was an rvalue argument left alone when nothing was inserted
        switch (sym_choice(MAP ? 16 : 8, "how")) {
        case 0: at(c.insert(ch, ce), m, i, "insert(hint, value) returns a wrong iterator"); break;
        case 1: at(c.insert(ch, std::move(e)), m, i, "insert(hint, rvalue) returns a wrong iterator"); break;
        case 2: at(c.emplace_hint(ch, ce), m, i, "emplace_hint() returns a wrong iterator"); break;
        case 3: { auto r = c.emplace_with_hash(hv, ce); at(r.first, m, i, "emplace_with_hash() returns a wrong iterator"); sym_assert(r.second == in, "emplace_with_hash() reports a wrong outcome"); break; }
        case 4: at(c.emplace_hint_with_hash(hv, ch, ce), m, i, "emplace_hint_with_hash() returns a wrong iterator"); break;
        case 5: { auto r = c.insert(std::move(e)); sym_assert(r.second == in, "insert() reports a wrong outcome"); at(r.first, m, i, "insert() returns a wrong iterator"); if (!in && !(MAP == 0 && 0)) kept = kof(VT(std::move(e))) == k; break; }
        case 6: c.insert({ e }); break;
        case 7: { u64 k2 = sk(), d2 = nextId++; m.add(k2, d2); c.insert({ e, mki(k2, d2) }); break; }
#if MAP
        case 8: { auto r = c.try_emplace(std::move(key), std::move(val)); sym_assert(r.second == in, "try_emplace() reports a wrong outcome"); at(r.first, m, i, "try_emplace() returns a wrong iterator"); if (!in) kept = key.v == k && val.v == id; break; }
        case 9: at(c.try_emplace(ch, key, std::move(val)), m, i, "try_emplace(hint) returns a wrong iterator"); if (!in) kept = val.v == id; break;
        case 10: { auto r = c.insert_or_assign(std::move(key), std::move(val)); assigned = true; m.id[i] = id; sym_assert(r.second == in, "insert_or_assign() reports a wrong outcome"); at(r.first, m, i, "insert_or_assign() returns a wrong iterator"); if (!in) kept = key.v == k; break; }
        case 11: m.id[i] = id; at(c.insert_or_assign(ch, key, val), m, i, "insert_or_assign(hint) returns a wrong iterator"); break;
        case 12: { O& r = c[std::move(key)]; if (in) m.id[i] = 0; sym_assert(r.v == m.id[i], "[] yields a wrong element"); if (!in) kept = key.v == k; r = O(id); m.id[i] = id; break; }
        case 13: { auto r = c.emplace(std::move(key), std::move(val)); sym_assert(r.second == in, "emplace() reports a wrong outcome"); at(r.first, m, i, "emplace() returns a wrong iterator"); if (!in) kept = key.v == k && val.v == id; break; }
        case 14: { auto r = c.try_emplace(key); if (in) m.id[i] = 0; sym_assert(r.second == in, "try_emplace() reports a wrong outcome"); at(r.first, m, i, "try_emplace() returns a wrong iterator"); break; }
        case 15: at(c.try_emplace(ch, std::move(key), val), m, i, "try_emplace(hint) returns a wrong iterator"); if (!in) kept = key.v == k; break;
#endif
        }
        (void)assigned; sym_assert(kept, "an insertion that found the key consumed its arguments"); sym_cover(in ? "inserted" : "found"); break; }
    case 7: { // lookup overloads
        u64 k = sk(); int i = m.find(k); O key(k); size_t hv = c.hash(key); const C& cc = c;
        sym_assert(cc.contains(key, hv) == (i >= 0) && cc.contains(key) == (i >= 0) && cc.count(key) == (i >= 0 ? 1u : 0u), "contains(key, hash) is wrong");
        auto it = c.find(key, hv); auto jt = cc.find(key, hv); sym_assert((it != c.end()) == (i >= 0) && (jt != cc.end()) == (i >= 0), "find(key, hash) is wrong"); if (i >= 0) { at(it, m, i, "find(key, hash) finds another element"); at(jt, m, i, "find(key, hash) finds another element"); }
        auto r = c.equal_range(key); auto s = cc.equal_range(key); sym_assert((r.first != r.second) == (i >= 0) && (s.first != s.second) == (i >= 0), "equal_range() is wrong"); if (i >= 0) { at(r.first, m, i, "equal_range() is wrong"); at(s.first, m, i, "equal_range() is wrong"); sym_assert(++r.first == r.second && ++s.first == s.second, "equal_range() is not one element"); }
        c.prefetch(key);
#if MAP
        bool threw = false; try { sym_assert(c.at(key).v == m.id[i < 0 ? 0 : i], "at() yields a wrong element"); } catch (const std::out_of_range&) { threw = true; } sym_assert(threw == (i < 0), "at() throws wrongly");
        threw = false; try { sym_assert(cc.at(key).v == m.id[i < 0 ? 0 : i], "at() yields a wrong element"); } catch (const std::out_of_range&) { threw = true; } sym_assert(threw == (i < 0), "at() const throws wrongly");
#endif
        float lf = c.load_factor(); sym_assert(lf >= 0 && lf <= c.max_load_factor() && (lf > 0) == (n > 0), "load_factor() is wrong"); sym_assert(c.max_size() > n && c.capacity() >= n && c.bucket_count() == c.capacity(), "capacity() is wrong"); break; }
    case 8: { // node handles through hints and given hash values
        if (!n) break; unsigned p = (unsigned)sym_choice(n, "pos"); u64 k = kof(*nth(c, p)); O key(k); int i = m.find(k); u64 d = m.id[i]; const void* adr = m.p[i];
        typename C::node_type nh = c.extract(key); m.del((unsigned)i); sym_assert(!nh.empty() && nh.get_allocator().id == m.a, "extract() yields a wrong handle"); same(c, m, "extract() disturbs other elements");
        bool again = sym_choice(2, "again"); if (again) put(c, m, k, id); else m.add(k, d, adr); i = m.find(k);
        if (sym_choice(2, "how") || PAR) { at(c.insert(typename C::const_iterator(c.begin()), std::move(nh)), m, i, "insert(hint, node) returns a wrong iterator"); sym_assert(nh.empty() == !again, "insert(hint, node) keeps or loses the node wrongly"); if (again) sym_assert(nh.get_allocator().id == m.a, "insert(hint, node) hands back a wrong node"); }
#if !PAR
        else { auto r = c.insert(std::move(nh), c.hash(key)); at(r.position, m, i, "insert(node, hash) returns a wrong iterator"); sym_assert(r.inserted == !again && r.node.empty() == !again, "insert(node, hash) reports a wrong outcome"); }
#endif
        typename C::node_type none; auto r = c.insert(std::move(none)); sym_assert(!r.inserted && r.position == c.end() && r.node.empty(), "inserting an empty node handle does something"); sym_cover("node"); break; }
    }
}
extern "C" void sym_main() {
    unsigned K = (unsigned)sym_param(0), pre = (unsigned)sym_param(1), er = (unsigned)sym_param(2); u64 mask = (u64)sym_param(3); H1MASK = (u64)sym_param(4);
    {
        C c(0, H(SEED), Q(5), A(7)); M m; m.h = SEED; m.e = 5; m.a = 7;
        for (unsigned i = 0; i < pre; i++) put(c, m, ((u64)i << 3) ^ SEED, nextId++);
        for (unsigned i = 0; i < er; i++) { unsigned p = (i * 5 + 2) % m.n; c.erase(O(m.k[p])); m.del(p); }
        same(c, m, "contents differ from the reference");
        unsigned ops[16], no = 0; for (unsigned i = 0; i < 9; i++) if (mask >> i & 1) ops[no++] = i;
        for (unsigned t = 0; t < K; t++) { step(c, m, ops[sym_choice(no, "op")]); same(c, m, "contents differ from the reference"); }
    }
    sym_assert(alloc_bytes == 0, "memory is not returned to the allocator");
    sym_assert(sym_live() == 0, "live heap blocks remain after destruction");
}
