// vector and B-trees: constructors and stateful comparators / allocators through copies, moves, assignments and swaps.
// params: 0 steps, 1 prefill, 2 op mask
#ifndef KIND
#define KIND 0 // 0 set 1 map 2 multiset 3 multimap 4 vector 5 vector of a tracked element
#endif
#ifndef PROPAGATE
#define PROPAGATE 0 // 1 on copy assignment, 2 on move assignment, 4 on swap
#endif
#include "track.h"
#include <memory>
#include <vector>
#if KIND >= 4
#include <gtl/vector.hpp>
#else
#include <gtl/btree.hpp>
#endif
#define MAP (KIND == 1 || KIND == 3)
#define MULTI (KIND == 2 || KIND == 3)
#define VEC (KIND >= 4)
struct Cmp { bool rev; bool valid = true; Cmp(bool r = false) : rev(r) {} Cmp(const Cmp& o) noexcept : rev(o.rev), valid(o.valid) {} Cmp(Cmp&& o) noexcept : rev(o.rev), valid(o.valid) { o.valid = false; } Cmp& operator=(const Cmp& o) noexcept { rev = o.rev; valid = o.valid; return *this; } Cmp& operator=(Cmp&& o) noexcept { bool r = o.rev, v = o.valid; o.valid = false; rev = r; valid = v; return *this; }
    bool operator()(const u64& a, const u64& b) const { sym_assert(valid, "a moved-from comparator is used"); return rev ? b < a : a < b; } };
template<class T> struct PA {
    using value_type = T; u64 id;
    using propagate_on_container_copy_assignment = std::bool_constant<(PROPAGATE & 1) != 0>;
    using propagate_on_container_move_assignment = std::bool_constant<(PROPAGATE & 2) != 0>;
    using propagate_on_container_swap = std::bool_constant<(PROPAGATE & 4) != 0>;
    using is_always_equal = std::false_type;
    PA(u64 i = 0) : id(i) {} template<class X> PA(const PA<X>& o) : id(o.id) {}
    PA select_on_container_copy_construction() const { return PA(id + 100); }
    T* allocate(size_t n) { u64* p = (u64*)::operator new(n * sizeof(T) + 16); p[0] = n; p[1] = id; alloc_bytes += (long)(n * sizeof(T)); return (T*)(p + 2); }
    void deallocate(T* q, size_t n) { u64* p = (u64*)q - 2; sym_assert(p[0] == n, "deallocate() is given another size than allocate()"); sym_assert(p[1] == id, "memory is returned to another allocator"); alloc_bytes -= (long)(n * sizeof(T)); ::operator delete(p); }
    bool operator==(const PA& o) const { return id == o.id; } bool operator!=(const PA& o) const { return id != o.id; }
};
#if KIND == 0
typedef u64 VT; using C = gtl::btree_set<u64, Cmp, PA<VT>>;
#elif KIND == 1
typedef std::pair<const u64, u64> VT; using C = gtl::btree_map<u64, u64, Cmp, PA<VT>>;
#elif KIND == 2
typedef u64 VT; using C = gtl::btree_multiset<u64, Cmp, PA<VT>>;
#elif KIND == 3
typedef std::pair<const u64, u64> VT; using C = gtl::btree_multimap<u64, u64, Cmp, PA<VT>>;
#elif KIND == 4
typedef u64 VT; using C = gtl::vector<u64, PA<VT>>;
#else
typedef Tr VT; using C = gtl::vector<Tr, PA<VT>>;
#endif
typedef PA<VT> A;
#if MAP
typedef std::pair<u64, u64> IT; static u64 kof(const VT& e) { return e.first; } static u64 iof(const VT& e) { return e.second; } static IT mk(u64 k, u64 d) { return IT(k, d); }
#elif KIND == 5
typedef Tr IT; static u64 kof(const VT& e) { e.ok(); return e.v; } static u64 iof(const VT&) { return 0; } static IT mk(u64 k, u64) { return Tr(k); }
#else
typedef u64 IT; static u64 kof(const VT& e) { return e; } static u64 iof(const VT&) { return 0; } static IT mk(u64 k, u64) { return k; }
#endif
static const int MAXN = 40;
struct M { u64 k[MAXN], d[MAXN]; unsigned n = 0; bool rev = false; u64 a = 0;
    bool less(u64 x, u64 y) const { return rev ? y < x : x < y; }
    bool add(u64 x, u64 id) { if (!MAP) id = 0; unsigned i = n; if (!VEC) { for (i = 0; i < n && !less(x, k[i]); i++) {} if (!MULTI && i && k[i - 1] == x) return false; } for (unsigned j = n; j > i; j--) { k[j] = k[j - 1]; d[j] = d[j - 1]; } k[i] = x; d[i] = id; n++; return true; }
};
static u64 nextId = 1;
static void same(C& c, M& m, const char* what) {
    sym_assert(c.size() == m.n && c.empty() == (m.n == 0), "size() differs from the reference"); sym_assert(c.get_allocator().id == m.a, "the container has another allocator than it should");
#if !VEC
    sym_assert(c.key_comp().rev == m.rev && c.key_comp().valid, "the container has another comparator than it should");
    { const C& cc = c; unsigned i = m.n; for (auto it = cc.crbegin(); it != cc.crend(); ++it) { if (!i) { sym_assert(false, what); return; } i--; sym_assert(kof(*it) == m.k[i] && iof(*it) == m.d[i], what); } sym_assert(i == 0, what); }
    for (unsigned i = 0; i < m.n; i++) sym_assert(c.contains(m.k[i]), "an element is not found");
#endif
    unsigned i = 0; const C& cc = c; for (auto it = cc.cbegin(); it != cc.cend(); ++it, ++i) { if (i >= m.n) { sym_assert(false, what); return; } sym_assert(kof(*it) == m.k[i] && iof(*it) == m.d[i], what); } sym_assert(i == m.n, what);
}
static void put(C& c, M& m, u64 k) { u64 id = nextId++; m.add(k, id);
#if VEC
    c.push_back(mk(k, id));
#else
    c.insert(mk(k, id));
#endif
}
static u64 uk = 1000; static u64 fk() { return VEC ? sym_u64("k", 64) : (uk += 37) % 1024; } // a B-tree orders its keys: they stay concrete here
static void usable(C& c, M& m) { for (int i = 0; i < 3; i++) put(c, m, fk()); same(c, m, "a container is not usable afterwards"); }
static void gone(C& c, M& was, bool stolen) { M z; z.rev = was.rev; z.a = was.a; if (!stolen) c.clear(); same(c, z, "a moved-from container is not empty"); usable(c, z); }
struct Other { M m; C c;
#if VEC
    Other(bool rev, u64 a) : c(A(a))
#else
    Other(bool rev, u64 a) : c(Cmp(rev), A(a))
#endif
    { m.rev = !VEC && rev; m.a = a; unsigned n = (unsigned)sym_choice(4, "dn") * 2; for (unsigned i = 0; i < n; i++) put(c, m, 500 + i * 3); } };
#define PMA(c, g) sym_assert(c.get_allocator().id == g.a, "move assignment does not follow propagate_on_container_move_assignment")
static void step(C& c, M& m, unsigned op) {
    switch (op) {
    case 0: { u64 k[3]; M x; std::vector<IT> v; v.reserve(3); u64 d = nextId; nextId += 3; A a(9); bool rev = false; unsigned how = (unsigned)sym_choice(10, "ctor");
        for (unsigned i = 0; i < 3; i++) { k[i] = i == 1 ? sym_u64("k", 64) : fk(); v.push_back(mk(k[i], d + i)); }
        auto test = [&](C&& t, bool elems, bool r, u64 al) { x.rev = r; x.a = al; if (elems) for (unsigned i = 0; i < 3; i++) x.add(k[i], d + i); same(t, x, "a constructor yields other contents"); usable(t, x); };
#if VEC
        auto fill = [&](C&& t, unsigned n, u64 val, u64 al) { x.a = al; for (unsigned i = 0; i < n; i++) x.add(val, 0); same(t, x, "a constructor yields other contents"); usable(t, x); };
        size_t n = (size_t)sym_choice(4, "n");
        switch (how) { case 0: test(C(), false, false, 0); break; case 1: test(C(a), false, false, 9); break; case 2: test(C(v.begin(), v.end(), a), true, false, 9); break; case 3: test(C(v.begin(), v.end()), true, false, 0); break; case 4: test(C({ v[0], v[1], v[2] }, a), true, false, 9); break; case 5: fill(C(n), (unsigned)n, 0, 0); break; case 6: fill(C(n, a), (unsigned)n, 0, 9); break; case 7: fill(C(n, v[0], a), (unsigned)n, k[0], 9); break; case 8: { C t; t = { v[0], v[1], v[2] }; test(std::move(t), true, false, 0); break; } default: { C t(a); t.assign(v.begin(), v.end()); t.assign(n, v[1]); fill(std::move(t), (unsigned)n, k[1], 9); break; } }
#else
        switch (how) { case 0: test(C(), false, false, 0); break; case 1: test(C(Cmp(true)), false, true, 0); break; case 2: test(C(Cmp(true), a), false, true, 9); break; case 3: test(C(v.begin(), v.end()), true, false, 0); break; case 4: test(C(v.begin(), v.end(), Cmp(true)), true, true, 0); break; case 5: test(C(v.begin(), v.end(), Cmp(true), a), true, true, 9); break;
        case 6: test(C({ v[0], v[1], v[2] }), true, false, 0); break; case 7: test(C({ v[0], v[1], v[2] }, Cmp(true)), true, true, 0); break; case 8: test(C({ v[0], v[1], v[2] }, Cmp(true), a), true, true, 9); break; default:
#if !MULTI
        test(C({ v[0], v[1], v[2] }, a), true, false, 9);
#endif
        break; }
#endif
        (void)rev; sym_cover("constructed"); break; }
    case 1: { { C d(c); M g = m; g.a = d.get_allocator().id; sym_assert(g.a == m.a || g.a == m.a + 100, "a copy has another allocator"); same(d, g, "a copy differs"); usable(d, g); }
#if VEC
        { u64 na = sym_choice(2, "alloc") ? m.a : 55; C d(c, A(na)); M g = m; g.a = na; same(d, g, "a copy with an allocator differs"); usable(d, g); }
#endif
        break; }
    case 2: {
#if VEC
        if (sym_choice(2, "how")) { u64 na = sym_choice(2, "alloc") ? m.a : 55; bool st = na == m.a; C d(std::move(c), A(na)); M g = m; g.a = na; same(d, g, "a container moved with an allocator differs"); usable(d, g); M was = m; gone(c, was, st); c.clear(); m.n = 0; break; }
#endif
        C d(std::move(c)); same(d, m, "a moved container differs"); { M was = m; gone(c, was, true); } usable(d, m); c.swap(d); break; }
    case 3: { Other o(true, sym_choice(2, "alloc") ? m.a : 56); if (sym_choice(2, "dir")) { M g = o.m; g.a = PROPAGATE & 1 ? o.m.a : m.a; c = o.c; m = g; } else { M g = m; g.a = PROPAGATE & 1 ? m.a : o.m.a; o.c = c; o.m = g; } same(c, m, "copy assignment differs"); same(o.c, o.m, "copy assignment changes the source"); usable(o.c, o.m); c = *&c; break; }
    case 4: { Other o(true, sym_choice(2, "alloc") ? m.a : 56); bool st = PROPAGATE & 2 || o.m.a == m.a;
        if (sym_choice(2, "dir")) { M g = o.m; g.a = PROPAGATE & 2 ? o.m.a : m.a; c = std::move(o.c); m = g; PMA(c, g); same(c, m, "move assignment differs"); o.c.clear(); sym_cover(st ? "moved" : "moved elementwise"); o.c = c; }
        else { M g = m; g.a = PROPAGATE & 2 ? m.a : o.m.a; o.c = std::move(c); PMA(o.c, g); same(o.c, g, "move assignment differs"); usable(o.c, g); c.clear(); m.n = 0; m.a = c.get_allocator().id;
#if !VEC
            m.rev = c.key_comp().rev;
#endif
        }
        break; }
    case 5: { Other o(true, PROPAGATE & 4 ? 57 : m.a); if (sym_choice(2, "how")) swap(c, o.c); else o.c.swap(c); std::swap(m, o.m); if (!(PROPAGATE & 4)) std::swap(m.a, o.m.a); same(c, m, "swap differs"); same(o.c, o.m, "swap differs"); usable(o.c, o.m); break; }
    }
}
extern "C" void sym_main() {
    unsigned K = (unsigned)sym_param(0), pre = (unsigned)sym_param(1); u64 mask = (u64)sym_param(2);
    {
#if VEC
        C c{ A(7) };
#else
        C c(Cmp(false), A(7));
#endif
        M m; m.a = 7; for (unsigned i = 0; i < pre; i++) put(c, m, i * 10 + 5);
        unsigned ops[16], no = 0; for (unsigned i = 0; i < 6; i++) if (mask >> i & 1) ops[no++] = i;
        for (unsigned t = 0; t < K; t++) { step(c, m, ops[sym_choice(no, "op")]); same(c, m, "contents differ from the reference"); }
        usable(c, m);
    }
    sym_assert(trk_live == 0, "elements remain alive after the container is destroyed");
    sym_assert(alloc_bytes == 0, "memory is not returned to the allocator");
    sym_assert(sym_live() == 0, "live heap blocks remain after destruction");
}
