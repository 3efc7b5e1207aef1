// gtl::vector against a reference sequence; one (or more) operations from every (size, spare capacity) state.
// params: 0 steps, 1 max size, 2 max spare, 3 op mask lo, 4 exceptions (0/1), 5 max count
#ifndef ELT
#define ELT 0 // 0 u64, 1 24-byte trivially copyable struct, 2 tracked class, 3 tracked class with throwing move, 4 tracked, padded to 72 bytes
#endif
#if ELT == 3
#define TRK_NOEXCEPT_MOVE 0
#endif
#if ELT == 4
#define TRK_PAD 7
#endif
#include "track.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <iterator>
#include <memory>
#include <stdexcept>
static void* my_malloc(size_t n) { return alloc_tick() ? nullptr : malloc(n); }
#define malloc(n) my_malloc(n)
#include <gtl/vector.hpp>
#undef malloc
#if ELT == 0
typedef u64 T;
static u64 val(const T& t) { return t; }
#elif ELT == 1
struct T { u64 a, b, c; T() : a(0), b(~(u64)0), c(0) {} T(u64 x) : a(x), b(~x), c(x) {} bool operator==(const T& o) const { return a == o.a && b == o.b; } bool operator<(const T& o) const { return a < o.a; } };
static u64 val(const T& t) { sym_assert(((t.a ^ t.c) | (t.b ^ ~t.a)) == 0, "an element is torn"); return t.a; }
#else
typedef Tr T;
static u64 val(const T& t) { t.ok(); return t.v; }
#endif
#if ALLOC
typedef gtl::vector<T, TAlloc<T>> V;
#else
typedef gtl::vector<T> V;
#endif
static const int MAXN = 40;
struct S { // reference sequence
    u64 a[MAXN]; unsigned n = 0;
    void ins(unsigned p, u64 x) { for (unsigned i = n; i > p; i--) a[i] = a[i - 1]; a[p] = x; n++; }
    void del(unsigned p) { for (unsigned i = p; i + 1 < n; i++) a[i] = a[i + 1]; n--; }
    void push(u64 x) { a[n++] = x; }
};
static void same(V& v, const S& s, const char* what) {
    sym_assert(v.size() == s.n, "size() differs from the reference");
    sym_assert(v.empty() == (s.n == 0), "empty() differs from the reference");
    sym_assert(v.capacity() >= s.n, "capacity() is below size()");
    if (v.size() != s.n) return;
    for (unsigned i = 0; i < s.n; i++) sym_assert(val(v[i]) == s.a[i], what);
}
static u64 fresh() { return sym_u64("v", 64); }
struct InIt { // single-pass input iterator over values
    using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = T;
    const u64* p; 
    T operator*() const { return T(*p); }
    InIt& operator++() { ++p; return *this; } InIt operator++(int) { InIt r = *this; ++p; return r; }
    bool operator==(const InIt& o) const { return p == o.p; } bool operator!=(const InIt& o) const { return p != o.p; }
};
struct FwIt : InIt { using iterator_category = std::forward_iterator_tag; FwIt& operator++() { ++p; return *this; } FwIt operator++(int) { FwIt r = *this; ++p; return r; } };
static unsigned MAXC;
static bool EXC;
static void build(V& v, S& s, unsigned n, unsigned spare) {
    if (n + spare) v.reserve(n + spare);
    for (unsigned i = 0; i < n; i++) { u64 x = fresh(); v.emplace_back(x); s.push(x); }
}
// run an operation; with EXC a planned exception may interrupt it.  Returns false when interrupted.
template<class F>
static bool attempt(F f) {
#if ELT < 2 && !ALLOC
    if (!EXC) { f(); return true; }
#else
    if (!EXC) { f(); return true; }
#endif
    unsigned k = (unsigned)sym_choice(9, "throw_at"); // 0: no exception, 1..3: the k-th allocation fails, 4..8: the k-th element operation throws
    trk_threw = alloc_failed = false;
    if (k >= 1 && k <= 3) alloc_countdown = (long)k - 1;
    if (k >= 4) trk_countdown = (long)k - 4;
    bool ok = true;
    try { f(); } catch (const Boom&) { ok = false; } catch (const std::bad_alloc&) { ok = false; }
    trk_countdown = alloc_countdown = -1;
    if (!ok) { sym_cover("exception"); sym_assert(trk_threw || alloc_failed, "an exception out of nowhere"); }
    return ok;
}
static void valid(V& v) { // after an exception: some valid state, no leaked or doubly destroyed element
    sym_assert(v.size() <= v.capacity(), "size exceeds capacity after an exception");
    for (size_t i = 0; i < v.size() && i < MAXN; i++) val(v[i]);
#if ELT >= 2
    sym_assert(trk_live == (long)v.size(), "after an exception the live elements are not exactly the vector's");
#endif
}
// op 0..: returns through s the expected sequence
static bool step(V& v, S& s, unsigned op) {
    unsigned n = s.n;
    S old = s;
    bool strong = false, ok = true;
    u64 x = 0;
    auto pos = [&](unsigned lim) { return (unsigned)sym_choice(lim + 1, "pos"); };
    auto cnt = [&]() { return (unsigned)sym_choice(MAXC + 1, "cnt"); };
    switch (op) {
    case 0: { x = fresh(); T t(x); ok = attempt([&] { v.push_back(t); }); s.push(x); strong = true; if (ok) sym_assert(val(t) == x, "push_back(const&) changed its argument"); break; }
    case 1: { x = fresh(); T t(x); ok = attempt([&] { v.push_back(std::move(t)); }); s.push(x); strong = true; break; }
    case 2: { x = fresh(); ok = attempt([&] { T& r = v.emplace_back(x); sym_assert(&r == &v.back(), "emplace_back() returns another element"); }); s.push(x); strong = true; break; }
    case 3: if (n) { v.pop_back(); s.n--; } break;
    case 4: { unsigned p = pos(n); x = fresh(); T t(x); ok = attempt([&] { auto it = v.insert(v.cbegin() + p, t); sym_assert((size_t)(it - v.begin()) == p, "insert() returns a wrong iterator"); }); s.ins(p, x); break; }
    case 5: { unsigned p = pos(n); x = fresh(); T t(x); ok = attempt([&] { auto it = v.insert(v.cbegin() + p, std::move(t)); sym_assert((size_t)(it - v.begin()) == p, "insert() returns a wrong iterator"); }); s.ins(p, x); break; }
    case 6: { unsigned p = pos(n), c = cnt(); x = fresh(); T t(x); ok = attempt([&] { auto it = v.insert(v.cbegin() + p, (size_t)c, t); sym_assert((size_t)(it - v.begin()) == p, "insert(n) returns a wrong iterator"); }); for (unsigned i = 0; i < c; i++) s.ins(p, x); break; }
    case 7: case 8: { unsigned p = pos(n), c = cnt(); u64 q[8]; for (unsigned i = 0; i < c; i++) q[i] = fresh();
        ok = attempt([&] {
            if (op == 7) { FwIt a, b; a.p = q; b.p = q + c; auto it = v.insert(v.cbegin() + p, a, b); sym_assert((size_t)(it - v.begin()) == p, "insert(range) returns a wrong iterator"); }
            else { InIt a{ q }, b{ q + c }; auto it = v.insert(v.cbegin() + p, a, b); sym_assert((size_t)(it - v.begin()) == p, "insert(input range) returns a wrong iterator"); } });
        for (unsigned i = 0; i < c; i++) s.ins(p + i, q[i]); break; }
    case 9: { unsigned p = pos(n); x = fresh(); u64 y = fresh(); T a(x), b(y); T arr[2] = { a, b };
        unsigned w = (unsigned)sym_choice(2, "il");
        ok = attempt([&] { if (w) v.insert(v.cbegin() + p, (const T*)arr, (const T*)arr + 2); else v.insert(v.cbegin() + p, { arr[0], arr[1] }); }); s.ins(p, x); s.ins(p + 1, y);
        if (!ok) { // the harness' own temporaries are gone by now; only the four locals remain
#if ELT >= 2
            trk_live -= 4; valid(v); trk_live += 4;
#endif
            return false;
        }
        break; }
    case 10: { unsigned p = pos(n); x = fresh(); ok = attempt([&] { auto it = v.emplace(v.cbegin() + p, x); sym_assert((size_t)(it - v.begin()) == p, "emplace() returns a wrong iterator"); }); s.ins(p, x); break; }
    case 11: if (n) { unsigned p = pos(n - 1); ok = attempt([&] { auto it = v.erase(v.cbegin() + p); sym_assert((size_t)(it - v.begin()) == p, "erase() returns a wrong iterator"); }); s.del(p); } break;
    case 12: { unsigned p = pos(n), c = (unsigned)sym_choice(n - p + 1, "len"); ok = attempt([&] { auto it = v.erase(v.cbegin() + p, v.cbegin() + p + c); sym_assert((size_t)(it - v.begin()) == p, "erase(range) returns a wrong iterator"); }); for (unsigned i = 0; i < c; i++) s.del(p); break; }
    case 13: { unsigned m = (unsigned)sym_choice(n + MAXC + 1, "newsize"); ok = attempt([&] { v.resize(m); }); while (s.n > m) s.n--; while (s.n < m) s.push(0); strong = true; break; }
    case 14: { unsigned m = (unsigned)sym_choice(n + MAXC + 1, "newsize"); x = fresh(); T t(x); ok = attempt([&] { v.resize(m, t); }); while (s.n > m) s.n--; while (s.n < m) s.push(x); strong = true; break; }
    case 15: { unsigned m = (unsigned)sym_choice(n + MAXC + 1, "newsize"); x = fresh(); T t(x); ok = attempt([&] { v.assign((size_t)m, t); }); s.n = 0; while (s.n < m) s.push(x); break; }
    case 16: case 17: { unsigned m = (unsigned)sym_choice(n + MAXC + 1, "newsize"); if (m > 8) m = 8; u64 q[8]; for (unsigned i = 0; i < m; i++) q[i] = fresh();
        ok = attempt([&] { if (op == 16) { FwIt a, b; a.p = q; b.p = q + m; v.assign(a, b); } else v.assign(InIt{ q }, InIt{ q + m }); });
        s.n = 0; for (unsigned i = 0; i < m; i++) s.push(q[i]); break; }
    case 18: { x = fresh(); u64 y = fresh(); { T a(x), b(y); if (sym_choice(2, "how")) v = { a, b }; else v.assign({ a, b }); } s.n = 0; s.push(x); s.push(y); break; }
    case 19: { unsigned m = (unsigned)sym_choice(n + MAXC + 3, "cap"); const T* d = v.data(); size_t oc = v.capacity(); ok = attempt([&] { v.reserve(m); }); strong = true;
        if (ok) { sym_assert(v.capacity() >= m, "reserve() does not provide the capacity"); if (m <= oc) sym_assert(v.data() == d && v.capacity() == oc, "reserve() within the capacity reallocates"); } break; }
    case 20: { ok = attempt([&] { v.shrink_to_fit(); }); strong = true; sym_assert(ok, "shrink_to_fit() throws"); break; }
    case 21: v.clear(); s.n = 0; break;
    case 22: { V c(v); same(c, s, "copy construction differs"); V d; S e; build(d, e, (unsigned)sym_choice(4, "dn"), (unsigned)sym_choice(3, "ds")); d = c; same(d, s, "copy assignment differs"); same(c, s, "copy assignment changed its source"); v = *&v; d = std::move(c); same(d, s, "move assignment differs"); break; }
    case 23: { const T* d = v.data(); V c(std::move(v)); same(c, s, "move construction differs"); sym_assert(c.data() == d, "move construction reallocates"); S z; same(v, z, "a moved-from vector is not empty"); v = std::move(c); break; }
    case 24: { V d; S e; build(d, e, (unsigned)sym_choice(3, "dn"), (unsigned)sym_choice(2, "ds")); if (sym_choice(2, "free")) swap(v, d); else v.swap(d); same(d, s, "swap differs"); same(v, e, "swap differs"); v.swap(v); s = e; break; }
    // arguments that live in the vector itself
    case 25: if (n) { unsigned i = pos(n - 1); x = s.a[i]; unsigned w = (unsigned)sym_choice(2, "how"); ok = attempt([&] { if (w) v.push_back(v[i]); else v.emplace_back(v[i]); }); s.push(x); strong = true; sym_cover("alias"); } break;
    case 26: if (n) { unsigned i = pos(n - 1), p = pos(n); x = s.a[i]; ok = attempt([&] { v.insert(v.cbegin() + p, v[i]); }); s.ins(p, x); } break;
    case 27: if (n) { unsigned i = pos(n - 1), p = pos(n), c = cnt(); x = s.a[i]; ok = attempt([&] { v.insert(v.cbegin() + p, (size_t)c, v[i]); }); for (unsigned k = 0; k < c; k++) s.ins(p, x); } break;
    case 28: if (n) { unsigned i = pos(n - 1), p = pos(n); x = s.a[i]; ok = attempt([&] { v.emplace(v.cbegin() + p, v[i]); }); s.ins(p, x); } break;
    case 29: if (n) { unsigned i = pos(n - 1), m = (unsigned)sym_choice(n + MAXC + 1, "newsize"); x = s.a[i]; ok = attempt([&] { v.resize(m, v[i]); }); while (s.n > m) s.n--; while (s.n < m) s.push(x); strong = true; } break;
    case 30: if (n) { unsigned i = pos(n - 1), m = (unsigned)sym_choice(n + MAXC + 1, "newsize"); x = s.a[i]; ok = attempt([&] { v.assign((size_t)m, v[i]); }); s.n = 0; while (s.n < m) s.push(x); } break;
    case 31: { // comparison and access
        V d; S e; unsigned m = (unsigned)sym_choice(4, "dn"); for (unsigned i = 0; i < m; i++) { x = fresh(); d.push_back(T(x)); e.push(x); }
        bool eq = n == m, lt = false, dec = false;
        for (unsigned i = 0; i < n && i < m && !dec; i++) { if (s.a[i] != e.a[i]) { eq = false; dec = true; lt = s.a[i] < e.a[i]; } }
        if (!dec) lt = n < m;
        sym_assert((v == d) == eq && (v != d) == !eq, "== is wrong"); sym_assert((v < d) == lt && (v >= d) == !lt, "< is wrong"); sym_assert((v > d) == (!lt && !eq) && (v <= d) == (lt || eq), "> is wrong");
        break; }
    case 32: { unsigned i = (unsigned)sym_choice(n + 2, "at"); bool threw = false; u64 g = 0; const V& cv = v; if (sym_choice(2, "const")) try { g = val(cv.at(i)); } catch (const std::out_of_range&) { threw = true; } else try { g = val(v.at(i)); } catch (const std::out_of_range&) { threw = true; }
        sym_assert(threw == (i >= n), "at() throws exactly beyond the end"); if (i < n) sym_assert(g == s.a[i], "at() returns another element");
        if (n) { sym_assert(val(v.front()) == s.a[0] && val(v.back()) == s.a[n - 1] && val(cv.front()) == s.a[0] && val(cv.back()) == s.a[n - 1] && v.data() == &v[0], "front()/back()/data() are wrong");
            unsigned k = n; for (auto it = v.rbegin(); it != v.rend(); ++it) { sym_assert(k > 0 && val(*it) == s.a[--k], "reverse iteration is wrong"); } sym_assert(k == 0, "reverse iteration is wrong"); } break; }
    case 33: if (n) { // erase by value
        unsigned i = pos(n - 1); u64 key = s.a[i]; S e; for (unsigned k = 0; k < n; k++) if (!(s.a[k] == key)) e.push(s.a[k]);
        if (sym_choice(2, "how")) gtl::erase(v, T(key)); else gtl::erase_if(v, [key](const T& t) { return val(t) == key; }); s = e; } break;
    case 34: { // constructors
        unsigned m = (unsigned)sym_choice(4, "dn"); x = fresh(); { S e; V d((size_t)m, T(x)); for (unsigned i = 0; i < m; i++) e.push(x); same(d, e, "vector(n,value) is wrong"); }
        { S e; V d((size_t)m); for (unsigned i = 0; i < m; i++) e.push(0); same(d, e, "vector(n) is wrong"); }
        { u64 q[4] = { fresh(), fresh(), fresh(), fresh() }; S e; for (unsigned i = 0; i < m; i++) e.push(q[i]); FwIt a, b; a.p = q; b.p = q + m; V d(a, b); same(d, e, "range construction is wrong"); V f(InIt{ q }, InIt{ q + m }); same(f, e, "input range construction is wrong"); }
        break; }
    case 35: if (n) { // rvalue arguments that live in the vector; the source keeps some valid value
        unsigned i = pos(n - 1), p = pos(n); x = s.a[i]; unsigned w = (unsigned)sym_choice(2, "how");
        if (w) { v.push_back(std::move(v[i])); p = n; } else v.insert(v.cbegin() + p, std::move(v[i]));
        sym_assert(v.size() == n + 1 && val(v[p]) == x, "inserting an own element by move loses its value");
        for (unsigned k = 0; k < n; k++) { unsigned q = k < p ? k : k + 1; if (k != i) sym_assert(val(v[q]) == s.a[k], "inserting an own element by move disturbs others"); val(v[q]); }
        return false; } break;
#if ALLOC
    case 36: { // allocators that differ
        V d(TAlloc<T>(7)); S e; unsigned m = (unsigned)sym_choice(3, "dn"); for (unsigned i = 0; i < m; i++) { x = fresh(); d.push_back(T(x)); e.push(x); }
        switch (sym_choice(4, "how")) {
        case 0: v = d; same(d, e, "copy assignment changed its source"); s = e; break;
        case 1: v = std::move(d); s = e; break;
        case 2: { V f(d, TAlloc<T>(9)); same(f, e, "copy with another allocator differs"); break; }
        default: { V f(std::move(d), TAlloc<T>(9)); same(f, e, "move with another allocator differs"); break; }
        }
        break; }
#endif
    }
    if (ok) { same(v, s, "contents differ from the reference"); return true; }
    // interrupted by an exception
    // (the locals of the operation are destroyed by now)
#if ELT >= 2
    valid(v);
#else
    valid(v);
#endif
    if (strong) { s = old; same(v, s, "an append, reserve or resize that throws changed the contents"); return true; }
    return false;
}
extern "C" void sym_main() {
    unsigned K = (unsigned)sym_param(0), mn = (unsigned)sym_param(1), ms = (unsigned)sym_param(2); u64 mask = (u64)sym_param(3);
    EXC = sym_param(4) != 0; MAXC = (unsigned)sym_param(5);
    {
        V v; S s;
        build(v, s, (unsigned)sym_choice(mn + 1, "n"), (unsigned)sym_choice(ms + 1, "spare"));
        same(v, s, "contents differ from the reference");
        unsigned ops[40], k = 0; for (unsigned i = 0; i < 37; i++) if (!mask || (mask >> i & 1)) ops[k++] = i;
        bool go = true;
        for (unsigned t = 0; t < K && go; t++) go = step(v, s, ops[sym_choice(k, "op")]);
        // the vector stays usable, also after an exception
        u64 x = fresh(); size_t z = v.size(); v.push_back(T(x)); sym_assert(v.size() == z + 1 && val(v.back()) == x, "the vector is unusable");
        v.insert(v.cbegin(), T(x)); sym_assert(v.size() == z + 2 && val(v.front()) == x && val(v.back()) == x, "the vector is unusable");
    }
#if ELT >= 2
    sym_assert(trk_live == 0, "elements remain alive after the vector is destroyed");
#endif
    sym_assert(alloc_bytes == 0, "memory is not returned to the allocator");
    sym_assert(sym_live() == 0, "live heap blocks remain after destruction");
}
