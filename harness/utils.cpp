// gtl utils / vec_utils / adv_utils / combinators.  params: 0 mode, 1.. bounds
#include "sym.h"
#include "track.h"
#include <cstring>
#include <limits>
#include <type_traits>
#include <string>
#include <gtl/utils.hpp>
#include <gtl/vec_utils.hpp>
#include <gtl/adv_utils.hpp>
#include <gtl/combinators.hpp>
#ifndef INT
#define INT int64_t
#endif
struct Leave {};
// ---- mode 0: scope guards
static void guards() {
    u64 x0 = sym_u64("x", 64), x1 = sym_u64("y", 64), x2 = sym_u64("z", 64);
    bool doit = sym_u64("do", 1), dismiss = sym_u64("dismiss", 1), leave = sym_u64("throw", 1), nested = sym_u64("nested", 1);
    {
        u64 v = x0; bool in = false;
        try {
            gtl::scoped_set_value<u64> g(v, x1, doit);
            sym_assert(v == (doit ? x1 : x0), "scoped_set_value does not set the value");
            if (nested) {
                gtl::scoped_set_value<u64> h(v, x2);
                sym_assert(v == x2, "scoped_set_value does not set the value");
            }
            sym_assert(v == (doit ? x1 : x0), "a nested scoped_set_value does not restore the value");
            if (dismiss) g.dismiss();
            in = true;
            if (leave) throw Leave();
        } catch (Leave&) { sym_cover("left by an exception"); }
        sym_assert(in && v == (doit && dismiss ? x1 : x0), "scoped_set_value does not restore the value at scope exit");
    }
    {
        Tr v(x0);
        { gtl::scoped_set_value<Tr> g(v, Tr(x1), doit); sym_assert(v.v == (doit ? x1 : x0), "scoped_set_value does not set the value"); if (dismiss) g.dismiss(); }
        sym_assert(v.v == (doit && dismiss ? x1 : x0), "scoped_set_value does not restore the value at scope exit");
    }
    {
        unsigned sets = 0, unsets = 0, guard = 0, order = 0, firstAt = 0, secondAt = 0; bool entered = false;
        try {
            auto un = [&] { unsets++; firstAt = ++order; }; auto un2 = [&] { guard++; secondAt = ++order; };
            gtl::scoped_set_unset s([&] { sets++; sym_assert(unsets == 0, "unset ran early"); }, std::move(un), doit);
            gtl::scoped_guard g(std::move(un2), doit);
            entered = true;
            sym_assert(sets == (doit ? 1u : 0u) && unsets == 0 && guard == 0, "a scope guard acts at the wrong time");
            if (dismiss) { s.dismiss(); g.dismiss(); sym_assert(unsets == 0 && guard == 0, "dismiss() runs the action"); }
            if (leave) throw Leave();
        } catch (Leave&) {}
        unsigned want = doit && !dismiss ? 1 : 0;
        sym_assert(entered && unsets == want && guard == want && sets == (doit ? 1u : 0u), "a scope guard does not run its action exactly once");
        if (want) sym_assert(secondAt == 1 && firstAt == 2, "scope guards run in the wrong order");
    }
    {
        u64 v = x0; bool c = gtl::change(v, x1); sym_assert(v == x1 && c == (x0 != x1), "change() is wrong");
        u64 w = x1; u64 o = gtl::replace(w, x2); sym_assert(o == x1 && w == x2, "replace() is wrong");
        Tr t(x0); bool d = [&] { if (t.v != x1) { Tr q(x1); Tr old = gtl::replace(t, q); sym_assert(old.v == x0 && q.v == x1, "replace() is wrong"); return true; } return false; }();
        sym_assert(t.v == x1 && d == (x0 != x1), "replace() is wrong");
    }
    sym_assert(trk_live == 0, "a scope guard leaks its saved value");
}
// ---- mode 1: timestamps
static void stamps() {
    unsigned n = (unsigned)sym_param(1);
    gtl::timestamp t[3] = { gtl::timestamp(), gtl::timestamp(), gtl::timestamp() };
    u64 ref[3] = { 1, 2, 3 }, clock = 3; u64 var = sym_u64("v0", 64);
    for (unsigned k = 0; k < n; k++) {
        unsigned op = (unsigned)sym_u64("op", 3), i = (unsigned)sym_u64("i", 2), j = (unsigned)sym_u64("j", 2);
        sym_assume(i < 3 && j < 3);
        switch (op) {
        case 0: t[i].touch(); ref[i] = ++clock; break;
        case 1: t[i].touch(t[j]); ref[i] = ref[j]; break;
        case 2: t[i].reset(); ref[i] = 0; break;
        case 3: t[i] |= t[j]; if (ref[j] > ref[i]) ref[i] = ref[j]; break;
        case 4: { u64 x = sym_u64("v", 64); bool ch = t[i].set_with_ts(var, x); sym_assert(var == x, "set_with_ts() does not assign"); if (ch) { ref[i] = ++clock; } else sym_cover("unchanged"); break; }
        case 5: { gtl::timestamp f; t[i] = f; ref[i] = ++clock; break; }
        case 6: { gtl::timestamp f = t[i] | t[j]; sym_assert(!f.is_older_than(t[i]) && !f.is_older_than(t[j]) && (f == t[i] || f == t[j]), "| is not the most recent"); break; }
        default: { u64 x = var; bool ch = t[i].set_with_ts(var, x); sym_assert(!ch, "set_with_ts() reports a change for an equal value"); break; }
        }
        for (unsigned a = 0; a < 3; a++) {
            sym_assert(t[a].is_set() == (ref[a] != 0), "is_set() is wrong");
            for (unsigned b = 0; b < 3; b++) sym_assert(t[a].is_newer_than(t[b]) == (ref[a] > ref[b]) && t[a].is_older_than(t[b]) == (ref[a] < ref[b]) && (t[a] == t[b]) == (ref[a] == ref[b]) && (t[a] < t[b]) == (ref[a] < ref[b]) && (t[a] > t[b]) == (ref[a] > ref[b]), "the order of modifications is wrong");
        }
    }
}
// ---- mode 2: sequences
static void seqs() {
    unsigned n = (unsigned)sym_choice((unsigned)sym_param(1) + 1, "n");
    std::vector<u64> v; for (unsigned i = 0; i < n; i++) v.push_back(sym_u64("e", 64));
    int N = (int)n;
    unsigned op = (unsigned)sym_choice(4, "op");
    if (op == 0) {
        int first = (int)sym_choice(2 * n + 2, "first") - N - 1, last = (int)sym_choice(2 * n + 2, "last") - N - 1, stride = 1 + (int)sym_choice((unsigned)sym_param(2), "stride");
        auto r = gtl::slice(v, first, last, stride);
        int f = first >= 0 ? first : N + first + 1, l = last >= 0 ? last : N + last + 1; // index -1 is the end, -2 the element before it
        unsigned k = 0;
        for (int p = f; p < l; p += stride, k++) { sym_assert(k < r.size(), "slice() returns too few elements"); if (k < r.size()) sym_assert(r[k] == v[(unsigned)p], "slice() returns another element"); }
        sym_assert(r.size() == k, "slice() returns too many elements");
        if (stride > 1 && k > 1) sym_cover("stride");
        const auto& cv = v; auto d = gtl::slice(cv); sym_assert(d == v, "slice() of everything differs");
    } else if (op == 1) {
        unsigned m = (unsigned)sym_choice(3, "m"); std::vector<u64> w; for (unsigned i = 0; i < m; i++) w.push_back(sym_u64("f", 64));
        auto r = gtl::cat(v, w, v);
        sym_assert(r.size() == 2 * n + m, "cat() has another length");
        for (unsigned i = 0; i < r.size() && r.size() == 2 * n + m; i++) sym_assert(r[i] == (i < n ? v[i] : i < n + m ? w[i - n] : v[i - n - m]), "cat() returns another element");
        std::vector<u64> keep = v; auto q = gtl::cat(std::move(v), std::vector<u64>(w)); sym_assert(q.size() == n + m, "cat() of temporaries has another length");
        for (unsigned i = 0; i < n && i < q.size(); i++) sym_assert(q[i] == keep[i], "cat() of temporaries returns another element");
        auto one = gtl::cat(keep); sym_assert(one == keep, "cat() of one vector differs");
        sym_cover("cat");
    } else if (op == 2) {
        unsigned calls = 0;
        auto r = gtl::map([&](u64 x) { calls++; return (u64)(x ^ 0x55); }, v);
        sym_assert(r.size() == n && calls == n, "map() has another length");
        for (unsigned i = 0; i < r.size() && i < n; i++) sym_assert(r[i] == (v[i] ^ 0x55), "map() returns another element");
        auto h = gtl::map([](const u64& x) { return (uint8_t)x; }, v);
        for (unsigned i = 0; i < h.size() && i < n; i++) sym_assert(h[i] == (uint8_t)v[i], "map() to another type returns another element");
        sym_assert(h.size() == n, "map() has another length");
    } else {
        using namespace combinators;
        u64 a = sym_u64("a", 64), b = sym_u64("b", 64);
        auto inc = [](u64 x) { return x + 1; }; auto dbl = [](u64 x) { return x * 2; };
        sym_assert(_b(inc, dbl)(a) == a * 2 + 1, "B is not composition");
        sym_assert(_c(_sub_)(a, b) == b - a, "C does not flip");
        sym_assert(_l_(a, b) == a && _r_(a, b) == b, "K or KI is wrong");
        sym_assert(_phi(inc, _sub_, dbl)(a) == (a + 1) - (a * 2), "Phi is wrong");
        sym_assert(_phi1_(_plus_, _sub_, _mul_)(a & 255, b & 255) == ((a & 255) + (b & 255)) - ((a & 255) * (b & 255)), "Phi1 is wrong");
        sym_assert(_psi(_sub_, inc)(a, b) == (a + 1) - (b + 1), "Psi is wrong");
        sym_assert(_eq(a)(b) == (a == b) && _eq_(a, b) == (a == b) && _neq_(a, b) == (a != b), "equality combinator is wrong");
        sym_assert(lt_(a)(b) == (b < a) && _lt(a)(b) == (a > b) && _lt_(a, b) == (a < b) && _gte(a)(b) == (a >= b), "order combinator is wrong");
        sym_assert(_plus(a)(b) == a + b && _mul(a & 255)(b & 255) == (a & 255) * (b & 255) && _sub(a)(b) == a - b && sub_(a)(b) == b - a, "arithmetic combinator is wrong");
        sym_assert(_min_(a, b) == (a < b ? a : b) && _max_(a, b) == (a < b ? b : a), "min or max combinator is wrong");
        sym_assert(_fst(std::make_tuple(a, b)) == a && _snd(std::make_tuple(a, b)) == b, "projection is wrong");
    }
}
// ---- mode 3: midpoints of every pair
typedef INT I;
static void mids() {
    I l = (I)sym_u64("l", 64), r = (I)sym_u64("r", 64);
    sym_assume(l < r);
    auto m = gtl::middle<I>()(l, r);
    typedef std::make_unsigned_t<I> UI;
    UI w = (UI)((UI)r - (UI)l);
    sym_assert(m.has_value() == (w > 1), "the search stops elsewhere than when the ends are adjacent");
    if (m) {
        sym_assert(l < *m && *m < r, "the midpoint does not lie strictly between the ends");
        UI a = (UI)((UI)*m - (UI)l);
        sym_assert(a >= w / 4 && (UI)(w - a) >= w / 4, "the midpoint does not divide the range evenly: the search would be long");
        sym_cover("middle");
    }
}
static u64 key(u64 bits) { return bits >> 63 ? ~bits : bits | ((u64)1 << 63); } // IEEE 754 order
static void dmids() {
    u64 lb = sym_u64("l", 64), rb = sym_u64("r", 64);
    const u64 inf = 0x7ff0000000000000ull;
    sym_assume((lb << 1) <= (inf << 1)); sym_assume((rb << 1) <= (inf << 1)); // no NaN
    u64 kl = key(lb), kr = key(rb);
    sym_assume(kl < kr);
    double l, r; memcpy(&l, &lb, 8); memcpy(&r, &rb, 8);
    auto m = gtl::middle<double>()(l, r);
    sym_assert(m.has_value() == (kr - kl > 1), "the search stops elsewhere than when the ends are adjacent");
    if (m) {
        double md = *m; u64 mb; memcpy(&mb, &md, 8); u64 km = key(mb);
        sym_assert(kl < km && km < kr, "the midpoint does not lie strictly between the ends");
        sym_cover("middle");
    }
}
// ---- mode 4: search for the boundary of a monotone predicate
template<class T> struct Limited { // the library's midpoint, for a bounded number of steps
    unsigned* left; bool* hit;
    std::optional<T> operator()(T l, T r) { if (*left == 0) { *hit = true; return {}; } --*left; return gtl::middle<T>()(l, r); }
};
// the ends are l and l+w (l near a special value; w up to the bound) or two special values; the boundary is any value between them
static const u64 SP[] = { 0, 1, 2, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull, ~(u64)0, ~(u64)1, 0x7fefffffffffffffull, 0xffefffffffffffffull, 0x3ff0000000000000ull, 0xbff0000000000000ull, 0x100000000ull, 0xffffffff7fffffffull };
template<class T, class K, class P> static void run(K kl, K kr, K kt, bool tight, T l, T r, P kof, unsigned steps) {
    unsigned left = steps; bool hit = false;
    auto p = gtl::binary_search<T>(Limited<T>{ &left, &hit }, [&](T x) { K k = kof(x); sym_assert(kl <= k && k <= kr, "the predicate is evaluated outside the range"); return k >= kt; }, l, r);
    K a = kof(p.first), b = kof(p.second);
    sym_assert(a < kt && kt <= b && kl <= a && b <= kr, "the returned pair does not enclose the boundary");
    if (!hit) { sym_assert(b == kt && b - 1 == a, "the returned pair is not the boundary"); sym_cover("boundary"); }
    else sym_assert(!tight, "the search takes too many steps");
}
// params: 1 width (0 special ends), 2 step limit, 3 distance of the boundary from a special value (0: anywhere)
static void search() {
    unsigned width = (unsigned)sym_param(1), steps = (unsigned)sym_param(2), near = (unsigned)sym_param(3);
    I l, r, t; bool tight = true;
    if (width) {
        unsigned w = 1 + (unsigned)sym_choice(width, "w"); u64 d = sym_u64("d", 64);
        l = (I)(SP[sym_choice(14, "l")] + (u64)sym_choice(2, "lo") * 0x51); sym_assume(l <= (I)(std::numeric_limits<I>::max() - (I)w)); sym_assume(d >= 1 && d <= w);
        r = (I)(l + (I)w); t = (I)(l + (I)d);
    } else {
        l = (I)SP[sym_choice(14, "l")]; r = (I)SP[sym_choice(14, "r")]; sym_assume(l < r);
        t = (I)sym_u64("t", 64); sym_assume(l < t && t <= r);
        if (near) { u64 c = SP[sym_choice(14, "t")]; sym_assume((u64)t - c + near <= 2 * near); } else tight = false;
    }
    run<I, I>(l, r, t, tight, l, r, [](I x) { return x; }, steps);
}
static void dsearch() {
    unsigned steps = (unsigned)sym_param(2), near = (unsigned)sym_param(3);
    const u64 inf = 0x7ff0000000000000ull;
    u64 lb = SP[sym_choice(14, "l")], rb = SP[sym_choice(14, "r")];
    sym_assume((lb << 1) <= (inf << 1) && (rb << 1) <= (inf << 1) && key(lb) < key(rb));
    u64 kt = sym_u64("t", 64); sym_assume(key(lb) < kt && kt <= key(rb));
    if (near) { u64 c = key(SP[sym_choice(14, "t")]); sym_assume(kt - c + near <= 2 * near); }
    double l, r; memcpy(&l, &lb, 8); memcpy(&r, &rb, 8);
    run<double, u64>(key(lb), key(rb), kt, near != 0, l, r, [](double d) { u64 b; memcpy(&b, &d, 8); return key(b); }, steps);
}
extern "C" void sym_main() {
    switch (sym_param(0)) { case 0: guards(); break; case 1: stamps(); break; case 2: seqs(); break; case 3: mids(); break; case 4: search(); break; case 5: dmids(); break; default: dsearch(); }
}
