// B-trees keyed by text (the library substitutes a three-way, heterogeneous comparator): order, lookups through every text type.
// params: 0 prefill, 1 erased from the prefill, 2 operations
#ifndef KIND
#define KIND 0 // 0 set 1 map 2 multiset 3 multimap
#endif
#ifndef KEY
#define KEY 0 // 0 std::string, 1 std::string_view
#endif
#ifndef GREATER
#define GREATER 0
#endif
#include "sym.h"
typedef uint64_t u64;
#include <string>
#include <string_view>
#include <gtl/btree.hpp>
#define MULTI (KIND >= 2)
#define MAP (KIND % 2 == 1)
#if KEY == 0
typedef std::string K;
#else
typedef std::string_view K;
#endif
#if GREATER
typedef std::greater<K> Cmp;
#else
typedef std::less<K> Cmp;
#endif
#if KIND == 0
typedef gtl::btree_set<K, Cmp> C;
#elif KIND == 1
typedef gtl::btree_map<K, u64, Cmp> C;
#elif KIND == 2
typedef gtl::btree_multiset<K, Cmp> C;
#else
typedef gtl::btree_multimap<K, u64, Cmp> C;
#endif
static const unsigned L = 48, MAXN = 48;
struct Txt { unsigned n = 0; unsigned char b[L + 1] = {}; std::string_view sv() const { return std::string_view((const char*)b, n); } };
static bool lt0(const Txt& x, const Txt& y) { for (unsigned i = 0; i < x.n && i < y.n; i++) { if (x.b[i] < y.b[i]) return true; if (x.b[i] > y.b[i]) return false; } return x.n < y.n; }
static bool lt(const Txt& x, const Txt& y) { return GREATER ? lt0(y, x) : lt0(x, y); }
struct M { Txt* k[MAXN]; u64 d[MAXN]; unsigned n = 0;
    unsigned lb(const Txt& x) const { unsigned i = 0; while (i < n && lt(*k[i], x)) i++; return i; }
    unsigned ub(const Txt& x) const { unsigned i = 0; while (i < n && !lt(x, *k[i])) i++; return i; }
    bool add(Txt* x, u64 id) { unsigned p = MULTI ? ub(*x) : lb(*x); if (!MULTI && p < n && !lt(*x, *k[p])) return false; for (unsigned i = n; i > p; i--) { k[i] = k[i - 1]; d[i] = d[i - 1]; } k[p] = x; d[p] = id; n++; return true; }
    void del(unsigned p) { for (unsigned i = p; i + 1 < n; i++) { k[i] = k[i + 1]; d[i] = d[i + 1]; } n--; } };
static bool eq(std::string_view s, const Txt& t) { if (s.size() != t.n) return false; for (unsigned i = 0; i < t.n; i++) if ((unsigned char)s[i] != t.b[i]) return false; return true; }
template<class It> static void at(It it, const M& m, unsigned p, const char* what) {
#if MAP
    sym_assert(eq(it->first, *m.k[p]) && it->second == m.d[p], what);
#else
    sym_assert(eq(*it, *m.k[p]), what);
#endif
}
static void same(const C& c, const M& m) { sym_assert(c.size() == m.n, "size() differs from the reference"); unsigned i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) { if (i >= m.n) { sym_assert(false, "iteration yields too many elements"); return; } at(it, m, i, "contents or order differ from the reference"); } sym_assert(i == m.n, "iteration misses elements"); }
static Txt pool[MAXN]; static unsigned np = 0;
static bool put(C& c, M& m, Txt* t, u64 id, bool check) { bool want = m.add(t, id);
#if KIND == 0
    auto r = c.insert(K(t->sv())); bool got = r.second; if (check) { sym_assert(got == want, "insert() reports the wrong outcome"); at(r.first, m, m.lb(*t), "insert() returns the wrong element"); }
#elif KIND == 1
    auto r = c.try_emplace(K(t->sv()), id); bool got = r.second; if (check) { sym_assert(got == want, "insert() reports the wrong outcome"); at(r.first, m, m.lb(*t), "insert() returns the wrong element"); }
#elif KIND == 2
    c.insert(K(t->sv())); bool got = true;
#else
    c.insert({ K(t->sv()), id }); bool got = true;
#endif
    return got == want; }
template<class Q> static void look(C& c, const M& m, const Txt& t, Q q) {
    unsigned l = m.lb(t), u = m.ub(t); const C& cc = c;
    sym_assert(c.count(q) == u - l, "count() is wrong"); sym_assert(c.contains(q) == (u > l), "contains() is wrong");
    auto f = c.find(q); if (u > l) { if (f == c.end()) sym_assert(false, "find() misses a present key"); else if (!MULTI) at(f, m, l, "find() returns another element"); else { bool in = false; auto it = c.begin(); for (unsigned i = 0; i < l; i++) ++it; for (unsigned i = l; i < u; i++, ++it) if (it == f) in = true; sym_assert(in, "find() returns another element"); } sym_cover("found"); } else { sym_assert(f == c.end(), "find() finds an absent key"); sym_cover("absent"); }
    auto a = cc.lower_bound(q), b = cc.upper_bound(q); auto r = cc.equal_range(q);
    if (l == m.n) sym_assert(a == cc.end(), "lower_bound() is wrong"); else if (a == cc.end()) sym_assert(false, "lower_bound() is wrong"); else at(a, m, l, "lower_bound() is wrong");
    if (u == m.n) sym_assert(b == cc.end(), "upper_bound() is wrong"); else if (b == cc.end()) sym_assert(false, "upper_bound() is wrong"); else at(b, m, u, "upper_bound() is wrong");
    unsigned n = 0; for (auto it = a; it != b && n < MAXN; ++it) n++; sym_assert(n == u - l, "the bounds do not enclose the elements of the key");
    if (u > l) sym_assert(r.first == a && r.second == b, "equal_range() is wrong"); else { unsigned k = 0; for (auto it = r.first; it != r.second && k < MAXN; ++it) k++; sym_assert(k == 0, "equal_range() of an absent key is not empty"); } }
extern "C" void sym_main() {
    unsigned pre = (unsigned)sym_param(0), er = (unsigned)sym_param(1), K_ = (unsigned)sym_param(2); C c; M m; u64 id = 1;
    // prefill: prefixes of one another, bytes above 127 and zero bytes, short and long ones, inserted in mixed order
    for (unsigned i = 0; i < pre; i++) { Txt& t = pool[np++]; unsigned j = (i * 7 + 3) % pre; static const unsigned char al[] = { 0, 'a', 0x7f, 0x80, 0xff }; t.n = 1 + j % 3; t.b[0] = al[j % 5]; t.b[1] = al[(j / 5) % 5]; t.b[2] = (unsigned char)j; if (j % 4 == 1) { for (unsigned q = 2; q < 30; q++) t.b[q] = 'z'; t.n = 30 + j % 2; } put(c, m, &t, id++, false); }
    for (unsigned i = 0; i < er && m.n; i++) { unsigned p = (i * 5 + 2) % m.n; auto it = c.begin(); for (unsigned q = 0; q < p; q++) ++it; c.erase(it); m.del(p); }
    same(c, m);
    for (unsigned s = 0; s < K_; s++) {
        Txt& t = pool[np++]; t.n = (unsigned)sym_choice(4, "len"); for (unsigned i = 0; i < t.n; i++) t.b[i] = (unsigned char)sym_u64("ch", 8);
        if (sym_choice(2, "long")) { for (unsigned i = t.n; i < 30; i++) t.b[i] = 'z'; t.n = 30; }
        switch (sym_choice(4, "op")) {
        case 0: put(c, m, &t, id++, true); break;
        case 1: { unsigned l = m.lb(t), u = m.ub(t); size_t r = sym_choice(2, "how") ? c.erase(K(t.sv())) : c.erase(t.sv()); sym_assert(r == u - l, "erase() reports the wrong number"); for (unsigned i = l; i < u; i++) m.del(l); break; }
        case 2: look(c, m, t, t.sv()); if (s == 0) look(c, m, t, std::string(t.sv())); break;
        case 3: { bool z = false; for (unsigned i = 0; i < t.n; i++) if (t.b[i] == 0) z = true; if (z) break; t.b[t.n] = 0; look(c, m, t, (const char*)t.b); break; }
        }
        same(c, m);
    }
#if !MULTI
    { C d(c); sym_assert(d == c, "a copy differs"); C e; e.insert(c.begin(), c.end()); sym_assert(e == c && !(e < c) && !(c < e), "comparison of equal contents is wrong"); if (m.n) { d.erase(d.begin()); sym_assert(d != c, "comparison is wrong"); } }
#endif
}
