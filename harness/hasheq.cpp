// Equal keys hash equally.  params: 0 which group, 1 longest text, 2 sub-selection
#include "sym.h"
#include <gtl/phmap.hpp>
#include <memory>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
typedef uint64_t u64;
template<class T> static size_t h(const T& x) { return typename gtl::flat_hash_set<T>::hasher{}(x); }
template<class T> static bool eq(const T& a, const T& b) { return typename gtl::flat_hash_set<T>::key_equal{}(a, b); }
template<class T> static void law(const T& a, const T& b) {
    // functions of two separately constructed objects
    typename gtl::flat_hash_set<T>::hasher h1{}, h2{};
    sym_assert(eq(a, a) || !(a == a), "a key is not equal to itself");
    sym_assert(eq(a, b) == (a == b), "the default equality differs from ==");
    if (eq(a, b)) { sym_cover("equal"); sym_assert(h1(a) == h2(b), "two equal keys have different hash values"); }
    else sym_cover("different");
    T c(a); sym_assert(h1(c) == h2(a), "a copy of a key has another hash value");
    // the hash functions of all containers for T agree
    sym_assert(h(a) == typename gtl::flat_hash_map<T, int>::hasher{}(a) && h(a) == typename gtl::node_hash_set<T>::hasher{}(a) && h(a) == typename gtl::parallel_flat_hash_map<T, int>::hasher{}(a), "hash functions of two containers disagree");
}
template<class T> static T bits(u64 v) { T t; __builtin_memcpy(&t, &v, sizeof(T)); return t; }
template<class T> static T sym(const char* n) { return bits<T>(sym_u64(n, sizeof(T) * 8)); }
template<class T> static void num() { law<T>(sym<T>("a"), sym<T>("b")); }
typedef float F;
template<class T> static void twin(const T& a, const T& b) {
    sym_assert(eq(a, b) && a == b, "equal components make unequal keys"); sym_assert(h(a) == h(b), "two equal keys have different hash values"); 
sym_cover("equal");
}
template<class T> static void zeros(T& x, T& y, const char* n) { // all pairs of equal numbers
    if (sym_choice(2, "zero")) { x = sym_choice(2, "sign") ? (T)-0.0 : (T)0.0; y = sym_choice(2, "sign") ? (T)-0.0 : (T)0.0; }
    else { x = y = sym<T>(n); sym_assume(x == x && x != 0); }
}
enum Plain { P0, P1, P2 }; enum class Scoped : unsigned char { A, B }; enum class Wide : long { A, B };
struct User { u64 a; unsigned b; float c; friend bool operator==(const User& x, const User& y) { return x.a == y.a && x.b == y.b && x.c == y.c; } friend size_t hash_value(const User& u) { return gtl::HashState().combine(0, u.a, u.b, u.c); } };
struct StdHashed { short s; bool operator==(const StdHashed& o) const { return s == o.s; } };
template<> struct std::hash<StdHashed> { size_t operator()(const StdHashed& x) const noexcept { return (size_t)x.s * 3; } };
struct B1 { int x = 1; virtual ~B1() {} }; struct B2 { int y = 2; virtual ~B2() {} }; struct D : B1, B2 { int z = 3; };
template<class S, class Ch> static void text(unsigned maxlen) {
    using V = std::basic_string_view<Ch>;
    Ch x[24], y[24]; unsigned n = (unsigned)sym_choice(maxlen + 1, "n"), m = (unsigned)sym_choice(maxlen + 1, "m");
    for (unsigned i = 0; i < n; i++) x[i] = sym<Ch>("x");
    for (unsigned i = 0; i < m; i++) y[i] = sym<Ch>("y");
    x[n] = 0; y[m] = 0;
    using Set = gtl::flat_hash_set<S>; typename Set::hasher hs; typename Set::key_equal es;
    using VSet = gtl::flat_hash_set<V>; typename VSet::hasher hv; typename VSet::key_equal ev;
    std::basic_string<Ch> sx(x, n), sy(y, m); V vx(x, n), vy(y, m);
    bool same = n == m; for (unsigned i = 0; same && i < n; i++) same = x[i] == y[i];
    sym_assert(es(S(sx), S(sy)) == same && es(S(sx), vy) == same && es(vx, S(sy)) == same && ev(vx, sy) == same && ev(sx, vy) == same, "equality of text differs from equality of characters");
    if (same) { sym_cover("equal");
        size_t a = hs(S(sx)); sym_assert(a == hs(S(sy)) && a == hs(vy) && a == hs(sy) && a == hv(vx) && a == hv(sy), "two equal keys have different hash values"); }
    bool nul = false; for (unsigned i = 0; i < n; i++) nul |= x[i] == 0;
    if (!nul) { const Ch* lit = x; sym_assert(es(S(sx), lit) && hs(S(sx)) == hs(lit) && hv(lit) == hs(vx), "two equal keys have different hash values"); }
}
// Lookups through other key types in a real table.
template<class Set> static void hetero() {
    Set s; std::string keys[3] = { "k", "a long key, not stored inline in the string object", "" };
    keys[0] += (char)(sym_concretize(sym_u64("c", 3)) * 37); keys[2] += std::string("x\0y", 3);
    unsigned have = (unsigned)sym_choice(8, "have");
    for (unsigned i = 0; i < 3; i++) if (have >> i & 1) s.insert(typename Set::key_type(keys[i]));
    for (unsigned i = 0; i < 3; i++) { bool in = have >> i & 1; std::string_view v = keys[i];
        sym_assert(s.contains(v) == in && s.count(v) == in && (s.find(v) != s.end()) == in && s.contains(keys[i]) == in && s.count(keys[i]) == in, "a lookup through another text type answers wrongly");
        if (i == 1) { const char* lit = keys[1].c_str(); sym_assert(s.contains(lit) == in && s.count(lit) == in && (s.find(lit) != s.end()) == in, "a lookup through a literal answers wrongly"); sym_assert(s.contains("a long key, not stored inline in the string object") == in, "a lookup through a literal answers wrongly"); }
        else if (i == 0) { char q[3] = { 'k', keys[0][1], 0 }; if (q[1]) sym_assert(s.contains(q) == in && s.contains((const char*)q) == in, "a lookup through a literal answers wrongly"); } }
    unsigned e = (unsigned)sym_choice(3, "e"), how = (unsigned)sym_choice(3, "how"); bool in = have >> e & 1;
    if (how == 2 && e != 1) how = 1;
    size_t r = how == 0 ? s.erase(keys[e]) : how == 1 ? s.erase(std::string_view(keys[e])) : s.erase(keys[1].c_str());
    sym_assert(r == in && !s.contains(keys[e]) && s.size() == (size_t)__builtin_popcount(have & ~(1u << e)), "an erasure through another text type answers wrongly");
}
static void heteromap() {
    gtl::flat_hash_map<std::string, u64> m; std::string k("key"); k += (char)(sym_concretize(sym_u64("c", 3)) * 37); std::string_view v = k;
    m[v] = 5; sym_assert(m.size() == 1 && m.at(k) == 5 && m[k] == 5 && m.at(v) == 5, "operator[] through another text type uses another element");
    m.insert_or_assign(std::string_view(k), 6); m.try_emplace(v, 7); sym_assert(m.size() == 1 && m.at(k) == 6 && m.find(v)->second == 6, "an insertion through another text type uses another element");
    auto n = m.extract(v); sym_assert(n && n.key() == k && m.empty(), "extract through another text type misses the element");
}
template<class P> static void pointers(P (*mk)(D*), bool own) {
    D* d[3] = { new D, new D, new D };
    gtl::flat_hash_set<P> s; unsigned have = (unsigned)sym_choice(8, "have");
    P keep[3] = { mk(d[0]), mk(d[1]), mk(d[2]) };
    using T = std::remove_pointer_t<decltype(&*keep[0])>;
    for (unsigned i = 0; i < 3; i++) {
        typename gtl::flat_hash_set<P>::hasher h; typename gtl::flat_hash_set<P>::key_equal e; T* raw = &*keep[i]; const T* craw = raw;
        sym_assert(h(keep[i]) == h(raw) && h(raw) == h(craw) && h(craw) == h(d[i]) && e(keep[i], raw) && e(craw, keep[i]) && e(d[i], keep[i]), "a pointer and the object's owner are not the same key");
        for (unsigned j = 0; j < 3; j++) if (j != i) sym_assert(!e(keep[i], d[j]) && !e(keep[i], (T*)d[j]), "pointers to different objects are equal"); }
    T* raws[3] = { &*keep[0], &*keep[1], &*keep[2] };
    for (unsigned i = 0; i < 3; i++) if (have >> i & 1) s.insert(std::move(keep[i]));
    for (unsigned i = 0; i < 3; i++) { bool in = have >> i & 1; const T* c = raws[i]; sym_assert(s.contains(raws[i]) == in && s.contains(c) == in && s.count(d[i]) == in && (s.find(c) != s.end()) == in, "a lookup through a raw pointer answers wrongly"); }
    unsigned e = (unsigned)sym_choice(3, "e"); bool in = have >> e & 1;
    sym_assert(s.erase(raws[e]) == in && !s.contains(raws[e]), "an erasure through a raw pointer answers wrongly");
    sym_cover("pointers");
    if (!own) for (D* x : d) delete x;
}
static std::unique_ptr<B2> mkU(D* d) { return std::unique_ptr<B2>(d); }
static std::shared_ptr<B2> mkS(D* d) { return std::shared_ptr<B2>(d); }
static std::shared_ptr<D> mkSD(D* d) { return std::shared_ptr<D>(d); }
static B2* mkR(D* d) { return d; }
template<class T> static void zero() { // signed zeros and table lookups
    T z = bits<T>(sizeof(T) == 4 ? 0x80000000u : 1ull << 63); gtl::flat_hash_map<T, u64> m; m[(T)0] = 4; sym_assert(m.size() == 1 && m.contains(z) && m[z] == 4 && m.count(z) == 1, "zero is not found through negative zero");
    T x = bits<T>(sym_concretize(sym_u64("s", 1)) << (sizeof(T) * 8 - 1) | sym_concretize(sym_u64("e", 2)) * (sizeof(T) == 4 ? 0x2aaaaaaaull : 0x2aaaaaaaaaaaaaaaull) | sym_concretize(sym_u64("m", 1))); if (x == x) { m[x] = 9; sym_assert(m.at(x) == 9 && m.contains(x), "a key is not found"); if (x == (T)0) sym_assert(m.size() == 1, "zero is stored twice"); else sym_assert(m.size() == 2, "a key is lost"); }
}
extern "C" void sym_main() {
    unsigned g = (unsigned)sym_param(0), t = (unsigned)sym_param(1);
    {
        switch (g) {
        case 0: switch (sym_choice(14, "type")) {
            case 0: { law<bool>(sym_u64("a", 1), sym_u64("b", 1)); break; }
            case 1: num<char>(); break; case 2: num<signed char>(); break; case 3: num<unsigned char>(); break; case 4: num<wchar_t>(); break; case 5: num<short>(); break; case 6: num<unsigned short>(); break;
            case 7: num<int>(); break; case 8: num<unsigned>(); break; case 9: num<long>(); break; case 10: num<u64>(); break; case 11: num<char16_t>(); break; case 12: num<long long>(); break; case 13: num<unsigned long long>(); break; } break;
        case 1: switch (sym_choice(2, "type")) { case 0: num<float>(); break; case 1: num<double>(); break; } break;
        case 2: switch (sym_choice(4, "type")) { case 0: law<Plain>((Plain)sym_u64("a", 2), (Plain)sym_u64("b", 2)); break; case 1: num<Scoped>(); break; case 2: num<Wide>(); break; case 3: law<StdHashed>(StdHashed{ sym<short>("a") }, StdHashed{ sym<short>("b") }); break; } break;
        case 3: { // all pairs of equal composite keys: equal components are identical, or zeros of either sign
            F f, g, f2, g2; u64 a = sym<u64>("a"); int i = sym<int>("i"); bool b = sym_u64("b", 1); short sh = sym<short>("sh"); Scoped sc = sym<Scoped>("sc"); double d, d2;
            zeros(f, f2, "f"); zeros(g, g2, "g"); zeros(d, d2, "d");
            switch (sym_param(2)) {
            case 0: twin(std::pair<u64, float>(a, f), std::pair<u64, float>(a, f2)); break;
            case 1: twin(std::pair<double, bool>(d, b), std::pair<double, bool>(d2, b)); break;
            case 2: twin(std::pair<std::pair<int, float>, Scoped>({ i, f }, sc), std::pair<std::pair<int, float>, Scoped>({ i, f2 }, sc)); break;
            case 3: twin(std::tuple<u64, float>(a, f), std::tuple<u64, float>(a, f2)); break;
            case 4: twin(std::tuple<double>(d), std::tuple<double>(d2)); break;
            case 5: twin(std::tuple<>(), std::tuple<>()); break;
            case 6: twin(std::tuple<short, std::pair<int, float>, bool, double>(sh, { i, f }, b, d), std::tuple<short, std::pair<int, float>, bool, double>(sh, { i, f2 }, b, d2)); break;
            case 7: twin(User{ a, (unsigned)i, f }, User{ a, (unsigned)i, f2 }); break;
            case 8: twin(std::pair<float, short>(f, sh), std::pair<float, short>(f2, sh)); break; }
            break; }
        case 6: text<std::string, char>(t); break;
        case 7: text<std::u16string, char16_t>(t); break;
        case 8: text<std::wstring, wchar_t>(t); break;
        case 9: hetero<gtl::flat_hash_set<std::string>>(); break;
        case 10: hetero<gtl::node_hash_set<std::string>>(); break;
        case 11: hetero<gtl::parallel_flat_hash_set<std::string>>(); break;
        case 12: heteromap(); break;
        case 13: switch (sym_choice(4, "type")) { case 0: pointers(mkU, true); break; case 1: pointers(mkS, true); break; case 2: pointers(mkSD, true); break; case 3: pointers(mkR, false); break; } break;
        case 14: zero<float>(); break;
        case 15: zero<double>(); break;
        }
    }
    sym_assert(sym_live() == 0, "memory is leaked");
}
