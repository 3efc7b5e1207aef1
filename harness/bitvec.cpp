// bit_vector and bit_view against an array of bits.  All bits of the vectors are symbolic; sizes, view
// ends and shift counts are split over every value in the stated ranges, so masks are exact.
// params: 0 mode, 1 max size (or size), 2 op mask (0 = all), 3.. mode specific
#include "sym.h"
#include <gtl/bit_vector.hpp>
#include <string>
typedef uint64_t u64;
using BV = gtl::bit_vector;
static const int W = 5;
struct M { // reference: n bits in w
    u64 w[W]; unsigned n;
    u64 bit(unsigned i) const { return (w[i >> 6] >> (i & 63)) & 1; }
    void put(unsigned i, u64 b) { w[i >> 6] = (w[i >> 6] & ~((u64)1 << (i & 63))) | (b << (i & 63)); }
};
static u64 rmask(unsigned j, unsigned a, unsigned b) { // bits of word j inside [a,b)
    u64 m = 0;
    for (unsigned i = 0; i < 64; i++) if (j * 64 + i >= a && j * 64 + i < b) m |= (u64)1 << i;
    return m;
}
static void fresh(M& m, unsigned n) {
    m.n = n;
    for (int j = 0; j < W; j++) m.w[j] = 0;
    for (unsigned j = 0; j * 64 < n; j++) { m.w[j] = sym_u64("w", 64) & rmask(j, 0, n); }
}
// fill a bit vector with the reference's bits through the storage (word) interface
static void load(BV& b, const M& m) {
    b.resize(0); b.resize(m.n);
    for (unsigned j = 0; j * 64 < m.n; j++) b.view(j * 64, m.n < j * 64 + 64 ? m.n : j * 64 + 64) = m.w[j];
}
static void same(const BV& b, const M& m, const char* what) {
    sym_assert(b.size() == m.n, "size() differs from the reference");
    sym_assert(b.num_blocks() == (m.n + 63) / 64, "num_blocks() does not match the size");
    for (unsigned j = 0; j * 64 < m.n; j++) sym_assert(b.block(j) == m.w[j], what);
}
static M sub(const M& m, unsigned a, unsigned b) {
    M r; r.n = b - a; for (int j = 0; j < W; j++) r.w[j] = 0;
    for (unsigned i = a; i < b; i++) r.w[(i - a) >> 6] |= m.bit(i) << ((i - a) & 63);
    return r;
}
static bool any(const M& m) { u64 x = 0; for (int j = 0; j < W; j++) x |= m.w[j]; return x != 0; }
static M shl_(const M& m, unsigned a, unsigned b, unsigned c) { M r = m; for (unsigned i = a; i < b; i++) r.put(i, i + c < b ? m.bit(i + c) : 0); return r; }
static M shr_(const M& m, unsigned a, unsigned b, unsigned c) { M r = m; for (unsigned i = a; i < b; i++) r.put(i, i >= a + c ? m.bit(i - c) : 0); return r; }
static const unsigned SZ[] = { 0, 1, 2, 63, 64, 65, 100, 127, 128, 129, 190, 192, 193, 256 };
static unsigned pick_size(unsigned lim) {
    unsigned n = 0; while (n < sizeof SZ / sizeof *SZ && SZ[n] <= lim) n++;
    return SZ[sym_choice(n, "size")];
}
// a vector is fully usable afterwards: complement twice, grow and shrink
static void usable(BV& b, const M& m, const char* what) {
    unsigned n = m.n; M f = m; for (int j = 0; j < W; j++) f.w[j] = ~f.w[j] & rmask(j, 0, n);
    b.flip(); same(b, f, what); b.flip(); same(b, m, what);
    M g = m; g.n = n + 3; for (unsigned i = n; i < n + 3; i++) g.put(i, 1); b.resize(n + 3, true); same(b, g, what); sym_assert(b.any() && !b.none(), what); b.resize(n); same(b, m, what); sym_assert(b.any() == any(m), what);
}
// whole-vector operations
static void vec_ops(unsigned op, unsigned lim) {
    unsigned n = pick_size(lim);
    M m; fresh(m, n);
    BV b; load(b, m);
    same(b, m, "assigning words does not store the bits");
    switch (op) {
    case 0: if (n) { unsigned i = (unsigned)sym_concretize(sym_choice(n, "i")); b.set(i); m.put(i, 1); } break;
    case 1: if (n) { unsigned i = (unsigned)sym_choice(n, "i"); b.reset(i); m.put(i, 0); } break;
    case 2: if (n) { unsigned i = (unsigned)sym_choice(n, "i"); b.flip(i); m.put(i, m.bit(i) ^ 1); } break;
    case 3: if (n) { unsigned i = (unsigned)sym_choice(n, "i"); u64 v = sym_u64("v", 1); b.set(i, v != 0); m.put(i, v); } break;
    case 4: if (n) { unsigned i = (unsigned)sym_choice(n, "i"); sym_assert(b[i] == (m.bit(i) == 1), "operator[] differs"); sym_assert(b.test(i) == (m.bit(i) == 1), "test() differs"); } break;
    case 5: b.set(); for (int j = 0; j < W; j++) m.w[j] = rmask(j, 0, n); break;
    case 6: b.reset(); for (int j = 0; j < W; j++) m.w[j] = 0; break;
    case 7: b.flip(); for (int j = 0; j < W; j++) m.w[j] = ~m.w[j] & rmask(j, 0, n); break;
    case 8: { BV r = ~b; same(b, m, "~ changed its operand"); for (int j = 0; j < W; j++) m.w[j] = ~m.w[j] & rmask(j, 0, n); same(r, m, "~ is wrong"); return; }
    case 9: case 10: case 11: case 12: case 13: { // logic with another vector of the same size
        M o; fresh(o, n); BV c; load(c, o);
        M r = m;
        bool self = sym_choice(2, "self") != 0;
        const M& q = self ? m : o;
        for (unsigned j = 0; j < W; j++) {
            switch (op) { case 9: r.w[j] = m.w[j] | q.w[j]; break; case 10: r.w[j] = m.w[j] & q.w[j]; break; case 11: r.w[j] = m.w[j] ^ q.w[j]; break; case 12: r.w[j] = m.w[j] & ~q.w[j]; break; default: r.w[j] = (m.w[j] | ~q.w[j]) & rmask(j, 0, n); }
        }
        BV& d = self ? b : c;
        if (op < 13) {
            BV e = op == 9 ? (b | d) : op == 10 ? (b & d) : op == 11 ? (b ^ d) : (b - d);
            same(e, r, "binary operator is wrong"); same(b, m, "binary operator changed its operand");
        }
        switch (op) { case 9: b |= d; break; case 10: b &= d; break; case 11: b ^= d; break; case 12: b -= d; break; default: b.or_not(d); }
        if (!self) same(c, o, "compound assignment changed its right operand");
        m = r;
        break;
    }
    case 14: case 15: { // shifts: << moves bits towards index 0, >> away from it; zeroes come in
        static const unsigned C[] = { 0, 1, 7, 62, 63, 64, 65, 100, 127, 128, 129, 191, 192, 300 };
        unsigned c = C[sym_choice(sizeof C / sizeof *C, "cnt")];
        M r = op == 14 ? shl_(m, 0, n, c) : shr_(m, 0, n, c);
        BV e = op == 14 ? (b << c) : (b >> c);
        same(e, r, "shift is wrong"); same(b, m, "shift changed its operand");
        if (op == 14) b <<= c; else b >>= c;
        m = r;
        break;
    }
    case 16: { // resize: old bits kept, new bits take the given value
        unsigned n2 = pick_size(lim + 64); bool v = sym_choice(2, "val") != 0;
        if (v || sym_choice(2, "dflt")) b.resize(n2, v); else b.resize(n2);
        for (unsigned j = 0; j < W; j++) { m.w[j] &= rmask(j, 0, n2); if (v && n2 > n) m.w[j] |= rmask(j, n, n2); }
        m.n = n2;
        if (n2 > n && v) sym_cover("grow with ones");
        same(b, m, "resize() loses or invents bits");
        b.flip(); for (unsigned j = 0; j < W; j++) m.w[j] = ~m.w[j] & rmask(j, 0, n2);
        break;
    }
    case 17: { // unary predicates
        u64 all = 0, miss = 0; for (unsigned j = 0; j < W; j++) { all |= m.w[j]; miss |= ~m.w[j] & rmask(j, 0, n); }
        sym_assert(b.any() == (all != 0), "any() is wrong"); sym_assert(b.none() == (all == 0), "none() is wrong"); sym_assert(b.every() == (miss == 0), "every() is wrong");
        sym_assert(b.empty() == (n == 0), "empty() is wrong");
        break;
    }
    case 18: { // binary predicates
        unsigned n2 = sym_choice(2, "same") ? n : pick_size(lim); M o; fresh(o, n2); BV c; load(c, o);
        u64 diff = 0, com = 0; bool sub_ = true; for (unsigned j = 0; j < W; j++) { diff |= m.w[j] ^ o.w[j]; com |= m.w[j] & o.w[j]; }
        { u64 x = 0; for (unsigned j = 0; j < W; j++) x |= o.w[j] & ~m.w[j]; sub_ = x == 0; }
        bool eq = n == n2 && diff == 0;
        sym_assert((b == c) == eq, "operator== is wrong"); sym_assert((b != c) == !eq, "operator!= is wrong");
        sym_assert(b.disjoint(c) == (com == 0), "disjoint() is wrong"); sym_assert(b.intersects(c) == (com != 0), "intersects() is wrong");
        if (n >= n2) sym_assert(b.contains(c) == sub_, "contains() is wrong");
        if (n > n2) sym_cover("contains of a shorter vector");
        sym_assert(b == b && b.contains(b), "a vector must equal and contain itself");
        break;
    }
    case 19: { // copy, move, swap, hash
        BV c(b); same(c, m, "copy is wrong"); sym_assert(c == b && std::hash<BV>()(c) == std::hash<BV>()(b), "copy does not compare and hash equal");
        M o; fresh(o, n > 70 ? n - 66 : n + 66); BV d; load(d, o); d.swap(c); same(d, m, "swap is wrong"); same(c, o, "swap is wrong"); usable(d, m, "a swapped vector is not usable"); usable(c, o, "a swapped vector is not usable");
        c = d; same(c, m, "copy assignment is wrong"); usable(c, m, "an assigned vector is not usable"); BV e(std::move(c)); same(e, m, "move is wrong"); usable(e, m, "a moved vector is not usable"); BV f(n > 70 ? 3 : 130, true); f = std::move(e); same(f, m, "move assignment is wrong"); usable(f, m, "an assigned vector is not usable");
        b = *&b;
        break;
    }
    case 20: { // constructors
        BV c(n, true); M r = m; for (unsigned j = 0; j < W; j++) r.w[j] = rmask(j, 0, n); same(c, r, "vector(n,true) is not all ones");
        BV d(n); for (unsigned j = 0; j < W; j++) r.w[j] = 0; same(d, r, "vector(n) is not all zeroes");
        u64 a0 = sym_u64("a", 64), a1 = sym_u64("a", 64); BV e({ a0, a1 }); r.n = 128; r.w[0] = a0; r.w[1] = a1; same(e, r, "construction from words is wrong");
        break;
    }
    case 21: { // conversions: 6 symbolic bits at either end, the others zero (one branch per bit)
        for (unsigned j = 0; j < W; j++) m.w[j] &= rmask(j, 0, 3) | rmask(j, n > 3 ? n - 3 : 0, n);
        load(b, m);
        std::string s = b.to_string();
        sym_assert(s.size() == n, "to_string() has a wrong length");
        for (unsigned i = 0; i < n; i++) sym_assert(s[n - 1 - i] == (char)('0' + m.bit(i)), "to_string() is wrong");
        break;
    }
    case 22: sym_assert(b.to_ullong() == m.w[0], "to_ullong() is wrong"); break;
    }
    same(b, m, "the bits differ from the reference");
}
static const char hexd[] = "0123456789abcdef";
// operations through a view [a,b) of a vector of n bits
static void view_ops(unsigned op, unsigned n, unsigned step) {
    unsigned a, e;
    if (step <= 1) { a = (unsigned)sym_choice(n + 1, "first"); e = a + (unsigned)sym_choice(n + 1 - a, "len"); }
    else {
        static const unsigned P2[] = { 0, 10, 63, 64, 65, 100, 127, 128, 130 }, P3[] = { 0, 1, 10, 31, 62, 63, 64, 65, 66, 100, 126, 127, 128, 129, 130, 140, 191, 192, 193, 200 };
        const unsigned* P = step == 2 ? P2 : P3; const unsigned NP = step == 2 ? 9 : 20;
        unsigned k = 0; while (k < NP && P[k] <= n) k++;
        a = P[sym_choice(k, "first")]; e = P[sym_choice(k, "last")]; if (e < a) return;
    }
    M m; fresh(m, n); BV b; load(b, m); M r = m;
    auto v = b.view(a, e);
    unsigned len = e - a;
    sym_assert(v.size() == len && v.empty() == (len == 0), "view size is wrong");
    switch (op) {
    case 0: v.set(); for (int j = 0; j < W; j++) r.w[j] |= rmask(j, a, e); break;
    case 1: v.reset(); for (int j = 0; j < W; j++) r.w[j] &= ~rmask(j, a, e); break;
    case 2: v.flip(); for (int j = 0; j < W; j++) r.w[j] ^= rmask(j, a, e); break;
    case 3: if (len && len <= 64) { u64 x = sym_u64("x", 64); v = x; for (unsigned i = 0; i < len; i++) r.put(a + i, (x >> i) & 1); sym_cover("view assigned a word"); } break;
    case 4: { // words
        u64 x = sym_u64("x", 64), y = sym_u64("x", 64), z = sym_u64("x", 64); v = { x, y, z };
        for (unsigned i = 0; i < len && i < 192; i++) { u64 q = i < 64 ? x : i < 128 ? y : z; r.put(a + i, (q >> (i & 63)) & 1); }
        break;
    }
    case 5: if (len) { unsigned i = (unsigned)sym_choice(len < 3 ? len : 3, "i"); if (sym_choice(2, "end")) i = len - 1 - i; u64 x = sym_u64("x", 2);
        sym_assert(v[i] == (m.bit(a + i) == 1), "view operator[] is wrong");
        if (x == 0) { v.set(i); r.put(a + i, 1); } else if (x == 1) { v.reset(i); r.put(a + i, 0); } else if (x == 2) { v.flip(i); r.put(a + i, m.bit(a + i) ^ 1); } else { v.set(i, true); r.put(a + i, 1); v.set(i, false); r.put(a + i, 0); } } break;
    case 6: { u64 all = 0, miss = 0; for (int j = 0; j < W; j++) { all |= m.w[j] & rmask(j, a, e); miss |= ~m.w[j] & rmask(j, a, e); }
        sym_assert(v.any() == (all != 0), "view any() is wrong"); sym_assert(v.none() == (all == 0), "view none() is wrong"); sym_assert(v.every() == (miss == 0), "view every() is wrong"); break; }
    case 7: { // find_first / find_next: the lowest set bit is placed at every position
        if (!len) { sym_assert(v.find_first() == BV::npos, "find_first() on an empty view"); break; }
        unsigned cand[12], nc = 0; // positions around every word boundary of the vector, the view's ends and its middle; len: no bit set
        auto addc = [&](unsigned x) { if (x <= len && nc < 12) { for (unsigned q = 0; q < nc; q++) if (cand[q] == x) return; cand[nc++] = x; } };
        addc(len); addc(0); addc(len - 1); addc(len / 2); for (unsigned wb = 64; wb < n; wb += 64) if (wb >= a) { addc(wb - a); addc(wb - a - 1); addc(wb - a + 7); }
        unsigned at = cand[sym_choice(nc, "at")];
        for (int j = 0; j < W; j++) { u64 z = rmask(j, a, a + (at < len ? at : len)); r.w[j] &= ~z; if (at < len) r.w[j] |= rmask(j, a + at, a + at + 1); }
        { // above the lowest set bit: 5 symbolic bits, the others all zeroes or all ones
            unsigned hi = a + at + 6; bool bg = sym_choice(2, "bg") != 0;
            for (int j = 0; j < W; j++) { u64 z = rmask(j, hi, n); r.w[j] = bg ? r.w[j] | z : r.w[j] & ~z; }
        }
        load(b, r);
        auto f = v.find_first();
        sym_assert(f == (at < len ? (size_t)at : BV::npos), "find_first() is wrong");
        for (unsigned q = 0; q < 3; q++) { unsigned st = q == 0 ? 1 : q == 1 ? at / 2 : at; if (st < len) { auto g = v.find_next(st); if (st <= at) sym_assert(g == (at < len ? (size_t)at : BV::npos), "find_next() is wrong"); } }
        sym_assert(v.find_next(len) == BV::npos, "find_next() past the end");
        if (a % 64 && e % 64 && a / 64 != e / 64 && at < len && (a + at) / 64 == e / 64) sym_cover("hit in the last partial word of an unaligned view");
        break;
    }
    case 8: { // count: at most 12 free bits in a window, the rest all zeroes or all ones
        unsigned base = (unsigned)sym_choice(4, "win") * 40; bool bg = sym_choice(2, "bg") != 0;
        for (int j = 0; j < W; j++) { u64 z = rmask(j, base, base + 12), l = rmask(j, 0, n); r.w[j] = (m.w[j] & z & l) | (bg ? l & ~z : 0); }
        load(b, r);
        u64 c = 0; for (unsigned i = a; i < e; i++) c += r.bit(i);
        sym_assert(v.count() == c, "view count() is wrong");
        c = 0; for (unsigned i = 0; i < n; i++) c += r.bit(i);
        sym_assert(b.count() == c, "count() is wrong");
        break;
    }
    case 9: case 10: { static const unsigned C[] = { 0, 1, 13, 63, 64, 65, 100, 128, 129 }; unsigned c = C[sym_choice(9, "cnt")];
        if (op == 9) { v <<= c; r = shl_(m, a, e, c); } else { v >>= c; r = shr_(m, a, e, c); } break; }
    case 11: if (len) { // text
        std::string s = static_cast<std::string>(v); unsigned nb = (len + 7) / 8;
        sym_assert(s.size() == 2 + nb * 2 && s[0] == '0' && s[1] == 'x', "hex string has a wrong form");
        M t = sub(m, a, e);
        unsigned i = (unsigned)sym_choice(nb * 2, "digit");
        u64 d = (t.w[i / 16] >> (4 * (i % 16))) & 15;
        char c = s[s.size() - 1 - i];
        sym_assert((u64)c == (d > 9 ? 'a' + d - 10 : '0' + d), "hex string is wrong");
    } break;
    }
    same(b, r, "an update through a view touched other bits or missed its own");
}
// two views: of two vectors, or of one
static void two_ops(unsigned op, unsigned n, bool one) {
    static const unsigned P1[] = { 0, 1, 10, 62, 63, 64, 65, 67, 100, 128, 129, 140 }, P0[] = { 0, 3, 63, 64, 70 };
    static const unsigned L1[] = { 0, 1, 3, 30, 63, 64, 65, 66, 100, 127, 128, 130 }, L0[] = { 0, 1, 61, 64, 65, 100, 130 };
    const bool dense = sym_param(3) != 0; const unsigned *P = dense ? P1 : P0, *L = dense ? L1 : L0, NP = dense ? 12 : 5, NL = dense ? 12 : 7;
    unsigned na = 0, nl = 0; while (na < NP && P[na] <= n) na++;
    unsigned a = P[sym_choice(na, "a")], c = P[sym_choice(na, "c")]; while (nl < NL && a + L[nl] <= n) nl++;
    unsigned l1 = L[sym_choice(nl, "la")], l2 = op >= 6 ? L[sym_choice(NL, "lc")] : l1;
    if (a + l1 > n || c + l2 > n) return;
    M m; fresh(m, n); BV b; load(b, m);
    M o = m; BV other;
    if (!one) { fresh(o, n); load(other, o); }
    BV& ob = one ? b : other;
    auto v = b.view(a, a + l1), x = ob.view(c, c + l2);
    M mv = sub(m, a, a + l1), ov = sub(o, c, c + l2), r = m;
    switch (op) {
    case 0: v = x; for (unsigned i = 0; i < l1; i++) r.put(a + i, ov.bit(i)); if (one && a > c && c + l1 > a) sym_cover("overlapping copy upwards"); break;
    case 1: case 2: case 3: case 4: case 5: {
        if (one && a != c && !(a + l1 <= c || c + l1 <= a)) return; // overlapping operands of a compound assignment: not specified
        switch (op) { case 1: v |= x; break; case 2: v &= x; break; case 3: v ^= x; break; case 4: v -= x; break; default: v.or_not(x); }
        for (unsigned i = 0; i < l1; i++) { u64 p = mv.bit(i), q = ov.bit(i); r.put(a + i, op == 1 ? p | q : op == 2 ? p & q : op == 3 ? p ^ q : op == 4 ? p & (q ^ 1) : p | (q ^ 1)); }
        break;
    }
    case 6: { u64 d = 0; for (int j = 0; j < W; j++) d |= mv.w[j] ^ ov.w[j]; sym_assert((v == x) == (l1 == l2 && d == 0), "view == is wrong"); break; }
    case 7: if (l1 >= l2) { u64 d = 0; for (int j = 0; j < W; j++) d |= ov.w[j] & ~mv.w[j]; sym_assert(v.contains(x) == (d == 0), "view contains() is wrong"); } break;
    case 8: { u64 d = 0; for (int j = 0; j < W; j++) d |= ov.w[j] & mv.w[j]; sym_assert(v.disjoint(x) == (d == 0), "view disjoint() is wrong"); sym_assert(v.intersect(x) == (d != 0), "view intersect() is wrong"); break; }
    }
    same(b, r, "an update through a view touched other bits or missed its own");
    if (!one) same(ob, o, "the source of a view operation changed");
}
extern "C" void sym_main() {
    unsigned mode = (unsigned)sym_param(0), n = (unsigned)sym_param(1); u64 mask = (u64)sym_param(2);
    unsigned ops[32], k = 0, tot = mode == 0 ? 23 : mode == 1 ? 12 : 9;
    for (unsigned i = 0; i < tot; i++) if (!mask || (mask >> i & 1)) ops[k++] = i;
    unsigned op = ops[sym_choice(k, "op")];
    if (mode == 0) vec_ops(op, n); else if (mode == 1) view_ops(op, n, (unsigned)sym_param(3)); else two_ops(op, n, mode == 3);
    sym_assert(sym_live() == 0, "live heap blocks remain after destruction");
}
