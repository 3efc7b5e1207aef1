// Bit-scan, byte-order and wide-multiplication helpers: every argument value.
// params: 0 which (0 scans, 1 byte order, 2 wide multiplication)
#include "sym.h"
#include <gtl/phmap.hpp>
#include <gtl/bits.hpp>
typedef uint64_t u64;
static void clz64(u64 n, u64 r) { if (n == 0) sym_assert(r == 64, "the number of leading zeros of 0 is wrong"); else { sym_assert(r < 64, "a number of leading zeros is out of range"); sym_assert((n >> (63 - (r & 63))) == 1, "a number of leading zeros is wrong"); } }
static void clz32(u64 n, u64 r) { if (n == 0) sym_assert(r == 32, "the number of leading zeros of 0 is wrong"); else { sym_assert(r < 32, "a number of leading zeros is out of range"); sym_assert((n >> (31 - (r & 31))) == 1, "a number of leading zeros is wrong"); } }
static void ctz(u64 n, u64 r) { sym_assert(r < 64, "a number of trailing zeros is out of range"); sym_assert((n >> (r & 63) & 1) == 1 && (n & ((u64(1) << (r & 63)) - 1)) == 0, "a number of trailing zeros is wrong"); }
template<class T> static void scans(T) {
    u64 n = sym_u64("n", 64); uint32_t m = (uint32_t)sym_u64("m", 32);
    if constexpr (requires { gtl::CountLeadingZeros64(n); }) clz64(n, gtl::CountLeadingZeros64(n));
    if constexpr (requires { gtl::CountLeadingZeros64Slow(n); }) clz64(n, gtl::CountLeadingZeros64Slow(n));
    if constexpr (requires { gtl::CountLeadingZeros32(m); }) clz32(m, gtl::CountLeadingZeros32(m));
    if constexpr (requires { gtl::CountLeadingZeros32Slow(m); }) clz32(m, gtl::CountLeadingZeros32Slow(m));
    if (n) { if constexpr (requires { gtl::CountTrailingZerosNonZero64(n); }) ctz(n, gtl::CountTrailingZerosNonZero64(n)); if constexpr (requires { gtl::CountTrailingZerosNonZero64Slow(n); }) ctz(n, gtl::CountTrailingZerosNonZero64Slow(n)); }
    if (m) { if constexpr (requires { gtl::CountTrailingZerosNonZero32(m); }) ctz(m, gtl::CountTrailingZerosNonZero32(m)); if constexpr (requires { gtl::CountTrailingZerosNonZero32Slow(m); }) ctz(m, gtl::CountTrailingZerosNonZero32Slow(m)); }
    sym_cover("scans");
}
template<unsigned B, class T, class St, class Ld> static void order(bool big, St st, Ld ld, T v, unsigned off) {
    unsigned char buf[24]; for (unsigned i = 0; i < 24; i++) buf[i] = (unsigned char)(0xA0 + i);
    st(buf + off, v);
    for (unsigned i = 0; i < 24; i++) { unsigned j = i - off; unsigned char want = i >= off && j < B ? (unsigned char)(v >> (8 * (big ? B - 1 - j : j))) : (unsigned char)(0xA0 + i); sym_assert(buf[i] == want, "a store writes other bytes"); }
    sym_assert(ld(buf + off) == v, "a load does not return what was stored");
}
#define ORD(NS, BIG, W) if constexpr (requires { gtl::NS::Store##W(p, (uint##W##_t)v); gtl::NS::Load##W(p); }) { order<W / 8, uint##W##_t>(BIG, [](void* q, uint##W##_t x) { gtl::NS::Store##W(q, x); }, [](const void* q) { return gtl::NS::Load##W(q); }, (uint##W##_t)v, off); \
    sym_assert(gtl::NS::ToHost##W(gtl::NS::FromHost##W((uint##W##_t)v)) == (uint##W##_t)v, "a byte-order conversion is not undone by its inverse"); sym_cover("order"); }
template<class T> static void orders(T) {
    u64 v = sym_u64("v", 64); unsigned off = (unsigned)sym_choice(9, "off"); void* p = nullptr; (void)p;
    ORD(little_endian, false, 16) ORD(little_endian, false, 32) ORD(little_endian, false, 64) ORD(big_endian, true, 16) ORD(big_endian, true, 32) ORD(big_endian, true, 64)
    if constexpr (requires { gtl::ghtonl((uint32_t)v); gtl::gntohll(v); gtl::ghtons((uint16_t)v); }) {
        unsigned char b[8]; auto net = [&](auto x, auto orig) { __builtin_memcpy(b, &x, sizeof x); for (unsigned i = 0; i < sizeof x; i++) sym_assert(b[i] == (unsigned char)(orig >> (8 * (sizeof x - 1 - i))), "network byte order is wrong"); };
        net(gtl::ghtons((uint16_t)v), (uint16_t)v); net(gtl::ghtonl((uint32_t)v), (uint32_t)v); net(gtl::ghtonll(v), v);
        sym_assert(gtl::gntohs(gtl::ghtons((uint16_t)v)) == (uint16_t)v && gtl::gntohl(gtl::ghtonl((uint32_t)v)) == (uint32_t)v && gtl::gntohll(gtl::ghtonll(v)) == v, "a byte-order conversion is not undone by its inverse"); sym_cover("network");
    }
}
template<class T> static void wide(T) {
    u64 a = sym_u64("a", 64), h = 7;
    if constexpr (requires { umul128(a, a, &h); }) {
        unsigned s = (unsigned)sym_choice(64, "s"); u64 b = u64(1) << s, l = umul128(a, b, &h); sym_assert(l == a << s && h == (s ? a >> (64 - s) : 0), "a 128-bit product is wrong");
        l = umul128(b, a, &h); sym_assert(l == a << s && h == (s ? a >> (64 - s) : 0), "a 128-bit product is wrong");
        sym_cover("wide");
    }
}
extern "C" void sym_main() { switch (sym_param(0)) { case 0: scans(0); break; case 1: orders(0); break; default: wide(0); } }
