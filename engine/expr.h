// Hash-consed bit-vector expression DAG with constant folding / known-bits simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <cstdlib>
#include <cstdio>
#include <bit>
#include <cmath>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128          i128;
typedef uint64_t          u64;
typedef int64_t           i64;
typedef uint32_t          u32;
typedef uint8_t           u8;
typedef uint16_t          u16;

enum EK : uint8_t {
    KConst, KSym,
    KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem,
    KAnd, KOr, KXor, KShl, KLShr, KAShr,
    KNot,                        // width-1 negation
    KEq, KUlt, KUle, KSlt, KSle, // width-1 results
    KIte, KConcat, KExtract, KZExt, KSExt,
    KFAdd, KFSub, KFMul, KFDiv, KFCmp, KFToF, KFToSI, KFToUI, KSIToF, KUIToF, KFSqrt
};

struct Expr {
    EK       k;
    uint8_t  fp;    // uses floating point somewhere below
    uint16_t w;
    u32      id;
    u32      aux;   // extract low bit / symbol index / fp predicate
    Expr *   a, *b, *c;
    u128     cv;
    u64      kz, ko; // known zero / one bits (w<=64)
    u64      sup[2];
    u64      evUid;
    u128     ev;
    Z3_ast   z;
    u32      zgen;
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u64  mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i128 sextw(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ m) - m);
}
static inline i64 sext64(u64 v, unsigned w) {
    if (w >= 64) return (i64)v;
    u64 m = 1ull << (w - 1);
    v &= mask64(w);
    return (i64)((v ^ m) - m);
}

struct SymInfo { std::string name; unsigned w; Expr* e; };

struct Model { // shared, immutable once published
    u64              uid;
    std::vector<u64> v; // by symbol index
};

struct ExprPool {
    std::vector<Expr*> table;
    size_t             count = 0;
    std::vector<SymInfo> syms;
    std::vector<char*> chunks;
    size_t             chunkPos = 0;
    static constexpr size_t CH = 1 << 22;

    ExprPool() { table.assign(1 << 16, nullptr); }

    Expr* alloc() {
        if (chunks.empty() || chunkPos + sizeof(Expr) > CH) {
            chunks.push_back((char*)malloc(CH));
            chunkPos = 0;
        }
        Expr* e = (Expr*)(chunks.back() + chunkPos);
        chunkPos += (sizeof(Expr) + 15) & ~15ull;
        return e;
    }
    static u64 hashOf(EK k, unsigned w, u32 aux, Expr* a, Expr* b, Expr* c, u128 cv) {
        u64 h = (u64)k * 0x9E3779B97F4A7C15ull + w;
        auto mixin = [&](u64 x) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
        mixin(aux); mixin(a ? a->id + 1 : 0); mixin(b ? b->id + 1 : 0); mixin(c ? c->id + 1 : 0);
        mixin((u64)cv); mixin((u64)(cv >> 64));
        return h;
    }
    void grow() {
        std::vector<Expr*> old;
        old.swap(table);
        table.assign(old.size() * 2, nullptr);
        for (Expr* e : old)
            if (e) {
                u64 h = hashOf(e->k, e->w, e->aux, e->a, e->b, e->c, e->cv);
                size_t i = h & (table.size() - 1);
                while (table[i]) i = (i + 1) & (table.size() - 1);
                table[i] = e;
            }
    }
    Expr* intern(EK k, unsigned w, u32 aux, Expr* a, Expr* b, Expr* c, u128 cv) {
        u64 h = hashOf(k, w, aux, a, b, c, cv);
        size_t i = h & (table.size() - 1);
        while (Expr* e = table[i]) {
            if (e->k == k && e->w == w && e->aux == aux && e->a == a && e->b == b && e->c == c && e->cv == cv)
                return e;
            i = (i + 1) & (table.size() - 1);
        }
        Expr* e = alloc();
        memset(e, 0, sizeof(Expr));
        e->k = k; e->w = w; e->aux = aux; e->a = a; e->b = b; e->c = c; e->cv = cv;
        e->id = (u32)count++;
        for (Expr* s : { a, b, c })
            if (s) { e->sup[0] |= s->sup[0]; e->sup[1] |= s->sup[1]; e->fp |= s->fp; }
        if (k >= KFAdd) e->fp = 1;
        if (k == KSym) e->sup[(aux >> 6) & 1] |= 1ull << (aux & 63);
        knownBits(e);
        table[i] = e;
        if (count * 2 > table.size()) grow();
        return e;
    }
    static u64 umaxE(Expr* e) { return mask64(e->w) & ~e->kz; }
    static u64 uminE(Expr* e) { return e->ko; }

    void knownBits(Expr* e) {
        e->kz = e->ko = 0;
        if (e->w > 64) return;
        u64 m = mask64(e->w);
        Expr *a = e->a, *b = e->b, *c = e->c;
        auto upTo = [&](u64 mx) { // all bits above highest bit of mx are zero
            unsigned lz = mx ? std::countl_zero(mx) : 64;
            if (lz == 0) return;
            u64 hi = lz == 64 ? ~0ull : ~(~0ull >> lz);
            e->kz |= hi & m;
        };
        switch (e->k) {
        case KConst: e->ko = (u64)e->cv & m; e->kz = ~(u64)e->cv & m; break;
        case KAnd: e->kz = a->kz | b->kz; e->ko = a->ko & b->ko; break;
        case KOr: e->kz = a->kz & b->kz; e->ko = a->ko | b->ko; break;
        case KXor: e->kz = (a->kz & b->kz) | (a->ko & b->ko); e->ko = (a->kz & b->ko) | (a->ko & b->kz); break;
        case KNot: e->kz = a->ko; e->ko = a->kz; break;
        case KAdd: {
            unsigned tz = std::min(std::countr_one(a->kz), std::countr_one(b->kz));
            e->kz |= mask64(tz) & m;
            u128 mx = (u128)umaxE(a) + umaxE(b);
            if (mx <= m) upTo((u64)mx);
            // low bits fully known on both sides
            u64 ka = a->kz | a->ko, kb = b->kz | b->ko;
            unsigned kn = std::min(std::countr_one(ka), std::countr_one(kb));
            if (kn) { u64 s = (a->ko + b->ko) & mask64(kn); e->ko |= s & m; e->kz |= (~s & mask64(kn)) & m; }
            break;
        }
        case KMul: {
            unsigned tz = std::countr_one(a->kz) + std::countr_one(b->kz);
            e->kz |= mask64(tz > 64 ? 64 : tz) & m;
            u128 mx = (u128)umaxE(a) * umaxE(b);
            if (mx <= m) upTo((u64)mx);
            break;
        }
        case KShl:
            if (b->k == KConst && b->cv < e->w) { unsigned s = (unsigned)b->cv; e->kz = ((a->kz << s) | mask64(s)) & m; e->ko = (a->ko << s) & m; }
            else { e->kz = mask64(std::countr_one(a->kz)) & m; }
            break;
        case KLShr:
            if (b->k == KConst && b->cv < e->w) { unsigned s = (unsigned)b->cv; e->kz = ((a->kz >> s) | ~(m >> s)) & m; e->ko = a->ko >> s; }
            else upTo(umaxE(a));
            break;
        case KAShr:
            if (b->k == KConst && b->cv < e->w) {
                unsigned s = (unsigned)b->cv;
                e->kz = (u64)(sext64(a->kz, e->w) >> s) & m; e->ko = (u64)(sext64(a->ko, e->w) >> s) & m;
            }
            break;
        case KIte: e->kz = b->kz & c->kz; e->ko = b->ko & c->ko; break;
        case KZExt: e->kz = a->kz | (m & ~mask64(a->w)); e->ko = a->ko; break;
        case KSExt: e->kz = (u64)sext64(a->kz, a->w) & m; e->ko = (u64)sext64(a->ko, a->w) & m; break;
        case KExtract: if (a->w <= 64) { e->kz = (a->kz >> e->aux) & m; e->ko = (a->ko >> e->aux) & m; } break;
        case KConcat: e->kz = ((b->w < 64 ? a->kz << b->w : 0) | b->kz) & m; e->ko = ((b->w < 64 ? a->ko << b->w : 0) | b->ko) & m; break;
        case KUDiv: upTo(umaxE(a)); break;
        case KURem: { u64 mb = umaxE(b); upTo(std::min(umaxE(a), mb ? mb - 1 : umaxE(a))); break; }
        default: break;
        }
    }

    Expr* cst(u128 v, unsigned w) { return intern(KConst, w, 0, nullptr, nullptr, nullptr, v & maskw(w)); }
    Expr* mkSym(unsigned idx) {
        return syms[idx].e;
    }
    unsigned newSym(const std::string& name, unsigned w) {
        unsigned idx = (unsigned)syms.size();
        syms.push_back({ name, w, nullptr });
        syms[idx].e = intern(KSym, w, idx, nullptr, nullptr, nullptr, 0);
        return idx;
    }
    static bool isC(Expr* e) { return e->k == KConst; }

    static u128 foldBin(EK k, u128 a, u128 b, unsigned w) {
        u128 m = maskw(w);
        switch (k) {
        case KAdd: return (a + b) & m;
        case KSub: return (a - b) & m;
        case KMul: return (a * b) & m;
        case KUDiv: return b ? (a / b) & m : m;
        case KURem: return b ? (a % b) & m : a;
        case KSDiv: { i128 x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : m; return (u128)(x / y) & m; }
        case KSRem: { i128 x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
        case KAnd: return a & b;
        case KOr: return a | b;
        case KXor: return a ^ b;
        case KShl: return b >= w ? 0 : (a << (unsigned)b) & m;
        case KLShr: return b >= w ? 0 : (a >> (unsigned)b) & m;
        case KAShr: { i128 x = sextw(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
        case KEq: return a == b;
        case KUlt: return a < b;
        case KUle: return a <= b;
        case KSlt: return sextw(a, w) < sextw(b, w);
        case KSle: return sextw(a, w) <= sextw(b, w);
        default: abort();
        }
    }

    Expr* finish(Expr* e) { // fully known -> constant
        if (e->w <= 64 && e->k != KConst && (e->kz | e->ko) == mask64(e->w)) return cst(e->ko, e->w);
        return e;
    }

    Expr* mkNot(Expr* a) {
        if (isC(a)) return cst(!a->cv, 1);
        if (a->k == KNot) return a->a;
        if (a->k == KUlt) return bin(KUle, a->b, a->a);
        if (a->k == KUle) return bin(KUlt, a->b, a->a);
        if (a->k == KSlt) return bin(KSle, a->b, a->a);
        if (a->k == KSle) return bin(KSlt, a->b, a->a);
        return intern(KNot, 1, 0, a, nullptr, nullptr, 0);
    }

    Expr* bin(EK k, Expr* a, Expr* b) {
        unsigned w = a->w;
        bool cmp = k >= KEq && k <= KSle;
        if (isC(a) && isC(b)) return cst(foldBin(k, a->cv, b->cv, w), cmp ? 1 : w);
        // canonicalise constants to the right for commutative ops
        if ((k == KAdd || k == KMul || k == KAnd || k == KOr || k == KXor || k == KEq)) {
            if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
        }
        u128 m = maskw(w);
        bool bc = isC(b);
        switch (k) {
        case KAdd:
            if (bc && b->cv == 0) return a;
            if (w == 1) return bin(KXor, a, b);
            if (bc && a->k == KAdd && isC(a->b)) return bin(KAdd, a->a, cst(a->b->cv + b->cv, w));
            if (!bc && a->k == KAdd && isC(a->b)) return bin(KAdd, bin(KAdd, a->a, b), a->b);
            if (!bc && b->k == KAdd && isC(b->b)) return bin(KAdd, bin(KAdd, a, b->a), b->b);
            if (bc && a->k == KIte && isC(a->b) && isC(a->c)) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
            if (!bc && a->k == KSub && a->b == b) return a->a;
            if (!bc && b->k == KSub && b->b == a) return b->a;
            break;
        case KSub:
            if (w == 1) return bin(KXor, a, b);
            if (bc) return bin(KAdd, a, cst((u128)0 - b->cv, w));
            if (a == b) return cst(0, w);
            if (a->k == KAdd && isC(a->b)) return bin(KAdd, bin(KSub, a->a, b), a->b);
            if (b->k == KAdd && isC(b->b)) return bin(KAdd, bin(KSub, a, b->a), cst((u128)0 - b->b->cv, w));
            if (a->k == KAdd && a->a == b) return a->b;
            if (a->k == KAdd && a->b == b) return a->a;
            if (b->k == KAdd && b->a == a) return bin(KSub, cst(0, w), b->b);
            if (b->k == KAdd && b->b == a) return bin(KSub, cst(0, w), b->a);
            break;
        case KMul:
            if (bc) {
                if (b->cv == 0) return b;
                if (b->cv == 1) return a;
                if ((b->cv & (b->cv - 1)) == 0) {
                    unsigned s = 0; while (((b->cv >> s) & 1) == 0) s++;
                    return bin(KShl, a, cst(s, w));
                }
                if (a->k == KAdd && isC(a->b)) return bin(KAdd, bin(KMul, a->a, b), cst(a->b->cv * b->cv, w));
            }
            break;
        case KUDiv:
            if (bc && b->cv == 1) return a;
            if (bc && b->cv && (b->cv & (b->cv - 1)) == 0) {
                unsigned s = 0; while (((b->cv >> s) & 1) == 0) s++;
                return bin(KLShr, a, cst(s, w));
            }
            break;
        case KURem:
            if (bc && b->cv && (b->cv & (b->cv - 1)) == 0) return bin(KAnd, a, cst(b->cv - 1, w));
            break;
        case KSDiv: if (bc && b->cv == 1) return a; break;
        case KAnd:
            if (bc && b->cv == 0) return b;
            if (bc && b->cv == m) return a;
            if (a == b) return a;
            if (w == 1 && ((a->k == KNot && a->a == b) || (b->k == KNot && b->a == a))) return cst(0, 1);
            if (bc && w <= 64 && ((umaxE(a) & ~(u64)b->cv) == 0)) return a;
            if (bc && a->k == KAnd && isC(a->b)) return bin(KAnd, a->a, cst(a->b->cv & b->cv, w));
            if (bc && a->k == KZExt && w <= 64) {
                u128 lm = b->cv & maskw(a->a->w);
                return zext(bin(KAnd, a->a, cst(lm, a->a->w)), w);
            }
            if (bc && a->k == KIte && isC(a->b) && isC(a->c)) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
            break;
        case KOr:
            if (bc && b->cv == 0) return a;
            if (bc && b->cv == m) return b;
            if (a == b) return a;
            if (w == 1 && ((a->k == KNot && a->a == b) || (b->k == KNot && b->a == a))) return cst(1, 1);
            break;
        case KXor:
            if (bc && b->cv == 0) return a;
            if (a == b) return cst(0, w);
            if (w == 1 && bc) return mkNot(a);
            if (bc && a->k == KXor && isC(a->b)) return bin(KXor, a->a, cst(a->b->cv ^ b->cv, w));
            if (!bc && a->k == KXor && a->a == b) return a->b;
            if (!bc && a->k == KXor && a->b == b) return a->a;
            if (!bc && b->k == KXor && b->a == a) return b->b;
            if (!bc && b->k == KXor && b->b == a) return b->a;
            break;
        case KShl: case KLShr: case KAShr:
            if (bc && b->cv == 0) return a;
            if (isC(a) && a->cv == 0) return a;
            if (bc && b->cv >= w && k != KAShr) return cst(0, w);
            if (bc && k == KShl && a->k == KShl && isC(a->b)) {
                u128 t = a->b->cv + b->cv;
                return t >= w ? cst(0, w) : bin(KShl, a->a, cst(t, w));
            }
            if (bc && k == KLShr && a->k == KLShr && isC(a->b)) {
                u128 t = a->b->cv + b->cv;
                return t >= w ? cst(0, w) : bin(KLShr, a->a, cst(t, w));
            }
            if (bc && k == KLShr && a->k == KShl && isC(a->b) && a->b->cv == b->cv && w <= 64)
                return bin(KAnd, a->a, cst(m >> (unsigned)b->cv, w));
            if (bc && k == KLShr && a->k == KZExt) {
                if (b->cv >= a->a->w) return cst(0, w);
                return zext(bin(KLShr, a->a, cst(b->cv, a->a->w)), w);
            }
            if (bc && a->k == KIte && isC(a->b) && isC(a->c)) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
            break;
        case KEq:
            if (a == b) return cst(1, 1);
            if (w == 1 && bc) return b->cv ? a : mkNot(a);
            if (w <= 64 && ((a->ko & b->kz) || (a->kz & b->ko))) return cst(0, 1);
            if (bc) {
                if (a->k == KZExt) {
                    if (b->cv >> a->a->w) return cst(0, 1);
                    return bin(KEq, a->a, cst(b->cv, a->a->w));
                }
                if (a->k == KSExt) {
                    u128 t = b->cv & maskw(a->a->w);
                    if (((u128)sextw(t, a->a->w) & m) != b->cv) return cst(0, 1);
                    return bin(KEq, a->a, cst(t, a->a->w));
                }
                if (a->k == KAdd && isC(a->b)) return bin(KEq, a->a, cst(b->cv - a->b->cv, w));
                if (a->k == KXor && isC(a->b)) return bin(KEq, a->a, cst(b->cv ^ a->b->cv, w));
                if (a->k == KSub && b->cv == 0) return bin(KEq, a->a, a->b);
                if (a->k == KXor && b->cv == 0) return bin(KEq, a->a, a->b);
                if (a->k == KConcat)
                    return bin(KAnd, bin(KEq, a->a, cst(b->cv >> a->b->w, a->a->w)), bin(KEq, a->b, cst(b->cv & maskw(a->b->w), a->b->w)));
                if (a->k == KIte) {
                    bool c1 = isC(a->b), c2 = isC(a->c);
                    if (c1 && c2) {
                        bool e1 = a->b->cv == b->cv, e2 = a->c->cv == b->cv;
                        if (e1 && e2) return cst(1, 1);
                        if (e1) return a->a;
                        if (e2) return mkNot(a->a);
                        return cst(0, 1);
                    }
                    if (c1) return a->b->cv == b->cv ? bin(KOr, a->a, bin(KEq, a->c, b)) : bin(KAnd, mkNot(a->a), bin(KEq, a->c, b));
                    if (c2) return a->c->cv == b->cv ? bin(KOr, mkNot(a->a), bin(KEq, a->b, b)) : bin(KAnd, a->a, bin(KEq, a->b, b));
                }
                if (a->k == KShl && isC(a->b)) { // knownbits ok here: low bits of const are zero
                    unsigned s = (unsigned)a->b->cv;
                    return bin(KEq, extract(a->a, 0, w - s), cst(b->cv >> s, w - s));
                }
            } else {
                if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return bin(KEq, a->a, b->a);
                if (a->k == KSExt && b->k == KSExt && a->a->w == b->a->w) return bin(KEq, a->a, b->a);
                if (a->k == KAdd && b->k == KAdd && isC(a->b) && isC(b->b)) return bin(KEq, a->a, bin(KAdd, b->a, cst(b->b->cv - a->b->cv, w)));
            }
            break;
        case KUlt:
            if (a == b) return cst(0, 1);
            if (bc && b->cv == 0) return cst(0, 1);
            if (bc && b->cv == 1) return bin(KEq, a, cst(0, w));
            if (w <= 64) {
                if (umaxE(a) < uminE(b)) return cst(1, 1);
                if (uminE(a) >= umaxE(b)) return cst(0, 1);
            }
            if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return bin(KUlt, a->a, b->a);
            if (a->k == KZExt && bc) { if (b->cv > maskw(a->a->w)) return cst(1, 1); return bin(KUlt, a->a, cst(b->cv, a->a->w)); }
            if (b->k == KZExt && isC(a)) { if (a->cv >= maskw(b->a->w)) return cst(0, 1); return bin(KUlt, cst(a->cv, b->a->w), b->a); }
            break;
        case KUle:
            if (a == b) return cst(1, 1);
            if (isC(a) && a->cv == 0) return cst(1, 1);
            if (bc && b->cv == 0) return bin(KEq, a, b);
            if (w <= 64) {
                if (umaxE(a) <= uminE(b)) return cst(1, 1);
                if (uminE(a) > umaxE(b)) return cst(0, 1);
            }
            if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return bin(KUle, a->a, b->a);
            if (a->k == KZExt && bc) { if (b->cv >= maskw(a->a->w)) return cst(1, 1); return bin(KUle, a->a, cst(b->cv, a->a->w)); }
            if (b->k == KZExt && isC(a)) { if (a->cv > maskw(b->a->w)) return cst(0, 1); return bin(KUle, cst(a->cv, b->a->w), b->a); }
            break;
        case KSlt: case KSle:
            if (a == b) return cst(k == KSle, 1);
            if (w <= 64 && w > 1) {
                u64 sb = 1ull << (w - 1);
                if ((a->kz & sb) && (b->kz & sb)) return bin(k == KSlt ? KUlt : KUle, a, b);
                if ((a->ko & sb) && (b->ko & sb)) return bin(k == KSlt ? KUlt : KUle, a, b);
                if ((a->ko & sb) && (b->kz & sb)) return cst(1, 1);
                if ((a->kz & sb) && (b->ko & sb)) return cst(0, 1);
            }
            break;
        default: break;
        }
        if (cmp && bc && a->k == KIte && isC(a->b) && isC(a->c)) return ite(a->a, bin(k, a->b, b), bin(k, a->c, b));
        if (cmp && isC(a) && b->k == KIte && isC(b->b) && isC(b->c)) return ite(b->a, bin(k, a, b->b), bin(k, a, b->c));
        return finish(intern(k, cmp ? 1 : w, 0, a, b, nullptr, 0));
    }
    Expr* ite(Expr* c, Expr* t, Expr* f) {
        if (isC(c)) return c->cv ? t : f;
        if (t == f) return t;
        if (c->k == KNot) { return ite(c->a, f, t); }
        if (c->k == KEq && ((c->a == t && c->b == f) || (c->a == f && c->b == t))) return f; // x == y ? x : y
        if (t->w == 1) {
            if (isC(t) && isC(f)) return t->cv ? c : mkNot(c);
            if (isC(t)) return t->cv ? bin(KOr, c, f) : bin(KAnd, mkNot(c), f);
            if (isC(f)) return f->cv ? bin(KOr, mkNot(c), t) : bin(KAnd, c, t);
            if (t == c) return bin(KOr, c, f);
            if (f == c) return bin(KAnd, c, t);
        }
        if (t->k == KIte && t->a == c) return ite(c, t->b, f);
        if (f->k == KIte && f->a == c) return ite(c, t, f->c);
        if (f->k == KIte && f->b == t) return ite(bin(KOr, c, f->a), t, f->c);
        return finish(intern(KIte, t->w, 0, c, t, f, 0));
    }
    Expr* extract(Expr* a, unsigned lo, unsigned w) {
        if (lo == 0 && w == a->w) return a;
        if (isC(a)) return cst(a->cv >> lo, w);
        switch (a->k) {
        case KExtract: return extract(a->a, a->aux + lo, w);
        case KConcat:
            if (lo >= a->b->w) return extract(a->a, lo - a->b->w, w);
            if (lo + w <= a->b->w) return extract(a->b, lo, w);
            return concat(extract(a->a, 0, lo + w - a->b->w), extract(a->b, lo, a->b->w - lo));
        case KZExt:
            if (lo >= a->a->w) return cst(0, w);
            if (lo + w <= a->a->w) return extract(a->a, lo, w);
            return zext(extract(a->a, lo, a->a->w - lo), w);
        case KSExt:
            if (lo + w <= a->a->w) return extract(a->a, lo, w);
            if (lo < a->a->w) return sext(extract(a->a, lo, a->a->w - lo), w);
            return sext(extract(a->a, a->a->w - 1, 1), w);
        case KIte:
            if (isC(a->b) || isC(a->c)) return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w));
            break;
        case KAnd: case KOr: case KXor:
            return bin(a->k, extract(a->a, lo, w), extract(a->b, lo, w));
        case KAdd: case KMul: case KSub:
            if (lo == 0) return bin(a->k, extract(a->a, 0, w), extract(a->b, 0, w));
            break;
        case KShl:
            if (isC(a->b)) {
                unsigned s = (unsigned)a->b->cv;
                if (lo >= s) return extract(a->a, lo - s, w);
                if (lo + w <= s) return cst(0, w);
            }
            break;
        case KLShr:
            if (isC(a->b)) {
                unsigned s = (unsigned)a->b->cv;
                if (lo + s + w <= a->w) return extract(a->a, lo + s, w);
                if (lo + s >= a->w) return cst(0, w);
                return zext(extract(a->a, lo + s, a->w - lo - s), w);
            }
            break;
        default: break;
        }
        return finish(intern(KExtract, w, lo, a, nullptr, nullptr, 0));
    }
    Expr* concat(Expr* hi, Expr* lo) {
        unsigned w = hi->w + lo->w;
        if (w > 128) { fprintf(stderr, "engine: width > 128\n"); abort(); }
        if (isC(hi) && isC(lo)) return cst((hi->cv << lo->w) | lo->cv, w);
        if (isC(hi) && hi->cv == 0) return zext(lo, w);
        if (hi->k == KExtract && lo->k == KExtract && hi->a == lo->a && hi->aux == lo->aux + lo->w)
            return extract(hi->a, lo->aux, w);
        if (lo->k == KExtract && lo->aux == 0 && hi == lo->a && 0) return hi;
        // concat(concat(x, e1), e2) where e1,e2 adjacent extracts
        if (hi->k == KConcat && hi->b->k == KExtract && lo->k == KExtract && hi->b->a == lo->a && hi->b->aux == lo->aux + lo->w)
            return concat(hi->a, extract(lo->a, lo->aux, hi->b->w + lo->w));
        if (hi->k == KZExt) { return zext(concat(hi->a, lo), w); }
        if (hi->k == KIte && lo->k == KIte && hi->a == lo->a)
            return ite(hi->a, concat(hi->b, lo->b), concat(hi->c, lo->c));
        if (hi->k == KIte && isC(lo) && isC(hi->b) && isC(hi->c)) return ite(hi->a, concat(hi->b, lo), concat(hi->c, lo));
        if (lo->k == KIte && isC(hi) && isC(lo->b) && isC(lo->c)) return ite(lo->a, concat(hi, lo->b), concat(hi, lo->c));
        return finish(intern(KConcat, w, 0, hi, lo, nullptr, 0));
    }
    Expr* zext(Expr* a, unsigned w) {
        if (w == a->w) return a;
        if (isC(a)) return cst(a->cv, w);
        if (a->k == KZExt) return zext(a->a, w);
        if (a->k == KIte && isC(a->b) && isC(a->c)) return ite(a->a, zext(a->b, w), zext(a->c, w));
        return intern(KZExt, w, 0, a, nullptr, nullptr, 0);
    }
    Expr* sext(Expr* a, unsigned w) {
        if (w == a->w) return a;
        if (isC(a)) return cst((u128)sextw(a->cv, a->w), w);
        if (a->k == KSExt) return sext(a->a, w);
        if (a->k == KZExt) return zext(a->a, w);
        if (a->w <= 64 && (a->kz >> (a->w - 1)) & 1) return zext(a, w);
        if (a->k == KIte && isC(a->b) && isC(a->c)) return ite(a->a, sext(a->b, w), sext(a->c, w));
        return intern(KSExt, w, 0, a, nullptr, nullptr, 0);
    }

    // ---- floating point
    static double toD(u128 v, unsigned w) {
        if (w == 32) { float f; u32 x = (u32)v; memcpy(&f, &x, 4); return f; }
        double d; u64 x = (u64)v; memcpy(&d, &x, 8); return d;
    }
    static u128 fromD(double d, unsigned w) {
        if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; }
        u64 x; memcpy(&x, &d, 8); return x;
    }
    static u128 foldF(EK k, u128 a, u128 b, unsigned w) {
        if (w == 32) {
            float x = (float)toD(a, 32), y = (float)toD(b, 32), r = 0;
            switch (k) { case KFAdd: r = x + y; break; case KFSub: r = x - y; break; case KFMul: r = x * y; break; case KFDiv: r = x / y; break; default: abort(); }
            u32 o; memcpy(&o, &r, 4); return o;
        }
        double x = toD(a, w), y = toD(b, w), r = 0;
        switch (k) { case KFAdd: r = x + y; break; case KFSub: r = x - y; break; case KFMul: r = x * y; break; case KFDiv: r = x / y; break; default: abort(); }
        return fromD(r, w);
    }
    // predicate encoding: bit0 eq, bit1 gt, bit2 lt, bit3 unordered (LLVM FCmp predicates)
    static bool foldFCmp(unsigned pred, u128 a, u128 b, unsigned w) {
        double x = toD(a, w), y = toD(b, w);
        if (std::isnan(x) || std::isnan(y)) return pred & 8;
        if (x == y) return pred & 1;
        if (x > y) return pred & 2;
        return pred & 4;
    }
    Expr* fbin(EK k, Expr* a, Expr* b) {
        if (isC(a) && isC(b)) return cst(foldF(k, a->cv, b->cv, a->w), a->w);
        return intern(k, a->w, 0, a, b, nullptr, 0);
    }
    Expr* fcmp(unsigned pred, Expr* a, Expr* b) {
        if (isC(a) && isC(b)) return cst(foldFCmp(pred, a->cv, b->cv, a->w), 1);
        return intern(KFCmp, 1, pred, a, b, nullptr, 0);
    }
    static u128 foldFConv(EK k, u128 a, unsigned sw, unsigned w) {
        switch (k) {
        case KFToF: return fromD(toD(a, sw), w);
        case KFToSI: { double d = toD(a, sw); return (u128)(i128)d & maskw(w); }
        case KFToUI: { double d = toD(a, sw); return d <= 0 ? (u128)(i128)d & maskw(w) : (u128)d & maskw(w); }
        case KSIToF: if (w == 32) { float f = (float)(i64)sextw(a, sw); u32 o; memcpy(&o, &f, 4); return o; } return fromD((double)(i64)sextw(a, sw), w);
        case KUIToF: if (w == 32) { float f = (float)(u64)a; u32 o; memcpy(&o, &f, 4); return o; } return fromD((double)(u64)a, w);
        case KFSqrt: if (w == 32) { float f = std::sqrt((float)toD(a, 32)); u32 o; memcpy(&o, &f, 4); return o; } return fromD(std::sqrt(toD(a, w)), w);
        default: abort();
        }
    }
    Expr* fconv(EK k, Expr* a, unsigned w) {
        if (isC(a)) return cst(foldFConv(k, a->cv, a->w, w), w);
        return intern(k, w, 0, a, nullptr, nullptr, 0);
    }

    // ---- evaluation under a model
    u128 eval(Expr* e, const Model& m) {
        if (e->k == KConst) return e->cv;
        if (e->evUid == m.uid) return e->ev;
        u128 r = 0;
        switch (e->k) {
        case KSym: r = e->aux < m.v.size() ? m.v[e->aux] : 0; break;
        case KNot: r = !eval(e->a, m); break;
        case KIte: r = eval(e->a, m) ? eval(e->b, m) : eval(e->c, m); break;
        case KConcat: r = (eval(e->a, m) << e->b->w) | eval(e->b, m); break;
        case KExtract: r = (eval(e->a, m) >> e->aux) & maskw(e->w); break;
        case KZExt: r = eval(e->a, m); break;
        case KSExt: r = (u128)sextw(eval(e->a, m), e->a->w) & maskw(e->w); break;
        case KFAdd: case KFSub: case KFMul: case KFDiv: r = foldF(e->k, eval(e->a, m), eval(e->b, m), e->w); break;
        case KFCmp: r = foldFCmp(e->aux, eval(e->a, m), eval(e->b, m), e->a->w); break;
        case KFToF: case KFToSI: case KFToUI: case KSIToF: case KUIToF: case KFSqrt: r = foldFConv(e->k, eval(e->a, m), e->a->w, e->w); break;
        case KAnd: { u128 x = eval(e->a, m); r = x ? (x & eval(e->b, m)) : 0; break; }
        default: r = foldBin(e->k, eval(e->a, m), eval(e->b, m), e->a->w); break;
        }
        e->evUid = m.uid;
        e->ev = r;
        return r;
    }
};
extern ExprPool P;
