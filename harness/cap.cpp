// Capacity management of hash containers.
// params: 0 mode (0 reserve / bucket count, 1 churn, 2 shrink and rehash requests, 3 capacity arithmetic over all 64-bit sizes, 4 reservation after erasures, 5 reclaiming erased slots in place), 1.. per mode
#include "sym.h"
#ifndef MIX
#define GTL_DISABLE_MIX 1
#endif
#include <gtl/phmap.hpp>
#ifndef KIND
#define KIND 0
#endif
typedef uint64_t u64;
struct H { size_t operator()(u64 k) const { return (size_t)k; } };
struct Q { bool operator()(u64 a, u64 b) const { return a == b; } };
#ifdef TR // a mapped type that knows where it lives
static int live_objs = 0;
struct V {
    V* self; u64 v;
    V(u64 x) : self(this), v(x) { live_objs++; }
    V(const V& o) : self(this), v(o.v) { sym_assert(o.self == &o, "an element is copied from a place where none lives"); live_objs++; }
    V(V&& o) noexcept : self(this), v(o.v) { sym_assert(o.self == &o, "an element is moved from a place where none lives"); live_objs++; }
    V& operator=(const V& o) { sym_assert(self == this && o.self == &o, "an element is assigned where none lives"); v = o.v; return *this; }
    ~V() { sym_assert(self == this, "an element is destroyed where none lives"); self = nullptr; live_objs--; }
    bool operator==(u64 x) const { return self == this && v == x; }
};
#else
static int live_objs = 0;
using V = u64;
#endif
#if KIND == 0
using C = gtl::flat_hash_map<u64, V, H, Q>;
#define MAP 1
#elif KIND == 1
using C = gtl::flat_hash_set<u64, H, Q>;
#define MAP 0
#elif KIND == 2
using C = gtl::node_hash_map<u64, V, H, Q>;
#define MAP 1
#else
using C = gtl::node_hash_set<u64, H, Q>;
#define MAP 0
#endif
static void put(C& c, u64 k) {
#if MAP
    c.insert(C::value_type(k, V(k + 1)));
#else
    c.insert(k);
#endif
}
static u64 pat(int mode, u64 i) {
    switch (mode) {
    case 0: return (i << 7) | ((i * 5) & 0x7f);
    case 1: return i & 0x7f | (i >> 7) << 40; // one home position
    case 2: return i << 20;
    case 4: return i & 0x7f | (20 << 7) | (i >> 7) << 40; // one home position, whose second group lies before the first
    case 6: return i & 0x7f | (28 << 7) | (i >> 7) << 40;
    case 5: return (i * 37 & 0x7f) | ((i % 3 ? 20 : 27) << 7) | i << 40;
    default: return (i & 1) << 7 | i << 24 | i % 3;
    }
}
static void room(C& c) { // there is always a free slot, hence an unsuccessful lookup terminates
    sym_assert(c.size() <= c.capacity(), "more elements than slots");
    if (c.capacity() >= 15) sym_assert(c.size() * 8 <= (c.capacity() + 1) * 7, "the load exceeds the maximum load factor of 7/8");
}
static void absent(C& c, u64 k, bool present) { sym_assert(c.contains(k) == present, "lookup is wrong"); }
extern "C" void sym_main() {
    int mode = (int)sym_param(0);
    if (mode == 0) { // params: 1 max n, 2 pattern, 3 step (1 = every n), 4 elements present before
        unsigned mx = (unsigned)sym_param(1), st = (unsigned)sym_param(3); int p = (int)sym_param(2); unsigned pre = (unsigned)sym_param(4);
        unsigned n = (unsigned)sym_choice(mx / st + 1, "n") * st; bool ctor = pre == 0 && sym_choice(2, "constructor");
        {
            C c(ctor ? n : 0);
            for (unsigned i = 0; i < pre; i++) put(c, pat(p, 1000 + i));
            if (!ctor) c.reserve(pre + n); else if (n) sym_assert(c.capacity() >= n, "fewer buckets than requested");
            unsigned todo = ctor ? 0 : n; // a bucket count is a count of slots, not of elements
            size_t cap = c.capacity(), bc = c.bucket_count(); sym_assert(bc >= c.size(), "bucket_count() is less than size()");
            if (todo) {
                put(c, pat(p, 0)); const void* a = &*c.find(pat(p, 0)); auto it = c.find(pat(p, 0));
                for (unsigned i = 1; i < todo; i++) put(c, pat(p, i));
                sym_assert(c.capacity() == cap, "inserting within the reserved room rehashes");
                sym_assert((const void*)&*c.find(pat(p, 0)) == a, "inserting within the reserved room moves elements");
                sym_assert(it == c.find(pat(p, 0)), "inserting within the reserved room invalidates iterators");
                sym_assert(c.size() == pre + todo, "size is wrong"); sym_cover("filled the reservation");
            }
            room(c);
            if (sym_param(5)) { sym_assert(!c.contains(pat(p, 999999)), "lookup is wrong"); return; }
            u64 k = sym_u64("k", 64); sym_assume((k >> 7) < 64); bool present = false; for (unsigned i = 0; i < todo; i++) if (k == pat(p, i)) present = true; for (unsigned i = 0; i < pre; i++) if (k == pat(p, 1000 + i)) present = true;
            absent(c, k, present);
        }
    } else if (mode == 1) { // churn: params: 1 live elements, 2 pattern, 3 concrete rounds, 4 symbolic rounds
        unsigned s = (unsigned)sym_param(1), T = (unsigned)sym_param(3), S = (unsigned)sym_param(4); int p = (int)sym_param(2);
        {
            C c; u64 keys[64]; for (unsigned i = 0; i < s; i++) put(c, keys[i] = pat(p, i));
            unsigned stride = 1 + (unsigned)sym_choice(3, "stride");
            for (unsigned t = 0; t < T; t++) { unsigned j = t * stride % s; sym_assert(c.erase(keys[j]) == 1, "churn loses a key"); put(c, keys[j] = pat(p, s + t)); room(c); sym_assert(c.capacity() <= 4 * s + 7, "the capacity grows without bound under churn"); }
            size_t cap = c.capacity();
            for (unsigned t = 0; t < S; t++) {
                unsigned j = (unsigned)sym_choice(s < 4 ? s : 4, "victim"); sym_assert(c.erase(keys[j]) == 1, "churn loses a key");
                u64 k = sym_u64("k", 64); sym_assume((k >> 7) < (p >= 4 ? 32 : 16)); for (unsigned i = 0; i < s; i++) if (i != j) sym_assume(keys[i] != k); put(c, k); keys[j] = k; room(c);
                sym_assert(c.capacity() <= 4 * s + 7, "the capacity grows without bound under churn"); sym_assert(c.size() == s, "size is wrong");
            }
            for (unsigned i = 0; i < s; i++) sym_assert(c.contains(keys[i]), "churn loses a key");
            if (!S) { u64 k = sym_u64("k", 64); sym_assume((k >> 7) < (p >= 4 ? 32 : 16)); bool present = false; for (unsigned i = 0; i < s; i++) if (k == keys[i]) present = true; absent(c, k, present); } (void)cap; sym_cover("churned");
        }
    } else if (mode == 2) { // shrinking: params: 1 inserted, 2 pattern, 3 max request
        unsigned n = (unsigned)sym_param(1), mx = (unsigned)sym_param(3); int p = (int)sym_param(2);
        {
            C c; for (unsigned i = 0; i < n; i++) put(c, pat(p, i));
            unsigned keep = (unsigned)sym_choice(n + 1, "keep"); for (unsigned i = keep; i < n; i++) c.erase(pat(p, i));
            unsigned r = (unsigned)sym_choice(mx + 1, "request"); if (sym_choice(2, "reserve")) c.reserve(r); else c.rehash(r);
            room(c); sym_assert(c.size() == keep, "rehash() loses elements"); for (unsigned i = 0; i < keep; i++) sym_assert(c.contains(pat(p, i)), "rehash() loses elements");
            u64 k = sym_u64("k", 64); sym_assume((k >> 7) < 64); bool present = false; for (unsigned i = 0; i < keep; i++) if (k == pat(p, i)) present = true; absent(c, k, present);
            for (unsigned i = 0; i < 3; i++) { put(c, pat(p, 500 + i)); room(c); } sym_assert(c.size() == keep + 3, "a rehashed table is not usable"); sym_cover("shrunk");
        }
    } else if (mode == 4) { // a reservation in a table with erased slots: params: 1 inserted, 2 pattern, 3 max room, 4 erased from the front
        unsigned n = (unsigned)sym_param(1), mx = (unsigned)sym_param(3); int p = (int)sym_param(2);
        {
            C c; for (unsigned i = 0; i < n; i++) put(c, pat(p, i));
            unsigned keep = (unsigned)sym_choice(n + 1, "keep"), lo = sym_param(4) ? n - keep : 0; for (unsigned i = 0; i < n; i++) if (i < lo || i >= lo + keep) c.erase(pat(p, i));
            unsigned r = (unsigned)sym_choice(mx + 1, "room"); c.reserve(keep + r); sym_assert(c.size() == keep, "reserve() changes the size"); room(c);
            size_t cap = c.capacity(); const void* a = nullptr; auto it = c.end(); u64 f = keep ? pat(p, lo) : pat(p, 2012);
            for (unsigned i = 0; i < r; i++) {
                if (!a && (keep || i)) { it = c.find(f); a = &*it; }
                put(c, pat(p, 2012 + i));
            }
            if (a) { sym_assert(c.capacity() == cap, "inserting within the reserved room rehashes"); sym_assert((const void*)&*c.find(f) == a, "inserting within the reserved room moves elements"); sym_assert(it == c.find(f) && &*it == a, "inserting within the reserved room invalidates iterators"); sym_cover("filled the reservation"); }
            sym_assert(c.size() == keep + r, "size is wrong"); room(c);
            for (unsigned i = lo; i < lo + keep; i++) sym_assert(c.contains(pat(p, i)), "reserve() loses elements");
            u64 k = sym_u64("k", 64); sym_assume((k >> 7) < 64); bool present = false; for (unsigned i = lo; i < lo + keep; i++) if (k == pat(p, i)) present = true; for (unsigned i = 0; i < r; i++) if (k == pat(p, 2012 + i)) present = true;
            absent(c, k, present);
        }
    } else if (mode == 5) { // the reclaiming of erased slots in place: params: 1 inserted, 2 pattern, 3 survivors, 4 rounds
        unsigned n = (unsigned)sym_param(1), kc = (unsigned)sym_param(3); int p = (int)sym_param(2);
        {
            static const unsigned strides[] = { 1, 5 };
            C c; for (unsigned i = 0; i < n; i++) put(c, pat(p, i));
            size_t cap = c.capacity(); unsigned o = (unsigned)sym_choice(n, "first_survivor"), st = strides[sym_choice(2, "stride")]; bool keep[64] = {}; for (unsigned j = 0; j < kc; j++) keep[(o + j * st) % n] = true;
            unsigned left = 0; for (unsigned i = 0; i < n; i++) if (keep[i]) left++; else sym_assert(c.erase(pat(p, i)) == 1, "erase loses a key");
            u64 ks[4]; unsigned R = (unsigned)sym_param(4);
            for (unsigned r = 0; r < R; r++) { u64 h = sym_u64("k", 64); sym_assume(h <= (cap << 7 | 0x7f)); ks[r] = h | u64(3 + r) << 50; put(c, ks[r]); room(c); }
            sym_assert(c.size() == left + R, "size is wrong"); if (c.capacity() == cap) sym_cover("reclaimed in place");
            for (unsigned i = 0; i < n; i++) { sym_assert(c.contains(pat(p, i)) == keep[i], keep[i] ? "a growing table loses a key" : "an erased key comes back"); }
            for (unsigned r = 0; r < R; r++) sym_assert(c.contains(ks[r]), "a growing table loses a key");
            size_t cnt = 0; u64 sum = 0, want = 0; for (auto& e : c) { cnt++;
#if MAP
                sym_assert(e.second == e.first + 1, "a growing table corrupts a value"); sum += e.first;
#else
                sum += e;
#endif
            }
            for (unsigned i = 0; i < n; i++) if (keep[i]) want += pat(p, i); for (unsigned r = 0; r < R; r++) want += ks[r];
            sym_assert(cnt == c.size() && sum == want, "iteration does not visit the elements");
            if (sym_param(5)) { u64 k = sym_u64("k", 64); sym_assume((k >> 7) <= cap); bool present = false; for (unsigned i = 0; i < n; i++) if (keep[i] && k == pat(p, i)) present = true; for (unsigned r = 0; r < R; r++) if (k == ks[r]) present = true; absent(c, k, present); }
        }
    } else { // capacity arithmetic for every 64-bit size
        u64 n = sym_u64("n", 64); sym_assume(n >= 1 && n < (u64(1) << 60));
        auto f = [&]<class T>(T) { if constexpr (requires { gtl::priv::GrowthToLowerboundCapacity(size_t(1)); gtl::priv::NormalizeCapacity(size_t(1)); gtl::priv::CapacityToGrowth(size_t(1)); gtl::priv::IsValidCapacity(size_t(1)); }) {
            u64 cap = gtl::priv::NormalizeCapacity(gtl::priv::GrowthToLowerboundCapacity(n)); sym_assert(gtl::priv::IsValidCapacity(cap), "a normalized capacity is not of the form 2^k-1"); sym_assert((cap & (cap + 1)) == 0 && cap > 0, "a normalized capacity is not of the form 2^k-1");
            u64 g = gtl::priv::CapacityToGrowth(cap); sym_assert(g >= n, "reserve(n) does not make room for n elements"); sym_assert(g <= cap && (cap < 15 || g < cap), "a table may be filled completely"); sym_assert(cap <= 4 * n + 3, "reserve(n) allocates far more than needed");
            u64 c2 = gtl::priv::NormalizeCapacity(n); sym_assert(c2 >= n && c2 / 2 < n, "NormalizeCapacity() is not the next capacity"); sym_cover("arithmetic");
        } }; f(0);
        sym_cover("arithmetic");
    }
    sym_assert(live_objs == 0, "elements are leaked or destroyed twice");
    sym_assert(sym_live() == 0, "live heap blocks remain after destruction");
}
