// Dump and load.
// params: 0 operations after loading, 1 insertions, 2 erasures before dumping, 3 symbolic insertions before dumping, 4 op mask after loading, 5 mode, 6 target prefill
// modes: 0 round trip 1 every truncation point 2 every failing write 3 old format (no version, no growth budget) 4 archive without a result that throws at the end of data
// ops: 0 insert 1 erase 2 lookup 3 rehash(0) 4 dump and load again 5 clear
#include "sym.h"
#define GTL_DISABLE_MIX 1
#include <fstream>
#include <iostream>
#include <sstream>
typedef uint64_t u64;
static unsigned char disk[6000];
static u64 dlen, dpos, dcut, writes, failAt; // the file, the reading position, where it ends for a reader, number of writes, the write that fails
static bool put(const void* p, u64 n) { if (++writes == failAt) return false; sym_assert(dlen + n <= sizeof(disk), "harness: file too small"); __builtin_memcpy(disk + dlen, p, n); dlen += n; return true; }
static u64 take(void* p, u64 n) { u64 m = dcut - dpos < n ? dcut - dpos : n; if (m) __builtin_memcpy(p, disk + dpos, m); dpos += m; return m; }
namespace std { // in-memory stand-ins for the file streams the archives use
struct vstream {
    using ios = std::ios_base;
    static constexpr auto in = ios::in, out = ios::out, trunc = ios::trunc, binary = ios::binary, app = ios::app, ate = ios::ate;
    static constexpr auto goodbit = ios::goodbit, badbit = ios::badbit, failbit = ios::failbit, eofbit = ios::eofbit;
    bool bad_ = false, eof_ = false; u64 got = 0;
    vstream() {}
    vstream(const vstream&) = delete;
    void open(const char*, int) { dpos = 0; }
    bool is_open() const { return true; } void close() {} bool good() const { return !bad_; } bool fail() const { return bad_; } bool bad() const { return bad_; } bool eof() const { return eof_; } void clear() { bad_ = false; }
    int rdstate() const { return bad_; }
    explicit operator bool() const { return !bad_; } bool operator!() const { return bad_; } };
struct vofstream : vstream { vofstream& write(const char* p, streamsize n) { if (bad_) return *this; if (!put(p, (u64)n)) bad_ = true; return *this; } vofstream& flush() { return *this; } };
struct vifstream : vstream { vifstream& read(char* p, streamsize n) { if (bad_) { got = 0; return *this; } got = take(p, (u64)n); if (got != (u64)n) bad_ = eof_ = true; return *this; } streamsize gcount() const { return (streamsize)got; } };
struct vout { template<class T> vout& operator<<(const T&) { return *this; } vout& operator<<(ostream& (*)(ostream&)) { return *this; } };
static vout vcerr_;
}
#define ofstream vofstream
#define ifstream vifstream
#define cerr vcerr_
#define cout vcerr_
#include <gtl/phmap.hpp>
#include <gtl/phmap_dump.hpp>
struct H { u64 seed = 0; size_t operator()(u64 k) const { return (size_t)(k ^ seed); } };
struct E { bool operator()(u64 a, u64 b) const { return a == b; } };
#ifndef KIND
#define KIND 0
#endif
#ifndef SEED
#define SEED 0
#endif
#if KIND == 0
using C = gtl::flat_hash_map<u64, u64, H, E>;
#elif KIND == 1
using C = gtl::flat_hash_set<u64, H, E>;
#elif KIND == 2
using C = gtl::parallel_flat_hash_map<u64, u64, H, E, std::allocator<std::pair<const u64, u64>>, 1>;
#elif KIND == 3
using C = gtl::parallel_flat_hash_set<u64, H, E, std::allocator<u64>, 1>;
#elif KIND == 4 // small elements
using C = gtl::flat_hash_set<unsigned short, H, E>;
#endif
#if KIND == 0 || KIND == 2
static u64 kof(const C::value_type& e) { return e.first; }
static u64 vof(const C::value_type& e) { return e.second; }
static bool ins(C& c, u64 k, u64 v) { return c.insert({ k, v }).second; }
#else
static u64 kof(const C::value_type& e) { return e; }
static u64 vof(const C::value_type&) { return 0; }
static bool ins(C& c, u64 k, u64) { return c.insert((C::value_type)k).second; }
#endif
static const bool PAR = KIND == 2 || KIND == 3;
struct M { u64 k[40], v[40]; bool a[40]; unsigned n = 0;
    int find(u64 key) const { for (unsigned i = 0; i < n; i++) if (a[i] && k[i] == key) return (int)i; return -1; }
    bool add(u64 key, u64 val) { if (find(key) >= 0) return false; k[n] = key; v[n] = (KIND == 0 || KIND == 2) ? val : 0; a[n] = true; n++; return true; }
    u64 size() const { u64 s = 0; for (unsigned i = 0; i < n; i++) s += a[i]; return s; } };
static u64 key(unsigned i) { return (u64)(i * 0x80 + (i & 1 ? 0x11 : 0x5)) ^ SEED; } // seeds are small, so the tags differ
static void same(C& c, const M& m, bool full) {
    sym_assert(c.size() == m.size(), "size() differs from the original's");
    if (!full) return;
    u64 n = 0; for (auto& e : c) { n++; int i = m.find(kof(e)); sym_assert(i >= 0 && m.v[i] == vof(e), "an element differs from the original's"); }
    sym_assert(n == m.size(), "elements are missing or appear twice");
    for (unsigned i = 0; i < m.n; i++) if (m.a[i]) { auto it = c.find((C::key_type)m.k[i]); sym_assert(it != c.end() && vof(*it) == m.v[i], "an element of the original is not found"); }
}
struct End {};
struct Quiet { void saveBinary(const void* p, size_t n) { if (!put(p, n)) throw End{}; } void loadBinary(void* p, size_t n) { if (take(p, n) != n) throw End{}; } };
static bool dump(const C& c, bool quiet) {
    dlen = 0; writes = 0;
    if (quiet) { Quiet q; return c.phmap_dump(q); }
    gtl::BinaryOutputArchive ar("x"); if (sym_param(0) & 1) return ar.saveBinary(c); return c.phmap_dump(ar);
}
static bool load(C& c, bool quiet) {
    dpos = 0;
    if (quiet) { Quiet q; return c.phmap_load(q); }
    gtl::BinaryInputArchive ar("x"); if (sym_param(0) & 1) return ar.loadBinary(&c); return c.phmap_load(ar);
}
static u64 pick() { return sym_u64("k", KIND == 4 ? 16 : 64); }
static void use(C& c, M& m, C* twin, unsigned nops, unsigned mask) {
    for (unsigned s = 0; s < nops; s++) {
        unsigned op = (unsigned)sym_choice(6, "op"); sym_assume((mask >> op) & 1);
        switch (op) {
        case 0: { u64 k = pick(); bool r = m.add(k, 50 + s); sym_assert(ins(c, k, 50 + s) == r, "insertion after loading answers wrongly"); if (twin) ins(*twin, k, 50 + s); break; }
        case 1: { u64 k = pick(); int i = m.find(k); sym_assert(c.erase((C::key_type)k) == (i >= 0 ? 1u : 0u), "erasure after loading answers wrongly"); if (i >= 0) { m.a[i] = false; sym_cover("erased after loading"); } if (twin) twin->erase((C::key_type)k); break; }
        case 2: { u64 k = pick(); int i = m.find(k); auto it = c.find((C::key_type)k); sym_assert((it != c.end()) == (i >= 0), "lookup after loading answers wrongly"); if (i >= 0) sym_assert(vof(*it) == m.v[i], "lookup after loading finds another value"); break; }
        case 3: c.rehash(0); if (twin) twin->rehash(0); break;
        case 4: { sym_assert(dump(c, false), "dumping fails"); dcut = dlen; C d(0, H{ SEED }); sym_assert(load(d, false), "loading fails"); c = d; if (twin) { C t(0, H{ SEED }); dpos = 0; load(t, false); *twin = t; } break; }
        case 5: c.clear(); for (unsigned i = 0; i < m.n; i++) m.a[i] = false; if (twin) twin->clear(); break;
        }
        if (twin) sym_assert(c.capacity() == twin->capacity(), "a loaded table grows or shrinks when the original does not");
        same(c, m, false);
    }
    same(c, m, true);
}
extern "C" void sym_main() {
    unsigned nops = (unsigned)sym_param(0), mode = (unsigned)sym_param(5);
    {
        C o(0, H{ SEED }); M m;
        for (unsigned i = 0; i < (unsigned)sym_param(1); i++) { ins(o, key(i), i); m.add(key(i), i); }
        for (unsigned i = 0; i < (unsigned)sym_param(2); i++) { o.erase((C::key_type)key(i)); m.a[m.find(key(i))] = false; }
        for (unsigned i = 0; i < (unsigned)sym_param(3); i++) { u64 k = pick(); ins(o, k, 30 + i); m.add(k, 30 + i); }
        C c(0, H{ SEED });
        for (unsigned i = 0; i < (unsigned)sym_param(6); i++) ins(c, key(100 + i), 9);
        failAt = mode == 2 ? 1 + sym_choice(16, "wfail") : 0;
        bool ok = dump(o, mode == 4);
        same(o, m, true);
        if (mode == 2) { sym_assert(ok == (writes < failAt), "a failing write is not reported"); if (!ok) { sym_cover("write failed"); return; } failAt = 0; }
        sym_assert(ok, "dumping fails");
        dcut = dlen;
        if (mode == 3 && !PAR) { // as written before the format had a version: size, capacity, control bytes, slots
            u64 d = 0; for (u64 i = 8; i < 24; i++) disk[d++] = disk[i];
            if (m.size()) for (u64 i = 32; i < dlen; i++) disk[d++] = disk[i];
            dcut = dlen = d;
        }
        if (mode == 1 || mode == 4) dcut = sym_choice((unsigned)dlen + 1, "cut");
        bool lok = false, threw = false;
        try { lok = load(c, mode == 4); } catch (End&) { threw = true; }
        if (dcut < dlen) {
            sym_assert(!lok, "loading a truncated archive reports success"); sym_cover("truncated");
            // still a valid container: all of it can be visited, it accepts new elements and can be destroyed
            u64 n = 0; for (auto& e : c) { (void)kof(e); n++; } sym_assert(n == c.size(), "after a failed load size() differs from the number of elements");
            u64 before = c.size(); u64 k = pick(); bool r = ins(c, k, 1); sym_assert(c.find((C::key_type)k) != c.end() && c.size() == before + r, "after a failed load the container does not work"); c.erase((C::key_type)k); c.clear(); sym_assert(c.empty(), "after a failed load the container does not work");
        } else {
            sym_assert(!threw && lok, "loading fails"); same(c, m, true);
            if (!PAR) sym_assert(c == o, "the loaded container differs from the original");
            C twin(o);
            if (mode == 3 || !(sym_param(2) || sym_param(3))) use(c, m, nullptr, nops, (unsigned)sym_param(4));
            else { sym_assert(c.capacity() == o.capacity(), "the loaded table has another capacity"); M keep = m; use(c, m, &o, nops, (unsigned)sym_param(4)); same(twin, keep, true); }
            sym_cover("loaded");
        }
    }
    sym_assert(sym_live() == 0, "memory is leaked");
}
