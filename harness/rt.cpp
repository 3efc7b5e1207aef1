// Library routines the harnesses need that live in shared libraries; linked into the encoded module.
#include <cstddef>
#include <cstdint>
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
void* memchr(const void* p, int c, size_t n) { auto* q = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (q[i] == (unsigned char)c) return (void*)(q + i); return nullptr; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
// dynamic_cast along single inheritance
extern char _ZTVN10__cxxabiv120__si_class_type_infoE[];
void* __dynamic_cast(const void* p, const void*, const void* dst, ptrdiff_t) {
    void** vt = *(void***)p;
    char* whole = (char*)p + (ptrdiff_t)vt[-2];
    void** ti = (void**)vt[-1];
    for (;;) {
        if ((const void*)ti == dst) return whole;
        if ((char*)ti[0] != _ZTVN10__cxxabiv120__si_class_type_infoE + 16) return nullptr;
        ti = (void**)ti[2];
    }
}
}
namespace std {
// libstdc++'s 64-bit MurmurHash (hash_bytes.cc), so that layouts agree with the native build
static inline size_t unaligned_load(const char* p) { size_t r; __builtin_memcpy(&r, p, sizeof(r)); return r; }
static inline size_t load_bytes(const char* p, int n) { size_t r = 0; --n; do r = (r << 8) + (unsigned char)p[n]; while (--n >= 0); return r; }
static inline size_t shift_mix(size_t v) { return v ^ (v >> 47); }
size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) {
    static const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL;
    const char* const buf = static_cast<const char*>(ptr);
    const size_t len_aligned = len & ~(size_t)0x7;
    const char* const end = buf + len_aligned;
    size_t hash = seed ^ (len * mul);
    for (const char* p = buf; p != end; p += 8) {
        const size_t data = shift_mix(unaligned_load(p) * mul) * mul;
        hash ^= data;
        hash *= mul;
    }
    if ((len & 0x7) != 0) {
        const size_t data = load_bytes(end, len & 0x7);
        hash ^= data;
        hash *= mul;
    }
    hash = shift_mix(hash) * mul;
    hash = shift_mix(hash);
    return hash;
}
namespace __detail {
struct _List_node_base {
    _List_node_base* _M_next; _List_node_base* _M_prev;
    static void swap(_List_node_base& x, _List_node_base& y) noexcept;
    void _M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept;
    void _M_reverse() noexcept;
    void _M_hook(_List_node_base* const pos) noexcept;
    void _M_unhook() noexcept;
};
#include "list.inc"
}
}

extern "C" { // wide character functions
size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) n++; return n; }
int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { for (size_t i = 0; i < n; i++) d[i] = s[i]; return d; }
wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) { if (d < s) for (size_t i = 0; i < n; i++) d[i] = s[i]; else for (size_t i = n; i-- > 0;) d[i] = s[i]; return d; }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
}
