// Instrumented element type: knows its own address, counts live instances, may throw on a planned call.
#pragma once
#include "sym.h"
#include <new>
#include <utility>
typedef uint64_t u64;
struct Boom { int what; };
static long trk_live = 0;      // live instances
static long trk_countdown = -1; // >= 0: the call that many constructions/assignments ahead throws
static bool trk_threw = false;
static void trk_tick() {
    if (trk_countdown < 0) return;
    if (trk_countdown-- == 0) { trk_threw = true; throw Boom{ 1 }; }
}
#ifndef TRK_NOEXCEPT_MOVE
#define TRK_NOEXCEPT_MOVE 1
#endif
#ifndef TRK_PAD
#define TRK_PAD 0
#endif
struct Tr {
    u64 v;
    const Tr* self;
#if TRK_PAD
    u64 pad[TRK_PAD];
#endif
    void born() { self = this; trk_live++; }
    void ok() const { sym_assert(self == this, "an element is used outside its lifetime or was moved bytewise"); }
    Tr() : v(0) { trk_tick(); born(); }
    Tr(u64 x) : v(x) { trk_tick(); born(); }
    Tr(const Tr& o) : v(o.v) { o.ok(); trk_tick(); born(); }
    Tr(Tr&& o) noexcept(TRK_NOEXCEPT_MOVE) : v(o.v) {
        o.ok();
#if !TRK_NOEXCEPT_MOVE
        trk_tick();
#endif
        o.v = 0xdead; born();
    }
    Tr& operator=(const Tr& o) { ok(); o.ok(); trk_tick(); v = o.v; return *this; }
    Tr& operator=(Tr&& o) noexcept(TRK_NOEXCEPT_MOVE) {
        ok(); o.ok();
#if !TRK_NOEXCEPT_MOVE
        trk_tick();
#endif
        if (this != &o) { v = o.v; o.v = 0xdead; }
        return *this;
    }
    ~Tr() { ok(); self = nullptr; trk_live--; }
    bool operator==(const Tr& o) const { ok(); o.ok(); return v == o.v; }
    bool operator<(const Tr& o) const { ok(); o.ok(); return v < o.v; }
};
// planned allocation failure
static long alloc_countdown = -1;
static bool alloc_failed = false;
static bool alloc_tick() { if (alloc_countdown < 0) return false; if (alloc_countdown-- == 0) { alloc_failed = true; return true; } return false; }
static long alloc_bytes = 0;
template<class T>
struct TAlloc { // checks that sizes given to deallocate match
    using value_type = T;
    int id = 0;
    TAlloc() = default;
    explicit TAlloc(int i) : id(i) {}
    template<class U> TAlloc(const TAlloc<U>& o) : id(o.id) {}
    T* allocate(size_t n) {
        if (alloc_tick()) throw std::bad_alloc();
        u64* p = (u64*)::operator new(n * sizeof(T) + 16);
        p[0] = n; p[1] = 0x5eed0000 + (u64)id; alloc_bytes += (long)(n * sizeof(T));
        return (T*)(p + 2);
    }
    void deallocate(T* q, size_t n) {
        u64* p = (u64*)q - 2;
        sym_assert(p[0] == n, "deallocate() is given another size than allocate()");
        sym_assert(p[1] == 0x5eed0000 + (u64)id, "memory is returned to another allocator");
        alloc_bytes -= (long)(n * sizeof(T));
        ::operator delete(p);
    }
    bool operator==(const TAlloc& o) const { return id == o.id; }
    bool operator!=(const TAlloc& o) const { return id != o.id; }
};
