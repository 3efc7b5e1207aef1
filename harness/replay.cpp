// Native replay of a counterexample: the harness and the real headers compiled to machine code, the
// symbolic inputs (and the scheduler's choices) taken in order from a file.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>
#include <semaphore.h>
#include <pthread.h>
#include <map>
#include <algorithm>
static std::vector<std::pair<std::string, uint64_t>> vals;
static size_t pos;
static std::vector<int64_t> params;
static long live;
static void finish(int code, const char* tag, const char* msg) { fprintf(stderr, "%s %s\n", tag, msg); fflush(stderr); _exit(code); }
static uint64_t take(const char* name) {
    if (pos >= vals.size()) finish(90, "REPLAY-DIVERGED", "more inputs requested than recorded");
    if (vals[pos].first != name) { fprintf(stderr, "expected %s, harness asked %s\n", vals[pos].first.c_str(), name); finish(91, "REPLAY-DIVERGED", "input names differ"); }
    return vals[pos++].second;
}
extern "C" {
uint64_t sym_u64(const char* n, unsigned) { return take(n); }
void     sym_assume(bool c) { if (!c) finish(92, "REPLAY-DIVERGED", "assumption false"); }
void     sym_assert(bool c, const char* m) { if (!c) finish(77, "REPLAY-FAIL", m); }
uint64_t sym_choice(unsigned, const char* n) { return take(n); }
uint64_t sym_concretize(uint64_t v) { return v; }
int64_t  sym_param(unsigned i) { return i < params.size() ? params[i] : 0; }
void     sym_cover(const char*) {}
uint64_t sym_live() { return (uint64_t)live; }
void     sym_print(const char* n, uint64_t v) { fprintf(stderr, "%s=%llu (0x%llx)\n", n, (unsigned long long)v, (unsigned long long)v); }
}
#ifdef SYM_THREADS
#include "replay_threads.inc"
#else
extern "C" {
uint64_t sym_held() { return 0; }
void sym_yield() {}
void sym_thread(void (*)(void*), void*) { finish(93, "REPLAY-DIVERGED", "threads not enabled"); }
void sym_join() {}
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
}
static void mh(const volatile void* p, size_t) { if (p) live++; }
static void fh(const volatile void* p) { if (p) live--; }
#endif
#include <chrono>
int main(int argc, char** argv) {
    FILE* f = fopen(argv[1], "r");
    char nm[256]; unsigned long long v;
    while (f && fscanf(f, "%255s %llu", nm, &v) == 2) vals.push_back({ nm, v });
    if (f) fclose(f);
    for (int i = 2; i < argc; i++) params.push_back(atoll(argv[i]));
    vals.reserve(vals.size() + 1);
    setvbuf(stderr, nullptr, _IONBF, 0);
#ifndef SYM_THREADS
    if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(mh, fh);
#endif
    live = 0;
    sym_main();
    finish(0, "REPLAY-OK", "");
}
