// Cooperative scheduler for replays of multi-threaded counterexamples.  The harness is compiled with
// -fsanitize=thread instrumentation but linked with this runtime: atomics and lock calls are
// scheduling points, plain accesses feed a happens-before race detector.
#include <unordered_map>
typedef std::vector<uint32_t> VC;
enum { RUN, BLK, JOIN, DONE };
struct Th { int st = RUN; bool done = false; void* wait = nullptr; bool shared = false; VC vc; sem_t sem; bool schedDone = false; void (*fn)(void*) = nullptr; void* arg = nullptr; };
struct Mx { int owner = -1; std::vector<int> rd; VC rel, rrel; };
struct Shd { uint32_t wclk = 0; int wtid = -1; uint32_t r[4] = { 0, 0, 0, 0 }; };
static Th th[4]; static int nth = 1; static int cur = 0;
static std::map<void*, Mx>* mtx; static std::map<void*, VC>* atoms; static std::unordered_map<uintptr_t, Shd>* shd; static std::map<uintptr_t, std::pair<size_t, bool>>* blocks;
static __thread bool inRt = false;
struct Rt { bool o; Rt() : o(inRt) { inRt = true; } ~Rt() { inRt = o; } };
static bool mt() { return nth > 1; }
static uint32_t vg(const VC& v, int i) { return i < (int)v.size() ? v[i] : 0; }
static void vj(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static void vinc() { auto& v = th[cur].vc; if ((int)v.size() <= cur) v.resize(cur + 1, 0); v[cur]++; }
static bool enabledT(int i) {
    Th& t = th[i];
    if (t.st == RUN) return true;
    if (t.st == DONE) return false;
    if (t.st == BLK) { auto it = mtx->find(t.wait); if (it == mtx->end()) return true; if (it->second.owner >= 0) return false; return t.shared || it->second.rd.empty(); }
    for (int k = 0; k < nth; k++) if (k != i && th[k].st != DONE) return false;
    return true;
}
static void switchT(int i) {
    Th& t = th[i];
    if (t.st == JOIN) for (int k = 0; k < nth; k++) vj(t.vc, th[k].vc);
    t.st = RUN; t.schedDone = true;
    int me = cur; cur = i;
    if (i != me) { sem_post(&t.sem); if (th[me].st != DONE) { while (sem_wait(&th[me].sem)) {} } }
}
static void schedule() {
    std::vector<int> en;
    for (int i = 0; i < nth; i++) if (enabledT(i)) en.push_back(i);
    if (en.empty()) finish(77, "REPLAY-FAIL", "deadlock: all threads are blocked");
    for (size_t i = 0; i < en.size(); i++) if (en[i] == cur) std::swap(en[0], en[i]);
    if (en.size() == 1) { switchT(en[0]); return; }
    uint64_t c = take("sched");
    if (c >= en.size()) finish(94, "REPLAY-DIVERGED", "schedule choice out of range");
    switchT(en[c]);
}
static void schedPoint() { if (!mt()) return; Th& t = th[cur]; if (t.schedDone) { t.schedDone = false; return; } int me = cur; (void)me; schedule(); th[cur].schedDone = false; }
static void access(uintptr_t a, size_t n, bool wr, bool atomic = false) {
    if (inRt || !blocks) return;
    Rt rt;
    auto b = blocks->upper_bound(a);
    if (b != blocks->begin()) { --b; if (a < b->first + b->second.first && b->second.second) finish(77, "REPLAY-FAIL", "use after free"); }
    if (!mt()) return;
    for (size_t i = 0; i < n; i++) {
        Shd& h = (*shd)[a + i];
        if (h.wtid >= 0 && h.wtid != cur && h.wclk > vg(th[cur].vc, h.wtid)) finish(77, "REPLAY-FAIL", "data race");
        if (wr && !atomic) { for (int u = 0; u < 4; u++) if (u != cur && h.r[u] > vg(th[cur].vc, u)) finish(77, "REPLAY-FAIL", "data race"); h.wtid = cur; h.wclk = vg(th[cur].vc, cur); }
        else h.r[cur] = vg(th[cur].vc, cur);
    }
}
static bool rtInit = false;
static void initRt() { if (rtInit) return; rtInit = true; Rt rt; mtx = new std::map<void*, Mx>; atoms = new std::map<void*, VC>; shd = new std::unordered_map<uintptr_t, Shd>; blocks = new std::map<uintptr_t, std::pair<size_t, bool>>; th[0].vc = { 1 }; for (auto& t : th) sem_init(&t.sem, 0, 0); }
static void* tmain(void* p) { Th* t = (Th*)p; while (sem_wait(&t->sem)) {} t->fn(t->arg); Rt rt; t->st = DONE; schedule(); return nullptr; }
static bool avail(void* m, bool sh) { auto it = mtx->find(m); if (it == mtx->end()) return true; if (it->second.owner >= 0) return false; return sh || it->second.rd.empty(); }
static void takeL(void* m, bool sh) { Mx& x = (*mtx)[m]; vj(th[cur].vc, x.rel); if (sh) x.rd.push_back(cur); else { vj(th[cur].vc, x.rrel); x.owner = cur; } }
static int lockL(void* m, bool sh) { initRt(); if (inRt) return 0; Rt rt; schedPoint(); while (!avail(m, sh)) { Th& t = th[cur]; t.st = BLK; t.wait = m; t.shared = sh; schedule(); th[cur].schedDone = false; } takeL(m, sh); return 0; }
static int tryL(void* m, bool sh) { initRt(); if (inRt) return 0; Rt rt; schedPoint(); if (avail(m, sh)) { takeL(m, sh); return 0; } return 16; }
static int unlockL(void* m) {
    initRt(); if (inRt) return 0; Rt rt;
#ifdef SCHED_UNLOCK
    schedPoint();
#endif
    auto it = mtx->find(m);
    if (it == mtx->end()) finish(77, "REPLAY-FAIL", "unlock of a lock that is not held");
    Mx& x = it->second;
    if (x.owner == cur) { x.rel = th[cur].vc; x.owner = -1; }
    else { auto r = std::find(x.rd.begin(), x.rd.end(), cur); if (r == x.rd.end()) finish(77, "REPLAY-FAIL", "unlock of a lock that is not held by this thread"); x.rd.erase(r); vj(x.rrel, th[cur].vc); }
    vinc(); return 0;
}
static int destroyL(void* m) { initRt(); if (inRt) return 0; Rt rt; auto it = mtx->find(m); if (it != mtx->end()) { if (it->second.owner >= 0 || !it->second.rd.empty()) finish(77, "REPLAY-FAIL", "destruction of a held lock"); mtx->erase(it); } return 0; }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) { return lockL(m, false); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return unlockL(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return tryL(m, false); }
int pthread_mutex_destroy(pthread_mutex_t* m) { return destroyL(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return lockL(m, false); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return lockL(m, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return tryL(m, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return tryL(m, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { return unlockL(m); }
int pthread_rwlock_destroy(pthread_rwlock_t* m) { return destroyL(m); }
uint64_t sym_held() { Rt rt; uint64_t n = 0; if (mtx) for (auto& [k, m] : *mtx) { if (m.owner == cur) n++; for (int r : m.rd) if (r == cur) n++; } return n; }
void sym_yield() { Rt rt; schedPoint(); }
void sym_thread(void (*fn)(void*), void* arg) {
    initRt(); Rt rt;
    if (nth >= 4) finish(95, "REPLAY-DIVERGED", "too many threads");
    vinc();
    Th& t = th[nth]; t.fn = fn; t.arg = arg; t.vc = th[cur].vc; t.vc.resize(std::max<size_t>(t.vc.size(), nth + 1), 0); t.vc[nth] = 1;
    nth++;
    vinc();
    pthread_t p; pthread_create(&p, nullptr, tmain, &t); pthread_detach(p);
}
void sym_join() {
    Rt rt;
    if (!mt()) return;
    for (;;) {
        bool all = true;
        for (int k = 0; k < nth; k++) if (k != cur && th[k].st != DONE) all = false;
        if (all) { for (int k = 0; k < nth; k++) vj(th[cur].vc, th[k].vc); th[cur].schedDone = false; return; }
        th[cur].st = JOIN;
        schedule();
    }
}
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { access((uintptr_t)p, n, false); } void __tsan_write##n(void* p) { access((uintptr_t)p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, false); } void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, true); } \
    void __tsan_read_write##n(void* p) { access((uintptr_t)p, n, false); access((uintptr_t)p, n, true); } void __tsan_unaligned_read_write##n(void* p) { access((uintptr_t)p, n, false); access((uintptr_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { access((uintptr_t)p, 8, true); } void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false); }
void __tsan_read_range(void* p, unsigned long n) { access((uintptr_t)p, n, false); } void __tsan_write_range(void* p, unsigned long n) { access((uintptr_t)p, n, true); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { access((uintptr_t)s, n, false); access((uintptr_t)d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { access((uintptr_t)s, n, false); access((uintptr_t)d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { access((uintptr_t)d, n, true); return memset(d, c, n); }
static void async(void* a, int mo, bool ld, bool st) {
    if (!mt()) return;
    bool acq = ld && (mo == 1 || mo == 2 || mo == 4 || mo == 5), rel = st && (mo == 3 || mo == 4 || mo == 5);
    VC& r = (*atoms)[a];
    if (acq) vj(th[cur].vc, r);
    if (rel) { if (ld) vj(r, th[cur].vc); else r = th[cur].vc; vinc(); } else if (st && !ld) r.clear();
}
#define AT(w, T) \
    T __tsan_atomic##w##_load(const volatile T* a, int mo) { initRt(); { Rt rt; schedPoint(); } access((uintptr_t)a, w / 8, false, true); Rt rt; async((void*)a, mo, true, false); return *a; } \
    void __tsan_atomic##w##_store(volatile T* a, T v, int mo) { initRt(); { Rt rt; schedPoint(); } access((uintptr_t)a, w / 8, true, true); Rt rt; async((void*)a, mo, false, true); *a = v; } \
    T __tsan_atomic##w##_exchange(volatile T* a, T v, int mo) { initRt(); { Rt rt; schedPoint(); } access((uintptr_t)a, w / 8, true, true); Rt rt; async((void*)a, mo, true, true); T o = *a; *a = v; return o; } \
    T __tsan_atomic##w##_fetch_add(volatile T* a, T v, int mo) { initRt(); { Rt rt; schedPoint(); } access((uintptr_t)a, w / 8, true, true); Rt rt; async((void*)a, mo, true, true); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##w##_fetch_sub(volatile T* a, T v, int mo) { initRt(); { Rt rt; schedPoint(); } access((uintptr_t)a, w / 8, true, true); Rt rt; async((void*)a, mo, true, true); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##w##_fetch_and(volatile T* a, T v, int mo) { initRt(); { Rt rt; schedPoint(); } access((uintptr_t)a, w / 8, true, true); Rt rt; async((void*)a, mo, true, true); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##w##_fetch_or(volatile T* a, T v, int mo) { initRt(); { Rt rt; schedPoint(); } access((uintptr_t)a, w / 8, true, true); Rt rt; async((void*)a, mo, true, true); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##w##_fetch_xor(volatile T* a, T v, int mo) { initRt(); { Rt rt; schedPoint(); } access((uintptr_t)a, w / 8, true, true); Rt rt; async((void*)a, mo, true, true); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##w##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { initRt(); { Rt rt; schedPoint(); } access((uintptr_t)a, w / 8, true, true); Rt rt; T o = *a; bool ok = o == c; async((void*)a, ok ? mo : fmo, true, ok); if (ok) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
void* operator new(size_t n) { initRt(); void* p = malloc(n ? n : 1); if (!inRt) { Rt rt; memset(p, 0xCD, n); (*blocks)[(uintptr_t)p] = { n, false }; live++; } return p; }
void operator delete(void* p) noexcept {
    if (!p) return;
    if (inRt || !blocks) { free(p); return; }
    auto it = blocks->find((uintptr_t)p);
    if (it == blocks->end()) { free(p); return; }
    if (it->second.second) finish(77, "REPLAY-FAIL", "double free");
    access((uintptr_t)p, it->second.first, true);
    it->second.second = true; live--; // quarantined for good
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
