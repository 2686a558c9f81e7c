// The runtime behind ctlsched.h. It takes the place of libgomp (regions, thread numbers, loops, barriers, critical sections) and of
// the thread sanitizer's library. The threads of a region are real threads of which one at a time may run; a switch happens only
// when the running one ends, waits, or is preempted at an atomic operation. Every other access needs no switch: the monitor
// reports a pair of accesses that no ordering separates, and without such a pair all interleavings of them are equivalent.
#include "ctlsched.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <execinfo.h>
#include <dlfcn.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <set>
#define EX extern "C" __attribute__((visibility("default")))
typedef unsigned long long ull;
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
namespace {
const int MT = 8;
enum St { IDLE, READY, WAITING, YIELDED, DONE };
struct Th { St st; int* ptr; int val; sem_t sem; pthread_t p; bool made; uint16_t vc[MT]; };
Th th[MT];
int nDefault = 1, N = 1; bool inRegion = false, record = false; volatile int cur = 0;
__thread int tnum = 0, level = 0, nested = 0, busy = 0;
int order[MT] = {0, 1, 2, 3, 4, 5, 6, 7};
void (*rfn)(void*) = nullptr; void* rdata = nullptr; unsigned long regionNo = 0;
long preemptAt = -1, nAtomic = 0; int preemptTo = 0; bool shAtomic = false;
sched::Stats st_;
std::vector<std::string>* races_; std::set<std::pair<void*, void*>> *raceKeys_, *sites_;
[[noreturn]] void fatal(const char* m) { fprintf(stderr, "SCHED: %s\n", m); fflush(stderr); _exit(96); }

// ---- shadow memory: per byte and thread the clock of its last read and write in this region
struct Gran { uint64_t key; uint64_t gen; uint16_t r[MT][8], w[MT][8]; };
Gran* tab = nullptr; size_t cap = 0, used = 0; uint64_t gen = 1;
struct Sync { uint64_t key; uint64_t gen; uint16_t vc[MT]; uint8_t rd, wr; };
Sync* stab = nullptr; const size_t SCAP = 1 << 14; size_t sused = 0;
inline size_t hashOf(uint64_t k) { k *= 0x9E3779B97F4A7C15ull; return k >> 20; }
void grow() {
    Gran* old = tab; size_t oc = cap; cap = cap ? cap * 4 : (1 << 15); tab = (Gran*)__libc_calloc(cap, sizeof(Gran)); used = 0;
    for (size_t i = 0; i < oc; ++i) if (old[i].gen == gen) { size_t h = hashOf(old[i].key) & (cap - 1); while (tab[h].gen == gen) h = (h + 1) & (cap - 1); tab[h] = old[i]; used++; }
    if (old) __libc_free(old);
}
inline Gran* find(uint64_t k, bool make) {
    if (make && used * 2 >= cap) grow();
    if (!cap) return nullptr;
    size_t h = hashOf(k) & (cap - 1);
    while (tab[h].gen == gen) { if (tab[h].key == k) return &tab[h]; h = (h + 1) & (cap - 1); }
    if (!make) return nullptr;
    memset(tab[h].r, 0, sizeof tab[h].r); memset(tab[h].w, 0, sizeof tab[h].w); tab[h].key = k; tab[h].gen = gen; used++; return &tab[h];
}
Sync* syncOf(uint64_t k) {
    size_t h = hashOf(k) & (SCAP - 1); if (!stab) stab = (Sync*)__libc_calloc(SCAP, sizeof(Sync));
    while (stab[h].gen == gen) { if (stab[h].key == k) return &stab[h]; h = (h + 1) & (SCAP - 1); }
    if (++sused > SCAP / 2) fatal("too many synchronisation objects");
    memset(&stab[h], 0, sizeof(Sync)); stab[h].key = k; stab[h].gen = gen; return &stab[h];
}
struct Busy { Busy() { busy++; } ~Busy() { busy--; } };
void acquire(uint64_t k) { Busy q; Sync* s = syncOf(k); for (int i = 0; i < MT; ++i) if (s->vc[i] > th[tnum].vc[i]) th[tnum].vc[i] = s->vc[i]; }
void release(uint64_t k) { Busy q; Sync* s = syncOf(k); for (int i = 0; i < MT; ++i) if (th[tnum].vc[i] > s->vc[i]) s->vc[i] = th[tnum].vc[i]; if (++th[tnum].vc[tnum] > 65000) fatal("clock overflow"); }

__attribute__((noinline)) void report(void* pc, void* a, unsigned size, int other, bool w, bool ow) {
    st_.races++;
    if (raceKeys_->size() > 40 || !raceKeys_->insert({pc, nullptr}).second) return;
    std::string where; void* bt[24]; int n = backtrace(bt, 24); int shown = 0;
    for (int i = 0; i < n && shown < 4; ++i) { Dl_info d; if (dladdr(bt[i], &d) && d.dli_sname && !strstr(d.dli_sname, "tsan") && !strstr(d.dli_sname, "GOMP")) { where += std::string(where.empty() ? "" : " < ") + d.dli_sname; shown++; } else if (i > 2) { char b[40]; snprintf(b, 40, "%s%p", where.empty() ? "" : " < ", bt[i]); where += b; shown++; } }
    char b[160]; snprintf(b, 160, "thread %d %s %u bytes that thread %d %s, with nothing ordering them, at ", tnum, w ? "writes" : "reads", size, other, ow ? "wrote" : "read");
    races_->push_back(b + where);
}
inline bool watching() { return inRegion && record && N > 1 && !nested && !busy; }
__attribute__((noinline)) void access(void* ap, size_t size, bool w, void* pc) {
    st_.accesses++; busy++; uint64_t a = (uint64_t)ap, e = a + size; Th& me = th[tnum];
    while (a < e) {
        Gran* g = find(a >> 3, true); unsigned b0 = a & 7, b1 = (e - a) < 8 - b0 ? b0 + (e - a) : 8;
        for (int u = 0; u < N; ++u) if (u != tnum) for (unsigned b = b0; b < b1; ++b) {
            if (g->w[u][b] > me.vc[u]) { report(pc, ap, size, u, w, true); break; }
            if (w && g->r[u][b] > me.vc[u]) { report(pc, ap, size, u, w, false); break; }
        }
        uint16_t c = me.vc[tnum]; uint16_t* t = w ? g->w[tnum] : g->r[tnum]; for (unsigned b = b0; b < b1; ++b) t[b] = c;
        a += b1 - b0;
    }
    busy--;
}
void forget(void* p, size_t n) { uint64_t a = (uint64_t)p >> 3, e = ((uint64_t)p + n + 7) >> 3; for (; a < e; ++a) if (Gran* g = find(a, false)) { memset(g->r, 0, sizeof g->r); memset(g->w, 0, sizeof g->w); } }

// ---- the scheduler
bool enabled(int t) { return th[t].st == READY || (th[t].st == WAITING && __atomic_load_n(th[t].ptr, __ATOMIC_SEQ_CST) == th[t].val); }
int pick() {
    for (int round = 0; round < 2; ++round) {
        for (int i = 0; i < MT; ++i) { int t = order[i]; if (t < N && enabled(t)) return t; }
        bool any = false; for (int t = 0; t < N; ++t) if (th[t].st == YIELDED) { th[t].st = READY; any = true; }
        if (!any) break;
    }
    return -1;
}
void handTo(int t) { st_.switches++; cur = t; sem_post(&th[t].sem); }
void waitTurn() { int me = tnum; while (sem_wait(&th[me].sem)) ; }
void stopAndSwitch() {   // the state of this thread has been set
    int me = tnum, t = pick(); if (t < 0) fatal("no thread can continue: deadlock");
    if (t != me) { handTo(t); waitTurn(); }
    th[me].st = READY;
}
void atomicPoint(uint64_t a, bool w, void* pc = nullptr) {
    nAtomic++; st_.atomics++;
    if (record) { Busy q; Sync* s = syncOf(a); if ((w ? (s->rd | s->wr) : s->wr) & ~(1u << tnum)) { if (!shAtomic) st_.atomicShared++; shAtomic = true; sites_->insert({(void*)rfn, pc}); } (w ? s->wr : s->rd) |= 1u << tnum; }
    if (nAtomic - 1 == preemptAt && preemptTo < N && preemptTo != tnum && enabled(preemptTo)) { int me = tnum; th[me].st = READY; handTo(preemptTo); waitTurn(); }
}
void body() { rfn(rdata); }
void* worker(void* arg) {
    tnum = (int)(intptr_t)arg;
    for (;;) { waitTurn(); level = 1; body(); level = 0; th[tnum].st = DONE; int t = pick(); if (t < 0) { bool all = true; for (int i = 0; i < N; ++i) all &= th[i].st == DONE; if (!all) fatal("no thread can continue: deadlock"); t = 0; } handTo(t); }
    return nullptr;
}
struct Init { Init() { races_ = new std::vector<std::string>; raceKeys_ = new std::set<std::pair<void*, void*>>; sites_ = new std::set<std::pair<void*, void*>>; for (auto& t : th) sem_init(&t.sem, 0, 0); } } init_;
// a worksharing loop with dynamic or guided schedule: handed out under the scheduler
struct Loop { unsigned long region; ull next, end, incr, chunk; bool up; unsigned arrived; } loop_; 
void loopInit(ull s, ull e, ull incr, ull chunk, bool up) { loop_ = {regionNo, s, e, incr, chunk ? chunk : 1, up, 0}; }
bool loopNext(ull* a, ull* b) { if (inRegion && !nested) { atomicPoint((uint64_t)&loop_, true); } ull step = loop_.chunk * loop_.incr; if (loop_.up ? (long long)loop_.next >= (long long)loop_.end : (long long)loop_.next <= (long long)loop_.end) return false; *a = loop_.next; *b = loop_.next + step; if (loop_.up ? (long long)*b > (long long)loop_.end : (long long)*b < (long long)loop_.end) *b = loop_.end; loop_.next = *b; return true; }
int barCount[MT]; int barPhase = 0;
}
namespace sched {
Stats& stats() { return st_; }
void setThreads(int n) { nDefault = n; }
void setOrder(std::vector<int> const& p) { int k = 0; for (int t : p) order[k++] = t; for (int t = 0; t < MT; ++t) { bool in = false; for (int q : p) in |= q == t; if (!in) order[k++] = t; } }
void setPreempt(long at, int to) { preemptAt = at; preemptTo = to; }
void setRecord(bool on) { record = on; }
void beginRun() { nAtomic = 0; shAtomic = false; sites_->clear(); }
long atomicOps() { return nAtomic; }
bool sharedAtomics() { return shAtomic; }
std::vector<std::pair<void*, void*>> sharedSites() { return {sites_->begin(), sites_->end()}; }
std::vector<std::string> takeRaces() { auto r = *races_; races_->clear(); raceKeys_->clear(); return r; }
}
// ---- OpenMP
EX void GOMP_parallel(void (*fn)(void*), void* data, unsigned num, unsigned) {
    int n = num ? (int)num : nDefault; if (n > MT) fatal("too many threads");
    if (inRegion) { nested++; level++; fn(data); level--; nested--; return; }
    st_.regions++; if (n > 1) st_.multi++;
    N = n; rfn = fn; rdata = data; gen++; used = 0; sused = 0; regionNo++; barPhase = 0; loop_.region = 0;
    for (int t = 0; t < n; ++t) { memset(th[t].vc, 0, sizeof th[t].vc); th[t].vc[t] = 1; th[t].st = READY; if (t && !th[t].made) { th[t].made = true; pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 8 << 20); if (pthread_create(&th[t].p, &a, worker, (void*)(intptr_t)t)) fatal("no thread"); } }
    inRegion = true; int t = pick(); if (t != 0) { handTo(t); waitTurn(); }
    level = 1; body(); level = 0; th[0].st = DONE;
    t = pick(); bool all = true; for (int i = 0; i < N; ++i) all &= th[i].st == DONE;
    if (!all) { if (t < 0) fatal("no thread can continue: deadlock"); handTo(t); waitTurn(); }
    inRegion = false; N = 1; gen++; used = 0; sused = 0;
}
EX int omp_get_thread_num() { return nested ? 0 : tnum; }
EX int omp_get_num_threads() { return inRegion && !nested ? N : 1; }
EX int omp_get_max_threads() { return nDefault; }
EX int omp_get_num_procs() { return nDefault; }
EX int omp_get_thread_limit() { return MT; }
EX int omp_get_level() { return level; }
EX int omp_get_active_level() { return level; }
EX int omp_in_parallel() { return inRegion && N > 1; }
EX void omp_set_num_threads(int n) { nDefault = n; }
EX int omp_get_dynamic() { return 0; }
EX void omp_set_dynamic(int) {}
EX int omp_get_nested() { return 0; }
EX void omp_set_nested(int) {}
EX int omp_get_max_active_levels() { return 1; }
EX void omp_set_max_active_levels(int) {}
EX void GOMP_barrier() {
    if (!inRegion || nested || N == 1) return;
    static int count = 0, phase = 0; static unsigned long reg = 0; if (reg != regionNo) { reg = regionNo; count = 0; }
    int k = phase; release(0x1000 + k); if (++count == N) { count = 0; phase++; } else { st_.waits++; th[tnum].st = WAITING; th[tnum].ptr = &phase; th[tnum].val = k + 1; stopAndSwitch(); }
    acquire(0x1000 + k);
}
static bool locked = false;
static void lockOn(bool* l, uint64_t key) { while (*l) { st_.waits++; if (!inRegion) fatal("self deadlock"); th[tnum].st = YIELDED; stopAndSwitch(); } *l = true; if (inRegion) { atomicPoint(key, true); acquire(key); } }
static void lockOff(bool* l, uint64_t key) { if (inRegion) release(key); *l = false; }
EX void GOMP_critical_start() { lockOn(&locked, 0x2000); }
EX void GOMP_critical_end() { lockOff(&locked, 0x2000); }
EX void GOMP_critical_name_start(void** p) { lockOn((bool*)p, (uint64_t)p); }
EX void GOMP_critical_name_end(void** p) { lockOff((bool*)p, (uint64_t)p); }
EX void GOMP_atomic_start() { lockOn(&locked, 0x2000); }
EX void GOMP_atomic_end() { lockOff(&locked, 0x2000); }
EX bool GOMP_single_start() { static unsigned long reg = 0; static unsigned char seen[MT]; static unsigned cnt = 0; if (!inRegion || nested) return true; if (reg != regionNo) { reg = regionNo; memset(seen, 0, MT); cnt = 0; } bool first = seen[tnum]++ == cnt; if (first) cnt++; atomicPoint((uint64_t)&cnt, true); return first; }
#define LOOPS(S) \
EX void GOMP_parallel_loop_##S(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned f) { loopInit(s, e, i, c, i > 0); GOMP_parallel(fn, d, n, f); } \
EX bool GOMP_loop_##S##_start(long s, long e, long i, long c, long* a, long* b) { if (loop_.region != regionNo) loopInit(s, e, i, c, i > 0); return loopNext((ull*)a, (ull*)b); } \
EX bool GOMP_loop_##S##_next(long* a, long* b) { return loopNext((ull*)a, (ull*)b); } \
EX bool GOMP_loop_ull_##S##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { if (loop_.region != regionNo) loopInit(s, e, i, c, up); return loopNext(a, b); } \
EX bool GOMP_loop_ull_##S##_next(ull* a, ull* b) { return loopNext(a, b); }
LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
EX void GOMP_loop_end() { GOMP_barrier(); }
EX void GOMP_loop_end_nowait() {}
// ---- other ways of waiting
EX int sched_yield() { if (inRegion && !nested) { st_.waits++; th[tnum].st = YIELDED; stopAndSwitch(); } return 0; }
EX void _ZN6Kokkos4Impl17host_thread_yieldEjNS0_8WaitModeE(unsigned, int) { sched_yield(); }
EX void _ZN6Kokkos4Impl11HostBarrier29impl_backoff_wait_until_equalEPiib(int* p, int v, bool) {
    if (inRegion && !nested) { while (__atomic_load_n(p, __ATOMIC_SEQ_CST) != v) { st_.waits++; th[tnum].st = WAITING; th[tnum].ptr = p; th[tnum].val = v; stopAndSwitch(); } if (record) acquire((uint64_t)p); }
    else if (__atomic_load_n(p, __ATOMIC_SEQ_CST) != v) fatal("waiting outside a region");
}
// forming and dissolving teams happens inside Kokkos' own library, which is not instrumented: each is a rendezvous
typedef int (*OrgT)(void*, int); typedef void (*DisT)(void*);
EX int _ZN6Kokkos4Impl18HostThreadTeamData13organize_teamEi(void* self, int n) { static OrgT real = (OrgT)dlsym(RTLD_NEXT, "_ZN6Kokkos4Impl18HostThreadTeamData13organize_teamEi"); bool on = watching(); if (on) release(0x3000); int r = real(self, n); if (on) acquire(0x3000); return r; }
EX void _ZN6Kokkos4Impl18HostThreadTeamData12disband_teamEv(void* self) { static DisT real = (DisT)dlsym(RTLD_NEXT, "_ZN6Kokkos4Impl18HostThreadTeamData12disband_teamEv"); bool on = watching(); if (on) release(0x3008); real(self); if (on) acquire(0x3008); }
EX int pthread_mutex_lock(pthread_mutex_t* m) { for (;;) { int r = pthread_mutex_trylock(m); if (r != EBUSY) { if (!r && watching()) acquire((uint64_t)m); return r; } if (inRegion && !nested) { st_.waits++; th[tnum].st = YIELDED; stopAndSwitch(); } else usleep(50); } }
EX int pthread_mutex_unlock(pthread_mutex_t* m) { static int (*real)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); if (watching()) release((uint64_t)m); return real(m); }
EX int __cxa_guard_acquire(long long int* g) { char* b = (char*)g; while (b[1]) { if (!inRegion) fatal("recursive initialisation"); st_.waits++; th[tnum].st = YIELDED; stopAndSwitch(); } if (watching()) acquire((uint64_t)g); if (b[0]) return 0; b[1] = 1; return 1; }
EX void __cxa_guard_release(long long int* g) { char* b = (char*)g; if (watching()) release((uint64_t)g); b[1] = 0; __atomic_store_n(b, 1, __ATOMIC_SEQ_CST); }
EX void __cxa_guard_abort(long long int* g) { ((char*)g)[1] = 0; }
// ---- memory
EX void* malloc(size_t n) noexcept { return __libc_malloc(n); }
EX void free(void* p) noexcept { if (p && watching()) { busy = 1; forget(p, malloc_usable_size(p)); busy = 0; } __libc_free(p); }
EX void* calloc(size_t a, size_t b) noexcept { return __libc_calloc(a, b); }
EX void* realloc(void* p, size_t n) noexcept { if (p && watching()) { busy = 1; forget(p, malloc_usable_size(p)); busy = 0; } return __libc_realloc(p, n); }
EX void* memalign(size_t a, size_t n) noexcept { return __libc_memalign(a, n); }
EX void* aligned_alloc(size_t a, size_t n) noexcept { return __libc_memalign(a, n); }
EX int posix_memalign(void** p, size_t a, size_t n) noexcept { void* q = __libc_memalign(a, n); if (!q) return ENOMEM; *p = q; return 0; }
#define PC __builtin_return_address(0)
EX void* memcpy(void* d, const void* s, size_t n) noexcept { if (n && watching()) { access((void*)s, n, false, PC); access(d, n, true, PC); } void* r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
EX void* memmove(void* d, const void* s, size_t n) noexcept { if (n && watching()) { access((void*)s, n, false, PC); access(d, n, true, PC); } char* a = (char*)d; const char* b = (const char*)s; if (a <= b || a >= b + n) { void* dd = d; asm volatile("rep movsb" : "+D"(dd), "+S"(s), "+c"(n) : : "memory"); } else { void* dd = a + n - 1; const void* ss = b + n - 1; asm volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(n) : : "memory"); } return d; }
EX void* memset(void* d, int v, size_t n) noexcept { if (n && watching()) access(d, n, true, PC); void* r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); return r; }
// ---- what the thread sanitizer's instrumentation calls
EX void __tsan_init() {}
EX void __tsan_func_entry(void*) {}
EX void __tsan_func_exit() {}
#define RW(n) \
EX void __tsan_read##n(void* a) { if (watching()) access(a, n, false, PC); } EX void __tsan_write##n(void* a) { if (watching()) access(a, n, true, PC); } \
EX void __tsan_unaligned_read##n(void* a) { if (watching()) access(a, n, false, PC); } EX void __tsan_unaligned_write##n(void* a) { if (watching()) access(a, n, true, PC); } \
EX void __tsan_volatile_read##n(void* a) { if (watching()) { atomicPoint((uint64_t)a, false); acquire((uint64_t)a); } } EX void __tsan_volatile_write##n(void* a) { if (watching()) { atomicPoint((uint64_t)a, true); release((uint64_t)a); } } \
EX void __tsan_unaligned_volatile_read##n(void* a) { __tsan_volatile_read##n(a); } EX void __tsan_unaligned_volatile_write##n(void* a) { __tsan_volatile_write##n(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EX void __tsan_read_range(void* a, size_t n) { if (n && watching()) access(a, n, false, PC); }
EX void __tsan_write_range(void* a, size_t n) { if (n && watching()) access(a, n, true, PC); }
EX void __tsan_vptr_update(void** a, void*) { if (watching()) access(a, 8, true, PC); }
EX void __tsan_vptr_read(void** a) { if (watching()) access(a, 8, false, PC); }
namespace { inline void before(volatile void* a, bool w, void* pc) { if (inRegion && !nested && N > 1 && !busy) { atomicPoint((uint64_t)a, w, pc); if (record && w) { acquire((uint64_t)a); release((uint64_t)a); } else if (record) acquire((uint64_t)a); } } }
EX void __tsan_atomic_thread_fence(int) {}
EX void __tsan_atomic_signal_fence(int) {}
#define AT(n, T) \
EX T __tsan_atomic##n##_load(const volatile T* a, int) { before((volatile void*)a, false, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
EX void __tsan_atomic##n##_store(volatile T* a, T v, int) { before(a, true, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
EX T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { before(a, true, PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
EX T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { before(a, true, PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
EX T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { before(a, true, PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
EX T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { before(a, true, PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
EX T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { before(a, true, PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
EX T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { before(a, true, PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
EX T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int) { before(a, true, PC); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
EX bool __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { before(a, true, PC); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
EX bool __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { before(a, true, PC); return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
