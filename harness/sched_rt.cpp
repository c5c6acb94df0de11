// Runtime under which two real threads run the instrumented library one memory access at a time.
// The code is compiled with -fsanitize=thread but linked with this file in place of the sanitizer's runtime:
// every access arrives here, is logged per thread, and may be a scheduling point. Only the thread that holds the
// baton runs, so an execution is decided by the list of points at which the baton changes hands.
// This file itself is compiled without instrumentation and uses nothing that is.
#include "sched_rt.hpp"
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sched {
#define RAW extern "C" __attribute__((visibility("default")))
extern "C" void* __real_memcpy(void*, const void*, size_t);
extern "C" void* __real_memmove(void*, const void*, size_t);
extern "C" void* __real_memset(void*, int, size_t);
extern "C" int __real_memcmp(const void*, const void*, size_t);

// ---- memory: each logical thread allocates from its own range, and a range's blocks are only reused by its thread ----
enum { ARENAS = 4 };
static const uintptr_t BASE = 0x100000000000ull, ARENA_SIZE = 1ull << 36;
struct Arena { uintptr_t top; void* freelist[64]; };
static Arena arena[ARENAS];
static int cur_arena = 0;
static bool arenas_ready = false;
static void arena_init() {
    arenas_ready = true;
    for (int i = 0; i < ARENAS; i++) {
        void* p = mmap((void*)(BASE + i * ARENA_SIZE), ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (void*)(BASE + i * ARENA_SIZE)) { static const char m[] = "sched: no address space\n"; if (write(2, m, sizeof m - 1)) {} _exit(4); }
        arena[i].top = BASE + i * ARENA_SIZE + 64;
    }
}
// 64 size classes: four per power of two
static int size_class(size_t n) { int b = 0; if (n < 32) return (int)((n + 15) / 16); while ((n >> (b + 1)) != 0) b++; size_t q = n >> (b - 2); int c = (b - 5) * 4 + (int)(q & 3) + 3; if (((q << (b - 2)) != n)) c++; return c; }
static size_t class_size(int c) { if (c < 3) return 16 * (size_t)(c ? c : 1); int b = (c - 3) / 4 + 5, q = (c - 3) % 4 + 4; return ((size_t)q << (b - 2)); }
struct Head { uint64_t cls; uint64_t size; };
static void* get(size_t n) {
    if (!arenas_ready) arena_init();
    Arena& a = arena[cur_arena];
    int c = size_class(n ? n : 1); size_t s = class_size(c); if (s < n) { s = class_size(++c); }
    if (c < 64 && a.freelist[c]) { void* p = a.freelist[c]; a.freelist[c] = *(void**)p; ((Head*)p)[-1].size = n; return p; }
    uintptr_t p = a.top + sizeof(Head); a.top = (p + s + 15) & ~(uintptr_t)15;
    if (a.top > BASE + (cur_arena + 1) * ARENA_SIZE) { errno = ENOMEM; return nullptr; }
    ((Head*)p)[-1].cls = c; ((Head*)p)[-1].size = n;
    return (void*)p;
}
RAW void* malloc(size_t n) { void* p = get(n); if (p && n <= 65536) __real_memset(p, 0xF3, n); return p; }
RAW void free(void* p) {
    uintptr_t u = (uintptr_t)p; if (u < BASE || u >= BASE + ARENAS * ARENA_SIZE) return;
    Arena& a = arena[(u - BASE) / ARENA_SIZE]; uint64_t c = ((Head*)p)[-1].cls;
    if (c == 99) { return; }   // over-aligned: not reused
    if (c < 64) { *(void**)p = a.freelist[c]; a.freelist[c] = p; }
}
RAW void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } void* p = get(n); if (p) __real_memset(p, 0, n); return p; }
RAW void* realloc(void* o, size_t n) {
    if (!o) return malloc(n);
    void* p = malloc(n); if (!p) return p;
    uintptr_t u = (uintptr_t)o; if (u >= BASE && u < BASE + ARENAS * ARENA_SIZE) { size_t k = ((Head*)o)[-1].size; __real_memcpy(p, o, k < n ? k : n); free(o); }
    return p;
}
static void* aligned(size_t al, size_t n) {
    if (al <= 16) return malloc(n);
    char* p = (char*)get(n + al + 16); if (!p) return p;
    uintptr_t q = ((uintptr_t)p + 16 + al - 1) & ~(uintptr_t)(al - 1);
    ((Head*)q)[-1].cls = 99; ((Head*)q)[-1].size = n; return (void*)q;
}
RAW int posix_memalign(void** o, size_t al, size_t n) { *o = aligned(al, n); return *o ? 0 : ENOMEM; }
RAW void* aligned_alloc(size_t al, size_t n) { return aligned(al, n); }
RAW void* memalign(size_t al, size_t n) { return aligned(al, n); }
RAW size_t malloc_usable_size(void* p) { return p ? ((Head*)p)[-1].size : 0; }

// ---- shared with the exploring process ----
struct Page { uintptr_t no; uint8_t r[2][512], w[2][512], conf[512]; };
enum { PAGES = 1 << 14 };
static Page* pages;          // open addressing by page number; 0 = unused
static uint32_t* used; static uint32_t* nused;
Shared* S;
static uint64_t* overflow;

static void* shared(size_t n) { void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) _exit(4); return p; }
void init() {
    if (S) return;
    pages = (Page*)shared(sizeof(Page) * PAGES); used = (uint32_t*)shared(4 * (PAGES + 4)); nused = used + PAGES; overflow = (uint64_t*)shared(64); S = (Shared*)shared(sizeof(Shared));
}
void forget() { for (uint32_t i = 0; i < *nused; i++) __real_memset(&pages[used[i]], 0, sizeof(Page)); *nused = 0; *overflow = 0; }
static Page* page(uintptr_t no, bool make) {
    uint32_t h = (uint32_t)((no * 0x9E3779B97F4A7C15ull) >> 50) & (PAGES - 1);
    for (int i = 0; i < PAGES; i++, h = (h + 1) & (PAGES - 1)) {
        if (pages[h].no == no) return &pages[h];
        if (!pages[h].no) { if (!make) return nullptr; if (*nused >= PAGES - 64) { ++*overflow; return nullptr; } pages[h].no = no; used[(*nused)++] = h; return &pages[h]; }
    }
    return nullptr;
}
bool overflowed() { return *overflow != 0; }
// marks the granules one thread writes and the other touches; returns how many are newly marked
int mark_conflicts(int* total) {
    int fresh = 0, all = 0;
    for (uint32_t i = 0; i < *nused; i++) {
        Page& p = pages[used[i]];
        for (int g = 0; g < 512; g++) {
            bool c = (p.w[0][g] & (p.w[1][g] | p.r[1][g])) || (p.w[1][g] & (p.w[0][g] | p.r[0][g]));
            if (c && !p.conf[g]) { p.conf[g] = 1; fresh++; if (S->nwhere < 64) S->where[S->nwhere++] = p.no * 4096 + 8 * g; }
            all += p.conf[g];
        }
    }
    *total = all; return fresh;
}
uint64_t granules() { uint64_t n = 0; for (uint32_t i = 0; i < *nused; i++) { Page& p = pages[used[i]]; for (int g = 0; g < 512; g++) n += (p.w[0][g] | p.r[0][g] | p.w[1][g] | p.r[1][g]) != 0; } return n; }

// ---- the baton ----
static volatile int turn;            // 0 the exploring thread, 1 and 2 the two threads
static int cur;                      // who holds it (1 or 2) while active
static bool active, both;
static int hold;                     // no change of hands while positive
static bool done[3];
static uintptr_t stk[3][2];
static int waits;                    // hand-overs without progress
static uint64_t since;               // accesses since the last hand-over
static const int* pre; static int npre, ipre;

static void futex(int op, int v) { syscall(SYS_futex, &turn, op, v, 0, 0, 0); }
static void give(int to) { __atomic_store_n(&turn, to, __ATOMIC_SEQ_CST); futex(FUTEX_WAKE, INT_MAX); }
static void await(int me) { for (;;) { int t = __atomic_load_n(&turn, __ATOMIC_SEQ_CST); if (t == me) return; futex(FUTEX_WAIT, t); } }
static void hand_over() {
    int me = cur, other = 3 - cur;
    since = 0; S->switches++;
    cur = other; cur_arena = other; int h = hold; hold = 0;
    give(other); await(me);
    cur = me; cur_arena = me; hold = h;
}
static void deadlock() { S->deadlock = 1; _exit(7); }
static void blocked() { if (!both || done[3 - cur] || ++waits > 100000) deadlock(); hand_over(); }

static void event(uintptr_t pc, uintptr_t a, bool w) {
    uint32_t e = S->nev++;
    if (e < MAXEV) { S->ev[e].pc = pc; S->ev[e].addr = a; S->ev[e].thread = (uint8_t)(cur - 1); S->ev[e].write = w; S->ev[e].can = both && !hold && !done[3 - cur]; }
    if (ipre < npre && (uint32_t)pre[ipre] == e) { ipre++; if (both && !hold && !done[3 - cur]) hand_over(); }
}
static inline void touch(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    if (!active || !n) return;
    if (a - stk[cur][0] < stk[cur][1]) return;
    S->accesses++; waits = 0;
    if (++since > 20000000ull && both && !hold && !done[3 - cur]) hand_over();   // someone may be spinning
    if (n > 8 || (a & 7) + n > 8) { for (uintptr_t b = a & ~(uintptr_t)7; b < a + n; b += 8) { uintptr_t lo = b > a ? b : a, hi = b + 8 < a + n ? b + 8 : a + n; touch(lo, hi - lo, w, pc); } return; }
    Page* p = page(a >> 12, true); if (!p) return;
    int g = (a >> 3) & 511, t = cur - 1; uint8_t m = (uint8_t)(((1u << n) - 1) << (a & 7));
    (w ? p->w : p->r)[t][g] |= m;
    if (p->conf[g]) event(pc, a, w);
}

#define PC ((uintptr_t)__builtin_return_address(0))
RAW void __tsan_init() {}
RAW void __tsan_func_entry(void*) {}
RAW void __tsan_func_exit() {}
#define RW(n) \
    RAW void __tsan_read##n(void* a) { touch((uintptr_t)a, n, false, PC); } \
    RAW void __tsan_write##n(void* a) { touch((uintptr_t)a, n, true, PC); } \
    RAW void __tsan_unaligned_read##n(void* a) { touch((uintptr_t)a, n, false, PC); } \
    RAW void __tsan_unaligned_write##n(void* a) { touch((uintptr_t)a, n, true, PC); } \
    RAW void __tsan_volatile_read##n(void* a) { touch((uintptr_t)a, n, false, PC); } \
    RAW void __tsan_volatile_write##n(void* a) { touch((uintptr_t)a, n, true, PC); } \
    RAW void __tsan_unaligned_volatile_read##n(void* a) { touch((uintptr_t)a, n, false, PC); } \
    RAW void __tsan_unaligned_volatile_write##n(void* a) { touch((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
RAW void __tsan_read_range(void* a, size_t n) { touch((uintptr_t)a, n, false, PC); }
RAW void __tsan_write_range(void* a, size_t n) { touch((uintptr_t)a, n, true, PC); }
RAW void __tsan_vptr_update(void** a, void*) { touch((uintptr_t)a, 8, true, PC); }
RAW void __tsan_vptr_read(void** a) { touch((uintptr_t)a, 8, false, PC); }
#define AT(b, T) \
    RAW T __tsan_atomic##b##_load(const volatile T* a, int) { touch((uintptr_t)a, sizeof(T), false, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    RAW void __tsan_atomic##b##_store(volatile T* a, T v, int) { touch((uintptr_t)a, sizeof(T), true, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    RAW T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { touch((uintptr_t)a, sizeof(T), true, PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    RAW T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { touch((uintptr_t)a, sizeof(T), true, PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    RAW T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { touch((uintptr_t)a, sizeof(T), true, PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    RAW T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { touch((uintptr_t)a, sizeof(T), true, PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    RAW T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { touch((uintptr_t)a, sizeof(T), true, PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    RAW T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { touch((uintptr_t)a, sizeof(T), true, PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    RAW T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { touch((uintptr_t)a, sizeof(T), true, PC); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    RAW int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { touch((uintptr_t)a, sizeof(T), true, PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    RAW int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { touch((uintptr_t)a, sizeof(T), true, PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    RAW T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int, int) { touch((uintptr_t)a, sizeof(T), true, PC); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
RAW void __tsan_atomic_thread_fence(int) {}
RAW void __tsan_atomic_signal_fence(int) {}

// ---- calls of the instrumented code that move memory, wait or guard (linked with --wrap) ----
RAW void* __wrap_memcpy(void* d, const void* s, size_t n) { touch((uintptr_t)s, n, false, PC); touch((uintptr_t)d, n, true, PC); return __real_memcpy(d, s, n); }
RAW void* __wrap_memmove(void* d, const void* s, size_t n) { touch((uintptr_t)s, n, false, PC); touch((uintptr_t)d, n, true, PC); return __real_memmove(d, s, n); }
RAW void* __wrap_memset(void* d, int c, size_t n) { touch((uintptr_t)d, n, true, PC); return __real_memset(d, c, n); }
RAW int __wrap_memcmp(const void* a, const void* b, size_t n) { touch((uintptr_t)a, n, false, PC); touch((uintptr_t)b, n, false, PC); return __real_memcmp(a, b, n); }
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t*);
extern "C" int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
extern "C" int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
extern "C" int __real_pthread_once(pthread_once_t*, void (*)());
extern "C" int __real___cxa_guard_acquire(uint64_t*);
extern "C" void __real___cxa_guard_release(uint64_t*);
extern "C" void __real___cxa_guard_abort(uint64_t*);
RAW int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!active) return __real_pthread_mutex_lock(m); touch((uintptr_t)m, 4, true, PC); for (;;) { int r = pthread_mutex_trylock(m); if (r != EBUSY) return r; blocked(); } }
RAW int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!active) return __real_pthread_rwlock_rdlock(m); touch((uintptr_t)m, 4, true, PC); for (;;) { int r = pthread_rwlock_tryrdlock(m); if (r != EBUSY) return r; blocked(); } }
RAW int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!active) return __real_pthread_rwlock_wrlock(m); touch((uintptr_t)m, 4, true, PC); for (;;) { int r = pthread_rwlock_trywrlock(m); if (r != EBUSY) return r; blocked(); } }
RAW int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { hold++; int r = __real_pthread_once(o, f); hold--; return r; }
RAW int __wrap_sched_yield() { if (active && both && !hold && !done[3 - cur]) hand_over(); return 0; }
RAW int __wrap___cxa_guard_acquire(uint64_t* g) { touch((uintptr_t)g, 1, true, PC); int r = __real___cxa_guard_acquire(g); if (r) hold++; return r; }
RAW void __wrap___cxa_guard_release(uint64_t* g) { touch((uintptr_t)g, 1, true, PC); __real___cxa_guard_release(g); hold--; }
RAW void __wrap___cxa_guard_abort(uint64_t* g) { __real___cxa_guard_abort(g); hold--; }

// ---- one execution (in a forked child) ----
static Body body[2];
static void* thread_main(void* x) {
    int me = (int)(intptr_t)x;
    await(me);
    cur = me; cur_arena = me; hold = 0;
    body[me - 1](me - 1);
    done[me] = true;
    if (both && !done[3 - me]) { cur = 3 - me; cur_arena = 3 - me; give(3 - me); }
    else { active = false; cur_arena = 3; give(0); }
    return nullptr;
}
void use_arena(int a) { cur_arena = a; }
// which: bit 0 and 1 say which threads take part; first: who starts; serial order follows when there are no preemptions
void run(Body a, Body b, int which, int first, const int* p, int n) {
    body[0] = a; body[1] = b; both = which == 3; pre = p; npre = n; ipre = 0; S->nev = 0;
    const size_t SS = 8 << 20; pthread_t th[3];
    for (int i = 1; i <= 2; i++) if (which >> (i - 1) & 1) {
        char* s = (char*)mmap((void*)(0x200000000000ull + (uintptr_t)i * (1ull << 32)), SS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (s == (char*)MAP_FAILED) _exit(4);
        stk[i][0] = (uintptr_t)s; stk[i][1] = SS;
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, s, SS);
        if (pthread_create(&th[i], &at, thread_main, (void*)(intptr_t)i)) _exit(4);
    }
    cur = first; cur_arena = first; active = true; since = 0;
    give(first); await(0);
    active = false;
    for (int i = 1; i <= 2; i++) if (which >> (i - 1) & 1) pthread_join(th[i], nullptr);
}
}  // namespace sched
