// The controlled scheduler of C27: a replacement for the thread sanitizer's run time.
// The code under test is compiled with -fsanitize=thread, which calls a hook at every
// memory access and atomic operation; this file implements the hooks.  Exactly one
// thread runs at a time; at schedule points (accesses to bytes known to be shared,
// atomics, locks, one-time initialisation, explicit yields) the next thread is taken
// from the given schedule.  Vector clocks detect data races.
// This file is NOT instrumented and must not use anything that is.
#include "c27_rt.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <pthread.h>
#include <malloc.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
extern "C" { extern char __data_start, _end; }
extern "C" { void *__libc_malloc(size_t); void __libc_free(void*); void *__libc_realloc(void*, size_t); void *__libc_memalign(size_t, size_t); void *__libc_calloc(size_t, size_t); }
extern "C" { void *__real_memcpy(void*, const void*, size_t); void *__real_memmove(void*, const void*, size_t); void *__real_memset(void*, int, size_t);
  int __real_memcmp(const void*, const void*, size_t); size_t __real_strlen(const char*); int __real_strncmp(const char*, const char*, size_t); int __real_strcmp(const char*, const char*); void *__real_memchr(const void*, int, size_t);
  char *__real_strncpy(char*, const char*, size_t); char *__real_strcpy(char*, const char*); int __real_vsnprintf(char*, size_t, const char*, va_list); }

namespace rt {
namespace {
typedef uintptr_t uptr;
__thread int t_id = -1;         // which controlled thread; -1: none
__thread int t_in = 0;          // inside the run time
bool g_on = false;              // scheduler active
Shm *g_out = nullptr;
int g_n = 0; Fn g_fn; void *g_arg;
uint8_t const* g_prefix; size_t g_nprefix; size_t g_ndec;
volatile int g_go[MAXT];
enum St { READY, BLOCKED, DONE };
int g_st[MAXT]; uptr g_wait[MAXT];
size_t g_consec;
char *g_stack[MAXT]; enum { STACK = 512 * 1024 };
uint32_t g_vc[MAXT][MAXT];

// ---- hash tables in anonymous memory
struct Sh { uptr a; uint32_t wclk; uint32_t rclk[MAXT]; uint8_t wt, wmask, rmask, used; };
enum { SHN = 1 << 18 };
Sh *g_sh; size_t g_nsh; uint32_t *g_shlist;
uptr *g_confset; enum { CFN = 1 << 14 };
struct Sync { uptr a; uint32_t vc[MAXT]; int owner; int count; bool used; };
enum { SYN = 1 << 12 };
Sync *g_sync;

size_t hsh(uptr a) { a *= 0x9E3779B97F4A7C15ull; return (size_t)(a >> 40); }
Sh *shadow(uptr a, bool create)
{
    for(size_t i = (hsh(a >> 6) * 64 + (a & 63)) & (SHN - 1);; i = (i + 1) & (SHN - 1))
    {
        if(g_sh[i].used && g_sh[i].a == a) return &g_sh[i];
        if(!g_sh[i].used)
        {
            if(!create || g_nsh > SHN / 2) { if(create) g_out->truncated |= 2; return nullptr; }
            g_shlist[g_nsh++] = (uint32_t)i; g_sh[i].used = 1; g_sh[i].a = a; g_sh[i].wt = 255; return &g_sh[i];
        }
    }
}
bool in_conf(uptr a)
{
    for(size_t i = hsh(a) & (CFN - 1);; i = (i + 1) & (CFN - 1)) { if(g_confset[i] == a) return true; if(!g_confset[i]) return false; }
}
void add_conf(uptr a)
{
    for(size_t i = hsh(a) & (CFN - 1);; i = (i + 1) & (CFN - 1)) { if(g_confset[i] == a) return; if(!g_confset[i]) { g_confset[i] = a; return; } }
}
Sync *sync_of(uptr a)
{
    for(size_t i = hsh(a) & (SYN - 1);; i = (i + 1) & (SYN - 1))
    {
        if(g_sync[i].used && g_sync[i].a == a) return &g_sync[i];
        if(!g_sync[i].used) { g_sync[i].used = true; g_sync[i].a = a; g_sync[i].owner = -1; return &g_sync[i]; }
    }
}
void join(uint32_t *d, uint32_t const* s) { for(int i = 0; i < MAXT; ++i) if(s[i] > d[i]) d[i] = s[i]; }
void acquire(Sync *s) { join(g_vc[t_id], s->vc); }
void release(Sync *s) { join(s->vc, g_vc[t_id]); ++g_vc[t_id][t_id]; }

void fwait(volatile int *p) { while(!__atomic_load_n(p, __ATOMIC_ACQUIRE)) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(p, 0, __ATOMIC_RELEASE); }
void fwake(volatile int *p) { __atomic_store_n(p, 1, __ATOMIC_RELEASE); syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

/// choose who runs next; returns its number
int choose(int cur)
{
    int mask = 0, cnt = 0, low = -1;
    for(int i = 0; i < g_n; ++i) if(g_st[i] == READY) { mask |= 1 << i; ++cnt; if(low < 0) low = i; }
    if(cnt == 0) return -1;
    if(cnt == 1) return low;
    bool curen = cur >= 0 && (mask & (1 << cur));
    int ch = curen ? cur : low;
    if(g_ndec < g_nprefix) { ch = g_prefix[g_ndec]; if(!(mask & (1 << ch))) { rt::fail("internal: the schedule does not fit"); } }
    else if(curen && g_consec > 3000) { for(int i = 1; i < g_n; ++i) if(mask & (1 << ((cur + i) % g_n))) { ch = (cur + i) % g_n; break; } } // fairness against spinning
    if(g_ndec < MAXDEC) { g_out->dec[g_ndec].cur = (uint8_t)(cur < 0 ? 255 : cur); g_out->dec[g_ndec].curen = curen; g_out->dec[g_ndec].mask = (uint8_t)mask; g_out->dec[g_ndec].chosen = (uint8_t)ch; g_out->ndec = (uint32_t)(g_ndec + 1); }
    else g_out->truncated |= 1;
    ++g_ndec;
    if(g_ndec > 2000000) rt::fail("no progress: the threads do not finish (livelock)");
    return ch;
}
/// a schedule point of the running thread
void point()
{
    int me = t_id, nx = choose(me);
    if(nx < 0) rt::fail("deadlock: every thread waits");
    if(nx == me) { ++g_consec; return; }
    g_consec = 0;
    fwake(&g_go[nx]);
    fwait(&g_go[me]);
}
void block(uptr on)
{
    g_st[t_id] = BLOCKED; g_wait[t_id] = on;
    point();   // comes back when it is READY again and chosen
}
void unblock(uptr on) { for(int i = 0; i < g_n; ++i) if(g_st[i] == BLOCKED && g_wait[i] == on) { g_st[i] = READY; } }

bool own_stack(uptr a) { return a >= (uptr)g_stack[t_id] && a < (uptr)g_stack[t_id] + STACK; }

void where(uptr a, char *b, size_t n)
{
    if(a >= (uptr)&__data_start && a < (uptr)&_end) snprintf(b, n, "static storage");
    else { for(int i = 0; i < g_n; ++i) if(a >= (uptr)g_stack[i] && a < (uptr)g_stack[i] + STACK) { snprintf(b, n, "the stack of thread %d", i); return; } snprintf(b, n, "shared dynamic memory"); }
}
void access1(uptr a, bool w)
{
    Sh *s = shadow(a, true);
    if(!s) return;
    int me = t_id;
    // races
    const char *race = nullptr;
    if(s->wt != 255 && s->wt != me && s->wclk > g_vc[me][s->wt]) race = w ? "two unordered writes" : "a write and an unordered read";
    if(w) for(int i = 0; i < g_n; ++i) if(i != me && s->rclk[i] > g_vc[me][i]) race = "a read and an unordered write";
    if(race)
    {
        char wh[64], b[256]; where(a, wh, sizeof wh);
        snprintf(b, sizeof b, "data race (%s) between the threads on %s", race, wh);
        rt::fail(b);
    }
    if(w) { s->wt = (uint8_t)me; s->wclk = g_vc[me][me]; s->wmask |= (uint8_t)(1 << me); }
    else { s->rclk[me] = g_vc[me][me]; s->rmask |= (uint8_t)(1 << me); }
}
void access(void const* p, size_t n, bool w)
{
    if(!g_on || t_id < 0 || t_in) return;
    uptr a = (uptr)p;
    ++g_out->accesses;
    if(own_stack(a)) return;
    ++t_in;
    for(size_t i = 0; i < n; ++i) if(in_conf(a + i)) { ++g_out->shared_accesses; point(); break; }
    for(size_t i = 0; i < n; ++i) access1(a + i, w);
    --t_in;
}
void forget(void *p, size_t n)
{
    if(!p || !g_on || t_id < 0) return;
    for(size_t i = 0; i < n; ++i)
    {
        Sh *s = shadow((uptr)p + i, false);
        if(s) { s->wt = 255; s->wclk = 0; s->wmask = s->rmask = 0; for(int k = 0; k < MAXT; ++k) s->rclk[k] = 0; }
    }
}
void *body(void *arg)
{
    int me = (int)(intptr_t)arg;
    fwait(&g_go[me]);
    t_id = me;
    g_fn(me, g_arg);
    ++t_in;
    g_st[me] = DONE;
    int nx = choose(me);
    bool all = true; for(int i = 0; i < g_n; ++i) if(g_st[i] != DONE) all = false;
    if(nx < 0 && !all) rt::fail("deadlock: the other threads wait forever");
    g_consec = 0;
    if(nx >= 0) fwake(&g_go[nx]);
    return nullptr;
}
} // namespace

void result(int tid, char const* s, size_t n)
{
    ++t_in;
    if(n > RESLEN) { fail("internal: the result is too long"); }
    __real_memcpy(g_out->res[tid], s, n); g_out->reslen[tid] = (uint32_t)n;
    --t_in;
}
void yield() { if(!g_on || t_id < 0) return; ++t_in; point(); --t_in; }
void fail(char const* msg)
{
    g_on = false;
    if(g_out && !g_out->violation[0]) { size_t n = __real_strlen(msg); if(n > sizeof(g_out->violation) - 1) n = sizeof(g_out->violation) - 1; __real_memcpy(g_out->violation, msg, n); g_out->violation[n] = 0; }
    _exit(3);
}
void run(int n, Fn fn, void *arg, uint8_t const* prefix, size_t nprefix, uintptr_t const* conf, size_t nconf, Shm *out, bool statics)
{
    g_out = out; g_n = n; g_fn = fn; g_arg = arg; g_prefix = prefix; g_nprefix = nprefix; g_ndec = 0; g_consec = 0;
    auto anon = [](size_t b) { void *p = mmap(nullptr, b, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(p == MAP_FAILED) fail("internal: mmap"); return p; };
    g_sh = (Sh*)anon(SHN * sizeof(Sh)); g_shlist = (uint32_t*)anon((SHN / 2 + 2) * sizeof(uint32_t)); g_confset = (uptr*)anon(CFN * sizeof(uptr)); g_sync = (Sync*)anon(SYN * sizeof(Sync));
    for(size_t i = 0; i < nconf && i < CFN / 2; ++i) add_conf(conf[i]);
    pthread_t th[MAXT]; pthread_attr_t at;
    for(int i = 0; i < n; ++i)
    {
        g_stack[i] = (char*)anon(STACK);
        for(int k = 0; k < MAXT; ++k) g_vc[i][k] = 0;
        g_vc[i][i] = 1; g_st[i] = READY; g_go[i] = 0;
    }
    for(int i = 0; i < n; ++i)
    {
        pthread_attr_init(&at); pthread_attr_setstack(&at, g_stack[i], STACK);
        if(pthread_create(&th[i], &at, body, (void*)(intptr_t)i)) fail("internal: pthread_create");
    }
    char *snap = nullptr; size_t sn = (size_t)(&_end - &__data_start);
    if(statics) { snap = (char*)anon(sn); }
    g_on = true;
    if(statics) __real_memcpy(snap, &__data_start, sn);
    int first = choose(-1);
    fwake(&g_go[first]);
    for(int i = 0; i < n; ++i) pthread_join(th[i], nullptr);
    g_on = false;
    if(statics)
    {
        auto mine = [](char *p) { // the run time's own variables
            auto in = [&](void const* q, size_t k) { return p >= (char*)q && p < (char*)q + k; };
            return in(&g_on, sizeof g_on) || in(&g_ndec, sizeof g_ndec) || in((void*)g_go, sizeof g_go) || in(g_st, sizeof g_st) || in(g_wait, sizeof g_wait) || in(&g_consec, sizeof g_consec) || in(g_vc, sizeof g_vc) || in(&g_nsh, sizeof g_nsh); };
        for(size_t i = 0; i < sn && out->nstat < MAXCONF; ++i) if(snap[i] != (&__data_start)[i] && !mine(&__data_start + i)) out->stat[out->nstat++] = (uptr)(&__data_start + i);
    }
    for(size_t i = 0; i < g_nsh && out->nconf < MAXCONF; ++i)
    {
        Sh &s = g_sh[g_shlist[i]];
        uint8_t all = s.wmask | s.rmask;
        if(s.wmask && (all & (all - 1))) out->conf[out->nconf++] = s.a;
    }
    out->done = 1;
}
namespace { // hooks' helpers
inline void sync_point(void const* a, bool acq, bool rel)
{
    if(!g_on || t_id < 0 || t_in) return;
    ++t_in; ++g_out->syncs;
    point();
    Sync *s = sync_of((uptr)a);
    if(acq) acquire(s);
    if(rel) release(s);
    --t_in;
}
}
} // namespace rt
using namespace rt;

// ------------------------------------------------------------------ compiler hooks
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void *p) { rt::access(p, n, false); } void __tsan_write##n(void *p) { rt::access(p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { rt::access(p, n, false); } void __tsan_unaligned_write##n(void *p) { rt::access(p, n, true); } \
  void __tsan_read_write##n(void *p) { rt::access(p, n, false); rt::access(p, n, true); } void __tsan_unaligned_read_write##n(void *p) { rt::access(p, n, false); rt::access(p, n, true); } \
  void __tsan_volatile_read##n(void *p) { rt::access(p, n, false); } void __tsan_volatile_write##n(void *p) { rt::access(p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void *p) { rt::access(p, n, false); } void __tsan_unaligned_volatile_write##n(void *p) { rt::access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read1_pc(void *p, void*) { rt::access(p, 1, false); }
void __tsan_write1_pc(void *p, void*) { rt::access(p, 1, true); }
void __tsan_vptr_update(void **p, void *) { rt::access(p, 8, true); }
void __tsan_vptr_read(void **p) { rt::access(p, 8, false); }
void __tsan_read_range(void *p, unsigned long n) { rt::access(p, n, false); }
void __tsan_write_range(void *p, unsigned long n) { rt::access(p, n, true); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { rt::access(s, n, false); rt::access(d, n, true); return __real_memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { rt::access(s, n, false); rt::access(d, n, true); return __real_memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { rt::access(d, n, true); return __real_memset(d, c, n); }
// library functions called from instrumented code (linked with --wrap)
void *__wrap_memcpy(void *d, const void *s, size_t n) { return __tsan_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { return __tsan_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { return __tsan_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { rt::access(a, n, false); rt::access(b, n, false); return __real_memcmp(a, b, n); }
size_t __wrap_strlen(const char *s) { size_t n = __real_strlen(s); rt::access(s, n + 1, false); return __real_strlen(s); }
int __wrap_strncmp(const char *a, const char *b, size_t n) { rt::access(a, n ? 1 : 0, false); rt::access(b, n ? 1 : 0, false); return __real_strncmp(a, b, n); }
int __wrap_strcmp(const char *a, const char *b) { rt::access(a, __real_strlen(a) + 1, false); rt::access(b, __real_strlen(b) + 1, false); return __real_strcmp(a, b); }
void *__wrap_memchr(const void *a, int c, size_t n) { rt::access(a, n, false); return __real_memchr(a, c, n); }
char *__wrap_strncpy(char *d, const char *s, size_t n) { rt::access(d, n, true); return __real_strncpy(d, s, n); }
char *__wrap_strcpy(char *d, const char *s) { size_t n = __real_strlen(s) + 1; rt::access(s, n, false); rt::access(d, n, true); return __real_strcpy(d, s); }
int __wrap_vsnprintf(char *d, size_t n, const char *f, va_list ap)
{
    va_list c; va_copy(c, ap); char t[1]; int k = __real_vsnprintf(t, 0, f, c); va_end(c);
    size_t w = k < 0 ? 0 : (size_t)k + 1; if(w > n) w = n;
    if(w) rt::access(d, w, true);
    return __real_vsnprintf(d, n, f, ap);
}
int __wrap_snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = __wrap_vsnprintf(d, n, f, ap); va_end(ap); return r; }

// ---- atomics: a schedule point each; the memory order decides what they synchronise
#define MO_ACQ(m) ((m) == 1 || (m) == 2 || (m) >= 4)
#define MO_REL(m) ((m) >= 3)
#define SP(m, acq, rel) rt::sync_point((void const*)a, (acq) && MO_ACQ(m), (rel) && MO_REL(m))
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *a, int m) { SP(m, true, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int m) { SP(m, false, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int m) { SP(m, true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int m) { SP(m, true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int m) { SP(m, true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int m) { SP(m, true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int m) { SP(m, true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int m) { SP(m, true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int m) { SP(m, true, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int) { SP(m, true, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int) { SP(m, true, true); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int m, int) { SP(m, true, true); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
// fences: over-approximated as synchronising with each other (misses races, never invents one)
static char g_fence;
void __tsan_atomic_thread_fence(int m) { if(m) rt::sync_point(&g_fence, true, true); }
void __tsan_atomic_signal_fence(int) {}

// ---- one-time initialisation of function-local statics
int __cxa_guard_acquire(uint64_t *g)
{
    if(*(volatile char*)g) { if(g_on && t_id >= 0 && !t_in) { ++t_in; acquire(sync_of((uintptr_t)g)); --t_in; } return 0; }
    if(!g_on || t_id < 0) { return 1; }
    ++t_in; ++g_out->syncs;
    point();
    for(;;)
    {
        Sync *s = sync_of((uintptr_t)g);
        if(*(volatile char*)g) { acquire(s); --t_in; return 0; }
        if(s->owner < 0) { s->owner = t_id; acquire(s); --t_in; return 1; }
        if(s->owner == t_id) rt::fail("deadlock: recursive initialisation of a static");
        block((uintptr_t)g);
    }
}
void __cxa_guard_release(uint64_t *g)
{
    if(!g_on || t_id < 0) { *(char*)g = 1; return; }
    ++t_in;
    Sync *s = sync_of((uintptr_t)g);
    *(char*)g = 1; s->owner = -1; release(s); unblock((uintptr_t)g);
    point();
    --t_in;
}
void __cxa_guard_abort(uint64_t *g)
{
    if(!g_on || t_id < 0) return;
    ++t_in; Sync *s = sync_of((uintptr_t)g); s->owner = -1; release(s); unblock((uintptr_t)g); --t_in;
}
// ---- locks
int pthread_mutex_lock(pthread_mutex_t *m)
{
    if(!g_on || t_id < 0 || t_in) return 0;
    ++t_in; ++g_out->syncs; point();
    for(;;)
    {
        Sync *s = sync_of((uintptr_t)m);
        if(s->owner < 0 || s->owner == t_id) { if(s->owner == t_id && m->__data.__kind != PTHREAD_MUTEX_RECURSIVE) rt::fail("deadlock: a mutex is locked twice"); s->owner = t_id; ++s->count; acquire(s); --t_in; return 0; }
        block((uintptr_t)m);
    }
}
int pthread_mutex_trylock(pthread_mutex_t *m)
{
    if(!g_on || t_id < 0 || t_in) return 0;
    ++t_in; ++g_out->syncs; point();
    Sync *s = sync_of((uintptr_t)m); int r = 16 /*EBUSY*/;
    if(s->owner < 0) { s->owner = t_id; ++s->count; acquire(s); r = 0; }
    --t_in; return r;
}
int pthread_mutex_unlock(pthread_mutex_t *m)
{
    if(!g_on || t_id < 0 || t_in) return 0;
    ++t_in;
    Sync *s = sync_of((uintptr_t)m);
    if(--s->count <= 0) { s->count = 0; s->owner = -1; release(s); unblock((uintptr_t)m); point(); }
    --t_in; return 0;
}
int pthread_once(pthread_once_t *o, void (*fn)(void))
{
    uint64_t *g = nullptr; static uint64_t flags[64]; static pthread_once_t *who[64]; static int n = 0;
    for(int i = 0; i < n; ++i) if(who[i] == o) g = &flags[i];
    if(!g) { who[n] = o; g = &flags[n++]; }
    if(__cxa_guard_acquire(g)) { fn(); __cxa_guard_release(g); }
    return 0;
}
// ---- memory: a block that is freed has no history for its next owner
void free(void *p) { if(p && g_on && t_id >= 0) { rt::forget(p, malloc_usable_size(p)); } __libc_free(p); }
void *malloc(size_t n) { void *p = __libc_malloc(n); return p; }
void *calloc(size_t n, size_t m) { return __libc_calloc(n, m); }
void *realloc(void *p, size_t n) { if(p && g_on && t_id >= 0) rt::forget(p, malloc_usable_size(p)); return __libc_realloc(p, n); }
int posix_memalign(void **out, size_t al, size_t n) { if(al % sizeof(void*) || (al & (al - 1))) return 22; void *p = __libc_memalign(al, n); if(!p) return 12; *out = p; return 0; }
void *aligned_alloc(size_t al, size_t n) { return __libc_memalign(al, n); }
void *memalign(size_t al, size_t n) { return __libc_memalign(al, n); }
}
