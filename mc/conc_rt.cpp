// Stateless model checker for real pthreads code. See DESIGN.md, "Concurrency explorer".
//
// The code under test and the harness are compiled with -fsanitize=thread, but instead of the TSan runtime this
// file supplies the instrumentation hooks, and interposes the pthread, clock, sleep, heap, stdio and socket calls.
// Exactly one thread runs at a time; at every scheduling point the explorer decides which one continues.
// This file must not be instrumented and must not use the C++ containers (it sits below malloc).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "conc.h"
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <malloc.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <new>

#define EXPORT extern "C" __attribute__((visibility("default")))
#define RETPC ((uintptr_t)__builtin_return_address(0))

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

// ---------------------------------------------------------------- shared structures
enum { MAXT = 14, MAX_TRACE = 60000, MAX_DEV = 120, MAX_RACY = 2048, MAX_ITEMS = 300000, MSG = 1500 };
static const uint64_t STEP_CAP = 40000;

struct TracePoint { uint8_t n, chosen, kind, cost; };       // kind 0 schedule, 1 environment; cost of any non-default answer
struct Dev { uint32_t pos; uint8_t choice, n; };
struct Item { uint32_t n; Dev d[MAX_DEV]; };

struct ExecResult                                           // one per worker, written by the child that runs an execution
{
    uint32_t ntrace; uint32_t status;                       // status: 0 running, 1 ok, 2 failed, 3 internal error
    uint64_t steps, switches, nthreads;
    uint64_t outcome; int has_outcome;
    char msg[MSG];
    TracePoint trace[MAX_TRACE];
};

enum { OUTCOME_SLOTS = 1 << 18 };
struct Shared
{
    volatile int lock;
    volatile int stop;                                      // a worker found a failure, or the deadline passed
    volatile int deadline_hit;
    volatile int overflow;                                  // an item did not fit: exploration incomplete
    volatile int busy, pruned;
    volatile uint32_t nitems;
    volatile uint32_t nracy;
    uintptr_t racy[MAX_RACY];
    volatile uint64_t executions, points, steps, max_points, max_threads;
    volatile uint64_t noutcomes;
    volatile uint64_t outcomes[OUTCOME_SLOTS];
    volatile int failed;
    Item fail_item; char fail_msg[MSG]; int fail_signal;
    Item items[MAX_ITEMS];
};
static Shared* S;
static ExecResult* R;                                       // this worker's result area
static uint32_t g_racy_used;                                // racy pcs that are scheduling points in this phase
static int g_pb, g_eb; static unsigned g_env;
static bool g_verbose;

static void spin_lock(volatile int* l) { while (__atomic_exchange_n(l, 1, __ATOMIC_ACQUIRE)) sched_yield(); }
static void spin_unlock(volatile int* l) { __atomic_store_n(l, 0, __ATOMIC_RELEASE); }

// racy pc lookup: small open-addressing table rebuilt per phase
enum { RT = 8192 };
static uintptr_t g_racy_tab[RT];
static inline bool is_racy(uintptr_t pc)
{
    if (!g_racy_used) return false;
    for (uint32_t i = (pc * 0x9E3779B97F4A7C15ull) >> 51; ; i = (i + 1) & (RT - 1))
    {
        if (g_racy_tab[i] == pc) return true;
        if (!g_racy_tab[i]) return false;
    }
}
static void racy_build()
{
    memset(g_racy_tab, 0, sizeof g_racy_tab);
    g_racy_used = S->nracy;
    for (uint32_t k = 0; k < g_racy_used; k++)
    {
        uint32_t i = (S->racy[k] * 0x9E3779B97F4A7C15ull) >> 51;
        while (g_racy_tab[i]) i = (i + 1) & (RT - 1);
        g_racy_tab[i] = S->racy[k];
    }
}
static void racy_add(uintptr_t pc)
{
    if (is_racy(pc)) return;
    spin_lock(&S->lock);
    uint32_t k;
    for (k = 0; k < S->nracy; k++) if (S->racy[k] == pc) break;
    if (k == S->nracy && S->nracy < MAX_RACY) { S->racy[S->nracy] = pc; S->nracy++; }
    spin_unlock(&S->lock);
}

// ---------------------------------------------------------------- per-execution state
typedef uint32_t Clk;
struct VC { Clk c[MAXT]; };
static inline void vc_join(VC* a, const VC* b) { for (int i = 0; i < MAXT; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }

enum Op { OP_NONE, OP_RUN, OP_LOCK, OP_COND, OP_JOIN, OP_SLEEP, OP_IDLE, OP_GUARD, OP_RECV, OP_ACCEPT, OP_SIMACCEPT, OP_RWRD, OP_RWWR, OP_SEM, OP_FORCED, OP_POLL };
struct Thr
{
    int state;                       // 0 unused, 1 live, 2 finished
    Op op; uintptr_t obj; uintptr_t obj2; const char* what;
    bool timed, timedout, signalled; uint64_t cond_seq;
    pthread_t real; bool detached, joined; VC vc;
    int futex;
    void* (*fn)(void*); void* arg; void* ret;
    int key_rounds;
    uint64_t consecutive; uint64_t accesses;
};
static Thr T[MAXT];
static int NT;
static int g_cur = -1;
static bool g_active;                // an execution is under control
static __thread int t_id = -1;
static __thread int t_in_rt;         // inside the runtime: hooks are inert
static uint64_t g_clock = 1000000000ull;
static const Item* g_item; static uint32_t g_item_pos;
static uint32_t g_ntrace;
static int g_cost_pb, g_cost_eb;
static uint64_t g_steps;
static uint64_t g_seq;

struct RtGuard { RtGuard() { t_in_rt++; } ~RtGuard() { t_in_rt--; } };
static inline bool controlled() { return g_active && t_id >= 0 && t_in_rt == 0; }

static void vmsg(char* out, size_t n, const char* fmt, va_list ap) { vsnprintf(out, n, fmt, ap); }
static void thread_dump(char* out, size_t n)
{
    size_t k = strlen(out);
    for (int i = 0; i < NT && k + 80 < n; i++)
        if (T[i].state == 1)
            k += snprintf(out + k, n - k, " [t%d %s]", i, T[i].what ? T[i].what : "?");
}
[[noreturn]] static void finish_exec(int status)
{
    R->ntrace = g_ntrace; R->steps = g_steps; R->nthreads = NT;
    __atomic_store_n(&R->status, status, __ATOMIC_SEQ_CST);
    _exit(status == 1 ? 0 : 10 + status);
}
[[noreturn]] static void rt_fail(int status, const char* fmt, ...)
{
    t_in_rt++;
    va_list ap; va_start(ap, fmt);
    vmsg(R->msg, MSG, fmt, ap);
    va_end(ap);
    finish_exec(status);
}
void mc_fail(const char* fmt, ...)
{
    t_in_rt++;
    va_list ap; va_start(ap, fmt);
    vmsg(R->msg, MSG, fmt, ap);
    va_end(ap);
    if (!g_active) { fprintf(stderr, "mc_fail outside execution: %s\n", R->msg); _exit(99); }
    finish_exec(2);
}

// ---------------------------------------------------------------- sync object tables
struct Mtx { uintptr_t addr; int owner; int count; int recursive; int destroyed; int readers; VC vc; };
struct Cnd { uintptr_t addr; VC vc; };
struct Grd { uintptr_t addr; int state; VC vc; };            // guards, onces, atomics clocks
enum { NMTX = 512, NATOM = 4096 };
static Mtx g_mtx[NMTX]; static int g_nmtx;
static Grd g_grd[NMTX]; static int g_ngrd;
static Grd g_atom[NATOM]; static int g_natom;
static int16_t g_atom_idx[16384];

static Mtx* mtx_get(uintptr_t a)
{
    for (int i = 0; i < g_nmtx; i++) if (g_mtx[i].addr == a) return &g_mtx[i];
    Mtx* m = 0;
    for (int i = 0; i < g_nmtx; i++) if (g_mtx[i].addr == 0) { m = &g_mtx[i]; break; }
    if (!m) { if (g_nmtx == NMTX) rt_fail(3, "too many mutexes"); m = &g_mtx[g_nmtx++]; }
    memset(m, 0, sizeof *m); m->addr = a; m->owner = -1;
    return m;
}
static Grd* grd_get(uintptr_t a)
{
    for (int i = 0; i < g_ngrd; i++) if (g_grd[i].addr == a) return &g_grd[i];
    if (g_ngrd == NMTX) rt_fail(3, "too many guards");
    Grd* g = &g_grd[g_ngrd++]; memset(g, 0, sizeof *g); g->addr = a; return g;
}
static Grd* atom_get(uintptr_t a)
{
    uint32_t h = (a * 0x9E3779B97F4A7C15ull) >> 50;
    for (;; h = (h + 1) & 16383)
    {
        int16_t i = g_atom_idx[h];
        if (i == 0) break;
        if (g_atom[i].addr == a) return &g_atom[i];
    }
    if (g_natom + 1 >= NATOM) rt_fail(3, "too many atomics");
    g_natom++; g_atom_idx[h] = g_natom;
    Grd* g = &g_atom[g_natom]; memset(g, 0, sizeof *g); g->addr = a; return g;
}

// ---------------------------------------------------------------- scheduling
static void futex_wait(int* f) { while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT, 0, 0, 0, 0); __atomic_store_n(f, 0, __ATOMIC_RELAXED); }
static void futex_wake(int* f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE, 1, 0, 0, 0); }

static int sock_ready(int op, uintptr_t obj);
static int poll_ready(uintptr_t obj, uintptr_t n);

// 0 blocked, 1 enabled, 2 enabled but only by letting time pass or spuriously (low priority)
static int enabled1(int i)
{
    Thr* t = &T[i];
    if (t->state != 1) return 0;
    switch (t->op)
    {
    case OP_RUN: case OP_FORCED: return 1;
    case OP_LOCK: { Mtx* m = mtx_get(t->obj); return (m->owner == -1 && m->readers == 0) || (m->recursive && m->owner == i); }
    case OP_RWRD: { Mtx* m = mtx_get(t->obj); return m->owner == -1; }
    case OP_RWWR: { Mtx* m = mtx_get(t->obj); return m->owner == -1 && m->readers == 0; }
    case OP_COND:
        if (mtx_get(t->obj2)->owner != -1) return 0;
        return t->signalled ? 1 : (t->timed || (g_env & MC_ENV_SPURIOUS)) ? 2 : 0;
    case OP_JOIN: return T[t->obj].state == 2;
    case OP_SLEEP: return 2;
    case OP_GUARD: return grd_get(t->obj)->state != 1;
    case OP_RECV: case OP_ACCEPT: case OP_SIMACCEPT: return sock_ready(t->op, t->obj);
    case OP_POLL: { int r = poll_ready(t->obj, t->obj2); return r ? 1 : t->timed ? 2 : 0; }
    case OP_SEM: return atom_get(t->obj)->state > 0;
    default: return 0;
    }
}
static int enabled(int i)
{
    if (T[i].op != OP_IDLE || T[i].state != 1) return enabled1(i);
    for (int k = 0; k < NT; k++) if (k != i && T[k].op != OP_IDLE && enabled1(k) == 1) return 0;
    return 1;
}

static int record(int n, int kind, int cost)
{
    // returns the choice; n > 1
    int c = 0;
    if (g_item_pos < g_item->n && g_item->d[g_item_pos].pos == g_ntrace)
    {
        const Dev* d = &g_item->d[g_item_pos++];
        if (d->n != n || d->choice >= n) rt_fail(3, "divergence at point %u: %d options, expected %d", g_ntrace, n, d->n);
        c = d->choice;
    }
    else if (g_item_pos < g_item->n && g_item->d[g_item_pos].pos < g_ntrace) rt_fail(3, "divergence: missed point");
    if (g_ntrace >= MAX_TRACE) rt_fail(3, "trace too long");
    TracePoint* p = &R->trace[g_ntrace++];
    p->n = n; p->chosen = c; p->kind = kind; p->cost = cost;
    return c;
}

static uint32_t g_atomic_mask; static bool g_calm;
void mc_atomic_threads(unsigned mask) { g_atomic_mask = mask; }
void mc_calm(bool on) { g_calm = on; }
static struct { int skip, count, fired; } g_refuse[MC_REFUSE_KINDS];
void mc_refuse(int kind, int skip, int count) { g_refuse[kind] = {skip, count, 0}; }
int mc_refused(int kind) { return g_refuse[kind].fired; }
static bool refuse(int kind, int err) { auto& r = g_refuse[kind]; if (!r.count) return false; if (r.skip) { r.skip--; return false; } r.count--; r.fired++; errno = err; return true; }
static int pick_next(int self)
{
    int cand[MAXT]; int n = 0; int low[MAXT]; int nl = 0;
    bool self_live = T[self].state == 1;
    int se = self_live ? enabled(self) : 0;
    bool forced = self_live && (T[self].op == OP_FORCED || T[self].consecutive > 1500);
    if (se == 1 && !forced && (g_atomic_mask >> self & 1)) return self;
    if (se == 1 && !forced) cand[n++] = self;
    for (int k = 1; k <= NT; k++)
    {
        int i = (self + k) % NT;        // round robin order: fair for forced switches
        if (i == self) continue;
        int e = enabled(i);
        if (e == 1) cand[n++] = i;
        else if (e == 2) low[nl++] = i;
    }
    if (se == 1 && forced) { cand[n++] = self; }
    if (se == 2) low[nl++] = self;
    if (n == 0 && nl == 0)
    {
        char buf[MSG]; snprintf(buf, sizeof buf, "deadlock: no thread can continue:"); thread_dump(buf, sizeof buf);
        rt_fail(2, "%s", buf);
    }
    int pri = n;
    if (n == 0)
    {   // only time can pass: sleepers / timed waiters, all free
        for (int i = 0; i < nl; i++) cand[n++] = low[i];
        pri = n;
        nl = 0;
    }
    for (int i = 0; i < nl; i++) cand[n++] = low[i];
    int c = 0;
    if (n > 1 && !g_calm)
    {
        int cost = (se == 1 && !forced) ? 1 : 0;
        // non-default answers cost a preemption if the current thread could have continued, or if they let a
        // sleeper overtake a thread that can run; encoded per point as (cost, index from which every answer costs)
        c = record(n, pri < n ? 2 + pri : 0, cost);
        if (c > 0 && (cost || c >= pri)) g_cost_pb++;
    }
    return cand[c];
}

static void switch_to(int self, int next, bool dying)
{
    if (next == self) { if (T[self].op == OP_FORCED || ++T[self].consecutive > 1501) T[self].consecutive = 0; return; }
    T[self].consecutive = 0;
    T[next].consecutive = 0;
    g_cur = next;
    futex_wake(&T[next].futex);
    if (!dying) { futex_wait(&T[self].futex); }
}

// The calling thread announces its next operation; returns when it has been chosen and the operation is enabled.
static void sched_point(Op op, uintptr_t obj, uintptr_t obj2, const char* what)
{
    Thr* t = &T[t_id];
    t->op = op; t->obj = obj; t->obj2 = obj2; t->what = what;
    t->accesses = 0;
    if (++g_steps > STEP_CAP)
    {
        char buf[MSG]; snprintf(buf, sizeof buf, "livelock: no end after %llu steps:", (unsigned long long)g_steps); thread_dump(buf, sizeof buf);
        rt_fail(2, "%s", buf);
    }
    int next = pick_next(t_id);
    if (g_verbose) fprintf(stderr, "  step %llu: t%d at %s -> t%d\n", (unsigned long long)g_steps, t_id, what, next);
    switch_to(t_id, next, false);
    t->op = OP_RUN; t->what = "running";
}

int mc_tid() { return t_id; }
McQuiet::McQuiet() { t_in_rt++; }
McQuiet::~McQuiet() { t_in_rt--; }
uint64_t mc_steps() { return g_steps; }
void mc_point() { if (!controlled()) return; RtGuard g; sched_point(OP_RUN, 0, 0, "point"); }
void mc_wait_idle() { if (!controlled()) return; RtGuard g; sched_point(OP_IDLE, 0, 0, "idle"); }
int mc_live_threads() { int n = 0; for (int i = 0; i < NT; i++) n += T[i].state == 1; return n; }
static int env_choose(int n, int cost)
{
    if (n <= 1) return 0;
    if (cost && g_eb == 0) return 0;
    int c = record(n, 1, cost);
    if (c) g_cost_eb += cost;
    return c;
}
int mc_choose(int n) { RtGuard g; return env_choose(n, 1); }
int mc_choose_free(int n) { RtGuard g; return env_choose(n, 0); }

static uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const unsigned char* b = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h ? h : 1;
}
void mc_outcome(const void* d, size_t n) { R->outcome = fnv(d, n, R->has_outcome ? R->outcome : 1469598103934665603ull); R->has_outcome = 1; }

// ---------------------------------------------------------------- log
enum { LOG_BYTES = 1 << 20, LOG_N = 8192 };
static unsigned char* g_logbuf; static size_t g_logused;
struct LogE { int tid, kind; uint64_t step; size_t off, size; };
static LogE* g_loge; static size_t g_nlog;
void mc_log(int kind, const void* d, size_t n)
{
    if (g_nlog == LOG_N || g_logused + n > LOG_BYTES) rt_fail(3, "log full");
    memcpy(g_logbuf + g_logused, d, n);
    g_loge[g_nlog++] = LogE{t_id, kind, g_steps, g_logused, n};
    g_logused += n;
}
size_t mc_log_count() { return g_nlog; }
McLogEntry mc_log_get(size_t i) { LogE* e = &g_loge[i]; return McLogEntry{e->tid, e->kind, e->step, g_logbuf + e->off, e->size}; }

// ---------------------------------------------------------------- heap
enum { ARENA = 96 << 20, RZ = 32 };
static char* g_arena; static size_t g_arena_pos; static unsigned char* g_shadow;   // one byte per 8 bytes, ASan encoding
struct Blk { uint64_t magic; uint64_t size; uint64_t owned; uint64_t align_pad; };
static const uint64_t LIVE = 0x4c49564542304221ull, FREED = 0x4652454544424c4bull;
static size_t g_live;
static inline bool in_arena(uintptr_t a) { return g_arena && a - (uintptr_t)g_arena < (uintptr_t)ARENA; }
extern "C" char __executable_start, etext;
static inline bool exe_pc(uintptr_t pc) { return pc >= (uintptr_t)&__executable_start && pc < (uintptr_t)&etext; }
static void heap_check(uintptr_t a, size_t n, bool write, uintptr_t pc)
{
    if (!in_arena(a) || n == 0) return;
    size_t off = a - (uintptr_t)g_arena;
    if (off + n > g_arena_pos) rt_fail(2, "invalid heap access: %s of %zu bytes at pc %p (out of bounds)", write ? "write" : "read", n, (void*)pc);
    for (size_t k = off; k < off + n; )
    {
        unsigned char s = g_shadow[k >> 3];
        size_t end = ((k >> 3) << 3) + 8; if (end > off + n) end = off + n;
        if (s && (s >= 8 || ((end - 1) & 7) >= s))
            rt_fail(2, "invalid heap access: %s of %zu bytes at pc %p (%s)", write ? "write" : "read", n, (void*)pc,
                    s == 0xFD ? "freed memory" : "out of bounds");
        k = end;
    }
}
static void access_range(uintptr_t a, size_t n, bool write, uintptr_t pc, bool point);
static void* arena_alloc(size_t n, size_t align, uintptr_t pc)
{
    if (n > (32u << 20)) { errno = ENOMEM; return 0; }
    size_t p = (g_arena_pos + sizeof(Blk) + align - 1) / align * align;
    size_t end = (p + n + 7) / 8 * 8;
    if (end + RZ > ARENA) rt_fail(3, "arena exhausted");
    Blk* b = (Blk*)(g_arena + p - sizeof(Blk));
    b->magic = LIVE; b->size = n; b->owned = exe_pc(pc);
    g_live += b->owned;
    memset(g_shadow + (g_arena_pos >> 3), 0xFA, (end + RZ - g_arena_pos + 7) >> 3);
    memset(g_shadow + (p >> 3), 0, n >> 3);
    if (n & 7) g_shadow[(p + n) >> 3] = n & 7;
    g_arena_pos = end + RZ;
    return g_arena + p;
}
static void arena_free(void* q, uintptr_t pc)
{
    Blk* b = (Blk*)((char*)q - sizeof(Blk));
    if (((uintptr_t)q & 7) || (uintptr_t)b < (uintptr_t)g_arena || (b->magic != LIVE && b->magic != FREED)) rt_fail(2, "free of an invalid pointer at pc %p", (void*)pc);
    if (b->magic == FREED) rt_fail(2, "double free at pc %p", (void*)pc);
    size_t off = (char*)q - g_arena;
    for (int i = 0; i < g_nmtx; i++)
    {
        Mtx* m = &g_mtx[i];
        if (m->addr >= (uintptr_t)q && m->addr < (uintptr_t)q + b->size)
        {
            if (m->owner != -1) rt_fail(2, "memory of a locked mutex freed at pc %p", (void*)pc);
            m->addr = 0;
        }
    }
    for (int i = 0; i < NT; i++)
        if (T[i].state == 1 && T[i].op == OP_COND && T[i].obj >= (uintptr_t)q && T[i].obj < (uintptr_t)q + b->size && !T[i].signalled)
            rt_fail(2, "memory of a condition variable with waiters freed at pc %p", (void*)pc);
    b->magic = FREED;
    g_live -= b->owned;
    memset(g_shadow + (off >> 3), 0xFD, (b->size + 7) >> 3);
    memset(q, 0xDD, b->size);
}
size_t mc_heap_live() { return g_live; }

EXPORT void* malloc(size_t n)
{
    if (!g_active || t_id < 0) return __libc_malloc(n);
    void* p = arena_alloc(n, 16, RETPC);
    if (p) memset(p, 0xCD, n);
    return p;
}
static void rt_free(void* p, uintptr_t pc)
{
    if (!p) return;
    if (!in_arena((uintptr_t)p)) { if (!g_active) __libc_free(p); return; }   // before the execution: leave it
    if (controlled())
    {
        RtGuard g;
        Blk* b = (Blk*)((char*)p - sizeof(Blk));
        if (b->magic == LIVE) access_range((uintptr_t)p, b->size, true, pc, true);
        arena_free(p, pc);
    }
    else if (t_id >= 0) arena_free(p, pc);
}
EXPORT void free(void* p) { rt_free(p, RETPC); }
EXPORT void* calloc(size_t a, size_t b)
{
    if (!g_active || t_id < 0) return __libc_calloc(a, b);
    void* p = arena_alloc(a * b, 16, RETPC);
    if (p) memset(p, 0, a * b);
    return p;
}
EXPORT void* realloc(void* p, size_t n)
{
    uintptr_t pc = RETPC;
    if (!in_arena((uintptr_t)p) && (!g_active || t_id < 0)) return __libc_realloc(p, n);
    if (p && !in_arena((uintptr_t)p))
    {
        size_t o = malloc_usable_size(p);
        void* q = arena_alloc(n, 16, pc);
        if (q) memcpy(q, p, o < n ? o : n);
        return q;
    }
    if (n == 0 && p) { rt_free(p, pc); return 0; }
    void* q = arena_alloc(n, 16, pc);
    if (!q) return 0;
    memset(q, 0xCD, n);
    if (p)
    {
        Blk* b = (Blk*)((char*)p - sizeof(Blk));
        if (b->magic == LIVE) memcpy(q, p, b->size < n ? b->size : n);
        rt_free(p, pc);
    }
    return q;
}
EXPORT int posix_memalign(void** out, size_t al, size_t n)
{
    if (!g_active || t_id < 0) { *out = __libc_memalign(al, n); return *out ? 0 : ENOMEM; }
    *out = arena_alloc(n, al, RETPC); return *out ? 0 : ENOMEM;
}
EXPORT void* aligned_alloc(size_t al, size_t n)
{
    if (!g_active || t_id < 0) return __libc_memalign(al, n);
    return arena_alloc(n, al, RETPC);
}
EXPORT void* memalign(size_t al, size_t n) { return aligned_alloc(al, n); }
static void* cxx_new(size_t n, uintptr_t pc)
{
    if (!g_active || t_id < 0) return __libc_malloc(n);
    void* p = arena_alloc(n, 16, pc);
    if (p) memset(p, 0xCD, n);
    return p;
}
void* operator new(size_t n) { void* p = cxx_new(n, RETPC); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = cxx_new(n, RETPC); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return cxx_new(n, RETPC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return cxx_new(n, RETPC); }
void operator delete(void* p) noexcept { rt_free(p, RETPC); }
void operator delete[](void* p) noexcept { rt_free(p, RETPC); }
void operator delete(void* p, size_t) noexcept { rt_free(p, RETPC); }
void operator delete[](void* p, size_t) noexcept { rt_free(p, RETPC); }

// ---------------------------------------------------------------- memory accesses: happens-before races
struct Acc { Clk clk; uint32_t mask; uintptr_t pc; };
struct Gran { uintptr_t addr; uint32_t next; Acc w[MAXT]; Acc r[MAXT]; };
enum { NGRAN = 60000, GH = 1 << 17 };
static Gran* g_gran; static uint32_t g_ngran; static uint32_t* g_gidx;

static Gran* gran_get(uintptr_t a)
{
    uint32_t h = ((a >> 3) * 0x9E3779B97F4A7C15ull) >> 47;
    for (uint32_t i = g_gidx[h]; i; i = g_gran[i].next) if (g_gran[i].addr == a) return &g_gran[i];
    if (g_ngran + 1 >= NGRAN) return 0;
    uint32_t i = ++g_ngran;
    g_gran[i].addr = a; g_gran[i].next = g_gidx[h]; g_gidx[h] = i;
    return &g_gran[i];
}
static void race_check(uintptr_t a, size_t n, bool write, bool atomic, uintptr_t pc)
{
    Thr* t = &T[t_id];
    for (uintptr_t g = a & ~7ull; g < a + n; g += 8)
    {
        Gran* G = gran_get(g);
        if (!G) return;
        uintptr_t lo = a > g ? a - g : 0, hi = a + n < g + 8 ? a + n - g : 8;
        uint32_t mask = ((1u << hi) - 1) & ~((1u << lo) - 1);
        for (int u = 0; u < NT; u++)
        {
            if (u == t_id) continue;
            Acc* w = &G->w[u];
            if (w->clk > t->vc.c[u] && (w->mask & mask) && !(atomic && (w->mask & 0x100)))
            {
                if (g_verbose && (!is_racy(pc) || !is_racy(w->pc))) fprintf(stderr, "  race: t%d %s pc %p vs t%d write pc %p\n", t_id, write ? "write" : "read", (void*)pc, u, (void*)w->pc);
                if (!atomic) racy_add(pc);
                if (!(w->mask & 0x100)) racy_add(w->pc);
            }
            if (!write) continue;
            Acc* r = &G->r[u];
            if (r->clk > t->vc.c[u] && (r->mask & mask) && !(atomic && (r->mask & 0x100)))
            {
                if (g_verbose && (!is_racy(pc) || !is_racy(r->pc))) fprintf(stderr, "  race: t%d write pc %p vs t%d read pc %p\n", t_id, (void*)pc, u, (void*)r->pc);
                if (!atomic) racy_add(pc);
                if (!(r->mask & 0x100)) racy_add(r->pc);
            }
        }
        Acc* me = write ? &G->w[t_id] : &G->r[t_id];
        if (me->clk == t->vc.c[t_id] && me->pc == pc) me->mask |= mask | (atomic ? 0x100 : 0);
        else { me->clk = t->vc.c[t_id]; me->mask = mask | (atomic ? 0x100 : 0); me->pc = pc; }
    }
}
static void access_range(uintptr_t a, size_t n, bool write, uintptr_t pc, bool)
{
    if (n == 0) return;
    if (a < 4096) rt_fail(2, "null pointer access at pc %p", (void*)pc);
    if (is_racy(pc)) sched_point(OP_RUN, 0, 0, "access");
    else if (++T[t_id].accesses > 200000) sched_point(OP_FORCED, 0, 0, "spinning");
    heap_check(a, n, write, pc);
    race_check(a, n, write, false, pc);
}
static inline void on_access(void* p, size_t n, bool write, uintptr_t pc)
{
    if (!controlled()) return;
    RtGuard g;
    access_range((uintptr_t)p, n, write, pc, true);
}
#define RW(N) \
    EXPORT void __tsan_read##N(void* p) { on_access(p, N, false, RETPC); } \
    EXPORT void __tsan_write##N(void* p) { on_access(p, N, true, RETPC); } \
    EXPORT void __tsan_unaligned_read##N(void* p) { on_access(p, N, false, RETPC); } \
    EXPORT void __tsan_unaligned_write##N(void* p) { on_access(p, N, true, RETPC); } \
    EXPORT void __tsan_read_write##N(void* p) { on_access(p, N, false, RETPC); on_access(p, N, true, RETPC); } \
    EXPORT void __tsan_unaligned_read_write##N(void* p) { on_access(p, N, false, RETPC); on_access(p, N, true, RETPC); } \
    EXPORT void __tsan_volatile_read##N(void* p) { on_access(p, N, false, RETPC); } \
    EXPORT void __tsan_volatile_write##N(void* p) { on_access(p, N, true, RETPC); } \
    EXPORT void __tsan_unaligned_volatile_read##N(void* p) { on_access(p, N, false, RETPC); } \
    EXPORT void __tsan_unaligned_volatile_write##N(void* p) { on_access(p, N, true, RETPC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void* p, size_t n) { on_access(p, n, false, RETPC); }
EXPORT void __tsan_write_range(void* p, size_t n) { on_access(p, n, true, RETPC); }
EXPORT void __tsan_vptr_update(void** p, void*) { on_access(p, 8, true, RETPC); }
EXPORT void __tsan_vptr_read(void** p) { on_access(p, 8, false, RETPC); }
EXPORT void __tsan_func_entry(void*) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_init() {}
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}
EXPORT void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    uintptr_t pc = RETPC;
    on_access((void*)s, n, false, pc); on_access(d, n, true, pc + 1); return memcpy(d, s, n);
}
EXPORT void* __tsan_memmove(void* d, const void* s, size_t n)
{
    uintptr_t pc = RETPC;
    on_access((void*)s, n, false, pc); on_access(d, n, true, pc + 1); return memmove(d, s, n);
}
EXPORT void* __tsan_memset(void* d, int c, size_t n) { on_access(d, n, true, RETPC); return memset(d, c, n); }

// libc string functions called from the code under test
static size_t raw_strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
EXPORT __attribute__((no_builtin)) size_t strlen(const char* s)
{
    size_t n = 0; while (((const volatile char*)s)[n]) n++;
    if (controlled()) on_access((void*)s, n + 1, false, RETPC);
    return n;
}
EXPORT __attribute__((no_builtin)) char* strcpy(char* d, const char* s)
{
    size_t n = raw_strlen(s) + 1; uintptr_t pc = RETPC;
    on_access((void*)s, n, false, pc); on_access(d, n, true, pc + 1);
    for (size_t i = 0; i < n; i++) ((volatile char*)d)[i] = s[i];
    return d;
}

// atomics: sequentially consistent, each one a scheduling point and a synchronisation
static void atomic_pre(void* p, size_t n, bool write, uintptr_t pc)
{
    sched_point(OP_RUN, 0, 0, "atomic");
    if ((uintptr_t)p < 4096) rt_fail(2, "null pointer access at pc %p", (void*)pc);
    heap_check((uintptr_t)p, n, write, pc);
    race_check((uintptr_t)p, n, write, true, pc);
    Grd* g = atom_get((uintptr_t)p);
    Thr* t = &T[t_id];
    vc_join(&t->vc, &g->vc);
    if (write) { vc_join(&g->vc, &t->vc); t->vc.c[t_id]++; }
}
#define AT(N, TY) \
    EXPORT TY __tsan_atomic##N##_load(const volatile TY* a, int) { if (controlled()) { RtGuard g; atomic_pre((void*)a, sizeof(TY), false, RETPC); } return *a; } \
    EXPORT void __tsan_atomic##N##_store(volatile TY* a, TY v, int) { if (controlled()) { RtGuard g; atomic_pre((void*)a, sizeof(TY), true, RETPC); } *a = v; } \
    EXPORT TY __tsan_atomic##N##_exchange(volatile TY* a, TY v, int) { if (controlled()) { RtGuard g; atomic_pre((void*)a, sizeof(TY), true, RETPC); } TY o = *a; *a = v; return o; } \
    EXPORT TY __tsan_atomic##N##_fetch_add(volatile TY* a, TY v, int) { if (controlled()) { RtGuard g; atomic_pre((void*)a, sizeof(TY), true, RETPC); } TY o = *a; *a = o + v; return o; } \
    EXPORT TY __tsan_atomic##N##_fetch_sub(volatile TY* a, TY v, int) { if (controlled()) { RtGuard g; atomic_pre((void*)a, sizeof(TY), true, RETPC); } TY o = *a; *a = o - v; return o; } \
    EXPORT TY __tsan_atomic##N##_fetch_and(volatile TY* a, TY v, int) { if (controlled()) { RtGuard g; atomic_pre((void*)a, sizeof(TY), true, RETPC); } TY o = *a; *a = o & v; return o; } \
    EXPORT TY __tsan_atomic##N##_fetch_or(volatile TY* a, TY v, int) { if (controlled()) { RtGuard g; atomic_pre((void*)a, sizeof(TY), true, RETPC); } TY o = *a; *a = o | v; return o; } \
    EXPORT TY __tsan_atomic##N##_fetch_xor(volatile TY* a, TY v, int) { if (controlled()) { RtGuard g; atomic_pre((void*)a, sizeof(TY), true, RETPC); } TY o = *a; *a = o ^ v; return o; } \
    EXPORT TY __tsan_atomic##N##_fetch_nand(volatile TY* a, TY v, int) { if (controlled()) { RtGuard g; atomic_pre((void*)a, sizeof(TY), true, RETPC); } TY o = *a; *a = ~(o & v); return o; } \
    EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile TY* a, TY* c, TY v, int, int) { if (controlled()) { RtGuard g; atomic_pre((void*)a, sizeof(TY), true, RETPC); } TY o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile TY* a, TY* c, TY v, int, int) { if (controlled()) { RtGuard g; atomic_pre((void*)a, sizeof(TY), true, RETPC); } TY o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    EXPORT TY __tsan_atomic##N##_compare_exchange_val(volatile TY* a, TY c, TY v, int, int) { if (controlled()) { RtGuard g; atomic_pre((void*)a, sizeof(TY), true, RETPC); } TY o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) {}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- pthread interposition
#define REAL(ret, name, args) static ret (*real_##name) args
REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*));
REAL(int, pthread_join, (pthread_t, void**));
REAL(int, pthread_detach, (pthread_t));
REAL(int, pthread_mutex_lock, (pthread_mutex_t*));
REAL(int, pthread_mutex_trylock, (pthread_mutex_t*));
REAL(int, pthread_mutex_unlock, (pthread_mutex_t*));
REAL(int, pthread_mutex_init, (pthread_mutex_t*, const pthread_mutexattr_t*));
REAL(int, pthread_mutex_destroy, (pthread_mutex_t*));
REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*));
REAL(int, pthread_cond_signal, (pthread_cond_t*));
REAL(int, pthread_cond_broadcast, (pthread_cond_t*));
REAL(int, pthread_once, (pthread_once_t*, void (*)()));
REAL(int, clock_gettime, (clockid_t, struct timespec*));
REAL(int, nanosleep, (const struct timespec*, struct timespec*));
REAL(FILE*, fopen, (const char*, const char*));
REAL(size_t, fwrite, (const void*, size_t, size_t, FILE*));
REAL(int, fflush, (FILE*));
REAL(int, fclose, (FILE*));
REAL(int, fputc, (int, FILE*));
REAL(int, ferror, (FILE*));
REAL(int, feof, (FILE*));
REAL(int, fileno, (FILE*));
REAL(int, setvbuf, (FILE*, char*, int, size_t));
REAL(int, socket, (int, int, int));
REAL(int, setsockopt, (int, int, int, const void*, socklen_t));
REAL(int, bind, (int, const struct sockaddr*, socklen_t));
REAL(int, listen, (int, int));
REAL(int, accept, (int, struct sockaddr*, socklen_t*));
REAL(int, connect, (int, const struct sockaddr*, socklen_t));
REAL(ssize_t, send, (int, const void*, size_t, int));
REAL(ssize_t, recv, (int, void*, size_t, int));
REAL(ssize_t, read, (int, void*, size_t));
REAL(ssize_t, write, (int, const void*, size_t));
REAL(int, shutdown, (int, int));
REAL(int, close, (int));
REAL(int, poll, (struct pollfd*, nfds_t, int));
#define LOAD(name) real_##name = (decltype(real_##name))dlsym(RTLD_NEXT, #name)
__attribute__((constructor(101))) static void load_real()
{
    if (real_pthread_create) return;
    LOAD(pthread_create); LOAD(pthread_join); LOAD(pthread_detach); LOAD(pthread_mutex_lock); LOAD(pthread_mutex_trylock);
    LOAD(pthread_mutex_unlock); LOAD(pthread_mutex_init); LOAD(pthread_mutex_destroy); LOAD(pthread_cond_wait);
    LOAD(pthread_cond_signal); LOAD(pthread_cond_broadcast); LOAD(pthread_once); LOAD(clock_gettime); LOAD(nanosleep);
    LOAD(fopen); LOAD(fwrite); LOAD(fflush); LOAD(fclose); LOAD(fputc); LOAD(ferror); LOAD(feof); LOAD(fileno); LOAD(setvbuf);
    LOAD(socket); LOAD(setsockopt); LOAD(bind); LOAD(listen); LOAD(accept); LOAD(connect); LOAD(send); LOAD(recv);
    LOAD(read); LOAD(write); LOAD(shutdown); LOAD(close); LOAD(poll);
}
#define NEED(name) do { if (!real_##name) load_real(); } while (0)

static pthread_key_t g_key;
static void key_dtor(void* v)
{
    int id = (int)(intptr_t)v - 1;
    if (!g_active) return;
    if (++T[id].key_rounds < 3) { pthread_setspecific(g_key, v); return; }   // let the other keys' destructors run first
    // finished
    t_in_rt++;
    Thr* t = &T[id];
    t->state = 2; t->op = OP_NONE; t->what = "finished";
    for (int i = 0; i < g_nmtx; i++) if (g_mtx[i].addr && g_mtx[i].owner == id) rt_fail(2, "thread ended while holding a mutex");
    ++g_steps;
    int next = pick_next(id);
    switch_to(id, next, true);
}
static void* thread_main(void* v)
{
    int id = (int)(intptr_t)v;
    t_id = id; t_in_rt = 1;
    pthread_setspecific(g_key, (void*)(intptr_t)(id + 1));
    futex_wait(&T[id].futex);
    T[id].op = OP_RUN; T[id].what = "running";
    t_in_rt = 0;
    T[id].ret = T[id].fn(T[id].arg);
    return T[id].ret;
}
EXPORT int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    NEED(pthread_create);
    if (!controlled()) return real_pthread_create(out, attr, fn, arg);
    RtGuard g;
    if (refuse(MC_REFUSE_THREAD, EAGAIN)) return EAGAIN;
    if (NT == MAXT) rt_fail(3, "too many threads");
    int id = NT++;
    Thr* t = &T[id];
    memset(t, 0, sizeof *t);
    t->state = 1; t->op = OP_RUN; t->what = "start"; t->fn = fn; t->arg = arg;
    t->vc = T[t_id].vc; t->vc.c[id] = 1; T[t_id].vc.c[t_id]++;
    int r = real_pthread_create(&t->real, attr, thread_main, (void*)(intptr_t)id);
    if (r) rt_fail(3, "pthread_create failed");
    *out = t->real;
    sched_point(OP_RUN, 0, 0, "create");
    return 0;
}
static int thr_of(pthread_t p) { for (int i = NT - 1; i >= 0; i--) if (T[i].state && !T[i].joined && pthread_equal(T[i].real, p)) return i; return -1; }
EXPORT int pthread_join(pthread_t th, void** ret)
{
    NEED(pthread_join);
    if (!controlled()) return real_pthread_join(th, ret);
    RtGuard g;
    int i = thr_of(th);
    if (i < 0 || T[i].detached) rt_fail(2, "join of a thread that is not joinable");
    if (i == t_id) return EDEADLK;
    sched_point(OP_JOIN, i, 0, "join");
    if (T[i].joined) rt_fail(2, "thread joined twice");
    T[i].joined = true;
    vc_join(&T[t_id].vc, &T[i].vc);
    return real_pthread_join(th, ret);
}
EXPORT int pthread_detach(pthread_t th)
{
    NEED(pthread_detach);
    if (controlled()) { int i = thr_of(th); if (i >= 0) T[i].detached = true; }
    return real_pthread_detach(th);
}
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    NEED(pthread_mutex_init);
    if (controlled())
    {
        RtGuard g;
        heap_check((uintptr_t)m, sizeof *m, true, RETPC);
        Mtx* x = mtx_get((uintptr_t)m); memset(x, 0, sizeof *x); x->addr = (uintptr_t)m; x->owner = -1;
        int ty = 0; if (a && pthread_mutexattr_gettype(a, &ty) == 0) x->recursive = ty == PTHREAD_MUTEX_RECURSIVE;
        memset(m, 0, sizeof *m);
        return 0;
    }
    return real_pthread_mutex_init(m, a);
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m)
{
    NEED(pthread_mutex_destroy);
    if (controlled())
    {
        RtGuard g;
        Mtx* x = mtx_get((uintptr_t)m);
        if (x->owner != -1) rt_fail(2, "a locked mutex is destroyed");
        x->destroyed = 1;
        return 0;
    }
    return real_pthread_mutex_destroy(m);
}
static Mtx* mtx_use(void* m, uintptr_t pc)
{
    if ((uintptr_t)m < 4096) rt_fail(2, "null mutex used at pc %p", (void*)pc);
    heap_check((uintptr_t)m, sizeof(pthread_mutex_t), true, pc);
    Mtx* x = mtx_get((uintptr_t)m);
    if (x->destroyed) rt_fail(2, "destroyed mutex used at pc %p", (void*)pc);
    return x;
}
static void mtx_acquired(Mtx* x) { x->owner = t_id; x->count++; vc_join(&T[t_id].vc, &x->vc); }
EXPORT int pthread_mutex_lock(pthread_mutex_t* m)
{
    NEED(pthread_mutex_lock);
    if (!controlled()) { if (g_active && t_id >= 0) return 0; return real_pthread_mutex_lock(m); }
    RtGuard g;
    mtx_use(m, RETPC);
    sched_point(OP_LOCK, (uintptr_t)m, 0, "lock");
    mtx_acquired(mtx_use(m, RETPC));
    return 0;
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m)
{
    NEED(pthread_mutex_trylock);
    if (!controlled()) return real_pthread_mutex_trylock(m);
    RtGuard g;
    sched_point(OP_RUN, 0, 0, "trylock");
    Mtx* x = mtx_use(m, RETPC);
    if (x->owner != -1 && !(x->recursive && x->owner == t_id)) return EBUSY;
    mtx_acquired(x);
    return 0;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
static void mtx_release(Mtx* x) { if (--x->count == 0) { x->owner = -1; x->vc = T[t_id].vc; T[t_id].vc.c[t_id]++; } }
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m)
{
    NEED(pthread_mutex_unlock);
    if (!controlled()) { if (g_active && t_id >= 0) return 0; return real_pthread_mutex_unlock(m); }
    RtGuard g;
    Mtx* x = mtx_use(m, RETPC);
    if (x->owner != t_id) rt_fail(2, "mutex unlocked by a thread that does not hold it, pc %p", (void*)RETPC);
    mtx_release(x);
    return 0;
}
// rwlocks share the mutex table
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!controlled()) return 0;
    RtGuard g; sched_point(OP_RWRD, (uintptr_t)m, 0, "rdlock"); Mtx* x = mtx_use(m, RETPC); x->readers++; vc_join(&T[t_id].vc, &x->vc); return 0;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!controlled()) return 0;
    RtGuard g; sched_point(OP_RWWR, (uintptr_t)m, 0, "wrlock"); mtx_acquired(mtx_use(m, RETPC)); return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!controlled()) return 0;
    RtGuard g; Mtx* x = mtx_use(m, RETPC);
    if (x->owner == t_id) mtx_release(x);
    else { if (x->readers <= 0) rt_fail(2, "rwlock not held"); x->readers--; vc_join(&x->vc, &T[t_id].vc); T[t_id].vc.c[t_id]++; }
    return 0;
}
static int cond_wait_impl(void* c, pthread_mutex_t* m, bool timed, uintptr_t pc)
{
    RtGuard g;
    sched_point(OP_RUN, 0, 0, "cond_wait");
    heap_check((uintptr_t)c, sizeof(pthread_cond_t), true, pc);
    Mtx* x = mtx_use(m, pc);
    if (x->owner != t_id) rt_fail(2, "condition wait without holding the mutex");
    Thr* t = &T[t_id];
    t->timed = timed; t->signalled = false; t->cond_seq = ++g_seq;
    mtx_release(x);
    sched_point(OP_COND, (uintptr_t)c, (uintptr_t)m, timed ? "timed wait" : "wait");
    bool sig = t->signalled;
    t->signalled = false;
    mtx_acquired(mtx_use(m, pc));
    if (timed && !sig) { g_clock += 1000000000ull; return ETIMEDOUT; }
    return 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    NEED(pthread_cond_wait);
    if (!controlled()) return real_pthread_cond_wait(c, m);
    return cond_wait_impl(c, m, false, RETPC);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return controlled() ? cond_wait_impl(c, m, true, RETPC) : 0; }
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return controlled() ? cond_wait_impl(c, m, true, RETPC) : 0; }
static int cond_wake(void* c, bool all, uintptr_t pc)
{
    RtGuard g;
    sched_point(OP_RUN, 0, 0, all ? "broadcast" : "signal");
    if ((uintptr_t)c < 4096) rt_fail(2, "null condition variable");
    heap_check((uintptr_t)c, sizeof(pthread_cond_t), true, pc);
    int w[MAXT], n = 0;
    for (int i = 0; i < NT; i++) if (T[i].state == 1 && T[i].op == OP_COND && T[i].obj == (uintptr_t)c && !T[i].signalled) w[n++] = i;
    for (int i = 0; i < n; i++) for (int k = i + 1; k < n; k++) if (T[w[k]].cond_seq < T[w[i]].cond_seq) { int x = w[i]; w[i] = w[k]; w[k] = x; }
    if (n == 0) return 0;
    if (all) for (int i = 0; i < n; i++) { T[w[i]].signalled = true; vc_join(&T[w[i]].vc, &T[t_id].vc); }
    else { int k = (g_env & MC_ENV_COND_ORDER) ? env_choose(n, 0) : 0; T[w[k]].signalled = true; vc_join(&T[w[k]].vc, &T[t_id].vc); }
    T[t_id].vc.c[t_id]++;
    return 0;
}
EXPORT int pthread_cond_signal(pthread_cond_t* c) { NEED(pthread_cond_signal); return controlled() ? cond_wake(c, false, RETPC) : real_pthread_cond_signal(c); }
EXPORT int pthread_cond_broadcast(pthread_cond_t* c) { NEED(pthread_cond_broadcast); return controlled() ? cond_wake(c, true, RETPC) : real_pthread_cond_broadcast(c); }
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t* c)
{
    if (controlled())
    {
        for (int i = 0; i < NT; i++) if (T[i].state == 1 && T[i].op == OP_COND && T[i].obj == (uintptr_t)c && !T[i].signalled) rt_fail(2, "condition variable destroyed while a thread waits on it");
    }
    return 0;
}
EXPORT int sem_init(sem_t* s, int, unsigned v) { if (controlled()) { RtGuard g; atom_get((uintptr_t)s)->state = v; } return 0; }
EXPORT int sem_wait(sem_t* s) { if (controlled()) { RtGuard g; sched_point(OP_SEM, (uintptr_t)s, 0, "sem_wait"); Grd* a = atom_get((uintptr_t)s); a->state--; vc_join(&T[t_id].vc, &a->vc); } return 0; }
EXPORT int sem_post(sem_t* s) { if (controlled()) { RtGuard g; sched_point(OP_RUN, 0, 0, "sem_post"); Grd* a = atom_get((uintptr_t)s); a->state++; vc_join(&a->vc, &T[t_id].vc); T[t_id].vc.c[t_id]++; } return 0; }

EXPORT int __cxa_guard_acquire(uint64_t* gv)
{
    if (!controlled()) { if (*(char*)gv) return 0; return 1; }
    RtGuard g;
    sched_point(OP_GUARD, (uintptr_t)gv, 0, "static init");
    Grd* x = grd_get((uintptr_t)gv);
    vc_join(&T[t_id].vc, &x->vc);
    if (x->state == 2 || *(char*)gv) return 0;
    x->state = 1;
    return 1;
}
EXPORT void __cxa_guard_release(uint64_t* gv)
{
    *(char*)gv = 1;
    if (!controlled()) return;
    Grd* x = grd_get((uintptr_t)gv); x->state = 2; vc_join(&x->vc, &T[t_id].vc);
    vc_join(&atom_get((uintptr_t)gv)->vc, &T[t_id].vc);
    T[t_id].vc.c[t_id]++;
}
EXPORT void __cxa_guard_abort(uint64_t* gv) { if (controlled()) grd_get((uintptr_t)gv)->state = 0; }
EXPORT int pthread_once(pthread_once_t* o, void (*fn)())
{
    NEED(pthread_once);
    if (!controlled()) return real_pthread_once(o, fn);
    t_in_rt++;
    sched_point(OP_GUARD, (uintptr_t)o, 0, "once");
    Grd* x = grd_get((uintptr_t)o);
    vc_join(&T[t_id].vc, &x->vc);
    if (x->state == 2) { t_in_rt--; return 0; }
    x->state = 1;
    t_in_rt--;
    fn();
    x = grd_get((uintptr_t)o);
    x->state = 2; vc_join(&x->vc, &T[t_id].vc); T[t_id].vc.c[t_id]++;
    return 0;
}
EXPORT int sched_yield() { if (controlled()) { RtGuard g; sched_point(OP_FORCED, 0, 0, "yield"); } else syscall(SYS_sched_yield); return 0; }
static int do_sleep(uint64_t ns) { RtGuard g; sched_point(OP_SLEEP, 0, 0, "sleep"); g_clock += ns; return 0; }
EXPORT int nanosleep(const struct timespec* a, struct timespec* b) { NEED(nanosleep); return controlled() ? do_sleep(a->tv_sec * 1000000000ull + a->tv_nsec) : real_nanosleep(a, b); }
EXPORT int clock_nanosleep(clockid_t, int, const struct timespec* a, struct timespec* b) { NEED(nanosleep); return controlled() ? do_sleep(1000000) : real_nanosleep(a, b); }
EXPORT int usleep(useconds_t u) { if (controlled()) return do_sleep(u * 1000ull); struct timespec t = {u / 1000000, (long)(u % 1000000) * 1000}; return nanosleep(&t, 0); }
EXPORT unsigned sleep(unsigned s) { if (controlled()) { do_sleep(s * 1000000000ull); return 0; } struct timespec t = {s, 0}; nanosleep(&t, 0); return 0; }
EXPORT int clock_gettime(clockid_t c, struct timespec* t)
{
    NEED(clock_gettime);
    if (!g_active || t_id < 0) return real_clock_gettime(c, t);
    g_clock += 1000; t->tv_sec = g_clock / 1000000000ull; t->tv_nsec = g_clock % 1000000000ull; return 0;
}
// std::chrono clocks live in libstdc++ and may reach clock_gettime by syscall
EXPORT int64_t mc_steady_now() __asm__("_ZNSt6chrono3_V212steady_clock3nowEv");
EXPORT int64_t mc_steady_now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
EXPORT int64_t mc_system_now() __asm__("_ZNSt6chrono3_V212system_clock3nowEv");
EXPORT int64_t mc_system_now() { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }

// ---------------------------------------------------------------- simulated files
enum { NF = 16, FCAP = 1 << 18, FBUF = 4096 };
struct SimFile { char path[128]; bool open; unsigned char* data; size_t n; unsigned char* buf; size_t nb; FILE* h; };
static SimFile g_file[NF]; static int g_nfile;
static unsigned char* g_fpool;
static char g_fhandle[NF];
static SimFile* simfile(FILE* f)
{
    if ((char*)f >= g_fhandle && (char*)f < g_fhandle + NF) return &g_file[(char*)f - g_fhandle];
    return 0;
}
EXPORT FILE* fopen(const char* p, const char* mode)
{
    NEED(fopen);
    if (!controlled() || strncmp(p, "/mcsim/", 7)) return real_fopen(p, mode);
    RtGuard g;
    if (mode[0] != 'w') { errno = ENOENT; return 0; }
    if (g_nfile == NF) rt_fail(3, "too many files");
    SimFile* f = &g_file[g_nfile];
    snprintf(f->path, sizeof f->path, "%s", p);
    f->open = true; f->n = f->nb = 0;
    f->data = g_fpool + (size_t)g_nfile * (FCAP + FBUF); f->buf = f->data + FCAP;
    return (FILE*)&g_fhandle[g_nfile++];
}
EXPORT FILE* fopen64(const char* p, const char* mode) { return fopen(p, mode); }
static void sf_flush(SimFile* f) { if (f->n + f->nb > FCAP) rt_fail(3, "file too large"); memcpy(f->data + f->n, f->buf, f->nb); f->n += f->nb; f->nb = 0; }
static void sf_use(SimFile* f, const char* what) { if (!f->open) rt_fail(2, "%s on a closed file", what); }
EXPORT size_t fwrite(const void* d, size_t s, size_t n, FILE* h)
{
    NEED(fwrite);
    SimFile* f = simfile(h);
    if (!f) { if (controlled() && (uintptr_t)h < 4096) rt_fail(2, "fwrite to a null file"); return real_fwrite(d, s, n, h); }
    RtGuard g;
    if (t_in_rt == 1 && g_active) sched_point(OP_RUN, 0, 0, "fwrite");
    sf_use(f, "write");
    heap_check((uintptr_t)d, s * n, false, RETPC);
    size_t k = s * n;
    if (f->nb + k > FBUF) sf_flush(f);
    if (k > FBUF) { if (f->n + k > FCAP) rt_fail(3, "file too large"); memcpy(f->data + f->n, d, k); f->n += k; }
    else { memcpy(f->buf + f->nb, d, k); f->nb += k; }
    return n;
}
EXPORT int fputc(int c, FILE* h) { NEED(fputc); if (!simfile(h)) return real_fputc(c, h); unsigned char b = c; return fwrite(&b, 1, 1, h) == 1 ? c : EOF; }
EXPORT int fflush(FILE* h)
{
    NEED(fflush);
    SimFile* f = simfile(h);
    if (!f) { if (!h && controlled()) for (int i = 0; i < g_nfile; i++) if (g_file[i].open) sf_flush(&g_file[i]); return real_fflush(h); }
    RtGuard g; if (t_in_rt == 1 && g_active) sched_point(OP_RUN, 0, 0, "fflush");
    sf_use(f, "flush"); sf_flush(f); return 0;
}
EXPORT int fclose(FILE* h)
{
    NEED(fclose);
    SimFile* f = simfile(h);
    if (!f) { if (controlled() && (uintptr_t)h < 4096) rt_fail(2, "fclose of a null file"); return real_fclose(h); }
    RtGuard g; if (t_in_rt == 1 && g_active) sched_point(OP_RUN, 0, 0, "fclose");
    sf_use(f, "close"); sf_flush(f); f->open = false; return 0;
}
EXPORT int ferror(FILE* h) { NEED(ferror); return simfile(h) ? 0 : real_ferror(h); }
EXPORT int feof(FILE* h) { NEED(feof); return simfile(h) ? 0 : real_feof(h); }
EXPORT int fileno(FILE* h) { NEED(fileno); return simfile(h) ? 900 : real_fileno(h); }
EXPORT int setvbuf(FILE* h, char* b, int m, size_t n) { NEED(setvbuf); return simfile(h) ? 0 : real_setvbuf(h, b, m, n); }
const unsigned char* mc_file_data(const char* path, size_t* n)
{
    for (int i = g_nfile - 1; i >= 0; i--) if (!strcmp(g_file[i].path, path)) { *n = g_file[i].n; return g_file[i].data; }
    *n = 0; return 0;
}
bool mc_file_open(const char* path)
{
    for (int i = g_nfile - 1; i >= 0; i--) if (!strcmp(g_file[i].path, path)) return g_file[i].open;
    return false;
}

// ---------------------------------------------------------------- simulated sockets
enum { NSOCK = 48, SCAP = 1 << 16, FD0 = 1000, NQ = 16 };
struct Sock
{
    int kind;                    // 0 free, 1 new, 2 listening, 3 connected endpoint
    bool harness;                // held by the harness, not by the code under test
    bool closed, rd_shut, wr_shut, fin_rx, fin_sent, rst, peer_gone_once;
    int port, peer; int q[NQ], nq; int blocked;
    unsigned char* rx; size_t n, pos; VC vc;
};
static Sock g_sock[NSOCK]; static int g_nsock; static unsigned char* g_spool;
static Sock* sk_new(int kind, bool harness)
{
    if (g_nsock == NSOCK) rt_fail(3, "too many sockets");
    Sock* s = &g_sock[g_nsock];
    s->kind = kind; s->harness = harness; s->peer = -1; s->rx = g_spool + (size_t)g_nsock * SCAP;
    g_nsock++;
    return s;
}
static int sk_id(Sock* s) { return (int)(s - g_sock); }
static Sock* sk_fd(int fd, const char* what)
{
    if (fd < FD0 || fd >= FD0 + g_nsock) return 0;
    Sock* s = &g_sock[fd - FD0];
    if (s->closed) rt_fail(2, "%s on closed socket %d", what, fd);
    return s;
}
static void sk_hb(Sock* s) { vc_join(&T[t_id].vc, &s->vc); s->vc = T[t_id].vc; T[t_id].vc.c[t_id]++; }
static void sk_fin(Sock* s) { if (s->kind == 3 && !s->fin_sent) { s->fin_sent = true; if (s->peer >= 0) g_sock[s->peer].fin_rx = true; } }
static int sock_ready(int op, uintptr_t obj)
{
    Sock* s = &g_sock[obj];
    if (op == OP_RECV) return s->pos < s->n || s->fin_rx || s->rst || s->rd_shut;
    return s->nq > 0 || s->rd_shut;
}
static Sock* find_listener(int port) { for (int i = 0; i < g_nsock; i++) if (g_sock[i].kind == 2 && g_sock[i].port == port && !g_sock[i].rd_shut && (!g_sock[i].closed || g_sock[i].blocked)) return &g_sock[i]; return 0; }
static Sock* do_connect(Sock* a, int port)
{
    Sock* l = find_listener(port);
    if (!l || l->nq == NQ) return 0;
    Sock* b = sk_new(3, l->harness);
    a->kind = 3; a->peer = sk_id(b); b->peer = sk_id(a);
    l->q[l->nq++] = sk_id(b);
    sk_hb(l);
    return a;
}
EXPORT int socket(int d, int ty, int pr)
{
    NEED(socket);
    if (!controlled()) return real_socket(d, ty, pr);
    RtGuard g; if (refuse(MC_REFUSE_SOCKET, EMFILE)) return -1; return FD0 + sk_id(sk_new(1, false));
}
EXPORT int setsockopt(int fd, int a, int b, const void* c, socklen_t d)
{
    NEED(setsockopt);
    if (!controlled()) return real_setsockopt(fd, a, b, c, d);
    RtGuard g; if (!sk_fd(fd, "setsockopt")) { errno = EBADF; return -1; } return refuse(MC_REFUSE_OPTION, ENOBUFS) ? -1 : 0;
}
EXPORT int bind(int fd, const struct sockaddr* a, socklen_t n)
{
    NEED(bind);
    if (!controlled()) return real_bind(fd, a, n);
    RtGuard g; Sock* s = sk_fd(fd, "bind"); if (!s) { errno = EBADF; return -1; } if (refuse(MC_REFUSE_BIND, EACCES)) return -1;
    int port = ntohs(((const struct sockaddr_in*)a)->sin_port);
    for (int i = 0; i < g_nsock; i++) if (&g_sock[i] != s && g_sock[i].kind == 2 && g_sock[i].port == port && !g_sock[i].rd_shut && !g_sock[i].closed) { errno = EADDRINUSE; return -1; }
    s->port = port; return 0;
}
EXPORT int listen(int fd, int bl)
{
    NEED(listen);
    if (!controlled()) return real_listen(fd, bl);
    RtGuard g; Sock* s = sk_fd(fd, "listen"); if (!s) { errno = EBADF; return -1; } if (refuse(MC_REFUSE_LISTEN, EADDRINUSE)) return -1;
    s->kind = 2; return 0;
}
static int do_accept(Sock* s, Op op, const char* what)
{
    s->blocked++;
    sched_point(op, sk_id(s), 0, what);
    s->blocked--;
    if (s->nq == 0) { errno = EINVAL; return -1; }
    int id = s->q[0];
    memmove(s->q, s->q + 1, sizeof(int) * --s->nq);
    sk_hb(s); sk_hb(&g_sock[id]);
    return id;
}
EXPORT int accept(int fd, struct sockaddr* a, socklen_t* n)
{
    NEED(accept);
    if (!controlled()) return real_accept(fd, a, n);
    RtGuard g; Sock* s = sk_fd(fd, "accept");
    if (!s || s->kind != 2) { sched_point(OP_FORCED, 0, 0, "accept error"); errno = s ? EINVAL : EBADF; return -1; }
    if (s->rd_shut) { sched_point(OP_FORCED, 0, 0, "accept error"); errno = EINVAL; return -1; }
    if (refuse(MC_REFUSE_ACCEPT, ECONNABORTED)) { sched_point(OP_FORCED, 0, 0, "accept error"); errno = ECONNABORTED; return -1; }
    int id = do_accept(s, OP_ACCEPT, "accept");
    return id < 0 ? -1 : FD0 + id;
}
EXPORT int accept4(int fd, struct sockaddr* a, socklen_t* n, int) { return accept(fd, a, n); }
EXPORT int connect(int fd, const struct sockaddr* a, socklen_t n)
{
    NEED(connect);
    if (!controlled()) return real_connect(fd, a, n);
    RtGuard g; sched_point(OP_RUN, 0, 0, "connect");
    Sock* s = sk_fd(fd, "connect"); if (!s) { errno = EBADF; return -1; }
    if (!do_connect(s, ntohs(((const struct sockaddr_in*)a)->sin_port))) { errno = ECONNREFUSED; return -1; }
    return 0;
}
static ssize_t do_send(int fd, const void* d, size_t n, int flags, uintptr_t pc)
{
    sched_point(OP_RUN, 0, 0, "send");
    Sock* s = sk_fd(fd, "send");
    if (!s || s->kind != 3) { errno = s ? ENOTCONN : EBADF; return -1; }
    heap_check((uintptr_t)d, n, false, pc);
    if (n) race_check((uintptr_t)d, n, false, false, pc);
    bool fault = false;
    Sock* p = &g_sock[s->peer];
    if (!s->wr_shut && !s->rst && n > 0)
    {
        int opts = 1; int o_short1 = -1, o_shortm = -1, o_fail = -1;
        if ((g_env & MC_ENV_SHORT_SEND) && n > 1) { o_short1 = opts++; if (n > 2) o_shortm = opts++; }
        if (g_env & MC_ENV_SEND_FAIL) o_fail = opts++;
        int c = env_choose(opts, 1);
        if (c && c == o_short1) n = 1;
        else if (c && c == o_shortm) n = n - 1;
        else if (c && c == o_fail) { s->rst = true; p->rst = true; errno = ECONNRESET; return -1; }
    }
    (void)fault;
    if (s->wr_shut || s->rst)
    {
        struct sigaction sa;
        if (!(flags & MSG_NOSIGNAL) && sigaction(SIGPIPE, 0, &sa) == 0 && sa.sa_handler == SIG_DFL)
            rt_fail(2, "the process is killed by SIGPIPE: send to a broken connection");
        errno = EPIPE; return -1;
    }
    if (p->closed) { s->rst = true; return n; }        // first send after the peer went away is swallowed, RST comes back
    if (p->n + n > SCAP) rt_fail(3, "socket buffer too small");
    memcpy(p->rx + p->n, d, n); p->n += n;
    sk_hb(p);
    return n;
}
EXPORT ssize_t send(int fd, const void* d, size_t n, int fl) { NEED(send); if (!controlled()) return real_send(fd, d, n, fl); RtGuard g; return do_send(fd, d, n, fl, RETPC); }
EXPORT ssize_t write(int fd, const void* d, size_t n) { NEED(write); if (!controlled() || fd < FD0) return real_write(fd, d, n); RtGuard g; return do_send(fd, d, n, 0, RETPC); }
static ssize_t do_recv(int fd, void* d, size_t n, int flags, uintptr_t pc)
{
    Sock* s = sk_fd(fd, "recv");
    if (!s || s->kind != 3) { sched_point(OP_FORCED, 0, 0, "recv error"); errno = s ? ENOTCONN : EBADF; return -1; }
    s->blocked++;
    sched_point(OP_RECV, sk_id(s), 0, "recv");
    s->blocked--;
    if (s->closed && !s->blocked) sk_fin(s);
    sk_hb(s);
    if (s->rst) { errno = ECONNRESET; return -1; }
    size_t av = s->n - s->pos;
    if (av == 0 || s->rd_shut) return 0;
    if (av > n) av = n;
    if ((g_env & MC_ENV_SEGMENT) && av > 1) { int c = env_choose(av > 8 ? 8 : (int)av, 0); if (c) av = c; }
    heap_check((uintptr_t)d, av, true, pc);
    race_check((uintptr_t)d, av, true, false, pc);
    memcpy(d, s->rx + s->pos, av);
    if (!(flags & MSG_PEEK)) s->pos += av;
    return av;
}
EXPORT ssize_t recv(int fd, void* d, size_t n, int fl) { NEED(recv); if (!controlled()) return real_recv(fd, d, n, fl); RtGuard g; return do_recv(fd, d, n, fl, RETPC); }
EXPORT ssize_t read(int fd, void* d, size_t n) { NEED(read); if (!controlled() || fd < FD0) return real_read(fd, d, n); RtGuard g; return do_recv(fd, d, n, 0, RETPC); }
EXPORT int shutdown(int fd, int how)
{
    NEED(shutdown);
    if (!controlled()) return real_shutdown(fd, how);
    RtGuard g; sched_point(OP_RUN, 0, 0, "shutdown");
    Sock* s = sk_fd(fd, "shutdown"); if (!s) { errno = EBADF; return -1; }
    if (how == SHUT_RD || how == SHUT_RDWR) s->rd_shut = true;
    if (how == SHUT_WR || how == SHUT_RDWR) { s->wr_shut = true; sk_fin(s); }
    if (s->kind == 2) for (int i = 0; i < s->nq; i++) { Sock* q = &g_sock[s->q[i]]; g_sock[q->peer].rst = true; q->closed = true; }
    if (s->kind == 2) s->nq = 0;
    sk_hb(s);
    return 0;
}
EXPORT int close(int fd)
{
    NEED(close);
    if (!controlled() || (fd >= 0 && fd < FD0)) return real_close(fd);
    RtGuard g; sched_point(OP_RUN, 0, 0, "close");
    Sock* s = sk_fd(fd, "close"); if (!s) { errno = EBADF; return -1; }
    s->closed = true;
    if (!s->blocked) sk_fin(s);
    if (s->kind == 2 && !s->blocked) { for (int i = 0; i < s->nq; i++) g_sock[g_sock[s->q[i]].peer].rst = true; s->nq = 0; }
    sk_hb(s);
    return 0;
}
static int poll_one(int fd, short ev)
{
    if (fd < FD0 || fd >= FD0 + g_nsock) return POLLNVAL;
    Sock* s = &g_sock[fd - FD0]; int r = 0;
    if (s->closed) return POLLNVAL;
    if ((ev & POLLIN) && (s->kind == 2 ? sock_ready(OP_ACCEPT, fd - FD0) : sock_ready(OP_RECV, fd - FD0))) r |= POLLIN;
    if ((ev & POLLOUT) && s->kind == 3) r |= POLLOUT;
    if (s->rst) r |= POLLERR;
    if (s->rd_shut && s->wr_shut) r |= POLLHUP;
    return r;
}
static int poll_ready(uintptr_t p, uintptr_t n) { int k = 0; struct pollfd* f = (struct pollfd*)p; for (uintptr_t i = 0; i < n; i++) if (f[i].fd >= 0 && poll_one(f[i].fd, f[i].events)) k++; return k; }
EXPORT int poll(struct pollfd* f, nfds_t n, int timeout)
{
    NEED(poll);
    if (!controlled()) return real_poll(f, n, timeout);
    RtGuard g;
    T[t_id].timed = timeout >= 0;
    sched_point(OP_POLL, (uintptr_t)f, n, "poll");
    int k = 0;
    for (nfds_t i = 0; i < n; i++) { f[i].revents = f[i].fd >= 0 ? poll_one(f[i].fd, f[i].events) : 0; k += f[i].revents != 0; }
    if (k == 0) g_clock += timeout * 1000000ull;
    return k;
}
// peer side
int sim_connect(int port) { RtGuard g; sched_point(OP_RUN, 0, 0, "peer connect"); Sock* s = sk_new(1, true); if (!do_connect(s, port)) { s->closed = true; return -1; } return sk_id(s); }
const unsigned char* sim_received(int h, size_t* n) { *n = g_sock[h].n; return g_sock[h].rx; }
bool sim_eof(int h) { return g_sock[h].fin_rx || g_sock[h].rst; }
void sim_close(int h) { RtGuard g; sched_point(OP_RUN, 0, 0, "peer close"); Sock* s = &g_sock[h]; s->closed = true; sk_fin(s); sk_hb(s); }
void sim_reset(int h) { RtGuard g; sched_point(OP_RUN, 0, 0, "peer reset"); Sock* s = &g_sock[h]; s->closed = true; if (s->peer >= 0) g_sock[s->peer].rst = true; sk_hb(s); }
void sim_send(int h, const void* d, size_t n)
{
    RtGuard g; sched_point(OP_RUN, 0, 0, "peer send");
    Sock* s = &g_sock[h]; Sock* p = &g_sock[s->peer];
    if (p->closed || p->rst) return;
    if (p->n + n > SCAP) rt_fail(3, "socket buffer too small");
    memcpy(p->rx + p->n, d, n); p->n += n; sk_hb(p);
}
int sim_listen(int port) { RtGuard g; Sock* s = sk_new(2, true); s->port = port; return sk_id(s); }
int sim_accept(int l) { RtGuard g; return do_accept(&g_sock[l], OP_SIMACCEPT, "peer accept"); }
void sim_close_listener(int l) { RtGuard g; sched_point(OP_RUN, 0, 0, "peer close listener"); g_sock[l].closed = true; g_sock[l].rd_shut = true; }
int sim_open_fds() { int n = 0; for (int i = 0; i < g_nsock; i++) { Sock* s = &g_sock[i]; if (!s->harness && s->kind && !s->closed) n++; } return n; }

// ---------------------------------------------------------------- one execution (in a forked child)
static void crash_handler(int sig, siginfo_t* si, void* uc)
{
    (void)uc;
    if (g_active)
    {
        snprintf(R->msg, MSG, "crash: signal %d (%s), address %p, thread t%d", sig, strsignal(sig), si ? si->si_addr : 0, t_id);
        finish_exec(2);
    }
    _exit(98);
}
static void run_execution(const McScenario* sc, const Item* it)
{
    R->status = 0; R->ntrace = 0; R->msg[0] = 0; R->has_outcome = 0; R->outcome = 0;
    static char altstack[65536];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = crash_handler; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGABRT, &sa, 0);
    // fresh private zero pages for the big tables
    g_item = it; g_item_pos = 0; g_ntrace = 0; g_steps = 0; g_cost_pb = g_cost_eb = 0;
    memset(g_shadow, 0xFA, 4096);
    NT = 1; memset(&T[0], 0, sizeof T[0]);
    T[0].state = 1; T[0].op = OP_RUN; T[0].what = "main"; T[0].vc.c[0] = 1; T[0].real = pthread_self();
    t_id = 0; g_cur = 0; g_active = true;
    sc->body();
    t_in_rt++;
    if (g_item_pos != it->n) rt_fail(3, "divergence: %u of %u decisions used", g_item_pos, it->n);
    finish_exec(1);
}

// ---------------------------------------------------------------- exploration
static double now_s() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double g_deadline;
static int g_limit_s = 20;

static int run_child1(const McScenario* sc, const Item* it, int limit)
{
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(97); }
    if (p == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        alarm(limit);
        run_execution(sc, it);
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st) && R->status == 0)
    {
        R->status = 2;
        if (WTERMSIG(st) == SIGALRM) { snprintf(R->msg, MSG, "hang: execution did not finish in %d s", limit); return 2; }
        else snprintf(R->msg, MSG, "crash: killed by signal %d", WTERMSIG(st));
        return 1;
    }
    if (R->status == 0)
    {
        R->status = 2;
        snprintf(R->msg, MSG, "the process ended in the middle (exit status %d)", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    }
    return 0;
}
// An execution that the machine was too busy to finish is run once more, with more time.
static int run_child(const McScenario* sc, const Item* it, int limit)
{
    int r = run_child1(sc, it, limit);
    if (r == 2) { R->status = 0; r = run_child1(sc, it, 2 * limit); }
    return r ? 1 : 0;
}
static void add_outcome(uint64_t h)
{
    for (uint32_t i = h & (OUTCOME_SLOTS - 1), k = 0; k < OUTCOME_SLOTS; k++, i = (i + 1) & (OUTCOME_SLOTS - 1))
    {
        uint64_t e = 0;
        if (S->outcomes[i] == h) return;
        if (__atomic_compare_exchange_n(&S->outcomes[i], &e, h, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) { __atomic_add_fetch(&S->noutcomes, 1, __ATOMIC_SEQ_CST); return; }
        if (e == h) return;
    }
}
static Item g_buf[4096];
static void worker(const McScenario* sc, int id, int ncpu)
{
    cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(id % ncpu, &cs); sched_setaffinity(0, sizeof cs, &cs);
    for (;;)
    {
        Item it; bool got = false;
        spin_lock(&S->lock);
        if (S->stop) { spin_unlock(&S->lock); return; }
        if (S->nitems) { S->nitems--; memcpy(&it, &S->items[S->nitems], sizeof it); S->busy++; got = true; }
        else if (S->busy == 0) { spin_unlock(&S->lock); return; }
        spin_unlock(&S->lock);
        if (!got) { struct timespec t = {0, 200000}; syscall(SYS_nanosleep, &t, 0); continue; }
        if (now_s() > g_deadline) { S->deadline_hit = 1; S->stop = 1; spin_lock(&S->lock); S->busy--; spin_unlock(&S->lock); return; }
        run_child(sc, &it, g_limit_s);
        __atomic_add_fetch(&S->executions, 1, __ATOMIC_SEQ_CST);
        __atomic_add_fetch(&S->points, R->ntrace, __ATOMIC_SEQ_CST);
        __atomic_add_fetch(&S->steps, R->steps, __ATOMIC_SEQ_CST);
        if (R->ntrace > S->max_points) S->max_points = R->ntrace;
        if (R->nthreads > S->max_threads) S->max_threads = R->nthreads;
        if (R->status != 1)
        {
            spin_lock(&S->lock);
            if (!S->failed) { S->failed = R->status; memcpy(&S->fail_item, &it, sizeof it); memcpy(S->fail_msg, R->msg, MSG); S->stop = 1; }
            S->busy--;
            spin_unlock(&S->lock);
            return;
        }
        if (R->has_outcome) add_outcome(R->outcome);
        // children
        uint32_t start = it.n ? it.d[it.n - 1].pos + 1 : 0;
        int pbc = 0, ebc = 0; uint32_t nb = 0;
        for (uint32_t i = 0; i < R->ntrace; i++)
        {
            TracePoint* p = &R->trace[i];
            if (i >= start)
            {
                for (int alt = p->n - 1; alt >= 1; alt--)
                {
                    int c = p->kind == 1 ? 0 : (p->cost || (p->kind >= 2 && alt >= p->kind - 2)) ? 1 : 0;
                    int e = p->kind == 1 ? p->cost : 0;
                    if (pbc + c > g_pb || ebc + e > g_eb) { S->pruned = 1; continue; }
                    if (it.n + 1 > MAX_DEV) { S->overflow |= 2; continue; }
                    if (nb == 4096) { spin_lock(&S->lock); for (uint32_t k = 0; k < nb; k++) { if (S->nitems == MAX_ITEMS) { S->overflow |= 1; break; } memcpy(&S->items[S->nitems++], &g_buf[k], sizeof(Item)); } spin_unlock(&S->lock); nb = 0; }
                    Item* q = &g_buf[nb++];
                    memcpy(q, &it, sizeof(uint32_t) + sizeof(Dev) * it.n + 4);
                    q->n = it.n + 1; q->d[it.n].pos = i; q->d[it.n].choice = alt; q->d[it.n].n = p->n;
                }
            }
            if (p->chosen)
            {
                if (p->kind == 1) ebc += p->cost;
                else if (p->cost || (p->kind >= 2 && p->chosen >= p->kind - 2)) pbc++;
            }
        }
        spin_lock(&S->lock);
        for (uint32_t k = 0; k < nb; k++) { if (S->nitems == MAX_ITEMS) { S->overflow |= 1; break; } memcpy(&S->items[S->nitems++], &g_buf[k], sizeof(Item)); }
        S->busy--;
        spin_unlock(&S->lock);
    }
}
static void explore(const McScenario* sc, int pb, int eb, ExecResult** areas, int nw, int ncpu)
{
    g_pb = pb; g_eb = eb; g_env = sc->env;
    racy_build();
    S->pruned = S->stop = S->deadline_hit = S->overflow = S->busy = 0; S->nitems = 1; S->items[0].n = 0; S->failed = 0;
    S->executions = S->points = S->steps = S->max_points = S->max_threads = S->noutcomes = 0;
    memset((void*)S->outcomes, 0, sizeof S->outcomes);
    fflush(stdout);
    pid_t pids[64];
    for (int i = 0; i < nw; i++)
    {
        pids[i] = fork();
        if (pids[i] == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); R = areas[i]; worker(sc, i, ncpu); _exit(0); }
    }
    for (int i = 0; i < nw; i++) { int st; waitpid(pids[i], &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "worker died, status %x\n", st); S->overflow = 1; } }
}
static void json_str(const char* s)
{
    putchar('"');
    for (; *s; s++)
    {
        unsigned char c = *s;
        if (c == '"' || c == '\\') { putchar('\\'); putchar(c); }
        else if (c < 32 || c >= 127) printf("\\u%04x", c);
        else putchar(c);
    }
    putchar('"');
}
static void print_item(const Item* it)
{
    printf("[");
    for (uint32_t i = 0; i < it->n; i++) printf("%s[%u,%u,%u]", i ? "," : "", it->d[i].pos, it->d[i].choice, it->d[i].n);
    printf("]");
}
static void* share(size_t n) { void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(97); } return p; }
static void* priv(size_t n) { void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(97); } return p; }

static bool listed(const char* only, const char* name) { size_t n = strlen(name); for (const char* p = only; ; p++) { size_t k = strcspn(p, ","); if (k == n && !strncmp(p, name, n)) return true; p += k; if (!*p) return false; } }   // "a,b,c"
int mc_conc_main(int argc, char** argv, const McScenario* scs, size_t count)
{
    const char* only = 0; int tier = 0; double budget = 60; int nw = 8; int limit = 20; int force_pb = -1, force_eb = -1;
    const char* replay_racy = 0; const char* replay_item = 0; bool list = false;
    for (int i = 1; i < argc; i++)
    {
        if (!strcmp(argv[i], "--scenario")) only = argv[++i];
        else if (!strcmp(argv[i], "--tier")) tier = !strcmp(argv[++i], "thorough");
        else if (!strcmp(argv[i], "--budget")) budget = atof(argv[++i]);
        else if (!strcmp(argv[i], "--workers")) nw = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--pb")) force_pb = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--eb")) force_eb = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--replay")) replay_item = argv[++i];       // "pos:choice:n,pos:choice:n,..." or "-" for the default schedule
        else if (!strcmp(argv[i], "--racy")) replay_racy = argv[++i];         // "hexpc,hexpc,..."
        else if (!strcmp(argv[i], "--list")) list = true;
    }
    if (list) { for (size_t i = 0; i < count; i++) printf("%s %d\n", scs[i].name, scs[i].tier); return 0; }
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("MC_NOASLR"))
    {
        if (personality(pers | ADDR_NO_RANDOMIZE) != -1) { setenv("MC_NOASLR", "1", 1); execv("/proc/self/exe", argv); }
    }
    load_real();
    signal(SIGPIPE, SIG_DFL);
    S = (Shared*)share(sizeof(Shared));
    ExecResult* areas[64];
    if (nw > 64) nw = 64;
    for (int i = 0; i < nw; i++) areas[i] = (ExecResult*)share(sizeof(ExecResult));
    ExecResult* main_area = (ExecResult*)share(sizeof(ExecResult));
    R = main_area;
    g_arena = (char*)priv(ARENA); g_arena_pos = 4096;
    g_shadow = (unsigned char*)priv(ARENA / 8);
    g_gran = (Gran*)priv(sizeof(Gran) * NGRAN); g_gidx = (uint32_t*)priv(sizeof(uint32_t) * GH);
    g_logbuf = (unsigned char*)priv(LOG_BYTES); g_loge = (LogE*)priv(sizeof(LogE) * LOG_N);
    g_fpool = (unsigned char*)priv((size_t)NF * (FCAP + FBUF)); g_spool = (unsigned char*)priv((size_t)NSOCK * SCAP);
    pthread_key_create(&g_key, key_dtor);
    int ncpu = sysconf(_SC_NPROCESSORS_ONLN); if (ncpu < 1) ncpu = 1;
    double t0 = now_s();
    bool first = true; int rc = 0;
    const char* limit_env = getenv("MC_LIMIT"); if (limit_env) limit = atoi(limit_env);
    g_limit_s = limit;
    if (!replay_item) printf("[");
    for (size_t k = 0; k < count; k++)
    {
        const McScenario* sc = &scs[k];
        if (only && !listed(only, sc->name)) continue;
        if (!only && sc->tier > tier) continue;
        int pb = tier ? sc->pb_thorough : sc->pb_quick, eb = tier ? sc->eb_thorough : sc->eb_quick;
        if (force_pb >= 0) pb = force_pb;
        if (force_eb >= 0) eb = force_eb;
        S->nracy = 0;
        if (replay_item)
        {
            if (replay_racy) for (const char* p = replay_racy; *p; ) { char* e; uintptr_t v = strtoull(p, &e, 16); if (v) S->racy[S->nracy++] = v; p = *e ? e + 1 : e; if (e == p && *p) break; }
            Item it; it.n = 0;
            if (strcmp(replay_item, "-")) for (const char* p = replay_item; *p; )
            {
                unsigned a, b, c; int len;
                if (sscanf(p, "%u:%u:%u%n", &a, &b, &c, &len) != 3) break;
                it.d[it.n].pos = a; it.d[it.n].choice = b; it.d[it.n].n = c; it.n++;
                p += len; if (*p == ',') p++;
            }
            g_pb = 99; g_eb = eb > 0 ? eb : 0; g_env = sc->env; racy_build();
            g_verbose = true;
            run_child(sc, &it, 120);
            printf("status=%u %s\n", R->status, R->status == 1 ? "ok" : R->msg);
            return R->status == 1 ? 0 : 1;
        }
        double ts = now_s();
        size_t remaining = 0;
        for (size_t j = k; j < count; j++) if ((!only || listed(only, scs[j].name)) && (only || scs[j].tier <= tier)) remaining++;
        g_deadline = ts + 2 * (t0 + budget - ts) / (remaining + 1);
        if (g_deadline < ts + 3) g_deadline = ts + 3;
        int done_pb = -1, done_eb = -1; bool complete = true; int phases = 0;
        uint64_t ex = 0, pts = 0, st = 0, mp = 0, mt = 0, oc = 0, total_ex = 0; int failed = 0; int ovf = 0;
        int maxb = pb > eb ? pb : eb;
        for (int b = 0; b <= maxb && !failed && complete; b++)
        {
            int bp = b < pb ? b : pb, be = b < eb ? b : eb;
            for (;;)
            {
                uint32_t before = S->nracy;
                explore(sc, bp, be, areas, nw, ncpu);
                phases++;
                total_ex += S->executions;
                if (S->failed) { failed = S->failed; break; }
                ex = S->executions; pts = S->points; st = S->steps; mp = S->max_points; mt = S->max_threads; oc = S->noutcomes;
                if (S->deadline_hit) { complete = false; break; }
                if (S->overflow) { ovf |= S->overflow; fprintf(stderr, "overflow %d pb %d executions %llu racy %u->%u max_points %llu\n", S->overflow, bp, (unsigned long long)ex, before, S->nracy, (unsigned long long)mp); if (S->nracy != before) continue; complete = false; break; }
                if (S->nracy == before) { done_pb = bp; done_eb = be; if (!S->pruned && be == eb) { done_pb = pb; b = maxb; } break; }
            }
        }
        if (failed)
        {   // replay before report: the same decisions must fail the same way, twice, alone
            // (with the racy-access points of the phase that failed: g_racy_used, not those recorded since)
            int same = 0; char m1[MSG];
            for (int r = 0; r < 2; r++)
            {
                run_child1(sc, &S->fail_item, limit * 2);
                if (r == 0) memcpy(m1, R->msg, MSG);
                if ((int)R->status == failed) same++;
            }
            if (same != 2) { failed = 4; snprintf(S->fail_msg + strlen(S->fail_msg), MSG - strlen(S->fail_msg) - 1, " -- not reproduced on replay (%d of 2): %s", same, m1); }
        }
        if (!first) printf(",");
        first = false;
        printf("{\"scenario\":"); json_str(sc->name);
        printf(",\"pb\":%d,\"eb\":%d,\"completed_pb\":%d,\"completed_eb\":%d,\"complete\":%s,\"overflow\":%d,\"executions\":%llu,\"total_executions\":%llu,\"decisions\":%llu,\"steps\":%llu,\"max_decisions\":%llu,\"max_threads\":%llu,\"distinct_outcomes\":%llu,\"racy_pcs\":%u,\"phases\":%d,\"wall_s\":%.2f",
               pb, eb, done_pb, done_eb, complete && !failed ? "true" : "false", ovf, (unsigned long long)ex, (unsigned long long)total_ex, (unsigned long long)pts, (unsigned long long)st, (unsigned long long)mp, (unsigned long long)mt, (unsigned long long)oc, S->nracy, phases, now_s() - ts);
        if (failed)
        {
            printf(",\"failure\":{\"kind\":%s,\"message\":", failed == 2 ? "\"violation\"" : failed == 4 ? "\"unreproduced\"" : "\"internal\"");
            json_str(S->fail_msg);
            printf(",\"decisions\":"); print_item(&S->fail_item);
            printf(",\"racy\":\"");
            for (uint32_t i = 0; i < g_racy_used; i++) printf("%s%lx", i ? "," : "", (unsigned long)S->racy[i]);
            printf("\"}");
            rc = failed == 2 ? 1 : 2;
        }
        printf("}");
        fflush(stdout);
        if (rc == 1) break;
    }
    if (!replay_item) printf("]\n");
    return rc;
}
