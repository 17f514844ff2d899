// Controlled scheduler, happens-before race detector and schedule explorer.
#include <list>
#include "mc.hpp"

#include <cassert>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}

// ---------------------------------------------------------------------------
static inline long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 asm("r10") = d;
    register long r8 asm("r8") = e;
    register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

static inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33;
    return h;
}

enum { MAXT = 26, MAXPOINTS = 6000, MAXSTEPS = 60000, MAXLOG = 4096, MAXDEV = 120 };

struct Point { uint16_t n; uint16_t chosen; uint32_t pcost; uint32_t fcost; uint64_t state; };
// pcost/fcost: bit masks (first 32 alternatives) of alternatives costing a preemption/fault

enum Status { ST_RUNNING = 0, ST_OK = 1, ST_FAIL = 2, ST_DIVERGED = 3, ST_TOOLONG = 4 };
struct Result {
    volatile int status;
    int npoints;
    uint64_t steps;
    uint64_t outcome;
    int threads;
    int nontrivial;
    int tried;            // a lock was tried: releasing one is a visible step
    uint64_t accesses;
    char key[160];
    char msg[1600];
    Point points[MAXPOINTS];
};

struct Dev { uint16_t point; uint16_t alt; };
struct Prefix { uint16_t n; Dev d[MAXDEV]; };

enum Op { OP_START, OP_LOCK, OP_UNLOCK, OP_TRYLOCK, OP_CONDWAIT, OP_SIGNAL, OP_JOIN, OP_POINT, OP_ATOMIC, OP_YIELD,
          OP_FUTEX, OP_RDLOCK, OP_WRLOCK, OP_GUARD, OP_EXIT, OP_NONE };
static const char *op_name[] = {"start", "lock", "unlock", "trylock", "cond-wait", "signal", "join", "point", "atomic",
                                "yield", "futex", "rdlock", "wrlock", "guard", "exit", "-"};

typedef uint32_t Clock;
struct Thr {
    int used, finished, detached, exited_os;
    volatile int sem;
    int op;
    const void *obj;
    int arg;              // join target
    int signalled;        // for CONDWAIT / FUTEX
    int timed;            // a timeout may fire
    int yielded;
    int spins;
    uint64_t hist;
    Clock vc[MAXT];
    pthread_t pt;
    void *(*fn)(void *);
    void *fnarg;
    void *ret;
};

struct Obj {
    const void *addr;
    int owner;            // mutex owner (tid+1), 0 free
    int recursion;
    int readers;
    uint64_t hash;
    Clock vc[MAXT];
};

static bool g_active = false;           // in a controlled execution
static Thr g_thr[MAXT];
static int g_nthr = 0;
static int g_cur = 0;
static Result *g_res = nullptr;
static const Prefix *g_prefix = nullptr;
static int g_prefix_pos = 0;
static bool g_bounded = true;
static bool g_races = true;
static uint64_t g_steps = 0;
static uint64_t g_outcome = 0;
static uint64_t g_accesses = 0;
static mc::LogEntry g_log[MAXLOG];
static size_t g_nlog = 0;
static bool g_trace = false;
static bool g_trypoints = false;   // releases are scheduling points (needed only where locks are tried)
static int g_faults_used_state = 0, g_preempt_used_state = 0;

static __thread int t_id = -1;
static __thread int t_quiet = 0;        // >0: do not instrument
static __thread int t_inrt = 0;

enum { NOBJ = 1 << 14 };
static Obj g_obj[NOBJ];
static Obj *obj_of(const void *a) {
    size_t i = (mix(0, (uint64_t)a)) & (NOBJ - 1);
    for (int k = 0; k < NOBJ; k++, i = (i + 1) & (NOBJ - 1)) {
        if (g_obj[i].addr == a) return &g_obj[i];
        if (!g_obj[i].addr) { g_obj[i].addr = a; g_obj[i].hash = mix(77, (uint64_t)a); return &g_obj[i]; }
    }
    abort();
}

// ---------------------------------------------------------------------------
// arena allocator (only inside controlled executions)
enum : size_t { ARENA = 96u << 20 };
static char *g_arena = nullptr;
static size_t g_arena_pos[MAXT + 1];
struct Hdr { uint64_t size; uint64_t magic; };
static const uint64_t LIVE = 0x4c495645u, DEAD = 0x44454144u;
static inline bool in_arena(const void *p) { return g_arena && (const char *)p >= g_arena && (const char *)p < g_arena + (size_t)ARENA * (MAXT + 1); }

static void finish(int status) __attribute__((noreturn));
static void finish(int status) {
    g_res->steps = g_steps; g_res->outcome = g_outcome; g_res->threads = g_nthr; g_res->accesses = g_accesses;
    __sync_synchronize();
    g_res->status = status;
    raw_syscall(SYS_exit_group, 0, 0, 0, 0, 0, 0);
    for (;;) {}
}

static void vfail(const char *key, const char *fmt, va_list ap) {
    t_inrt++;
    snprintf(g_res->key, sizeof g_res->key, "%s", key);
    vsnprintf(g_res->msg, sizeof g_res->msg, fmt, ap);
    finish(ST_FAIL);
}
namespace mc {
void fail(const char *key, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    if (!g_active || !g_res) { vfprintf(stderr, fmt, ap); abort(); }
    vfail(key, fmt, ap);
    abort();
}
}

// ---------------------------------------------------------------------------
// scheduling
static void park(int t) {
    while (__atomic_load_n(&g_thr[t].sem, __ATOMIC_ACQUIRE) == 0)
        raw_syscall(SYS_futex, (long)&g_thr[t].sem, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(&g_thr[t].sem, 0, __ATOMIC_RELEASE);
}
static void unpark(int t) {
    __atomic_store_n(&g_thr[t].sem, 1, __ATOMIC_RELEASE);
    raw_syscall(SYS_futex, (long)&g_thr[t].sem, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static bool enabled(int t) {
    Thr &x = g_thr[t];
    if (!x.used || x.finished) return false;
    switch (x.op) {
        case OP_LOCK: { Obj *o = obj_of(x.obj); return o->owner == 0 || (o->owner == t + 1 && o->recursion > 0); }
        case OP_RDLOCK: { Obj *o = obj_of(x.obj); return o->owner == 0; }
        case OP_WRLOCK: { Obj *o = obj_of(x.obj); return o->owner == 0 && o->readers == 0; }
        case OP_GUARD: { Obj *o = obj_of(x.obj); return o->owner == 0; }
        case OP_JOIN: return g_thr[x.arg].finished;
        case OP_CONDWAIT: case OP_FUTEX: return x.signalled;
        default: return true;
    }
}

static uint64_t state_hash() {
    uint64_t h = 12345;
    for (int i = 0; i < g_nthr; i++) {
        h = mix(h, g_thr[i].hist);
        h = mix(h, g_thr[i].finished * 4 + g_thr[i].signalled * 2 + g_thr[i].yielded);
        h = mix(h, g_thr[i].op * 64 + g_thr[i].spins);
        h = mix(h, (uint64_t)g_thr[i].obj);
    }
    if (g_bounded) h = mix(h, mix(g_cur + 1, g_preempt_used_state));
    h = mix(h, g_faults_used_state + 1000);
    return h;
}

// returns the chosen alternative
static int choose(int n, uint32_t pcost, uint32_t fcost) {
    if (n <= 1) return 0;
    int idx = g_res->npoints;
    if (idx >= MAXPOINTS) finish(ST_TOOLONG);
    int c = 0;
    if (g_prefix && g_prefix_pos < g_prefix->n && g_prefix->d[g_prefix_pos].point == idx) {
        c = g_prefix->d[g_prefix_pos].alt;
        g_prefix_pos++;
        if (c >= n) finish(ST_DIVERGED);
    }
    Point &p = g_res->points[idx];
    p.n = n; p.chosen = c; p.pcost = pcost; p.fcost = fcost; p.state = state_hash();
    g_res->npoints = idx + 1;
    if (c < 32) {
        if (pcost >> c & 1) g_preempt_used_state++;
        if (fcost >> c & 1) g_faults_used_state++;
    }
    return c;
}

static void touch_obj(int t, const void *obj, int kind) {
    Obj *o = obj_of(obj);
    g_thr[t].hist = mix(g_thr[t].hist, mix(mix(kind, (uint64_t)obj), o->hash));
    o->hash = mix(o->hash, g_thr[t].hist);
}

static void describe_threads(char *buf, size_t n) {
    size_t k = 0; buf[0] = 0;
    for (int i = 0; i < g_nthr && k < n; i++) {
        if (g_thr[i].finished) k += snprintf(buf + k, n - k, " T%d:finished", i);
        else k += snprintf(buf + k, n - k, " T%d:%s", i, op_name[g_thr[i].op]);
    }
}

// Called by the running thread with its pending operation set (or finished).
// Returns when the calling thread has been chosen again (never for finished).
static void reschedule(int me) {
    if (++g_steps > MAXSTEPS) {
        char b[300]; describe_threads(b, sizeof b);
        mc::fail("livelock", "no end of execution after %d scheduling steps:%s", (int)MAXSTEPS, b);
    }
    int alt[MAXT * 2 + 2]; int isf[MAXT * 2 + 2]; int n = 0;
    uint32_t pcost = 0, fcost = 0;
    bool me_enabled = !g_thr[me].finished && enabled(me);
    bool me_yield = me_enabled && g_thr[me].yielded;
    int others = 0;
    for (int k = 1; k < g_nthr; k++) { int t = (me + k) % g_nthr; if (enabled(t)) others++; }
    if (me_enabled && !(me_yield && others)) { alt[n] = me; isf[n] = 0; n++; }
    bool mefirst = n == 1;
    // canonical order: round robin from the current thread (fair for yields)
    for (int k = 1; k < g_nthr; k++) {
        int t = me_yield ? (me + k) % g_nthr : k <= me ? k - 1 : k;
        if (t == me || !enabled(t)) continue;
        if (mefirst || (me_yield && n)) pcost |= 1u << n;   // a yielding thread passes on in turn; another order counts as a preemption
        alt[n] = t; isf[n] = 0; n++;
    }
    if (me_yield && others) { alt[n] = me; isf[n] = 0; fcost |= 0; pcost |= 1u << n; n++; }
    int normal = n;
    // spurious wake-ups and timeouts
    for (int t = 0; t < g_nthr; t++) {
        Thr &x = g_thr[t];
        if (!x.used || x.finished || x.signalled) continue;
        if (x.op == OP_CONDWAIT || (x.op == OP_FUTEX && x.timed)) {
            bool free_timeout = x.timed && normal == 0;
            if (normal == 0 && !free_timeout) continue;   // only a deadlock could be hidden by it
            if (!free_timeout) fcost |= 1u << n;
            alt[n] = t; isf[n] = 1; n++;
        }
    }
    if (n == 0) {
        bool all = true;
        for (int i = 0; i < g_nthr; i++) if (!g_thr[i].finished) all = false;
        if (all) finish(ST_OK);
        char b[300]; describe_threads(b, sizeof b);
        mc::fail("deadlock", "no thread can make progress:%s", b);
    }
    int c = choose(n, pcost, fcost);
    int t = alt[c];
    if (isf[c]) g_thr[t].signalled = 2;   // spurious / timeout
    if (g_trace) fprintf(stderr, "  step %lu: T%d %s %p%s\n", (unsigned long)g_steps, t, op_name[g_thr[t].op], g_thr[t].obj, isf[c] ? " (spurious/timeout)" : "");
    g_thr[t].yielded = 0;
    if (t == me) return;
    g_cur = t;
    bool fin = g_thr[me].finished;
    unpark(t);
    if (!fin) park(me);
}

static void vc_join(Clock *a, const Clock *b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void vc_acquire(int t, Obj *o) { vc_join(g_thr[t].vc, o->vc); }
static void vc_release(int t, Obj *o) { vc_join(o->vc, g_thr[t].vc); g_thr[t].vc[t]++; }

static void sched_op(int t, int op, const void *obj) {
    g_thr[t].op = op; g_thr[t].obj = obj;
    reschedule(t);
    touch_obj(t, obj, op);
}

struct Rt { Rt() { t_inrt++; } ~Rt() { t_inrt--; } };
static inline bool controlled() { return g_active && t_id >= 0 && t_inrt == 0; }

namespace mc {
void point(const void *obj) { if (!controlled()) return; Rt r; g_thr[t_id].spins = 0; sched_op(t_id, OP_POINT, obj); }
void touch(const void *obj) { if (!controlled()) return; Rt r; touch_obj(t_id, obj, OP_POINT); }
int self() { return t_id; }
int live_threads() { int n = 0; for (int i = 1; i < g_nthr; i++) if (g_thr[i].used && !g_thr[i].finished) n++; return n; }
void outcome(uint64_t h) { g_outcome = mix(g_outcome, h); }
uint64_t hash(const void *p, size_t n, uint64_t h) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
Quiet::Quiet() { t_quiet++; }
Quiet::~Quiet() { t_quiet--; }
void log(int kind, long a, long b) {
    if (!g_active) return;
    if (g_nlog >= MAXLOG) fail("log-overflow", "more than %d logged events", (int)MAXLOG);
    g_log[g_nlog].tid = t_id; g_log[g_nlog].kind = kind; g_log[g_nlog].a = a; g_log[g_nlog].b = b; g_nlog++;
}
const LogEntry *log_begin() { return g_log; }
size_t log_size() { return g_nlog; }
void log_clear() { g_nlog = 0; }
}

// ---------------------------------------------------------------------------
// race detector: shadow cells per 8-byte word
struct Cell { uint64_t addr; Clock w; uint8_t wt, wmask, freed, pad; uint8_t rmask[MAXT]; Clock r[MAXT]; };
enum { NCELL = 1 << 17 };
static Cell *g_cells = nullptr;
static size_t g_ncells = 0;
static Cell *cell_of(uint64_t a, bool create) {
    size_t i = mix(3, a) & (NCELL - 1);
    for (int k = 0; k < 4096; k++, i = (i + 1) & (NCELL - 1)) {
        if (g_cells[i].addr == a) return &g_cells[i];
        if (!g_cells[i].addr) {
            if (!create || g_ncells > NCELL / 2) return nullptr;
            g_cells[i].addr = a; g_ncells++;
            return &g_cells[i];
        }
    }
    return nullptr;
}
static void race(const char *what, uint64_t a, int t1, int t2) {
    mc::fail("data-race", "unsynchronised accesses (%s) by T%d and T%d to the same memory (%s)", what, t1, t2,
             in_arena((void *)a) ? "heap" : "global/stack");
}
static void access1(uint64_t word, uint8_t mask, bool write) {
    int t = t_id;
    Cell *c = cell_of(word, true);
    if (!c) return;
    Thr &x = g_thr[t];
    if (c->freed) mc::fail("use-after-free", "T%d accesses freed memory", t);
    if (c->w && (c->wmask & mask) && c->wt != t && x.vc[c->wt] < c->w) race(write ? "write after write" : "read after write", word, c->wt, t);
    if (write) {
        for (int i = 0; i < g_nthr; i++)
            if (i != t && c->r[i] && (c->rmask[i] & mask) && x.vc[i] < c->r[i]) race("write after read", word, i, t);
        c->w = x.vc[t]; c->wt = t; c->wmask = mask;
        for (int i = 0; i < g_nthr; i++) if ((c->rmask[i] & ~mask) == 0) { c->r[i] = 0; c->rmask[i] = 0; }
    } else {
        if (c->r[t] != x.vc[t]) c->rmask[t] = 0;
        c->r[t] = x.vc[t]; c->rmask[t] |= mask;
    }
}
static inline void access_range(const void *p, size_t n, bool write) {
    if (!g_active || !g_races || t_id < 0 || t_inrt || t_quiet || n == 0) return;
    if (g_nthr == 1) return;   // nothing concurrent has ever existed
    Rt r;
    g_accesses++;
    uint64_t a = (uint64_t)p, e = a + n;
    if (n > 65536) e = a + 65536;
    while (a < e) {
        uint64_t w = a & ~7ull;
        int lo = a - w, hi = (e - w) < 8 ? (int)(e - w) : 8;
        uint8_t mask = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
        access1(w, mask, write);
        a = w + 8;
    }
}
static void mark_freed(void *p, size_t n) {
    if (!g_races || g_nthr == 1) return;
    if (n > 8192) n = 8192;
    for (uint64_t a = (uint64_t)p & ~7ull, e = (uint64_t)p + n; a < e; a += 8) {
        Cell *c = cell_of(a, false);
        if (!c) continue;
        Thr &x = g_thr[t_id];
        if (c->w && c->wt != t_id && x.vc[c->wt] < c->w) race("free after write", a, c->wt, t_id);
        for (int i = 0; i < g_nthr; i++) if (i != t_id && c->r[i] && x.vc[i] < c->r[i]) race("free after read", a, i, t_id);
        c->freed = 1;
    }
}

// ---------------------------------------------------------------------------
// allocation
static void *arena_alloc(size_t n, size_t align) {
    int k = t_id >= 0 ? t_id : MAXT;
    size_t pos = g_arena_pos[k] + sizeof(Hdr);
    if (align < 16) align = 16;
    pos = (pos + align - 1) / align * align;
    size_t need = (n + 15) / 16 * 16 + 16;
    if (pos + need > (size_t)ARENA) { errno = ENOMEM; return nullptr; }
    char *p = g_arena + (size_t)ARENA * k + pos;
    Hdr *h = (Hdr *)p - 1;
    h->size = n; h->magic = LIVE;
    g_arena_pos[k] = pos + need;
    memset(p, 0xAB, n < 4096 ? n : 4096);
    return p;
}
static bool use_arena() { return g_active; }
extern "C" {
void *malloc(size_t n) { return use_arena() ? arena_alloc(n, 16) : __libc_malloc(n); }
void free(void *p) {
    if (!p) return;
    if (!in_arena(p)) { if (!use_arena()) __libc_free(p); return; }
    Hdr *h = (Hdr *)p - 1;
    if (h->magic == DEAD) { if (g_active && g_res) mc::fail("double-free", "T%d frees memory twice", t_id); return; }
    if (h->magic != LIVE) { if (g_active && g_res) mc::fail("bad-free", "T%d frees an address that was not allocated", t_id); return; }
    if (g_active && t_id >= 0 && !t_inrt) { Rt r; mark_freed(p, h->size); }
    h->magic = DEAD;
    memset(p, 0xCD, h->size < 4096 ? h->size : 4096);
}
void *calloc(size_t a, size_t b) {
    if (!use_arena()) return __libc_calloc(a, b);
    void *p = arena_alloc(a * b, 16); if (p) memset(p, 0, a * b); return p;
}
void *realloc(void *p, size_t n) {
    if (!use_arena() && !in_arena(p)) return __libc_realloc(p, n);
    if (!p) return malloc(n);
    size_t old = in_arena(p) ? ((Hdr *)p - 1)->size : n;   // non-arena blocks: copy what is asked for
    void *q = malloc(n); if (q) memcpy(q, p, old < n ? old : n); free(p); return q;
}
void *memalign(size_t al, size_t n) { return use_arena() ? arena_alloc(n, al) : __libc_memalign(al, n); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **o, size_t al, size_t n) { *o = memalign(al, n); return *o ? 0 : ENOMEM; }
}

// ---------------------------------------------------------------------------
// pthread interposition
#define REAL(name) ({ static decltype(&name) f = nullptr; if (!f) f = (decltype(&name))dlsym(RTLD_NEXT, #name); f; })

static void do_lock(int t, pthread_mutex_t *m) {
    Obj *o = obj_of(m);
    if (o->owner == t + 1) {
        if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { o->recursion++; return; }
        // self deadlock: will be reported as a deadlock (never enabled) unless others run
    }
    sched_op(t, OP_LOCK, m);
    o->owner = t + 1; o->recursion = 0;
    vc_acquire(t, o);
}
static void do_unlock(int t, pthread_mutex_t *m) {
    Obj *o = obj_of(m);
    if (o->owner != t + 1) mc::fail("bad-unlock", "T%d unlocks a mutex it does not hold", t);
    if (o->recursion > 0) { o->recursion--; return; }
    if (g_trypoints) sched_op(t, OP_UNLOCK, m); else
    touch_obj(t, m, OP_UNLOCK);
    o->owner = 0;
    vc_release(t, o);
}
// virtual time: stands still except for sleeps, timeouts that fire and a little per look at the clock
static int64_t g_vns, g_base[2];
static int64_t now_of(clockid_t k) { struct timespec ts; raw_syscall(SYS_clock_gettime, k, (long)&ts, 0, 0, 0, 0); return ts.tv_sec * 1000000000LL + ts.tv_nsec; }
static int64_t &base_of(clockid_t k) { int64_t &b = g_base[k == CLOCK_REALTIME ? 0 : 1]; if (!b) b = now_of(k); return b; }
static void expire(clockid_t k, const struct timespec *ts) { int64_t w = ts ? ts->tv_sec * 1000000000LL + ts->tv_nsec - base_of(k) : g_vns + 3600000000000LL; if (w > g_vns) g_vns = w; g_vns++; }

static int do_wait(int t, pthread_cond_t *c, pthread_mutex_t *m, bool timed, clockid_t clk = CLOCK_REALTIME, const struct timespec *ts = nullptr) {
    Obj *mo = obj_of(m);
    if (mo->owner != t + 1) mc::fail("bad-wait", "T%d waits without holding the mutex", t);
    Thr &x = g_thr[t];
    if (g_trypoints) sched_op(t, OP_UNLOCK, m);
    touch_obj(t, c, OP_CONDWAIT);
    touch_obj(t, m, OP_UNLOCK);
    mo->owner = 0; vc_release(t, mo);
    x.signalled = 0; x.timed = timed;
    x.op = OP_CONDWAIT; x.obj = c; x.spins = 0;
    reschedule(t);
    int how = x.signalled;
    x.signalled = 0; x.timed = 0;
    if (how == 2 && timed) expire(clk, ts);
    touch_obj(t, c, OP_CONDWAIT + 100 * how);
    x.op = OP_LOCK; x.obj = m;
    reschedule(t);
    touch_obj(t, m, OP_LOCK);
    mo->owner = t + 1; vc_acquire(t, mo);
    return how == 2 && timed ? ETIMEDOUT : 0;
}
static void do_signal(int t, pthread_cond_t *c, bool all) {
    sched_op(t, OP_SIGNAL, c);
    int w[MAXT], n = 0;
    for (int i = 0; i < g_nthr; i++) if (g_thr[i].used && !g_thr[i].finished && g_thr[i].op == OP_CONDWAIT && g_thr[i].obj == c && !g_thr[i].signalled) w[n++] = i;
    if (n == 0) return;
    if (all) { for (int i = 0; i < n; i++) { g_thr[w[i]].signalled = 1; g_thr[w[i]].hist = mix(g_thr[w[i]].hist, g_thr[t].hist); } return; }
    int k = choose(n, 0, 0);
    g_thr[w[k]].signalled = 1;
    g_thr[w[k]].hist = mix(g_thr[w[k]].hist, g_thr[t].hist);
}

static void *trampoline(void *a) {
    int t = (int)(long)a;
    t_id = t; t_inrt = 1;
    park(t);
    t_inrt = 0;
    void *r = g_thr[t].fn(g_thr[t].fnarg);
    t_inrt = 1;
    Thr &x = g_thr[t];
    x.ret = r; x.finished = 1; x.op = OP_EXIT; x.obj = nullptr;
    touch_obj(t, &g_thr[t], OP_EXIT);
    vc_release(t, obj_of(&g_thr[t]));
    reschedule(t);
    return r;
}

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!controlled()) { if (g_active && t_inrt) return 0; return REAL(pthread_mutex_lock)(m); }
    Rt r; g_thr[t_id].spins = 0; do_lock(t_id, m); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!controlled()) { if (g_active && t_inrt) return 0; return REAL(pthread_mutex_unlock)(m); }
    Rt r; do_unlock(t_id, m); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!controlled()) { if (g_active && t_inrt) return 0; return REAL(pthread_mutex_trylock)(m); }
    Rt r; int t = t_id; Obj *o = obj_of(m);
    if (o->owner == t + 1 && m->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { o->recursion++; return 0; }
    g_res->tried = 1; sched_op(t, OP_TRYLOCK, m);
    if (o->owner) {   // a failed try is (part of) a waiting loop: let the owner run
        if (++g_thr[t].spins > 4) { g_thr[t].yielded = 1; sched_op(t, OP_YIELD, m); }
        return EBUSY;
    }
    o->owner = t + 1; o->recursion = 0; vc_acquire(t, o); return 0;
}
static int timedlock_model(pthread_mutex_t *m) {
    Rt r; int t = t_id; Obj *o = obj_of(m);
    g_res->tried = 1; sched_op(t, OP_TRYLOCK, m);
    if (!o->owner) { o->owner = t + 1; vc_acquire(t, o); return 0; }
    if (choose(2, 0, 2) == 1) return ETIMEDOUT;
    do_lock(t, m); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) { if (!controlled()) return REAL(pthread_mutex_timedlock)(m, ts); return timedlock_model(m); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *ts) { if (!controlled()) return REAL(pthread_mutex_clocklock)(m, c, ts); return timedlock_model(m); }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!controlled()) return REAL(pthread_cond_wait)(c, m);
    Rt r; return do_wait(t_id, c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    if (!controlled()) return REAL(pthread_cond_timedwait)(c, m, ts);
    Rt r; return do_wait(t_id, c, m, true, CLOCK_REALTIME, ts);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
    if (!controlled()) return REAL(pthread_cond_clockwait)(c, m, k, ts);
    Rt r; return do_wait(t_id, c, m, true, k, ts);
}
int pthread_cond_signal(pthread_cond_t *c) {
    if (!controlled()) return REAL(pthread_cond_signal)(c);
    Rt r; do_signal(t_id, c, false); return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!controlled()) return REAL(pthread_cond_broadcast)(c);
    Rt r; do_signal(t_id, c, true); return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) { if (g_active) return 0; return REAL(pthread_cond_destroy)(c); }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (g_active) return 0; return REAL(pthread_mutex_destroy)(m); }

// reader/writer locks
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
    if (!controlled()) { if (g_active && t_inrt) return 0; return REAL(pthread_rwlock_rdlock)(l); }
    Rt r; sched_op(t_id, OP_RDLOCK, l); Obj *o = obj_of(l); o->readers++; vc_acquire(t_id, o); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
    if (!controlled()) { if (g_active && t_inrt) return 0; return REAL(pthread_rwlock_wrlock)(l); }
    Rt r; sched_op(t_id, OP_WRLOCK, l); Obj *o = obj_of(l); o->owner = t_id + 1; vc_acquire(t_id, o); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    if (!controlled()) { if (g_active && t_inrt) return 0; return REAL(pthread_rwlock_unlock)(l); }
    Rt r; Obj *o = obj_of(l); if (g_trypoints) sched_op(t_id, OP_UNLOCK, l); else touch_obj(t_id, l, OP_UNLOCK);
    if (o->owner == t_id + 1) o->owner = 0; else if (o->readers > 0) o->readers--;
    vc_release(t_id, o); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
    if (!controlled()) return REAL(pthread_rwlock_tryrdlock)(l);
    Rt r; g_res->tried = 1; sched_op(t_id, OP_TRYLOCK, l); Obj *o = obj_of(l); if (o->owner) return EBUSY; o->readers++; vc_acquire(t_id, o); return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
    if (!controlled()) return REAL(pthread_rwlock_trywrlock)(l);
    Rt r; g_res->tried = 1; sched_op(t_id, OP_TRYLOCK, l); Obj *o = obj_of(l); if (o->owner || o->readers) return EBUSY; o->owner = t_id + 1; vc_acquire(t_id, o); return 0;
}

int pthread_create(pthread_t *pt, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    if (!controlled()) return REAL(pthread_create)(pt, attr, fn, arg);
    Rt r;
    int me = t_id, t = g_nthr;
    if (t >= MAXT) mc::fail("too-many-threads", "more than %d threads created", (int)MAXT);
    Thr &x = g_thr[t];
    memset((void *)&x, 0, sizeof x);
    x.used = 1; x.fn = fn; x.fnarg = arg; x.op = OP_START; x.obj = nullptr;
    touch_obj(me, &g_thr[t], OP_START);
    x.hist = mix(g_thr[me].hist, 4242);
    // happens-before: creation, and (stack reuse) every already finished thread
    memcpy(x.vc, g_thr[me].vc, sizeof x.vc);
    for (int i = 0; i < g_nthr; i++) if (g_thr[i].finished) vc_join(x.vc, g_thr[i].vc);
    x.vc[t] = 1;
    g_thr[me].vc[me]++;
    g_nthr = t + 1;
    pthread_attr_t a2; pthread_attr_init(&a2); pthread_attr_setstacksize(&a2, 256 << 10);
    int e = REAL(pthread_create)(&x.pt, &a2, trampoline, (void *)(long)t);
    if (e) mc::fail("harness-pthread-create", "cannot create a thread");
    *pt = x.pt;
    return 0;
}
int pthread_join(pthread_t pt, void **ret) {
    if (!controlled()) return REAL(pthread_join)(pt, ret);
    Rt r;
    int t = -1;
    for (int i = g_nthr - 1; i >= 0; i--) if (g_thr[i].used && pthread_equal(g_thr[i].pt, pt) && !g_thr[i].exited_os) { t = i; break; }
    if (t < 0) mc::fail("bad-join", "T%d joins an unknown or already joined thread", t_id);
    g_thr[t_id].arg = t;
    sched_op(t_id, OP_JOIN, &g_thr[t]);
    vc_acquire(t_id, obj_of(&g_thr[t]));
    g_thr[t].exited_os = 1;
    if (ret) *ret = g_thr[t].ret;
    return REAL(pthread_join)(pt, nullptr);
}
int pthread_detach(pthread_t pt) {
    if (!controlled()) return REAL(pthread_detach)(pt);
    Rt r;
    for (int i = g_nthr - 1; i >= 0; i--) if (g_thr[i].used && pthread_equal(g_thr[i].pt, pt)) { g_thr[i].detached = 1; break; }
    return 0;   // the OS thread stays joinable, the process is about to end anyway
}

static void do_yield() { Rt r; g_thr[t_id].yielded = 1; sched_op(t_id, OP_YIELD, &g_thr[t_id]); }
int clock_gettime(clockid_t k, struct timespec *ts) noexcept {
    if (!controlled() || (k != CLOCK_REALTIME && k != CLOCK_MONOTONIC)) return raw_syscall(SYS_clock_gettime, k, (long)ts, 0, 0, 0, 0);
    Rt r; g_vns += 1000; g_thr[t_id].hist = mix(g_thr[t_id].hist, (uint64_t)g_vns);
    int64_t v = base_of(k) + g_vns; ts->tv_sec = v / 1000000000LL; ts->tv_nsec = v % 1000000000LL; return 0;
}
static void slept(const struct timespec *a) { if (a) g_vns += a->tv_sec * 1000000000LL + a->tv_nsec; }
int sched_yield() { if (!controlled()) return raw_syscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0); do_yield(); return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { if (!controlled()) return raw_syscall(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0); slept(a); do_yield(); return 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { if (!controlled()) return -raw_syscall(SYS_clock_nanosleep, c, f, (long)a, (long)b, 0, 0); if (f) expire(c, a); else slept(a); do_yield(); return 0; }
int usleep(useconds_t u) { if (!controlled()) { struct timespec ts = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return raw_syscall(SYS_nanosleep, (long)&ts, 0, 0, 0, 0, 0); } g_vns += u * 1000LL; do_yield(); return 0; }

// one-time initialisation
int pthread_once(pthread_once_t *o, void (*f)(void)) {
    if (!controlled()) { if (g_active) { if (*o == 0) { *o = 2; f(); } return 0; } return REAL(pthread_once)(o, f); }
    { Rt r; sched_op(t_id, OP_LOCK, o); obj_of(o)->owner = t_id + 1; vc_acquire(t_id, obj_of(o)); }
    if (*o != 2) { f(); *o = 2; }
    { Rt r; Obj *b = obj_of(o); touch_obj(t_id, o, OP_UNLOCK); b->owner = 0; vc_release(t_id, b); }
    return 0;
}
int __cxa_guard_acquire(uint64_t *g) {
    if (!controlled()) { if (*(volatile char *)g) return 0; return 1; }
    Rt r; int t = t_id; Obj *o = obj_of(g);
    if (*(volatile char *)g) { vc_acquire(t, o); return 0; }
    sched_op(t, OP_GUARD, g);
    if (*(volatile char *)g) { vc_acquire(t, o); return 0; }
    o->owner = t + 1;
    return 1;
}
void __cxa_guard_release(uint64_t *g) {
    *(volatile char *)g = 1;
    if (!controlled()) return;
    Rt r; Obj *o = obj_of(g); touch_obj(t_id, g, OP_UNLOCK); o->owner = 0; vc_release(t_id, o);
}
void __cxa_guard_abort(uint64_t *g) { if (!controlled()) return; Rt r; Obj *o = obj_of(g); o->owner = 0; }

// std::future / atomic waits go through syscall(SYS_futex)
long syscall(long n, ...) noexcept {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && controlled()) {
        int op = b & 127;
        Rt r; int t = t_id;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            sched_op(t, OP_POINT, (void *)a);
            if (*(volatile int *)a != (int)c) { errno = EAGAIN; return -1; }
            Thr &x = g_thr[t]; x.signalled = 0; x.timed = d != 0; x.op = OP_FUTEX; x.obj = (void *)a;
            reschedule(t);
            int how = x.signalled; x.signalled = 0; x.timed = 0;
            touch_obj(t, (void *)a, OP_FUTEX);
            vc_acquire(t, obj_of((void *)a));
            if (how == 2) { expire(0, nullptr); errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            sched_op(t, OP_SIGNAL, (void *)a);
            vc_release(t, obj_of((void *)a));
            long k = 0;
            for (int i = 0; i < g_nthr && k < c; i++) if (g_thr[i].op == OP_FUTEX && g_thr[i].obj == (void *)a && !g_thr[i].signalled && !g_thr[i].finished) { g_thr[i].signalled = 1; k++; }
            return k;
        }
    }
    long rr = raw_syscall(n, a, b, c, d, e, f);
    if (rr < 0 && rr > -4096) { errno = -rr; return -1; }
    return rr;
}

// ---------------------------------------------------------------------------
// compiler instrumentation (-fsanitize=thread without its runtime)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void *p) { access_range(p, N, false); } \
    void __tsan_write##N(void *p) { access_range(p, N, true); } \
    void __tsan_unaligned_read##N(void *p) { access_range(p, N, false); } \
    void __tsan_unaligned_write##N(void *p) { access_range(p, N, true); } \
    void __tsan_volatile_read##N(void *p) { access_range(p, N, false); } \
    void __tsan_volatile_write##N(void *p) { access_range(p, N, true); } \
    void __tsan_read_write##N(void *p) { access_range(p, N, true); } \
    void __tsan_unaligned_read_write##N(void *p) { access_range(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long n) { access_range(p, n, false); }
void __tsan_write_range(void *p, long n) { access_range(p, n, true); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access_range(p, 8, true); }
void __tsan_vptr_read(void **p) { access_range(p, 8, false); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access_range(s, n, false); access_range(d, n, true); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access_range(s, n, false); access_range(d, n, true); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access_range(d, n, true); return memset(d, c, n); }

static void atomic_op(const volatile void *p, int mo, bool load, bool store) {
    if (!controlled() || g_nthr == 1) return;
    Rt r; int t = t_id;
    // libstdc++ reference counts are acquire-release read-modify-writes: order
    // irrelevant, so not a scheduling point (see DESIGN.md)
    bool refcount = load && store && (mo == __ATOMIC_ACQ_REL);
    if (!refcount) {
        if (load && !store) {
            if (g_thr[t].op == OP_ATOMIC && g_thr[t].obj == (void *)p) { if (++g_thr[t].spins > 6) g_thr[t].yielded = 1; }
            else g_thr[t].spins = 0;
            if (g_thr[t].spins > 6) g_thr[t].spins = 7;
        } else g_thr[t].spins = 0;
        sched_op(t, OP_ATOMIC, (void *)p);
    }
    Obj *o = obj_of((void *)p);
    if (load) vc_acquire(t, o);
    if (store) vc_release(t, o);
}
#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T *p, int mo) { atomic_op(p, mo, true, false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##N##_store(volatile T *p, T v, int mo) { atomic_op(p, mo, false, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_exchange(volatile T *p, T v, int mo) { atomic_op(p, mo, true, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int mo) { atomic_op(p, mo, true, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int mo) { atomic_op(p, mo, true, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int mo) { atomic_op(p, mo, true, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int mo) { atomic_op(p, mo, true, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int mo) { atomic_op(p, mo, true, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int mo) { atomic_op(p, mo, true, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int) { atomic_op(p, mo, true, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int) { atomic_op(p, mo, true, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int mo, int) { atomic_op(p, mo, true, true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __sync_synchronize(); }
void __tsan_atomic_signal_fence(int) {}
}  // extern "C"

// ---------------------------------------------------------------------------
// the parts of containers that live in the C++ library, where nothing is instrumented
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept {
    access_range(&p->_M_prev, 8, true); access_range(&p->_M_prev->_M_next, 8, true); access_range(this, 16, true);
    _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
    access_range(this, 16, false); access_range(&_M_prev->_M_next, 8, true); access_range(&_M_next->_M_prev, 8, true);
    _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev;
}
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
    if (this == l) return;
    access_range(&l->_M_prev, 8, true); access_range(&f->_M_prev, 8, true); access_range(&_M_prev, 8, true);
    access_range(&l->_M_prev->_M_next, 8, true); access_range(&f->_M_prev->_M_next, 8, true); access_range(&_M_prev->_M_next, 8, true);
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
    _List_node_base *const t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    access_range(&x, 16, true); access_range(&y, 16, true);
    bool ex = x._M_next == &x, ey = y._M_next == &y; std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
    if (ey) { x._M_next = x._M_prev = &x; } else { x._M_next->_M_prev = x._M_prev->_M_next = &x; }
    if (ex) { y._M_next = y._M_prev = &y; } else { y._M_next->_M_prev = y._M_prev->_M_next = &y; }
}
} }

// ---------------------------------------------------------------------------
// explorer
namespace {

enum { QCAP = 1 << 20, VCAP = 1 << 23, OCAP = 1 << 16, NVIOL = 64 };

struct Viol { char key[160]; char msg[1600]; char scen[128]; int scen_idx; int bound; int points; Prefix p; };

struct Shared {
    pthread_spinlock_t lock;
    volatile int top, busy, stop, timeout_hit, queue_full, tried;
    uint64_t execs, steps, points, states, outcomes, accesses, replays, maxpoints, maxthreads, fatal;
    int nviol;
    char fatal_msg[512];
    Viol viol[NVIOL];
    uint64_t outcome_tab[OCAP];
};
Shared *S;
Prefix *Q;
uint64_t *V;
Result *R[64];

void slock() { while (__atomic_exchange_n((volatile int *)&S->lock, 1, __ATOMIC_ACQUIRE)) raw_syscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
void sunlock() { __atomic_store_n((volatile int *)&S->lock, 0, __ATOMIC_RELEASE); }

bool visited(uint64_t h) {   // returns true if already there; inserts otherwise
    if (h == 0) h = 1;
    size_t i = mix(9, h) & (VCAP - 1);
    for (int k = 0; k < 64; k++, i = (i + 1) & (VCAP - 1)) {
        uint64_t c = __atomic_load_n(&V[i], __ATOMIC_RELAXED);
        if (c == h) return true;
        if (c == 0) {
            uint64_t z = 0;
            if (__atomic_compare_exchange_n(&V[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __atomic_fetch_add(&S->states, 1, __ATOMIC_RELAXED); return false; }
            if (z == h) return true;
        }
    }
    return false;   // table crowded: explore without pruning
}

double now() { struct timeval tv; gettimeofday(&tv, nullptr); return tv.tv_sec + tv.tv_usec * 1e-6; }

enum RunEnd { RE_OK, RE_FAIL, RE_CRASH, RE_HANG, RE_DIVERGED, RE_TOOLONG };

RunEnd run_one(const mc::Scenario &sc, int bound, const Prefix *p, Result *r, int secs, bool trace = false) {
    r->status = ST_RUNNING; r->npoints = 0; r->key[0] = 0; r->msg[0] = 0; r->steps = 0; r->tried = 0;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(70); }
    if (pid == 0) {
        alarm(secs);
        g_res = r; g_prefix = p; g_prefix_pos = 0;
        g_bounded = bound >= 0; g_races = sc.races; g_trace = trace;
        memset((void *)&g_thr[0], 0, sizeof g_thr[0]);
        g_thr[0].used = 1; g_thr[0].hist = 1; g_thr[0].vc[0] = 1; g_thr[0].pt = pthread_self();
        g_nthr = 1; g_cur = 0; t_id = 0;
        if (!trace) { int fd = 2; (void)fd; }
        g_active = true;
        try { sc.body(); }
        catch (const std::exception &e) { mc::fail("exception", "exception escapes from the library: %s", e.what()); }
        catch (...) { mc::fail("exception", "unknown exception escapes from the library"); }
        t_inrt++;
        g_thr[0].finished = 1; g_thr[0].op = OP_EXIT;
        // let any remaining threads finish (detached ones, or abandoned)
        reschedule(0);
        park(0);
        _exit(0);
    }
    int st;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (r->status == ST_FAIL) return RE_FAIL;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) return RE_HANG;
    if (r->status == ST_OK) return RE_OK;
    if (r->status == ST_DIVERGED) return RE_DIVERGED;
    if (r->status == ST_TOOLONG) return RE_TOOLONG;
    if (WIFSIGNALED(st)) snprintf(r->key, sizeof r->key, "crash-signal-%d", WTERMSIG(st));
    else snprintf(r->key, sizeof r->key, "unexpected-exit-%d", WEXITSTATUS(st));
    snprintf(r->msg, sizeof r->msg, "the process ended abnormally under this schedule (%s)", r->key);
    return RE_CRASH;
}

void fatal(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    slock();
    if (!S->fatal) { vsnprintf(S->fatal_msg, sizeof S->fatal_msg, fmt, ap); S->fatal = 1; }
    S->stop = 1;
    sunlock();
}

void add_viol(const mc::Scenario &sc, int idx, int bound, const Prefix &p, const Result *r, int *stopcount) {
    slock();
    bool dup = false;
    for (int i = 0; i < S->nviol; i++) if (!strcmp(S->viol[i].key, r->key) && S->viol[i].scen_idx == idx) dup = true;
    if (!dup && S->nviol < NVIOL) {
        Viol &v = S->viol[S->nviol++];
        snprintf(v.key, sizeof v.key, "%s", r->key);
        snprintf(v.msg, sizeof v.msg, "%s", r->msg);
        snprintf(v.scen, sizeof v.scen, "%s", sc.name.c_str());
        v.scen_idx = idx; v.bound = bound; v.points = g_trypoints; v.p = p;
    }
    (*stopcount)++;
    sunlock();
}

void worker(int w, int cpu, const mc::Scenario &sc, int sidx, int pb, int fb, double deadline) {
    cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(cpu, &cs); sched_setaffinity(0, sizeof cs, &cs);
    Result *r = R[w];
    int viols = 0;
    bool idle = true;
    for (;;) {
        Prefix p;
        slock();
        if (S->stop) { if (!idle) S->busy--; sunlock(); return; }
        if (S->top == 0) {
            if (!idle) { S->busy--; idle = true; }
            if (S->busy == 0) { sunlock(); return; }
            sunlock();
            struct timespec ts = {0, 200000}; raw_syscall(SYS_nanosleep, (long)&ts, 0, 0, 0, 0, 0);
            continue;
        }
        p = Q[--S->top];
        if (idle) { S->busy++; idle = false; }
        sunlock();
        if (now() > deadline) { slock(); S->timeout_hit = 1; S->stop = 1; sunlock(); continue; }
        RunEnd e = run_one(sc, pb, &p, r, 20);
        __atomic_fetch_add(&S->execs, 1, __ATOMIC_RELAXED);
        __atomic_fetch_add(&S->steps, r->steps, __ATOMIC_RELAXED);
        __atomic_fetch_add(&S->accesses, r->accesses, __ATOMIC_RELAXED);
        __atomic_fetch_add(&S->points, r->npoints, __ATOMIC_RELAXED);
        if (e == RE_HANG) {
            e = run_one(sc, pb, &p, r, 60);
            if (e == RE_HANG) { snprintf(r->key, sizeof r->key, "hang"); snprintf(r->msg, sizeof r->msg, "the call does not return (no scheduling progress within 60 s)"); e = RE_FAIL; }
        }
        if (e == RE_DIVERGED) { fatal("%s: replay of a prefix diverged (uncontrolled nondeterminism)", sc.name.c_str()); continue; }
        // the scenarios need a few hundred points at most
        if (e == RE_TOOLONG) { snprintf(r->key, sizeof r->key, "no-termination"); snprintf(r->msg, sizeof r->msg, "the call is not over after %d scheduling choices", (int)MAXPOINTS); e = RE_FAIL; }
        if (e == RE_FAIL || e == RE_CRASH) {
            // replay before report
            Result keep; memcpy((void *)&keep, (void *)r, offsetof(Result, points));
            RunEnd e2 = run_one(sc, pb, &p, r, 60);
            __atomic_fetch_add(&S->replays, 1, __ATOMIC_RELAXED);
            if (e2 == RE_HANG || e2 == RE_TOOLONG) e2 = RE_FAIL;
            // any failure of the same schedule confirms it
            if (e2 != RE_FAIL && e2 != RE_CRASH) { fatal("%s: failure '%s' did not reproduce on replay", sc.name.c_str(), keep.key); continue; }
            memcpy((void *)r->key, (void *)keep.key, sizeof keep.key);
            memcpy((void *)r->msg, (void *)keep.msg, sizeof keep.msg);
            add_viol(sc, sidx, pb, p, r, &viols);
            slock(); if (viols >= 3) S->stop = 1; sunlock();
        }
        if (r->tried && !g_trypoints) { slock(); S->tried = 1; S->stop = 1; sunlock(); continue; }
        if (e == RE_OK) {
            slock();
            uint64_t o = mix(5, r->outcome) | 1;
            size_t i = o & (OCAP - 1);
            for (int k = 0; k < 64; k++, i = (i + 1) & (OCAP - 1)) { if (S->outcome_tab[i] == o) break; if (!S->outcome_tab[i]) { S->outcome_tab[i] = o; S->outcomes++; break; } }
            if ((uint64_t)r->npoints > S->maxpoints) S->maxpoints = r->npoints;
            if ((uint64_t)r->threads > S->maxthreads) S->maxthreads = r->threads;
            sunlock();
        }
        // expand
        int start = p.n ? p.d[p.n - 1].point + 1 : 0;
        int pc = 0, fc = 0;
        for (int i = 0; i < start && i < r->npoints; i++) { int c = r->points[i].chosen; if (c < 32) { pc += r->points[i].pcost >> c & 1; fc += r->points[i].fcost >> c & 1; } }
        for (int i = start; i < r->npoints; i++) {
            Point &q = r->points[i];
            if (visited(q.state)) break;
            for (int a = 1; a < q.n; a++) {
                int dp = a < 32 ? q.pcost >> a & 1 : 0, df = a < 32 ? q.fcost >> a & 1 : 0;
                if (pb >= 0 && pc + dp > pb) continue;
                if (fc + df > fb) continue;
                if (p.n >= MAXDEV) continue;   // only threads that wait for each other by yielding get here: unfair schedules
                Prefix c2 = p; c2.d[c2.n].point = i; c2.d[c2.n].alt = a; c2.n++;
                slock();
                if (S->top >= QCAP) { S->queue_full = 1; S->stop = 1; } else Q[S->top++] = c2;
                sunlock();
            }
        }
    }
}

void *shm(size_t n) {
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(70); }
    return p;
}

std::string jesc(const std::string &s) {
    std::string o;
    for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; }
    return o;
}

}  // namespace

namespace mc {

int run(int argc, char **argv, const char *property, std::vector<Scenario> scenarios) {
    std::string out, replay, only; double budget = 600;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--out" && i + 1 < argc) out = argv[++i];
        else if (a == "--replay" && i + 1 < argc) replay = argv[++i];
        else if (a == "--budget" && i + 1 < argc) budget = atof(argv[++i]);
        else if (a == "--only" && i + 1 < argc) only = argv[++i];
        else if (a == "--tier" && i + 1 < argc) ++i;
    }
    signal(SIGPIPE, SIG_IGN);
    g_arena = (char *)mmap(nullptr, (size_t)ARENA * (MAXT + 1), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_cells = (Cell *)mmap(nullptr, sizeof(Cell) * NCELL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_arena == MAP_FAILED || (void *)g_cells == MAP_FAILED) { perror("mmap"); return 70; }
    (void)REAL(pthread_create); (void)REAL(pthread_join); (void)REAL(pthread_mutex_lock); (void)REAL(pthread_mutex_unlock); (void)REAL(pthread_detach);
    S = (Shared *)shm(sizeof(Shared));
    Q = (Prefix *)shm(sizeof(Prefix) * (size_t)QCAP);
    V = (uint64_t *)shm(sizeof(uint64_t) * (size_t)VCAP);
    cpu_set_t cs; CPU_ZERO(&cs); sched_getaffinity(0, sizeof cs, &cs);
    std::vector<int> cpus; for (int i = 0; i < CPU_SETSIZE && cpus.size() < 16; i++) if (CPU_ISSET(i, &cs)) cpus.push_back(i);
    int nw = cpus.size();
    for (int i = 0; i < nw; i++) R[i] = (Result *)shm(sizeof(Result));

    if (!replay.empty()) {
        FILE *f = fopen(replay.c_str(), "r"); if (!f) { perror(replay.c_str()); return 70; }
        char line[4096]; std::string scen; int bound = -1; Prefix p; p.n = 0;
        while (fgets(line, sizeof line, f)) {
            char nm[256]; int a, b;
            if (sscanf(line, "scenario %255s", nm) == 1) scen = nm;
            else if (sscanf(line, "bound %d", &a) == 1) bound = a;
            else if (sscanf(line, "points %d", &a) == 1) g_trypoints = a;
            else if (sscanf(line, "choice %d %d", &a, &b) == 2) { p.d[p.n].point = a; p.d[p.n].alt = b; p.n++; }
        }
        fclose(f);
        for (auto &sc : scenarios) if (sc.name == scen) {
            RunEnd e = run_one(sc, bound, &p, R[0], 60, true);
            printf("replay of %s: %s %s: %s\n", scen.c_str(), e == RE_OK ? "no violation" : "VIOLATED", R[0]->key, R[0]->msg);
            return e == RE_OK ? 0 : 1;
        }
        fprintf(stderr, "unknown scenario %s\n", scen.c_str());
        return 70;
    }

    double t0 = now();
    std::string scen_json; bool complete = true; std::string incomplete;
    uint64_t tot_states = 0, tot_execs = 0, tot_steps = 0, tot_points = 0, tot_out = 0, tot_acc = 0, tot_replays = 0;
    std::vector<Viol> viols;
    int idx = 0;
    for (auto &sc : scenarios) {
        idx++;
        if (!only.empty() && sc.name.find(only) == std::string::npos) continue;
        // determinism: the default schedule twice, identical observations
        Prefix empty; empty.n = 0; S->tried = 0; g_trypoints = false;
        RunEnd a = run_one(sc, sc.preemptions, &empty, R[0], 60);
        uint64_t o1 = R[0]->outcome, s1 = R[0]->steps; int p1 = R[0]->npoints; uint64_t last1 = p1 ? R[0]->points[p1 - 1].state : 0;
        RunEnd b = run_one(sc, sc.preemptions, &empty, R[0], 60);
        uint64_t last2 = R[0]->npoints ? R[0]->points[R[0]->npoints - 1].state : 0;
        if ((a == RE_OK) != (b == RE_OK) || (a == RE_OK && (o1 != R[0]->outcome || s1 != R[0]->steps || p1 != R[0]->npoints || last1 != last2))) {
            fprintf(stderr, "mc: scenario %s is not deterministic under a fixed schedule\n", sc.name.c_str());
            return 71;
        }
        int first = sc.iterate && sc.preemptions >= 0 ? 0 : sc.preemptions, completed = -2;
        uint64_t e0 = tot_execs, st0 = 0; bool scen_done = true;
        for (int pb = first; pb <= sc.preemptions || pb == -1; pb++) {
            madvise(V, sizeof(uint64_t) * (size_t)VCAP, MADV_REMOVE);
            int nviol_keep = S->nviol;
            uint64_t *tab = S->outcome_tab; memset(tab, 0, sizeof S->outcome_tab);
            S->execs = S->steps = S->points = S->states = S->outcomes = S->accesses = S->replays = 0;
            S->top = 1; S->busy = 0; S->stop = 0; S->timeout_hit = 0; S->queue_full = 0; Q[0].n = 0; S->lock = 0;
            std::vector<pid_t> pids;
            for (int w = 0; w < nw; w++) {
                pid_t pid = fork();
                if (pid == 0) { worker(w, cpus[w], sc, idx - 1, pb, sc.faults, t0 + budget); _exit(0); }
                pids.push_back(pid);
            }
            for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "mc: explorer worker died (status %d)\n", st); return 72; } }
            tot_execs += S->execs; tot_steps += S->steps; tot_points += S->points; tot_acc += S->accesses; tot_replays += S->replays;
            st0 = S->states;
            if (S->fatal) {
                fprintf(stderr, "mc: %s\n", S->fatal_msg);
                if (S->nviol == 0) return 73;      // a confirmed violation outranks it
                S->fatal = 0; complete = false;
            }
            if (S->tried && S->nviol == nviol_keep) { S->tried = 0; g_trypoints = true; pb = first - 1; continue; }
            bool cut = S->timeout_hit || S->queue_full;
            if (cut) { complete = false; scen_done = false; incomplete += sc.name + " "; }
            else completed = pb;
            if (cut || S->nviol > nviol_keep || pb == -1) break;
        }
        tot_states += st0; tot_out += S->outcomes;
        char buf[600];
        snprintf(buf, sizeof buf, "%s{\"scenario\":\"%s\",\"preemption_bound\":\"%s\",\"bound_completed\":%d,\"fault_bound\":%d,\"schedules\":%lu,\"states\":%lu,\"distinct_outcomes\":%lu,\"max_choice_points\":%lu,\"threads\":%lu,\"complete\":%s}",
                 scen_json.empty() ? "" : ",", jesc(sc.name).c_str(), sc.preemptions < 0 ? "unbounded" : std::to_string(sc.preemptions).c_str(), completed, sc.faults,
                 (unsigned long)(tot_execs - e0), (unsigned long)st0, (unsigned long)S->outcomes, (unsigned long)S->maxpoints, (unsigned long)S->maxthreads, scen_done ? "true" : "false");
        scen_json += buf;
        printf("mc: %s schedules=%lu states=%lu outcomes=%lu%s viol=%d t=%.1f\n", sc.name.c_str(), (unsigned long)(tot_execs - e0), (unsigned long)st0, (unsigned long)S->outcomes, scen_done ? "" : " (cut)", S->nviol, now() - t0);
        fflush(stdout);
        S->maxpoints = S->maxthreads = 0;
    }
    for (int i = 0; i < S->nviol; i++) viols.push_back(S->viol[i]);
    FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) { perror(out.c_str()); return 70; }
    fprintf(f, "{\"coverage\":{\"states\":%lu,\"transitions\":%lu,\"traces_validated_against_impl\":%lu,\"choice_points\":%lu,\"distinct_outcomes\":%lu,\"race_checked_accesses\":%lu,\"failure_replays\":%lu,\"exhaustive\":%s,\"incomplete\":\"%s\",\"samples\":[%s]},\"violations\":[",
            (unsigned long)tot_states, (unsigned long)tot_steps, (unsigned long)tot_execs, (unsigned long)tot_points, (unsigned long)tot_out, (unsigned long)tot_acc, (unsigned long)tot_replays, complete ? "true" : "false", jesc(incomplete).c_str(), scen_json.c_str());
    for (size_t i = 0; i < viols.size(); i++) {
        Viol &v = viols[i];
        std::string ch;
        for (int k = 0; k < v.p.n; k++) ch += "choice " + std::to_string(v.p.d[k].point) + " " + std::to_string(v.p.d[k].alt) + "\n";
        std::string rep = std::string("scenario ") + v.scen + "\nbound " + std::to_string(v.bound) + "\npoints " + std::to_string(v.points) + "\n" + ch;
        fprintf(f, "%s{\"key\":\"%s:%s\",\"message\":\"%s\",\"replay\":\"%s\"}", i ? "," : "", jesc(v.scen).c_str(), jesc(v.key).c_str(), jesc(v.msg).c_str(), jesc(rep).c_str());
    }
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    (void)property;
    return viols.empty() ? 0 : 1;
}

}  // namespace mc
