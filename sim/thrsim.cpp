#include "thrsim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <new>
#include <set>
#include <string>
#include <vector>
#include <exception>
#include <typeinfo>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#define EXPORT extern "C" __attribute__((visibility("default"), used))
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

static long raw(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                     : "rcx", "r11", "memory");
    return r;
}

// ------------------------------------------------------------------ what a run leaves behind

enum { MAXT = 10, MAXDEV = 60000, MAXNOTE = 24000 };

struct dec_t { u32 step; u8 kind; u32 val; };      // kind: S switch, W spurious wake-up, T time jump, A failing allocation

struct shared_t
{
    volatile int  done;             // 1 ended, 2 violation
    u64  steps, switches, blocks, spurious, jumps, timeouts, allocfail, accesses, atomics, hash, vtime, probes[16];
    int  threads;
    char msg[600];
    u32  ndev;
    dec_t dev[MAXDEV];
    u32  nnote;
    char note[MAXNOTE];
};
static shared_t * R;

// ------------------------------------------------------------------ memory

static const u64 ABASE = 0x210000000000ull, ASIZE = 2ull << 30;
static char * a_cur, * a_end;
struct hdr_t { u64 size, magic; };
static const u64 LIVE = 0x11FE11FE0A0A0A0Aull, DEAD = 0xDEADDEAD0B0B0B0Bull;

static void * bump(size_t n, size_t al)
{
    if (!a_cur)
    {
        long p = raw(SYS_mmap, ABASE, ASIZE, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != (long)ABASE)
            _exit(97);
        a_cur = (char *)p;
        a_end = a_cur + ASIZE;
    }
    if (al < 16) al = 16;
    u64 p = ((u64)a_cur + sizeof(hdr_t) + al - 1) / al * al;
    if (p + n + 16 > (u64)a_end)
        return nullptr;
    hdr_t * h = (hdr_t *)p - 1;
    h->size = n;
    h->magic = LIVE;
    a_cur = (char *)(p + (n + 15) / 16 * 16);
    return (void *)p;
}

// ------------------------------------------------------------------ threads

enum why_t { W_RUN, W_MUTEX, W_COND, W_ONCE, W_GUARD, W_FUTEX, W_SLEEP, W_RWLOCK, W_USER, W_DONE, W_NEW, W_SEM };
static const char * why_name[] = { "running", "a mutex", "a condition variable", "a once flag", "a static variable",
                                   "a futex", "sleep", "a shared mutex", "an event of the scenario", "done", "start", "a semaphore" };

struct thread_t
{
    int   id = 0;
    int   baton = 0;
    why_t why = W_NEW;
    const void * obj = nullptr;
    u64   deadline = 0;             // 0: none
    bool  timed_out = false, spurious = false;
    int   quiet = 0;
    u64   vc[MAXT] = {};
    u64   prio = 0, ran = 0;
    const char * what = nullptr;
    std::function<bool()> const * cond = nullptr;
    std::function<void()> fn;
    pthread_t pt;
};

static thread_t T[MAXT];
static int NT = 1;
static bool g_active;
static __thread thread_t * me;
static u64 g_now = 1000000000ull, g_step;
static int g_cur;
static int g_finished;

struct cfg_t
{
    bool  replay = false;
    int   policy = 0;               // 0 uniform, 1 priorities, 2 time slices
    u32   p_sync = 4, p_mem = 0, p_spur = 0, p_time = 0, p_alloc = 0;
    u64   slice = 0;
    std::vector<u64> change;        // steps at which the running thread loses its priority
    std::vector<dec_t> dev;
    size_t at = 0;
    bool alloc_faults = false;
};
static cfg_t C;
static vs::rng_t g_rng(1);
static u64 MAXSTEPS = 400000;
static bool g_alloc_failed;

static void futex_wait(int * p, int v) { raw(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0); }
static void futex_wake(int * p) { raw(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1, 0); }

static void mix(u64 x) { R->hash = (R->hash ^ x) * 0x100000001b3ull; R->hash ^= R->hash >> 29; }

static void finish(int code)
{
    R->steps = g_step;
    R->vtime = g_now - 1000000000ull;
    R->done = code;
    raw(SYS_exit_group, code == 1 ? 0 : 3);
    for (;;) ;
}

static void vnote(const char * fmt, va_list ap)
{
    char b[300];
    int n = vsnprintf(b, sizeof b, fmt, ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    if (R->nnote + n + 32 >= MAXNOTE)
        return;
    R->nnote += snprintf(R->note + R->nnote, MAXNOTE - R->nnote, "%llu t%d %s\n", (unsigned long long)g_step, me ? me->id : 0, b);
}

namespace vs {
void fail(const char * fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    va_end(ap);
    finish(2);
    __builtin_unreachable();
}
void check(bool ok, const char * fmt, ...)
{
    if (ok) return;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    va_end(ap);
    finish(2);
}
void note(const char * fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vnote(fmt, ap);
    va_end(ap);
}
int self() { return me ? me->id : 0; }
u64 now_ns() { return g_now; }
void probe(int k) { R->probes[k & 15]++; }
bool alloc_failed_in_this_run() { return g_alloc_failed; }
quiet_t::quiet_t() { if (me) me->quiet++; }
quiet_t::~quiet_t() { if (me) me->quiet--; }
}

// ------------------------------------------------------------------ scheduler

static void add_dev(char kind, u32 val)
{
    if (R->ndev < MAXDEV)
        R->dev[R->ndev++] = { (u32)g_step, (u8)kind, val };
}

static bool eligible(thread_t & t)
{
    if (t.why == W_RUN) return true;
    if (t.why == W_USER && t.cond && (*t.cond)()) return true;
    return false;
}

static void fire_timers()
{
    for (int i = 1; i < NT; i++)
    {
        thread_t & t = T[i];
        if (t.deadline && t.deadline <= g_now && t.why != W_RUN && t.why != W_DONE && t.why != W_NEW)
        {
            t.deadline = 0;
            t.timed_out = true;
            t.why = W_RUN;
            R->timeouts++;
        }
    }
}

static void deadlock()
{
    char b[500];
    int n = snprintf(b, sizeof b, "deadlock:");
    for (int i = 1; i < NT; i++)
        if (T[i].why != W_DONE)
            n += snprintf(b + n, sizeof b - n, " thread %d waits for %s%s%s;", i,
                          T[i].what ? T[i].what : why_name[T[i].why], "", "");
    vs::fail("%s no thread can go on", b);
}

static bool next_dev(char kind, u32 * val)
{
    while (C.at < C.dev.size() && C.dev[C.at].step < g_step)
        C.at++;
    for (size_t k = C.at; k < C.dev.size() && C.dev[k].step == g_step; k++)
        if (C.dev[k].kind == (u8)kind)
        {
            *val = C.dev[k].val;
            return true;
        }
    return false;
}

// who runs next; self_ok: the calling thread may go on
static int decide_(bool self_ok, bool sync);
static int decide(bool self_ok, bool sync)
{
    me->quiet++;                    // nothing below is a step of the system
    int r = decide_(self_ok, sync);
    me->quiet--;
    return r;
}
static int decide_(bool self_ok, bool sync)
{
    g_now += 100;
    u32 v;
    // faults
    if (C.replay)
    {
        if (next_dev('T', &v)) { g_now += (u64)v * 1000; R->jumps++; add_dev('T', v); }
        if (next_dev('W', &v) && v < (u32)NT && T[v].why == W_COND)
        {
            T[v].why = W_RUN; T[v].spurious = true; T[v].deadline = 0; R->spurious++; add_dev('W', v);
        }
    }
    else
    {
        if (C.p_time && g_rng.one_in(C.p_time))
        {
            u64 best = 0;
            for (int i = 1; i < NT; i++)
                if (T[i].deadline && (!best || T[i].deadline < best)) best = T[i].deadline;
            u32 us = best && best > g_now && g_rng.below(2) ? (u32)((best - g_now) / 1000 + 1) : (u32)(1 + g_rng.below(2000));
            g_now += (u64)us * 1000;
            R->jumps++;
            add_dev('T', us);
        }
        if (C.p_spur && g_rng.one_in(C.p_spur))
        {
            int w[MAXT], n = 0;
            for (int i = 1; i < NT; i++) if (T[i].why == W_COND) w[n++] = i;
            if (n)
            {
                int t = w[g_rng.below(n)];
                T[t].why = W_RUN; T[t].spurious = true; T[t].deadline = 0; R->spurious++; add_dev('W', t);
            }
        }
    }
    fire_timers();
    int ok[MAXT], n = 0;
    for (;;)
    {
        n = 0;
        for (int i = 1; i < NT; i++)
            if (i == g_cur ? self_ok || eligible(T[i]) : eligible(T[i]))
                ok[n++] = i;
        if (n) break;
        u64 best = 0;
        for (int i = 1; i < NT; i++)
            if (T[i].deadline && T[i].why != W_DONE && (!best || T[i].deadline < best)) best = T[i].deadline;
        if (!best)
            deadlock();
        g_now = best;
        fire_timers();
    }
    int def = g_cur;
    bool forced = self_ok && T[g_cur].ran > 6000 && n > 1;
    if (!self_ok || forced)
    {
        def = ok[0];
        for (int k = 0; k < n; k++)
            if (ok[k] > g_cur) { def = ok[k]; break; }
    }
    int pick = def;
    if (C.replay)
    {
        if (next_dev('S', &v))
            for (int k = 0; k < n; k++)
                if (ok[k] == (int)v) pick = v;
    }
    else if (n > 1 && !forced)
    {
        if (C.policy == 1)
        {
            while (!C.change.empty() && C.change.back() <= g_step)
            {
                C.change.pop_back();
                T[g_cur].prio = g_rng.below(1000);      // below all initial ones
            }
            pick = ok[0];
            for (int k = 1; k < n; k++)
                if (T[ok[k]].prio > T[pick].prio) pick = ok[k];
            if (!sync && self_ok && C.p_mem && g_rng.one_in(C.p_mem * 8))
                pick = ok[g_rng.below(n)];
        }
        else if (C.policy == 2)
        {
            if (!self_ok || (T[g_cur].ran >= C.slice))
                pick = ok[g_rng.below(n)];
        }
        else
        {
            u32 p = sync ? C.p_sync : C.p_mem;
            if (!self_ok || (p && g_rng.one_in(p)))
                pick = ok[g_rng.below(n)];
        }
    }
    if (pick != def)
        add_dev('S', pick);
    return pick;
}

static void handoff(int to)
{
    thread_t * self = me;
    if (to == self->id)
        return;
    R->switches++;
    mix(0x5000 + to);
    g_cur = to;
    T[to].ran = 0;
    if (T[to].why == W_USER) T[to].why = W_RUN;
    __atomic_store_n(&T[to].baton, 1, __ATOMIC_SEQ_CST);
    futex_wake(&T[to].baton);
    if (self->why == W_DONE)
        return;
    while (!__atomic_load_n(&self->baton, __ATOMIC_SEQ_CST))
        futex_wait(&self->baton, 0);
    __atomic_store_n(&self->baton, 0, __ATOMIC_SEQ_CST);
}

static void step_check()
{
    g_step++;
    me->ran++;
    if (g_step > MAXSTEPS)
        vs::fail("progress: not done after %llu steps", (unsigned long long)MAXSTEPS);
}

static void yield_point(bool sync, u32 tag)
{
    if (!me || me->quiet || !g_active)
        return;
    if (sync) mix(tag + ((u64)me->id << 20));
    step_check();
    int to = decide(true, sync);
    handoff(to);
}

// blocks until woken (false) or timed out (true)
static bool block(why_t w, const void * obj, u64 deadline, const char * what = nullptr)
{
    me->why = w;
    me->obj = obj;
    me->deadline = deadline;
    me->timed_out = me->spurious = false;
    me->what = what;
    R->blocks++;
    mix(0x9000 + w + ((u64)me->id << 20));
    step_check();
    int to = decide(false, true);
    if (to == me->id)
        ;
    else
        handoff(to);
    me->why = W_RUN;
    me->what = nullptr;
    me->deadline = 0;
    return me->timed_out;
}

static int wake(why_t w, const void * obj, int n)
{
    int c = 0;
    int first = 1;
    int cnt = NT - 1;
    // which waiter is woken first is a scheduling decision too: rotate by the step number
    int off = n == 1 ? (int)(g_step % (cnt ? cnt : 1)) : 0;
    for (int k = 0; k < cnt && c < n; k++)
    {
        thread_t & t = T[first + (k + off) % cnt];
        if (t.why == w && t.obj == obj)
        {
            t.why = W_RUN;
            t.deadline = 0;
            c++;
        }
    }
    return c;
}

// ------------------------------------------------------------------ happens-before

struct sync_t { const void * p; u64 vc[MAXT]; };
static sync_t * S;
enum { NSYNC = 1 << 12 };

static sync_t & sync_of(const void * p)
{
    u64 h = ((u64)p * 0x9E3779B97F4A7C15ull) >> 52;
    for (;; h = (h + 1) & (NSYNC - 1))
    {
        if (S[h].p == p) return S[h];
        if (!S[h].p) { S[h].p = p; return S[h]; }
    }
}
static void hb_acquire(const void * p)
{
    if (!me) return;
    sync_t & s = sync_of(p);
    for (int i = 0; i < NT; i++) if (s.vc[i] > me->vc[i]) me->vc[i] = s.vc[i];
}
static void hb_release(const void * p)
{
    if (!me) return;
    sync_t & s = sync_of(p);
    for (int i = 0; i < NT; i++) if (me->vc[i] > s.vc[i]) s.vc[i] = me->vc[i];
    me->vc[me->id]++;
}

struct cell_t { u64 g; u64 wclk; u8 wtid, wmask, freed, pad[5]; u64 rclk[MAXT]; u8 rmask[MAXT]; };
static cell_t * M;
enum { NCELL = 1 << 16 };
static u32 g_cells;

static cell_t * cell_of(u64 g)
{
    if (g_cells > NCELL * 3 / 4) return nullptr;
    u64 h = (g * 0x9E3779B97F4A7C15ull) >> 48;
    for (;; h = (h + 1) & (NCELL - 1))
    {
        if (M[h].g == g) return &M[h];
        if (!M[h].g) { M[h].g = g; g_cells++; return &M[h]; }
    }
}

static void fname(void * pc, char * out, size_t n)
{
    Dl_info di;
    if (dladdr(pc, &di) && di.dli_sname)
        snprintf(out, n, "%s", di.dli_sname);
    else
        snprintf(out, n, "?");
}

static void bad_access(const char * kind, const char * how, int size, void * pc, int other)
{
    char f[260];
    me->quiet++;
    fname(pc, f, sizeof f);
    if (other >= 0)
        vs::fail("%s: %s of %d bytes by thread %d in %s, unordered with thread %d", kind, how, size, me->id, f, other);
    vs::fail("%s: %s of %d bytes by thread %d in %s", kind, how, size, me->id, f);
}

static void access(u64 a, int size, bool wr, void * pc, bool atomic = false)
{
    if (!me || me->quiet || !g_active)
        return;
    R->accesses++;
    u64 end = a + size;
    for (u64 g = a >> 3; g <= (end - 1) >> 3; g++)
    {
        cell_t * c = cell_of(g);
        if (!c) break;
        u64 lo = g << 3;
        u8 mask = 0;
        for (int k = 0; k < 8; k++)
            if (lo + k >= a && lo + k < end) mask |= 1 << k;
        if (c->freed & mask)
            bad_access("use after free", wr ? "write" : "read", size, pc, -1);
        int t = me->id;
        if (c->wmask & mask && c->wtid != t && c->wclk > me->vc[c->wtid] && !(atomic && c->pad[0]))
            bad_access("race", wr ? "write" : "read", size, pc, c->wtid);
        if (wr)
        {
            for (int u = 0; u < NT; u++)
                if (u != t && (c->rmask[u] & mask) && c->rclk[u] > me->vc[u] && !(atomic && (c->pad[1] >> u & 1)))
                    bad_access("race", "write", size, pc, u);
            c->wtid = t;
            c->wclk = me->vc[t];
            c->wmask = mask;
            c->pad[0] = atomic;
        }
        else
        {
            if (c->rclk[t] != me->vc[t]) c->rmask[t] = 0;
            c->rclk[t] = me->vc[t];
            c->rmask[t] |= mask;
            if (atomic) c->pad[1] |= 1 << (t & 7); else c->pad[1] &= ~(1 << (t & 7));
        }
    }
    if (!atomic)
        yield_point(false, 0);
}

// ------------------------------------------------------------------ allocator

struct held_t { const void * m; int tid; };
static held_t H[64];
static int nheld;

EXPORT void * malloc(size_t n)
{
    if (me && g_active && !me->quiet && C.alloc_faults)
    {
        yield_point(false, 0);
        u32 v;
        bool hit = C.replay ? next_dev('A', &v) : C.p_alloc && g_rng.one_in(C.p_alloc);
        if (hit)
        {
            add_dev('A', 1);
            R->allocfail++;
            g_alloc_failed = true;
            errno = ENOMEM;
            return nullptr;
        }
    }
    void * p = bump(n, 16);
    if (p && me && g_active) memset(p, 0xA5, n);
    return p;
}

EXPORT void free(void * p)
{
    if (!p || (u64)p < ABASE || (u64)p >= ABASE + ASIZE)
        return;
    hdr_t * h = (hdr_t *)p - 1;
    if (me && g_active)
    {
        if (h->magic == DEAD)
        {
            me->quiet++;
            vs::fail("double free: block of %llu bytes by thread %d", (unsigned long long)h->size, me->id);
        }
        for (int i = 0; i < nheld; i++)
            if ((u64)H[i].m >= (u64)p && (u64)H[i].m < (u64)p + h->size)
                vs::fail("freed lock: thread %d frees memory that holds a mutex thread %d has locked", me->id, H[i].tid);
        for (int i = 1; i < NT; i++)
            if (T[i].why != W_RUN && T[i].why != W_DONE && T[i].obj && (u64)T[i].obj >= (u64)p && (u64)T[i].obj < (u64)p + h->size)
                vs::fail("freed lock: thread %d frees memory that holds a mutex thread %d waits for", me->id, i);
        if (!me->quiet)
            access((u64)p, h->size ? (int)h->size : 1, true, __builtin_return_address(0));
        for (u64 g = (u64)p >> 3; g <= ((u64)p + (h->size ? h->size : 1) - 1) >> 3; g++)
            if (cell_t * c = cell_of(g)) c->freed = 0xff;
    }
    h->magic = DEAD;
}

EXPORT void * calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    void * p = malloc(n);
    if (p) memset(p, 0, n);
    return p;
}
EXPORT void * realloc(void * p, size_t n)
{
    if (!p) return malloc(n);
    void * q = malloc(n);
    if (!q) return nullptr;
    size_t o = ((hdr_t *)p - 1)->size;
    memcpy(q, p, o < n ? o : n);
    free(p);
    return q;
}
EXPORT void * memalign(size_t al, size_t n) { return bump(n, al); }
EXPORT void * aligned_alloc(size_t al, size_t n) { return bump(n, al); }
EXPORT int posix_memalign(void ** o, size_t al, size_t n) { return (*o = bump(n, al)) ? 0 : ENOMEM; }
EXPORT size_t malloc_usable_size(void * p) { return p ? ((hdr_t *)p - 1)->size : 0; }

// ------------------------------------------------------------------ mutexes

static void hold(const void * m) { if (nheld < 64 && me) H[nheld++] = { m, me->id }; }
static void unhold(const void * m)
{
    for (int i = 0; i < nheld; i++)
        if (H[i].m == m) { H[i] = H[--nheld]; return; }
}

static void m_touch(pthread_mutex_t * m, const char * how)
{
    if (!me || !g_active || me->quiet) return;
    cell_t * c = cell_of((u64)m >> 3);
    if (c && c->freed)
        bad_access("use after free", how, 8, __builtin_return_address(0), -1);
}

static bool m_take(pthread_mutex_t * m)
{
    int id = me ? me->id + 1 : 100;
    if (m->__data.__lock == 0)
    {
        m->__data.__lock = 1;
        m->__data.__owner = id;
        m->__data.__count = 1;
        return true;
    }
    if (m->__data.__owner == id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)
    {
        m->__data.__count++;
        return true;
    }
    return false;
}

static int m_lock(pthread_mutex_t * m, u64 deadline, bool tr)
{
    m_touch(m, "lock");
    yield_point(true, tr ? 0x11 : 0x10);
    while (!m_take(m))
    {
        if (tr) return EBUSY;
        if (!me) _exit(96);
        if (me->quiet) vs::fail("simulator: blocked inside bookkeeping");
        if (block(W_MUTEX, m, deadline) && m->__data.__lock)
            return ETIMEDOUT;
    }
    hold(m);
    hb_acquire(m);
    return 0;
}

EXPORT int pthread_mutex_lock(pthread_mutex_t * m) { return m_lock(m, 0, false); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t * m) { return m_lock(m, 0, true); }
static u64 ns(const timespec * t) { return (u64)t->tv_sec * 1000000000ull + t->tv_nsec; }
EXPORT int pthread_mutex_timedlock(pthread_mutex_t * m, const timespec * t) { return m_lock(m, ns(t), false); }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t, const timespec * t) { return m_lock(m, ns(t), false); }

static void m_release(pthread_mutex_t * m)
{
    int id = me ? me->id + 1 : 100;
    if (m->__data.__lock == 0 || m->__data.__owner != id)
    {
        if (me && g_active)
            vs::fail("unlock: thread %d unlocks a mutex %s", me->id, m->__data.__lock ? "another thread has locked" : "that is not locked");
        return;
    }
    if (--m->__data.__count)
        return;
    hb_release(m);
    unhold(m);
    m->__data.__lock = 0;
    m->__data.__owner = 0;
    wake(W_MUTEX, m, MAXT);
}

EXPORT int pthread_mutex_unlock(pthread_mutex_t * m)
{
    m_touch(m, "unlock");
    m_release(m);
    yield_point(true, 0x12);
    return 0;
}

EXPORT int pthread_mutex_destroy(pthread_mutex_t * m)
{
    if (me && g_active && m->__data.__lock)
        vs::fail("freed lock: thread %d destroys a locked mutex", me->id);
    return 0;
}

// ------------------------------------------------------------------ shared mutexes: state in the object itself

struct rw_t { int readers, writer; };
static int rw_lock(pthread_rwlock_t * r, bool wr, bool tr)
{
    rw_t * s = (rw_t *)r;
    yield_point(true, 0x18);
    for (;;)
    {
        if (wr ? !s->readers && !s->writer : !s->writer)
            break;
        if (tr) return EBUSY;
        if (!me) _exit(96);
        block(W_RWLOCK, r, 0);
    }
    if (wr) s->writer = 1; else s->readers++;
    hb_acquire(r);
    return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t * r) { return rw_lock(r, false, false); }
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t * r) { return rw_lock(r, true, false); }
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t * r) { return rw_lock(r, false, true); }
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t * r) { return rw_lock(r, true, true); }
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t * r)
{
    rw_t * s = (rw_t *)r;
    hb_release(r);
    if (s->writer) s->writer = 0; else if (s->readers) s->readers--;
    wake(W_RWLOCK, r, MAXT);
    yield_point(true, 0x19);
    return 0;
}
EXPORT int pthread_rwlock_init(pthread_rwlock_t * r, const pthread_rwlockattr_t *) { memset(r, 0, sizeof *r); return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }

// ------------------------------------------------------------------ condition variables

static int c_wait(pthread_cond_t * c, pthread_mutex_t * m, u64 deadline)
{
    if (!me) _exit(96);
    m_touch((pthread_mutex_t *)c, "wait");
    yield_point(true, 0x20);
    if (deadline && deadline <= g_now)
    {
        m_release(m);
        yield_point(true, 0x23);
        while (!m_take(m)) block(W_MUTEX, m, 0);
        hold(m);
        hb_acquire(m);
        return ETIMEDOUT;
    }
    m_release(m);
    bool to = block(W_COND, c, deadline);
    while (!m_take(m))
        block(W_MUTEX, m, 0);
    hold(m);
    hb_acquire(m);
    return to ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { return c_wait(c, m, 0); }
EXPORT int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const timespec * t) { return c_wait(c, m, ns(t) ? ns(t) : 1); }
EXPORT int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t, const timespec * t) { return c_wait(c, m, ns(t) ? ns(t) : 1); }
EXPORT int pthread_cond_signal(pthread_cond_t * c)
{
    m_touch((pthread_mutex_t *)c, "signal");
    yield_point(true, 0x21);
    wake(W_COND, c, 1);
    return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t * c)
{
    m_touch((pthread_mutex_t *)c, "signal");
    yield_point(true, 0x22);
    wake(W_COND, c, MAXT);
    return 0;
}
EXPORT int pthread_cond_init(pthread_cond_t * c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t *) { return 0; }

// ------------------------------------------------------------------ once, static variables

EXPORT int pthread_once(pthread_once_t * o, void (*fn)(void))
{
    yield_point(true, 0x30);
    for (;;)
    {
        if (*o == 2)
        {
            hb_acquire(o);
            return 0;
        }
        if (*o == 0)
            break;
        if (!me) _exit(96);
        block(W_ONCE, o, 0);
    }
    *o = 1;
    hb_acquire(o);
    try
    {
        fn();
    }
    catch (...)
    {
        *o = 0;
        hb_release(o);
        wake(W_ONCE, o, MAXT);
        throw;
    }
    *o = 2;
    hb_release(o);
    wake(W_ONCE, o, MAXT);
    yield_point(true, 0x31);
    return 0;
}

EXPORT int __cxa_guard_acquire(u64 * g)
{
    u8 * b = (u8 *)g;
    yield_point(true, 0x32);
    for (;;)
    {
        if (b[0])
        {
            hb_acquire(g);
            return 0;
        }
        if (!b[1])
            break;
        if (!me) _exit(96);
        block(W_GUARD, g, 0);
    }
    b[1] = 1;
    hb_acquire(g);
    return 1;
}
EXPORT void __cxa_guard_release(u64 * g)
{
    u8 * b = (u8 *)g;
    hb_release(g);
    b[0] = 1;
    b[1] = 0;
    wake(W_GUARD, g, MAXT);
    yield_point(true, 0x33);
}
EXPORT void __cxa_guard_abort(u64 * g)
{
    u8 * b = (u8 *)g;
    hb_release(g);
    b[1] = 0;
    wake(W_GUARD, g, MAXT);
}

// ------------------------------------------------------------------ futexes, semaphores, sleep, clocks

EXPORT long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && me && g_active)
    {
        int op = (int)b & 0x7f;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
        {
            yield_point(true, 0x40);
            if (*(int *)a != (int)c) { errno = EAGAIN; return -1; }
            u64 dl = 0;
            if (d) dl = op == FUTEX_WAIT ? g_now + ns((timespec *)d) : ns((timespec *)d);
            if (block(W_FUTEX, (void *)a, dl)) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
        {
            yield_point(true, 0x41);
            return wake(W_FUTEX, (void *)a, c > MAXT ? MAXT : (int)c);
        }
    }
    long r = raw(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}

struct sem2_t { int v; };
static int s_wait(sem_t * s, u64 dl, bool tr)
{
    sem2_t * x = (sem2_t *)s;
    yield_point(true, 0x48);
    while (x->v == 0)
    {
        if (tr) { errno = EAGAIN; return -1; }
        if (!me) _exit(96);
        if (block(W_SEM, s, dl) && x->v == 0) { errno = ETIMEDOUT; return -1; }
    }
    x->v--;
    hb_acquire(s);
    return 0;
}
EXPORT int sem_init(sem_t * s, int, unsigned v) { memset(s, 0, sizeof *s); ((sem2_t *)s)->v = (int)v; return 0; }
EXPORT int sem_destroy(sem_t *) { return 0; }
EXPORT int sem_wait(sem_t * s) { return s_wait(s, 0, false); }
EXPORT int sem_trywait(sem_t * s) { return s_wait(s, 0, true); }
EXPORT int sem_timedwait(sem_t * s, const timespec * t) { return s_wait(s, ns(t) ? ns(t) : 1, false); }
EXPORT int sem_clockwait(sem_t * s, clockid_t, const timespec * t) { return s_wait(s, ns(t) ? ns(t) : 1, false); }
EXPORT int sem_post(sem_t * s)
{
    hb_release(s);
    ((sem2_t *)s)->v++;
    wake(W_SEM, s, MAXT);
    yield_point(true, 0x49);
    return 0;
}
EXPORT int sem_getvalue(sem_t * s, int * v) { *v = ((sem2_t *)s)->v; return 0; }

static void sleep_until(u64 dl)
{
    if (!me) return;
    if (dl <= g_now) { yield_point(true, 0x50); return; }
    block(W_SLEEP, &dl, dl);
}
EXPORT int nanosleep(const timespec * t, timespec *) { sleep_until(g_now + ns(t)); return 0; }
EXPORT int clock_nanosleep(clockid_t, int fl, const timespec * t, timespec *) { sleep_until(fl ? ns(t) : g_now + ns(t)); return 0; }
EXPORT int usleep(useconds_t u) { sleep_until(g_now + (u64)u * 1000); return 0; }
EXPORT int sched_yield(void)
{
    if (me && g_active && !me->quiet) { me->ran += 7000; yield_point(true, 0x51); }
    return 0;
}
EXPORT int clock_gettime(clockid_t, timespec * t)
{
    t->tv_sec = g_now / 1000000000ull;
    t->tv_nsec = g_now % 1000000000ull;
    return 0;
}

// ------------------------------------------------------------------ what the compiler's instrumentation calls

#define PC __builtin_return_address(0)
EXPORT void __tsan_init() { }
EXPORT void __tsan_func_entry(void *) { }
EXPORT void __tsan_func_exit() { }
EXPORT void __tsan_ignore_thread_begin() { }
EXPORT void __tsan_ignore_thread_end() { }
#define RW(n) \
EXPORT void __tsan_read##n(void * p) { access((u64)p, n, false, PC); } \
EXPORT void __tsan_write##n(void * p) { access((u64)p, n, true, PC); } \
EXPORT void __tsan_unaligned_read##n(void * p) { access((u64)p, n, false, PC); } \
EXPORT void __tsan_unaligned_write##n(void * p) { access((u64)p, n, true, PC); } \
EXPORT void __tsan_volatile_read##n(void * p) { access((u64)p, n, false, PC); } \
EXPORT void __tsan_volatile_write##n(void * p) { access((u64)p, n, true, PC); } \
EXPORT void __tsan_unaligned_volatile_read##n(void * p) { access((u64)p, n, false, PC); } \
EXPORT void __tsan_unaligned_volatile_write##n(void * p) { access((u64)p, n, true, PC); } \
EXPORT void __tsan_read_write##n(void * p) { access((u64)p, n, false, PC); access((u64)p, n, true, PC); } \
EXPORT void __tsan_unaligned_read_write##n(void * p) { access((u64)p, n, false, PC); access((u64)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_vptr_update(void ** p, void * v) { if (*p != v) access((u64)p, 8, true, PC); }
EXPORT void __tsan_vptr_read(void ** p) { access((u64)p, 8, false, PC); }
EXPORT void __tsan_read_range(void * p, size_t n) { if (n) access((u64)p, (int)n, false, PC); }
EXPORT void __tsan_write_range(void * p, size_t n) { if (n) access((u64)p, (int)n, true, PC); }
EXPORT void * __tsan_memcpy(void * d, const void * s, size_t n)
{
    if (n) { access((u64)s, (int)n, false, PC); access((u64)d, (int)n, true, PC); }
    return memcpy(d, s, n);
}
EXPORT void * __tsan_memmove(void * d, const void * s, size_t n)
{
    if (n) { access((u64)s, (int)n, false, PC); access((u64)d, (int)n, true, PC); }
    return memmove(d, s, n);
}
EXPORT void * __tsan_memset(void * d, int c, size_t n)
{
    if (n) access((u64)d, (int)n, true, PC);
    return memset(d, c, n);
}

// an atomic operation: one scheduling point before it, then all of it without another
static bool pre_atom()
{
    if (!me || !g_active || me->quiet) return false;
    R->atomics++;
    yield_point(true, 0x60);
    return true;
}
static void atom(bool on, const volatile void * p, int n, int mo, bool rd, bool wr, void * pc)
{
    if (!on) return;
    if (rd && mo != __ATOMIC_RELAXED && mo != __ATOMIC_RELEASE)
        hb_acquire((const void *)p);
    access((u64)p, n, wr, pc, true);
    if (wr && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST))
        hb_release((const void *)p);
}

#define RMW(bits, type, name, expr) \
EXPORT type __tsan_atomic##bits##_##name(volatile type * p, type v, int mo) \
{ bool on = pre_atom(); atom(on, p, bits / 8, mo, true, true, PC); type o = *p; *p = (type)(expr); return o; }
#define CAS(bits, type, name) \
EXPORT int __tsan_atomic##bits##_##name(volatile type * p, type * e, type v, int mo, int) \
{ bool on = pre_atom(), ok = *p == *e; atom(on, p, bits / 8, mo, true, ok, PC); if (ok) { *p = v; return 1; } *e = *p; return 0; }
#define AT(bits, type) \
EXPORT type __tsan_atomic##bits##_load(const volatile type * p, int mo) { bool on = pre_atom(); atom(on, p, bits / 8, mo, true, false, PC); return *p; } \
EXPORT void __tsan_atomic##bits##_store(volatile type * p, type v, int mo) { bool on = pre_atom(); atom(on, p, bits / 8, mo, false, true, PC); *p = v; } \
RMW(bits, type, exchange, v) RMW(bits, type, fetch_add, o + v) RMW(bits, type, fetch_sub, o - v) RMW(bits, type, fetch_and, o & v) \
RMW(bits, type, fetch_or, o | v) RMW(bits, type, fetch_xor, o ^ v) RMW(bits, type, fetch_nand, ~(o & v)) \
CAS(bits, type, compare_exchange_strong) CAS(bits, type, compare_exchange_weak) \
EXPORT type __tsan_atomic##bits##_compare_exchange_val(volatile type * p, type e, type v, int mo, int) \
{ bool on = pre_atom(), ok = *p == e; atom(on, p, bits / 8, mo, true, ok, PC); type o = *p; if (ok) *p = v; return o; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
EXPORT void __tsan_atomic_thread_fence(int) { static int f; if (me) { hb_acquire(&f); hb_release(&f); } }
EXPORT void __tsan_atomic_signal_fence(int) { }

// ------------------------------------------------------------------ scenarios' interface

namespace vs {

int spawn(const std::function<void()> & fn)
{
    if (NT >= 8) _exit(95);
    T[NT].id = NT;
    T[NT].fn = fn;
    return NT++;
}

static void * entry(void * a)
{
    thread_t * t = (thread_t *)a;
    me = t;
    while (!__atomic_load_n(&t->baton, __ATOMIC_SEQ_CST))
        futex_wait(&t->baton, 0);
    __atomic_store_n(&t->baton, 0, __ATOMIC_SEQ_CST);
    try
    {
        t->fn();
    }
    catch (const std::exception & e)
    {
        t->quiet++;
        fail("exception: thread %d ended with %s", t->id, typeid(e).name());
    }
    catch (...)
    {
        t->quiet++;
        fail("exception: thread %d ended with an exception", t->id);
    }
    t->quiet = 0;
    t->why = W_DONE;
    mix(0xD000 + t->id);
    step_check();
    g_finished++;
    if (g_finished == NT - 1)
    {
        __atomic_store_n(&T[0].baton, 1, __ATOMIC_SEQ_CST);
        futex_wake(&T[0].baton);
        return nullptr;
    }
    int to = decide(false, true);
    handoff(to);
    return nullptr;
}

void start_and_join()
{
    R->threads = NT - 1;
    for (int i = 1; i < NT; i++)
    {
        T[i].why = W_RUN;
        T[i].vc[i] = 1;
        T[i].vc[0] = 1;
        T[i].prio = 1000 + g_rng.below(1 << 20);
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 256 << 10);
        if (pthread_create(&T[i].pt, &at, entry, &T[i])) _exit(94);
    }
    g_active = true;
    g_cur = 1;
    int first = C.replay ? 1 : 1 + (int)g_rng.below(NT - 1);
    u32 v;
    if (C.replay) { if (next_dev('S', &v) && v < (u32)NT && v) first = v; }
    if (first != 1) add_dev('S', first);
    g_cur = first;
    __atomic_store_n(&T[first].baton, 1, __ATOMIC_SEQ_CST);
    futex_wake(&T[first].baton);
    while (!__atomic_load_n(&T[0].baton, __ATOMIC_SEQ_CST))
        futex_wait(&T[0].baton, 0);
    T[0].baton = 0;
    g_active = false;
}

void point() { yield_point(true, 0x70); }
void sleep_ns(u64 n) { sleep_until(g_now + n); }

void wait_until(const std::function<bool()> & cond, const char * what)
{
    if (!me) return;
    yield_point(true, 0x71);
    for (;;)
    {
        me->quiet++;
        bool ok = cond();
        me->quiet--;
        if (ok) return;
        me->cond = &cond;
        block(W_USER, nullptr, 0, what);
        me->cond = nullptr;
    }
}

}   // vs

// ------------------------------------------------------------------ running

static void configure(u64 seed)
{
    g_rng = vs::rng_t(seed * 2 + 1);
    static const u32 ps[] = { 1, 2, 3, 6, 16 }, pm[] = { 0, 0, 4, 16, 64 };
    C.policy = g_rng.below(8);
    C.policy = C.policy < 4 ? 0 : C.policy < 7 ? 1 : 2;
    C.p_sync = ps[g_rng.below(5)];
    C.p_mem = pm[g_rng.below(5)];
    C.p_spur = g_rng.below(3) ? 0 : 4 + (u32)g_rng.below(60);
    C.p_time = g_rng.below(3) ? 0 : 10 + (u32)g_rng.below(200);
    C.p_alloc = g_rng.below(4) == 0 ? 0 : 2 + (u32)g_rng.below(120);
    C.slice = 1 + g_rng.below(60);
    if (C.policy == 1)
    {
        int d = (int)g_rng.below(6);
        u64 span = 20ull << g_rng.below(8);
        for (int i = 0; i < d; i++) C.change.push_back(1 + g_rng.below(span));
        for (size_t i = 0; i < C.change.size(); i++)
            for (size_t j = i + 1; j < C.change.size(); j++)
                if (C.change[j] > C.change[i]) std::swap(C.change[i], C.change[j]);
    }
}

static void child(const vs::scenario_t & sc, u64 seed, bool replay, const std::vector<dec_t> & dev)
{
    rlimit rl { 30, 30 };
    setrlimit(RLIMIT_CPU, &rl);
    rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    alarm(20);
    configure(seed);
    C.replay = replay;
    C.dev = dev;
    C.alloc_faults = sc.alloc_faults;
    me = &T[0];
    T[0].vc[0] = 1;
    T[0].why = W_RUN;
    vs::rng_t w(seed * 2);
    R->hash = 0xcbf29ce484222325ull;
    sc.run(w);
    finish(1);
}

struct tot_t { u64 runs, steps, switches, blocks, spurious, jumps, timeouts, allocfail, accesses, atomics, vtime, viol, probes[16]; };

// 0 fine, 1 violation, 2 error
static int run_one(const vs::scenario_t & sc, u64 seed, bool replay, const std::vector<dec_t> & dev)
{
    memset((void *)R, 0, offsetof(shared_t, dev));
    R->nnote = 0;
    R->note[0] = 0;
    pid_t p = fork();
    if (p == 0)
    {
        child(sc, seed, replay, dev);
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    if (R->done == 1) return 0;
    if (R->done == 2) return 1;
    if (WIFSIGNALED(st) && WTERMSIG(st) != SIGALRM && WTERMSIG(st) != SIGXCPU && WTERMSIG(st) != SIGKILL)
    {
        snprintf(R->msg, sizeof R->msg, "crash: signal %d", WTERMSIG(st));
        return 1;
    }
    snprintf(R->msg, sizeof R->msg, "simulator: child ended with status 0x%x", st);
    return 2;
}

static void put_result(int rc)
{
    std::string m(R->msg);
    for (char & c : m) if (c == '\n') c = ' ';
    printf("res %d %016llx %llu %llu %d\n", rc, (unsigned long long)R->hash, (unsigned long long)R->steps,
           (unsigned long long)R->switches, R->threads);
    printf("msg %s\n", m.c_str());
    printf("dev %u", R->ndev);
    for (u32 i = 0; i < R->ndev; i++) printf(" %u%c%u", R->dev[i].step, R->dev[i].kind, R->dev[i].val);
    printf("\n");
    printf("note %u\n", R->nnote);
    fwrite(R->note, 1, R->nnote, stdout);
    printf("\nend\n");
    fflush(stdout);
}

int main(int argc, char ** argv)
{
    if (!getenv("VSIM_NOASLR"))
    {
        personality(ADDR_NO_RANDOMIZE);
        setenv("VSIM_NOASLR", "1", 1);
        char * const env[] = { (char *)"VSIM_NOASLR=1", (char *)"LC_ALL=C", nullptr };
        execve("/proc/self/exe", argv, env);
    }
    if (argc > 1)                               // one core: handing the baton over is cheap
    {
        cpu_set_t cs;
        CPU_ZERO(&cs);
        CPU_SET(atoi(argv[1]), &cs);
        sched_setaffinity(0, sizeof cs, &cs);
    }
    R = (shared_t *)mmap(nullptr, sizeof(shared_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    M = (cell_t *)mmap(nullptr, sizeof(cell_t) * NCELL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    S = (sync_t *)mmap(nullptr, sizeof(sync_t) * NSYNC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    static char line[1 << 21];
    while (fgets(line, sizeof line, stdin))
    {
        char cmd[8], name[64];
        unsigned long long seed, n = 0;
        int used = 0;
        if (sscanf(line, "%7s %63s %llu %llu%n", cmd, name, &seed, &n, &used) < 3)
            return 2;
        const vs::scenario_t * sc = nullptr;
        for (int i = 0; i < vs::scenario_count; i++)
            if (!strcmp(vs::scenarios[i].name, name)) sc = &vs::scenarios[i];
        if (!sc)
            return 2;
        if (cmd[0] == 'B')                      // batch: seeds seed, seed+1, ...
        {
            tot_t t {};
            int viol = 0;
            for (u64 k = 0; k < n && viol < 2; k++)
            {
                int rc = run_one(*sc, seed + k, false, {});
                t.runs++; t.steps += R->steps; t.switches += R->switches; t.blocks += R->blocks; t.spurious += R->spurious;
                t.jumps += R->jumps; t.timeouts += R->timeouts; t.allocfail += R->allocfail; t.accesses += R->accesses;
                t.atomics += R->atomics; t.vtime += R->vtime;
                for (int i = 0; i < 16; i++) t.probes[i] += R->probes[i];
                printf("h %016llx\n", (unsigned long long)R->hash);
                if (rc)
                {
                    viol++;
                    printf("%c %llu %s\n", rc == 1 ? 'V' : 'E', (unsigned long long)(seed + k), R->msg);
                }
                else if (k % 40 == 0)           // the same seed again: the same execution?
                {
                    u64 h = R->hash, s = R->steps;
                    run_one(*sc, seed + k, false, {});
                    printf("%c %llu differs on repetition\n", R->hash == h && R->steps == s ? 'r' : 'E', (unsigned long long)(seed + k));
                }
            }
            printf("t %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu", (unsigned long long)t.runs, (unsigned long long)t.steps,
                   (unsigned long long)t.switches, (unsigned long long)t.blocks, (unsigned long long)t.spurious, (unsigned long long)t.jumps,
                   (unsigned long long)t.timeouts, (unsigned long long)t.allocfail, (unsigned long long)t.accesses,
                   (unsigned long long)t.atomics, (unsigned long long)t.vtime);
            for (int i = 0; i < 16; i++) printf(" %llu", (unsigned long long)t.probes[i]);
            printf("\nend\n");
            fflush(stdout);
        }
        else if (cmd[0] == 'O')                 // one seed
        {
            put_result(run_one(*sc, seed, false, {}));
        }
        else if (cmd[0] == 'R')                 // replay: recorded decisions
        {
            std::vector<dec_t> dev;
            char * p = line + used;
            unsigned st, v;
            char k;
            int u;
            while (sscanf(p, " %u%c%u%n", &st, &k, &v, &u) == 3)
            {
                dev.push_back({ st, (u8)k, v });
                p += u;
            }
            put_result(run_one(*sc, seed, true, dev));
        }
    }
    return 0;
}
