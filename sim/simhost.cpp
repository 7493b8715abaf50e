// simhost: the whole of xuyouchun/april inside a simulated process environment.
//
// The real compiler, loader and interpreter (every translation unit of the shipped executable,
// main() renamed to april_real_main) run unchanged; this file replaces what is under them:
//
//   * every system call that touches files, descriptors, directories, the pid, randomness or
//     process exit is trapped (seccomp SECCOMP_RET_TRAP + SIGSYS) and served by handler(), which
//     numbers it, may inject a fault at that number, may let the scheduler run another
//     simulated process first, and only then performs the real call inside the scratch folder;
//   * malloc and friends are the allocator below: addresses, order, reuse, fill bytes and
//     failures are chosen by the request, and every block carries a canary;
//   * the clock is simulated, address-space randomisation is off.
//
// One request describes one execution completely, so the same request gives the same execution.
// It is a server: requests on fd 0, answers on fd 1, one fork per simulated process.

#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/futex.h>
#include <linux/seccomp.h>
#include <poll.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

int april_real_main(int argc, char ** argv);

// ------------------------------------------------------------------ raw system calls

__asm__(
    ".text\n.globl sim_raw\n.type sim_raw,@function\nsim_raw:\n"
    "mov %rdi,%rax\nmov %rsi,%rdi\nmov %rdx,%rsi\nmov %rcx,%rdx\nmov %r8,%r10\nmov %r9,%r8\n"
    "mov 8(%rsp),%r9\nsyscall\n.globl sim_raw_ret\nsim_raw_ret:\nret\n");
extern "C" long sim_raw(long nr, long a, long b, long c, long d, long e, long f);
extern "C" char sim_raw_ret[];

static inline long raw(long nr, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
    return sim_raw(nr, a, b, c, d, e, f);
}

// ------------------------------------------------------------------ prng

struct rng_t
{
    uint64_t s;
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

// ------------------------------------------------------------------ allocator

static const size_t ARENA = 4ull << 30;
static const uint64_t ARENA_BASE = 0x1fffc0000000ull;      // holds a multiple of 2^32 and one of 2^31
static const uint32_t MAGIC_LIVE = 0x51a110c8, MAGIC_FREE = 0xdeadf7ee;
static const size_t CANARY = 16;

struct chunk_t              // 48 bytes, then payload
{
    chunk_t * next_all;
    chunk_t * next_free;
    uint64_t  cap;          // bytes available to the payload, canary included
    uint64_t  req;          // bytes asked for
    uint64_t  serial;
    uint32_t  magic;
    uint32_t  shift;        // payload - (chunk + 1), for aligned blocks
};

struct alloc_cfg_t
{
    int      down = 0;      // 1: addresses descend
    long long base = 0;     // n > 0: a multiple of 2^32 lies n bytes into the heap; n < 0: one of 2^31
    int      align = 0;     // larger blocks lie at multiples of 1 << align
    int      gap = 0;       // random gap, in units of 16 bytes
    int      reuse = 1;     // 0 never, 1 last in first out, 2 random
    int      fill = 0;      // 0 zero, 1 0xff, 2 0xa5, 3 random, 4 leave what freed blocks held
    uint64_t fail_at = 0;   // the n-th allocation fails (1-based); 0: none
    uint64_t fail_n = 0;    // how many in a row
    uint64_t limit = 1ull << 30;
};

static alloc_cfg_t g_ac;
static rng_t g_arng{1};
static char * g_lo, * g_hi;             // unused part of the arena
static chunk_t * g_all;
static const int NCLASS = 64;
static chunk_t * g_free[NCLASS];
static uint64_t g_serial, g_live, g_peak, g_fired_alloc;
static bool g_count_allocs;
static uint64_t g_nalloc;
static char g_heap_report[400];

static int cls_of(size_t cap)
{
    int k = 0;
    size_t c = 32;
    while (c < cap && k < NCLASS - 1)
    {
        c += c <= 512 ? 32 : c / 4 / 16 * 16;
        k++;
    }
    return k;
}

static size_t cap_of(int k)
{
    size_t c = 32;
    while (k--)
        c += c <= 512 ? 32 : c / 4 / 16 * 16;
    return c;
}

static void arena_init()
{
    if (g_lo)
        return;
    void * p = (void *)syscall(SYS_mmap, ARENA_BASE, ARENA, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)ARENA_BASE)
        _exit(97);
    g_lo = (char *)p;
    g_hi = g_lo + ARENA;
}

static bool g_debug_bt;
static void report_heap(const char * what, chunk_t * c)
{
    if (!g_heap_report[0])
    {
        int n = snprintf(g_heap_report, sizeof g_heap_report, "%s: block of %llu bytes",
                 what, (unsigned long long)c->req);
        if (g_debug_bt)                     // for a human: where, as code addresses
        {
            void * a[12];
            int k = backtrace(a, 12);
            for (int i = 1; i < k && n < (int)sizeof g_heap_report - 20; i++)
                n += snprintf(g_heap_report + n, sizeof g_heap_report - n, " %p", a[i]);
        }
    }
}

static bool canary_ok(chunk_t * c)
{
    const unsigned char * p = (unsigned char *)(c + 1) + c->shift + c->req;
    for (size_t k = 0; k < CANARY; k++)
        if (p[k] != (unsigned char)(0xC7 ^ k))
            return false;
    return true;
}

static void fill_bytes(unsigned char * p, size_t n, int fill)
{
    switch (fill)
    {
        case 0: memset(p, 0, n); break;
        case 1: memset(p, 0xff, n); break;
        case 2: memset(p, 0xa5, n); break;
        case 3:
        {
            uint64_t x = g_arng.next() | 1;
            for (size_t k = 0; k < n; k++)
            {
                x ^= x << 13; x ^= x >> 7; x ^= x << 17;
                p[k] = (unsigned char)x;
            }
            break;
        }
        default: break;
    }
}

// Functions that swallow std::bad_alloc by contract (standard streams, boost::format): their address
// ranges, written by the build beside the executable.
static uintptr_t g_swallow[8192][2];
static int g_nswallow;
static uint64_t g_fired_swallowed;

static void load_swallow()
{
    char exe[400], line[100];
    ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 10);
    if (n <= 0)
        return;
    strcpy(exe + n, ".streams");
    FILE * f = fopen(exe, "r");
    if (!f)
        return;
    while (g_nswallow < 8192 && fgets(line, sizeof line, f))
    {
        unsigned long a, b;
        if (sscanf(line, "%lx %lx", &a, &b) == 2)
        {
            g_swallow[g_nswallow][0] = a;
            g_swallow[g_nswallow++][1] = a + b;
        }
    }
    fclose(f);
}

static bool in_stream_code()
{
    void * a[40];
    int k = backtrace(a, 40);
    for (int i = 1; i < k; i++)
    {
        uintptr_t x = (uintptr_t)a[i];
        int lo = 0, hi = g_nswallow;
        while (lo < hi)
        {
            int m = (lo + hi) / 2;
            if (g_swallow[m][1] <= x) lo = m + 1; else hi = m;
        }
        if (lo < g_nswallow && g_swallow[lo][0] <= x)
            return true;
        Dl_info di;
        if (x > 0x10000000 && dladdr(a[i], &di) && di.dli_sname &&
            (strstr(di.dli_sname, "stream") || strstr(di.dli_sname, "stringbuf")))
            return true;
    }
    return false;
}

static void * alloc_bytes(size_t req, size_t align)
{
    arena_init();
    if (g_count_allocs)
    {
        g_nalloc++;
        if (g_ac.fail_at && g_nalloc >= g_ac.fail_at && g_nalloc < g_ac.fail_at + g_ac.fail_n)
        {
            g_fired_alloc++;
            if (g_fired_alloc <= 32 && in_stream_code())
                g_fired_swallowed++;
            if (g_debug_bt)
            {
                static chunk_t dummy;
                dummy.req = req;
                report_heap("failed allocation", &dummy);
            }
            errno = ENOMEM;
            return nullptr;
        }
    }
    if (req > g_ac.limit || g_live + req > g_ac.limit * 2)
    {
        errno = ENOMEM;
        return nullptr;
    }
    size_t extra = align > 16 ? align : 0;
    int k = cls_of(req + CANARY + extra);
    bool big = k == NCLASS - 1;
    size_t cap = big ? (req + CANARY + extra + 15) / 16 * 16 : cap_of(k);
    chunk_t * c = nullptr;
    if (!big && g_ac.reuse && g_free[k])
    {
        chunk_t ** pp = &g_free[k];
        if (g_ac.reuse == 2)
        {
            for (uint64_t n = g_arng.below(4); n-- && (*pp)->next_free; )
                pp = &(*pp)->next_free;
        }
        c = *pp;
        *pp = c->next_free;
    }
    if (!c)
    {
        size_t need = sizeof(chunk_t) + cap;
        size_t gap = g_ac.gap ? g_arng.below(g_ac.gap + 1) * 16 : 0;
        if ((size_t)(g_hi - g_lo) < (g_ac.base ? 900u << 20 : ARENA / 2))      // gaps must not be what exhausts the memory
            gap = 0;
        else if (g_ac.align && req >= 256)          // blocks at round addresses, which weak hashes of pointers confuse
        {
            size_t a = (size_t)1 << g_ac.align;
            uintptr_t at = g_ac.down ? (uintptr_t)(g_hi - need + sizeof(chunk_t)) : (uintptr_t)(g_lo + sizeof(chunk_t));
            gap = g_ac.down ? at & (a - 1) : -at & (a - 1);
        }
        if ((size_t)(g_hi - g_lo) < need + gap + 64)
        {
            errno = ENOMEM;
            return nullptr;
        }
        if (g_ac.down)
        {
            g_hi -= need + gap;
            c = (chunk_t *)g_hi;
        }
        else
        {
            g_lo += gap;
            c = (chunk_t *)g_lo;
            g_lo += need;
        }
        c->cap = cap;
        c->next_all = g_all;
        g_all = c;
    }
    c->req = req;
    c->magic = MAGIC_LIVE;
    c->serial = ++g_serial;
    c->shift = 0;
    c->next_free = nullptr;
    if (extra)
    {
        uintptr_t p = (uintptr_t)(c + 1), q = (p + align - 1) / align * align;
        if (q - p >= sizeof(chunk_t) || q == p)
            ;
        else
            q += align;
        c->shift = (uint32_t)(q - p);
        if (c->shift && c->shift + req + CANARY > cap)
        {
            // the class was too tight: take a block of its own
            c->magic = MAGIC_FREE;
            return alloc_bytes(req + align * 2 + CANARY, align);
        }
        if (c->shift)
        {
            chunk_t * h = (chunk_t *)q - 1;
            h->magic = ~MAGIC_LIVE;
            h->next_all = c;
        }
    }
    unsigned char * p = (unsigned char *)(c + 1) + c->shift;
    fill_bytes(p, req, g_ac.fill);
    for (size_t n = 0; n < CANARY; n++)
        p[req + n] = (unsigned char)(0xC7 ^ n);
    g_live += req;
    if (g_live > g_peak)
        g_peak = g_live;
    return p;
}

static chunk_t * chunk_of(void * p)
{
    chunk_t * c = (chunk_t *)p - 1;
    if (c->magic == ~MAGIC_LIVE)
        c = c->next_all;
    return c;
}

// glibc's wide stdio asks for nothing and writes into it once the allocation of its narrow buffer has
// failed (_IO_wfile_doallocate): its affair, not the system's under test
extern "C" void * malloc(size_t n) { return alloc_bytes(n ? n : 16384, 16); }

extern "C" void free(void * p)
{
    if (!p)
        return;
    int e = errno;
    chunk_t * c = chunk_of(p);
    if (c->magic != MAGIC_LIVE)
    {
        if (c->magic == MAGIC_FREE)
            report_heap("double free", c);
        else if (!g_heap_report[0])
            snprintf(g_heap_report, sizeof g_heap_report, "free of a pointer that is no block");
        errno = e;
        return;
    }
    if (!canary_ok(c))
        report_heap("write past the end", c);
    g_live -= c->req;
    if (g_ac.fill != 4 && g_ac.fill != 0)
        memset(p, 0xdd, c->req);
    c->magic = MAGIC_FREE;
    int k = cls_of(c->cap);
    if (k < NCLASS - 1 && cap_of(k) == c->cap && !c->shift)
    {
        c->next_free = g_free[k];
        g_free[k] = c;
    }
    errno = e;
}

extern "C" void * calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n))
    {
        errno = ENOMEM;
        return nullptr;
    }
    void * p = malloc(n);
    if (p)
        memset(p, 0, n);
    return p;
}

extern "C" void * realloc(void * p, size_t n)
{
    if (!p)
        return malloc(n);
    void * q = malloc(n);
    if (!q)
        return nullptr;
    size_t old = chunk_of(p)->req;
    memcpy(q, p, old < n ? old : n);
    free(p);
    return q;
}

extern "C" void * memalign(size_t al, size_t n) { return alloc_bytes(n, al); }
extern "C" void * aligned_alloc(size_t al, size_t n) { return alloc_bytes(n, al); }
extern "C" int posix_memalign(void ** out, size_t al, size_t n)
{
    void * p = alloc_bytes(n, al);
    if (!p)
        return ENOMEM;
    *out = p;
    return 0;
}
extern "C" size_t malloc_usable_size(void * p) { return p ? chunk_of(p)->req : 0; }

static void check_heap()
{
    for (chunk_t * c = g_all; c; c = c->next_all)
        if (c->magic == MAGIC_LIVE && !canary_ok(c))
            report_heap("write past the end", c);
}

// ------------------------------------------------------------------ shared state of one run

enum op_t { OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, OP_SEEK, OP_STAT, OP_DIR, OP_RENAME, OP_UNLINK,
            OP_SYNC, OP_OTHER, OP_EXIT, OP_N };

enum fault_t { F_NONE, F_EINTR, F_EIO, F_ENOSPC, F_SHORT, F_CRASH_BEFORE, F_CRASH_AFTER, F_TORN,
               F_EACCES, F_EMFILE, F_EPIPE, F_ENOENT, F_DISKFULL, F_EDQUOT, F_ENOMEM, F_STICKY = 0x100 };

static const int MAXP = 8, MAXF = 64, MAXTRACE = 8192, MAXPATH = 256;
static const size_t OUTCAP = 1 << 20;

struct plan_t { uint32_t op; uint32_t kind; int64_t param; uint32_t fired; };
struct trace_t { uint8_t cls; uint8_t fault; int16_t path; int32_t fd; int64_t size; int64_t ret; };

struct proc_t
{
    // request
    int      argc;
    char     args[64][256];
    char     cwd[256];
    char     root[256];
    alloc_cfg_t ac;
    uint64_t aseed, dirseed, rndseed;
    uint32_t stackpad;
    uint32_t maxops;
    int      nplan;
    plan_t   plan[MAXF];
    int      pid;
    int      pipe;          // 1: the console is a pipe, 0: a character device
    // state
    volatile uint32_t state;        // 0 running, 1 waiting for a grant, 2 gone
    volatile uint32_t grant;
    volatile uint32_t credit;       // operations it may go on without asking again
    volatile uint32_t asked;        // operations it has asked for so far
    // result
    uint32_t nops, ntrace, npath, crashed, toolong, escaped;
    uint64_t nalloc, fired_alloc, fired_swallowed, hash, peak, sigpc;
    uint64_t opcount[OP_N];
    uint64_t outlen, errlen;
    char     paths[MAXPATH][160];
    trace_t  trace[MAXTRACE];
    char     heap[400];
    char     escape_path[200];
    char     out[OUTCAP], err[OUTCAP];
    int      status;
};

struct shm_t
{
    volatile uint32_t bell;
    int     nproc;
    int     multi;
    proc_t  p[MAXP];
};

static shm_t * g_shm;
static proc_t * me;
static int16_t g_fdpath[1024];
static int64_t g_disk_left = -1;            // bytes that still fit on the disk, -1: plenty
static uint32_t g_sticky[OP_N];
static int g_multi;

static void futex_wait(volatile uint32_t * a, uint32_t v, int ms)
{
    timespec ts = { ms / 1000, (ms % 1000) * 1000000l };
    raw(SYS_futex, (long)a, FUTEX_WAIT, v, (long)(ms >= 0 ? &ts : nullptr), 0, 0);
}

static void futex_wake(volatile uint32_t * a) { raw(SYS_futex, (long)a, FUTEX_WAKE, 1, 0, 0, 0); }

static void mix(uint64_t v)
{
    uint64_t h = me->hash ^ v;
    h *= 0x9fb21c651e98df25ull;
    h ^= h >> 29;
    me->hash = h;
}

static void finish()
{
    me->nalloc = g_nalloc;
    me->fired_alloc = g_fired_alloc;
    me->fired_swallowed = g_fired_swallowed;
    me->peak = g_peak;
    check_heap();
    memcpy(me->heap, g_heap_report, sizeof g_heap_report);
    me->state = 2;
    __atomic_add_fetch(&g_shm->bell, 1, __ATOMIC_SEQ_CST);
    futex_wake(&g_shm->bell);
}

static void die(int code)
{
    me->crashed = 1;
    finish();
    raw(SYS_exit_group, code);
    __builtin_unreachable();
}

// A normalised absolute path of (dirfd, path).
static void absolute(char * out, size_t cap, int dirfd, const char * path)
{
    char buf[1024];
    if (path[0] == '/')
        snprintf(buf, sizeof buf, "%s", path);
    else if (dirfd == AT_FDCWD || dirfd < 0 || dirfd >= 1024 || g_fdpath[dirfd] < 0)
        snprintf(buf, sizeof buf, "%s/%s", me->cwd, path);
    else
        snprintf(buf, sizeof buf, "%s/%s", me->paths[g_fdpath[dirfd]], path);
    size_t n = 0;
    out[0] = 0;
    for (char * s = buf; *s; )
    {
        while (*s == '/')
            s++;
        char * e = s;
        while (*e && *e != '/')
            e++;
        size_t l = e - s;
        if (l == 0)
            break;
        if (l == 1 && s[0] == '.')
            ;
        else if (l == 2 && s[0] == '.' && s[1] == '.')
        {
            while (n > 0 && out[n - 1] != '/')
                n--;
            if (n > 0)
                n--;
            out[n] = 0;
        }
        else if (n + l + 2 < cap)
        {
            out[n++] = '/';
            memcpy(out + n, s, l);
            n += l;
            out[n] = 0;
        }
        s = e;
    }
    if (!n)
        strcpy(out, "/");
}

static int path_id(const char * p)
{
    for (uint32_t k = 0; k < me->npath; k++)
        if (!strcmp(me->paths[k], p))
            return k;
    if (me->npath >= MAXPATH)
        return MAXPATH - 1;
    snprintf(me->paths[me->npath], sizeof me->paths[0], "%s", p);
    return me->npath++;
}

static bool inside(const char * p)
{
    size_t n = strlen(me->root);
    return (!strncmp(p, me->root, n) && (p[n] == '/' || !p[n])) || !strcmp(p, "/dev/null");
}

static void yield_to_scheduler()
{
    if (!g_multi)
        return;
    if (me->credit)
    {
        me->credit--;
        me->asked++;
        return;
    }
    uint32_t g = me->grant;
    me->state = 1;
    __atomic_add_fetch(&g_shm->bell, 1, __ATOMIC_SEQ_CST);
    futex_wake(&g_shm->bell);
    while (me->grant == g)
        futex_wait(&me->grant, g, -1);
    me->asked++;
}

static plan_t * planned(uint32_t op)
{
    for (int k = 0; k < me->nplan; k++)
        if (me->plan[k].op == op)
            return &me->plan[k];
    return nullptr;
}

static long errno_of(uint32_t kind)
{
    switch (kind)
    {
        case F_EINTR:  return -EINTR;
        case F_EIO:    return -EIO;
        case F_ENOSPC: return -ENOSPC;
        case F_EACCES: return -EACCES;
        case F_EMFILE: return -EMFILE;
        case F_EPIPE:  return -EPIPE;
        case F_ENOENT: return -ENOENT;
        case F_EDQUOT: return -EDQUOT;
        case F_ENOMEM: return -ENOMEM;
        default: return 0;
    }
}

// fd 1 and 2 are simulated consoles
static long console(int fd, const char * p, size_t n)
{
    char * b = fd == 1 ? me->out : me->err;
    uint64_t & len = fd == 1 ? me->outlen : me->errlen;
    size_t k = n;
    if (len + k > OUTCAP)
        k = OUTCAP - len;
    memcpy(b + len, p, k);
    len += k;
    for (size_t i = 0; i < n; i += 8)
    {
        uint64_t v = 0;
        memcpy(&v, p + i, n - i < 8 ? n - i : 8);
        mix(v);
    }
    return (long)n;
}

static long do_write(int fd, const char * p, size_t n)
{
    if (fd == 1 || fd == 2)
        return console(fd, p, n);
    if (g_disk_left >= 0)
    {
        if (g_disk_left == 0 && n)
            return -ENOSPC;
        if ((int64_t)n > g_disk_left)
            n = g_disk_left;
    }
    for (size_t i = 0; i < n; i += 8)
    {
        uint64_t v = 0;
        memcpy(&v, p + i, n - i < 8 ? n - i : 8);
        mix(v);
    }
    long r = raw(SYS_write, fd, (long)p, n);
    if (r > 0 && g_disk_left >= 0)
        g_disk_left -= r;
    return r;
}

static char g_wbuf[1 << 20];

struct dirent64_t { uint64_t ino; int64_t off; unsigned short reclen; unsigned char type; char name[]; };

// Entries of one getdents64 answer in a seeded order.
static void shuffle_dir(char * buf, long n)
{
    static char tmp[1 << 16];
    if (n <= 0 || n > (long)sizeof tmp)
        return;
    static dirent64_t * ent[2048];
    int cnt = 0;
    memcpy(tmp, buf, n);
    for (long o = 0; o < n && cnt < 2048; )
    {
        dirent64_t * d = (dirent64_t *)(tmp + o);
        ent[cnt++] = d;
        o += d->reclen;
    }
    // a canonical order first, so that only the seed decides
    for (int a = 1; a < cnt; a++)
        for (int b = a; b > 0 && strcmp(ent[b - 1]->name, ent[b]->name) > 0; b--)
        {
            dirent64_t * t = ent[b]; ent[b] = ent[b - 1]; ent[b - 1] = t;
        }
    if (me->dirseed)
    {
        rng_t r{me->dirseed};
        for (int a = cnt - 1; a > 0; a--)
        {
            int b = r.below(a + 1);
            dirent64_t * t = ent[b]; ent[b] = ent[a]; ent[a] = t;
        }
    }
    long o = 0;
    for (int a = 0; a < cnt; a++)
    {
        memcpy(buf + o, ent[a], ent[a]->reclen);
        o += ent[a]->reclen;
    }
}

static bool g_in;

static long serve(long nr, long a, long b, long c, long d, long e, long f)
{
    int cls = OP_OTHER, fd = -1, path = -1;
    int64_t size = 0;
    char full[512] = "";
    bool wants_write = false;
    int fdslot = -1;

    switch (nr)
    {
        case SYS_open: case SYS_creat:
            cls = OP_OPEN;
            absolute(full, sizeof full, AT_FDCWD, (char *)a);
            wants_write = nr == SYS_creat || (b & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC));
            break;
        case SYS_openat:
            cls = OP_OPEN;
            absolute(full, sizeof full, (int)a, (char *)b);
            wants_write = c & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC);
            break;
        case SYS_read: case SYS_pread64:  cls = OP_READ; fd = a; size = c; break;
        case SYS_readv:                   cls = OP_READ; fd = a; break;
        case SYS_write: case SYS_pwrite64: cls = OP_WRITE; fd = a; size = c; break;
        case SYS_writev:
            cls = OP_WRITE; fd = a;
            for (int k = 0; k < (int)c; k++)
                size += ((iovec *)b)[k].iov_len;
            break;
        case SYS_close:                   cls = OP_CLOSE; fd = a; break;
        case SYS_lseek:                   cls = OP_SEEK; fd = a; size = b; break;
        case SYS_fstat:                   cls = OP_STAT; fd = a; break;
        case SYS_ioctl:                   cls = OP_OTHER; fd = a; break;
        case SYS_stat: case SYS_lstat:    cls = OP_STAT; absolute(full, sizeof full, AT_FDCWD, (char *)a); break;
        case SYS_newfstatat:
            cls = OP_STAT;
            if (((char *)b)[0])
                absolute(full, sizeof full, (int)a, (char *)b);
            else
                fd = a;
            break;
        case SYS_statx:
            cls = OP_STAT;
            if (b && ((char *)b)[0])
                absolute(full, sizeof full, (int)a, (char *)b);
            else
                fd = a;
            break;
        case SYS_access:                  cls = OP_STAT; absolute(full, sizeof full, AT_FDCWD, (char *)a); break;
        case SYS_getdents64:              cls = OP_DIR; fd = a; break;
        case SYS_rename:                  cls = OP_RENAME; absolute(full, sizeof full, AT_FDCWD, (char *)b); wants_write = true; break;
        case SYS_renameat: case SYS_renameat2:
            cls = OP_RENAME; absolute(full, sizeof full, (int)c, (char *)d); wants_write = true; break;
        case SYS_link:                    cls = OP_RENAME; absolute(full, sizeof full, AT_FDCWD, (char *)b); wants_write = true; break;
        case SYS_unlink: case SYS_rmdir: case SYS_mkdir: case SYS_truncate: case SYS_chmod:
            cls = nr == SYS_unlink || nr == SYS_rmdir ? OP_UNLINK : OP_OTHER;
            absolute(full, sizeof full, AT_FDCWD, (char *)a); wants_write = true; break;
        case SYS_unlinkat: case SYS_mkdirat:
            cls = nr == SYS_unlinkat ? OP_UNLINK : OP_OTHER;
            absolute(full, sizeof full, (int)a, (char *)b); wants_write = true; break;
        case SYS_fsync: case SYS_fdatasync: cls = OP_SYNC; fd = a; break;
        case SYS_ftruncate: case SYS_fallocate: cls = OP_OTHER; fd = a; break;
        case SYS_getpid: return me->pid;
        case SYS_gettid: return me->pid;
        case SYS_getrandom:
        {
            static rng_t r{me->rndseed};
            for (long k = 0; k < b; k++)
                ((char *)a)[k] = (char)r.next();
            return b;
        }
        case SYS_exit_group: case SYS_exit:
            cls = OP_EXIT; size = a; break;
        default: break;
    }

    if (fd >= 0 && fd < 1024)
        fdslot = fd;
    if (full[0])
        path = path_id(full);
    else if (fdslot >= 0)
        path = g_fdpath[fdslot];

    uint32_t op = me->nops++;
    me->opcount[cls]++;
    if (me->nops > me->maxops)
    {
        me->toolong = 1;
        die(124);
    }
    if (wants_write && !inside(full))
    {
        me->escaped = 1;
        snprintf(me->escape_path, sizeof me->escape_path, "%s", full);
        return -EACCES;
    }
    if (cls == OP_EXIT)
    {
        finish();
        raw(SYS_exit_group, a);
    }

    yield_to_scheduler();

    plan_t * pl = planned(op);
    uint32_t kind = pl ? pl->kind : F_NONE;
    int64_t param = pl ? pl->param : 0;
    if (kind == F_NONE && g_sticky[cls] && fd != 1 && fd != 2)
        kind = g_sticky[cls];
    if (kind & F_STICKY)
    {
        kind &= ~F_STICKY;
        g_sticky[cls] = kind;
    }
    if (pl && kind != F_NONE)
        pl->fired++;
    if (kind == F_CRASH_BEFORE)
        die(137);
    if (kind == F_DISKFULL)
    {
        g_disk_left = param;
        kind = F_NONE;
    }

    long ret = errno_of(kind);
    if (ret == 0)
    {
        if (cls == OP_WRITE && nr != SYS_pwrite64)
        {
            const char * p = (const char *)b;
            int64_t n = size;
            if (nr == SYS_writev)
            {
                size_t o = 0;
                for (int k = 0; k < (int)c && o < sizeof g_wbuf; k++)
                {
                    iovec * v = (iovec *)b + k;
                    size_t l = v->iov_len;
                    if (l > sizeof g_wbuf - o)
                        l = sizeof g_wbuf - o;
                    memcpy(g_wbuf + o, v->iov_base, l);
                    o += l;
                }
                p = g_wbuf;
                n = o;
            }
            if ((kind == F_SHORT || kind == F_TORN) && param < n)
                n = param < 1 && kind == F_SHORT ? 1 : param;
            int64_t asked = n;
            ret = n || !size ? do_write(fd, p, n) : 0;
            if (g_disk_left >= 0 && fd > 2 && ret < asked && kind == F_NONE)
                kind = F_DISKFULL;
            if (kind == F_TORN)
                die(137);
        }
        else if (cls == OP_READ && kind == F_SHORT && nr == SYS_read)
            ret = raw(nr, a, b, param < 1 ? 1 : (param < c ? param : c));
        else if (cls == OP_DIR)
        {
            ret = raw(nr, a, b, c, d, e, f);
            shuffle_dir((char *)b, ret);
        }
        else
            ret = raw(nr, a, b, c, d, e, f);
        if (cls == OP_STAT && (fd == 1 || fd == 2) && me->pipe && ret == 0)
        {
            struct stat * st = (struct stat *)(nr == SYS_fstat ? b : nr == SYS_newfstatat ? c : 0);
            if (st)
            {
                st->st_mode = (st->st_mode & ~S_IFMT) | S_IFIFO;
                st->st_rdev = 0;
                st->st_blksize = 4096;
            }
        }
    }
    else if (cls == OP_CLOSE)
        raw(nr, a);                     // Linux frees the descriptor even when close() fails

    if (cls == OP_OPEN && ret >= 0 && ret < 1024)
        g_fdpath[ret] = path;
    if (cls == OP_CLOSE && fdslot >= 0)
        g_fdpath[fdslot] = -1;
    if (cls == OP_READ && ret > 0 && nr == SYS_read)
        for (long i = 0; i < ret; i += 64)
            mix(((unsigned char *)b)[i]);
    mix(((uint64_t)cls << 56) ^ ((uint64_t)(uint16_t)path << 40) ^ (uint64_t)ret);

    if (me->ntrace < MAXTRACE)
    {
        trace_t & t = me->trace[me->ntrace++];
        t.cls = cls; t.fault = kind; t.path = path; t.fd = fd; t.size = size; t.ret = ret;
    }
    if (kind == F_CRASH_AFTER)
        die(137);
    return ret;
}

static void handler(int, siginfo_t * si, void * ctx)
{
    int e = errno;
    greg_t * r = ((ucontext_t *)ctx)->uc_mcontext.gregs;
    r[REG_RAX] = serve(si->si_syscall, r[REG_RDI], r[REG_RSI], r[REG_RDX], r[REG_R10], r[REG_R8], r[REG_R9]);
    errno = e;
}

static const int TRAPPED[] = {
    SYS_open, SYS_creat, SYS_openat, SYS_read, SYS_pread64, SYS_readv, SYS_write, SYS_pwrite64,
    SYS_writev, SYS_close, SYS_lseek, SYS_fstat, SYS_stat, SYS_lstat, SYS_newfstatat, SYS_statx,
    SYS_access, SYS_getdents64, SYS_rename, SYS_renameat, SYS_renameat2, SYS_link, SYS_unlink,
    SYS_rmdir, SYS_mkdir, SYS_unlinkat, SYS_mkdirat, SYS_fsync, SYS_fdatasync, SYS_ftruncate,
    SYS_truncate, SYS_fallocate, SYS_chmod, SYS_getpid, SYS_gettid, SYS_getrandom,
    SYS_exit_group,
};

static void install_filter()
{
    static sock_filter f[96];
    int n = 0;
    uint64_t ip = (uint64_t)sim_raw_ret;
    auto stmt = [&](uint16_t code, uint32_t k) { f[n++] = sock_filter{code, 0, 0, k}; };
    auto jump = [&](uint16_t code, uint32_t k, uint8_t t, uint8_t e) { f[n++] = sock_filter{code, t, e, k}; };
    stmt(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer));
    jump(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)ip, 0, 3);
    stmt(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer) + 4);
    jump(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(ip >> 32), 0, 1);
    stmt(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    stmt(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr));
    int cnt = sizeof TRAPPED / sizeof *TRAPPED;
    for (int k = 0; k < cnt; k++)
        jump(BPF_JMP | BPF_JEQ | BPF_K, TRAPPED[k], cnt - k, 0);
    stmt(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    stmt(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    sock_fprog fp{(unsigned short)n, f};
    prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
    if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &fp))
        _exit(98);
}

// ------------------------------------------------------------------ simulated clock

static int64_t sim_ns() { return 1700000000ll * 1000000000 + (me ? me->nops : 0) * 1000000ll; }
extern "C" int clock_gettime(clockid_t, timespec * ts) noexcept
{
    int64_t t = sim_ns();
    ts->tv_sec = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    return 0;
}
extern "C" int gettimeofday(timeval * tv, void *) noexcept
{
    int64_t t = sim_ns();
    tv->tv_sec = t / 1000000000;
    tv->tv_usec = t % 1000000000 / 1000;
    return 0;
}
extern "C" time_t time(time_t * out) noexcept
{
    time_t t = sim_ns() / 1000000000;
    if (out)
        *out = t;
    return t;
}

// ------------------------------------------------------------------ one simulated process

__attribute__((noinline)) static int run_main(int argc, char ** argv, uint32_t pad)
{
    volatile char * p = (volatile char *)alloca(pad + 16);
    p[0] = 0;
    return april_real_main(argc, argv);
}

static void child(int index)
{
    me = &g_shm->p[index];
    g_multi = g_shm->multi;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    rlimit cpu{40, 41};
    setrlimit(RLIMIT_CPU, &cpu);
    int null = open("/dev/null", O_RDWR);
    dup2(null, 0);
    dup2(null, 1);
    dup2(null, 2);
    for (int fd = 3; fd < 64; fd++)
        close(fd);
    if (chdir(me->cwd))
        _exit(96);
    for (auto & x : g_fdpath)
        x = -1;
    g_fdpath[0] = path_id("<stdin>");
    g_fdpath[1] = path_id("<stdout>");
    g_fdpath[2] = path_id("<stderr>");
    static char * argv[66];
    for (int k = 0; k < me->argc; k++)
        argv[k] = me->args[k];
    argv[me->argc] = nullptr;

    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = [](int, siginfo_t *, void * u) { me->sigpc = ((ucontext_t *)u)->uc_mcontext.gregs[REG_RIP]; me->fired_alloc = g_fired_alloc; };
    sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_RESETHAND;      // the instruction faults again, then it ends the process
    static const int fatal[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL };
    for (int n : fatal)
        sigaction(n, &sa, nullptr);
    sa.sa_sigaction = handler;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSYS, &sa, nullptr);

    arena_init();
    g_ac = me->ac;
    g_arng.s = me->aseed;
    rng_t r{me->aseed ^ 0x5151};
    if (g_ac.base)
    {
        char * at = (char *)(g_ac.base > 0 ? 0x200000000000ull : 0x200080000000ull);
        size_t n = (size_t)(g_ac.base > 0 ? g_ac.base : -g_ac.base) / 16 * 16;
        if (g_ac.down)
            g_hi = at + n;
        else
            g_lo = at - n;
    }
    g_lo += r.below(4096) * 16;
    g_hi -= r.below(4096) * 16;
    for (auto & x : g_free)
        x = nullptr;
    g_serial = 0;
    g_live = g_peak = 0;
    install_filter();
    g_count_allocs = true;
    yield_to_scheduler();
    int rc = run_main(me->argc, argv, me->stackpad);
    exit(rc);
}

// ------------------------------------------------------------------ server

static char g_line[1 << 16];
static FILE * g_out;

static bool get_line()
{
    size_t n = 0;
    for (;;)
    {
        char c;
        ssize_t r = read(0, &c, 1);
        if (r <= 0)
            return false;
        if (c == '\n')
            break;
        if (n + 1 < sizeof g_line)
            g_line[n++] = c;
    }
    g_line[n] = 0;
    return true;
}

static int hexv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static void unhex(char * out, size_t cap, const char * s)
{
    size_t n = 0;
    for (; s[0] && s[1] && s[0] != ' ' && n + 1 < cap; s += 2)
        out[n++] = (char)(hexv(s[0]) * 16 + hexv(s[1]));
    out[n] = 0;
}
static void put_hex(const char * p, size_t n)
{
    static const char * H = "0123456789abcdef";
    for (size_t k = 0; k < n; k++)
    {
        putc(H[(unsigned char)p[k] >> 4], g_out);
        putc(H[(unsigned char)p[k] & 15], g_out);
    }
}

static void reset_proc(proc_t * p)
{
    memset(p, 0, offsetof(proc_t, trace));
    p->heap[0] = p->escape_path[0] = 0;
    p->status = 0;
    p->maxops = 200000;
    p->ac = alloc_cfg_t();
    p->pid = 1000;
}

static double now()
{
    timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

int main(int argc, char ** argv)
{
    int pers = personality(0xffffffff);
    if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("SIMHOST_EXECED"))
    {
        personality(pers | ADDR_NO_RANDOMIZE);
        char * env[] = { (char *)"PATH=/usr/bin:/bin", (char *)"LC_ALL=C.UTF-8",
                         (char *)"SIMHOST_EXECED=1", nullptr };
        execve("/proc/self/exe", argv, env);
    }
    signal(SIGPIPE, SIG_IGN);
    g_debug_bt = argc > 1 && !strcmp(argv[1], "bt");
    void * bt[4];
    load_swallow();
    backtrace(bt, 4);           // loads the unwinder now, not when memory has run out
    g_out = fdopen(dup(1), "w");
    static char obuf[1 << 16];
    setvbuf(g_out, obuf, _IOFBF, sizeof obuf);
    g_shm = (shm_t *)mmap(nullptr, sizeof(shm_t), PROT_READ | PROT_WRITE,
                          MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    proc_t * p = nullptr;
    rng_t srng{1};
    struct run_t { int who, n; };
    static run_t runs[4096], made[1 << 16];
    int nch = 0, want_trace = 0;
    double timeout = 60;
    g_shm->nproc = 0;

    while (get_line())
    {
        char * s = g_line;
        if (s[0] == 'P')
        {
            if (g_shm->nproc >= MAXP)
                _exit(95);
            p = &g_shm->p[g_shm->nproc++];
            reset_proc(p);
            p->argc = atoi(s + 2);
            for (int k = 0; k < p->argc && k < 64; k++)
            {
                get_line();
                unhex(p->args[k], sizeof p->args[k], g_line);
            }
        }
        else if (s[0] == 'C') unhex(p->cwd, sizeof p->cwd, s + 2);
        else if (s[0] == 'B') unhex(p->root, sizeof p->root, s + 2);
        else if (s[0] == 'A')
        {
            unsigned long long seed, fa, fn;
            unsigned pad;
            p->ac.base = p->ac.align = 0;
            sscanf(s + 2, "%d %d %d %d %llu %llu %llu %u %lld %d", &p->ac.down, &p->ac.gap, &p->ac.reuse,
                   &p->ac.fill, &seed, &fa, &fn, &pad, &p->ac.base, &p->ac.align);
            p->aseed = seed;
            p->ac.fail_at = fa;
            p->ac.fail_n = fn;
            p->stackpad = pad;
        }
        else if (s[0] == 'F')
        {
            plan_t & pl = p->plan[p->nplan];
            long long param;
            if (p->nplan < MAXF && sscanf(s + 2, "%u %u %lld", &pl.op, &pl.kind, &param) == 3)
            {
                pl.param = param;
                pl.fired = 0;
                p->nplan++;
            }
        }
        else if (s[0] == 'D') p->dirseed = strtoull(s + 2, nullptr, 10);
        else if (s[0] == 'R') p->rndseed = strtoull(s + 2, nullptr, 10);
        else if (s[0] == 'I') p->pid = atoi(s + 2);
        else if (s[0] == 'M') p->pipe = atoi(s + 2);
        else if (s[0] == 'L') p->maxops = atoi(s + 2);
        else if (s[0] == 'T') want_trace = atoi(s + 2);
        else if (s[0] == 'W') timeout = atof(s + 2);
        else if (s[0] == 'S') srng.s = strtoull(s + 2, nullptr, 10);
        else if (s[0] == 'H')
        {
            if (nch < 4096 && sscanf(s + 2, "%d %d", &runs[nch].who, &runs[nch].n) == 2)
                nch++;
        }
        else if (!strcmp(s, "GO"))
        {
            int n = g_shm->nproc, nmade = 0, next = 0, last = -1;
            uint32_t asked = 0;
            g_shm->multi = n > 1;
            g_shm->bell = 0;
            pid_t pids[MAXP];
            bool gone[MAXP] = {};
            fflush(g_out);
            for (int k = 0; k < n; k++)
            {
                pids[k] = fork();
                if (pids[k] == 0)
                    child(k);
            }
            double t0 = now();
            int left = n, timed_out = 0;
            if (n == 1)
            {
                // plain wait with a timeout
                for (double dt = 0; ; )
                {
                    int st;
                    uint32_t bell = g_shm->bell;
                    pid_t r = waitpid(pids[0], &st, WNOHANG);
                    if (r == pids[0]) { g_shm->p[0].status = st; break; }
                    dt = now() - t0;
                    if (dt > timeout)
                    {
                        kill(pids[0], SIGKILL);
                        waitpid(pids[0], &st, 0);
                        g_shm->p[0].status = st;
                        timed_out = 1;
                        break;
                    }
                    if (g_shm->p[0].state == 2)
                    {
                        waitpid(pids[0], &st, 0);
                        g_shm->p[0].status = st;
                        break;
                    }
                    futex_wait(&g_shm->bell, bell, 5);
                }
            }
            else while (left)
            {
                // wait until every living process waits for a grant
                for (;;)
                {
                    uint32_t bell = g_shm->bell;
                    int busy = 0;
                    for (int k = 0; k < n; k++)
                    {
                        if (gone[k])
                            continue;
                        int st;
                        if (waitpid(pids[k], &st, g_shm->p[k].state == 2 ? 0 : WNOHANG) == pids[k])
                        {
                            g_shm->p[k].status = st;
                            gone[k] = true;
                            left--;
                        }
                        else if (g_shm->p[k].state != 1)
                            busy++;
                    }
                    if (!busy)
                        break;
                    if (now() - t0 > timeout)
                    {
                        timed_out = 1;
                        for (int k = 0; k < n; k++)
                            if (!gone[k])
                                kill(pids[k], SIGKILL);
                    }
                    futex_wait(&g_shm->bell, bell, 5);
                }
                if (!left)
                    break;
                if (last >= 0 && made[nmade - 1].n == 0)
                    made[nmade - 1].n = g_shm->p[last].asked - asked;
                int pick = -1;
                uint32_t len = 1;
                while (pick < 0 && next < nch)
                {
                    run_t & u = runs[next++];
                    if (u.who < n && !gone[u.who] && u.n > 0)
                    {
                        pick = u.who;
                        len = u.n;
                    }
                }
                if (pick < 0)
                {
                    pick = nch && last >= 0 ? last : (int)srng.below(n);    // a given schedule goes on with whom it ended
                    if (nch)
                        len = 1u << 30;
                }
                while (gone[pick])
                    pick = (pick + 1) % n;
                if (nmade < (int)(sizeof made / sizeof *made))
                    made[nmade++] = { pick, 0 };
                last = pick;
                asked = g_shm->p[pick].asked;
                g_shm->p[pick].credit = len - 1;
                g_shm->p[pick].state = 0;
                g_shm->p[pick].grant++;
                futex_wake(&g_shm->p[pick].grant);
            }
            for (int k = 0; k < n; k++)
            {
                proc_t & q = g_shm->p[k];
                int kind = WIFEXITED(q.status) ? 0 : 1;
                int code = kind ? WTERMSIG(q.status) : WEXITSTATUS(q.status);
                if (q.crashed && !q.toolong)
                    kind = 2;
                if (q.toolong)
                    kind = 3;
                if (timed_out)
                    kind = 4;
                fprintf(g_out, "p %d %d %u %llu %016llx %u %llu %llu %llu %llx\n", kind, code, q.nops,
                        (unsigned long long)q.nalloc, (unsigned long long)q.hash, q.escaped,
                        (unsigned long long)q.fired_alloc, (unsigned long long)q.peak,
                        (unsigned long long)q.fired_swallowed, (unsigned long long)q.sigpc);
                fprintf(g_out, "o "); put_hex(q.out, q.outlen < OUTCAP ? q.outlen : OUTCAP);
                fprintf(g_out, "\ne "); put_hex(q.err, q.errlen < OUTCAP ? q.errlen : OUTCAP);
                fprintf(g_out, "\nh "); put_hex(q.heap, strlen(q.heap));
                fprintf(g_out, "\nx "); put_hex(q.escape_path, strlen(q.escape_path));
                fprintf(g_out, "\nc");
                for (int c = 0; c < OP_N; c++)
                    fprintf(g_out, " %llu", (unsigned long long)q.opcount[c]);
                fprintf(g_out, "\nf");
                for (int c = 0; c < q.nplan; c++)
                    fprintf(g_out, " %u", q.plan[c].fired);
                fprintf(g_out, "\n");
                if (want_trace)
                {
                    for (uint32_t c = 0; c < q.npath; c++)
                    {
                        fprintf(g_out, "n ");
                        put_hex(q.paths[c], strlen(q.paths[c]));
                        fprintf(g_out, "\n");
                    }
                    for (uint32_t c = 0; c < q.ntrace; c++)
                    {
                        trace_t & t = q.trace[c];
                        fprintf(g_out, "t %d %d %d %d %lld %lld\n", t.cls, t.fault, t.path, t.fd,
                                (long long)t.size, (long long)t.ret);
                    }
                }
            }
            fprintf(g_out, "s ");
            if (last >= 0 && made[nmade - 1].n == 0)
                made[nmade - 1].n = g_shm->p[last].asked - asked;
            for (int k = 0; k < nmade; k++)
                fprintf(g_out, "%d:%d ", made[k].who, made[k].n);
            fprintf(g_out, "\ndone\n");
            fflush(g_out);
            g_shm->nproc = 0;
            nch = 0;
            want_trace = 0;
            srng.s = 1;
            timeout = 60;
        }
    }
    return 0;
}
