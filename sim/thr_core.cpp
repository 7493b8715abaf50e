// Scenarios on the thread-safe building blocks of algorithm/: semaphore, object locks, lazy
// initialisation, resource pool. Real code; only scheduling, time and memory are simulated.
#include <algorithm.h>
#include <chrono>
#include <memory>
#include <vector>
#include "thrsim.h"

using namespace X_ROOT_NS;
namespace al = X_ROOT_NS::algorithm;
using vs::quiet_t;
typedef unsigned long long u64;

// ------------------------------------------------------------------ T01: semaphore

struct sem_state_t
{
    unsigned n = 0;
    int held = 0, active = 0;       // active: inside a call or holding a permit
    u64 epoch = 0;             // changes whenever somebody starts an operation
};

static bool sem_take(al::semaphore_t & s, sem_state_t & st, int mode, int us)
{
    u64 t0, e0;
    bool idle;
    {
        quiet_t q;
        idle = st.active == 0;
        st.active++;
        e0 = ++st.epoch;
        t0 = vs::now_ns();
    }
    bool ok = mode == 0 ? s.acquire() : mode == 1 ? s.acquire(std::chrono::microseconds(us)) : s.try_acquire();
    quiet_t q;
    if (ok)
    {
        st.held++;
        vs::check(st.held <= (int)st.n, "permits: %d threads hold a permit of %u", st.held, st.n);
        return true;
    }
    vs::check(mode != 0, "acquire: acquire() without a time limit returned without a permit");
    if (mode == 1)
        vs::check(vs::now_ns() - t0 >= (u64)us * 1000, "timeout: acquire(%d us) gave up after %llu ns", us,
                  (unsigned long long)(vs::now_ns() - t0));
    vs::check(!(idle && st.epoch == e0 && st.held == 0), "refused: no permit although all %u were free and nobody else asked", st.n);
    st.active--;
    vs::probe(mode);
    return false;
}

static void sem_give(al::semaphore_t & s, sem_state_t & st)
{
    {
        quiet_t q;
        st.held--;
        st.epoch++;
    }
    s.release();
    quiet_t q;
    st.active--;
}

static void sem_after(al::semaphore_t & s, unsigned n)
{
    for (unsigned i = 0; i < n; i++)
        vs::check(s.try_acquire(), "lost permit: after all were returned only %u of %u are available", i, n);
    vs::check(!s.try_acquire(), "extra permit: more than %u permits exist", n);
    for (unsigned i = 0; i < n; i++)
        s.release();
    bool threw = false;
    try { s.release(); } catch (...) { threw = true; }
    vs::check(threw, "overflow: releasing a permit nobody holds was accepted");
}

static void sem_hold(vs::rng_t & w)
{
    int n = (int)w.below(4);
    for (int i = 0; i < n; i++)
        vs::point();
    if (w.one_in(6))
        vs::sleep_ns(1000 * (1 + w.below(400)));
}

static void run_sem(vs::rng_t & w)
{
    unsigned n = 1 + (unsigned)w.below(3);
    int threads = 2 + (int)w.below(4);
    static al::semaphore_t s(n);
    static sem_state_t st;
    st.n = n;
    for (int t = 0; t < threads; t++)
    {
        u64 seed = w.next();
        int ops = 1 + (int)w.below(6);
        int style = (int)w.below(4);        // 3: mixed
        vs::spawn([seed, ops, style] {
            vs::rng_t r(seed);
            for (int i = 0; i < ops; i++)
            {
                int mode = style == 3 ? (int)r.below(3) : style == 2 ? (r.one_in(2) ? 2 : 0) : style;
                int us = 1 + (int)r.below(300);
                if (sem_take(s, st, mode, us))
                {
                    sem_hold(r);
                    sem_give(s, st);
                }
                else if (r.one_in(2))
                    vs::point();
            }
        });
    }
    vs::start_and_join();
    sem_after(s, n);
}

// permits are handed from producers to consumers
static void run_signal(vs::rng_t & w)
{
    unsigned n = 1 + (unsigned)w.below(3);
    int consumers = 1 + (int)w.below(3), producers = 1 + (int)w.below(2);
    int each = 1 + (int)w.below(5);
    int total = consumers * each;
    static al::semaphore_t s(n);
    static int given, taken, total_s, timed;
    static unsigned n_s;
    n_s = n;
    total_s = total;
    for (unsigned i = 0; i < n; i++)
        vs::check(s.try_acquire(), "refused: a fresh semaphore of %u permits gave only %u", n, i);
    vs::check(!s.try_acquire(), "extra permit: a fresh semaphore of %u permits gave more", n);
    timed = (int)w.below(3);
    for (int c = 0; c < consumers; c++)
    {
        u64 seed = w.next();
        vs::spawn([seed, each] {
            vs::rng_t r(seed);
            for (int i = 0; i < each;)
            {
                u64 t0 = vs::now_ns();
                int us = 1 + (int)r.below(200);
                bool t = timed == 1 || (timed == 2 && r.one_in(2));
                bool ok = t ? s.acquire(std::chrono::microseconds(us)) : s.acquire();
                quiet_t q;
                if (!ok)
                {
                    vs::check(t, "acquire: acquire() without a time limit returned without a permit");
                    vs::check(vs::now_ns() - t0 >= (u64)us * 1000, "timeout: acquire(%d us) gave up after %llu ns", us,
                              (unsigned long long)(vs::now_ns() - t0));
                    vs::probe(1);
                    vs::sleep_ns(1000);
                    continue;
                }
                taken++;
                vs::check(taken <= given, "permits: %d permits taken, only %d given", taken, given);
                i++;
            }
        });
    }
    for (int p = 0; p < producers; p++)
    {
        u64 seed = w.next();
        vs::spawn([seed] {
            vs::rng_t r(seed);
            for (;;)
            {
                vs::wait_until([] { return given >= total_s || given - taken < (int)n_s; }, "room for another permit");
                {
                    quiet_t q;
                    if (given >= total_s) return;
                    given++;
                }
                s.release();
                if (r.one_in(3)) vs::point();
                if (r.one_in(8)) vs::sleep_ns(1000 * (1 + r.below(300)));
            }
        });
    }
    vs::start_and_join();
    vs::check(given == taken, "lost permit: %d permits given, %d taken", given, taken);
    vs::check(!s.try_acquire(), "extra permit: a permit is left although all given ones were taken");
    for (unsigned i = 0; i < n; i++)
        s.release();
    sem_after(s, n);
}

// ------------------------------------------------------------------ T02: object locks

typedef al::object_lock_manager_t<> lockman_t;
enum { NOBJ = 16 };
static struct { char pad[8]; long data; } g_obj[NOBJ];
static int g_owner[NOBJ];
static long g_count[NOBJ];

// The locks are for addresses, which are never read: neighbours, or far apart with equal low halves.
static u64 g_base, g_stride;
static void * obj_key(int o) { return g_stride ? (void *)(g_base + g_stride * (u64)o) : (void *)&g_obj[o]; }
static void choose_keys(vs::rng_t & w)
{
    static const u64 strides[] = { 0, 0, 1, 2, 8, 64, 4096, 1ull << 32, 1ull << 33, (1ull << 32) + 1 };
    g_stride = strides[w.below(sizeof(strides) / sizeof(strides[0]))];
    g_base = 0x10000 + (w.next() & 0x7fffffffull) * (w.one_in(2) ? 1 : 16);
}

static void in_lock(int o, vs::rng_t & r)
{
    {
        quiet_t q;
        vs::check(g_owner[o] == 0, "exclusion: thread %d got the lock of object %d while thread %d holds it", vs::self(), o, g_owner[o]);
        g_owner[o] = vs::self();
        g_count[o]++;
    }
    long v = g_obj[o].data;
    if (r.one_in(2)) vs::point();
    g_obj[o].data = v + 1;
}
static void out_lock(int o)
{
    quiet_t q;
    g_owner[o] = 0;
}

static void objlock(vs::rng_t & w, bool faults)
{
    static lockman_t local;
    choose_keys(w);
    bool single = w.one_in(2) && !faults;
    static lockman_t * lm;
    lm = single ? nullptr : &local;
    int objs = 1 + (int)w.below(w.one_in(2) ? 4 : NOBJ);
    int threads = 2 + (int)w.below(4);
    int ops = 2 + (int)w.below(w.one_in(2) ? 6 : 24);
    for (int t = 0; t < threads; t++)
    {
        u64 seed = w.next();
        bool walk = w.one_in(2);
        vs::spawn([=] {
            vs::rng_t r(seed);
            for (int i = 0; i < ops; i++)
            {
                int a = walk ? (int)((i + seed % 7) % objs) : (int)r.below(objs);
                int b = a + 1 + (int)r.below(objs);
                bool nested = b < objs && r.one_in(3);
                int how = (int)r.below(8);
                try
                {
                    if (how == 0 && lm)
                    {
                        lm->enter(obj_key(a));
                        in_lock(a, r);
                        out_lock(a);
                        lm->exit(obj_key(a));
                        continue;
                    }
                    lockman_t & m = lm ? *lm : *lockman_t::instance();
                    al::object_lock_guard_t<> g1(m, obj_key(a));
                    in_lock(a, r);
                    if (nested)
                    {
                        try
                        {
                            al::object_lock_guard_t<> g2(m, obj_key(b));
                            in_lock(b, r);
                            out_lock(b);
                        }
                        catch (const std::bad_alloc &)
                        {
                            quiet_t q;
                            vs::check(faults && vs::alloc_failed_in_this_run(), "bad_alloc: without a failed allocation");
                        }
                    }
                    out_lock(a);
                }
                catch (const std::bad_alloc &)
                {
                    quiet_t q;
                    vs::check(faults && vs::alloc_failed_in_this_run(), "bad_alloc: without a failed allocation");
                    vs::probe(2);
                }
                if (!faults && r.one_in(60))
                {
                    int never;
                    bool threw = false;
                    lockman_t & m = lm ? *lm : *lockman_t::instance();
                    try { m.exit(&never); } catch (...) { threw = true; }
                    quiet_t q;
                    vs::check(threw, "exit: leaving a lock that was never entered was accepted");
                }
            }
        });
    }
    vs::start_and_join();
    for (int o = 0; o < objs; o++)
    {
        vs::check(g_obj[o].data == g_count[o], "exclusion: %ld updates under the lock of object %d, %ld survived", g_count[o], o, g_obj[o].data);
        lockman_t & m = lm ? *lm : *lockman_t::instance();
        m.enter(obj_key(o));       // ends the process when the lock was left locked (see pthread_mutex_lock)
        m.exit(obj_key(o));
    }
}
static void run_objlock(vs::rng_t & w) { objlock(w, false); }
static void run_objlock_mem(vs::rng_t & w) { objlock(w, true); }

// locks of different objects do not exclude each other: thread 1 keeps its object until all others got theirs
static void run_objlock_apart(vs::rng_t & w)
{
    static lockman_t m;
    choose_keys(w);
    int threads = 2 + (int)w.below(4);
    int churn = (int)w.below(30);
    static int got, rounds;
    static int n_threads;
    n_threads = threads;
    rounds = 1 + (int)w.below(3);
    for (int t = 0; t < threads; t++)
    {
        u64 seed = w.next();
        vs::spawn([=] {
            vs::rng_t r(seed);
            for (int k = 0; k < rounds; k++)
            {
                for (int i = 0; i < churn; i++)
                {
                    int o = 8 + (int)r.below(8);
                    al::object_lock_guard_t<> g(m, obj_key(o));
                    in_lock(o, r);
                    out_lock(o);
                }
                {
                    al::object_lock_guard_t<> g(m, obj_key(t));
                    in_lock(t, r);
                    { quiet_t q; got++; }
                    vs::wait_until([k] { return got >= n_threads * (k + 1); }, "the others to lock objects of their own");
                    out_lock(t);
                }
            }
        });
    }
    vs::start_and_join();
}

// ------------------------------------------------------------------ T03: lazy initialisation

static int lz_calls, lz_done, lz_throws, lz_fail, lz_caught, lz_inside, lz_points;
struct lazy_error_t { };
struct payload_t { int a, b, c; };
static payload_t lz_payload;

static void lazy_body()
{
    int k;
    {
        quiet_t q;
        lz_inside++;
        vs::check(lz_inside == 1, "once: two threads run the initialiser at the same time");
        vs::check(lz_done == 0, "once: the initialiser runs again after it has succeeded");
        k = ++lz_calls;
    }
    lz_payload.a = k;
    for (int i = 0; i < lz_points; i++) vs::point();
    if (k <= lz_fail)
    {
        quiet_t q;
        lz_throws++;
        lz_inside--;
        vs::probe(3);
        throw lazy_error_t();
    }
    lz_payload.b = k * 3;
    lz_payload.c = k * 5;
    quiet_t q;
    lz_inside--;
    lz_done++;
}

struct init_obj_t : public al::initializer_t
{
    int value = -1;
    virtual void __initialize() override { lazy_body(); value = lz_calls * 7; }
    int get() { __ensure_init(); return value; }
};

static void run_lazy(vs::rng_t & w)
{
    static int kind;
    kind = (int)w.below(3);
    lz_fail = w.one_in(2) ? 0 : (int)w.below(4);
    lz_points = (int)w.below(5);
    int threads = 2 + (int)w.below(5);
    int uses = 1 + (int)w.below(4);
    static al::lazy_t<int> * lv = new al::lazy_t<int>([] { lazy_body(); return lz_calls * 7; });
    static al::lazy_t<payload_t *> * lp = new al::lazy_t<payload_t *>([] { lazy_body(); return &lz_payload; });
    static init_obj_t * io = new init_obj_t();
    for (int t = 0; t < threads; t++)
        vs::spawn([uses] {
            for (int i = 0; i < uses;)
            {
                try
                {
                    int got, want;
                    if (kind == 0) got = *lv;
                    else if (kind == 1) { payload_t * p = *lp; got = p == &lz_payload ? (*lp)->b : -1; }
                    else got = io->get();
                    int c = lz_payload.c;
                    quiet_t q;
                    vs::check(lz_done == 1, "once: a value was handed out although %d initialisers have finished", lz_done);
                    want = kind == 1 ? lz_calls * 3 : lz_calls * 7;
                    vs::check(got == want && c == lz_calls * 5, "value: %d was handed out, the initialiser computed %d", got, want);
                    i++;
                }
                catch (const lazy_error_t &)
                {
                    quiet_t q;
                    lz_caught++;
                }
            }
        });
    vs::start_and_join();
    vs::check(lz_done == 1, "once: the initialiser finished %d times", lz_done);
    vs::check(lz_calls == lz_fail + 1, "once: %d calls of an initialiser that fails %d times", lz_calls, lz_fail);
    vs::check(lz_caught == lz_throws, "failure: the initialiser failed %d times, callers saw %d failures", lz_throws, lz_caught);
}

// ------------------------------------------------------------------ T04: resource pool

struct res_t : public object_t { long data = 0; X_TO_STRING_IMPL(_T("res_t")) };
static struct rp_t
{
    struct e_t { res_t * p; int owner; bool dead; bool idle; int gen; };
    std::vector<e_t> all;
    int created = 0, destroyed = 0, held = 0, acquiring = 0, fail_in = 0, failures = 0, caught = 0, points = 0;
    bool mem = false;
    int idle() { int n = 0; for (e_t & e : all) n += e.idle; return n; }   // released for sure, not handed out again as far as known
    e_t * find(res_t * p) { for (e_t & e : all) if (e.p == p) return &e; return nullptr; }
} * rp;

struct res_creator_t : public creator_t<res_t>
{
    virtual res_t * create(memory_t *, const __creator_empty_args_t &) override
    {
        quiet_t q;
        // objects whose release has returned, less those other acquires may have taken
        vs::check(rp->idle() - (rp->acquiring - 1) <= 0, "reuse: a new object is created although %d released ones are idle", rp->idle());
        if (rp->fail_in && --rp->fail_in == 0)
        {
            rp->failures++;
            vs::probe(4);
            throw std::bad_alloc();
        }
        res_t * p = new res_t();
        rp->all.push_back({ p, 0, false, false, 0 });
        rp->created++;
        return p;
    }
    virtual void destory(memory_t *, res_t * p) override
    {
        quiet_t q;
        rp_t::e_t * e = rp->find(p);
        vs::check(e != nullptr, "destroy: the pool destroys an object it never created");
        vs::check(!e->dead, "destroy: the pool destroys an object twice");
        vs::check(e->owner == 0, "destroy: the pool destroys an object thread %d holds", e->owner);
        e->dead = true;
        e->idle = false;
        rp->destroyed++;
        vs::probe(5);
    }
};

static void respool(vs::rng_t & w, bool mem)
{
    rp = new rp_t();
    rp->mem = mem;
    static res_creator_t creator;
    size_t cap = (size_t)w.below(4);
    static al::respool_t<res_t> * pool;
    pool = new al::respool_t<res_t>(nullptr, &creator, cap);
    int threads = 2 + (int)w.below(4);
    int ops = 2 + (int)w.below(mem && w.one_in(3) ? 80 : 10);
    if (w.one_in(3)) rp->fail_in = 1 + (int)w.below(6);
    for (int t = 0; t < threads; t++)
    {
        u64 seed = w.next();
        vs::spawn([=] {
            vs::rng_t r(seed);
            std::vector<res_t *> mine;
            int hold = 1 + (int)r.below(4);
            for (int i = 0; i < ops; i++)
            {
                if ((int)mine.size() < hold && (mine.empty() || r.one_in(2)))
                {
                    { quiet_t q; rp->acquiring++; }
                    try
                    {
                        res_t * p = pool->acquire();
                        {
                            quiet_t q;
                            rp->acquiring--;
                            rp_t::e_t * e = rp->find(p);
                            vs::check(e != nullptr, "acquire: the pool hands out an object it never created");
                            vs::check(!e->dead, "acquire: the pool hands out an object it has destroyed");
                            vs::check(e->owner == 0, "exclusive: thread %d got the object thread %d holds", vs::self(), e->owner);
                            e->owner = vs::self();
                            e->idle = false;
                            e->gen++;
                            rp->held++;
                            mine.push_back(p);
                        }
                        p->data++;              // races when two threads have it
                    }
                    catch (const std::bad_alloc &)
                    {
                        quiet_t q;
                        rp->acquiring--;
                        rp->caught++;
                    }
                }
                else if (!mine.empty())
                {
                    size_t k = r.below(mine.size());
                    res_t * p = mine[k];
                    p->data++;
                    int gen;
                    {
                        quiet_t q;
                        mine.erase(mine.begin() + k);
                        rp->find(p)->owner = 0;
                        gen = rp->find(p)->gen;
                        rp->held--;
                    }
                    try
                    {
                        pool->release(p);
                    }
                    catch (const std::bad_alloc &)
                    {
                        quiet_t q;              // then the object stays with its holder
                        vs::check(rp->mem && vs::alloc_failed_in_this_run(), "bad_alloc: without a failed allocation");
                        vs::check(!rp->find(p)->dead && rp->find(p)->gen == gen, "failure: a release that failed gave the object away");
                        rp->find(p)->owner = vs::self();
                        rp->held++;
                        mine.push_back(p);
                        vs::probe(6);
                        continue;
                    }
                    quiet_t q;
                    rp_t::e_t * e = rp->find(p);
                    if (e->gen == gen && !e->dead) e->idle = true;
                }
                if (!rp->mem && r.one_in(50))
                {
                    res_t foreign;
                    bool threw = false;
                    try { pool->release(&foreign); } catch (...) { threw = true; }
                    quiet_t q;
                    vs::check(threw, "foreign: the pool accepted an object that is not its own");
                }
            }
            for (res_t * p : mine)
            {
                if (r.one_in(4)) continue;      // kept until the pool goes
                { quiet_t q; rp->find(p)->owner = 0; rp->held--; }
                try
                {
                    pool->release(p);
                }
                catch (const std::bad_alloc &)
                {
                    quiet_t q;
                    rp->find(p)->owner = vs::self();
                    rp->held++;
                }
            }
        });
    }
    vs::start_and_join();
    int idle = rp->created - rp->destroyed - rp->held;
    vs::check(idle <= (int)(cap * 3 / 2), "bound: %d idle objects are kept by a pool of capacity %d", idle, (int)cap);
    vs::check(mem || rp->caught == rp->failures, "failure: %d failed creations, callers saw %d", rp->failures, rp->caught);
    for (auto & e : rp->all) e.owner = 0;
    // the pool still works, then takes everything with it
    rp->acquiring = 1;
    for (auto & e : rp->all) e.idle = false;
    rp->fail_in = 0;
    res_t * p = pool->acquire();
    vs::check(p && rp->find(p) && !rp->find(p)->dead, "acquire: the pool does not work after the run");
    pool->release(p);
    bool threw = false;
    try { pool->release(p); } catch (...) { threw = true; }
    vs::check(threw, "foreign: the pool accepted an object that was released already");
    delete pool;
    vs::check(rp->created == rp->destroyed, "conservation: %d objects created, %d destroyed with the pool", rp->created, rp->destroyed);
}

static void run_respool(vs::rng_t & w) { respool(w, false); }
static void run_respool_mem(vs::rng_t & w) { respool(w, true); }

const vs::scenario_t vs::scenarios[] = {
    { "sem", run_sem, false },
    { "signal", run_signal, false },
    { "objlock", run_objlock, false },
    { "objlock_mem", run_objlock_mem, true },
    { "objlock_apart", run_objlock_apart, false },
    { "lazy", run_lazy, false },
    { "respool", run_respool, false },
    { "respool_mem", run_respool_mem, true },
};
const int vs::scenario_count = sizeof(vs::scenarios) / sizeof(vs::scenarios[0]);
