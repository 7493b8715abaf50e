// Thread simulator: one baton, seeded scheduling at every synchronisation operation, atomic operation
// and instrumented memory access; virtual time; injected spurious wake-ups, time jumps, failing
// allocations and long stalls; happens-before race detection; use after free; deadlock detection.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>

namespace vs {

struct rng_t
{
    uint64_t s;
    explicit rng_t(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool one_in(uint64_t n) { return n && below(n) == 0; }
};

// No scheduling, no race detection and no injected failure while one of these lives: for the
// bookkeeping of the scenarios.
struct quiet_t
{
    quiet_t();
    ~quiet_t();
};

struct scenario_t
{
    const char * name;
    void (*run)(rng_t & workload);      // runs on the main thread: sets up, spawns, joins, checks
    bool alloc_faults;
};

extern const scenario_t scenarios[];
extern const int scenario_count;

int  spawn(const std::function<void()> & fn);   // only before start()
void start_and_join();                          // runs all spawned threads to their end
[[noreturn]] void fail(const char * fmt, ...);  // reports a violation
void check(bool ok, const char * fmt, ...);
void note(const char * fmt, ...);               // a line of the history
void point();                                   // a place where the scheduler may switch
void sleep_ns(uint64_t ns);
uint64_t now_ns();
int  self();
void probe(int k);                              // counts that something interesting happened
void wait_until(const std::function<bool()> & cond, const char * what);   // driver-level waiting
bool alloc_failed_in_this_run();
}
