// Deterministic simulation core: one seed -> one exactly repeatable execution.
#pragma once
#include <stdint.h>
#include <stdarg.h>
#include <stddef.h>
#include <string>
#include <vector>

// Everything nondeterministic in a run is decided by Sim::choose (directly or
// through chance/range/fault).  The sequence of choices IS the run: replaying
// it reproduces the run, and shrinking it (choice 0 is always the benign
// alternative, missing choices read as 0) minimises a failure.
struct Sim {
    // ---- decisions
    uint32_t choose(uint32_t n);                 // uniform in [0,n)
    int64_t  range(int64_t lo, int64_t hi) {     // inclusive
        if (hi <= lo) return lo;
        return lo + (int64_t)choose((uint32_t)(hi - lo + 1)); }
    bool     chance(uint32_t num, uint32_t den); // true with probability num/den
    uint8_t  byte() { return (uint8_t)choose(256); }
    template <class T, size_t N> const T &pick(const T (&a)[N]) { return a[choose(N)]; }
    // weighted pick: index i with weight w[i]; index 0 should be benign
    int      weighted(const std::vector<int> &w);
    // skewed length: mostly small, sometimes near a boundary, sometimes big
    uint64_t random64();                         // derived from choices

    // ---- faults: true when the fault fires (and is counted)
    bool     fault(const char *kind, uint32_t num, uint32_t den);
    void     fault_fired(const char *kind);      // count a fault decided elsewhere
    bool     faults_on = true;                   // cleared by quiesce()
    uint32_t fault_scale = 0;                    // 0 = fault-free configuration

    // ---- history
    void ev(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3))); // replay trace only
    void mix(uint64_t v);                        // hash only (cheap)
    void state(uint64_t h);                      // a distinct state reached
    void probe(const char *name);                // reach probe
    void ticks(uint64_t n = 1) { sim_ticks += n; }
    void nontrivial() { is_nontrivial = true; }
    // bounded-progress watchdog: deterministic count of simulator steps
    void step(uint64_t n = 1);
    uint64_t step_budget = 50000000;

    // ---- verdict
    [[noreturn]] void fail(const char *sig, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
    [[noreturn]] void done();

    // ---- internals
    bool     verbose = false;
    uint64_t sim_ticks = 0, steps = 0;
    bool     is_nontrivial = false;
    const std::vector<uint32_t> *replay = nullptr;
    size_t   rpos = 0;
    uint64_t prng[2] = {0, 0};
    uint32_t tier = 0;                           // 0 quick, 1 thorough
};
extern Sim sim;

#define CHECK(cond, sig, ...) do { if (!(cond)) sim.fail(sig, __VA_ARGS__); } while (0)

struct Scenario {
    const char *name;
    void (*run)();
    int quick_runs;        // upper bound on runs in the quick tier
    int thorough_runs;
    const char *ticks_unit;
};
// Provided by each property's file.
struct Property {
    const char *id;
    std::vector<Scenario> scenarios;
    const char *rule;                 // how cases are made / what is non-trivial
    const char *states_measure;       // what a distinct state is
    std::vector<const char *> real;   // components that ran real code
    std::vector<const char *> stub;   // components that ran a stand-in
    std::vector<const char *> assumptions;
    std::vector<const char *> probes; // reach probes that must not stay at zero
    int quick_wall_s = 40, thorough_wall_s = 800;
    int cpu_limit_s = 20;
    int max_workers = 8;
};
extern Property property;

static inline uint64_t hash64(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h;
}
static inline uint64_t hashbytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
