// Threads of the program under test as coroutines of one process: a seeded
// scheduler decides which runs, and takes the processor away between any two
// memory accesses of code compiled with T objects (see Makefile).
#pragma once
#include "core.hpp"
#include <ucontext.h>
#include <functional>
#include <string>
#include <vector>
#include <stdlib.h>
extern "C" { void __sanitizer_start_switch_fiber(void **, const void *, size_t); void __sanitizer_finish_switch_fiber(void *, const void **, size_t *); }
namespace co {
struct Task { ucontext_t c; std::function<void()> fn; char *stk = nullptr; size_t len = 256 << 10; bool done = false; uint64_t wake = 0; std::function<bool()> ready; const char *name; void *fake = nullptr; bool started = false; };
inline std::vector<Task *> tasks; inline Task *cur = nullptr; inline uint64_t now = 0;     // microseconds
inline uint64_t count = 0, period = 0, switches = 0, preemptions = 0, sched_hash = 0; inline uint32_t stall_pm = 0, stall_max = 0;
inline ucontext_t mainc; inline void *mainfake; inline const void *mainbot; inline size_t mainlen;
inline void to(Task *t);
inline void arm() { count = period ? 1 + sim.choose(period) : UINT64_MAX; }
inline bool runnable(Task *t) { if (t->done) return false; if (t->wake <= now) return true; return t->ready && t->ready(); }
// choose who runs next; time passes only when nobody can run
inline Task *pick(bool stay) {
    static std::vector<Task *> r;
    for (;;) {
        r.clear(); uint64_t w = UINT64_MAX;
        for (auto t : tasks) { if (runnable(t)) r.push_back(t); else if (!t->done && t->wake < w) w = t->wake; }
        if (!r.empty()) break;
        if (w == UINT64_MAX) sim.fail("deadlock", "every thread waits for ever");
        sim.ticks(w - now); now = w;
    }
    sim.step(1);
    Task *t = r.size() == 1 ? r[0] : r[sim.choose(r.size())];
    return t;
}
inline void start_(Task *t) { __sanitizer_finish_switch_fiber(t->fake, &mainbot, &mainlen); t->fn(); t->done = true; t->wake = UINT64_MAX; t->ready = nullptr; to(pick(false)); abort(); }
inline void tramp(unsigned a, unsigned b) { start_((Task *)((uintptr_t)a << 32 | b)); }
inline void to(Task *t) {
    if (t == cur) { if (!count) arm(); return; }
    Task *o = cur; cur = t; switches++; sched_hash = hash64(sched_hash, (uintptr_t)t->name[0] * 31 + t->name[1]); arm();
    __sanitizer_start_switch_fiber(o ? &o->fake : &mainfake, t->stk, t->len);
    swapcontext(o ? &o->c : &mainc, &t->c);
    if (o) __sanitizer_finish_switch_fiber(o->fake, nullptr, nullptr);
}
inline Task *spawn(const char *name, std::function<void()> fn) {
    Task *t = new Task; t->name = name; t->fn = fn; t->stk = (char *)malloc(t->len); getcontext(&t->c); t->c.uc_stack.ss_sp = t->stk; t->c.uc_stack.ss_size = t->len; t->c.uc_link = nullptr;
    makecontext(&t->c, (void (*)())tramp, 2, (unsigned)((uintptr_t)t >> 32), (unsigned)(uintptr_t)t); tasks.push_back(t); return t;
}
inline void yield() { if (cur) to(pick(true)); }
inline void sleep(uint64_t us) { cur->wake = now + us; cur->ready = nullptr; to(pick(false)); cur->wake = 0; }
// wait for a condition, or until the deadline; true if the condition holds
inline bool wait(std::function<bool()> f, uint64_t us = UINT64_MAX / 4) { if (!f()) { cur->wake = now + us; cur->ready = f; to(pick(false)); } cur->wake = 0; cur->ready = nullptr; return f(); }
inline void join(Task *t) { wait([t] { return t->done; }); }
inline void run() { to(pick(false)); abort(); }        // tasks end the run with sim.done()
// between two memory accesses of instrumented code
inline void access() {
    if (--count) return;
    if (!cur) { arm(); return; }
    preemptions++;
    if (stall_pm && sim.choose(1000) < stall_pm) { sim.fault_fired("stalled-thread"); sleep(1 + sim.choose(stall_max)); }
    else to(pick(true));
}
}
#ifdef CO_HOOKS
extern "C" {
#define H(n) void __real___asan_##n(uintptr_t); void __wrap___asan_##n(uintptr_t a) { co::access(); __real___asan_##n(a); }
H(load1) H(load2) H(load4) H(load8) H(load16) H(store1) H(store2) H(store4) H(store8) H(store16)
#define HN(n) void __real___asan_##n(uintptr_t, size_t); void __wrap___asan_##n(uintptr_t a, size_t s) { co::access(); __real___asan_##n(a, s); }
HN(loadN) HN(storeN)
}
#endif
