// C01: the event queue against an absolute-time reference model.
#include "core.hpp"
#include "env.hpp"
#include <map>
#include <algorithm>
extern "C" {
#include "device.h"
#include "event.h"
}

// Reference: every scheduled event has an absolute due cycle.  What the
// property leaves open is the order of events due on the same cycle, and the
// exact turn of an event that a callback schedules or cancels for "now".
namespace {
enum { NDEV = 4, NFUNC = 5 };
struct _device devs[NDEV];
struct Ev { uint64_t id; int dev, fn; void *arg; int iarg; uint64_t due; int state; /*0 pending 1 fired 2 cancelled*/ uint64_t seq; };
std::vector<Ev> evs;
struct Group { int dev, fn; uint64_t due; std::vector<int> ids; int gone; };
std::vector<Group> groups;   // events tied on one cycle of which `gone` were cancelled
uint64_t now_;
int depth;
bool in_advance;
int executing = -1;       // id of event whose callback is running
int actions_left;
uint64_t nadd;
std::vector<int> expect_now;   // ids scheduled with time 0, awaiting immediate call

void cb(int fn, struct _device *dev, void *arg, int iarg);
template <int F> void cbf(struct _device *d, void *a, int i) { cb(F, d, a, i); }
_callback fns[NFUNC] = { cbf<0>, cbf<1>, cbf<2>, cbf<3>, cbf<4> };

int pending() { int n = 0; for (auto &e : evs) n += e.state == 0; return n; }

void do_add(bool nested) {
    int d = sim.choose(NDEV), f = sim.choose(NFUNC);
    // delays: short with many ties, sometimes long
    static const int shorts[] = {1, 1, 2, 2, 3, 5, 8};
    int t; int k = sim.weighted({60, 25, nested && depth > 6 ? 0 : 8, 7});
    if (k == 0) t = shorts[sim.choose(7)];
    else if (k == 1) t = 1 + sim.choose(40);
    else if (k == 2) t = 0;
    else t = 100 + sim.choose(3000);
    Ev e; e.id = evs.size(); e.dev = d; e.fn = f; e.arg = (void *)(uintptr_t)(0x1000 + e.id * 16); e.iarg = (int)(e.id * 7 + 3);
    e.due = now_ + t; e.state = 0; e.seq = nadd++;
    sim.ev("%*sadd #%llu dev%d fn%d in %d (due %llu)%s", depth * 2, "", (unsigned long long)e.id, d, f, t, (unsigned long long)e.due, nested ? " from callback" : "");
    evs.push_back(e);
    size_t id = e.id;
    uint64_t before = env::alloc_failures;
    if (t == 0) expect_now.push_back(id);
    env::armed = true;
    int r = add_event(&devs[d], fns[f], t, e.arg, e.iarg);
    env::armed = false;
    if (t == 0) {
        CHECK(evs[id].state == 1, "zero-delay-not-immediate", "event #%zu scheduled for now did not run at once", id);
        CHECK(r == 0, "zero-delay-return", "scheduling for now returned %d", r);
    } else if (env::alloc_failures != before) {
        CHECK(r != 0, "alloc-failure-unreported", "memory ran out while scheduling #%zu but success was reported", id);
        evs[id].state = 2;
        sim.probe("alloc-fail-reported");
    } else {
        CHECK(r == 0, "schedule-refused", "scheduling #%zu failed (%d) without a reason", id, r);
        CHECK(evs[id].state == 0, "ran-early", "event #%zu ran inside scheduling", id);
    }
}
void do_cancel(bool nested) {
    int d = sim.choose(NDEV), f = sim.choose(NFUNC);
    // prefer a (dev,fn) that has pending events, and often several of them
    if (sim.chance(4, 5)) {
        std::vector<int> c; for (auto &e : evs) if (e.state == 0 && e.due > now_) c.push_back(e.id);
        if (!c.empty()) { Ev &e = evs[c[sim.choose(c.size())]]; d = e.dev; f = e.fn; }
    }
    std::vector<int> cand; for (auto &e : evs) if (e.state == 0 && e.dev == d && e.fn == f) cand.push_back(e.id);
    sim.ev("%*scancel dev%d fn%d (%zu pending)%s", depth * 2, "", d, f, cand.size(), nested ? " from callback" : "");
    cancel_event(&devs[d], fns[f]);
    // exactly one goes: one with the earliest due cycle.  Which of several
    // tied ones is found out when the others fire: remember the group.
    std::map<uint64_t, std::vector<int>> bydue; for (int i : cand) bydue[evs[i].due].push_back(i);
    for (auto &x : bydue) {
        std::vector<int> &t = x.second; Group *g = nullptr;
        for (auto &q : groups) if (q.dev == d && q.fn == f && q.due == x.first) g = &q;
        int left = (int)t.size() - (g ? g->gone : 0);
        // members of a group that have already run this cycle are not in t
        if (left <= 0) continue;
        if (left == 1 ) {
            for (int i : t) evs[i].state = 2;
            if (g) groups.erase(groups.begin() + (g - &groups[0]));
        } else if (g) { g->gone++; g->ids = t; sim.probe("cancel-tied"); }
        else { groups.push_back({d, f, x.first, t, 1}); sim.probe("cancel-tied"); }
        if (cand.size() > 1) sim.probe("cancel-with-duplicates");
        sim.probe(nested ? "cancel-nested" : "cancel");
        return;
    }
}

void cb(int fn, struct _device *dev, void *arg, int iarg) {
    sim.step();
    uint64_t id = ((uintptr_t)arg - 0x1000) / 16;
    CHECK(((uintptr_t)arg & 15) == 0 && id < evs.size(), "bad-argument", "callback fn%d ran with argument %p never given to the scheduler", fn, arg);
    sim.ev("%*srun #%llu fn%d at %llu", depth * 2, "", (unsigned long long)id, fn, (unsigned long long)now_);
    Ev &e0 = evs[id];
    CHECK(e0.fn == fn && dev == &devs[e0.dev] && iarg == e0.iarg, "wrong-arguments", "event #%llu ran with another event's device or arguments", (unsigned long long)id);
    CHECK(e0.state != 1, "ran-twice", "event #%llu ran twice", (unsigned long long)id);
    CHECK(e0.state != 2, "ran-after-cancel", "event #%llu ran although cancelled or refused", (unsigned long long)id);
    CHECK(e0.due == now_, e0.due < now_ ? "late" : "early", "event #%llu due at %llu ran at %llu", (unsigned long long)id, (unsigned long long)e0.due, (unsigned long long)now_);
    if (!expect_now.empty() && expect_now.back() == (int)id) expect_now.pop_back();
    else CHECK(in_advance, "ran-outside-tick", "event #%llu ran outside a clock tick", (unsigned long long)id);
    e0.state = 1;
    int save = executing; executing = (int)id; depth++;
    if (depth < 8 && actions_left > 0) {
        int n = sim.weighted({50, 30, 12, 8});
        if (n) sim.probe("reentrant");
        while (n-- > 0 && actions_left-- > 0) { if (sim.chance(1, 3)) do_cancel(true); else do_add(true); }
    }
    depth--; executing = save;
}
void tick() {
    now_++; sim.ticks(); sim.step();
    in_advance = true; env::armed = true; advance(); env::armed = false; in_advance = false;
    // settle groups of tied cancellations due now
    for (size_t g = 0; g < groups.size();) {
        if (groups[g].due == now_) {
            int fired = 0; for (int i : groups[g].ids) fired += evs[i].state == 1;
            int want = (int)groups[g].ids.size() - groups[g].gone;
            CHECK(fired == want, fired > want ? "cancel-ineffective" : "cancel-dropped-too-many", "of %zu events tied at %llu, %d cancelled, %d ran", groups[g].ids.size(), (unsigned long long)now_, groups[g].gone, fired);
            for (int i : groups[g].ids) if (evs[i].state == 0) evs[i].state = 2;
            groups.erase(groups.begin() + g);
        } else g++;
    }
    for (auto &e : evs) if (e.state == 0) CHECK(e.due > now_, "missed", "event #%llu due at %llu has not run by the end of cycle %llu", (unsigned long long)e.id, (unsigned long long)e.due, (unsigned long long)now_);
}
uint64_t abst() { std::vector<uint64_t> v; for (auto &e : evs) if (e.state == 0) v.push_back((e.due - now_) * 32 + e.dev * 5 + e.fn); std::sort(v.begin(), v.end()); return hashbytes(v.data(), v.size() * 8); }

void reset() { evs.clear(); groups.clear(); now_ = 0; depth = 0; evs.reserve(100000); init_event(); }

bool episode(bool faults);
void run_queue(bool faults) {
    int n = 1 + sim.choose(16);
    while (n--) { if (episode(faults)) sim.nontrivial(); sim.ev("-- next history"); }
    sim.done();
}
bool episode(bool faults) {
    reset();
    sim.faults_on = true; sim.fault_scale = faults;
    if (faults) env::rates.alloc_fail = sim.pick({20u, 100u, 300u});
    int nops = 5 + sim.choose(sim.tier ? 400 : 150);
    int wadd = 10 + sim.choose(40), wcan = sim.choose(30), wtick = 10 + sim.choose(60), wjump = sim.choose(6);
    env::armed = false; actions_left = sim.choose(4) ? nops : 0;
    int cancels = 0;
    for (int i = 0; i < nops; i++) {
        switch (sim.weighted({wtick, wadd, wcan, wjump})) {
        case 0: tick(); break;
        case 1: do_add(false); break;
        case 2: do_cancel(false); cancels++; break;
        case 3: { int n = 1 + sim.choose(200); while (n--) tick(); break; }
        }
        sim.state(abst());
    }
    // faults stop: everything still pending must run, on time
    sim.faults_on = false; actions_left = 0;
    uint64_t last = now_; for (auto &e : evs) if (e.state == 0) last = std::max(last, e.due);
    while (now_ < last) tick();
    for (auto &e : evs) CHECK(e.state != 0, "never-ran", "event #%llu never ran", (unsigned long long)e.id);
    for (int i = 0; i < 5; i++) tick();
    return evs.size() >= 5 && cancels;
}
}
static void s_plain() { run_queue(false); }
static void s_alloc() { run_queue(true); }
Property property = { "C01",
  { { "queue", s_plain, 14000, 400000, "cycles" }, { "queue-alloc-faults", s_alloc, 8000, 200000, "cycles" } },
  "a run is up to 16 seeded histories of schedule/cancel/tick operations, outside and inside callbacks, with ties; non-trivial: at least 5 events and a cancel attempt",
  "hash of the multiset of (remaining delay, device, callback) of pending events",
  { "src/event.c" }, { "devices and callbacks (scripted by the simulator)", "logger" },
  { "events tied on one cycle may run in any order", "cancelling the (device, callback) pair of several pending events removes one with the earliest due cycle" },
  { "cancel", "cancel-nested", "reentrant", "cancel-with-duplicates", "alloc-fail-reported" }, 30, 800 };
