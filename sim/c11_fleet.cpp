// C11: many devices on one channel, their operations overlapping.
#include "fleet.hpp"
using namespace fleet;
namespace {
void body() {
    build(); int ops = 10 + sim.choose(25); uint64_t started = 0; int together = 0;
    while (ops > 0) {
        std::vector<Unit *> v; int busy = 0; for (auto *u : units) { if (u->out) busy++; else v.push_back(u); }
        together = std::max(together, busy);
        if (!v.empty() && sim.choose(busy ? 12 : 2) == 0) { Unit *u = v[sim.choose((uint32_t)v.size())]; sim.ev("%s gets a program", u->name.c_str()); u->submit(u->gen()); ops--; started++; if (busy) sim.probe("overlap"); if (busy > 1) sim.probe("overlap-3"); }
        else if (busy && sim.fault_scale && sim.choose(60) == 0) { for (auto *u : units) if (u->out && !u->gone && u->s->active() && sim.choose(busy) == 0) { if (sim.choose(3) && u->p.size() == 1) { u->s->halt_req = true; sim.fault_fired("halt"); } else u->s->tio_req = true; break; } }
        int k = sim.choose(3) ? 1 : sim.choose(60); for (int i = 0; i <= k; i++) turn();
        sim.state(hash64(busy, C.tags_in));
        if (busy == 0 && sim.choose(6) == 0) { drain(); for (auto *u : units) u->verify("all idle"); }
    }
    finish(); sim.done();
}
void run_plain() { sim.fault_scale = 0; sim.step_budget = 80000000; body(); }
void run_fault() { sim.fault_scale = 1; sim.step_budget = 80000000; body(); }
}
Property property = {
    "C11",
    { {"overlap", run_plain, 12000, 300000, "device ticks"}, {"disturbed", run_fault, 12000, 300000, "device ticks"} },
    "seeded mixes of 1442, 1443 and 2415 devices in seeded order and at seeded addresses on one selector or multiplexor channel, programs of several of them overlapping, with seeded response delays, stalls, status stacking, halts and busy tests; non-trivial once a program ended",
    "distinct (programs outstanding, tags) combinations",
    {"model1442.c", "panel1442.c", "model1443.c", "model2415.c", "card.c", "tape.c", "device.c", "event.c", "xlat.c", "C library streams"},
    {"channel (cycle-stepped driver)", "SDL and panel widgets", "option parser", "logger", "host file system"},
    {"overruns are allowed for any device that transfers data while others use the channel", "a control unit busy with another unit may refuse a command with busy and status modifier"},
    {"overlap", "overlap-3", "absent", "card-read", "punch", "line-printed", "tape-read", "tape-write", "rewind", "control-unit-busy", "overrun"},
    25, 800
};
