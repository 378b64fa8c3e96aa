// C18: the channel resets its interface at any cycle of any operation.
#include "fleet.hpp"
using namespace fleet;
namespace {
uint64_t fuse = 0; bool lit = false;
void hook() { if (lit && !learning && fuse-- == 0) { lit = false; throw Reset(); } }
void after_reset(const char *what) {
    sim.fault_fired(what); int nb = 0; std::vector<bool> had; for (auto *u : units) { had.push_back(u->out); nb += u->out; if (u->out && !u->s->log.empty()) sim.probe(u->s->r().ce ? "reset-after-channel-end" : u->s->r().init >= 0 ? "reset-in-data" : "reset-in-selection"); if (u->out && u->s->log.empty()) sim.probe("reset-before-start"); sim.state(hash64(u->out ? (u->s->log.empty() ? 1 : (u->s->r().cmd << 4) + u->s->r().ce * 2 + 8) : 0, u->out && !u->s->log.empty() ? u->s->r().init : -2)); }
    sim.ev("interface reset (%s), %d units with a program", what, nb);
    for (auto *u : units) { u->out = false; u->s->async.clear(); u->s->halt_req = u->s->tio_req = false; }
    C.stale = 0; C.reset(1 + sim.choose(6));
    std::vector<uint64_t> md; for (auto *u : units) md.push_back(u->medium());
    // nothing may be heard of what was cut short, however long we wait
    uint64_t end = C.now + (sim.choose(3) ? 30 : 3000); bool quick = sim.choose(2);
    if (!quick) { while (C.now < end) { C.cycle(); if (C.tags_in & (IN_TAGS)) sim.fail("status-after-reset", "a device drives tags %04x after the interface was reset", C.tags_in & IN_TAGS); }
        for (size_t i = 0; i < units.size(); i++) CHECK(units[i]->medium() == md[i], "motion-after-reset", "%s went on moving its medium after the reset", units[i]->name.c_str()); sim.probe("waited"); }
    for (size_t i = 0; i < units.size(); i++) if (!units[i]->gone) units[i]->cut(had[i]);
    check_async();
}
void body() {
    build(); C.hook = hook; int rounds = 2 + sim.choose(5);
    while (rounds--) {
        try {
            lit = false; int ops = sim.choose(6); while (ops > 0) { for (auto *u : units) if (!u->out && sim.choose(4) == 0) { u->submit(u->gen()); ops--; } for (int k = sim.choose(40); k >= 0; k--) turn(); }
            for (auto *u : units) if (!u->out && sim.choose(2)) u->submit(u->gen());
            static const int f[] = { 10, 60, 300, 1500, 8000 }; fuse = sim.choose(sim.pick(f)); lit = true; uint64_t t = C.now;
            while (lit && C.now - t < 20000) turn();
            lit = false; throw Reset();
        } catch (Reset &) { lit = false; after_reset("interface-reset"); sim.nontrivial(); }
        if (sim.choose(3) == 0) { try { for (auto *u : units) if (!u->out && sim.choose(2)) u->submit(u->gen()); fuse = sim.choose(40); lit = true; for (int i = 0; i < 40; i++) turn(); lit = false; } catch (Reset &) { lit = false; after_reset("reset-again"); } }
    }
    // afterwards everything works
    for (int i = 0; i < 3; i++) for (auto *u : units) { if (!u->out) u->submit(u->gen()); drain(); }
    finish(); sim.done();
}
void run_plain() { sim.fault_scale = 1; sim.step_budget = 80000000; body(); }
}
Property property = {
    "C18",
    { {"resets", run_plain, 12000, 300000, "device ticks"} },
    "seeded mixes of 1442, 1443 and 2415 devices with overlapping programs, the interface reset at a seeded cycle, again and again; non-trivial once a reset happened",
    "distinct (command, stage of it, initial status) cut short",
    {"model1442.c", "panel1442.c", "model1443.c", "model2415.c", "card.c", "tape.c", "device.c", "event.c", "xlat.c", "C library streams"},
    {"channel (cycle-stepped driver)", "SDL and panel widgets", "option parser", "logger", "host file system"},
    {"a record being written when the reset comes is left off the tape, left short, or complete", "a card in motion completes its motion or does not begin it", "the 1052 is reset in C10"},
    {"reset-in-selection", "reset-in-data", "reset-after-channel-end", "reset-before-start", "waited", "cut-card", "cut-print", "cut-tape", "cut-write-part"},
    25, 800
};
