// C02: tape image histories against a record-level reference model.
#include "tape_hist.hpp"
namespace {
void run() {
    sim.step_budget = 3000000;
    start_image();
    std::vector<uint8_t> orig; if (env::get(FN)) orig = env::get(FN)->data;
    bool ever_ring = ring;
    attach();
    int nops = 3 + sim.choose(sim.tier ? 80 : 40);
    weights();
    for (int i = 0; i < nops; i++) { one_op(); ever_ring |= ring; }
    // everything that is known must still be there, end to end
    op_rewind(); while (pos < m.size()) op_read();
    if (tail_known) op_read();
    while (pos > 0) op_back();
    op_back();
    tape_detach(&T);
    verify_file("at the end");
    if (!ever_ring) CHECK(env::get(FN)->data == orig, "protected-modified", "a tape without write ring was modified");
    CHECK(env::open_fds == 0, "descriptor-leak", "%d files open after detach", env::open_fds);
    if (writes + reads >= 3) sim.nontrivial();
    sim.done();
}
}
Property property = { "C02", { { "histories", run, 40000, 1500000, "frames" } },
  "a run is one tape image (new or given, SIMH/E11/P7B) under a seeded history of record writes, marks, full and partial reads forward and backward, rewinds and re-attaches; record lengths are steered onto buffer boundaries; non-trivial: at least 3 record operations",
  "hash of (format, record position, image offset modulo 32 KiB, known records)",
  { "src/device/tape.c", "src/device/xlat.c" }, { "host file system (in-memory, fault-free here)", "logger" },
  { "reading past records that a mid-tape write has overwritten is undefined, as on a real tape, and is not done", "P7B records never start with the tape-mark code" },
  { "overwrite-mid-tape", "update-in-place", "read-at-end", "back-at-load-point", "partial-read", "read-back", "write-protected", "end-of-medium-marker" }, 40, 800 };
