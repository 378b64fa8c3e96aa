// C03: tape histories under storage faults, process death and damaged images.
#include "tape_hist.hpp"
#include <algorithm>
namespace {
// Re-read through the library with the faults gone: records before `n` must be
// there and readable.
void recover_check(size_t n, const char *when) {
    sim.faults_on = false; env::armed = false;
    std::vector<Rec> got; size_t used;
    auto f = env::get(FN);
    if (!f) { CHECK(n == 0, "image-gone", "%s: the image file is gone", when); return; }
    n = std::min(n, m.size());
    std::string e = dec(f->data, fmt, n, got, used);
    CHECK(got.size() >= n, "records-lost", "%s: %zu records must have survived, the image decodes to %zu (%s)", when, n, got.size(), e.c_str());
    for (size_t i = 0; i < n; i++) {
        // the last record of a P7B image ends where the next one starts
        bool soft = fmt == FMT_P7B && i + 1 == n;
        bool same = got[i].mark == m[i].mark && (soft ? got[i].d.size() >= m[i].d.size() && std::equal(m[i].d.begin(), m[i].d.end(), got[i].d.begin()) : got[i].d == m[i].d);
        CHECK(same, "record-damaged", "%s: record %zu of %zu that must have survived is damaged", when, i, n);
    }
    memset(&T, 0, sizeof T);
    int r = tape_attach(&T, (char *)FN, fmt, 0, 0);
    CHECK(r == 1 && tape_ready(&T), "reattach-failed", "%s: cannot attach the image again", when);
    for (size_t i = 0; i < n; i++) {
        int rc = tape_read_forw(&T);
        CHECK(rc == (m[i].mark ? TAPE_STATUS_MARK : TAPE_STATUS_OK), "survivor-unreadable", "%s: record %zu reads as %d", when, i, rc);
        if (m[i].mark) continue;
        for (size_t k = 0; k < m[i].d.size(); k++) { uint8_t c = 0; rc = tape_read_frame(&T, &c); CHECK(rc == TAPE_STATUS_OK && c == m[i].d[k], "survivor-wrong", "%s: record %zu frame %zu: code %d, %02x instead of %02x", when, i, k, rc, c, m[i].d[k]); }
        if (!(fmt == FMT_P7B && i + 1 == n)) { rc = tape_finish_rec(&T); CHECK(rc == TAPE_STATUS_OK, "survivor-finish", "%s: record %zu ends with %d", when, i, rc); }
    }
    tape_detach(&T);
}
void set_rates() {
    static const uint32_t lv[] = {0, 0, 20, 100, 300};
    env::rates.open_fail = sim.pick(lv); env::rates.read_eio = sim.pick(lv); env::rates.write_eio = sim.pick(lv);
    env::rates.enospc = sim.pick(lv); env::rates.short_read = sim.pick(lv); env::rates.short_write = sim.pick(lv);
    env::rates.eintr = sim.pick(lv); env::rates.seek_fail = sim.pick(lv); env::rates.close_fail = sim.pick(lv);
    env::rates.alloc_fail = sim.pick(lv);
}
void run_faults() {
    sim.step_budget = 3000000; fault_mode = true; sim.fault_scale = 1;
    start_image();
    set_rates();
    std::vector<uint8_t> orig; bool had = env::get(FN) != nullptr; if (had) orig = env::get(FN)->data;
    bool ever_ring = false;
    int nops = 3 + sim.choose(40); weights();
    bool attached = false; bool err = false; size_t live = 0;
    fault_mark = ~0ull;      // any fault explains an error once one has fired
    for (int i = 0; i < nops && !err; i++) {
        size_t before = pos, cnt = m.size(); (void)cnt;
        fault_mark = env::faults_fired; bool w = false;
        int w0 = writes;
        try {
            if (!attached) { ever_ring |= ring; attach(); attached = true; }
            else { one_op(); ever_ring |= ring; }
        } catch (IoError &) {
            env::armed = false; err = true; w = true;
            CHECK(!env::stray_io, "stray-io", "%s", env::stray_what.c_str());
            if (!attached || !tape_ready(&T)) { live = std::min(m.size(), floor_); attached = false; }
            else live = before;   // records before the failing operation were acknowledged
        }
        (void)w; (void)w0;
        if (env::faults_fired != fault_mark && !err) sim.probe("fault-absorbed");
    }
    if (err) sim.probe("error-reported");
    sim.faults_on = false; env::armed = false;
    if (attached) {
        // faults have stopped: the drive must still rewind, and every record
        // that was acknowledged must be on the tape
        int rc = tape_start_rewind(&T);
        CHECK(rc == TAPE_STATUS_OK, "rewind-after-faults", "with faults over, rewind returns %d", rc);
        int n = 0; while ((rc = tape_rewind_frames(&T, 3840)) == TAPE_STATUS_OK) CHECK(++n < 200000, "rewind-never-ends", "rewind does not reach load point");
        CHECK(rc == TAPE_STATUS_BOT, "rewind-end", "rewind ended with %d", rc);
        tape_detach(&T);
        CHECK(env::open_fds == 0, "descriptor-leak", "%d files open after detach", env::open_fds);
        recover_check(err ? live : m.size(), "after faults");
    } else if (had) recover_check(std::min(live, m.size()), "after failed attach or detach");
    if (!ever_ring && had) CHECK(env::get(FN)->data == orig, "protected-modified", "a tape without write ring was modified");
    if (env::faults_fired || env::alloc_failures) sim.nontrivial();
    sim.done();
}
void run_crash() {
    sim.step_budget = 3000000; start_image();
    if (!env::get(FN)) env::put(FN, {});
    ring = true;
    attach();
    static int nops, i; nops = 3 + sim.choose(40); weights();
    if (sim.choose(3) == 0) { fault_mode = true; sim.fault_scale = 1; fault_mark = 0; env::rates.short_write = 200; }
    env::crash_at = env::n_syscalls + 1 + sim.choose(60);
    if (setjmp(env::crash_env) == 0) {
        env::crash_armed = true;
        for (i = 0; i < nops; i++) { bool stop = false; try { one_op(); } catch (IoError &) { stop = true; } if (stop) break; }
    }
    env::armed = false; bool died = env::crashed;
    env::restart();
    if (died) { sim.probe("killed"); sim.nontrivial(); }
    else { sim.done(); }
    recover_check(floor_, "after kill");
    sim.done();
}
void run_damaged() {
    // an image nobody vouches for: truncated, overwritten, random
    sim.step_budget = 3000000; start_image();
    auto f = env::get(FN); if (!f) f = env::put(FN, {});
    int k = 1 + sim.choose(4);
    while (k--) switch (sim.choose(4)) {
        case 0: if (!f->data.empty()) { f->data.resize(sim.choose(f->data.size())); sim.fault_fired("image-truncated"); } break;
        case 1: { int n = 1 + sim.choose(8); while (n-- && !f->data.empty()) f->data[sim.choose(f->data.size())] = sim.byte(); sim.fault_fired("image-bytes-damaged"); break; }
        case 2: { size_t o = f->data.size(); int n = sim.choose(100); f->data.resize(o + n); for (int i = 0; i < n; i++) f->data[o + i] = sim.byte(); sim.fault_fired("image-garbage-appended"); break; }
        default: if (f->data.size() > 4) { static const uint8_t v[] = {0xff, 0xfe, 0x7f, 0x80, 0x00, 0x01}; for (int i = 0; i < 4; i++) f->data[i] = sim.pick(v); sim.fault_fired("image-header-damaged"); } break;
    }
    ring = sim.choose(2); std::vector<uint8_t> orig = f->data;
    int r = tape_attach(&T, (char *)FN, fmt, ring, 0); CHECK(r == 1, "attach-failed", "attach failed");
    int nops = 3 + sim.choose(40);
    for (int i = 0; i < nops; i++) {
        uint8_t c; int rc = 0, op = sim.choose(6); int lim = sim.choose(3) ? 1 << 20 : sim.choose(200);
        switch (op) {
        case 0: case 1: rc = tape_read_forw(&T); if (rc == 0) { for (int j = 0; j < lim && tape_read_frame(&T, &c) == 0; j++); tape_finish_rec(&T); } break;
        case 2: case 3: rc = tape_read_back(&T); if (rc == 0) { for (int j = 0; j < lim && tape_read_frame(&T, &c) == 0; j++); tape_finish_rec(&T); } break;
        case 4: rc = tape_write_start(&T); if (rc == 0) { for (int j = 0; j < 30; j++) tape_write_frame(&T, j); tape_finish_rec(&T); } break;
        default: tape_start_rewind(&T); for (int n = 0; tape_rewind_frames(&T, 3840) == 0; n++) CHECK(n < 300000, "rewind-never-ends", "rewind does not reach load point"); break;
        }
        sim.ev("op %d -> %d", op, rc);
        CHECK(rc >= -1 && rc <= 7, "bad-code", "operation returned %d", rc);
        CHECK(!env::stray_io, "stray-io", "%s", env::stray_what.c_str());
    }
    tape_detach(&T);
    if (!ring) CHECK(f->data == orig, "protected-modified", "a tape without write ring was modified");
    sim.nontrivial();
    sim.done();
}
}
Property property = { "C03", { { "storage-faults", run_faults, 24000, 900000, "frames" }, { "process-kill", run_crash, 12000, 450000, "frames" }, { "damaged-image", run_damaged, 6000, 200000, "frames" } },
  "a run is one tape history (as C02) with storage faults at seeded calls, or a process kill at a seeded system call with torn write and restart from the surviving file, or a damaged image; non-trivial: a fault fired, the kill hit, or the image was damaged",
  "hash of (format, record position, image offset modulo 32 KiB, known records)",
  { "src/device/tape.c", "src/device/xlat.c" }, { "host file system (in-memory, faulting)", "logger (counts messages)" },
  { "a kill loses the process's memory but nothing already handed to write()", "after a reported error the operator rewinds or detaches", "detach has no return code: an error message in the log counts as its report" },
  { "attach-failed", "error-reported", "fault-absorbed", "killed" }, 40, 800 };
