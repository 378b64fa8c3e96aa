// Seeded tape histories, shared by C02 (fault-free) and C03 (faults, crashes).
#pragma once
#include "tape_model.hpp"
namespace {
extern "C" unsigned long sim_log_errors;
bool fault_mode; uint64_t fault_mark; size_t floor_;      // floor_: first record written since the last flush point
struct IoError {};
// A return code other than the expected one is a failure, unless a storage
// fault fired and the code says so.
#define EXP(want, sg, ...) do { if (rc != (want)) { if (fault_mode && env::faults_fired != fault_mark && rc == TAPE_STATUS_FILE_ERROR) { sim.ev("reported error"); throw IoError(); } sim.fail(sg, __VA_ARGS__); } } while (0)

struct _tape_buffer T;
std::vector<Rec> m; size_t pos; bool tail_known; int fmt; bool ring; size_t phys;
const char *FN = "tape.img";

size_t off_at(size_t p) { size_t o = 0; for (size_t i = 0; i < p; i++) o += enc_size(m[i], fmt); return o; }
void sig(const char *what) { sim.ev("%s (pos %zu/%zu%s)", what, pos, m.size(), tail_known ? "" : "?"); }
void st() { sim.state(hash64(hash64(off_at(pos) % 32768, pos * 4 + fmt), m.size() * 2 + tail_known)); }

void attach() {
    int den = sim.choose(2);
    env::armed = true; uint64_t af = env::alloc_failures, ff = env::faults_fired;
    int r = tape_attach(&T, (char *)FN, fmt, ring, den);
    env::armed = false;
    if (r != 1 && fault_mode && (env::alloc_failures != af || env::faults_fired != ff)) {
        CHECK(!tape_ready(&T), "failed-attach-ready", "attach failed but the drive reports ready");
        CHECK(env::open_fds == 0, "failed-attach-leak", "attach failed but left %d files open", env::open_fds);
        tape_detach(&T);    // what an operator does next
        CHECK(!env::stray_io, "stray-io", "%s", env::stray_what.c_str());
        sim.probe("attach-failed"); sim.ev("attach failed"); throw IoError();
    }
    CHECK(r == 1, "attach-failed", "attach of an existing image failed");
    CHECK(tape_ready(&T) && tape_at_loadpt(&T), "attach-not-at-load-point", "freshly attached tape is not ready at load point");
    CHECK(!!tape_ring(&T) == ring, "ring-wrong", "write ring not as attached");
    pos = 0; floor_ = ~(size_t)0; sim.ev("attach %s ring %d", fmtname(fmt), ring);
}
void verify_file(const char *when) {
    auto f = env::get(FN); std::vector<Rec> got; size_t used;
    std::string e = dec(f->data, fmt, m.size() + (tail_known ? 1 : 0), got, used);
    CHECK(got.size() >= m.size() && (e.empty() || !tail_known), "image-undecodable", "%s: image decodes to %zu records of %zu, then: %s", when, got.size(), m.size(), e.c_str());
    for (size_t i = 0; i < m.size(); i++)
        if (!(got[i] == m[i])) {
            size_t k = 0; while (k < m[i].d.size() && k < got[i].d.size() && m[i].d[k] == got[i].d[k]) k++;
            sim.fail("image-record-wrong", "%s: record %zu (%s, %zu bytes) is %s, %zu bytes in the image, first difference at byte %zu", when, i, m[i].mark ? "mark" : "data", m[i].d.size(), got[i].mark ? "mark" : "data", got[i].d.size(), k);
        }
    CHECK(!tail_known || got.size() == m.size(), "image-extra-record", "%s: image holds records after the last one written", when);
}
// a record was written at pos: what lay behind it is gone; if older bytes
// remain beyond its end they are undefined until overwritten
void wrote(const Rec &r) {
    if (pos < m.size()) sim.probe("overwrite-mid-tape");
    // a record updated in place leaves every byte behind it as it was
    if (pos + 1 < m.size() && enc_size(m[pos], fmt) == enc_size(r, fmt)) { m[pos++] = r; sim.probe("update-in-place"); return; }
    m.resize(pos); m.push_back(r); pos++;
    size_t end = off_at(pos); tail_known = end >= phys; if (end > phys) phys = end;
}
void op_write() {
    size_t len = gen_len(fmt, off_at(pos)); if (pos + 1 < m.size() && !m[pos].mark && sim.choose(3)) len = m[pos].d.size();
    Rec r = gen_rec(fmt, len, sim.choose(3));
    char b[64]; snprintf(b, sizeof b, "write %zu", len); sig(b);
    if (ring && pos < floor_) floor_ = pos;
    env::armed = true;
    int rc = tape_write_start(&T);
    if (!ring) { EXP(TAPE_STATUS_WRP, "write-protect", "write to a tape without ring returned %d", rc); sim.probe("write-protected"); return; }
    EXP(TAPE_STATUS_OK, "write-start", "write start returned %d", rc);
    for (size_t i = 0; i < len; i++) { rc = tape_write_frame(&T, r.d[i]); EXP(TAPE_STATUS_OK, "write-frame", "write of frame %zu of %zu returned %d", i, len, rc); }
    rc = tape_finish_rec(&T); EXP(TAPE_STATUS_OK, "write-finish", "finishing a written record returned %d", rc);
    wrote(r);
    sim.ticks(len); sim.step(len / 64 + 1);
}
void op_mark() {
    sig("write mark");
    if (ring && pos < floor_) floor_ = pos;
    env::armed = true;
    int rc = tape_write_mark(&T);
    if (!ring) { EXP(TAPE_STATUS_WRP, "write-protect", "tape mark written to a tape without ring: %d", rc); return; }
    EXP(TAPE_STATUS_OK, "mark-write", "writing a tape mark returned %d", rc);
    if (sim.choose(2)) { rc = tape_finish_rec(&T); EXP(TAPE_STATUS_OK, "mark-finish", "finishing a tape mark returned %d", rc); }
    Rec r; r.mark = true; wrote(r);
}
size_t partial(size_t n) { switch (sim.weighted({60, 20, 20})) { case 0: return n + 1; case 1: return 0; default: return sim.choose(n + 1); } }
void op_read() {
    if (pos == m.size() && !tail_known) return;      // undefined on a real tape as well
    sig("read forward"); env::armed = true;
    int rc = tape_read_forw(&T);
    if (pos == m.size()) {
        // P7B cannot tell the end before reaching for the first frame
        EXP(TAPE_STATUS_EOT, "no-end-of-tape", "reading at the end of the tape returned %d", rc);
        sim.probe("read-at-end"); return;
    }
    const Rec &r = m[pos];
    if (r.mark) {
        EXP(TAPE_STATUS_MARK, "mark-missed", "reading a tape mark returned %d", rc);
        if (sim.choose(2)) { rc = tape_finish_rec(&T); EXP(TAPE_STATUS_OK, "mark-read-finish", "finishing a tape mark returned %d", rc); }
        pos++; return;
    }
    EXP(TAPE_STATUS_OK, "read-forward", "reading record %zu (%zu bytes) returned %d", pos, r.d.size(), rc);
    size_t want = partial(r.d.size());
    for (size_t i = 0; i < want; i++) {
        uint8_t c = 0xee; rc = tape_read_frame(&T, &c);
        if (i == r.d.size()) { EXP(TAPE_STATUS_EOB, "end-of-block", "after %zu frames of record %zu, read returned %d instead of end of block", i, pos, rc); break; }
        EXP(TAPE_STATUS_OK, "read-frame", "frame %zu of %zu of record %zu returned %d", i, r.d.size(), pos, rc);
        CHECK(c == r.d[i], "read-data", "frame %zu of %zu of record %zu is %02x, %02x was written", i, r.d.size(), pos, c, r.d[i]);
    }
    if (want < r.d.size()) sim.probe("partial-read");
    rc = tape_finish_rec(&T); EXP(TAPE_STATUS_OK, "read-finish", "finishing record %zu of %zu bytes after %zu frames returned %d", pos, r.d.size(), want, rc);
    pos++; sim.ticks(r.d.size()); sim.step(r.d.size() / 64 + 1);
}
void op_back() {
    sig("read backward"); env::armed = true;
    int rc = tape_read_back(&T);
    if (pos == 0) {
        EXP(TAPE_STATUS_BOT, "no-load-point", "reading backward at load point returned %d", rc);
        CHECK(tape_at_loadpt(&T), "load-point-unreported", "load point reached but not reported");
        sim.probe("back-at-load-point"); return;
    }
    const Rec &r = m[pos - 1];
    if (r.mark) {
        EXP(TAPE_STATUS_MARK, "mark-missed-back", "reading a tape mark backward returned %d", rc);
        if (sim.choose(2)) { rc = tape_finish_rec(&T); EXP(TAPE_STATUS_OK, "mark-back-finish", "finishing a tape mark returned %d", rc); }
        pos--; return;
    }
    EXP(TAPE_STATUS_OK, "read-backward", "reading record %zu (%zu bytes) backward returned %d", pos - 1, r.d.size(), rc);
    size_t want = partial(r.d.size());
    for (size_t i = 0; i < want; i++) {
        uint8_t c = 0xee; rc = tape_read_frame(&T, &c);
        if (i == r.d.size()) { EXP(TAPE_STATUS_EOB, "end-of-block-back", "after %zu frames backward, read returned %d instead of end of block", i, rc); break; }
        EXP(TAPE_STATUS_OK, "read-frame-back", "backward frame %zu of %zu of record %zu returned %d", i, r.d.size(), pos - 1, rc);
        uint8_t e = r.d[r.d.size() - 1 - i];
        CHECK(c == e, "read-data-back", "backward frame %zu of %zu of record %zu is %02x, %02x was written", i, r.d.size(), pos - 1, c, e);
    }
    rc = tape_finish_rec(&T); EXP(TAPE_STATUS_OK, "back-finish", "finishing backward record %zu of %zu bytes after %zu frames returned %d", pos - 1, r.d.size(), want, rc);
    pos--; sim.probe("read-back"); sim.ticks(r.d.size()); sim.step(r.d.size() / 64 + 1);
}
void op_rewind() {
    sig("rewind"); env::armed = true;
    int rc = tape_start_rewind(&T); EXP(TAPE_STATUS_OK, "rewind-start", "rewind returned %d", rc);
    int n = 0; while ((rc = tape_rewind_frames(&T, 3840)) == TAPE_STATUS_OK) { CHECK(++n < 100000, "rewind-never-ends", "rewind does not reach load point"); }
    EXP(TAPE_STATUS_BOT, "rewind-end", "rewind ended with %d", rc);
    CHECK(tape_at_loadpt(&T), "rewind-load-point", "rewind done but not at load point");
    pos = 0; floor_ = ~(size_t)0;
}
void op_cycle() {
    sig("detach/attach");
    unsigned long le = sim_log_errors; uint64_t ff = env::faults_fired;
    env::armed = true; tape_detach(&T); env::armed = false;
    if (fault_mode && env::faults_fired != ff) {
        CHECK(!tape_ready(&T), "detached-ready", "detached tape reports ready");
        CHECK(env::open_fds == 0, "descriptor-leak", "%d files open after detach", env::open_fds);
        std::vector<Rec> got; size_t used; dec(env::get(FN)->data, fmt, m.size(), got, used);
        bool intact = got == m;
        CHECK(intact || sim_log_errors != le, "detach-loss-unreported", "detach lost written records and said nothing");
        throw IoError();
    }
    CHECK(!tape_ready(&T), "detached-ready", "detached tape reports ready");
    CHECK(env::open_fds == 0, "descriptor-leak", "%d files open after detach", env::open_fds);
    verify_file("after detach");
    if (ring && sim.choose(3) == 0) ring = false; else if (!ring && sim.choose(2)) ring = true;
    attach();
}
// the image the history starts from
void start_image() {
    memset(&T, 0, sizeof T);
    tape_init();
    fmt = sim.choose(3); tail_known = true; m.clear();
    if (sim.choose(2)) T.format |= TRACK9;
    // an image made by someone else, or a new one
    int n0 = sim.weighted({35, 65}) ? sim.choose(sim.choose(3) ? 8 : 40) : 0;
    std::vector<uint8_t> img;
    for (int i = 0; i < n0; i++) {
        Rec r; if (sim.choose(5) == 0) r.mark = true; else r = gen_rec(fmt, gen_len(fmt, img.size()), sim.choose(3));
        m.push_back(r); enc(img, r, fmt);
    }
    if (n0 && fmt != FMT_P7B && sim.choose(4) == 0) { for (int i = 0; i < 4; i++) img.push_back(0xff); if (sim.choose(2)) for (int i = 0; i < 40; i++) img.push_back(i); sim.probe("end-of-medium-marker"); }
    ring = n0 ? sim.choose(5) != 0 : true;
    phys = img.size();
    if (n0) env::put(FN, img);
}
int writes, reads;
int ww, wm, wr, wb, wrew, wc;
void weights() { ww = 1 + sim.choose(40), wm = 1 + sim.choose(10), wr = 1 + sim.choose(40), wb = sim.choose(40), wrew = 1 + sim.choose(8), wc = sim.choose(5); }
void one_op() {
    switch (sim.weighted({wr, ww, wm, wb, wrew, wc})) {
    case 0: op_read(); reads++; break;
    case 1: op_write(); writes++; break;
    case 2: op_mark(); writes++; break;
    case 3: op_back(); reads++; break;
    case 4: op_rewind(); break;
    case 5: op_cycle(); break;
    }
    env::armed = false;
    st();
    CHECK(!env::stray_io, "stray-io", "%s", env::stray_what.c_str());
}
}
