// C07: 2415 tape control with several units on a channel.
#include "env.hpp"
#include "chan.hpp"
#include "tape_model.hpp"
extern "C" {
#include "conf.h"
#include "model2415.h"
#include "event.h"
#include "xlat.h"
static std::vector<std::pair<std::string, std::string>> opts; static size_t optn;
int get_option(struct _option *o) { if (optn >= opts.size()) return 0; memset(o, 0, sizeof *o); strcpy(o->opt, opts[optn].first.c_str()); if (!opts[optn].second.empty()) { o->flags = 1; strcpy(o->string, opts[optn].second.c_str()); } optn++; return 1; }
int get_index(struct _option *o, char *list[]) { for (int i = 0; list[i]; i++) if (!strcmp(o->string, list[i])) return i; return -1; }
}
using namespace ch;
namespace {
enum { CMDREJ = 0x80, INTERV = 0x40, BUSCHK = 0x20, DATCHK = 0x08, OVRRUN = 0x04, WCZERO = 0x02 };
enum { ODD = 1, TRANS = 2, CONV = 4 };
struct Unit { bool made = false, on = false, ring = false, t7 = false; int fmt = 0; std::string fn; std::vector<Rec> t; size_t pos = 0, phys = 0; bool tail = true;
    bool rew = false, unload = false; int owed = 0; Sub *s = nullptr; } U[6];
int mode7, nun, base; Channel C; device_t *dev; _2415_context *ctx; std::vector<int> units;
size_t off(Unit &u, size_t p) { size_t o = 0; for (size_t i = 0; i < p; i++) o += enc_size(u.t[i], u.fmt); return o; }
void wrote(Unit &u, const Rec &r) {
    if (u.pos < u.t.size()) sim.probe("overwrite");
    if (u.pos + 1 < u.t.size() && enc_size(u.t[u.pos], u.fmt) == enc_size(r, u.fmt)) { u.t[u.pos++] = r; sim.probe("update-in-place"); return; }
    u.t.resize(u.pos); u.t.push_back(r); u.pos++; size_t e = off(u, u.pos); u.tail = e >= u.phys; if (e > u.phys) u.phys = e;
}
void verify(Unit &u, const char *when) {
    auto f = env::get(u.fn); std::vector<Rec> got; size_t used; std::string e = dec(f->data, u.fmt, u.t.size() + (u.tail ? 1 : 0), got, used);
    CHECK(got.size() >= u.t.size() && (e.empty() || !u.tail), "image-undecodable", "%s: image decodes to %zu records of %zu, then: %s", when, got.size(), u.t.size(), e.c_str());
    for (size_t i = 0; i < u.t.size(); i++) CHECK(got[i] == u.t[i], "image-record-wrong", "%s: record %zu is a %s of %zu bytes instead of a %s of %zu bytes, or differs", when, i, got[i].mark ? "mark" : "record", got[i].d.size(), u.t[i].mark ? "mark" : "record", u.t[i].d.size());
    CHECK(!u.tail || got.size() == u.t.size(), "image-extra-record", "%s: image holds records after the last one written", when);
}
uint8_t f7(uint8_t d) { d &= 077; int odd = (mode7 & ODD) ? 1 : 0; return d | (((__builtin_popcount(d) + odd) & 1) ? 0100 : 0); }
uint8_t tr(uint8_t d) { return ((d & 0x30) ^ 0x30) | (d & 0xf); }
std::vector<uint8_t> tape_of(Unit &u, const std::vector<uint8_t> &b) {     // frames written for these bytes
    if (!u.t7) return b;
    std::vector<uint8_t> o;
    if (mode7 & CONV) { uint32_t acc = 0; int nb = 0; for (auto c : b) { acc = acc << 8 | c; nb += 8; while (nb >= 6) { nb -= 6; o.push_back(f7(acc >> nb)); } } if (nb) o.push_back(f7(acc << (6 - nb))); return o; }
    for (auto c : b) o.push_back(f7(mode7 & TRANS ? tr(c) : c));
    return o;
}
std::vector<uint8_t> chan_of(Unit &u, std::vector<uint8_t> f, bool back, bool &par, bool *left = nullptr) {
    par = false; if (back) std::reverse(f.begin(), f.end());
    if (!u.t7) return f;
    std::vector<uint8_t> o; uint32_t acc = 0; int nb = 0;
    for (auto c : f) {
        if ((c & 0177) != f7(c)) par = true;
        if (mode7 & CONV) { acc = acc << 6 | (c & 077); nb += 6; if (nb >= 8) { nb -= 8; o.push_back(acc >> nb); } }
        else o.push_back(mode7 & TRANS ? bcd_to_ebcdic[c & 077] : c & 077);
    }
    if (left) *left = (mode7 & CONV) && (acc & ((1u << nb) - 1));
    return o;
}
bool exact() { return !C.stall_pm && (C.dmax == 0 || (C.dmax == 1 && C.adv == 1)); }
struct Calm { int d, s; Calm() : d(C.dmax), s(C.stall_pm) { C.dmax = 0; C.stall_pm = 0; } ~Calm() { C.dmax = d; C.stall_pm = s; } };
uint8_t sense(Unit &u, uint8_t *all = nullptr) {
    Calm q; C.run(*u.s, { rd(0x04, 6) }); Result &r = u.s->log[0];
    CHECK(!r.refused && (r.all() & ~SNS_CTLEND) == 0x0c && r.bytes.size() == 6, "sense", "sense command: status %02x, %zu bytes%s", r.all(), r.bytes.size(), r.refused ? ", refused" : "");
    if (all) memcpy(all, &r.bytes[0], 6);
    uint8_t s1 = r.bytes[1]; bool rdy = u.on && !(u.unload && !u.rew);
    CHECK(!!(s1 & 0x40) == rdy, "sense-ready", "sense byte 1 is %02x for a unit that is %sready", s1, rdy ? "" : "not ");
    if (u.on) { CHECK(!!(s1 & 0x02) == !u.ring, "sense-ring", "sense byte 1 is %02x with%s write ring", s1, u.ring ? "" : "out");
        CHECK(!!(s1 & 0x10) == u.t7, "sense-7track", "sense byte 1 is %02x for a %s track unit", s1, u.t7 ? "7" : "9");
        CHECK(!!(s1 & 0x20) == u.rew, "sense-rewinding", "sense byte 1 is %02x, rewinding %d", s1, u.rew);
        CHECK(!(s1 & 0x08) || u.pos == 0, "sense-load", "sense byte 1 is %02x at record %zu", s1, u.pos); }
    return r.bytes[0];
}
// what a disturbed write left on the tape, found by reading it back
void learn(Unit &u, const std::vector<uint8_t> &sent, const char *nm) {
    Calm q; size_t p0 = u.pos; bool par;
    C.run(*u.s, { rd(0x27, 1) }); CHECK(((u.s->log[0].all() & ~SNS_CTLEND) == 0x0c), "learn-backspace", "%s: backspace over the disturbed record: status %02x", nm, u.s->log[0].all());
    C.run(*u.s, { rd(0x02, 100000) }); Result &r = u.s->log[0];
    CHECK(r.ce == 1 && r.de == 1 && (r.all() & ~SNS_CTLEND) == 0x0c, "learn-read", "%s: reading the disturbed record gives status %02x", nm, r.all());
    size_t k = r.bytes.size(); Rec rec; CHECK(k <= sent.size(), "partial-record-wrong", "%s: record of %zu bytes on tape, %zu were sent", nm, k, sent.size());
    rec.d = tape_of(u, std::vector<uint8_t>(sent.begin(), sent.begin() + k));
    CHECK(chan_of(u, rec.d, false, par) == r.bytes, "partial-record-wrong", "%s: record of %zu bytes on tape is not the beginning of the %zu bytes sent", nm, k, sent.size());
    u.pos = p0; wrote(u, rec); sim.probe("partial-record");
}
void eval(Unit &u, const Ccw &c, const Result &r, bool single) {
    uint8_t cmd = c.cmd; char nm[96]; snprintf(nm, sizeof nm, "command %02x count %u on unit %ld at record %zu of %zu", cmd, c.count, (long)(&u - U), u.pos, u.t.size());
    CHECK(!r.refused, "refused", "%s refused with status %02x", nm, r.init);
    int st = r.all() & (cmd == 0x0f ? 0xff : ~SNS_CTLEND), n = (int)r.bytes.size();
    auto expect = [&](int e) { CHECK(st == e, "status", "%s: status %02x (initial %02x), %02x expected; %d bytes", nm, st, r.init, e, n); if (cmd) CHECK(r.ce == 1 && r.de == 1, "ending", "%s: channel end %d times, device end %d times", nm, r.ce, r.de); };
    auto sns = [&](int bits, const char *what) { if (!single) return; uint8_t s = sense(u); CHECK((s & bits) == bits, "sense-data", "%s: sense byte 0 is %02x after %s", nm, s, what); };
    auto nodata = [&] { CHECK(n == 0, "data-count", "%s: %d bytes moved", nm, n); };
    int lo = cmd & 15; bool wrc = (lo & 3) == 1, rdc = (lo & 3) == 2, bk = lo == 0xc, mot = lo == 7 || lo == 15;
    if (u.rew && lo != 4) { CHECK(st == 0x10, "status", "%s: status %02x while rewinding", nm, st); sim.probe("busy-rewinding"); return; }
    if (c.badcmd) { expect(0x0e); nodata(); sns(BUSCHK, "bad command parity"); return; }
    if (cmd == 0) { expect(0); return; }
    if (lo == 4) { CHECK(n == std::min<int>(6, c.count) || r.halted, "data-count", "%s: %d bytes", nm, n); expect(0x0c); return; }
    if (lo == 0 || lo == 8) { expect(0x0e); nodata(); sns(CMDREJ, "invalid command"); sim.probe("reject"); return; }
    if (!u.on) { expect(0x0e); nodata(); sns(INTERV, "command to a unit that is not ready"); sim.probe("not-ready"); return; }
    if (lo == 3 || lo == 11) { expect(0x0c); nodata(); if (u.t7) switch ((cmd >> 3) & 7) { case 2: mode7 = ODD | CONV; break; case 4: mode7 = 0; break; case 5: mode7 = TRANS; break; case 6: mode7 = ODD; break; case 7: mode7 = ODD | TRANS; break; } sim.probe("mode"); return; }
    bool ovr = false;
    if (wrc) {
        if (!u.ring) { expect(0x0e); nodata(); sns(CMDREJ, "write without a ring"); sim.probe("no-ring"); return; }
        bool dist = r.halted || r.badsent;
        if (!dist && st == 0x0e && n == 0 && c.count == 0) { sns(WCZERO, "write of nothing"); sim.probe("word-count-zero"); return; }
        if (!dist && st == 0x0e && !exact()) { ovr = true; sim.probe("overrun"); }
        if (!dist && !ovr) { CHECK(n == (int)c.count, "data-count", "%s: took %d bytes", nm, n); expect(0x0c); Rec rec; rec.d = tape_of(u, r.bytes); wrote(u, rec); sim.probe("write"); return; }
        CHECK(r.ce == 1 && r.de == 1, "ending", "%s disturbed: channel end %d times, device end %d times", nm, r.ce, r.de);
        CHECK((st & ~SNS_UNITCHK) == 0x0c, "status", "%s disturbed: status %02x", nm, st);
        uint8_t s = sense(u);
        if (ovr) CHECK(s & (OVRRUN | WCZERO), "sense-data", "%s: unit check on a write and sense byte 0 is %02x", nm, s);
        if (r.badsent && !r.halted && !(s & OVRRUN)) { expect(0x0e); CHECK(s & BUSCHK, "sense-data", "%s: sense byte 0 is %02x after bad data parity", nm, s); }
        if (s & WCZERO) return;          // nothing was written
        std::vector<uint8_t> sent = r.bytes; if (r.badsent) sent.resize(c.badbyte);
        learn(u, sent, nm); return;
    }
    if (rdc || bk) {
        if (bk && u.pos == 0) { expect(0x0e); nodata(); sim.probe("at-load-point"); return; }
        if (!bk && u.pos == u.t.size()) { CHECK(st & SNS_UNITCHK, "status", "%s: status %02x reading past the last record", nm, st); nodata(); CHECK(r.ce == 1 && r.de == 1, "ending", "%s: channel end %d times, device end %d times", nm, r.ce, r.de); sim.probe("end-of-recording"); return; }
        Rec &rec = u.t[bk ? u.pos - 1 : u.pos]; u.pos += bk ? -1 : 1;
        if (rec.mark) { nodata(); if (r.halted) CHECK((st & ~1) == 0x0c, "status", "%s halted: status %02x", nm, st); else expect(0x0d); sim.probe("read-mark"); return; }
        bool par, left = false; auto b = chan_of(u, rec.d, bk, par, &left); size_t want = std::min<size_t>(b.size(), c.count);
        CHECK((size_t)n <= want, "data-count", "%s: %d bytes of a record of %zu", nm, n, b.size());
        for (int i = 0; i < n; i++) CHECK(r.bytes[i] == b[i], "data", "%s: byte %d is %02x instead of %02x", nm, i, r.bytes[i], b[i]);
        CHECK(r.ce == 1 && r.de == 1, "ending", "%s: channel end %d times, device end %d times", nm, r.ce, r.de);
        bool uc = st & SNS_UNITCHK; uint8_t s[6] = {0}; if (uc && single) sense(u, s);
        if (par) sim.probe("vertical-parity");
        if (!r.halted && (size_t)n < want) { CHECK(uc && !exact(), "data-short", "%s: %d bytes of %zu, status %02x", nm, n, want, st); if (single) CHECK(s[0] & OVRRUN, "sense-data", "%s: %d bytes of %zu and sense byte 0 is %02x", nm, n, want, s[0]); sim.probe("overrun"); return; }
        if (uc && (!single || (s[0] & OVRRUN)) && !exact()) { sim.probe("overrun"); return; }
        if (r.halted) { CHECK((st & ~2) == 0x0c, "status", "%s halted: status %02x", nm, st); return; }
        if (par && c.count >= b.size()) { expect(0x0e); if (single) CHECK(s[3] & 0x80, "sense-data", "%s: wrong parity on tape and sense byte 3 is %02x", nm, s[3]); }
        else if (left && c.count >= b.size()) { CHECK((st & ~2) == 0x0c, "status", "%s: status %02x", nm, st); if (uc && single) CHECK(s[0] & 1, "sense-data", "%s: bits left in the converter and sense byte 0 is %02x", nm, s[0]); }
        else if (!par) expect(0x0c); else CHECK((st & ~2) == 0x0c, "status", "%s: status %02x", nm, st);
        sim.probe(bk ? "read-backward" : "read"); if (r.stopped) sim.probe("read-stopped"); return;
    }
    CHECK(mot, "harness", "command %02x", cmd); nodata();
    switch (cmd) {
    case 0x07: expect(0x0c); u.pos = 0; if (u.owed) u.owed--; u.rew = false; sim.probe("rewind"); return;
    case 0x0f: expect(0x2e); u.rew = u.unload = true; u.pos = 0; sim.probe("unload"); return;
    case 0x17: case 0x1f:
        if (!u.ring) { expect(0x0e); sns(CMDREJ, "write without a ring"); return; }
        expect(0x0c); if (cmd == 0x1f) { Rec k; k.mark = true; wrote(u, k); sim.probe("write-mark"); } else sim.probe("erase-gap"); return;
    case 0x37: if (u.pos == u.t.size()) { CHECK(st & SNS_UNITCHK, "status", "%s: status %02x past the last record", nm, st); return; }
        if (u.t[u.pos++].mark) { expect(0x0d); sim.probe("space-mark"); } else expect(0x0c); sim.probe("space"); return;
    case 0x3f: while (u.pos < u.t.size() && !u.t[u.pos].mark) u.pos++;
        if (u.pos == u.t.size()) { CHECK(st & SNS_UNITCHK, "status", "%s: status %02x with no tape mark ahead", nm, st); return; }
        u.pos++; expect(0x0c); sim.probe("space-file"); return;
    case 0x27: if (u.pos == 0) { expect(0x0e); sim.probe("at-load-point"); return; }
        if (u.t[--u.pos].mark) { expect(0x0d); sim.probe("backspace-mark"); } else expect(0x0c); sim.probe("backspace"); return;
    case 0x2f: if (u.pos == 0) { expect(0x0e); return; }
        while (u.pos > 0 && !u.t[u.pos - 1].mark) u.pos--;
        if (u.pos == 0) { CHECK(st & SNS_UNITCHK, "status", "%s: status %02x reaching load point with no tape mark", nm, st); sim.probe("backspace-file-load"); return; }
        u.pos--; expect(0x0c); sim.probe("backspace-file"); return;
    default: expect(0x0e); sns(CMDREJ, "invalid command"); sim.probe("reject"); return;
    }
}
uint32_t glen() { static const int l[] = {1, 2, 3, 5, 18, 80, 81, 133, 400}; return sim.choose(4) ? sim.pick(l) : 1 + sim.choose(sim.choose(5) ? 60 : 900); }
bool mark_ahead(Unit &u) { for (size_t i = u.pos; i < u.t.size(); i++) if (u.t[i].mark) return true; return false; }
// the next command for a unit standing at `pos` records
Ccw gen(Unit &u, bool known) {
    bool w = u.ring && u.on; bool fwd = u.on && known && (u.tail || u.pos < u.t.size());
    for (;;) switch (sim.weighted({ w ? 14 : 1, 14, 7, 5, 4, 4, 3, 3, 4, 2, 3, 1, u.t7 ? 8 : 2, 2 })) {
    case 0: { uint32_t n = u.ring && known && u.pos + 1 < u.t.size() && !u.t[u.pos].mark && !u.t7 && sim.choose(2) ? (uint32_t)u.t[u.pos].d.size() : glen(); if (n > 1500) n = 100; Rec r = gen_rec(u.fmt, n, sim.choose(3)); if (u.t7) { if (!(mode7 & (CONV | TRANS))) for (auto &b : r.d) b &= 077; if (u.fmt == FMT_P7B) r.d[0] = mode7 & CONV ? 0x80 : mode7 & TRANS ? 0xc1 : 0x21; }
        Ccw c = wr(1 | (sim.choose(4) << 2), r.d); if (known && sim.choose(25) == 0) c.count = 0; return c; }
    case 1: if (u.on && !fwd) break; { uint32_t n = known && u.pos < u.t.size() ? (uint32_t)u.t[u.pos].d.size() : 80; return rd(2 | (sim.choose(4) << 2), sim.choose(3) ? n + sim.choose(3) : 1 + sim.choose(n + 1)); }
    case 2: if (u.t7 && (mode7 & CONV)) break; { uint32_t n = known && u.pos ? (uint32_t)u.t[u.pos - 1].d.size() : 80; return rd(0x0c, sim.choose(3) ? n + sim.choose(3) : 1 + sim.choose(n + 1)); }
    case 3: return rd(0x27, 1);
    case 4: if (u.on && !fwd) break; return rd(0x37, 1);
    case 5: return wr(0x1f, {0});
    case 6: if (u.on && !(known && (u.tail || mark_ahead(u)))) break; return rd(0x3f, 1);
    case 7: return rd(0x2f, 1);
    case 8: return rd(0x07, 1);
    case 9: if (sim.choose(3)) break; return rd(0x0f, 1);
    case 10: return rd(0x04, 1 + sim.choose(8));
    case 11: return rd(0x17, 1);
    case 12: { static const uint8_t md[] = {0x93, 0xa3, 0xab, 0xb3, 0xbb, 0x03, 0xcb, 0xc3, 0x13, 0x63}; return rd(sim.pick(md), 1); }
    default: { static const uint8_t bad[] = {0x08, 0x00, 0x10, 0xf8, 0x47, 0xff, 0x57, 0x4f, 0xd7, 0x80, 0x18}; return rd(sim.pick(bad), 1); }
    }
}
// rewinding units: let time pass until each has presented its device end
void hurry(Unit &u) {
    int a = C.adv; C.adv = 200; uint64_t t = C.now;
    while (u.rew) { if (u.unload) { if (!tape_ready(ctx->tape[&u - U])) u.rew = false; } else if (!u.owed) u.rew = false; C.turn(); if (C.now - t > 300000) sim.fail("rewind-never-ends", "rewind of unit %ld has not ended", (long)(&u - U)); }
    C.adv = a;
}
int mid = -1, midkind; Sub *mids;
void hook() { if (mid >= 0 && mids->active() && mids->r().init >= 0 && mid-- == 0) { if (midkind) mids->tio_req = true; else mids->halt_req = true; } }
void unloaded(Unit &u) { verify(u, "after unloading"); u.on = false; u.unload = u.rew = false; sim.ev("unit %ld unloaded", (long)(&u - U)); }
void attach(Unit &u) {
    int n = &u - U; sim.ev("operator mounts unit %d", n);
    CHECK(tape_attach(ctx->tape[n], (char *)u.fn.c_str(), u.fmt == FMT_TAP ? TYPE_TAP : u.fmt == FMT_E11 ? TYPE_E11 : TYPE_P7B, u.ring, sim.choose(2)) == 1, "attach-failed", "image cannot be mounted again"); u.on = true; u.pos = 0; u.phys = env::get(u.fn)->data.size();
}
void settle_asyncs() {
    for (int i : units) { auto &a = U[i].s->async; CHECK(a.empty(), "status-extra", "unit %d presents status %02x with no command outstanding", i, a[0]); }
}
void op_one() {
    Unit &u = U[units[sim.choose((uint32_t)units.size())]];
    // chains are made of commands whose expected position is known step by step
    std::vector<Ccw> p; int n = sim.choose(3) ? 1 : 2 + sim.choose(4);
    if (n == 1) p.push_back(gen(u, true));
    else for (int i = 0; i < n; i++) { Ccw c; do c = gen(u, i == 0); while ((c.cmd & 0xf) == 3 || c.cmd == 0x0f || c.cmd == 0 || ((c.cmd & 15) == 4 && i == 0)); if (i && u.t7) { c = rd(0x27, 1); } p.push_back(c); }
    for (int i = 0; i + 1 < (int)p.size(); i++) p[i].chain = true;
    if (n > 1 && !exact()) { p.resize(1); p[0].chain = false; n = 1; }
    if (n == 1 && sim.fault_scale && sim.choose(12) == 0) { if (sim.choose(2)) p[0].badcmd = true; else if ((p[0].cmd & 3) == 1 && p[0].count) p[0].badbyte = sim.choose(p[0].count); }
    mid = -1; if (n == 1 && !p[0].badcmd && p[0].badbyte < 0 && p[0].cmd && sim.fault_scale && sim.choose(4) == 0) { mid = sim.choose(sim.choose(2) ? 300 : 4000); mids = u.s; midkind = sim.choose(3) == 0; }
    bool was = u.rew; (void)was;
    C.submit(*u.s, p); C.finish_all(40000000 / C.adv); mid = -1; u.s->halt_req = u.s->tio_req = false; std::vector<Result> log = u.s->log;
    for (size_t i = 0; i < log.size(); i++) eval(u, p[i], log[i], i + 1 == log.size());
    { Result &l = log.back(); bool bad = l.all() & (SNS_UNITCHK | SNS_UNITEXP); CHECK(bad || l.halted || log.size() == p.size(), "chain-cut", "%zu of %zu commands ran", log.size(), p.size()); if (log.size() > 1) sim.probe("chain"); }
    if (u.unload) { if (sim.choose(2)) { C.run(*u.s, { rd(0x02, 10) }); if (tape_ready(ctx->tape[&u - U]) || u.s->log[0].all() == 0x10) CHECK(u.s->log[0].all() == 0x10, "status", "read of an unloading unit: status %02x", u.s->log[0].all()); } hurry(u); unloaded(u); }
    else if (!u.on && u.made && sim.choose(2)) attach(u);
    C.settle(sim.choose(3) ? 3 : 800); settle_asyncs(); sim.nontrivial();
    sim.state(hash64(hash64(u.pos * 16 + (u.pos < u.t.size() ? u.t[u.pos].mark : 2), p[0].cmd), log.back().all() * 8 + mode7));
}
// two modes in a row decide how the next record of a 7 track unit is coded
void op_mode() {
    std::vector<int> v; for (int i : units) if (U[i].t7 && U[i].on && !U[i].rew) v.push_back(i);
    if (v.empty()) return op_one();
    Unit &u = U[v[sim.choose((uint32_t)v.size())]]; static const uint8_t md[] = {0x93, 0xa3, 0xab, 0xb3, 0xbb, 0x03, 0xcb, 0xc3, 0x13, 0x63};
    for (int k = 0; k < 2; k++) { Ccw c = rd(sim.pick(md), 1); C.run(*u.s, { c }); eval(u, c, u.s->log[0], true); }
    Ccw c; do c = gen(u, true); while ((c.cmd & 3) != 1 && (c.cmd & 3) != 2); if ((c.cmd & 3) == 1) c.count = std::min<uint32_t>(c.count, 40);
    C.submit(*u.s, { c }); C.finish_all(40000000 / C.adv); std::vector<Result> log = u.s->log; eval(u, c, log[0], true);
    if ((c.cmd & 3) == 1 && u.ring && exact()) { c = rd(0x27, 1); C.submit(*u.s, { c }); C.finish_all(40000000 / C.adv); log = u.s->log; eval(u, c, log[0], true); if (u.pos < u.t.size() && !u.t[u.pos].mark) { c = rd(0x02, 50); C.submit(*u.s, { c }); C.finish_all(40000000 / C.adv); log = u.s->log; eval(u, c, log[0], true); } }
    C.settle(3); settle_asyncs(); sim.nontrivial(); sim.probe("two-modes");
}
// several units at once: one rewinds or spaces while others work
void op_multi() {
    if (units.size() < 2) return op_one();
    int a = units[sim.choose((uint32_t)units.size())], b; do b = units[sim.choose((uint32_t)units.size())]; while (b == a);
    Unit &x = U[a], &y = U[b]; static const uint8_t mv[] = {0x07, 0x07, 0x07, 0x1f, 0x27, 0x2f, 0x17};
    std::vector<Ccw> p = { rd(sim.pick(mv), 1) }, q = { gen(y, true) };
    if (q[0].cmd == 0x0f || q[0].cmd == 0 || (q[0].cmd & 15) == 4) q[0] = rd(0x27, 1);
    sim.ev("units %d and %d together", a, b);
    C.submit(*x.s, p); uint64_t t = C.now; uint32_t lead = sim.choose(600); while (C.now - t < lead) C.turn();
    C.submit(*y.s, q); C.finish_all(40000000 / C.adv);
    for (int k = 0;; k++) {
        Result &ry = y.s->log.back(), &rx = x.s->log.back(); bool rf = false;
        for (int w = 0; w < 2; w++) { Unit &z = w ? x : y; Result &rz = w ? rx : ry;
            if (rz.refused) { CHECK(rz.init == (SNS_BSY | SNS_SMS) || rz.init == (SNS_BSY | SNS_SMS | SNS_CTLEND), "busy-status", "unit refused with status %02x while another unit works", rz.init); sim.probe("control-unit-busy"); rf = true;
                Unit &o = w ? y : x; bool cue = false; for (auto s : o.s->log.back().st) cue |= s & SNS_CTLEND; if (o.s->log.back().init >= 0 && !(o.s->log.back().refused)) cue |= o.s->log.back().init & SNS_CTLEND; for (auto s : o.s->async) cue |= s & SNS_CTLEND;
                CHECK(cue || k, "control-unit-end-missing", "unit %ld was refused with control unit busy and no control unit end followed", (long)(&z - U));
                C.submit(*z.s, w ? p : q); C.finish_all(40000000 / C.adv); } }
        if (!rf) break; CHECK(k < 5, "busy-forever", "unit refused %d times", k);
    }
    Result rx = x.s->log.back(), ry = y.s->log.back();
    eval(x, p[0], rx, false); eval(y, q[0], ry, false);
    C.settle(30); settle_asyncs(); sim.probe("two-units"); sim.nontrivial();
}
void setup() {
    nun = 1 + sim.choose(6); base = sim.choose(2) ? 0x080 : 0x180 + 8 * sim.choose(4); C.selector = base >= 0x100; C.chno = C.selector;
    struct _option o; memset(&o, 0, sizeof o); opts.clear(); optn = 0; o.addr = base; int model = sim.choose(4); if (model) { o.flags = 1; o.dash_num = (sim.choose(2) ? 0 : 3) + (nun + 1) / 2; }
    CHECK(model2415_create(&o) == 1, "init", "control not created"); dev = chan[C.chno]; CHECK(dev, "init", "no device"); ctx = (_2415_context *)dev->dev;
    static const char *fm[] = {"SIMH", "E11", "P7B"};
    for (int i = 0; i < nun; i++) {
        Unit &u = U[i]; units.push_back(i); u.s = &C.add((base + i) & 0xff);
        if (sim.choose(5) == 0 && nun > 1) continue;
        u.made = true; u.t7 = sim.choose(4) == 0; u.fmt = u.t7 ? (sim.choose(2) ? FMT_P7B : FMT_TAP) : sim.choose(6) == 0 ? FMT_P7B : sim.choose(2); u.ring = sim.choose(4) != 0;
        char t[16]; snprintf(t, sizeof t, "t%d.img", i); u.fn = t;
        int nr = sim.choose(7); size_t big = sim.choose(12) == 0 ? 32700 + sim.choose(80) : 0; std::vector<uint8_t> img; int save = mode7; mode7 = sim.choose(2) ? ODD : 0;
        for (int k = 0; k < nr; k++) { Rec r; if (sim.choose(4) == 0) r.mark = true; else { r = gen_rec(u.fmt, big && k == 0 ? big : glen(), sim.choose(3)); if (u.t7) { for (auto &b : r.d) b = f7(b); if (u.fmt == FMT_P7B && r.d[0] == 0x0f) r.d[0] = f7(0x21); } } u.t.push_back(r); enc(img, r, u.fmt); }
        mode7 = save; u.phys = img.size(); env::put(u.fn, img); u.on = true;
        opts.clear(); optn = 0; opts.push_back({"FILE", u.fn}); if (u.ring) opts.push_back({"RING", ""}); else if (sim.choose(2)) opts.push_back({"NORING", ""}); if (u.t7) opts.push_back({"7TRACK", ""}); opts.push_back({"FORMAT", fm[u.fmt]}); if (sim.choose(2)) opts.push_back({sim.choose(2) ? "800" : "1600", ""});
        memset(&o, 0, sizeof o); o.addr = base + i; o.model = 'U';
        CHECK(model2415_create(&o) == 1, "init", "unit %d not created", i); CHECK(tape_ready(ctx->tape[i]), "init", "unit %d not ready", i); sim.ev("unit %d: %s %d track, ring %d, %zu records", i, fmtname(u.fmt), u.t7 ? 7 : 9, u.ring, u.t.size());
    }
    if (sim.choose(3) == 0) C.add((base + 6) & 0xff);
    C.pick_timing(); C.hook = hook; C.limit = 3000000;
    if (C.stall_pm) C.stall_max = std::min(C.stall_max, 2000);
}
void body() {
    setup(); int ops = 5 + sim.choose(14);
    while (ops--) {
        if (C.sub.count((base + 6) & 0xff) && sim.choose(8) == 0) { Sub &s = C.sub[(base + 6) & 0xff]; C.run(s, { rd(2, 10) }); CHECK(s.absent_seen, "absent-unit", "address %02x, which has no unit, answered", s.addr); sim.probe("absent"); }
        else if (sim.choose(4) == 0) op_multi(); else if (sim.choose(6) == 0) op_mode(); else op_one();
    }
    for (int i : units) if (U[i].on) { tape_detach(ctx->tape[i]); verify(U[i], "at the end"); }
    sim.done();
}
void run_plain() { sim.fault_scale = 0; sim.step_budget = 80000000; body(); }
void run_fault() { sim.fault_scale = 1; sim.step_budget = 80000000; body(); }
}
Property property = {
    "C07",
    { {"programs", run_plain, 12000, 300000, "device ticks"}, {"disturbed", run_fault, 12000, 300000, "device ticks"} },
    "seeded channel programs (read, write, read backward, space, backspace, mark, erase, rewind, unload, mode, sense, test, invalid; alone, chained, and on two units at once) on a real 2415 with up to six 7 and 9 track units in three image formats, over a cycle-stepped channel with seeded response delays, stalls, status stacking, halts, busy tests and bus parity errors; non-trivial once a program ran",
    "distinct (tape position, command, status, mode) combinations after each program",
    {"model2415.c", "tape.c", "device.c", "event.c", "xlat.c", "C library streams"},
    {"channel (cycle-stepped driver)", "panel", "option parser", "logger", "host file system"},
    {"sense data belong to the control unit and are checked only while one unit is in use", "a record cut short by overrun, halt or bad parity holds a beginning of the bytes sent", "erase gap leaves no trace in an image"},
    {"read", "read-backward", "read-stopped", "read-mark", "write", "write-mark", "overwrite", "space", "space-file", "space-mark", "backspace", "backspace-file", "backspace-mark", "rewind", "unload", "not-ready", "no-ring", "reject", "at-load-point", "end-of-recording", "overrun", "partial-record", "word-count-zero", "mode", "two-modes", "vertical-parity", "chain", "two-units", "control-unit-busy", "absent"},
    25, 800
};
