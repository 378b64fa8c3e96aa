// C08: 1442 card read punch on a channel, with its operator panel.
#include "card_model.hpp"
#include "chan.hpp"
#include <deque>
extern "C" {
#include "model1442.h"
#include "event.h"
typedef void (*cbf)(void *, int);
static cbf cb[16]; static void *cbarg[16]; static const char *text = "h.deck";
void *create_window(char *, int, int, int) { return (void *)&cb; }
void *add_button_callback(void *, int, int, int, int, char *, char *, cbf f, void *arg, int iarg, void *, void *, void *) { if (iarg >= 0 && iarg < 16) { cb[iarg] = f; cbarg[iarg] = arg; } return (void *)&cb; }
char *get_textbuffer(void *) { return (char *)text; }
int TTF_SizeText(void *, const char *, int *w, int *h) { if (w) *w = 8; if (h) *h = 10; return 0; }
int POWER = 1;
}
using namespace ch;
namespace {
enum { CMDREJ = 0x80, INTERV = 0x40, BUSCHK = 0x20, DATCHK = 8, OVRRUN = 4 };
struct Model {
    std::deque<Card> hop; bool rf = false, pf = false; Card rdr, pch; int rcol = 0, pcol = 0; std::vector<Card> stk[2];
    int sel = 0, sense = 0; bool rdy = false, eof = false, stop = false;
    void feed() {
        if (hop.empty() && !eof) { sense |= INTERV; rdy = false; return; }
        if (pf) { stk[sel].push_back(pch); pf = false; pcol = 0; }
        if (rf) { pch = rdr; pf = true; pcol = 0; rf = false; }
        if (!stop) { if (!hop.empty()) { rdr = hop.front(); hop.pop_front(); rf = true; } rdy = rf && (!hop.empty() || eof); }
        else rdy = false;
        stop = false; rcol = 0;
        if (rdy) sense &= ~INTERV; else sense |= INTERV;
    }
} m;
Channel C; device_t *dev; _1442_context *ctx; Sub *S; uint32_t serial;
std::string cdiff(const Card &a, const Card &b) { for (int i = 0; i < 80; i++) if (a[i] != b[i]) { char t[80]; snprintf(t, sizeof t, "column %d is %03x instead of %03x", i + 1, a[i], b[i]); return t; } return ""; }
Card img(const uint16_t *p) { Card c; memcpy(c.data(), p, 160); return c; }
void compare(const char *when) {
    CHECK(hopper_size(ctx->feed) == (int)m.hop.size(), "hopper-count", "%s: %d cards in the hopper, %zu expected", when, hopper_size(ctx->feed), m.hop.size());
    for (int s = 0; s < 2; s++) {
        CHECK(hopper_size(ctx->stack[s]) == (int)m.stk[s].size(), "stacker-count", "%s: %d cards in stacker %d, %zu expected (other stacker %d, %zu)", when, hopper_size(ctx->stack[s]), s + 1, m.stk[s].size(), hopper_size(ctx->stack[!s]), m.stk[!s].size());
        if (!m.stk[s].empty()) { Card c = img((*ctx->stack[s]->images)[0] + 80 * (ctx->stack[s]->hopper_cards - 1)); CHECK(c == m.stk[s].back(), "stacked-card", "%s: last card in stacker %d: %s", when, s + 1, cdiff(c, m.stk[s].back()).c_str()); }
    }
    CHECK(!!ctx->rdr_full == m.rf, "reader-station", "%s: reader station %s", when, m.rf ? "lost its card" : "has a card that should not be there");
    CHECK(!!ctx->pch_full == m.pf, "punch-station", "%s: punch station %s", when, m.pf ? "lost its card" : "has a card that should not be there");
    if (m.rf) CHECK(img(ctx->rdr_card) == m.rdr, "reader-card", "%s: card in the reader: %s", when, cdiff(img(ctx->rdr_card), m.rdr).c_str());
    if (m.pf) CHECK(img(ctx->pch_card) == m.pch, "punch-card", "%s: card in the punch: %s", when, cdiff(img(ctx->pch_card), m.pch).c_str());
    sim.state(hash64(hash64(m.hop.size() * 4 + m.rf * 2 + m.pf, m.sense * 8 + m.rdy * 4 + m.eof * 2 + m.stop), m.pcol * 100 + (m.stk[0].size() > 0) * 2 + (m.stk[1].size() > 0)));
}
void press(int b) { cb[b](cbarg[b], b); }
void load_deck(const char *how) {
    int n = 1 + sim.choose(6); std::vector<uint8_t> b; sim.ev("load %d cards%s", n, how);
    for (int i = 0; i < n; i++) { int k = sim.choose(20); Card c = gen_card(k < 16 ? 1 : k == 16 ? 5 : 2, serial++); card_out(b, c, M_BIN, false, false, true); m.hop.push_back(c); }
    env::put("h.deck", b); ctx->feed->mode = M_BIN; press(5);
}
void op_operator() {
    switch (sim.weighted({ 6, 3, 2, 8, 6, 1, 1, 1 })) {
    case 0: { sim.ev("press START"); press(1); sim.probe("start");
        if (!m.rf || m.rcol) m.feed(); else if (!m.hop.empty() || m.eof) { m.rdy = true; m.sense &= ~INTERV; }   // a card already read moves on; one not yet read is made ready
        S->async.clear(); C.settle(50);
        CHECK(S->async == (m.rf ? std::vector<uint8_t>{SNS_DEVEND} : std::vector<uint8_t>()), "start-status", "START key: %zu statuses presented, the first %02x", S->async.size(), S->async.empty() ? 0 : S->async[0]); S->async.clear(); } break;
    case 1: sim.ev("press NPRO"); press(2); m.feed(); m.eof = false; sim.probe("npro"); break;
    case 2: sim.ev("press STOP"); press(3); m.stop = true; sim.probe("stop"); break;
    case 3: load_deck(""); break;
    case 4: m.eof = !m.eof; sim.ev("press END OF FILE -> %d", m.eof); ctx->eof_flag = m.eof; break;
    case 5: sim.ev("empty stacker 1"); press(7); m.stk[0].clear(); break;
    case 6: sim.ev("empty stacker 2"); press(9); m.stk[1].clear(); break;
    case 7: sim.ev("empty hopper"); press(4); m.hop.clear(); break;
    }
    compare("after the operator");
}
int mid = -1, midkey; 
void hook() {   // the operator touches the panel while a command is running
    if (mid < 0 || !S->active() || S->r().init != 0 || mid-- > 0) return;
    switch (midkey) {
    case 0: sim.ev("press START while busy"); press(1); sim.probe("start-while-busy"); break;
    case 1: sim.ev("press NPRO while busy"); press(2); sim.probe("npro-while-busy"); break;
    case 2: sim.ev("press STOP while busy"); press(3); m.stop = true; sim.probe("stop-while-busy"); break;
    case 3: load_deck(" while busy"); sim.probe("load-while-busy"); break;
    case 4: m.eof = !m.eof; sim.ev("END OF FILE while busy -> %d", m.eof); ctx->eof_flag = m.eof; break;
    case 5: S->halt_req = true; break;
    case 6: S->tio_req = true; break;
    }
}
uint8_t de_status() { // what device end adds once the card has moved
    uint8_t x = SNS_DEVEND;
    if (m.hop.empty() && m.eof) { x |= SNS_UNITEXP; m.eof = false; if (m.sense & ~INTERV) x |= SNS_UNITCHK; m.feed(); sim.probe("unit-exception"); return x; }
    m.feed(); if (m.sense) x |= SNS_UNITCHK; return x;
}
// judge one finished command against the model
void eval(const Ccw &c, const Result &r) {
    uint8_t cmd = c.cmd; int st = r.all(); char nm[80]; snprintf(nm, sizeof nm, "command %02x count %u", cmd, c.count);
    CHECK(!r.refused, "refused", "%s refused with status %02x by an idle device", nm, r.init);
    int n = (int)r.bytes.size(); bool over = false; int late = -1, before = 0;
    auto expect = [&](int e) { CHECK(st == e, "status", "%s: status %02x (initial %02x), %02x expected; %d bytes, model sense %02x", nm, st, r.init, e, n, m.sense);
        if (cmd) CHECK(r.ce == 1 && r.de == 1, "ending", "%s: channel end %d times, device end %d times", nm, r.ce, r.de); };
    if (c.badcmd) { m.sense |= BUSCHK; expect(SNS_CHNEND | SNS_DEVEND | SNS_UNITCHK); CHECK(n == 0, "data-count", "%s: %d bytes moved for a command with bad parity", nm, n); return; }
    switch (cmd & 7) {
    case 0: CHECK(st == (m.sense ? SNS_UNITCHK : 0), "status", "test I/O: status %02x with sense %02x", st, m.sense); break;
    case 1:
        m.sense &= INTERV;
        if (cmd & 0x5c) { m.sense |= CMDREJ; expect(0x0e); break; }
        m.sel = (cmd & 0x20) != 0;
        if (!m.pf) { expect(SNS_CHNEND | SNS_DEVEND | (m.sense ? SNS_UNITCHK : 0)); CHECK(n == 0, "data-count", "%s: %d bytes taken with no card in the punch", nm, n); break; }
        sim.probe("punch");
        over = (st & SNS_UNITCHK) && (ctx->sense & OVRRUN);
        if (over) CHECK(C.slow(), "overrun-prompt", "%s: overrun after %d bytes though the channel answers at once", nm, n);
        if (over) { m.sense |= OVRRUN; sim.probe("punch-overrun"); }
        if (!over && !r.halted && !r.badsent) CHECK(n == (int)c.count || n >= 80, "data-count", "%s: took %d bytes", nm, n);
        { int k = r.badsent ? c.badbyte : n; for (int i = 0; i < k; i++) if (m.pcol < 80) { late = m.pcol; before = m.pch[m.pcol]; m.pch[m.pcol++] |= ebc_hol[r.bytes[i]]; } }
        if (r.badsent) { m.sense |= BUSCHK; expect(SNS_CHNEND | SNS_DEVEND | SNS_UNITCHK); sim.probe("data-parity"); break; }
        if (over && late >= 0) {   // the byte that came too late may have missed its column
            const uint16_t *now = !(cmd & 0x80) || m.hop.empty() || !stack_size(ctx->stack[m.sel]) ? ctx->pch_card : (*ctx->stack[m.sel]->images)[0] + 80 * (ctx->stack[m.sel]->hopper_cards - 1);
            if (now[late] == before) { m.pch[late] = before; m.pcol = late; sim.probe("late-byte-lost"); if ((!(cmd & 0x80) || m.hop.empty()) && ctx->pch_col == late + 1) m.pcol = late + 1; } }
        if (cmd & 0x80) expect(SNS_CHNEND | de_status() | (over ? SNS_UNITCHK : 0)); else expect(SNS_CHNEND | SNS_DEVEND | (m.sense ? SNS_UNITCHK : 0));
        break;
    case 2: {
        m.sense &= INTERV;
        if (cmd & 0xdc) { m.sense |= CMDREJ; expect(0x0e); break; }
        m.sel = (cmd & 0x20) != 0;
        if (!m.rdy) { m.sense |= INTERV; expect(0x0e); CHECK(n == 0, "data-count", "%s: %d bytes read when not ready", nm, n); sim.probe("read-not-ready"); break; }
        sim.probe("read");
        over = (st & SNS_UNITCHK) && (ctx->sense & OVRRUN);
        if (over) { CHECK(C.slow(), "overrun-prompt", "%s: overrun after %d bytes though the channel answers at once", nm, n); m.sense |= OVRRUN; sim.probe("read-overrun"); }
        else if (!r.halted) CHECK(n == (int)std::min<uint32_t>(c.count, 80), "data-count", "%s: %d bytes read", nm, n);
        CHECK(n <= 80, "data-count", "%s: %d bytes read from a card", nm, n);
        // the reader goes one column beyond what the channel took before it stops
        int seen = std::min(80, n + (over || r.stopped || r.halted ? 1 : 0));
        for (int i = 0; i < seen; i++) {
            int e = ebc_of(m.rdr[i]);
            if (i < n) CHECK(r.bytes[i] == (e < 0 ? 0 : e), "read-data", "%s: column %d read as %02x instead of %02x (punches %03x)", nm, i + 1, r.bytes[i], e < 0 ? 0 : e, m.rdr[i]);
            if (e < 0 && i < n) { m.sense |= DATCHK; sim.probe("invalid-punch"); }
            if (e < 0 && i == n && (ctx->sense & DATCHK)) m.sense |= DATCHK;
        }
        m.rcol = 1; expect(SNS_CHNEND | de_status() | (over ? SNS_UNITCHK : 0));
    } break;
    case 3:
        m.sense &= INTERV;
        if (cmd & 0x5c) { m.sense |= CMDREJ; expect(0x0e); break; }
        m.sel = (cmd & 0x20) != 0;
        if (!(cmd & 0x80)) { expect(0x0c); break; }
        if (!m.rdy) { m.sense |= INTERV; expect(0x0e); break; }
        sim.probe("feed"); expect(SNS_CHNEND | de_status());
        break;
    case 4:
        if (cmd != 4) { m.sense |= CMDREJ; expect(0x0e); break; }
        if (r.halted && n == 0) { CHECK(r.ce == 1 && r.de == 1, "ending", "%s halted: channel end %d times, device end %d times", nm, r.ce, r.de); break; }
        CHECK(n == 1, "data-count", "sense gave %d bytes", n); CHECK(r.bytes[0] == m.sense, "sense-data", "sense is %02x, %02x expected", r.bytes[0], m.sense);
        expect(0x0c); sim.probe("sense");
        break;
    default: m.sense |= CMDREJ; expect(0x0e); break;
    }
}
Ccw gen() {
    static const uint8_t stk[] = {0, 0x20};
    switch (sim.weighted({ 10, 8, 5, 5, 2, 2, 3 })) {
    case 0: { static const int n[] = {80, 1, 40, 79, 81, 100, 5}; return rd(0x02 | sim.pick(stk), sim.pick(n)); }
    case 1: { static const int n[] = {80, 1, 7, 40, 79, 81, 90}; std::vector<uint8_t> d(sim.pick(n)); uint64_t x = sim.random64() | 1; for (auto &b : d) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b = x >> 33; } return wr(0x81 | sim.pick(stk), d); }
    case 2: { std::vector<uint8_t> d(1 + sim.choose(30)); uint64_t x = sim.random64() | 1; for (auto &b : d) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b = x >> 33; } return wr(0x01 | sim.pick(stk), d); }
    case 3: { Ccw c = wr(0x83 | sim.pick(stk), {0}); return c; }
    case 4: { Ccw c = wr(0x03 | sim.pick(stk), {0}); return c; }
    case 5: { static const uint8_t bad[] = {0x05, 0x06, 0x07, 0x12, 0x42, 0x82, 0x41, 0x43, 0x14, 0x24, 0x11, 0x13, 0x0a}; uint8_t b = sim.pick(bad); return b & 1 ? wr(b, {0}) : rd(b, 1); }
    default: return rd(0x04, 1 + sim.choose(2));
    }
}
void op_program() {
    std::vector<Ccw> p; int n = sim.choose(3) ? 1 : 2 + sim.choose(3);
    for (int i = 0; i < n; i++) { p.push_back(gen()); p.back().chain = i + 1 < n; }
    bool wild = false; mid = -1;
    if (n == 1) {
        if (sim.faults_on && sim.fault_scale && sim.choose(12) == 0) { if (sim.choose(2)) p[0].badcmd = true; else if ((p[0].cmd & 3) == 1) p[0].badbyte = sim.choose(p[0].count); }
        else if (!C.slow() && !C.stacks && (p[0].cmd & 3) && sim.choose(3) == 0) { mid = sim.choose(100); midkey = sim.choose(sim.fault_scale ? 7 : 5); wild = midkey == 5; }
    }
    (void)wild;
    C.submit(*S, p); C.finish_all(200000); mid = -1; S->halt_req = false; S->tio_req = false;
    for (size_t i = 0, k = 0; i < S->log.size(); i++) { eval(p[k], S->log[i]); k++; }
    { Result &l = S->log.back(); bool bad = l.all() & (SNS_UNITCHK | SNS_UNITEXP); CHECK(bad || l.halted || S->log.size() == p.size(), "chain-cut", "%zu of %zu commands ran", S->log.size(), p.size()); }
    C.settle(sim.choose(3) ? 3 : 2600);
    for (auto a : S->async) CHECK(0, "status-extra", "status %02x presented with no command outstanding", a);
    compare("after a program"); sim.nontrivial();
}
void op_sense() { C.run(*S, {rd(4, 1)}); eval(S->prog[0], S->log[0]); }
void setup() {
    int addr = sim.choose(2) ? 0x00c : 0x1a0 + sim.choose(16); C.selector = addr >= 0x100; C.chno = C.selector ? 1 : 0;
    dev = model1442_init(addr); CHECK(dev, "init", "no device"); ctx = (_1442_context *)dev->dev; int tmp = 0; (void)tmp;
    model1442_control(dev, 0, 0, 0); CHECK(cb[1] && cb[5], "panel", "operator panel has no buttons");
    S = &C.add(addr & 0xff); C.pick_timing(); C.hook = hook; C.limit = 100000;
}
void run_faults(uint32_t scale) {
    sim.fault_scale = scale; sim.step_budget = 8000000; setup();
    int ops = 6 + sim.choose(16);
    if (sim.choose(8)) { load_deck(""); if (sim.choose(2)) { m.eof = true; ctx->eof_flag = 1; } sim.ev("press START"); press(1); m.feed(); C.settle(50); S->async.clear(); compare("first card"); }
    while (ops--) { if (sim.choose(5) == 0) op_operator(); else op_program(); if (sim.choose(6) == 0) op_sense(); }
    // conservation, card by card
    for (int s = 0; s < 2; s++) for (auto &c : m.stk[s]) { uint16_t im[1][80]; CHECK(read_card(ctx->stack[s], (uint16_t(*)[80])im[0]) == 1, "stacker-count", "stacker %d runs out", s + 1); CHECK(img(im[0]) == c, "stacked-card", "stacker %d: %s", s + 1, cdiff(img(im[0]), c).c_str()); }
    sim.done();
}
void run_plain() { run_faults(0); }
void run_fault() { run_faults(1); }
}
Property property = {
    "C08",
    { {"programs", run_plain, 12000, 300000, "device ticks"}, {"disturbed", run_fault, 12000, 300000, "device ticks"} },
    "seeded channel programs (read, punch, feed, sense, test, invalid; alone or chained) and operator actions on a real 1442 over a cycle-stepped channel with seeded response delays, stalls, status stacking, halts and bus parity errors; non-trivial once a program ran",
    "distinct (hopper, stations, sense, ready, end-of-file, stop, punch column) states after each operation",
    {"model1442.c", "panel1442.c (operator keys)", "card.c", "device.c", "event.c", "xlat.c"},
    {"channel (cycle-stepped driver)", "SDL and panel widgets", "logger", "host file system"},
    {"punch and reader stations are read from the device context declared in model1442.h", "while a command runs the operator's START and NPRO do nothing"},
    {"read", "punch", "feed", "sense", "unit-exception", "invalid-punch", "read-overrun", "punch-overrun", "start", "npro", "stop", "start-while-busy", "npro-while-busy", "read-not-ready"},
    25, 800
};
