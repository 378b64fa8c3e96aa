// A fleet of real devices on one simulated channel: each unit has a small
// model of its medium and judges its own commands, whatever the others do.
#pragma once
#include "card_model.hpp"
#include "chan.hpp"
#include "tape_model.hpp"
#include <deque>
#include <ctype.h>
extern "C" {
#include "conf.h"
#include "model1442.h"
#include "model1443.h"
#include "model2415.h"
#include "event.h"
extern const uint8_t ebcdic_to_ascii[256];
typedef void (*cbf)(void *, int);
static cbf cb[16]; static void *cbarg[16]; static std::string text = "deck";
void *create_window(char *, int, int, int) { return (void *)&cb; }
void *add_button_callback(void *, int, int, int, int, char *, char *, cbf f, void *arg, int iarg, void *, void *, void *) { if (iarg >= 0 && iarg < 16) { cb[iarg] = f; cbarg[iarg] = arg; } return (void *)&cb; }
char *get_textbuffer(void *) { return (char *)text.c_str(); }
int TTF_SizeText(void *, const char *, int *w, int *h) { if (w) *w = 8; if (h) *h = 10; return 0; }
int POWER = 1;
static std::vector<std::pair<std::string, std::string>> opts; static size_t optn;
int get_option(struct _option *o) { if (optn >= opts.size()) return 0; memset(o, 0, sizeof *o); strcpy(o->opt, opts[optn].first.c_str()); if (!opts[optn].second.empty()) { o->flags = 1; strcpy(o->string, opts[optn].second.c_str()); } optn++; return 1; }
int get_index(struct _option *o, char *list[]) { for (int i = 0; list[i]; i++) if (!strcmp(o->string, list[i])) return i; return -1; }
}
using namespace ch;
namespace fleet {
static Channel C;
struct Unit {
    Sub *s = nullptr; std::string name; std::vector<Ccw> p; bool out = false, gone = false; int tries = 0; bool cue_ok = false, shares = false; uint64_t ops = 0;
    virtual ~Unit() {}
    virtual std::vector<Ccw> gen() = 0;
    virtual void eval(const Ccw &, const Result &) = 0;
    virtual void verify(const char *) {}
    virtual void cut(bool had) {}                      // the interface was reset; had: a command was outstanding
    virtual uint64_t medium() { return 0; }            // fingerprint of what the device has done to its medium
    const char *nm(const Ccw &c) { static char t[120]; snprintf(t, sizeof t, "%s: command %02x count %u", name.c_str(), c.cmd, c.count); return t; }
    bool judged = true; size_t seen = 0;
    void ends(const Ccw &c, const Result &r) { if (c.cmd) CHECK(r.ce == 1 && r.de == 1, "ending", "%s: channel end %d times, device end %d times", nm(c), r.ce, r.de); }
    void submit(std::vector<Ccw> q) { p = q; out = true; tries = 0; C.submit(*s, std::move(q)); ops++; }
};
static std::vector<Unit *> units; static int slow_adv = 1;
// pass idle time faster, never while a byte or a status may be waiting
static void pace() {
    bool busy = C.tags_in & (CHAN_REQ_IN | CHAN_STA_IN | CHAN_SRV_IN | CHAN_ADR_IN);
    if (!busy) for (auto &s : C.sub) if (s.second.active() && (s.second.log.empty() || !s.second.r().ce)) { busy = true; break; }
    C.adv = busy ? slow_adv : 200;
}
static std::vector<uint8_t> rnd(size_t n, int kind) { std::vector<uint8_t> d(n); uint64_t x = sim.random64() | 1; for (auto &b : d) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; b = x >> 33; if (kind == 1) b = 0xc1 + b % 9; } return d; }
static bool disturbed(const Result &r) { return r.halted || r.badsent; }
// all units: has this one finished?  judge it; refused: again
static void turn() {
    C.turn();
    for (auto *u : units) if (u->out) {
        if (u->s->st != Sub::FREE) continue;
        Result &l = u->s->log.back();
        if (u->s->absent_seen && !u->gone) sim.fail("not-there", "%s does not answer selection", u->name.c_str());
        if (l.refused && !u->gone) {
            CHECK(u->shares && (l.init & ~SNS_CTLEND) == (SNS_BSY | SNS_SMS), "refused", "%s, idle, refused command %02x with status %02x", u->name.c_str(), l.cmd, l.init);
            CHECK(u->s->log.size() == 1, "refused-in-chain", "%s refused command %02x in a chain with status %02x", u->name.c_str(), l.cmd, l.init);
            CHECK(++u->tries < 3000, "busy-forever", "%s refused %d times", u->name.c_str(), u->tries); sim.probe("control-unit-busy");
            auto q = u->p; u->s->halt_req = false; for (int i = 0; i < 50; i++) { C.turn(); } C.submit(*u->s, q); continue; }
        u->out = false; u->s->halt_req = u->s->tio_req = false; std::vector<Result> log = u->s->log; auto q = u->p;
        for (size_t i = 0, k = 0; i < log.size(); i++, k++) u->eval(q[k], log[i]);
        Result &e = log.back(); if (!u->gone) CHECK((e.all() & (SNS_UNITCHK | SNS_UNITEXP)) || e.halted || log.size() == q.size(), "chain-cut", "%s: %zu of %zu commands ran, last status %02x", u->name.c_str(), log.size(), q.size(), e.all());
        sim.nontrivial();
    }
}
// run one program on this unit now, the others go on
static int learning = 0;
static std::vector<Result> solo(Unit &u, std::vector<Ccw> p) {
    struct L { L() { learning++; } ~L() { learning--; } } l_;
    int d = C.dmax, s = C.stall_pm; C.dmax = 0; C.stall_pm = 0; std::vector<Result> log;
    for (int k = 0;; k++) {
        C.submit(*u.s, p); uint64_t t = C.now;
        while (u.s->st != Sub::FREE) { C.turn(); if (C.now - t > C.limit) sim.fail("never-ends", "%s: command %02x has not ended after %lu cycles", u.name.c_str(), p[0].cmd, (unsigned long)C.limit); }
        log = u.s->log; Result &l = log.back(); CHECK(!u.s->absent_seen, "not-there", "%s does not answer selection", u.name.c_str());
        if (!(l.refused || (l.init & SNS_BSY))) break;
        CHECK(k < 3000, "busy-forever", "%s refused command %02x %d times", u.name.c_str(), p[0].cmd, k); for (int i = 0; i < 50; i++) { C.turn(); }
    }
    C.dmax = d; C.stall_pm = s; return log;
}
static void check_async() {
    for (auto *u : units) if (u->s) { for (auto a : u->s->async) CHECK(u->cue_ok && !(a & ~SNS_CTLEND), "status-extra", "%s presents status %02x with no command outstanding", u->name.c_str(), a); u->s->async.clear(); }
}
static bool idle() { for (auto *u : units) if (u->out) return false; return true; }
static void drain() { uint64_t t = C.now; while (!idle()) { turn(); if (C.now - t > C.limit) { for (auto *u : units) if (u->out) sim.fail("never-ends", "%s: command %02x has not ended after %lu cycles", u->name.c_str(), u->s->log.empty() ? 0 : u->s->r().cmd, (unsigned long)C.limit); } }
    for (int i = 0; i < 40 || (C.tags_in & (CHAN_REQ_IN | CHAN_OPR_IN)); i++) turn(); check_async(); }

// ---- an address with no device
struct Absent : Unit {
    Absent(int a) { s = &C.add(a); gone = true; char t[32]; snprintf(t, sizeof t, "address %02x", a); name = t; }
    std::vector<Ccw> gen() override { return { sim.choose(2) ? rd(2, 10) : sim.choose(2) ? rd(0, 0) : wr(1, {1, 2, 3}) }; }
    void eval(const Ccw &c, const Result &) override { CHECK(s->absent_seen, "absent-unit", "address %02x, which has no device, answered command %02x", s->addr, c.cmd); sim.probe("absent"); }
};
// ---- 1442
struct Reader : Unit {
    device_t *dev; _1442_context *ctx; std::deque<Card> hop; bool rf = false, pf = false; Card rdr, pch; int pcol = 0; std::vector<Card> stk[2]; int sel = 0, sense = 0; Card cutcard; std::vector<Card> all;
    static Card img(const uint16_t *p) { Card c; memcpy(c.data(), p, 160); return c; }
    void feed() { if (pf) { stk[sel].push_back(pch); pf = false; } if (rf) { pch = rdr; pf = true; pcol = 0; rf = false; } if (!hop.empty()) { rdr = hop.front(); hop.pop_front(); rf = true; } }
    Reader(int addr, int ser) {
        s = &C.add(addr & 0xff); char t[32]; snprintf(t, sizeof t, "reader %03x", addr); name = t;
        dev = model1442_init(addr); CHECK(dev, "init", "no device"); ctx = (_1442_context *)dev->dev;
        int n = 70; std::vector<uint8_t> b;
        for (int i = 0; i < n; i++) { Card c; c.fill(0); char t[81]; snprintf(t, sizeof t, "%03X CARD %d", addr, i); for (int k = 0; t[k]; k++) c[k] = txt_hol[(int)t[k]]; int w = 20 + sim.choose(60); for (int k = 20; k < w; k++) c[k] = txt_hol['A' + (i * 7 + k * 3 + addr) % 26]; card_out(b, c, M_BIN, false, false, true); hop.push_back(c); }
        text = "deck" + std::to_string(ser); env::put(text, b); model1442_control(dev, 0, 0, 0); ctx->feed->mode = M_BIN; cb[5](cbarg[5], 5); cb[1](cbarg[1], 1); feed();
    }
    std::vector<Ccw> gen() override {
        std::vector<Ccw> p; int n = sim.choose(3) ? 1 : 2 + sim.choose(2);
        for (int i = 0; i < n; i++) switch (sim.weighted({ 8, hop.size() < 10 ? 0 : 4, hop.size() < 10 ? 0 : 2, 2 })) {
            case 0: if (hop.size() < 10) { p.push_back(rd(4, 1)); break; } p.push_back(rd(0x02 | (sim.choose(2) << 5), sim.choose(3) ? 80 : 1 + sim.choose(80))); break;
            case 1: p.push_back(wr((sim.choose(3) ? 0x81 : 0x01) | (sim.choose(2) << 5), rnd(1 + sim.choose(30), 1))); break;
            case 2: p.push_back(wr(0x83 | (sim.choose(2) << 5), {0})); break;
            default: p.push_back(rd(4, 1)); }
        for (int i = 0; i + 1 < (int)p.size(); i++) p[i].chain = true;
        return p;
    }
    void eval(const Ccw &c, const Result &r) override {
        int st = r.all(), n = (int)r.bytes.size();
        auto expect = [&](int e) { CHECK(st == e, "status", "%s: status %02x, %02x expected; %d bytes", nm(c), st, e, n); ends(c, r); };
        switch (c.cmd & 7) {
        case 1: { sense = 0; sel = (c.cmd & 0x20) != 0; bool fd = c.cmd & 0x80;
            if (!pf) { expect(0x0c); break; }
            bool over = st & SNS_UNITCHK; if (over) { sense = 4; sim.probe("overrun"); }
            if (!over && !disturbed(r)) CHECK(n == (int)c.count, "data-count", "%s: took %d bytes", nm(c), n);
            int p0 = pcol; for (int i = 0; i < n && pcol < 80; i++) pch[pcol++] |= ebc_hol[r.bytes[i]];
            if (over || disturbed(r)) {   // the last byte may have come too late
                Card now = fd ? img((*ctx->stack[sel]->images)[0] + 80 * (ctx->stack[sel]->hopper_cards - 1)) : img(ctx->pch_card); int k = p0; for (; k < 80 && now[k] == pch[k]; k++) ;
                CHECK(k == 80 || k == p0 + n - 1, "punched-card", "%s: column %d punched %03x", nm(c), k + 1, now[k]); if (k < 80) pch = now; if (!fd) pcol = ctx->pch_col; }
            if (fd) feed(); expect(0x0c | (over ? 2 : 0)); sim.probe("punch"); } break;
        case 2: {
            sense = 0; sel = (c.cmd & 0x20) != 0; bool over = st & SNS_UNITCHK; if (over) { sense = 4; sim.probe("overrun"); }
            if (!over && !r.halted) CHECK(n == (int)std::min<uint32_t>(c.count, 80), "data-count", "%s: %d bytes read", nm(c), n);
            for (int i = 0; i < n; i++) CHECK(r.bytes[i] == ebc_of(rdr[i]), "read-data", "%s: column %d read as %02x instead of %02x", nm(c), i + 1, r.bytes[i], ebc_of(rdr[i]));
            feed(); expect(0x0c | (over ? 2 : 0)); sim.probe("card-read"); } break;
        case 3: sense = 0; sel = (c.cmd & 0x20) != 0; feed(); expect(0x0c); break;
        default: if (r.halted && !n) { ends(c, r); break; } CHECK(n == 1 && r.bytes[0] == sense, "sense-data", "%s: %d bytes, sense %02x instead of %02x", nm(c), n, n ? r.bytes[0] : 0, sense); expect(0x0c); }
    }
    bool at() {
        if (hopper_size(ctx->feed) != (int)hop.size() || !!ctx->rdr_full != rf || !!ctx->pch_full != pf) return false;
        for (int k = 0; k < 2; k++) if (hopper_size(ctx->stack[k]) != (int)stk[k].size()) return false;
        return true;
    }
    void verify(const char *when) override {
        CHECK(at(), "cards-moved", "%s: %s has %d cards in the hopper and %d, %d in the stackers, %zu and %zu, %zu expected (stations %d %d, expected %d %d)", when, name.c_str(), hopper_size(ctx->feed), hopper_size(ctx->stack[0]), hopper_size(ctx->stack[1]), hop.size(), stk[0].size(), stk[1].size(), ctx->rdr_full, ctx->pch_full, rf, pf);
        for (int k = 0; k < 2; k++) for (size_t i = 0; i < stk[k].size(); i++) { Card c = img((*ctx->stack[k]->images)[0] + 80 * (ctx->stack[k]->hopper_pos + i)); CHECK(c == stk[k][i], "stacked-card", "%s: %s card %zu in stacker %d differs", when, name.c_str(), i, k + 1); }
        if (rf) CHECK(img(ctx->rdr_card) == rdr, "station-card", "%s: %s card in the reader differs", when, name.c_str());
        if (pf) CHECK(img(ctx->pch_card) == pch, "station-card", "%s: %s card in the punch differs", when, name.c_str());
    }
    uint64_t medium() override { return hash64(hopper_size(ctx->feed) * 4 + ctx->rdr_full * 2 + ctx->pch_full, hash64(hopper_size(ctx->stack[0]), hopper_size(ctx->stack[1]))); }
    void cut(bool had) override {
        if (!had) { sense = 0; verify("after reset"); return; }
        std::vector<Result> log = s->log; auto q = p; size_t i = 0;
        for (; i < log.size() && log[i].de; i++) eval(q[i], log[i]);
        if (i < log.size()) {       // the command cut short: its card stays or has moved on, once
            const Ccw &c = q[i]; const Result &r = log[i]; 
            if ((c.cmd & 7) == 1 && pf) {
                Card now = pch; int n = (int)r.bytes.size(); bool fed = !at(); if (fed) { int k = (c.cmd & 0x20) != 0; if (hopper_size(ctx->stack[k])) now = img((*ctx->stack[k]->images)[0] + 80 * (ctx->stack[k]->hopper_cards - 1)); } else now = img(ctx->pch_card);
                for (int k = 0; k < 80; k++) { int b = k - pcol; uint16_t full = b >= 0 && b < n ? pch[k] | ebc_hol[r.bytes[b]] : pch[k]; CHECK(now[k] == pch[k] || now[k] == full, "punched-card", "%s cut short after %d bytes: column %d is %03x", nm(c), n, k + 1, now[k]); }
                pch = now; pcol = fed ? 0 : ctx->pch_col; }
            if ((c.cmd & 7) >= 1 && (c.cmd & 7) <= 3 && !at()) { if (c.cmd & 2 || c.cmd & 0x80) { sel = (c.cmd & 0x20) != 0; feed(); sim.probe("cut-fed"); } }
            sim.probe("cut-card"); }
        sense = 0;         verify("after a command cut short by reset");
    }
};
// ---- 1443
struct Mark { int page, row; std::string s; bool operator==(const Mark &o) const { return page == o.page && row == o.row && s == o.s; } };
struct Listing { std::vector<Mark> m; int page = 0, row = 0; };
struct Printer : Unit {
    device_t *dev; std::string fn; Listing l; int serial = 0;
    static std::string rstrip(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
    Listing parse() {
        Listing l; std::string cur; auto flush = [&] { std::string t = rstrip(cur); if (!t.empty()) l.m.push_back({l.page, l.row, t}); cur.clear(); };
        for (auto c : env::get(fn)->data) switch (c) { case '\r': flush(); break; case '\n': flush(); l.row++; break; case '\f': flush(); l.page++; l.row = 0; break; default: cur += (char)c; }
        flush(); return l; }
    Printer(int addr, int ser) {
        s = &C.add(addr & 0xff); char t[32]; snprintf(t, sizeof t, "printer %03x", addr); name = t; fn = "list" + std::to_string(ser); cue_ok = true;
        opts.clear(); optn = 0; opts.push_back({"FILE", fn}); opts.push_back({"START", ""}); struct _option o; memset(&o, 0, sizeof o); o.addr = addr; CHECK(model1443_create(&o) == 1, "init", "printer not created"); dev = find_chan(addr, 0xff); CHECK(dev, "init", "no printer"); }
    std::vector<Ccw> gen() override {
        std::vector<Ccw> p; int n = sim.choose(3) ? 1 : 2 + sim.choose(3);
        for (int i = 0; i < n; i++) switch (sim.weighted({ 8, 2, 2, 2 })) {
            case 0: { char t[64]; snprintf(t, sizeof t, "LINE %d", serial++); std::vector<uint8_t> d; for (int k = 0; t[k]; k++) d.push_back(t[k] == ' ' ? 0x40 : t[k] >= '0' && t[k] <= '9' ? 0xf0 + t[k] - '0' : t[k] == 'L' ? 0xd3 : t[k] == 'I' ? 0xc9 : t[k] == 'N' ? 0xd5 : 0xc5); auto f = rnd(sim.choose(40), 1); d.push_back(0x40); d.insert(d.end(), f.begin(), f.end()); p.push_back(wr(sim.choose(8) ? 0x09 + 8 * sim.choose(3) : 0x89, d)); } break;
            case 1: p.push_back(wr(0x0b + 8 * sim.choose(3), {0})); break;
            case 2: p.push_back(wr(0x8b, {0})); break;
            default: p.push_back(rd(4, 1)); }
        for (int i = 0; i + 1 < (int)p.size(); i++) p[i].chain = true;
        return p;
    }
    void down() { if (++l.row >= 66) { l.row = 0; l.page++; } }
    std::string glyphs(const std::vector<uint8_t> &b) { std::string t; for (auto c : b) t += (char)ebcdic_to_ascii[c]; return rstrip(t); }
    void move(uint8_t cmd) { if (cmd & 0x80) { do down(); while (l.row != 0); } else for (int i = cmd >> 3; i > 0; i--) down(); }
    void eval(const Ccw &c, const Result &r) override {
        int n = (int)r.bytes.size();
        if ((c.cmd & 7) == 4) { CHECK(n == 1 || r.halted, "data-count", "%s: sense gave %d bytes", nm(c), n); ends(c, r); return; }
        int st = r.all() & ~(SNS_CTLEND | SNS_UNITEXP | SNS_UNITCHK); CHECK(st == 0x0c, "status", "%s: status %02x", nm(c), r.all()); ends(c, r);
        if ((c.cmd & 7) == 1) { if (!r.halted) CHECK(n == (int)c.count, "data-count", "%s: took %d bytes", nm(c), n); auto t = glyphs(r.bytes); if (!t.empty()) l.m.push_back({l.page, l.row, t}); sim.probe("line-printed"); }
        move(c.cmd);
    }
    void verify(const char *when) override {
        Listing g = parse();
        for (size_t i = 0; i < std::max(g.m.size(), l.m.size()); i++) { CHECK(i < g.m.size() && i < l.m.size() && g.m[i] == l.m[i], "listing", "%s: %s line %zu is \"%s\" on form %d line %d, \"%s\" on form %d line %d expected", when, name.c_str(), i, i < g.m.size() ? g.m[i].s.c_str() : "", i < g.m.size() ? g.m[i].page : 0, i < g.m.size() ? g.m[i].row : 0, i < l.m.size() ? l.m[i].s.c_str() : "", i < l.m.size() ? l.m[i].page : 0, i < l.m.size() ? l.m[i].row : 0); }
        CHECK(g.page == l.page && g.row == l.row, "carriage", "%s: %s paper at form %d line %d instead of form %d line %d", when, name.c_str(), g.page, g.row, l.page, l.row);
    }
    uint64_t medium() override { auto &d = env::get(fn)->data; uint64_t h = d.size(); for (auto b : d) h = h * 31 + b; return h; }
    void cut(bool had) override {
        if (!had) { verify("after reset"); return; }
        std::vector<Result> log = s->log; auto q = p; size_t i = 0; for (; i < log.size() && log[i].de; i++) eval(q[i], log[i]);
        if (i < log.size()) {
            const Ccw &c = q[i]; Listing g = parse(), l0 = l; CHECK(g.m.size() >= l.m.size() && g.m.size() <= l.m.size() + ((c.cmd & 7) == 1), "listing", "%s cut short by reset: %zu lines in the listing, %zu before", nm(c), g.m.size(), l.m.size());
            if (g.m.size() > l.m.size()) { auto t = glyphs(log[i].bytes); CHECK(g.m.back().s == t.substr(0, g.m.back().s.size()) && g.m.back().row == l0.row && g.m.back().page == l0.page, "listing", "%s cut short by reset left \"%s\"", nm(c), g.m.back().s.c_str()); l.m.push_back(g.m.back()); }
            move(c.cmd); CHECK(g.page >= l0.page && (g.page > l0.page || g.row >= l0.row) && (g.page < l.page || (g.page == l.page && g.row <= l.row)), "carriage", "%s cut short by reset left the paper at form %d line %d, it began at form %d line %d", nm(c), g.page, g.row, l0.page, l0.row);
            l.page = g.page; l.row = g.row; sim.probe("cut-print"); }
        verify("after a command cut short by reset");
    }
};
// ---- 2415 units
struct TapeCu { device_t *dev; _2415_context *ctx; int base; };
struct Tape : Unit {
    TapeCu *cu; int n; std::string fn; std::vector<Rec> t; size_t pos = 0, phys = 0; bool tail = true;
    Tape(TapeCu *c, int u, int ser) {
        cu = c; n = u; s = &C.add((c->base + u) & 0xff); char b[32]; snprintf(b, sizeof b, "tape %03x", c->base + u); name = b; fn = "tape" + std::to_string(ser); cue_ok = shares = true;
        int nr = sim.choose(5); std::vector<uint8_t> img; for (int k = 0; k < nr; k++) { Rec r; if (sim.choose(4) == 0) r.mark = true; else r = gen_rec(FMT_TAP, 1 + sim.choose(120), 0); t.push_back(r); enc(img, r, FMT_TAP); }
        env::put(fn, img); phys = img.size(); opts.clear(); optn = 0; opts.push_back({"FILE", fn}); opts.push_back({"RING", ""}); struct _option o; memset(&o, 0, sizeof o); o.addr = c->base + u; o.model = 'U'; CHECK(model2415_create(&o) == 1 && tape_ready(cu->ctx->tape[n]), "init", "unit not created");
    }
    size_t off(size_t p) { size_t o = 0; for (size_t i = 0; i < p; i++) o += enc_size(t[i], FMT_TAP); return o; }
    void wrote(const Rec &r) { if (pos + 1 < t.size() && enc_size(t[pos], FMT_TAP) == enc_size(r, FMT_TAP)) { t[pos++] = r; return; } t.resize(pos); t.push_back(r); pos++; size_t e = off(pos); tail = e >= phys; if (e > phys) phys = e; }
    std::vector<Ccw> gen() override {
        std::vector<Ccw> p; int n = sim.choose(3) ? 1 : 2 + sim.choose(3); size_t at = pos; bool known = true;
        for (int i = 0; i < n; i++) {
            bool fwd = known && (at < t.size() ? true : tail && i == 0);
            switch (sim.weighted({ 10, fwd ? 8 : 0, 4, fwd ? 3 : 0, 3, 3, 2 })) {
            case 0: p.push_back(wr(1, gen_rec(FMT_TAP, 1 + sim.choose(sim.choose(3) ? 40 : 300), sim.choose(3)).d)); known = false; break;
            case 1: p.push_back(rd(2, sim.choose(3) ? 400 : 1 + sim.choose(60))); at++; break;
            case 2: p.push_back(rd(0x27, 1)); if (at) at--; break;
            case 3: p.push_back(rd(0x37, 1)); at++; break;
            case 4: p.push_back(wr(0x1f, {0})); known = false; break;
            case 5: p.push_back(rd(0x07, 1)); at = 0; known = p.size() == 1 || known; break;
            case 6: p.push_back(rd(0x04, 6)); break; }
        }
        for (int i = 0; i + 1 < (int)p.size(); i++) p[i].chain = true;
        return p;
    }
    void eval(const Ccw &c, const Result &r) override {
        int st = r.all() & ~SNS_CTLEND, n = (int)r.bytes.size();
        auto expect = [&](int e) { CHECK(st == e, "status", "%s at record %zu of %zu: status %02x, %02x expected; %d bytes", nm(c), pos, t.size(), r.all(), e, n); ends(c, r); };
        switch (c.cmd) {
        case 1: if (st == 0x0c && !disturbed(r)) { CHECK(n == (int)c.count, "data-count", "%s: took %d bytes", nm(c), n); expect(0x0c); Rec k; k.d = r.bytes; wrote(k); sim.probe("tape-write"); return; }
            ends(c, r); CHECK((st & ~2) == 0x0c, "status", "%s disturbed: status %02x", nm(c), r.all()); sim.probe("tape-write-disturbed");
            relearn(c, r.bytes);
            return;
        case 2: {
            if (pos == t.size()) { CHECK(st & SNS_UNITCHK, "status", "%s past the last record: status %02x", nm(c), r.all()); CHECK(n == 0, "data-count", "%s past the last record: %d bytes", nm(c), n); ends(c, r); return; }
            Rec &k = t[pos++]; if (k.mark) { CHECK(n == 0, "data-count", "%s: %d bytes of a tape mark", nm(c), n); if (!r.halted) expect(0x0d); else ends(c, r); return; }
            size_t want = std::min<size_t>(k.d.size(), c.count); CHECK((size_t)n <= want, "data-count", "%s: %d bytes of a record of %zu", nm(c), n, k.d.size());
            for (int i = 0; i < n; i++) CHECK(r.bytes[i] == k.d[i], "data", "%s: byte %d is %02x instead of %02x", nm(c), i, r.bytes[i], k.d[i]);
            ends(c, r); CHECK((st & ~2) == 0x0c, "status", "%s: status %02x", nm(c), r.all()); if (st == 0x0c && !r.halted) CHECK((size_t)n == want, "data-count", "%s: %d bytes of %zu and status %02x", nm(c), n, want, st); if (st & 2) sim.probe("overrun"); sim.probe("tape-read"); } return;
        case 4: CHECK(n == 6 || r.halted, "data-count", "%s: %d bytes", nm(c), n); expect(0x0c); return;
        case 0x07: expect(0x0c); pos = 0; sim.probe("rewind"); return;
        case 0x1f: { expect(0x0c); Rec k; k.mark = true; wrote(k); } return;
        case 0x27: if (!pos) { expect(0x0e); return; } if (t[--pos].mark) expect(0x0d); else expect(0x0c); return;
        case 0x37: if (pos == t.size()) { CHECK(st & SNS_UNITCHK, "status", "%s past the last record: status %02x", nm(c), st); return; } if (t[pos++].mark) expect(0x0d); else expect(0x0c); return;
        default: sim.fail("harness", "%s", nm(c));
        }
    }
    uint64_t medium() override { auto &d = env::get(fn)->data; uint64_t h = d.size(); for (auto b : d) h = h * 31 + b; return h; }
    void verify(const char *when) override {
        if (!getenv("FLUSH")) return; }
    void last(const char *when) {
        tape_detach(cu->ctx->tape[n]); std::vector<Rec> got; size_t used; std::string e = dec(env::get(fn)->data, FMT_TAP, t.size() + (tail ? 1 : 0), got, used);
        CHECK(got.size() >= t.size(), "image-undecodable", "%s: %s image decodes to %zu records of %zu, then: %s", when, name.c_str(), got.size(), t.size(), e.c_str());
        for (size_t i = 0; i < t.size(); i++) CHECK(got[i] == t[i], "image-record-wrong", "%s: %s record %zu differs", when, name.c_str(), i);
    }
    // wind back and see what a disturbed command left on the tape
    void relearn(const Ccw &c, std::vector<uint8_t> sent, bool wrc = true) {
        auto l = solo(*this, { rd(7, 1) }); CHECK((l[0].all() & ~SNS_CTLEND) == 0x0c, "status", "%s: rewind after a disturbance gives status %02x", name.c_str(), l[0].all());
        size_t keep = wrc ? pos : t.size();
        for (size_t k = 0; k < keep; k++) { l = solo(*this, { rd(2, 100000) }); Rec g; int st = l[0].all() & ~SNS_CTLEND; g.mark = st == 0x0d; g.d = l[0].bytes; CHECK((st == 0x0c || st == 0x0d) && g == t[k], "reset-record-wrong", "%s: record %zu reads back with status %02x and %zu bytes after a disturbance (%s of %zu bytes expected)", name.c_str(), k, st, g.d.size(), t[k].mark ? "mark" : "record", t[k].d.size()); }
        if (wrc) {
            l = solo(*this, { rd(2, 100000) }); int st = l[0].all() & ~SNS_CTLEND; Rec g; g.mark = st == 0x0d; g.d = l[0].bytes; Rec old; bool haveold = pos < t.size(), tail0 = tail; if (haveold) old = t[pos];
            if (st & 2) { t.resize(pos); sim.probe("cut-write-none"); }
            else { bool part = c.cmd == 0x1f ? g.mark : !g.mark && g.d.size() <= sent.size() && std::equal(g.d.begin(), g.d.end(), sent.begin());
                if (part) { t.resize(pos); t.push_back(g); sim.probe("cut-write-part"); } else { CHECK(haveold ? g == old : !tail0, "reset-record-wrong", "%s: a write cut short after %zu bytes left a %s of %zu bytes", name.c_str(), sent.size(), g.mark ? "mark" : "record", g.d.size()); t.resize(pos + haveold); sim.probe("cut-write-old"); } }
            tail = false; }
        l = solo(*this, { rd(7, 1) }); pos = 0; CHECK((l[0].all() & ~SNS_CTLEND) == 0x0c, "status", "%s: rewind after a disturbance gives status %02x", name.c_str(), l[0].all()); phys = env::get(fn)->data.size() + 1000000;
    }
    void cut(bool had) override {
        if (!had) return;
        std::vector<Result> log = s->log; auto q = p; size_t i = 0; for (; i < log.size() && log[i].de; i++) eval(q[i], log[i]);
        bool wrc = i < log.size() && (q[i].cmd == 1 || q[i].cmd == 0x1f) && log[i].init >= 0;
        if (i < log.size()) { relearn(q[i], log[i].bytes, wrc); sim.probe("cut-tape"); }
    }
};
static std::vector<Tape *> tapes;
static void build() {
    C.selector = sim.choose(2); C.chno = C.selector ? 1 + sim.choose(2) : 0; int base = C.chno << 8; C.pick_timing(); slow_adv = C.adv; if (C.stall_pm) C.stall_max = std::min(C.stall_max, 1000); C.limit = 3000000;
    C.stepper = pace; int n = 2 + sim.choose(4), ser = 0; std::vector<int> used; auto addr = [&](int mask) { for (;;) { int a = sim.choose(256); if (mask) a &= 0xf8; bool ok = a != 0; for (int u : used) if ((u & 0xf8) == (a & 0xf8)) ok = false; if (ok) { used.push_back(a); return base | a; } } };
    for (int i = 0; i < n; i++) switch (sim.weighted({ 4, 4, 4 })) {
        case 0: units.push_back(new Reader(addr(0), ser++)); sim.ev("%s", units.back()->name.c_str()); break;
        case 1: units.push_back(new Printer(addr(0), ser++)); sim.ev("%s", units.back()->name.c_str()); break;
        case 2: { struct _option o; memset(&o, 0, sizeof o); opts.clear(); optn = 0; o.addr = addr(1); int nu = 1 + sim.choose(3); o.flags = 1; o.dash_num = (nu + 1) / 2 + 3; CHECK(model2415_create(&o) == 1, "init", "control not created"); auto *c = new TapeCu; c->base = o.addr; c->dev = find_chan(o.addr, 0xf8); c->ctx = (_2415_context *)c->dev->dev;
            for (int u = 0; u < nu; u++) { auto *t = new Tape(c, u, ser++); units.push_back(t); tapes.push_back(t); sim.ev("%s, %zu records", t->name.c_str(), t->t.size()); } if (nu == 2 && sim.choose(3) == 0) units.push_back(new Absent((c->base + 6) & 0xff)); } break;
    }
    if (sim.choose(3)) units.push_back(new Absent(addr(0) & 0xff));
    C.settle(60); for (auto *u : units) u->s->async.clear();      // ready after START
}
static void finish() { drain(); for (auto *u : units) u->verify("at the end"); for (auto *t : tapes) t->last("at the end"); }
}
