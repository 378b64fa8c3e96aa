// C09: 1443 printer on a channel, with its operator panel and listing file.
#include "env.hpp"
#include "chan.hpp"
#include <ctype.h>
extern "C" {
#include "config.h"
#include "conf.h"
#include "model1443.h"
#include "event.h"
extern const uint8_t ebcdic_to_ascii[256];
typedef void (*cbf)(void *, int);
static cbf cb[16]; static void *cbarg[16]; static std::string text = "l0.txt";
void *create_window(char *, int, int, int) { return (void *)&cb; }
void *add_button_callback(void *, int, int, int, int, char *, char *, cbf f, void *arg, int iarg, void *, void *, void *) { if (iarg >= 0 && iarg < 16) { cb[iarg] = f; cbarg[iarg] = arg; } return (void *)&cb; }
char *get_textbuffer(void *) { return (char *)text.c_str(); }
int TTF_SizeText(void *, const char *, int *w, int *h) { if (w) *w = 8; if (h) *h = 10; return 0; }
int POWER = 1;
static std::vector<std::pair<std::string, std::string>> opts; static size_t optn;
int get_option(struct _option *o) { if (optn >= opts.size()) return 0; memset(o, 0, sizeof *o); strcpy(o->opt, opts[optn].first.c_str()); if (!opts[optn].second.empty()) { o->flags = 1; strcpy(o->string, opts[optn].second.c_str()); } optn++; return 1; }
}
using namespace ch;
namespace {
enum { CMDREJ = 0x80, INTERV = 0x40, BUSCHK = 0x20, CHAN9 = 1, ROWS = 66 };
// carriage tape: line of the hole for channels 1..12
const int hole[13] = {0, 0, 6, 12, 18, 24, 30, 36, 42, 62, 48, 54, 60};
struct Mark { int page, row; std::string s; bool operator==(const Mark &o) const { return page == o.page && row == o.row && s == o.s; } };
struct Listing { std::vector<Mark> m; int page = 0, row = 0; };
struct Model { bool ready = false, file = false; std::string fn; size_t base = 0; Listing l; int sense = 0; } m;
Channel C; device_t *dev; _1443_context *ctx; Sub *S;
char glyph(uint8_t c) {
    static const char *t[16] = {0,0,0,0,"           .<(+|","&         !$*);","-/         ,%_>?","          :#@'=\"",0,0,0,0," ABCDEFGHI"," JKLMNOPQR","  STUVWXYZ","0123456789"};
    const char *r = t[c >> 4]; size_t k = c & 15;
    if (r && k < strlen(r) && (r[k] != ' ' || c == 0x40)) return r[k];
    int a = ebcdic_to_ascii[c]; return isprint(a) ? a : '.';
}
std::string rstrip(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
void put(const std::string &s) { std::string t = rstrip(s); if (!t.empty()) m.l.m.push_back({m.l.page, m.l.row, t}); }
void down() { if (++m.l.row >= ROWS) { m.l.row = 0; m.l.page++; sim.probe("form-overflow"); } }
Listing parse(const std::vector<uint8_t> &d, size_t base) {
    Listing l; std::string cur; auto flush = [&] { std::string t = rstrip(cur); if (!t.empty()) l.m.push_back({l.page, l.row, t}); cur.clear(); };
    for (size_t i = base; i < d.size(); i++) switch (d[i]) {
        case '\r': flush(); break; case '\n': flush(); l.row++; break; case '\f': flush(); l.page++; l.row = 0; break; default: cur += (char)d[i]; }
    flush(); return l;
}
std::vector<uint8_t> bytes() { auto f = env::get(m.fn); return f ? f->data : std::vector<uint8_t>(); }
bool faulty() { return env::faults_fired != 0; }
void compare(const char *when) {
    if (!m.file || faulty()) return;
    Listing g = parse(bytes(), m.base);
    for (size_t i = 0; i < std::max(g.m.size(), m.l.m.size()); i++) {
        CHECK(i < g.m.size(), "line-missing", "%s: line %zu \"%s\" (form %d line %d) is not in the listing", when, i, m.l.m[i].s.c_str(), m.l.m[i].page, m.l.m[i].row + 1);
        CHECK(i < m.l.m.size(), "line-extra", "%s: extra line \"%s\" in the listing", when, g.m[i].s.c_str());
        CHECK(g.m[i].s == m.l.m[i].s, "line-text", "%s: line %zu is \"%s\" instead of \"%s\"", when, i, g.m[i].s.c_str(), m.l.m[i].s.c_str());
        CHECK(g.m[i] == m.l.m[i], "line-place", "%s: line \"%s\" is on form %d line %d instead of form %d line %d", when, g.m[i].s.c_str(), g.m[i].page, g.m[i].row + 1, m.l.m[i].page, m.l.m[i].row + 1);
    }
    CHECK(g.page == m.l.page && g.row == m.l.row, "carriage", "%s: paper at form %d line %d instead of form %d line %d", when, g.page, g.row + 1, m.l.page, m.l.row + 1);
    sim.state(hash64(m.l.row * 64 + m.sense, m.ready));
}
void press(int b) { cb[b](cbarg[b], b); }
int serial = 0;
void attach(bool fail = false) {
    if (serial && text != "ro.txt" && sim.choose(4) == 0) ; else { char t[16]; snprintf(t, sizeof t, "l%d.txt", serial++); text = t; }
    if (fail) { text = "ro.txt"; auto f = env::put(text, {}); f->readonly = true; sim.fault_fired("open-fail"); }
    sim.ev("press SET, paper %s", text.c_str()); press(6);
    m.file = !fail; m.fn = text; m.l = Listing(); auto f = env::get(text); m.base = f ? f->data.size() : 0;
    if (fail) m.ready = false;
}
void expect_async(bool de, const char *what) {
    C.settle(60);
    CHECK(S->async == (de ? std::vector<uint8_t>{SNS_DEVEND} : std::vector<uint8_t>()), "start-status", "%s: %zu statuses presented, the first %02x", what, S->async.size(), S->async.empty() ? 0 : S->async[0]); S->async.clear();
}
void space() { down(); }
void skip(int ch) { int n = 0; do { down(); n++; } while (m.l.row != hole[ch] && n <= ROWS); }
void op_operator() {
    switch (sim.weighted({ 8, 2, 4, 4, 3, 2, 3 })) {
    case 0: { bool was = m.ready; sim.ev("press START"); press(0); if (m.file) m.ready = true; sim.probe("start"); expect_async(m.ready && !was, "START key"); } break;
    case 1: sim.ev("press CHECK RESET"); press(1); m.sense = 0; break;
    case 2: sim.ev("press STOP"); press(2); m.ready = false; break;
    case 3: sim.ev("press CARRIAGE SPACE"); press(3); if (!m.ready && m.file) { space(); sim.probe("carriage-space"); } break;
    case 4: sim.ev("press CARRIAGE RESTORE"); press(4); if (!m.ready && m.file) { skip(1); sim.probe("carriage-restore"); } break;
    case 5: { bool was = m.ready; sim.ev("press SINGLE CYCLE"); press(5); if (m.file) m.ready = true; expect_async(m.ready && !was, "SINGLE CYCLE key"); } break;
    case 6: attach(sim.fault_scale && sim.choose(3) == 0); break;
    }
    compare("after the operator");
}
int mid = -1, midkey;
void hook() {
    if (mid < 0 || !S->active() || S->r().init < 0 || mid-- > 0) return;
    switch (midkey) {
    case 0: sim.ev("press START while busy"); press(0); break;
    case 1: sim.ev("press STOP while busy"); press(2); m.ready = false; sim.probe("stop-while-busy"); break;
    case 2: sim.ev("press STOP, CARRIAGE SPACE while busy"); press(2); press(3); m.ready = false; sim.probe("carriage-while-busy"); break;
    case 3: sim.ev("press STOP, CARRIAGE RESTORE while busy"); press(2); press(4); m.ready = false; break;
    case 4: sim.ev("press CHECK RESET while busy"); press(1); break;
    case 5: S->halt_req = true; break;
    case 6: S->tio_req = true; break;
    }
}
bool okspace(uint8_t c) { return !(c & 0x80) && (c & 0x78) <= 0x18; }
bool okskip(uint8_t c) { return (c & 0x80) && (c & 0x78) >= 0x08 && (c & 0x78) <= 0x60; }
bool ready0;     // ready when the command started
void eval(const Ccw &c, const Result &r) {
    uint8_t cmd = c.cmd; int st = r.all(), cue = S->was_busy ? st & SNS_CTLEND : 0; char nm[80]; snprintf(nm, sizeof nm, "command %02x count %u", cmd, c.count);
    CHECK(!r.refused, "refused", "%s refused with status %02x by an idle printer", nm, r.init);
    int n = (int)r.bytes.size();
    auto expect = [&](int e) { CHECK(st == (e | cue), "status", "%s: status %02x (initial %02x), %02x expected; %d bytes, model sense %02x", nm, st, r.init, e, n, m.sense);
        if (cmd || e) CHECK(r.ce == 1 && r.de == 1, "ending", "%s: channel end %d times, device end %d times", nm, r.ce, r.de); };
    if (!ready0) { m.sense = INTERV | (c.badcmd ? BUSCHK : 0); expect(0x0e); CHECK(n == 0, "data-count", "%s: %d bytes moved while not ready", nm, n); sim.probe("not-ready"); return; }
    if (c.badcmd) { m.sense = (cmd & 7) == 1 || (cmd & 7) == 3 ? BUSCHK : m.sense | BUSCHK; if (ctx->sense & BUSCHK) m.sense = ctx->sense; expect(0x0e); CHECK(n == 0, "data-count", "%s: %d bytes moved for a command with bad parity", nm, n); return; }
    bool motion = (cmd & 7) == 1 || (cmd & 7) == 3;
    if (cmd == 0) { CHECK((st & ~SNS_UNITCHK) == 0, "status", "test I/O: status %02x with sense %02x", st, m.sense); return; }
    if (cmd == 4) {
        if (r.halted && n == 0) { CHECK(r.ce == 1 && r.de == 1, "ending", "%s halted: channel end %d times, device end %d times", nm, r.ce, r.de); return; }
        CHECK(n == std::min<int>(1, c.count), "data-count", "sense gave %d bytes", n); if (n) CHECK(r.bytes[0] == m.sense, "sense-data", "sense is %02x, %02x expected", r.bytes[0], m.sense);
        expect(0x0c); sim.probe("sense"); return; }
    if (!motion || !(okspace(cmd) || okskip(cmd))) { m.sense = CMDREJ; expect(0x0e); CHECK(n == 0, "data-count", "%s: %d bytes moved for an invalid command", nm, n); sim.probe("reject"); return; }
    m.sense = 0; int add = 0;
    if ((cmd & 7) == 1) {
        CHECK(n <= 120, "data-count", "%s: took %d bytes", nm, n);
        if (!r.halted && !r.badsent) CHECK(n == (int)std::min<uint32_t>(c.count, 120), "data-count", "%s: took %d bytes", nm, n);
        if (r.badsent) { m.sense = BUSCHK; expect(0x0e); sim.probe("data-parity"); return; }
        std::string t; for (auto b : r.bytes) t += glyph(b);
        put(t); sim.probe("print");
    }
    if (okspace(cmd)) {
        for (int i = cmd >> 3; i > 0; i--) { if ((cmd & 7) == 1) { if (m.l.row == hole[9]) { m.sense |= CHAN9; add |= SNS_UNITCHK; sim.probe("channel-9"); } if (m.l.row == hole[12]) { add |= SNS_UNITEXP; sim.probe("channel-12"); } } down(); }
        sim.probe("space"); if (cmd == 1) sim.probe("overprint");
    } else { skip((cmd >> 3) & 15); sim.probe("skip"); }
    expect(0x0c | add);
    CHECK(!((r.init | (r.st.size() > 1 ? r.st[0] : 0)) & (SNS_UNITEXP | SNS_UNITCHK)) || r.st.size() < 1, "status-early", "%s: carriage status %02x presented before device end", nm, r.init | r.st[0]);
}
Ccw gen() {
    uint8_t op; int len;
    switch (sim.weighted({ 12, 5, 5, 4, 2, 2 })) {
    case 0: op = 1 | (sim.choose(4) << 3); goto data;
    case 1: op = 0x81 | ((1 + sim.choose(12)) << 3);
    data: {
        static const int n[] = {120, 1, 20, 60, 119, 121, 132, 3, 0}; len = sim.pick(n); std::vector<uint8_t> d(len ? len : 1, 0x40); uint64_t x = sim.random64() | 1; int kind = sim.choose(4);
        for (int i = 0; i < len; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; uint8_t b = x >> 33; d[i] = kind == 0 ? 0xc1 + b % 9 : kind == 1 ? (b & 3 ? 0x40 : 0xf0 + (b >> 2) % 10) : kind == 2 ? b : 0x40; }
        Ccw c = wr(op, d); if (!len) c.count = 0; return c; }
    case 2: return wr(3 | (sim.choose(4) << 3), {0});
    case 3: return wr(0x83 | ((1 + sim.choose(12)) << 3), {0});
    case 4: { static const uint8_t bad[] = {0x02, 0x05, 0x06, 0x07, 0x81, 0xe9, 0x21, 0x23, 0x83, 0xeb, 0x14, 0x08, 0x0a, 0x10, 0xf8, 0x79}; uint8_t b = sim.pick(bad); return b & 1 ? wr(b, {0x40}) : rd(b, 1); }
    default: return rd(0x04, 1 + sim.choose(2));
    }
}
std::vector<Ccw> program() {
    std::vector<Ccw> p; int n = sim.choose(3) ? 1 : 2 + sim.choose(4);
    for (int i = 0; i < n; i++) { p.push_back(gen()); p.back().chain = i + 1 < n; }
    if (n == 1 && sim.fault_scale && sim.choose(12) == 0) { if (sim.choose(2)) p[0].badcmd = true; else if ((p[0].cmd & 7) == 1 && p[0].count) p[0].badbyte = sim.choose(std::min(p[0].count, 120u)); }
    return p;
}
void op_program() {
    auto p = program(); mid = -1; ready0 = m.ready && m.file; S->was_busy = false;
    if (p.size() == 1 && !p[0].badcmd && p[0].badbyte < 0 && sim.choose(3) == 0) { mid = sim.choose(400); midkey = sim.choose(sim.fault_scale ? 7 : 5); }
    C.submit(*S, p); C.finish_all(200000 + 4000000 / C.adv); mid = -1; S->halt_req = false; S->tio_req = false;
    for (size_t i = 0; i < S->log.size(); i++) eval(p[i], S->log[i]);
    { Result &l = S->log.back(); bool bad = l.all() & (SNS_UNITCHK | SNS_UNITEXP); CHECK(bad || l.halted || S->log.size() == p.size(), "chain-cut", "%zu of %zu commands ran", S->log.size(), p.size()); }
    C.settle(sim.choose(3) ? 3 : 2600);
    for (auto a : S->async) CHECK(0, "status-extra", "status %02x presented with no command outstanding", a);
    compare("after a program"); sim.nontrivial();
}
void setup() {
    int addr = sim.choose(2) ? 0x00e : 0x1f0 + sim.choose(16); C.selector = addr >= 0x100; C.chno = C.selector ? 1 : 0;
    opts.clear(); optn = 0; bool conf = sim.choose(2);
    if (conf) { opts.push_back({"FILE", "cfg.txt"}); if (sim.choose(2)) opts.push_back({"START", ""}); m.file = true; m.fn = "cfg.txt"; m.ready = opts.size() > 1; sim.ev("configured with paper%s", m.ready ? ", started" : ""); }
    struct _option o; memset(&o, 0, sizeof o); o.addr = addr;
    CHECK(model1443_create(&o) == 1, "init", "printer not created"); dev = chan[C.chno]; CHECK(dev, "init", "no device"); ctx = (_1443_context *)dev->dev;
    model1443_control(dev, 0, 0, 0); CHECK(cb[0] && cb[6], "panel", "operator panel has no buttons");
    S = &C.add(addr & 0xff); C.pick_timing(); static const int ad[] = {200, 60, 1000, 2000}; C.adv = sim.pick(ad); if (C.stall_pm) { C.adv = 60; C.stall_max = std::min(C.stall_max, 400); } C.hook = hook; C.limit = 3000000;
}
void body() {
    setup(); int ops = 8 + sim.choose(24);
    if (sim.choose(8)) { if (!m.file) attach(); if (!m.ready) { press(0); m.ready = true; expect_async(true, "START key"); } }
    if (sim.choose(3) == 0 && m.file) { int k = sim.choose(60); if (m.ready) { press(2); m.ready = false; } while (k--) { press(3); space(); } compare("set-up"); press(0); m.ready = true; expect_async(true, "START key"); }
    while (ops--) { if (sim.choose(6) == 0) op_operator(); else op_program(); }
}
// killed in the middle of a command: what was reported is in the listing
void kill_end() {
    if (!m.file || !m.ready || faulty()) return;
    Listing before = m.l; auto p = program(); for (auto &c : p) c.badcmd = false, c.badbyte = -1; ready0 = true;
    C.submit(*S, p); uint64_t t = C.now, n = sim.choose(4) ? sim.choose(300) : sim.choose(60000);
    while (C.now - t < n && S->st != Sub::FREE) C.turn();
    size_t done = 0; while (done < S->log.size() && S->log[done].de) { eval(p[done], S->log[done]); done++; }
    if (faulty()) return;
    sim.fault_fired("process-kill"); sim.ev("killed after %zu of %zu commands", done, p.size());
    Listing rep = m.l, g = parse(bytes(), m.base);
    for (size_t i = 0; i < rep.m.size(); i++) CHECK(i < g.m.size() && g.m[i] == rep.m[i], "killed-line-lost", "emulator killed: line \"%s\" was reported printed and is not in the listing", rep.m[i].s.c_str());
    CHECK(g.page > rep.page || (g.page == rep.page && g.row >= rep.row), "killed-carriage-lost", "emulator killed: paper reported at form %d line %d, listing at form %d line %d", rep.page, rep.row + 1, g.page, g.row + 1);
    CHECK(g.m.size() <= rep.m.size() + 1, "line-extra", "emulator killed: %zu lines in the listing, %zu reported", g.m.size(), rep.m.size());
    sim.probe("killed");
}
void run_plain() { sim.fault_scale = 0; sim.step_budget = 60000000; body(); sim.done(); }
void run_fault() {
    sim.fault_scale = 1; sim.step_budget = 60000000;
    if (sim.choose(2)) { static const uint32_t lv[] = {0, 20, 200, 1000}; env::rates.write_eio = sim.pick(lv); env::rates.enospc = sim.pick(lv); env::rates.short_write = sim.pick(lv); env::rates.close_fail = sim.pick(lv); env::armed = true; }
    body(); kill_end(); sim.done();
}
}
Property property = {
    "C09",
    { {"programs", run_plain, 12000, 300000, "device ticks"}, {"disturbed", run_fault, 12000, 300000, "device ticks"} },
    "seeded channel programs (write, space, skip, sense, test, invalid; alone or chained) and operator actions on a real 1443 over a cycle-stepped channel with seeded response delays, stalls, status stacking, halts, busy tests, bus parity errors, failing listing files and kills; non-trivial once a program ran",
    "distinct (carriage line, sense, ready) states after each operation",
    {"model1443.c", "panel1443.c (operator keys)", "device.c", "event.c", "xlat.c", "C library streams"},
    {"channel (cycle-stepped driver)", "SDL and panel widgets", "option parser", "logger", "host file system"},
    {"the listing is read as text: carriage return overprints, line feed spaces, form feed starts a form of 66 lines with the built-in carriage tape", "a printer that is not ready answers every command, sense included, with unit check (pinned by the repository's tests)"},
    {"print", "space", "skip", "overprint", "form-overflow", "channel-9", "channel-12", "sense", "reject", "not-ready", "start", "carriage-space", "carriage-restore", "stop-while-busy", "carriage-while-busy", "data-parity", "killed"},
    25, 800
};
