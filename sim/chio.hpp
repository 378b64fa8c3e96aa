// Channel programs run by a real processor against simulated devices (C12, C13).
// A seeded System/360 program issues SIO, TIO, HIO and TCH with interruptions masked
// or open; simulated devices answer on the I/O interface with seeded timing, record
// lengths and status.  Afterwards the log the program kept, the devices' own records
// and storage are compared with a reference interpreter of the channel programs.
#include "core.hpp"
#include <vector>
#include <map>
#include <string>
#include <set>
#ifndef MACH_IMM_COUNT
#define MACH_IMM_COUNT true       // count kept for a command without data that ends a chain
#endif
#ifndef MACH_DATA_SUP
#define MACH_DATA_SUP false       // a device with data to move answers selection under suppress out
#endif
#ifndef MACH_IMM_CHAIN
#define MACH_IMM_CHAIN true       // commands without data chained to
#endif
#ifndef MACH_DEVS
#define MACH_DEVS 4               // devices at most
#endif
#ifndef MACH_CHS
#define MACH_CHS -1               // channel the devices are on, -1 any
#endif
// needs: cb setb mach_* CH_SEL (number of selector channels)
namespace {
inline uint32_t cw(uint32_t a) { return cb(a) << 24 | cb(a + 1) << 16 | cb(a + 2) << 8 | cb(a + 3); }
inline void setw(uint32_t a, uint32_t v) { for (int i = 0; i < 4; i++) setb(a + i, v >> (24 - 8 * i)); }
enum { S_ATTN = 0x80, S_SM = 0x40, S_CUE = 0x20, S_BSY = 0x10, S_CE = 0x08, S_DE = 0x04, S_UC = 0x02, S_UE = 0x01 };
enum { F_CD = 0x80, F_CC = 0x40, F_SLI = 0x20, F_SKIP = 0x10, F_PCI = 0x08 };
enum { C_PCI = 0x80, C_IL = 0x40, C_PROG = 0x20, C_PROT = 0x10, C_CDATA = 0x08, C_CCTL = 0x04, C_IFC = 0x02, C_CHAIN = 0x01 };
inline uint16_t odd(uint8_t v) { int n = 1; for (int i = 0; i < 8; i++) n ^= v >> i; return v | (n & 1) << 8; }

struct Rec {                    // one command as the device saw it
    uint8_t cmd; uint32_t len; std::vector<uint8_t> data; bool stopped = false, halted = false;
    std::vector<uint8_t> st;    // statuses accepted by the channel, initial first
    uint8_t init = 0, end = 0; bool bad = false; std::set<uint8_t> offered;
    uint8_t all() const { uint8_t s = 0; for (auto x : st) s |= x; return s; }
};
struct Dev;
uint32_t next_total(Dev *);
struct Dev {
    uint32_t lastcaw = 0, capos = 0;
    struct _device d{}; uint16_t addr = 0; int ch = 0; bool burst = false; uint32_t pace = 1, span = 1; int wild = 0;
    enum { IDLE, SELECT, CMD, STATUS, STACC, WAIT, WAITDE, OPR, DATA1, DATA2, BUSY } fsm = IDLE;
    enum { NONE, MOVE, ENDING, WORK } phase = NONE;
    bool polled = false, dr = false, initial = false, given_ce = false, stacked = false; uint8_t st = 0, dat = 0, cmd = 0; uint32_t timer = 0, left = 0, pos = 0, inburst = 0; bool stop = false;
    std::vector<Rec> recs; std::vector<uint8_t> attn; uint32_t attn_in = 0; uint64_t seen = 0; bool attn_pend = false; uint32_t hint = 0; uint64_t lastact = 0;
    Rec &r() { return recs.back(); }
    bool isread() const { return (cmd & 3) == 2 || (cmd & 15) == 0xc || (cmd & 15) == 4; }
    bool busy() const { return phase != NONE; }
    bool quiet() const { return fsm == IDLE && phase == NONE && st == 0 && !attn_in; }
    uint32_t gap() { return sim.choose(4) ? sim.choose(pace + 1) : sim.choose(8 * pace + 1); }
    void start(uint8_t c) {
        cmd = c; if (c == 0) { st = 0; initial = true; return; }
        recs.push_back(Rec()); r().cmd = c; dr = false; stop = false; pos = inburst = 0; given_ce = false; initial = true; st = 0;
        int w = c & 15;
        bool refuse = wild && sim.choose(20) == 0;
        if (refuse) { st = S_UC | (sim.choose(2) ? S_CE | S_DE : 0); r().init = st; sim.fault_fired("command-refused"); phase = NONE; if (!(st & S_DE)) { r().bad = true; } return; }
        if (w == 3 || w == 7) {
            if ((c & 0x10)) { st = S_CE; phase = WORK; timer = 20 + sim.choose(sim.choose(3) ? 200 : 4000); given_ce = true; left = 0; }
            else { st = S_CE | S_DE | (wild && !sim.choose(6) ? (sim.choose(2) ? S_UE : S_SM) : 0); phase = NONE; }
            r().init = st; r().len = 0; return;
        }
        uint32_t h = next_total(this); uint32_t k = sim.choose(8);
        left = k < 4 ? h : k == 4 ? 1 + sim.choose(h) : k == 5 ? h + 1 + sim.choose(8) : 1 + sim.choose(24); if (w == 4) left = 1 + sim.choose(6); if (wild && !sim.choose(30)) left = 0;
        r().len = left; phase = MOVE; timer = 4 + gap() ;
    }
    void work() {               // one device cycle
        if (attn_in && !--attn_in) { if (phase == NONE && st == 0 && seen - lastact > 3000) { st = S_ATTN; attn_pend = true; } else attn_in = 50; }
        if (timer) { timer--; return; }
        if (fsm == BUSY) return;
        if (phase == MOVE && !dr && fsm != DATA1 && fsm != DATA2 && !initial) {
            if (stop || left == 0) { phase = ENDING; timer = sim.choose(3) ? sim.choose(8) : gap(); return; }
            if (isread()) { dat = data(pos); }
            dr = true; left--;
        } else if (phase == ENDING && st == 0 && !initial) {
            uint8_t x = wild && !sim.choose(5) ? (uint8_t[]){S_UE, S_UC, S_SM, S_UE | S_UC}[sim.choose(4)] : 0;
            if (sim.choose(3) == 0) { st = S_CE; given_ce = true; phase = WORK; timer = 10 + sim.choose(sim.choose(3) ? 100 : 5000); r().end = x & (S_UE | S_UC | S_SM); x = 0; }
            else { st = S_CE | S_DE | x; phase = NONE; r().end = 0; }
            ev("ends %02x", st);
        } else if (phase == WORK && st == 0 && !initial) {
            uint8_t x = r().end; st = S_DE | x; phase = NONE; ev("device end %02x", st);
        }
    }
    uint8_t data(uint32_t i) { return (uint8_t)(hash64(addr * 1000003ull + recs.size(), i) >> 13); }
    void ev(const char *f, int a) { char b[64]; snprintf(b, sizeof b, f, a); sim.ev("%03x %s", addr, b); lastact = seen; }
    void accepted() {
        if (attn_pend && (st & S_ATTN)) { attn.push_back(st); attn_pend = false; }
        else if (!recs.empty() && st) r().st.push_back(st & ~S_BSY);
        if (st || initial) ev("status %02x taken", st); 
        st = 0; initial = false; stacked = false;
    }
    void halted() {
        ev("halted in phase %d", phase); if (phase == MOVE) { if (!recs.empty()) r().halted = true; dr = false; stop = true; left = 0; timer = gap(); initial = false; }
    }
    void bus(uint16_t *tags, uint16_t bo, uint16_t *bi) {
        uint16_t t = *tags; seen++;
        if ((t & (CHAN_OPR_OUT | CHAN_SUP_OUT)) == 0) { if (d.selected) *tags &= ~(CHAN_OPR_IN | CHAN_ADR_IN | CHAN_SRV_IN | CHAN_STA_IN); d.selected = 0; fsm = IDLE; phase = NONE; st = 0; dr = false; return; }
        work();
        uint16_t me = odd(addr & 0xff);
        switch (fsm) {
        case IDLE: {
            bool want = st != 0 || dr;
            if (!(t & CHAN_OPR_OUT)) break;
            if (t & CHAN_OPR_IN) { if (want) *tags &= ~CHAN_REQ_IN; break; }
            if (want) { if (!(t & (CHAN_SUP_OUT | CHAN_ADR_OUT)) || dr) *tags |= CHAN_REQ_IN; else *tags &= ~CHAN_REQ_IN; }
            if (!(t & CHAN_SEL_OUT)) break;
            if (t & CHAN_ADR_OUT) {
                if ((bo & 0xff) != (addr & 0xff)) break;
                CHECK(odd(bo & 0xff) == (bo & 0x1ff), "bus-parity", "address %03x on bus out has wrong parity", bo);
                *tags &= ~(CHAN_SEL_OUT | CHAN_REQ_IN);
                if (busy() && st == 0) { *bi = odd(S_BSY); *tags |= CHAN_STA_IN; fsm = BUSY; ev("short busy", 0); break; }
                *tags |= CHAN_OPR_IN; *bi = me; fsm = SELECT; d.selected = 1; polled = false; break;
            }
            if ((MACH_DATA_SUP && dr) || (!(t & CHAN_SUP_OUT) && want)) { *tags &= ~(CHAN_SEL_OUT | CHAN_REQ_IN); *tags |= CHAN_OPR_IN; *bi = me; d.selected = 1; polled = true; fsm = SELECT; }
            break; }
        case SELECT:
            *tags &= ~CHAN_SEL_OUT; *bi = me; if (!(t & CHAN_ADR_OUT)) { *tags |= CHAN_ADR_IN; fsm = CMD; } break;
        case CMD:
            *tags &= ~CHAN_SEL_OUT; *bi = me;
            if (t & CHAN_CMD_OUT) {
                *tags &= ~CHAN_ADR_IN;
                if (polled) { if (st) fsm = STATUS; else fsm = DATA1; inburst = 0; break; }
                CHECK(odd(bo & 0xff) == (bo & 0x1ff), "bus-parity", "command %03x on bus out has wrong parity", bo);
                fsm = STATUS;
                if (st) { if (bo & 0xff) st |= S_BSY; } else { ev("command %02x", bo & 0xff); start(bo & 0xff); }
            } else if ((t & CHAN_ADR_OUT) && !(t & CHAN_HLD_OUT)) { *tags &= ~(CHAN_ADR_IN | CHAN_OPR_IN); halted(); fsm = WAIT; }
            break;
        case STATUS:
            *tags &= ~(CHAN_SEL_OUT | CHAN_ADR_IN); if (t & CHAN_CMD_OUT) break;
            *bi = odd(st); *tags |= CHAN_STA_IN; fsm = STACC; break;
        case STACC:
            *tags &= ~CHAN_SEL_OUT; *bi = odd(st);
            if (t & CHAN_CMD_OUT) { if (st & S_BSY) { st &= ~S_BSY; } ev("status %02x stacked", st); sim.fault_fired("status-stacked"); stacked = true; initial = false; *tags &= ~(CHAN_OPR_IN | CHAN_STA_IN); fsm = WAIT; }
            else if (t & CHAN_SRV_OUT) {
                bool fin = st & S_DE || (initial && st == 0 && cmd == 0) || (st & S_ATTN) || phase == NONE; bool ce = st & S_CE;
                if ((st & S_BSY)) { // busy with earlier status: the channel has taken that status too
                }
                accepted(); *tags &= ~CHAN_STA_IN;
                if (fin) { *tags &= ~CHAN_OPR_IN; fsm = WAIT; }
                else if (ce) { if (!(t & CHAN_HLD_OUT)) *tags &= ~CHAN_OPR_IN; fsm = WAIT; }
                else { fsm = OPR; if (!ch && !burst) { *tags &= ~CHAN_OPR_IN; fsm = WAIT; } }
            } else if ((t & CHAN_ADR_OUT) && !(t & CHAN_HLD_OUT)) { *tags &= ~(CHAN_OPR_IN | CHAN_STA_IN); fsm = WAIT; }
            break;
        case WAIT:
            *tags &= ~CHAN_SEL_OUT;
            if (!(t & (CHAN_CMD_OUT | CHAN_SRV_OUT | CHAN_ADR_OUT))) {
                if (!(t & CHAN_HLD_OUT) || (!busy() && !st) || !(*tags & CHAN_OPR_IN)) { d.selected = 0; *tags &= ~CHAN_OPR_IN; fsm = IDLE; } else fsm = WAITDE; }
            break;
        case WAITDE:
            *tags &= ~CHAN_SEL_OUT; if (!(t & CHAN_HLD_OUT)) { d.selected = 0; *tags &= ~CHAN_OPR_IN; fsm = IDLE; break; }
            if (st) fsm = STATUS; break;
        case OPR:
            *tags &= ~CHAN_SEL_OUT;
            if (t & CHAN_ADR_OUT) { halted(); *tags &= ~CHAN_OPR_IN; d.selected = 0; fsm = IDLE; break; }
            if (dr && inburst < span) { fsm = DATA1; break; }
            if (st) { fsm = STATUS; break; }
            if (!burst && !(t & CHAN_HLD_OUT) && (!dr || inburst >= span) && !(t & (CHAN_SRV_OUT | CHAN_CMD_OUT))) { *tags &= ~CHAN_OPR_IN; d.selected = 0; fsm = IDLE; inburst = 0; break; }
            if (inburst >= span) { inburst = 0; }
            break;
        case DATA1:
            *tags &= ~CHAN_SEL_OUT; if (t & (CHAN_SRV_OUT | CHAN_CMD_OUT)) break; if (t & CHAN_SUP_OUT) break;
            if (t & CHAN_ADR_OUT) { fsm = OPR; break; }
            *tags |= CHAN_SRV_IN; *bi = odd(dat); fsm = DATA2; break;
        case DATA2:
            *tags &= ~CHAN_SEL_OUT; *bi = odd(dat);
            if ((t & CHAN_ADR_OUT) && !(t & CHAN_HLD_OUT)) { *tags &= ~(CHAN_SRV_IN | CHAN_OPR_IN); halted(); d.selected = 0; fsm = IDLE; break; }
            if (t & (CHAN_SRV_OUT | CHAN_CMD_OUT)) {
                *tags &= ~CHAN_SRV_IN; dr = false; inburst++; timer = gap(); lastact = seen;
                if (t & CHAN_CMD_OUT) { stop = true; r().stopped = true; ev("stopped after %d", pos); }
                else if (isread()) { r().data.push_back(dat); pos++; }
                else { CHECK(odd(bo & 0xff) == (bo & 0x1ff), "bus-parity", "data %03x on bus out has wrong parity", bo); r().data.push_back(bo); pos++; }
                fsm = OPR;
            }
            break;
        case BUSY:
            *bi = odd(S_BSY);
            if (!(t & CHAN_SEL_OUT)) { *tags &= ~CHAN_STA_IN; d.selected = 0; fsm = IDLE; if (t & CHAN_ADR_OUT) halted(); }
            *tags &= ~CHAN_SEL_OUT; break;
        }
    }
};
std::vector<Dev *> devs;
void dev_bus(struct _device *u, uint16_t *tags, uint16_t bo, uint16_t *bi) {
    Dev *d = (Dev *)u->dev;
    d->bus(tags, bo, bi); }

std::map<uint32_t, std::vector<uint32_t>> caw_totals;
uint32_t next_total(Dev *d) { uint32_t c = cw(72); if (c != d->lastcaw) { d->lastcaw = c; d->capos = 0; } auto &t = caw_totals[c]; return d->capos < t.size() ? t[d->capos++] : 1; }
struct Ccw { uint8_t cmd; uint32_t addr; uint8_t flags; uint16_t count; };
struct Op { int kind; uint16_t dev; Dev *d; uint32_t caw; std::vector<uint32_t> totals; uint8_t mask; };   // SIO TIO HIO TCH window wait
enum { K_SIO, K_TIO, K_HIO, K_TCH, K_WINDOW, K_WAIT, K_INT = 0xee };
const uint32_t LOGA = 0x8000, CODE = 0x2000, FINAL = 0x1f0, KON = 0x200, CCWS = 0x4000, BUF = 0x5000, LOGN = 0x1000;
uint32_t kon, ccwa, bufa;
std::vector<uint8_t> init_mem;
std::map<uint32_t, Ccw> ccws;
uint32_t kput(std::vector<uint8_t> b, uint32_t al = 4) { kon = (kon + al - 1) & ~(al - 1); uint32_t a = kon; for (auto x : b) setb(kon++, x); if (kon > 0x8f0) sim.fail("harness", "constants full"); return a; }
std::vector<uint8_t> w4(uint32_t v) { return {(uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v}; }
std::vector<uint8_t> psw8(uint8_t mask, uint8_t amwp, uint32_t ia) { return {mask, amwp, 0, 0, 0, (uint8_t)(ia >> 16), (uint8_t)(ia >> 8), (uint8_t)ia}; }
void put_ccw(uint32_t a, const Ccw &c) { setb(a, c.cmd); setb(a + 1, c.addr >> 16); setb(a + 2, c.addr >> 8); setb(a + 3, c.addr); setb(a + 4, c.flags); setb(a + 5, 0); setb(a + 6, c.count >> 8); setb(a + 7, c.count); ccws[a] = c; }

// reference interpreter of one channel program; fills what the channel must report
struct Want { bool prog_at_start = false; uint32_t addr = 0; int count = -1; uint8_t cst = 0; uint8_t ust = 0; bool il_free = false, cnt_free = false; std::vector<std::vector<std::pair<uint32_t, uint32_t>>> alt; size_t used = 0; bool immediate = false; bool halted = false; int ncmd = 0; bool de_open = false; };
std::map<uint32_t, uint8_t> expect_mem;     // storage the channel must have changed
uint32_t cfg_feat;                          // features of this run
enum { X_CD = 1, X_CC = 2, X_WILD = 4, X_SKIP = 8, X_BACK = 16, X_TIC = 32 };

bool fetch(uint32_t &a, bool first, Ccw &c, Want &w, bool prevtic = false) {
    for (bool tic = false;;) {
        if (a & 7 || !ccws.count(a)) { w.cst |= C_PROG; w.addr = a + 8; return false; }
        c = ccws[a];
        if ((c.cmd & 15) == 8) { if (first || tic) { w.cst |= C_PROG; w.addr = a + 8; return false; } tic = true; a = c.addr; continue; }
        break;
    }
    w.addr = a + 8; w.count = c.count;
    if (c.count == 0) { w.cst |= C_PROG; return false; }
    return true;
}
// run op's program against the device's records from index i on
void refrun(const Op &op, Dev &d, size_t i, Want &w) {
    uint32_t a = op.caw & 0xffffff; Ccw c; bool first = true; w.used = 0;
    if (op.caw & 0x0f000000) { w.prog_at_start = true; w.cst = C_PROG; return; }
    if (!fetch(a, true, c, w)) { w.prog_at_start = true; return; }
    for (;;) {
        if (i >= d.recs.size()) sim.fail("command-lost", "device %03x was not given command %02x of the channel program at %06x", d.addr, c.cmd, a);
        Rec &r = d.recs[i++]; w.used++; w.ncmd++;
        CHECK(r.cmd == c.cmd, "wrong-command", "device %03x was given command %02x where the CCW at %06x has %02x", d.addr, r.cmd, a, c.cmd);
        uint8_t cmd = c.cmd; uint8_t all = r.all(); w.halted |= r.halted; bool rd = (cmd & 3) == 2 || (cmd & 15) == 0xc || (cmd & 15) == 4, back = (cmd & 15) == 0xc; uint32_t cnt = c.count, at = c.addr;
        bool nodata = r.init != 0; bool il = false;
        if (!nodata) {
            size_t n = r.data.size();
            for (size_t k = 0; k < n; k++) {
                if (cnt == 0) {
                    CHECK(c.flags & F_CD, "count-exceeded", "device %03x command %02x moved %zu bytes, more than the channel program's %zu", d.addr, cmd, n, k);
                    a += 8; if (!fetch(a, false, c, w)) sim.fail("harness", "bad chained ccw"); cnt = c.count; at = c.addr;
                }
                uint32_t m = at & 0xffffff;
                if (rd) { if (!(c.flags & F_SKIP)) expect_mem[m] = r.data[k]; }
                else CHECK(r.data[k] == init_mem[m], "data-written", "device %03x command %02x got byte %zu as %02x; storage at %06x holds %02x", d.addr, cmd, k, r.data[k], m, init_mem[m]);
                at += back ? -1 : 1; cnt--;
            }
            if (r.stopped) CHECK(cnt == 0 && !(c.flags & F_CD), "stopped-early", "device %03x command %02x was stopped after %zu bytes with %u left", d.addr, cmd, n, cnt);
            else if (!r.halted) CHECK(n == r.len, "data-lost", "device %03x command %02x moved %zu of %u bytes", d.addr, cmd, n, r.len);
            if (rd) for (size_t k = 0; k < n; k++) {}
            il = r.stopped || cnt != 0;
            if (cnt == 0 && (c.flags & F_CD)) { w.cnt_free = w.il_free = true; w.addr = a + 8; }      // ended where the next CCW would begin
            w.count = cnt;
            if ((c.flags & F_CD) ? false : (c.flags & F_SLI)) il = false;
        } else { w.count = c.count; w.il_free = true; w.cnt_free = (r.init & S_CE) == 0; }
        if (il) w.cst |= C_IL;
        w.addr = a + 8; w.ust = all;
        bool more = (c.flags & F_CC) && !(c.flags & F_CD) && !(all & (S_UC | S_UE)) && !(w.cst & ~C_PCI) && !r.halted && (all & S_DE);
        if (w.il_free && (c.flags & F_CC) && !(c.flags & F_SLI) && nodata && i >= d.recs.size()) more = false;
        w.immediate = first && nodata; if (!first && nodata && !MACH_IMM_COUNT) w.cnt_free = true;
        if (!more) { return; }
        w.il_free = w.cnt_free = false; w.ust = 0;
        a += 8; if (all & S_SM) a += 8;
        if (!fetch(a, false, c, w)) { return; }
        first = false;
    }
}
int knob(const char *n, int d) { const char *e = getenv(n); return e ? (int)strtol(e, 0, 0) : d; }   // for exploring beyond the claimed domain; unset in checks
void run_io(int level) {
    ccws.clear(); expect_mem.clear(); devs.clear(); kon = KON; ccwa = CCWS; bufa = BUF;
    sim.step_budget = 40000000; int lv = level ? knob("LV", MACH_FAULTS) : 0, onlych = knob("CHS", MACH_CHS); int fsel = knob("FEAT", FEAT_SEL), fmpx = knob("FEAT", FEAT_MPX);
    cfg_feat = sim.choose(64) & (level ? 63 : ~X_WILD);
    mach_reset();
    uint32_t seed = sim.choose(1u << 30);
    for (uint32_t a = 0; a < 0x10000; a++) setb(a, a < 0x4000 ? 0 : (uint8_t)(hash64(seed, a) >> 9));
    // devices
    int nd = 1 + sim.choose(knob("DEVS", MACH_DEVS));
    for (int i = 0; i < nd; i++) {
        Dev *d = new Dev(); int c = sim.choose(CH_SEL + 1); uint16_t ad; if (onlych == 0) c = 0; else if (onlych > 0) c = 1 + sim.choose(CH_SEL);
        for (;;) { ad = c << 8 | (c ? sim.choose(256) : sim.choose(MPX_ADDRS)); bool dup = false; for (auto x : devs) dup |= x->addr == ad; if (!dup && mach_addr(ad)) break; }
        d->addr = ad; d->ch = c; d->burst = sim.choose(2); d->pace = sim.pick((int[]){2, 20, 60, 300}); d->span = d->burst ? 100000 : 1 + sim.choose(4); d->wild = (cfg_feat & (c ? fsel : fmpx) & X_WILD) != 0;
        d->d.addr = ad & 0xff; if (c) d->d.addr = ad; d->d.dev = d; d->d.bus_func = dev_bus; d->d.next = nullptr;
        struct _device **p = &chan[c]; while (*p) p = &(*p)->next; *p = &d->d; devs.push_back(d);
        sim.ev("device %03x %s pace %u span %u", ad, d->burst ? "burst" : "byte", d->pace, d->span);
    }
    // program
    std::vector<Op> ops; int no = 1 + sim.choose(sim.choose(2) ? 5 : 16);
    uint32_t ffs = kput(std::vector<uint8_t>(8, 0xff), 8), zero = kput({0}); uint32_t pc = CODE;
    auto op2 = [&](uint16_t h) { setb(pc++, h >> 8); setb(pc++, h); };
    auto mvc = [&](int l, uint16_t a, uint16_t b) { op2(0xd200 | (l - 1)); op2(a); op2(b); };
    for (uint32_t a = LOGA; a < LOGA + LOGN; a++) setb(a, 0);
    for (int k = 0; k < 8; k++) setb(64 + k, 0xff);
    setb(FINAL, 0);
    auto psw_at = [&](uint32_t a, std::vector<uint8_t> p) { for (size_t k = 0; k < 8; k++) setb(a + k, p[k]); };
    psw_at(0x78, psw8(0, 0x04, 0x900)); psw_at(0x58, psw8(0, 0x04, 0x9c0)); psw_at(0x68, psw8(0, 0x06, 0xbad)); psw_at(0x60, psw8(0, 0x06, 0xbad)); psw_at(0x70, psw8(0, 0x06, 0xbad));
    setw(80, 0x7fffff00);
    pc = 0x900; mvc(2, 0xa002, 0x003a); mvc(8, 0xa008, 64); mvc(8, 64, ffs); op2(0x92ee); op2(0xa000); op2(0x41a0); op2(0xa010); op2(0x94fd); op2(0x0039); op2(0x8200); op2(0x0038);
    pc = 0x9c0; op2(0x94fd); op2(0x0019); op2(0x8200); op2(0x0018);
    pc = CODE; uint32_t la = kput(w4(LOGA)); op2(0x58a0); op2(la);
    uint8_t allm = (uint8_t)(0xff << (7 - CH_SEL)); allm |= 1;
    for (int i = 0; i < no; i++) {
        Op o{}; o.kind = sim.weighted({8, 3, lv & 1 ? 2 : 0, 1, 4, 3}); o.d = devs[sim.choose(nd)]; o.dev = o.d->addr;
        if (lv & 4 && o.kind < 4 && sim.choose(20) == 0) { o.d = nullptr; o.dev = (sim.choose(CH_SEL + 1) << 8) | sim.choose(MPX_ADDRS); for (auto x : devs) if (x->addr == o.dev) o.d = x; if (!mach_addr(o.dev)) { o.dev = devs[0]->addr; o.d = devs[0]; } }
        uint32_t ft = cfg_feat & (o.dev >> 8 ? fsel : fmpx);
        switch (o.kind) {
        case K_SIO: {
            ccwa = (ccwa + 7) & ~7u; o.caw = ccwa; int nc = ft & X_CC ? 1 + sim.choose(4) : 1;
            for (int c = 0; c < nc; c++) {
                uint8_t cmd = sim.pick((int[]){1, 2, 1, 2, 3, 4, 0x13, 0x0c}); if (cmd == 0xc && !(ft & X_BACK)) cmd = 2; if (!MACH_IMM_CHAIN && c && (cmd == 3 || cmd == 0x13)) cmd = 1;
                int ns = (ft & X_CD) && cmd != 3 && cmd != 0x13 ? 1 + sim.choose(3) : 1; uint32_t tot = 0; if (sim.choose(3)) ns = 1;
                if (c && (ft & X_TIC) && !sim.choose(3)) { uint32_t to = (ccwa + 8 + 8 * sim.choose(3)); put_ccw(ccwa, {8, to, (uint8_t)0, 0}); ccwa = to; }
                for (int s = 0; s < ns; s++) {
                    uint16_t n = sim.choose(3) ? 1 + sim.choose(12) : 1 + sim.choose(60); tot += n; bufa += sim.choose(5) + 4; uint32_t ba = bufa; bufa += n;
                    if (cmd == 0xc) ba += n - 1;
                    uint8_t f = 0; if (s + 1 < ns) f |= F_CD; else if (c + 1 < nc) f |= F_CC; if (sim.choose(2)) f |= F_SLI;
                    if ((ft & X_SKIP) && (cmd == 2 || cmd == 4) && !sim.choose(4)) f |= F_SKIP;
                    if (s && (ft & X_TIC) && !sim.choose(4)) { uint32_t to = (ccwa + 8 + 8 * sim.choose(3)); put_ccw(ccwa, {8, to, 0, 0}); ccwa = to; }
                    put_ccw(ccwa, {cmd, ba, f, n}); ccwa += 8;
                }
                o.totals.push_back(tot);
            }
            if (ccwa > BUF - 0x100 || bufa > 0x7f00) { i = no; continue; }
            caw_totals[o.caw] = o.totals; uint32_t k = kput(w4(o.caw)); mvc(4, 72, k); break; }
        case K_WINDOW: case K_WAIT: o.mask = allm; if (sim.choose(4) == 0) o.mask = (sim.choose(256) & allm) | 1; break;
        }
        int idx = (int)ops.size(); ops.push_back(o);
        if (o.kind < 4) {
            op2((0x9c + o.kind) << 8); uint16_t ad = o.dev; if (ad >> 12) sim.fail("harness", "addr"); op2(ad);
            op2(0x05e0); op2(0x50e0); op2(0xa004); uint32_t k = kput({(uint8_t)(o.kind | 0x80), (uint8_t)idx, 0, 0}); mvc(8, 0xa008, 64); mvc(8, 64, ffs); mvc(4, 0xa000, k); op2(0x41a0); op2(0xa010);
            if (sim.choose(4) == 0) { uint32_t n = kput(w4(1 + sim.choose(200))); op2(0x5890); op2(n); op2(0x05b0); op2(0x4690); op2(0xb000); }
        } else if (o.kind == K_WINDOW) {
            uint32_t m = kput({o.mask}, 1); op2(0x8000); op2(m); uint32_t n = kput(w4(1 + sim.choose(sim.choose(2) ? 20 : 400))); op2(0x5890); op2(n); op2(0x05b0); op2(0x4690); op2(0xb000); op2(0x8000); op2(zero);
        } else { uint32_t k = kput(psw8(o.mask, 0x06, pc + 4), 8); op2(0x8200); op2(k); op2(0x8000); op2(zero); }
    }
    op2(0x9201); op2(FINAL); { uint32_t k = kput(psw8(allm, 0x06, pc), 8); op2(0x8200); op2(k); }
    if (pc > CCWS - 16) sim.fail("harness", "code full");
    int nat = lv & 2 ? sim.choose(3) : 0; for (int i = 0; i < nat; i++) { devs[sim.choose(nd)]->attn_in = 1000 + sim.choose(60000); sim.fault_fired("attention"); }
    init_mem.resize(0x10000); for (uint32_t a = 0; a < 0x10000; a++) init_mem[a] = cb(a);
    sim.ev("%zu operations, features %02x", ops.size(), cfg_feat);
    for (auto &o : ops) { sim.ev("op %s %03x caw %06x mask %02x", (const char *[]){"SIO", "TIO", "HIO", "TCH", "window", "wait"}[o.kind], o.dev, o.caw, o.mask); }
    for (auto &c : ccws) sim.ev("ccw %06x: %02x %06x flags %02x count %u", c.first, c.second.cmd, c.second.addr, c.second.flags, c.second.count);
    // run
    mach_start(); uint64_t quiet = 0, since = 0; uint32_t nlog = 0; bool seenfinal = false; uint64_t tick = lv & 8 && !sim.choose(3) ? 500 + sim.choose(20000) : 0; uint64_t lact = 0;
    for (uint64_t cyc = 0;; cyc++) {
        sim.step(1); sim.ticks(1);
        if (getenv("UTRACE") && cyc >= strtoull(getenv("UTRACE"), 0, 0)) { log_enable = 1; log_level = 0xffff; }
        mach_cycle(); START = 0;
        if (tick && cyc == tick) { timer_event = 1; sim.fault_fired("timer-step"); tick += 500 + sim.choose(20000); }
        bool q = true; uint64_t act = 0; for (auto d : devs) { q &= d->quiet(); act += d->lastact; }
        uint32_t e = LOGA + nlog * 16; if (cb(e)) { nlog++; since = cyc; sim.ev("%llu: log %02x op %u code %03x cc %u csw %08x %08x", (unsigned long long)cyc, cb(e), cb(e + 1), cb(e + 2) << 8 | cb(e + 3), cb(e + 4) >> 4 & 3, cw(e + 8), cw(e + 12)); if (nlog * 16 >= LOGN - 32) sim.fail("log-full", "interruptions without end"); }
        if (mach_ia() == 0xbad && mach_wait()) sim.fail("trapped", "the program took an unexpected interruption (program old PSW %08x %08x, machine check old PSW %08x %08x)", cw(0x28), cw(0x2c), cw(0x30), cw(0x34));
        if (act != lact) { lact = act; since = cyc; }
        seenfinal = cb(FINAL);
        if (q && mach_wait() && mach_idle()) { if (++quiet == (seenfinal ? 20000u : 4000u)) { if (seenfinal) break; INTR = 1; quiet = 0; } } else quiet = 0;
        if (!q && !seenfinal && mach_wait() && cyc - since > 60000 && (cyc - since) % 20000 == 0) INTR = 1;  // the mask may hold the rest up
        if (cyc - since > 1500000) sim.fail("stuck", "nothing moves for %llu cycles at micro address %03x, instruction %06x, %s", (unsigned long long)(cyc - since), mach_micro(), mach_ia(), q ? "devices quiet" : "device work outstanding");
    }
    // judge
    struct Run { int op; size_t i0; Want w; bool ce = false, de = false; uint8_t rep = 0; };
    std::map<uint16_t, size_t> reci, attn; std::map<uint16_t, std::vector<uint8_t>> want_rep; std::map<uint16_t, Run *> cur;
    auto dv = [&](uint16_t a) -> Dev * { for (auto d : devs) if (d->addr == a) return d; return nullptr; };
    auto csw_ok = [&](Run &r, Dev &d, uint32_t hi, uint32_t lo) {
        Want &w = r.w; uint8_t us = lo >> 24, cs = lo >> 16; uint32_t ad = hi & 0xffffff; int ct = lo & 0xffff;
        (void)us;
        uint8_t x = cs ^ w.cst; if (w.il_free) x &= ~C_IL;
        CHECK(x == 0, "channel-status", "device %03x channel program at %06x ends with channel status %02x, not %02x (CSW %08x %08x)", d.addr, ops[r.op].caw, cs, w.cst, hi, lo);
        CHECK(ad == w.addr || (w.cnt_free && ad == w.addr + 8), "csw-address", "device %03x channel program at %06x ends with CSW address %06x, not %06x (CSW %08x %08x)", d.addr, ops[r.op].caw, ad, w.addr, hi, lo);
        if (!w.cnt_free) CHECK(ct == w.count, "csw-count", "device %03x channel program at %06x ends with count %u, not %u (CSW %08x %08x)", d.addr, ops[r.op].caw, ct, w.count, hi, lo);
    };
    auto report = [&](uint16_t a, uint32_t hi, uint32_t lo, bool full, const char *how) {
        uint8_t us = lo >> 24; Dev *d = dv(a); CHECK(d, "wrong-device", "%s reports device %03x, which does not exist (CSW %08x %08x)", how, a, hi, lo);
        us &= ~S_BSY;
        if (us & S_ATTN) { CHECK(us == S_ATTN && attn[a] < d->attn.size(), "attention", "%s from %03x with status %02x", how, a, us); attn[a]++; return; }
        Run *r = cur[a]; CHECK(r, "status-extra", "%s presents status %02x of device %03x, which had no operation (CSW %08x %08x)", how, us, a, hi, lo);
        uint8_t all = r->w.ust; 
        CHECK((us & ~all) == 0, "status-wrong", "%s presents status %02x of device %03x, which gave %02x", how, us, a, all);
        if (!r->ce) { CHECK(us & (S_CE | S_UC), "order", "%s for %03x: status %02x before channel end", how, a, us); r->ce = true; if (full) csw_ok(*r, *d, hi, lo); }
        else CHECK(!(us & S_CE), "status-twice", "%s presents channel end of device %03x twice (CSW %08x %08x)", how, a, hi, lo);
        r->rep |= us;
        if (us & S_DE || !(all & S_DE)) { CHECK(r->rep == all, "status-lost", "device %03x gave status %02x and the program saw %02x", a, all, r->rep); delete r; cur[a] = nullptr; }
    };
    std::map<uint16_t, bool> any; size_t ei = 0;
    for (uint32_t e = LOGA; e < LOGA + nlog * 16; e += 16, ei++) {
        int kind = cb(e) == K_INT ? K_INT : cb(e) & 0x7f; uint32_t hi = cw(e + 8), lo = cw(e + 12); int cc = cb(e + 4) >> 4 & 3; bool stored = hi != 0xffffffff || lo != 0xffffffff;
        if (kind == K_INT) { uint16_t a = cb(e + 2) << 8 | cb(e + 3); sim.probe("interruption"); sim.state(hash64(a >> 8, lo >> 16)); report(a, hi, lo, true, "interruption"); continue; }
        Op &o = ops[cb(e + 1)]; Dev *d = o.d; const char *nm = (const char *[]){"SIO", "TIO", "HIO", "TCH"}[kind]; char b[40]; snprintf(b, sizeof b, "%s cc%d", nm, cc); sim.probe(b); sim.state(hash64(kind * 4 + cc, cur[o.dev] ? 1 + cur[o.dev]->ce : 0));
        if (kind == K_TCH) continue;
        if (!d) { CHECK(cc == 3 || cc == 2, "not-there", "%s to absent device %03x sets condition code %d", nm, o.dev, cc); continue; }
        CHECK(cc != 3, "not-there", "%s to device %03x sets condition code 3", nm, o.dev);
        if (cc != 1) CHECK(!stored, "csw-stored", "%s to %03x sets condition code %d and stores CSW %08x %08x", nm, o.dev, cc, hi, lo);
        uint8_t us = lo >> 24;
        if (kind == K_SIO) {
            if (cc == 0 || (cc == 1 && !(us & S_BSY))) {
                Run *old = cur[o.dev];
                if (old) { if (cc == 1) { report(o.dev, hi, lo, false, nm); continue; } sim.fail("started-busy", "SIO starts %03x while its last operation is still outstanding", o.dev); }
                if (cc == 1 && (us & S_ATTN)) { report(o.dev, hi, lo, false, nm); continue; }
                Run *r = new Run(); r->op = cb(e + 1); r->i0 = reci[o.dev]; refrun(o, *d, r->i0, r->w); reci[o.dev] += r->w.used; cur[o.dev] = r;
                if (cc == 1) {
                    if (r->w.prog_at_start) { CHECK((lo >> 16 & 0xff) == C_PROG, "channel-status", "SIO with a faulty channel program stores %08x %08x", hi, lo); delete r; cur[o.dev] = nullptr; continue; }
                    CHECK(r->w.immediate, "cc1", "SIO to %03x stores CSW %08x %08x", o.dev, hi, lo); report(o.dev, hi, lo, false, nm);
                }
            } else if (cc == 1) { if (us & (S_CE | S_DE | S_ATTN)) report(o.dev, hi, lo, false, nm); }
        } else if (kind == K_TIO) {
            if (cc == 1 && !(us & S_BSY)) report(o.dev, hi, lo, true, nm);
            else if (cc == 0) CHECK(!cur[o.dev], "tio-idle", "TIO finds %03x available while its operation is outstanding", o.dev);
        } else if (kind == K_HIO) { if (cc == 1 && us) report(o.dev, hi, lo, false, nm); }
    }
    for (auto d : devs) {
        CHECK(!cur[d->addr], "status-lost", "device %03x: its operation ended with status %02x but the program saw only %02x", d->addr, cur[d->addr]->w.ust, cur[d->addr]->rep);
        CHECK(reci[d->addr] == d->recs.size(), "command-extra", "device %03x was given %zu commands, the channel programs started hold %zu", d->addr, d->recs.size(), reci[d->addr]);
        CHECK(attn[d->addr] == d->attn.size(), "attention-lost", "device %03x: %zu attentions taken by the channel, %zu seen by the program", d->addr, d->attn.size(), attn[d->addr]);
    }
    for (uint32_t a = CODE; a < 0x10000; a++) { if (a >= LOGA && a < LOGA + LOGN) continue; uint8_t w = expect_mem.count(a) ? expect_mem[a] : init_mem[a];
        if (cb(a) != w) sim.fail("storage", "storage at %06x holds %02x, not %02x%s", a, cb(a), w, expect_mem.count(a) ? " as the device sent" : " (nothing may change it)"); }
    sim.nontrivial(); sim.done();
}
void run_clean() { run_io(0); }
void run_fault() { run_io(1); }
}
