// A System/360 channel driving real devices cycle by cycle, every response
// delayed by the seeded scheduler.  One object per channel; any number of
// subchannels (device addresses).  The channel itself is a stand-in; devices
// are real code.
#pragma once
#include "core.hpp"
#include <map>
#include <functional>
#include <string.h>
#include <stdlib.h>
#include <algorithm>
extern "C" {
#include "device.h"
void advance(void);
}
namespace ch {
inline uint16_t par(uint8_t b) { return (__builtin_popcount(b) & 1) ? 0 : 0x100; }
struct Ccw {
    uint8_t cmd = 0; uint32_t count = 0; std::vector<uint8_t> data; bool chain = false; int badbyte = -1; bool badcmd = false;
};
struct Result {                       // what one command did, as seen on the wire
    uint8_t cmd = 0; int init = -1; std::vector<uint8_t> bytes; bool stopped = false;
    std::vector<uint8_t> st; int ce = 0, de = 0; bool refused = false; bool halted = false, badsent = false;
    uint8_t all() const { uint8_t a = init > 0 ? init : 0; for (auto s : st) a |= s; return a; }
    uint64_t maxgap = 0, t0 = 0, t1 = 0;
};
struct Sub {
    uint8_t addr = 0; std::vector<Ccw> prog; size_t pc = 0; std::vector<Result> log;
    enum St { FREE, PENDING, ACTIVE } st = FREE; bool present = true; bool absent_seen = false;
    std::vector<uint8_t> async;       // status with no command outstanding
    uint64_t since = 0; bool halt_req = false, tio_req = false; bool ce_seen = false; bool chainerr = false; bool was_busy = false;
    bool active() const { return st == ACTIVE; }
    Result &r() { return log.back(); }
};
struct Reset {};                      // thrown when the harness resets the interface
struct Channel {
    bool selector = false; int chno = 0; int adv = 1; int extra_steps = 0;
    uint16_t tags = CHAN_OPR_OUT, tags_in = 0, bus_out = 0x100, bus_in = 0x100;
    bool zero_bus = false;            // some channels clear bus-in each cycle
    uint64_t now = 0, limit = 3000000; bool check_quiet = true;
    std::map<uint8_t, Sub> sub;
    device_t *owner = nullptr;        // who raised operational-in (or short busy)
    int dmin = 0, dmax = 0, stall_pm = 0, stall_max = 0; bool stacks = false; int fast_only = 0;
    std::function<void()> hook;       // called after every cycle
    std::function<void()> stepper;    // device clocks other than advance()
    uint64_t n_stack = 0, n_poll = 0, n_halt = 0, n_xfer = 0, n_delay = 0, sup_until = 0; int stale = 0; bool in_bus = false;
    uint64_t gap0 = 0;

    void pick_timing() {
        static const int dm[] = {0, 0, 1, 3, 8, 25};
        dmax = sim.pick(dm); if (sim.choose(3) == 0) { stall_pm = 1 + sim.choose(20); stall_max = 20 << sim.choose(8); }
        adv = 1 + sim.choose(2); stacks = sim.choose(3) == 0; zero_bus = sim.choose(2);
        sim.ev("%s channel, response delay 0..%d, stall %d/1000 of up to %d, %d ticks per cycle%s", selector ? "selector" : "multiplexor", dmax, stall_pm, stall_max, adv, stacks ? ", stacks status" : "");
    }
    bool slow() const { return dmax > 3 || stall_pm; }
    int delay() {
        int d = dmax ? sim.choose(dmax + 1) : 0;
        if (stall_pm && sim.choose(1000) < (uint32_t)stall_pm) { d += sim.choose(stall_max); sim.fault_fired("stalled-channel"); }
        if (d) n_delay++;
        return d;
    }
    // one bus cycle
    void cycle() {
        sim.step(); now++; sim.ticks(adv);
        tags_in &= IN_TAGS; tags_in |= tags; if (zero_bus) bus_in = 0;
        for (device_t *d = chan[chno]; d; d = d->next) {
            uint16_t b = tags_in; in_bus = true; d->bus_func(d, &tags_in, bus_out, &bus_in); in_bus = false;
            uint16_t a = tags_in, ch = a ^ b;
            if (!ch) continue;
            if (ch & OUT_TAGS & ~CHAN_SEL_OUT) sim.fail("drives-channel-tags", "device %03x changed outbound tags %04x to %04x", d->addr, b, a);
            if ((ch & CHAN_SEL_OUT) && !(b & CHAN_SEL_OUT)) sim.fail("drives-channel-tags", "device %03x raised select", d->addr);
            if (ch & (CHAN_OPR_IN | CHAN_ADR_IN | CHAN_STA_IN | CHAN_SRV_IN)) {
                if (owner && owner != d) sim.fail("two-drivers", "device %03x changed tags %04x to %04x while device %03x has the interface", d->addr, b, a, owner->addr);
                owner = (a & (CHAN_OPR_IN | CHAN_ADR_IN | CHAN_STA_IN | CHAN_SRV_IN)) ? d : nullptr;
            }
        }
        if ((tags_in & (CHAN_STA_IN | CHAN_SRV_IN)) == (CHAN_STA_IN | CHAN_SRV_IN)) sim.fail("tags-conflict", "status in and service in together");
        if ((tags_in & CHAN_ADR_IN) && (tags_in & (CHAN_STA_IN | CHAN_SRV_IN))) sim.fail("tags-conflict", "address in with tags %04x", tags_in);
        if ((tags_in & (CHAN_SRV_IN | CHAN_ADR_IN)) && !(tags_in & CHAN_OPR_IN)) sim.fail("tags-conflict", "tags %04x without operational in", tags_in);
        for (int i = 0; i < adv; i++) { in_bus = true; advance(); in_bus = false; }
        if (stepper) stepper();
        if (sim.verbose && tags_in != shown && getenv("TAGS")) { shown = tags_in; sim.note("  %6lu tags %04x out %03x in %03x", (unsigned long)now, tags_in, bus_out, bus_in); }
        if (hook) hook();
    }
    int shown = -1;
    void hold(int n) { while (n-- > 0) cycle(); }
    template <class F> void until(F f, const char *sig, const char *what, uint64_t lim = 0) {
        uint64_t t = now; if (!lim) lim = limit;
        while (!f()) { cycle(); if (now - t > lim) sim.fail(sig, "%s: nothing for %lu cycles, tags %04x", what, (unsigned long)lim, tags_in); }
    }
    uint8_t sample(const char *what) {
        if (((bus_in >> 8) & 1) != (par(bus_in & 0xff) >> 8) || (bus_in & ~0x1ff)) sim.fail("bus-parity", "%s %03x on bus in has bad parity", what, bus_in);
        return bus_in & 0xff;
    }
    void reset(int n = 4) {           // system reset: every out tag drops
        tags = 0; tags_in = 0; owner = nullptr; bus_out = 0x100;
        for (int i = 0; i < n; i++) {
            sim.step(); now++;
            tags_in = 0;
            for (device_t *d = chan[chno]; d; d = d->next) { d->bus_func(d, &tags_in, bus_out, &bus_in); if (tags_in) sim.fail("drives-in-reset", "device %03x drives tags %04x while reset", d->addr, tags_in); }
            for (int k = 0; k < adv; k++) advance();
            if (stepper) stepper();
        }
        tags = CHAN_OPR_OUT; sup_until = 0;
        for (auto &s : sub) { s.second.st = Sub::FREE; s.second.halt_req = false; }
    }
    void disconnect() {               // let go and wait for the device to
        tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT | CHAN_ADR_OUT | CHAN_CMD_OUT | CHAN_SRV_OUT);
        cycle();
        until([&] { return (tags_in & (CHAN_OPR_IN | CHAN_STA_IN | CHAN_SRV_IN | CHAN_ADR_IN)) == 0; }, "wont-disconnect", "device holds the interface", 20000);
    }
    void accept(bool sup) {
        tags |= CHAN_SRV_OUT; if (sup) tags |= CHAN_SUP_OUT; hold(1 + delay());
        until([&] { return (tags_in & CHAN_STA_IN) == 0; }, "status-stuck", "status accepted but not dropped", 20000);
        hold(delay());
        tags &= ~CHAN_SRV_OUT;
    }
    void finish(Sub &s) { s.st = Sub::FREE; s.r().t1 = now; sim.ev("%02x done: cmd %02x init %02x, %zu bytes, status %02x", s.addr, s.r().cmd, s.r().init, s.r().bytes.size(), s.r().all()); }
    // status byte in hand for the active command; true if the program goes on with another command
    bool take_status(Sub &s, uint8_t st, bool initial) {
        Result &r = s.r();
        if (initial) r.init = st; else r.st.push_back(st);
        if (st & SNS_CHNEND) { if (++r.ce > 1) sim.fail("channel-end-twice", "channel end presented %d times for command %02x to %02x", r.ce, r.cmd, s.addr); }
        if (st & SNS_DEVEND) { if (++r.de > 1) sim.fail("device-end-twice", "device end presented %d times for command %02x to %02x", r.de, r.cmd, s.addr);
            if (!r.ce) sim.fail("device-end-first", "device end without channel end for command %02x to %02x", r.cmd, s.addr); }
        sim.mix(st);
        if (r.de) {
            bool err = (r.all() & (SNS_UNITCHK | SNS_UNITEXP | SNS_BSY | SNS_ATTN)) || r.halted;
            if (s.prog[s.pc].chain && !err && s.pc + 1 < s.prog.size()) { s.pc += (r.all() & SNS_SMS) && s.pc + 2 < s.prog.size() ? 2 : 1; s.st = Sub::PENDING; r.t1 = now; return true; }
            finish(s);
        }
        return false;
    }
    bool chaining(Sub &s) { return s.active() && s.prog[s.pc].chain && !(s.r().all() & (SNS_UNITCHK | SNS_UNITEXP)) && !s.r().halted; }
    // the device is connected and working for s
    void connected(Sub &s, bool polled) {
        for (;;) {
            uint64_t t = now; bool maystop = true;
            hold(delay());
            for (;;) {
                if (!(tags_in & CHAN_OPR_IN)) { tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT); until([&]{ return !(tags_in & CHAN_STA_IN); }, "status-stuck", "status without operational in", 20000); return; }
                if (tags_in & (CHAN_SRV_IN | CHAN_STA_IN)) break;
                if (s.halt_req && maystop) { interface_disconnect(s); return; }
                cycle(); if (now - t > limit) sim.fail("connected-stuck", "device %02x connected and silent for %lu cycles (command %02x)", s.addr, (unsigned long)limit, s.log.empty() ? 0 : s.r().cmd);
            }
            if (tags_in & CHAN_SRV_IN) {
                if (!s.active()) sim.fail("data-unsolicited", "device %02x asks to transfer data with no command outstanding", s.addr);
                Result &r = s.r(); Ccw &c = s.prog[s.pc]; bool wr = r.cmd & 1; n_xfer++;
                if (r.ce) sim.fail("data-after-end", "device %02x transfers data after channel end", s.addr);
                if (r.stopped) sim.fail("data-after-stop", "device %02x asks for data again after the channel ended the transfer (command %02x)", s.addr, r.cmd);
                if (r.bytes.size() < c.count) {
                    if (wr) { uint8_t b = r.bytes.size() < c.data.size() ? c.data[r.bytes.size()] : 0; bus_out = b | par(b);
                        if (c.badbyte == (int)r.bytes.size()) { bus_out ^= 0x100; r.badsent = true; sim.fault_fired("bus-out-parity"); }
                        r.bytes.push_back(b); }
                    else { r.bytes.push_back(sample("data")); bus_out = 0x100; }
                    tags |= CHAN_SRV_OUT;
                } else { tags |= CHAN_CMD_OUT; r.stopped = true; }
                hold(1 + delay());
                until([&] { return (tags_in & CHAN_SRV_IN) == 0; }, "service-stuck", "data accepted but service in not dropped", 20000);
                hold(delay());
                tags &= ~(CHAN_SRV_OUT | CHAN_CMD_OUT);
                sim.mix(bus_in);
                cycle();
            } else {
                uint8_t st = sample("status");
                if (!(tags_in & CHAN_OPR_IN)) sim.fail("tags-conflict", "status %02x without operational in", st);
                bool stackit = stacks && !selector && sim.choose(4) == 0 && !chaining(s);
                if (stackit && sub_stack(s)) return;
                if (s.active()) {
                    bool ch = chaining(s) && !(st & (SNS_UNITCHK | SNS_UNITEXP));
                    if (st & SNS_BSY && !(st & ~SNS_BSY)) sim.fail("busy-as-end", "device %02x ended a command with busy status", s.addr);
                    bool more = take_status(s, st, false);
                    if (more || !s.active() || !ch || !selector) tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT);   // never propagated to the next device
                    accept(ch || more);
                    if (more || !s.active()) { disconnect(); return; }
                    if (!ch || !selector) { tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT); }
                    cycle();
                } else {
                    sim.ev("%02x asynchronous status %02x", s.addr, st);
                    s.async.push_back(st); tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT); accept(false); disconnect(); return;
                }
            }
        }
    }
    bool sub_stack(Sub &s) {
        n_stack++; sim.ev("%02x status %02x stacked", s.addr, bus_in & 0xff);
        tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT); tags |= CHAN_CMD_OUT; hold(1 + delay());
        until([&] { return (tags_in & CHAN_STA_IN) == 0; }, "status-stuck", "status stacked but not dropped", 20000);
        disconnect();
        tags |= CHAN_SUP_OUT; sup_until = now + sim.choose(200);
        return true;
    }
    void interface_disconnect(Sub &s) {
        s.halt_req = false; n_halt++; sim.ev("%02x halted while connected", s.addr); if (s.active()) s.r().halted = true;
        tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT); tags |= CHAN_ADR_OUT; hold(1 + delay());
        until([&] { return (tags_in & (CHAN_OPR_IN | CHAN_ADR_IN | CHAN_STA_IN | CHAN_SRV_IN)) == 0; }, "halt-stuck", "device does not leave the interface when halted", 20000);
        hold(delay()); tags &= ~(CHAN_ADR_OUT | CHAN_SUP_OUT | CHAN_CMD_OUT | CHAN_SRV_OUT); cycle();
    }
    enum Sel { NODEV, SHORTBUSY, SELECTED };
    Sel select(uint8_t addr) {
        bus_out = addr | par(addr); tags |= CHAN_ADR_OUT; hold(1 + delay());
        tags |= CHAN_SEL_OUT | CHAN_HLD_OUT;
        cycle();
        for (uint64_t t = now;; cycle()) {
            if (now - t > 20000) sim.fail("select-stuck", "selection of %02x gets no answer, tags %04x", addr, tags_in);
            if (tags_in & CHAN_OPR_IN) { hold(delay()); tags &= ~CHAN_ADR_OUT; break; }
            if (tags_in & CHAN_STA_IN) { hold(delay()); return SHORTBUSY; }
            if (tags_in & CHAN_SEL_OUT) { tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT | CHAN_ADR_OUT); cycle(); cycle(); return NODEV; }
        }
        until([&] { return (tags_in & CHAN_ADR_IN) != 0; }, "select-stuck", "selected device does not give its address", 20000);
        hold(delay());
        uint8_t got = sample("address");
        if (got != addr) sim.fail("wrong-address", "selected %02x and device answers %02x", addr, got);
        return SELECTED;
    }
    // begin s.prog[s.pc]
    void start(Sub &s) {
        Ccw &c = s.prog[s.pc]; s.log.push_back(Result()); s.r().cmd = c.cmd; s.r().t0 = now; s.absent_seen = false; s.st = Sub::ACTIVE;
        sim.ev("%02x start %02x count %u%s", s.addr, c.cmd, c.count, c.chain ? " chained" : ""); sim.mix(c.cmd);
        Sel x = select(s.addr);
        if (x == NODEV) { s.st = Sub::FREE; s.absent_seen = true; s.r().refused = true; tags &= ~CHAN_SUP_OUT; sim.ev("%02x not there", s.addr); return; }
        if (x == SHORTBUSY) { s.r().init = sample("status"); s.r().refused = true; s.st = Sub::FREE; sim.ev("%02x busy %02x", s.addr, s.r().init);
            tags &= ~(CHAN_SUP_OUT | CHAN_ADR_OUT); disconnect(); return; }
        tags &= ~CHAN_SUP_OUT;
        if (!selector) tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT);
        bus_out = c.cmd | par(c.cmd); if (c.badcmd) { bus_out ^= 0x100; s.r().badsent = true; sim.fault_fired("bus-out-parity"); }
        tags |= CHAN_CMD_OUT; cycle();
        until([&] { return !(tags_in & CHAN_ADR_IN) || (tags_in & CHAN_STA_IN); }, "command-stuck", "command out not answered", 20000);
        hold(delay()); tags &= ~CHAN_CMD_OUT; cycle();
        until([&] { return (tags_in & CHAN_STA_IN) != 0; }, "initial-status-missing", "no initial status", 20000);
        hold(delay());
        uint8_t st = sample("initial status");
        if (st & SNS_BSY) {
            s.r().init = st; tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT); accept(false); disconnect(); sim.ev("%02x busy %02x", s.addr, st);
            if (st & ~SNS_BSY) { s.log.pop_back(); s.st = Sub::PENDING; s.async.push_back(st & ~SNS_BSY); return; }   // earlier status was in the way: again
            s.r().refused = true; s.st = Sub::FREE; return; }
        bool ch0 = c.chain && !(st & (SNS_UNITCHK | SNS_UNITEXP));
        bool more = take_status(s, st, true);
        if (c.cmd == 0 && s.active()) finish(s);          // test I/O: nothing follows
        if ((st & SNS_UNITCHK) && !(st & (SNS_CHNEND | SNS_DEVEND)) && s.active()) finish(s);   // command refused
        if (more || !s.active() || ((st & SNS_CHNEND) && !ch0)) tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT);
        accept((st & SNS_CHNEND) && ch0);
        if (more || !s.active()) { disconnect(); return; }
        if ((st & SNS_CHNEND) && !ch0) tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT);
        cycle();
        connected(s, false);
    }
    void poll() {
        n_poll++; tags |= CHAN_SEL_OUT | CHAN_HLD_OUT; bus_out = 0x100; cycle();
        bool sup = false;
        if (tags & CHAN_SUP_OUT) { for (uint64_t k = sim.choose(6); k && !(tags_in & CHAN_OPR_IN); k--) cycle(); sup = (tags_in & CHAN_OPR_IN) != 0; n_supoll++; tags &= ~CHAN_SUP_OUT; if (!sup) cycle(); }
        for (uint64_t t = now;; cycle()) {
            if (now - t > 20000) sim.fail("poll-stuck", "request in polled, no answer, tags %04x", tags_in);
            if (tags_in & CHAN_OPR_IN) break;
            if (tags_in & CHAN_SEL_OUT) {
                if (++stale > 3) sim.fail("stale-request", "request in is up and no device answers the poll");
                tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT); cycle(); cycle(); return; }
        }
        stale = 0;
        until([&] { return (tags_in & CHAN_ADR_IN) != 0; }, "select-stuck", "polled device does not give its address", 20000);
        hold(delay());
        uint8_t a = sample("address"); auto it = sub.find(a);
        if (it == sub.end()) sim.fail("wrong-address", "polled device answers as %02x, which is not attached", a);
        Sub &s = it->second;
        if (!selector) tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT);
        bus_out = 0x100; tags |= CHAN_CMD_OUT; cycle();
        until([&] { return !(tags_in & CHAN_ADR_IN); }, "command-stuck", "proceed not answered", 20000);
        hold(delay()); tags &= ~CHAN_CMD_OUT; cycle();
        if (sup) {      // answered a poll while status was suppressed: only data may follow
            until([&] { return !(tags_in & CHAN_OPR_IN) || (tags_in & (CHAN_STA_IN | CHAN_SRV_IN)); }, "select-stuck", "polled device neither transfers nor leaves", 20000);
            if (tags_in & CHAN_STA_IN) sim.fail("suppressed-status", "device %02x takes a poll to present status %02x while suppress out is up", s.addr, bus_in & 0xff);
        }
        connected(s, true);
    }
    uint64_t n_supoll = 0;
    void halt(Sub &s) {               // halt I/O to a device that is not connected
        s.halt_req = false; n_halt++; sim.ev("%02x halt", s.addr);
        if (s.active()) s.r().halted = true;
        Sel x = select(s.addr);
        if (x == NODEV) return;
        if (x == SHORTBUSY) { tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT); hold(1 + delay());
            until([&] { return !(tags_in & CHAN_STA_IN); }, "halt-stuck", "busy device does not leave the interface when halted", 20000);
            tags &= ~CHAN_ADR_OUT; cycle(); return; }
        tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT); tags |= CHAN_ADR_OUT; hold(1 + delay());
        until([&] { return (tags_in & (CHAN_OPR_IN | CHAN_ADR_IN)) == 0; }, "halt-stuck", "selected device does not leave the interface when halted", 20000);
        hold(delay()); tags &= ~CHAN_ADR_OUT; cycle();
    }
    // test I/O to a device that has given channel end and is still working
    void tio(Sub &s) {
        s.tio_req = false; sim.ev("%02x test I/O while busy", s.addr); n_busytio++;
        Sel x = select(s.addr);
        if (x == NODEV) sim.fail("not-there", "device %02x does not answer test I/O while working", s.addr);
        if (x == SHORTBUSY) { uint8_t st = sample("status"); if (!(st & SNS_BSY)) sim.fail("short-busy", "device %02x answers selection with status %02x without busy", s.addr, st);
            s.was_busy = true; tags &= ~(CHAN_SUP_OUT | CHAN_ADR_OUT); disconnect(); return; }
        tags &= ~CHAN_SUP_OUT; if (!selector) tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT);
        bus_out = 0x100; tags |= CHAN_CMD_OUT; cycle();
        until([&] { return !(tags_in & CHAN_ADR_IN) || (tags_in & CHAN_STA_IN); }, "command-stuck", "command out not answered", 20000);
        hold(delay()); tags &= ~CHAN_CMD_OUT; cycle();
        until([&] { return (tags_in & CHAN_STA_IN) != 0; }, "initial-status-missing", "no initial status", 20000);
        hold(delay());
        uint8_t st = sample("test I/O status"); sim.ev("%02x test I/O status %02x", s.addr, st);
        if (!(st & SNS_BSY)) { if (!st) sim.fail("idle-while-working", "device %02x answers test I/O as idle though device end is still to come", s.addr); take_status(s, st, false); } else s.was_busy = true;
        tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT); accept(false); disconnect();
    }
    uint64_t n_busytio = 0;
    // one scheduling decision of an idle channel
    void turn() {
        if ((tags & CHAN_SUP_OUT) && now >= sup_until) tags &= ~CHAN_SUP_OUT;
        std::vector<Sub *> p; for (auto &s : sub) if (s.second.st == Sub::PENDING) p.push_back(&s.second);
        for (Sub *s : p) if (s->pc > 0) { hold(delay()); if (!(tags_in & CHAN_OPR_IN)) { start(*s); return; } }   // a chained command follows at once
        for (auto &s : sub) if (s.second.halt_req) { halt(s.second); return; }
        for (auto &s : sub) if (s.second.tio_req) { if (s.second.active() && s.second.r().ce && !s.second.r().de && !chaining(s.second) && !(tags_in & CHAN_OPR_IN)) { tio(s.second); return; } if (!s.second.active()) s.second.tio_req = false; }
        bool req = (tags_in & CHAN_REQ_IN) && !(tags_in & CHAN_OPR_IN);
        if (!p.empty() && (!req || sim.choose(2))) { Sub *s = p[sim.choose((uint32_t)p.size())]; hold(delay()); if (!(tags_in & CHAN_OPR_IN)) start(*s); return; }
        if (req) { hold(delay()); if ((tags_in & (CHAN_REQ_IN | CHAN_OPR_IN)) == CHAN_REQ_IN) poll(); else cycle(); return; }
        cycle();
    }
    Sub &add(uint8_t a) { Sub &s = sub[a]; s.addr = a; return s; }
    void submit(Sub &s, std::vector<Ccw> p) { s.prog = std::move(p); s.pc = 0; s.log.clear(); s.st = Sub::PENDING; s.since = now; s.ce_seen = false; }
    void finish_all(uint64_t lim = 0) {
        uint64_t t = now; if (!lim) lim = limit;
        for (;;) {
            bool busy = false; Sub *w = nullptr; for (auto &s : sub) if (s.second.st != Sub::FREE || s.second.halt_req) { busy = true; w = &s.second; }
            if (!busy) break;
            turn(); if (now - t > lim) sim.fail("never-ends", "command %02x to %02x has not ended after %lu cycles", w->log.empty() ? 0 : w->r().cmd, w->addr, (unsigned long)lim);
        }
    }
    void settle(uint64_t n) {         // idle time: pick up whatever devices present
        uint64_t e = now + n; int q = 0; while (now < e || q < 4) { q = tags_in & (CHAN_REQ_IN | CHAN_OPR_IN | CHAN_SUP_OUT) ? 0 : q + 1; turn(); }
    }
    void run(Sub &s, std::vector<Ccw> p) { submit(s, std::move(p)); finish_all(); }
};
inline Ccw rd(uint8_t cmd, uint32_t n, bool chain = false) { Ccw c; c.cmd = cmd; c.count = n; c.chain = chain; return c; }
inline Ccw wr(uint8_t cmd, std::vector<uint8_t> d, bool chain = false) { Ccw c; c.cmd = cmd; c.count = (uint32_t)d.size(); c.data = std::move(d); c.chain = chain; return c; }
}
