// A processor running seeded programs beside the reference interpreter while interruptions arrive at
// seeded cycles. The including file supplies the machine: cb, setb, cf, mach_*.
#pragma once
namespace {
using namespace s360;
std::vector<uint8_t> rm; Cpu ref; Prog P; uint64_t cyc, ext_taken; int key_taken; bool ended; uint64_t key_at, zero_at; bool pend_key, pend_timer; uint32_t tlast; int quiet_timer; bool trace;
static uint32_t cw(uint32_t a) { return cb(a) << 24 | cb(a + 1) << 16 | cb(a + 2) << 8 | cb(a + 3); }
std::string at() { char t[200]; snprintf(t, sizeof t, "instruction %llu, last at %04x (%02x%02x%02x%02x%02x%02x)", (unsigned long long)ref.count, ref.lasta, rm[ref.lasta], rm[ref.lasta + 1], rm[ref.lasta + 2], rm[ref.lasta + 3], rm[ref.lasta + 4], rm[ref.lasta + 5]); return t; }
void rstep() { if (trace) { std::string s; char t[80]; uint32_t a = ref.ia; if (rm[a] >= 0xf0) { uint32_t d = ref.addr(rm[(a + 2) & 0xffff] << 8 | rm[(a + 3) & 0xffff]), e = ref.addr(rm[(a + 4) & 0xffff] << 8 | rm[(a + 5) & 0xffff]); std::string q; char t[8]; for (int i = 0; i <= rm[a+1] >> 4; i++) sprintf(t, "%02x", rm[d+i]), q += t; q += " , "; for (int i = 0; i <= (rm[a+1] & 15); i++) sprintf(t, "%02x", rm[e+i]), q += t; sim.ev("  %s", q.c_str()); } if (rm[a] == 0x44) { uint32_t d = ref.addr(rm[(a + 2) & 0xffff] << 8 | rm[(a + 3) & 0xffff]) & 0xfffe; sim.ev("  EX %02x%02x%02x%02x%02x%02x", rm[d], rm[d+1], rm[d+2], rm[d+3], rm[d+4], rm[d+5]); } if ((rm[a & 0xffff] >> 4) == 6 || (rm[a & 0xffff] >> 4) == 7) { uint32_t d = ref.addr(rm[(a + 2) & 0xffff] << 8 | rm[(a + 3) & 0xffff]) & 0xfff8; sim.ev("  (%04x) = %016llx", d, (unsigned long long)ref.get8(d)); } ref.step(); snprintf(t, sizeof t, "%04x %02x%02x%02x%02x%02x%02x cc%d pm%x", a, rm[a & 0xffff], rm[(a + 1) & 0xffff], rm[(a + 2) & 0xffff], rm[(a + 3) & 0xffff], rm[(a + 4) & 0xffff], rm[(a + 5) & 0xffff], ref.cc, ref.pm); s = t; int o_ = rm[a & 0xffff] >> 4; if (o_ == 2 || o_ == 3 || o_ == 6 || o_ == 7) for (int i = 0; i < 4; i++) { snprintf(t, sizeof t, " %016llx", (unsigned long long)ref.f[i]); s += t; } else for (int i = 0; i < 9; i++) { snprintf(t, sizeof t, " %08x", ref.r[i]); s += t; } sim.ev("%s%s", s.c_str(), ref.icode >= 0 ? " TRAP" : ""); } else ref.step(); }
bool regs_same(const char **what, char *buf) {
    for (int i = 0; i < 16; i++) if (cw(Prog::SAVE + 4 * i) != ref.r[i]) { sprintf(buf, "register %d is %08x instead of %08x", i, cw(Prog::SAVE + 4 * i), ref.r[i]); *what = "register"; return false; }
    for (int i = 0; i < 4 && MACH_FLT; i++) if (cf(i) != ref.f[i]) { sprintf(buf, "floating point register %d is %016llx instead of %016llx", 2 * i, (unsigned long long)cf(i), (unsigned long long)ref.f[i]); *what = "fp-register"; return false; }
    return true;
}
bool mem_same(const char **what, char *buf) {
    for (uint32_t a = 0x400; a < ref.size; a++) if (cb(a) != rm[a]) { sprintf(buf, "storage %04x is %02x instead of %02x", a, cb(a), rm[a]); *what = "storage"; return false; }
    return true;
}
int oldp(int k) { static const int o[] = {0, 24, 32, 40, 48, 56}; return o[k]; }
void sync_low() { for (int a = 24; a < 64; a++) rm[a] = cb(a); for (int i = 0; i < 64; i++) rm[Prog::SAVE + i] = cb(Prog::SAVE + i); rm[Prog::MARK] = 0; }
// the processor is in the handler of kind k: its old PSW and saved registers say where the program was
bool handler(int k) {
    const char *what = ""; char buf[200] = ""; uint32_t o = oldp(k); uint64_t lim = cyc + 10; setb(Prog::MARK, 0);
    if (k == 4) { sim.fail("machine-check", "machine check at %s", at().c_str()); return false; }
    uint32_t code = cb(o + 2) << 8 | cb(o + 3);
    if (k == 2 || k == 3) {
        int old = -1; bool und = false; while (lim--) { CHECK(!ref.wait(), "left-wait", "%s interruption code %02x while the program waits; %s", k == 2 ? "supervisor call" : "program", code, at().c_str()); rstep(); if (ref.loose) { sim.probe("invalid-digits"); return false; } if (ref.svc) { old = 2; break; } if (ref.icode >= 0) { old = 3; und = ref.undef; break; } }
        CHECK(old == k, k == 3 ? "unexpected-program-interruption" : "unexpected-svc", "%s interruption code %02x, old PSW %08x %08x; %s%s", k == 2 ? "supervisor call" : "program", code, cw(o), cw(o + 4), at().c_str(), old < 0 ? " never gets there" : "");
        if (k == 3 && ref.icode == P_EXPUND && (rm[ref.lasta] & 0xef) == 0x24) { int x = rm[ref.lasta + 1] >> 5; ref.f[x] = (ref.f[x] & ~(1ULL << 63)) | (cf(x) & 1ULL << 63); } // the sign is not laid down
        if (k == 3 && ref.icode == P_SPEC && ref.alsoaddr && code == P_ADDR) { ref.icode = code; rm[o + 3] = code; und = true; } // either may be reported
        if (k == 3 && (ref.icode == P_DATA || ref.icode == P_DECDIV) && code == P_PROT && rm[o + 1] >> 4 && (rm[ref.lasta] >= 0xf0 || rm[ref.lasta] == 0x44)) { ref.icode = code; rm[o + 3] = code; und = true; } // bad digits in or for a protected field: either
        if (k == 3) { CHECK(code == (uint32_t)ref.icode, "program-code", "program interruption %d instead of %d; %s", code, ref.icode, at().c_str()); char p[32]; snprintf(p, sizeof p, "program-interruption-%d", code); sim.probe(p); }
        if (k == 3 && code == P_OPER && !MACH_FLT && (rm[ref.lasta] >> 5) == 1 && (ref.lasta & 255) == 254 && cb(o + 6) == (uint8_t)(rm[o + 6] - 1) && cb(o + 7) == rm[o + 7] && cb(o + 5) == rm[o + 5]) sim.fail("fp-rr-page-end", "old PSW at %d is %08x %08x; %s", o, cw(o), cw(o + 4), at().c_str());
        for (int i = 0; i < 8; i++) { uint8_t got = cb(o + i), want = rm[o + i], mask = 0xff; if (i == 1) { want &= 0xfd; } if (und && i == 4) mask = 0x0f; CHECK((got & mask) == (want & mask), "old-psw", "old PSW at %d is %08x %08x instead of %08x %08x; %s", o, cw(o), cw(o + 4), rm[o] << 24 | rm[o + 1] << 16 | rm[o + 2] << 8 | rm[o + 3], rm[o + 4] << 24 | rm[o + 5] << 16 | rm[o + 6] << 8 | rm[o + 7], at().c_str()); }
        if (und) { sim.probe("unpredictable-result"); return false; }
    } else {
        bool enabled = false; bool hit = false; uint32_t ia = cw(o + 4) & 0xffffff; 
        for (;; lim--) {
            if (ref.ia == ia && ref.cc == ((cb(o + 4) >> 4) & 3) && regs_same(&what, buf) && mem_same(&what, buf)) { hit = true; break; }
            if (!lim || ref.wait()) break;
            rstep(); if (ref.loose) { sim.probe("invalid-digits"); return false; } if (ref.svc || ref.icode >= 0) break;
        }
        if (!hit) sim.fail("resume-point", "%s interruption (code %02x) stored PSW %08x %08x, where the program never was in that state: at %04x condition code %d %s; %s", k == 1 ? "external" : "I/O", code, cw(o), cw(o + 4), ref.ia, ref.cc, buf, at().c_str());
        enabled = k == 1 ? ref.mask & 1 : ref.mask & 0xfe;
        CHECK(enabled, "masked-interruption", "external interruption with mask %02x; %s", ref.mask, at().c_str());
        uint64_t want = ref.psw(code) ; uint64_t got = (uint64_t)cw(o) << 32 | cw(o + 4); want &= ~(2ULL << 48); CHECK(((want ^ got) & ~(3ULL << 30)) == 0, "old-psw", "old PSW %016llx instead of %016llx; %s", (unsigned long long)got, (unsigned long long)want, at().c_str());
        if (ref.wait()) sim.probe("left-wait"); 
        if (k == 1) { CHECK(code && !(code & ~0xc0), "external-code", "external interruption code %04x", code);
            if (code & 0x40) { CHECK(key_taken > 0, "external-extra", "external interruption by the key, which was not pressed again"); key_taken--; sim.probe("key-interruption"); ext_taken++; }
            CHECK(key_taken == 0, "key-lost", "the key was reset without an external interruption showing it"); 
            if (code & 0x80) { CHECK(pend_timer, "timer-extra", "timer interruption and the timer did not pass zero"); pend_timer = false; sim.probe("timer-interruption"); ext_taken++; if (sim.choose(4)) { tlast = sim.choose(0x1000); for (int i = 0; i < 4; i++) setb(80 + i, tlast >> (24 - 8 * i)); } } }
        ref.amwp &= ~2; ref.ia = ia; // the handler returns to here
        sim.state(hash64(ia, hash64(ref.cc, code)));
        // FP registers are in step already; the handler puts everything back
        sync_low(); return true;
    }
    if (!regs_same(&what, buf) || !mem_same(&what, buf)) sim.fail(what, "%s after %s", buf, at().c_str());
    bool last = ended = k == 2 && code == 0xff;
    // let the reference return from its handler as the processor will
    sync_low(); ref.lpsw((uint64_t)cw(o) << 32 | cw(o + 4));
    return !last;
}
void body(bool inject) {
    P = Prog(); P.flt = MACH_FLT; trace = getenv("TRACE") != nullptr;
    RATE_SW = 1;
    sim.step_budget = 2000000;
    P.wInt = sim.choose(3) * 5; P.wDec = sim.choose(3) * 4; P.wChr = sim.choose(3) * 4; P.wFlt = sim.choose(3) * 5; if (!P.flt) P.wFlt = 0; P.wCtl = 1 + sim.choose(3) * 3; if (!P.wInt && !P.wDec && !P.wChr && !P.wFlt) P.wInt = 5;
    if (getenv("FLTONLY")) { P.wInt = P.wDec = P.wChr = 0; P.wFlt = 30; P.wCtl = 0; } P.bad = sim.choose(4) == 0; if (!P.flt && P.bad) P.wFlt = sim.choose(2); if (getenv("DECONLY")) { P.wInt = P.wFlt = P.wChr = 0; P.wDec = 30; P.wCtl = 0; P.bad = 1; } P.wantWait = inject && sim.choose(3) == 0; P.keysOn = sim.choose(4) == 0;
    mach_reset();
    P.tail = inject; P.svcall = getenv("SVCALL") != nullptr; if (P.svcall) sscanf(getenv("SVCALL"), "%d,%d", &P.svcn, &P.svcp); P.make(65536, 10 + sim.choose(140)); rm = P.m;
    for (uint32_t a = 0; a < 65536; a++) setb(a, rm[a]);
    ref = Cpu(); ref.flt = MACH_FLT; ref.m = rm.data(); ref.size = 65536; ref.ia = Prog::START;
    for (int i = 0; i < 32; i++) { ref.keys[i] = P.keysOn && i >= 4 && i < 8 ? 0x10 : 0; mach_key(i, ref.keys[i] >> 4); }
    tlast = 0x00000000; if (inject) tlast = sim.choose(3) ? sim.choose(sim.choose(2) ? 0x700 : 0x3000) : sim.choose(2) ? 0x7fffff00 : 0x80000200 + sim.choose(0x400);
    setb(80, tlast >> 24); setb(81, tlast >> 16); setb(82, tlast >> 8); setb(83, tlast); 
    sim.ev("program of %zu instructions, weights %d %d %d %d %d%s%s%s", P.code.size(), P.wInt, P.wDec, P.wChr, P.wFlt, P.wCtl, P.bad ? ", faulty" : "", P.keysOn ? ", keys" : "", inject ? ", interrupted" : "");
    mach_start();
    uint32_t gap = inject ? 1 + sim.choose(sim.choose(2) ? 200 : 3000) : 0; uint64_t next = inject ? 50 + sim.choose(gap + 1) : UINT64_MAX, tick = 0; pend_key = pend_timer = ended = false; key_taken = 0; uint64_t since = 0, restart = 0; bool keynext = false; static uint32_t step_sz; step_sz = 0; quiet_timer = 0;
    for (cyc = 0;; cyc++) {
        sim.step(1); sim.ticks(1);
        if (restart && !mach_manual() && cyc - since > MACH_SLOW * 40000) sim.fail("stop-lost", "processor does not stop");
        if (restart && cyc >= restart && mach_manual()) { restart = 0; START = 1; since = key_at = zero_at = cyc; if (tick) tick = cyc; sim.ev("%llu: start", (unsigned long long)cyc); }
        if (cyc == next && START) next++;
        if (cyc == next && cyc < 100000) { if (!keynext && !restart && sim.choose(8) == 0) { sim.fault_fired("operator stop"); STOP = 1; restart = cyc + 100 + sim.choose(sim.choose(2) ? 400 : 3000); sim.ev("%llu: stop", (unsigned long long)cyc); } else if (keynext || sim.choose(2)) { keynext = false; sim.fault_fired("interrupt key"); INTR = 1; if (!pend_key) key_at = cyc; pend_key = true; sim.ev("%llu: interrupt key", (unsigned long long)cyc); } else if (!tick && !restart && !START) { sim.fault_fired("timer tick"); timer_event = 1; tick = cyc; sim.ev("%llu: timer", (unsigned long long)cyc); } next = cyc + 1 + sim.choose(gap + 1); }
        if (getenv("UTRACE") && cyc >= strtoull(getenv("UTRACE"), 0, 0)) { log_enable = 1; log_level = LOG_MICRO|LOG_REG|LOG_TRACE; } bool pre = mach_keywait(); mach_cycle(); if (pre && !mach_keywait()) { key_taken++; pend_key = false; } START = 0; if ((cyc & 1) == 0) advance();
        uint32_t t = mach_timer() ? cw(80) : tlast; if (t != tlast) { uint32_t dlt = tlast - t; if (!step_sz || !MACH_FIXSTEP) { step_sz = dlt; CHECK(mach_tstep(dlt), "timer-step", "interval timer stepped by %x", dlt); } CHECK(dlt == step_sz && tick, "timer-step", "interval timer went from %08x to %08x", tlast, t); tick = 0; if (!(tlast >> 31) && t >> 31) { pend_timer = true; zero_at = cyc; if (inject && !restart && sim.choose(2)) { next = cyc + 1 + sim.choose(70); keynext = true; } } tlast = t; sim.probe("timer-step"); }
        if (tick && cyc - tick > 20000) sim.fail("timer-lost", "interval timer does not step");
        if (inject && cyc >= 100000 && !restart && mach_wait() && cyc - since > 5000 && !pend_key) { INTR = 1; key_at = cyc; pend_key = true; sim.ev("%llu: interrupt key", (unsigned long long)cyc); }
        int k = cb(Prog::MARK); if (k) { since = cyc; if (!handler(k)) { if (ended && inject && (cb(32) & 1)) { CHECK(!(pend_key && key_at + 1000 < cyc), "key-lost", "no external interruption for the key pressed at %llu", (unsigned long long)key_at); CHECK(!(pend_timer && zero_at + 1000 < cyc), "timer-lost", "no external interruption for the timer which passed zero at %llu", (unsigned long long)zero_at); CHECK(!(tick && tick + 1000 < cyc), "timer-lost", "the interval timer was not stepped"); sim.probe("nothing-lost"); } break; } }
        if (cyc - since > MACH_SLOW * 60000 && trace) for (int i = 0; i < 400; i++) rstep();
        if (cyc - since > MACH_SLOW * 60000) sim.fail("stuck", "no end after %llu cycles at micro address %03x, instruction address %06x; reference %s", (unsigned long long)cyc, mach_micro(), mach_ia(), at().c_str());
    }
    sim.nontrivial(); sim.done();
}
void run_plain() { sim.fault_scale = 0; body(false); }
void run_int() { sim.fault_scale = 1; body(true); }
}
