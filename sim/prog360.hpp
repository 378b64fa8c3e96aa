// Seeded System/360 programs: code, data, interruption handlers.
#pragma once
#include "core.hpp"
#include "s360.hpp"
#include <functional>
struct Prog {
    enum { CODE = 0x1000, D0 = 0x2000, DEC = 0x2400, CH = 0x2800, TAB = 0x2c00, PAT = 0x2e00, FP = 0x3000, MARK = 0x3e0, SAVE = 0x300, START = 0x400, PSW0 = 0x3f0, REGS = 0x2f00 };
    std::vector<uint8_t> m; uint32_t size; uint32_t end = 0;
    struct Ins { std::vector<uint8_t> b; int target = -1; bool psw = false, glue = false; };
    std::vector<Ins> code, pool; std::vector<std::pair<size_t, std::vector<uint8_t>>> psws;
    int wInt = 10, wDec = 6, wChr = 6, wFlt = 0, wCtl = 3, bad = 0; bool wantWait = false, keysOn = false, flt = true, ctl = true, tail = false, svcall = false; int svcn = 1, svcp = 0;
    // ---- emitters
    void put(std::vector<uint8_t> b, int target = -1) { Ins i; i.b = b; i.target = target; code.push_back(i); }
    void glue() { code.back().glue = true; }   // no branch may come in between this one and the one before
    static std::vector<uint8_t> RR(int op, int a, int b) { return { (uint8_t)op, (uint8_t)(a << 4 | b) }; }
    static std::vector<uint8_t> RX(int op, int r, int x, int b, int d) { return { (uint8_t)op, (uint8_t)(r << 4 | x), (uint8_t)(b << 4 | d >> 8), (uint8_t)d }; }
    static std::vector<uint8_t> SI(int op, int i, int b, int d) { return { (uint8_t)op, (uint8_t)i, (uint8_t)(b << 4 | d >> 8), (uint8_t)d }; }
    static std::vector<uint8_t> SS(int op, int l, int b1, int d1, int b2, int d2) { return { (uint8_t)op, (uint8_t)l, (uint8_t)(b1 << 4 | d1 >> 8), (uint8_t)d1, (uint8_t)(b2 << 4 | d2 >> 8), (uint8_t)d2 }; }
    uint32_t c(uint32_t n) { return sim.choose(n); }
    int reg() { return c(9); }
    int ereg() { return c(4) * 2 + (bad && c(60) == 0); }
    int freg() { return bad && c(80) == 0 ? (int)c(16) : (int)c(4) * 2; }
    uint32_t ival() { static const uint32_t v[] = {0, 1, 0xffffffff, 0x7fffffff, 0x80000000, 2, 0x80000001, 0x8000, 0xffff8000, 0x7fff, 0x10000}; switch (c(4)) { case 0: return sim.pick(v); case 1: return c(256); case 2: return (uint32_t)-(int)c(256); default: return c(65536) << 16 | c(65536); } }
    // displacement from base 13 (0x2000) in the integer area
    int dw(int al) { int d = c(0x400 - 8); d &= ~(al - 1); if (bad && c(60) == 0) d += c(8); return d; }
    int decl() { return 1 + (c(3) ? c(6) : c(16)); }
    static int decd(int slot, int len) { return DEC - D0 + slot * 16 + 16 - len; }
    static void w32(std::vector<uint8_t> &m, uint32_t a, uint32_t v) { for (int i = 0; i < 4; i++) m[a + i] = v >> (24 - 8 * i); }
    static void w64(std::vector<uint8_t> &m, uint32_t a, uint64_t v) { w32(m, a, v >> 32); w32(m, a + 4, v); }
    uint64_t fval() { uint64_t f = (uint64_t)ival() << 32 | ival(); switch (c(6)) { case 0: return 0; case 1: return f; default: { int e = 0x40 + (int)c(c(3) ? 12 : 60) - (c(2) ? 0 : 8); uint64_t fr = (uint64_t)c(1 << 24) << 32 | ival(); if (c(6) == 0) fr >>= 4 * c(14); if (c(5) == 0) fr &= 0xffffff00000000ULL; return (uint64_t)c(2) << 63 | (uint64_t)(e & 0x7f) << 56 | (fr & 0xffffffffffffffULL); } } }
    void gen_int() {
        static const uint8_t rr[] = {0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1e, 0x1f, 0x1c, 0x1d};
        static const uint8_t rxw[] = {0x50, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x5b, 0x5e, 0x5f, 0x5c, 0x5d}, rxh[] = {0x40, 0x48, 0x49, 0x4a, 0x4b, 0x4c};
        static const uint8_t sh[] = {0x88, 0x89, 0x8a, 0x8b, 0x8c, 0x8d, 0x8e, 0x8f}; int x = c(3) ? 0 : 10;
        switch (sim.weighted({8, 8, 4, 5, 2, 2, 3, 2, 2, 1, 1, 1})) {
        case 0: { int op = sim.pick(rr); put(RR(op, (op & 0xfe) == 0x1c ? ereg() : reg(), reg())); break; }
        case 1: { int op = sim.pick(rxw); put(RX(op, (op & 0xfe) == 0x5c ? ereg() : reg(), x, 13, dw(4))); break; }
        case 2: put(RX(sim.pick(rxh), reg(), x, 13, dw(2))); break;
        case 3: { int op = sim.pick(sh); put(RX(op, op >= 0x8c ? ereg() : reg(), c(16), c(6) ? 0 : (int)c(9), c(3) ? c(64) : c(0x1000))); break; }
        case 4: put(RX(0x41, reg(), c(2) ? 0 : (int)c(16), c(16), c(0x1000))); break;
        case 5: put(RX(c(2) ? 0x42 : 0x43, reg(), x, 13, dw(1))); break;
        case 6: { static const uint8_t si[] = {0x91, 0x92, 0x94, 0x95, 0x96, 0x97}; put(SI(sim.pick(si), c(256), 13, dw(1))); break; }
        case 7: { int a = reg(), b = a + c(9 - a); if (c(2)) put(RX(0x90, c(16), c(16), 13, dw(4))); else put(RX(0x98, a, b, 13, dw(4))); break; }
        case 8: put(RX(0x4e, reg(), 0, 13, dw(8))); break;
        case 9: put(RX(0x4f, reg(), 0, 13, DEC - D0 + 16 * c(64) + 8)); break;
        case 10: put(SI(0x93, 0, 13, dw(1))); break;
        default: put(RX(0x41, 10, 0, 0, c(3) ? c(64) & ~7 : c(256))); break;
        }
    }
    void gen_dec() {
        int l1 = decl(), l2 = decl(), s1 = c(64), s2 = c(64); if (s1 == s2) { if (c(2)) l2 = l1; else s2 = (s1 + 1) & 63; } if (bad && c(40) == 0) { s2 = c(64); s1 = s2; }
        switch (sim.weighted({4, 4, 4, 4, 3, 3, 2, 2, 2, 2})) {
        case 0: put(SS(0xf8, (l1 - 1) << 4 | (l2 - 1), 13, decd(s1, l1), 13, decd(s2, l2))); break;
        case 1: put(SS(0xf9, (l1 - 1) << 4 | (l2 - 1), 13, decd(s1, l1), 13, decd(s2, l2))); break;
        case 2: put(SS(0xfa, (l1 - 1) << 4 | (l2 - 1), 13, decd(s1, l1), 13, decd(s2, l2))); break;
        case 3: put(SS(0xfb, (l1 - 1) << 4 | (l2 - 1), 13, decd(s1, l1), 13, decd(s2, l2))); break;
        case 4: case 5: { bool dv = c(2); if (s1 == s2) s2 = (s1 + 1) & 63; l1 = 2 + c(15); l2 = 1 + c(std::min(l1 - 1, 8)); int l3 = dv ? 1 + c(l1) : 1 + c(l1 - l2);
            if (!(bad && c(20) == 0)) put(SS(0xf8, (l1 - 1) << 4 | (l3 - 1), 13, decd(s1, l1), 13, decd((s1 + 2) & 63, l3)));
            put(SS(dv ? 0xfd : 0xfc, (l1 - 1) << 4 | (l2 - 1), 13, decd(s1, l1), 13, decd(s2, l2))); break; }
        case 6: put(SS(0xf2, (l1 - 1) << 4 | (l2 - 1), 13, c(4) ? CH - D0 + (int)c(0x3f0) : decd(s1, l1), 13, CH - D0 + c(0x3f0))); if (code.back().b[2] == (0xd0 | (DEC - D0) >> 8)) fixdec(s1, l1); break;
        case 7: put(SS(0xf3, (l1 - 1) << 4 | (l2 - 1), 13, CH - D0 + c(0x3f0), 13, decd(s2, l2))); break;
        case 8: put(SS(0xf1, (l1 - 1) << 4 | (l2 - 1), 13, CH - D0 + c(0x3f0), 13, c(2) ? decd(s2, l2) : CH - D0 + (int)c(0x3f0))); break;
        default: { int n = 3 + c(20), p = c(16) * 16; put(SS(0xd2, n - 1, 13, CH - D0 + 0x380, 13, PAT - D0 + p)); put(SS(c(2) ? 0xde : 0xdf, n - 1, 13, CH - D0 + 0x380, 13, decd(s2, 1 + c(8)))); break; }
        }
    }
    // make a slot valid packed decimal again
    void fixdec(int slot, int len) { put(SS(0xf8, 15 << 4 | 0, 13, decd(slot, 16), 13, decd((slot + 1) & 63, 1))); (void)len; }
    void gen_chr() {
        int l = c(4) ? c(20) : c(256); int span = 0x400 - l - 1, d1 = CH - D0 + c(span), d2 = c(3) ? CH - D0 + c(span) : TAB - D0 + c(0x200 - l); if (c(6) == 0) { d2 = d1 + 1; if (c(2)) std::swap(d1, d2); }
        static const uint8_t op[] = {0xd1, 0xd2, 0xd2, 0xd3, 0xd4, 0xd5, 0xd5, 0xd6, 0xd7, 0xdc, 0xdd}; int o = sim.pick(op);
        if (o >= 0xdc) d2 = c(3) ? TAB - D0 : CH - D0 + c(0x300);
        put(SS(o, l, 13, d1, 13, d2));
    }
    void gen_flt() {
        int a = freg(), b = freg(); static const uint8_t rr[] = {0x20, 0x21, 0x22, 0x23, 0x24, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f}; static const uint8_t rx[] = {0x60, 0x68, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f};
        int sht = c(2) ? 0x10 : 0;
        if (c(2)) put(RR(sim.pick(rr) | sht, a, b)); else { int d = c(0x1f0); d &= sht ? ~3 : ~7; if (bad && c(60) == 0) d |= 2; put(RX(sim.pick(rx) | sht, a, 0, 14, d)); }
    }
    void lpsw_next(int mask, int key, int amwp, int pm) { Ins i; i.b = RX(0x82, 0, 0, 0, 0); i.psw = true; i.target = (int)code.size() + 1; code.push_back(i); std::vector<uint8_t> p(8, 0); p[0] = mask; p[1] = key << 4 | amwp; p[4] = c(4) << 4 | pm; psws.push_back({ code.size() - 1, p }); }
    int curmask = 1;
    void gen_ctl() {
        switch (sim.weighted({6, 5, 2, 2, 2, 2, ctl ? 2 : 0, ctl ? 2 : 0, wantWait ? 2 : 0, keysOn ? 2 : 0, keysOn ? 1 : 0, 2, bad ? 2 : 0})) {
        case 0: put(RX(0x47, c(16), 0, 12, 0), (int)code.size() + 1 + c(5)); break;
        case 1: put(RR(0x05, reg(), 0)); break;
        case 2: put(RX(0x41, 8, 0, 12, 0), (int)code.size() + 2 + c(3)); if (c(2)) put(RR(0x07, c(16), 8)); else put(RR(c(2) ? 0x05 : 0x06, c(8), 8)); glue(); break;
        case 3: put(RX(c(2) ? 0x45 : 0x46, reg(), 0, 12, 0), (int)code.size() + 1 + c(4)); break;
        case 4: put(RX(c(2) ? 0x86 : 0x87, reg(), c(9), 12, 0), (int)code.size() + 1 + c(4)); break;
        case 5: put(RR(0x04, reg(), 0)); break;
        case 6: put(SI(0x80, 0, 13, dw(1))); break;
        case 7: lpsw_next(c(3) ? 1 : 0, keysOn && c(2) ? 1 + c(2) : 0, (c(4) == 0 ? 8 : 0) | (c(6) == 0 ? 1 : 0), c(16)); break;
        case 8: lpsw_next(1, 0, 2, c(16)); break;
        case 9: put(RR(0x09, reg(), 11)); break;
        case 10: put(RX(0x41, 8, 0, 0, (c(3)) * 16)); put(RR(0x08, 8, 11)); glue(); break;
        case 11: put(RR(0x0a, c(2), c(15))); break;
        default: { static const uint8_t bo[] = {0x00, 0x01, 0x0b, 0x25, 0x51, 0x53, 0x52, 0x64, 0x81, 0x99, 0xa5, 0xb2, 0xc0, 0xe0, 0xf0, 0xff, 0xd0, 0xf4, 0xf5}; int o = sim.pick(bo); if (c(2)) { std::vector<uint8_t> v = RX(o, 0, 0, 13, dw(8) & ~7); if (o < 0x40) v.resize(2); else if (o >= 0xc0) { v.push_back(0xd0); v.push_back(0); } put(v); }
            else { put(RX(0x58, 8, 0, 13, dw(4))); put(RX(0x56, 8, 0, 14, 0x7fc)); glue(); put(RX(c(2) ? 0x58 : 0x50, reg(), 0, 8, 0)); glue(); } break; }
        }
    }
    void gen_ex() {
        size_t k = code.size(); int sel = c(3); if (sel == 0) gen_chr(); else if (sel == 1) gen_int(); else gen_dec();
        if (code.size() != k + 1) return; Ins t = code.back(); code.pop_back(); if (t.target >= 0) return;
        pool.push_back(t); bool via = c(3); if (via) put(RX(0x41, 8, 0, 0, sel ? 0 : c(20))); put(RX(0x44, via ? 8 : 0, 0, 12, 0), 0x10000 + (int)pool.size() - 1); if (via) glue();
    }
    void make(uint32_t sz, int n) {
        size = sz; m.assign(sz, 0);
        for (uint32_t a = D0; a < DEC; a += 4) w32(m, a, ival());
        for (int s = 0; s < 64; s++) { int dg = 1 + c(c(3) ? 8 : 31); for (int i = 0; i < 31; i++) { int v = 31 - i <= dg ? c(10) : 0; if (c(12) == 0 && dg < 31 && i > 20) v = 9; m[DEC + 16 * s + i / 2] |= i & 1 ? v : v << 4; } static const uint8_t sg[] = {0xc, 0xc, 0xd, 0xd, 0xa, 0xb, 0xe, 0xf}; m[DEC + 16 * s + 15] |= sim.pick(sg); if (bad && c(8) == 0) { int n = 31 - c(8); uint8_t &x = m[DEC + 16 * s + n / 2]; int v = n == 31 ? c(10) : 10 + c(6); x = n & 1 ? (x & 0xf0) | v : (x & 0x0f) | v << 4; } }
        for (uint32_t a = CH; a < CH + 0x400; a++) m[a] = c(4) ? 0xf0 + c(10) : c(256);
        for (int i = 0; i < 256; i++) { m[TAB + i] = c(3) == 0 ? 0 : c(256); m[TAB + 256 + i] = c(8) ? 0 : c(256); }
        for (uint32_t a = PAT; a < PAT + 0x100; a++) { static const uint8_t p[] = {0x20, 0x20, 0x20, 0x20, 0x20, 0x21, 0x6b, 0x4b, 0x22, 0x40, 0x60, 0x5c}; m[a] = sim.pick(p); if ((a & 15) == 0 && c(6)) m[a] = c(2) ? 0x40 : 0x5c; }
        for (uint32_t a = FP; a < FP + 0x200; a += 8) w64(m, a, fval());
        w32(m, FP + 0x7f8, 7); w32(m, FP + 0x7fc, size);                  // an address just outside storage, ored in
        for (int i = 0; i < 9; i++) w32(m, REGS + 4 * i, ival());
        w32(m, REGS + 36, 0); w32(m, REGS + 40, 0); w32(m, REGS + 44, 0x2800); w32(m, REGS + 48, CODE); w32(m, REGS + 52, D0); w32(m, REGS + 56, FP); w32(m, REGS + 60, 0x3800);
        // handlers
        struct { int at, oldp, newp, kind; } hd[] = {{0x200, 24, 88, 1}, {0x220, 32, 96, 2}, {0x240, 40, 104, 3}, {0x260, 48, 112, 4}, {0x280, 56, 120, 5}};
        for (auto &h : hd) { std::vector<uint8_t> b; auto add = [&](std::vector<uint8_t> v) { b.insert(b.end(), v.begin(), v.end()); }; add(RX(0x90, 0, 15, 0, SAVE)); add(SI(0x94, 0xfd, 0, h.oldp + 1)); add(SI(0x92, h.kind, 0, MARK)); add(RX(0x82, 0, 0, 0, h.oldp)); for (size_t i = 0; i < b.size(); i++) m[h.at + i] = b[i]; w64(m, h.newp, h.at); }
        // start: load registers and PSW
        std::vector<uint8_t> b; auto add = [&](std::vector<uint8_t> v) { b.insert(b.end(), v.begin(), v.end()); };
        add(RX(0x98, 0, 15, 0, 0x7c0)); if (flt) for (int i = 0; i < 8; i += 2) { add(RX(0x68, i, 0, 0, 0x780 + 4 * i)); } add(RX(0x82, 0, 0, 0, PSW0));
        for (int i = 0; i < 64; i++) m[0x7c0 + i] = m[REGS + i]; for (int i = 0; i < 4; i++) w64(m, 0x780 + 8 * i, fval());
        for (size_t i = 0; i < b.size(); i++) m[START + i] = b[i];
        w64(m, PSW0, (uint64_t)1 << 56 | (uint64_t)c(16) << 24 | CODE);
        // body
        int loop = -1;
        while ((int)code.size() < n) {
            if (loop < 0 && c(14) == 0) { put(RX(0x41, 9, 0, 0, 1 + c(5))); loop = code.size(); }
            else if (loop >= 0 && (int)code.size() - loop > 2 + (int)c(10)) { put(RX(0x54, 9, 0, 14, 0x7f8)); put(RX(0x46, 9, 0, 12, 0), loop); glue(); loop = -1; }
            switch (sim.weighted({ wInt, wDec, wChr, wFlt, wCtl, 1 })) { case 0: gen_int(); break; case 1: gen_dec(); break; case 2: gen_chr(); break; case 3: gen_flt(); break; case 4: gen_ctl(); break; default: gen_ex(); } if (svcall && (int)code.size() % svcn == svcp) put(RR(0x0a, 0, 1));
        }
        for (auto &i : code) if (i.target < 0x10000) { if (i.target > (int)code.size()) i.target = code.size(); while (i.target > 0 && i.target < (int)code.size() && code[i.target].glue) i.target--; }
        if (tail) { lpsw_next(1, 0, 0, 0); put(RX(0x41, 9, 0, 0, 300)); put(RX(0x46, 9, 0, 12, 0), (int)code.size()); }
        Ins e; e.b = RR(0x0a, 15, 15); code.push_back(e);
        // layout
        std::vector<uint32_t> at; uint32_t a = CODE; for (auto &i : code) { at.push_back(a); a += i.b.size(); } end = a; std::vector<uint32_t> pat; for (auto &i : pool) { pat.push_back(a); a += i.b.size(); } a = (a + 7) & ~7u;
        std::vector<uint32_t> pa(code.size(), 0); for (auto &p : psws) { pa[p.first] = a; std::copy(p.second.begin(), p.second.end(), m.begin() + a); uint32_t t = at[code[p.first].target]; m[a + 5] = t >> 16; m[a + 6] = t >> 8; m[a + 7] = t; a += 8; }
        if (a > D0) sim.fail("harness", "program too long");
        for (size_t i = 0; i < code.size(); i++) { Ins &x = code[i]; if (x.psw) { x.b[2] = 0xc0 | (pa[i] - CODE) >> 8; x.b[3] = pa[i] - CODE; } else if (x.target >= 0) { uint32_t t = (x.target >= 0x10000 ? pat[x.target - 0x10000] : at[x.target]) - CODE; x.b[2] = 0xc0 | t >> 8; x.b[3] = t; } std::copy(x.b.begin(), x.b.end(), m.begin() + at[i]); }
        for (size_t i = 0; i < pool.size(); i++) std::copy(pool[i].b.begin(), pool[i].b.end(), m.begin() + pat[i]);
    }
};
