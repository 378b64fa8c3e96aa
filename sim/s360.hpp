// A small System/360 interpreter written from the Principles of Operation: the
// reference for what a program computes.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
namespace s360 {
enum { P_OPER = 1, P_PRIV, P_EXEC, P_PROT, P_ADDR, P_SPEC, P_DATA, P_FIXOVF, P_FIXDIV, P_DECOVF, P_DECDIV, P_EXPOVF, P_EXPUND, P_SIGNIF, P_FLTDIV };
struct Trap { int code; bool undef; };       // undef: storage, registers and condition code named by the instruction are unpredictable
typedef unsigned __int128 u128; typedef __int128 i128;
struct Cpu {
    uint32_t r[16] = {0}; uint64_t f[4] = {0}; uint8_t *m = nullptr; uint32_t size = 0; uint8_t keys[128] = {0};
    uint8_t mask = 0, key = 0, amwp = 0, pm = 0, cc = 0; uint32_t ia = 0; int ilc = 0; bool decimal = true, flt = true;
    int icode = -1; bool undef = false, alsoaddr = false; uint64_t count = 0; uint32_t lasta = 0;
    // set by each step()
    bool svc = false; int svcn = 0; bool diagnose = false, io = false; uint8_t op = 0; uint32_t ioaddr = 0;
    bool wait() const { return amwp & 2; }
    bool ascii() const { return amwp & 8; }
    // ---- storage
    void chkf(uint32_t a, int n) { for (int i = 0; i < n; i += 1) if (((a + i) & 0xffffff) >= size) throw Trap{P_ADDR, true}; }
    void chks(uint32_t a, int n) { chkf(a, n); if (key) for (int i = 0; i < n; i++) { int k = keys[((a + i) & 0xffffff) >> 11]; if ((k >> 4) != key) throw Trap{P_PROT, true}; } }
    uint32_t b(uint32_t a) { a &= 0xffffff; if (a >= size) throw Trap{P_ADDR, true}; return m[a]; }
    void al(uint32_t a, int n) { if (a & (n - 1)) { a &= 0xffffff; alsoaddr = a + n > size; throw Trap{P_SPEC, false}; } }
    uint32_t h(uint32_t a) { al(a, 2); chkf(a, 2); return b(a) << 8 | b(a + 1); }
    uint32_t w(uint32_t a) { al(a, 4); chkf(a, 4); return h(a) << 16 | h(a + 2); }
    uint64_t d(uint32_t a) { al(a, 8); chkf(a, 8); return (uint64_t)w(a) << 32 | w(a + 4); }
    void sb(uint32_t a, uint32_t v) { chks(a, 1); m[a & 0xffffff] = v; }
    void sh(uint32_t a, uint32_t v) { al(a, 2); chks(a, 2); sb(a, v >> 8); sb(a + 1, v); }
    void sw(uint32_t a, uint32_t v) { al(a, 4); chks(a, 4); sh(a, v >> 16); sh(a + 2, v); }
    void sd(uint32_t a, uint64_t v) { al(a, 8); chks(a, 8); sw(a, v >> 32); sw(a + 4, v); }
    // ---- PSW
    uint64_t psw(int code) const { return (uint64_t)mask << 56 | (uint64_t)key << 52 | (uint64_t)amwp << 48 | (uint64_t)(code & 0xffff) << 32 | (uint64_t)ilc << 30 | (uint64_t)cc << 28 | (uint64_t)pm << 24 | (ia & 0xffffff); }
    void lpsw(uint64_t p) { mask = p >> 56; key = (p >> 52) & 15; amwp = (p >> 48) & 15; cc = (p >> 28) & 3; pm = (p >> 24) & 15; ia = p & 0xffffff; ilc = (p >> 30) & 3; }
    void raw8(uint32_t a, uint64_t v) { for (int i = 0; i < 8; i++) m[a + i] = v >> (56 - 8 * i); }
    uint64_t get8(uint32_t a) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | m[a + i]; return v; }
    void interrupt(uint32_t oldp, uint32_t newp, int code) { raw8(oldp, psw(code)); lpsw(get8(newp)); }
    // ---- helpers
    void setcc(int32_t v) { cc = v == 0 ? 0 : v < 0 ? 1 : 2; }
    void ovf() { cc = 3; if (pm & 8) throw Trap{P_FIXOVF, false}; }
    int32_t add(int32_t a, int32_t c, bool &o) { int64_t s = (int64_t)a + c; o = s != (int32_t)s; return (int32_t)s; }
    uint32_t addr(uint32_t bd) { int bb = (bd >> 12) & 15; return ((bb ? r[bb] : 0) + (bd & 0xfff)) & 0xffffff; }
    void even(int x) { if (x & 1) throw Trap{P_SPEC, false}; }
    int fr(int x) { if (x & 9) throw Trap{P_SPEC, false}; return x >> 1; }
    // ---- decimal
    void getdec(uint32_t a, int len, i128 &v, bool &neg) {     // len bytes
        u128 x = 0; for (int i = 0; i < len; i++) { int c = b(a + i); int hi = c >> 4, lo = c & 15; if (hi > 9) throw Trap{P_DATA, true}; x = x * 10 + hi; if (i < len - 1) { if (lo > 9) throw Trap{P_DATA, true}; x = x * 10 + lo; } else { if (lo < 10) throw Trap{P_DATA, true}; neg = lo == 11 || lo == 13; } }
        v = (i128)x;
    }
    void putdec(uint32_t a, int len, u128 v, bool neg) { chks(a, len); int s = ascii() ? (neg ? 0xb : 0xa) : (neg ? 0xd : 0xc); sb(a + len - 1, (uint32_t)(v % 10) << 4 | s); v /= 10; for (int i = len - 2; i >= 0; i--) { uint32_t lo = v % 10; v /= 10; uint32_t hi = v % 10; v /= 10; sb(a + i, hi << 4 | lo); } }
    static u128 p10(int n) { u128 x = 1; while (n--) x *= 10; return x; }
    void decres(uint32_t a, int len, i128 s, bool signneg) {   // signneg: sign if zero after truncation on overflow
        bool neg = s < 0; u128 mag = neg ? (u128)-s : (u128)s; u128 lim = p10(2 * len - 1); bool o = mag >= lim; u128 t = mag % lim;
        if (mag == 0) neg = false; (void)signneg;
        putdec(a, len, t, neg); cc = mag == 0 ? 0 : neg ? 1 : 2; if (o) { cc = 3; if (pm & 4) throw Trap{P_DECOVF, false}; }
    }
    // ---- floating point
    struct F { bool s; int e; uint64_t f; };  // f: 56 bit fraction
    static F uf(uint64_t x) { return { (bool)(x >> 63), (int)((x >> 56) & 0x7f), x & 0xffffffffffffffULL }; }
    static uint64_t pf(F x) { return (uint64_t)x.s << 63 | (uint64_t)(x.e & 0x7f) << 56 | x.f; }
    uint64_t fin(F x, bool &ou, bool lng) { lost = false;   // exponent range after normalisation
        (void)lng; ou = false;
        if (x.f == 0) return 0;
        if (x.e > 127) { x.e &= 0x7f; ou = true; throw Trap{P_EXPOVF, true}; }
        if (x.e < 0) { if (pm & 2) { und = true; x.e &= 0x7f; return pf(x); } return 0; }
        return pf(x);
    }
    bool und = false, lost = false, loose = false;   // lost: underflow with the mask off; the Model 50 clears the whole register
    // add or compare; lng: 14 digits, else 6 digits in the upper fraction
    uint64_t fadd(uint64_t a, uint64_t bb, bool lng, bool norm, bool cmp) { lost = false;
        int low = lng ? 0 : 32; F x = uf(a), y = uf(bb); x.f >>= low; y.f >>= low; int dig = lng ? 14 : 6;
        u128 fx = (u128)x.f << 4, fy = (u128)y.f << 4; int e = std::max(x.e, y.e);   // one guard digit
        if (x.e < e) { int k = (e - x.e) * 4; fx = k > 64 ? 0 : fx >> k; } if (y.e < e) { int k = (e - y.e) * 4; fy = k > 64 ? 0 : fy >> k; }
        i128 s = (x.s ? -(i128)fx : (i128)fx) + (y.s ? -(i128)fy : (i128)fy); bool neg = s < 0; u128 mag = neg ? (u128)-s : (u128)s;
        if (cmp) { cc = mag == 0 ? 0 : neg ? 1 : 2; return 0; }
        u128 top = (u128)1 << (4 * (dig + 1));
        if (mag >= top) { mag >>= 4; e++; if (e > 127) { cc = neg ? 1 : 2; throw Trap{P_EXPOVF, true}; } }
        else if (mag == 0 || (!norm && mag >> 4 == 0)) { cc = 0; if (pm & 1) { sig = true; return pf({ false, e, 0 }) ; } return 0; }
        else if (norm) while (mag < top >> 4) { mag <<= 4; e--; }
        cc = (mag >> 4) == 0 ? 0 : neg ? 1 : 2; F z{ neg, e, (uint64_t)(mag >> 4) << low };
        if (e < 0) { if (pm & 2) { und = true; return pf(z); } cc = 0; lost = true; return 0; }
        return pf(z);
    }
    bool sig = false;
    static void pre(F &x) { if (!x.f) return; while (!(x.f >> 52)) { x.f <<= 4; x.e--; } }
    uint64_t fmul(uint64_t a, uint64_t bb, bool lng) {
        if (!lng) { a &= ~0xffffffffULL; bb &= ~0xffffffffULL; }
        F x = uf(a), y = uf(bb); if (!x.f || !y.f) return 0; pre(x); pre(y);
        u128 p = (u128)x.f * y.f; int e = x.e + y.e - 64;      // 112 bit fraction
        if (!(p >> 108)) { p <<= 4; e--; }
        F z{ x.s != y.s, e, (uint64_t)(p >> 56) }; bool ou; return fin(z, ou, true);
    }
    uint64_t fdiv(uint64_t a, uint64_t bb, bool lng) {
        if (!lng) { a &= ~0xffffffffULL; bb &= ~0xffffffffULL; }
        F x = uf(a), y = uf(bb); if (!y.f) throw Trap{P_FLTDIV, false}; if (!x.f) return 0; pre(x); pre(y); int e = x.e - y.e + 64;
        int low = lng ? 0 : 32; u128 n = x.f >> low, dd = y.f >> low; if (n >= dd) { e++; n <<= lng ? 52 : 20; } else n <<= lng ? 56 : 24;
        F z{ x.s != y.s, e, (uint64_t)(n / dd) << low }; bool ou; return fin(z, ou, lng);
    }
    void fdone() { if (sig) { sig = false; throw Trap{P_SIGNIF, false}; } if (und) { und = false; throw Trap{P_EXPUND, false}; } }
    void puts(int x, uint64_t v) { f[x] = (v & ~0xffffffffULL) | (f[x] & 0xffffffffULL); loose = lost && (f[x] & 0xffffffffULL); lost = false; }
    bool shortmul_long = true, half_norm = false;
    // ---- one instruction
    bool exec = false;
    void step() { lost = loose = false;
        icode = -1; undef = alsoaddr = false; svc = diagnose = io = false; lasta = ia; count++; sig = und = false; exec = false;
        Cpu *save = nullptr; (void)save;
        try {
            ilc = 1; if (ia & 1) throw Trap{P_SPEC, false};
            uint16_t i0 = b(ia) << 8 | b(ia + 1); int len = (i0 >> 14) == 0 ? 2 : (i0 >> 14) == 3 ? 6 : 4; uint16_t i1 = 0, i2 = 0; ilc = len / 2;
            if (len > 2) i1 = b(ia + 2) << 8 | b(ia + 3); if (len > 4) i2 = b(ia + 4) << 8 | b(ia + 5);
            ia = (ia + len) & 0xffffff; run(i0, i1, i2);
        } catch (Trap &t) { icode = t.code; undef = t.undef; sig = und = false; interrupt(40, 104, t.code); }
    }
    void run(uint16_t i0, uint16_t i1, uint16_t i2) {
        op = i0 >> 8; int r1 = (i0 >> 4) & 15, r2 = i0 & 15; uint32_t a = 0, v; bool o; int32_t s;
        int I = i0 & 0xff;
        auto rx = [&] { return ((r2 ? r[r2] : 0) + addr(i1)) & 0xffffff; };
        auto priv = [&] { if (amwp & 1) throw Trap{P_PRIV, false}; };
        if ((op & 0xc0) == 0x40) a = rx(); else if (op >= 0x80) a = addr(i1);
        uint32_t a2 = addr(i2);
        switch (op) {
        // RR
        case 0x04: if (!r1 && 0) {} cc = (r[r1] >> 28) & 3; pm = (r[r1] >> 24) & 15; break;
        case 0x05: case 0x45: { uint32_t t = r[r2], l = (uint32_t)ilc << 30 | (uint32_t)cc << 28 | (uint32_t)pm << 24 | ia; if (op == 0x45) { r[r1] = l; ia = a; } else { r[r1] = l; if (r2) ia = t & 0xffffff; } break; }
        case 0x06: v = r[r2]; r[r1]--; if (r[r1] && r2) ia = v & 0xffffff; break;
        case 0x46: r[r1]--; if (r[r1]) ia = a; break;
        case 0x07: if ((r1 & (8 >> cc)) && r2) ia = r[r2] & 0xffffff; break;
        case 0x47: if (r1 & (8 >> cc)) ia = a; break;
        case 0x08: priv(); if (r[r2] & 15) throw Trap{P_SPEC, false}; { uint32_t x = r[r2] & 0xffffff; if (x >= size) throw Trap{P_ADDR, false}; keys[x >> 11] = r[r1] & 0xf8; } break;
        case 0x09: priv(); if (r[r2] & 15) throw Trap{P_SPEC, false}; { uint32_t x = r[r2] & 0xffffff; if (x >= size) throw Trap{P_ADDR, false}; r[r1] = (r[r1] & ~0xffu) | (keys[x >> 11] & 0xf8); } break;
        case 0x0a: svc = true; svcn = I; interrupt(32, 96, I); break;
        case 0x10: s = r[r2]; if (s == INT32_MIN) { r[r1] = s; ovf(); } else { r[r1] = s < 0 ? -s : s; setcc(r[r1]); } break;
        case 0x11: s = r[r2]; r[r1] = s > 0 ? -s : s; setcc(r[r1]); break;
        case 0x12: r[r1] = r[r2]; setcc(r[r1]); break;
        case 0x13: s = r[r2]; if (s == INT32_MIN) { r[r1] = s; ovf(); } else { r[r1] = -s; setcc(r[r1]); } break;
        case 0x14: case 0x54: v = op < 0x40 ? r[r2] : w(a); r[r1] &= v; cc = r[r1] != 0; break;
        case 0x15: case 0x55: v = op < 0x40 ? r[r2] : w(a); cc = r[r1] == v ? 0 : r[r1] < v ? 1 : 2; break;
        case 0x16: case 0x56: v = op < 0x40 ? r[r2] : w(a); r[r1] |= v; cc = r[r1] != 0; break;
        case 0x17: case 0x57: v = op < 0x40 ? r[r2] : w(a); r[r1] ^= v; cc = r[r1] != 0; break;
        case 0x18: case 0x58: r[r1] = op < 0x40 ? r[r2] : w(a); break;
        case 0x48: r[r1] = (int16_t)h(a); break;
        case 0x19: case 0x59: case 0x49: { int32_t x = r[r1], y = op == 0x19 ? r[r2] : op == 0x59 ? w(a) : (uint32_t)(int16_t)h(a); cc = x == y ? 0 : x < y ? 1 : 2; break; }
        case 0x1a: case 0x5a: case 0x4a: v = op == 0x1a ? r[r2] : op == 0x5a ? w(a) : (uint32_t)(int16_t)h(a); r[r1] = add(r[r1], v, o); if (o) ovf(); else setcc(r[r1]); break;
        case 0x1b: case 0x5b: case 0x4b: { v = op == 0x1b ? r[r2] : op == 0x5b ? w(a) : (uint32_t)(int16_t)h(a); int64_t x = (int64_t)(int32_t)r[r1] - (int32_t)v; r[r1] = (uint32_t)x; if (x != (int32_t)x) ovf(); else setcc((int32_t)x); break; }
        case 0x1e: case 0x5e: { v = op < 0x40 ? r[r2] : w(a); uint64_t x = (uint64_t)r[r1] + v; r[r1] = x; cc = (x >> 32 ? 2 : 0) | ((uint32_t)x != 0); break; }
        case 0x1f: case 0x5f: { v = op < 0x40 ? r[r2] : w(a); uint64_t x = (uint64_t)r[r1] + (uint32_t)~v + 1; r[r1] = x; cc = (x >> 32 ? 2 : 0) | ((uint32_t)x != 0); break; }
        case 0x1c: case 0x5c: even(r1); { v = op < 0x40 ? r[r2] : w(a); int64_t x = (int64_t)(int32_t)r[r1 + 1] * (int32_t)v; r[r1] = (uint64_t)x >> 32; r[r1 + 1] = x; break; }
        case 0x4c: r[r1] = (uint32_t)((int64_t)(int32_t)r[r1] * (int16_t)h(a)); break;
        case 0x1d: case 0x5d: even(r1); { v = op < 0x40 ? r[r2] : w(a); int64_t x = (int64_t)((uint64_t)r[r1] << 32 | r[r1 + 1]); int32_t dv = v; if (!dv || (dv == -1 && x == INT64_MIN)) throw Trap{P_FIXDIV, false}; int64_t q = x / dv; if (q != (int32_t)q) throw Trap{P_FIXDIV, false}; r[r1] = (uint32_t)(x % dv); r[r1 + 1] = (uint32_t)q; break; }
        // FP long RR
        case 0x20: case 0x21: case 0x22: case 0x23: case 0x30: case 0x31: case 0x32: case 0x33: { fl(); int x = fr(r1), y = fr(r2); bool lng = op < 0x30; uint64_t q = f[y]; uint64_t sb = 1ULL << 63; switch (op & 3) { case 0: q &= ~sb; break; case 1: q |= sb; break; case 2: break; case 3: q ^= sb; } if (lng) f[x] = q; else puts(x, q); bool z = lng ? !(q & 0xffffffffffffffULL) : !(q & 0xffffff00000000ULL); cc = z ? 0 : q >> 63 ? 1 : 2; break; }
        case 0x24: case 0x34: { fl(); int x = fr(r1), y = fr(r2); F z = uf(f[y]); if (op == 0x34) z.f &= ~0xffffffffULL; uint64_t q = 0; int k = op == 0x34 ? 32 : 0;
            if (z.f >> k) { u128 g = (u128)(z.f >> k) << 3; while (g && !(g >> (56 - k))) { g <<= 4; z.e--; } z.f = (uint64_t)(g >> 4) << k; bool ou; q = fin(z, ou, true); } if (op == 0x34) puts(x, q); else f[x] = q; fdone(); break; }
        case 0x28: case 0x68: fl(); { int x = fr(r1); f[x] = op == 0x28 ? f[fr(r2)] : d(a); break; }
        case 0x38: case 0x78: fl(); { int x = fr(r1); puts(x, op == 0x38 ? f[fr(r2)] : (uint64_t)w(a) << 32); break; }
        case 0x29: case 0x69: case 0x39: case 0x79: { fl(); int x = fr(r1); uint64_t y = fo(op, r2, a); fadd(f[x], y ^ (1ULL << 63), op == 0x29 || op == 0x69, true, true); break; }
        case 0x2a: case 0x6a: case 0x2b: case 0x6b: case 0x2e: case 0x6e: case 0x2f: case 0x6f:
        case 0x3a: case 0x7a: case 0x3b: case 0x7b: case 0x3e: case 0x7e: case 0x3f: case 0x7f: {
            fl(); int x = fr(r1); uint64_t y = fo(op, r2, a); bool lng = !(op & 0x10); if (op & 1) y ^= 1ULL << 63;
            uint64_t z = fadd(f[x], y, lng, !(op & 4), false); if (lng) f[x] = z; else puts(x, z); fdone(); break; }
        case 0x2c: case 0x6c: case 0x3c: case 0x7c: { fl(); int x = fr(r1); uint64_t y = fo(op, r2, a); f[x] = fmul(f[x], y, !(op & 0x10)); fdone(); break; }
        case 0x2d: case 0x6d: case 0x3d: case 0x7d: { fl(); int x = fr(r1); uint64_t y = fo(op, r2, a); bool lng = !(op & 0x10); uint64_t z = fdiv(f[x], y, lng); if (lng) f[x] = z; else puts(x, z); fdone(); break; }
        case 0x60: fl(); sd(a, f[fr(r1)]); break;
        case 0x70: fl(); sw(a, f[fr(r1)] >> 32); break;
        // RX
        case 0x40: sh(a, r[r1]); break;
        case 0x41: r[r1] = a; break;
        case 0x42: sb(a, r[r1]); break;
        case 0x43: r[r1] = (r[r1] & ~0xffu) | b(a); break;
        case 0x44: { if (exec) throw Trap{P_EXEC, false}; if (a & 1) throw Trap{P_SPEC, false}; chkf(a, 2); uint16_t j0 = b(a) << 8 | b(a + 1), j1 = 0, j2 = 0; if ((j0 >> 8) == 0x44) throw Trap{P_EXEC, false}; int l = (j0 >> 14) == 0 ? 2 : (j0 >> 14) == 3 ? 6 : 4; if (l > 2) j1 = h(a + 2); if (l > 4) j2 = h(a + 4); if (r1) j0 |= r[r1] & 0xff; exec = true; run(j0, j1, j2); break; }
        case 0x4e: { int32_t x = r[r1]; al(a, 8); u128 mg = x < 0 ? (u128)(-(int64_t)x) : (u128)x; putdec(a, 8, mg, x < 0); break; }
        case 0x4f: { al(a, 8); chkf(a, 8); i128 x; bool n; getdec(a, 8, x, n); if (n) x = -x; r[r1] = (uint32_t)(uint64_t)x; if (x != (int32_t)x) throw Trap{P_FIXDIV, x > (i128)INT64_MAX / 4 }; break; }
        case 0x50: sw(a, r[r1]); break;
        // RS, SI
        case 0x80: priv(); mask = b(a); break;
        case 0x82: priv(); al(a, 8); chkf(a, 8); lpsw(d(a)); break;
        case 0x83: priv(); diagnose = true; break;
        case 0x86: case 0x87: { int32_t inc = r[r2], cmp = r[r2 | 1]; int32_t x = (int32_t)(r[r1] + (uint32_t)inc); r[r1] = x; bool hi = x > cmp; if (op == 0x86 ? hi : !hi) ia = a; break; }
        case 0x88: r[r1] = (a & 63) > 31 ? 0 : r[r1] >> (a & 63); break;
        case 0x89: r[r1] = (a & 63) > 31 ? 0 : r[r1] << (a & 63); break;
        case 0x8a: s = r[r1]; s >>= (a & 63) > 31 ? 31 : a & 63; r[r1] = s; setcc(s); break;
        case 0x8b: { uint32_t x = r[r1], sg = x & 0x80000000u; bool ov = false; for (int i = a & 63; i; i--) { if (((x << 1) ^ (sg)) & 0x80000000u) ov = true; x = (x << 1 & 0x7fffffff) | sg; } r[r1] = x; if (ov) ovf(); else setcc(x); break; }
        case 0x8c: case 0x8d: case 0x8e: case 0x8f: { even(r1); uint64_t x = (uint64_t)r[r1] << 32 | r[r1 + 1]; int n = a & 63; bool ov = false;
            if (op == 0x8c) x >>= n; else if (op == 0x8d) x <<= n; else if (op == 0x8e) x = (int64_t)x >> n;
            else { uint64_t sg = x & (1ULL << 63); for (int i = n; i; i--) { if (((x << 1) ^ sg) >> 63) ov = true; x = (x << 1 & ~(1ULL << 63)) | sg; } }
            r[r1] = x >> 32; r[r1 + 1] = x; if (op == 0x8f && ov) ovf(); else if (op >= 0x8e) cc = x == 0 ? 0 : (int64_t)x < 0 ? 1 : 2; break; }
        case 0x90: al(a, 4); { int n = ((r2 - r1) & 15) + 1; chks(a, 4 * n); for (int i = 0; i < n; i++) sw(a + 4 * i, r[(r1 + i) & 15]); break; }
        case 0x98: al(a, 4); { int n = ((r2 - r1) & 15) + 1; chkf(a, 4 * n); for (int i = 0; i < n; i++) r[(r1 + i) & 15] = w(a + 4 * i); break; }
        case 0x91: v = b(a) & I; cc = v == 0 ? 0 : v == (uint32_t)I ? 3 : 1; break;
        case 0x92: sb(a, I); break;
        case 0x93: v = b(a); chks(a, 1); cc = v >> 7; sb(a, 0xff); break;
        case 0x94: v = b(a) & I; sb(a, v); cc = v != 0; break;
        case 0x95: v = b(a); cc = v == (uint32_t)I ? 0 : v < (uint32_t)I ? 1 : 2; break;
        case 0x96: v = b(a) | I; sb(a, v); cc = v != 0; break;
        case 0x97: v = b(a) ^ I; sb(a, v); cc = v != 0; break;
        case 0x9c: case 0x9d: case 0x9e: case 0x9f: priv(); io = true; ioaddr = a; break;
        // SS
        case 0xd1: case 0xd2: case 0xd3: chkf(a2, I + 1); chks(a, I + 1); for (int i = 0; i <= I; i++) { uint32_t x = b(a2 + i), y = b(a + i); sb(a + i, op == 0xd1 ? (y & 0xf0) | (x & 15) : op == 0xd3 ? (y & 15) | (x & 0xf0) : x); } break;
        case 0xd4: case 0xd6: case 0xd7: chkf(a2, I + 1); chks(a, I + 1); cc = 0; for (int i = 0; i <= I; i++) { uint32_t x = b(a2 + i), y = b(a + i); x = op == 0xd4 ? x & y : op == 0xd6 ? x | y : x ^ y; if (x) cc = 1; sb(a + i, x); } break;
        case 0xd5: cc = 0; for (int i = 0; i <= I; i++) { uint32_t x = b(a + i), y = b(a2 + i); if (x != y) { cc = x < y ? 1 : 2; break; } } break;
        case 0xdc: chks(a, I + 1); for (int i = 0; i <= I; i++) sb(a + i, b(a2 + b(a + i))); break;
        case 0xdd: cc = 0; for (int i = 0; i <= I; i++) { v = b(a2 + b(a + i)); if (v) { r[1] = (r[1] & 0xff000000) | ((a + i) & 0xffffff); r[2] = (r[2] & ~0xffu) | v; cc = i == I ? 2 : 1; break; } } break;
        case 0xde: case 0xdf: { chks(a, I + 1); int fill = b(a), hi = -1; bool S = false; cc = 0; uint32_t src = a2; bool nz = false;
            for (int i = 0; i <= I; i++) { int p = b(a + i), res;
                if (p == 0x20 || p == 0x21) { int dg; bool plus = false;
                    if (hi < 0) { int cur = b(src++); dg = cur >> 4; if (dg > 9) throw Trap{P_DATA, true}; hi = cur & 15; if (hi > 9) { plus = hi != 11 && hi != 13; hi = -1; } }
                    else { dg = hi; hi = -1; }
                    if (dg && !S && op == 0xdf) r[1] = (r[1] & 0xff000000) | ((a + i) & 0xffffff);
                    res = dg || S ? dg | (ascii() ? 0x50 : 0xf0) : fill; if (dg) nz = S = true; if (p == 0x21) S = true; if (plus) S = false;
                } else if (p == 0x22) { res = fill; S = false; nz = false; }
                else res = S ? p : fill;
                sb(a + i, res); }
            cc = !nz ? 0 : S ? 1 : 2; break; }
        case 0xf1: { int l1 = I >> 4, l2 = I & 15; chks(a, l1 + 1); chkf(a2, l2 + 1); int p1 = l1, p2 = l2; uint32_t x = b(a2 + p2), y; sb(a + p1, (b(a + p1) & 15) | (x & 15) << 4); int c = x >> 4; p1--; p2--; while (p1 >= 0) { y = p2 >= 0 ? b(a2 + p2) : 0; p2--; sb(a + p1, c | (y & 15) << 4); c = y >> 4; p1--; } break; }
        case 0xf2: { int l1 = I >> 4, l2 = I & 15; chks(a, l1 + 1); chkf(a2, l2 + 1); uint32_t x = b(a2 + l2); sb(a + l1, x << 4 | x >> 4); int p1 = l1 - 1, p2 = l2 - 1; while (p1 >= 0) { uint32_t lo = 0, hi = 0; if (p2 >= 0) { lo = b(a2 + p2) & 15; p2--; } if (p2 >= 0) { hi = b(a2 + p2) & 15; p2--; } sb(a + p1, hi << 4 | lo); p1--; } break; }
        case 0xf3: { int l1 = I >> 4, l2 = I & 15; chks(a, l1 + 1); chkf(a2, l2 + 1); uint32_t x = b(a2 + l2); int z = ascii() ? 0x50 : 0xf0; sb(a + l1, x << 4 | x >> 4); int p1 = l1 - 1, p2 = l2 - 1; while (p1 >= 0) { uint32_t y = p2 >= 0 ? b(a2 + p2) : 0; p2--; sb(a + p1, z | (y & 15)); p1--; if (p1 >= 0) { sb(a + p1, z | (y >> 4)); p1--; } } break; }
        case 0xf8: { de(); int l1 = (I >> 4) + 1, l2 = (I & 15) + 1; i128 x; bool n; getdec(a2, l2, x, n); u128 lim = p10(2 * l1 - 1); bool ov = (u128)x >= lim; u128 t = (u128)x % lim; bool ng = n && x != 0; putdec(a, l1, t, ng); cc = x == 0 ? 0 : ng ? 1 : 2; if (ov) { cc = 3; if (pm & 4) throw Trap{P_DECOVF, false}; } break; }
        case 0xf9: { de(); int l1 = (I >> 4) + 1, l2 = (I & 15) + 1; i128 x, y; bool n1, n2; loose = l2 > l1; getdec(a, l1, x, n1); getdec(a2, l2, y, n2); loose = false; if (n1) x = -x; if (n2) y = -y; cc = x == y ? 0 : x < y ? 1 : 2; break; }
        case 0xfa: case 0xfb: { de(); int l1 = (I >> 4) + 1, l2 = (I & 15) + 1; i128 x, y; bool n1, n2; getdec(a, l1, x, n1); getdec(a2, l2, y, n2); if (n1) x = -x; if (n2) y = -y; if (op == 0xfb) y = -y; decres(a, l1, x + y, false); break; }
        case 0xfc: { de(); int l1 = (I >> 4) + 1, l2 = (I & 15) + 1; if (l2 > 8 || l2 >= l1) throw Trap{P_SPEC, false}; i128 x, y; bool n1, n2; loose = true; getdec(a, l1, x, n1); getdec(a2, l2, y, n2); loose = false; for (int i = 0; i < l2; i++) if (b(a + i)) throw Trap{P_DATA, true}; putdec(a, l1, (u128)x * (u128)y, n1 != n2); break; }
        case 0xfd: { de(); int l1 = (I >> 4) + 1, l2 = (I & 15) + 1; if (l2 > 8 || l2 >= l1) throw Trap{P_SPEC, false}; i128 x, y; bool n1, n2; loose = true; getdec(a, l1, x, n1); getdec(a2, l2, y, n2); loose = false; if (y == 0 || x / y >= (i128)p10(2 * (l1 - l2) - 1)) throw Trap{P_DECDIV, false}; u128 q = x / y, rm = x % y; chks(a, l1); putdec(a, l1 - l2, q, n1 != n2); putdec(a + l1 - l2, l2, rm, n1); break; }
        default: throw Trap{P_OPER, false};
        }
    }
    void fl() { if (!flt) throw Trap{P_OPER, false}; }
    void de() { if (!decimal) throw Trap{P_OPER, false}; }
    uint64_t fo(int o, int r2, uint32_t a) { if (o < 0x40) return f[fr(r2)]; if (o & 0x10) return (uint64_t)w(a) << 32; return d(a); }
};
}
