// Reference model of a tape and independent codecs for the image formats.
#pragma once
#include "core.hpp"
#include "env.hpp"
#include <string.h>
extern "C" {
#include "tape.h"
}
struct Rec { bool mark = false; std::vector<uint8_t> d; bool operator==(const Rec &o) const { return mark == o.mark && d == o.d; } };
enum { FMT_TAP = 0, FMT_E11 = 1, FMT_P7B = 2 };
static inline const char *fmtname(int f) { return f == 0 ? "SIMH" : f == 1 ? "E11" : "P7B"; }

static inline size_t enc_size(const Rec &r, int fmt) {
    if (fmt == FMT_P7B) return r.mark ? 1 : r.d.size();
    if (r.mark) return 4;
    return 8 + r.d.size() + (fmt == FMT_TAP ? (r.d.size() & 1) : 0);
}
static inline void enc(std::vector<uint8_t> &o, const Rec &r, int fmt) {
    if (fmt == FMT_P7B) {
        if (r.mark) { o.push_back(0x8f); return; }
        for (size_t i = 0; i < r.d.size(); i++) o.push_back((r.d[i] & 0x7f) | (i == 0 ? 0x80 : 0));
        return;
    }
    auto w32 = [&](uint32_t n) { for (int i = 0; i < 4; i++) o.push_back((n >> (8 * i)) & 0xff); };
    if (r.mark) { w32(0); return; }
    w32(r.d.size()); o.insert(o.end(), r.d.begin(), r.d.end());
    if (fmt == FMT_TAP && (r.d.size() & 1)) o.push_back(0);
    w32(r.d.size());
}
// Decode up to `max` records; returns "" or what is wrong. `used` = bytes consumed.
static inline std::string dec(const std::vector<uint8_t> &b, int fmt, size_t max, std::vector<Rec> &out, size_t &used) {
    size_t p = 0; out.clear();
    while (out.size() < max && p < b.size()) {
        Rec r;
        if (fmt == FMT_P7B) {
            if (!(b[p] & 0x80)) { used = p; return "record does not start with a record marker"; }
            if (b[p] == 0x8f) { r.mark = true; p++; }
            else { r.d.push_back(b[p++] & 0x7f); while (p < b.size() && !(b[p] & 0x80)) r.d.push_back(b[p++]); }
        } else {
            if (p + 4 > b.size()) { used = p; return "file ends inside a record header"; }
            uint32_t n = b[p] | b[p + 1] << 8 | b[p + 2] << 16 | (uint32_t)b[p + 3] << 24;
            if (n == 0xffffffff) break;
            if (n == 0) { r.mark = true; p += 4; }
            else {
                size_t pad = fmt == FMT_TAP ? (n & 1) : 0;
                if (p + 8 + (uint64_t)n + pad > b.size()) { used = p; return "file ends inside a record"; }
                r.d.assign(b.begin() + p + 4, b.begin() + p + 4 + n);
                size_t q = p + 4 + n + pad;
                uint32_t m = b[q] | b[q + 1] << 8 | b[q + 2] << 16 | (uint32_t)b[q + 3] << 24;
                if (m != n) { used = p; return "leading and trailing record lengths differ"; }
                p = q + 4;
            }
        }
        out.push_back(r);
    }
    used = p; return "";
}
static inline Rec gen_rec(int fmt, size_t len, int style) {
    Rec r; r.d.resize(len); uint64_t x = sim.random64() | 1;
    for (size_t i = 0; i < len; i++) {
        uint8_t c;
        if (style == 0) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; c = x >> 24; }
        else if (style == 1) c = (uint8_t)(len + i);
        else c = (x >> 8) & 0xff;
        r.d[i] = fmt == FMT_P7B ? c & 0x7f : c;
    }
    if (fmt == FMT_P7B && r.d[0] == 0x0f) r.d[0] = 0x0e;   // would be a tape mark
    return r;
}
// Record lengths: short, block-sized, or chosen so that the next record header
// lands on or next to a 32 KiB boundary of the image.
static inline size_t gen_len(int fmt, size_t off) {
    switch (sim.weighted({40, 15, 30, 10, 5})) {
    case 0: return 1 + sim.choose(80);
    case 1: { static const int l[] = {80, 512, 1024, 4096, 8192}; return sim.pick(l); }
    case 2: {
        size_t over = fmt == FMT_P7B ? 0 : 8; long left = 32768 - (long)(off % 32768);
        long n = left - (long)over + sim.range(-9, 9);
        if (sim.chance(1, 6)) n += 32768;
        return n > 0 ? n : 1 + sim.choose(12);
    }
    case 3: return 1 + sim.choose(20000);
    default: return 20000 + sim.choose(60000);
    }
}
