// C05: disk volumes.  The harness is the control unit: it turns the packs one
// byte time at a time, seeks, selects heads, and reads and writes through the
// gates exactly as the 2844 microcode does; a model of the volume (records per
// track) says what must come back and what the image must hold.
#include "core.hpp"
#include "env.hpp"
#include <string.h>
#include <map>
#include <algorithm>
extern "C" {
#include "event.h"
#include "dasd.h"
#include "xlat.h"
}
namespace {
struct Geo { const char *name; int cyl, heads, bpt, dev, g1, g2, g4, sync; int tsize; };
const Geo geo[] = { {"2314", 202, 20, 7294, 0x14, 36, 18, 73, 5, 7680}, {"2311", 203, 10, 3717, 0x11, 36, 36, 36, 6, 4096}, {"2303", 80, 10, 4984, 0x03, 72, 36, 36, 6, 5120} };
typedef std::vector<uint8_t> Bytes;
struct Rec { uint8_t cnt[8]; Bytes key, data; };
struct Track { uint8_t ha[5]; std::vector<Rec> r; };
Bytes base[3];                                   // freshly formatted volumes (reference)
const uint8_t ipl1[28] = {0xC9,0xD7,0xD3,0xF1,0,6,0,0,0,0,0,0x0F,3,0,0,0,0,0,0,1,0,0,0,0,0,0,0,0};
void put_rec(Bytes &b, size_t &p, int c, int h, int r, const Bytes &key, const Bytes &data) {
    uint8_t x[8] = {(uint8_t)(c >> 8), (uint8_t)c, (uint8_t)(h >> 8), (uint8_t)h, (uint8_t)r, (uint8_t)key.size(), (uint8_t)(data.size() >> 8), (uint8_t)data.size()};
    memcpy(&b[p], x, 8); p += 8; if (key.size()) memcpy(&b[p], key.data(), key.size()); p += key.size(); if (data.size()) memcpy(&b[p], data.data(), data.size()); p += data.size();
}
Bytes vol1(const char *label) {                  // the standard volume label
    Bytes v(80, 0x40); static const uint8_t v1[4] = {0xE5, 0xD6, 0xD3, 0xF1}; memcpy(&v[0], v1, 4);
    for (int i = 0; i < 6; i++) v[4 + i] = label ? ascii_to_ebcdic[(int)label[i]] : 0xf1;
    static const uint8_t x[6] = {0x40, 0, 0, 0, 1, 1}; memcpy(&v[10], x, 6);
    static const uint8_t simh[4] = {0xE2, 0xC9, 0xD4, 0xC8}; memcpy(&v[41], simh, 4);
    return v;
}
void mkbase(int t, Bytes &b, bool labels, const char *label) {
    const Geo &g = geo[t]; b.assign(512 + (size_t)g.cyl * g.heads * g.tsize, 0);
    memcpy(&b[0], "CKD_P370", 8); b[8] = g.heads; b[12] = g.tsize; b[13] = g.tsize >> 8; b[16] = g.dev; b[18] = g.cyl;
    for (int c = 0; c < g.cyl; c++) for (int h = 0; h < g.heads; h++) {
        size_t p = 512 + ((size_t)c * g.heads + h) * g.tsize; b[p++] = 0; b[p++] = c >> 8; b[p++] = c; b[p++] = 0; b[p++] = h;
        put_rec(b, p, c, h, 0, {}, Bytes(8, 0));
        if (!c && !h && labels) {
            static const uint8_t i2[4] = {0xC9, 0xD7, 0xD3, 0xF2}, vk[4] = {0xE5, 0xD6, 0xD3, 0xF1};
            put_rec(b, p, c, h, 1, Bytes(ipl1, ipl1 + 4), Bytes(ipl1 + 4, ipl1 + 28)); put_rec(b, p, c, h, 2, Bytes(i2, i2 + 4), Bytes(144, 0)); put_rec(b, p, c, h, 3, Bytes(vk, vk + 4), vol1(label));
        } else put_rec(b, p, c, h, 1, {}, {});
        for (int i = 0; i < 4; i++) b[p++] = 0xff;
    }
}
env::FileP work[4]; const int work_type[4] = {0, 0, 1, 2}; const char *work_name[4] = {"/v/a.ckd", "/v/b.ckd", "/v/c.ckd", "/v/d.ckd"};
struct Init { Init() { for (int t = 0; t < 3; t++) mkbase(t, base[t], true, nullptr); for (int i = 0; i < 4; i++) { work[i] = std::make_shared<env::File>(); work[i]->data = base[work_type[i]]; } } } init_;

bool parse(const uint8_t *p, int tsize, Track &t) {
    memcpy(t.ha, p, 5); int o = 5; t.r.clear();
    while (o + 8 <= tsize) {
        if ((p[o] & p[o + 1] & p[o + 2] & p[o + 3]) == 0xff) return true;
        Rec r; memcpy(r.cnt, p + o, 8); int k = p[o + 5], d = p[o + 6] << 8 | p[o + 7]; o += 8;
        if (o + k + d > tsize) return false;
        r.key.assign(p + o, p + o + k); o += k; r.data.assign(p + o, p + o + d); o += d; t.r.push_back(r);
    }
    return false;
}
bool same(const Track &a, const Track &b) {
    if (memcmp(a.ha, b.ha, 5) || a.r.size() != b.r.size()) return false;
    for (size_t i = 0; i < a.r.size(); i++) if (memcmp(a.r[i].cnt, b.r[i].cnt, 8) || a.r[i].key != b.r[i].key || a.r[i].data != b.r[i].data) return false;
    return true;
}
struct Vol {                                     // a volume and the drive it may be on
    int w; const Geo *g; _dasd_t d; bool on = false, isnew = false; int cyl = 0, head = 0; bool ready = false; bool touched = false;
    std::map<int, Track> mod;                    // cyl*64+head -> what it must hold
    std::map<int, int> unsure;                   // cylinders whose last save failed or was cut short
    bool dirty = false;                          // written since it was loaded
    std::vector<std::pair<size_t, Bytes>> patched;
};
std::vector<Vol *> vols;
Track track_of(Vol *v, int c, int h) {
    auto it = v->mod.find(c * 64 + h); if (it != v->mod.end()) return it->second;
    Track t; parse(&base[work_type[v->w]][512 + ((size_t)c * v->g->heads + h) * v->g->tsize], v->g->tsize, t); return t;
}
// byte times a track occupies
int length_of(const Geo *g, const Track &t) {
    int x = g->dev == 0x14 ? 2 : 0, n = g->g4 + 1 + 5 + 2 + x;
    for (size_t i = 0; i < t.r.size(); i++) {
        n += (i ? g->g2 : g->g1) + 1 + 1 + 8 + 2 + x; if (t.r[i].key.size()) n += g->g2 + 1 + t.r[i].key.size() + 2 + x; n += g->g2 + 1 + t.r[i].data.size() + 2 + x;
    }
    return n;
}
// byte times the control unit takes to write it
int wlen(const Track &t) { int n = 90; for (auto &x : t.r) n += 26 + 14 + (x.key.size() ? 42 + x.key.size() + 4 : 0) + 42 + x.data.size() + 4; return n; }
Track random_track(Vol *v, int c, int h, int room) {
    Track t; t.ha[0] = 0; t.ha[1] = c >> 8; t.ha[2] = c; t.ha[3] = 0; t.ha[4] = h;
    Rec r0; uint8_t x[8] = {(uint8_t)(c >> 8), (uint8_t)c, 0, (uint8_t)h, 0, 0, 0, 8}; memcpy(r0.cnt, x, 8); r0.data.resize(8); for (auto &b : r0.data) b = sim.byte(); t.r.push_back(r0);
    int n = sim.choose(12);
    for (int i = 1; i <= n; i++) {
        Rec r; memcpy(r.cnt, x, 8); r.cnt[4] = sim.choose(8) ? i : sim.byte(); if (!sim.choose(12)) { r.cnt[1] = sim.byte(); r.cnt[3] = sim.byte(); }
        if (!sim.choose(12)) r.cnt[0] = 0x80;  // overflow record
        static const int kl[] = {0, 0, 1, 4, 8, 44, 255}; int k = sim.pick(kl); int d = 0; switch (sim.choose(6)) { case 0: d = sim.choose(4); break; case 1: d = 80; break; case 2: d = sim.choose(400); break; case 3: d = 256; break; case 4: d = sim.choose(3600); break; default: d = sim.choose(32); }
        r.cnt[5] = k; r.cnt[6] = d >> 8; r.cnt[7] = d; r.key.resize(k); r.data.resize(d);
        uint32_t s = sim.choose(65536); int mode = sim.choose(4); for (auto &b : r.key) { s = s * 1103515245 + 12345; b = s >> 16; } for (auto &b : r.data) { s = s * 1103515245 + 12345; b = mode ? s >> 16 : s >> 30 ? 0xff : 0; }
        t.r.push_back(r); if ((room > 200 ? wlen(t) : length_of(v->g, t)) > v->g->bpt - room) { t.r.pop_back(); break; }
    }
    return t;
}
void raw_track(uint8_t *p, const Track &t) { memcpy(p, t.ha, 5); p += 5; for (auto &r : t.r) { memcpy(p, r.cnt, 8); p += 8; if (r.key.size()) memcpy(p, r.key.data(), r.key.size()); p += r.key.size(); if (r.data.size()) memcpy(p, r.data.data(), r.data.size()); p += r.data.size(); } memset(p, 0xff, 8); }

// ---- the control unit
Vol *selected; bool wgate;
// one byte time: every pack turns
struct Got { int ret; uint8_t data, am, ix; };
Got turn(uint8_t out = 0) {
    Got g = {0, 0, 0, 0};
    for (auto v : vols) {
        uint8_t ix = 0;
        // Every pack moves one byte in 14 steps, as in the 2844.
        for (int i = 0; i < 14; i++) {
            int r = 0; uint8_t data = out, am = 0; ix = 0;
            if (v == selected) {
                if (wgate) r = dasd_write_byte(&v->d, &data, &am, &ix); else r = dasd_read_byte(&v->d, &data, &am, &ix);
                if (r) { g.ret++; g.data = data; g.am = am; }
                if (ix) g.ix = 1;
            } else dasd_step(&v->d, &ix);
        }
    }
    sim.step(); sim.ticks();
    return g;
}
void deselect(Vol *v) { selected = nullptr; dasd_settags(&v->d, 0x81, 0x00); turn(); }
void select_read(Vol *v) { dasd_settags(&v->d, 0x81, 0x44); selected = v; wgate = false; }
void gate_write() { wgate = true; dasd_settags(&selected->d, 0x81, 0x84); }
void idle(int n) { while (n--) turn(); }

struct El { uint8_t data, am; bool any; int rec, field, off; };  // field: 0 HA 1 count 2 key 3 data
std::vector<El> stream(Vol *v, const Track &t) {
    std::vector<El> s; bool b = v->g->dev == 0x14;
    auto sync = [&](uint8_t m, int rec, int f) { s.push_back({b ? m : (uint8_t)6, (uint8_t)b, false, rec, f, -1}); };
    auto tail = [&](uint8_t c0, uint8_t c1, bool any) { s.push_back({c0, 0, any, -1, 9, 0}); s.push_back({c1, 0, any, -1, 9, 1}); if (b) { s.push_back({1, 0, false, -1, 9, 2}); s.push_back({0xff, 0, false, -1, 9, 3}); } };
    uint8_t c[2] = {0xff, 0xff};
    sync(5, -1, 0); for (int i = 0; i < 5; i++) { c[(i + 1) & 1] ^= t.ha[i]; s.push_back({t.ha[i], 0, false, -1, 0, i}); } tail(c[0], c[1], false);
    for (size_t r = 0; r < t.r.size(); r++) {
        const Rec &x = t.r[r]; sync(r ? 6 : 3, r, 1); c[0] = c[1] = 0xff;
        uint8_t fl = 0; if (r) { if (x.cnt[0] & 0x80) fl |= 0x40; if (r & 1) fl |= 0x80; c[1] ^= fl; }
        s.push_back({fl, 0, false, (int)r, 1, -2});
        for (int i = 0; i < 8; i++) { uint8_t y = x.cnt[i]; if (r && !i) y &= 0x7f; c[i & 1] ^= y; s.push_back({y, 0, false, (int)r, 1, i}); } tail(c[0], c[1], false);
        if (x.key.size()) { sync(2, r, 2); c[0] = c[1] = 0xff; for (size_t i = 0; i < x.key.size(); i++) { c[i & 1] ^= x.key[i]; s.push_back({x.key[i], 0, false, (int)r, 2, (int)i}); } tail(c[0], c[1], false); }
        sync(1, r, 3); c[0] = c[1] = 0xff; for (size_t i = 0; i < x.data.size(); i++) { c[i & 1] ^= x.data[i]; s.push_back({x.data[i], 0, false, (int)r, 3, (int)i}); } tail(c[0], c[1], false);
    }
    return s;
}
bool fits(const Got &g, const El &e) { return g.data == e.data && g.am == e.am; }
const char *where(const El &e) { static char b[64]; static const char *f[] = {"home address", "count", "key", "data"}; snprintf(b, sizeof b, "record %d %s %d", e.rec, e.field < 4 ? f[e.field] : "check", e.off); return b; }
// wait for the index with the drive selected
void to_index(Vol *v) { int n = 0; Got g; do { g = turn(); CHECK(++n < v->g->bpt * 2, "no-index", "%s: no index in two revolutions", work_name[v->w]); } while (!g.ix); }
// from the index, read to element `upto` of the stream checking each byte
size_t follow(Vol *v, const std::vector<El> &s, size_t upto) {
    size_t k = 0; int n = 0;
    while (k < upto) {
        Got g = turn(); CHECK(++n < v->g->bpt * 2, "read-never-ends", "%s cyl %d head %d: no more data before %s", work_name[v->w], v->cyl, v->head, where(s[k]));
        CHECK(g.ret <= 1, "byte-rate", "more than one byte in a byte time");
        if (!g.ret) continue;
        CHECK(fits(g, s[k]), "read-wrong", "%s cyl %d head %d %s reads %02x am %d, must be %02x am %d", work_name[v->w], v->cyl, v->head, where(s[k]), g.data, g.am, s[k].data, s[k].am);
        k++;
    }
    return k;
}
void read_track(Vol *v) {
    Track t = track_of(v, v->cyl, v->head); auto s = stream(v, t);
    select_read(v); to_index(v); follow(v, s, s.size());
    // nothing else until the index comes round
    int n = 0; for (;;) { Got g = turn(); if (g.ix) break; CHECK(!g.ret, "read-extra", "%s cyl %d head %d: byte %02x after the last record", work_name[v->w], v->cyl, v->head, g.data); CHECK(++n < v->g->bpt * 2, "no-index", "no index"); }
    CHECK(dasd_check_attn(&v->d) == 0, "attn-stuck", "attention not reset by the read gate");
    deselect(v); sim.probe("track-read");
}
// select at any point of the revolution: from the first address mark on, the
// bytes are those of the track
void read_partial(Vol *v) {
    if (v->g->dev != 0x14) return;
    Track t = track_of(v, v->cyl, v->head); auto s = stream(v, t); std::vector<Got> got; idle(sim.choose(v->g->bpt));
    select_read(v);
    int n = 0; for (;;) { Got g = turn(); if (g.ret) got.push_back(g); if (g.ix) break; CHECK(++n < v->g->bpt * 2, "no-index", "no index"); }
    deselect(v);
    if (got.empty()) return;
    for (size_t k = 0; k < s.size(); k++) {
        if (!s[k].am || s.size() - k != got.size()) continue;
        bool ok = true; uint8_t adj = 0; for (size_t i = 0; i < got.size() && ok; i++) {
            const El &e = s[k + i]; uint8_t want = e.data;
            if (e.field == 1 && e.off == -2) { adj = (got[i].data ^ want) & 0x80; want ^= adj; }     // odd/even of the record number needs a whole revolution
            else if (e.field == 9 && e.off == 1) { want ^= adj; adj = 0; }
            ok = got[i].data == want && got[i].am == e.am; }
        if (ok) { sim.probe("partial-read"); return; }
    }
    sim.fail("partial-read-wrong", "%s cyl %d head %d: selected in mid revolution, %zu bytes (first %02x am %d) came that are not the rest of the track", work_name[v->w], v->cyl, v->head, got.size(), got[0].data, got[0].am);
}
void out(uint8_t b, int n = 1) { while (n--) { Got g = turn(b); CHECK(g.ret == 1, "write-refused", "write byte not taken (%d)", g.ret); } }
bool b14(Vol *v) { return v->g->dev == 0x14; }
void out_tail(Vol *v) { out(0xff); out(0x00); if (b14(v)) out(0x91); }
void out_gap(Vol *v, int a, int z, uint8_t s14) { out(0xff, a); out(0x00, z); out(0xff, 3); out(b14(v) ? s14 : 0x0e); }
// rewrite key and/or data of record r in place
void update_rec(Vol *v) {
    Track t = track_of(v, v->cyl, v->head); if (t.r.empty()) return;
    int r = sim.choose(t.r.size()); Rec &x = t.r[r]; bool key = x.key.size() && sim.choose(2);
    auto s = stream(v, t); size_t k = 0; int f = key || x.key.empty() ? 1 : 2;
    while (k < s.size() && !(s[k].rec == r && s[k].field == f && s[k].off == (f == 1 ? 7 : (int)x.key.size() - 1))) k++;
    k += b14(v) ? 5 : 3;
    select_read(v); to_index(v); follow(v, s, k);
    int gap = 2 + sim.choose(11); while (gap--) { Got g = turn(); CHECK(!g.ret, "read-wrong", "byte in a gap"); }
    gate_write(); v->dirty = v->touched = true;
    if (key) { out_gap(v, 3 + sim.choose(3), 4, 0xa); for (auto &b : x.key) { b = sim.byte(); out(b); } out_tail(v); if (b14(v)) {} out_gap(v, 30 + sim.choose(5), 4, 9); }
    else out_gap(v, 3 + sim.choose(3), 4, 9);
    uint32_t sd = sim.choose(65536); for (auto &b : x.data) { sd = sd * 1103515245 + 12345; b = sd >> 16; out(b); }
    out(0xff); out(0); if (sim.choose(2)) { out(b14(v) ? 0x91 : 0xcc); if (sim.choose(2)) out(0xff); }
    deselect(v); v->mod[v->cyl * 64 + v->head] = t;
    sim.ev("%s update c%d h%d rec %d %s", work_name[v->w], v->cyl, v->head, r, key ? "key+data" : "data"); sim.probe(key ? "update-key" : "update-data");
}
void out_rec(Vol *v, const Rec &x, bool r0) {
    uint8_t fl = 0; uint8_t c0 = x.cnt[0]; if (!r0 && (c0 & 0x80)) { fl = 0x40; c0 &= 0x7f; }
    if (r0) out_gap(v, 17, 4, 0xb); else out_gap(v, 18, 4, 0xe);
    out(fl); out(c0); for (int i = 1; i < 8; i++) out(x.cnt[i]); out_tail(v); if (b14(v)) out(0xff);
    if (x.key.size()) { out_gap(v, 33, 4, 0xa); for (auto b : x.key) out(b); out_tail(v); }
    out_gap(v, 33, 4, 9); for (auto b : x.data) out(b); out(0xff); out(0); if (b14(v)) out(0x91);
}
void pad_to_index(Vol *v) { int n = 0; for (;;) { Got g = turn(0xff); if (g.ix) break; CHECK(++n < v->g->bpt * 2, "no-index", "no index while erasing the rest of the track"); } }
// write the whole track, or everything after record `keep`
void format_track(Vol *v) {
    if (!b14(v)) return;
    Track old = track_of(v, v->cyl, v->head), t = random_track(v, v->cyl, v->head, 300); bool whole = sim.choose(2);
    select_read(v); v->dirty = v->touched = true;
    if (whole || old.r.size() < 1) {
        to_index(v); gate_write(); out_gap(v, 64, 4, 0xd); for (int i = 0; i < 5; i++) out(t.ha[i]); out_tail(v); out(0xff);
        for (size_t i = 0; i < t.r.size(); i++) out_rec(v, t.r[i], i == 0);
        sim.probe("format-track");
    } else {
        int keep = sim.choose(old.r.size()) + 1; auto s = stream(v, old); size_t k = 0, n = 0; for (; k < s.size(); k++) { if (s[k].field == 1 && s[k].off == -1 && s[k].rec == keep) break; }
        to_index(v); follow(v, s, k); gate_write();
        Track nt = old; nt.r.resize(keep); for (size_t i = 1; i < t.r.size(); i++) { nt.r.push_back(t.r[i]); if (wlen(nt) > v->g->bpt - 300) { nt.r.pop_back(); break; } out_rec(v, t.r[i], false); n++; }
        // Nothing written after the kept records: the rest of the track is erased
        t = nt; sim.probe(n ? "write-ckd" : "erase");
    }
    pad_to_index(v); deselect(v); v->mod[v->cyl * 64 + v->head] = t;
    sim.ev("%s format c%d h%d: %zu records", work_name[v->w], v->cyl, v->head, t.r.size());
}
bool faulty() { return env::faults_fired || env::alloc_failures; }
void set_head(Vol *v, int h) {
    if (b14(v)) dasd_settags(&v->d, 0x21, h);
    else { dasd_settags(&v->d, 0x81, 0x10); dasd_settags(&v->d, 0x21, h); dasd_settags(&v->d, 0x21, 0x80); }
    v->head = h;
}
void seek(Vol *v, int c, int h) {
    int cur = dasd_cur_cyl(&v->d); bool recal = c == 0 && sim.choose(3) == 0;
    CHECK(faulty() || cur == v->cyl, "old-address", "%s: drive says cylinder %d, arm is at %d", work_name[v->w], cur, v->cyl);
    uint64_t f0 = env::faults_fired; bool was = v->ready;
    if (c == cur && !recal) { if (!was) { recal = true; c = 0; } else { set_head(v, h); return; } }
    env::armed = true; uint32_t af = env::rates.alloc_fail; env::rates.alloc_fail = 0;
    if (recal) { dasd_settags(&v->d, 0x81, 0x02); v->head = 0; }
    else { dasd_settags(&v->d, 0x41, c); set_head(v, h); dasd_settags(&v->d, 0x11, abs(c - cur)); dasd_settags(&v->d, 0x81, 0x20); }
    CHECK(dasd_check_seek(&v->d), "seek-not-started", "no seek in progress after start");
    CHECK(!(dasd_gettags(&v->d) & 0x80) == (b14(v) == 0), "ready-in-seek", "drive ready (%02x) during a seek", dasd_gettags(&v->d));
    dasd_settags(&v->d, 0x01, 0);
    int n = 0; while (dasd_check_seek(&v->d)) { turn(); advance(); CHECK(++n < 1000, "seek-never-ends", "seek does not end"); }
    env::armed = false; env::rates.alloc_fail = af;
    if (recal) { set_head(v, h); }
    CHECK(dasd_check_attn(&v->d), "no-attention", "no attention at the end of a seek");
    uint8_t tg = dasd_gettags(&v->d); bool rdy = b14(v) ? !(tg & 0x80) : (tg & 0x80) != 0; bool flt = env::faults_fired != f0;
    sim.ev("%s seek %d->%d head %d%s ready %d", work_name[v->w], cur, c, h, recal ? " (recalibrate)" : "", rdy);
    CHECK(rdy || flt, "not-ready", "%s: not ready after a seek with no fault", work_name[v->w]);
    v->ready = rdy; int now = dasd_cur_cyl(&v->d);
    if (rdy) { CHECK(now == c, "seek-wrong", "%s: at cylinder %d after seek to %d", work_name[v->w], now, c); if (c != cur || !was) v->dirty = false; v->cyl = c; }
    else { sim.probe("seek-failed"); if (now == c && c != cur) v->dirty = false; v->cyl = now; }
}
void check_image(Vol *v, int skip_cyl = -1) {
    auto f = env::get(work_name[v->w]); CHECK(f != nullptr, "image-gone", "image gone");
    const Bytes &b = base[work_type[v->w]]; const Geo &g = *v->g;
    CHECK(f->data.size() == b.size(), "image-size", "%s: %zu bytes, must be %zu", work_name[v->w], f->data.size(), b.size());
    CHECK(!memcmp(f->data.data(), b.data(), 512), "header-changed", "%s: header changed", work_name[v->w]);
    size_t cs = (size_t)g.heads * g.tsize;
    for (int c = 0; c < g.cyl; c++) {
        if (c == skip_cyl || v->unsure.count(c)) continue;
        const uint8_t *p = &f->data[512 + c * cs], *q = &b[512 + c * cs]; auto it = v->mod.lower_bound(c * 64);
        if (it == v->mod.end() || it->first >= c * 64 + 64) { if (memcmp(p, q, cs)) { size_t i = 0; while (p[i] == q[i]) i++; sim.fail("image-changed", "%s: cylinder %d head %d byte %zu changed from %02x to %02x though nothing was written there", work_name[v->w], c, (int)(i / g.tsize), i % g.tsize, q[i], p[i]); } continue; }
        for (int h = 0; h < g.heads; h++) {
            auto m = v->mod.find(c * 64 + h);
            if (m == v->mod.end()) { if (memcmp(p + h * g.tsize, q + h * g.tsize, g.tsize)) sim.fail("image-changed", "%s: cylinder %d head %d changed though nothing was written there", work_name[v->w], c, h); continue; }
            Track t; bool ok = parse(p + h * g.tsize, g.tsize, t); CHECK(ok && same(t, m->second), "image-lost-write", "%s: cylinder %d head %d does not hold what was written (%zu records in the image, %zu written)", work_name[v->w], c, h, ok ? t.r.size() : 0, m->second.r.size());
        }
    }
}
// a cylinder whose save was cut short: take what is there, but the tracks that
// were never written must be intact
void adopt(Vol *v) {
    auto f = env::get(work_name[v->w]); const Geo &g = *v->g; const Bytes &b = base[work_type[v->w]];
    for (auto &u : v->unsure) for (int h = 0; h < g.heads; h++) {
        size_t o = 512 + ((size_t)u.first * g.heads + h) * g.tsize; auto it = v->mod.find(u.first * 64 + h); Track t;
        if (it == v->mod.end()) { CHECK(!memcmp(&f->data[o], &b[o], g.tsize), "image-changed", "%s: cylinder %d head %d changed though nothing was written there", work_name[v->w], u.first, h); continue; }
        if (parse(&f->data[o], g.tsize, t) && length_of(v->g, t) < g.bpt - 50) it->second = t; else { it->second = track_of(v, u.first, h); raw_track(&f->data[o], it->second); }
    }
    v->unsure.clear();
}
void patch_image(Vol *v) {                       // what another program left on the pack
    auto f = env::get(work_name[v->w]); int n = sim.choose(6);
    while (n--) { int c = sim.choose(3) ? sim.choose(4) : sim.choose(v->g->cyl), h = sim.choose(v->g->heads); Track t = random_track(v, c, h, 60); raw_track(&f->data[512 + ((size_t)c * v->g->heads + h) * v->g->tsize], t); v->mod[c * 64 + h] = t; }
}
void attach(Vol *v, bool init) {
    auto f = env::get(work_name[v->w]); Bytes hdr; bool had = f != nullptr; uint64_t f0 = env::faults_fired + env::alloc_failures;
    uint64_t wr = env::file_write_bytes;
    env::armed = true; int r = dasd_attach(&v->d, (char *)work_name[v->w], init); env::armed = false;
    bool flt = env::faults_fired + env::alloc_failures != f0;
    sim.ev("%s attach init %d -> %d", work_name[v->w], init, r);
    if (had && !init) CHECK(env::file_write_bytes == wr, "attach-wrote", "%s: attaching wrote %llu bytes to the volume", work_name[v->w], (unsigned long long)(env::file_write_bytes - wr));
    if (!flt) CHECK(r == (had || init ? 1 : r) && (had || init || r != 1), "attach-result", "%s: attach of %s volume returned %d", work_name[v->w], had ? "an existing" : init ? "a new" : "a missing", r);
    if (r != 1) { sim.probe("attach-failed"); CHECK(!(dasd_gettags(&v->d) & 0x40), "online-after-failed-attach", "drive online though attach failed"); v->on = false; return; }
    v->on = v->ready = true; v->cyl = 0; v->dirty = false; v->head = 0;
    CHECK((dasd_gettags(&v->d) & 0x40), "not-online", "not online after attach");
    CHECK((b14(v) ? !(dasd_gettags(&v->d) & 0x80) : dasd_gettags(&v->d) & 0x80), "not-ready", "not ready after attach");
    if (init) { v->mod.clear(); v->unsure.clear(); }
    idle(1 + sim.choose(20));
}
void detach(Vol *v) {
    uint64_t f0 = env::faults_fired; env::armed = true; dasd_detach(&v->d); env::armed = false;
    sim.ev("%s detach", work_name[v->w]);
    if (v->dirty && env::faults_fired != f0) { v->unsure[v->cyl] = 1; sim.probe("save-failed-at-detach"); }
    v->dirty = false; v->on = v->ready = false; adopt(v);
}
void one_op() {
    Vol *v = vols[sim.choose(vols.size())];
    if (!v->on) { attach(v, false); return; }
    switch (sim.weighted({8, 10, 4, 6, 4, 3, 1})) {
    case 0: { int c = sim.choose(4) ? sim.choose(5) : sim.choose(v->g->cyl); if (!v->mod.empty() && sim.choose(2)) { auto it = v->mod.begin(); std::advance(it, sim.choose(v->mod.size())); c = it->first / 64; } int h = sim.choose(std::min(v->g->heads, 16)); for (auto &m : v->mod) if (m.first / 64 == c && sim.choose(2) && (m.first & 63) < 16) { h = m.first & 63; break; } seek(v, c, h); break; }
    case 1: if (v->ready) read_track(v); break;
    case 2: if (v->ready) read_partial(v); break;
    case 3: if (v->ready) update_rec(v); break;
    case 4: if (v->ready) format_track(v); break;
    case 5: idle(sim.choose(3) ? sim.choose(30) : sim.choose(8000)); break;
    default: detach(v); break;
    }
    CHECK(!env::stray_io, "stray-io", "%s", env::stray_what.c_str());
    sim.state(hash64(hash64(v->w * 1000 + v->cyl, v->head), v->mod.size() * 4 + v->dirty * 2 + v->on));
}
void start(int maxv) {
    sim.step_budget = 60000000; init_event(); vols.clear(); selected = nullptr;
    env::open_hook = nullptr;
    int n = 1 + sim.choose(maxv); static const int order[4] = {0, 2, 1, 3}; int rot = sim.choose(3) ? 0 : 1 + sim.choose(3);
    for (int i = 0; i < n; i++) {
        Vol *v = new Vol; memset(&v->d, 0, sizeof v->d); v->w = order[(i + rot) % 4]; v->g = &geo[work_type[v->w]]; dasd_settype(&v->d, (char *)v->g->name);
        env::files[work_name[v->w]] = work[v->w]; vols.push_back(v); patch_image(v); attach(v, false); CHECK(v->on, "attach-result", "attach failed");
    }
}
void finish() {
    env::armed = false; sim.faults_on = false;
    for (auto v : vols) {
        if (v->on && !v->ready) { seek(v, 0, 0); CHECK(v->ready, "never-ready", "%s: with faults over, recalibrate leaves the drive not ready", work_name[v->w]); }
        if (v->on) detach(v);
        check_image(v);
    }
    CHECK(env::open_fds == 0, "descriptor-leak", "%d files open after detach", env::open_fds);
    // attach again: everything is there
    for (auto v : vols) { attach(v, false); CHECK(v->on, "reattach-failed", "cannot attach again"); int n = 0; for (auto &m : v->mod) { if (v->unsure.count(m.first / 64) || (m.first & 63) > 15 || ++n > 3) continue; seek(v, m.first / 64, m.first & 63); read_track(v); } dasd_detach(&v->d); }
    CHECK(!env::stray_io, "stray-io", "%s", env::stray_what.c_str());
}
void run_hist() {
    start(3); int n = 4 + sim.choose(18); for (int i = 0; i < n; i++) one_op();
    for (auto v : vols) if (v->touched) sim.nontrivial();
    finish(); sim.done();
}
void run_faults() {
    start(2); sim.fault_scale = 1;
    static const uint32_t lv[] = {0, 0, 20, 100, 300};
    env::rates.read_eio = sim.pick(lv); env::rates.write_eio = sim.pick(lv); env::rates.enospc = sim.pick(lv); env::rates.short_read = sim.pick(lv); env::rates.short_write = sim.pick(lv);
    env::rates.eintr = sim.pick(lv); env::rates.seek_fail = sim.pick(lv); env::rates.open_fail = sim.pick(lv); env::rates.alloc_fail = sim.pick(lv);
    int n = 6 + sim.choose(24); for (int i = 0; i < n; i++) one_op();
    if (faulty()) sim.nontrivial();
    finish(); sim.done();
}
void run_crash() {
    start(2); static int n, i; n = 6 + sim.choose(24);
    if (sim.choose(3) == 0) { sim.fault_scale = 1; env::rates.short_write = 300; }
    env::crash_at = env::n_syscalls + 1 + sim.choose(24);
    if (setjmp(env::crash_env) == 0) { env::crash_armed = true; for (i = 0; i < n; i++) one_op(); }
    env::armed = false; env::crash_armed = false; sim.faults_on = false; bool died = env::crashed; selected = nullptr;
    if (!died) { finish(); sim.done(); }
    sim.probe("killed"); sim.nontrivial(); sim.ev("killed");
    env::restart(); init_event();
    // what was in memory is lost: the cylinder each drive was changing
    for (auto v : vols) { if (v->dirty) { v->unsure[v->cyl] = 1; } check_image(v); adopt(v); memset(&v->d, 0, sizeof v->d); dasd_settype(&v->d, (char *)v->g->name); v->on = false; v->dirty = false; }
    finish(); sim.done();
}
void run_attach() {
    // volumes that are missing, new, foreign or damaged
    sim.step_budget = 60000000; init_event(); vols.clear(); selected = nullptr;
    int t = 1 + sim.choose(2); if (!sim.choose(6)) t = 0; Vol *v = new Vol; memset(&v->d, 0, sizeof v->d); v->w = t == 0 ? 0 : t + 1; v->g = &geo[t]; vols.push_back(v);
    dasd_settype(&v->d, (char *)v->g->name); char lab[9] = "111111"; bool label = sim.choose(2);
    int kind = sim.choose(6); bool init = sim.choose(2); if (kind == 5) init = false;
    if (sim.choose(2)) { sim.fault_scale = 1; static const uint32_t lv[] = {0, 20, 200}; env::rates.read_eio = sim.pick(lv); env::rates.write_eio = sim.pick(lv) / 20; env::rates.short_read = sim.pick(lv); env::rates.short_write = sim.pick(lv) / 20; env::rates.seek_fail = sim.pick(lv) / 20; env::rates.alloc_fail = sim.pick(lv); env::rates.open_fail = sim.pick(lv); }
    if (!sim.choose(4)) env::disk_limit = sim.choose(8000000);
    if (label) { int n = 1 + sim.choose(6); for (int i = 0; i < 6; i++) lab[i] = i < n ? 'A' + sim.choose(26) : ' '; char x[9]; memcpy(x, lab, 9); x[n] = 0; dasd_setvolid(&v->d, x); }
    Bytes before; auto f = env::FileP();
    if (kind == 1) f = env::put(work_name[v->w], {});
    else if (kind >= 2) { env::files[work_name[v->w]] = work[v->w]; f = work[v->w]; patch_image(v); }
    if (kind == 3) { int n = 1 + sim.choose(20); while (n--) f->data[sim.choose(512)] = sim.byte(); sim.fault_fired("volume-header-damaged"); }
    if (kind == 4) { f->data.resize(sim.choose(3) ? sim.choose(2000) : sim.choose(f->data.size())); sim.fault_fired("volume-truncated"); }
    if (kind == 5) { int o = 1 + sim.choose(2); dasd_settype(&v->d, (char *)geo[(t + o) % 3].name); }   // a pack of another type
    if (f) before = f->data;
    uint64_t wr = env::file_write_bytes; env::armed = true; int r = dasd_attach(&v->d, (char *)work_name[v->w], init); env::armed = false;
    bool flt = faulty(); sim.ev("kind %d init %d faults %d -> %d", kind, init, flt, r); auto now = env::get(work_name[v->w]);
    if (!init && kind != 1) {
        CHECK(env::file_write_bytes == wr && (!f || now->data == before), "attach-wrote", "attach without initialise changed the volume (kind %d)", kind);
        CHECK(kind != 0 || (r != 1 && !now), "attach-missing", "attach of a missing volume returned %d", r);
        if (kind == 2 && !flt) CHECK(r == 1, "attach-result", "attach of a good volume returned %d", r);
    }
    if (kind == 5) {
        // whatever the verdict, the drive must not run outside the pack
        if (r == 1) { uint8_t ix; dasd_settags(&v->d, 0x41, 3); dasd_settags(&v->d, 0x21, 3); dasd_settags(&v->d, 0x11, 3); dasd_settags(&v->d, 0x81, 0x20); for (int i = 0; i < 60; i++) { advance(); dasd_step(&v->d, &ix); } }
        dasd_detach(&v->d); CHECK(now->data == before, "foreign-changed", "a pack of another type was changed"); sim.probe("foreign-pack"); sim.nontrivial(); sim.done();
    }
    if (r == 1) {
        CHECK((dasd_gettags(&v->d) & 0x40), "not-online", "not online after attach");
        if (init || kind == 1) {
            Bytes want; mkbase(t, want, init, label ? lab : nullptr);
            CHECK(now->data.size() >= want.size(), "format-short", "new volume has %zu bytes, must have %zu", now->data.size(), want.size());
            for (size_t i = 0; i < want.size(); i++) CHECK(now->data[i] == want[i], "format-wrong", "new volume differs from a standard empty volume at byte %zu: %02x instead of %02x", i, now->data[i], want[i]);
            if (init) for (int i = 0; i < 6; i++) CHECK(v->d.vol_label[i] == (label ? lab[i] : '1'), "label-wrong", "volume label %s, must be %s", v->d.vol_label, lab);
            sim.probe("formatted");
        }
    } else CHECK(!(dasd_gettags(&v->d) & 0x40), "online-after-failed-attach", "drive online though attach failed");
    if (r != 1) { sim.probe("attach-failed"); }
    sim.faults_on = false; env::disk_limit = -1;
    // a seek on whatever drive is there must not touch anything else
    { uint8_t ix; dasd_settags(&v->d, 0x41, 5); dasd_settags(&v->d, 0x11, 5); dasd_settags(&v->d, 0x81, 0x20); for (int i = 0; i < 60; i++) { advance(); dasd_step(&v->d, &ix); } }
    dasd_detach(&v->d); if (!init && kind != 1 && f) CHECK(now->data == before, "detach-wrote", "detach changed a volume nothing was written to");
    CHECK(!env::stray_io, "stray-io", "%s", env::stray_what.c_str()); CHECK(env::open_fds == 0, "descriptor-leak", "%d files open after detach", env::open_fds);
    if (kind != 2 || init || flt) sim.nontrivial();
    sim.done();
}
}
Property property = { "C05", { { "histories", run_hist, 4000, 200000, "byte times" }, { "storage-faults", run_faults, 4000, 200000, "byte times" }, { "process-kill", run_crash, 2500, 120000, "byte times" }, { "attach", run_attach, 2500, 100000, "byte times" } },
  "a run is a history of seeks, track reads (from the index and from mid revolution), key/data updates, formatting writes, idling, detach and attach on one to three drives turning together, over packs with seeded contents, with storage faults or a process kill; non-trivial: something was written, or a fault or kill hit, or the volume was not a plain good one",
  "hash of (drive, cylinder, head, tracks written, buffer dirty, attached)",
  { "src/device/dasd.c", "src/event.c", "src/device/xlat.c" }, { "2844 control unit (scripted gates and bytes, taken from what its microcode sends)", "host file system (in-memory, faulting)", "logger (counts messages)" },
  { "a kill loses the cylinder in memory but nothing already handed to write()", "tracks are no longer than a revolution", "the control unit drops the gates for a byte time before it moves the arm or changes head, as the microcode does" },
  { "track-read", "partial-read", "update-data", "update-key", "format-track", "write-ckd", "erase", "seek-failed", "attach-failed", "killed", "formatted", "foreign-pack" }, 35, 800 };
