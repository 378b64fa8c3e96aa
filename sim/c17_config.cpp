// C17: configuration text -> devices.
#include "env.hpp"
#include <string.h>
#include <ctype.h>
extern "C" {
#include "device.h"
#include "conf.h"
#include "tape.h"
#include "card.h"
#undef ONLINE
#include "dasd.h"
#undef ONLINE
#include "model2415.h"
#include "model2844.h"
#include "model1442.h"
#include "cpu.h"
}
namespace {
struct Opt { std::string name; int flags; std::string val; int kind = 0; int num = 0; bool operator==(const Opt &o) const { return name == o.name && flags == o.flags && val == o.val && kind == o.kind && num == o.num; } };
struct Rec { std::string name; int model = 0, flags = 0, dash = 0, slash = 0, addr = -1; std::string str; std::vector<Opt> o; bool rejected = false; };
std::vector<Rec> got;
char *idx_list[] = { (char *)"ALPHA", (char *)"B-2", (char *)"GAMMA", nullptr };
Rec head(struct _option *o, bool addr) {
    Rec r; CHECK(memchr(o->opt, 0, sizeof o->opt), "name-unterminated", "device name without end");
    r.name = o->opt; r.model = o->model & 0xff; r.flags = o->flags; r.dash = o->flags & 1 ? o->dash_num : 0; r.slash = o->flags & 2 ? o->slash_num : 0;
    if (addr) r.addr = o->addr;
    return r;
}
int take(struct _option *o, bool addr) {
    Rec r = head(o, addr); struct _option s; memset(&s, 0xa5, sizeof s); int n = 0;
    while (get_option(&s)) {
        CHECK(++n <= 1100, "options-never-end", "more than 1100 options on one line");
        CHECK(memchr(s.opt, 0, sizeof s.opt), "option-unterminated", "option name without end");
        CHECK(memchr(s.string, 0, sizeof s.string), "string-unterminated", "option value without end");
        Opt p{ s.opt, s.flags, s.string };
        if (p.name[0] == 'N') { p.kind = 1; int v = -77; int rc = get_integer(&s, &v); p.num = rc ? v : -1000000; }
        else if (p.name[0] == 'X') { p.kind = 2; p.num = get_index(&s, idx_list); }
        r.o.push_back(p);
        if (p.name == "" || p.name == "BAD") { r.rejected = true; got.push_back(r); return 0; }
        memset(&s, 0xa5, sizeof s);
    }
    got.push_back(r); return 1;
}
int mk_dev(struct _option *o) { return take(o, true); }
int mk_cpu(struct _option *o) { return take(o, false); }
int mk_log(struct _option *o) {
    Rec r = head(o, false); struct _option s; memset(&s, 0xa5, sizeof s); int rc = get_string(&s);
    if (rc) { CHECK(memchr(s.string, 0, sizeof s.string), "string-unterminated", "value without end"); r.str = s.string; }
    r.rejected = !rc; got.push_back(r); return rc;
}
#define REG(sym, nm, ty, fn) __attribute__((used, section(".devlist"), aligned(1))) struct _control sym = { (char *)nm, ty, 0, fn, nullptr, DEV_LIST_MAGIC };
}
extern "C" { REG(t_9001, "9001", DEV_TYPE, mk_dev) REG(t_9002, "9002", CTRL_TYPE, mk_dev) REG(t_9003, "9003", UNIT_TYPE, mk_dev)
REG(t_prt, "PRINTER1234567890", UNIT_TYPE, mk_dev) REG(t_9050, "9050", CPU_TYPE, mk_cpu) REG(t_str, "SETSTRING", LOG_TYPE, mk_log) }
namespace {
const char *DEVN[] = { "9001", "9002", "9003", "PRINTER1234567890" };
std::string rcase(const std::string &s) { std::string r = s; int m = sim.choose(3); for (auto &c : r) if (m == 1 || (m == 2 && sim.choose(2))) c = tolower(c); return r; }
std::string ws(bool must) { static const char *w[] = { " ", "", "\t", "  ", " \t ", "      " }; std::string s = w[sim.choose(6)]; return must && s.empty() ? " " : s; }
std::string up(std::string s) { for (auto &c : s) c = toupper((unsigned char)c); return s; }
std::string word(int max, bool dash) { static const char a[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-"; int n = 1 + sim.choose(sim.choose(4) ? 6 : max); std::string s; for (int i = 0; i < n; i++) s += a[sim.choose(dash && i ? 37 : 36)]; return s; }
// one value, its text and its meaning
void value(std::string &txt, std::string &val, bool &quoted, int room) {
    int n = sim.choose(5) ? 1 + sim.choose(12) : 1 + sim.choose(room); quoted = sim.choose(2); txt = val = "";
    if (quoted) {
        txt = "\""; if (sim.choose(12) == 0) n = 0;
        for (int i = 0; i < n; i++) { char c = sim.choose(6) == 0 ? '"' : sim.choose(5) == 0 ? " #=,-/\t"[sim.choose(7)] : 33 + sim.choose(94); val += c; txt += c; if (c == '"') { txt += c; sim.probe("doubled-quote"); } }
        txt += "\"";
    } else {
        for (int i = 0; i < n; i++) { char c = 33 + sim.choose(94); if (i == 0) while (c == '"' || c == '#') c = 33 + sim.choose(94); if (c == ',') c = '.'; txt += c; val += toupper(c); }
    }
    if (val.size() > 100) sim.probe("long-value");
}
// a line, the record it must give; kind 0 nothing, 1 record, 2 must fail, 3 unknown name
int make_line(std::string &t, Rec &r, bool bad) {
    t = ws(false); r = Rec(); int k = sim.weighted({ 10, 1, 1, 2, 2, bad ? 2 : 0, 1 });
    if (k == 1) return 0;
    if (k == 2) { t += "# 9001 00E file=\"x\""; return 0; }
    if (k == 6) { t += rcase(word(10, false) + "QQ") + " 00C file=a"; return 3; }
    bool cpu = k == 3;
    if (k == 4) { r.name = "SETSTRING"; bool q; std::string a; t += rcase(r.name) + ws(true); value(a, r.str, q, 300); t += a + (sim.choose(2) ? ws(false) : ""); return 1; }
    r.name = cpu ? "9050" : DEVN[sim.choose(4)];
    std::string nm = r.name; bool numeric = isdigit(r.name[0]);
    if (numeric && sim.choose(2)) { r.model = 'A' + sim.choose(26); nm += (char)r.model; sim.probe("model-letter"); }
    t += rcase(nm);
    int order = sim.choose(2);
    for (int i = 0; i < 2; i++) if ((i ^ order) && sim.choose(2)) { r.flags |= 1; r.dash = sim.choose(sim.choose(3) ? 10 : 100000); t += "-" + std::to_string(r.dash); sim.probe("dash"); }
                               else if (!(i ^ order) && sim.choose(2)) { r.flags |= 2; r.slash = sim.choose(sim.choose(3) ? 10 : 100000); t += "/" + std::to_string(r.slash); }
    if (k == 5 && sim.choose(2) && !cpu) { sim.probe("missing-address"); if (sim.choose(2)) t += ws(true); if (sim.choose(3) == 0) t += " # gone"; return 2; }
    if (!cpu) { r.addr = sim.choose(0x600); char b[8]; static const char *f[] = { "%03x", "%x", "%03X" }; snprintf(b, sizeof b, f[sim.choose(3)], r.addr); t += ws(true) + b; }
    int no = sim.weighted({ 3, 4, 3, 2, 1 }); bool comma_ok = true;
    if (no == 4) no = 4 + sim.choose(12);
    for (int i = 0; i < no; i++) {
        Opt o; o.flags = 0; std::string s; bool q = true;
        int kind = sim.weighted({ 3, 4, 2, 2 }); int room = std::max(1, std::min(400, 880 - (int)t.size()));
        if (kind < 2) { do o.name = word(19, true); while (o.name[0] == 'N' || o.name[0] == 'X' || o.name == "BAD"); }
        if (o.name.size() == 19) sim.probe("longest-name");
        s = rcase(o.name);
        if (kind == 1) { std::string v; o.flags = 1; value(v, o.val, q, room); s += "=" + (sim.choose(8) ? "" : ws(false)) + v; }
        if (kind == 2) { o.kind = 1; o.name = "N" + word(5, false); o.flags = 1; o.num = sim.choose(sim.choose(2) ? 100 : 1000000000); o.val = std::to_string(o.num); if (sim.choose(6) == 0) { o.val += "K"; o.num = -1000000; } s = rcase(o.name) + "=" + o.val; if (sim.choose(6) == 0) { s = rcase(o.name); o.val = ""; o.flags = 0; o.num = -1000000; } q = o.flags == 0; }
        if (kind == 3) { o.kind = 2; o.name = "X" + word(5, false); o.flags = 1; o.num = sim.choose(3); o.val = idx_list[o.num]; if (sim.choose(6) == 0) { o.val += "Z"; o.num = -1; } s = rcase(o.name) + "=" + rcase(o.val); q = false; }
        if (t.size() + s.size() > 960) break;
        bool comma = comma_ok && i && sim.choose(4) == 0;
        if (comma) { sim.probe("comma"); t += (sim.choose(2) ? " " : "") + std::string(",") + ws(false); } else t += ws(true);
        t += s; r.o.push_back(o); comma_ok = q;
    }
    if (k == 5) { t += " BAD=1 more"; r.o.push_back({ "BAD", 1, "1" }); r.rejected = true; sim.probe("rejected"); return 2; }
    if (sim.choose(4) == 0) t += " # " + word(19, true) + "=\"";
    else if (sim.choose(4) == 0) t += ws(false);
    return 1;
}
std::string show(const Rec &r) { char b[200]; snprintf(b, sizeof b, "%s model %02x flags %d dash %d slash %d addr %03x", r.name.c_str(), r.model, r.flags, r.dash, r.slash, r.addr); std::string s = b; if (!r.str.empty()) s += " \"" + r.str + "\""; for (auto &o : r.o) s += " " + o.name + (o.flags ? "=" + o.val : "") + (o.kind ? "(" + std::to_string(o.num) + ")" : ""); if (r.rejected) s += " rejected"; return s; }
void same(const Rec &g, const Rec &w, size_t i) {
    CHECK(g.name == w.name && g.model == w.model && g.addr == w.addr && g.str == w.str && g.rejected == w.rejected, "wrong-device", "device %zu is [%s] instead of [%s]", i, show(g).c_str(), show(w).c_str());
    CHECK((g.flags & 3) == (w.flags & 3) && g.dash == w.dash && g.slash == w.slash, "wrong-model-numbers", "device %zu is [%s] instead of [%s]", i, show(g).c_str(), show(w).c_str());
    CHECK(g.o == w.o, "wrong-options", "device %zu is [%s] instead of [%s]", i, show(g).c_str(), show(w).c_str());
}
void hush() { static FILE *n = nullptr; if (!n) { n = fmemopen(nullptr, 65536, "w"); stderr = n; stdout = n; } }
void grammar(bool faults) {
    hush(); sim.step_budget = 2000000;
    std::string text; std::vector<Rec> want; std::vector<std::string> lines; bool fails = false; size_t bytes_ok = 0;
    int nl = 1 + sim.choose(sim.choose(3) ? 6 : 30);
    int eol = sim.choose(3);
    for (int i = 0; i < nl && !fails; i++) {
        std::string t; Rec r; int k = make_line(t, r, true);
        if (t.size() > 1000) { t = "#"; k = 0; }
        lines.push_back(t); sim.ev("line %s", t.c_str());
        if (k == 1 || (k == 2 && r.rejected)) want.push_back(r);
        fails = k == 2; bytes_ok = text.size();
        bool last = i + 1 == nl && sim.choose(3) == 0;
        text += t + (last ? "" : eol == 0 ? "\n" : eol == 1 ? "\r\n" : sim.choose(2) ? "\n" : "\r\n");
    }
    (void)bytes_ok; got.clear(); int rc;
    if (fails && text.back() == 10 && sim.choose(2)) text += "9001 00A after\n";
    if (!faults && sim.choose(3) == 0) {
        rc = 1; for (size_t i = 0; i < lines.size() && rc; i++) { std::vector<char> b(lines[i].begin(), lines[i].end()); if (eol) b.push_back('\r'); if (sim.choose(2)) b.push_back('\n'); b.push_back(0); rc = load_line(b.data()); }
        sim.probe("by-line");
    } else {
        env::put("c.cfg", std::vector<uint8_t>(text.begin(), text.end()));
        if (faults) { static const uint32_t lv[] = { 0, 100, 400, 900 }; env::rates.open_fail = sim.choose(4) ? 0 : 400; env::rates.read_eio = sim.pick(lv); env::rates.short_read = sim.pick(lv); env::rates.eintr = sim.choose(3) ? 0 : 200; env::rates.close_fail = sim.choose(3) ? 0 : 500; env::armed = true; sim.fault_scale = 1; }
        else { env::rates.short_read = sim.choose(2) ? 500 : 0; env::armed = true; sim.fault_scale = 1; }
        rc = load_config((char *)"c.cfg");
        env::armed = false;
    }
    sim.ev("-> %d, %zu devices", rc, got.size());
    bool fired = faults && env::faults_fired;
    CHECK(got.size() <= want.size(), "extra-device", "%zu devices made, %zu described; the last is [%s]", got.size(), want.size(), show(got.back()).c_str());
    for (size_t i = 0; i < got.size(); i++) { same(got[i], want[i], i); sim.state(hashbytes(got[i].name.data(), got[i].name.size(), got[i].o.size() * 131 + got[i].flags * 7 + (got[i].model != 0))); }
    if (rc) CHECK(got.size() == want.size() && !fails, "silent-loss", "loading reported success with %zu of %zu devices%s", got.size(), want.size(), fails ? " and a line that must be refused" : "");
    else CHECK(fails || fired, "refused", "a valid configuration was refused after %zu of %zu devices", got.size(), want.size());
    if (!rc && !fired) CHECK(got.size() == want.size(), "early-stop", "loading stopped after %zu of %zu devices", got.size(), want.size());
    CHECK(env::open_fds == 0, "file-left-open", "the configuration file is still open");
    CHECK(!env::stray_io, "stray-io", "%s", env::stray_what.c_str());
    if (!faults || fired) sim.nontrivial();
    sim.ticks(text.size()); sim.done();
}
void run_grammar() { grammar(false); }
void run_faults() { grammar(true); }
// any bytes at all
void run_any() {
    hush(); sim.step_budget = 2000000; std::string text; int nl = 1 + sim.choose(8);
    for (int i = 0; i < nl; i++) { std::string t; Rec r; make_line(t, r, true); text += t + "\n"; }
    int nm = 1 + sim.choose(8);
    for (int i = 0; i < nm; i++) {
        size_t p = sim.choose(text.size() + 1); int n;
        switch (sim.choose(9)) {
        case 0: if (p < text.size()) text[p] = 1 + sim.choose(255); break;
        case 1: if (p < text.size()) text.erase(p, 1 + sim.choose(6)); break;
        case 2: text.insert(p, 1, "\"\"=,-/# \r\n\t\\;\x80\xff"[sim.choose(15)]); break;
        case 3: n = sim.choose(2) ? 15 + sim.choose(12) : 20 + sim.choose(1100); text.insert(p, n, "aB0-/=\"9fF"[sim.choose(10)]); break;
        case 4: text.resize(p); break;
        case 5: { std::string c = text.substr(p, 1 + sim.choose(40)); text.insert(sim.choose(text.size() + 1), c); break; }
        case 6: { int k = 1 + sim.choose(30); std::string s; while (k--) s += (char)(1 + sim.choose(255)); text.insert(p, s); break; }
        case 7: text.insert(p, " " + std::string(sim.choose(40), "0123456789abcdefABCDEF"[sim.choose(22)]) + " "); break;
        case 8: { static const char *w[] = { "9001-", "9001/", "9002A-3/4-5", "9003 00C,", "9050 X=", "SETSTRING \"", "9001 00A a=\"b\"c", "9001 fff", "9001 600 a", "9001 12345 a", "9050 N1=99999999999999999999", "9050/1/2", "9050;" }; text.insert(p, std::string("\n") + w[sim.choose(13)]); } break;
        }
    }
    for (auto &c : text) if (!c) c = '0';
    bool over = false, toolong = false; for (size_t a = 0; a < text.size();) { size_t e = text.find('\n', a); if (e == std::string::npos) e = text.size(); if (e - a > 1000) over = true; if (e - a > 1023) toolong = true; a = e + 1; }
    got.clear(); int rc;
    env::put("c.cfg", std::vector<uint8_t>(text.begin(), text.end()));
    env::rates.short_read = sim.choose(2) ? 500 : 0; env::armed = true; sim.fault_scale = 1;
    rc = load_config((char *)"c.cfg"); env::armed = false;
    sim.ev("%zu bytes hash %llx -> %d, %zu devices", text.size(), (unsigned long long)hashbytes(text.data(), text.size()), rc, got.size()); sim.note("%s", text.c_str());
    CHECK(env::open_fds == 0, "file-left-open", "the configuration file is still open");
    if (toolong) CHECK(!rc, "overlong-accepted", "a line longer than the buffer was accepted");
    std::string U = up(text);
    for (auto &r : got) {
        CHECK(r.addr < 0x600, "no-such-channel", "device %s was made at address %x, beyond the six channels", r.name.c_str(), r.addr);
        for (auto &o : r.o) { CHECK(U.find(o.name) != std::string::npos, "invented-option", "option %s is nowhere in the text", o.name.c_str()); if (text.find('"') == std::string::npos) CHECK(U.find(o.val) != std::string::npos, "invented-value", "value %s is nowhere in the text", o.val.c_str());
            CHECK(o.val.find('\n') == std::string::npos, "value-spans-lines", "the value of %s runs into the next line", o.name.c_str()); }
        CHECK(r.str.find('\n') == std::string::npos, "value-spans-lines", "a value runs into the next line");
    }
    if (!over) {     // line by line, in buffers of exactly the right size, with the other line ending
        auto first = got; int rc1 = rc; got.clear(); rc = 1; int crlf = sim.choose(2);
        for (size_t a = 0; a < text.size() && rc;) { size_t e = text.find('\n', a); bool nl = e != std::string::npos; if (!nl) e = text.size();
            std::vector<char> b(text.begin() + a, text.begin() + e); if (crlf && nl) b.push_back('\r'); if (nl) b.push_back('\n'); b.push_back(0); a = e + 1; rc = load_line(b.data()); }
        CHECK(rc == rc1 && got.size() == first.size(), "line-endings-matter", "as a file: %d with %zu devices; line by line%s: %d with %zu", rc1, first.size(), crlf ? " with CR LF" : "", rc, got.size());
        for (size_t i = 0; i < got.size(); i++) same(got[i], first[i], i);
    } else { sim.probe("long-line"); }
    for (auto &r : got) sim.state(hashbytes(r.name.data(), r.name.size(), r.o.size() * 131 + r.flags * 7 + (r.model != 0) + r.addr * 1000));
    sim.fault_fired("damaged-text"); sim.nontrivial(); sim.ticks(text.size()); sim.done();
}
}
#include "conf_real.hpp"
Property property = { "C17", { { "described-devices", run_grammar, 8000, 400000, "bytes" }, { "read-faults", run_faults, 6000, 300000, "bytes" }, { "any-bytes", run_any, 8000, 400000, "bytes" }, REAL_SCENARIOS },
  "a run is one configuration text: generated with a known meaning (device names, model letters, numbers, addresses, options, quoting, comments, line ends), or damaged by seeded edits, read through the simulated file system with short reads, read errors and allocation failures; non-trivial: texts without faults, and faulty ones in which a fault fired",
  "hash of (device name, number of options, model parts present)",
  { "src/conf.c", "src/logger.c", "device creation in src/model1442, model1443, model2415, model2844, model1052, model2030, model2050", "src/device/device.c, card.c, tape.c, dasd.c" },
  { "host file system (in-memory, faulting)", "SDL, panel widgets and sockets (inert)" },
  { "text holds no NUL byte", "unquoted values hold no comma" },
  { "doubled-quote", "long-value", "model-letter", "dash", "missing-address", "rejected", "comma", "by-line", "long-line", "longest-name" REAL_PROBES }, 35, 800 };
