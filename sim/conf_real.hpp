// C17, second half: the real devices' creation functions.
#pragma once
#include <sys/socket.h>
#include <algorithm>
#include <errno.h>
extern "C" {
extern struct _device *chan[6]; extern uint32_t *M; extern uint32_t mem_max; extern char *title; extern int log_level, log_enable; extern FILE *log_file;
extern int (*sock_close_hook)(int); extern void (*exit_hook)(int); extern void (*step_cpu)(); void cycle_2030(); void step_2050(); extern int POWER;
}
namespace real {
static int socks = 0; static bool sock_fail = false, bind_fail = false; static uint16_t bound[64]; static int nbound = 0; static std::vector<int> closed;
static int sclose(int fd) { if (fd < 900 || fd >= 1000) return -2; closed.push_back(fd); return 0; }
}
extern "C" {
int __wrap_socket(int, int, int) { if (real::sock_fail) { sim.fault_fired("socket-fail"); errno = EMFILE; return -1; } return 900 + real::socks++; }
int __wrap_bind(int, const struct sockaddr *a, socklen_t) { if (real::bind_fail) { sim.fault_fired("port-in-use"); errno = EADDRINUSE; return -1; } if (real::nbound < 64) real::bound[real::nbound++] = ((const uint8_t *)a)[2] << 8 | ((const uint8_t *)a)[3]; return 0; }
int __wrap_listen(int, int) { return 0; }
int __wrap_setsockopt(int, int, int, const void *, socklen_t) { return 0; }
int __wrap_accept(int, struct sockaddr *, socklen_t *) { return -1; }
int __wrap_select(int, fd_set *, fd_set *, fd_set *, struct timeval *) { return 0; }
ssize_t __wrap_send(int, const void *, size_t n, int) { return n; }
ssize_t __wrap_recv(int, void *, size_t, int) { return 0; }
}
namespace real {
struct Unit { std::string file; bool ring = false, d1600 = true, t9 = true; int fmt = 0; std::string vol; bool attached = false; };
struct Dev { int addr; std::string type; int nunits = 1; bool t7 = false; int cards = 0; std::map<int, Unit> u; int port = 0; std::string file; };
struct World { std::vector<Dev> d; int cpu = 0; long msize = 0; int port = 0; std::string log; int level = 0; bool enable = false; } w;
static std::string cs(const char *s) { std::string r = s; if (sim.choose(3) == 0) for (auto &c : r) c = tolower(c); return r; }
static std::string cmt() { return sim.choose(6) ? "" : " # note=\"1\""; }
static Dev *ctl(int addr) { for (auto &d : w.d) if (((d.addr >> 8) & 7) == ((addr >> 8) & 7) && (d.addr & 0xf8) == (addr & 0xf8)) return &d; return nullptr; }
static int freeaddr(int mask) { return (sim.choose(6) << 8) | (((1 + sim.choose(31)) << 3) & 0xff) | (mask ? 0 : sim.choose(8)); }
static std::string q(const std::string &s) { return "\"" + s + "\""; }
// returns false when the line must be refused
static bool line(std::string &t) {
    char a[16]; t.clear();
    switch (sim.weighted({ 4, 2, 3, 6, 3, 5, 2, 2, 2, 2, 1 })) {
    case 0: {   // card reader punch
        Dev d; d.type = "1442"; d.addr = freeaddr(0); snprintf(a, sizeof a, "%03x", d.addr); t = cs("1442") + " " + a; bool ok = true;
        for (int n = sim.choose(5); n-- && ok;) switch (sim.choose(6)) {
            case 0: case 1: { int k = sim.choose(4); if (k == 3 && sim.choose(2)) { t += cs(" FILE=") + q("missing.deck"); ok = false; sim.probe("missing-deck"); break; } k %= 3; static const char *f[] = { "d0.deck", "d7.deck", "d90.deck" }; static const int c[] = { 0, 7, 90 }; t += cs(" FILE=") + q(f[k]); d.cards += c[k]; } break;
            case 2: { int k = sim.choose(120); t += cs(" BLANK=") + std::to_string(k); d.cards += k; sim.probe("blank-cards"); } break;
            case 3: t += cs(" FORMAT=") + cs(sim.choose(2) ? "AUTO" : "ASCII"); break;
            case 4: t += cs(" EMPTY"); d.cards = 0; break;
            case 5: if (sim.choose(4) == 0) { static const char *b[] = { " BLANK=x", " FORMAT=NONE", " COLOR=red", " FILE=", " BLANK", " FORMAT" }; t += b[sim.choose(6)]; if (t.back() == '=') t += " # none"; ok = false; } break;
        }
        t += cmt(); if (ok) w.d.push_back(d); return ok; }
    case 1: {   // printer
        Dev d; d.type = "1443"; d.addr = freeaddr(0); snprintf(a, sizeof a, "%03X", d.addr); t = "1443 " + std::string(a); bool ok = true;
        if (sim.choose(2)) { d.file = "out" + std::to_string(sim.choose(3)) + ".txt"; t += cs(" FILE=") + q(d.file); if (sim.choose(2)) t += cs(" START"); }
        else if (sim.choose(4) == 0) { t += sim.choose(2) ? " START" : " WIDTH=120"; ok = false; sim.probe("printer-refused"); }
        t += cmt(); if (ok) w.d.push_back(d); return ok; }
    case 2: {   // tape controller
        Dev d; d.type = "2415"; d.addr = freeaddr(1); d.nunits = 6; int m = sim.choose(4) ? 1 + sim.choose(6) : 0; snprintf(a, sizeof a, " %03x", d.addr); t = "2415"; bool ok = true;
        if (m) { t += "-" + std::to_string(m); d.nunits = ((m - 1) % 3 + 1) * 2; }
        else if (sim.choose(6) == 0) { t += sim.choose(2) ? "-0" : "-" + std::to_string(7 + sim.choose(200)); ok = false; sim.probe("bad-model"); }
        t += a; if (sim.choose(3) == 0) { t += cs(" 7TRACK"); d.t7 = true; } else if (sim.choose(10) == 0) { t += " 9TRACK"; ok = false; }
        t += cmt(); if (ok) w.d.push_back(d); return ok; }
    case 3: {   // tape unit
        int addr = -1; bool ok = true; std::vector<Dev *> c; for (auto &d : w.d) if (d.type == "2415") c.push_back(&d);
        Dev *d; int u = sim.choose(8); if (!c.empty() && sim.choose(12)) { addr = (c[sim.choose(c.size())]->addr & ~7) | u; } else addr = freeaddr(0);
        d = ctl(addr); u = addr & 7; if (!d || d->type != "2415") { ok = false; sim.probe("unit-without-controller"); } else if (u >= d->nunits) { ok = false; sim.probe("no-such-unit"); } else if (d->u.count(u)) { ok = false; sim.probe("duplicate-unit"); }
        if (!ok && sim.choose(3)) { if (w.d.empty() || sim.choose(2)) { t = "# none"; return true; } }
        snprintf(a, sizeof a, " %03x", addr); t = cs("2415U") + a; Unit n; 
        for (int k = sim.choose(5); k--;) switch (sim.choose(7)) {
            case 0: case 1: if (n.file.empty()) { static const char *f[] = { "t0.tap", "t1.tap", "no.tap" }; n.file = f[sim.choose(3)]; t += cs(" FILE=") + q(n.file); } break;
            case 2: n.ring = sim.choose(2); t += cs(n.ring ? " RING" : " NORING"); break;
            case 3: n.d1600 = sim.choose(2); t += n.d1600 ? " 1600" : " 800"; break;
            case 4: n.t9 = false; t += cs(" 7TRACK"); break;
            case 5: { static const char *f[] = { "SIMH", "E11", "P7B" }; static const int ty[] = { TYPE_TAP, TYPE_E11, TYPE_P7B }; int i = sim.choose(3); n.fmt = ty[i]; t += cs(" FORMAT=") + cs(f[i]); sim.probe("tape-format"); } break;
            case 6: if (ok && sim.choose(6) == 0) { static const char *b[] = { " FORMAT=AWS", " 6250", " FORMAT", " FILE" }; t += b[sim.choose(4)]; ok = false; sim.probe("bad-unit-option"); k = 0; } break;
        }
        n.attached = !n.file.empty() && (n.file != "no.tap" || n.ring);
        if (n.attached && n.file == "no.tap") { n.attached = true; }
        t += cmt(); if (ok) d->u[u] = n; return ok; }
    case 4: {   // disk controller
        Dev d; d.type = "2844"; d.addr = freeaddr(1); d.nunits = 8; snprintf(a, sizeof a, " %03x", d.addr); t = "2844" + std::string(a) + cmt(); w.d.push_back(d); return true; }
    case 5: {   // disk drive
        int addr; bool ok = true; std::vector<Dev *> c; for (auto &d : w.d) if (d.type == "2844") c.push_back(&d);
        int u = sim.choose(8); if (!c.empty() && sim.choose(12)) addr = (c[sim.choose(c.size())]->addr & ~7) | u; else addr = freeaddr(0);
        Dev *d = ctl(addr); u = addr & 7; if (!d || d->type != "2844") { ok = false; sim.probe("unit-without-controller"); } else if (d->u.count(u)) { ok = false; sim.probe("duplicate-unit"); }
        if (!ok && sim.choose(3)) { if (w.d.empty() || sim.choose(2)) { t = "# none"; return true; } }
        snprintf(a, sizeof a, " %03X", addr); t = "2314" + std::string(a); Unit n;
        for (int k = sim.choose(4); k--;) switch (sim.choose(4)) {
            case 0: if (n.file.empty()) { n.file = sim.choose(3) ? "p" + std::to_string(sim.choose(2)) + ".dsk" : "none.dsk"; t += cs(" FILE=") + q(n.file); } break;
            case 1: { n.vol = "VOL" + std::to_string(sim.choose(1000)); t += cs(" VOLID=") + n.vol; } break;
            case 2: if (ok && sim.choose(8) == 0) { t += " CYLINDERS=200"; ok = false; k = 0; } break;
            default: break;
        }
        n.attached = !n.file.empty() && n.file != "none.dsk";
        t += cmt(); if (ok) d->u[u] = n; return ok; }
    case 6: {   // console
        Dev d; d.type = "1052"; d.addr = freeaddr(0); d.port = 3270; snprintf(a, sizeof a, " %03x", d.addr); t = "1052" + std::string(a); bool ok = true;
        if (sim.choose(2)) { d.port = sim.choose(65536); t += cs(" PORT=") + std::to_string(d.port); }
        else if (sim.choose(4) == 0) { static const char *b[] = { " PORT=x1", " PORT=65536", " PORT=99999999999", " LINES=5", " PORT=" }; t += b[sim.choose(5)]; ok = false; sim.probe("bad-port"); }
        if (ok || t.back() != '=') t += cmt();
        if (ok) w.d.push_back(d); return ok; }
    case 7: case 8: {   // processor
        bool m50 = sim.choose(2); bool ok = true; t = m50 ? "2050" : "2030"; long ms = 65536; int l = sim.choose(10);
        if (l) { int c = 'A' + (sim.choose(4) ? (m50 ? 5 + sim.choose(4) : sim.choose(6)) : sim.choose(26)); t += cs(std::string(1, (char)c).c_str()); ms = 2048L << (c - 'A'); ok = m50 ? ms >= 65536 && ms <= 524288 : ms <= 65536; sim.probe(ok ? "memory-size" : "bad-memory-size"); }
        if (w.cpu) { ok = false; sim.probe("second-processor"); }
        if (!ok && sim.choose(2)) { t = "# none"; return true; }
        int port = 3270; if (!m50 && sim.choose(2)) { port = sim.choose(65536); t += cs(" PORT=") + std::to_string(port); }
        t += cmt(); if (ok) { w.cpu = m50 ? 50 : 30; w.msize = ms; w.port = m50 ? -1 : port; } return ok; }
    case 9: { static const struct { const char *n; int m; } L[] = { { "INFO", 1 }, { "WARN", 2 }, { "ERROR", 4 }, { "TRACE", 8 }, { "ITRACE", 16 }, { "MICRO", 32 }, { "REG", 64 }, { "MEM", 128 }, { "MPXCHN", 256 }, { "SELCHN", 512 }, { "DEVICE", 1024 }, { "CONSOLE", 2048 }, { "TAPE", 4096 }, { "DISK", 8192 }, { "CARD", 16384 }, { "DMICRO", 32768 }, { "DREG", 65536 }, { "EVENT", 131072 }, { "FREG", 262144 } };
        t = cs("LOGLEVEL"); bool ok = true; int lv = 0; for (int k = 1 + sim.choose(5), i = 0; i < k; i++) { int j = sim.choose(19); t += (i && sim.choose(2) ? (sim.choose(2) ? "," : ", ") : " ") + cs(L[j].n); lv |= L[j].m; }
        if (sim.choose(8) == 0) { t += sim.choose(2) ? " INFO=1" : " LOUD"; ok = false; }
        w.level |= lv; sim.probe("log-levels"); return ok; }
    default: if (sim.choose(2)) { std::string f = "log" + std::to_string(sim.choose(3)) + ".txt"; t = cs("LOGFILE") + " " + q(f); w.log = f; return true; }
        if (sim.choose(2)) { t = cs("LOGENABLE"); w.enable = true; } else { t = cs("LOGDISABLE"); w.enable = false; } return true;
    }
}
static void walk() {   // nothing on the channels may be dead or unusable
    int n = 0;
    for (int c = 0; c < 6; c++) for (struct _device *d = chan[c]; d; d = d->next) {
        CHECK(++n < 1000, "device-ring", "the list of channel %d does not end", c); CHECK(((d->addr >> 8) & 7) == c, "wrong-channel", "device %03x hangs on channel %d", d->addr, c);
        CHECK(d->dev && d->bus_func && d->type_name, "half-made-device", "device %03x is incomplete", d->addr);
        sim.mix(d->addr);
        uint16_t tags = 0x0200, in = 0; for (int k = 0; k < 4; k++) { uint16_t tg = tags; d->bus_func(d, &tg, 0, &in); }
    }
    for (int i = 0; i < 50; i++) step_disk();
    if (sim.choose(4) == 0) system_shutdown();
}
static void left(int c) { env::armed = false; CHECK(c && env::faults_fired, "exit-called", "the emulator called exit(%d)", c); fflush(stderr); CHECK(ftell(stderr) > 0, "silent-exit", "the emulator ended without a message"); sim.probe("ended"); sim.nontrivial(); sim.done(); }
static void run(bool faults) {
    hush(); sim.step_budget = 2000000; sock_close_hook = sclose; exit_hook = left;
    auto put = [](const char *n, const std::string &s) { env::put(n, std::vector<uint8_t>(s.begin(), s.end())); };
    std::string d; put("d0.deck", ""); for (int i = 0; i < 90; i++) { d += "CARD " + std::to_string(i) + "\n"; if (i == 6) put("d7.deck", d); } put("d90.deck", d);
    env::put("t0.tap", std::vector<uint8_t>()); env::put("t1.tap", std::vector<uint8_t>(8, 0));
    int nd = sim.choose(3); for (int i = 0; i < nd; i++) env::put("p" + std::to_string(i) + ".dsk", std::vector<uint8_t>());
    std::string text; bool ok = true; int nl = 1 + sim.choose(12); std::vector<int> failed;
    for (int i = 0; i < nl && ok; i++) { std::string t; ok = line(t); sim.ev("line %s%s", t.c_str(), ok ? "" : "   (to be refused)"); text += t + (sim.choose(5) ? "\n" : "\r\n"); }
    if (!ok && sim.choose(2)) text += "1442 00E\n";
    env::put("c.cfg", std::vector<uint8_t>(text.begin(), text.end())); 
    // the packs: formatted if a file is there
    if (faults) { static const uint32_t lv[] = { 0, 0, 30, 150 }; env::rates.open_fail = sim.pick(lv); env::rates.read_eio = sim.pick(lv); env::rates.short_read = sim.pick(lv); env::rates.alloc_fail = sim.pick(lv); env::rates.write_eio = sim.pick(lv); sock_fail = sim.choose(6) == 0; bind_fail = sim.choose(6) == 0; sim.fault_scale = 1; }
    
    fflush(stderr); 
    env::armed = true; int rc = load_config((char *)"c.cfg"); env::armed = false;
    bool fired = faults && (env::faults_fired || env::alloc_failures || (sock_fail) || bind_fail);
    int n = 0; for (int c = 0; c < 6; c++) for (struct _device *x = chan[c]; x && n < 1000; x = x->next) n++;
    sim.ev("-> %d, %d devices", rc, n); sim.state(hash64(rc * 100 + n, w.cpu * 16 + w.d.size()));
    if (!fired) CHECK(!!rc == ok, rc ? "refusal-missing" : "refused", rc ? "a configuration with a bad line was accepted" : "a valid configuration was refused");
    if (!ok) CHECK(!rc, "refusal-missing", "a configuration with a bad line was accepted");
    if (rc) {   // everything named, in order, as described
        for (int c = 0; c < 6; c++) { struct _device *x = chan[c]; for (auto &e : w.d) if (e.addr >> 8 == c) {
            CHECK(x, "device-missing", "%s at %03x was not made", e.type.c_str(), e.addr);
            CHECK(x->addr == e.addr && e.type == x->type_name, "wrong-device", "%s at %03x stands where %s at %03x belongs", x->type_name, x->addr, e.type.c_str(), e.addr);
            if (e.type == "2415") { auto *t = (struct _2415_context *)x->dev; CHECK(x->n_units == e.nunits && t->nunits == e.nunits && t->track_7 == e.t7 && t->addr == (e.addr & 0xf8), "wrong-controller", "2415 %03x: %d units, track_7 %d", e.addr, t->nunits, t->track_7);
                for (int u = 0; u < 6; u++) { auto *p = t->tape[u]; CHECK(!!p == !!e.u.count(u), "wrong-unit", "2415 %03x unit %d is %s", e.addr, u, p ? "there" : "missing"); if (!p) continue; Unit &o = e.u[u];
                    bool at = o.attached && !(o.file == "no.tap" && !env::get("no.tap")); 
                    CHECK(!!(p->format & TRACK9) == o.t9, "wrong-tracks", "unit %03x tracks", e.addr + u);
                    if (fired && !p->file_name) continue;
                    CHECK(!!p->file_name == at, "wrong-attach", "unit %03x: %s", e.addr + u, p->file_name ? "attached" : "not attached");
                    if (p->file_name) CHECK(o.file == p->file_name && !!(p->format & WRITE_RING) == o.ring && !!(p->format & DEN_1600) == o.d1600 && (p->format & TAPE_FMT) == o.fmt, "wrong-tape", "unit %03x: file %s format %x", e.addr + u, p->file_name, p->format); } }
            if (e.type == "2844") { auto *t = (struct _2844_context *)x->dev; for (int u = 0; u < 8; u++) { auto *p = t->disk[u]; CHECK(!!p == !!e.u.count(u), "wrong-unit", "2844 %03x drive %d is %s", e.addr, u, p ? "there" : "missing"); if (!p) continue; Unit &o = e.u[u]; if (fired) continue;
                    CHECK(!!p->file_name == (o.attached && (o.file[1] - '0') < nd), "wrong-attach", "drive %03x: %s", e.addr + u, p->file_name ? "attached" : "not attached");
                    if (p->file_name) CHECK(o.file == p->file_name, "wrong-pack", "drive %03x has %s", e.addr + u, p->file_name);
                    if (!o.vol.empty()) { std::string v = o.vol; v.resize(8, ' '); CHECK(v == std::string(p->vol_label, 8), "wrong-label", "drive %03x label %.8s", e.addr + u, p->vol_label); } } }
            if (e.type == "1442" && !fired) { auto *t = (struct _1442_context *)x->dev; CHECK(hopper_size(t->feed) == e.cards, "wrong-deck", "1442 %03x has %d cards instead of %d", e.addr, hopper_size(t->feed), e.cards); }
            x = x->next; }
            CHECK(!x, "extra-device", "device %03x was not described", x->addr); }
        if (w.cpu) CHECK(M && (long)mem_max + 1 == w.msize && step_cpu == (w.cpu == 50 ? &step_2050 : &cycle_2030), "wrong-processor", "processor %d: memory %u", w.cpu, mem_max + 1);
        else CHECK(!title, "extra-processor", "a processor was made");
        CHECK((log_level & w.level) == w.level && log_enable == w.enable, "wrong-log", "log level %x instead of %x, enable %d", log_level, w.level, log_enable);
        if (!fired) { std::vector<int> want; for (auto &e : w.d) if (e.type == "1052") want.push_back(e.port); if (w.cpu == 30) want.push_back(w.port); std::vector<int> g(bound, bound + nbound); std::sort(g.begin(), g.end()); std::sort(want.begin(), want.end()); CHECK(g == want, "wrong-port", "%zu ports bound, %zu described", g.size(), want.size()); }
    } else { fflush(stderr); CHECK(ftell(stderr) > 0, "silent-refusal", "the configuration was refused without a message"); }
    walk(); sim.probe(rc ? "loaded" : "refused");
    if (!faults || fired) sim.nontrivial();
    sim.ticks(text.size()); sim.done();
}
static void plain() { run(false); }
static void faulty() { run(true); }
}
#define REAL_SCENARIOS { "real-devices", real::plain, 8000, 400000, "bytes" }, { "real-devices-faults", real::faulty, 8000, 400000, "bytes" }
#define REAL_PROBES , "missing-deck", "blank-cards", "printer-refused", "bad-model", "unit-without-controller", "no-such-unit", "duplicate-unit", "tape-format", "bad-unit-option", "bad-port", "memory-size", "bad-memory-size", "second-processor", "log-levels", "loaded", "refused"
