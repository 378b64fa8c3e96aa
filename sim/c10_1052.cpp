// C10: the console typewriter: its own thread, the processor's thread and a simulated network under one scheduler.
#define CO_HOOKS
#include "coro.hpp"
#include "chan.hpp"
#include "env.hpp"
#include <sys/socket.h>
#include <sys/select.h>
#include <netinet/in.h>
#include <errno.h>
#include <deque>
extern "C" {
#include "xlat.h"
#include "event.h"
#include "logger.h"
#include "model1052.h"
extern int (*sock_close_hook)(int);
void *model1052_init_ctx(uint16_t); void model1052_done(void *); struct _device *model1052_init(void *, uint16_t);
int model1052_create(struct _option *);
}
namespace {
using namespace ch;
const char REJECT[] = "console already connected\n\r";
const char HELLO[] = "\xff\xfb\x22\xff\xfb\x03\xff\xfb\x01\xff\xfb\x00\xff\xfd\x00";
struct Conn { int fd = -1, id = 0; std::deque<uint8_t> rx; std::string tx; bool fin = false, rst = false, rst_seen = false, srv_closed = false, accepted = false, dead = false; uint64_t t0 = 0; size_t lost = 0; };
std::vector<Conn *> conns; std::deque<Conn *> pending; int nextfd = 901; bool lsock_open = false; Conn *ses = nullptr; bool thr_waits = false; uint64_t selects = 0; co::Task *thr = nullptr; int sends_failed = 0; int disconnects = 0;
Conn *byfd(int fd) { for (auto c : conns) if (c->fd == fd && c->accepted && !c->srv_closed) return c; return nullptr; }
bool readable(int fd) { if (fd == 900) return !pending.empty(); Conn *c = byfd(fd); return c && (!c->rx.empty() || c->fin || c->rst); }
int sclose(int fd) { if (fd < 900 || fd > 1023) return -2; if (fd == 900) { CHECK(lsock_open, "close-twice", "the listening socket is closed twice"); lsock_open = false; return 0; }
    Conn *c = byfd(fd); CHECK(c, "close-twice", "descriptor %d closed, which is not open", fd); c->srv_closed = true; sim.ev("%llu: connection %d closed by the emulator", (unsigned long long)co::now, c->id); return 0; }
}
extern "C" {
int __wrap_socket(int, int, int) { lsock_open = true; return 900; }
int __wrap_bind(int, const struct sockaddr *, socklen_t) { return 0; }
int __wrap_listen(int, int) { return 0; }
int __wrap_setsockopt(int, int, int, const void *, socklen_t) { return 0; }
int __wrap_select(int n, fd_set *r, fd_set *, fd_set *, struct timeval *tv) {
    if (sim.fault("select-interrupted", 1, 200)) { errno = EINTR; return -1; }
    selects++; fd_set in = *r; uint64_t us = tv ? tv->tv_sec * 1000000ull + tv->tv_usec : UINT64_MAX / 4;
    for (int i = 0; i < 900; i++) if (i < n && FD_ISSET(i, &in)) sim.fail("select-stray", "the console waits on descriptor %d", i);
    for (int i = 901; i < n; i++) if (FD_ISSET(i, &in) && !byfd(i)) { errno = EBADF; return -1; }
    thr_waits = true; co::wait([&] { for (int i = 900; i < n; i++) if (FD_ISSET(i, &in) && readable(i)) return true; return false; }, us); thr_waits = false;
    FD_ZERO(r); int k = 0; for (int i = 900; i < n; i++) if (FD_ISSET(i, &in) && readable(i)) { FD_SET(i, r); k++; }
    return k;
}
int __wrap_accept(int fd, struct sockaddr *, socklen_t *) {
    CHECK(fd == 900 && lsock_open, "accept-stray", "accept on descriptor %d", fd);
    if (pending.empty() && !co::wait([&] { return !pending.empty(); }, 60000000)) sim.fail("accept-blocks", "the console thread sits in accept and nobody connects");
    if (sim.fault("accept-fails", 1, 8)) { if (sim.choose(2)) { errno = ECONNABORTED; pending.front()->dead = true; pending.pop_front(); } else errno = EMFILE; return -1; }
    Conn *c = pending.front(); pending.pop_front(); c->accepted = true; c->fd = nextfd++; sim.ev("%llu: connection %d accepted", (unsigned long long)co::now, c->id); return c->fd;
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int) {
    Conn *c = byfd(fd); CHECK(c, "recv-stray", "recv on descriptor %d, which is not open", fd);
    if (!readable(fd) && !co::wait([&] { return readable(fd); }, 60000000)) sim.fail("recv-blocks", "the console thread sits in recv and nothing comes");
    if (c->rst && !c->rst_seen) { c->rst_seen = true; c->rx.clear(); errno = ECONNRESET; return -1; }
    if (c->rx.empty()) return 0;
    size_t k = std::min(n, c->rx.size()); if (k > 1 && sim.choose(3) == 0) k = 1 + sim.choose(k);
    for (size_t i = 0; i < k; i++) { ((uint8_t *)b)[i] = c->rx.front(); c->rx.pop_front(); }
    return k;
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) {
    if (fd < 900) sim.fail("sent-elsewhere", "%zu characters of the console are sent to descriptor %d", n, fd);
    Conn *c = byfd(fd); CHECK(c, "sent-elsewhere", "%zu characters sent to descriptor %d, which is not open", n, fd);
    if (sim.fault("slow-send", 1, 30)) co::sleep(1 + sim.choose(200000));
    bool pipe = false;
    if (c->rst) { if (!c->rst_seen) { c->rst_seen = true; sends_failed++; errno = ECONNRESET; return -1; } pipe = true; }
    else if (c->fin) { if (c->lost && sim.choose(2)) pipe = true; else { c->lost += n; sends_failed++; return n; } }
    if (pipe) { if (!(fl & MSG_NOSIGNAL)) sim.fail("killed-by-sigpipe", "the emulator writes to a connection whose client has gone, without MSG_NOSIGNAL: SIGPIPE ends it"); sends_failed++; errno = EPIPE; return -1; }
    c->tx.append((const char *)b, n); return n;
}
void *SDL_CreateThread(int (*f)(void *), const char *, void *d) { thr = co::spawn("console", [f, d] { f(d); }); return thr; }
void SDL_WaitThread(void *t, int *) { co::join((co::Task *)t); }
uint32_t SDL_GetTicks() { return co::now / 1000; }
void SDL_Delay(uint32_t ms) { co::sleep(ms * 1000); }
int get_option(struct _option *) { return 0; }
}
namespace {
bool faulty; std::string typed_out;               // what the computer typed, '\r' for a carriage return
struct Line { std::string text; bool cancel = false; };
int want = 0; Line expect; bool typed = false, client_idle = true, want_attn = false, attn_sent = false, junk_req = false, quit = false; std::string echoed_want;
bool reconnected = false; std::string got; int ses_no = 0;
void put(Conn *c, const std::string &s) { for (auto b : s) c->rx.push_back((uint8_t)b); }
Conn *dial() { Conn *c = new Conn; c->id = (int)conns.size() + 1; c->t0 = co::now; conns.push_back(c); pending.push_back(c); sim.ev("%llu: connection %d arrives", (unsigned long long)co::now, c->id); return c; }
bool answered(Conn *c) { return c->tx.size() >= 15 || c->srv_closed || c->dead; }
void hangup(Conn *c) { bool r = sim.choose(2); if (r) { c->rst = true; c->rx.clear(); } c->fin = true; disconnects++; sim.fault_fired(r ? "client-reset" : "client-close"); sim.ev("%llu: connection %d %s", (unsigned long long)co::now, c->id, r ? "reset" : "closed"); if (c == ses) ses = nullptr; }
// bytes in pieces, with delays
bool feed(Conn *c, const std::string &s) {
    for (size_t i = 0; i < s.size();) {
        size_t k = sim.choose(3) ? s.size() - i : 1 + sim.choose(s.size() - i); put(c, s.substr(i, k)); i += k;
        if (sim.choose(2)) co::sleep(1 + sim.choose(sim.choose(2) ? 100 : 60000)); else co::yield();
        if (c->fin || c->rst) return false;
        if (faulty && c == ses && sim.choose(60) == 0) { hangup(c); return false; }
    }
    return true;
}
std::string tn() {  // a telnet command that is not input
    switch (sim.choose(6)) {
    case 0: { static const char *v = "\xfb\xfc\xfd\xfe"; std::string s = "\xff"; s += v[sim.choose(4)]; static const char o[] = "\x01\x03\x22\x1f\x18 a"; s += o[sim.choose(7)]; return s; }
    case 1: sim.probe("telnet-command"); return sim.choose(2) ? "\xff\xf1" : "\xff\xf9";
    case 2: return "\xff\xf3";
    case 3: { sim.probe("telnet-subnegotiation"); std::string s = "\xff\xfa\x18"; s += '\0'; s += "vt100"; s += "\xff\xf0"; return s; }
    case 4: { std::string s = "\xff\xfa\x1f"; s += '\0'; s += "P\xff\xff"; s += '\0'; s += "\x18\xff\xf0"; return s; }
    default: return "\xff\xfd\x01\xff\xfb\x03";
    }
}
std::string spice(const std::string &s, int pm) { std::string r; for (char c : s) { if ((int)sim.choose(1000) < pm) r += tn(); r += c; } return r; }
bool get_in() {      // connect until accepted as the console
    for (int i = 0; i < 40 && !quit; i++) {
        Conn *c = dial(); Conn *old = nullptr; for (auto x : conns) if (x != c && x->accepted && !x->srv_closed) old = x;
        if (!co::wait([&] { return answered(c); }, 20000000)) sim.fail("not-accepted", "connection %d gets no answer for 20 seconds", c->id);
        if (c->dead) { co::sleep(1000 + sim.choose(100000)); continue; }
        if (c->tx.size() >= 15 && !memcmp(c->tx.data(), HELLO, 15)) { ses = c; ses_no++; sim.probe("connected"); if (sim.choose(2)) feed(c, "\xff\xfd\x22\xff\xfd\x03\xff\xfd\x01\xff\xfd" + std::string(1, '\0')); return true; }
        CHECK(old != nullptr, "refused", "connection %d refused and nobody is connected: \"%s\"", c->id, c->tx.c_str());
        c->fin = true; co::sleep(1000 + sim.choose(200000));
    }
    if (!quit) sim.fail("not-accepted", "the console accepts no client any more");
    return false;
}
char letter() { static const char t[] = "abcdefghijklmnopqrstuvwxyz0123456789"; return t[sim.choose(36)]; }
void client() {
    co::sleep(sim.choose(100000)); get_in();
    while (!quit) {
        client_idle = !(want && !typed) && !(want_attn && !attn_sent) && !junk_req;
        co::wait([] { return quit || (want && !typed) || (want_attn && !attn_sent) || junk_req || !ses; }, faulty && sim.choose(4) == 0 ? 1 + sim.choose(400000) : UINT64_MAX / 4);
        client_idle = false;
        if (quit) break;
        if (!ses) { co::sleep(sim.choose(3) ? sim.choose(100) : sim.choose(500000)); if (want) reconnected = true; get_in(); typed = false; attn_sent = false; continue; }
        if (want && !typed) {
            std::string s = expect.text; if (faulty && sim.choose(5) == 0) { for (int i = 1 + sim.choose(3); i--;) s += '\xc3'; sim.fault_fired("8-bit-input"); } s = spice(s, sim.choose(3) ? 0 : 50) + (expect.cancel ? "\003" : "\r");
            if (!expect.cancel && sim.choose(2)) { s += sim.choose(2) ? '\0' : '\n'; sim.probe("cr-padding"); }
            if (sim.choose(4) == 0) { for (int i = 1 + sim.choose(6); i--;) s += letter(); sim.probe("type-ahead"); }
            typed = true; if (!feed(ses, s)) typed = false;
        } else if (want_attn && !attn_sent) { attn_sent = true; if (!feed(ses, "\033")) attn_sent = false; }
        else if (junk_req) { std::string s; for (int i = 1 + sim.choose(12); i--;) s += letter(); feed(ses, spice(s, 100)); junk_req = false; }
        else if (faulty && ses) { int k = sim.choose(3); if (k == 0) hangup(ses); else if (k == 1) feed(ses, tn()); else { Conn *c = dial(); sim.fault_fired("second-client");
            if (sim.choose(3) == 0) { c->fin = true; co::sleep(1 + sim.choose(200000)); }
            else { if (!co::wait([&] { return c->srv_closed || c->dead || c->tx.size() >= 15; }, 20000000)) sim.fail("second-client-waits", "connection %d gets no answer", c->id);
                if (!c->dead && ses && !c->fin) { if (c->tx.size() >= 15 && !memcmp(c->tx.data(), HELLO, 15)) { CHECK(ses->fin || ses->srv_closed, "two-consoles", "connection %d accepted while another is the console", c->id); } else { co::wait([&] { return c->srv_closed; }, 1000000); CHECK(c->srv_closed && c->tx == REJECT, "reject-text", "refused client was told \"%s\"", c->tx.c_str()); sim.probe("refused"); } } c->fin = true; } } }
    }
    co::sleep(UINT64_MAX / 8);
}
int cuts = 0;     // characters that a reset or halt may have cut off
// ---- what the clients received
void check_output(bool end) {
    std::string all; size_t losses = sends_failed; bool any = false; std::string ech;
    for (auto c : conns) {
        if (!c->accepted || c->tx == REJECT) continue;
        std::string t = c->tx; if (t.size() >= 9 && !memcmp(t.data(), HELLO, std::min<size_t>(t.size(), 15))) t.erase(0, 15); else { if (!t.empty() && memcmp(REJECT, t.data(), std::min(t.size(), sizeof REJECT - 1))) sim.fail("greeting", "connection %d begins with %02x%02x%02x", c->id, t[0] & 255, t[1] & 255, t[2] & 255); continue; }
        any = true;
        for (size_t i = 0; i < t.size(); i++) {
            if (t[i] == '\r') { CHECK(i + 1 >= t.size() || t[i + 1] == '\n' || islower(t[i + 1]) || isdigit(t[i + 1]) || c->fin, "cr-alone", "a carriage return is followed by %02x", t[i + 1]); all += '\r'; }
            else if (t[i] == '\n') { CHECK(i && (t[i - 1] == '\r'), "lf-alone", "a line feed follows %02x", i ? t[i - 1] : 0); }
            else if (islower(t[i]) || isdigit(t[i])) ech += t[i]; else all += t[i];
        }
    }
    (void)any;
    // typed_out with at most `losses` (and at hang-ups two more) pieces missing
    size_t miss = 0, i = 0, allow = (disconnects ? 3 * disconnects + losses : 0) + cuts;
    for (size_t k = 0; k < all.size(); k++) {
        while (i < typed_out.size() && typed_out[i] != all[k]) { i++; miss++; if (miss > allow) break; }
        if (i >= typed_out.size() || miss > allow) { sim.fail(miss > allow ? "output-lost" : "output-extra", "the clients received \"%s\", the computer typed \"%s\"", all.c_str(), typed_out.c_str()); }
        i++;
    }
    if (end) { miss += typed_out.size() - i; if (miss > allow) sim.fail("output-lost", "the clients received \"%s\", the computer typed \"%s\"", all.c_str(), typed_out.c_str()); }
    if (!disconnects) CHECK(ech == echoed_want.substr(0, ech.size()) && (!end || ech == echoed_want), "echo", "echo was \"%s\" instead of \"%s\"", ech.c_str(), echoed_want.c_str());
}
bool drained() { if (!ses) return true; return ses->rx.empty() && thr_waits; }
std::string mkout() { std::string s; int n = sim.choose(4) ? 1 + sim.choose(8) : sim.choose(40); for (int i = 0; i < n; i++) { static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ.,-+ "; s += sim.choose(12) ? t[sim.choose(sizeof t - 1)] : '\r'; } return s; }
int maxline = 300;
void mkline() { static const int len[] = {3, 0, 1, 8, 20, 60, 130, 254, 255}; int n = sim.pick(len); n = std::min(n, sim.choose(4) ? 20 : maxline); expect = Line(); while (n--) expect.text += letter(); expect.cancel = sim.choose(8) == 0; got.clear(); reconnected = false; typed = false; }
void check_line(bool eob, bool cancel) {
    sim.ev("%llu: line \"%s\"%s", (unsigned long long)co::now, got.c_str(), cancel ? " cancelled" : "");
    { std::string h; char t[4]; for (auto c : got) { snprintf(t, 4, "%02x", c & 255); h += t; } sim.ev("  %s eob %d", h.c_str(), eob); }
    bool tail = got.size() >= expect.text.size() && !got.compare(got.size() - expect.text.size(), std::string::npos, expect.text);
    if (!reconnected) CHECK(got == expect.text, "line-text", "the computer read \"%s\", the client entered \"%s\"", got.c_str(), expect.text.c_str());
    else { CHECK(tail, "line-text", "the computer read \"%s\", the client entered \"%s\" after reconnecting", got.c_str(), expect.text.c_str()); }
    CHECK(cancel == expect.cancel && eob != cancel, "line-end", "the line ends with%s%s, entered%s", eob ? " EOB" : "", cancel ? " cancel" : "", expect.cancel ? " cancel" : " EOB");
    echoed_want += expect.text; sim.probe(cancel ? "line-cancelled" : "line-read"); if (expect.text.size() > 200) sim.probe("line-long"); if (reconnected) sim.probe("line-reconnected");
    sim.state(hash64(co::sched_hash, got.size()));
}
void ebc(char c, uint16_t &v) { for (int i = 0; i < 256; i++) if (ebcdic_to_ascii[i] == (uint8_t)c) { v = i; return; } sim.fail("harness", "no code for %02x", c); }
char asc(int v) { return ebcdic_to_ascii[v & 255]; }
// ---- the computer, driving the typewriter as the Model 30 does
void *X; uint32_t pmin, pmax;
void cyc() { co::sleep(pmin + sim.choose(pmax)); }
uint16_t func(uint16_t in) { uint16_t out = 0, rq; model1052_func(X, &out, in, &rq); sim.mix(out); return out; }
uint16_t waitfor(uint16_t bits, uint16_t lvl, const char *what, uint64_t us = 60000000) { uint64_t t = co::now; uint16_t o; while (!((o = func(lvl)) & bits)) { cyc(); if (co::now - t > us) sim.fail("console-hangs", "%s: tags %02x after %llu seconds%s", what, o, (unsigned long long)us / 1000000, ses ? "" : ", no client"); } return o; }
void quiet_keys() { junk_req = sim.choose(3) == 0; co::wait([] { return !junk_req || !ses; }); junk_req = false; }
void computer() {
    X = model1052_init_ctx(3270); co::spawn("client", client); int ops = 3 + sim.choose(10);
    waitfor(BIT3, 0, "waiting for a client");
    while (ops--) {
        switch (sim.weighted({4, 4, 1})) {
        case 0: { std::string s = mkout(); sim.ev("%llu: type %zu", (unsigned long long)co::now, s.size()); waitfor(BIT3, 0, "waiting for a client"); func(BIT7); func(BIT0); quiet_keys();
            for (char c : s) { waitfor(BIT1, BIT0, "typing"); uint16_t v; ebc(c, v); model1052_out(X, v); typed_out += c; cyc(); }
            if (sim.choose(2)) { waitfor(BIT1, BIT0, "typing"); func(BIT5); typed_out += '\r'; cyc(); }
            waitfor(BIT1, BIT0, "typing"); func(BIT7); sim.probe("typed"); } break;
        case 1: { waitfor(BIT3, 0, "waiting for a client"); co::wait([] { return drained() && !junk_req; }, 30000000); func(BIT7); mkline(); sim.ev("%llu: read, client will enter %zu characters", (unsigned long long)co::now, expect.text.size());
            func(BIT1 | BIT3); if (!ses) reconnected = true; want = 1; uint64_t t = co::now; uint16_t o; bool eob = false, can = false;
            for (;;) { o = func(BIT1 | BIT3); if (!ses || !(o & BIT3)) reconnected = true;
                if (o & BIT1) { uint16_t v = 0; model1052_in(X, &v); CHECK(v == (uint16_t)((v & 0xff) | odd_parity[v & 0xff]), "input-parity", "character %03x", v); got += asc(v); }
                else if (o & (BIT0 | BIT2)) { eob = o & BIT2; can = o & BIT0; break; }
                if (sim.choose(3) || !(o & BIT1)) cyc();
                if (co::now - t > 60000000) sim.fail("console-hangs", "reading: \"%s\" of \"%s\" after 60 seconds, tags %02x", got.c_str(), expect.text.c_str(), o); }
            want = 0; check_line(eob, can); if (eob) typed_out += '\r'; co::wait([] { return drained() && client_idle; }, 30000000); func(BIT7); uint64_t t2 = co::now; while (co::now - t2 < 70000) cyc(); } break;
        case 2: { waitfor(BIT3, 0, "waiting for a client"); func(BIT6); want_attn = true; attn_sent = false; sim.ev("%llu: waiting for attention", (unsigned long long)co::now); waitfor(BIT6, 0, "attention key"); want_attn = false; func(BIT6); CHECK(!(func(0) & BIT6) || disconnects, "attention-stays", "attention not reset"); sim.probe("attention"); co::wait([] { return client_idle; }, 30000000); co::wait([] { return drained(); }, 30000000); } break;
        }
        check_output(false);
    }
    co::sleep(2000000); check_output(true);
    quit = true; model1052_done(X); CHECK(thr->done, "thread-lives", "the console thread goes on after it was ended"); CHECK(!lsock_open, "socket-left", "listening socket left open");
    sim.nontrivial(); sim.done();
}
void start_run() {
    faulty = sim.fault_scale; sock_close_hook = sclose; sim.step_budget = 40000000;
    static const uint32_t pd[] = {0, 3, 20, 100, 1000}; co::period = sim.pick(pd); if (faulty && sim.choose(3) == 0) { co::stall_pm = 1 + sim.choose(20); co::stall_max = 1 + sim.choose(50000); }
    static const uint32_t pm[] = {20, 200, 2000, 20000}; pmax = sim.pick(pm); pmin = pmax / 10 + 1;
}
// ---- the computer, driving it through a channel
Channel C; Sub *S; uint32_t per; int sense_ = 0; uint64_t reset_at = 0, halt_at = 0; bool hold_line = false;
void chook() {
    co::sleep(per);
    if (S->active() && S->prog[S->pc].cmd == 0x0a && S->r().init == 0 && !want && !hold_line && !S->r().ce) { want = 1; if (!ses) reconnected = true; }
    if (want && !ses) reconnected = true;
    if (halt_at && C.now >= halt_at && S->active()) { S->halt_req = true; halt_at = 0; sim.fault_fired("halt"); }
    if (reset_at && C.now >= reset_at) { reset_at = 0; throw Reset(); }
}
void chan_judge(const Ccw &c, const Result &r) {
    char nm[60]; snprintf(nm, sizeof nm, "command %02x count %u", c.cmd, c.count); int st = r.all(), n = r.bytes.size();
    auto ending = [&](int e) { CHECK(st == e, "status", "%s: status %02x (initial %02x), %02x expected", nm, st, r.init, e); if (c.cmd) CHECK(r.ce == 1 && r.de == 1, "ending", "%s: channel end %d times, device end %d times", nm, r.ce, r.de); };
    CHECK(!r.refused, "refused", "%s refused with status %02x by an idle device", nm, r.init);
    if (c.badcmd) { sense_ |= 0x20; ending(0x0e); CHECK(n == 0, "data-count", "%s: %d bytes moved for a command with bad parity", nm, n); sim.probe("bus-parity"); return; }
    if (r.badsent) { for (int i = 0; i < c.badbyte; i++) typed_out += asc(r.bytes[i]); if (c.cmd == 9 && !c.badbyte) cuts++; if (c.cmd == 9) typed_out += '\r'; CHECK(n == c.badbyte + 1, "data-count", "%s: %d bytes taken, byte %d had bad parity", nm, n, c.badbyte); sense_ = 0x20; ending(0x0e); sim.probe("bus-parity"); return; }
    if (r.halted) { cuts += c.cmd == 9 ? 2 : 1; for (auto b : r.bytes) if (c.cmd & 1) typed_out += asc(b); if (c.cmd == 9) typed_out += '\r'; sense_ = 0; CHECK(!(st & SNS_UNITCHK), "status", "%s halted: status %02x", nm, st); sim.probe("halted"); return; }
    switch (c.cmd) {
    case 0: CHECK(st == 0, "status", "test I/O: status %02x", st); break;
    case 3: sense_ = 0; ending(0x0c); break;
    case 4: ending(0x0c); CHECK(n == 1 && r.bytes[0] == sense_, "sense-data", "sense gave %d bytes, %02x instead of %02x", n, n ? r.bytes[0] : 0, sense_); sim.probe("sense"); break;
    case 1: case 9: sense_ = 0; CHECK(n == (int)c.count, "data-count", "%s: %d bytes taken", nm, n); ending(0x0c); for (auto b : r.bytes) typed_out += asc(b); if (c.cmd == 9) typed_out += '\r'; sim.probe(c.cmd == 9 ? "write-acr" : "write"); break;
    case 0x0a: { sense_ = 0; got.clear(); for (auto b : r.bytes) got += asc(b); bool part = c.count < expect.text.size(); if (part) { CHECK(reconnected || (got == expect.text.substr(0, c.count) && st == 0x0c), "line-text", "%s of \"%s\" read \"%s\", status %02x", nm, expect.text.c_str(), got.c_str(), st); echoed_want += expect.text; if (!expect.cancel) typed_out += '\r'; sim.probe("read-part"); }
        else { check_line(!(st & SNS_UNITEXP), st & SNS_UNITEXP); ending(expect.cancel ? 0x0d : 0x0c); typed_out += '\r'; sim.probe("read"); }
        } break;
    default: sense_ = 0x80; ending(0x0e); sim.probe("rejected"); break;
    }
}
void chan_computer() {
    device_t *d = model1052_init(nullptr, 0x01f); CHECK(d, "init", "no device"); X = d->dev; co::spawn("client", client); int ops = 3 + sim.choose(10);
    C.pick_timing(); C.selector = false; C.stacks = sim.choose(3) == 0; C.limit = 5000000; C.hook = chook; maxline = sim.choose(10) ? 40 : 300; S = &C.add(0x1f); C.reset();
    static const uint32_t ps[] = {10, 20, 100}; per = sim.pick(ps);
    if (sim.choose(4)) while (!ses) C.turn();
    while (ops--) {
        std::vector<Ccw> p; int k = sim.weighted({4, 3, 1, 1, 1, 2, 1});
        if (k == 0) { std::string s = mkout(); if (s.empty()) s = "A"; std::vector<uint8_t> b; for (char c : s) { uint16_t v; ebc(c, v); b.push_back(v); } p.push_back(wr(sim.choose(2) ? 1 : 9, b)); }
        else if (k == 1) { for (int i = 0; !(drained() && client_idle && ses) && i < 3000000; i++) C.turn(); mkline(); p.push_back(rd(0x0a, 2000)); }
        else if (k == 2) p.push_back(rd(4, 1 + sim.choose(2)));
        else if (k == 3) p.push_back(wr(3, {0}));
        else if (k == 4) { static const uint8_t bad[] = {0x05, 0x07, 0x02, 0x0b, 0x11, 0x8a, 0x1a, 0x06}; uint8_t b = sim.pick(bad); p.push_back(b & 1 ? wr(b, {0}) : rd(b, 1)); p.push_back(rd(4, 1)); }
        else if (k == 5) { if (!ses) continue; want_attn = true; attn_sent = false; int dn = disconnects; uint64_t t = C.now; sim.ev("%llu: waiting for attention", (unsigned long long)co::now);
            while (S->async.empty()) { C.turn(); if (C.now - t > C.limit) sim.fail("attention-lost", "attention key pressed, no attention status"); } want_attn = false;
            for (int i = 0; !(drained() && client_idle) && i < 3000000; i++) C.turn(); C.settle(40000);
            for (auto a : S->async) CHECK(a == SNS_ATTN, "status-extra", "status %02x instead of attention", a); CHECK(S->async.size() == 1 || disconnects != dn, "attention-twice", "attention presented %zu times for one key", S->async.size()); S->async.clear(); sim.probe("attention"); continue; }
        else { C.settle(30000); p.clear(); sim.probe("idle"); }
        if (k == 1 && !C.stacks && expect.text.size() > 1 && sim.choose(4) == 0) p[0].count = 1 + sim.choose(expect.text.size() - 1);
        if (faulty && k <= 3 && sim.choose(6) == 0) { if (k == 0 && sim.choose(2)) p[0].badbyte = sim.choose(p[0].count); else p[0].badcmd = true; }
        else if (faulty && k == 0 && sim.choose(5) == 0) halt_at = C.now + 1 + sim.choose(sim.choose(2) ? 60 : 40000);
        else if (faulty && (k <= 2) && sim.choose(5) == 0) {
            hold_line = true; reset_at = C.now + 1 + sim.choose(sim.choose(2) ? 60 : 40000); sim.fault_fired("reset"); bool cut = false;
            try { C.run(*S, {p[0]}); C.settle(reset_at > C.now ? reset_at - C.now + 1 : 1); reset_at = 0; } catch (Reset &) { cut = true; }
            reset_at = 0; Result r = S->log.empty() ? Result() : S->log.back(); if (!cut && k != 1) chan_judge(p[0], r);
            else if (k == 0) { cuts += p[0].cmd == 9 ? 2 : 1; for (auto b : r.bytes) typed_out += asc(b); if (p[0].cmd == 9) typed_out += '\r'; }
            sim.ev("%llu: reset", (unsigned long long)co::now); C.reset(); hold_line = false; S->async.clear(); sense_ = 0; sim.probe("reset"); C.settle(sim.choose(2) ? 3 : 20000); check_output(false); continue; }
        for (size_t i = 0; i < p.size(); i++) { C.run(*S, {p[i]}); want = 0; halt_at = 0; S->halt_req = false; chan_judge(p[i], S->log.back()); if (p[i].cmd == 0x0a) for (int i = 0; !(drained() && client_idle) && i < 3000000; i++) C.turn(); }
        C.settle(sim.choose(3) ? 3 : 20000);
        for (auto a : S->async) CHECK(0, "status-extra", "status %02x presented with no command outstanding", a);
        check_output(false);
    }
    { uint64_t t = co::now; while (co::now - t < 3000000) co::sleep(1000); } check_output(true);
    sim.nontrivial(); sim.done();
}
void run_chan(uint32_t f) { sim.fault_scale = f; start_run(); if (co::period) co::period += 100; co::spawn("cpu", chan_computer); co::run(); }
void run_channel() { run_chan(0); }
void run_chnet() { run_chan(1); }
void run_plain() { sim.fault_scale = 0; start_run(); co::spawn("cpu", computer); co::run(); }
void run_net() { sim.fault_scale = 1; start_run(); co::spawn("cpu", computer); co::run(); }
}
Property property = {
    "C10",
    { {"typing", run_plain, 6000, 200000, "microseconds"}, {"network", run_net, 9000, 300000, "microseconds"}, {"channel", run_channel, 3000, 100000, "microseconds"}, {"channel-network", run_chnet, 3000, 100000, "microseconds"} },
    "console sessions in which the computer types, reads lines and waits for the attention key while clients connect, type in pieces, negotiate, hang up, reset and are refused; the console's thread and the processor's are switched between any two memory accesses; non-trivial when the session reaches its end",
    "distinct (schedule, line length) points at which a line was read",
    {"model1052.c (thread, typewriter and device)", "device.c", "event.c", "xlat.c"},
    {"network and clients", "SDL threads (coroutines under the seeded scheduler)", "processor"},
    {"a character in flight when its client hangs up may be lost; keys struck while the keyboard is locked are dropped", "a client refused because its predecessor's hang-up was not noticed yet tries again"},
    {"connected", "typed", "line-read", "line-cancelled", "line-long", "line-reconnected", "attention", "refused", "cr-padding", "type-ahead", "telnet-command", "telnet-subnegotiation"},
    30, 800
};
