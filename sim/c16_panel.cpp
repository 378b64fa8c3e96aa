// C16: the whole emulator - display loop, timer, processor thread, operator's windows, devices - under one scheduler.
#define CO_HOOKS
#include "sdl.hpp"
#include "chan.hpp"
#include "env.hpp"
#include "tape_model.hpp"
#include <sys/socket.h>
#include <sys/select.h>
#include <errno.h>
#include <stdarg.h>
extern "C" {
#include "widgets.h"
#include "panel.h"
#include "event.h"
#include "tape.h"
#include "text.h"
#include "model2415.h"
extern struct _device *chan[6]; extern uint32_t *M; extern char *title; extern void (*step_cpu)(); extern int POWER; extern Window win_list_head; extern int cpu_count;
int load_config(char *); extern int (*sock_close_hook)(int);
int __real_vprintf(const char *, va_list);
int __wrap_printf(const char *f, ...) { if (co::cur) return 0; va_list a; va_start(a, f); int r = vprintf(f, a); va_end(a); return r; }
int __real_puts(const char *); int __wrap_puts(const char *s) { return co::cur ? 0 : __real_puts(s); }
int __real_putchar(int); int __wrap_putchar(int c) { return co::cur ? c : __real_putchar(c); }
// the console's socket: nobody ever calls
int __wrap_socket(int, int, int) { return 900; }
int __wrap_bind(int, const struct sockaddr *, socklen_t) { return 0; }
int __wrap_listen(int, int) { return 0; }
int __wrap_setsockopt(int, int, int, const void *, socklen_t) { return 0; }
int __wrap_accept(int, struct sockaddr *, socklen_t *) { return -1; }
int __wrap_select(int, fd_set *r, fd_set *, fd_set *, struct timeval *tv) { co::sleep(tv ? tv->tv_sec * 1000000ull + tv->tv_usec : 1000000); FD_ZERO(r); return 0; }
ssize_t __wrap_send(int, const void *, size_t n, int) { return n; }
ssize_t __wrap_recv(int, void *, size_t, int) { return 0; }
}
namespace {
using namespace ch;
int sclose(int fd) { return fd == 900 ? 0 : -2; }
uint64_t steps = 0, step_fire = 0, off_at = 0, quit_at = 0, allow = 0; bool down = false, ended = false, chaos = false; std::map<device_t *, void (*)(device_t *, uint16_t *, uint16_t, uint16_t *)> bus; std::map<device_t *, void (*)(device_t *)> closer; std::set<device_t *> closed; uint32_t cost_ns = 1000, chunk = 1000; uint64_t acc = 0;
void (*real_step)();
void sbus(device_t *d, uint16_t *t, uint16_t o, uint16_t *i) { if (closed.count(d)) sim.fail("device-after-close", "device %03x is used after it was closed", d->addr); bus[d](d, t, o, i); }
void sclosed(device_t *d) { if (!closed.insert(d).second) sim.fail("closed-twice", "device %03x closed twice", d->addr); if (closer[d]) closer[d](d); }
void one_step() {
    steps++; sim.step(1);
    if (!closed.empty()) sim.fail("device-after-close", "the processor steps after the devices were shut down");
    acc += cost_ns; if (acc >= chunk * 1000ull) { uint64_t us = acc / 1000; acc %= 1000; sim.ticks(0); co::sleep(us); }
    real_step();
}
// ---- people at the windows
std::vector<std::string> words; 
void post(SDL_Event &e) { q.push_back(e); }
SDL_Event ev(uint32_t type, uint32_t win) { SDL_Event e; memset(&e, 0, sizeof e); e.type = type; e.window.windowID = win; return e; }
void mouse(uint32_t type, uint32_t win, int x, int y) { SDL_Event e = ev(type, win); e.button.x = x; e.button.y = y; if (type != SDL_MOUSEMOTION) e.button.button = 1; post(e); }
Window wins[40]; int nwin;
void list() { nwin = 0; for (Window w = win_list_head; w && nwin < 40; w = w->next) wins[nwin++] = w; }
Widget pickw(Window w, bool clickable, bool text = false) { std::vector<Widget> v; for (Widget x = w->panel->list; x; x = x->next) if ((!clickable || x->click) && (!text || x->input)) v.push_back(x); return v.empty() ? nullptr : v[sim.choose(v.size())]; }
void click(Window w, Widget x) { int px = x->rect.x + 1 + sim.choose(std::max(1, x->rect.w - 1)), py = x->rect.y + 1 + sim.choose(std::max(1, x->rect.h - 1)); mouse(SDL_MOUSEBUTTONDOWN, w->windowID, px, py); if (sim.choose(8)) { if (sim.choose(2)) co::sleep(1 + sim.choose(60000)); mouse(SDL_MOUSEBUTTONUP, w->windowID, px, py); } }
void key(Window w, int scan, int sym, int mod) { SDL_Event e = ev(SDL_KEYDOWN, w->windowID); e.key.keysym.scancode = (SDL_Scancode)scan; e.key.keysym.sym = sym; e.key.keysym.mod = mod; post(e); }
void text(Window w, const std::string &s) { SDL_Event e = ev(SDL_TEXTINPUT, w->windowID); strncpy(e.text.text, s.c_str(), 31); post(e); }
void type(Window w, const std::string &s) { for (size_t i = 0; i < s.size();) { size_t n = 1 + sim.choose(sim.choose(4) ? 1 : 20); text(w, s.substr(i, n)); i += n; } }
void quit() { SDL_Event e = ev(SDL_QUIT, 0); uint32_t g = sim.choose(3); e.window.windowID = g == 0 ? 0 : g == 1 ? sim.random64() : 1 + sim.choose(next_id); quit_at = co::now; sim.ev("%llu: quit", (unsigned long long)co::now); post(e); } // SDL leaves the rest of a quit event undefined
void act() {
    list(); if (!nwin) return; Window w = wins[sim.choose(nwin)]; bool pop = w->popup;
    switch (sim.weighted({chaos ? 12 : pop || sim.choose(3) ? 0 : 2, pop ? chaos ? 4 : 3 : 0, 2, pop ? 2 : 0, 1, 1, chaos ? 1 : 0})) {
    case 0: { Widget x = pickw(w, true); if (x) click(w, x); break; }
    case 1: { Widget x = w->panel->focus; if (!x) { x = pickw(w, true, !chaos); if (x) click(w, x); break; }
        switch (sim.choose(6)) { case 0: key(w, SDL_SCANCODE_U, SDLK_u, KMOD_CTRL); type(w, words[sim.choose(words.size())]); break;
            case 1: { static const int s[] = {SDL_SCANCODE_RETURN, SDL_SCANCODE_HOME, SDL_SCANCODE_END, SDL_SCANCODE_LEFT, SDL_SCANCODE_RIGHT, SDL_SCANCODE_DELETE, SDL_SCANCODE_BACKSPACE}; for (int n = 1 + sim.choose(12); n--;) key(w, sim.pick(s), 0, 0); break; }
            case 2: { static const int s[] = {SDLK_a, SDLK_x, SDLK_c, SDLK_v}; for (int n = 1 + sim.choose(6); n--;) key(w, 0, sim.pick(s), KMOD_CTRL); break; }
            case 3: { std::string t; for (int n = 1 + sim.choose(sim.choose(3) ? 12 : 400); n--;) t += ' ' + sim.choose(95); type(w, t); break; }
            case 4: { int x0 = x->rect.x + sim.choose(x->rect.w), y0 = x->rect.y + 1 + sim.choose(std::max(1, x->rect.h - 1)); mouse(SDL_MOUSEBUTTONDOWN, w->windowID, x0, y0); for (int n = 1 + sim.choose(3); n--;) mouse(SDL_MOUSEMOTION, w->windowID, x->rect.x + sim.choose(x->rect.w), y0); if (sim.choose(4)) mouse(SDL_MOUSEBUTTONUP, w->windowID, x0, y0); break; }
            default: { Widget y = pickw(w, true, !chaos); if (y) click(w, y); } }
        break; }
    case 2: mouse(SDL_MOUSEMOTION, w->windowID, sim.choose(1000), sim.choose(900)); break;
    case 3: { SDL_Event e = ev(SDL_WINDOWEVENT, w->windowID); e.window.event = SDL_WINDOWEVENT_CLOSE; post(e); sim.probe("popup-closed"); break; }
    case 4: { SDL_Event e = ev(SDL_WINDOWEVENT, sim.choose(2) ? w->windowID : 1 + sim.choose(next_id + 2)); e.window.event = sim.choose(16); if (e.window.event == SDL_WINDOWEVENT_CLOSE && !chaos) return; post(e); break; }
    case 5: mouse(SDL_MOUSEBUTTONUP, w->windowID, 5, 5); break;
    default: { static const uint32_t t[] = {SDL_KEYUP, SDL_MOUSEWHEEL, SDL_TEXTEDITING, SDL_CLIPBOARDUPDATE, SDL_AUDIODEVICEADDED}; SDL_Event e = ev(sim.pick(t), w->windowID); post(e); }
    }
}
uint64_t life_us;
void users() {
    while (!ended) {
        if (life_us > UINT64_MAX / 8) { co::sleep(10000); continue; }
        co::sleep(1 + sim.choose(sim.choose(3) ? 20000 : 200)); if (ended || !up) return;
        if (off_at || quit_at) { if (sim.choose(4) == 0 && chaos && up && win_list_head && !down) act(); continue; }
        if (co::now >= life_us) {
            if (sim.fault_scale && sim.choose(4) == 0 && !down) {   // calm down: the processor has to get on
                co::stall_pm = 0; spurious = queue_full = 0; jitter = false; poll_max = std::max(poll_max, 5000u); uint64_t s0 = steps, lim = 20001ull * cost_ns / 1000 + 2000000; co::wait([s0] { return steps > s0 + 20001 || !POWER || ended; }, lim);
                if (POWER && !ended) CHECK(steps > s0 + 20001, "processor-stuck", "the processor does not go on after a pause: %llu steps in %llu milliseconds without faults", (unsigned long long)(steps - s0), (unsigned long long)lim / 1000);
                sim.probe("goes-on"); if (ended || !POWER) continue;
            }
            if (sim.choose(2)) quit(); else { POWER = 0; sim.ev("%llu: power off", (unsigned long long)co::now); sim.probe("power-off-button"); }
            continue;
        }
        if (win_list_head && !down) act();
    }
}
void watch() {
    uint64_t last = 0, since = co::now;
    while (!ended) {
        co::sleep(1000);
        if (ended) return;
        if (!POWER && !off_at) { off_at = co::now; sim.ev("%llu: power is off after %llu steps", (unsigned long long)co::now, (unsigned long long)steps); }
        if (off_at || quit_at) { co::stall_pm = 0; spurious = 0; queue_full = 0; jitter = false; }
        if (steps != last) { last = steps; since = co::now; }
        if (!off_at && !quit_at && co::now - since > 5000000) sim.fail("processor-stuck", "the processor has not run for five seconds while the timer goes on, cpu_count %d", cpu_count);
        if (quit_at && !off_at && co::now - quit_at > 10000000) sim.fail("quit-ignored", "ten seconds after the window system asked it to quit the emulator goes on");
        if (off_at && co::now - off_at > 10000000) { for (auto t : co::tasks) sim.ev("%s done %d wake %lld waits %d", t->name, t->done, (long long)(t->wake - co::now), !!t->ready); } if (off_at && co::now - off_at > 10000000) sim.fail("shutdown-hangs", "ten seconds after power off the emulator has not ended");
    }
}
void fired() { uint64_t d = steps - step_fire; step_fire = steps; (void)d; allow += 20001;
    CHECK(steps <= allow, "pacing", "%llu steps after %llu timer ticks", (unsigned long long)steps, (unsigned long long)timer_fires - 1); CHECK(d <= 3 * 20001, "pacing", "%llu steps between two timer ticks", (unsigned long long)d); }
std::string cfg; 
void tapefile(const char *n, int recs) { std::vector<uint8_t> d; for (int i = 0; i < recs; i++) { uint32_t l = 1 + sim.choose(sim.choose(3) ? 100 : 3000); for (int k = 0; k < 2; k++) { if (k) for (uint32_t j = 0; j < l; j++) d.push_back(sim.choose(4) ? 0x40 + (i * 7 + j) % 160 : 0); for (int b = 0; b < 4; b++) d.push_back(l >> (8 * b)); } if (l & 1) {} } for (int i = 0; i < 8; i++) d.push_back(0); env::put(n, d); }
void deck(const char *n, int cards) { std::vector<uint8_t> d; for (int i = 0; i < cards; i++) { for (int j = 0; j < 72; j++) d.push_back("ABC 123,X"[sim.choose(9)]); d.push_back('\n'); } env::put(n, d); }
void start_run() {
    sock_close_hook = sclose; sim.step_budget = 20000000;
    static const uint32_t pd[] = {0, 0, 30, 300, 3000, 30000}; co::period = sim.pick(pd);
    if (sim.fault_scale) { if (sim.choose(2)) jitter = true; if (sim.choose(2)) spurious = 20; if (sim.choose(3) == 0) queue_full = 1 + sim.choose(40); if (co::period && sim.choose(2)) { co::stall_pm = 1 + sim.choose(10); co::stall_max = 1 + sim.choose(40000); } }
    static const uint32_t cn[] = {200, 900, 1100, 3000, 20000}; cost_ns = sim.pick(cn); static const uint32_t ck[] = {50, 500, 5000}; chunk = sim.pick(ck); static const uint32_t dm[] = {1, 500, 4000, 15000}; draw_max = sim.pick(dm); static const uint32_t po[] = {2, 100, 3000}; poll_max = sim.pick(po);
    if (co::period && co::period < 300) cost_ns = std::max(cost_ns, 20000u);
    life_us = sim.choose(4) ? 20000 + sim.choose(250000) : sim.choose(60000);
    words = {"T0.TAP", "T1.TAP", "T2.TAP", "D.DECK", "OUT.DECK", "P.TXT", "Q.TXT", "D0.DSK", "D1.DSK", "NOSUCH", "5", "20", "999999", "", "VOL001"};
    tapefile("T0.TAP", sim.choose(6)); tapefile("T1.TAP", sim.choose(30)); deck("D.DECK", 1 + sim.choose(40)); allow = 20001;
}
void boot() {
    env::put("C.CFG", std::vector<uint8_t>(cfg.begin(), cfg.end())); CHECK(load_config((char *)"C.CFG"), "config", "configuration refused: %s", cfg.c_str());
    for (int c = 0; c < 6; c++) for (device_t *d = chan[c]; d; d = d->next) { bus[d] = d->bus_func; d->bus_func = sbus; closer[d] = d->close_device; d->close_device = sclosed; }
}
void main_thread(std::function<void()> judge) {
    co::spawn("emulator", [judge] {
        on_timer = fired; real_step = step_cpu; step_cpu = one_step;
        SDL_Setup(title); co::spawn("users", users); co::spawn("watch", watch);
        run_sim(); ended = true; sim.ev("%llu: run_sim returns", (unsigned long long)co::now);
        for (auto &t : thr) CHECK(t.second->done || t.second->name[0] != 'C', "thread-outlives", "the processor's thread is still running after shutdown");
        for (auto &o : live) CHECK(o.second.kind != WIN && o.second.kind != REN, "window-left", "a window is left after shutdown: %s", o.second.name.c_str());
        CHECK(off_at || !POWER, "power", "run_sim returned with power on"); CHECK(steps, "never-ran", "the processor never ran"); sim.state(hash64(co::sched_hash, steps)); if (timer_fires > 3) sim.probe("ticked"); judge(); sim.nontrivial(); sim.done();
    });
    co::run();
}
void conf(bool cpu50) {
    cfg = cpu50 ? "2050F\n1052 01f port=3270\n" : "2030F\n";
    if (sim.choose(4)) cfg += "2415-6 180\n2415u 180 file=\"T0.TAP\" ring\n2415u 181 file=\"T1.TAP\"\n2415u 182\n";
    if (sim.choose(4)) cfg += std::string("1442 00a") + (sim.choose(2) ? " file=\"D.DECK\"" : "") + "\n";
    if (sim.choose(4)) cfg += std::string("1443 00b") + (sim.choose(2) ? " file=\"P.TXT\" start" : "") + "\n";
    if (sim.choose(3) == 0) { cfg += "2844 190\n2314 190\n"; if (sim.choose(2)) cfg += "2314 191\n"; if (sim.choose(3) == 0) cfg += "2314 193\n"; }
}
void go_cpu(uint32_t f) { sim.fault_scale = f; chaos = true; start_run(); conf(sim.choose(2)); boot(); main_thread([] {}); }
// ---- data on its way while people look on
Channel C0, C1; co::Task *chan_task, *cpu_task; bool idle_chan = false;
void hand_over(co::Task *to) { co::Task *me = co::cur; me->wake = UINT64_MAX; me->ready = nullptr; to->wake = 0; co::to(to); me->wake = 0; }
void chan_step() { cpu_task = co::cur; if (idle_chan) return; hand_over(chan_task); }
std::vector<Rec> recs; std::vector<std::string> lines; int in_doubt = 0, in_doubt_line = 0;
void traffic() {
    Sub &t = C1.add(0x80), &p = C0.add(0x0b); size_t at = 0; int n = 0;
    for (;;) {
        switch (sim.weighted({4, recs.empty() ? 0 : 3, 2, 1})) {
        case 0: { while (at < recs.size()) { C1.run(t, { rd(0x37, 1) }); at++; }
            Rec r; r.d.resize(1 + sim.choose(sim.choose(4) ? 40 : 600)); for (auto &c : r.d) c = sim.choose(256); if (sim.choose(8) == 0) { r.mark = true; r.d = {0}; } in_doubt++; sim.ev("%llu: write record %zu, %zu bytes", (unsigned long long)co::now, recs.size(), r.d.size()); C1.run(t, { wr(r.mark ? 0x1f : 0x01, r.d) }); if (r.mark) r.d.clear(); auto &x = t.log[0];
            CHECK((x.all() & ~SNS_CTLEND) == 0x0c, "io-disturbed", "write of record %zu to a tape ends with status %02x", recs.size(), x.all()); recs.push_back(r); at++; in_doubt--; sim.probe("record-written"); break; }
        case 1: { int b = 1 + sim.choose(std::min<size_t>(at, 3)); for (int i = 0; i < b; i++) { C1.run(t, { rd(0x27, 1) }); at--; int st = t.log[0].all() & ~SNS_CTLEND; CHECK(st == (recs[at].mark ? 0x0d : 0x0c), "io-disturbed", "backspace over record %zu ends with status %02x", at, st); }
            for (int i = 0; i < b; i++) { Rec &r = recs[at]; C1.run(t, { rd(0x02, r.mark ? 10 : r.d.size()) }); auto &x = t.log[0]; int st = x.all() & ~SNS_CTLEND; CHECK(st == (r.mark ? 0x0d : 0x0c) && (r.mark || x.bytes == r.d), "io-disturbed", "record %zu of %zu bytes reads back as %zu bytes with status %02x", at, r.d.size(), x.bytes.size(), st); at++; } sim.probe("read-back"); break; }
        case 2: { char b[60]; int w = 1 + sim.choose(30); snprintf(b, sizeof b, "LINE%05d%.*s", n++, w, "ABCDEFGHIJKLMNOPQRSTUVWXYZ012345"); std::vector<uint8_t> d; for (char *c = b; *c; c++) d.push_back(*c >= 'A' && *c <= 'I' ? 0xc1 + *c - 'A' : *c >= 'J' && *c <= 'R' ? 0xd1 + *c - 'J' : *c >= 'S' && *c <= 'Z' ? 0xe2 + *c - 'S' : 0xf0 + *c - '0');
            in_doubt_line++; C0.run(p, { wr(0x09, d) }); int st = p.log[0].all() & ~(SNS_CTLEND | SNS_UNITEXP); CHECK(st == 0x0c, "io-disturbed", "print command ends with status %02x", st); lines.push_back(b); in_doubt_line--; sim.probe("line-printed"); break; }
        default: C1.settle(sim.choose(3000)); }
        sim.state(hash64(recs.size() * 64 + lines.size(), co::sched_hash & 63));
    }
}
void media() {
    fflush(nullptr); auto f = env::get("T0.TAP"); std::vector<Rec> got; size_t used; std::string e = dec(f->data, FMT_TAP, recs.size() + 1, got, used);
    CHECK(got.size() >= recs.size(), "data-lost", "after power off the tape holds %zu of the %zu records written (%s)", got.size(), recs.size(), e.c_str());
    for (size_t i = 0; i < recs.size(); i++) CHECK(got[i] == recs[i], "data-lost", "after power off record %zu of the tape differs from the one written", i);
    CHECK(got.size() <= recs.size() + in_doubt, "data-extra", "after power off the tape holds %zu records, %zu were written", got.size(), recs.size());
    auto g = env::get("P.TXT"); std::string out(g->data.begin(), g->data.end()); size_t at = 0, n = 0;
    for (auto &l : lines) { size_t k = out.find(l, at); CHECK(k != std::string::npos && (k + l.size() == out.size() || out[k + l.size()] < ' '), "data-lost", "after power off line %zu (%s) of %zu printed is not in the printer's file", n, l.c_str(), lines.size()); at = k + l.size(); n++; }
    if (!recs.empty()) sim.probe("tape-after-power-off");
}
void go_io(uint32_t f) {
    sim.fault_scale = f; start_run(); env::put("T0.TAP", {}); words.assign({"X.TAP", "abc", "5", ""});
    cfg = std::string(sim.choose(2) ? "2050F\n" : "2030F\n") + "2415-6 180\n2415u 180 file=\"T0.TAP\" ring\n2415u 181 file=\"T1.TAP\"\n2415u 182\n1443 00b file=\"P.TXT\" start\n"; if (sim.choose(2)) cfg += "1442 00a\n"; boot();
    if (cost_ns < 900) cost_ns = 900; life_us = 20000 + sim.choose(sim.choose(3) ? 300000 : 900000);
    for (Channel *c : {&C0, &C1}) { c->chno = c == &C1; c->pick_timing(); c->adv = 0; c->dmin = c->dmax = 0; c->stall_pm = 0; c->stacks = false; c->limit = 200000000; c->hook = [] { hand_over(cpu_task); }; } C1.selector = true;
    co::count = UINT64_MAX; step_cpu = chan_step; chan_task = co::spawn("channel", traffic); chan_task->wake = UINT64_MAX;
    main_thread(media);
}
// ---- an operator mounts a tape by typing its name
void typed(Window w, char c) { bool up = c >= 'A' && c <= 'Z'; int l = up ? c + 32 : c; key(w, l >= 'a' && l <= 'z' ? SDL_SCANCODE_A + l - 'a' : SDL_SCANCODE_1, l, up ? KMOD_LSHIFT : 0); text(w, std::string(1, c)); }
void drain(const char *what) { if (!co::wait([] { return q.empty(); }, 20000000)) sim.fail("operator-ignored", "%s: the window's events are not taken within 20 seconds", what); co::sleep(50000); }
Window popup_of() { for (Window x = win_list_head; x; x = x->next) if (x->popup) return x; return nullptr; }
void typist() {
    device_t *d = chan[1]; while (d && d->bus_func != sbus) d = d->next; Window devs = nullptr; co::sleep(30000); if (!POWER) return;
    for (Window x = win_list_head; x; x = x->next) if (!strcmp(x->title, "Devices")) devs = x; CHECK(devs && d, "no-devices", "there is no window for the devices");
    int u = sim.choose(3); mouse(SDL_MOUSEBUTTONDOWN, devs->windowID, d->rect[u].x + 50, d->rect[u].y + 50); mouse(SDL_MOUSEBUTTONUP, devs->windowID, 1, 1); drain("click on a drive");
    Window w = popup_of(); CHECK(w, "no-popup", "a click on tape drive 18%d opens no window", u); Widget in = nullptr, load = nullptr; for (Widget x = w->panel->list; x; x = x->next) { if (x->input && !in) in = x; if (x->click && !x->input && !load) load = x; } CHECK(in && load, "no-popup", "the drive's window has no entry field or button");
    std::string m = get_textbuffer(in); size_t at; CHECK(m == (u == 2 ? "" : u ? "T1.TAP" : "T0.TAP"), "entry-text", "the drive's window shows \"%s\" for drive 18%d", m.c_str(), u);
    mouse(SDL_MOUSEBUTTONDOWN, w->windowID, in->rect.x + in->rect.w - 3, in->rect.y + 3); mouse(SDL_MOUSEBUTTONUP, w->windowID, in->rect.x + in->rect.w - 3, in->rect.y + 3); at = m.size();
    if (sim.choose(3)) { key(w, SDL_SCANCODE_U, SDLK_u, KMOD_LCTRL); m.clear(); at = 0; }
    int n = sim.choose(10) ? 3 + sim.choose(30) : 250 + sim.choose(200);
    while (n--) switch (sim.weighted({12, 2, 2, 1, 1, 2})) {
        case 0: { static const char al[] = "abcdefghijklmnopqrstuvwxyzABUXU0123456789._-"; char c = al[sim.choose(sizeof al - 1)]; typed(w, c); if (m.size() < 255) m.insert(at++, 1, c); break; }
        case 1: key(w, SDL_SCANCODE_LEFT, SDLK_LEFT, 0); if (at) at--; break;
        case 2: key(w, SDL_SCANCODE_RIGHT, SDLK_RIGHT, 0); if (at < m.size()) at++; break;
        case 3: key(w, SDL_SCANCODE_HOME, SDLK_HOME, 0); at = 0; break;
        case 4: key(w, SDL_SCANCODE_END, SDLK_END, 0); at = m.size(); break;
        default: key(w, SDL_SCANCODE_BACKSPACE, SDLK_BACKSPACE, 0); if (at) m.erase(--at, 1); }
    if (m.empty()) { typed(w, 'q'); m = "q"; }
    drain("typing"); std::string g = get_textbuffer(in); CHECK(g == m, "entry-text", "the entry field holds \"%s\" where \"%s\" was typed", g.c_str(), m.c_str()); sim.probe("name-typed");
    if (sim.choose(2)) env::put(m.c_str(), {}); auto opens = env::get(m.c_str()) != nullptr;
    mouse(SDL_MOUSEBUTTONDOWN, w->windowID, load->rect.x + 5, load->rect.y + 5); mouse(SDL_MOUSEBUTTONUP, w->windowID, 1, 1); drain("click on LOAD"); 
    _2415_context *c = (_2415_context *)d->dev; if (opens && u == 2) { CHECK(c->tape[2]->file_name && m == c->tape[2]->file_name, "wrong-mount", "LOAD mounts %s where %s was typed", c->tape[2]->file_name ? c->tape[2]->file_name : "nothing", m.c_str()); sim.probe("mounted"); }
    SDL_Event e = ev(SDL_WINDOWEVENT, w->windowID); e.window.event = SDL_WINDOWEVENT_CLOSE; post(e); drain("closing the window"); CHECK(!popup_of(), "popup-stays", "the drive's window does not close"); life_us = co::now;
}
void run_entry() {
    sim.fault_scale = 0; start_run(); life_us = UINT64_MAX / 4; if (co::period && co::period < 3000) co::period = 3000; draw_max = 500; if (cost_ns < 3000) cost_ns = 3000;
    cfg = std::string(sim.choose(2) ? "2050F\n" : "2030F\n") + "2415-6 180\n2415u 180 file=\"T0.TAP\" ring\n2415u 181 file=\"T1.TAP\"\n2415u 182\n"; boot(); co::spawn("operator", typist); main_thread([] {});
}
void run_io() { go_io(0); }
void run_iof() { go_io(1); }
void run_cpu() { go_cpu(0); }
void run_cpuf() { go_cpu(1); }
}
Property property = {
    "C16",
    { {"panel", run_cpu, 3000, 100000, "microseconds"}, {"panel-faults", run_cpuf, 3000, 100000, "microseconds"}, {"entry", run_entry, 1500, 60000, "microseconds"}, {"data", run_io, 1500, 60000, "microseconds"}, {"data-faults", run_iof, 1500, 60000, "microseconds"} },
    "sessions of the whole emulator: run_sim with its event loop, timer and processor thread, a real configuration, the real processor and operator's windows; people click, type, drag, open and close windows at random, then switch off or quit; in the data scenarios a channel writes and reads tape and prints in place of the processor; in the entry scenario an operator mounts a tape by typing its name; threads are switched between any two memory accesses of the panel, device and media code; non-trivial when run_sim returns",
    "distinct (schedule, steps or records written) pairs of whole sessions",
    {"panel.c (run_sim, process, timer, windows)", "every widget", "panel2030.c and panel2050.c", "cpu2030.c and cpu2050.c with their microcode", "panel_device.c", "2415, 1442, 1443, 2314 with their windows", "model1052.c", "conf.c", "device.c", "event.c", "tape.c", "card.c", "dasd.c"},
    {"SDL (threads, locks, timer and event queue under the seeded scheduler; pictures are checked handles)", "host files (simulated disk)", "network (nobody calls)", "picture of tape reels (missing from the repository)", "processor in the data scenarios (a channel)"},
    {"a click on the panel's POWER key or a quit request is the operator's wish to end", "the 2030's console thread ends with the process", "clicks on a device's own controls while it transfers are the operator's responsibility in the data scenarios"},
    {"ticked", "popup-closed", "power-off-button", "record-written", "read-back", "line-printed", "tape-after-power-off", "name-typed", "mounted", "goes-on"}, 30, 800
};
