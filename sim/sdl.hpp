// SDL 2 as the simulator sees it: threads, locks, timers and the event queue
// run under the seeded scheduler of coro.hpp; pictures are only handles, but
// every handle is checked for use after it was destroyed.
#pragma once
#include "coro.hpp"
#include <SDL.h>
#include <SDL_ttf.h>
#include <SDL_image.h>
#include <deque>
#include <map>
#include <set>
#include <string.h>
namespace sdl {
struct Obj { int kind; std::string name; void *parent = nullptr; uint32_t id = 0; int w = 0, h = 0; bool popup = false; };
enum { WIN = 1, REN, TEX, SUR, FONT, MTX, CND, THR, TMR };
inline const char *kname[] = {"", "window", "renderer", "texture", "surface", "font", "mutex", "condition", "thread", "timer"};
inline std::map<void *, Obj> live; inline std::set<void *> dead; inline bool up = false, ttf_up = false; inline uint32_t next_id = 1; inline uint64_t draws = 0, timer_fires = 0, pushed = 0, signals = 0, threads = 0;
inline std::deque<SDL_Event> q; inline std::string clip; inline bool has_clip = false; inline uint32_t poll_max = 2000, draw_max = 3000; inline std::function<void()> on_timer, on_wait_thread, on_present; inline bool jitter = false; inline int spurious = 0, queue_full = 0;
inline void need(const char *fn) { if (!up) sim.fail("sdl-after-quit", "%s called with SDL not running", fn); }
// the object a call names; null if none is given
inline Obj *get(const void *p, int kind, const char *fn) {
    if (!p) return nullptr; auto i = live.find((void *)p);
    if (i == live.end()) { if (dead.count((void *)p)) sim.fail("used-after-destroy", "%s on a %s that was destroyed", fn, kname[kind]); sim.fail("wild-handle", "%s on something that is no %s", fn, kname[kind]); }
    if (i->second.kind != kind) sim.fail("wild-handle", "%s on a %s", fn, kname[i->second.kind]);
    return &i->second;
}
inline void *mk(int kind, const char *nm = "", void *parent = nullptr) { void *p = malloc(64); dead.erase(p); Obj o; o.kind = kind; o.name = nm; o.parent = parent; live[p] = o; return p; }
inline void rm(void *p, int kind, const char *fn) { if (!get(p, kind, fn)) return; live.erase(p); dead.insert(p); }   // the block itself is never reused
struct Mutex { co::Task *owner = nullptr; int depth = 0; int waiters = 0; }; inline std::map<void *, Mutex> mtx;
struct Cond { uint64_t gen = 0; int waiters = 0, wake = 0; }; inline std::map<void *, Cond> cnd;
struct Timer { bool on = true; uint32_t ms; SDL_TimerCallback cb; void *arg; }; inline std::map<int, Timer> tmr; inline int next_tmr = 1; inline std::map<void *, co::Task *> thr;
inline SDL_TimerID in_callback = 0;
}
extern "C" {
using namespace sdl;
int SDL_Init(Uint32) { up = true; return 0; }
void SDL_Quit(void) { need("SDL_Quit"); up = false; for (auto &t : tmr) t.second.on = false; for (auto &o : thr) if (!o.second->done && strcmp(o.second->name, "console")) sim.fail("thread-outlives", "SDL is shut down with thread %s running", o.second->name); }
int TTF_Init(void) { ttf_up = true; return 0; }
void TTF_Quit(void) { if (!ttf_up) sim.fail("sdl-after-quit", "TTF_Quit twice"); ttf_up = false; }
SDL_mutex *SDL_CreateMutex(void) { void *p = mk(MTX); mtx[p]; return (SDL_mutex *)p; }
SDL_cond *SDL_CreateCond(void) { void *p = mk(CND); cnd[p]; return (SDL_cond *)p; }
int SDL_LockMutex(SDL_mutex *m) { get(m, MTX, "SDL_LockMutex"); if (!m) return -1; Mutex &x = mtx[m]; if (x.owner == co::cur) { x.depth++; return 0; } x.waiters++; while (x.owner) co::wait([&x] { return !x.owner; }); x.waiters--; x.owner = co::cur; x.depth = 1; if (co::period) co::yield(); return 0; }
int SDL_TryLockMutex(SDL_mutex *m) { get(m, MTX, "SDL_TryLockMutex"); Mutex &x = mtx[m]; if (x.owner && x.owner != co::cur) return SDL_MUTEX_TIMEDOUT; x.owner = co::cur; x.depth++; return 0; }
int SDL_UnlockMutex(SDL_mutex *m) { get(m, MTX, "SDL_UnlockMutex"); if (!m) return -1; Mutex &x = mtx[m]; if (x.owner != co::cur) sim.fail("unlock-not-owner", "a thread unlocks a mutex it has not locked"); if (!--x.depth) { x.owner = nullptr; if (co::period || x.waiters) co::yield(); } return 0; }
int SDL_CondSignal(SDL_cond *c) { get(c, CND, "SDL_CondSignal"); if (!c) return -1; Cond &x = cnd[c]; signals++; if (x.waiters > x.wake) x.wake++; return 0; }
int SDL_CondBroadcast(SDL_cond *c) { get(c, CND, "SDL_CondBroadcast"); if (!c) return -1; Cond &x = cnd[c]; signals++; x.wake = x.waiters; return 0; }
int SDL_CondWaitTimeout(SDL_cond *c, SDL_mutex *m, Uint32 ms) {
    get(c, CND, "SDL_CondWaitTimeout"); get(m, MTX, "SDL_CondWaitTimeout"); if (!c || !m) return -1; Mutex &x = mtx[m]; Cond &k = cnd[c];
    if (x.owner != co::cur) sim.fail("wait-not-owner", "a thread waits on a condition without holding its mutex");
    if (spurious && sim.choose(100) < (uint32_t)spurious) { sim.fault_fired("spurious-wakeup"); x.depth = 0; x.owner = nullptr; co::yield(); x.waiters++; while (x.owner) co::wait([&x] { return !x.owner; }); x.waiters--; x.owner = co::cur; x.depth = 1; return 0; }
    int d = x.depth; x.depth = 0; x.owner = nullptr; k.waiters++; bool ok = co::wait([&k] { return k.wake > 0; }, ms == SDL_MUTEX_MAXWAIT ? UINT64_MAX / 4 : ms * 1000ull);
    k.waiters--; if (ok) k.wake--; else if (k.wake > k.waiters) k.wake = k.waiters;
    get(c, CND, "SDL_CondWaitTimeout (after waiting)"); get(m, MTX, "SDL_CondWaitTimeout (after waiting)");
    x.waiters++; while (x.owner) co::wait([&x] { return !x.owner; }); x.waiters--; x.owner = co::cur; x.depth = d; return ok ? 0 : SDL_MUTEX_TIMEDOUT;
}
int SDL_CondWait(SDL_cond *c, SDL_mutex *m) { return SDL_CondWaitTimeout(c, m, SDL_MUTEX_MAXWAIT); }
void SDL_DestroyMutex(SDL_mutex *m) { if (!get(m, MTX, "SDL_DestroyMutex")) return; Mutex &x = mtx[m]; if (x.owner || x.waiters) sim.fail("destroyed-in-use", "a mutex is destroyed while a thread holds or waits for it"); rm(m, MTX, ""); }
void SDL_DestroyCond(SDL_cond *c) { if (!get(c, CND, "SDL_DestroyCond")) return; if (cnd[c].waiters) sim.fail("destroyed-in-use", "a condition is destroyed while a thread waits on it"); rm(c, CND, ""); }
SDL_Thread *SDL_CreateThread(SDL_ThreadFunction f, const char *n, void *d) { void *p = mk(THR, n); threads++; thr[p] = co::spawn(strdup(n), [f, d] { f(d); }); return (SDL_Thread *)p; }
void SDL_WaitThread(SDL_Thread *t, int *) { if (!get(t, THR, "SDL_WaitThread")) return; co::Task *k = thr[t]; if (on_wait_thread) on_wait_thread(); if (!co::wait([k] { return k->done; }, 60000000)) sim.fail("join-blocks", "SDL_WaitThread: thread %s does not end within a minute", k->name); thr.erase(t); rm(t, THR, ""); }
void SDL_DetachThread(SDL_Thread *t) { if (get(t, THR, "SDL_DetachThread")) { thr.erase(t); rm(t, THR, ""); } }
SDL_TimerID SDL_AddTimer(Uint32 ms, SDL_TimerCallback cb, void *arg) {
    need("SDL_AddTimer"); int id = next_tmr++; tmr[id] = Timer{true, ms, cb, arg};
    co::spawn("ti", [id] { Timer &t = tmr[id]; while (t.on) { uint64_t us = t.ms * 1000ull; if (jitter && sim.choose(4) == 0) { us += sim.choose(sim.choose(4) ? 15000 : 120000); sim.fault_fired("late-timer"); } co::sleep(us); if (!t.on) break; timer_fires++; if (on_timer) on_timer(); t.ms = t.cb(t.ms, t.arg); if (!t.ms) break; } t.on = false; });
    return id;
}
SDL_bool SDL_RemoveTimer(SDL_TimerID id) { need("SDL_RemoveTimer"); auto i = tmr.find(id); if (i == tmr.end() || !i->second.on) return SDL_FALSE; i->second.on = false; return SDL_TRUE; }
int SDL_PushEvent(SDL_Event *e) { if (!up) return -1; if (q.size() > 65000) return -1; if (queue_full && sim.choose(100) < (uint32_t)queue_full) { sim.fault_fired("event-queue-full"); return -1; } pushed++; q.push_back(*e); return 1; }
int SDL_PollEvent(SDL_Event *e) { need("SDL_PollEvent"); static int idle = 0; if (q.empty()) { if (++idle > 200) co::sleep(1000); else co::sleep(1 + sim.choose(poll_max)); if (q.empty()) return 0; } idle = 0; *e = q.front(); q.pop_front(); return 1; }
int SDL_WaitEventTimeout(SDL_Event *e, int ms) { need("SDL_WaitEventTimeout"); if (!co::wait([] { return !q.empty(); }, ms < 0 ? UINT64_MAX / 4 : ms * 1000ull)) return 0; *e = q.front(); q.pop_front(); return 1; }
int SDL_WaitEvent(SDL_Event *e) { return SDL_WaitEventTimeout(e, -1); }
void SDL_FlushEvent(Uint32 t) { need("SDL_FlushEvent"); std::deque<SDL_Event> r; for (auto &e : q) if (e.type != t) r.push_back(e); q.swap(r); }
Uint32 SDL_GetTicks(void) { return co::now / 1000; }
Uint64 SDL_GetTicks64(void) { return co::now / 1000; }
void SDL_Delay(Uint32 ms) { co::sleep(ms * 1000ull); }
SDL_Window *SDL_CreateWindow(const char *t, int, int, int w, int h, Uint32) { need("SDL_CreateWindow"); void *p = mk(WIN, t); Obj &o = live[p]; o.id = next_id++; o.w = w; o.h = h; return (SDL_Window *)p; }
SDL_Renderer *SDL_CreateRenderer(SDL_Window *w, int, Uint32) { get(w, WIN, "SDL_CreateRenderer"); return (SDL_Renderer *)mk(REN, "", w); }
Uint32 SDL_GetWindowID(SDL_Window *w) { Obj *o = get(w, WIN, "SDL_GetWindowID"); return o ? o->id : 0; }
void SDL_DestroyWindow(SDL_Window *w) { need("SDL_DestroyWindow"); rm(w, WIN, "SDL_DestroyWindow"); }
void SDL_DestroyRenderer(SDL_Renderer *r) { need("SDL_DestroyRenderer"); if (!r) return; rm(r, REN, "SDL_DestroyRenderer"); std::vector<void *> v; for (auto &o : live) if (o.second.kind == TEX && o.second.parent == r) v.push_back(o.first); for (auto p : v) rm(p, TEX, ""); }
void SDL_RaiseWindow(SDL_Window *w) { if (!get(w, WIN, "SDL_RaiseWindow")) sim.fail("wild-handle", "SDL_RaiseWindow without a window"); }
SDL_Surface *IMG_ReadXPMFromArray(char **x) { return (SDL_Surface *)mk(SUR, x[0]); }
static SDL_Surface *render_text(TTF_Font *f, const char *t) { if (!ttf_up) sim.fail("sdl-after-quit", "text drawn with TTF not running"); get(f, FONT, "TTF_RenderText"); if (!f || !t || !*t) return nullptr; return (SDL_Surface *)mk(SUR, std::string(t, strlen(t)).c_str()); }
SDL_Surface *TTF_RenderText_Solid(TTF_Font *f, const char *t, SDL_Color) { return render_text(f, t); }
SDL_Surface *TTF_RenderText_Blended(TTF_Font *f, const char *t, SDL_Color) { return render_text(f, t); }
SDL_Surface *TTF_RenderText_Shaded(TTF_Font *f, const char *t, SDL_Color, SDL_Color) { return render_text(f, t); }
TTF_Font *TTF_OpenFont(const char *, int sz) { void *p = mk(FONT); live[p].h = sz; return (TTF_Font *)p; }
void TTF_CloseFont(TTF_Font *f) { if (!ttf_up) sim.fail("sdl-after-quit", "TTF_CloseFont with TTF not running"); if (!f) sim.fail("wild-handle", "TTF_CloseFont without a font"); rm(f, FONT, "TTF_CloseFont"); }
int TTF_SizeText(TTF_Font *f, const char *t, int *w, int *h) { Obj *o = get(f, FONT, "TTF_SizeText"); if (!o) return -1; size_t n = strlen(t); if (w) *w = n * (o->h * 6 / 10); if (h) *h = o->h * 5 / 4; return 0; }
void SDL_FreeSurface(SDL_Surface *s) { rm(s, SUR, "SDL_FreeSurface"); }
SDL_Texture *SDL_CreateTextureFromSurface(SDL_Renderer *r, SDL_Surface *s) { get(r, REN, "SDL_CreateTextureFromSurface"); Obj *o = get(s, SUR, "SDL_CreateTextureFromSurface"); if (!r || !o) return nullptr; std::string n = o->name; return (SDL_Texture *)mk(TEX, n.c_str(), r); }
void SDL_DestroyTexture(SDL_Texture *t) { rm(t, TEX, "SDL_DestroyTexture"); }
int SDL_QueryTexture(SDL_Texture *t, Uint32 *f, int *a, int *w, int *h) { Obj *o = get(t, TEX, "SDL_QueryTexture"); if (!o) return -1; if (f) *f = 0; if (a) *a = 0; if (w) *w = o->name.size() * 8; if (h) *h = 16; return 0; }
int SDL_SetTextureBlendMode(SDL_Texture *t, SDL_BlendMode) { get(t, TEX, "SDL_SetTextureBlendMode"); return 0; }
int SDL_RenderCopy(SDL_Renderer *r, SDL_Texture *t, const SDL_Rect *, const SDL_Rect *) { get(r, REN, "SDL_RenderCopy"); get(t, TEX, "SDL_RenderCopy"); return t ? 0 : -1; }
int SDL_RenderDrawLine(SDL_Renderer *r, int, int, int, int) { get(r, REN, "SDL_RenderDrawLine"); return 0; }
int SDL_RenderDrawPoint(SDL_Renderer *r, int, int) { get(r, REN, "SDL_RenderDrawPoint"); return 0; }
int SDL_RenderDrawRect(SDL_Renderer *r, const SDL_Rect *) { get(r, REN, "SDL_RenderDrawRect"); return 0; }
int SDL_RenderFillRect(SDL_Renderer *r, const SDL_Rect *) { get(r, REN, "SDL_RenderFillRect"); return 0; }
int SDL_SetRenderDrawColor(SDL_Renderer *r, Uint8, Uint8, Uint8, Uint8) { get(r, REN, "SDL_SetRenderDrawColor"); return 0; }
int SDL_RenderClear(SDL_Renderer *r) { get(r, REN, "SDL_RenderClear"); return 0; }
void SDL_RenderPresent(SDL_Renderer *r) { need("SDL_RenderPresent"); get(r, REN, "SDL_RenderPresent"); draws++; if (on_present) on_present(); if (draw_max) co::sleep(sim.choose(draw_max)); }
void SDL_StartTextInput(void) {}
void SDL_StopTextInput(void) {}
int SDL_SetClipboardText(const char *s) { clip = s; has_clip = true; return 0; }
SDL_bool SDL_HasClipboardText(void) { return has_clip && !clip.empty() ? SDL_TRUE : SDL_FALSE; }
char *SDL_GetClipboardText(void) { return strdup(clip.c_str()); }
void SDL_free(void *p) { free(p); }
const char *SDL_GetError(void) { return ""; }
}
