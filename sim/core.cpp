// Driver: seeded search over runs, replay gate, minimisation, evidence.
#include "core.hpp"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <atomic>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>

Sim sim;

extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=99:symbolize=0:"
           "malloc_fill_byte=190:max_malloc_fill_size=1073741824:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:handle_segv=1:quarantine_size_mb=16:"
           "handle_abort=1:print_summary=1:detect_odr_violation=0:allow_user_segv_handler=0";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:symbolize=0"; }

// The real libc entry points: the wrapped ones belong to the code under test.
extern "C" {
int __real_open(const char *, int, ...);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
off_t __real_lseek(int, off_t, int);
int __real_close(int);
FILE *__real_fopen(const char *, const char *);
ssize_t __real_pread(int, void *, size_t, off_t);
int __real_ftruncate(int, off_t);
}

enum { MAXC = 1 << 20, MAXNAMES = 96, MAXSTATES = 2048, TRACE = 1 << 20 };
struct Counter { char name[40]; uint64_t n; };
struct Shared {
    volatile uint32_t status;              // 0 running 1 ok 2 fail
    char sig[160]; char msg[2048];
    uint64_t hash, ticks, steps; uint32_t nontrivial;
    uint32_t nc; uint32_t choices[MAXC];
    uint32_t nf; Counter faults[MAXNAMES];
    uint32_t np; Counter probes[MAXNAMES];
    uint32_t ns; uint64_t states[MAXSTATES];
    uint32_t tlen; char trace[TRACE];
};
static Shared *sh;

// ------------------------------------------------------------------ in-run
static uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t rnd() {
    uint64_t s1 = sim.prng[0], s0 = sim.prng[1], r = s0 + s1;
    sim.prng[0] = s0; s1 ^= s1 << 23;
    sim.prng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
    return r;
}
static uint32_t record(uint32_t v) {
    if (sh->nc < MAXC) sh->choices[sh->nc++] = v;
    return v;
}
uint32_t Sim::choose(uint32_t n) {
    if (n <= 1) return 0;
    if (replay) { uint32_t v = rpos < replay->size() ? (*replay)[rpos] : 0; rpos++; return record(v % n); }
    return record((uint32_t)((rnd() >> 11) % n));
}
bool Sim::chance(uint32_t num, uint32_t den) {
    if (num == 0) return false;
    if (replay) { uint32_t v = rpos < replay->size() ? (*replay)[rpos] : 0; rpos++; return record(v ? 1 : 0); }
    return record((rnd() >> 11) % den < num ? 1 : 0);
}
int Sim::weighted(const std::vector<int> &w) {
    uint32_t tot = 0; for (int x : w) tot += x;
    uint32_t r;
    if (replay) {
        uint32_t v = rpos < replay->size() ? (*replay)[rpos] : 0; rpos++;
        v %= w.size(); while (w[v] == 0) v = (v + 1) % w.size();
        return (int)record(v);
    }
    r = (uint32_t)((rnd() >> 11) % tot);
    for (size_t i = 0; i < w.size(); i++) { if (r < (uint32_t)w[i]) return (int)record(i); r -= w[i]; }
    return (int)record(0);
}
uint64_t Sim::random64() {
    // one recorded choice seeds a derived stream, so data stays compact
    uint64_t x = (uint64_t)choose(0xffffffffu) * 0x9e3779b97f4a7c15ull + 77;
    return splitmix(x);
}
static void count(Counter *c, uint32_t &n, const char *name) {
    for (uint32_t i = 0; i < n; i++) if (!strcmp(c[i].name, name)) { c[i].n++; return; }
    if (n < MAXNAMES) { snprintf(c[n].name, sizeof c[n].name, "%s", name); c[n].n = 1; n++; }
}
bool Sim::fault(const char *kind, uint32_t num, uint32_t den) {
    if (!faults_on || fault_scale == 0) return false;
    if (!chance(num * fault_scale, den)) return false;
    fault_fired(kind);
    return true;
}
void Sim::fault_fired(const char *kind) { count(sh->faults, sh->nf, kind); ev("FAULT %s", kind); }
void Sim::probe(const char *name) { count(sh->probes, sh->np, name); }
void Sim::mix(uint64_t v) { sh->hash = hash64(sh->hash, v); }
static void trace(bool verbose, const char *b, int n);
void Sim::ev(const char *fmt, ...) {
    char b[1024];
    va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap);
    if (n < 0) return; if (n > (int)sizeof b - 2) n = sizeof b - 2;
    sh->hash = hashbytes(b, n, sh->hash);
    trace(verbose, b, n);
}
void Sim::note(const char *fmt, ...) {
    if (!verbose) return;
    char b[1024];
    va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b - 1, fmt, ap); va_end(ap);
    if (n < 0) return; if (n > (int)sizeof b - 2) n = sizeof b - 2;
    trace(true, b, n);
}
static void trace(bool verbose, const char *b, int n) {
    if (sh->tlen + n + 2 < TRACE && (verbose || sh->tlen < 3000)) {
        memcpy(sh->trace + sh->tlen, b, n); sh->tlen += n; sh->trace[sh->tlen++] = '\n';
    } else if (verbose) {   // keep the tail of very long traces
        uint32_t half = TRACE / 2;
        memmove(sh->trace + half, sh->trace + half + TRACE / 4, TRACE / 4);
        sh->tlen = half + TRACE / 4;
        memcpy(sh->trace + sh->tlen, b, n); sh->tlen += n; sh->trace[sh->tlen++] = '\n';
    }
}
void Sim::state(uint64_t h) {
    uint32_t i = h % MAXSTATES;
    for (int k = 0; k < 8; k++, i = (i + 1) % MAXSTATES) {
        if (sh->states[i] == h) return;
        if (sh->states[i] == 0) { sh->states[i] = h; sh->ns++; return; }
    }
}
void Sim::step(uint64_t n) {
    steps += n;
    if (steps > step_budget) fail("hang:step-budget", "no progress: more than %llu simulator steps", (unsigned long long)step_budget);
}
static void finish(uint32_t status) {
    sh->ticks = sim.sim_ticks; sh->steps = sim.steps; sh->nontrivial = sim.is_nontrivial;
    sh->status = status; _exit(0);
}
void Sim::fail(const char *sig, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap);
    snprintf(sh->sig, sizeof sh->sig, "%s", sig);
    ev("FAIL %s: %s", sh->sig, sh->msg);
    finish(2); abort();
}
void Sim::done() { finish(1); abort(); }

// ------------------------------------------------------------------ one run
struct Result { uint32_t status = 0; std::string sig, msg, trace; uint64_t hash = 0, ticks = 0, steps = 0; bool nontrivial = false; std::vector<uint32_t> choices; };
static int errfd = -1;
static int g_tier = 0;

static std::string crash_sig(int st) {
    char buf[16384]; memset(buf, 0, sizeof buf);
    ssize_t n = __real_pread(errfd, buf, sizeof buf - 1, 0);
    std::string s(buf, n > 0 ? n : 0);
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) return "hang:cpu-limit";
    size_t p = s.find("SUMMARY: AddressSanitizer: ");
    if (p != std::string::npos) {
        std::string t = s.substr(p + 27); t = t.substr(0, t.find_first_of(" \n"));
        return "memory:" + t;
    }
    p = s.find("runtime error: ");
    if (p != std::string::npos) {
        std::string t = s.substr(p + 15); t = t.substr(0, t.find('\n'));
        return "ub:" + t.substr(0, 100);
    }
    if (WIFSIGNALED(st)) return std::string("signal:") + strsignal(WTERMSIG(st));
    return "exit:" + std::to_string(WEXITSTATUS(st));
}
static std::string crash_msg() {
    char buf[3000]; memset(buf, 0, sizeof buf);
    ssize_t n = __real_pread(errfd, buf, sizeof buf - 1, 0);
    return std::string(buf, n > 0 ? n : 0);
}

// symbolised location of a sanitizer report (best effort, only for the text)
static void run_child(int scn, uint64_t seed, const std::vector<uint32_t> *replay, bool verbose) {
    sh->status = 0; sh->sig[0] = sh->msg[0] = 0; sh->hash = 0xcbf29ce484222325ull; sh->ticks = sh->steps = 0;
    sh->nontrivial = 0; sh->nc = sh->nf = sh->np = 0; sh->tlen = 0;
    if (sh->ns) memset(sh->states, 0, sizeof sh->states); sh->ns = 0;
    if (__real_ftruncate(errfd, 0)) {}
    __real_lseek(errfd, 0, SEEK_SET);
    pid_t pid = fork();
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        dup2(errfd, 2);
        int nul = __real_open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1);
        struct rlimit rl = { (rlim_t)property.cpu_limit_s, (rlim_t)property.cpu_limit_s + 2 };
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit co = { 0, 0 }; setrlimit(RLIMIT_CORE, &co);
        signal(SIGPIPE, SIG_DFL);
        uint64_t x = seed; sim.prng[0] = splitmix(x); sim.prng[1] = splitmix(x) | 1;
        sim.replay = replay; sim.verbose = verbose; sim.tier = g_tier;
        property.scenarios[scn].run();
        sim.done();
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (sh->status == 0) {   // died
        sh->status = 2;
        snprintf(sh->sig, sizeof sh->sig, "%s", crash_sig(st).c_str());
        snprintf(sh->msg, sizeof sh->msg, "%s", crash_msg().c_str());
    }
}
static Result collect() {
    Result r; r.status = sh->status; r.sig = sh->sig; r.msg = sh->msg; r.hash = sh->hash;
    r.ticks = sh->ticks; r.steps = sh->steps; r.nontrivial = sh->nontrivial;
    r.choices.assign(sh->choices, sh->choices + sh->nc);
    r.trace.assign(sh->trace, sh->tlen);
    return r;
}
static Shared *new_shared() {
    Shared *s = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (s == MAP_FAILED) { perror("mmap"); exit(3); }
    return s;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static uint64_t run_seed(uint64_t base, int scn, uint64_t idx) {
    uint64_t h = hashbytes(property.id, strlen(property.id));
    h = hashbytes(property.scenarios[scn].name, strlen(property.scenarios[scn].name), h);
    h = hash64(h, base); h = hash64(h, idx);
    uint64_t x = h; return splitmix(x);
}

// ------------------------------------------------------------------ known findings
struct Known { std::string sig, text; uint64_t hits = 0; };
static std::vector<Known> load_known(const std::string &dir) {
    std::vector<Known> k;
    FILE *f = __real_fopen((dir + "/known_findings.txt").c_str(), "r");
    if (!f) return k;
    char line[2048];
    std::string pre = std::string("finding: property=") + property.id + " sig=";
    while (fgets(line, sizeof line, f)) {
        std::string l = line; while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
        if (l.compare(0, pre.size(), pre) == 0) {
            std::string r = l.substr(pre.size()); size_t sp = r.find(' ');
            Known x; x.sig = r.substr(0, sp); x.text = sp == std::string::npos ? "" : r.substr(sp + 1); k.push_back(x);
        }
    }
    fclose(f);
    return k;
}
static int known_index(const std::vector<Known> &k, const char *sig) {
    for (size_t i = 0; i < k.size(); i++) if (k[i].sig == sig) return (int)i;
    return -1;
}

// ------------------------------------------------------------------ replay files
static bool write_replay(const std::string &path, int scn, uint64_t seed, uint64_t idx, const Result &r, size_t orig) {
    FILE *f = __real_fopen(path.c_str(), "w"); if (!f) return false;
    fprintf(f, "property %s\nscenario %s\nseed %llu\nrun %llu\nsig %s\nhash %016llx\n", property.id, property.scenarios[scn].name,
            (unsigned long long)seed, (unsigned long long)idx, r.sig.c_str(), (unsigned long long)r.hash);
    fprintf(f, "# choices before minimisation: %zu\nchoices %zu\n", orig, r.choices.size());
    for (size_t i = 0; i < r.choices.size(); i++) fprintf(f, "%u%c", r.choices[i], (i % 24 == 23) ? '\n' : ' ');
    fprintf(f, "\nend\n# violation: %s\n# schedule and fault trace of the minimised run:\n", r.sig.c_str());
    const char *p = r.trace.c_str();
    while (*p) { const char *e = strchr(p, '\n'); size_t n = e ? e - p : strlen(p); fprintf(f, "#   %.*s\n", (int)n, p); p += n + (e ? 1 : 0); }
    fprintf(f, "# message: ");
    for (char c : r.msg) { fputc(c, f); if (c == '\n') fprintf(f, "#   "); }
    fprintf(f, "\n");
    fclose(f); return true;
}
static int cmd_replay(const char *path, bool quiet) {
    FILE *f = __real_fopen(path, "r"); if (!f) { perror(path); return 2; }
    char line[4096], scname[128] = "", sig[200] = ""; unsigned long long hash = 0; size_t n = 0; std::vector<uint32_t> ch;
    while (fgets(line, sizeof line, f)) {
        if (!strncmp(line, "scenario ", 9)) sscanf(line + 9, "%127s", scname);
        else if (!strncmp(line, "sig ", 4)) { snprintf(sig, sizeof sig, "%.190s", line + 4); sig[strcspn(sig, "\n")] = 0; }
        else if (!strncmp(line, "hash ", 5)) sscanf(line + 5, "%llx", &hash);
        else if (!strncmp(line, "choices ", 8)) { sscanf(line + 8, "%zu", &n); for (size_t i = 0; i < n; i++) { unsigned v; if (fscanf(f, "%u", &v) != 1) break; ch.push_back(v); } break; }
    }
    fclose(f);
    int scn = -1; for (size_t i = 0; i < property.scenarios.size(); i++) if (!strcmp(property.scenarios[i].name, scname)) scn = i;
    if (scn < 0) { fprintf(stderr, "unknown scenario %s\n", scname); return 2; }
    Result a, b;
    run_child(scn, 0, &ch, true); a = collect();
    run_child(scn, 0, &ch, true); b = collect();
    if (!quiet) { printf("%s", a.trace.c_str()); printf("result: status %u sig %s hash %016llx\n%s\n", a.status, a.sig.c_str(), (unsigned long long)a.hash, a.msg.c_str()); }
    if (a.hash != b.hash || a.sig != b.sig) { printf("NONDETERMINISTIC replay\n"); return 2; }
    if (a.status == 2) {
        bool same = a.sig == sig && a.hash == hash;
        if (!quiet || !same) printf("replay %s\n", same ? "reproduced exactly" : "fails, but not identically to the recording");
        printf("VIOLATION property=%s replay=%s\n", property.id, path);
        return same ? 1 : 4;
    }
    printf("replay did not fail\n");
    return 0;
}

// ------------------------------------------------------------------ minimise
static Result minimise(int scn, const Result &orig, double budget, uint64_t &tries) {
    Result best = orig; double end = now() + budget; tries = 0;
    auto attempt = [&](const std::vector<uint32_t> &c) {
        if (now() > end) return false;
        tries++;
        run_child(scn, 0, &c, false);
        if (sh->status == 2 && best.sig == sh->sig) { Result r = collect();
            if (r.choices.size() <= best.choices.size()) { best = r; return true; } }
        return false;
    };
    // cut the unused tail implicitly (collect() returns only consumed choices)
    attempt(best.choices);
    // truncate
    for (size_t cut = best.choices.size() / 2; cut > 0; cut /= 2)
        while (best.choices.size() > cut) { std::vector<uint32_t> c(best.choices.begin(), best.choices.end() - cut); if (!attempt(c)) break; }
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t len = std::max<size_t>(best.choices.size() / 2, 1); len > 0 && now() < end; len /= 2) {
            for (size_t i = 0; i + len <= best.choices.size() && now() < end;) {
                std::vector<uint32_t> c = best.choices; c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c)) progress = true; else i += len;
            }
        }
        for (size_t len = std::max<size_t>(best.choices.size() / 4, 1); len > 0 && now() < end; len /= 2)
            for (size_t i = 0; i + len <= best.choices.size() && now() < end; i += len) {
                std::vector<uint32_t> c = best.choices; bool any = false;
                for (size_t k = i; k < i + len; k++) if (c[k]) { c[k] = 0; any = true; }
                if (any) { auto before = best.choices; if (attempt(c) && best.choices != before) progress = true; }
            }
        for (size_t i = 0; i < best.choices.size() && now() < end; i++) {
            while (best.choices[i] > 1) { std::vector<uint32_t> c = best.choices; c[i] /= 2; size_t sz = best.choices.size(); if (!attempt(c) || best.choices.size() < sz) break; if (i >= best.choices.size()) break; }
            if (i >= best.choices.size()) break;
        }
    }
    return best;
}

// ------------------------------------------------------------------ search
struct Global {
    std::atomic<uint64_t> next; std::atomic<uint64_t> fail_idx; std::atomic<uint32_t> stop;
    std::atomic<uint64_t> runs, nontrivial, ticks, steps, hang;
};
struct FailRec { uint64_t idx; uint64_t seed; int scn; char sig[160]; char msg[512]; };
struct WStats {
    uint32_t nf, np; Counter faults[MAXNAMES], probes[MAXNAMES];
    uint64_t scn_runs[16]; uint64_t scn_ticks[16];
    uint32_t nfail; FailRec fail[32];
    uint64_t known_hits[64];
    uint64_t faulty_runs;
};
static void add(Counter *c, uint32_t &n, const Counter &x) {
    for (uint32_t i = 0; i < n; i++) if (!strcmp(c[i].name, x.name)) { c[i].n += x.n; return; }
    if (n < MAXNAMES) c[n++] = x;
}
static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

static int cmd_run(int tier, uint64_t vseed, const std::string &dir, uint64_t one, double wall_override) {
    double t0 = now();
    g_tier = tier;
    double wall = tier ? property.thorough_wall_s : property.quick_wall_s;
    if (wall_override > 0) wall = wall_override;
    auto known = load_known(dir);
    // schedule of runs: scenarios interleaved in proportion to their run counts
    size_t ns = property.scenarios.size();
    std::vector<uint64_t> want(ns); uint64_t total = 0;
    for (size_t i = 0; i < ns; i++) { want[i] = tier ? property.scenarios[i].thorough_runs : property.scenarios[i].quick_runs; total += want[i]; }
    std::vector<uint8_t> order; order.reserve(total);
    { std::vector<double> acc(ns, 0); std::vector<uint64_t> used(ns, 0);
      for (uint64_t k = 0; k < total; k++) {
          int b = -1; for (size_t i = 0; i < ns; i++) { acc[i] += (double)want[i] / total; if (used[i] < want[i] && (b < 0 || acc[i] > acc[b])) b = i; }
          acc[b] -= 1; used[b]++; order.push_back(b);
      } }
    Global *g = (Global *)mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (g) Global(); g->fail_idx = ~0ull; g->next = 0;
    int W = property.max_workers;
    WStats *ws = (WStats *)mmap(nullptr, sizeof(WStats) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<int> hashfd(W);
    for (int w = 0; w < W; w++) hashfd[w] = memfd_create("h", 0);
    std::vector<pid_t> pids;
    for (int w = 0; w < W; w++) {
        pid_t p = fork();
        if (p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            sh = new_shared(); errfd = memfd_create("err", 0);
            std::unordered_set<uint64_t> runs, nontriv, states;
            WStats &st = ws[w];
            while (true) {
                uint64_t i = g->next.fetch_add(1);
                if (i >= total || i > g->fail_idx.load()) break;
                if (now() - t0 > wall) { g->stop = 1; break; }
                int scn = order[i]; uint64_t seed = run_seed(vseed, scn, i);
                run_child(scn, seed, nullptr, false);
                g->runs++; g->ticks += sh->ticks; g->steps += sh->steps;
                st.scn_runs[scn]++; st.scn_ticks[scn] += sh->ticks;
                for (uint32_t k = 0; k < sh->nf; k++) add(st.faults, st.nf, sh->faults[k]);
                if (sh->nf) st.faulty_runs++;
                for (uint32_t k = 0; k < sh->np; k++) add(st.probes, st.np, sh->probes[k]);
                if (states.size() < 4000000) for (uint32_t k = 0; k < MAXSTATES && sh->ns; k++) if (sh->states[k]) states.insert(sh->states[k]);
                runs.insert(sh->hash);
                if (sh->nontrivial || sh->status == 2) nontriv.insert(sh->hash);
                if (sh->status == 2) {
                    int ki = known_index(known, sh->sig);
                    if (ki >= 0 && ki < 64) { st.known_hits[ki]++; continue; }
                    if (st.nfail < 32) { FailRec &f = st.fail[st.nfail++]; f.idx = i; f.seed = seed; f.scn = scn;
                        snprintf(f.sig, sizeof f.sig, "%s", sh->sig); snprintf(f.msg, sizeof f.msg, "%.500s", sh->msg); }
                    uint64_t cur = g->fail_idx.load(); while (i < cur && !g->fail_idx.compare_exchange_weak(cur, i)) {}
                }
            }
            uint64_t hdr[3] = { runs.size(), nontriv.size(), states.size() };
            auto put = [&](const void *p, size_t n) { const char *c = (const char *)p; while (n) { ssize_t k = __real_write(hashfd[w], c, n); if (k <= 0) _exit(5); c += k; n -= k; } };
            put(hdr, sizeof hdr);
            for (auto *s : { &runs, &nontriv, &states }) { std::vector<uint64_t> v(s->begin(), s->end()); put(v.data(), v.size() * 8); }
            _exit(0);
        }
        pids.push_back(p);
    }
    bool broken = false;
    for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) broken = true; }
    double search_s = now() - t0;
    if (broken) { printf("ERROR: a simulation worker died\n"); return 2; }
    // merge
    std::unordered_set<uint64_t> runs, nontriv, states; WStats tot; memset(&tot, 0, sizeof tot);
    for (int w = 0; w < W; w++) {
        __real_lseek(hashfd[w], 0, SEEK_SET); uint64_t hdr[3];
        if (__real_read(hashfd[w], hdr, sizeof hdr) != sizeof hdr) { printf("ERROR: worker result missing\n"); return 2; }
        std::unordered_set<uint64_t> *dst[3] = { &runs, &nontriv, &states };
        for (int j = 0; j < 3; j++) { std::vector<uint64_t> v(hdr[j]); char *c = (char *)v.data(); size_t n = hdr[j] * 8; while (n) { ssize_t k = __real_read(hashfd[w], c, n); if (k <= 0) break; c += k; n -= k; } dst[j]->insert(v.begin(), v.end()); }
        for (uint32_t k = 0; k < ws[w].nf; k++) add(tot.faults, tot.nf, ws[w].faults[k]);
        for (uint32_t k = 0; k < ws[w].np; k++) add(tot.probes, tot.np, ws[w].probes[k]);
        for (int k = 0; k < 16; k++) { tot.scn_runs[k] += ws[w].scn_runs[k]; tot.scn_ticks[k] += ws[w].scn_ticks[k]; }
        for (int k = 0; k < 64; k++) tot.known_hits[k] += ws[w].known_hits[k];
        tot.faulty_runs += ws[w].faulty_runs;
    }
    sh = new_shared(); errfd = memfd_create("err", 0);
    // determinism gate: some runs twice, hashes must match
    uint64_t det = 0;
    for (size_t s = 0; s < ns; s++) for (uint64_t k = 0; k < 2; k++) {
        if (!want[s]) continue;
        uint64_t seed = run_seed(vseed, s, 1000000007ull + k);
        run_child(s, seed, nullptr, false); Result a = collect();
        run_child(s, seed, nullptr, true); Result b = collect();
        if (a.hash != b.hash || a.sig != b.sig || a.choices != b.choices) {
            printf("ERROR: run of scenario %s seed %llu is not deterministic (%016llx/%016llx %s/%s)\n", property.scenarios[s].name, (unsigned long long)seed, (unsigned long long)a.hash, (unsigned long long)b.hash, a.sig.c_str(), b.sig.c_str());
            return 2;
        }
        det++;
    }
    std::vector<std::string> samples;
    for (size_t s = 0; s < ns; s++) { if (!want[s]) continue; uint64_t seed = run_seed(vseed, s, s); run_child(s, seed, nullptr, true); Result a = collect();
        std::string t = a.trace.substr(0, 1500); samples.push_back(std::string("scenario ") + property.scenarios[s].name + " seed " + std::to_string(seed) + " choices " + std::to_string(a.choices.size()) + ":\n" + t); }

    int rc = 0; uint64_t violations = 0;
    std::vector<const FailRec *> fails; const FailRec *first = nullptr; Result r, r2;
    for (int w = 0; w < W; w++) for (uint32_t k = 0; k < ws[w].nfail; k++) fails.push_back(&ws[w].fail[k]);
    std::sort(fails.begin(), fails.end(), [](const FailRec *x, const FailRec *y) { return x->idx < y->idx; });
    for (size_t k = 0; k < fails.size() && k < 20; k++) {       // the first whose choices all fit in a replay file
        first = fails[k]; run_child(first->scn, first->seed, nullptr, false); r = collect();
        if (r.choices.size() < MAXC) break;
    }
    std::string replay_path; std::string vtext;
    if (first) {
        run_child(first->scn, first->seed, nullptr, false); r2 = collect();
        if (r.status != 2 || r.sig != first->sig || r.hash != r2.hash || r.choices.size() >= MAXC) {
            printf("ERROR: failing run (seed %llu, %s) did not reproduce: %s -> %u %s (%016llx/%016llx, %zu choices)\n", (unsigned long long)first->seed, property.scenarios[first->scn].name, first->sig, r.status, r.sig.c_str(), (unsigned long long)r.hash, (unsigned long long)r2.hash, r.choices.size());
            return 2;
        }
        uint64_t tries; size_t orig = r.choices.size();
        bool hang = r.sig.compare(0, 5, "hang:") == 0;
        Result m = minimise(first->scn, r, tier ? 120 : (hang ? 60 : 40), tries);
        run_child(first->scn, 0, &m.choices, true); m = collect();
        mkdir((dir + "/replays").c_str(), 0777);
        replay_path = dir + "/replays/" + property.id + "-" + std::to_string(vseed) + "-" + std::to_string(first->idx) + ".replay";
        write_replay(replay_path, first->scn, first->seed, first->idx, m, orig);
        // fresh-process replay gate
        char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n > 0 ? n : 0] = 0;
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) { int nul = __real_open("/dev/null", O_RDWR); dup2(nul, 1); execl(self, self, "replay", replay_path.c_str(), "--quiet", (char *)nullptr); _exit(9); }
        int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { printf("ERROR: replay file did not reproduce in a fresh process (status %d)\n", st); return 2; }
        printf("violation: %s\n%s\n", m.sig.c_str(), m.msg.c_str());
        printf("seed %llu scenario %s run %llu: %zu choices minimised to %zu in %llu replays\n", (unsigned long long)first->seed, property.scenarios[first->scn].name, (unsigned long long)first->idx, orig, m.choices.size(), (unsigned long long)tries);
        { std::string t = m.trace; if (t.size() > 6000) t = t.substr(0, 2500) + "...\n" + t.substr(t.size() - 3000); printf("%s", t.c_str()); }
        vtext = m.sig + ": " + m.msg;
        printf("VIOLATION property=%s replay=%s\n", property.id, replay_path.c_str());
        rc = 1; violations = 1;
    }
    for (size_t k = 0; k < known.size() && k < 64; k++) printf("KNOWN-FINDING: property=%s %s (seen in %llu runs)\n", property.id, known[k].text.c_str(), (unsigned long long)tot.known_hits[k]);

    std::vector<std::string> dead;
    for (auto *pn : property.probes) { bool hit = false; for (uint32_t k = 0; k < tot.np; k++) if (!strcmp(tot.probes[k].name, pn)) hit = true; if (!hit) dead.push_back(pn); }
    double wall_s = now() - t0;
    // evidence
    mkdir((dir + "/evidence").c_str(), 0777);
    FILE *f = __real_fopen((dir + "/evidence/" + property.id + ".json").c_str(), "w");
    if (!f) { perror("evidence"); return 2; }
    fprintf(f, "{\n \"property\": \"%s\", \"tier\": \"%s\", \"seed\": %llu, \"level\": \"exploration\",\n \"coverage\": {\n", property.id, tier ? "thorough" : "quick", (unsigned long long)vseed);
    fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n  \"rule\": %s,\n", (unsigned long long)g->runs.load(), nontriv.size(), jstr(property.rule).c_str());
    fprintf(f, "  \"distinct_runs\": %zu,\n  \"distinct_states\": %zu,\n  \"distinct_states_measure\": %s,\n", runs.size(), states.size(), jstr(property.states_measure).c_str());
    fprintf(f, "  \"runs_per_hour\": %.0f,\n  \"seeds_per_hour\": %.0f,\n  \"stopped_by_wall_cap\": %s,\n", g->runs / search_s * 3600, g->runs / search_s * 3600, g->stop ? "true" : "false");
    fprintf(f, "  \"simulated_ticks\": %llu,\n  \"runs_with_faults\": %llu,\n  \"runs_without_faults\": %llu,\n", (unsigned long long)g->ticks.load(), (unsigned long long)tot.faulty_runs, (unsigned long long)(g->runs - tot.faulty_runs));
    fprintf(f, "  \"scenarios\": {"); for (size_t i = 0; i < ns; i++) fprintf(f, "%s%s: {\"runs\": %llu, \"simulated_time\": %llu, \"unit\": %s}", i ? ", " : "", jstr(property.scenarios[i].name).c_str(), (unsigned long long)tot.scn_runs[i], (unsigned long long)tot.scn_ticks[i], jstr(property.scenarios[i].ticks_unit).c_str());
    fprintf(f, "},\n  \"faults_injected\": {"); for (uint32_t i = 0; i < tot.nf; i++) fprintf(f, "%s%s: %llu", i ? ", " : "", jstr(tot.faults[i].name).c_str(), (unsigned long long)tot.faults[i].n);
    fprintf(f, "},\n  \"reach_probes\": {"); for (uint32_t i = 0; i < tot.np; i++) fprintf(f, "%s%s: %llu", i ? ", " : "", jstr(tot.probes[i].name).c_str(), (unsigned long long)tot.probes[i].n);
    fprintf(f, "},\n  \"probes_never_reached\": ["); for (size_t i = 0; i < dead.size(); i++) fprintf(f, "%s%s", i ? ", " : "", jstr(dead[i]).c_str());
    fprintf(f, "],\n  \"same_seed_twice_checked\": %llu,\n", (unsigned long long)det);
    fprintf(f, "  \"real_components\": ["); for (size_t i = 0; i < property.real.size(); i++) fprintf(f, "%s%s", i ? ", " : "", jstr(property.real[i]).c_str());
    fprintf(f, "],\n  \"stub_components\": ["); for (size_t i = 0; i < property.stub.size(); i++) fprintf(f, "%s%s", i ? ", " : "", jstr(property.stub[i]).c_str());
    fprintf(f, "],\n"); if (!vtext.empty()) fprintf(f, "  \"violation\": %s,\n  \"replay\": %s,\n", jstr(vtext).c_str(), jstr(replay_path).c_str());
    fprintf(f, "  \"samples\": ["); for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? ",\n   " : "", jstr(samples[i]).c_str());
    fprintf(f, "]\n },\n \"assumptions\": ["); for (size_t i = 0; i < property.assumptions.size(); i++) fprintf(f, "%s%s", i ? ", " : "", jstr(property.assumptions[i]).c_str());
    fprintf(f, "],\n \"wall_s\": %.2f,\n \"violations\": %llu\n}\n", wall_s, (unsigned long long)violations);
    fclose(f);
    printf("%s %s seed %llu: %llu runs (%zu distinct, %zu non-trivial), %zu states, %llu ticks, %.1fs%s\n", property.id, tier ? "thorough" : "quick", (unsigned long long)vseed, (unsigned long long)g->runs.load(), runs.size(), nontriv.size(), states.size(), (unsigned long long)g->ticks.load(), wall_s, g->stop ? " (wall cap)" : "");
    if (!dead.empty()) { printf("note: reach probes never hit:"); for (auto &d : dead) printf(" %s", d.c_str()); printf("\n"); }
    return rc;
}

// debugging helper: run one seed of one scenario verbosely, or list failure classes
static int cmd_survey(uint64_t vseed, uint64_t n, const char *only) {
    uint64_t w = 0;
    for (w = 1; w < 8; w++) if (fork() == 0) break;
    sh = new_shared(); errfd = memfd_create("err", 0);
    std::map<std::string, std::vector<uint64_t>> bysig; std::map<std::string, std::string> msg;
    for (size_t s = 0; s < property.scenarios.size(); s++) {
        if (only && strcmp(only, property.scenarios[s].name)) continue;
        for (uint64_t i = w % 8; i < n; i += 8) {
            uint64_t seed = run_seed(vseed, s, i);
            run_child(s, seed, nullptr, false);
            if (sh->status == 2) { std::string k = std::string(property.scenarios[s].name) + " " + sh->sig; bysig[k].push_back(i); if (!msg.count(k)) msg[k] = sh->msg; }
        }
    }
    for (auto &x : bysig) { printf("%-60s %zu first-index %llu\n    %s\n", x.first.c_str(), x.second.size(), (unsigned long long)x.second[0], msg[x.first].substr(0, 1500).c_str()); }
    fflush(stdout);
    if (w < 8) _exit(0);
    while (waitpid(-1, nullptr, 0) > 0) { }
    return 0;
}
static int cmd_one(uint64_t vseed, const char *scname, uint64_t i, bool min) {
    sh = new_shared(); errfd = memfd_create("err", 0);
    for (size_t s = 0; s < property.scenarios.size(); s++) if (!strcmp(property.scenarios[s].name, scname)) {
        run_child(s, run_seed(vseed, s, i), nullptr, !getenv("VERIF_QUIET")); Result r = collect();
        if (min && r.status == 2) { uint64_t t; r = minimise(s, r, 60, t); run_child(s, 0, &r.choices, true); r = collect(); }
        printf("%s\nhash %016llx status %u sig %s choices %zu ticks %llu\n%s\n", r.trace.c_str(), (unsigned long long)r.hash, r.status, r.sig.c_str(), r.choices.size(), (unsigned long long)r.ticks, r.msg.c_str());
    }
    return 0;
}

int main(int argc, char **argv) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::string dir = getenv("VERIF_DIR") ? getenv("VERIF_DIR") : "/verif";
    if (argc >= 3 && !strcmp(argv[1], "replay")) {
        sh = new_shared(); errfd = memfd_create("err", 0);
        int rc = cmd_replay(argv[2], argc > 3);
        return rc;
    }
    if (argc >= 2 && !strcmp(argv[1], "run")) {
        const char *t = getenv("VERIF_TIER"), *s = getenv("VERIF_SEED");
        int tier = t && !strcmp(t, "thorough"); uint64_t seed = s ? strtoull(s, nullptr, 10) : 1; double wall = 0;
        for (int i = 2; i < argc; i++) { if (!strcmp(argv[i], "--thorough")) tier = 1; if (!strcmp(argv[i], "--quick")) tier = 0; if (!strcmp(argv[i], "--wall") && i + 1 < argc) wall = atof(argv[++i]); }
        return cmd_run(tier, seed, dir, 0, wall);
    }
    if (argc >= 3 && !strcmp(argv[1], "survey")) { const char *s = getenv("VERIF_SEED"); return cmd_survey(s ? strtoull(s, nullptr, 10) : 1, strtoull(argv[2], nullptr, 10), argc > 3 ? argv[3] : nullptr); }
    if (argc >= 4 && (!strcmp(argv[1], "one") || !strcmp(argv[1], "min"))) { const char *s = getenv("VERIF_SEED"); return cmd_one(s ? strtoull(s, nullptr, 10) : 1, argv[2], strtoull(argv[3], nullptr, 10), !strcmp(argv[1], "min")); }
    fprintf(stderr, "usage: %s run [--thorough] | replay FILE | survey N [scenario] | one SCENARIO INDEX | min SCENARIO INDEX\n", argv[0]);
    return 2;
}
