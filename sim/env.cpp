#include "env.hpp"
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>

namespace env {
std::map<std::string, FileP> files;
FaultRates rates;
uint64_t n_syscalls, faults_fired, alloc_failures, file_read_bytes, file_write_bytes;
bool stray_io; std::string stray_what; int open_fds; bool armed; long disk_limit = -1;
uint64_t crash_at; bool crash_armed, crashed; jmp_buf crash_env;
std::function<int(const char *, int)> open_hook;
long real_live_allocs;

struct Fd { FileP f; off_t off = 0; int flags = 0; std::string path; bool open = false; };
static std::vector<Fd> fds;
static const int BASE = 1000;

FileP get(const std::string &p) { auto i = files.find(p); return i == files.end() ? nullptr : i->second; }
FileP put(const std::string &p, const std::vector<uint8_t> &d) { auto f = std::make_shared<File>(); f->data = d; files[p] = f; return f; }
int writers(const std::string &p) { int n = 0; for (auto &f : fds) if (f.open && f.path == p && (f.flags & O_ACCMODE) != O_RDONLY) n++; return n; }
uint64_t fshash() { uint64_t h = 7; for (auto &f : files) { h = hashbytes(f.first.data(), f.first.size(), h); h = hashbytes(f.second->data.data(), f.second->data.size(), h); } return h; }
void restart() { for (auto &f : fds) f.open = false; open_fds = 0; crash_armed = false; crashed = false; }
void crash_now() {
    sim.fault_fired("process-kill"); crashed = true; crash_armed = false;
    longjmp(crash_env, 1);
}
static void syscall_point() { n_syscalls++; sim.step(); }
static bool dying() { return crash_armed && n_syscalls >= crash_at; }
static Fd *lookup(int fd, const char *what) {
    if (fd >= BASE && fd < BASE + (int)fds.size() && fds[fd - BASE].open) return &fds[fd - BASE];
    if (!stray_io) { stray_io = true; stray_what = std::string(what) + " on descriptor " + std::to_string(fd) + " which is not open"; sim.ev("stray %s fd %d", what, fd); }
    return nullptr;
}
static bool flt(const char *k, uint32_t r) {
    if (!armed || !r || !sim.faults_on) return false;
    if (!sim.chance(r, 1000)) return false;
    faults_fired++; sim.fault_fired(k); return true;
}
static long used() { long n = 0; for (auto &f : files) n += f.second->data.size(); return n; }
}
using namespace env;

static int do_open(const char *path, int flags) {
    syscall_point();
    if (dying()) crash_now();
    if (open_hook) { int r = open_hook(path, flags); if (r) { errno = r; return -1; } }
    if (flt("open-eacces", rates.open_fail)) { errno = EACCES; return -1; }
    FileP f = get(path);
    if (!f) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        f = put(path, {});
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        if (f->readonly && (flags & O_ACCMODE) != O_RDONLY) { errno = EACCES; return -1; }
    }
    if (flags & O_TRUNC) f->data.clear();
    size_t i; for (i = 0; i < fds.size(); i++) if (!fds[i].open) break;
    if (i == fds.size()) fds.emplace_back();
    fds[i].f = f; fds[i].off = 0; fds[i].flags = flags; fds[i].path = path; fds[i].open = true;
    open_fds++;
    sim.ev("open %s flags %x -> %d size %zu", path, flags & 0x7ff, (int)i + BASE, f->data.size());
    return BASE + (int)i;
}
static ssize_t do_read(int fd, void *buf, size_t n, off_t at, bool positioned) {
    syscall_point();
    if (dying()) crash_now();
    Fd *d = lookup(fd, "read"); if (!d) { errno = EBADF; return -1; }
    if (flt("read-eio", rates.read_eio)) { errno = EIO; return -1; }
    if (flt("read-eintr", rates.eintr)) { errno = EINTR; return -1; }
    if ((d->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    off_t off = positioned ? at : d->off;
    size_t have = off < (off_t)d->f->data.size() ? d->f->data.size() - off : 0;
    size_t k = n < have ? n : have;
    if (k > 1 && flt("short-read", rates.short_read)) k = 1 + sim.choose(k - 1);
    if (k) memcpy(buf, d->f->data.data() + off, k);
    if (!positioned) d->off += k;
    file_read_bytes += k;
    sim.mix(0x7ead); sim.mix(off); sim.mix(k);
    sim.note("read %s @%lld %zu -> %zu", d->path.c_str(), (long long)off, n, k);
    return k;
}
static ssize_t do_write(int fd, const void *buf, size_t n, off_t at, bool positioned) {
    syscall_point();
    Fd *d = lookup(fd, "write"); if (!d) { if (dying()) crash_now(); errno = EBADF; return -1; }
    bool die = dying();
    size_t k = n;
    if (die) { k = n ? sim.choose(n + 1) : 0; if (k && k < n) sim.fault_fired("torn-write"); }
    else {
        if (flt("write-eio", rates.write_eio)) { errno = EIO; return -1; }
        if (flt("write-eintr", rates.eintr)) { errno = EINTR; return -1; }
        if (flt("write-enospc", rates.enospc)) { errno = ENOSPC; return -1; }
        if (k > 1 && flt("short-write", rates.short_write)) k = 1 + sim.choose(k - 1);
    }
    if ((d->flags & O_ACCMODE) == O_RDONLY) { if (die) crash_now(); errno = EBADF; return -1; }
    off_t off = positioned ? at : (d->flags & O_APPEND) ? (off_t)d->f->data.size() : d->off;
    if (disk_limit >= 0) {
        long room = disk_limit - (used() - (long)d->f->data.size());
        long end = off + (long)k;
        if (end > room && end > (long)d->f->data.size()) {
            long can = room > off ? room - off : 0;
            sim.fault_fired("disk-full"); faults_fired++;
            if (can <= 0) { if (die) crash_now(); errno = ENOSPC; return -1; }
            if ((size_t)can < k) k = can;
        }
    }
    if (off + (off_t)k > (1ll << 31)) { errno = EFBIG; return -1; }
    if (k) {
        if (d->f->data.size() < off + k) d->f->data.resize(off + k, 0);
        memcpy(d->f->data.data() + off, buf, k);
    }
    if (!positioned) d->off = off + k;
    file_write_bytes += k;
    sim.mix(0x3717e); sim.mix(off); sim.mix(hashbytes(buf, k));
    sim.note("write %s @%lld %zu -> %zu", d->path.c_str(), (long long)off, n, k);
    if (die) crash_now();
    return k;
}
static off_t do_lseek(int fd, off_t off, int wh) {
    syscall_point();
    if (dying()) crash_now();
    Fd *d = lookup(fd, "lseek"); if (!d) { errno = EBADF; return -1; }
    if (flt("lseek-fail", rates.seek_fail)) { errno = EIO; return -1; }
    off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? d->off : (off_t)d->f->data.size();
    if (b + off < 0) { errno = EINVAL; return -1; }
    d->off = b + off;
    return d->off;
}
static int do_close(int fd) {
    syscall_point();
    if (dying()) crash_now();
    Fd *d = lookup(fd, "close"); if (!d) { errno = EBADF; return -1; }
    d->open = false; open_fds--;
    sim.ev("close %s", d->path.c_str());
    if (flt("close-eio", rates.close_fail)) { errno = EIO; return -1; }
    return 0;
}

// ---- stdio streams over the simulated files
static ssize_t ck_read(void *c, char *b, size_t n) { ssize_t r; do r = do_read((int)(intptr_t)c, b, n, 0, false); while (r < 0 && errno == EINTR); return r; }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    // a stdio stream retries short writes; a failed write reports 0
    size_t done = 0;
    while (done < n) { ssize_t r = do_write((int)(intptr_t)c, b + done, n - done, 0, false); if (r < 0) { if (errno == EINTR) continue; return done; } if (r == 0) return done; done += r; }
    return done;
}
static int ck_seek(void *c, off64_t *o, int wh) { off_t r = do_lseek((int)(intptr_t)c, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { return do_close((int)(intptr_t)c); }

extern "C" {
int     __real_open(const char *, int, ...);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
off_t   __real_lseek(int, off_t, int);
int     __real_close(int);
FILE   *__real_fopen(const char *, const char *);
void   *__real_malloc(size_t);
void   *__real_calloc(size_t, size_t);
void   *__real_realloc(void *, size_t);
char   *__real_strdup(const char *);

int __wrap_open(const char *p, int flags, ...) { return do_open(p, flags); }
int __wrap_open64(const char *p, int flags, ...) { return do_open(p, flags); }
int __wrap_creat(const char *p, mode_t) { return do_open(p, O_CREAT | O_WRONLY | O_TRUNC); }
ssize_t __wrap_read(int fd, void *b, size_t n) { return do_read(fd, b, n, 0, false); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return do_write(fd, b, n, 0, false); }
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, true); }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, true); }
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t o) { return do_read(fd, b, n, o, true); }
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t o) { return do_write(fd, b, n, o, true); }
off_t __wrap_lseek(int fd, off_t o, int w) { return do_lseek(fd, o, w); }
off_t __wrap_lseek64(int fd, off_t o, int w) { return do_lseek(fd, o, w); }
int __wrap_fsync(int fd) { syscall_point(); if (dying()) crash_now(); return lookup(fd, "fsync") ? 0 : (errno = EBADF, -1); }
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __wrap_ftruncate(int fd, off_t n) {
    syscall_point(); if (dying()) crash_now();
    Fd *d = lookup(fd, "ftruncate"); if (!d) { errno = EBADF; return -1; }
    if ((d->flags & O_ACCMODE) == O_RDONLY) { errno = EINVAL; return -1; }
    if (flt("ftruncate-eio", rates.write_eio)) { errno = EIO; return -1; }
    d->f->data.resize(n, 0); sim.ev("ftruncate %s %lld", d->path.c_str(), (long long)n); return 0;
}
int __wrap_ftruncate64(int fd, off_t n) { return __wrap_ftruncate(fd, n); }
int __wrap_unlink(const char *p) { syscall_point(); if (dying()) crash_now(); sim.ev("unlink %s", p); return files.erase(p) ? 0 : (errno = ENOENT, -1); }
int __wrap_remove(const char *p) { return __wrap_unlink(p); }
int __wrap_rename(const char *a, const char *b) { syscall_point(); if (dying()) crash_now(); auto f = get(a); if (!f) { errno = ENOENT; return -1; } files[b] = f; files.erase(a); sim.ev("rename %s %s", a, b); return 0; }
int __wrap_access(const char *p, int) { syscall_point(); return get(p) ? 0 : (errno = ENOENT, -1); }
static int fill_stat(FileP f, struct stat *s) { memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0660; s->st_size = f->data.size(); s->st_nlink = 1; return 0; }
int __wrap_stat(const char *p, struct stat *s) { syscall_point(); FileP f = get(p); if (!f) { errno = ENOENT; return -1; } return fill_stat(f, s); }
int __wrap_lstat(const char *p, struct stat *s) { return __wrap_stat(p, s); }
int __wrap_fstat(int fd, struct stat *s) { syscall_point(); Fd *d = lookup(fd, "fstat"); if (!d) { errno = EBADF; return -1; } return fill_stat(d->f, s); }

// close() is shared with the socket layer, which claims its own descriptors
int (*sock_close_hook)(int) = nullptr;
int __wrap_close(int fd) { if (sock_close_hook) { int r = sock_close_hook(fd); if (r != -2) return r; } return do_close(fd); }

FILE *__wrap_fopen(const char *p, const char *mode) {
    int fl = strchr(mode, '+') ? O_RDWR : mode[0] == 'r' ? O_RDONLY : O_WRONLY;
    if (mode[0] == 'w') fl |= O_CREAT | O_TRUNC;
    if (mode[0] == 'a') fl |= O_CREAT | O_APPEND;
    int fd = do_open(p, fl);
    if (fd < 0) return nullptr;
    cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
    bool a = armed; armed = false;
    FILE *f = fopencookie((void *)(intptr_t)fd, mode, io);
    armed = a;
    return f;
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }

static bool alloc_fail() {
    if (!armed || !rates.alloc_fail || !sim.faults_on) return false;
    if (!sim.chance(rates.alloc_fail, 1000)) return false;
    alloc_failures++; sim.fault_fired("alloc-fail"); return true;
}
void *__wrap_malloc(size_t n) { if (alloc_fail()) { errno = ENOMEM; return nullptr; } return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (alloc_fail()) { errno = ENOMEM; return nullptr; } return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if (alloc_fail()) { errno = ENOMEM; return nullptr; } return __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { if (alloc_fail()) { errno = ENOMEM; return nullptr; } return __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t n) { if (alloc_fail()) { errno = ENOMEM; return nullptr; } size_t k = strnlen(s, n); char *r = (char *)__real_malloc(k + 1); memcpy(r, s, k); r[k] = 0; return r; }
// exit() in the code under test ends the simulated process
void (*exit_hook)(int) = nullptr;
void __wrap_exit(int c) { if (exit_hook) exit_hook(c); sim.fail("exit-called", "the emulator called exit(%d)", c); }
void __wrap_abort() { sim.fail("abort-called", "the emulator called abort()"); }
}
