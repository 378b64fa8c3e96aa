// Simulated operating environment: files, allocation, sockets, process death.
#pragma once
#include "core.hpp"
#include <setjmp.h>
#include <sys/types.h>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <functional>

namespace env {
struct File { std::vector<uint8_t> data; bool readonly = false; };
typedef std::shared_ptr<File> FileP;
extern std::map<std::string, FileP> files;     // the durable disk

struct FaultRates {            // each is num/1000 per call, 0 = off
    uint32_t open_fail = 0, read_eio = 0, write_eio = 0, enospc = 0,
             short_read = 0, short_write = 0, eintr = 0, seek_fail = 0,
             close_fail = 0, alloc_fail = 0;
};
extern FaultRates rates;
extern uint64_t n_syscalls;    // simulated system calls so far
extern uint64_t faults_fired;  // storage faults so far
extern bool     stray_io;      // a call used a descriptor that is not open
extern std::string stray_what;
extern int      open_fds;      // simulated descriptors open now
extern bool     armed;         // faults may fire (set while in code under test)
extern uint64_t alloc_failures;
extern uint64_t file_read_bytes, file_write_bytes;
extern long     disk_limit;    // bytes on the disk before ENOSPC, <0 = unlimited

// process death: when n_syscalls reaches crash_at the process is killed in
// that call (a write may be torn); control returns to the setjmp'd scenario.
extern uint64_t crash_at; extern bool crash_armed; extern jmp_buf crash_env; extern bool crashed;
void crash_now();

FileP get(const std::string &path);            // null if missing
FileP put(const std::string &path, const std::vector<uint8_t> &d);
int   writers(const std::string &path);        // fds open for writing
uint64_t fshash();
void  restart();                               // drop all descriptors (after a crash)
extern std::function<int(const char *, int)> open_hook;
extern long real_live_allocs;
}
