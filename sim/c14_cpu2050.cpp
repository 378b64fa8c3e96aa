// C14: Model 50 running seeded programs while interruptions arrive at seeded cycles.
#include "prog360.hpp"
extern "C" {
#include "device.h"
#include "cpu.h"
#include "conf.h"
#include "event.h"
#include "model2050.h"
#include "logger.h"
extern int log_enable;
int load_line(char *);
}
namespace {
uint8_t cb(uint32_t a) { return M[a >> 2] >> (8 * (3 - (a & 3))); }
void setb(uint32_t a, uint8_t v) { int o = 8 * (3 - (a & 3)); M[a >> 2] = (M[a >> 2] & ~(0xffu << o)) | (uint32_t)v << o; }
uint64_t cf(int i) { return (uint64_t)cpu_2050.LS[0x20 + 2 * i] << 32 | cpu_2050.LS[0x21 + 2 * i]; }
bool mach_keywait() { return INTR; }
bool mach_timer() { return true; }
bool mach_tstep(uint32_t d) { return d == 0x500 || d == 0x600 || d == 0x100; }
void mach_cycle() { cycle_2050(); }
bool mach_wait() { return cpu_2050.wait; }
bool mach_manual() { return true; }
int mach_micro() { return cpu_2050.ROAR; }
int mach_ia() { return cpu_2050.IA_REG; }
void mach_key(int block, int key) { cpu_2050.MP[block] = key; }
void mach_start() { cpu_2050.IA_REG = Prog::START; START = 1; }
void mach_reset() {
    static char ln[] = "2050F\n"; load_line(ln);
    SYS_RST = 1; CHK_SW = 2; RATE_SW = 1; PROC_SW = 1;
    for (int i = 0; cpu_2050.ROAR != 0x150; i++) { if (i > 200000) sim.fail("reset", "reset does not end"); cycle_2050(); }
}
}
#define MACH_FLT true
#define MACH_SLOW 1
#define MACH_FIXSTEP true
#include "cpurun.hpp"
Property property = {
    "C14",
    { {"alone", run_plain, 12000, 300000, "processor cycles"}, {"interrupted", run_int, 12000, 300000, "processor cycles"} },
    "seeded System/360 programs (fixed point, decimal, character, floating point, branches, loops, EXECUTE, status switching, storage keys, wait states, faulty instructions) run by the Model 50 microprogram beside a reference interpreter, with the interrupt key, interval timer ticks and operator stop/start at seeded cycles; non-trivial when the program ends or a predicted interruption ends the comparison",
    "distinct (interrupted instruction address, condition code, interruption code) points",
    {"cpu2050.c", "model2050_ros.c (microprogram)", "device.c", "event.c"},
    {"panel (switches set by the driver)", "logger", "20 ms timer thread (timer_event set by the driver)"},
    {"results the architecture leaves unpredictable end the comparison: terminated operations, invalid digits in multiply, divide and the extension of a compare operand, the low half after a short underflow, the sign of a halved number which underflows",
     "the interval timer steps by one fixed amount per tick; a tick which finds the processor stopped is not kept"},
    {"timer-step", "timer-interruption", "key-interruption", "nothing-lost", "left-wait", "program-interruption-1", "program-interruption-2", "program-interruption-4", "program-interruption-5", "program-interruption-6", "program-interruption-7", "program-interruption-8", "program-interruption-9", "program-interruption-10", "program-interruption-11", "program-interruption-12", "program-interruption-13", "program-interruption-14", "program-interruption-15"},
    30, 800
};
