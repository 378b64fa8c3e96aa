// C15: Model 30 running seeded programs while interruptions arrive at seeded cycles.
#include "prog360.hpp"
extern "C" {
#include "xlat.h"
#include "device.h"
#include "cpu.h"
#include "conf.h"
#include "event.h"
#include "model2030.h"
#include "logger.h"
extern int log_enable;
int load_line(char *);
}
// no console typewriter, no panel
extern "C" { void model1052_out(void *, uint16_t) {} void model1052_in(void *, uint16_t *) {} void model1052_func(void *, uint16_t *, uint16_t, uint16_t *) {} int model2030_create(struct _option *) { return 0; } }
namespace {
uint8_t cb(uint32_t a) { return M[a]; }
uint16_t par(uint8_t v) { return v | odd_parity[v]; }
void setb(uint32_t a, uint8_t v) { M[a] = par(v); }
uint64_t cf(int i) { uint64_t v = 0; for (int k = 8; k < 16; k++) v = v << 8 | (cpu_2030.LS[0x700 + (i << 5) + k] & 0xff); return v; }
bool mach_keywait() { return INTR || (cpu_2030.F_REG & 0x40); }
bool mach_timer() { return cpu_2030.WX == 0x100; }   // written byte by byte
bool mach_tstep(uint32_t d) { return d == 0x600 || d == 0x700; }   // the microprogram subtracts with whatever carry is left over
void mach_cycle() { cycle_2030(); }
bool mach_wait() { return cpu_2030.wait; }
bool mach_manual() { return cpu_2030.allow_man_operation; }
int mach_micro() { return cpu_2030.WX; }
int mach_ia() { return (cpu_2030.I_REG & 0xff) << 8 | (cpu_2030.J_REG & 0xff); }
void mach_key(int block, int key) { cpu_2030.MP[0xe0 | block] = key; }
void mach_start() {
    cpu_2030.LS[0x7a9] = par(Prog::START >> 8); cpu_2030.LS[0x7aa] = par(Prog::START & 255); cpu_2030.I_REG = par(Prog::START >> 8); cpu_2030.J_REG = par(Prog::START & 255);
    cpu_2030.LS[0x7b8] = cpu_2030.LS[0x7b9] = cpu_2030.LS[0x7bb] = 0x100; cpu_2030.MASK = 0; cpu_2030.ASCII = 0; cpu_2030.Q_REG = 0;
    cpu_2030.WX = 0x102; START = 1;
}
void mach_reset() {
    if (!M) M = (uint32_t *)calloc(65536, 4); INT_TMR = 1;
    SYS_RST = 1; CHK_SW = 2; RATE_SW = 1; PROC_SW = 1; mem_max = 0xffff;
    for (int i = 0; cpu_2030.WX != 0x328; i++) { if (i > 200000) sim.fail("reset", "reset does not end at %03x", cpu_2030.WX); cycle_2030(); }
}
}
#define MACH_FLT false
#define MACH_SLOW 5
#define MACH_FIXSTEP false
#include "cpurun.hpp"
Property property = {
    "C15",
    { {"alone", run_plain, 12000, 300000, "processor cycles"}, {"interrupted", run_int, 12000, 300000, "processor cycles"} },
    "seeded System/360 programs (fixed point, decimal, character, floating point, branches, loops, EXECUTE, status switching, storage keys, wait states, faulty instructions) run by the Model 30 microprogram beside a reference interpreter, with the interrupt key, interval timer ticks and operator stop/start at seeded cycles; non-trivial when the program ends or a predicted interruption ends the comparison",
    "distinct (interrupted instruction address, condition code, interruption code) points",
    {"cpu2030.c", "model2030_ros.c (microprogram)", "device.c", "event.c"},
    {"panel (switches set by the driver)", "logger", "20 ms timer thread (timer_event set by the driver)"},
    {"results the architecture leaves unpredictable end the comparison: terminated operations, invalid digits in multiply, divide and the extension of a compare operand, the low half after a short underflow, the sign of a halved number which underflows",
     "the interval timer steps by one fixed amount per tick; a tick which finds the processor stopped is not kept"},
    {"timer-step", "timer-interruption", "key-interruption", "nothing-lost", "left-wait", "program-interruption-1", "program-interruption-2", "program-interruption-4", "program-interruption-5", "program-interruption-6", "program-interruption-7", "program-interruption-8", "program-interruption-9", "program-interruption-10", "program-interruption-11"},
    30, 800
};
