// C13: channel programs on the multiplexer channel of the Model 30.
extern "C" {
#include <stdint.h>
#include "xlat.h"
#include "device.h"
#include "cpu.h"
#include "conf.h"
#include "event.h"
#include "model2030.h"
#include "logger.h"
extern int log_enable;
int load_line(char *);
}
#include "core.hpp"
// no console typewriter, no panel
extern "C" { void model1052_out(void *, uint16_t) {} void model1052_in(void *, uint16_t *) {} void model1052_func(void *, uint16_t *, uint16_t, uint16_t *) {} int model2030_create(struct _option *) { return 0; } }
namespace {
uint8_t cb(uint32_t a) { return M[a]; }
uint16_t par(uint8_t v) { return v | odd_parity[v]; }
void setb(uint32_t a, uint8_t v) { M[a] = par(v); }
const int CH_SEL = 2; const int MPX_ADDRS = 32;
const int FEAT_SEL = 0, FEAT_MPX = 2 | 32, MACH_FAULTS = 2 | 4 | 8;   // what is generated, see DESIGN.md
bool mach_addr(uint16_t a) { return a != 0x1f; }
void mach_cycle() { cycle_2030(); }
bool mach_wait() { return cpu_2030.wait; }
bool mach_idle() { if (cpu_2030.MPX_TI & (CHAN_REQ_IN | CHAN_OPR_IN | CHAN_STA_IN)) return false; for (int i = 0; i < 2; i++) if (cpu_2030.SEL_TI[i] & (CHAN_REQ_IN | CHAN_OPR_IN | CHAN_STA_IN)) return false; return true; }
int mach_micro() { return cpu_2030.WX; }
int mach_ia() { return (cpu_2030.I_REG & 0xff) << 8 | (cpu_2030.J_REG & 0xff); }
void mach_start() {
    cpu_2030.LS[0x7a9] = par(0x20); cpu_2030.LS[0x7aa] = par(0); cpu_2030.I_REG = par(0x20); cpu_2030.J_REG = par(0);
    cpu_2030.LS[0x7b8] = cpu_2030.LS[0x7b9] = cpu_2030.LS[0x7bb] = 0x100; cpu_2030.MASK = 0; cpu_2030.ASCII = 0; cpu_2030.Q_REG = 0;
    cpu_2030.WX = 0x102; START = 1;
}
void mach_reset() {
    if (!M) M = (uint32_t *)calloc(65536, 4);
    INT_TMR = 1; SYS_RST = 1; CHK_SW = 2; RATE_SW = 1; PROC_SW = 1; mem_max = 0xffff;
    for (int i = 0; cpu_2030.WX != 0x328; i++) { if (i > 200000) sim.fail("reset", "reset does not end at %03x", cpu_2030.WX); cycle_2030(); }
}
}
#define MACH_IMM_COUNT false
#define MACH_DATA_SUP true
#define MACH_IMM_CHAIN false
#define MACH_DEVS 2
#define MACH_CHS 0
#include "chio.hpp"
Property property = {
    "C13",
    { {"clean", run_clean, 12000, 300000, "processor cycles"}, {"faults", run_fault, 12000, 300000, "processor cycles"} },
    "System/360 programs of Start I/O, Test I/O, Test Channel, mask windows and waits that run the Model 30 microprogram, over seeded channel programs for one or two simulated devices of seeded kind (burst or byte), pace and record lengths on its multiplexer channel; non-trivial when the program ends and every operation was judged",
    "distinct (instruction or interruption, condition code or status, state of the device) points",
    {"cpu2030.c", "model2030_ros.c (microprogram)", "device.c", "event.c"},
    {"devices (simulated on the I/O interface)", "panel (switches set by the driver)", "console typewriter", "logger", "20 ms timer thread"},
    {},
    {"SIO cc0", "SIO cc1", "SIO cc2", "SIO cc3", "TIO cc0", "TIO cc1", "TIO cc2", "TIO cc3", "TCH cc0", "TCH cc1", "interruption"}, 30, 800
};
