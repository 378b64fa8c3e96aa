// C12: channel programs on the Model 50.
extern "C" {
#include <stdint.h>
#include "device.h"
#include "cpu.h"
#include "conf.h"
#include "event.h"
#include "model2050.h"
#include "logger.h"
extern int log_enable;
int load_line(char *);
}
#include "core.hpp"
namespace {
uint8_t cb(uint32_t a) { return M[a >> 2] >> (8 * (3 - (a & 3))); }
void setb(uint32_t a, uint8_t v) { int o = 8 * (3 - (a & 3)); M[a >> 2] = (M[a >> 2] & ~(0xffu << o)) | (uint32_t)v << o; }
const int CH_SEL = 3; const int MPX_ADDRS = 128;
const int FEAT_SEL = 2 | 8 | 32, FEAT_MPX = 2 | 16 | 32, MACH_FAULTS = 2 | 4 | 8;   // what is generated, see DESIGN.md
bool mach_addr(uint16_t) { return true; }
void mach_cycle() { cycle_2050(); }
bool mach_wait() { return cpu_2050.wait; }
bool mach_idle() { for (int i = 0; i < 4; i++) if (cpu_2050.TAGS_IN[i] & (CHAN_REQ_IN | CHAN_OPR_IN | CHAN_STA_IN)) return false; return true; }
int mach_micro() { return cpu_2050.ROAR; }
int mach_ia() { return cpu_2050.IA_REG; }
void mach_start() { cpu_2050.IA_REG = 0x2000; START = 1; }
void mach_reset() {
    static char ln[] = "2050F\n"; load_line(ln);
    SYS_RST = 1; CHK_SW = 2; RATE_SW = 1; PROC_SW = 1;
    for (int i = 0; cpu_2050.ROAR != 0x150; i++) { if (i > 200000) sim.fail("reset", "reset does not end"); cycle_2050(); }
}
}
#include "chio.hpp"
Property property = {
    "C12",
    { {"clean", run_clean, 12000, 300000, "processor cycles"}, {"faults", run_fault, 12000, 300000, "processor cycles"} },
    "System/360 programs of Start I/O, Test I/O, Test Channel, mask windows and waits that run the Model 50 microprogram, over seeded channel programs for one to four simulated devices of seeded kind (burst or byte), pace and record lengths on its four channels; non-trivial when the program ends and every operation was judged",
    "distinct (instruction or interruption, condition code or status, state of the device) points",
    {"cpu2050.c", "model2050_ros.c (microprogram)", "device.c", "event.c"},
    {"devices (simulated on the I/O interface)", "panel (switches set by the driver)", "logger", "20 ms timer thread"},
    {"data chaining, read backward on a selector, skipping on the multiplexer channel, Halt I/O and unusual ending status are not generated",
     "a byte-mode device on the multiplexer channel disconnects after its zero initial status before it asks for data",
     "attention is raised by devices which have been idle for a while"},
    {"SIO cc0", "SIO cc1", "SIO cc2", "SIO cc3", "TIO cc0", "TIO cc1", "TIO cc2", "TIO cc3", "TCH cc0", "TCH cc1", "TCH cc2", "interruption"}, 30, 800
};
