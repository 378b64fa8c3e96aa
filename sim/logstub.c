/* Stand-in for logger.c: messages are counted, never written (UTRACE=mask in the environment writes them to the file named by UTFILE, for debugging). */
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/syscall.h>
static int fd = 2;
int log_level = 0;
int log_enable = 0;
FILE *log_file = NULL;
unsigned long sim_log_errors, sim_log_warns;
void log_init(char *f) { (void)f; }
__attribute__((constructor)) static void start(void) { char *e = getenv("UTRACE"); if (!e) return; log_level = strtol(e, NULL, 16); log_enable = 1; char *f = getenv("UTFILE"); if (f) fd = syscall(SYS_openat, AT_FDCWD, f, O_WRONLY | O_CREAT | O_APPEND, 0600); }
static void cnt(int level) { if (level & 4) sim_log_errors++; if (level & 2) sim_log_warns++; }
static void say(const char *fmt, va_list a) { if (log_enable && log_level) vdprintf(fd, fmt, a); }
void log_print_c(int level, const char *fmt, ...) { va_list a; va_start(a, fmt); say(fmt, a); va_end(a); cnt(level); }
void log_print_s(int level, char *fn, int l, const char *fmt, ...) { va_list a; (void)fn; (void)l; va_start(a, fmt); say(fmt, a); va_end(a); cnt(level); }
void log_print(int level, char *fn, int l, const char *fmt, ...) { va_list a; (void)fn; (void)l; va_start(a, fmt); say(fmt, a); va_end(a); cnt(level); }
