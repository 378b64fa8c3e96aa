"""Helpers to make planted bugs: sub() edits /repo, mk() saves the diff and undoes it, demo() writes the demonstration."""
import subprocess, json, os
R='/repo/'
def sub(p,a,b,n=1):
    p=R+p; s=open(p,encoding='latin1').read(); assert s.count(a)==n,(p,a,s.count(a)); open(p,'w',encoding='latin1').write(s.replace(a,b))
def mk(i):
    os.makedirs('/verif/seeded/%s'%i,exist_ok=True)
    open('/verif/seeded/%s/patch.diff'%i,'w',encoding='latin1').write(subprocess.run('git -C /repo diff',shell=True,capture_output=True).stdout.decode('latin1')); subprocess.run('git -C /repo checkout -q -- .',shell=True)
SH='''#!/bin/bash
# exit 0: behaves; nonzero: the defect shows.  Run with cwd /repo.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
sed -e 's/@microsim360_VERSION_M[A-Z]*@/0/' -e 's/#cmakedefine HAVE_UNISTD_H/#define HAVE_UNISTD_H/' src/config.h.in > $T/config.h
%sgcc -w -g -O1 %s -I$T -Isrc -Isrc/device -Isrc/panel %s $D/demo.c $D/stub.c %s -o $T/demo -lm || exit 2
cd $T && timeout 200 ./demo
'''
STUB='''#include <stdio.h>
int log_level = 0; int log_enable = 0; FILE *log_file = NULL;
void log_print_c(int level, const char *fmt, ...) {}
void log_print_s(int level, char *fn, int l, const char *fmt, ...) {}
void log_print(int level, char *fn, int l, const char *fmt, ...) {}
'''
def demo(i,prop,needs,breaks,src,c,flags='',incs='',pre='',stub=''):
    d='/verif/seeded/'+i; os.makedirs(d,exist_ok=True)
    open(d+'/demo.sh','w').write(SH%(pre,flags,' '.join('-Isrc/'+x for x in incs.split()),' '.join('src/'+s for s in src.split())))
    os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo.c','w').write(c); open(d+'/stub.c','w').write(STUB+stub)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
# A very small channel for demonstrations: io(dev, cmd, buf, n, &st) runs one
# command to its device end and returns the bytes moved.
CHAN=r'''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "device.h"
#include "event.h"
#include "xlat.h"
static uint16_t tags = CHAN_OPR_OUT, bo, bi; static long cyc;
static void step(struct _device *d) { if (++cyc > 60000000) { printf("stuck\n"); exit(3); } d->bus_func(d, &tags, bo, &bi); advance(); }
static uint16_t par(int b) { int n = 1; for (int i = 0; i < 8; i++) n += b >> i; return (b & 0xff) | ((n & 1) << 8); }
static void until(struct _device *d, int t, int on) { while (((tags & t) != 0) != on) step(d); }
static int busy_seen;
/* initial selection; returns initial status */
static int sio(struct _device *d, int addr, int cmd) {
  int st; tags = CHAN_OPR_OUT; bo = 0; step(d); step(d); tags &= ~CHAN_REQ_IN;
  bo = par(addr); tags |= CHAN_ADR_OUT; step(d); tags |= CHAN_SEL_OUT | CHAN_HLD_OUT;
  while (!(tags & (CHAN_OPR_IN | CHAN_STA_IN))) step(d);
  if (!(tags & CHAN_OPR_IN)) { st = bi & 0xff; tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT); until(d, CHAN_STA_IN, 0); tags &= ~CHAN_ADR_OUT; step(d); return st | 0x100; }
  tags &= ~CHAN_ADR_OUT; until(d, CHAN_ADR_IN, 1); bo = par(cmd); tags |= CHAN_CMD_OUT; until(d, CHAN_ADR_IN, 0); tags &= ~CHAN_CMD_OUT; bo = 0;
  until(d, CHAN_STA_IN, 1); st = bi & 0xff; tags |= CHAN_SRV_OUT; until(d, CHAN_STA_IN, 0); tags &= ~CHAN_SRV_OUT; tags &= ~(CHAN_SEL_OUT | CHAN_HLD_OUT); step(d);
  return st;
}
static int io(struct _device *d, int addr, int cmd, uint8_t *buf, int n, int *stp) {
  int got = 0, st = sio(d, addr, cmd), wr = cmd & 1;
  while (st & 0x100) { for (int i = 0; i < 100; i++) step(d); st = sio(d, addr, cmd); }
  if ((st & 0x10) == 0) while (!(st & SNS_DEVEND) && !(st & SNS_BSY && cmd)) {
    if (st && !(st & SNS_CHNEND) && (st & SNS_UNITCHK)) break;
    step(d);
    if ((tags & CHAN_REQ_IN) && !(tags & CHAN_OPR_IN)) { tags |= CHAN_SEL_OUT | CHAN_HLD_OUT; until(d, CHAN_OPR_IN, 1); until(d, CHAN_ADR_IN, 1); bo = 0x100; tags |= CHAN_CMD_OUT; until(d, CHAN_ADR_IN, 0); tags &= ~(CHAN_CMD_OUT | CHAN_SEL_OUT | CHAN_HLD_OUT); }
    if (tags & CHAN_SRV_IN) {
      if (got >= n) { tags |= CHAN_CMD_OUT; until(d, CHAN_SRV_IN, 0); tags &= ~CHAN_CMD_OUT; }
      else { if (wr) bo = par(buf[got]); else buf[got] = bi; got++; tags |= CHAN_SRV_OUT; until(d, CHAN_SRV_IN, 0); tags &= ~CHAN_SRV_OUT; }
    } else if (tags & CHAN_STA_IN) { st |= bi & 0xff; tags |= CHAN_SRV_OUT; until(d, CHAN_STA_IN, 0); tags &= ~CHAN_SRV_OUT; }
  }
  for (int i = 0; i < 20; i++) step(d);
  *stp = st; return got;
}
'''
