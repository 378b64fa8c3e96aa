#!/usr/bin/env python3
"""plant.py ID : try seeded/ID against /repo: demo on clean, apply, build+tests,
demo, quick check, undo.  Prints one summary line."""
import sys, os, subprocess, json
V = "/verif"; R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests():
    b = sh("bash /opt/vp/build.sh")
    if b.returncode: return "BUILD FAILED\n" + b.stdout[-2000:]
    sh("bash /opt/vp/test.sh /tmp/o.json")
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o = json.load(open('/tmp/o.json'))
    miss = base - set(o.get('passed', o.get('pass', [])))
    return "ok" if not miss else "tests fail: %s" % list(miss)[:4]
for i in sys.argv[1:]:
    d = "%s/seeded/%s" % (V, i)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo dirty"
    prop = json.load(open(d + "/meta.json"))["property"]
    c = sh("bash %s/demo.sh" % d, cwd=R); out = ["clean demo %d" % c.returncode]
    if c.returncode: print(c.stdout[-500:])
    a = sh("git -C /repo apply %s/patch.diff" % d)
    if a.returncode: print(i, "patch does not apply", a.stdout); continue
    try:
        out.append(tests())
        x = sh("timeout 300 bash %s/demo.sh" % d, cwd=R); out.append("patched demo %d" % x.returncode)
        if x.returncode == 0 or x.returncode > 1: print(x.stdout[-300:])
        k = sh("VERIF_SEED=1 VERIF_TIER=quick ./check %s" % prop, cwd=V); out.append("check %d" % k.returncode)
        v = [l for l in k.stdout.splitlines() if l.startswith(("VIOLATION", "FAIL"))]; out += v[-2:]
        if k.returncode not in (0, 1): print(k.stdout[-500:])
    finally:
        sh("git -C /repo checkout -- .")
    print(i, "|", " | ".join(out)); sys.stdout.flush()
sh("bash /opt/vp/build.sh")
