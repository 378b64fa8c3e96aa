#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property whose simulator
sim/<id>_*.cpp exists, the rest under not_applicable."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
T = "deterministic simulation with fault injection: seeded search over "
TECH = {
 "C01": T + "schedule/cancel/clock histories with re-entrant callbacks and allocation failures, against a reference event list",
 "C02": T + "tape operation histories on a simulated disk, refinement against a reference tape and independent image codecs",
 "C03": T + "tape histories with injected I/O errors, short transfers, process kills with torn writes, and damaged images",
 "C04": T + "deck histories with I/O and allocation faults, refinement against a reference deck and independent codecs",
 "C05": T + "disk volume histories with I/O faults and process kills, refinement against a byte-exact reference volume",
 "C06": T + "CKD channel programs and channel timing against a reference count-key-data disk",
 "C07": T + "tape channel programs, channel timing and media faults against a reference tape drive",
 "C08": T + "card channel programs, channel timing and operator actions, conservation against a reference card path",
 "C09": T + "printer channel programs, channel timing, output faults and kills against a reference listing",
 "C10": T + "thread schedules, client behaviour and network faults on a simulated loopback, exactly-once history check",
 "C11": T + "overlapping operations of several devices on one channel with seeded channel timing, per-device history check",
 "C12": T + "channel programs, device timing and faults on the simulated machine, against a reference channel",
 "C13": T + "channel programs, device timing and faults on the simulated machine, against a reference channel",
 "C14": T + "random programs with interruptions injected at seeded cycles, against a reference System/360 interpreter",
 "C15": T + "random programs with interruptions injected at seeded cycles, against a reference System/360 interpreter",
 "C16": T + "interleavings of processor, timer and display threads under a controlled scheduler",
 "C17": T + "configuration texts, line endings, read splits and I/O and allocation faults, against a reference parser",
 "C18": T + "channel resets at seeded moments of device operations, against the same devices freshly powered on",
}
NOTE = json.load(open(V + "/tools/notes.json")) if os.path.exists(V + "/tools/notes.json") else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if glob.glob("%s/sim/%s_*.cpp" % (V, i.lower())):
        checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --thorough" % i,
                       "technique": TECH[i], "level": "exploration",
                       "level_note": NOTE.get(i, "Seeded search: holds on every run explored, no claim beyond them; a violation comes with a replay file that reproduces it exactly.")})
    else:
        na.append({"property": i, "reason": "not claimed yet: the simulator for it is not built"})
json.dump({"version": 1, "setup_cmd": "./check --build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every seam is a link-time symbol (--wrap) or a function the repository already calls through. /repo carries only fix: commits."},
          open(V + "/MANIFEST.json", "w"), indent=1)
