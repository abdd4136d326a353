"""Writes MANIFEST.json from properties.jsonl and dst/registry.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "dst"))
import registry  # noqa: E402

PURE = "A pure function of its input text or arguments: no schedule, clock, I/O fault, crash or history takes part, so there is nothing for a simulator to decide; generating inputs would be ordinary property testing."
REASONS = {
    "P07": "A pure function of the input text, and comparing real graphs needs OpenFst itself, whose sources the build downloads (no network here). What depends on schedules and failures in the runtime is R01-R04.",
}
TECH = {
    "C": "deterministic simulation with fault injection: simulated processes, file system, flock, clock; seeded schedules, crashes and I/O faults",
    "W": "deterministic simulation with fault injection: the cache on a simulated Windows (sharing, mandatory locks); seeded schedules, kills and I/O faults",
    "B": "deterministic simulation with fault injection: real grammar builds with seeded I/O faults and environments",
    "T": "deterministic simulation with fault injection: seeded line-level scheduling of caller threads, injected interrupts",
    "R": "deterministic simulation with fault injection: the C++ runtime under a basic-block scheduler, seeded allocation, read and write failures",
    "L": "deterministic simulation with fault injection: the command line on simulated byte streams with seeded chunking, delays and errors",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(line)["id"]
    if p in registry.PROPS:
        checks.append({
            "property": p,
            "quick_cmd": "./check {} --tier quick".format(p),
            "thorough_cmd": "./check {} --tier thorough".format(p),
            "technique": TECH[p[0]],
            "level": "exploration",
            "level_note": registry.LEVEL_NOTE.get(p, registry.LEVEL_NOTE[p[0]]),
        })
    else:
        na.append({"property": p, "reason": REASONS.get(p, PURE if p[0] == "P" else "not built yet")})
m = {"version": 1, "setup_cmd": "./check --selftest", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is patched at run time from /verif/dst. Replay a violation with ./check --replay FILE."}
with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
