#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties below."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__)) + "/.."
CLAIMED = set("C%02d" % i for i in range(1, 33)) | {"C36", "C37", "C38"}
HOOKS = []
PURE = "a pure function of its argument: no concurrency, time, I/O, faults or multi-party behaviour that a simulator could schedule or inject"
NA = {"C33": PURE, "C34": PURE, "C35": PURE}
NOTES = json.load(open(here + "/tools/levels.json"))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        g = next(n for n in NOTES if i in n["ids"])
        checks.append({"property": i, "quick_cmd": "tools/check.sh " + i, "thorough_cmd": "tools/check.sh " + i,
                       "technique": g["technique"], "level": "exploration", "level_note": g["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "the simulation of this component is not built yet")})
json.dump({"version": 1, "setup_cmd": "tools/setup.sh",
           "hooks": {"guard": "Go build tag 'verif'", "enable": "go build -tags verif", "source_commits": HOOKS},
           "checks": checks, "not_applicable": na,
           "notes": "VERIF_TIER selects the quick or thorough batch; replay a failure with tools/replay.sh FILE."},
          open(here + "/MANIFEST.json", "w"), indent=1)
