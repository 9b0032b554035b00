#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the property modules that exist."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {
    "N02": "A pure function of a byte string: nothing for a scheduler or fault injector to vary; deciding it is plain input generation.",
}
NOTE = "Seeded search, not exhaustive: holds on every simulated run executed (counts in the evidence). Trusts the LD_PRELOAD gate, the durability model and the independent disk reader/model in /verif/sim; bounds and excluded cases are listed in DESIGN.md under %s."
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(here, "sim", "props", i.lower() + ".py")
    if os.path.exists(f):
        src = open(f).read()
        m = re.search(r'^LEVEL = "(\w+)"', src, re.M)
        checks.append(dict(property=i, quick_cmd="./run.sh %s quick" % i, thorough_cmd="./run.sh %s thorough" % i,
                           technique="deterministic simulation with fault injection: seeded search over schedules, crash points and faults of real atrcopy processes",
                           level=m.group(1) if m else "exploration", level_note=NOTE % i))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo are needed: the seams are the process boundary, an LD_PRELOAD gate on file operations, sys.settrace and the public library interface.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
