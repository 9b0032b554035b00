#!/usr/bin/env python3
"""determinism.py [Cxx...]: the same seeds under other conditions (number of workers, hash seed, order of runs) must give the same event logs."""
import glob, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv-pypy/bin/python"
if os.environ.get("PYTHONPATH") != here:
    os.environ.update(PYTHONPATH=here, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    os.execv(PY, [PY, "-W", "ignore"] + [os.path.abspath(sys.argv[0])] + sys.argv[1:])
os.chdir(here)
from sim import driver
props = [a for a in sys.argv[1:] if a.startswith("C")] or sorted(os.path.basename(f)[:3].upper() for f in glob.glob("sim/props/c*.py"))
n = int(os.environ.get("N", "80"))
driver.drive.collect_all = True
bad = 0


def go():
    global bad
    for p in props:
        a = driver.drive(p, "quick", 77, runs=n, deadline=300, workers=8)
        b = driver.drive(p, "quick", 77, runs=n, deadline=300, workers=3, hashseed="4242")
        d = [i for i in range(n) if a["digests"].get(i) != b["digests"].get(i)]
        err = a["errors"] + b["errors"]
        print("%s: %d runs twice (8 workers / 3 workers and another hash seed), %d differ %s %s" % (p, n, len(d), d[:5], err[:1]), flush=True)
        bad += len(d) + len(err)


driver.with_scratch(go)
sys.exit(1 if bad else 0)
