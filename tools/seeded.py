#!/usr/bin/env python3
"""seeded.py [ID...]: apply each planted bug to a scratch copy of /repo and run its property's quick check on the copy (experiment tool; registered checks always run on /repo)."""
import json, os, re, shutil, subprocess, sys, tempfile, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(os.path.join(here, "seeded")))
for i in ids:
    d = os.path.join(here, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    t = tempfile.mkdtemp(prefix="seeded.")
    try:
        subprocess.check_call(["cp", "-a", "/repo/.", t])
        subprocess.check_call(["git", "-C", t, "apply", os.path.join(d, "patch.diff")])
        for p in [a[2:] for a in sys.argv[1:] if a.startswith("--C")] or [prop]:
            t0 = time.time()
            r = subprocess.run(["./run.sh", p, "quick"], cwd=here, env=dict(os.environ, ATRSIM_REPO=t), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = r.stdout.decode(errors="replace")
            m = re.search(r"^(run \d+: .*)$", out, re.M)
            print("%-28s %s rc=%d %5.1fs %s" % (i, p, r.returncode, time.time() - t0, (m.group(1) if m else out[-300:].strip())[:220]), flush=True)
    finally:
        shutil.rmtree(t)
