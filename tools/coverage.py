#!/usr/bin/env python3
"""coverage.py [Cxx...]: lines of atrcopy never run by any simulated command of the quick checks with RUNS runs each (experiment tool)."""
import glob, os, shutil, subprocess, sys, tempfile, ast
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = sys.argv[1:] or ["C%02d" % i for i in range(1, 19)]
repo = os.environ.get("ATRSIM_REPO", "/repo")
d = tempfile.mkdtemp(prefix="cov.")
seen = set()
try:
    for p in props:
        subprocess.run(["./run.sh", p, "quick", "--runs", os.environ.get("RUNS", "150"), "--deadline", "200"], cwd=here, env=dict(os.environ, ATRSIM_COV=d), stdout=subprocess.DEVNULL)
        for f in glob.glob(d + "/*"):
            with open(f) as fh:
                seen.update(fh.read().split())
            os.unlink(f)
        print(p, len(seen), flush=True)
finally:
    shutil.rmtree(d)
if os.environ.get("SEEN"):
    open(os.environ["SEEN"], "w").write("\n".join(sorted(seen)))
for f in sorted(glob.glob(repo + "/atrcopy/*.py")):
    b = os.path.basename(f)
    if b == "signatures.py":
        continue
    src = open(f).read()
    lines = set()
    for fn in ast.walk(ast.parse(src)):
        if isinstance(fn, (ast.FunctionDef,)):
            for st in ast.walk(fn):
                if isinstance(st, ast.stmt) and st is not fn and not (isinstance(st, ast.Expr) and isinstance(getattr(st, "value", None), ast.Constant)):
                    lines.add(st.lineno)
    miss = sorted(n for n in lines if "%s:%d" % (b, n) not in seen)
    print("== %s: %d of %d statements not run" % (b, len(miss), len(lines)))
    t = src.splitlines()
    for n in miss:
        print("%5d %s" % (n, t[n - 1]))
