"""Runs a property's simulation: workers, seeds, minimisation, replay, evidence."""
import argparse
import hashlib
import importlib
import json
import os
import random
import select
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv-pypy/bin/python"
REPO = os.environ.get("ATRSIM_REPO", "/repo")     # a scratch copy, for experiments only


def build_shim():
    src = os.path.join(HERE, "sim", "shim.c")
    with open(src, "rb") as fh:
        h = hashlib.sha256(fh.read()).hexdigest()[:12]
    d = os.path.join(HERE, ".build")
    os.makedirs(d, exist_ok=True)
    so = os.path.join(d, "shim-%s.so" % h)
    if not os.path.exists(so):
        tmp = so + ".%d" % os.getpid()
        subprocess.check_call(["gcc", "-w", "-O1", "-fPIC", "-shared", "-o", tmp, src, "-ldl"])
        os.rename(tmp, so)
    return so


def worker_env(so, hashseed="0"):
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "LD_PRELOAD")}
    e.update(LD_PRELOAD=so, PYTHONPATH=REPO + ":" + HERE, PYTHONHASHSEED=hashseed, PYTHONDONTWRITEBYTECODE="1",
             PYPY_GC_NURSERY="1M", LC_ALL="C.UTF-8", TZ="UTC", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", COLUMNS="200")
    return e


def run_seed(seed, prop, i):
    return int.from_bytes(hashlib.sha256(("%d/%s/%d" % (seed, prop, i)).encode()).digest()[:8], "big")


class Recorder:
    """What one simulated run reports."""

    def __init__(self, aux):
        self.aux = aux
        self.violations = []     # (class, message)
        self.probes = {}
        self.fired = {}
        self.steps = 0
        self.procs = 0
        self.logs = []
        self.nontrivial = False
        self.states = set()
        self.notes = []

    def world(self):
        from . import kernel
        w = kernel.World(self.aux)
        self._w = getattr(self, "_w", []) + [w]
        return w

    def fail(self, cls, msg):
        self.violations.append((cls, str(msg)[:1500]))

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *parts):
        self.states.add(hashlib.sha256(repr(parts).encode()).hexdigest()[:12])

    def log(self, *x):
        self.logs.append(repr(x))

    def finish(self):
        for w in getattr(self, "_w", []):
            if w.surprises:
                self.probe("surprise %s" % (w.surprises[0],))
            for k, v in w.fired.items():
                self.fired[k] = self.fired.get(k, 0) + v
            self.steps += w.steps
            self.procs += w.nproc
            self.logs.append(w.digest())
            w.close()
        self._w = []

    def digest(self):
        return hashlib.sha256("\n".join(self.logs).encode()).hexdigest()[:16]


def execute(mod, plan, aux):
    r = Recorder(aux)
    try:
        mod.execute(json.loads(json.dumps(plan)), r)
    finally:
        r.finish()
    return r


def load(prop):
    return importlib.import_module("sim.props." + prop.lower())


def boot():
    """Import the code under test once per worker and warm it up."""
    import logging
    logging.disable(logging.CRITICAL)
    import atrcopy
    assert os.path.realpath(atrcopy.__file__).startswith(REPO + "/"), atrcopy.__file__
    import io, textwrap, glob, tempfile, shutil, uuid, traceback, gzip, bz2, lzma, zipfile      # lazily imported by commands
    aux = atrcopy.get_template_path()
    from . import kernel
    w = kernel.World(aux)
    so, cwd = sys.stdout, os.getcwd()
    try:
        os.chdir(w.root)
        sys.stdout = io.StringIO()
        signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(TimeoutError()))
        signal.alarm(30)
        from . import scene
        w.put("A", b"x" * 9000)
        for t in ("dos2sd.atr", "dos33.dsk"):
            spec = dict(base=t, seed=1, steps=[["add", "F%d" % i, 700 * i, i, "scatter", 0x42 if t.endswith("atr") else 4] for i in range(4)])
            x = "w-" + t
            w.put(x, scene.build_image(spec))
            for c in (["add", "-f", "A"], ["list"], ["delete", "F1"], ["assemble", "-f", "-d", "A@2000", "-o", "B.BIN"], ["crc"], ["vtoc", "-e"], ["extract", "-d", "o", "-f", "F3"]):
                kernel.cli([x] + c)
    except Exception:
        pass                # what the commands do is judged in the runs
    finally:
        signal.alarm(0)
        sys.stdout = so
        os.chdir(cwd)
        w.close()
    import gc
    gc.collect()
    return aux


def worker(a):
    aux = boot()
    mod = load(a.prop)
    out = sys.stdout
    t0 = time.time()
    i = a.first
    while i < a.runs and time.time() - t0 < a.deadline:
        plan = mod.gen(random.Random(run_seed(a.seed, a.prop, i)), a.tier)
        try:
            r = execute(mod, plan, aux)
            d = dict(i=i, v=r.violations, probes=r.probes, fired=r.fired, steps=r.steps, procs=r.procs, digest=r.digest(),
                     nt=r.nontrivial, states=sorted(r.states), notes=r.notes[:3])
            if r.violations or i < 3:
                d["plan"] = plan
        except Exception as e:
            import traceback
            d = dict(i=i, error=traceback.format_exc()[-3000:], plan=plan)
        out.write(json.dumps(d) + "\n")
        out.flush()
        i += a.stride
    out.write(json.dumps(dict(end=1)) + "\n")
    out.flush()


def generic_shrink(plan):
    """Smaller variants of a JSON plan: drop list elements, shrink numbers called len, drop optional keys."""
    def paths(x, p):
        if isinstance(x, dict):
            for k in sorted(x):
                yield from paths(x[k], p + [k])
        elif isinstance(x, list):
            yield p, x
            for i, y in enumerate(x):
                yield from paths(y, p + [i])
    def at(root, p):
        for k in p:
            root = root[k]
        return root
    lists = [(p, len(x)) for p, x in paths(plan, []) if x and isinstance(x[0], (dict, list, str)) and not (x and isinstance(x, list) and x[0] in ("add", "del", "mv", "poke"))]
    lists.sort(key=lambda t: -t[1])
    for p, n in lists:
        k = n
        while k >= 1:
            for i in range(0, n, k):
                q = json.loads(json.dumps(plan))
                l = at(q, p)
                del l[i:i + k]
                yield q
            k //= 2
    def nums(x, p):
        if isinstance(x, dict):
            for k in sorted(x):
                if k == "len" and isinstance(x[k], int) and x[k] > 1:
                    yield p + [k]
                else:
                    yield from nums(x[k], p + [k])
        elif isinstance(x, list):
            if x and x[0] == "add" and len(x) == 6 and x[2] > 1:
                yield p + [2]
            for i, y in enumerate(x):
                yield from nums(y, p + [i])
    for p in list(nums(plan, [])):
        q = json.loads(json.dumps(plan))
        v = at(q, p[:-1])[p[-1]]
        for nv in (1, v // 2):
            if nv < v:
                q = json.loads(json.dumps(plan))
                at(q, p[:-1])[p[-1]] = nv
                yield q


def classes(r):
    return set(c for c, _ in r.violations)


def minimise(mod, plan, aux, cls, budget=60, tries=400):
    t0 = time.time()
    shrink = getattr(mod, "shrink", generic_shrink)
    n = 0
    progress = True
    while progress and time.time() - t0 < budget and n < tries:
        progress = False
        for q in shrink(plan):
            if time.time() - t0 > budget or n >= tries:
                break
            n += 1
            try:
                r = execute(mod, q, aux)
            except Exception:
                continue
            if cls in classes(r):
                plan = q
                progress = True
                break
    return plan, n


def do_minimise(a):
    aux = boot()
    mod = load(a.prop)
    with open(a.file) as fh:
        rp = json.load(fh)
    plan, n = minimise(mod, rp["plan"], aux, rp["class"], budget=a.deadline)
    r = execute(mod, plan, aux)
    hit = [v for v in r.violations if v[0] == rp["class"]]
    if not hit:
        r = execute(mod, rp["plan"], aux)
        plan = rp["plan"]
        hit = [v for v in r.violations if v[0] == rp["class"]]
        if not hit:
            print("NOT-REPRODUCED")
            sys.exit(3)
    rp.update(plan=plan, message=hit[0][1], digest=r.digest(), minimise_runs=n)
    with open(a.file, "w") as fh:
        json.dump(rp, fh, indent=1, sort_keys=True)
    print("MINIMISED")


def do_replay(a):
    """Exit 1 with the VIOLATION line if the replay file reproduces, 0 if the property holds on it."""
    with open(a.file) as fh:
        rp = json.load(fh)
    aux = boot()
    mod = load(rp["property"])
    r = execute(mod, rp["plan"], aux)
    same = r.digest() == rp.get("digest")
    for c, m in r.violations:
        print("  [%s] %s" % (c, m))
    print("event log %s recorded one" % ("identical to" if same else "differs from"))
    if rp["class"] in classes(r):
        print("VIOLATION property=%s replay=%s" % (rp["property"], os.path.abspath(a.file)))
        sys.exit(1)
    print("no violation")


def spawn_self(args, so, **kw):
    return subprocess.Popen([PY, "-W", "ignore", "-m", "sim.driver"] + args, cwd=HERE, env=worker_env(so, kw.pop("hashseed", "0")), **kw)


def with_scratch(fn):
    """All scratch trees of a check live below one directory, removed at its end."""
    import shutil, tempfile
    from . import kernel
    base = tempfile.mkdtemp(prefix="atrsim.", dir=kernel.scratch_base())
    os.environ["ATRSIM_BASE"] = base
    try:
        return fn()
    finally:
        shutil.rmtree(base, ignore_errors=True)


def known_findings():
    r = []
    with open(os.path.join(HERE, "KNOWN_FINDINGS")) as fh:
        for line in fh:
            if line.startswith("open:"):
                r.append(json.loads(line[5:]))
    return r


def drive(prop, tier, seed, runs=None, deadline=None, workers=None, quiet=False, hashseed="0"):
    """Run a batch. Returns aggregate dict."""
    so = build_shim()
    mod = load(prop)
    W = workers or min(8, os.cpu_count() or 1)
    runs = runs or (mod.QUICK_RUNS if tier == "quick" else mod.THOROUGH_RUNS)
    deadline = deadline or (getattr(mod, "QUICK_DEADLINE", 130) if tier == "quick" else 3000)
    t0 = time.time()
    procs = [spawn_self(["worker", "--prop", prop, "--tier", tier, "--seed", str(seed), "--first", str(k), "--stride", str(W),
                         "--runs", str(runs), "--deadline", str(deadline)], so, stdout=subprocess.PIPE, stderr=subprocess.PIPE, hashseed=hashseed) for k in range(W)]
    agg = dict(runs=0, probes={}, fired={}, steps=0, procs=0, digests={}, nt=set(), states=set(), violations=[], errors=[], samples=[], requested=runs, workers=W)
    bufs = {p.stdout.fileno(): (p, b"") for p in procs}
    known = [k for k in known_findings() if k["property"] == prop]
    agg["known"] = {}
    ended = 0
    stop = False
    hard = t0 + deadline + 240
    while bufs and not stop:
        rd, _, _ = select.select(list(bufs), [], [], 5)
        if time.time() > hard:
            agg["errors"].append("batch exceeded its hard wall-clock limit")
            break
        for fd in rd:
            p, b = bufs[fd]
            chunk = os.read(fd, 1 << 16)
            if not chunk:
                del bufs[fd]
                continue
            b += chunk
            *lines, b = b.split(b"\n")
            bufs[fd] = (p, b)
            for line in lines:
                d = json.loads(line)
                if d.get("end"):
                    ended += 1
                    continue
                if "error" in d:
                    agg["errors"].append("run %d: %s" % (d["i"], d["error"]))
                    agg.setdefault("error_plans", []).append(d["plan"])
                    continue
                agg["runs"] += 1
                for k in ("probes", "fired"):
                    for n, v in d[k].items():
                        agg[k][n] = agg[k].get(n, 0) + v
                agg["steps"] += d["steps"]
                agg["procs"] += d["procs"]
                agg["digests"][d["i"]] = d["digest"]
                if d["nt"]:
                    agg["nt"].add(d["digest"])
                agg["states"].update(d["states"])
                if d["i"] < 3:
                    agg["samples"].append(dict(run=d["i"], plan=d["plan"], notes=d["notes"], digest=d["digest"]))
                new = []
                for c, m in d["v"]:
                    for k in known:
                        if k["class"] == c and (not k.get("match") or k["match"] in m):
                            agg["known"][k["what"]] = agg["known"].get(k["what"], 0) + 1
                            break
                    else:
                        new.append((c, m))
                if new:
                    agg["violations"].append((d["i"], new, d["plan"]))
                    if len(agg["violations"]) >= 1 and not getattr(drive, "collect_all", False):
                        stop = True
    for p in procs:
        if stop or p.poll() is None:
            p.terminate()
    errs = []
    for p in procs:
        try:
            _, e = p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            p.kill()
            _, e = p.communicate()
        if e and p.returncode not in (0, -15):
            errs.append(e.decode(errors="replace")[-2000:])
        elif not stop and p.returncode != 0:
            errs.append("worker exit %s" % p.returncode)
    if errs and not stop:
        agg["errors"].extend(errs)
    if not stop and ended < W and not agg["errors"]:
        agg["errors"].append("%d of %d workers ended early" % (W - ended, W))
    agg["wall"] = time.time() - t0
    return agg


def evidence(prop, tier, seed, mod, agg, violations):
    wall = agg["wall"]
    cov = dict(
        evaluations=agg["runs"],
        distinct_nontrivial=len(agg["nt"]),
        rule=mod.RULE,
        samples=agg["samples"],
        seeds=agg["runs"],
        runs_requested=agg["requested"],
        runs_per_hour=round(agg["runs"] / max(wall, .01) * 3600),
        simulated_time="no code under test reads a clock; simulated time is counted in file operations",
        simulated_steps=agg["steps"],
        simulated_processes=agg["procs"],
        faults_injected=dict(sorted(agg["fired"].items())),
        distinct_event_logs=len(set(agg["digests"].values())),
        distinct_states=len(agg["states"]),
        distinct_states_measure=getattr(mod, "STATE_MEASURE", "hash of the image contents reached"),
        rare_conditions=dict(sorted(agg["probes"].items())),
        known_findings=agg["known"],
        components=dict(real=["atrcopy command line and library from /repo (unmodified)", "PyPy and numpy file I/O", "file tree (tmpfs scratch directory)"],
                        simulated=["process scheduling at file-operation granularity", "file operation results (LD_PRELOAD gate)", "process death, interrupts, power loss (durability model over the recorded operations)"] + getattr(mod, "SIMULATED", []),
                        stub=["mutations outside the scratch root (refused and reported)", "random sources (seeded)"]),
        workers=agg["workers"])
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"), coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=violations)
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)


def check(a):
    prop = a.prop
    tier = os.environ.get("VERIF_TIER", a.tier) if a.tier is None else a.tier
    tier = tier or "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    print("property %s tier %s VERIF_SEED %d" % (prop, tier, seed), flush=True)
    sys.path.insert(0, HERE)
    mod = load(prop)
    agg = drive(prop, tier, seed, runs=a.runs, deadline=a.deadline)
    for what, n in sorted(agg["known"].items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if agg["violations"]:
        i, v, plan = min(agg["violations"], key=lambda t: t[0])
        cls, msg = v[0]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        name = os.path.join(HERE, "replays", "%s-s%d-r%d.json" % (prop, seed, i))
        with open(name, "w") as fh:
            json.dump({"property": prop, "seed": seed, "run": i, "run_seed": run_seed(seed, prop, i), "class": cls, "message": msg, "plan": plan}, fh, indent=1, sort_keys=True)
        so = build_shim()
        p = spawn_self(["minimise", "--prop", prop, "--file", name, "--deadline", "60"], so, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out, _ = p.communicate(timeout=500)
        p = spawn_self(["replay", "--file", name], so, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        rout, _ = p.communicate(timeout=300)
        with open(name) as fh:
            rp = json.load(fh)
        print("run %d: [%s] %s" % (i, cls, rp["message"]))
        print("minimise: %s; replay in a fresh process: %s" % (out.decode().strip().splitlines()[-1:] , "reproduced" if p.returncode == 1 else "NOT reproduced: " + rout.decode()[-500:]))
        evidence(prop, tier, seed, mod, agg, 1)
        if p.returncode != 1:
            print("HARNESS-ERROR: violation did not replay")
            sys.exit(2)
        print("VIOLATION property=%s replay=%s" % (prop, name))
        sys.exit(1)
    evidence(prop, tier, seed, mod, agg, 0)
    if agg["errors"]:
        for e in agg["errors"][:3]:
            print("HARNESS-ERROR:", e)
        sys.exit(2)
    if agg["runs"] == 0:
        print("HARNESS-ERROR: no runs")
        sys.exit(2)
    print("held on %d runs (%d requested), %d distinct non-trivial, %d steps, %d processes, %.1f s" % (
        agg["runs"], agg["requested"], len(agg["nt"]), agg["steps"], agg["procs"], agg["wall"]))


def sibling(a):
    from . import sibling as s
    s.serve()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "worker", "minimise", "replay", "sibling"])
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--stride", type=int, default=1)
    ap.add_argument("--runs", type=int, default=None)
    ap.add_argument("--deadline", type=float, default=None)
    ap.add_argument("--file")
    a = ap.parse_args()
    if a.cmd != "check" and "shim-" not in os.environ.get("LD_PRELOAD", ""):
        env = worker_env(build_shim())
        os.execve(PY, [PY, "-W", "ignore", "-m", "sim.driver"] + sys.argv[1:], env)
    fn = {"check": check, "worker": worker, "minimise": do_minimise, "replay": do_replay, "sibling": sibling}[a.cmd]
    if os.environ.get("ATRSIM_BASE"):
        fn(a)
    else:
        with_scratch(lambda: fn(a))


if __name__ == "__main__":
    main()
