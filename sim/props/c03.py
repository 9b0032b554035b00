"""Files on a disk behave as a name-to-contents map over any command history."""
import os
import random

from .. import disk, history, scene, util

QUICK_RUNS, THOROUGH_RUNS = 640, 40000
RULE = ("a run = a starting image (blank or populated by the independent builder) and a history of 2-8 modifying commands, some killed, interrupted, cut off by power loss or "
        "given I/O errors, with files extracted along the way; non-trivial = at least two commands changed the image and a file was extracted afterwards")
STATE_MEASURE = "distinct image contents after a command"
ASSUMPTIONS = ["starting images are sound by the independent checker", "Atari DOS 2.0/2.5 (90K, 130K, 180K) and DOS 3.3 (140K) images; no sparse DOS 3.3 files"]


def gen(rng, tier):
    p = history.gen_history(rng, tier, faults=.15, maxcmds=7 if tier == "quick" else 14)
    p["look"] = [rng.randrange(1 << 20) if rng.random() < .45 else -1 for _ in p["cmds"]]
    p["look"][-1] = rng.randrange(1 << 20)
    return p


def describe(a, b, kind):
    """First difference between expected and real contents."""
    if a is None or b is None:
        return "missing" if b is None else "present"
    if len(a) != len(b):
        return "%d bytes instead of %d" % (len(b), len(a))
    for i in range(len(a)):
        if a[i] != b[i]:
            return "byte %d is %02x instead of %02x" % (i, b[i], a[i])


def judge(R, s):
    what = "command %d (%s%s): " % (s.i, " ".join(s.argv), " with %s" % s.x["how"] if s.x else "")
    if s.after is None:
        R.fail("image", what + "the image is gone or no disk any more")
        return
    if s.after.problems:
        return          # C05's business
    got, was = s.after.contents(), s.before.contents()
    ok = not (s.x and s.hit)
    if s.reject:
        if got != was:
            R.fail("reject", what + "does not fit (%s), but files changed: %s" % (s.reject, diff(was, got)))
        elif ok and (s.o.ok or s.o.family != "atr"):
            R.fail("reject", what + "does not fit (%s), but: %s" % (s.reject, s.o.brief()))
        return
    want = {n: f["data"] for n, f in s.want.items()}
    un = s.unpredicted
    for n in un[:1]:
        if n in got:
            want[n] = got[n]
    if un and len(un) == 2 and got == was:
        return          # framing decides whether it fits
    if not ok:
        if got != was and got != want:
            R.fail("map", what + "(disturbed) neither the files from before nor those expected: %s" % diff(want, got))
        return
    if not s.o.ok:
        R.fail("accept", what + "should be carried out, but: " + s.o.brief() + s.o.trace)
        return
    if got != want or (un and un[0] not in got):
        R.fail("map", what + diff(want, got))
        return
    for n, f in s.want.items():
        g = s.after.files[n]
        if g["type"] != f["type"] and s.after.d.kind == "dos33":
            R.fail("attr", what + "%s has type %r instead of %r" % (n, g["type"], f["type"]))
        if g["locked"] != f["locked"]:
            R.fail("attr", what + "%s is %slocked" % (n, "" if g["locked"] else "not "))


def diff(want, got):
    for n in sorted(set(want) | set(got)):
        if want.get(n) != got.get(n):
            return "file %r: %s" % (n, describe(want.get(n), got.get(n), ""))
    return "same"


def unsound(R, w, rel, s):
    """The image has a structural fault (which is C05's business): do the files still come out?"""
    if s.x and s.hit:
        return
    files = s.before.contents() if s.reject else {n: f["data"] for n, f in s.want.items()}
    for n in s.unpredicted or ():
        files.pop(n, None)
    new = [n for n in sorted(files) if n not in s.before.files or s.before.files[n]["data"] != files[n]]
    R.probe("extracted from an unsound image")
    look(R, w, rel, s, 0, files, new[:3] + [n for n in sorted(files) if n not in new][:6])


def look(R, w, rel, s, seed, files=None, only=None):
    """Extract through atrcopy and compare."""
    rng = random.Random(seed)
    if files is None:
        files = s.after.contents()
    names = sorted(files)
    if only is not None:
        names = only
    gone = sorted(set(s.before.files) - set(names))
    pick = rng.sample(names, min(len(names), rng.randrange(1, 6)))
    opts, out = [], "out%d" % s.i
    allf = rng.random() < .25
    text = rng.random() < .2
    lower = rng.random() < .1
    if only is not None:
        pick, gone, allf = names, [], False
    opts = ["-d", out] + (["-t"] if text else []) + (["-l"] if lower else [])
    if allf:
        pick = names
        args = ["-a"]
    else:
        if gone:
            pick = pick + [gone[0]]
        if not pick:
            return
        args = pick
    argv = [rel, "extract"] + opts + args
    o = w.run(argv, gated=False)
    what = "after command %d, %s: " % (s.i, " ".join(argv))
    if not o.ok:
        R.fail("extract", what + o.brief() + o.trace)
        return
    seen = {}
    for n in pick:
        h = n.lower() if lower else n
        data = files.get(n)
        if data is not None and text:
            data = data.replace(b"\x7f", b"\t").replace(b"\x9b", b"\n")
        if h in seen:
            continue            # two names alike in lower case: the first stays
        if data is not None:
            seen[h] = 1
        got = w.get(out + "/" + h)
        if data is not None:
            R.probe("extracted")
        if got != data:
            R.fail("extract", what + "%r: %s" % (n, describe(data, got, "")))
            return
    extra = set(os.path.basename(k) for k, v in w.tree(out).items() if v is not None) - set(seen) if os.path.isdir(w.path(out)) else ()
    if extra:
        R.fail("extract", what + "also wrote %s" % sorted(extra)[:3])


def execute(plan, R):
    n = [0]
    looks = plan["look"]

    def on_step(w, rel, s):
        if s.completed:
            n[0] += 1
        if s.reject:
            R.probe("rejected: " + s.reject)
        judge(R, s)
        if s.after is not None and s.after.problems and not R.violations:
            unsound(R, w, rel, s)
        if not R.violations and s.after is not None and not s.after.problems and looks[min(s.i, len(looks) - 1)] >= 0:
            look(R, w, rel, s, looks[min(s.i, len(looks) - 1)])
        return not R.violations
    history.run_history(plan, R, on_step)
    R.nontrivial = n[0] >= 2 and R.probes.get("extracted", 0) > 0
