"""Structural soundness and conservation, judged on the raw image by an independent checker."""
from .. import disk, history, scene, util

QUICK_RUNS, THOROUGH_RUNS = 800, 40000
RULE = ("a run = a starting image (blank, or populated by the independent builder: fragmented, locked, deleted, typed entries) and a history of 2-8 "
        "modifying commands, some killed, interrupted, cut off by power loss or given I/O errors; non-trivial = at least two commands changed the image")
STATE_MEASURE = "distinct image contents after a command"
ASSUMPTIONS = ["starting images are sound by the independent checker", "Atari DOS 2.0/2.5 (90K, 130K, 180K) and DOS 3.3 (140K) images"]


def gen(rng, tier):
    return history.gen_history(rng, tier, faults=.2, maxcmds=8 if tier == "quick" else 14)


def structural(R, s):
    """Compares s.before and s.after on disk level."""
    what = "command %d (%s%s): " % (s.i, " ".join(s.argv), " with %s" % s.x["how"] if s.x else "")
    b, a = s.before, s.after
    if a is None:
        R.fail("image", what + "the image is gone or no disk any more")
        return
    if a is b:
        return
    if a.problems:
        R.fail("fsck", what + "; ".join(a.problems[:4]))
        return
    if a.lost != b.lost:
        R.fail("leak", what + "sectors used by nothing: before %d, after %d: %s" % (len(b.lost), len(a.lost), sorted(a.lost ^ b.lost)[:8]))
        return
    sb, sa = b.d.sysbytes(), a.d.sysbytes()
    for k in sb:
        if sb[k] != sa.get(k):
            R.fail("system", what + "%s changed" % k)
            return
    touched = set()
    if s.cmd["c"] == "add":
        touched = set(history.stored_name(a.d.kind, f["n"]) for f in s.cmd["files"])
    elif s.cmd["c"] == "del":
        touched = set(s.cmd["names"])
    elif s.cmd["c"] == "asm":
        touched = set([history.stored_name(a.d.kind, s.cmd["o"])])
    for n in sorted(set(b.files) | set(a.files)):
        if n in touched:
            continue
        if n not in a.files:
            R.fail("other", what + "file %r is gone" % n)
            return
        if n not in b.files:
            R.fail("other", what + "file %r appeared" % n)
            return
        x, y = b.files[n], a.files[n]
        for k in ("slot", "raw", "sectors", "data"):
            if x[k] != y[k]:
                R.fail("other", what + "%s of file %r changed: %r -> %r" % (k, n, x[k][:40] if k != "slot" else x[k], y[k][:40] if k != "slot" else y[k]))
                return
    # directory slots of no touched file
    mine = set(f["slot"] for n, f in list(b.files.items()) + list(a.files.items()) if n in touched)
    for i in range(a.d.nslots):
        if i not in mine and a.d.slot(i) != b.d.slot(i) and not (blank(a.d, i) and blank(b.d, i)):
            R.fail("slot", what + "directory entry %d changed: %r -> %r" % (i, b.d.slot(i), a.d.slot(i)))
            return
    # sectors of no new file keep their contents
    new = set()
    for n in touched:
        if n in a.files:
            new |= set(a.files[n]["sectors"])
    twice = s.cmd["c"] == "add" and len(touched) < len(s.cmd["files"])      # first copy written, then replaced
    if s.cmd["c"] != "shred" and not twice:
        for sec in a.d.datasectors():
            if sec not in new and a.d.sec(sec) != b.d.sec(sec):
                R.fail("stray", what + "sector %d, not part of a new file, was written" % sec)
                return
    # conservation
    if s.want is not None and not s.unpredicted:
        used = sum(f["n"] for f in s.want.values())
        if set(s.want) == set(a.files):
            if len(a.free) != len(b.free) + sum(len(f["sectors"]) for f in b.files.values()) - used:
                R.fail("conservation", what + "%d sectors free, expected %d" % (len(a.free), len(b.free) + sum(len(f["sectors"]) for f in b.files.values()) - used))


def blank(d, i):
    """A slot that holds no entry DOS would look at: unused, or a deleted entry."""
    return not d.live(d.slot(i)) and d.slot(i)[0] == 0


def execute(plan, R):
    n = [0]

    def on_step(w, rel, s):
        if s.completed:
            n[0] += 1
        if s.x and s.hit:
            R.probe("%s -> %s" % (s.x["mode"], "changed" if s.completed else "unchanged"))
        if s.reject:
            R.probe("rejected: " + s.reject)
        structural(R, s)
        return not R.violations
    history.run_history(plan, R, on_step)
    R.nontrivial = n[0] >= 2
