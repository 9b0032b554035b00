"""Clearing free space zeroes every free sector and touches nothing else."""
import errno
import random

from .. import disk, kernel as K, scene, util
from . import c02

QUICK_RUNS, THOROUGH_RUNS = 900, 40000
LEVEL = "fault_enumeration"
RULE = ("a run = an image (Atari 90K/130K/180K ATR or XFD, DOS 3.3, SpartaDOS; fragmented, full, with junk in free sectors), up to three modifying commands, then vtoc --clear-empty, undisturbed and with up to "
        "three crash or fault scenarios; non-trivial = a free sector held non-zero data before")
STATE_MEASURE = "distinct (format, density, fault, image old or cleared, outcome) tuples"
ASSUMPTIONS = ["the sectors the volume table can describe: 1-719 on DOS 2.0, also 721-1023 on DOS 2.5, 0-559 on DOS 3.3, all on SpartaDOS"]


def gen(rng, tier):
    bases = rng.choice([scene.ALL_T, scene.ALL_T, scene.ALL_T, scene.SPARTA_T])
    spec = scene.gen_image(rng, bases, maxfiles=8)
    spec["junk"] = int(rng.random() < .6)
    kind, dens = scene.kind_of(spec["base"]), scene.density_of(spec["base"])
    have = util.names_in(spec)
    pool = rng.sample(have, min(len(have), 3)) + scene.gen_names(rng, kind, 2)
    plan = dict(img=spec, where=rng.choice(["plain", "plain", "sub", "link"]), pre=[], flip=[], faults=[])
    if kind != "sparta":
        plan["pre"] = [scene.gen_write_cmd(rng, kind, dens, pool) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    for _ in range(rng.choice([0, 0, 0, 1, 2, 5])):     # sectors another system gave up or keeps without using them
        plan["flip"].append([rng.randrange(10000), int(rng.random() < .5)])
    for _ in range(rng.choice([0, 1, 2, 3])):
        m = rng.choice(["kill", "int", "power", "fail", "fail"])
        plan["faults"].append(dict(mode=m, sel=rng.choice(["mut", "mut", "cls", "any"]), frac=rng.randrange(10000), e=rng.randrange(60), part=rng.randrange(10000), sticky=int(rng.random() < .2), gap=1,
                                   seed=rng.randrange(1 << 30), how={"kill": rng.choice(util.KILLS), "power": rng.choice(util.KILLS), "int": rng.choice(["int_before", "int_after"]),
                                                                     "fail": rng.choice(["fail", "fail", "short", "do_fail"])}[m]))
    return plan


def cleared(d, img):
    """What the image must be afterwards."""
    b = bytearray(img)
    dirty = 0
    for s in sorted(d.freemap()):
        if d.kind == "atari" and s == 0:
            continue
        p, n = d.pos(s)
        if any(b[p:p + n]):
            dirty += 1
        b[p:p + n] = bytes(n)
    return bytes(b), dirty


def sector_of(d, i):
    lo = 0 if d.kind == "dos33" else 1
    for s in range(lo, (560 if d.kind == "dos33" else d.nsec + 1)):
        p, n = d.pos(s)
        if p <= i < p + n:
            return s
    return "header"


def execute(plan, R):
    w = R.world()
    rel, real = util.place(w, plan)
    for c in plan["pre"]:
        scene.stage(w, c)
        w.run(scene.argv(c, rel), gated=False)
    try:
        d = scene.open_disk(plan["img"], w.get(real))
    except disk.Bad:
        return          # damaged by the commands before: C05's business
    if plan["flip"]:
        used = sorted(s for s in range(4, 700) if s not in d.freemap() and d.kind == "atari" and s not in d.reserved)
        free = sorted(s for s in d.freemap() if s)
        for k, on in plan["flip"]:
            src = used if on else free
            if d.kind == "atari" and on:
                busy = set(s for f in d.files() for s in f["sectors"])
                src = [s for s in used if s not in busy]
            elif on:
                continue
            if src:
                d.setfree(src[k * len(src) // 10000], bool(on))
        if d.kind != "dos33":
            d.setcounts()
        w.put(real, bytes(d.img))
    old = w.get(real)
    d = scene.open_disk(plan["img"], old)
    want, dirty = cleared(d, old)
    R.nontrivial = dirty > 0
    argv = scene.argv(dict(c="shred"), rel)
    before = w.tree()
    o, ops = K.trace_ops(w, argv)
    new = w.get(real)
    what = " ".join(argv)
    if not o.ok:
        R.fail("failed", "%s: %s %s" % (what, o.brief(), o.trace))
        return
    if new is None or len(new) != len(old):
        R.fail("image", "%s: the image has %s bytes" % (what, "no" if new is None else len(new)))
        return
    if new != want:
        i = [i for i in range(len(new)) if new[i] != want[i]][0]
        s = sector_of(d, i)
        R.fail("cleared" if isinstance(s, int) and s in d.freemap() else "touched",
               "%s: byte %d (%s) is %02x, should be %02x" % (what, i, "%s sector %d" % ("free" if s in d.freemap() else "used", s) if s != "header" else "header", new[i], want[i]))
        return
    R.log(util.h(new), dirty)
    bad = util.same_except_litter(before, w.tree(), {real})
    if bad:
        R.fail("collateral", what + ": " + "; ".join(bad[:3]))
        return
    for x in plan["faults"]:
        w.restore(before)
        if x["mode"] == "fail":
            faults = c02.make_faults(ops, [x])
        else:
            at = util.pick_op(ops, x["sel"], x["frac"])
            faults = [K.Fault(at, K.KIND_NAMES.index(x["how"]), 0, ops[at].len * x["part"] // 10000 if ops[at].op == "write" else 0)] if at is not None else []
        if not faults:
            return
        w.durable = K.Durable(w.root) if x["mode"] == "power" else None
        o = w.run(argv, faults=faults)
        if x["mode"] == "power":
            tree, _ = w.durable.cut(random.Random(x["seed"]))
            w.durable = None
            w.restore(tree)
        img = w.get(real)
        state = "cleared" if img == want else "old" if img == old else "neither"
        R.log(o.brief(), state)
        R.state(plan["img"]["base"], x["mode"], x["how"], ops[faults[0].at].op, state, o.how)
        R.probe("%s -> %s" % (x["mode"], state if old != want else "same"))
        if state == "neither":
            R.fail("partial", "%s with %s at operation %d (%s): the image is neither the old nor the cleared one" % (what, x["how"], faults[0].at, ops[faults[0].at].op))
            return
