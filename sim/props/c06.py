"""Dry runs and read-only commands modify nothing."""
import errno
import os

from .. import damage, kernel as K, scene, util
from . import c02

QUICK_RUNS, THOROUGH_RUNS = 1600, 60000
RULE = ("a run = one image (any format, plain, compressed or damaged), up to four commands that are read-only or given --dry-run, each undisturbed or with faults or a kill; "
        "every file operation is observed at the gate; non-trivial = a dry run of a command that without --dry-run would have modified something, or a read of a disk with files")
STATE_MEASURE = "distinct (command, dry or not, format, container, outcome) tuples"


def gen(rng, tier):
    bases = rng.choice([scene.ALL_T, scene.ALL_T, scene.ALL_T, scene.SPARTA_T])
    spec = scene.gen_image(rng, bases, maxfiles=5)
    kind, dens = scene.kind_of(spec["base"]), scene.density_of(spec["base"])
    if rng.random() < .15:          # a file called like the image
        spec["steps"].append(["add", rng.choice(["img.atr", "IMG.ATR", "IMG.DSK", "img.dsk"]), rng.randrange(1, 900), 7, "first", 4 if kind == "dos33" else 8 if kind == "sparta" else 0x42])
    have = util.names_in(spec)
    pool = rng.sample(have, min(len(have), rng.randrange(1, 5))) + scene.gen_names(rng, kind, 2)
    plan = dict(img=spec, where=rng.choice(["plain", "plain", "sub", "link"]), there=[], runs=[])
    if rng.random() < .2:
        plan["wrap"] = rng.choice(["gz", "bz2", "xz"])
    elif rng.random() < .2:
        img = scene.build_image(spec)
        plan["damage"] = damage.gen(rng, img, None if spec.get("xfd") else scene.open_disk(spec, img))
    if rng.random() < .4:
        plan["there"] = rng.sample(have, min(len(have), 2))
    if rng.random() < .06 and not plan.get("wrap") and not plan.get("damage"):
        # the image is reached through a link, and holds a file called like the linked file
        t = rng.choice(["SAME.IMG", "same.img"])
        if rng.random() < .25:
            plan["where"] = "hard"
            t = "second"
        else:
            plan.update(where="link", target="d/" + t)
        spec["steps"].append(["add", t, rng.randrange(1, 900), 7, "first", 4 if kind == "dos33" else 8 if kind == "sparta" else 0x42])
        plan["runs"].append(dict(cmd=dict(c="extract", opts=rng.choice([["-d", "d"], ["-d", "d", "-a"], ["-d", "d/../d"], ["-d", "d/"]]), names=[t], f=1), early=0))
        if "-a" in plan["runs"][-1]["cmd"]["opts"]:
            plan["runs"][-1]["cmd"]["names"] = []
    for _ in range(rng.randrange(1, 5)):
        if rng.random() < .65:
            cmd = c02.gen_any_cmd(rng, "dos33" if kind == "dos33" else "atari", "sd" if kind == "sparta" else dens, pool, have)
            cmd["dry"] = 1
            if rng.random() < .5:
                cmd["f"] = 1
        else:
            c = rng.choice(["list", "crc", "vtoc", "segments", "extract", "extract", "default"])
            cmd = dict(c=c)
            if c == "list":
                cmd["opts"] = rng.choice([[], ["-c"], ["-m"], ["-c", "-m"], ["-g"]])
            if c == "extract":
                cmd.update(opts=rng.choice([["-a"], ["-a", "-d", "out"], ["-d", "out"], [], ["-a", "-l", "-t"]]), names=[rng.choice(pool)], f=int(rng.random() < .5))
        r = dict(cmd=cmd, early=int(rng.random() < .4))
        if rng.random() < .35:
            r["x"] = dict(sel=rng.choice(["any", "cls"]), frac=rng.randrange(10000), how=rng.choice(["fail", "short", "int_before", "int_after", "die_after"]),
                          e=rng.randrange(60), part=rng.randrange(10000), sticky=int(rng.random() < .3), gap=1)
        plan["runs"].append(r)
    return plan


def argv_of(r, rel):
    cmd = r["cmd"]
    if cmd["c"] == "default":
        return [rel]
    a = scene.argv(cmd, rel)
    if cmd.get("dry") and r.get("early"):       # global options may stand before the image name, too
        a.remove("--dry-run")
        a.insert(0, "--dry-run")
    return a


def execute(plan, R):
    w = R.world()
    rel, real = util.place(w, plan)
    for n in plan["there"]:
        for d in ("", "out", "there"):
            w.put(os.path.join(d, n), b"already here")
    for r in plan["runs"]:
        cmd = r["cmd"]
        scene.stage(w, cmd)
        argv = argv_of(r, rel)
        before = w.tree()
        old = w.get(real)
        writer = cmd["c"] == "extract" and not cmd.get("dry")
        bad = []
        images = {w.path(rel), w.path(real)}

        def watch(i, q):
            """Would this operation change anything?"""
            ex = os.path.lexists(q.path) if q.path else False
            if q.op == "open":
                hit = bool(q.flags & os.O_CREAT and not ex) or bool(q.flags & os.O_TRUNC)
            elif q.op in ("unlink", "rmdir", "rename", "link", "chmod"):
                hit = ex
            elif q.op in ("mkdir", "symlink"):
                hit = not ex
            elif q.op in ("write", "trunc"):
                hit = True
            else:
                return
            if not hit:
                return
            if writer:
                if q.op in ("write", "trunc", "chmod") and not q.path:
                    pass
                elif q.path in images or q.path2 in images:
                    bad.append("%s of the image" % q.op)
            else:
                bad.append("%s %s" % (q.op, os.path.relpath(q.path, w.root) if q.path else "fd %d" % q.fd))
        x = r.get("x")
        faults = []
        if x:
            t, ops = K.trace_ops(w, argv)
            w.restore(before)
            faults = c02.make_faults(ops, [x]) if x["how"] in ("fail", "short") else []
            if not faults:
                at = util.pick_op(ops, x["sel"], x["frac"])
                faults = [K.Fault(at, K.KIND_NAMES.index(x["how"]) if x["how"] not in ("fail", "short") else K.FAIL, errno.EIO)] if at is not None else []
        e0 = len(w.escapes)
        o = w.run(argv, faults=faults, on_step=watch)
        what = "%s%s: " % (" ".join(argv), " with %s" % x["how"] if x else "")
        R.log(o.brief(), util.h(o.out))
        R.state(cmd["c"], bool(cmd.get("dry")), plan["img"]["base"], plan.get("wrap"), bool(plan.get("damage")), o.how, o.exc, bool(x))
        if cmd.get("dry") and cmd["c"] in ("add", "del", "asm", "create", "boot", "shred", "extract") and o.ok:
            R.nontrivial = True
            R.probe("dry run of " + cmd["c"])
        elif not cmd.get("dry") and o.ok and util.names_in(plan["img"]):
            R.nontrivial = True
        if len(w.escapes) > e0:
            R.fail("outside", what + "modifies something outside: %s" % (w.escapes[e0],))
            return
        if bad:
            R.fail("modifies", what + bad[0])
            return
        if w.get(real) != old:
            R.fail("image", what + "the image changed")
            return
        after = w.tree()
        if not writer and after != before:
            R.fail("tree", what + "; ".join(util.same_except_litter(before, after)[:3] or ["files appeared"]))
            return
        if writer:
            for k in before:
                if before[k] != after.get(k, 0) and not cmd.get("f"):
                    R.fail("tree", what + "%s changed" % k)
                    return
            w.restore(before)
