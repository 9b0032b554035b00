"""I/O errors are reported and never turn into silent or partial effects."""
import errno
import os
import random

from .. import kernel as K, scene, util

QUICK_RUNS, THOROUGH_RUNS = 800, 40000
LEVEL = "fault_enumeration"
RULE = ("a run = one image, one command (any) and up to four fault scenarios, each one or two failing/shortened/refused file operations of that command, "
        "once or from then on; non-trivial = at least one fault was delivered")
STATE_MEASURE = "distinct (command, operation hit, fault, visible outcome, image state) tuples"
ASSUMPTIONS = ["faults follow POSIX: a short transfer moves at least one byte, a failed close may or may not have written the data, a failed rename changed nothing or (do_fail) everything"]

ERRS = {"read": [errno.EIO, errno.EINTR], "write": [errno.EIO, errno.ENOSPC, errno.ENOSPC, errno.EDQUOT, errno.EFBIG, errno.EINTR],
        "open": [errno.EACCES, errno.EIO, errno.EMFILE, errno.ENOSPC, errno.EROFS, errno.EINTR], "close": [errno.EIO, errno.ENOSPC],
        "fsync": [errno.EIO, errno.ENOSPC], "rename": [errno.EACCES, errno.EIO, errno.ENOSPC, errno.EBUSY, errno.EPERM, errno.EXDEV], "trunc": [errno.EIO],
        "unlink": [errno.EACCES, errno.EIO], "mkdir": [errno.EACCES, errno.ENOSPC], "rmdir": [errno.EIO], "link": [errno.EPERM, errno.EMLINK],
        "symlink": [errno.EPERM], "chmod": [errno.EPERM]}


def gen_any_cmd(rng, kind, dens, pool, have):
    c = rng.choices(["add", "del", "asm", "shred", "create", "boot", "extract", "crc", "list", "vtoc", "segments"],
                    [6, 3, 3, 2, 3, 3, 7, 2, 2, 1, 1])[0]
    if c in ("add", "del", "asm", "shred"):
        cmd = scene.gen_write_cmd(rng, kind, dens, pool, [c])
        if c == "del" and have:
            cmd["names"] = rng.sample(have, min(len(have), rng.choice([1, 2, 3])))
            cmd["f"] = 1
        return cmd
    if c == "create":
        return dict(c="create", template=rng.choice(scene.APPLE_T if kind == "dos33" else scene.ATARI_T), f=int(rng.random() < .8))
    if c == "boot":
        return dict(c="boot", data=scene.gen_data(rng), r=rng.choice(["", "2000"]))
    if c == "extract":
        opts = []
        if rng.random() < .5:
            opts += ["-d", rng.choice(["out", "out/deep", "there"])]
        if rng.random() < .4:
            opts += ["-a"]
        if rng.random() < .2:
            opts += ["-t"]
        if rng.random() < .15:
            opts += ["-l"]
        names = [] if "-a" in opts else rng.sample(have, min(len(have), rng.choice([1, 2, 3]))) if have else [rng.choice(pool)]
        return dict(c="extract", opts=opts, names=names, f=int(rng.random() < .5))
    if c == "list":
        return dict(c="list", opts=rng.choice([[], ["-c"], ["-m"], ["-c", "-m"]]))
    return dict(c=c)


def gen(rng, tier):
    spec, kind, dens, pool = util.gen_case(rng, maxfiles=5)
    have = util.names_in(spec)
    plan = dict(where=rng.choice(["plain", "plain", "sub", "link"]), img=spec, cmd=gen_any_cmd(rng, kind, dens, pool, have))
    c = plan["cmd"]["c"]
    if c in ("create", "boot"):
        spec.pop("xfd", None)
        if rng.random() < .4:
            plan["img"] = None
            plan["name"] = "img." + ("dsk" if kind == "dos33" else "atr")
            plan["where"] = "plain"
    if c == "extract" and have and rng.random() < .4:
        plan["there"] = rng.sample(have, min(len(have), 2))        # host files that exist already
    plan["faults"] = []
    if rng.random() < .5:
        plan["faults"].append([dict(sel="file", frac=rng.randrange(10000), how="short", e=0, part=rng.randrange(10000), sticky=0, gap=1)])
    for i in range(rng.choice([1, 2, 3, 4])):
        fs = []
        for j in range(rng.choice([1, 1, 1, 2, 2])):
            fs.append(dict(sel=rng.choice(["mut", "mut", "cls", "cls", "any", "file"]), frac=rng.randrange(10000), how=rng.choice(["fail", "fail", "fail", "short", "do_fail"]),
                           e=rng.randrange(60), part=rng.randrange(10000), sticky=int(rng.random() < .25), gap=rng.randrange(1, 6)))
        plan["faults"].append(fs)
    return plan


def outdir(cmd):
    o = cmd.get("opts", [])
    return o[o.index("-d") + 1] if "-d" in o else ""


def make_faults(ops, fs):
    """Faults on recorded operations: the first anywhere, the second a few operations later."""
    r = []
    at = None
    for f in fs:
        if at is None:
            at = util.pick_op(ops, f["sel"], f["frac"])
        else:
            at += f["gap"]
        if at is None:
            return []
        if at >= len(ops):      # what the command does only because of the first fault
            r.append(K.Fault(at, K.FAIL, [errno.EIO, errno.ENOSPC, errno.EACCES][f["e"] % 3], 0, True))
            continue
        op = ops[at].op
        kind = K.KIND_NAMES.index(f["how"])
        n = 0
        if kind == K.SHORT:
            if op in ("read", "write"):
                n = max(1, ops[at].len * f["part"] // 10000)
            else:
                kind = K.FAIL
        es = ERRS.get(op, [errno.EIO])
        e = es[f["e"] % len(es)]
        sticky = bool(f["sticky"])
        if e == errno.EINTR and (sticky or kind == K.DO_FAIL):
            e = errno.EIO
        r.append(K.Fault(at, kind, e, n, sticky and kind != K.SHORT))
    return r


def execute(plan, R):
    w = R.world()
    rel, real = util.place(w, plan)
    cmd = plan["cmd"]
    scene.stage(w, cmd)
    od = outdir(cmd)
    for n in plan.get("there", ()):
        w.put(os.path.join(od, n), b"already here")
    argv = scene.argv(cmd, rel)
    before = w.tree()
    old = w.get(real)
    twin, ops = K.trace_ops(w, argv)
    bad = util.lib_fail(twin)
    if bad:
        R.fail("undisturbed", "%s without faults: %s" % (argv, bad))
        return
    want, new = w.tree(), w.get(real)
    R.log(twin.brief(), util.h(repr(sorted(want.items()))))
    def opn(f):
        return (ops[f.at].op, ops[f.at].path) if f.at < len(ops) else ("a later one", "")
    for fs in plan["faults"]:
        w.restore(before)
        faults = make_faults(ops, fs)
        if not faults:
            return
        n0 = sum(w.fired.values())
        sync = any(ops[f.at].op == "fsync" for f in faults if f.at < len(ops))
        w.durable = K.Durable(w.root) if sync else None
        o = w.run(argv, faults=faults)
        dur, w.durable = w.durable, None
        hit = sum(w.fired.values()) > n0
        what = "%s with %s: " % (" ".join(argv), ", ".join("%s:%s at operation %d of %d (%s %s)%s" % (K.KIND_NAMES[f.kind], errno.errorcode.get(f.err, ""), f.at, len(ops), opn(f)[0],
                os.path.basename(opn(f)[1]), " and on" if f.sticky else "") for f in faults))
        img = w.get(real)
        state = "same" if old == new == img else "old" if img == old else "new" if img == new else "neither"
        visible = not (o.how == twin.how and o.code == twin.code and o.out == twin.out and o.err == twin.err and o.exc == twin.exc)
        R.log(o.brief(), state, visible)
        if hit:
            R.nontrivial = True
            R.state(cmd["c"], ops[faults[0].at].op, faults[0].kind, faults[0].err, visible, state)
            R.probe("%s, image %s" % ("reported" if visible else "absorbed", state))
        if o.how in ("hang", "signal"):
            R.fail("hang", what + o.brief())
            return
        if state == "neither":
            R.fail("partial", what + "the image is %s" % ("gone" if img is None else "neither the old nor the new one (%d bytes)" % len(img)) + "; " + o.brief())
            return
        after = w.tree()
        if not visible:
            bad = util.same_except_litter(want, after)
            if bad:
                R.fail("silent", what + "reported success, but " + "; ".join(bad[:3]))
                return
        else:
            for k in sorted(set(before) | set(after) | set(want)):
                if k in (rel, real) or k == ".":
                    continue
                a = after.get(k, "-")
                if a == before.get(k, "-") or a == want.get(k, "-"):
                    continue
                if k not in before and k not in want and (os.path.basename(k).startswith(".") or k.endswith((".tmp", "~", ".bak"))):
                    continue
                R.fail("partial", what + "%s has neither its old nor its new contents (%s); %s" % (k, "%d bytes" % len(a) if isinstance(a, bytes) else a, o.brief()))
                return
            if plan["where"] == "link" and not os.path.islink(w.path(rel)):
                R.fail("link", what + "the symbolic link to the image was replaced")
                return
        # what it says it extracted is there
        if cmd["c"] == "extract" and o.ok:
            lines = [l for l in o.out.splitlines() if l.startswith("extracting ")]
            bl = set(l for l in twin.out.splitlines() if l.startswith("extracting "))
            for l in lines:
                p = l.rsplit(" -> ", 1)[1]
                if l in bl and want.get(os.path.normpath(p)) != after.get(os.path.normpath(p)):
                    R.fail("silent", what + "%r, but the file is not there" % l)
                    return
        if dur is not None and hit and not visible:
            # the data could not be forced to the disk and success was reported: what a power loss now leaves is the old or the new image
            for k in range(6):
                tree, d = dur.cut(random.Random(fs[0]["part"] * 16 + k))
                x = tree.get(real)
                if x != old and x != new:
                    R.fail("silent", what + "reported success; after a power loss (%s) the image is %s" % (", ".join(d), "gone" if x is None else "neither the old nor the new one (%d bytes)" % len(x)))
                    return
        # once the fault has cleared
        o2 = w.run(argv, gated=False)
        after = w.tree()
        if o2.how != "exit" or (twin.ok and not o2.ok):
            R.fail("recovery", what + "repeated without faults: " + o2.brief() + o2.trace)
            return
        if img == old:
            if w.get(real) != new:
                R.fail("recovery", what + "repeated without faults: does not make the image")
                return
            bad = util.same_except_litter(want, after)
            if bad:
                R.fail("recovery", what + "repeated without faults: " + "; ".join(bad[:3]))
                return
