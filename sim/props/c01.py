"""Crash atomicity of image-modifying commands."""
import errno
import os
import random

from .. import kernel as K, scene, util

QUICK_RUNS, THOROUGH_RUNS = 1200, 40000
LEVEL = "fault_enumeration"
RULE = ("a run = one image, one modifying command and up to four crash points (kill before/inside/after a file operation, interrupt, "
        "power loss with a seeded choice of surviving operations); non-trivial = at least one crash hit at or after the first mutating "
        "operation and before the last")
STATE_MEASURE = "distinct (command, operation hit, verdict, image state after the crash, surviving temporary files) tuples"
ASSUMPTIONS = ["power loss: directory operations survive as a prefix of their order, synced data survives, unsynced data survives as any prefix, torn or as zeros",
               "rename replaces its target atomically (POSIX)"]


def gen(rng, tier):
    spec, kind, dens, pool = util.gen_case(rng, maxfiles=5)
    c = rng.choices(["add", "del", "asm", "shred", "create", "boot"], [7, 4, 2, 2, 3, 3])[0]
    plan = dict(where=rng.choice(["plain", "plain", "plain", "sub", "sub", "link", "link", "hard"]), img=spec, pre=[])
    if c in ("create", "boot"):
        if rng.random() < .4:
            plan["img"] = None
            plan["name"] = "img." + ("dsk" if kind == "dos33" else "atr")
            if plan["where"] == "link":
                plan["where"] = "plain"
        else:
            spec.pop("xfd", None)
        if c == "create":
            plan["cmd"] = dict(c="create", template=rng.choice(scene.ALL_T if rng.random() < .3 else (scene.APPLE_T if kind == "dos33" else scene.ATARI_T)), f=1)
            if plan["img"] is None:
                plan["cmd"]["f"] = int(rng.random() < .5)
        else:
            plan["cmd"] = dict(c="boot", data=scene.gen_data(rng), r=rng.choice(["", "2000"]))
    else:
        plan["cmd"] = cmd = scene.gen_write_cmd(rng, kind, dens, pool, [c])
        have = list(dict.fromkeys(util.names_in(spec)))
        if c == "del" and have and rng.random() < .8:
            cmd["names"] = rng.sample(have, min(len(have), rng.choice([1, 2, 2, 3, 4])))
            cmd["f"] = int(rng.random() < .8)
        if c == "add" and rng.random() < .5:
            # replacing several files at once
            cmd["f"] = 1
            for f, n in zip(cmd["files"], rng.sample(have, min(len(have), len(cmd["files"])))):
                f["n"] = n
            if rng.random() < .5:
                cmd["files"] = scene.gen_files(rng, kind, dens, pool, 1) + cmd["files"]
        if rng.random() < .25:
            plan["pre"] = [scene.gen_write_cmd(rng, kind, dens, pool)]
    plan["rights"] = [rng.choice([0o644, 0o600, 0o640, 0o664, 0o666, 0o755]), rng.choice([0, 12345]), rng.choice([0, 23456])]
    plan["crashes"] = []
    for i in range(rng.choice([1, 2, 3, 4])):
        mode = rng.choices(["kill", "int", "power"], [4, 2, 4])[0]
        plan["crashes"].append(dict(mode=mode, sel=rng.choice(["mut", "mut", "mutx", "any"]), frac=rng.randrange(10000),
                                    how=rng.choice(util.KILLS) if mode != "int" else rng.choice(["int_before", "int_after"]),
                                    part=rng.randrange(10000), seed=rng.randrange(1 << 30)))
        if rng.random() < .15:      # it dies while dealing with a failure
            plan["crashes"][-1]["first"] = dict(gap=rng.choice([1, 1, 2, 2, 3, 4, 6]), e=rng.randrange(6), cls=rng.randrange(60), k=rng.randrange(60))
    return plan


def first_fault(ops, f):
    """An operation that is refused before the crash: each kind of modifying operation alike."""
    kinds = sorted(set(r.op for r in ops if r.mutates or r.op == "fsync"))
    if not kinds:
        return None
    idx = [i for i, r in enumerate(ops) if r.op == kinds[f["cls"] % len(kinds)]]
    return K.Fault(idx[f["k"] % len(idx)], K.FAIL, [errno.EPERM, errno.EACCES, errno.EXDEV, errno.EIO, errno.ENOSPC, errno.EBUSY][f["e"]])


def rights(w, plan, real):
    """Give the image its owner and permissions; None if there is none or these can't be set."""
    r = plan.get("rights")
    p = w.path(real)
    if not r or plan.get("where") == "hard" or not os.path.isfile(p) or os.path.islink(p):
        return None
    try:
        os.chown(p, r[1], r[2])
        os.chmod(p, r[0])
        with open(p, "rb+"):
            return r
    except OSError:
        try:
            os.chown(p, os.geteuid(), os.getegid())
            os.chmod(p, 0o644)
        except OSError:
            pass
        return None


def now(w, real):
    st = os.stat(w.path(real))
    return [st.st_mode & 0o7777, st.st_uid, st.st_gid]


def execute(plan, R):
    w = R.world()
    rel, real = util.place(w, plan)
    for c in plan["pre"]:
        scene.stage(w, c)
        w.run(scene.argv(c, rel))
    cmd = plan["cmd"]
    scene.stage(w, cmd)
    argv = scene.argv(cmd, rel)
    before = w.tree()
    old = w.get(real)
    twin, ops = K.trace_ops(w, argv)
    new = w.get(real)
    bad = util.lib_fail(twin)
    if bad:
        R.fail("undisturbed", "%s without faults: %s" % (argv, bad))
        return
    want = w.tree()
    w.restore(before)
    R.log(twin.brief(), util.h(new))
    muts = [i for i, r in enumerate(ops) if r.mutates]
    for cr in plan["crashes"]:
        at = util.pick_op(ops, cr["sel"], cr["frac"])
        if at is None:
            return
        n = 0
        kind = K.KIND_NAMES.index(cr["how"])
        faults = []
        if cr.get("first"):
            f = first_fault(ops, cr["first"])
            if f is None:
                return
            faults.append(f)
            at = f.at + cr["first"]["gap"]
            if kind == K.KIND_NAMES.index("die_part"):
                n = 100
        opname = ops[at].op if at < len(ops) else "a later one"
        if not faults and ops[at].op == "write":
            n = ops[at].len * cr["part"] // 10000
        w.durable = K.Durable(w.root) if cr["mode"] == "power" else None
        util.relink(w, plan, real)
        r = rights(w, plan, real)
        o = w.run(argv, faults=faults + [K.Fault(at, kind, 0, n)])
        desc = ""
        if cr["mode"] == "power":
            tree, d = w.durable.cut(random.Random(cr["seed"]))
            w.durable = None
            w.restore(tree)
            desc = ", ".join(d)
        img = w.get(real)
        what = "%s crashed (%s %s at operation %d of %d: %s %s) %s" % (" ".join(argv), cr["mode"], cr["how"], at, len(ops), opname, n or "", desc)
        if faults:
            what = "%s, after %s failed with %s" % (what, ops[faults[0].at].op, errno.errorcode[faults[0].err])
        state = "old" if img == old else "new" if img == new else "neither"
        R.log(o.brief(), state, util.h(img))
        R.state(cmd["c"], opname, cr["how"], cr["mode"], state, sum(1 for k in w.tree() if util.LITTER in k))
        if muts and muts[0] <= at < muts[-1]:
            R.nontrivial = True
        R.probe("crash %s -> %s" % (cr["mode"], state if old != new else "same"))
        if state == "neither":
            if img is None:
                R.fail("missing", what + ": the image is gone")
            else:
                R.fail("mixed", what + ": the image is neither the old (%d bytes) nor the new one, but %d bytes" % (len(old or b""), len(img)))
            return
        if old is not None or img is not None:
            bad = util.same_except_litter(before, w.tree(), {rel, real, "d/second"})
        else:
            bad = util.same_except_litter(before, w.tree(), {"d/second"})
        if bad:
            R.fail("collateral", what + ": " + "; ".join(bad[:3]))
            return
        if plan["where"] == "link" and not os.path.islink(w.path(rel)):
            R.fail("link", what + ": the symbolic link to the image was replaced")
            return
        if r and not faults and cr["mode"] != "power" and now(w, real) != r:
            R.fail("rights", what + ": permissions, owner and group of the image are %s, were %s" % (now(w, real), r))
            return
        # the next command works
        if img is not None:
            t = w.tree()
            o = w.run([rel, "list"], gated=False)
            if not o.ok or util.lib_fail(o):
                R.fail("next", what + ": then list: " + o.brief() + o.trace)
                return
            if w.tree() != t:
                R.fail("next", what + ": then list changed the tree")
                return
        if img != old:
            break
    # finally the command, run again, works as if nothing had happened
    if w.get(real) == old and old != new:
        r = rights(w, plan, real)
        o = w.run(argv)
        if r and w.get(real) is not None and now(w, real) != r:
            R.fail("rights", "%s: permissions, owner and group of the image are %s, were %s" % (" ".join(argv), now(w, real), r))
            return
        if w.get(real) != new or o.brief() != twin.brief() or o.out != twin.out:
            R.fail("rerun", "%s after a crash: %s, image %s, output %r, undisturbed %s %r" % (" ".join(argv), o.brief(), "as expected" if w.get(real) == new else "is not what the undisturbed command makes", o.out, twin.brief(), twin.out))
            return
        bad = util.same_except_litter(want, w.tree(), {"d/second"})
        if bad:
            R.fail("rerun", "%s after a crash: %s" % (" ".join(argv), bad))
        R.log("rerun", o.brief())
    elif w.get(real) is not None:
        o = w.run(argv)
        if util.lib_fail(o) or w.get(real) is None:
            R.fail("rerun", "%s repeated after a crash that left the new image: %s" % (" ".join(argv), o.brief()))
