"""Histories of commands on one image, with crashes and faults, against a reference model.

The model is independent of atrcopy: it reads the image with sim.disk, predicts which
arguments are accepted, skipped or rejected, and what the disk then holds.
"""
import errno
import os
import random

from . import disk, kernel as K, scene, util

IOFAULTS = [errno.EIO, errno.ENOSPC, errno.EACCES]


def stored_name(kind, name):
    if kind == "atari":
        a, _, e = name.partition(".")
        a, e = a[:8].rstrip(), e[:3].rstrip()
        return a + "." + e if e else a
    return name[:30].rstrip()


def fill_len(d, delta):
    """A file size that needs all free sectors plus delta."""
    free = len(d.freemap()) + delta
    if free < 1:
        return 1
    if d.kind == "atari":
        return free * d.payload
    n = free
    while n > 0 and d.need(n * 256) > free:
        n -= 1
    return max(n, 1) * 256


def gen_history(rng, tier, faults=.15, maxcmds=8, bases=scene.ALL_T, extra=(), kinds=None):
    spec, kind, dens, pool = util.gen_case(rng, bases)
    if rng.random() < .3:
        spec["junk"] = 1
    long = None
    if rng.random() < .12:
        long = rng.choice(["LONGFILENAME.TEXT", "LONGISH FILE.T XT", "LONGISH  X.TX T"] if kind == "atari" else
                          ["A VERY LONG FILE NAME INDEED FOR APPLE DOS", "A VERY LONG FILE NAME FORGOT A BLANK", "A VERY LONG FILE NAME IS THE   BLANK", "A LONG NAME.WITH A DOT AT LENGTH.X"])
        pool.append(long)
    cmds = []
    for _ in range(rng.randrange(2, maxcmds + 1)):
        c = scene.gen_write_cmd(rng, kind, dens, pool, kinds)
        if c["c"] == "add" and len(c["files"]) > 1 and rng.random() < .3:
            c["files"][-1]["sub"] = "host/more"
        if c["c"] == "add" and rng.random() < .18:
            c["files"][rng.randrange(len(c["files"]))].update(fill=rng.choice([-2, -1, 0, 0, 0, 1, 1, 2]))
        if c["c"] == "del" and rng.random() < .3:
            c["pick"] = rng.randrange(1 << 16)
        if rng.random() < faults:
            m = rng.choice(["kill", "kill", "int", "power", "fail", "fail"])
            x = dict(mode=m, sel=rng.choice(["mut", "mutx", "any"]), frac=rng.randrange(10000), seed=rng.randrange(1 << 30), part=rng.randrange(10000))
            x["how"] = {"kill": rng.choice(util.KILLS), "power": rng.choice(util.KILLS), "int": rng.choice(["int_before", "int_after"]),
                        "fail": rng.choice(["fail", "fail", "short", "do_fail"])}[m]
            if m == "fail":
                x["err"] = rng.choice(IOFAULTS)
            c["x"] = x
        cmds.append(c)
        for e in extra:
            if rng.random() < e[1]:
                cmds.append(e[0](rng, pool))
    if long and rng.random() < .6:
        for _ in range(2):      # a name that is cut, twice
            cmds.insert(rng.randrange(len(cmds) + 1), dict(c="add", f=int(rng.random() < .4), files=[dict(n=long, len=rng.randrange(2000), s=rng.randrange(1 << 16))]))
    if len(spec["steps"]) > 30 and rng.random() < .5 and not kinds:
        # a crowded directory on a mostly empty disk: one of the last entries takes the rest
        nm = scene.gen_names(rng, kind, 1)[0]
        cmds.insert(0, dict(c="add", f=1, files=[dict(n=nm, len=1, s=rng.randrange(1 << 16), fill=rng.choice([-2, -1, 0, -40]))]))
    return dict(img=spec, cmds=cmds)


class Snap:
    """An image as the independent reader sees it."""

    def __init__(self, img):
        self.img = img
        self.d = disk.open_disk(img)
        self.problems, self.lost = self.d.fsck()
        self.files = {}
        if not self.problems:
            for f in self.d.files():
                self.files[f["name"]] = f
        self.free = self.d.freemap()

    def contents(self):
        return {n: f["data"] for n, f in self.files.items()}


class Step:
    """One command of a history, before and after."""
    __slots__ = ("i", "cmd", "argv", "before", "after", "o", "x", "want", "decisions", "reject", "hit", "completed", "unpredicted")


def predict(snap, cmd):
    """-> (files {name: dict(data, type, locked, keep)}, decisions, reject reason or None, unpredicted names)"""
    d = snap.d
    st = {n: dict(data=f["data"], type=f["type"], locked=f["locked"], n=len(f["sectors"]), old=True) for n, f in snap.files.items()}
    free, slots = len(snap.free), d.freeslots()
    dec = []
    c = cmd["c"]
    if c == "add":
        for f in cmd["files"]:
            name = stored_name(d.kind, f["n"])
            data = scene.content(f["len"], f["s"])
            if name in st:
                if not cmd.get("f"):
                    dec.append((name, "skip"))
                    continue
                free += st[name]["n"]
                slots += 1
                del st[name]
            n = d.need(len(data))
            if slots < 1:
                return None, dec, "directory full", ()
            if n > free:
                return None, dec, "disk full", ()
            free -= n
            slots -= 1
            ty = ""
            if d.kind == "dos33":
                ty = {"T": "T", "I": "I", "A": "A", "B": "B", "": "B"}[cmd.get("t") or ""]
            st[name] = dict(data=d.stored(data), type=ty, locked=False, n=n, old=False)
            dec.append((name, "copy"))
    elif c == "del":
        for name in cmd["names"]:
            if name not in st:
                dec.append((name, "absent"))
            elif st[name]["locked"] and not cmd.get("f"):
                dec.append((name, "locked"))
            else:
                del st[name]
                dec.append((name, "remove"))
    elif c == "asm":
        name = stored_name(d.kind, cmd["o"])
        total = sum(x["len"] for x in cmd["data"])
        if name in st and not cmd.get("f"):
            dec.append((name, "skip"))
        else:
            # exact contents are C12's business: the executable's framing is learned from the image
            if name in st:
                free += st[name]["n"]
                slots += 1
                del st[name]
            lo, hi = d.need(total), d.need(total + 32 + 8 * len(cmd["data"]))
            if d.kind == "dos33":       # a memory image from the first to the last address
                lo_a = min(int(x["addr"], 16) for x in cmd["data"])
                hi_a = max(int(x["addr"], 16) + x["len"] for x in cmd["data"])
                lo = hi = d.need(hi_a - lo_a + 4)
            if slots < 1:
                return None, dec, "directory full", ()
            if lo > free:
                return None, dec, "disk full", ()
            dec.append((name, "copy"))
            return st, dec, None, ((name,) if hi <= free else (name, "?"))
    return st, dec, None, ()


def run_history(plan, R, on_step, before_run=None, gated_all=False):
    """Executes the plan; calls on_step(world, rel, Step) after each command. on_step returns False to stop."""
    w = R.world()
    rel, real = util.place(w, plan)
    try:
        snap = Snap(w.get(real))
    except disk.Bad as e:
        raise K.HarnessError("built an unreadable image: %s" % e)
    if snap.problems:
        raise K.HarnessError("built an unsound image: %s" % snap.problems[:3])
    for i, cmd in enumerate(plan["cmds"]):
        s = Step()
        s.i, s.cmd, s.before, s.x = i, cmd, snap, cmd.get("x")
        if cmd["c"] == "add":
            for f in cmd["files"]:
                if "fill" in f:
                    f["len"] = fill_len(snap.d, f["fill"])
            last = {(f["n"], f.get("sub")): f for f in cmd["files"]}        # a file given twice is one file on the host
            for f in cmd["files"]:
                f["len"], f["s"] = last[f["n"], f.get("sub")]["len"], last[f["n"], f.get("sub")]["s"]
        if cmd["c"] == "del" and "pick" in cmd and snap.files:
            cmd["names"] = [sorted(snap.files)[cmd["pick"] % len(snap.files)]]
        scene.stage(w, cmd)
        s.argv = scene.argv(cmd, rel)
        write = cmd["c"] in ("add", "del", "asm", "shred")
        s.want, s.decisions, s.reject, s.unpredicted = predict(snap, cmd) if write else (None, [], None, ())
        s.hit = False
        if s.x:
            t0 = w.tree()
            twin, ops = K.trace_ops(w, s.argv)
            w.restore(t0)
            at = util.pick_op(ops, s.x["sel"], s.x["frac"])
            f = []
            if at is not None:
                kind = K.KIND_NAMES.index(s.x["how"])
                n = ops[at].len * s.x["part"] // 10000 if ops[at].op in ("write", "read") else 0
                if kind == K.SHORT and ops[at].op not in ("write", "read"):
                    kind = K.FAIL
                if kind == K.SHORT:
                    n = max(n, 1)       # a real short transfer moves at least one byte
                f = [K.Fault(at, kind, s.x.get("err", 0), n)]
                s.hit = True
            if s.x["mode"] == "power":
                w.durable = K.Durable(w.root)
            s.o = w.run(s.argv, faults=f)
            if s.x["mode"] == "power" and f:
                tree, _ = w.durable.cut(random.Random(s.x["seed"]))
                w.restore(tree)
            w.durable = None
            # no command leaves the staged host files changed, so later commands can use them
        else:
            s.o = w.run(s.argv, gated=gated_all)
        img = w.get(real)
        R.log(s.o.brief(), util.h(img))
        if img is None:
            s.after = None
        elif img == snap.img:
            s.after = snap
        else:
            try:
                s.after = Snap(img)
            except disk.Bad as e:
                s.after = None
        # did the command take effect?
        s.completed = s.after is not None and (s.after is not snap)
        R.state(util.h(img))
        if on_step(w, rel, s) is False:
            return w, rel
        if s.after is None:
            return w, rel
        snap = s.after
        if snap.problems:
            return w, rel
    return w, rel
