"""Extraction writes only inside the directory it was told to use."""
import errno
import os

from .. import damage, disk, kernel as K, scene, util
from . import c02

QUICK_RUNS, THOROUGH_RUNS = 1200, 60000
RULE = ("a run = an image of any format whose directory names were replaced by hostile or random ones (separators, dot-dot, absolute, empty, control and 8-bit characters) and up to three extract commands, some with faults; "
        "the targets of all file operations are observed at the gate, those outside the scratch tree are refused and recorded; non-trivial = an extract wrote a file or met a hostile name")
STATE_MEASURE = "distinct (format, hostile name, options, outcome) tuples"
SIMULATED = ["every mutating operation outside the scratch tree is answered with EACCES and recorded, never executed"]

NAMES = ["../X", "..", ".", "", "/X", "/", "/ETC/PWD", "A/B", "A/../B", "../../X", "..\\X", "A\\B", "X/", "./X", "../A", "//X", "...", "~", "~/X", "-F", "C:X", "CON", "A:B", "X\0Y", "\0", "*", "?", "$HOME", "`X`", " ", " X", "X\n",
         "\x80\xff", "HOST", "OUT", "img.atr", ".img.at", "D/REAL", "OUT/X", "host/X", "A.B.C"]


def put_name(d, k, name):
    """Overwrite the name of the k-th directory entry."""
    if d.kind == "dos33":
        raw = bytes((ord(c) | 0x80) & 0xff for c in name)[:30].ljust(30, b"\xa0")
        off = 3
    else:
        a, dot, e = name.rpartition(".") if name.strip(".") and "." in name.strip(".") else (name, "", "")
        if not dot:
            a, e = name, ""
            if len(name) > 8:
                a, e = name[:8], name[8:11]
        raw = a[:8].encode("latin1").ljust(8) + e[:3].encode("latin1").ljust(3)
        off = 5 if d.kind == "atari" else 6
    ents = list(d.entries())
    if not ents:
        return
    slot, old, e = ents[k % len(ents)]
    if d.kind == "sparta":
        rb = bytearray(d.rootdata())
        rb[slot * 23 + off:slot * 23 + off + 11] = raw
        maps, dsec = d.mapped(d.root)
        d._write(dsec, bytes(rb), maps)
    else:
        e = bytearray(d.slot(slot))
        e[off:off + len(raw)] = raw
        d.setslot(slot, bytes(e))


def gen(rng, tier):
    bases = rng.choice([scene.ALL_T, scene.ALL_T, scene.SPARTA_T])
    spec = scene.gen_image(rng, bases, maxfiles=6, populate=True)
    spec.pop("xfd", None)
    plan = dict(img=spec, where=rng.choice(["plain", "plain", "sub"]), names=[], cmds=[], there=[])
    for _ in range(rng.randrange(1, 6)):
        n = rng.choice(NAMES)
        if rng.random() < .15:
            n = "".join(chr(rng.choice([0x2f, 0x2e, 0x5c, 0x41, 0, 0x20, rng.randrange(256)])) for _ in range(rng.randrange(0, 11)))
        plan["names"].append([rng.randrange(64), n])
    for _ in range(rng.randrange(1, 4)):
        c = dict(all=int(rng.random() < .6), f=int(rng.random() < .4), lower=int(rng.random() < .2), text=int(rng.random() < .15), dir=rng.choice(["", "", "out", "out/deep", "d", "./out", "../top/out"]),
                 pick=[rng.randrange(64) for _ in range(rng.randrange(1, 4))], raw=rng.choice(NAMES), cwd=int(rng.random() < .8), ext=int(rng.random() < .1))
        if rng.random() < .2:
            c["x"] = dict(sel=rng.choice(["mut", "cls", "any"]), frac=rng.randrange(10000), how=rng.choice(["fail", "do_fail", "short"]), e=rng.randrange(60), part=rng.randrange(10000), sticky=int(rng.random() < .3), gap=1)
        plan["cmds"].append(c)
    return plan


def execute(plan, R):
    w = R.world()
    rel, real = util.place(w, plan)
    d = scene.open_disk(plan["img"], w.get(real))
    for k, n in plan["names"]:
        put_name(d, k, n)
    # the tree: top/ is where commands run, with neighbours that a hostile name could hit
    w.put("top/" + rel, bytes(d.img))
    for p in ("X", "A", "B", "PWD", "top/A/B", "top/HOST/x", "top/host/x", "out/X", "top/D/x", "etc/PWD"):
        w.put(p, b"untouchable " + p.encode())
    d = scene.open_disk(plan["img"], bytes(d.img))
    data = set()
    names = []
    for f in d.files():
        data.add(f["data"])
        data.add(f["data"].replace(b"\x7f", b"\t").replace(b"\x9b", b"\n"))
        names.append(f["name"])
    for c in plan["cmds"]:
        cwd = "top"
        if c["all"]:
            what = ["-a"]
        else:
            what = [names[k % len(names)] for k in c["pick"] if names] + [c["raw"]]
            what = [x for x in what if "\0" not in x]
            what = ["--"] + what if any(x.startswith("-") for x in what) else what
        argv = [rel, "extract"] + (["-f"] if c["f"] else []) + (["-l"] if c["lower"] else []) + (["-t"] if c["text"] else []) + (["-d", c["dir"]] if c["dir"] else []) + what
        before = w.tree()
        od = w.path(cwd, c["dir"]) if c["dir"] else w.path(cwd)
        parents = set()
        p = od
        while p != w.root:
            parents.add(p)
            p = os.path.dirname(p)
        bad = []

        def watch(i, q):
            if q.op in ("write", "fsync", "close", "read") or not q.mutates or not q.path:
                return
            for p in (q.path, q.path2):
                if not p:
                    continue
                p = os.path.normpath(os.path.join(w.path(cwd), p))
                if q.op == "mkdir" and p in parents:
                    continue
                if os.path.dirname(p) != od:
                    bad.append("%s %s" % (q.op, os.path.relpath(p, w.root)))
        faults = []
        if c.get("x"):
            t, ops = K.trace_ops(w, argv, cwd)
            w.restore(before)
            faults = c02.make_faults(ops, [c["x"]])
        e0 = len(w.escapes)
        o = w.run(argv, cwd=cwd, faults=faults, on_step=watch)
        what = "%s: " % " ".join(repr(a) for a in argv)
        R.log(o.brief(), util.h(o.out))
        R.state(plan["img"]["base"], sorted(n for _, n in plan["names"])[:2], c["all"], c["f"], c["dir"], o.exc)
        if len(w.escapes) > e0:
            R.fail("outside", what + "%s %s" % (w.escapes[e0][0], w.escapes[e0][1:]))
            return
        if bad:
            R.fail("elsewhere", what + bad[0])
            return
        after = w.tree()
        rod = os.path.relpath(od, w.root)
        for k in sorted(set(before) | set(after)):
            if before.get(k, 0) == after.get(k, 0):
                continue
            if after.get(k, 0) is None and w.path(k) in parents:
                continue
            if os.path.dirname(k) != rod:
                R.fail("elsewhere", what + "%s %s" % (k, "appeared" if k not in before else "is gone" if k not in after else "changed"))
                return
            R.nontrivial = True
            if k not in after:
                R.fail("removed", what + k + " is gone")
                return
            if after[k] not in data and not (faults and k not in before):
                R.fail("contents", what + "%s has the contents of no file of the image" % k)
                return
            if k == os.path.join("top", rel):
                R.fail("image", what + "replaced the image itself")
                return
            R.probe("written")
        if any(n in NAMES[:22] for _, n in plan["names"]):
            R.nontrivial = True
