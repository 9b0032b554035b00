"""What a command does is a function of its arguments and of the files' bytes."""
import os
import random

from .. import damage, kernel as K, scene, sibling, util
from . import c08

QUICK_RUNS, THOROUGH_RUNS = 1000, 60000
LEVEL = "fault_enumeration"
RULE = ("a run = an image of any format (also damaged or compressed) and 1-3 commands, each run plainly and then 2-4 times under other choices of everything that may differ between two executions: hash seed (a process of another "
        "zygote), random numbers and temporary names, clock and time zone, order of directory entries, length of each transfer, name and place of the image, work done earlier in the same process; non-trivial = a variant of a command "
        "that lists, extracts or changes something")
STATE_MEASURE = "distinct (format, command, variant, outcome) tuples"
ASSUMPTIONS = ["variants of the hash seed: three values, each in a zygote of its own"]
HASHES = [1, 77, 4242]
TWISTS = ["hash", "hash", "rand", "clock", "order", "short", "name", "abs", "before", "before", "readonly", "around"]


def gen(rng, tier):
    k = rng.random()
    ident = rng.random() < .25      # how a file is identified: any bytes under many names
    if ident and k > .33:
        k = rng.random()
    if ident and k < .33:
        k *= .75
    names, kind, dens = ["A", "HELLO"], "atari", "sd"
    if k < .25:
        spec = dict(made=rng.choice(c08.MADE), s=rng.randrange(1 << 16), n=rng.choice([0, 1, 128, 8192, 16384, 92160, 143360, rng.randrange(200000)]))
    elif k < .33:
        spec = dict(base=rng.choice(["kboot_test1.atr", "air_defense_v18.xex", "dos33_master.dsk"]), raw=1)
    else:
        spec = scene.gen_image(rng, scene.ALL_T * 2 + scene.SPARTA_T, maxfiles=6, populate=rng.random() < .85)
        names = util.names_in(spec) + scene.gen_names(rng, scene.kind_of(spec["base"]), 2)
        kind, dens = scene.kind_of(spec["base"]), scene.density_of(spec["base"])
    plan = dict(img=spec, cmds=[], edits=[])
    if ident:
        if rng.random() < .5:
            plan["img"] = dict(made=rng.choice(c08.MADE), s=rng.randrange(1 << 16), n=rng.choice([0, 1, 128, 1000, 2048, 8192, 16384, 40960, 92160, 143360, rng.randrange(200000)]))
        plan["cmds"] = [dict(c=rng.choice(["list", "verbose", "segments"]), tw=[[rng.choice(["name", "name", "name", "before"]), rng.randrange(1 << 20)] for _ in range(rng.choice([5, 7]))])]
        return plan
    if rng.random() < .25:
        img = start(dict(plan))
        d = None
        if spec.get("base") and not spec.get("raw") and not spec.get("xfd"):
            d = scene.open_disk(spec, img)
        if len(img):
            plan["edits"] = damage.gen(rng, img, d)
    if rng.random() < .1:
        plan["wrap"] = rng.choice(["gz", "bz2", "xz"])
    for _ in range(rng.choice([1, 1, 2, 3])):
        c = rng.choice(["list", "list-c", "crc", "extract", "extract", "extract1", "vtoc", "segments", "verbose", "add", "add", "add", "del", "asm", "create", "create", "boot", "help"])
        r = dict(c=c)
        if c in ("extract1", "del"):
            r["names"] = rng.sample(names, min(len(names), rng.choice([1, 2, 3, 5])))
            r["f"] = int(rng.random() < .5)
        if c == "add":
            r.update(files=scene.gen_files(rng, kind if kind != "sparta" else "atari", dens if kind != "sparta" else "sd", names, rng.choice([1, 2, 3, 5])), f=int(rng.random() < .6), t="")
            for f in r["files"]:
                f["len"] %= 9000
        if c == "asm":
            r.update(data=scene.gen_data(rng), o=rng.choice(["P.XEX", "P.BIN", rng.choice(names)]), f=1)
        if c == "boot":
            r.update(data=scene.gen_data(rng), f=1)
        if c == "create":
            r.update(template=rng.choice(scene.ALL_T + ["dos2", "dos2sd", "dos2ed", "dos33", "autobrun", "sd", "nosuch", "2.0s", "dos"]), f=int(rng.random() < .7))
        r["tw"] = [[rng.choice(TWISTS) for _ in range(rng.choice([1, 1, 2]))] + [rng.randrange(1 << 20)] for _ in range(rng.choice([2, 3, 4]))]
        plan["cmds"].append(r)
    return plan


def start(plan):
    spec = plan["img"]
    if spec.get("made"):
        img = c08.make(spec)
    elif spec.get("raw"):
        img = scene.template(spec["base"])
    else:
        img = scene.build_image(spec)
    img = damage.apply(img, plan.get("edits", []))
    return scene.wrap(img, plan["wrap"]) if plan.get("wrap") else img


def argv(r, rel):
    c = r["c"]
    if c == "help":
        return [rel, "create", "--help"]
    if c == "verbose":
        return ["-v", rel, "list"]
    if c in ("create", "boot"):
        return scene.argv(r, rel)
    return c08.argv(r, rel)


class Twisted:
    """A command in a child in which some choices of the environment are different."""

    def __init__(self, tw, seed, argv, before):
        self.tw, self.seed, self.argv, self.before = tw, seed, argv, before

    def __call__(self):
        import io
        import sys
        import time
        rng = random.Random(self.seed)
        if "clock" in self.tw:
            off = rng.choice([-1.5e9, -4e8, 7e8, 2.6e9, 86400 * 365.25 * 3])
            t0, n0, l0, g0 = time.time, time.time_ns, time.localtime, time.gmtime
            time.time = lambda: t0() + off
            time.time_ns = lambda: n0() + int(off * 1e9)
            time.localtime = lambda s=None: l0(t0() + off if s is None else s)
            time.gmtime = lambda s=None: g0(t0() + off if s is None else s)
            os.environ["TZ"] = rng.choice(["Asia/Kolkata", "EST5EDT", "UTC-13"])
            time.tzset()
        if "order" in self.tw:
            ld, sd = os.listdir, os.scandir
            how = rng.choice(["rev", "mix", "mix"])

            def perm(x):
                x = sorted(x, key=lambda e: e if isinstance(e, (str, bytes)) else e.name)
                if how == "rev":
                    x.reverse()
                else:
                    rng.shuffle(x)
                return x

            class Scan:
                def __init__(self, *a):
                    with sd(*a) as it:
                        self.e = iter(perm(list(it)))

                def __iter__(self):
                    return self.e

                def __next__(self):
                    return next(self.e)

                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    pass

                def close(self):
                    pass
            os.listdir = lambda *a: perm(ld(*a))
            os.scandir = Scan
        if "before" in self.tw:
            so = sys.stdout
            for b in self.before:
                sys.stdout = io.StringIO()
                try:
                    K.cli(b)
                finally:
                    sys.stdout = so
        code, e = K.cli(self.argv)
        if e is not None:
            raise e
        return code


def earlier(rng, tree, plan):
    """Commands on other images, done before in the same process; adds the images to the tree."""
    r = []
    for i in range(rng.choice([1, 2, 3])):
        base = rng.choice(scene.ALL_T + ["kboot_test1.atr", "air_defense_v18.xex", "sd_sd_test1.atr"] + c08.MADE)
        nm = "prev/p%d%s" % (i, os.path.splitext(base)[1])
        if base in c08.MADE:
            tree[nm] = c08.make(dict(made=base, s=rng.randrange(1 << 16), n=rng.choice([1, 777, 8192, 16384, 143360])))
        else:
            tree[nm] = scene.template(base)
        tree["prev/host/F%d" % i] = scene.content(rng.randrange(0, 900), i + 40)
        for _ in range(rng.choice([1, 2])):
            r.append(rng.choice([[nm, "list"], [nm, "crc"], [nm, "vtoc"], [nm, "vtoc", "-e"], [nm, "extract", "-a", "-d", "prev/out"], [nm, "add", "prev/host/F%d" % i], [nm, "segments"],
                                 [nm, "add", "-f", "prev/host/F%d" % i], ["--dry-run", nm, "add", "prev/host/F%d" % i], ["-v", nm, "list"], [nm, "delete", "NOSUCH"], ["prev/new%d.atr" % i, "create", "-f", "dos2ed.atr"],
                                 ["prev/b%d.dsk" % i, "boot", "-f", "-d", "prev/host/F%d@2000" % i]]))
    tree["prev"] = None
    tree["prev/host"] = None
    return r


def result(how, code, exc, msg, out, tree, rel, name, root, extra={}):
    def plain(text):
        for form in (os.path.join(root, name), name):
            text = text.replace(form, "\0")         # (a stand-in: one name may be part of the other)
        return text.replace(root + "/", "").replace("\0", rel)
    out, msg = plain(out), plain(msg)
    t = {}
    for k, v in extra.items():
        if tree.get(k, 0) == v:
            del tree[k]         # (a neighbour that was left alone)
    if "zzz/zz.atr" in extra:
        tree.pop("zzz", None)
    for k, v in tree.items():
        b = os.path.basename(k)
        if k.startswith("prev") or b.startswith(".") or k.endswith((".tmp", "~", ".bak")):
            continue
        t[rel if k == name else k] = v
    if exc == "SystemExit":
        exc = None
    return how, code, exc, msg, out, t


def execute(plan, R):
    w = R.world()
    spec = plan["img"]
    rel = "img." + ("dsk" if (spec.get("base") or spec["made"]).endswith(("dsk", "apple")) else "atr")
    img = start(plan)
    for r in plan["cmds"]:
        t0 = {"host": None, rel: img}
        for f in r.get("files", []) + r.get("data", []):
            t0["host/" + f["n"]] = scene.content(f["len"], f["s"])
        a = argv(r, rel)
        w.restore(t0)
        o = w.run(a, gated=False)
        plain = result(o.how, o.code, o.exc, o.exc_msg, o.out, w.tree(), rel, rel, w.root)
        R.log(o.brief(), util.h(o.out))
        if o.how == "hang":
            continue            # (judged elsewhere)
        changed = plain[5] != {k: v for k, v in t0.items()}
        for tw in r["tw"]:
            tw, seed = tw[:-1], tw[-1]
            rng = random.Random(seed)
            t = dict(t0)
            name = rel
            if "name" in tw and r["c"] not in ("boot", "create"):
                name = rng.choice(["img.dsk", "img.atr", "img.xex", "img", "img.car", "img.gz", "img.txt", "img.bin", "img.rom", "img.zip", "img.xfd", "img.dcm", "IMG.ATR"])
                t[name] = t.pop(rel)
            if "around" in tw:
                for x in rng.sample(["zz.atr", "zz.dsk", "zz.inf", ".zz", "img.inf", "img.json", "host/zz.atr", "zzz/zz.atr", "img.atr.gz", "nosuch"], 4):
                    if x not in t and x != name:
                        t[x] = scene.template(rng.choice(scene.ALL_T)) if rng.random() < .7 else b"x"
            extra = {x: v for x, v in t.items() if x not in t0 and x != name}
            av = argv(r, name)
            if "abs" in tw:
                av = [w.path(name) if x == name else x for x in av]
            if "hash" in tw:
                av = argv(r, name)
                got = result(*sibling.run(rng.choice(HASHES), t, av, "", seed), rel, name, "/nowhere", extra)
            else:
                before = earlier(rng, t, plan) if "before" in tw else []
                w.restore(t)
                fn = Twisted(tw, seed, av, before)
                if "readonly" in tw and not changed:
                    os.chmod(w.path(name), 0o444)
                if "short" in tw:
                    n = rng.choice([1, 7, 100, 511, 1000])
                    p = w.spawn(fn, rawseed=seed)
                    while p.outcome is None:
                        q = p.req
                        if q.op in ("read", "write") and q.len > n and rng.random() < .7:
                            w.step(p, K.SHORT, 0, n if q.op == "write" or n > 1 else 1)
                        else:
                            w.step(p)
                        if w.steps > 200000:
                            p.kill()
                            break
                    o = p.outcome
                else:
                    o = K.World.run(w, fn, gated=False, seed=seed % 1000 + 2)
                code = o.value if o.exc is None and isinstance(o.value, int) else o.code
                got = result(o.how, code, o.exc, o.exc_msg, o.out, w.tree(), rel, name, w.root, extra)
            what = "%s on %s, %s: " % (" ".join(av), spec.get("base") or spec["made"], "+".join(tw))
            R.state(spec.get("base") or spec["made"], r["c"], tw, got[:3])
            R.log(util.h(got))
            R.probe("variant: " + "+".join(sorted(set(tw))))
            if changed or plain[4].count("\n") > 1:
                R.nontrivial = True
            for i, x in enumerate(["way of ending", "exit status", "exception", "error message", "output"]):
                if got[i] != plain[i]:
                    R.fail(x, what + "%s %r instead of %r" % (x, str(got[i])[-500:], str(plain[i])[-500:]))
                    return
            if got[5] != plain[5]:
                bad = [k for k in sorted(set(got[5]) | set(plain[5])) if got[5].get(k, 0) != plain[5].get(k, 0)]
                R.fail("files", what + "leaves other files: %s" % bad[:4])
                return
