"""A compressed image reads exactly like the plain one, or is refused."""
import errno
import os

from .. import damage, kernel as K, scene, util
from . import c02

QUICK_RUNS, THOROUGH_RUNS = 1000, 50000
LEVEL = "fault_enumeration"
RULE = ("a run = an image of any format, a container (gzip, bzip2, xz; several levels and members), up to four read commands on the compressed file: intact, truncated, corrupted, with bytes appended or with read faults; the same command on the plain image is the reference; "
        "non-trivial = the plain command prints or extracts at least one file")
STATE_MEASURE = "distinct (format, container, damage kind, command, outcome) tuples"
ASSUMPTIONS = ["containers with several members are damaged only inside a member: a file cut exactly between members is indistinguishable from a whole one"]


def gen(rng, tier):
    bases = rng.choice([scene.ALL_T, scene.ALL_T, scene.ALL_T, scene.SPARTA_T])
    spec = scene.gen_image(rng, bases, maxfiles=5, populate=rng.random() < .9)
    if rng.random() < .3:
        spec["junk"] = 1
    have = util.names_in(spec)
    if rng.random() < .08:
        spec = dict(base=rng.choice(["kboot_test1.atr", "air_defense_v18.xex", "dos33_master.dsk"]), raw=1)
        have = []
    plan = dict(img=spec, wrap=rng.choice(["gz", "bz2", "xz"]), members=rng.choice([1, 1, 1, 1, 2, 3]), level=rng.choice([1, 6, 9]), fname=int(rng.random() < .3), runs=[],
                name=rng.choice(["img.atr", "img.gz", "img", "img.atr.xz"]))
    for _ in range(rng.randrange(1, 5)):
        c = rng.choice(["list", "crc", "extract", "extract", "vtoc", "segments", "list-c", "list-m"])
        r = dict(c=c)
        if c == "extract":
            r["names"] = rng.sample(have, min(len(have), 2)) if have and rng.random() < .4 else []
        k = rng.random()
        if k < .3:
            pass
        elif k < .5:
            r["trunc"] = rng.choice([rng.randrange(10000), 9999, 9990, rng.randrange(100)])
            r["cut"] = rng.randrange(1, 14)
        elif k < .75:
            r["flip"] = [[rng.choice([rng.randrange(10000), rng.randrange(60), 10000 - rng.randrange(60)]), rng.randrange(1, 256)] for _ in range(rng.choice([1, 1, 2, 8]))]
        elif k < .8:
            r["app"] = [rng.randrange(1, 200), rng.randrange(1 << 30)]
        else:
            r["x"] = dict(sel=rng.choice(["any", "cls"]), frac=rng.randrange(10000), how=rng.choice(["fail", "short", "short"]), e=rng.randrange(60), part=rng.randrange(10000), sticky=int(rng.random() < .2), gap=1)
        plan["runs"].append(r)
    return plan


def pack(plan, data):
    m = plan["members"]
    parts = [data[i * len(data) // m:(i + 1) * len(data) // m] for i in range(m)]
    import bz2, gzip, io, lzma
    out = b""
    for p in parts:
        if plan["wrap"] == "gz":
            b = io.BytesIO()
            with gzip.GzipFile("a name" if plan["fname"] else "", "wb", plan["level"], b, mtime=1000) as fh:
                fh.write(p)
            out += b.getvalue()
        elif plan["wrap"] == "bz2":
            out += bz2.compress(p, plan["level"])
        else:
            out += lzma.compress(p, preset=plan["level"] if plan["level"] < 9 else 6)
    return out


def argv(r, rel, w):
    c = r["c"]
    if c == "extract":
        return [rel, "extract", "-d", "out"] + (r["names"] or ["-a"])
    if c.startswith("list-"):
        return [rel, "list", "-" + c[5:]]
    return [rel, c]


def execute(plan, R):
    spec = plan["img"]
    data = scene.template(spec["base"]) if spec.get("raw") else scene.build_image(spec)
    packed = pack(plan, data)
    w, pw = R.world(), R.world()
    rel = plan["name"]
    pw.put(rel, data)
    plain = {}
    for r in plan["runs"]:
        a = argv(r, rel, w)
        key = tuple(a)
        if key not in plain:
            o = pw.run(a, gated=False)
            plain[key] = (o.brief(), o.out, {k: v for k, v in pw.tree().items() if k != rel})
            pw.restore({rel: data})
        pb, pout, ptree = plain[key]
        img = packed
        how = "intact"
        if "trunc" in r:
            n = len(packed) * r["trunc"] // 10000
            if r["trunc"] >= 9990:
                n = len(packed) - r["cut"]
            if plan["members"] > 1:
                n = max(n, len(packed) - 20)        # inside the last member
            img, how = packed[:max(0, n)], "truncated"
        elif "flip" in r:
            b = bytearray(packed)
            for p, v in r["flip"]:
                i = min(len(b) - 1, len(b) * p // 10000) if p > 60 and p < 9940 else min(len(b) - 1, p if p <= 60 else len(b) - 1 - (10000 - p) % 60)
                b[i] ^= v
            img, how = bytes(b), "corrupted"
        elif "app" in r:
            img, how = packed + damage.rnd(*r["app"]), "appended"
        w.restore({rel: img})
        faults = []
        if "x" in r:
            o, ops = K.trace_ops(w, a)
            w.restore({rel: img})
            faults = c02.make_faults(ops, [r["x"]])
            how = "fault"
        o = w.run(a, faults=faults)
        tree = {k: v for k, v in w.tree().items() if k != rel}
        what = "%s on a %s %s image (%s): " % (" ".join(a), how, plan["wrap"], spec["base"])
        R.log(o.brief(), util.h(o.out), how)
        R.state(spec["base"], plan["wrap"], how, r["c"], o.how, o.exc, o.out == pout)
        if "File #" in pout or ptree or r["c"] == "crc" and pout.strip():
            R.nontrivial = True
        if w.get(rel) != img:
            R.fail("image", what + "the image changed")
            return
        bad = util.lib_fail(o)
        if bad:
            R.fail("foreign", what + bad)
            return
        same = o.brief() == pb and o.out == pout and tree == ptree
        if same:
            R.probe("%s: as plain" % how)
            continue
        if how == "intact":
            R.fail("differs", what + "%s %r instead of %s %r%s" % (o.brief(), o.out[:300], pb, pout[:300], "" if tree == ptree else ", other files"))
            return
        R.probe("%s: refused" % how)
        # not the same: then it may not show anything as the files of the disk
        shown = [l for l in o.out.splitlines() if l.startswith("File #")]
        if r["c"] == "crc":
            shown += [l for l in o.out.splitlines() if l not in pout.splitlines() and len(l.rpartition(": ")[2]) == 8 and all(ch in "0123456789abcdef" for ch in l.rpartition(": ")[2])]
        ps = pout.splitlines()
        wrong = [l for l in shown if l not in ps]
        if wrong:
            R.fail("wrong", what + "shows %r, not on the plain image" % wrong[0])
            return
        for k, v in tree.items():
            if v is not None and ptree.get(k) != v and not os.path.basename(k).startswith(".") and not k.endswith((".tmp", "~", ".bak")):
                R.fail("wrong", what + "extracts %s with other contents" % k)
                return
        if o.ok and shown and how != "fault":
            R.fail("part", what + "shows only part of the files: %r" % o.out[:300])
            return
