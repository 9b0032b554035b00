"""Damaged images never make atrcopy hang, run away or alter them."""
import os

from .. import damage, disk, kernel as K, scene, util

QUICK_RUNS, THOROUGH_RUNS = 2000, 60000
LEVEL = "fault_enumeration"
RULE = ("a run = an image of any format (Atari DOS 2/2.5 ATR and XFD, SpartaDOS, DOS 3.3, KBoot, XEX, BSAVE, boot disks, cartridges, MAME zip files, DCM, ProDOS, compressed ones), damaged by 1-6 seeded edits (structure-targeted bytes, torn, lost, swapped, "
        "random sectors, truncation, appended data), and up to five commands on it; non-trivial = at least one command still listed, extracted or rejected a file of the damaged disk")
STATE_MEASURE = "distinct (format, damaged areas, command, outcome) tuples"
ASSUMPTIONS = ["hang: more than 20 s of CPU time or 4000 file operations (undamaged commands need under 1 s and 60 per file); runaway: more than 2.5 GB resident"]


MADE = ["kboot", "apple", "bsave", "boot", "garbage", "zeros", "cart", "cart", "zip", "dcm", "prodos", "xex"]


def gen(rng, tier):
    k = rng.random()
    if k < .1:
        spec = dict(base=rng.choice(["kboot_test1.atr", "air_defense_v18.xex", "dos33_master.dsk"]), raw=1)
        img, d, names = scene.template(spec["base"]), None, ["HELLO"]
        if spec["base"].endswith(".dsk"):
            d = disk.open_disk(img)
            names = [n for _, n, _ in d.entries()]
    elif k < .18:
        spec = dict(made=rng.choice(MADE), s=rng.randrange(1 << 16), n=rng.choice([0, 1, 3, 15, 16, 17, 128, 384, 8192, 16384, 92160, 92176, 143360, rng.randrange(200000)]))
        img, d, names = None, None, ["A"]
    else:
        bases = rng.choice([scene.ALL_T, scene.ALL_T, scene.SPARTA_T])
        spec = scene.gen_image(rng, bases, maxfiles=6, populate=True)
        xfd = spec.pop("xfd", 0)
        img = scene.build_image(spec)
        d = scene.open_disk(spec, img)
        names = util.names_in(spec)
    if img is None:
        img = make(spec)
    plan = dict(img=spec, edits=damage.gen(rng, img, d) if rng.random() < .97 and len(img) else [], cmds=[])
    if d is not None and rng.random() < .3:
        plan["edits"] = [damage.field(rng, d) for _ in range(rng.choice([1, 1, 1, 2]))]
    if (spec.get("made") == "xex" or spec.get("base", "").endswith(".xex")) and rng.random() < .5:      # cut within or next to a segment's header
        at, p = [], 2
        while p + 4 <= len(img):
            at.append(p)
            a, b = img[p] + 256 * img[p + 1], img[p + 2] + 256 * img[p + 3]
            p += 4 + max(0, b - a + 1) if (a, b) != (0xffff, b) else 2
        plan["edits"] = [["trunc", rng.choice(at) + rng.randrange(-1, 6)]]
    if spec.get("base", "").endswith(".atr") and not spec.get("raw") and rng.random() < .1:
        plan["xfd"] = 1
    if rng.random() < .06:
        plan["wrap"] = rng.choice(["gz", "bz2", "xz"])
    kind = "dos33" if spec.get("base", "").endswith(".dsk") else "atari"
    for _ in range(rng.randrange(2, 6)):
        c = rng.choice(["list", "list", "list-m", "list-c", "crc", "extract", "extract", "vtoc", "segments", "extract1", "add", "add", "del", "del", "shred", "asm", "verbose"])
        r = dict(c=c)
        if c in ("extract1", "del"):
            r["names"] = [rng.choice(names) for _ in range(rng.choice([1, 2]))]
            r["f"] = int(rng.random() < .5)
        if c == "add":
            r.update(files=[dict(n=rng.choice(names + scene.gen_names(rng, kind, 1)), len=rng.choice([0, 1, 100, 1000, 30000]), s=3)], f=int(rng.random() < .6), t="")
        if c == "asm":
            r.update(data=scene.gen_data(rng, 1), o=rng.choice(["P.XEX", "P.BIN"]), f=1)
        plan["cmds"].append(r)
    return plan


def make(spec):
    import random
    m, n = spec["made"], spec["n"]
    r = random.Random(spec["s"])
    body = scene.content(r.randrange(10, 5000), spec["s"])
    if m == "bsave":
        return (0x2000).to_bytes(2, "little") + len(body).to_bytes(2, "little") + body
    if m == "garbage":
        return damage.rnd(n, spec["s"])
    if m == "zeros":
        return bytes(n)
    if m == "boot":         # an ATR with a boot header but no file system
        b = bytearray(16 + 92160)
        b[0:4] = b"\x96\x02\x80\x16"
        b[4] = 0x80
        b[16:20] = bytes([0, r.choice([1, 3, 20, 255]), 0, 7])
        return bytes(b)
    if m == "cart":
        t, k = r.choice([(1, 8), (2, 16), (4, 32), (5, 64), (12, 32), (13, 64), (3, 16), (6, 16), (16, 16), (20, 4), (23, 32), (15, 1024), (57, 2), (0, 8), (99, 8), (14, 128), (41, 128)])
        if r.random() < .2:
            k = r.choice([1, 2, 4, 8, 16])
        body = damage.rnd(k * 1024, spec["s"])
        return b"CART" + t.to_bytes(4, "big") + (sum(body) & 0xffffffff).to_bytes(4, "big") + bytes(4) + body
    if m == "zip":
        import io, zipfile
        f = io.BytesIO()
        with zipfile.ZipFile(f, "w", r.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
            for i in range(r.randrange(0, 4)):
                z.writestr(zipfile.ZipInfo("rom%d" % i, (1990, 1, 1, 0, 0, 0)), damage.rnd(r.choice([0, 16, 2048, 4096, 1000]), spec["s"] + i))
        return f.getvalue()
    if m == "dcm":
        return bytes([r.choice([0xf9, 0xfa]), r.choice([1, 0x21, 0x41, 0x61, 0x81, 0x02, 0xff])]) + body
    if m == "prodos":
        b = bytearray(143360)
        b[:8] = bytes.fromhex("0138b0034c32a143")
        b[1024:1028] = b"\0\0\3\0"
        b[1028] = 0xf4
        b[1029:1033] = b"DISK"
        return bytes(b)
    if m == "xex":
        b = b"\xff\xff"
        for i in range(r.randrange(1, 5)):
            a, k = r.randrange(0, 0xf000), r.randrange(1, 600)
            if r.random() < .2:
                a, k = r.choice([(0x2e0, 2), (0x2e2, 2), (0x2e0, 4), (0x2e0, 1)])
            b += a.to_bytes(2, "little") + (a + k - 1).to_bytes(2, "little") + damage.rnd(k, spec["s"] + i)
        return b
    if m == "kboot":
        return scene.template("kboot_test1.atr")
    b = bytearray(143360)
    b[:256] = damage.rnd(256, spec["s"])
    b[0] = 1
    return bytes(b)


def argv(r, rel):
    c = r["c"]
    if c == "extract":
        return [rel, "extract", "-a", "-f", "-d", "out"]
    if c == "extract1":
        return [rel, "extract", "-d", "out"] + (["-f"] if r["f"] else []) + r["names"]
    if c.startswith("list-"):
        return [rel, "list", "-" + c[5:]]
    if c == "verbose":
        return ["-v", rel, "list"]
    return scene.argv(r, rel)


def execute(plan, R):
    w = R.world()
    spec = plan["img"]
    if spec.get("made"):
        img, nm = make(spec), "img." + {"apple": "dsk", "prodos": "dsk", "cart": "car", "zip": "zip", "xex": "xex"}.get(spec["made"], "atr")
    elif spec.get("raw"):
        img, nm = scene.template(spec["base"]), "img" + os.path.splitext(spec["base"])[1]
    else:
        img, nm = scene.build_image(spec), scene.image_name(spec)
    img = damage.apply(img, plan["edits"])
    if plan.get("xfd"):
        img = img[16:]
    if plan.get("wrap"):
        img = scene.wrap(img, plan["wrap"])
    w.put(nm, img)
    for r in plan["cmds"]:
        scene.stage(w, r)
        a = argv(r, nm)
        before = w.get(nm)
        rd = r["c"] not in ("add", "del", "shred", "asm")
        o = w.run(a)
        what = "%s on %s damaged by %s: " % (" ".join(a), spec.get("base") or spec.get("made"), plan["edits"])
        R.log(o.brief(), util.h(o.out))
        R.state(spec.get("base") or spec.get("made"), [e[0] for e in plan["edits"]], r["c"], o.how, o.exc)
        R.probe("ended: %s" % (o.how if o.how != "exit" else o.exc or "normally"))
        if "File #" in o.out or r["c"] in ("extract1", "del") or o.family == "atr":
            R.nontrivial = True
        if o.how == "hang" or o.nops > 4000:
            R.fail("hang", what + "does not end (%s, %d file operations)" % (o.how, o.nops))
            return
        if o.how == "exit" and o.maxrss > 2500 << 10 or o.family == "memory":
            R.fail("memory", what + "needs %d MB" % (o.maxrss >> 10))
            return
        if o.how != "exit" or o.family not in (None, "atr"):
            R.fail("foreign", what + o.brief() + "\n" + o.trace)
            return
        after = w.get(nm)
        if rd and after != before:
            R.fail("altered", what + "the image changed")
            return
        if after != before:
            R.probe("modified a damaged image")
            if after is None or not o.ok:
                R.fail("altered", what + "%s, but the image %s" % (o.brief(), "is gone" if after is None else "changed"))
                return
            if len(after) != len(before) and not plan.get("wrap"):
                R.fail("altered", what + "the image has %d bytes instead of %d" % (len(after), len(before)))
                return
