"""Assembled programs and boot disks hold exactly the given data and run address."""
import os
import struct

from .. import disk, kernel as K, scene, util
from . import c02

QUICK_RUNS, THOROUGH_RUNS = 2400, 60000
LEVEL = "fault_enumeration"
RULE = ("a run = one assemble or boot command with seeded -d slices (addresses, overlaps, several options), -b object files (XEX with several segments, init and run addresses, BSAVE, damaged or foreign files) and -r, decoded "
        "independently; then up to three runs of it with failing or shortened file operations; non-trivial = a program was made and decoded, or a fault was delivered")
STATE_MEASURE = "distinct (output format, number of segments, run address source, fault, outcome) tuples"
ASSUMPTIONS = ["data at $02e0-$02e1 together with -r, and the $2001/$4001 notation of Apple boot disks (load at $2000/$4000 without showing the page), are not generated"]

LOADER = bytes.fromhex("01a88d50c08d52c08d57c0d009c6fe1036a9d08d0b08ee1a08ad8608c9c0f064c9d0f0f2c9d1d0058d54c0f0e9c9d2d0058d55c0f0e0c9e0900b291f85fea9248d0b0810c68527c8c0109009f005206708a82ca001843dc8"
                       "a527f0ba8a207bf809c048a95b4860e6410640206f0818207408e640a54029032a052ba8b980c0a9304ca8fc4c")
ORDER = [0] + list(range(14, 0, -1)) + [15]


def addr_text(rng, a):
    return rng.choice(["%x" % a, "%X" % a, "0x%x" % a, "$%x" % a, "#%d" % a, "%" + bin(a)[2:]])


def gen(rng, tier):
    boot = rng.random() < .4
    out = rng.choice(["atr", "dsk"])
    plan = dict(boot=int(boot), ext=out, d=[], b=[], r="", f=1)
    if boot:
        plan["exists"] = int(rng.random() < .4)
        plan["name"] = rng.choice(["img." + out, "img." + out.upper(), "d/img." + out])
    else:
        spec = scene.gen_image(rng, scene.APPLE_T if out == "dsk" else scene.ATARI_T, maxfiles=3, populate=rng.random() < .5)
        plan["img"] = spec
        kind = scene.kind_of(spec["base"])
        base = scene.gen_name(rng, kind).split(".")[0][:8].strip() or "P"
        plan["o"] = base + rng.choice(["", ".XEX", ".xex", ".BIN", ".bin", ".COM", ".OBJ"])
        if rng.random() < .15:
            plan["local"] = 1       # to the file system of the host instead of a disk image
            plan["exists"] = int(rng.random() < .4)
    apple = out == "dsk"
    top = 0xc000 if apple and boot else 0x10000
    nd, nb = rng.choice([(1, 0), (1, 0), (2, 0), (3, 0), (0, 1), (0, 1), (1, 1), (0, 2), (2, 2), (0, 0)])
    a = rng.choice([0x600, 0x800, 0x2000, 0x2000, 0x3fff, 0x4000, 0x80f0, 0xa000, 0x4002])
    small = rng.random() < .85
    for i in range(nd):
        n = rng.choice([1, 2, 3, 100, 255, 256, 257, 512, 1000, 4096, 8192 if apple else 3000, rng.randrange(1, 9000)])
        if small and a + n > top:
            a = 0x2000
        pic = apple and boot and rng.random() < .15
        if pic:
            n, a = rng.choice([8192, 8192, 8000, 7900, 16384, 24000]), rng.choice([0x2000, 0x2000, 0x4000])     # (a picture gets its own order of pages)
        seg = dict(n=rng.choice(["seg%d.dat", "s%d", "x[%d].bin", "y@%d.bin"]) % i, len=n, s=rng.randrange(1 << 16), a=a, t=addr_text(rng, a))
        q = rng.random() if not pic else 1
        if q < .3:
            lo = rng.choice([None, 0, rng.randrange(0, n), rng.randrange(0, n), -rng.randrange(1, n + 1)])
            hi = rng.choice([None, n, rng.randrange(0, n + 1), rng.randrange(0, n + 1), n + 100, -rng.randrange(1, n + 1)])
            seg["sl"] = [lo, hi]
            if rng.random() < .15:      # a part of a large file (a memory or disk dump)
                seg["len"] = rng.choice([65535, 65536, 65537, 70000, 143360, 196608])
                lo = rng.choice([0, 65535, 65536, rng.randrange(seg["len"]), seg["len"] - n]) % seg["len"]
                seg["sl"] = rng.choice([[lo, lo + n], [lo, min(seg["len"], lo + n)], [-n, None]])
        elif q < .36:
            seg["bad"] = rng.choice(["missing", "noaddr", "dir", "empty", "badaddr"])
        elif q < .42:
            seg["a"] = rng.choice([0xff00, 0xfffe, 0xffff, 0x10000, 0xbfff, 0xbf80, 0, 3])
            seg["t"] = addr_text(rng, seg["a"])
        elif seg["n"].startswith("x["):
            seg["sl"] = [None, None]        # (a name with brackets needs a slice)
        if seg["n"].startswith("x[") and "sl" not in seg:
            seg["n"] = "seg%d.dat" % i
        plan["d"].append(seg)
        a += rng.choice([n, n, n, n + 1, n + 100, n + 256, max(1, n // 2), 0x1000, -rng.choice([1, 2, n // 2 + 1, 0x100]), 0])
        a = max(a, 0x300)
    for i in range(nb):
        k = rng.choice(["xex", "xex", "xex", "bsave", "junk", "missing", "xexshort"])
        o = dict(n="obj%d.%s" % (i, "bin" if k == "bsave" else "xex"), k=k, segs=[])
        for j in range(rng.choice([1, 1, 2, 3]) if k != "bsave" else 1):
            n = rng.choice([1, 2, 10, 256, 300, rng.randrange(1, 3000)])
            if a + n > top:
                a = 0x1000
            o["segs"].append(dict(a=a, len=n, s=rng.randrange(1 << 16), ff=int(rng.random() < .3)))
            a = max(a + rng.choice([n, n, n + 1, n + 200, n // 2, 0, -1, -rng.randrange(1, 300)]), 0x300)
        if k == "xex":
            if rng.random() < .6:
                o["run"] = rng.choice(o["segs"])["a"]
            if rng.random() < .25 and not (boot and apple):
                o["init"] = rng.choice(o["segs"])["a"]
        plan["b"].append(o)
    if rng.random() < .5:
        segs = [(x["a"], x["len"]) for x in plan["d"]] + [(s["a"], s["len"]) for o in plan["b"] for s in o["segs"]]
        if segs:
            sa, n = rng.choice(segs)
            r = sa + rng.choice([0, 0, rng.randrange(n)])
            if rng.random() < .1:
                r = rng.choice([0x1234, 0xfffe, 0x10000, 3])
            plan["ra"] = r
            plan["r"] = addr_text(rng, r)
    plan["split"] = int(rng.random() < .4)      # one -d or -b option per argument
    plan["faults"] = [[dict(sel=rng.choice(["any", "any", "mut", "cls"]), frac=rng.randrange(10000), how=rng.choice(["fail", "fail", "short", "short", "do_fail"]), e=rng.randrange(60), part=rng.randrange(10000),
                            sticky=int(rng.random() < .2), gap=rng.randrange(1, 6))] for _ in range(rng.choice([0, 0, 1, 3]))]
    return plan


def body(n, s):
    """Contents of a data file, without the bytes of a valid object file in front."""
    return scene.content(n, s)


def make_obj(o):
    if o["k"] == "junk":
        return b"\x00\x00" + body(37, o["segs"][0]["s"])
    if o["k"] == "bsave":
        s = o["segs"][0]
        return struct.pack("<HH", s["a"], s["len"]) + body(s["len"], s["s"])
    r = b"\xff\xff"
    for i, s in enumerate(o["segs"]):
        if i and s["ff"]:
            r += b"\xff\xff"
        r += struct.pack("<HH", s["a"], s["a"] + s["len"] - 1) + body(s["len"], s["s"])
        if i == 0 and o.get("init") is not None:
            r += struct.pack("<HHH", 0x2e2, 0x2e3, o["init"])
    if o.get("run") is not None:
        r += struct.pack("<HHH", 0x2e0, 0x2e1, o["run"])
    if o["k"] == "xexshort":
        r = r[:-1]
    return r


def expected(plan):
    """-> (segments [(addr, bytes)], run address or None, verdict): verdict "ok", "fail" or "either" """
    segs, verdict = [], "ok"
    run = None
    for x in plan["d"]:
        if x.get("bad"):
            return None, None, "fail"
        data = body(x["len"], x["s"])
        if "sl" in x:
            data = data[slice(*x["sl"])]
        segs.append((x["a"], data))
    orun = None
    for o in plan["b"]:
        if o["k"] == "missing":
            return None, None, "fail"
        if o["k"] in ("junk", "xexshort"):
            verdict = "either"      # reported as skipped, or (a truncated one) loaded as far as it goes
            if o["k"] == "xexshort":
                return None, None, "either"
            continue
        for i, s in enumerate(o["segs"]):
            segs.append((s["a"], body(s["len"], s["s"])))
            if i == 0 and o.get("init") is not None:
                segs.append((0x2e2, struct.pack("<H", o["init"])))
        if o.get("run") is not None and orun is None:
            orun = o["run"]
    if plan["r"]:
        run = plan["ra"]
    elif orun is not None:
        run = orun
    if not segs or any(not d or a + len(d) > 0x10000 or a < 0 for a, d in segs):
        return segs, run, "fail"
    if run is not None and not 0 <= run <= 0xffff:
        return segs, run, "fail"
    if run is not None and not any(a <= run < a + len(d) for a, d in segs):
        verdict = "either"
    if run == 0 or any(a == 0 for a, d in segs):
        verdict = "either"
    if any(a <= 0x2e1 and a + len(d) > 0x2e0 for a, d in segs):
        return None, None, "either"
    return segs, run, verdict


def arguments(plan):
    a = []
    def opt(flag, xs):
        if plan["split"]:
            for x in xs:
                a.extend([flag, x])
        elif xs:
            a.extend([flag] + xs)
    ds = []
    for x in plan["d"]:
        sl = ""
        if "sl" in x:
            lo, hi = x["sl"]
            sl = "[%s:%s]" % ("" if lo is None else lo, "" if hi is None else hi)
        t = x["t"]
        if x.get("bad") == "badaddr":
            t = "zz"
        ds.append("host/%s%s%s" % (x["n"] if x.get("bad") not in ("missing", "dir") else "nosuch" if x["bad"] == "missing" else "", sl, "" if x.get("bad") == "noaddr" else "@" + t))
    opt("-d", ds)
    opt("-b", ["host/" + o["n"] for o in plan["b"]])
    if plan["r"]:
        a += ["-r", plan["r"]]
    return a


class Wrong(Exception):
    pass


def parse_xex(b):
    if b[:2] != b"\xff\xff":
        raise Wrong("no $ffff header")
    i, segs = 2, []
    while i < len(b):
        if b[i:i + 2] == b"\xff\xff":
            i += 2
            continue
        if i + 4 > len(b):
            raise Wrong("incomplete segment header")
        lo, hi = struct.unpack_from("<HH", b, i)
        n = hi - lo + 1
        if n < 1 or i + 4 + n > len(b):
            raise Wrong("segment $%04x-$%04x does not fit" % (lo, hi))
        segs.append((lo, b[i + 4:i + 4 + n]))
        i += 4 + n
    return segs


def memory(segs):
    m = {}
    for a, d in segs:
        for i, x in enumerate(d):
            m[a + i] = x
    return m


def check_xex(b, segs, run):
    got = parse_xex(b)
    m = memory(got)
    want = memory(segs)
    if m.get(0x2e0) is None or m.get(0x2e1) is None:
        raise Wrong("no run address")
    r = m.pop(0x2e0) + 256 * m.pop(0x2e1)
    if m != want:
        compare(m, want, True)
    inits = lambda s: [d for a, d in s if a == 0x2e2]
    if inits(got) != inits(segs):
        raise Wrong("init addresses %s instead of %s" % (inits(got), inits(segs)))
    if r != (segs[0][0] if run is None else run):
        raise Wrong("run address $%04x instead of $%04x" % (r, segs[0][0] if run is None else run))


def compare(m, want, exact):
    for a in sorted(want):
        if m.get(a) != want[a]:
            raise Wrong("$%04x holds %s instead of $%02x" % (a, "nothing" if a not in m else "$%02x" % m[a], want[a]))
    if exact:
        x = sorted(set(m) - set(want))
        if x:
            raise Wrong("$%04x is loaded but not part of the input" % x[0])


def check_bsave(b, segs, run):
    if len(b) < 4:
        raise Wrong("no header")
    o, n = struct.unpack_from("<HH", b)
    if 4 + n > len(b):
        raise Wrong("%d bytes announced, %d there" % (n, len(b) - 4))
    m = {o + i: x for i, x in enumerate(b[4:4 + n])}
    want = memory(segs)
    lo = min(want)
    if run is not None and run != lo:
        j = [m.get(o + i) for i in range(3)]
        if j != [0x4c, run & 0xff, run >> 8] or o + 3 > lo:
            raise Wrong("starts at $%04x with %s, no jump to $%04x" % (o, j, run))
    elif o != lo:
        raise Wrong("starts at $%04x instead of $%04x" % (o, lo))
    if max(m) != max(want):
        raise Wrong("ends at $%04x instead of $%04x" % (max(m), max(want)))
    compare(m, want, False)


def check_kboot(b, segs, run):
    if len(b) < 16 + 384 or b[:2] != b"\x96\x02":
        raise Wrong("no ATR header")
    size = (b[2] + 256 * b[3] + 65536 * b[6]) * 16
    if size != len(b) - 16 or b[4] + 256 * b[5] != 128:
        raise Wrong("ATR header: %d bytes in sectors of %d, file has %d" % (size, b[4] + 256 * b[5], len(b) - 16))
    if b[16:19] != b"\x00\x03\x00" or b[19] != 7:
        raise Wrong("boot header %s" % b[16:20].hex())
    n = b[25] + 256 * b[26]
    x = b[400:400 + n]
    if len(x) != n or any(b[400 + n:]):
        raise Wrong("program of %d bytes, %d stored" % (n, len(b) - 400))
    check_xex(x, segs, run)


def check_apple(b, segs, run):
    if len(b) != 143360:
        raise Wrong("%d bytes" % len(b))
    if b[:len(LOADER)] != LOADER:
        raise Wrong("boot loader differs")
    p = len(LOADER)
    r = b[p] + 256 * b[p + 1]
    m = {}
    idx = [1]

    def load(page):
        t, i = divmod(idx[0], 16)
        s = t * 16 + ORDER[i]
        idx[0] += 1
        if s >= 560:
            raise Wrong("loads beyond the disk")
        for k in range(256):
            m[page * 256 + k] = b[s * 256 + k]
    i = p + 2
    page = None
    while True:
        if i >= 256:
            raise Wrong("no end of the loader commands")
        c = b[i]
        i += 1
        if c == 0xc0:
            break
        if c in (0xd0, 0xd1, 0xd2):
            continue
        if c >= 0xe0:
            for _ in range(c & 0x1f):
                page += 1
                load(page)
        elif c >= 0xc0:
            raise Wrong("loader command $%02x" % c)
        else:
            page = c
            load(page)
    compare(m, memory(segs), False)
    used = set(a >> 8 for a in memory(segs))
    if set(a >> 8 for a in m) != used:
        raise Wrong("loads pages %s instead of %s" % (sorted(set(a >> 8 for a in m))[:5], sorted(used)[:5]))
    if r != (segs[0][0] if run is None else run):
        raise Wrong("run address $%04x instead of $%04x" % (r, segs[0][0] if run is None else run))


def execute(plan, R):
    w = R.world()
    os.makedirs(w.path("host"), exist_ok=True)
    for x in plan["d"]:
        if x.get("bad") != "missing":
            w.put("host/" + x["n"], b"" if x.get("bad") == "empty" else body(x["len"], x["s"]))
    for o in plan["b"]:
        if o["k"] != "missing":
            w.put("host/" + o["n"], make_obj(o))
    segs, run, verdict = expected(plan)
    if plan["boot"]:
        nm = plan["name"]
        os.makedirs(w.path("d"), exist_ok=True)
        if plan["exists"]:
            w.put(nm, b"old image" * 1000)
        argv = [nm, "boot", "-f"] + arguments(plan)
        fmt = "kboot" if plan["ext"] == "atr" else "apple"
        if fmt == "kboot" and segs and sum(len(d) + 4 for _, d in segs) + 12 > 0xffff:
            verdict = "fail" if verdict == "ok" else verdict
        if fmt == "apple" and segs:
            if any(a + len(d) > 0xc000 for a, d in segs):
                verdict = "fail" if verdict != "fail" else verdict
            elif any(a < 0x800 for a, d in segs) or sum(len(d) // 256 + 2 for a, d in segs) > 400:
                verdict = "either"
            if any(a in (0x2001, 0x4001) for a, d in segs):
                segs, verdict = None, "either"
    elif plan.get("local"):
        nm = plan["o"]
        if plan["exists"]:
            w.put(nm, b"old program" * 1000)
        argv = [".", "assemble", "-f"] + arguments(plan) + ["-o", nm]
        e = nm.lower()
        fmt = "xex" if e.endswith("xex") else "bsave" if e.endswith(("bin", "bsave")) else None
        if fmt is None:
            verdict = "fail"
    else:
        spec = plan["img"]
        nm = scene.image_name(spec)
        img = scene.build_image(spec)
        w.put(nm, img)
        d = scene.open_disk(spec, img)
        argv = [nm, "assemble", "-f"] + arguments(plan) + ["-o", plan["o"]]
        e = plan["o"].lower()
        fmt = "xex" if e.endswith("xex") else "bsave" if e.endswith(("bin", "bsave")) else "bsave" if plan["ext"] == "dsk" else "xex"
    if fmt in ("xex", "kboot") and segs and any(a == 0xffff for a, _ in segs):
        verdict = "fail"
    if fmt == "bsave" and segs and run is not None and run != min(a for a, _ in segs) and min(a for a, _ in segs) < 3:
        verdict = "either"
    if fmt == "bsave" and segs and verdict == "ok" and max(a + len(x) for a, x in segs) - min(a for a, x in segs) + 3 > 0xffff:
        verdict = "either"
    old = w.get(nm)
    t0 = w.tree()
    o, ops = K.trace_ops(w, argv)
    new = w.get(nm)
    what = "%s: " % " ".join(argv)
    R.log(o.brief(), util.h(new))
    if o.how != "exit":
        R.fail("hang", what + o.brief())
        return
    made = new != old
    if not made and new is not None and o.ok and not plan["boot"]:
        made = None         # replaced by the same program
    space = None
    if not plan["boot"] and not plan.get("local") and segs is not None:
        n = sum(len(x) + 4 for _, x in segs) + 12 if fmt == "xex" else (max(a + len(x) for a, x in segs) - min(a for a, x in segs) + 7 if segs else 0)
        have = {f["name"]: f for f in d.files()}
        from .. import history
        st = history.stored_name(d.kind, plan["o"])
        fr = len(d.freemap()) + (len(have[st]["sectors"]) if st in have else 0)
        space = d.need(n) <= fr and (d.freeslots() > 0 or st in have)
        if not space and verdict == "ok":
            verdict = "either"
    R.state(fmt, len(segs or ()), run is None, verdict, o.exc)
    R.probe("%s %s -> %s" % (fmt, verdict, "made" if o.ok and made is not False else "refused"))
    skipped = any(b["k"] == "junk" for b in plan["b"])
    if not o.ok:
        if made:
            R.fail("left", what + "failed (%s), but changed the image" % o.brief())
            return
        if verdict == "ok":
            R.fail("refused", what + "a valid program is refused: %s %s" % (o.brief(), o.trace))
            return
    else:
        if verdict == "fail" and made is not False:
            R.fail("accepted", what + "made a program although an input is missing or cannot be represented")
            return
        if verdict == "fail" or made is False:
            if verdict == "ok":
                R.fail("refused", what + "nothing was made: %r" % o.out[-300:])
            return
        if segs is not None:
            R.nontrivial = True
            try:
                if plan["boot"]:
                    (check_kboot if fmt == "kboot" else check_apple)(new, segs, run)
                elif plan.get("local"):
                    (check_xex if fmt == "xex" else check_bsave)(new, segs, run)
                else:
                    nd = scene.open_disk(spec, new)
                    try:
                        prog = nd.read(st)
                    except disk.Bad as e:
                        raise Wrong("not readable from the disk: %s" % e)
                    (check_xex if fmt == "xex" else check_bsave)(strip(prog) if fmt == "xex" and plan["ext"] == "dsk" else prog, segs, run)
            except Wrong as e:
                R.fail("wrong", what + "%s: %s" % (fmt, e))
                return
            if skipped and "skipping" not in o.out:
                R.fail("silent", what + "an object file that is no executable was ignored without a report")
                return
    want = w.tree()
    for fs in plan["faults"]:
        w.restore(t0)
        faults = c02.make_faults(ops, fs)
        if not faults:
            return
        f = faults[0]
        q = w.run(argv, faults=faults)
        got = w.get(nm)
        R.nontrivial = True
        R.log(q.brief(), util.h(got))
        R.state(fmt, ops[f.at].op, f.kind, f.err, q.exc, got == new)
        wf = what + "with %s of operation %d (%s %s): " % (K.KIND_NAMES[f.kind], f.at, ops[f.at].op, os.path.basename(ops[f.at].path))
        if q.how != "exit":
            R.fail("hang", wf + q.brief())
            return
        if got != new and got != old:
            R.fail("partial", wf + "%s, the image is neither the old one nor the right one" % q.brief())
            return
        if q.ok and o.ok and q.out == o.out and got != new:
            R.fail("silent", wf + "reports success, but made no program")
            return


def strip(b):
    """A XEX in a DOS 3.3 file is followed by zeros up to the end of its sector."""
    for n in range(max(len(b.rstrip(b"\0")), 2), len(b)):
        try:
            parse_xex(b[:n])
            return b[:n]
        except Wrong:
            continue
    return b
