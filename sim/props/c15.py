"""Listings, CRCs and free-space figures agree with what is really stored."""
import random
import re
import zlib

from .. import damage, disk, history, scene, util

QUICK_RUNS, THOROUGH_RUNS = 640, 40000
RULE = ("a run = a starting image and a history of 2-7 modifying commands with failures and restarts, list / list -c / list -m / crc / vtoc run along the way and compared with "
        "the independent reader; or an image with wrong lengths or other damage in its directory, CRCs compared with what extract yields; non-trivial = at least two reports on an image with files after a change")
STATE_MEASURE = "distinct image contents after a command"
ASSUMPTIONS = ["starting images are sound by the independent checker", "the printed formats of this version (fields are parsed, not compared as text)"]

ATARI = re.compile(r"^File #(\d+) *\((.)(.)(.)(.)(.)(.)\) (\d+) (.{8})(.{3})  (\d+)(?:  ([0-9a-f]{8}))?$")
APPLE = re.compile(r"^File #(\d+) *\((.)(.)\) (\d+) (.{30}) (\d+) (\d+)(?:  ([0-9a-f]{8}))?$")
HEAD = re.compile(r"(\d+) usable sectors \((\d+) free\), (\d+) files$")


def gen(rng, tier):
    if rng.random() < .12:
        spec = scene.gen_image(rng, maxfiles=6, populate=True)
        spec.pop("xfd", None)
        img = scene.build_image(spec)
        d = scene.open_disk(spec, img)
        edits = []
        for f in d.files():
            if rng.random() < .4:       # the directory claims another length
                if d.kind == "atari":
                    p, n = d.pos(361 + f["slot"] // 8)
                    edits.append(["set", p + f["slot"] % 8 * 16 + 1, rng.choice([0, 0, 1, len(f["sectors"]) + 1, rng.randrange(256)]), 0])
        if not edits or rng.random() < .3:
            edits += damage.gen(rng, img, d)
        return dict(img=spec, edits=edits, how=rng.choice(["crc", "crc", "list-c"]))
    p = history.gen_history(rng, tier, faults=.15, maxcmds=6 if tier == "quick" else 12)
    p["look"] = [[rng.choice(["list", "list", "list-c", "crc", "crc", "vtoc", "list-n", "list-m", "crc-n", "alias"]), rng.randrange(1 << 20)]
                 for _ in range(len(p["cmds"]) + 2)]
    return p


def report(R, w, rel, snap, look, what):
    mode, seed = look
    rng = random.Random(seed)
    d = snap.d
    names = sorted(snap.files)
    sel = None
    argv = [rel, "list"]
    if mode == "list-c":
        argv += ["-c"]
    elif mode == "list-m":
        argv += ["-m"]
    elif mode == "alias":
        argv = [rel] + rng.choice([[], ["ls"], ["dir"], ["catalog"], ["t"], ["ls", "-c"]])
    elif mode in ("crc", "crc-n"):
        argv = [rel, "crc"]
    elif mode == "vtoc":
        argv = [rel, rng.choice(["vtoc", "v"])]
    if mode in ("list-n", "crc-n") and names:
        sel = set(rng.sample(names, min(len(names), rng.randrange(1, 4))))
        argv += sorted(sel) + (["NOTTHERE"] if rng.random() < .3 else [])
    o = w.run(argv, gated=False)
    what = "%s%s: " % (what, " ".join(argv))
    if not o.ok:
        R.fail("failed", what + o.brief() + o.trace)
        return
    R.log(argv, util.h(o.out))
    lines = o.out.splitlines()
    if mode not in ("crc", "crc-n"):
        head = lines.pop(0) if lines else ""
        m = HEAD.search(head)
        if d.kind == "atari":
            if not m:
                R.fail("header", what + "no free-sector figure in %r" % head)
                return
            if int(m.group(2)) != len(snap.free):
                R.fail("free", what + "says %s free, really %d" % (m.group(2), len(snap.free)))
                return
            if int(m.group(3)) != len(snap.files):
                R.fail("count", what + "says %s files, really %d" % (m.group(3), len(snap.files)))
                return
    want = {n: f for n, f in snap.files.items() if sel is None or n in sel}
    if mode in ("crc", "crc-n"):
        got = []
        for l in lines:
            n, _, c = l.rpartition(": ")
            got.append((n, c))
        exp = [(n, "%08x" % (zlib.crc32(f["data"]) & 0xffffffff)) for n, f in want.items()]
        if sorted(got) != sorted(exp):
            x = sorted(set(got) ^ set(exp))[:4] or "an entry more than once"
            R.fail("crc", what + "differs: %s" % (x,))
        return
    if mode == "vtoc":
        m = re.match(r"^ \((\d+) free\)$", lines[-1] if lines else "")
        if not m:
            R.fail("vtoc", what + "no free-sector figure")
            return
        if int(m.group(1)) != len(snap.free):
            R.fail("free", what + "says %s free, really %d" % (m.group(1), len(snap.free)))
            return
        bits = [int(x) for l in lines[:-1] for x in re.findall(r"[01]", l.split(":", 1)[1])]
        first = 1 if d.kind == "atari" else 0
        for i, b in enumerate(bits):
            if bool(b) != ((i + first) in snap.free):
                R.fail("map", what + "shows sector %d as %s" % (i + first, "free" if b else "used"))
                return
        return
    seen = []
    for l in lines:
        if not l.startswith("File #"):
            if "-m" in argv:
                continue
            R.fail("line", what + "unexpected line %r" % l)
            return
        if d.kind == "atari":
            m = ATARI.match(l)
            if not m:
                R.fail("line", what + "unreadable line %r" % l)
                return
            base, ext = m.group(9).rstrip(), m.group(10).rstrip()
            n = base + "." + ext if ext else base
            f = want.get(n)
            if f is None:
                R.fail("extra", what + "lists %r, which is not stored" % n)
                return
            if int(m.group(11)) != len(f["sectors"]) or (m.group(7) == "*") != f["locked"] or m.group(6) != "." or m.group(5) != "u" or int(m.group(1)) != f["slot"] or \
               int(m.group(8)) != (f["sectors"][0] if f["sectors"] else int(m.group(8))):
                R.fail("entry", what + "%r, really %d sectors from %s, slot %d, %slocked" % (l, len(f["sectors"]), f["sectors"][:1], f["slot"], "" if f["locked"] else "not "))
                return
            crc = m.group(12)
        else:
            m = APPLE.match(l)
            if not m:
                R.fail("line", what + "unreadable line %r" % l)
                return
            n = m.group(5).rstrip()
            f = want.get(n)
            if f is None:
                R.fail("extra", what + "lists %r, which is not stored" % n)
                return
            if int(m.group(4)) != len(f["sectors"]) or (m.group(2) == "*") != f["locked"] or m.group(3) != f["type"]:
                R.fail("entry", what + "%r, really %d sectors, type %s, %slocked" % (l, len(f["sectors"]), f["type"], "" if f["locked"] else "not "))
                return
            crc = m.group(8)
        if "-c" in argv and crc != "%08x" % (zlib.crc32(f["data"]) & 0xffffffff):
            R.fail("crc", what + "%r, really %08x" % (l, zlib.crc32(f["data"]) & 0xffffffff))
            return
        seen.append(n)
    if sorted(seen) != sorted(want):
        R.fail("missing", what + "missing or repeated: %s" % (sorted(set(want) - set(seen)) or sorted(n for n in seen if seen.count(n) > 1))[:4])


def odd(plan, R):
    """On an image with wrong or damaged entries the CRCs are still those of what extract yields."""
    w = R.world()
    spec = plan["img"]
    nm = scene.image_name(spec)
    img = damage.apply(scene.build_image(spec), plan["edits"])
    w.put(nm, img)
    argv = [nm, "crc"] if plan["how"] == "crc" else [nm, "list", "-c"]
    o = w.run(argv, gated=False)
    got = {}
    for l in o.out.splitlines():
        if plan["how"] == "crc":
            n, _, c = l.rpartition(": ")
        else:
            m = ATARI.match(l) or APPLE.match(l)
            if not m:
                continue
            n, c = (m.group(9).rstrip() + ("." + m.group(10).rstrip() if m.group(10).strip() else ""), m.group(12)) if m.re is ATARI else (m.group(5).rstrip(), m.group(8))
        got.setdefault(n, []).append(c)
    R.log(argv, util.h(o.out))
    for n, cs in sorted(got.items()):
        if len(cs) != 1 or not re.match("[0-9a-f]{8}$", cs[0] or "") or not re.match("[A-Z][A-Z0-9]*(\\.[A-Z0-9]+)?$", n):
            continue
        q = w.run([nm, "extract", "-f", "-d", "out", n], gated=False)
        x = w.get("out/" + n)
        if not q.ok or x is None or q.out.count("extracted") + q.out.count("extracting") > 1:
            continue
        R.nontrivial = True
        R.probe("crc compared with extract on an odd entry")
        if "%08x" % (zlib.crc32(x) & 0xffffffff) != cs[0]:
            R.fail("crc", "%s after %s: %s has %s, extract yields %08x (%d bytes)" % (" ".join(argv), plan["edits"], n, cs[0], zlib.crc32(x) & 0xffffffff, len(x)))
            return


def execute(plan, R):
    if "edits" in plan:
        odd(plan, R)
        return
    n = [0, 0]

    def on_step(w, rel, s):
        if s.completed:
            n[0] += 1
        if s.after is None or s.after.problems:
            return False
        looks = plan["look"]
        if looks and (s.completed or s.i % 3 == 0):
            report(R, w, rel, s.after, looks[s.i % len(looks)], "after command %d (%s), " % (s.i, " ".join(s.argv)))
            if n[0] and s.after.files:
                n[1] += 1
        if looks and s.i == len(plan["cmds"]) - 1:
            for l in looks[-2:]:
                if not R.violations:
                    report(R, w, rel, s.after, l, "at the end, ")
        return not R.violations
    history.run_history(plan, R, on_step)
    R.nontrivial = n[1] >= 2
