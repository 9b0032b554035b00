"""Damage to part of a disk never alters what is read from the intact files."""
import re

from .. import damage, disk, scene, util

QUICK_RUNS, THOROUGH_RUNS = 1400, 60000
LEVEL = "fault_enumeration"
RULE = ("a run = a populated Atari DOS 2/2.5, DOS 3.3 or SpartaDOS disk, then bit rot, lost, torn, misdirected or random sector writes outside of some files (data and links of other files, free sectors, boot sectors, other directory "
        "entries, the free map) and possibly in the links of one file; the intact files are extracted by name, the damaged one by its own command; non-trivial = a file was extracted from the damaged disk")
STATE_MEASURE = "distinct (format, damaged areas, intact files, outcome) tuples"
ASSUMPTIONS = ["damage to the directory's end markers, the SpartaDOS superblock and the DOS 3.3 volume table is damage to what leads to every file and is left to C08"]


def gen(rng, tier):
    bases = rng.choice([scene.ATARI_T, scene.ATARI_T, scene.APPLE_T, scene.SPARTA_T])
    spec = scene.gen_image(rng, bases, maxfiles=8, populate=True)
    while len(util.names_in(spec)) < 2:
        spec = scene.gen_image(rng, bases, maxfiles=8, populate=True)
    return dict(img=spec, junk=int(rng.random() < .3), keep=rng.randrange(1 << 16), nkeep=rng.choice([1, 2, 2, 4, 6]),
                hits=[dict(area=rng.choice(["data", "data", "link", "link", "link", "free", "boot", "dir", "dir", "vtoc"]), at=rng.randrange(1 << 30), how=rng.choice(["byte", "byte", "byte", "sector", "zero", "copy", "torn"]),
                           v=rng.choice(damage.VALS + [rng.randrange(256)] * 8)) for _ in range(rng.choice([1, 2, 4, 8, 20]))],
                own=[dict(at=rng.randrange(1 << 30), v=rng.randrange(1 << 30)) for _ in range(rng.choice([0, 1, 1, 2]))])


def areas(d, files, keep):
    """Offsets outside everything that leads to the files to keep."""
    r = dict(data=[], link=[], free=[], boot=[], dir=[], vtoc=[])
    mine = set()
    slots = set()
    for f in files:
        if f["name"] in keep:
            mine |= set(f["sectors"]) | set(f.get("maps", ()))
            slots.add(f["slot"])
    for f in files:
        if f["name"] in keep:
            continue
        nts = f.get("nts", 0)
        for s in f.get("maps", []):
            if s not in mine:
                p, n = d.pos(s)
                r["link"] += range(p, p + n)
        for k, s in enumerate(f["sectors"]):
            if s in mine:
                continue
            p, n = d.pos(s)
            if d.kind == "atari":
                r["data"] += range(p, p + n - 3)
                r["link"] += range(p + n - 3, p + n)
            elif k < nts:
                r["link"] += list(range(p, p + 64)) + list(range(p + 64, p + n, 5))
            else:
                r["data"] += range(p, p + n)
    for s in sorted(d.freemap() - mine):
        p, n = d.pos(s)
        r["free"] += range(p, p + n)
    if d.kind == "atari":
        for s in (1, 2, 3):
            p, n = d.pos(s)
            r["boot"] += range(p, p + n)
        for i in range(d.nslots):
            if i not in slots and d.slot(i)[0]:
                r["dir"] += range(d.slotpos(i), d.slotpos(i) + 16)
        p, n = d.pos(360)
        r["vtoc"] += range(p + 3, p + 100)
    elif d.kind == "dos33":
        free = d.freemap()
        r["boot"] += [x for s in range(16) if s not in mine and s not in free for x in range(d.pos(s)[0], d.pos(s)[0] + 256)]
        for i in range(d.nslots):
            if i not in slots and d.slot(i)[0]:
                r["dir"] += range(d.slotpos(i), d.slotpos(i) + 0x23)
        p, n = d.pos(17 * 16)
        r["vtoc"] += range(p + 0x38, p + n)
    else:
        for s in (2, 3):
            p, n = d.pos(s)
            r["boot"] += range(p, p + n)
        maps, data = d.mapped(d.root)
        rb = d.rootdata()
        for i in range(1, len(rb) // 23):
            if i not in slots:
                for k in range(i * 23, i * 23 + 23):
                    p, n = d.pos(data[k // d.ss])
                    r["dir"].append(p + k % d.ss)
        for s in range(d.bitmap, d.bitmap + d.nbitmap):
            p, n = d.pos(s)
            r["vtoc"] += range(p, p + n)
    return r


def hit(img, ar, h):
    """One fault; writes only inside the area."""
    a = ar[h["area"]]
    if not a:
        return False
    ok = set(a)
    o = a[h["at"] % len(a)]
    n = {"byte": 1, "sector": 256, "zero": 256, "copy": 128, "torn": 64}[h["how"]]
    r = damage.rnd(n, h["at"])
    src = h["at"] // 7 % max(1, len(img) - n)
    old = bytes(img[src:src + n])
    for i in range(n):
        if o + i in ok:
            img[o + i] = h["v"] if h["how"] == "byte" else 0 if h["how"] == "zero" else old[i] if h["how"] in ("copy", "torn") else r[i]
    return True


def norm(line):
    return re.sub(r"\d+", "N", line)


def find(d, name, slot):
    """The entry, if a reader of the format still finds it (and nothing else) under the name."""
    plain = lambda n: re.sub("[^!-~]", "", n).strip(".")       # (blanks and control characters in names are shown in various ways)
    try:
        e = [(i, raw) for i, n, raw in d.entries() if plain(n) == plain(name)]
    except disk.Bad:
        return None
    return e[0][1] if len(e) == 1 and e[0][0] == slot else None


def own_damage(d, img, f, own):
    """Redirect links of a file. -> True if something was changed"""
    for o in own:
        if d.kind == "atari":
            s = f["sectors"][o["at"] % len(f["sectors"])]
            p, n = d.pos(s)
            k = o["at"] // 1000 % 5
            if k < 3:
                t = [o["v"] % d.nsec, f["sectors"][o["v"] % len(f["sectors"])], o["v"] % 1024][k]
                img[p + n - 3] = (img[p + n - 3] & 0xfc) | (t >> 8 & 3)
                img[p + n - 2] = t & 0xff
            else:
                img[p + n - 1 if k == 3 else p + n - 3] = o["v"] & 0xff
        elif d.kind == "dos33":
            nts = f["nts"]
            k = o["at"] % (len(f["sectors"]) - nts)
            p, _ = d.pos(f["sectors"][k // 122])
            t = 16 + o["v"] % 544
            img[p + 12 + 2 * (k % 122)], img[p + 13 + 2 * (k % 122)] = divmod(t, 16)
        else:
            if not f["sectors"]:
                return False
            per = (d.ss - 4) // 2
            k = o["at"] % len(f["sectors"])
            p, _ = d.pos(f["maps"][k // per])
            t = 4 + o["v"] % (d.nsec - 4)
            img[p + 4 + 2 * (k % per)], img[p + 5 + 2 * (k % per)] = t & 0xff, t >> 8
    return bool(own)


def execute(plan, R):
    w = R.world()
    spec = dict(plan["img"], junk=plan["junk"])
    xfd = spec.pop("xfd", 0)
    img0 = scene.build_image(spec)
    d = scene.open_disk(spec, img0)
    files = [f for f in d.files() if not f.get("isdir")]
    if len(files) < 2:
        return
    r = sorted(files, key=lambda f: util.h((plan["keep"], f["name"])))
    keep = [f for f in r[:min(plan["nkeep"], len(files) - 1)]]
    names = set(f["name"] for f in keep)
    victim = r[-1]
    ar = areas(d, files, names | ({victim["name"]} if plan["own"] else set()))
    img = bytearray(img0)
    done = [h for h in plan["hits"] if hit(img, ar, h)]
    own = own_damage(d, img, victim, plan["own"])
    img = bytes(img)
    try:
        nd = scene.open_disk(spec, img)
    except disk.Bad:
        return
    nm = scene.image_name(dict(spec, xfd=xfd))
    cut = 16 if xfd else 0
    w.put("good/" + nm, img0[cut:])
    w.put(nm, img[cut:])
    inner = all(h["area"] in ("data", "link", "free", "vtoc") for h in done)
    what = "%s with damage in %s%s: " % (spec["base"], sorted(set(h["area"] for h in done)), " and links of %s" % victim["name"] if own else "")
    lo = w.run([nm, "list"], gated=False)
    g = w.run(["good/" + nm, "list"], gated=False)
    if g.how != "exit" or not g.ok or not g.out:
        R.fail("list", "list of the undamaged %s: %s" % (spec["base"], g.brief()))
        return
    head = lambda o: norm(o.out.splitlines()[0]).replace("good/", "") if o.how == "exit" and o.out else "?"
    known = head(lo) == head(g)
    R.probe("still recognised" if known else "not recognised")
    if inner and not known:
        R.fail("unrecognised", what + "the disk is no longer recognised: list %s %r" % (lo.brief(), lo.out[:200]))
        return
    if not known:
        return
    targets = [f for f in keep if find(nd, f["name"], f["slot"]) is not None]
    o = w.run([nm, "extract", "-d", "out"] + [f["name"] for f in targets], gated=False) if targets else None
    R.log(o and o.brief(), lo.brief())
    for f in targets:
        got = w.get("out/" + f["name"])
        if got != f["data"]:
            R.fail("intact", what + "%s: intact %s (%d bytes) is extracted as %s; output %r" % (o.brief(), f["name"], len(f["data"]), "nothing" if got is None else "%d bytes" % len(got), o.out[-300:]))
            return
        R.nontrivial = True
    R.state(spec["base"], sorted(set(h["area"] for h in done)), len(targets), own)
    if own and find(nd, victim["name"], victim["slot"]) == victim["raw"]:
        o = w.run([nm, "extract", "-d", "out2", victim["name"]], gated=False)
        got = w.get("out2/" + victim["name"])
        if o.how != "exit" or o.family not in (None, "atr"):
            R.fail("own", what + "extract %s: %s\n%s" % (victim["name"], o.brief(), o.trace))
            return
        R.log(o.brief(), util.h(got))
        try:
            c = nd.chain(victim["slot"], victim["raw"]) if d.kind != "sparta" else None
            if d.kind == "sparta":
                e = victim["raw"]
                want = b"".join(bytes(nd.sec(s)) for s in nd.mapped(e[1] + 256 * e[2])[1])[:victim["len"]]
            else:
                want = c[-1]
        except disk.Bad as e:
            want, why = None, e
        R.probe("damaged file: %s, %s" % ("chain bad" if want is None else "chain readable", "not returned" if got is None else "returned"))
        if want is None and got is not None:
            R.fail("foreign", what + "its chain is bad (%s), but extract wrote %d bytes: %r" % (why, len(got), o.out[-200:]))
        elif want is not None and got is not None and got != want:
            R.fail("foreign", what + "extract wrote %d bytes that are not what the links of %s say (%d bytes)" % (len(got), victim["name"], len(want)))
        elif got is None and o.ok and "extracting" in o.out and "rror" not in o.out + o.err:
            R.fail("silent", what + "extract %s reports %r, but there is no file" % (victim["name"], o.out[-200:]))
