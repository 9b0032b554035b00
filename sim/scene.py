"""Disk images, host files and commands that plans are made of."""
import bz2
import gzip
import lzma
import os
import random

from . import disk

TEMPLATES = os.path.join(os.environ.get("ATRSIM_REPO", "/repo"), "atrcopy/templates")
ATARI_T = ["dos2sd.atr", "dos2sd+2.0s.atr", "dos2ed.atr", "dos2ed+2.5.atr", "dos2dd.atr"]
APPLE_T = ["dos33.dsk", "dos33autobrun.dsk"]
ALL_T = ATARI_T + APPLE_T
SPARTA_T = ["sd_sd_test1.atr", "sd_sd_test3.atr", "sd_dd_test1.atr", "sd_dd_test4.atr"]
CORPUS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "corpus")

_cache = {}


def template(name):
    """The pristine template bytes (read once, by the harness, from the tree under test)."""
    if name not in _cache:
        p = os.path.join(CORPUS, name + ".xz")
        if os.path.exists(p):
            with lzma.open(p) as fh:
                _cache[name] = fh.read()
        else:
            with open(os.path.join(TEMPLATES, name), "rb") as fh:
                _cache[name] = fh.read()
    return _cache[name]


def content(n, seed):
    """n bytes, a function of (n, seed). Various textures."""
    r = random.Random(seed * 7919 + n)
    k = seed % 8
    if n == 0:
        return b""
    if k == 0:
        return bytes([r.randrange(256)]) * n
    if k == 1:
        return (b"LINE %d\x9b\x7fTAB\x9b" % seed * (n // 10 + 1))[:n]
    if k == 2:
        b = b"\xff\xff" + (0x2000).to_bytes(2, "little") + ((0x2000 + max(n - 7, 0)) & 0xffff).to_bytes(2, "little")
        return (b + r.getrandbits(8 * n).to_bytes(n, "little"))[:n]
    if k == 3:
        return bytes(n)
    return r.getrandbits(8 * n).to_bytes(n, "little")


LET = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def gen_name(rng, kind, odd=False):
    if kind in ("atari", "sparta"):
        n = rng.choice([1, 2, 3, 5, 7, 8, 8])
        a = rng.choice(LET) + "".join(rng.choice(LET + "0123456789") for _ in range(n - 1))
        e = rng.choice([0, 1, 2, 3, 3, 3])
        ext = "".join(rng.choice(LET + "0123456789") for _ in range(e))
        s = a + ("." + ext if ext else "")
        if odd and kind == "atari" and rng.random() < .15:      # blanks, names and extensions that are cut
            b = a[:1] + " " + a[1:]
            s = rng.choice([b, b + "." + ext, b + ".A B", a + ".X  Y", a + ".XY ZZ", a + ".Z  Q", a + "LONGER." + ext + "T", a + "     Z.TXT", a + ".ABCDEF",
                            a + ".B.C", (a + "QWERTYU")[:8] + ".B.C", a + ".X.YZ", a + "..T", a[:5] + rng.choice("~#%&@_$!+=()[]{},;'") + "." + ext, a[:6] + "~1." + ext])
        return s.lower() if rng.random() < .08 else s
    n = rng.choice([1, 3, 6, 12, 28, 29, 30])
    more = "~#%&@_$!+=()[]{},;'" + LET.lower() if odd and rng.random() < .2 else ""
    body = "".join(rng.choice(LET + "0123456789.- " + more) for _ in range(n - 1))
    s = (rng.choice(LET) + body)
    if s.endswith(" "):
        s = s[:-1] + "X"
    return s


def gen_names(rng, kind, n, odd=False):
    r = []
    while len(r) < n:
        x = gen_name(rng, kind, odd)
        if x not in r:
            r.append(x)
    return r


def gen_size(rng, kind, density):
    if kind == "sparta":        # multiples of sectors and of what a sector map holds
        ss = 256 if density == "dd" else 128
        m = (ss - 4) // 2
        return max(0, rng.choice([rng.randrange(0, 6 * ss), ss * rng.choice([1, 2, 3, m, m, 2 * m]) + rng.choice([-1, 0, 0, 1]), rng.randrange(0, 80 * ss)]))
    pay = {"sd": 125, "ed": 125, "dd": 253, "dos33": 256}[density]
    k = rng.random()
    if k < .07:
        return 0
    if k < .35:
        return rng.randrange(1, 3 * pay)
    if k < .55:
        m = rng.choice([1, 2, 3, 4, 8, 16, 32, 64])
        return max(0, m * pay + rng.choice([-1, 0, 1]))
    if k < .65:
        if density == "dos33":
            return 122 * 256 * rng.choice([1, 1, 2]) + rng.choice([-257, -256, -1, 0, 1, 255, 256, 257])
        return rng.choice([255, 256, 257]) * pay + rng.choice([-1, 0, 1])
    if k < .9:
        return rng.randrange(1, 40 * pay)
    return rng.randrange(1, 500 * pay)


def open_disk(spec, img):
    """The independent reader for the image a spec describes."""
    return disk.Sparta(img) if kind_of(spec["base"]) == "sparta" else disk.open_disk(img)


def wrap(data, how):
    if how == "gz":
        return gzip.compress(data, 6, mtime=0)
    if how == "bz2":
        return bz2.compress(data)
    if how == "xz":
        return lzma.compress(data)
    return data


def density_of(base):
    if base in SPARTA_T:
        return base[3:5]
    return "dos33" if base.endswith(".dsk") else base[4:6]


def kind_of(base):
    if base in SPARTA_T:
        return "sparta"
    return "dos33" if base.endswith(".dsk") else "atari"


def gen_image(rng, bases=ALL_T, maxfiles=8, populate=None, ext=False):
    """An image spec: a template plus entries made by "another system"."""
    base = rng.choice(bases)
    kind, dens = kind_of(base), density_of(base)
    spec = dict(base=base, steps=[], seed=rng.randrange(1 << 30))
    if kind == "atari" and rng.random() < .15:
        spec["xfd"] = 1
    if kind == "atari" and dens == "dd" and rng.random() < .2:
        spec["full"] = 1
    if kind != "sparta" and rng.random() < .25:
        spec["dust"] = 1        # remains of other programs in the unused parts of system sectors
    if kind == "sparta" and rng.random() < .5:
        spec["steps"] += [["del", n] for _, n, _ in disk.Sparta(template(base)).entries()]
    if populate is None:
        populate = rng.random() < .75
    if populate:
        how = rng.choice(["few", "few", "few", "few", "many", "many", "full", "full", "slots"])
        if kind != "sparta" and rng.random() < .06:     # a directory with none, one or two slots left
            d = open_disk(spec, template(base))
            for nm in gen_names(rng, kind, d.nslots - len(list(d.entries())) - rng.choice([0, 1, 1, 1, 2])):
                spec["steps"].append(["add", nm, rng.choice([1, 7, 90]), rng.randrange(1 << 16), "first", 0x42 if kind == "atari" else 4])
            return spec
        n = {"few": rng.randrange(1, 5), "many": rng.randrange(5, maxfiles + 5), "full": rng.randrange(2, 7),
             "slots": rng.randrange(40, 110) if rng.random() < .5 else rng.randrange(10, 40)}[how]
        names = gen_names(rng, kind, n)
        mode = rng.choice(["first", "scatter", "stride", "block", "mix"])
        for nm in names:
            if how == "full":
                size = rng.choice([rng.randrange(1, 60000), gen_size(rng, kind, dens)])
            elif how == "slots":
                size = rng.randrange(0, 400)
            else:
                size = gen_size(rng, kind, dens)
            if kind == "atari":
                flag = rng.choice([0x42, 0x42, 0x42, 0x62, 0x40, 0x60, 0x42, 0x4a] + ([0x03, 0x03, 0x23] if dens == "ed" else [0x42, 0x46]))
            elif kind == "sparta":
                flag = rng.choice([8, 8, 8, 9])
            else:
                flag = rng.choice([4, 4, 2, 0, 1, 0x84, 0x82, 0x80, 0x10, 8])
            m = mode if mode != "mix" else rng.choice(["first", "scatter", "stride", "block"])
            if kind == "atari" and rng.random() < .2:
                m += rng.choice(["+tail", "+tail", "+short"])
            spec["steps"].append(["add", nm, size, rng.randrange(1 << 16), m, flag])
            if rng.random() < .25:
                spec["steps"].append(["del", rng.choice(names[:names.index(nm) + 1])])
            if rng.random() < .08 and kind != "sparta":
                # rename a later file to the name of an earlier, meanwhile deleted one
                a = rng.choice(names[:names.index(nm) + 1])
                spec["steps"].append(["mv", nm, a])
    return spec


def build_image(spec):
    img = template(spec["base"])
    if spec.get("full"):
        n = 184320 // 16
        img = img[:2] + bytes([n & 255, n >> 8]) + img[4:16] + b"".join(img[16 + 128 * k:144 + 128 * k] + bytes(128) for k in range(3)) + img[400:]
    d = open_disk(spec, img)
    rng = random.Random(spec["seed"])
    if spec.get("junk"):
        # stale data in the free sectors
        for s in sorted(d.freemap()):
            p, n = d.pos(s)
            d.img[p:p + n] = rng.getrandbits(8 * n).to_bytes(n, "little")
    if spec.get("dust"):
        d.dust(random.Random(spec["seed"] + 1))
    for st in spec["steps"]:
        if st[0] == "add":
            _, nm, size, seed, mode, flag = st
            if any(n == nm for _, n, _ in d.entries()):
                continue
            d.add_file(rng, nm, content(size, seed), mode, flag)
        elif st[0] == "del":
            d.delete(st[1])
        elif st[0] == "mv":
            if not any(n == st[2] for _, n, _ in d.entries()):
                d.rename(st[1], st[2])
        elif st[0] == "poke":
            d.img[st[1]] = st[2]
    img = bytes(d.img)
    if spec.get("xfd"):
        img = img[16:]
    return img


def image_name(spec):
    if spec.get("name"):
        return spec["name"]
    return "img." + ("dsk" if spec["base"].endswith(".dsk") else "xfd" if spec.get("xfd") else "atr")


# ---------------------------------------------------------------- commands

def stage(world, cmd, sub="host"):
    """Put the host files a command reads in place."""
    for f in cmd.get("files", []):
        world.put("%s/%s" % (f.get("sub", sub), f["n"]), content(f["len"], f["s"]))
    for f in cmd.get("data", []):
        world.put("%s/%s" % (sub, f["n"]), content(f["len"], f["s"]))


def argv(cmd, img, sub="host"):
    c = cmd["c"]
    pre = [img] + (["--dry-run"] if cmd.get("dry") else [])
    f = ["-f"] if cmd.get("f") else []
    if c == "add":
        return pre + ["add"] + f + (["-t", cmd["t"]] if cmd.get("t") else []) + ["%s/%s" % (x.get("sub", sub), x["n"]) for x in cmd["files"]]
    if c == "del":
        return pre + ["delete"] + f + list(cmd["names"])
    if c == "asm":
        a = pre + ["assemble"] + f + ["-d"] + ["%s/%s%s@%s" % (sub, x["n"], x.get("slice", ""), x["addr"]) for x in cmd["data"]]
        if cmd.get("r"):
            a += ["-r", cmd["r"]]
        return a + ["-o", cmd["o"]]
    if c == "boot":
        a = pre + ["boot"] + f + ["-d"] + ["%s/%s%s@%s" % (sub, x["n"], x.get("slice", ""), x["addr"]) for x in cmd["data"]]
        if cmd.get("r"):
            a += ["-r", cmd["r"]]
        return a
    if c == "create":
        return pre + ["create"] + f + [cmd["template"]]
    if c == "shred":
        return pre + ["vtoc", "-e"]
    if c == "vtoc":
        return pre + ["vtoc"]
    if c == "list":
        return pre + ["list"] + list(cmd.get("opts", [])) + list(cmd.get("names", []))
    if c == "crc":
        return pre + ["crc"] + list(cmd.get("names", []))
    if c == "segments":
        return pre + ["segments"]
    if c == "extract":
        return pre + ["extract"] + f + list(cmd.get("opts", [])) + list(cmd.get("names", []))
    raise ValueError(c)


def gen_files(rng, kind, dens, names, n):
    return [dict(n=rng.choice(names), len=gen_size(rng, kind, dens), s=rng.randrange(1 << 16)) for _ in range(n)]


def gen_data(rng, k=None):
    r = []
    addr = rng.choice([0x0600, 0x2000, 0x2000, 0x3000, 0x4000, 0x6000])
    for i in range(k or rng.randrange(1, 4)):
        n = rng.choice([1, 2, 100, 255, 256, 257, 1000, rng.randrange(1, 4000)])
        r.append(dict(n="seg%d.dat" % i, len=n, s=rng.randrange(1 << 16), addr="%x" % addr))
        addr += n + rng.choice([0, 0, 1, 100, 256])
    return r


def gen_write_cmd(rng, kind, dens, names, kinds=None):
    c = rng.choice(kinds or ["add", "add", "add", "add", "del", "del", "asm", "shred"])
    if c == "add":
        return dict(c="add", files=gen_files(rng, kind, dens, names, rng.choice([1, 1, 1, 2, 3])),
                    f=int(rng.random() < .4), t=rng.choice(["", "", "B", "T", "A", "I"]) if kind == "dos33" else "")
    if c == "del":
        return dict(c="del", names=rng.sample(names, min(len(names), rng.choice([1, 1, 2]))), f=int(rng.random() < .3))
    if c == "asm":
        o = rng.choice(names)
        if kind == "atari":
            o = o.split(".")[0] + rng.choice([".XEX", ".xex", ""])
        elif rng.random() < .3:
            o = o[:20] + rng.choice([".BIN", ".BSAVE"])
        return dict(c="asm", data=gen_data(rng), o=o, f=int(rng.random() < .5))
    if c == "shred":
        return dict(c="shred")
    raise ValueError(c)
