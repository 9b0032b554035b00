"""Damage done to image files between commands: edits are JSON lists, applied to bytes."""
import random

from . import disk


def rnd(n, seed):
    return random.Random(seed).getrandbits(8 * n).to_bytes(n, "little") if n else b""


def apply(img, edits):
    b = bytearray(img)
    for e in edits:
        k = e[0]
        if k == "trunc":
            del b[e[1]:]
        elif k == "app":
            b += rnd(e[1], e[2])
        elif k == "set":            # ["set", offset, value, ...]
            for i, v in enumerate(e[2:]):
                if e[1] + i < len(b):
                    b[e[1] + i] = v & 0xff
        elif k == "xor":
            if e[1] < len(b):
                b[e[1]] ^= e[2]
        elif k == "zero":
            n = max(0, min(e[2], len(b) - e[1]))
            b[e[1]:e[1] + n] = bytes(n)
        elif k == "rand":
            n = max(0, min(e[2], len(b) - e[1]))
            b[e[1]:e[1] + n] = rnd(n, e[3])
        elif k == "copy":           # ["copy", from, to, n]: a misdirected write
            n = max(0, min(e[3], len(b) - e[1], len(b) - e[2]))
            b[e[2]:e[2] + n] = b[e[1]:e[1] + n]
        elif k == "swap":
            n = max(0, min(e[3], len(b) - e[1], len(b) - e[2]))
            x, y = b[e[1]:e[1] + n], b[e[2]:e[2] + n]
            b[e[1]:e[1] + n], b[e[2]:e[2] + n] = y, x
        else:
            raise ValueError(k)
    return bytes(b)


def structure(d):
    """Offsets of structural bytes of a disk: (directory, volume table, links, boot and header)"""
    dirs, vt, links, boot = [], [], [], []
    if d.kind == "atari":
        for s in range(361, 369):
            p, _ = d.pos(s)
            dirs += range(p, p + 128)
        p, n = d.pos(360)
        vt += range(p, p + n)
        if d.density == "ed":
            p, n = d.pos(1024)
            vt += range(p, p + n)
        for f in d.files():
            for s in f["sectors"]:
                p, n = d.pos(s)
                links += range(p + n - 3, p + n)
        boot = list(range(0, d.hdr + 384))
    elif d.kind == "dos33":
        p, n = d.pos(17 * 16)
        vt += range(p, p + 0x40)
        vt += range(p + 0x40, p + n, 3)
        for s in range(17 * 16 + 1, 17 * 16 + 16):
            p, n = d.pos(s)
            dirs += list(range(p, p + 12)) * 3 + list(range(p + 12, p + n))
        for f in d.files():
            for s in f["sectors"][:1]:      # (its first track/sector list)
                p, n = d.pos(s)
                links += range(p, p + 32)
        boot = list(range(0, 0x300))
    else:
        p, n = d.pos(1)
        vt += range(p, p + 43)
        boot = list(range(0, d.hdr + 384))
        maps, data = d.mapped(d.root)
        for s in maps:
            p, n = d.pos(s)
            links += list(range(p, p + 16))
        for s in data:
            p, n = d.pos(s)
            dirs += range(p, p + n)
        for f in d.files():
            for s in f["maps"]:
                p, n = d.pos(s)
                links += range(p, p + 4 + 2 * len(f["sectors"]) + 2) if n else ()
    return [x for x in (dirs, vt, links, boot) if x]


VALS = [0, 1, 2, 3, 0x0f, 0x10, 0x11, 0x20, 0x22, 0x23, 0x40, 0x42, 0x43, 0x46, 0x7f, 0x80, 0xc0, 0xfe, 0xff]


def redirect(rng, d):
    """One link changed to point to a sector that is in use: loops of any length and crossings"""
    fs = [f for f in d.files() if f["sectors"]]
    if not fs:
        return None
    f = rng.choice(fs)
    if d.kind == "atari":
        i = rng.randrange(len(f["sectors"]))
        p, n = d.pos(f["sectors"][i])
        k = rng.random()
        t = rng.choice(f["sectors"][:i + 1]) if k < .6 else rng.choice(f["sectors"]) if k < .8 else rng.choice(rng.choice(fs)["sectors"])
        fn = f["slot"] if k < .9 else rng.randrange(64)
        if f["raw"][0] & 4:
            fn = 0
        return ["set", p + n - 3, fn << 2 | t >> 8, t & 0xff]
    if d.kind == "dos33":
        if rng.random() < .5:       # catalog
            s = 17 * 16 + rng.randrange(1, 16)
            p, n = d.pos(s)
            return ["set", p + 1, 17, rng.randrange(0, 16)]
        p, n = d.pos(f["sectors"][0])
        t = rng.choice([f["sectors"][0], rng.choice(f["sectors"]), rng.choice(rng.choice(fs)["sectors"])])
        return ["set", p + rng.choice([1, 1, 12 + 2 * rng.randrange(4)]), t >> 4, t & 15]
    m = rng.choice(f["maps"] or [d.root])
    p, n = d.pos(m)
    t = rng.choice([m, rng.choice(f["maps"] or [m]), rng.choice(f["sectors"]), d.root])
    return ["set", p + rng.choice([0, 0, 2, 4, 6]), t & 0xff, t >> 8]


def rho(rng, d):
    """A chain of lists that, after some steps, runs into a cycle of any length"""
    fs = [f for f in d.files() if f["sectors"]]
    if not fs or d.kind == "atari":
        return []
    f = rng.choice(fs)
    m = rng.randrange(2, 9)
    back = rng.randrange(0, m)
    if d.kind == "dos33":
        if rng.random() < .3:
            cat = [17 * 16 + 15 - k for k in range(m)]
            nxt = cat[1:] + [cat[back]]
            return [["set", d.pos(a)[0] + 1, b >> 4, b & 15] for a, b in zip(cat, nxt)]
        free = sorted(s for s in d.freemap() if s >= 16)
        if len(free) < m:
            return []
        chain = [f["sectors"][0]] + rng.sample(free, m - 1)
        nxt = chain[1:] + [chain[back]]
        return [["set", d.pos(a)[0] + 1, b >> 4, b & 15] for a, b in zip(chain, nxt)]
    free = [s for s in range(d.nsec * 2 // 3, d.nsec - 1)]
    first = (f["maps"] or [d.root])[0] if rng.random() < .8 else d.root
    chain = [first] + rng.sample(free, m - 1)
    nxt = chain[1:] + [chain[back]]
    return [["set", d.pos(a)[0], b & 0xff, b >> 8] for a, b in zip(chain, nxt)]


EDGE = [0, 0, 1, 2, 3, 0x7f, 0x80, 0xff]


def field(rng, d):
    """One number that describes the volume or a file changed to an extreme or neighbouring value"""
    ent = None
    if d.kind == "atari":
        p, n = d.pos(360)
        fields = [(p, 1)] * 3 + [(p + 1, 2), (p + 3, 2)]
        e = [i for i, _, _ in d.entries()]
        if e:
            i = rng.choice(e)
            q = d.slotpos(i)
            ent = [(q, 1), (q + 1, 2), (q + 3, 2), (q + 3, 2)]
        if d.hdr:
            fields += [(2, 2), (4, 2), (6, 1)]
        fields += [(d.hdr + 1, 1), (d.hdr + 2, 2)]
    elif d.kind == "dos33":
        p, n = d.pos(17 * 16)
        fields = [(p + 1, 1), (p + 2, 1), (p + 3, 1), (p + 0x27, 1), (p + 0x27, 1), (p + 0x30, 1), (p + 0x31, 1), (p + 0x34, 1), (p + 0x35, 1), (p + 0x36, 2)]
        e = [f for f in d.files() if f["sectors"]]
        if e:
            f = rng.choice(e)
            q = d.slotpos(f["slot"])
            t = d.pos(f["sectors"][0])[0]
            ent = [(q, 1), (q + 1, 1), (q + 2, 1), (q + 0x21, 2), (t + 1, 1), (t + 2, 1), (t + 5, 2), (t + 12, 1), (t + 13, 1)]
            if len(f["sectors"]) > 1:
                u = d.pos(f["sectors"][1])[0]
                ent += [(u, 2), (u + 2, 2)]
    else:
        p, n = d.pos(1)
        fields = [(p + k, w) for k, w in [(7, 1), (9, 2), (11, 2), (13, 2), (15, 1), (16, 2), (18, 2), (20, 2), (30, 1), (31, 1), (32, 1), (33, 2), (35, 2), (37, 2), (39, 2), (41, 1)]]
        e = d.mapped(d.root)[1]
        if e:
            q = d.pos(e[0])[0]
            ent = [(q + 3, 2), (q + 3, 1), (q + 5, 1)] + [(q + 23 * k + o, w) for k in range(1, 4) for o, w in [(0, 1), (1, 2), (3, 2), (3, 1), (5, 1)]]
        m = d.mapped(d.root)[0]
        if m:
            q = d.pos(m[0])[0]
            fields += [(q, 2), (q + 2, 2), (q + 4, 2)]
    o, w = rng.choice(ent if ent and rng.random() < .5 else fields)
    old = int.from_bytes(d.img[o:o + w], "little")
    k = rng.random()
    v = rng.choice(EDGE) if k < .5 else old + rng.choice([-1, 1, -2, 2, 0x80]) if k < .8 else rng.choice([359, 360, 361, 368, 369, 719, 720, 721, 1023, 1024, 1040, 1041, 34, 35, 16, 122, 123])
    if w == 2 and rng.random() < .2:
        v = rng.choice([0xffff, 0x8000, 0xff00, len(d.img) // 128, len(d.img) // 256])
    return ["set", o] + [(v >> 8 * i) & 0xff for i in range(w)]


def gen(rng, img, d, n=None):
    """Edits for an image; d: its reader, or None."""
    edits = []
    st = structure(d) if d is not None else []
    for _ in range(n or rng.choice([1, 1, 1, 2, 3, 6])):
        k = rng.random()
        L = len(img)
        if st and k < .04:
            e = rho(rng, d)
            if e:
                edits += e
                continue
        if st and k < .15:
            e = redirect(rng, d)
            if e:
                edits.append(e)
                continue
        if st and k < .27:
            edits.append(field(rng, d))
            continue
        if st and k < .65:
            area = rng.choice(st)
            o = rng.choice(area)
            v = rng.choice(VALS + [rng.randrange(256)] * 6)
            if rng.random() < .3:
                edits.append(["set", o, v, rng.choice(VALS + [rng.randrange(256)] * 4)])
            elif rng.random() < .15:
                edits.append(["rand", o, rng.choice([4, 16, 35, 128]), rng.randrange(1 << 30)])
            elif rng.random() < .1:
                edits.append(["copy", rng.choice(area), o, rng.choice([2, 3, 16, 35, 128])])
            else:
                edits.append(["set", o, v])
        elif k < .72:
            ss = 256 if L == 143360 or L > 180000 else 128
            a, b = (rng.randrange(max(1, L // ss)) * ss + (16 if L % 128 else 0) for _ in (0, 1))
            edits.append(rng.choice([["zero", a, ss], ["rand", a, ss, rng.randrange(1 << 30)], ["copy", a, b, ss], ["swap", a, b, ss], ["rand", a, rng.randrange(1, 20000), rng.randrange(1 << 30)],
                                     ["zero", a, rng.randrange(1, 60000)]]))
        elif k < .86:
            edits.append(["xor", rng.randrange(max(L, 1)), rng.randrange(1, 256)])
        elif k < .95:
            edits.append(["trunc", rng.choice([rng.randrange(L + 1), rng.randrange(min(L, 64) + 1), max(0, L - rng.randrange(1, 400)), L // 128 // 2 * 128])])
        else:
            edits.append(["app", rng.choice([1, 16, 128, 256, 1000]), rng.randrange(1 << 30)])
    return edits
