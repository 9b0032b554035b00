"""Edits through any segment are seen alike through all others and survive a saved session."""
import json
import os
import random

from .. import kernel as K, scene, util
from . import c08

QUICK_RUNS, THOROUGH_RUNS = 800, 60000
LEVEL = "exploration"
RULE = ("a run = an image with its parsed segments, up to five lives of a process that opens it (first from the image, later from the last saved session), each with 2-12 operations: new views (slice, re-indexed, interleaved), bytes, styles, comments, user "
        "data written through any view, undo of comment edits, resizing, saving; a life ends after a save or is killed, losing what came after the last save; after each operation every view is compared with the reference model; "
        "non-trivial = an edit through one view that is visible through another")
STATE_MEASURE = "distinct (image, operation, kind of view) tuples"
SIMULATED = ["the editor that keeps image, segments (jsonpickle) and session data in files"]
ASSUMPTIONS = ["views select each byte at most once", "clearing a data style alone (user=0) is not judged"]
KW = [dict(selected=True), dict(match=True), dict(comment=True), dict(user=1), dict(user=2), dict(user=3), dict(user=6), dict(data=True), dict(diff=True), dict(match=True, selected=True)]
KEEP = 0x47             # style bits a session keeps: user styles and comments


def gen(rng, tier):
    k = rng.random()
    if k < .4:
        spec = scene.gen_image(rng, scene.ALL_T, maxfiles=5, populate=True)
    elif k < .7:
        spec = dict(made=rng.choice(["xex", "xex", "bsave", "kboot", "apple", "cart", "garbage", "boot"]), s=rng.randrange(1 << 16), n=rng.choice([1, 8, 100, 1000, 5000]))
    elif k < .8:
        spec = dict(base=rng.choice(["kboot_test1.atr", "air_defense_v18.xex"]), raw=1)
    else:
        spec = dict(plain=rng.choice([1, 2, 16, 40, 100, 256, 1000]), s=rng.randrange(1 << 16))
    lives = []
    for _ in range(rng.choice([1, 2, 2, 3, 5])):
        ops = []
        for _ in range(rng.randrange(2, 13)):
            c = rng.choice(["slice", "slice", "subset", "subset", "leave", "set", "setr", "setr", "setidx", "style", "style", "unstyle", "styleat", "clearbits", "comment", "comment", "comment", "uncomment", "commentat", "rmcomment", "setcomments",
                            "undo", "user", "copyc", "resize", "fixup", "attrs", "compare", "rect", "rmcomments", "clone", "save", "save"])
            ops.append(dict(c=c, v=rng.randrange(64), x=rng.randrange(1 << 20), y=rng.randrange(1 << 20), kw=rng.randrange(len(KW)), s=rng.randrange(1 << 16)))
        lives.append(dict(ops=ops, end=rng.choice(["save", "save", "kill"])))
    return dict(img=spec, lives=lives)


def start(spec):
    if spec.get("made"):
        return c08.make(spec)
    if spec.get("plain"):
        return scene.content(spec["plain"], spec["s"])
    if spec.get("raw"):
        return scene.template(spec["base"])
    return scene.build_image(spec)


class Broken(Exception):
    pass


class Model:
    """bytes, styles and notes of the base; a view is a list of positions"""

    def __init__(self, data):
        self.data, self.style = bytearray(data), bytearray(len(data))
        self.comments, self.user, self.views = {}, {}, []

    def dump(self):
        return dict(data=self.data.hex(), style=self.style.hex(), comments=list(self.comments.items()), views=[dict(v) for v in self.views])

    @classmethod
    def load(cls, d):
        m = cls(bytes.fromhex(d["data"]))
        m.style = bytearray(x & KEEP for x in bytes.fromhex(d["style"]))
        m.comments = dict((int(k), v) for k, v in d["comments"])
        m.views = d["views"]
        return m


ATTRS = ["origin", "error", "name", "verbose_name", "page_size", "map_width", "uuid", "can_resize"]


def attrs(s):
    r = {k: getattr(s, k) for k in ATTRS}
    r["memory_map"] = sorted([k, v] for k, v in s.memory_map.items())
    r["class"] = type(s).__name__
    r["str"], r["info"] = str(s), s.verbose_info if len(s) else ""
    return r


def rle(bits):
    r, n = [], len(bits)
    i = 0
    while i < n:
        if bits[i]:
            j = i
            while j < n and bits[j]:
                j += 1
            r.append((i, j))
            i = j
        else:
            i += 1
    return r


def styled(kw):
    b = 0
    for k, v in kw.items():
        b |= dict(selected=0x80, match=0x20, comment=0x40, diff=0x10, data=1).get(k, 0)
        if k == "user":
            b |= v
    return b


class Life:
    """One process of the editor."""

    def __init__(self, path, spec, life, model):
        self.path, self.spec, self.life, self.model = path, spec, life, model

    def __call__(self):
        import logging
        logging.getLogger("atrcopy").setLevel(logging.ERROR)
        self.seen, self.shared, self.saved, self.log = [], 0, None, []
        try:
            self.open()
            self.check("opening")
            for op in self.life["ops"]:
                if self.act(op):
                    self.check(op["c"])
            if self.life["end"] == "save":
                self.save()
        except Broken as e:
            return dict(bad=list(e.args), seen=self.seen, shared=self.shared)
        return dict(bad=None, seen=self.seen, shared=self.shared, saved=self.saved, log=self.log)

    def open(self):
        import jsonpickle
        import numpy as np
        import atrcopy
        self.np, self.a = np, atrcopy
        with open(self.path, "rb") as fh:
            data = fh.read()
        if self.model is None:
            raw = atrcopy.SegmentData(data) if self.spec.get("plain") else None
            if raw is None:
                try:
                    self.parser, _ = atrcopy.find_diskimage_from_data(atrcopy.to_numpy(data))
                    segs = [s for s in self.parser.segments if type(s).__name__ != "EmptySegment"]
                    if len(segs[0]) != len(data) or not segs[0].rawdata.is_base:
                        raise ValueError
                except Exception:
                    raw = atrcopy.SegmentData(data)
            if raw is not None:
                self.parser = None
                segs = [atrcopy.DefaultSegment(raw, 0, "base")]
            self.segs = [segs[0]] + [s for s in segs[1:] if len(s) <= 6000][:7]
            m = self.m = Model(data)
            m.style = bytearray(np.asarray(segs[0].get_style_at_indexes(np.arange(len(data))), dtype=np.uint8).tobytes())
            m.comments = {int(k): v for k, v in segs[0].get_sorted_comments()}
            for s in self.segs:
                mp = list(range(len(data))) if s is self.segs[0] else [s.get_raw_index(i) for i in range(len(s))]
                m.views.append(dict(map=mp, **attrs(s)))
            if self.parser is not None and self.disk(data) is not None:
                d = self.disk(data)
                if hasattr(d, "cat"):
                    areas = dict(VTOC=[17 * 16], Catalog=d.cat)
                elif hasattr(d, "slotpos"):
                    areas = dict(VTOC=[360], Directory=list(range(361, 369)))
                else:
                    areas = {}
                for s in self.parser.segments:
                    if s.name in areas and type(s).__name__ != "EmptySegment":
                        want = [p + k for p, n in map(d.pos, areas.pop(s.name)) for k in range(n)]
                        if [s.get_raw_index(k) for k in range(len(s))] != want:
                            raise Broken("area", "segment %s starts at %d with %d bytes, not at %d with %d" % (s.name, s.get_raw_index(0), len(s), want[0], len(want)))
                if areas:
                    raise Broken("area", "no segment for %s" % list(areas))
                for nm, (body, _) in self.files(self.disk(data)).items():
                    at = [k for k, s in enumerate(self.parser.segments) if body and s.tobytes() == body and (s.verbose_name or s.name or "").startswith(nm)]
                    if body and not at:
                        raise Broken("file segment", "no segment has the contents of file %r" % nm)
                    for k, s in enumerate(self.segs):
                        if at and s is self.parser.segments[at[0]]:
                            m.views[k]["file"] = nm
        else:
            self.m = Model.load(self.model)
            with open(self.path + ".json") as fh:
                j = json.load(fh)
            raw = atrcopy.SegmentData(data)
            self.segs = jsonpickle.loads(j["segments"])
            if j["parser"] and data == start(self.spec):
                self.parser = jsonpickle.loads(j["parser"])
                self.parser.reconstruct_segments(raw)
            else:
                self.parser = None
            for s in self.segs:
                s.reconstruct_raw(raw)
            self.segs[0].restore_session(j["session"])
            if self.parser is not None:
                for s in self.parser.segments:
                    for t, v in zip(self.segs, self.m.views):
                        if s.uuid == t.uuid and s.tobytes() != t.tobytes():
                            raise Broken("parser", "segment %s of the restored parser has other contents" % v["name"])

    def disk(self, data):
        if not self.spec.get("base") or self.spec.get("raw") or self.spec.get("xfd"):
            return None
        return scene.open_disk(self.spec, data)

    def files(self, d):
        r = {}
        for e in d.entries():
            try:
                r.setdefault(e[1], (d.read(e[1]), 0))
            except Exception:
                pass
        return r

    def save(self):
        import jsonpickle
        if self.disk(start(self.spec)) is not None:
            # what was written through a file's segment is what another system reads from the file
            a, b = start(self.spec), bytes(self.m.data)
            own = set()
            for v in self.m.views:
                if v.get("file"):
                    own.update(v["map"])
            if len(a) == len(b) and all(a[k] == b[k] or k in own for k in range(len(a))):
                d = self.disk(self.segs[0].tobytes())
                for s, v in zip(self.segs, self.m.views):
                    if v.get("file") and d.read(v["file"]) != s.tobytes():
                        raise Broken("file contents", "file %r read from the image is not what was written through its segment" % v["file"])
        e = {}
        self.segs[0].serialize_session(e)
        j = dict(segments=jsonpickle.dumps(self.segs), session=e,
                 parser=jsonpickle.dumps(self.parser) if self.parser is not None and hasattr(self.a.parsers, type(self.parser).__name__) else "")
        with open(self.path + ".json", "w") as fh:
            json.dump(j, fh)
        with open(self.path, "wb") as fh:
            fh.write(self.segs[0].tobytes())
        self.saved = self.m.dump()

    # ---- the operations: on the real segment and on the model

    def pick(self, op):
        i = op["v"] % len(self.segs)
        if op["v"] % 3 == 0:
            i = len(self.segs) - 1 - op["v"] // 3 % min(3, len(self.segs))
        return i, self.segs[i], self.m.views[i]["map"]

    def act(self, op):
        c, x, y, kwi, seed = op["c"], op["x"], op["y"], op["kw"], op["s"]
        np, m = self.np, self.m
        i, s, mp = self.pick(op)
        n = len(mp)
        rng = random.Random(seed)
        kw = KW[kwi]
        a = x % (n + 1)
        b = a + y % (min(n - a, rng.choice([1, 3, 10, 200, n])) + 1)
        self.seen.append([c, self.m.views[i]["class"], bool(s.rawdata.is_indexed)])
        self.log.append([c, i, n, a, b])
        if c in ("set", "commentat", "rmcomment", "setidx", "styleat") and n == 0:
            return False
        if c == "slice":
            if len(self.segs) > 14:
                return False
            new = self.a.DefaultSegment(s.rawdata[a:b], origin=rng.choice([0, 0x600, 0x2000]), name="v%d" % len(self.segs))
            self.add(new, mp[a:b])
        elif c == "subset":
            if len(self.segs) > 14:
                return False
            o = rng.sample(range(n), min(n, rng.choice([0, 1, 2, 5, 50, 400])))
            if rng.random() < .5:
                o = list(range(b - 1, a - 1, -1)) if rng.random() < .5 else list(range(a, n, rng.choice([1, 2, 3, 7])))
            new = s.create_subset(o, "sub%d" % len(self.segs), rng.choice(["", "long name"]))
            self.add(new, [mp[k] for k in o])
        elif c == "leave":
            if len(self.segs) > 14:
                return False
            # equally long, non-overlapping pieces of one view
            k, nb = rng.choice([2, 2, 3]), rng.choice([1, 1, 2, 4])
            w = min(n // k, rng.choice([1, 8, 33, 100]))
            parts, maps = [], []
            for q in range(k):
                p0, p1 = q * (n // k), q * (n // k) + w + rng.choice([0, 0, 1, 3, -1])
                p1 = max(p0, min(p1, n, (q + 1) * (n // k)))
                parts.append(self.a.DefaultSegment(s.rawdata[p0:p1]))
                maps.append(mp[p0:p1])
            new = self.a.interleave_segments(parts, nb)
            w = min(len(q) for q in maps)
            w -= w % nb
            self.add(new, [maps[q][r + t] for r in range(0, w, nb) for q in range(k) for t in range(nb)])
        elif c == "set":
            v = y & 255
            s[x % n] = v
            m.data[mp[x % n]] = v
            self.fresh(s)
        elif c == "setr":
            v = scene.content(b - a, seed)
            s[a:b] = np.frombuffer(v, dtype=np.uint8)
            for k in range(a, b):
                m.data[mp[k]] = v[k - a]
            self.fresh(s)
        elif c == "setidx":
            o = rng.sample(range(n), min(n, 5))
            v = [rng.randrange(256) for _ in o]
            s[np.asarray(o)] = np.asarray(v, dtype=np.uint8)
            for k, z in zip(o, v):
                m.data[mp[k]] = z
            self.fresh(s)
        elif c == "style":
            s.set_style_ranges([(a, b) if rng.random() < .7 else (b, a)], **kw)
            for k in range(a, b):
                m.style[mp[k]] |= styled(kw)
        elif c == "unstyle":
            if "data" in kw:
                return False
            s.clear_style_ranges([(a, b)], **kw)
            for k in range(a, b):
                m.style[mp[k]] &= ~(styled(kw) | (7 if "user" in kw else 0)) & 0xff
        elif c == "styleat":
            o = rng.sample(range(n), min(n, 6))
            s.set_style_at_indexes(np.asarray(o), **kw)
            for k in o:
                m.style[mp[k]] |= styled(kw)
        elif c == "clearbits":
            if "data" in kw:
                return False
            s.clear_style_bits(**kw)
            for p in mp:
                m.style[p] &= ~(styled(kw) | (7 if "user" in kw else 0)) & 0xff
        elif c == "comment":
            if a == b:
                return False
            r = [(a, b)]
            if b - a > 4 and rng.random() < .3:
                r = [(a, a + 1), (a + 2, b)]
            s.set_comment(r, "note %d" % seed)
            for p, q in r:
                for k in range(p, q):
                    m.style[mp[k]] |= 0x40
                m.comments[mp[p]] = "note %d" % seed
        elif c == "uncomment":
            s.clear_comment([(a, b)])
            self.uncomment(mp, a, b)
        elif c == "commentat":
            s.set_comment_at(x % n, "at %d" % seed)
            m.comments[mp[x % n]] = "at %d" % seed
        elif c == "rmcomment":
            k = self.near(mp, x)
            s.remove_comment(k)
            m.comments.pop(mp[k], None)
        elif c == "setcomments":
            o = rng.sample(range(n), min(n, 4))
            t = [rng.choice(["", None, "c%d" % k]) for k in o]
            s.set_comments_at_indexes([], o, t)
            for k, z in zip(o, t):
                if z:
                    m.comments[mp[k]] = z
                else:
                    m.comments.pop(mp[k], None)
        elif c == "undo":
            d = s.get_comment_restore_data([(a, b)])
            for k in range(rng.choice([1, 2])):
                if rng.random() < .5:
                    s.clear_comment([(a, b)])
                elif a < b:
                    s.set_comment([(a + rng.randrange(b - a), b)], "passing")
            s.restore_comments(d)
        elif c == "user":
            u = 1 + seed % 6
            b = min(b, a + 50)
            s.set_user_data([(a, b)], u, seed)
            for k in range(a, b):
                m.user[u, mp[k]] = seed
        elif c == "copyc":
            t = x % len(self.segs)
            dst, dm = self.segs[t], m.views[t]["map"]
            if len(dm) < n:
                return False
            off = y % (len(dm) - n + 1)
            got = {k: m.comments[p] for k, p in enumerate(mp) if p in m.comments}
            if {dm[k + off] for k in got} & set(mp):
                return False        # (source and destination overlap)
            dst.copy_user_data(s, off)
            for k, v in got.items():
                m.comments[dm[k + off]] = v
        elif c == "resize":
            base = self.segs[0]
            if self.parser is not None and not base.can_resize or not base.rawdata.is_base:
                return False
            base.can_resize = True
            m.views[0]["can_resize"] = True
            new = len(m.data) + y % 300
            old = len(m.data)
            r = base.resize(new)
            if tuple(r) != (old, new):
                raise Broken("resize", "resize returned %r instead of %r" % (r, (old, new)))
            m.data += bytes(new - old)
            m.style += bytes(new - old)
            m.views[0]["map"] = list(range(new))
            for q in self.segs[1:]:
                q.replace_data(base)
            m.views[0].update(attrs(base))
        elif c == "fixup":
            s.fixup_comments()
            for k in range(len(m.style)):
                m.style[k] = m.style[k] & ~0x40 | (0x40 if k in m.comments else 0)
        elif c == "attrs":
            s.name = "renamed %d" % seed
            s.memory_map = {rng.choice([0, 1, rng.randrange(100)]): rng.choice([0, 0, 1, 0xffff, rng.randrange(70000)]) for _ in range(rng.choice([0, 1, 3]))}
            s.map_width = rng.choice([0, 8, 40])
            if rng.random() < .5:
                s.error, s.verbose_name = rng.choice([None, "", "bad"]), rng.choice([None, "", "long"])
                s.origin = rng.choice([0, 1, 0x8000, 0xffff])
                if type(s).__name__ == "DefaultSegment":
                    s.page_size, s.can_resize = rng.choice([-1, 0, 128]), rng.choice([False, True])
            m.views[i].update(attrs(s))
        elif c == "compare":
            if s.rawdata.is_indexed:
                return False
            other = bytearray(m.data[p] for p in mp)
            for _ in range(3):
                if n:
                    other[rng.randrange(n)] ^= rng.choice([0, 1, 0x80])
            s.compare_segment(self.a.DefaultSegment(self.a.SegmentData(bytes(other))))
            for k, p in enumerate(mp):
                m.style[p] = m.style[p] & ~0x10 | (0x10 if other[k] != m.data[p] else 0)
        elif c == "rect":
            w = rng.choice([2, 8, 40])
            r1, c1 = divmod(a, w)
            r2, c2 = max(r1, b // w), c1 + 1 + rng.randrange(w)
            if c2 >= w:
                return False
            s.set_style_ranges_rect([(r1 * w + c1, r2 * w + c2)], w, **kw)
            for r in range(r1, r2 + 1):
                for k in range(r * w + c1, r * w + c2):
                    if k < n:
                        m.style[mp[k]] |= styled(kw)
        elif c == "rmcomments":
            o = [k for k, p in enumerate(mp) if p in m.comments and rng.random() < .5] + rng.sample(range(n), min(n, 2))
            s.remove_comments_at_indexes(o)
            for k in o:
                m.comments.pop(mp[k], None)
        elif c == "clone":
            # a copy is independent of the image
            t = s.rawdata.copy()
            if not n:
                return False
            if np.asarray(t.unindexed_data).tobytes() != bytes(m.data[p] for p in mp) or np.asarray(t.unindexed_style).tobytes() != bytes(m.style[p] for p in mp):
                raise Broken("copy", "a copy of %s has other bytes or styles" % s)
            q = self.a.DefaultSegment(t)
            q[0:n] = np.asarray([z ^ 0xff for z in s.tobytes()], dtype=np.uint8)
            q.set_style_ranges([(0, n)], selected=True)
            q.set_comment([(0, n)], "only in the copy")
        elif c == "save":
            self.save()
        return True

    def runs(self, u):
        r = []
        for p in sorted(p for v, p in self.m.user if v == u):
            if r and r[-1][1] == p and self.m.user[u, p] == self.m.user[u, r[-1][0]]:
                r[-1][1] = p + 1
            else:
                r.append([p, p + 1])
        return r

    def label(self, s, v, k):
        if v["class"] in ("RawSectorsSegment", "RawTrackSectorSegment"):
            nb, bs = s.num_boot_sectors, s.boot_sector_size
            if k < nb * bs:
                sec, byte = divmod(k, bs)
            else:
                sec, byte = divmod(k - nb * bs, s.page_size)
                sec += nb
            sec += s.first_sector
            if v["class"] == "RawSectorsSegment":
                return "s%03d:%02x" % (sec, byte)
            return "t%02ds%02d:%02x" % (sec // 16, sec % 16, byte)
        return "%04x" % (s.origin + k)

    def near(self, mp, x):
        at = [k for k, p in enumerate(mp) if p in self.m.comments]
        return at[x % len(at)] if at else x % len(mp)

    def uncomment(self, mp, a, b):
        for k in range(a, b):
            self.m.style[mp[k]] &= ~0x40 & 0xff
            self.m.comments.pop(mp[k], None)

    def fresh(self, s):
        if s.search_copy != s.tobytes():
            raise Broken("search copy", "search_copy of %s is not its contents after a write through it" % s)

    def add(self, s, mp):
        self.segs.append(s)
        self.m.views.append(dict(map=mp, **attrs(s)))

    # ---- the comparison

    def check(self, after):
        np, m = self.np, self.m
        for i, (s, v) in enumerate(zip(self.segs, m.views)):
            mp = v["map"]
            n = len(mp)
            w = "after %s: %s (%s of %d bytes)" % (after, v["name"], v["class"], n)
            if len(s) != n:
                raise Broken("length", "%s has length %d" % (w, len(s)))
            want = bytes(m.data) if i == 0 else bytes([m.data[p] for p in mp])
            got = s.tobytes()
            if got != want:
                k = [k for k in range(n) if got[k] != want[k]]
                raise Broken("bytes", "%s: byte %d is %02x, should be %02x (%d differ)" % (w, k[0], got[k[0]], want[k[0]], len(k)))
            at = attrs(s)
            for k in at:
                if at[k] != v[k]:
                    raise Broken("attribute", "%s: %s is %r, was %r" % (w, k, at[k], v[k]))
            st = list(m.style) if i == 0 else [m.style[p] for p in mp]
            got = list(np.asarray(s.get_style_at_indexes(np.arange(n)), dtype=np.uint8).tobytes()) if n else []
            if got != st:
                k = [k for k in range(n) if got[k] != st[k]]
                raise Broken("style", "%s: style of byte %d is %02x, should be %02x (%d differ)" % (w, k[0], got[k[0]], st[k[0]], len(k)))
            for kw in (KW[0], KW[2], KW[5]):
                bits = styled(kw)
                r = rle([z & bits == bits for z in st])
                if [tuple(z) for z in s.get_style_ranges(**kw)] != r:
                    raise Broken("style ranges", "%s: ranges %r of %r, should be %r" % (w, s.get_style_ranges(**kw)[:5], kw, r[:5]))
            notes = dict(m.comments) if i == 0 else {k: m.comments[p] for k, p in enumerate(mp) if p in m.comments}
            lots = len(m.comments) > 100 and after not in ("opening", "copyc", "undo", "resize", "setcomments") and "comment" not in after
            even = (i + len(self.log)) % 2
            got = {int(k): t for k, t in s.get_comments_in_range(0, n).items()} if even and not lots else notes
            if got != notes:
                raise Broken("comments", "%s: comments %r, should be %r" % (w, got, notes))
            got = sorted((int(k), t) for k, t in s.iter_comments_in_segment()) if not even and not lots else sorted(notes.items())
            if got != sorted(notes.items()):
                raise Broken("comments", "%s: iter_comments_in_segment gives %r, should be %r" % (w, got, notes))
            if notes and not lots:
                ks = sorted(notes)
                a, b = ks[len(self.log) % len(ks)], ks[len(self.log) * 7 % len(ks)]
                a, b = min(a, b), max(a, b) + len(self.log) % 2
                got = {int(k): t for k, t in s.get_comments_in_range(a, b).items()}
                if got != {k: t for k, t in notes.items() if a <= k < b}:
                    raise Broken("comments", "%s: comments from %d to %d (excluded) are %r" % (w, a, b, got))
            for k in list(notes)[:4] + ([0, n - 1] if n else []):
                if s.get_comment(k) != notes.get(k, ""):
                    raise Broken("comments", "%s: comment at %d is %r, should be %r" % (w, k, s.get_comment(k), notes.get(k, "")))
            if n and even:
                o = sorted(set(list(notes)[:4] + [0, n // 2, n - 1]))
                h, t = s.get_comments_at_indexes(np.asarray(o))
                want = [(j, notes.get(k)) for j, k in enumerate(o) if st[k] & 0x40]
                if list(zip([int(z) for z in h], t)) != want:
                    raise Broken("comments", "%s: get_comments_at_indexes(%r) gives %r %r, should be %r" % (w, o, h, t, want))
                if s.get_first_comment([(o[-1], n), (o[0], n)]) != notes.get(o[0], ""):
                    raise Broken("comments", "%s: get_first_comment" % w)
                for sv in s.savers:
                    e = sv.encode_data(s, None)
                    want = s.tobytes()
                    if sv.__name__ == "BSAVESaver" and n < 65536 and 0 <= s.origin < 65536:
                        want = bytes([s.origin & 255, s.origin >> 8, n & 255, n >> 8]) + want
                    elif sv.__name__ == "BSAVESaver":
                        continue
                    if bytes(e) != want:
                        raise Broken("saver", "%s: %s gives %r..., should be %r..." % (w, sv.__name__, bytes(e)[:16], want[:16]))
            if i == 0 and m.user:
                for u in range(1, 7):
                    want = [[[p, q], m.user[u, p]] for p, q in self.runs(u)]
                    if s.get_sorted_user_data(u) != want:
                        raise Broken("user data", "%s: get_sorted_user_data(%d) is %r, should be %r" % (w, u, s.get_sorted_user_data(u)[:4], want[:4]))
            for k in ([0, n // 2, n - 1] if n else []):
                p = s.get_raw_index(k)
                if s.get_raw_index_from_address(s.origin + k) != p:
                    raise Broken("index", "%s: address %x is at %r of the base, index %d at %r" % (w, s.origin + k, s.get_raw_index_from_address(s.origin + k), k, p))
                if s.label(k) != s.label(k, False).lower() or s.label(k) != self.label(s, v, k):
                    raise Broken("label", "%s: label of %d is %r, should be %r" % (w, k, s.label(k), self.label(s, v, k)))
                if p != mp[k] or s.get_index_from_base_index(mp[k]) != k:
                    raise Broken("index", "%s: index %d is at %r of the base and comes back as %r, should be %d" % (w, k, p, s.get_index_from_base_index(mp[k]), mp[k]))
                if int(s[k]) != m.data[mp[k]]:
                    raise Broken("bytes", "%s: [%d] is %r" % (w, k, s[k]))
                for u in range(1, 7):
                    if s.get_user_data(k, u) != m.user.get((u, mp[k]), 0):
                        raise Broken("user data", "%s: user data %d at %d is %r, should be %r" % (w, u, k, s.get_user_data(k, u), m.user.get((u, mp[k]), 0)))
            if n and n < len(m.data) and (i + len(self.log)) % 3 == 0:
                inside = set(mp)
                for p in (0, len(m.data) - 1, len(m.data) // 2):
                    if p not in inside:
                        try:
                            k = s.get_index_from_base_index(p)
                        except IndexError:
                            continue
                        raise Broken("index", "%s: base position %d, which is not in it, is at %r" % (w, p, k))
                e = s.get_entire_style_ranges(user=7)
                at, ok = 0, e is not None
                for (p, q), z in e or []:
                    ok = ok and p == at and q > p and all(t & 7 == z for t in st[p:q])
                    at = q
                if not ok or at != n:
                    raise Broken("entire ranges", "%s: get_entire_style_ranges gives %r" % (w, e))
            if i and n and (any(st) or notes):
                self.shared = 1


def execute(plan, R):
    w = R.world()
    spec = plan["img"]
    img = start(spec)
    name = "img.bin"
    w.restore({name: img})
    model = None
    what = spec.get("base") or spec.get("made") or "plain %s" % spec.get("plain")
    for k, life in enumerate(plan["lives"]):
        o = w.run(Life(w.path(name), spec, life, model), gated=False)
        r = o.value
        if not isinstance(r, dict):
            R.fail("exception", "%s, life %d, ops %s: %s %s %s" % (what, k, [x["c"] for x in life["ops"]], o.how, o.exc, o.exc_msg))
            return
        R.log(util.h(r))
        for s in r["seen"]:
            R.state(what, *s)
        if r["shared"]:
            R.nontrivial = True
        if r["bad"]:
            R.fail(r["bad"][0], "%s, life %d: %s" % (what, k, r["bad"][1]))
            return
        R.probe("life ended by " + life["end"])
        if r["saved"] is not None:
            model = r["saved"]
        elif model is None:
            w.restore({name: img})
