"""Independent readers, checkers and builders for the disk formats atrcopy writes.

Written from the format descriptions (Atari DOS 2.0S/2.5, Apple DOS 3.3), sharing
no code with atrcopy.  Used as oracle (fsck, read) and to build images "made by
another system" (fragmented, locked, deleted and typed entries).
"""
import struct


class Bad(Exception):
    pass


# ---------------------------------------------------------------- Atari DOS 2

class Atari:
    kind = "atari"
    nslots = 64

    def __init__(self, img):
        self.img = img = bytearray(img)
        n = len(img)
        if n >= 16 and img[0] == 0x96 and img[1] == 0x02:
            self.hdr = 16
        else:
            self.hdr = 0
        body = n - self.hdr
        self.density = {92160: "sd", 133120: "ed", 183936: "dd", 184320: "dd"}.get(body)
        self.full = body == 184320          # also the boot sectors have 256 bytes
        if self.density is None:
            raise Bad("not a DOS 2 image size: %d" % n)
        self.ss = 256 if self.density == "dd" else 128
        self.payload = self.ss - 3
        self.nsec = {"sd": 720, "ed": 1040, "dd": 720}[self.density]
        self.hi = 1024 if self.density == "ed" else 720      # data sectors are below this

    # geometry
    def pos(self, s):
        if not 1 <= s <= self.nsec:
            raise Bad("sector %d" % s)
        if self.full:
            return self.hdr + (s - 1) * 256, 256
        if self.density == "dd":
            if s <= 3:
                return self.hdr + (s - 1) * 128, 128
            return self.hdr + 384 + (s - 4) * 256, 256
        return self.hdr + (s - 1) * 128, 128

    def sec(self, s):
        p, n = self.pos(s)
        return self.img[p:p + n]

    def setsec(self, s, data):
        p, n = self.pos(s)
        assert len(data) == n
        self.img[p:p + n] = data

    reserved = frozenset([0, 1, 2, 3] + list(range(360, 369)))

    @property
    def sec2(self):
        return self.sec(1024)

    # volume table
    def freemap(self):
        v = self.sec(360)
        free = set(i for i in range(720) if v[10 + i // 8] & (0x80 >> (i % 8)))
        if self.density == "ed":
            v2 = self.sec(1024)
            free |= set(i for i in range(721, 1024) if v2[84 + (i - 720) // 8] & (0x80 >> (i % 8)))
        return free

    def setfree(self, s, on):
        if s < 720:
            p, _ = self.pos(360)
            self._bit(p + 10 + s // 8, s, on)
            if self.density == "ed" and s >= 48:
                p, _ = self.pos(1024)
                self._bit(p + (s - 48) // 8, s, on)
        else:
            p, _ = self.pos(1024)
            self._bit(p + 84 + (s - 720) // 8, s, on)

    def _bit(self, i, s, on):
        m = 0x80 >> (s % 8)
        self.img[i] = self.img[i] | m if on else self.img[i] & ~m & 0xff

    def counts(self):
        v = self.sec(360)
        c = [v[3] + 256 * v[4]]
        if self.density == "ed":
            v2 = self.sec(1024)
            c.append(v2[122] + 256 * v2[123])
        return c

    def setcounts(self):
        f = self.freemap()
        p, _ = self.pos(360)
        lo = sum(1 for s in f if s < 720)
        self.img[p + 3:p + 5] = struct.pack("<H", lo)
        if self.density == "ed":
            p, _ = self.pos(1024)
            self.img[p + 122:p + 124] = struct.pack("<H", len(f) - lo)

    # directory
    def slotpos(self, i):
        p, _ = self.pos(361 + i // 8)
        return p + (i % 8) * 16

    def slot(self, i):
        p = self.slotpos(i)
        return bytes(self.img[p:p + 16])

    def setslot(self, i, raw):
        p = self.slotpos(i)
        self.img[p:p + 16] = raw

    @staticmethod
    def slotname(raw):
        a, b = raw[5:13].rstrip(b" ").decode("latin1"), raw[13:16].rstrip(b" ").decode("latin1")
        return a + ("." + b if b else "")

    @staticmethod
    def live(raw):
        f = raw[0]
        return bool(f & 0x40) or (f & 0xdf) == 0x03

    def entries(self):
        """[(slot, name, raw)] of the live entries; DOS stops at the first never-used slot."""
        r = []
        for i in range(self.nslots):
            raw = self.slot(i)
            if raw[0] == 0:
                break
            if self.live(raw):
                r.append((i, self.slotname(raw), raw))
        return r

    def chain(self, i, raw):
        """Sector list and contents of the file in slot i."""
        s = raw[3] + 256 * raw[4]
        secs, data = [], bytearray()
        while True:
            if not (1 <= s <= self.nsec):
                raise Bad("link to sector %d" % s)
            if s in secs:
                raise Bad("loop at sector %d" % s)
            b = self.sec(s)
            if len(b) != self.ss:
                raise Bad("chain enters boot sector %d" % s)
            my = raw[0] & 4         # MyDOS: no file number, 16 bits of link
            if not my and b[-3] >> 2 != i:
                raise Bad("sector %d belongs to file %d, not %d" % (s, b[-3] >> 2, i))
            if b[-1] > self.payload:
                raise Bad("sector %d has %d bytes" % (s, b[-1]))
            secs.append(s)
            data += b[:b[-1]]
            s = ((b[-3] if my else b[-3] & 3) << 8) | b[-2]
            if s == 0:
                return secs, bytes(data)

    def files(self):
        """[dict(slot, name, raw, sectors, data, locked)]"""
        r = []
        for i, name, raw in self.entries():
            secs, data = self.chain(i, raw)
            r.append(dict(slot=i, name=name, raw=raw, sectors=secs, data=data, locked=bool(raw[0] & 0x20), type="", count=raw[1] + 256 * raw[2]))
        return r

    def read(self, name):
        for i, n, raw in self.entries():
            if n == name:
                return self.chain(i, raw)[1]
        raise Bad("no file %s" % name)

    def freeslots(self):
        return sum(1 for i in range(self.nslots) if not self.live(self.slot(i)))

    def need(self, n):
        return max(1, -(-n // self.payload))

    def stored(self, data):
        return data

    def fsck(self):
        """(problems, lost): problems as strings; lost = used sectors that belong to nothing."""
        pr = []
        free = self.freemap()
        owner = {}
        seen_end = False
        for i in range(self.nslots):
            raw = self.slot(i)
            if raw[0] == 0:
                seen_end = True
                continue
            if seen_end and self.live(raw):
                pr.append("live entry %d after the end of the directory" % i)
        names = {}
        for i, name, raw in self.entries():
            if name in names:
                pr.append("two live entries named %s (%d, %d)" % (name, names[name], i))
            names[name] = i
            for k in range(5, 16):
                if raw[k] == 0:
                    pr.append("entry %d (%s) has a NUL in its name field" % (i, name))
                    break
            try:
                secs, data = self.chain(i, raw)
            except Bad as e:
                pr.append("file %s (entry %d): %s" % (name, i, e))
                continue
            if len(secs) != raw[1] + 256 * raw[2]:
                pr.append("file %s: directory says %d sectors, chain has %d" % (name, raw[1] + 256 * raw[2], len(secs)))
            if self.density == "ed" and raw[0] & 0x40 and max(secs) >= 720:
                pr.append("file %s uses sector %d but is marked as a file within the first 720 sectors" % (name, max(secs)))
            for s in secs:
                if s in self.reserved or s >= self.hi or s == 720:
                    pr.append("file %s uses reserved sector %d" % (name, s))
                if s in owner:
                    pr.append("sector %d shared by %s and %s" % (s, owner[s], name))
                owner[s] = name
                if s in free:
                    pr.append("file %s uses sector %d which is marked free" % (name, s))
        for s in sorted(self.reserved & free):
            pr.append("reserved sector %d marked free" % s)
        lo = sum(1 for s in free if s < 720)
        want = [lo] + ([len(free) - lo] if self.density == "ed" else [])
        if self.counts() != want:
            pr.append("stored free counts %s, free map says %s" % (self.counts(), want))
        if self.density == "ed":        # DOS 2.5 keeps the map of sectors 48-719 twice
            for s in range(48, 720):
                if bool(self.sec2[(s - 48) // 8] & (0x80 >> (s % 8))) != (s in free):
                    pr.append("the two free maps disagree about sector %d" % s)
                    break
        top = self.hi if self.density == "ed" else 720
        lost = set(s for s in range(4, top) if s not in free and s not in owner and s not in self.reserved and s != 720)
        return pr, lost

    # builder
    def add_file(self, rng, name, data, mode, flag=0x42):
        free = sorted(s for s in self.freemap() if s < (720 if flag & 0x40 else self.hi))
        chunks = [data[k:k + self.payload] for k in range(0, len(data), self.payload)] or [b""]
        mode, _, odd = mode.partition("+")
        if odd == "tail":           # some programs leave an empty last sector
            if chunks != [b""]:
                chunks.append(b"")
        elif odd == "short":        # files appended to: sectors that are not full, or empty, in the middle
            chunks, k = [], 0
            while k < len(data):
                m = self.payload if rng.random() < .7 else rng.randrange(0, self.payload)
                chunks.append(data[k:k + m])
                k += m
            chunks = chunks or [b""]
        n = len(chunks)
        if len(free) < n:
            return False
        slot = None
        for i in range(self.nslots):
            if not self.live(self.slot(i)):
                slot = i
                break
        if slot is None:
            return False
        if flag & 0xdf == 0x03:
            free.sort(reverse=True)
        secs = pick(rng, free, n, mode)
        for k, s in enumerate(secs):
            nxt = secs[k + 1] if k + 1 < n else 0
            c = chunks[k]
            b = bytearray(c + bytes(self.ss - len(c)))
            b[-3] = (0 if flag & 4 else slot << 2) | (nxt >> 8)
            b[-2] = nxt & 0xff
            b[-1] = len(c)
            self.setsec(s, b)
            self.setfree(s, False)
        a, _, e = name.partition(".")
        self.setslot(slot, struct.pack("<BHH", flag, n, secs[0]) + a.encode("latin1").ljust(8) + e.encode("latin1").ljust(3))
        self.setcounts()
        return True

    def delete(self, name, flag=0x80):
        for i, n, raw in self.entries():
            if n == name:
                secs, _ = self.chain(i, raw)
                for s in secs:
                    self.setfree(s, True)
                self.setslot(i, bytes([flag]) + (raw[1:] if sum(raw) % 3 else b"\0\0" + raw[3:]))
                self.setcounts()
                return True
        return False

    def rename(self, old, new):
        for i, n, raw in self.entries():
            if n == old:
                a, _, e = new.partition(".")
                self.setslot(i, raw[:5] + a.encode("latin1").ljust(8) + e.encode("latin1").ljust(3))
                return True
        return False

    # areas nothing but the structures themselves may change
    def sysbytes(self):
        """bytes outside data sectors that no file operation may change, as {label: bytes}"""
        v = self.sec(360)
        r = {"header": bytes(self.img[:self.hdr]), "boot": b"".join(bytes(self.sec(s)) for s in (1, 2, 3)),
             "vtoc head": bytes(v[0:3]), "vtoc rest": bytes(v[5:10]) + bytes(v[100:])}
        if self.density == "ed":
            r["vtoc2 rest"] = bytes(self.sec(1024)[124:])
            for s in list(range(1025, 1041)):
                r["sector %d" % s] = bytes(self.sec(s))
        if self.density in ("sd", "ed", "dd"):
            r["sector 720"] = bytes(self.sec(720))
        if self.density == "dd":
            r["directory slack"] = b"".join(bytes(self.sec(361 + k)[128:]) for k in range(8))
        return r

    def dust(self, rng):
        """Random bytes wherever no DOS looks."""
        def put(s, a, b=None):
            p, n = self.pos(s)
            for k in range(a, n if b is None else b):
                self.img[p + k] = rng.randrange(256)
        put(360, 5, 10)
        put(360, 100)
        put(720, 0)
        if self.density == "ed":
            put(1024, 124)
            for s in range(1025, 1041):
                put(s, 0)
        if self.density == "dd":
            for k in range(8):
                put(361 + k, 128)

    def datasectors(self):
        return [s for s in range(4, self.hi) if s not in self.reserved and s != 720]


def pick(rng, free, n, mode):
    if mode == "first":
        return free[:n]
    if mode == "scatter":
        r = list(free)
        rng.shuffle(r)
        return r[:n]
    if mode == "stride":
        r = free[::2] + free[1::2]
        return r[:n]
    k = rng.randrange(max(1, len(free) - n + 1))
    return free[k:k + n]


# ---------------------------------------------------------------- Apple DOS 3.3

class Dos33:
    kind = "dos33"
    density = "dos33"
    payload = 256
    hdr = 0
    ss = 256
    types = {0: "T", 1: "I", 2: "A", 4: "B", 8: "S", 0x10: "R", 0x20: "a", 0x40: "b"}

    def __init__(self, img):
        self.img = bytearray(img)
        if len(img) != 143360:
            raise Bad("not a DOS 3.3 image size")
        v = self.sec(17 * 16)
        self.cat = []
        t, s = v[1], v[2]
        while t:
            n = t * 16 + s
            if n in self.cat or n >= 560:
                raise Bad("catalog chain")
            self.cat.append(n)
            b = self.sec(n)
            t, s = b[1], b[2]
        self.nslots = 7 * len(self.cat)

    def pos(self, s):
        if not 0 <= s < 560:
            raise Bad("sector %d" % s)
        return s * 256, 256

    def sec(self, s):
        if not 0 <= s < 560:
            raise Bad("sector %d" % s)
        return self.img[s * 256:s * 256 + 256]

    def setsec(self, s, data):
        assert len(data) == 256
        self.img[s * 256:s * 256 + 256] = data

    def _fb(self, s):
        t, k = divmod(s, 16)
        p = 17 * 4096 + 0x38 + 4 * t
        return (p, 1 << (k - 8)) if k >= 8 else (p + 1, 1 << k)

    def freemap(self):
        r = set()
        for s in range(560):
            p, m = self._fb(s)
            if self.img[p] & m:
                r.add(s)
        return r

    def setfree(self, s, on):
        p, m = self._fb(s)
        self.img[p] = self.img[p] | m if on else self.img[p] & ~m & 0xff

    def slotpos(self, i):
        return self.cat[i // 7] * 256 + 0x0b + (i % 7) * 0x23

    def slot(self, i):
        p = self.slotpos(i)
        return bytes(self.img[p:p + 0x23])

    def setslot(self, i, raw):
        p = self.slotpos(i)
        self.img[p:p + 0x23] = raw

    @staticmethod
    def live(raw):
        return raw[0] not in (0, 0xff)

    @staticmethod
    def slotname(raw):
        return bytes((c - 0x80) & 0xff for c in raw[3:0x21]).decode("latin1").rstrip(" ")

    def entries(self):
        r = []
        for i in range(self.nslots):
            raw = self.slot(i)
            if raw[0] == 0:
                break
            if self.live(raw):
                r.append((i, self.slotname(raw), raw))
        return r

    def chain(self, i, raw):
        """(ts sectors, data sectors, data). The track/sector list decides; zero pairs after the last one end the file."""
        t, s = raw[0], raw[1]
        ts, data = [], []
        while True:
            n = t * 16 + s
            if t == 0 or n >= 560 or s >= 16:
                raise Bad("track/sector list at %d,%d" % (t, s))
            if n in ts:
                raise Bad("track/sector list loops")
            ts.append(n)
            b = self.sec(n)
            for k in range(0x0c, 0x100, 2):
                data.append((b[k], b[k + 1]))
            t, s = b[1], b[2]
            if t == 0:
                break
        while data and data[-1] == (0, 0):
            data.pop()
        secs = []
        for t, s in data:
            n = t * 16 + s
            if t == 0 or n >= 560 or s >= 16:
                raise Bad("data sector %d,%d" % (t, s))
            secs.append(n)
        return ts, secs, b"".join(bytes(self.sec(n)) for n in secs)

    def files(self):
        r = []
        for i, name, raw in self.entries():
            ts, secs, data = self.chain(i, raw)
            r.append(dict(slot=i, name=name, raw=raw, sectors=ts + secs, data=data, locked=bool(raw[2] & 0x80),
                          type=self.types.get(raw[2] & 0x7f, "?"), count=raw[0x21] + 256 * raw[0x22], nts=len(ts)))
        return r

    def read(self, name):
        for i, n, raw in self.entries():
            if n == name:
                return self.chain(i, raw)[2]
        raise Bad("no file %s" % name)

    def freeslots(self):
        return sum(1 for i in range(self.nslots) if not self.live(self.slot(i)))

    def need(self, n):
        d = max(1, -(-n // 256))
        return d + -(-d // 122)

    def stored(self, data):
        n = max(1, -(-len(data) // 256)) * 256
        return data + bytes(n - len(data))

    @property
    def reserved(self):
        return frozenset([17 * 16] + self.cat)

    def fsck(self):
        pr = []
        free = self.freemap()
        owner = {}
        end = False
        names = {}
        for i in range(self.nslots):
            raw = self.slot(i)
            if raw[0] == 0:
                end = True
            elif end and self.live(raw):
                pr.append("live entry %d after the end of the catalog" % i)
        for i, name, raw in self.entries():
            if name in names:
                pr.append("two live entries named %s" % name)
            names[name] = i
            try:
                ts, secs, data = self.chain(i, raw)
            except Bad as e:
                pr.append("file %s (entry %d): %s" % (name, i, e))
                continue
            if len(ts) + len(secs) != raw[0x21] + 256 * raw[0x22]:
                pr.append("file %s: catalog says %d sectors, lists have %d" % (name, raw[0x21] + 256 * raw[0x22], len(ts) + len(secs)))
            for s in ts + secs:
                if s in self.reserved:
                    pr.append("file %s uses reserved sector %d" % (name, s))
                if s in owner:
                    pr.append("sector %d shared by %s and %s" % (s, owner[s], name))
                owner[s] = name
                if s in free:
                    pr.append("file %s uses sector %d which is marked free" % (name, s))
        for s in sorted(self.reserved & free):
            pr.append("reserved sector %d marked free" % s)
        lost = set(s for s in range(560) if s not in free and s not in owner and s not in self.reserved)
        return pr, lost

    def add_file(self, rng, name, data, mode, flag=0x04):
        free = sorted(self.freemap() - set(range(16)))
        need = self.need(len(data))
        if len(free) < need:
            return False
        slot = None
        for i in range(self.nslots):
            if not self.live(self.slot(i)):
                slot = i
                break
        if slot is None:
            return False
        data = self.stored(data)
        nd = len(data) // 256
        secs = pick(rng, free, need, mode)
        nts = need - nd
        if rng.random() < .5:
            ts, ds = secs[:nts], secs[nts:]
        else:
            ds, ts = secs[:nd], secs[nd:]
        for s in secs:
            self.setfree(s, False)
        for k, s in enumerate(ds):
            self.setsec(s, data[k * 256:k * 256 + 256])
        for k, s in enumerate(ts):
            b = bytearray(256)
            if k + 1 < nts:
                b[1], b[2] = divmod(ts[k + 1], 16)
            b[5:7] = struct.pack("<H", k * 122)
            for j, d in enumerate(ds[k * 122:(k + 1) * 122]):
                b[12 + 2 * j], b[13 + 2 * j] = divmod(d, 16)
            self.setsec(s, b)
        t, s = divmod(ts[0], 16)
        nm = bytes((ord(c) + 0x80) & 0xff for c in name).ljust(30, b"\xa0")
        self.setslot(slot, bytes([t, s, flag]) + nm + struct.pack("<H", need))
        return True

    def delete(self, name, flag=None):
        for i, n, raw in self.entries():
            if n == name:
                ts, secs, _ = self.chain(i, raw)
                for s in ts + secs:
                    self.setfree(s, True)
                # (some programs clear the length as well)
                self.setslot(i, b"\xff" + raw[1:0x20] + raw[0:1] + (raw[0x21:] if sum(raw) % 3 else b"\0\0"))
                return True
        return False

    def rename(self, old, new):
        for i, n, raw in self.entries():
            if n == old:
                nm = bytes((ord(c) + 0x80) & 0xff for c in new).ljust(30, b"\xa0")
                self.setslot(i, raw[:3] + nm + raw[0x21:])
                return True
        return False

    def sysbytes(self):
        v = self.sec(17 * 16)
        r = {"vtoc head": bytes(v[:0x30]), "vtoc geometry": bytes(v[0x34:0x38]),
             "vtoc tail": bytes(v[0x38 + 35 * 4:]), "vtoc unused": bytes(v[0x32:0x34]) + bytes(v[0x38 + 4 * t + j] for t in range(35) for j in (2, 3))}
        for k, c in enumerate(self.cat):
            b = self.sec(c)
            r["catalog sector %d link" % k] = bytes(b[:0x0b])
        return r

    def dust(self, rng):
        """Random bytes wherever no DOS looks."""
        p = 17 * 16 * 256
        for k in [0, 4, 5] + list(range(7, 0x27)) + list(range(0x28, 0x30)) + [0x32, 0x33] + [0x38 + 4 * t + j for t in range(35) for j in (2, 3)]:
            self.img[p + k] = rng.randrange(256)
        for c in self.cat:
            for k in [0] + list(range(3, 0x0b)):
                self.img[c * 256 + k] = rng.randrange(256)

    def datasectors(self):
        return [s for s in range(560) if s not in self.reserved]


def open_disk(img):
    return Dos33(img) if len(img) == 143360 else Atari(img)


def names_ok(d):
    return all(n for _, n, _ in d.entries())


# ---------------------------------------------------------------- SpartaDOS

class Sparta:
    """SpartaDOS 2.x file system (read by atrcopy, never written by it)."""
    kind = "sparta"

    def __init__(self, img):
        self.img = img = bytearray(img)
        self.hdr = 16 if img[0] == 0x96 and img[1] == 0x02 else 0
        body = len(img) - self.hdr
        self.density = {92160: "sd", 183936: "dd"}.get(body)
        if self.density is None:
            raise Bad("size %d" % len(img))
        self.ss = 256 if self.density == "dd" else 128
        self.nsec = 720
        b = self.sec(1)
        self.root, self.total = b[9] + 256 * b[10], b[11] + 256 * b[12]
        self.nbitmap, self.bitmap = b[15], b[16] + 256 * b[17]
        if b[32] not in (0x11, 0x20, 0x21) or self.total != self.nsec:
            raise Bad("no SpartaDOS boot sector")

    def pos(self, s):
        if not 1 <= s <= self.nsec:
            raise Bad("sector %d" % s)
        if self.density == "dd":
            if s <= 3:
                return self.hdr + (s - 1) * 128, 128
            return self.hdr + 384 + (s - 4) * 256, 256
        return self.hdr + (s - 1) * 128, 128

    def sec(self, s):
        p, n = self.pos(s)
        return self.img[p:p + n]

    def setsec(self, s, data):
        p, n = self.pos(s)
        assert len(data) == n
        self.img[p:p + n] = data

    def freemap(self):
        b = b"".join(bytes(self.sec(self.bitmap + i)) for i in range(self.nbitmap))
        return set(i for i in range(1, self.nsec + 1) if i // 8 < len(b) and b[i // 8] & (0x80 >> (i % 8)))

    def setfree(self, s, on):
        p, _ = self.pos(self.bitmap + s // 8 // self.ss)
        i = p + s // 8 % self.ss
        m = 0x80 >> (s % 8)
        self.img[i] = self.img[i] | m if on else self.img[i] & ~m & 0xff

    def setcounts(self):
        p, _ = self.pos(1)
        self.img[p + 13:p + 15] = struct.pack("<H", len(self.freemap()))

    def mapped(self, start):
        """(map sectors, data sectors) of a sector map"""
        maps, data = [], []
        while start:
            if start in maps:
                raise Bad("sector map loops")
            maps.append(start)
            s = self.sec(start)
            data += struct.unpack("<%dH" % ((self.ss - 4) // 2), bytes(s[4:]))
            start = s[0] + 256 * s[1]
        while data and data[-1] == 0:
            data.pop()
        return maps, data

    def rootdata(self):
        maps, data = self.mapped(self.root)
        b = b"".join(bytes(self.sec(s)) for s in data)
        return b[:b[3] + 256 * b[4]]

    def entries(self):
        b = self.rootdata()
        for k, i in enumerate(range(23, len(b) - 22, 23)):
            e = b[i:i + 23]
            if e[0] & 8:
                a, x = e[6:14].rstrip(b" ").decode("latin1"), e[14:17].rstrip(b" ").decode("latin1")
                yield k + 1, a + ("." + x if x else ""), e

    def files(self):
        r = []
        for slot, name, e in self.entries():
            n = e[3] + 256 * e[4] + 65536 * e[5]
            maps, data = self.mapped(e[1] + 256 * e[2])
            if 0 in data:
                raise Bad("hole")
            r.append(dict(slot=slot, name=name, raw=e, len=n, maps=maps, sectors=data, locked=bool(e[0] & 1), isdir=bool(e[0] & 0x20),
                          data=b"".join(bytes(self.sec(s)) for s in data)[:n]))
        return r

    def need(self, n):
        d = -(-n // self.ss)
        return d + max(1, -(-d // ((self.ss - 4) // 2)))

    def _write(self, sectors, data, mapsectors):
        """Write contents and its sector map."""
        for i, s in enumerate(sectors):
            c = data[i * self.ss:(i + 1) * self.ss]
            self.setsec(s, c + bytes(self.ss - len(c)))
        per = (self.ss - 4) // 2
        for i, m in enumerate(mapsectors):
            nxt = mapsectors[i + 1] if i + 1 < len(mapsectors) else 0
            prv = mapsectors[i - 1] if i else 0
            part = list(sectors[i * per:(i + 1) * per])
            self.setsec(m, struct.pack("<HH", nxt, prv) + struct.pack("<%dH" % per, *(part + [0] * (per - len(part)))))

    def add_file(self, rng, name, data, mode, flag=8):
        free = sorted(self.freemap())
        d = -(-len(data) // self.ss)
        k = max(1, -(-d // ((self.ss - 4) // 2)))
        rb = self.rootdata()
        maps, dsec = self.mapped(self.root)
        grow = -(-(len(rb) + 23) // self.ss) - len(dsec)
        if d + k + max(grow, 0) > len(free) or (len(dsec) + max(grow, 0)) > (self.ss - 4) // 2:
            return False
        got = pick(rng, free, d + k + max(grow, 0), mode)
        for s in got:
            self.setfree(s, False)
        extra = got[:max(grow, 0)]
        got = got[max(grow, 0):]
        ms, ds = got[:k], got[k:]
        if rng.random() < .5:
            ds, ms = got[:d], got[d:]
        self._write(ds, data, ms)
        a, _, x = name.partition(".")
        e = bytes([flag]) + struct.pack("<H", ms[0]) + struct.pack("<I", len(data))[:3] + (a[:8].ljust(8) + x[:3].ljust(3)).encode("latin1") + bytes([1, 2, 85, 12, 30, 0])
        # reuse a deleted entry or append
        slot = None
        for i in range(23, len(rb) - 22, 23):
            if not rb[i] & 8 and rng.random() < .7:
                slot = i
                break
        rb = bytearray(rb)
        if slot is None:
            rb += e
        else:
            rb[slot:slot + 23] = e
        rb[3:6] = struct.pack("<I", len(rb))[:3]
        self._write(dsec + extra, bytes(rb), maps)
        self.setcounts()
        return True

    def delete(self, name):
        rb = bytearray(self.rootdata())
        for f in self.files():
            if f["name"] == name:
                rb[f["slot"] * 23] = 0x10
                maps, dsec = self.mapped(self.root)
                self._write(dsec, bytes(rb), maps)
                for s in f["maps"] + f["sectors"]:
                    self.setfree(s, True)
                self.setcounts()
                return True
        return False
