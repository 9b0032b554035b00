"""The simulator kernel.

Every simulated atrcopy process is a forked child whose file operations stop at
the LD_PRELOAD gate (shim.c).  The kernel releases one child at a time, so it
alone decides the interleaving; it answers each announced operation with a
verdict (go, fail, short, die, interrupt).  Everything it does is a function of
the plan it is given: no clock, no randomness of its own.
"""
import ctypes
import errno
import gc
import hashlib
import io
import json
import os
import random
import resource
import shutil
import signal
import socket
import stat
import struct
import sys
import tempfile

OPS = {1: "open", 2: "read", 3: "write", 4: "close", 5: "fsync", 6: "trunc", 7: "rename", 8: "unlink",
       9: "mkdir", 10: "rmdir", 11: "link", 12: "symlink", 13: "chmod", 14: "stat", 90: "escape", 100: "done", 101: "dying"}
RESULT_PART, RESULT_END = 200, 201
GO, FAIL, SHORT, DIE_BEFORE, DIE_PART, DIE_AFTER, INT_BEFORE, INT_AFTER, DO_FAIL = range(9)
KIND_NAMES = ["go", "fail", "short", "die_before", "die_part", "die_after", "int_before", "int_after", "do_fail"]
HDR = struct.Struct("=IiQqqiiiiHH")
VER = struct.Struct("=iiq")
MUTATING = {"write", "trunc", "rename", "unlink", "mkdir", "rmdir", "link", "symlink", "chmod"}

CPU_LIMIT = 20          # seconds of CPU; the slowest legitimate command needs well under one
AS_LIMIT = 6 << 30


class HarnessError(Exception):
    pass


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.sim_attach.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p]
    return _lib


class Req:
    __slots__ = ("op", "fd", "ino", "off", "len", "flags", "mode", "path", "path2", "escaped_op")

    def __init__(self, raw):
        op, self.fd, self.ino, self.off, self.len, self.flags, self.mode, ret, err, l1, l2 = HDR.unpack_from(raw)
        self.op = OPS[op]
        b = raw[HDR.size:]
        self.path = os.fsdecode(b[:l1])
        self.path2 = os.fsdecode(b[l1:l1 + l2])
        self.escaped_op = OPS.get(self.flags, "?") if self.op == "escape" else None

    @property
    def is_write_open(self):
        return self.op == "open" and ((self.flags & 3) != os.O_RDONLY or bool(self.flags & (os.O_CREAT | os.O_TRUNC)))

    @property
    def mutates(self):
        """Could change the file system (a write-open may create or truncate)."""
        return self.op in MUTATING or self.is_write_open


class Outcome:
    """How a simulated process ended."""

    def __init__(self):
        self.how = None          # "exit", "killed" (by the plan), "signal", "hang"
        self.code = None
        self.exc = None          # exception class name
        self.exc_msg = ""
        self.family = None       # "atr", "os", "interrupt", "memory", "other"
        self.trace = ""
        self.out = ""
        self.err = ""
        self.value = None        # library functions: returned value

    @property
    def ok(self):
        return self.how == "exit" and self.code == 0 and self.exc is None

    def brief(self):
        if self.how != "exit":
            return self.how
        return "exit %s%s" % (self.code, " %s: %s" % (self.exc, self.exc_msg) if self.exc else "")


class SeededUrandom:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def __call__(self, n):
        return bytes(self.r.getrandbits(8) for _ in range(n))


def seed_process(seed):
    """Every source of randomness a child could use becomes a function of the seed."""
    random.seed(seed)
    os.urandom = SeededUrandom(seed)
    tempfile._name_sequence = None
    rng = random.Random(seed ^ 0x5eed)
    tempfile._RandomNameSequence.rng = property(lambda self: rng)
    import uuid
    uuid.os = os


def classify(e):
    from atrcopy import errors
    if isinstance(e, errors.AtrError):
        return "atr"
    if isinstance(e, KeyboardInterrupt):
        return "interrupt"
    if isinstance(e, MemoryError):
        return "memory"
    if isinstance(e, OSError):
        return "os"
    return "other"


def cli(argv):
    """Run the atrcopy command line in this process; returns (code, exception or None)."""
    import atrcopy
    sys.argv = ["atrcopy"] + list(argv)
    try:
        atrcopy.run()
    except SystemExit as e:
        c = e.code
        return (0 if c is None else c if isinstance(c, int) else 1), None
    except BaseException as e:
        return (130 if isinstance(e, KeyboardInterrupt) else 1), e
    return 0, None


class Proc:
    """One simulated process."""
    counter = 0

    def __init__(self, world, name, fn, cwd, seed=0, gated=True, cpu=CPU_LIMIT, stats=False):
        self.world, self.name, self.gated, self.stats = world, name, gated, stats
        self.req = None
        self.nops = 0
        self.outcome = None
        self.parts = []
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                self._child(b, fn, cwd, seed, cpu)
            finally:
                os._exit(97)
        b.close()
        self.sock, self.pid = a, pid
        self.plan_kill = False

    def _child(self, sock, fn, cwd, seed, cpu):
        signal.signal(signal.SIGINT, signal.default_int_handler)
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.chdir(cwd)
        seed_process(seed)
        out, err = io.StringIO(), io.StringIO()
        sys.stdout, sys.stderr = out, err
        devnull = os.open("/dev/null", os.O_RDONLY)
        os.dup2(devnull, 0)
        res = dict(code=0, exc=None, exc_msg="", family=None, trace="", value=None)
        L = lib()
        if self.gated:
            if L.sim_attach(sock.fileno(), os.fsencode(self.world.root), os.fsencode(self.world.aux)) != 0:
                os._exit(96)
            L.sim_gate_stat(int(self.stats))
        try:
            e = None
            if COV:
                cover_start()
            try:
                if isinstance(fn, (list, tuple)):
                    res["code"], e = cli(fn)
                else:
                    res["value"] = fn()
            except BaseException as ex:
                res["code"] = 1
                e = ex
            if e is not None:
                res.update(exc=type(e).__name__, exc_msg=str(e)[:300], family=classify(e))
                import traceback
                res["trace"] = "".join(traceback.format_tb(e.__traceback__)[-4:])[:1500]
                e.__traceback__ = None
            if self.gated and L.sim_open_count() > 0:
                gc.collect(); gc.collect()      # unclosed files are flushed at interpreter exit
        except KeyboardInterrupt as ex:         # a pending interrupt delivered late
            res.update(code=130, exc="KeyboardInterrupt", family="interrupt")
        L.sim_detach()
        if COV:
            cover_end()
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        res["out"], res["err"] = out.getvalue(), err.getvalue()
        raw = json.dumps(res).encode()
        for i in range(0, max(len(raw), 1), 30000):
            sock.send(HDR.pack(RESULT_PART, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0) + raw[i:i + 30000])
        sock.send(HDR.pack(RESULT_END, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0))
        os._exit(0)

    # -- parent side
    def _recv(self):
        return self.sock.recv(65536)

    def _reap(self):
        _, st, ru = os.wait4(self.pid, 0)
        self.maxrss = ru.ru_maxrss
        self.sock.close()
        return st

    def wait_request(self):
        """Run the child until its next announced operation or its end."""
        while True:
            raw = self._recv()
            if not raw:
                st = self._reap()
                o = self.outcome = Outcome()
                if self.plan_kill:
                    o.how = "killed"
                elif os.WIFSIGNALED(st):
                    sig = os.WTERMSIG(st)
                    o.how = "hang" if sig in (signal.SIGXCPU, signal.SIGKILL) else "signal"
                    o.code = -sig
                else:
                    raise HarnessError("child %s vanished, status %r" % (self.name, st))
                return None
            op = HDR.unpack_from(raw)[0]
            if op == RESULT_PART:
                self.parts.append(raw[HDR.size:])
                continue
            if op == RESULT_END:
                self._reap()
                d = json.loads(b"".join(self.parts))
                o = self.outcome = Outcome()
                o.how = "exit"
                for k, v in d.items():
                    setattr(o, k, v)
                return None
            if OPS.get(op) in ("done", "dying"):
                raise HarnessError("unexpected %s" % OPS[op])
            self.req = Req(raw)
            if self.req.op != "escape":
                self.nops += 1
            return self.req

    def answer(self, kind=GO, err=0, n=0):
        """Give the verdict for the pending request, collect its completion. Returns (ret, errno)."""
        req = self.req
        if kind in (DIE_BEFORE, DIE_PART, DIE_AFTER):
            self.plan_kill = True
        self.sock.send(VER.pack(kind, err, n))
        raw = self._recv()
        if not raw:
            if self.plan_kill:
                return None, None
            raise HarnessError("child %s died inside %s" % (self.name, req.op))
        u = HDR.unpack_from(raw)
        op, ret, er = OPS.get(u[0]), u[7], u[8]
        if op not in ("done", "dying"):
            raise HarnessError("expected completion, got %r" % (u[0],))
        if op == "dying" and not self.plan_kill:
            raise HarnessError("unplanned death")
        if kind == DIE_BEFORE:
            ret, er = None, None
        return ret, er

    def bury(self):
        """Let a process that announced its planned death go."""
        self.sock.send(VER.pack(0, 0, 0))

    def kill(self):
        if self.outcome is None:
            os.kill(self.pid, signal.SIGKILL)
            self._reap()
            self.outcome = Outcome()
            self.outcome.how = "killed"


class Inode:
    def __init__(self, durable=b""):
        self.durable = durable
        self.pend = []          # ("w", off, data) / ("t", size)


def apply_pend(base, pend):
    b = bytearray(base)
    for p in pend:
        if p[0] == "t":
            del b[p[1]:]
            if len(b) < p[1]:
                b.extend(bytes(p[1] - len(b)))
        else:
            _, off, data = p
            if len(b) < off:
                b.extend(bytes(off - len(b)))
            b[off:off + len(data)] = data
    return bytes(b)


class Durable:
    """What a power loss may leave: metadata operations survive as an ordered prefix of their log, data of
    un-synced inodes as any prefix of their writes, the last one torn, optionally as zeros."""

    def __init__(self, root):
        self.root = root
        self.inodes = {}        # our own number -> Inode (None: directory); the file system may reuse its numbers
        self.ids = {}           # number in the file system -> our own
        self.names = {}         # durable names: path -> our number, or link target
        self.dirs = set()
        self.log = []           # directory operations not yet durable
        for d, ds, fs in os.walk(root):
            ds.sort()
            for x in ds:
                self.dirs.add(os.path.join(d, x))
            for x in sorted(fs):
                p = os.path.join(d, x)
                st = os.lstat(p)
                if stat.S_ISLNK(st.st_mode):
                    self.names[p] = os.readlink(p)
                if not stat.S_ISREG(st.st_mode):
                    continue
                if st.st_ino not in self.ids:
                    with open(p, "rb") as fh:
                        self._new(st.st_ino, Inode(fh.read()))
                self.names[p] = self.ids[st.st_ino]
        self.cur = dict(self.names)
        self.curdirs = set(self.dirs)

    def _new(self, real, inode):
        k = self.ids[real] = len(self.inodes)
        self.inodes[k] = inode
        return k

    def _meta(self, *entry):
        self.log.append(entry)
        self._apply(self.cur, self.curdirs, entry)

    def _of(self, real):
        k = self.ids.get(real)
        return None if k is None else self.inodes[k]

    def note(self, proc, req, ret):
        """Record a completed operation."""
        if ret is None or ret < 0:
            return
        op = req.op
        if req.path and not req.path.startswith(self.root + "/"):
            return              # read-only files elsewhere (templates)
        if op == "open":
            st = os.stat("/proc/%d/fd/%d" % (proc.pid, ret))
            if not stat.S_ISREG(st.st_mode):
                return
            if req.path not in self.cur:
                self._meta("create", req.path, self._new(st.st_ino, Inode()))
            elif req.flags & os.O_TRUNC:
                self._of(st.st_ino).pend.append(("t", 0))
        elif op == "write":
            ino = self._of(req.ino)
            if ino is not None:
                with open("/proc/%d/fd/%d" % (proc.pid, req.fd), "rb") as fh:
                    fh.seek(req.off)
                    ino.pend.append(("w", req.off, fh.read(ret)))
        elif op == "trunc":
            ino = self._of(os.stat(req.path).st_ino if req.path else req.ino)
            if ino is not None:
                ino.pend.append(("t", req.len))
        elif op == "fsync":
            ino = self._of(req.ino)
            if ino is None:
                self.commit_meta(len(self.log))
            else:
                ino.durable = apply_pend(ino.durable, ino.pend)
                ino.pend = []
        elif op in ("rename", "link"):
            self._meta(op, req.path, req.path2)
        elif op in ("unlink", "mkdir", "rmdir"):
            self._meta(op, req.path)
        elif op == "symlink":
            self._meta(op, req.path, os.readlink(req.path))

    @staticmethod
    def _apply(names, dirs, entry):
        """names: path -> inode number, or link target for a symbolic link"""
        k = entry[0]
        if k in ("create", "symlink"):
            names[entry[1]] = entry[2]
        elif k == "rename":
            if entry[1] in names:
                names[entry[2]] = names.pop(entry[1])
            elif entry[1] in dirs:
                old, new = entry[1] + "/", entry[2] + "/"
                dirs.discard(entry[1])
                dirs.add(entry[2])
                for x in [x for x in names if x.startswith(old)]:
                    names[new + x[len(old):]] = names.pop(x)
        elif k == "link":
            if entry[1] in names:
                names[entry[2]] = names[entry[1]]
        elif k == "unlink":
            names.pop(entry[1], None)
        elif k == "mkdir":
            dirs.add(entry[1])
        elif k == "rmdir":
            dirs.discard(entry[1])

    def commit_meta(self, n):
        for e in self.log[:n]:
            self._apply(self.names, self.dirs, e)
        del self.log[:n]

    def cut(self, rng):
        """The tree after a power loss, as for World.restore; and a short description."""
        names, dirs = dict(self.names), set(self.dirs)
        m = len(self.log) if rng.random() < .6 else rng.randint(0, len(self.log))
        for e in self.log[:m]:
            self._apply(names, dirs, e)
        desc = ["meta %d/%d" % (m, len(self.log))]
        content = {}
        for i in sorted(self.inodes):
            ino = self.inodes[i]
            if ino is None:
                continue
            pend = list(ino.pend)
            if pend:
                mode = rng.choice(["none", "all", "prefix", "torn", "zeros"])
                if mode == "none":
                    pend = []
                elif mode == "prefix":
                    pend = pend[:rng.randint(0, len(pend))]
                elif mode == "torn":
                    pend = pend[:rng.randint(1, len(pend))]
                    if pend[-1][0] == "w":
                        _, off, data = pend[-1]
                        pend[-1] = ("w", off, data[:rng.randint(0, len(data))])
                elif mode == "zeros":
                    pend = [("w", p[1], bytes(len(p[2]))) if p[0] == "w" else p for p in pend]
                desc.append("inode %s" % mode)
            content[i] = apply_pend(ino.durable, pend)
        rel = lambda p: os.path.relpath(p, self.root)
        tree = {rel(p): None for p in dirs}
        for p, i in names.items():
            if isinstance(i, str):
                tree[rel(p)] = ("->", i)
            elif i in content:
                tree[rel(p)] = content[i]
        return tree, desc


COV = os.environ.get("ATRSIM_COV")      # a directory: lines of the code under test run by commands (tools/coverage.py)
_lines = set()


def cover_start():
    def tr(fr, ev, arg):
        f = fr.f_code.co_filename
        if "/atrcopy/" not in f:
            return None

        def loc(fr, ev, arg):
            _lines.add((f, fr.f_lineno))
            return loc
        _lines.add((f, fr.f_lineno))
        return loc
    sys.settrace(tr)


def cover_end():
    sys.settrace(None)
    with open(os.path.join(COV, str(os.getpid())), "a") as fh:
        for f, n in sorted(_lines):
            fh.write("%s:%d\n" % (os.path.basename(f), n))


class Fault:
    """kind: a verdict; at: index (0-based) of the operation of the process it hits, counted over `sel`."""

    def __init__(self, at, kind, err=0, n=0, sticky=False):
        self.at, self.kind, self.err, self.n, self.sticky = at, kind, err, n, sticky


def scratch_base():
    return "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()


class World:
    """A scratch tree plus the history of everything done in it."""

    def __init__(self, aux=""):
        base = os.environ.get("ATRSIM_BASE") or scratch_base()
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="atrsim.", dir=base))
        self.aux = aux
        self.events = []
        self.fired = {}
        self.durable = None
        self.nproc = 0
        self.alias = {}
        self.steps = 0
        self.escapes = []
        self.surprises = []     # failures the simulator did not order

    def close(self):
        if os.path.basename(self.root).startswith("atrsim."):
            shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def path(self, *a):
        p = os.path.normpath(os.path.join(self.root, *a))
        if p != self.root and not p.startswith(self.root + "/"):
            raise HarnessError("path outside the scratch tree: %s" % p)
        return p

    def put(self, rel, data):
        p = self.path(rel)
        if not os.path.realpath(p).startswith(self.root + "/"):
            raise HarnessError("path leads outside the scratch tree: %s" % p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fh:
            fh.write(data)
        return p

    def get(self, rel):
        try:
            with open(self.path(rel), "rb") as fh:
                return fh.read()
        except FileNotFoundError:
            return None
        except IsADirectoryError:
            return None

    def tree(self, sub=""):
        """{relative path: bytes or None for a directory}"""
        r = {}
        top = self.path(sub) if sub else self.root
        for d, ds, fs in os.walk(top):
            for x in ds:
                r[os.path.relpath(os.path.join(d, x), self.root)] = None
            for x in fs:
                p = os.path.join(d, x)
                if os.path.islink(p):
                    r[os.path.relpath(p, self.root)] = ("->", os.readlink(p))
                    continue
                with open(p, "rb") as fh:
                    r[os.path.relpath(p, self.root)] = fh.read()
        return r

    def restore(self, tree):
        for x in sorted(os.listdir(self.root)):
            p = os.path.join(self.root, x)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        for rel, data in sorted(tree.items()):
            p = self.path(rel)
            if data is None:
                os.makedirs(p, exist_ok=True)
            elif isinstance(data, tuple):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                os.symlink(data[1], p)
            else:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as fh:
                    fh.write(data)

    def _norm(self, p):
        if not p:
            return ""
        r = os.path.relpath(p, self.root) if p.startswith(self.root) else p
        if r.startswith(("img", "host", "out", "d/")):
            base = r
            if "tmp" not in base and "~" not in base:
                return r
        return self.alias.setdefault(r, "#%d" % len(self.alias))

    def spawn(self, fn, cwd="", name=None, gated=True, seed=1, cpu=CPU_LIMIT, rawseed=None, stats=False):
        self.nproc += 1
        p = Proc(self, name or "p%d" % self.nproc, fn, self.path(cwd) if cwd else self.root,
                 seed * 1000003 + self.nproc if rawseed is None else rawseed, gated, cpu, stats)
        p.wait_request()
        return p

    def step(self, p, kind=GO, err=0, n=0):
        """Let process p perform its pending operation under a verdict, then run on to its next one."""
        req = p.req
        esc = req.op == "escape"
        if esc:
            self.escapes.append((req.escaped_op, req.path, req.path2))
            kind = GO
        if kind == DO_FAIL and req.op not in ("close", "fsync", "write", "rename"):
            kind = FAIL
        ret, er = p.answer(kind, err, n)
        self.steps += 1
        if kind == GO and not esc and er and er not in (errno.ENOENT, errno.EEXIST, errno.ENOTDIR, errno.EISDIR, errno.ENOTEMPTY):
            sys.stderr.write("UNEXPECTED %s %s %s %s\n" % (req.op, req.path, ret, errno.errorcode.get(er, er)))
            self.surprises.append((req.op, errno.errorcode.get(er, er)))
        if kind != GO:
            k = KIND_NAMES[kind] + (":" + errno.errorcode.get(err, str(err)) if err else "")
            self.fired[k + "@" + req.op] = self.fired.get(k + "@" + req.op, 0) + 1
        if self.durable is not None and not esc:
            self.durable.note(p, req, ret)
        if p.plan_kill:
            p.bury()
        self.events.append((p.name, req.op, self._norm(req.path), self._norm(req.path2),
                            req.len if req.op in ("write", "trunc") else 0, kind, err, ret if req.op not in ("open",) else (ret is not None and ret >= 0), er))
        p.wait_request()

    def run(self, fn, cwd="", faults=(), gated=True, seed=1, name=None, cpu=CPU_LIMIT, on_step=None, refuse=None):
        """Run one process alone to its end. faults: list of Fault, `at` counting its operations.
        refuse: {operation: errno} that the file system does not support at all."""
        p = self.spawn(fn, cwd, name, gated, seed, cpu)
        by = {}
        for f in faults:
            by.setdefault(f.at, f)
        i = 0
        stick = {op: Fault(-1, FAIL, e, 0, True) for op, e in (refuse or {}).items()}
        while p.outcome is None:
            if p.req.op == "escape":
                self.step(p)
                continue
            f = by.get(i) or stick.get(p.req.op)
            if f is not None and f.sticky:
                stick[p.req.op] = f
            if on_step is not None:
                on_step(i, p.req)
            if f is None:
                self.step(p)
            else:
                self.step(p, f.kind, f.err, f.n)
            i += 1
        p.outcome.nops = i
        p.outcome.maxrss = p.maxrss
        return p.outcome

    def digest(self):
        return hashlib.sha256(repr(self.events).encode()).hexdigest()[:16]


def trace_ops(world, fn, cwd="", seed=1, refuse=None):
    """Run fault-free and return (outcome, list of requests)."""
    ops = []
    o = world.run(fn, cwd, seed=seed, on_step=lambda i, r: ops.append(r), refuse=refuse)
    return o, ops
