"""Concurrent commands on one image see and leave only complete images."""
import os
import random

from .. import disk, kernel as K, scene, util

QUICK_RUNS, THOROUGH_RUNS = 800, 30000
RULE = ("a run = two to four atrcopy processes (readers and writers) on one image, interleaved at every file operation (also looking at names) by a seeded scheduler (uniform, bursts, priorities with change points, or one held up "
        "at a chosen operation), optionally one killed; non-trivial = a writer committed while another process was between its first and last operation")
STATE_MEASURE = "distinct (commands, versions read, commit order) tuples"
ASSUMPTIONS = ["scheduling points are the file operations; between two of them a process only computes on private memory"]


def gen(rng, tier):
    spec, kind, dens, pool = util.gen_case(rng, maxfiles=5)
    have = util.names_in(spec)
    n = rng.choice([2, 2, 2, 3, 3, 4])
    procs = []
    swap = rng.random() < .25       # the image is replaced by a different one while others look at it
    for i in range(n):
        w = i == 0 or rng.random() < (.2 if swap else .55)
        if w and rng.random() < (.8 if swap else .1):
            # replaced by an image of another size or format
            if rng.random() < .7:
                c = dict(c="create", template=rng.choice(scene.ALL_T), f=1)
            else:
                c = dict(c="boot", data=scene.gen_data(rng), r="", f=1)
        elif w:
            c = scene.gen_write_cmd(rng, kind, dens, pool)
            if c["c"] == "add":
                c["f"] = int(rng.random() < .6)
                for f in c["files"]:
                    if f["len"] > 6000:
                        f["len"] %= 6000
        else:
            k = rng.choice(["list", "crc", "extract", "extract", "vtoc", "list-c"])
            if k == "extract":
                c = dict(c="extract", opts=["-d", "out%d" % i] + (["-a"] if rng.random() < .6 or not have else []))
                c["names"] = [] if "-a" in c["opts"] else rng.sample(have, min(len(have), 2))
            elif k == "list-c":
                c = dict(c="list", opts=["-c"])
            else:
                c = dict(c=k)
        for f in c.get("files", []) + c.get("data", []):
            f["sub"] = "host/p%d" % i
        procs.append(c)
    plan = dict(img=spec, procs=procs, where=rng.choice(["plain", "plain", "plain", "plain", "link", "link", "hard"]), seed=rng.randrange(1 << 30), style=rng.choice(["uniform", "uniform", "burst", "prio", "hold", "lockstep"]),
                sameseed=int(rng.random() < .3))
    if swap:
        plan["hold"] = dict(p=rng.randrange(n), at=rng.choice([rng.randrange(1, 8), rng.randrange(1, 25)]))
        plan["style"] = "hold"
        return plan
    if rng.random() < .25:
        plan["kill"] = dict(p=rng.randrange(n), at=rng.randrange(1, 30), how=rng.choice(util.KILLS), part=rng.randrange(10000))
    return plan


def argv(c, i, rel):
    if c["c"] in ("asm", "boot"):
        a = scene.argv(c, rel)
        return [x.replace("host/seg", "host/p%d/seg" % i) for x in a]
    return scene.argv(c, rel)


def stage(w, c, i):
    for f in c.get("files", []) + c.get("data", []):
        w.put("host/p%d/%s" % (i, f["n"]), scene.content(f["len"], f["s"]))


class Chooser:
    def __init__(self, plan, n):
        self.r = random.Random(plan["seed"])
        self.style = plan["style"]
        self.prio = list(range(n))
        self.r.shuffle(self.prio)
        self.cur = None
        self.held = self.r.randrange(n)
        self.hold_at = self.r.randrange(1, 25)
        if "hold" in plan:
            self.held, self.hold_at = plan["hold"]["p"] % n, plan["hold"]["at"]
        self.change = sorted(self.r.randrange(1, 120) for _ in range(3))
        self.k = 0

    def pick(self, live, nops):
        self.k += 1
        if self.style == "uniform":
            return self.r.choice(live)
        if self.style == "lockstep":
            return live[self.k % len(live)]
        if self.style == "burst":
            if self.cur not in live or self.r.random() < .12:
                self.cur = self.r.choice(live)
            return self.cur
        if self.style == "hold":        # one process stalls at an operation until all others are done
            others = [i for i in live if i != self.held]
            if self.held in live and nops[self.held] < self.hold_at:
                return self.held
            return self.r.choice(others) if others else self.held
        if self.change and self.k >= self.change[0]:
            self.change.pop(0)
            self.r.shuffle(self.prio)
        return min(live, key=lambda i: self.prio[i])


def execute(plan, R):
    w = R.world()
    rel, real = util.place(w, plan)
    n = len(plan["procs"])
    args = []
    for i, c in enumerate(plan["procs"]):
        last = {}
        for f in c.get("files", []):
            last[f["n"]] = f
        for f in c.get("files", []):
            f["len"], f["s"] = last[f["n"]]["len"], last[f["n"]]["s"]
        stage(w, c, i)
        args.append(argv(c, i, rel))
    if not n:
        return
    base = w.tree()
    versions = [w.get(real)]
    alone = {}
    tw = R.world()

    def solo(i, v):
        """What command i does alone on version v: (brief, out, image after, extracted files)"""
        if (i, v) not in alone:
            t = dict(base)
            t[real] = versions[v]
            tw.restore(t)
            o = tw.run(args[i], gated=False)
            alone[i, v] = (o.brief(), o.out, tw.get(real), tw.tree("out%d" % i) if os.path.isdir(tw.path("out%d" % i)) else {})
        return alone[i, v]

    ps = [w.spawn(a, name="p%d" % i, rawseed=77 if plan["sameseed"] else None, stats=True) for i, a in enumerate(args)]
    live = [i for i in range(n) if ps[i].outcome is None]
    ch = Chooser(plan, n)
    start = [0] * n             # index of the version current when the process did its first operation
    begun = [False] * n
    nops = [0] * n
    kill = plan.get("kill")
    commits = []                # (process, version read)
    try:
        while live:
            i = ch.pick(live, nops)
            p = ps[i]
            if not begun[i]:
                begun[i] = True
                start[i] = len(versions) - 1
            req = p.req
            if kill and kill["p"] == i and nops[i] == kill["at"] and req.op != "escape":
                w.step(p, K.KIND_NAMES.index(kill["how"]), 0, req.len * kill["part"] // 10000 if req.op == "write" else 0)
            else:
                w.step(p)
            nops[i] += 1
            if p.outcome is not None:
                live.remove(i)
            if not req.mutates:
                continue
            img = w.get(real)
            if img == versions[-1]:
                continue
            what = "schedule %s: at operation %d of p%d (%s: %s): " % (args, nops[i], i, req.op, os.path.basename(req.path))
            if img is None:
                R.fail("missing", what + "the image is missing")
                return
            src = [v for v in range(start[i], len(versions)) if solo(i, v)[2] == img]
            if not src:
                R.fail("torn", what + "the image is not what any command makes of a complete image (%d bytes)" % len(img))
                return
            commits.append((i, src))
            if any(begun[j] and ps[j].outcome is None for j in range(n) if j != i):
                R.nontrivial = True
            versions.append(img)
            start_now = len(versions) - 1
    finally:
        for p in ps:
            p.kill()
    for i in range(n):
        o = ps[i].outcome
        if o.how == "killed":
            R.probe("killed")
            continue
        what = "p%d %s among %s: " % (i, " ".join(args[i]), [a for k, a in enumerate(args) if k != i])
        if o.how != "exit" or o.family == "other":
            R.fail("failed", what + o.brief() + o.trace)
            return
        outs = w.tree("out%d" % i) if os.path.isdir(w.path("out%d" % i)) else {}
        mine = [s for k, s in commits if k == i]
        cand = mine[0] if mine else list(range(start[i], len(versions)))
        good = []
        for v in cand:
            b, out, img, files = solo(i, v)
            mine_out = o.out
            if plan["procs"][i]["c"] == "create":       # then lists what is there, perhaps already another version
                out, mine_out = (x.split("created ")[0] for x in (out, mine_out))
            if (b, out) == (o.brief(), mine_out) and files == outs and (mine or img == versions[v] or img in versions):
                good.append(v)
                break
        if not good:
            R.fail("view", what + "%s, output %r is not what it gives on any complete image it could have read; alone: %r" % (o.brief(), o.out[-400:], solo(i, cand[0])[:2]))
            return
        R.log(i, o.brief(), good[0])
        if good[0] > start[i]:
            R.probe("read a later version")
    R.state([a[1] for a in args], [(i, s[0]) for i, s in commits])
    if len(commits) > 1:
        R.probe("several commits")
        if commits[-1][1][0] < len(versions) - 2:
            R.probe("overwrote a version it had not read")
    if w.get(real) != versions[-1]:
        R.fail("final", "%s: the final image is not the last committed one" % args)
        return
    bad = util.same_except_litter({k: v for k, v in base.items() if k not in (rel, real, "d/second")}, {k: v for k, v in w.tree().items() if k not in (rel, real, "d/second") and not k.startswith("out")})
    if bad:
        R.fail("collateral", "%s: %s" % (args, bad[:3]))
        return
    if plan["where"] == "link" and not os.path.islink(w.path(rel)):
        R.fail("link", "%s: the symbolic link was replaced" % args)
