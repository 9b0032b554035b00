"""Without -f nothing that already exists is replaced, and locked files stay."""
import errno
import os

from .. import disk, history, kernel as K, scene, util

QUICK_RUNS, THOROUGH_RUNS = 1600, 60000
RULE = ("a run = an image with locked, unlocked and repeated names and a history of add/assemble/delete commands mixing new and existing names with and without -f, or an extract/create "
        "whose target exists, or is created by another process at a seeded file operation; non-trivial = at least one refusal or forced replacement was due")
STATE_MEASURE = "distinct (command, decisions, instant of the racing creation, outcome) tuples"
ASSUMPTIONS = ["the racing process creates its file with one exclusive create and write between two operations of the command"]


def gen(rng, tier):
    mode = rng.choices(["image", "extract", "create", "local"], [12, 10, 4, 1])[0]
    if mode == "image":
        p = history.gen_history(rng, tier, faults=0, maxcmds=4, kinds=["add", "add", "add", "del", "del", "asm"])
        have = util.names_in(p["img"])
        for c in p["cmds"]:
            if c["c"] == "del" and have:
                c.pop("pick", None)
                c["names"] = [rng.choice(have + c["names"]) for _ in range(rng.randrange(1, 5))]
                c["f"] = int(rng.random() < .3)
            if c["c"] == "add" and len(c["files"]) < 4 and rng.random() < .5:
                c["files"].append(dict(c["files"][0], len=rng.randrange(300), s=rng.randrange(1 << 16), sub="host/more"))
            for f in c.get("files", []):
                if "fill" in f and rng.random() < .7:
                    del f["fill"]
                if f["len"] > 4000 and rng.random() < .7:
                    f["len"] %= 4000
    elif mode == "extract":
        bases = rng.choice([scene.ALL_T, scene.ALL_T, scene.SPARTA_T])
        spec = scene.gen_image(rng, bases, maxfiles=6, populate=True)
        have = util.names_in(spec)
        p = dict(img=spec, names=[rng.choice(have) for _ in range(rng.randrange(1, 5))], all=int(rng.random() < .3), f=int(rng.random() < .3), dir=rng.choice(["", "out", "a/b"]),
                 lower=int(rng.random() < .2), there=rng.sample(have, min(len(have), rng.randrange(0, 3))), kinds=[rng.choice(["file", "file", "empty", "ro", "dir", "same"]) for _ in range(3)], text=int(rng.random() < .15))
        if rng.random() < .6:
            p["race"] = [dict(frac=rng.randrange(10000), name=rng.choice(have)) for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < .3:
                p["nolinks"] = 1
                if not p["all"]:
                    for r in p["race"]:
                        r["name"] = rng.choice(p["names"])
        if p["lower"] and rng.random() < .5:
            p["upper"] = rng.sample(have, min(len(have), rng.randrange(1, 3)))
    elif mode == "local":
        ns = ["P.XEX", "Q.BIN", "DATA"]
        p = dict(there=rng.sample(ns, rng.randrange(0, 3)), empty=int(rng.random() < .3), cmds=[])
        for _ in range(rng.randrange(1, 4)):
            if rng.random() < .5:
                p["cmds"].append(dict(c="add", names=rng.sample(ns, rng.randrange(1, 4)), s=rng.randrange(1 << 16), f=int(rng.random() < .3)))
            else:
                p["cmds"].append(dict(c="asm", names=[rng.choice(ns[:2])], s=rng.randrange(1 << 16), f=int(rng.random() < .3)))
    else:
        spec = scene.gen_image(rng, scene.ALL_T, maxfiles=4)
        p = dict(img=spec, template=rng.choice(scene.ALL_T), f=int(rng.random() < .3), where=rng.choice(["plain", "sub", "link"]))
        if rng.random() < .4:
            p["img"] = None
            p["name"] = "img.atr"
            p["where"] = "plain"
            if rng.random() < .7:
                p["race"] = [dict(frac=rng.randrange(10000))]
                if rng.random() < .5:
                    p["nolinks"] = 1
        elif rng.random() < .3:
            p["other"] = rng.choice([1, 2])         # the existing file is no disk image at all
    p["mode"] = mode
    return p


def lines_for(out, name):
    return [l for l in out.splitlines() if name in l]


def run_image(plan, R):
    def on_step(w, rel, s):
        what = "command %d (%s): " % (s.i, " ".join(s.argv))
        if s.after is None:
            R.fail("image", what + "the image is gone or no disk any more")
            return False
        kinds = [d for _, d in s.decisions]
        if "skip" in kinds or "locked" in kinds or (s.cmd.get("f") and "copy" in kinds):
            R.nontrivial = True
        R.state(s.cmd["c"], kinds, bool(s.cmd.get("f")), s.o.ok)
        # names on the disk, straight from the directory: no duplicates, ever
        names = [n for _, n, _ in s.after.d.entries()]
        for n in set(names):
            if names.count(n) > 1:
                R.fail("twice", what + "%r is in the directory %d times" % (n, names.count(n)))
                return False
        if s.after.problems:        # C05 reports those; here: did they come from an entry that had to be left alone?
            if not s.cmd.get("f") and not (s.x and s.hit):
                for n, f in s.before.files.items():
                    if s.cmd["c"] in ("add", "asm") or f["locked"]:
                        if n not in names:
                            R.fail("replaced", what + "%r was removed without -f" % n)
                        for k in f["sectors"]:
                            p, z = s.before.d.pos(k)
                            if s.before.img[p:p + z] != s.after.img[p:p + z] or k in s.after.free and k not in s.before.free:
                                R.fail("replaced", what + "sector %d of %r was %s without -f" % (k, n, "given up" if k in s.after.free else "changed"))
                                break
                        if R.violations:
                            break
            return False
        b, a = s.before.contents(), s.after.contents()
        if s.reject:
            if a != b:
                R.fail("refused", what + "does not fit (%s), but files changed" % s.reject)
                return False
            return True
        if len(s.unpredicted) == 2 and a == b:
            return True
        if not s.o.ok:
            R.fail("failed", what + s.o.brief() + s.o.trace)
            return False
        if not s.cmd.get("f"):
            for n in b:
                if s.cmd["c"] in ("add", "asm") and a.get(n) != b[n]:
                    R.fail("replaced", what + "%r was %s without -f" % (n, "changed" if n in a else "removed"))
                    return False
                if s.before.files[n]["locked"] and a.get(n) != b[n]:
                    R.fail("locked", what + "locked file %r was %s without -f" % (n, "changed" if n in a else "removed"))
                    return False
        want = {n: f["data"] for n, f in s.want.items()}
        for n in s.unpredicted[:1]:
            if n not in a:
                R.fail("missing", what + "%r was not stored" % n)
                return False
            want[n] = a[n]
        if a != want:
            n = [n for n in sorted(set(a) | set(want)) if a.get(n) != want.get(n)][0]
            R.fail("effect", what + "%r %s, decisions %s" % (n, "is missing" if n not in a else "should not be there" if n not in want else "has other contents", s.decisions))
            return False
        for n, dcs in s.decisions:
            if dcs in ("skip", "locked") and not any("skip" in l for l in lines_for(s.o.out, n)):
                R.fail("silent", what + "%r was refused (%s) without a report: %r" % (n, dcs, s.o.out[-300:]))
                return False
        return True
    history.run_history(plan, R, on_step)


def race(R, w, plan, argv, make):
    """Run argv while another process creates files; returns (outcome, {path: data} really created by it)."""
    before = w.tree()
    refuse = {"link": errno.EPERM} if plan.get("nolinks") else None     # a file system without hard links
    t, ops = K.trace_ops(w, argv, refuse=refuse)
    w.restore(before)
    at = {}
    for r in plan.get("race", []):
        at.setdefault(r["frac"] * len(ops) // 10000, []).append(r)
    made = {}

    def peer(i, q):
        if refuse and q.op == "rename" and at.get(i):
            at.setdefault(i + 1, []).extend(at.pop(i))      # nothing there can exclude a creation between the last look and the rename
        for r in at.get(i, ()):
            p = make(r)
            full = w.path(p)
            if os.path.lexists(full):
                continue
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "xb") as fh:
                fh.write(b"made by another process")
            made[os.path.normpath(p)] = b"made by another process"
            R.probe("racing creation")
            R.state(argv[1], q.op, i)
    o = w.run(argv, on_step=peer, refuse=refuse)
    return o, made


def run_extract(plan, R):
    w = R.world()
    rel, real = util.place(w, plan)
    d = scene.open_disk(plan["img"], w.get(real))
    data = {}
    for f in d.files():
        if not f.get("isdir"):
            data.setdefault(f["name"], f["data"])
    host = lambda n: os.path.join(plan["dir"], n.lower() if plan["lower"] else n)
    for n, kind in zip(plan["there"], plan["kinds"]):
        if kind == "dir":
            if not plan["f"] and not os.path.lexists(w.path(host(n))):
                os.makedirs(w.path(host(n)))
            continue
        if os.path.isdir(w.path(host(n))):
            continue
        w.put(host(n), b"" if kind == "empty" else data.get(n, b"x")[:-1] if kind == "same" else b"already here")
        if kind == "ro" and not plan["f"]:
            os.chmod(w.path(host(n)), 0o444)
    for n in plan.get("upper", []):
        h = os.path.join(plan["dir"], n)
        if not os.path.lexists(w.path(h)):
            w.put(h, b"named as in the image")
    names = [n for n in plan["names"]]
    argv = [rel, "extract"] + (["-f"] if plan["f"] else []) + (["-l"] if plan["lower"] else []) + (["-t"] if plan["text"] else []) + (["-d", plan["dir"]] if plan["dir"] else []) + \
        (["-a"] if plan["all"] else names)
    before = w.tree()
    img = w.get(real)
    o, made = race(R, w, plan, argv, lambda r: host(r["name"]))
    what = "%s%s: " % (" ".join(argv), " while %s appear" % sorted(made) if made else "")
    if not o.ok:
        R.fail("failed", what + o.brief() + o.trace)
        return
    if w.get(real) != img:
        R.fail("image", what + "the image changed")
        return
    after = w.tree()
    order = [f["name"] for f in d.files() if not f.get("isdir")] if plan["all"] else names
    first = {}
    for n in order:
        if n in data:
            x = data[n]
            if plan["text"]:
                x = x.replace(b"\x7f", b"\t").replace(b"\x9b", b"\n")
            h = os.path.normpath(host(n))
            if plan["f"] or h not in first:
                first[h] = x
    if not plan["f"]:
        for k, v in list(before.items()) + list(made.items()):
            if after.get(k) != v:
                R.fail("replaced", what + "%s, which existed%s, was %s" % (k, " (created meanwhile)" if k in made else "", "changed" if k in after else "removed"))
                return
    for h, x in first.items():
        if not plan["f"] and (h in before or h in made):
            R.nontrivial = True
            if not any("skip" in l for l in lines_for(o.out, h)):
                R.fail("silent", what + "%s was left alone without a report: %r" % (h, o.out[-300:]))
                return
            continue
        if h in made:
            if after.get(h) not in (x, made[h]):
                R.fail("mixed", what + "%s has neither contents" % h)
                return
            continue
        if h in before:
            R.nontrivial = True
        if after.get(h) != x:
            R.fail("effect", what + "%s %s" % (h, "is missing" if h not in after else "has other contents"))
            return
    for k in after:
        if after[k] is not None and k not in before and k not in made and k not in first:
            R.fail("extra", what + "%s appeared" % k)
            return


def run_create(plan, R):
    w = R.world()
    rel, real = util.place(w, plan)
    if plan.get("other"):
        w.put(real, b"no disk image" if plan["other"] == 1 else b"")
    argv = [rel, "create"] + (["-f"] if plan["f"] else []) + [plan["template"]]
    old = w.get(real)
    o, made = race(R, w, plan, argv, lambda r: rel)
    what = "%s%s: " % (" ".join(argv), " while %s appears" % rel if made else "")
    got = w.get(real)
    new = scene.template(plan["template"])
    if util.lib_fail(o):
        R.fail("failed", what + o.brief() + o.trace)
        return
    if plan["f"]:
        R.nontrivial = True
        if got != new and not made:
            R.fail("effect", what + "%s; %s" % ("no image" if got is None else "not the template (%d bytes)" % len(got), o.brief()))
        return
    if old is not None or made:
        R.nontrivial = True
        exp = old if old is not None else made[rel]
        if got != exp:
            R.fail("replaced", what + "the existing file was %s" % ("removed" if got is None else "replaced"))
        elif not any("skip" in l or "exist" in l for l in lines_for(o.out, rel)) and o.ok:
            R.fail("silent", what + "no report: %r" % o.out[-300:])
        return
    if got != new:
        R.fail("effect", what + "%s; %s" % ("no image" if got is None else "not the template", o.brief()))


def run_local(plan, R):
    """Assemble and add with the current directory in place of an image."""
    w = R.world()
    have = {}
    for n in plan["there"]:
        have[n] = b"" if plan["empty"] else b"already here"
        w.put(n, have[n])
    for c in plan["cmds"]:
        src = {}
        for k, n in enumerate(c["names"]):
            src[n] = scene.content(50 + k, c["s"] + k)
            w.put("host/" + n, src[n])
        if c["c"] == "add":
            argv = [".", "add"] + (["-f"] if c["f"] else []) + ["host/" + n for n in c["names"]]
        else:
            argv = [".", "assemble"] + (["-f"] if c["f"] else []) + ["-d", "host/%s@2000" % c["names"][0], "-o", c["names"][0]]
        o = w.run(argv)
        what = "%s: " % " ".join(argv)
        R.log(o.brief())
        if not o.ok:
            R.fail("failed", what + o.brief() + o.trace)
            return
        for n in c["names"]:
            got = w.get(n)
            R.state("local", c["c"], n in have, c["f"])
            if n in have:
                R.nontrivial = True
                if not c["f"]:
                    if got != have[n]:
                        R.fail("replaced", what + "%s, which existed, was %s" % (n, "removed" if got is None else "changed"))
                        return
                    if not any("skip" in l for l in lines_for(o.out, n)):
                        R.fail("silent", what + "%s was left alone without a report: %r" % (n, o.out[-300:]))
                        return
                    continue
            if got is None or (got != src[n] if c["c"] == "add" else src[n] not in got or len(got) > len(src[n]) + 12):
                R.fail("effect", what + "%s %s" % (n, "is missing" if got is None else "has other contents"))
                return
            have[n] = got


def execute(plan, R):
    {"local": run_local, "image": run_image, "extract": run_extract, "create": run_create}[plan["mode"]](plan, R)
