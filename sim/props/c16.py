"""Where a session is split into processes makes no difference."""
import errno

from .. import kernel as K, scene, session, util

QUICK_RUNS, THOROUGH_RUNS = 320, 40000
LEVEL = "fault_enumeration"
RULE = ("a run = one image and 3-8 edits (write, replace, delete, clear free space; accepted and rejected ones), done four ways: on one open object saved once; each in a process of its own; on an object that is saved and "
        "reloaded at seeded points, with interrupted edits and failing saves repeated; and as commands, one for all files and one per file; non-trivial = at least two edits changed the image")
STATE_MEASURE = "distinct image contents and edit outcomes"
SIMULATED = ["interrupts and failing allocations at seeded lines of the code under test (sys.settrace)"]


def gen(rng, tier):
    spec, kind, dens, names = util.gen_case(rng, maxfiles=6)
    edits = []
    for _ in range(rng.randrange(3, 9)):
        c = rng.choice(["write"] * 5 + ["replace"] * 2 + ["delete"] * 3 + ["shred"])
        e = dict(k=c)
        if c in ("write", "replace"):
            e.update(n=rng.choice(names), len=scene.gen_size(rng, kind, dens), s=rng.randrange(1 << 16), t=rng.choice(["", "T", "B", "A"]) if kind == "dos33" else "")
            if rng.random() < .1:
                e["len"] = 200000
        elif c == "delete":
            e["n"] = rng.choice(names + util.names_in(spec) + ["NOSUCH"])
        edits.append(e)
    cuts = [rng.choice(["", "", "save", "reload", "resave", "fail", "int"]) for _ in edits]
    return dict(img=spec, edits=edits, cuts=cuts, frac=[rng.randrange(10000) for _ in edits], fault=[dict(frac=rng.randrange(10000), how=rng.choice(["fail", "short", "do_fail"]), e=rng.choice([errno.EIO, errno.ENOSPC])) for _ in range(1)],
                group=int(rng.random() < .5))


def one(image, e):
    if e["k"] == "replace":
        a = session.attempt(lambda: session.edit(image, dict(e, k="delete")))
        return [a, session.attempt(lambda: session.edit(image, dict(e, k="write")))]
    return [session.attempt(lambda: session.edit(image, e))]


def opened(path):
    import atrcopy
    return atrcopy.find_diskimage(path)[0].image


def whole(path, edits):
    im = opened(path)
    r = [one(im, e) for e in edits]
    im.save(path)
    return dict(r=r, view=session.view(im))


def single(path, e):
    im = opened(path)
    r = one(im, e)
    im.save(path)
    return dict(r=r, view=session.view(im))


def chopped(path, edits, cuts, frac):
    """Saved, reloaded, interrupted and repeated."""
    im = opened(path)
    r = []
    for e, c, f in zip(edits, cuts, frac):
        if c == "int" and e["k"] != "replace":
            t = session.Ticker()
            fresh = session.load(session.raw(im))
            if session.attempt(lambda: t.run(lambda: session.edit(fresh, e)))[0] is None:
                # not at the very end, where the work is done already
                k = session.Ticker(1 + f * t.n // 20000, KeyboardInterrupt)
                session.attempt(lambda: k.run(lambda: session.edit(im, e)))
        r.append(one(im, e))
        if c in ("save", "reload", "resave", "fail"):
            save(im, path)
        if c == "resave":
            save(im, path)
        if c == "reload":
            im = opened(path)
    save(im, path)
    return dict(r=r, view=session.view(im))


def save(im, path):
    try:
        im.save(path)
    except OSError:
        im.save(path)


def execute(plan, R):
    w = R.world()
    spec = plan["img"]
    nm = scene.image_name(spec)
    img = scene.build_image(spec)
    edits = plan["edits"]
    w.put("a/" + nm, img)
    w.put("b/" + nm, img)
    w.put("c/" + nm, img)
    what = "%s on %s: " % ([{k: v for k, v in e.items() if v != ""} for e in edits], spec["base"])
    pa, pb, pc = (w.path(x + "/" + nm) for x in "abc")
    A = w.run(lambda: whole(pa, edits), gated=False)
    if A.how != "exit" or A.exc:
        R.fail("session", what + "one session: %s\n%s" % (A.brief(), A.trace))
        return
    a = w.get("a/" + nm)
    R.log(A.value["r"], util.h(a))
    R.state(util.h(a))
    n = 0
    # one process per edit
    last = None
    for i, e in enumerate(edits):
        before = w.get("b/" + nm)
        o = w.run(lambda: single(pb, e), gated=False)
        if o.how != "exit" or o.exc:
            R.fail("session", what + "edit %d in its own process: %s\n%s" % (i, o.brief(), o.trace))
            return
        if o.value["r"] != A.value["r"][i]:
            R.fail("result", what + "edit %d in one session: %s, in its own process: %s" % (i, A.value["r"][i], o.value["r"]))
            return
        for x in o.value["r"]:
            R.probe("edit: %s" % (x[0] or "done"))
        n += w.get("b/" + nm) != before
        last = o.value["view"]
    R.nontrivial = n >= 2
    b = w.get("b/" + nm)
    if a != b:
        R.fail("image", what + "one session and one process per edit give different images (%s)" % diff(a, b))
        return
    if last != A.value["view"]:
        R.fail("view", what + "one session shows %s, the last process %s" % (str(A.value["view"])[:300], str(last)[:300]))
        return
    # saved, reloaded, interrupted, with a failing file operation
    c0 = w.tree()
    fn = lambda: chopped(pc, edits, plan["cuts"], plan["frac"])
    o, ops = K.trace_ops(w, fn)
    for fault in (None, plan["fault"][0] if "fail" in plan["cuts"] else None):
        if fault is not None:
            w.restore(c0)
            # from the first write on: failing to open the image is reported, not retried
            idx = [i for i, q in enumerate(ops) if q.mutates or q.op in ("fsync", "close")]
            idx = [i for i in idx if i >= min(j for j, q in enumerate(ops) if q.mutates)] if any(q.mutates for q in ops) else []
            if not idx:
                break
            at = idx[fault["frac"] * len(idx) // 10000]
            kind = K.KIND_NAMES.index(fault["how"])
            if kind == K.SHORT and ops[at].op != "write":
                kind = K.FAIL
            o = w.run(fn, faults=[K.Fault(at, kind, fault["e"], max(1, ops[at].len // 2) if kind == K.SHORT else 0)])
        wc = what + "saved and reloaded at %s%s: " % (plan["cuts"], " with %s of %s" % (fault["how"], ops[at].op) if fault else "")
        if o.how != "exit" or o.exc:
            if fault and o.family == "os" and ops[at].op in ("open", "read", "close"):
                R.probe("fault reported while loading")
                continue
            R.fail("session", wc + "%s\n%s" % (o.brief(), o.trace))
            return
        if o.value["r"] != A.value["r"]:
            R.fail("result", wc + "%s instead of %s" % (o.value["r"], A.value["r"]))
            return
        c = w.get("c/" + nm)
        if c != a:
            R.fail("image", wc + "gives a different image (%s)" % diff(a, c))
            return
        if o.value["view"] != A.value["view"]:
            R.fail("view", wc + "shows %s instead of %s" % (str(o.value["view"])[:300], str(A.value["view"])[:300]))
            return
    # the same as commands: all files at once, or one by one
    if plan["group"]:
        seen, fs = set(), []
        for e in edits:
            if e["k"] in ("write", "replace") and e["n"] not in seen and e["len"] < 100000:
                seen.add(e["n"])
                fs.append(e)
        if len(fs) >= 2:
            for x in ("d", "e"):
                w.put(x + "/" + nm, img)
            for e in fs:
                w.put("host/" + e["n"], scene.content(e["len"], e["s"]))
            o = w.run(["d/" + nm, "add", "-f"] + ["host/" + e["n"] for e in fs], gated=False)
            R.log(o.brief())
            if o.ok:
                for e in fs:
                    q = w.run(["e/" + nm, "add", "-f", "host/" + e["n"]], gated=False)
                    if not q.ok:
                        R.fail("group", what + "add of all files works, add of %s alone: %s" % (e["n"], q.brief()))
                        return
                if w.get("d/" + nm) != w.get("e/" + nm):
                    R.fail("group", "add -f %s on %s: one command and one per file give different images (%s)" % ([e["n"] for e in fs], spec["base"], diff(w.get("d/" + nm), w.get("e/" + nm))))
                    return
                R.probe("group of commands")


def diff(a, b):
    if a is None or b is None or len(a) != len(b):
        return "%s and %s bytes" % (a and len(a), b and len(b))
    d = [i for i in range(len(a)) if a[i] != b[i]]
    return "%d bytes differ, first at %d" % (len(d), d[0])
