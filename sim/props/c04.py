"""A rejected, failed or interrupted edit leaves the open image unchanged."""
from .. import damage, scene, session, util

QUICK_RUNS, THOROUGH_RUNS = 600, 60000
LEVEL = "fault_enumeration"
RULE = ("a run = one open image object (Atari DOS 2/2.5, DOS 3.3, SpartaDOS, KBoot; possibly with damaged structures) and 3-8 edits, each rejected, accepted, or interrupted by KeyboardInterrupt, MemoryError or an error "
        "at a seeded line of the code under test; after every edit the bytes and the user's view are compared with those before it and with a fresh object; non-trivial = at least one edit was rejected or interrupted")
STATE_MEASURE = "distinct (edit, injected exception, source line interrupted, outcome) tuples and image contents"
SIMULATED = ["interrupts and failing allocations: an exception raised at a chosen line of the code under test (sys.settrace)"]
ASSUMPTIONS = ["one interrupt or failing allocation per call: none arrives while a call that was rejected anyway is being undone"]
BADNAMES = ["", "\u0160KODA", "A\x00B", "\u2603.TXT", "X" * 200, "...", "\udc80"]


def gen(rng, tier):
    k = rng.random()
    if k < .06:
        spec = dict(base="kboot_test1.atr", raw=1)
        names, kind, dens = ["KBOOT.XEX", "A"], "atari", "sd"
    else:
        bases = scene.SPARTA_T if k < .12 else scene.ALL_T
        spec, kind, dens, names = util.gen_case(rng, bases, maxfiles=6)
        spec.pop("xfd", None)
    plan = dict(img=spec, edits=[], damage=[])
    if rng.random() < .25 and not spec.get("raw"):
        img = scene.build_image(spec)
        plan["damage"] = [e for e in damage.gen(rng, img, scene.open_disk(spec, img), rng.choice([1, 2])) if e[0] not in ("trunc", "app")]
    for _ in range(rng.randrange(3, 9)):
        c = rng.choice(["write"] * 5 + ["delete"] * 3 + ["shred"])
        e = dict(k=c)
        if c == "write":
            e.update(n=rng.choice(names), len=scene.gen_size(rng, kind, dens), s=rng.randrange(1 << 16), t=rng.choice(["", "", "T", "B", "A"]) if kind == "dos33" else "")
            q = rng.random()
            if q < .15:
                e["len"] = rng.choice([100000, 170000, 200000])
            elif q < .25:
                e["n"] = rng.choice(BADNAMES)
            elif q < .35:
                e["as"] = rng.choice(["none", "str", "big", "list", "array"])
        elif c == "delete":
            e["n"] = rng.choice(names + ["NOSUCH"] + util.names_in(spec) if not spec.get("raw") else names)
        elif rng.random() < .4:
            e["v"] = rng.choice([0xff, 0x5a, 300, -1])
        if rng.random() < .6:
            e["x"] = dict(exc=rng.choice(["KeyboardInterrupt", "MemoryError", "MemoryError", "ValueError"]), frac=rng.choice([rng.randrange(10000), rng.randrange(10000), rng.randrange(9000, 10000), rng.randrange(9900, 10000)]))
        plan["edits"].append(e)
    return plan


def body(img, edits):
    """Runs in the simulated process."""
    import builtins
    from sim import session as S
    obj = S.load(img)
    log = []
    fresh, v1 = S.load(img), S.view(obj)
    for e in edits:
        before, v0 = S.raw(obj), v1
        t = S.Ticker()
        twin = done = None
        if fresh is not None:
            if e.get("x"):
                twin = S.attempt(lambda: t.run(lambda: S.edit(fresh, e)))
            else:
                twin = S.attempt(lambda: S.edit(fresh, e))
            done = S.raw(fresh)
        x = e.get("x") if twin and twin[0] is None else None
        where = None
        if x:
            at = 1 + x["frac"] * t.n // 10000
            k = S.Ticker(at, getattr(builtins, x["exc"]))
            got = S.attempt(lambda: k.run(lambda: S.edit(obj, e)))
            where = k.where
        else:
            got = S.attempt(lambda: S.edit(obj, e))
        after = S.raw(obj)
        v1 = S.view(obj)
        try:
            fresh = S.load(after)
            v2 = v1 if after == before and v1 == v0 else S.view(fresh)
        except Exception as ex:
            fresh, v2 = None, type(ex).__name__
        log.append(dict(ticks=t.n, got=got, twin=twin, where=where, same=after == before, done=None if done is None else after == done, h=S.h(after), view_same=v0 == v1, view_fresh=v1 == v2,
                        ndiff=sum(1 for a, b in zip(before, after) if a != b) if after != before else 0, size=len(after) == len(before), v1=repr(v1)[:300], v2=repr(v2)[:300]))
    return log


def execute(plan, R):
    spec = plan["img"]
    img = scene.template(spec["base"]) if spec.get("raw") else scene.build_image(spec)
    img = damage.apply(img, plan["damage"])
    w = R.world()
    edits = plan["edits"]
    o = w.run(lambda: body(img, edits), gated=False)
    if o.how != "exit":
        R.fail("hang", "session %s ended by %s" % (edits, o.brief()))
        return
    if o.value is None:
        if plan["damage"] and o.family == "atr":
            R.probe("damaged image not recognised")
            return
        R.fail("session", "%s on %s: %s\n%s" % (edits, spec["base"], o.brief(), o.trace))
        return
    for e, r in zip(edits, o.value):
        exc, fam, msg = r["got"]
        R.log(r)
        R.steps += r["ticks"]
        R.state(r["h"])
        R.state(e["k"], exc, r["where"])
        what = "%s on %s%s: %s%s: " % ({k: v for k, v in e.items() if k != "x"}, spec["base"], " damaged by %s" % plan["damage"] if plan["damage"] else "",
                                     "%s %s" % (exc, msg) if exc else "returned", " (injected at %s)" % r["where"] if r["where"] else "")
        if exc:
            R.nontrivial = True
            R.fired["interrupt at a source line" if r["where"] else "rejected edit"] = R.fired.get("interrupt at a source line" if r["where"] else "rejected edit", 0) + 1
            R.probe("%s %s" % ("interrupted" if r["where"] else "rejected", exc))
            if not r["same"] and not (r["where"] and r["done"]):
                R.fail("changed", what + "the image changed in %d bytes%s" % (r["ndiff"], "" if r["size"] else " and in size"))
                return
            if r["same"] and not r["view_same"] and not plan["damage"]:
                R.fail("view", what + "the image object shows something else afterwards: %s" % r["v1"])
                return
        elif r["where"]:
            R.probe("interrupt absorbed")
            if not r["done"]:
                R.fail("changed", what + "the call returned normally with another result than without the interrupt")
                return
        elif r["done"] is False:
            R.fail("history", what + "gives another image than the same edit on a fresh object")
            return
        if r["twin"] and not r["where"] and r["twin"][0] != exc:
            R.fail("history", what + "a fresh object: %s" % r["twin"])
            return
        if not plan["damage"] and not r["view_fresh"]:
            R.fail("view", what + "the object shows %s, a fresh one %s" % (r["v1"], r["v2"]))
            return
