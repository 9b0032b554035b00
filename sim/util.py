"""Shared pieces of the property modules."""
import errno
import hashlib
import os
import random

from . import kernel as K
from . import damage, disk, scene

KILLS = ["die_before", "die_part", "die_after"]
LITTER = ".atrcopy-"


def h(b):
    if b is None:
        return "-"
    return hashlib.sha256(b if isinstance(b, bytes) else repr(b).encode()).hexdigest()[:12]


def lib_fail(o):
    """The process ended in a way no user should see: a foreign exception, a signal, a hang."""
    if o.how in ("signal", "hang"):
        return "%s (%s)" % (o.how, o.code)
    if o.how == "exit" and o.family == "other":
        return "%s: %s\n%s" % (o.exc, o.exc_msg, o.trace)
    return None


def names_in(spec):
    return [st[1] for st in spec["steps"] if st[0] == "add"]


def gen_case(rng, bases=scene.ALL_T, **kw):
    """(image spec, kind, density, name pool): names already on the disk and new ones."""
    spec = scene.gen_image(rng, bases, **kw)
    kind, dens = scene.kind_of(spec["base"]), scene.density_of(spec["base"])
    have = names_in(spec)
    pool = rng.sample(have, min(len(have), rng.randrange(1, 5))) + scene.gen_names(rng, kind, rng.randrange(2, 4), True)
    if spec["base"] == "dos2sd+2.0s.atr" and rng.random() < .3:
        pool.append("DUP.SYS")
    return spec, kind, dens, pool


def pick_op(ops, sel, frac):
    """Index of an operation in a recorded trace: among the mutating ones or all, at a fraction of them."""
    if sel == "cls":        # each kind of operation alike
        kinds = sorted(set(r.op for r in ops))
        if not kinds:
            return None
        idx = [i for i, r in enumerate(ops) if r.op == kinds[frac % len(kinds)]]
        return idx[frac // len(kinds) % len(idx)]
    if sel == "file":       # transfers, each file alike
        idx = [i for i, r in enumerate(ops) if r.op in ("read", "write") and r.len]
        seen, group = 0, {}
        for i, r in enumerate(ops):
            seen += r.op == "open"
            group[i] = seen
        gs = sorted(set(group[i] for i in idx))
        if gs:
            idx = [i for i in idx if group[i] == gs[frac % len(gs)]]
            return idx[frac // len(gs) % len(idx)]
    idx = [i for i, r in enumerate(ops) if sel == "any" or r.mutates or r.op in ("fsync", "close")]
    if sel == "mut":
        idx = [i for i, r in enumerate(ops) if r.mutates]
    if not idx:
        idx = list(range(len(ops)))
    if not idx:
        return None
    return idx[min(len(idx) - 1, frac * len(idx) // 10000)]


def same_except_litter(before, after, allow=()):
    """Differences between two trees, ignoring temporary files left behind and the allowed paths."""
    bad = []
    for k in sorted(set(before) | set(after)):
        if k in allow:
            continue
        if k not in before:
            if os.path.basename(k).startswith(".") or k.endswith((".tmp", "~", ".bak")):
                continue
            bad.append("%s appeared" % k)
        elif k not in after:
            bad.append("%s is gone" % k)
        elif before[k] != after[k]:
            bad.append("%s changed" % k)
    return bad


def place(world, plan):
    """Put the image where the plan wants it; returns its path relative to the root and the file really holding it."""
    spec = plan["img"]
    nm = scene.image_name(spec) if spec else plan["name"]
    where = plan.get("where", "plain")
    os.makedirs(world.path("host"), exist_ok=True)
    if where == "sub":
        rel = real = "d/" + nm
        os.makedirs(world.path("d"), exist_ok=True)
    elif where == "link":
        rel, real = nm, plan.get("target") or "d/real-" + nm
        os.makedirs(world.path("d"), exist_ok=True)
        os.symlink(real, world.path(rel))
    else:
        rel = real = nm
    if spec:
        img = scene.build_image(spec)
        if plan.get("damage"):
            img = damage.apply(img, plan["damage"])
        if plan.get("wrap"):
            img = scene.wrap(img, plan["wrap"])
        if plan.get("damage2"):
            img = damage.apply(img, plan["damage2"])
        world.put(real, img)
        relink(world, plan, real)
    return rel, real


def relink(world, plan, real):
    """Give the image its second name (hard link) again, if the plan wants one."""
    if plan.get("where") == "hard" and os.path.exists(world.path(real)):
        os.makedirs(world.path("d"), exist_ok=True)
        p = world.path("d/second")
        if os.path.lexists(p):
            os.unlink(p)
        os.link(world.path(real), p)
