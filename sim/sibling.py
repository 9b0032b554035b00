"""Processes under another hash seed: a second zygote that runs commands on trees it is sent."""
import os
import pickle
import struct
import subprocess
import sys

_siblings = {}


def serve():
    from . import driver, kernel
    inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    aux = driver.boot()
    while True:
        h = inp.read(4)
        if len(h) < 4:
            return
        tree, argv, cwd, seed = pickle.loads(inp.read(struct.unpack("=I", h)[0]))
        w = kernel.World(aux)
        try:
            w.restore(tree)
            o = w.run(argv, cwd=cwd, gated=False, seed=seed)
            r = pickle.dumps((o.how, o.code, o.exc, o.exc_msg, o.out, w.tree()))
        finally:
            w.close()
        out.write(struct.pack("=I", len(r)) + r)
        out.flush()


def run(hashseed, tree, argv, cwd="", seed=1):
    """-> (how, code, exception, message, output, tree afterwards)"""
    from . import driver
    p = _siblings.get(hashseed)
    if p is None:
        env = driver.worker_env(driver.build_shim(), str(hashseed))
        p = _siblings[hashseed] = subprocess.Popen([driver.PY, "-W", "ignore", "-m", "sim.driver", "sibling"], cwd=driver.HERE, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    r = pickle.dumps((tree, argv, cwd, seed))
    p.stdin.write(struct.pack("=I", len(r)) + r)
    p.stdin.flush()
    h = p.stdout.read(4)
    if len(h) < 4:
        del _siblings[hashseed]
        raise RuntimeError("the process with the other hash seed is gone")
    return pickle.loads(p.stdout.read(struct.unpack("=I", h)[0]))
