"""Sessions on one open image object, run inside a simulated process.

An edit can be interrupted at a chosen instant: a line of the code under test at which an exception is
raised, as a signal handler (KeyboardInterrupt) or a failing allocation (MemoryError) would.
"""
import hashlib
import os
import sys

from . import scene

PREFIX = os.environ.get("ATRSIM_REPO", "/repo") + "/atrcopy/"


class Ticker:
    """Counts the line events inside the code under test; raises at the wanted one."""

    def __init__(self, at=None, exc=None):
        self.n, self.at, self.exc = 0, at, exc
        self.where = None

    def _line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.at:
                self.where = "%s:%d" % (frame.f_code.co_filename[len(PREFIX):], frame.f_lineno)
                raise self.exc("injected")
        return self._line

    def _call(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PREFIX):
            return self._line(frame, event, arg) if event == "line" else self._line
        return None

    def run(self, fn):
        sys.settrace(self._call)
        try:
            return fn()
        finally:
            sys.settrace(None)


def h(b):
    return hashlib.sha256(b).hexdigest()[:12]


def load(data):
    import atrcopy
    parser, mime = atrcopy.find_diskimage_from_data(bytes(data))
    return parser.image


def edit(image, e):
    """Apply one edit to an open image; the exception passes through."""
    k = e["k"]
    if k == "write":
        data = scene.content(e["len"], e["s"])
        if e.get("as") == "list":
            data = list(data)
        elif e.get("as") == "none":
            data = None
        elif e.get("as") == "str":
            data = "text"
        elif e.get("as") == "big":
            data = [1, 2, 300]
        elif e.get("as") == "array":
            import numpy as np
            data = np.frombuffer(data, dtype=np.uint8)
        image.write_file(e["n"], e.get("t") or image.default_filetype, data)
    elif k == "delete":
        image.delete_file(e["n"])
    elif k == "shred":
        image.shred(e.get("v", 0))
    else:
        raise ValueError(k)


def attempt(fn):
    """-> (exception class name or None, family, text)"""
    from . import kernel
    try:
        fn()
    except BaseException as e:
        return type(e).__name__, kernel.classify(e), str(e)[:200]
    return None, None, ""


def view(image):
    """What a user sees of an open image: the listing and the files."""
    r = [str(image)]
    for i, d in enumerate(image.files):
        if i > 8 and i % 7:
            r.append(str(d))
            continue
        try:
            c = h(bytes(image.get_file(d)))
        except Exception as e:
            c = type(e).__name__
        r.append((str(d), c))
    try:
        r.append(str(image.get_vtoc_object()))
    except Exception as e:
        r.append(type(e).__name__)
    return r


def raw(image):
    return bytes(image.bytes[:].tobytes())
