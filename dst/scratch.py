"""Scratch folders. Everything that the code under test writes goes in one of these."""
import os
import shutil
import tempfile

from . import seams

_made = []
_n = 0


def base():
    return "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()


def new():
    global _n
    _n += 1
    path = os.path.join(base(), f"dst-{os.getpid()}-{_n}")
    seams.DISK.reset()
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    _made.append(path)
    return path


def drop(path):
    assert os.path.basename(path).startswith("dst-") and path in _made
    _made.remove(path)
    shutil.rmtree(path, ignore_errors=True)


def cleanup():
    seams.DISK.reset()
    while _made:
        path = _made.pop()
        assert os.path.basename(path).startswith("dst-")
        shutil.rmtree(path, ignore_errors=True)


def tree(path):
    """Everything under a folder: names, and contents of the files."""
    out = {}
    for d, dirs, files in os.walk(path):
        rel = os.path.relpath(d, path)
        out[rel + "/"] = None
        for f in files:
            p = os.path.join(d, f)
            with seams.REAL_OPEN(p, "rb") as fh:
                out[os.path.join(rel, f)] = fh.read()
    return out
