"""Entry point of every check.

    check.py C01 [--tier quick|thorough] [--runs N] [--jobs N] [--wall S]
    check.py --replay FILE
    check.py --selftest

Exit 0: the property held on everything explored. Exit 1 and a line
"VIOLATION property=<id> replay=<path>": it is broken. Exit 2: error of the check.
"""
import os
import sys
import tempfile

PY = "/opt/venv/bin/python"
REPO = os.environ.get("SOIL_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))


def bootstrap():
    """Run again with a controlled environment (hash seed, import path, no stale bytecode)."""
    env = dict(os.environ)
    for k in ("SOIL_VERBOSE", "SOIL_DEBUG", "SOIL_POSTMORTEM", "PYTHONSTARTUP", "COV_CORE_SOURCE"):
        env.pop(k, None)
    env.update(
        DST_BOOT="1",
        PYTHONHASHSEED=env.get("DST_HASHSEED", "0"),
        PYTHONPATH=REPO,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=os.path.join(tempfile.gettempdir(), "dst-no-pycache"),
        TQDM_DISABLE="1",
        MPLBACKEND="Agg",
        LC_ALL="C.UTF-8",
        TZ="UTC",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
    )
    os.execve(PY, [PY, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)


if __name__ == "__main__":
    if os.environ.get("DST_BOOT") != "1":
        bootstrap()
    sys.path.insert(0, HERE)
    from dst import core

    sys.exit(core.main(sys.argv[1:]))
