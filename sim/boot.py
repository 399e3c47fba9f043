"""Process boot: pin every source of nondeterminism the interpreter itself brings in.

Importing this module re-executes the process (once) with a fixed hash seed, the JIT disabled (so that the
simulated code is plain Python the simulator can interrupt and interleave), single threaded BLAS, a scratch
numba cache and no byte-code writing.  It never writes below /repo.
"""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV_PY = "/opt/venv/bin/python"

_ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "4",
    "NUMBA_DISABLE_PERFORMANCE_WARNINGS": "1",
}


def env(hashseed="0", jit=False, extra=None):
    e = dict(os.environ)
    e.update(_ENV)
    e["PYTHONHASHSEED"] = str(hashseed)
    e["PYTHONPATH"] = REPO + os.pathsep + VERIF
    e["NUMBA_DISABLE_JIT"] = "0" if jit else "1"
    e["NUMBA_CACHE_DIR"] = os.path.join(os.environ.get("TMPDIR", "/tmp"), "verif-numba-%d" % os.getuid())
    e["VERIF_BOOTED"] = "1"
    if extra:
        e.update(extra)
    return e


def ensure(jit=False):
    """Re-exec the current script under the pinned environment (no-op when already there)."""
    want = env(hashseed=os.environ.get("VERIF_HASHSEED", "0"), jit=jit)
    ok = os.environ.get("VERIF_BOOTED") == "1" and all(
        os.environ.get(k) == want[k] for k in ("PYTHONHASHSEED", "NUMBA_DISABLE_JIT", "OPENBLAS_NUM_THREADS"))
    if not ok:
        py = VENV_PY if os.path.exists(VENV_PY) else sys.executable
        os.execve(py, [py, "-B", "-W", "ignore"] + sys.argv, want)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    import warnings
    warnings.filterwarnings("ignore")
    import numpy as np
    np.seterr(all="ignore")
