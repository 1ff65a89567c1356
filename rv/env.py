"""Process environment of the worker that executes the code under test."""
import os

REPO = os.environ.get("RV_REPO", "/repo")


def worker_env(name, threads=1):
    e = dict(os.environ)
    e.update({"PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "PIP_NO_INDEX": "1",
              "NUMBA_CPU_NAME": "generic", "NUMBA_NUM_THREADS": "2", "OPENBLAS_NUM_THREADS": "1",
              "OMP_NUM_THREADS": "1", "PYTHONHASHSEED": "0",
              "NPY_DISABLE_CPU_FEATURES": "AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL",
              "PYTHONPATH": "/verif" if not os.environ.get("RV_HOME") else os.environ["RV_HOME"]})
    e.pop("NUMBA_DISABLE_JIT", None)
    if name == "nojit":
        e["NUMBA_DISABLE_JIT"] = "1"
    elif name == "jit":
        e["NUMBA_BOUNDSCHECK"] = "1"     # numba's own bounds sanitizer
    return e
