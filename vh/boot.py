"""Environment set-up: must be imported before numpy / datafold / hypothesis."""
import importlib.abc
import importlib.machinery
import os
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VH_REPO", "/repo")
_TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_ALLOWED = {"hypothesis", "sortedcontainers", "_hypothesis_globals", "_hypothesis_pytestplugin"}

ENV = {
    "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "NUMEXPR_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
}


class _Finder(importlib.abc.MetaPathFinder):
    """Exposes only hypothesis (and its one dependency) of the tools environment."""

    def find_spec(self, fullname, path=None, target=None):
        if path is None and fullname.split(".")[0] in _ALLOWED:
            return importlib.machinery.PathFinder.find_spec(fullname, [_TOOLS])
        return None


def reexec():
    """Re-execute with the pinned environment (hash seed, single-threaded BLAS)."""
    if any(os.environ.get(k) != v for k, v in ENV.items()):
        os.environ.update(ENV)
        os.execv(sys.executable, [sys.executable] + sys.argv)


def setup():
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") not in (REPO, VERIF)]
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    sys.meta_path.append(_Finder())
    warnings.simplefilter("ignore")
    import hypothesis  # noqa: F401
    warnings.simplefilter("ignore")
