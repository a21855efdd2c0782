"""Check building blocks: Sub, Ctx, Violation and assertion helpers."""
import dataclasses
import warnings

import numpy as np
import pandas as pd


class Violation(Exception):
    """The code under test broke the property (raised by the oracle)."""


@dataclasses.dataclass
class Sub:
    name: str
    strategy: object  # hypothesis strategy -> JSON case
    run: object  # run(case, ctx)
    rule: str  # what makes a case non-trivial
    quick: int = 300  # number of cases (all shards together)
    thorough: int = 3000
    shards: int = 1
    examples: tuple = ()  # regression cases, evaluated first


@dataclasses.dataclass
class Known:
    """A recorded genuine defect: `still_fails()` runs the specific failing input."""
    id: str
    still_fails: object


class Ctx:
    def __init__(self):
        self.nontrivial = False
        self.tags = []

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def tag(self, *labels):
        self.tags.extend(str(x) for x in labels)

    # ---------------------------------------------------------------- oracles
    def ok(self, cond, msg):
        if not bool(cond):
            raise Violation(str(msg))

    def fail(self, msg):
        raise Violation(str(msg))

    def eq(self, got, want, msg):
        try:
            same = bool(got == want)
        except Exception:
            same = False
        if not same:
            raise Violation(f"{msg}: got {short(got)} expected {short(want)}")

    def close(self, got, want, msg, rtol=1e-9, atol=1e-10):
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            raise Violation(f"{msg}: shape {g.shape} expected {w.shape}")
        if g.size == 0:
            return
        try:
            ok = np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        except TypeError:
            ok = bool(np.all(g == w))
        if not ok:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    d = np.nanmax(np.abs(g - w))
                except Exception:
                    d = "?"
            raise Violation(f"{msg}: max difference {d}; got {short(g)} expected {short(w)}")

    def index(self, got, want, msg):
        """Row/column labels equal in values and order."""
        g, w = list(map(_norm, list(got))), list(map(_norm, list(want)))
        if g != w:
            raise Violation(f"{msg}: labels {short(g)} expected {short(w)}")

    def index_close(self, got, want, msg, tol=1e-9):
        """(ID, time) row labels equal, numeric times up to tol (relative to magnitude)."""
        g, w = list(got), list(want)
        bad = len(g) != len(w)
        if not bad:
            for (i, t), (j, s) in zip(g, w):
                if int(i) != int(j):
                    bad = True
                elif isinstance(t, (pd.Timestamp, np.datetime64)) or isinstance(s, (pd.Timestamp, np.datetime64)):
                    bad = pd.Timestamp(t) != pd.Timestamp(s)
                else:
                    bad = not abs(t - s) <= tol * max(1.0, abs(s))
                if bad:
                    break
        if bad:
            raise Violation(f"{msg}: row labels {short(g)} expected {short(w)}")

    def raises(self, fn, msg, exc=Exception):
        """`fn` must raise one of `exc`; returns the exception."""
        try:
            r = fn()
        except exc as e:  # noqa: B902
            return e
        except Exception as e:  # wrong type
            raise Violation(f"{msg}: raised {type(e).__name__}({e}) instead of {exc}")
        raise Violation(f"{msg}: no exception, returned {short(r)}")


def _norm(x):
    if isinstance(x, tuple):
        return tuple(_norm(y) for y in x)
    if isinstance(x, np.generic):
        if isinstance(x, (np.datetime64, np.timedelta64)):
            return pd.Timestamp(x) if isinstance(x, np.datetime64) else pd.Timedelta(x)
        return x.item()
    return x


def short(x, n=400):
    try:
        s = np.array2string(x, threshold=40, precision=10) if isinstance(x, np.ndarray) else repr(x)
    except Exception:
        s = f"<{type(x).__name__}>"
    s = s.replace("\n", " ")
    return s if len(s) <= n else s[:n] + "..."
