"""EDMD models as JSON specs and the explicit pipeline used as reference."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from datafold import EDMD, TSCDataFrame
from datafold.dynfold.dmd import DMDControl, DMDStandard, gDMDAffine, gDMDFull
from vh import dyn, gen, trf

DICTS = ["identity", "identity-const", "scale", "poly", "takens", "scale-takens", "takens-pca", "takens-poly", "rbf", "lambdas", "pca", "scale-poly-pca",
         "fd", "ma", "select", "column", "pca-full", "scale-scale", "takens-takens"]
MODELS = ["spectral", "matrix", "diagonalize", "rank", "generator"]


def centers_ok(k):
    return k


@st.composite
def dictionary(draw, cols, kinds=DICTS):
    k = draw(st.sampled_from(list(kinds)))
    p = len(cols)
    tak = trf.takens(2, 1, 1)
    one = {"identity": lambda: [{"k": "identity", "const": False, "rename": draw(st.booleans())}],
           "identity-const": lambda: [{"k": "identity", "const": True, "rename": draw(st.booleans())}],
           "scale": lambda: [draw(trf.scale)],
           "scale-scale": lambda: [draw(trf.scale), draw(trf.scale)],
           "poly": lambda: [dict(draw(trf.poly), degree=2)],
           "takens": lambda: [draw(tak)],
           "takens-takens": lambda: [draw(tak), draw(tak)],
           "scale-takens": lambda: [draw(trf.scale), draw(tak)],
           "takens-pca": lambda: [draw(tak), {"k": "pca", "n": draw(st.integers(1, p)), "whiten": draw(st.booleans())}],
           "pca-full": lambda: [{"k": "pca", "n": p, "whiten": draw(st.booleans())}],
           "takens-poly": lambda: [dict(draw(tak), delays=1), {"k": "poly", "degree": 2, "inter": False, "bias": False, "first": True}],
           "rbf": lambda: [dict(draw(trf.rbf(("random", "all_data"))), n=draw(st.integers(2, 4)))],
           "lambdas": lambda: [draw(trf.lambdas)],
           "pca": lambda: [draw(trf.pca(p))],
           "scale-poly-pca": lambda: [draw(trf.scale), {"k": "poly", "degree": 2, "inter": False, "bias": draw(st.booleans()), "first": True},
                                      {"k": "pca", "n": draw(st.integers(1, p)), "whiten": False}],
           "fd": lambda: [{"k": "fd", "scheme": draw(st.sampled_from(["backward", "center"])), "order": 1, "acc": 2}],
           "ma": lambda: [{"k": "ma", "w": draw(st.integers(2, 4))}],
           "select": lambda: [draw(trf.select(cols))],
           "column": lambda: [draw(trf.column(cols))],
           }[k]()
    return {"kind": k, "steps": one}


def lost(d):
    return sum(trf.loss(s)[0] for s in d["steps"])


def scale_invertible(d):
    """every step has an exact inverse (as map on the data it saw)"""
    return all(s["k"] in ("scale", "identity") or (s["k"] == "pca" and s["n"] is None) for s in d["steps"])


def make_dmd(kind, kw=None):
    if kind == "spectral":
        return DMDStandard(sys_mode="spectral")
    if kind == "matrix":
        return DMDStandard(sys_mode="matrix")
    if kind == "diagonalize":
        return DMDStandard(diagonalize=True)
    if kind == "rank":
        return DMDStandard(rank=2)
    if kind == "generator":
        return DMDStandard(approx_generator=True)
    if kind == "gdmd":
        return gDMDFull()
    if kind == "control":
        return DMDControl()
    if kind == "affine":
        return gDMDAffine()
    raise ValueError(kind)


def steps_of(d):
    return [(f"s{i}", trf.make(s)) for i, s in enumerate(d["steps"])]


class Hand:
    """The dictionary applied step by step."""

    def __init__(self, d, x, include, preserves):
        self.ts = [trf.make(s) for s in d["steps"]]
        z = x
        for t in self.ts:
            z = t.fit_transform(z)
        self.names = list(x.columns)
        for t in self.ts:  # whitening of directions without variance is not defined
            v = getattr(t, "explained_variance_", None)
            if v is not None and t.whiten and v.min() < 1e-8 * v.max():
                raise ValueError("degenerate")
        has = all(c in list(z.columns) for c in self.names)
        self.contains = has if preserves == "infer" else preserves
        self.attach = include and not self.contains
        self.clash = self.attach and bool(set(z.columns) & set(self.names))

    def lift(self, x):
        z = x
        for t in self.ts:
            z = t.transform(z)
        if self.attach:
            z0 = x.loc[z.index, :]
            z = TSCDataFrame(np.column_stack([z0.to_numpy(), z.to_numpy()]), index=z.index, columns=pd.Index(list(z0.columns) + list(z.columns)))
        return z

    def inverse(self, z):
        for t in reversed(self.ts):
            z = t.inverse_transform(z)
        return z


@st.composite
def ics(draw, spec, n_ic, max_series=3, ids=None):
    """Layout of initial conditions: series with identical times on the grid of `spec`."""
    stp = dyn.step(spec)
    n = draw(st.sampled_from([1, 2, 3]))
    idl = draw(st.lists(st.integers(0, 12), min_size=n, max_size=n, unique=True))
    a = draw(st.integers(0, 4))
    out = dict(spec)
    out.update(ser=[{"id": i, "t": [stp * (a + k) for k in range(n_ic)]} for i in idl], seed=draw(gen.seeds()))
    return out


def times_after(ic, spec, steps):
    """time values of step numbers counted from the last initial sample"""
    t0 = ic["ser"][0]["t"][-1]
    return gen.time_array([t0 + dyn.step(spec) * k for k in steps], spec["kind"], spec["unit"])
