"""C12: inverse transformation undoes the forward transformation."""
import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.pipeline import Pipeline

from vh import gen, trf
from vh.core import Sub

MINLEN = 8


def invertible(nf):
    full = st.fixed_dictionaries({"k": st.just("pca"), "n": st.sampled_from([None, nf]), "whiten": st.booleans()})
    return st.one_of(st.fixed_dictionaries({"k": st.just("scale"), "name": st.sampled_from(["center", "min-max", "standard", "robust", "maxabs"])}),
                     trf.identity, trf.takens(3, 2, 1), full)


@st.composite
def case(draw):
    base = draw(gen.tsc_spec(min_len=MINLEN, max_len=10, regular="const", kinds=("int", "float", "dt"), max_series=3, max_feat=3))
    nf = len(base["cols"])
    t = draw(invertible(nf))
    return {"t": t, "a": base, "b": draw(trf.same_grid(base, MINLEN, 10)), "kind": draw(st.sampled_from(["tsc", "tsc", "df", "np"])),
            "const": draw(st.integers(-1, 5)), "mag": draw(st.sampled_from([1.0, 1.0, 1e-3, 1e4])), "shift": draw(st.sampled_from([0.0, 0.0, 50.0]))}


def as_kind(x, kind):
    if kind == "df":
        return pd.DataFrame(x.to_numpy(), index=[f"r{i}" for i in range(len(x))], columns=list(x.columns))
    return x.to_numpy().copy() if kind == "np" else x


def compare(ctx, inv, x, lost, spec, kind, scale, what):
    ctx.ok(type(inv) is type(x), f"{what}: type {type(inv)}")
    if kind == "np":
        ctx.close(inv, x, what, 1e-8, 1e-9 * scale)
        return
    ctx.index(inv.columns, x.columns, what + ": feature names")
    ctx.eq(inv.columns.name, x.columns.name, what + ": name of columns") if kind == "tsc" else None
    keep, k = [], 0
    for s in spec["ser"]:
        keep += range(k + lost, k + len(s["t"]))
        k += len(s["t"])
    w = x.iloc[keep]
    if kind == "tsc":
        gen.valid_tsc(ctx, inv, what)
        ctx.index_close(inv.sort_index().index, pd.DataFrame(w).sort_index().index, what + ": rows")
        ctx.close(inv.sort_index().to_numpy(), pd.DataFrame(w).sort_index().to_numpy(), what + ": values", 1e-8, 1e-9 * scale)
    else:
        ctx.index(inv.index, w.index, what + ": rows")
        ctx.close(inv.to_numpy(), w.to_numpy(), what + ": values", 1e-8, 1e-9 * scale)


def data(case):
    sa, sb = case["a"], case["b"]
    out = []
    for s in (sa, sb):
        v = gen.values(s, len(gen.rows(s)), len(s["cols"])) * case["mag"] + case["shift"]
        if case["const"] >= 0 and case["t"]["k"] in ("scale", "identity", "takens") and len(s["cols"]) > 1:
            v[:, case["const"] % v.shape[1]] = case["const"] * case["mag"]
        out.append(gen.build(s, v))
    return out


def run(case, ctx):
    t, kind = case["t"], case["kind"]
    if not trf.takes_arrays(t):
        kind = "tsc"
    ctx.tag(t["k"], kind)
    gen.classify(case["a"], ctx)
    xa, xb = [as_kind(x, kind) for x in data(case)]
    tr = trf.make(t).fit(xa)
    scale = max(np.abs(np.asarray(xa)).max(), np.abs(np.asarray(xb)).max())
    lost = trf.loss(t)[0]
    for x, s, what in ((xa, case["a"], "training data"), (xb, case["b"], "new data")):
        y = tr.transform(x)
        y0 = copy.deepcopy(y)
        inv = tr.inverse_transform(y)
        compare(ctx, inv, x, lost, s, kind, scale, f"inverse of transformed {what}")
        ctx.ok((np.asarray(y) == np.asarray(y0)).all(), "inverse_transform changed its input")
        if kind != "np":
            ctx.ok(list(y.columns) == list(y0.columns), "inverse_transform changed the columns of its input")
            bad = y.rename(columns={y.columns[-1]: "other_name"})
            ctx.raises(lambda: tr.inverse_transform(bad), "inverse of unknown features", ValueError) if t["k"] != "scale" else None
    ctx.nt()


@st.composite
def lossy(draw):
    base = draw(gen.tsc_spec(min_len=MINLEN, max_len=12, regular="const", kinds=("int", "float", "dt"), max_series=3, min_feat=2, max_feat=5))
    n = draw(st.integers(1, len(base["cols"]) - 1))
    return {"t": {"k": "pca", "n": n, "whiten": draw(st.booleans())}, "a": base, "b": draw(trf.same_grid(base, MINLEN, 10)),
            "kind": draw(st.sampled_from(["tsc", "df", "np"])), "const": -1, "mag": 1.0, "shift": draw(st.sampled_from([0.0, 10.0]))}


def run_lossy(case, ctx):
    kind = case["kind"]
    xa, xb = [as_kind(x, kind) for x in data(case)]
    ctx.tag(kind)
    ctx.nt()
    tr = trf.make(case["t"]).fit(xa)
    for x in (xa, xb):
        y = tr.transform(x)
        inv = tr.inverse_transform(y)
        ctx.ok(type(inv) is type(x), "type")
        if kind != "np":
            ctx.index(inv.columns, x.columns, "feature names")
            ctx.index(inv.index, x.index, "rows")
        y2 = tr.transform(inv)
        if kind != "np":
            ctx.index(y2.columns, y.columns, "names of features")
        s = max(1.0, np.abs(np.asarray(y)).max())
        ctx.close(np.asarray(y2), np.asarray(y), "transform of the inverted data", 1e-7, 1e-8 * s)
        # the projection is the closest point of the affine subspace: no component can improve it
        r = np.asarray(x) - np.asarray(inv)
        ctx.close(r @ tr.components_.T, np.zeros((len(r), len(tr.components_))), "residual is orthogonal to the components", 0,
                  1e-9 * max(1.0, np.abs(np.asarray(x)).max()) * 10)


@st.composite
def rbf_case(draw):
    base = draw(gen.tsc_spec(min_len=4, max_len=8, regular="const", kinds=("int", "float"), max_series=3, min_series=1, max_feat=3,
                             values=("normal",)))
    t = draw(trf.rbf(("all_data", "all_data", "random", "initial_condition")))
    t["kernel"] = draw(st.sampled_from(["MultiquadricKernel", "InverseMultiquadricKernel", "InverseQuadraticKernel", "GaussianKernel"]))
    if len(base["ser"]) < 2 and t["center"] == "initial_condition":
        t["center"] = "all_data"
    t["n"] = min(t["n"], 4)
    return {"t": t, "a": base, "kind": draw(st.sampled_from(["tsc", "tsc", "df", "np"])), "first": draw(st.booleans()),
            "second": draw(gen.seeds())}


def run_rbf(case, ctx):
    t, kind = case["t"], case["kind"]
    if t["center"] == "initial_condition":
        kind = "tsc"
    x0 = gen.build(case["a"])
    x = as_kind(x0, kind)
    tr = trf.make(t)
    ctx.tag(t["kernel"], t["center"], kind)
    y = tr.fit_transform(x) if case["first"] else tr.fit(x).transform(x)
    c = tr.centers_
    k = tr.kernel(c)
    k = np.asarray(k)
    if np.linalg.cond(k) > 1e9:
        ctx.tag("ill-conditioned")
        return
    ctx.nt()
    cond = np.linalg.cond(k)
    scale = max(1.0, np.abs(c).max())
    # rows of the data which are centers are mapped back exactly
    inv = tr.inverse_transform(y)
    ctx.ok(type(inv) is type(x), "type of inverse")
    if kind != "np":
        ctx.index(inv.columns, x.columns, "feature names")
        ctx.index(inv.index, x.index, "rows")
    a, b = np.asarray(inv), np.asarray(x)
    for i in range(len(b)):
        if (np.abs(c - b[i]).max(axis=1) == 0).any():
            ctx.close(a[i], b[i], "inverse of a center point", 0, 1e-11 * cond * scale + 1e-9)
    # the inverse map is linear: definition by the centers
    want = np.asarray(y) @ np.linalg.lstsq(k, c, rcond=None)[0]
    ctx.close(a, want, "inverse map", 1e-6, 1e-10 * cond * scale)
    # refit
    b2 = gen.values(dict(case["a"], seed=case["second"]), *b.shape)
    x2 = as_kind(gen.build(case["a"], b2), kind)
    fresh = trf.make(t).fit(x2)
    tr.fit(x2)
    y2 = fresh.transform(x2)
    ctx.close(np.asarray(tr.inverse_transform(y2)), np.asarray(fresh.inverse_transform(y2)), "inverse after fitting again", 1e-9, 1e-9)


@st.composite
def pipe_case(draw):
    base = draw(gen.tsc_spec(min_len=MINLEN, max_len=10, regular="const", kinds=("int", "float"), max_series=3, max_feat=2, values=("normal",)))
    steps = draw(st.lists(st.sampled_from(["scale", "identity", "takens", "pca"]), min_size=2, max_size=3, unique=True))
    out = []
    for k in steps:
        if k == "scale":
            out.append({"k": k, "name": draw(st.sampled_from(["center", "min-max", "standard"]))})
        elif k == "identity":
            out.append({"k": k, "const": draw(st.booleans()), "rename": draw(st.booleans())})
        elif k == "takens":
            out.append({"k": k, "delays": draw(st.integers(1, 2)), "lag": draw(st.integers(0, 1)), "freq": 1, "kappa": draw(st.sampled_from([0, 0.3]))})
        else:
            out.append({"k": k, "n": None, "whiten": False})
    return {"steps": out, "a": base, "b": draw(trf.same_grid(base, MINLEN, 10))}


def run_pipe(case, ctx):
    xa, xb = gen.build(case["a"]), gen.build(case["b"])
    p = Pipeline([(f"s{i}", trf.make(t)) for i, t in enumerate(case["steps"])])
    ctx.tag(*[t["k"] for t in case["steps"]])
    lost = sum(trf.loss(t)[0] for t in case["steps"])
    rows = sum(len(s["t"]) - lost for s in case["a"]["ser"])
    p.fit(xa)
    nf = [st_.n_features_in_ for _, st_ in p.steps]
    pc = [i for i, t in enumerate(case["steps"]) if t["k"] == "pca"]
    exact = all(rows > nf[i] for i in pc)
    ctx.nt(len(case["b"]["ser"]) > 1 and exact)
    for x, s in ((xa, case["a"]), (xb, case["b"])):
        if not exact and x is xb:
            continue
        compare(ctx, p.inverse_transform(p.transform(x)), x, lost, s, "tsc", max(1, np.abs(x.to_numpy()).max()), "pipeline")


SUBS = [
    Sub("single", case(), run, "every case", quick=1200, thorough=15000, shards=3),
    Sub("lossy", lossy(), run_lossy, "every case", quick=300, thorough=4000),
    Sub("rbf", rbf_case(), run_rbf, "kernel matrix of the centers is well conditioned", quick=400, thorough=5000),
    Sub("pipeline", pipe_case(), run_pipe, "several new series, sufficient rows for PCA", quick=300, thorough=4000, shards=2),
]
ASSUMPTIONS = ["radial basis coefficients are only promised to be mapped back at the center points"]
