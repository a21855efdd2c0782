"""C21: invalid data are rejected before a model is computed or evaluated."""
import copy
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.exceptions import NotFittedError

import datafold.dynfold as D
from datafold import EDMD, TSCDataFrame
from datafold.dynfold import dmd as M
from datafold.dynfold import transform as T
from datafold.pcfold import GaussianKernel
from datafold.pcfold.timeseries.collection import TSCException
from vh import dyn, gen, trf
from vh.core import Sub

E = (ValueError, TypeError, TSCException, NotFittedError, NotImplementedError, RuntimeError)
MINLEN = 7


def with_values(x, v, cols=None):
    if isinstance(x, np.ndarray):
        return v
    cols = list(x.columns) if cols is None else cols
    return type(x)(v, index=x.index, columns=cols) if isinstance(x, TSCDataFrame) else pd.DataFrame(v, index=x.index, columns=cols)


def corruptions(x, rng, names=True, one=True):
    """(what, data) that violate requirements common to all estimators."""
    v = np.asarray(x).astype(float)
    n, p = v.shape
    out = []
    for bad in (np.nan, np.inf, -np.inf):
        w = v.copy()
        w[rng.integers(n), rng.integers(p) if one else slice(None)] = bad
        out.append((f"value {bad}", with_values(x, w)))
    if isinstance(x, np.ndarray):
        out.append(("additional feature", np.column_stack([v, v[:, 0]])))
        if p > 1:
            out.append(("missing feature", v[:, :-1]))
        return out
    cols = list(x.columns)
    new = "zz" if isinstance(cols[0], str) else 10 ** 6
    out.append(("additional feature", with_values(x, np.column_stack([v, v[:, 0]]), cols + [new])))
    if p > 1:
        out.append(("missing feature", with_values(x, v[:, :-1], cols[:-1])))
    if names:
        k = int(rng.integers(p))
        out.append(("renamed feature", with_values(x, v, cols[:k] + [new] + cols[k + 1:])))
        if p > 1:
            perm = list(rng.permutation(p))
            if perm == sorted(perm):
                perm = perm[::-1]
            out.append(("reordered features", with_values(x, v[:, perm], [cols[i] for i in perm])))
    return out


def frozen(x):
    if isinstance(x, tuple):
        return [frozen(i) for i in x]
    if isinstance(x, pd.DataFrame):
        return (list(x.columns), list(x.index), x.to_numpy().copy())
    return np.array(x, copy=True)


def unchanged(ctx, before, after, what):
    if isinstance(before, list):
        for a, b in zip(before, after):
            unchanged(ctx, a, b, what)
    elif isinstance(before, tuple):
        ctx.ok(before[0] == after[0] and before[1] == after[1], what + ": labels changed")
        ctx.ok(before[2].shape == after[2].shape and np.array_equal(before[2], after[2], equal_nan=True), what + ": values changed")
    else:
        ctx.ok(before.shape == after.shape and np.array_equal(before, after, equal_nan=True), what + ": values changed")


def reject(ctx, fn, what, more=()):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.raises(fn, what, E + ((AttributeError,) if "unfitted" in what or "plain frame" in what else ()) + more)


def series(spec, keep):
    """spec with other series"""
    return dict(spec, ser=keep)


# ------------------------------------------------------------------ transformers
@st.composite
def tcase(draw):
    base = draw(gen.tsc_spec(min_len=MINLEN, max_len=10, regular="const", kinds=("int", "float"), max_series=3, min_feat=1, max_feat=3,
                             intcols=draw(st.booleans()), values=("normal",)))
    t = draw(trf.spec_for(base["cols"], None if isinstance(base["cols"][0], str) else ["scale", "lambdas", "takens", "ma", "pca", "rbf", "fd", "select"]))
    if t["k"] == "rbf" and len(base["ser"]) < 2:
        t["center"] = "all_data"
    return {"t": t, "a": base, "kind": draw(st.sampled_from(["tsc", "tsc", "df", "np"])), "seed": draw(gen.seeds())}


def run_transform(case, ctx):
    t, sa, kind = case["t"], case["a"], case["kind"]
    if not trf.takes_arrays(t) or (kind == "df" and not isinstance(sa["cols"][0], str)):
        kind = "tsc"
    rng = gen.rng_of(case["seed"])
    x = gen.build(sa)
    if kind == "df":
        x = pd.DataFrame(x.to_numpy(), columns=list(x.columns))
    if kind == "np":
        x = x.to_numpy().copy()
    ctx.tag(t["k"], kind)
    ctx.nt(True)
    tr = trf.make(t)
    reject(ctx, lambda: trf.make(t).transform(x), "transform of an unfitted transformer")
    tr.fit(x)
    inverse = hasattr(tr, "inverse_transform") and t["k"] in ("scale", "pca", "identity", "takens", "rbf")
    y = tr.transform(x)
    if inverse:
        reject(ctx, lambda: trf.make(t).inverse_transform(y), "inverse transform of an unfitted transformer")

    def state():
        return [frozen(tr.transform(x))] + ([frozen(tr.inverse_transform(y))] if inverse else [])
    ref = state()
    cols_by_name = t["k"] != "column"
    for what, bad in corruptions(x, rng, cols_by_name, t["k"] not in ("column", "select")):
        if t["k"] in ("column",) and "feature" in what:
            continue
        reject(ctx, lambda bad=bad: tr.transform(bad), f"transform with {what}")
        if "value" in what and t["k"] != "select":
            reject(ctx, lambda bad=bad: copy.deepcopy(tr).fit(bad), f"fit with {what}")
            reject(ctx, lambda bad=bad: trf.make(t).fit_transform(bad), f"fit_transform with {what}")
    if inverse:
        for what, bad in corruptions(y, rng):
            if "value" in what or t["k"] == "scale":  # not stated as a requirement
                continue
            reject(ctx, lambda bad=bad: tr.inverse_transform(bad), f"inverse_transform with {what}")
    if kind == "tsc" and t["k"] in ("takens", "ma", "fd"):
        a, b = trf.loss(t)
        need = a + b
        if need > 0:
            ser = [dict(s) for s in sa["ser"]]
            k = int(rng.integers(len(ser)))
            ser[k] = dict(ser[k], t=ser[k]["t"][:max(1, int(rng.integers(1, need + 1)))])
            short = gen.build(series(sa, ser))
            if t["k"] == "takens":
                reject(ctx, lambda: tr.transform(short), "too short series")
                reject(ctx, lambda: copy.deepcopy(tr).fit(short), "fit to too short series")
            if len(ser) == 1 and t["k"] != "takens":
                reject(ctx, lambda: tr.transform(short), "too short single series", (IndexError,))
    if kind == "tsc" and t["k"] in ("takens", "fd"):
        step = sa["ser"][0]["t"][1] - sa["ser"][0]["t"][0]
        irr = gen.build(series(sa, [dict(s, t=s["t"][:-1] + [s["t"][-1] + step]) for s in sa["ser"]]))
        reject(ctx, lambda: tr.transform(irr), "series without constant sampling")
        reject(ctx, lambda: copy.deepcopy(tr).fit(irr), "fit to series without constant sampling")
        wide = gen.build(series(sa, [dict(s, t=[2 * k for k in s["t"]]) for s in sa["ser"]]))
        if t["k"] == "takens":
            reject(ctx, lambda: tr.transform(wide), "other sampling interval than at fit")
    for a, b in zip(ref, state()):
        unchanged(ctx, a, b, "results after rejected calls")


# ------------------------------------------------------------------ system models
MODELS = {
    "standard": lambda: M.DMDStandard(),
    "matrix": lambda: M.DMDStandard(sys_mode="matrix"),
    "diag": lambda: M.DMDStandard(diagonalize=True),
    "generator": lambda: M.DMDStandard(approx_generator=True),
    "gdmd": lambda: M.gDMDFull(),
    "stream": lambda: M.StreamingDMD(),
    "online": lambda: M.OnlineDMD(),
    "edmd_id": lambda: EDMD([("id", T.TSCIdentity())], dmd_model=M.DMDStandard()),
    "edmd_poly": lambda: EDMD([("poly", T.TSCPolynomialFeatures(degree=2))], dmd_model=M.DMDStandard()),
    "edmd_takens": lambda: EDMD([("scale", T.TSCFeaturePreprocess.from_name("min-max")), ("delay", T.TSCTakensEmbedding(delays=1))],
                                dmd_model=M.DMDStandard()),
    "edmd_inverse": lambda: EDMD([("scale", T.TSCFeaturePreprocess.from_name("min-max"))], dmd_model=M.DMDStandard(), include_id_state=False,
                                 use_transform_inverse=True),
}


def fit_model(name, x):
    m = MODELS[name]()
    return m.partial_fit(x) if name == "stream" else m.fit(x)


def run_model(case, ctx):
    spec, name = case["x"], case["model"]
    p = len(spec["cols"])
    rng = gen.rng_of(case["seed"])
    if name in ("generator", "gdmd") and spec["kind"] == "dt":
        return
    a = gen.stable_matrix(rng, p, lo=0.6, hi=1.0, real=True)
    if name == "generator":
        a = a @ a
    vals, _ = dyn.free_values(spec, a, rng)
    vals = vals + 0.05 * rng.normal(size=vals.shape)
    if len(dyn.pairs(spec, vals)[0]) < 4 * p:
        return
    x = gen.build(spec, vals)
    edmd = name.startswith("edmd")
    fit = (lambda m, x: m.partial_fit(x)) if name == "stream" else (lambda m, x: m.fit(x))
    nic = 2 if name == "edmd_takens" else 1
    one = dict(spec, ser=[spec["ser"][0]])
    t0 = gen.time_array(one["ser"][0]["t"], spec["kind"], spec["unit"])
    ic = TSCDataFrame(vals[:nic], index=pd.MultiIndex.from_arrays([[3] * nic, t0[:nic]], names=["ID", "time"]), columns=list(spec["cols"]))
    times = t0[nic - 1:nic + 2]
    fresh = MODELS[name]()
    reject(ctx, lambda: fresh.predict(ic, time_values=times), "predict of an unfitted model")
    reject(ctx, lambda: fresh.reconstruct(x), "reconstruct of an unfitted model")
    if edmd:
        reject(ctx, lambda: fresh.transform(x), "transform of an unfitted model")
    try:
        m = fit(MODELS[name](), x)
    except Exception:
        if name == "generator":  # logarithm of the matrix does not exist
            return
        raise
    ctx.tag(name, spec["kind"])
    ctx.nt(len(spec["ser"]) > 1)

    def state():
        out = [frozen(m.predict(ic, time_values=times)), frozen(m.reconstruct(x))]
        if edmd:
            out.append(frozen(m.transform(x)))
        return out
    ref = state()
    bads = corruptions(ic, rng)
    for what, bad in bads:
        reject(ctx, lambda bad=bad: m.predict(bad, time_values=times), f"predict for initial condition with {what}")
    for what, bad in corruptions(x, rng):
        reject(ctx, lambda bad=bad: m.reconstruct(bad), f"reconstruct data with {what}")
        reject(ctx, lambda bad=bad: m.score(bad), f"score data with {what}")
        if edmd:
            reject(ctx, lambda bad=bad: m.transform(bad), f"transform data with {what}")
        if "value" in what:
            reject(ctx, lambda bad=bad: fit(copy.deepcopy(m), bad), f"fit to data with {what}")
    if nic == 1:
        arr = ic.to_numpy()
        if not edmd:
            for what, bad in corruptions(arr, rng):
                reject(ctx, lambda bad=bad: m.predict(bad), f"predict for array with {what}")
    # time values
    step = dyn.step(spec)
    dt = dyn.dt(spec)
    reject(ctx, lambda: m.predict(ic, time_values=times[::-1]), "decreasing time values")
    reject(ctx, lambda: m.predict(ic, time_values=np.append(times, times[-1:])), "repeated time values")
    if t0[nic - 1] != t0[0] or spec["ser"][0]["t"][0] > 0:
        early = gen.time_array([spec["ser"][0]["t"][nic - 1] - 1, spec["ser"][0]["t"][nic - 1]], spec["kind"], spec["unit"])
        reject(ctx, lambda: m.predict(ic, time_values=early), "time values before the initial condition")
    if spec["kind"] == "dt":
        reject(ctx, lambda: m.predict(ic, time_values=np.array([0.0, 1.0])), "numeric time values for datetime data")
    else:
        reject(ctx, lambda: m.predict(ic, time_values=np.array([times[0], np.nan])), "nan time value")
        reject(ctx, lambda: m.predict(ic, time_values=np.array([times[0], np.inf])), "infinite time value")
        reject(ctx, lambda: m.predict(ic, time_values=np.array(["a", "b"])), "time values of strings")
    reject(ctx, lambda: m.predict(ic, time_values=times.reshape(-1, 1)), "two-dimensional time values")
    # wrong number of samples of an initial condition
    more = TSCDataFrame(vals[:nic + 1], index=pd.MultiIndex.from_arrays([[3] * (nic + 1), t0[:nic + 1]], names=["ID", "time"]), columns=list(spec["cols"]))
    reject(ctx, lambda: m.predict(more, time_values=t0[nic:nic + 2]), "too many samples of an initial condition")
    if nic > 1:
        reject(ctx, lambda: m.predict(ic.iloc[1:], time_values=times), "too few samples of an initial condition")
        wide = TSCDataFrame(vals[:nic], index=pd.MultiIndex.from_arrays([[3] * nic, gen.time_array([0, 2 * step], spec["kind"], spec["unit"])], names=["ID", "time"]),
                            columns=list(spec["cols"]))
        reject(ctx, lambda: m.predict(wide, time_values=gen.time_array([2 * step, 3 * step], spec["kind"], spec["unit"])), "initial condition with other sampling")
    two = TSCDataFrame(np.vstack([ic.to_numpy()] * 2), index=pd.MultiIndex.from_arrays(
        [[3] * nic + [4] * nic, np.concatenate([t0[:nic], gen.time_array([k + step for k in spec["ser"][0]["t"][:nic]], spec["kind"], spec["unit"])])],
        names=["ID", "time"]), columns=list(spec["cols"]))
    reject(ctx, lambda: m.predict(two, time_values=times + 4 * dt), "initial conditions at different times")
    reject(ctx, lambda: m.predict(pd.DataFrame(ic.to_numpy(), columns=list(spec["cols"])), time_values=times), "initial condition as plain frame")
    # data to fit
    irr = gen.build(series(spec, [dict(s, t=s["t"][:-1] + [s["t"][-1] + step]) for s in spec["ser"]]), vals)
    if any(len(s["t"]) > 2 for s in spec["ser"]):
        reject(ctx, lambda: fit(copy.deepcopy(m), irr), "fit to series without constant sampling")
        reject(ctx, lambda: fit(MODELS[name](), irr), "fit a new model to series without constant sampling")
        reject(ctx, lambda: m.reconstruct(irr), "reconstruct series without constant sampling")
    if len(spec["ser"]) > 1:
        s0 = spec["ser"][0]
        mixed = gen.build(series(spec, [dict(s0, t=[2 * k for k in s0["t"]])] + spec["ser"][1:]), vals)
        reject(ctx, lambda: fit(copy.deepcopy(m), mixed), "fit to series with different sampling intervals")
    reject(ctx, lambda: fit(copy.deepcopy(m), x.to_numpy()), "fit to an array")
    reject(ctx, lambda: fit(copy.deepcopy(m), pd.DataFrame(x.to_numpy(), columns=list(spec["cols"]))), "fit to a plain frame")
    reject(ctx, lambda: m.reconstruct(x.to_numpy()), "reconstruct an array")
    if edmd and nic == 1:
        reject(ctx, lambda: m.predict(ic, time_values=times, qois=["nope"]), "unknown quantity of interest")
        reject(ctx, lambda: m.reconstruct(x, qois=["nope"]), "unknown quantity of interest in reconstruct")
    for k, (a, b) in enumerate(zip(ref, state())):
        unchanged(ctx, a, b, f"results after rejected calls ({k})")


# ------------------------------------------------------------------ manifold learners and regressors
LEARN = {
    "dmap": lambda: D.DiffusionMaps(GaussianKernel(epsilon=1.0), n_eigenpairs=3),
    "dmap_sparse": lambda: D.DiffusionMaps(GaussianKernel(epsilon=1.0, distance=dict(cut_off=50.0)), n_eigenpairs=3),
    "roseland": lambda: D.Roseland(GaussianKernel(epsilon=1.0), n_svdtriplet=3, landmarks=0.6, random_state=1),
    "gh": lambda: D.GeometricHarmonicsInterpolator(GaussianKernel(epsilon=1.0), n_eigenpairs=4),
    "lp": lambda: D.LaplacianPyramidsInterpolator(initial_epsilon=5.0, residual_tol=1e-3),
    "lrs": lambda: D.LocalRegressionSelection(n_subsample=10, intrinsic_dim=1, strategy="dim"),
}


def run_learn(case, ctx):
    name, n, p, kind = case["model"], case["n"], case["p"], case["kind"]
    rng = gen.rng_of(case["seed"])
    v = rng.normal(size=(n, p))
    y = np.column_stack([np.sin(v[:, 0]), v.sum(axis=1)])
    cols = [f"c{i}" for i in range(p)]
    if kind == "tsc":
        x = TSCDataFrame.from_single_timeseries(pd.DataFrame(v, columns=cols))
    elif kind == "df":
        x = pd.DataFrame(v, columns=cols)
    else:
        x = v
    make = LEARN[name]
    reg = name in ("gh", "lp")
    if reg and kind != "np":
        x = v
        kind = "np"
    ctx.tag(name, kind)
    ctx.nt(True)
    fit = (lambda m, x, y=y: m.fit(x, y)) if reg else (lambda m, x, y=None: m.fit(x))
    ev = (lambda m, x: m.predict(x)) if reg else (lambda m, x: m.transform(x))
    q = x[:3] if kind == "np" else x.iloc[:3]
    reject(ctx, lambda: ev(make(), q), "evaluation of an unfitted model")
    m = fit(make(), x)
    ref = frozen(ev(m, q))
    for what, bad in corruptions(q, rng):
        reject(ctx, lambda bad=bad: ev(m, bad), f"evaluation for data with {what}")
    for what, bad in corruptions(x, rng):
        if "value" in what:
            reject(ctx, lambda bad=bad: fit(copy.deepcopy(m), bad), f"fit to data with {what}")
            if reg:
                reject(ctx, lambda bad=bad: m.score(bad, y), f"score for data with {what}")
    if reg:
        for bv in (np.nan, np.inf):
            yb = y.copy()
            yb[rng.integers(n), rng.integers(2)] = bv
            reject(ctx, lambda yb=yb: fit(copy.deepcopy(m), x, yb), f"fit to targets with {bv}")
        reject(ctx, lambda: fit(copy.deepcopy(m), x, y[:-1]), "fit to too few targets")
    if kind == "np":
        reject(ctx, lambda: ev(m, q[0]), "one-dimensional data")
    unchanged(ctx, ref, frozen(ev(m, q)), "results after rejected calls")


SUBS = [
    Sub("transform", tcase(), run_transform, "every case", quick=700, thorough=12000, shards=3),
    Sub("model", st.fixed_dictionaries(dict(x=dyn.grid(min_series=1, max_series=3, min_len=5, max_len=9, max_feat=3), model=st.sampled_from(sorted(MODELS)), seed=gen.seeds())),
        run_model, "several series", quick=320, thorough=5000, shards=4),
    Sub("learn", st.fixed_dictionaries(dict(model=st.sampled_from(sorted(LEARN)), n=st.integers(12, 20), p=st.integers(2, 3), kind=st.sampled_from(["np", "df", "tsc"]),
                                            seed=gen.seeds())), run_learn, "every case", quick=150, thorough=2500),
]
ASSUMPTIONS = ["documented error types: ValueError, TypeError, TSCException, NotFittedError, NotImplementedError, RuntimeError"]
