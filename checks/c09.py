"""C09: metrics and scores against their textbook formulas."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from datafold.pcfold.timeseries.collection import TSCException
from datafold.pcfold.timeseries.metric import TSCMetric, TSCScoring
from vh import gen
from vh.core import Sub

A = st.integers(0, 10**6)
METRICS = ["rmse", "rrmse", "mse", "mape", "mae", "medae", "max", "l2", "linf"]
EPS = np.finfo(np.float64).eps


def formula(metric, t, p, w):
    """Error per feature (column)."""
    e = t - p
    ww = np.ones(len(t)) if w is None else w
    avg = lambda z: (ww[:, None] * z).sum(axis=0) / ww.sum()  # noqa: E731
    if metric == "mse":
        return avg(e ** 2)
    if metric == "rmse":
        return np.sqrt(avg(e ** 2))
    if metric == "mae":
        return avg(np.abs(e))
    if metric == "mape":
        return avg(np.abs(e) / np.maximum(np.abs(t), EPS))
    if metric == "medae":
        return np.median(np.abs(e), axis=0)
    if metric in ("max", "linf"):
        return np.abs(e).max(axis=0)
    if metric == "l2":
        return np.sqrt((e ** 2).sum(axis=0))
    if metric == "rrmse":
        return np.sqrt(avg(e ** 2) / (t ** 2).sum(axis=0))
    raise KeyError(metric)


def reduce(metric, t, p, w, mo):
    if metric == "rrmse" and isinstance(mo, str) and mo == "uniform_average":
        ww = np.ones(len(t)) if w is None else w
        mse = ((ww[:, None] * (t - p) ** 2).sum(axis=0) / ww.sum()).mean()
        return np.array([np.sqrt(mse / (t ** 2).sum())])
    raw = formula(metric, t, p, w)
    if isinstance(mo, str) and mo == "raw_values":
        return raw
    if isinstance(mo, str):
        return np.array([raw.mean()])
    return np.array([np.average(raw, weights=mo)])


def scale(name, t, p):
    if name == "id":
        return t, p
    if name == "min-max":
        lo, r = t.min(axis=0), t.max(axis=0) - t.min(axis=0)
        r = np.where(r == 0, 1, r)
        return (t - lo) / r, (p - lo) / r
    if name == "standard":
        m, s = t.mean(axis=0), t.std(axis=0)
        s = np.where(s <= 10 * EPS * np.abs(m).max() if np.abs(m).max() else s == 0, 1, s)
        return (t - m) / s, (p - m) / s
    n = np.linalg.norm(t, axis=0)
    n = np.where(n == 0, 1, n)
    return t / n, p / n


def run(case, ctx):
    spec, mode, metric, sc = case["tsc"], case["mode"], case["metric"], case["scaling"]
    gen.classify(spec, ctx)
    n, p = len(gen.rows(spec)), len(spec["cols"])
    rng = gen.rng_of(spec["seed"], 1)
    t = rng.normal(size=(n, p)) * rng.uniform(0.3, 5, size=p) + rng.uniform(-2, 2, size=p)
    e = rng.normal(size=(n, p)) * 0.3
    if case["exact"]:
        e[:] = 0
    if case["const"]:
        t[:, 0] = 2.5
    q = t + e
    x, y = gen.build(spec, t), gen.build(spec, q)
    ids = [s["id"] for s in spec["ser"]]
    lens = [len(s["t"]) for s in spec["ser"]]
    same_len = len(set(lens)) == 1
    same_t = len({tuple(s["t"]) for s in spec["ser"]}) == 1
    times = gen.index(spec).get_level_values(1)
    rid = np.array([i for i, _ in gen.rows(spec)])
    tick = np.array([k for _, k in gen.rows(spec)])
    ctx.tag(mode, metric, sc)

    w = None
    if case["weight"]:
        # weights are matched by position
        k = {"timeseries": lens[0], "timestep": len(ids), "feature": n}[mode]
        w = rng.uniform(0.2, 2, size=k)
    mo = {0: "uniform_average", 1: "raw_values", 2: rng.uniform(0.1, 2, size=p)}[case["mo"]]
    ctx.tag(f"mo:{case['mo']}", f"weight:{w is not None}")

    m = TSCMetric(metric=metric, mode=mode, scaling=sc)
    call = lambda: m(x, y, sample_weight=w, multioutput=mo)  # noqa: E731

    # combinations that are documented to be refused
    if w is not None and mode in ("timeseries", "timestep") and not same_len:
        ctx.tag("refused")
        ctx.raises(call, "sample_weight for series of different length", TSCException)
        return
    if metric == "medae" and w is not None:
        ctx.raises(call, "weighted medae", ValueError)
        return
    if metric == "max" and p > 1:
        ctx.tag("refused")
        ctx.raises(call, "max error of several features", ValueError)
        return
    if not isinstance(mo, str) and mode != "feature" and (metric == "rrmse" or p == 1):
        return  # not supported
    if metric in ("l2", "linf", "max") and w is not None:
        return  # weighting of norms is not specified
    if mode == "timestep" and w is not None and not same_t:
        return
    ts, qs = scale(sc, t, q)
    if metric == "rrmse":
        for sel in ([rid == i for i in ids] if mode == "timeseries" else [tick == k for k in tick] if mode == "timestep" else [tick >= 0]):
            if ((ts[sel] ** 2).sum(axis=0) < 1e-8).any():
                return
    if metric == "mape" and (np.abs(ts) < 1e-3).any():
        return
    res = call()
    ctx.nt(len(ids) > 1 and not case["exact"])

    srt = sorted(ids)
    if mode == "timeseries":
        labels = srt
        want = [reduce(metric, ts[rid == i], qs[rid == i], w, mo) for i in srt]
    elif mode == "timestep":
        tk = sorted(set(tick))
        labels = [times[list(tick).index(k)] for k in tk]
        order = np.arange(n)
        want = []
        for k in tk:
            sel = order[tick == k]
            want.append(reduce(metric, ts[sel], qs[sel], w, mo))
    else:
        labels = spec["cols"]
        want = [[r] for r in formula(metric, ts, qs, w)]
    want = np.array(want)
    if isinstance(res, pd.DataFrame):
        ctx.ok(mode != "feature" and case["mo"] == 1 and p > 1, "a table is returned only for raw values of several features")
        ctx.index(res.columns, spec["cols"], "columns of metric")
    else:
        ctx.ok(isinstance(res, pd.Series), f"type {type(res)}")
    ctx.index(res.index, labels, "labels of metric")
    got = res.to_numpy().reshape(want.shape)
    ctx.close(got, want, f"{metric} per {mode}", rtol=1e-7, atol=1e-9)
    if case["exact"]:
        ctx.ok(np.abs(got).max() < 1e-7, "perfect prediction has zero error")

    # score
    if mode == "feature" or case["mo"] != 1 or p == 1:
        kw = {} if w is None else {"sample_weight": w}
        if case["mo"] != 0 or case["exact"]:
            kw["multioutput"] = mo
        sw = rng.uniform(0.1, 1, size=len(want)) if case["sw"] else None
        s = TSCScoring(TSCMetric(metric=metric, mode=mode, scaling=sc), **kw)(x, y, sample_weight=sw)
        ctx.close(s, -np.average(want[:, 0], weights=sw), "score", rtol=1e-7, atol=1e-9)
        g = TSCScoring(TSCMetric(metric=metric, mode=mode, scaling=sc), greater_is_better=True, **kw)(x, y, sample_weight=sw)
        ctx.close(g, -s, "score with greater_is_better")
        worse = gen.build(spec, t + 2 * e)
        if not case["exact"]:
            s2 = TSCScoring(TSCMetric(metric=metric, mode=mode, scaling=sc), **kw)(x, worse, sample_weight=sw)
            ctx.ok(s2 < s, f"a worse prediction has a lower score: {s2} vs {s}")
    elif p > 1:
        ctx.raises(lambda: TSCScoring(m, multioutput=mo)(x, y), "score of a table", ValueError)
    gen.same_frame(ctx, x, gen.index(spec), spec["cols"], t, "y_true", 0, 0, 0)
    gen.same_frame(ctx, y, gen.index(spec), spec["cols"], q, "y_pred", 0, 0, 0)


def run_bad(case, ctx):
    spec, mode, metric = case["tsc"], case["mode"], case["metric"]
    x = gen.build(spec)
    v = x.to_numpy().copy()
    m = TSCMetric(metric=metric, mode=mode, scaling=case["scaling"])
    k = case["k"] % 6
    ctx.tag(f"kind:{k}", mode, metric)
    ctx.nt()
    r, c = case["a"] % v.shape[0], case["b"] % v.shape[1]
    if k in (0, 1):
        b = v.copy()
        b[r, c] = [np.nan, np.inf][case["a"] % 2]
        y = gen.build(spec, b)
        ctx.raises(lambda: m(x, y) if k else m(y, x), "not finite", TSCException)
    elif k == 2:
        y = gen.build({**spec, "cols": [c + "_" for c in spec["cols"]]}, v)
        ctx.raises(lambda: m(x, y), "other feature names", ValueError)
    elif k == 3:
        s2 = [dict(s) for s in spec["ser"]]
        s2[0]["id"] = 50
        y = gen.build({**spec, "ser": s2}, v)
        ctx.raises(lambda: m(x, y), "other IDs", ValueError)
    elif k == 4:
        s2 = [dict(s) for s in spec["ser"]]
        s2[-1]["t"] = s2[-1]["t"][:-1] + [s2[-1]["t"][-1] + 1]
        y = gen.build({**spec, "ser": s2}, v)
        ctx.raises(lambda: m(x, y), "other times", ValueError)
    else:
        w = np.ones({"timeseries": len(spec["ser"][0]["t"]), "timestep": len(spec["ser"]), "feature": v.shape[0]}[mode] + 1)
        ctx.raises(lambda: m(x, gen.build(spec), sample_weight=w), "wrong number of weights", (ValueError, TSCException))
        ctx.raises(lambda: m(x, gen.build(spec), sample_weight=w[:, None]), "two-dimensional weights", ValueError)
    ctx.raises(lambda: TSCMetric(metric="abc", mode=mode), "unknown metric", ValueError)
    ctx.raises(lambda: TSCMetric(metric=metric, mode="abc"), "unknown mode", ValueError)
    ctx.raises(lambda: TSCMetric(metric=metric, mode=mode, scaling="abc"), "unknown scaling", ValueError)


TSC = st.one_of(gen.tsc_spec(max_series=5, max_len=6), gen.tsc_spec(max_series=5, max_len=6, same_times=True, max_feat=3),
                gen.tsc_spec(max_series=4, max_len=6, max_feat=1))
SC = st.sampled_from(["id", "id", "min-max", "standard", "l2_normalize"])
MODE = st.sampled_from(["timeseries", "timestep", "feature"])
SUBS = [
    Sub("formula", st.fixed_dictionaries({"tsc": TSC, "mode": MODE, "metric": st.sampled_from(METRICS), "scaling": SC,
        "weight": st.booleans(), "mo": st.integers(0, 2), "exact": st.sampled_from([False] * 5 + [True]), "sw": st.booleans(),
        "const": st.sampled_from([False] * 5 + [True])}),
        run, "several series, non-zero error, evaluated", quick=3500, thorough=60000, shards=7),
    Sub("refused", st.fixed_dictionaries({"tsc": TSC, "mode": MODE, "metric": st.sampled_from(METRICS), "scaling": SC, "k": A, "a": A,
        "b": A}), run_bad, "an invalid call", quick=1000, thorough=10000),
]
ASSUMPTIONS = ["sample weights are matched with samples by position in the collection",
               "weighted norms and user-weighted rrmse of several features are not specified and not compared"]
