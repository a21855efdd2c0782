"""C23: EDMD reconstruction, stepwise prediction, windows, scores and model selection."""
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from datafold import EDMD, EDMDCV, TSCDataFrame, TSCMetric
from datafold.appfold.edmd import EDMDWindowPrediction
from datafold.pcfold import TSCKfoldSeries, TSCKFoldTime
from checks import c22
from vh import dyn, edm, gen, trf
from vh.core import Sub

KINDS = ["identity", "identity-const", "scale", "poly", "takens", "scale-takens", "takens-pca", "takens-poly", "rbf", "lambdas", "pca", "fd",
         "column", "takens-takens"]


def model(case, ctx, control=False):
    """(x, edmd, hand, back map, lifted, dmd by hand, u) fitted; None if not unique"""
    f = c22.fit_both(case, ctx, "control" if control else None)
    if f is None:
        return None
    x, e, h, z = f
    spec = case["x"]
    u = None
    if control:
        keep = []
        for s in spec["ser"]:
            keep += [True] * (len(s["t"]) - 1) + [False]
        q = case["nu"]
        u = TSCDataFrame(gen.rng_of(case["seed"], 7).normal(size=(int(np.sum(keep)), q)), index=x.index[np.array(keep)], columns=["u", "v"][:q])
    m = edm.make_dmd("control" if control else case["model"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            if control:
                uz = u.loc[u.index.intersection(z.index), :]
                m.fit(z, U=uz)
            else:
                m.fit(z)
        except Exception as ex:
            ctx.tag("dmd: " + type(ex).__name__)
            return None
    if c22.unstable(m):
        return None
    b = None if case.get("inv") else c22.back_map(case, h, x, z, None, None if u is None else uz.index)
    if b is None and not case.get("inv"):
        ctx.tag("back-map not unique")
        return None
    if control:
        lu = np.column_stack([z.loc[uz.index, :].to_numpy(), uz.to_numpy()])
        sv = np.linalg.svd(lu, compute_uv=False)
        if len(lu) < lu.shape[1] or sv[-1] < 1e-4 * sv[0]:
            return None
        e.fit(x, U=u)
    else:
        e.fit(x)
    ctx.tag("dict " + case["d"]["kind"], "control" if control else case["model"])
    gen.classify(spec, ctx)
    return x, e, h, b, z, m, u


def one_series(i, times, vals, cols):
    return TSCDataFrame(np.array(vals), index=pd.MultiIndex.from_arrays([[i] * len(times), times]), columns=list(cols))


def series_of(x):
    """{id: (times, values)} by order of appearance"""
    ids = x.index.get_level_values(0).to_numpy()
    out = {}
    for i in dict.fromkeys(int(k) for k in ids):
        w = ids == i
        out[i] = (list(x.index[w].get_level_values(1)), x.to_numpy()[w])
    return out


def hand_predict(ctx, p, i, times, vals, n, u=None):
    """rows (time, original features) predicted from the first samples of one series over all its times"""
    x, e, h, b, z, m, _ = p
    nic = e.n_samples_ic_
    zi = h.lift(one_series(i, times[:nic], vals[:nic], x.columns))
    tv = np.array(times[nic - 1:n], dtype=getattr(pd.Index(times), "dtype", None))
    if u is None:
        f = m.predict(zi, time_values=tv)
    else:
        a, bm = m.sys_matrix_, m.control_matrix_
        s, out = zi.to_numpy()[0], []
        for k in range(len(tv)):
            out.append(s)
            if k < len(tv) - 1:
                s = a @ s + bm @ u[k]
        f = TSCDataFrame(np.array(out), index=pd.MultiIndex.from_arrays([[i] * len(tv), tv]), columns=z.columns)
    w = f.to_numpy()
    mx = np.abs(w).max()
    if b is None:
        w = h.inverse(f).loc[:, list(x.columns)].to_numpy()
    else:
        w = w @ b
        mx *= max(1.0, np.abs(b).max())
    return list(tv), w, mx


def expected(ctx, p, data, udata=None):
    rows, vals, mx = [], [], 1.0
    for i, (t, v) in data.items():
        u = None if udata is None else udata[i]
        tv, w, m = hand_predict(ctx, p, i, t, v, len(t), u)
        rows += [(i, s) for s in tv]
        vals.append(w)
        mx = max(mx, m)
    return rows, np.vstack(vals), mx


def compare(ctx, got, rows, want, mx, cols, what, tol=1e-6):
    gen.valid_tsc(ctx, got, what)
    ctx.index(got.columns, cols, what + ": features")
    ctx.eq(len(got), len(rows), what + ": number of rows")
    if [int(i) for i in got.index.get_level_values(0)] != [r[0] for r in rows]:
        order = sorted(range(len(rows)), key=lambda k: rows[k][0])
        rows, want = [rows[k] for k in order], want[order]
    ctx.index_close(got.index, rows, what + ": rows", 1e-12)
    ctx.close(got.to_numpy(), want, what, tol * 10, tol * mx)


def features(case, x):
    if case["q"] is None:
        return None, list(range(x.shape[1]))
    names = list(x.columns)
    q = list(dict.fromkeys(k % len(names) for k in case["q"]))
    return [names[k] for k in q], q


def new_data(case, x, nic):
    """the training data or other series of the same system type"""
    if case["train"]:
        return case["x"], x
    spec = case["x2"]
    stp = dyn.step(case["x"])
    spec = dict(spec, ser=[dict(s, t=[s["t"][0] + stp * k for k in range(max(len(s["t"]), 2) + nic - 1)]) for s in spec["ser"]])
    if not case["off"]:  # starts on the grid of the sampling interval
        spec["ser"] = [dict(s, t=[t - s["t"][0] % stp for t in s["t"]]) for s in spec["ser"]]
    return spec, gen.build(spec)


def score_of(x, rec, weights=None):
    return -TSCMetric(metric="rmse", mode="feature", scaling="min-max")(x, rec, sample_weight=weights)


def run_reconstruct(case, ctx):
    p = model(case, ctx)
    if p is None:
        return
    x, e, *_ = p
    spec, xn = new_data(case, x, e.n_samples_ic_)
    qois, qi = features(case, x)
    data = series_of(xn)
    copy = xn.copy()
    rows, want, mx = expected(ctx, p, data)
    if not np.isfinite(want).all() or mx > 1e8:
        return
    ctx.nt(len(data) > 1 and (gen.unequal_len(spec) or gen.unsorted_ids(spec) or len({s["t"][0] for s in spec["ser"]}) > 1))
    if len(data) > 1:
        ctx.tag("unequal" if gen.unequal_len(spec) else "equal", "unsorted" if gen.unsorted_ids(spec) else "sorted", f"n_ic={min(e.n_samples_ic_, 3)}")
    got = e.reconstruct(xn, qois=qois)
    compare(ctx, got, rows, want[:, qi], mx, qois or list(x.columns), "reconstruction")
    ctx.ok(xn.equals(copy) and (xn.index == copy.index).all(), "reconstruct changed the data")
    if qois is None and mx < 1e4 and len(rows) > 1:
        truth = {(int(i), t): v for (i, t), v in zip(xn.index, xn.to_numpy())}
        tr = np.array([truth[r] for r in [(int(i), t) for i, t in got.index]])
        if (tr.max(axis=0) - tr.min(axis=0) > 1e-3).all():
            xt = TSCDataFrame(tr, index=got.index, columns=x.columns)
            s = e.score(xn)
            want_s = np.asarray(score_of(xt, got))
            ctx.tag("score")
            ctx.close(s, np.mean(want_s), "score", 1e-6, 1e-8)
            # by hand: min-max scaling by the true data, rmse per feature over all rows
            sc = (tr.max(axis=0) - tr.min(axis=0))
            err = np.sqrt((((tr - got.to_numpy()) / sc) ** 2).mean(axis=0))
            ctx.close(s, -err.mean(), "score by definition", 1e-6, 1e-8)
    if case["fp"] and case["train"]:
        e2 = c22.fit_both(case, ctx)[1]
        g2 = e2.fit_predict(x, qois=qois)
        compare(ctx, g2, rows, want[:, qi], mx, qois or list(x.columns), "fit_predict")


def run_control(case, ctx):
    p = model(case, ctx, control=True)
    if p is None:
        return
    x, e, *_ , u = p
    spec, xn = new_data(case, x, e.n_samples_ic_)
    qois, qi = features(case, x)
    data = series_of(xn)
    nic = e.n_samples_ic_
    rng = gen.rng_of(case["seed"], 11)
    ud, ur, uv = {}, [], []
    for i, (t, v) in data.items():
        a = rng.normal(size=(len(t) - 1, case["nu"]))
        ud[i] = a[nic - 1:]
        ur += [(i, s) for s in t[nic - 1:-1]]
        uv.append(a[nic - 1:])
    un = TSCDataFrame(np.vstack(uv), index=pd.MultiIndex.from_tuples(ur), columns=u.columns)
    rows, want, mx = expected(ctx, p, data, ud)
    if not np.isfinite(want).all() or mx > 1e8:
        return
    ctx.nt(len(data) > 1)
    if len(data) > 1:
        ctx.tag("unequal" if gen.unequal_len(spec) else "equal", "unsorted" if gen.unsorted_ids(spec) else "sorted", f"n_ic={min(nic, 3)}",
                "starts differ" if len({s["t"][0] for s in spec["ser"]}) > 1 else "same start")
    got = e.reconstruct(xn, U=un, qois=qois)
    compare(ctx, got, rows, want[:, qi], mx, qois or list(x.columns), "controlled reconstruction")


def run_stepwise(case, ctx):
    control = case["ctl"]
    p = model(case, ctx, control)
    if p is None:
        return
    x, e, h, b, z, m, u = p
    e.set_params(stepwise_transform=True)
    nic, n = e.n_samples_ic_, case["n"]
    stp = dyn.step(case["x"])
    ic = dict(case["ic"])
    ic["ser"] = [{"id": s["id"], "t": [s["t"][0] + stp * k for k in range(nic)]} for s in ic["ser"]]
    xi = gen.build(ic)
    spec = case["x"]
    t0 = ic["ser"][0]["t"][0]
    alltv = gen.time_array([t0 + stp * k for k in range(nic + n)], spec["kind"], spec["unit"])
    tv = alltv[nic - 1:]
    qois, qi = features(case, x)
    rng = gen.rng_of(case["seed"], 13)
    rows, want, mx, us = [], [], 1.0, []
    for i, (t, v) in series_of(xi).items():
        cur = [r for r in v]
        uu = rng.normal(size=(n, case["nu"])) if control else None
        us.append((i, uu))
        for k in range(n):
            zi = h.lift(one_series(i, alltv[k:k + nic], cur[-nic:], x.columns))
            s = zi.to_numpy()
            mx = max(mx, np.abs(s).max())
            if control:
                f = TSCDataFrame((m.sys_matrix_ @ s[0] + m.control_matrix_ @ uu[k])[np.newaxis], index=pd.MultiIndex.from_tuples([(i, alltv[nic + k])]), columns=z.columns)
            else:
                f = m.predict(zi, time_values=alltv[nic + k - 1:nic + k + 1]).iloc[[1], :]
            mx = max(mx, np.abs(f.to_numpy()).max())
            if b is None:
                cur.append(h.inverse(f).loc[:, list(x.columns)].to_numpy()[0])
            else:
                cur.append(f.to_numpy()[0] @ b)
        rows += [(i, s) for s in tv]
        want.append(np.array(cur[nic - 1:]))
    want = np.vstack(want)
    if not np.isfinite(want).all() or mx > 1e5:
        return
    ctx.nt(n > 1)
    ctx.tag(f"n_ic={min(nic, 3)}", f"ics={len(us)}")
    kw = {}
    if control:
        kw["U"] = TSCDataFrame(np.vstack([a for _, a in us]), index=pd.MultiIndex.from_tuples([(i, t) for i, _ in us for t in tv[:-1]]), columns=u.columns)
    got = e.predict(xi, time_values=tv, qois=qois, **kw)
    compare(ctx, got, rows, want[:, qi], mx * (1 if b is None else max(1.0, np.abs(b).max())), qois or list(x.columns), "stepwise prediction", 1e-5)


def run_window(case, ctx):
    control = case["ctl"]
    p = model(case, ctx, control)
    if p is None:
        return
    x, e, h, b, z, m, u = p
    nic = e.n_samples_ic_
    w, off = nic + case["w"], case["off"]
    spec = case["x2"]
    stp = dyn.step(case["x"])
    spec = dict(spec, ser=[dict(s, t=[s["t"][0] + stp * k for k in range(max(3, w) + s["t"][-1] % 5)]) for s in spec["ser"]])
    xn = gen.build(spec)
    qois, qi = features(case, x)
    rng = gen.rng_of(case["seed"], 17)
    data = series_of(xn)
    ud = {i: rng.normal(size=(len(t) - (0 if case["ulast"] else 1), case["nu"])) for i, (t, _) in data.items()} if control else None
    wins = []
    for i in sorted(data):  # windows are numbered over the sorted IDs
        t, v = data[i]
        k = 0
        while k + w <= len(t):
            wins.append((i, t[k:k + w], v[k:k + w], ud[i][k:k + w - 1] if control else None))
            k += off
    rows, want, mx, wr = [], [], 1.0, []
    for j, (i, t, v, uu) in enumerate(wins):
        tv, val, mm = hand_predict(ctx, p, j, t, v, len(t), None if uu is None else uu[nic - 1:])
        rows += [(j, s) for s in tv]
        wr += [(j, s) for s in t]
        want.append(val)
        mx = max(mx, mm)
    want = np.vstack(want)
    if not np.isfinite(want).all() or mx > 1e8:
        return
    ctx.nt(len(wins) > len(data))
    ctx.tag("windows", f"n_ic={min(nic, 3)}", "control" if control else "free")
    e = EDMDWindowPrediction(window_size=w, offset=off).adapt_model(e)
    kw = {}
    if control:
        kw["U"] = TSCDataFrame(np.vstack([ud[i] for i in data]),
                               index=pd.MultiIndex.from_tuples([(i, s) for i, (t, _) in data.items() for s in (t if case["ulast"] else t[:-1])]), columns=u.columns)
    res = e.reconstruct(xn, qois=qois, return_windows=case["ret"], **kw)
    got = res[0] if case["ret"] else res
    compare(ctx, got, rows, want[:, qi], mx, qois or list(x.columns), "window reconstruction")
    if case["ret"]:
        gen.valid_tsc(ctx, res[1], "windows")
        ctx.index_close(res[1].index, wr, "windows: rows", 1e-12)
        ctx.close(res[1].to_numpy(), np.vstack([v for _, _, v, _ in wins]), "windows: values", 1e-12, 1e-14)
        if control:
            gen.valid_tsc(ctx, res[2], "control windows")
            ctx.index_close(res[2].index, [(j, s) for j, (_, t, _, _) in enumerate(wins) for s in t[nic - 1:-1]], "control windows: rows", 1e-12)
            ctx.close(res[2].to_numpy(), np.vstack([a[nic - 1:] for *_, a in wins]), "control windows: values", 1e-12, 1e-14)
    if not control and mx < 1e4:
        tr = np.vstack([v[nic - 1:] for _, _, v, _ in wins])
        if (tr.max(axis=0) - tr.min(axis=0) > 1e-3).all():
            err = np.sqrt((((tr - want) / (tr.max(axis=0) - tr.min(axis=0))) ** 2).mean(axis=0))
            sel = qi if qois is not None else list(range(x.shape[1]))
            s = e.score(xn, qois=qois) if qois is not None else e.score(xn)
            ctx.tag("score")
            ctx.close(s, -err[sel].mean(), "window score", 1e-5, 1e-6 * mx)


GRIDS = {
    "include_id_state": [True, False],
    "dmd__sys_mode": ["spectral", "matrix"],
    "dmd__rank": [None, 2],
    "s0__degree": [2, 3],
}


def run_cv(case, ctx):
    spec, d = case["x"], case["d"]
    x = gen.build(spec)
    d = dict(d, steps=[s for s in d["steps"]])
    tak = d["steps"][0]["k"] == "takens"
    grid = {}
    if tak:
        grid["s0__delays"] = case["delays"]
    elif d["steps"][0]["k"] == "poly":
        grid["s0__degree"] = [2, 3]
        grid["s0__include_bias"] = [False, True]
    elif d["steps"][0]["k"] == "scale":
        grid["include_id_state"] = [True, False]
    if case["mode"]:
        grid["dmd__sys_mode"] = ["spectral", "matrix"]
    if not grid:
        return
    e = EDMD(edm.steps_of(d), include_id_state=case["id"])
    cv = {"series": lambda: TSCKfoldSeries(n_splits=2, shuffle=case["sh"], random_state=case["seed"] % 1000 if case["sh"] else None),
          "time": lambda: TSCKFoldTime(n_splits=2)}[case["cv"]]()
    import itertools

    from sklearn.base import clone
    names = sorted(grid)
    cands = [dict(zip(names, c)) for c in itertools.product(*[grid[k] for k in names])]
    tests, trains = [], []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            splits = list(cv.split(x))
            for c in cands:
                a, bb = [], []
                for tr, te in splits:
                    xtr, xte = x.tsc.assign_ids_train_test(tr, te)
                    m = clone(e).set_params(**c).fit(xtr)
                    a.append(m.score(xte)), bb.append(m.score(xtr))
                tests.append(a), trains.append(bb)
        except Exception as ex:
            return ctx.tag("not applicable: " + type(ex).__name__)
        gen.classify(spec, ctx)
        ctx.tag("cv " + case["cv"], "dict " + d["kind"])
        tests, trains = np.array(tests), np.array(trains)
        if not np.isfinite(tests).all() or not np.isfinite(trains).all():
            return
        params = [repr(sorted(v.get_params().items(), key=lambda t: t[0])) for _, v in e.dict_steps]
        c = EDMDCV(e, param_grid=grid, cv=cv, verbose=0, n_jobs=None, refit=True)
        if case["sh"] and case["cv"] == "series":
            c.set_params(cv=TSCKfoldSeries(n_splits=2, shuffle=True, random_state=case["seed"] % 1000))
        c.fit(x)
    ctx.nt(len(cands) > 1)
    res = c.cv_results_
    ctx.eq(len(res["params"]), len(cands), "number of candidates")
    order = []
    for q in res["params"]:
        hit = [k for k, w in enumerate(cands) if w == q]
        ctx.eq(len(hit), 1, "candidate")
        order.append(hit[0])
    mxs = max(1.0, np.abs(tests).max())
    for s in range(2):
        ctx.close(res[f"split{s}_test_score"], tests[order, s], f"test scores of split {s}", 1e-6, 1e-9 * mxs)
        ctx.close(res[f"split{s}_train_score"], trains[order, s], f"train scores of split {s}", 1e-6, 1e-9)
    mean = tests.mean(axis=1)
    ctx.close(res["mean_test_score"], mean[order], "mean test score", 1e-6, 1e-9 * mxs)
    ctx.close(res["mean_train_score"], trains.mean(axis=1)[order], "mean train score", 1e-6, 1e-9)
    best = cands[order[c.best_index_]]
    ctx.eq(c.best_params_, best, "best parameters")
    ctx.ok(mean[order[c.best_index_]] >= mean.max() - 1e-8 * mxs, f"best candidate has score {mean[order[c.best_index_]]}, maximum is {mean.max()}")
    ctx.close(c.best_score_, mean[order[c.best_index_]], "best score", 1e-6, 1e-9 * mxs)
    ref = clone(e).set_params(**best).fit(x)
    ctx.close(c.best_estimator_.score(x), ref.score(x), "score of the refitted model", 1e-6, 1e-9)
    g, w = c.best_estimator_.reconstruct(x), ref.reconstruct(x)
    ctx.ok((g.index == w.index).all(), "rows of the refitted model")
    ctx.close(g.to_numpy(), w.to_numpy(), "reconstruction of the refitted model", 1e-6, 1e-7 * max(1.0, np.abs(w.to_numpy()).max()))
    ctx.close(c.score(x), ref.score(x), "score of the search", 1e-6, 1e-9)
    ctx.ok(params == [repr(sorted(v.get_params().items(), key=lambda t: t[0])) for _, v in e.dict_steps], "the search changed the given estimator")
    ctx.ok(not hasattr(e, "n_samples_ic_"), "the search fitted the given estimator")


def inv_or_not(draw, **kw):
    inv = draw(st.sampled_from([False, False, False, True]))
    c = draw(c22.cases(kinds=[k for k in c22.INVERTIBLE] if inv else KINDS, max_len=kw.pop("max_len", 12), **kw))
    if inv:
        c.update(inv=True, id=False)
    return c


def more(draw, c):
    c["x2"] = draw(trf.same_grid(c["x"], 2, 8))
    c["train"] = draw(st.sampled_from([True, True, False]))
    c["q"] = draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, 5), min_size=1, max_size=3)))
    c["nu"] = draw(st.integers(1, 2))
    return c


@st.composite
def reconstruct_cases(draw):
    c = more(draw, inv_or_not(draw, min_series=1))
    c["off"] = draw(st.sampled_from([False, False, False, True])) and c["x"]["kind"] != "dt"
    c["fp"] = draw(st.booleans())
    return c


@st.composite
def control_cases(draw):
    c = more(draw, inv_or_not(draw))
    c["off"] = False
    return c


@st.composite
def stepwise_cases(draw):
    c = more(draw, inv_or_not(draw, max_len=14))
    c["ic"] = draw(edm.ics(c["x"], 1))
    c["n"] = draw(st.integers(1, 4))
    c["ctl"] = draw(st.sampled_from([False, False, True]))
    return c


@st.composite
def window_cases(draw):
    c = more(draw, inv_or_not(draw, max_len=14))
    c["w"], c["off"] = draw(st.integers(1, 4)), draw(st.integers(1, 5))
    c["ret"], c["ulast"] = draw(st.booleans()), draw(st.booleans())
    c["ctl"] = draw(st.sampled_from([False, False, True]))
    return c


@st.composite
def cv_cases(draw):
    spec = draw(dyn.grid(min_series=2, max_series=4, min_len=7, max_len=14, max_feat=2, equal_len=draw(st.sampled_from([True, False]))))
    d = draw(edm.dictionary(spec["cols"], ["poly", "takens", "scale", "scale-takens"]))
    return {"x": spec, "d": d, "id": draw(st.booleans()), "mode": draw(st.booleans()), "cv": draw(st.sampled_from(["series", "time"])), "sh": draw(st.booleans()),
            "delays": draw(st.lists(st.integers(1, 3), min_size=2, max_size=2, unique=True)), "seed": draw(gen.seeds())}


SUBS = [
    Sub("reconstruct", reconstruct_cases(), run_reconstruct, "several series with different lengths, start times or unsorted IDs", 360, 8000, 7),
    Sub("control", control_cases(), run_control, "several controlled series", 180, 4000, 4),
    Sub("stepwise", stepwise_cases(), run_stepwise, "more than one step", 180, 4000, 5),
    Sub("window", window_cases(), run_window, "more windows than series", 180, 4000, 4),
    Sub("cv", cv_cases(), run_cv, "several candidates", 48, 600, 4),
]
ASSUMPTIONS = [
    "The reference predicts every series separately with the explicit pipeline of C22.",
    "Comparisons where back-projection and eigenvector basis are numerically unique and predictions stay below 1e8.",
]
