"""C22: EDMD against the explicit pipeline."""
import json
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from datafold import EDMD, TSCDataFrame
from datafold.dynfold.dmd import DMDControl, OnlineDMD, StreamingDMD
from vh import dyn, edm, gen, trf
from vh.core import Sub


def fit_both(case, ctx, model=None):
    """(edmd, hand dictionary, hand lifted training data, hand dmd) or None when the dictionary is not applicable"""
    spec, d = case["x"], case["d"]
    x = gen.build(spec)
    pres = {"infer": "infer", "yes": True, "no": False}[case.get("pres", "infer")]
    try:
        h = edm.Hand(d, x, case["id"], pres)
        z = h.lift(x)
    except Exception as e:
        ctx.tag("dictionary not applicable: " + type(e).__name__)
        return None
    if h.clash or '"w": 1,' in json.dumps(d) or '"w": 1}' in json.dumps(d):  # window of one sample rejects single samples
        return None
    e = EDMD(edm.steps_of(d), dmd_model=edm.make_dmd(model or case["model"]), include_id_state=case["id"], dict_preserves_id_state=pres,
             use_transform_inverse=case.get("inv", False), sort_koopman_triplets=case.get("sort", False))
    if (model or case["model"]) == "rank" and z.shape[1] < 3:
        return None
    if (model or case["model"]) == "rank":
        left = z.groupby(level=0).cumcount(ascending=False).to_numpy() > 0
        sv = np.linalg.svd(z.to_numpy()[left], compute_uv=False)
        if len(sv) < 2 or sv[1] < 1e-4 * sv[0]:
            return None
    if (model or case["model"]) == "generator" and spec["kind"] == "dt":
        return None
    if pres is True and not set(x.columns) <= set(z.columns):
        return None
    if len(z) - len(spec["ser"]) < 2 or not np.isfinite(z.to_numpy()).all() or np.abs(z.to_numpy()).max() > 1e6:
        return None
    return x, e, h, z


def frame(ctx, got, want, what, rtol=1e-9, atol=1e-9):
    gen.valid_tsc(ctx, got, what)
    ctx.index(got.columns, want.columns, what + ": features")
    if [int(i) for i in got.index.get_level_values(0)] != [int(i) for i in want.index.get_level_values(0)]:  # order of the series is free
        got, want = got.sort_index(), want.sort_index()
    ctx.index_close(got.index, want.index, what + ": rows")
    ctx.close(got.to_numpy(), want.to_numpy(), what, rtol, atol * max(1.0, np.abs(want.to_numpy()).max()))


def run_transform(case, ctx):
    spec, d = case["x"], case["d"]
    f = fit_both(case, ctx)
    if f is None:
        return
    x, e, h, z = f
    x0 = x.copy()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            e.fit(x)
        except (np.linalg.LinAlgError, AssertionError) as ex:
            return ctx.tag(f"fit {type(ex).__name__}")
    gen.classify(spec, ctx)
    ctx.tag("dict " + d["kind"], "attach" if h.attach else "no attach")
    ctx.nt(len(d["steps"]) > 0)
    ctx.eq(e.n_samples_ic_, edm.lost(d) + 1, "number of samples for an initial condition")
    ctx.ok(x.equals(x0), "fit changed the data")
    ctx.index(e.feature_names_in_, x.columns, "feature_names_in_")
    ctx.index(e.feature_names_out_, z.columns, "feature_names_out_")
    ctx.eq(e.n_features_out_, z.shape[1], "n_features_out_")
    ctx.index(e.feature_names_pred_, x.columns, "feature_names_pred_")
    ctx.eq(bool(e.dict_preserves_id_state_), bool(h.contains), "dict_preserves_id_state_")
    frame(ctx, e.transform(x), z, "transform of the training data")
    spec2 = case["x2"]
    if min(len(s["t"]) for s in spec2["ser"]) > edm.lost(d):
        x2 = gen.build(spec2)
        ctx.tag("new data")
        z2 = h.lift(x2)
        if np.abs(z2.to_numpy()).max() > 1e6:  # degenerate whitening
            return
        got = e.transform(x2)
        frame(ctx, got, z2, "transform of new data")
        back = e.inverse_transform(got)
        gen.valid_tsc(ctx, back, "inverse")
        if case.get("inv"):
            want = h.inverse(z2)
            frame(ctx, back, want, "inverse transform")
        elif h.attach or h.contains:
            frame(ctx, back, z2.loc[:, list(x.columns)], "inverse transform (stored states)")
        else:
            b = np.linalg.lstsq(z.to_numpy(), x.loc[z.index, :].to_numpy(), rcond=None)[0]
            sv = np.linalg.svd(z.to_numpy(), compute_uv=False)
            if sv[-1] > 1e-6 * sv[0] and len(z) >= z.shape[1] and np.abs(z2.to_numpy()).max() < 1e5:
                ctx.index(back.columns, x.columns, "inverse: features")
                ctx.index_close(back.index, z2.index, "inverse: rows")
                w = z2.to_numpy() @ b
                ctx.close(back.to_numpy(), w, "inverse transform (least squares)", 1e-6, 1e-6 * max(1.0, np.abs(w).max()))
    # arrays are one series
    if case["arr"] and not (d["kind"] == "column" and False):
        a = gen.rng_of(case["seed"], 3).normal(size=(edm.lost(d) + case["arr"], len(spec["cols"])))
        dt = dyn.dt(spec)
        if not isinstance(dt, (np.timedelta64, pd.Timedelta)):
            ctx.tag("array")
            got = e.transform(a)
            w = h.lift(TSCDataFrame.from_array(a, time_values=np.arange(len(a)) * dt, feature_names=x.columns))
            ctx.eq(got.shape, w.shape, "transform of an array: shape")
            ctx.close(np.asarray(got), w.to_numpy(), "transform of an array")


def back_map(case, h, x, z, y=None, rows=None):
    """matrix from dictionary states to predicted features, None if not unique"""
    if y is None and (h.attach or h.contains):
        cols = list(z.columns)
        b = np.zeros((len(cols), x.shape[1]))
        for j, c in enumerate(x.columns):
            b[cols.index(c), j] = 1
        return b
    t = (x if y is None else y).loc[z.index, :]
    zz, tt = z.to_numpy(), t.to_numpy()
    if rows is not None:
        zz, tt = z.loc[rows, :].to_numpy(), t.loc[rows, :].to_numpy()
    sv = np.linalg.svd(zz, compute_uv=False)
    if len(zz) < zz.shape[1] or sv[-1] < 1e-5 * sv[0]:
        return None
    return np.linalg.lstsq(zz, tt, rcond=None)[0]


def unstable(m):
    w = getattr(m, "eigenvalues_", None)
    if getattr(m, "approx_generator", False) and w is not None and not (np.isfinite(w).all() and np.real(w).min() * m.dt_ > -12):
        return True  # logarithm of a singular system matrix
    v = getattr(m, "eigenvectors_right_", None)
    return v is not None and (v.shape[0] == v.shape[1]) and np.linalg.cond(v) > 1e5


def run_predict(case, ctx):
    spec, d = case["x"], case["d"]
    f = fit_both(case, ctx)
    if f is None:
        return
    x, e, h, z = f
    y = None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = edm.make_dmd(case["model"])
        try:
            m.fit(z)
        except Exception as ex:
            return ctx.tag("dmd: " + type(ex).__name__)
        if case["y"] and not case.get("inv") and case["model"] in ("spectral", "matrix"):
            w = gen.rng_of(case["seed"], 5).normal(size=(x.shape[1], case["y"]))
            y = TSCDataFrame(np.tanh(x.to_numpy() @ w), index=x.index, columns=[f"q{i}" for i in range(case["y"])])
            e.fit(x, y=y)
            ctx.tag("state transition map")
        else:
            e.fit(x)
    if unstable(m):
        return
    gen.classify(spec, ctx)
    ctx.tag("dict " + d["kind"], case["model"], "attach" if h.attach else "contains" if h.contains else "inverse" if case.get("inv") else "lstsq")
    names = list(x.columns if y is None else y.columns)
    ctx.index(e.feature_names_pred_, names, "feature_names_pred_")
    if case.get("inv"):
        b = None
    else:
        b = back_map(case, h, x, z, y)
        if b is None:
            return ctx.tag("back-map not unique")
    nic = edm.lost(d) + 1
    ic = dict(case["ic"])
    stp = dyn.step(spec)
    ic["ser"] = [{"id": s["id"], "t": [s["t"][0] + stp * k for k in range(nic)]} for s in ic["ser"]]
    arr = case["arr"] and spec["kind"] != "dt" and (nic == 1)
    if arr:
        for s in ic["ser"]:
            s["t"] = [0]
        ic["ser"] = [{"id": k, "t": [0]} for k in range(len(ic["ser"]))]
    xi = gen.build(ic)
    zi = h.lift(xi)
    steps = case["steps"]
    tv = None if steps is None else edm.times_after(ic, spec, [0] + steps)
    tvals = edm.times_after(ic, spec, [0, 1] if steps is None else [0] + steps)
    qois = None
    if case["q"] is not None:
        qois = [names[k % len(names)] for k in case["q"]]
        qois = list(dict.fromkeys(qois))
        ctx.tag("qois")
    ctx.nt(len(tvals) > 1 and len(ic["ser"]) > 1)
    fz = m.predict(zi, time_values=tvals)
    full = fz.to_numpy()
    sel = names if qois is None else qois
    if case.get("inv"):
        w = h.inverse(fz)
        if not set(sel) <= set(w.columns):
            return
        want = w.loc[:, sel].to_numpy()
    else:
        want = (full @ b)[:, [names.index(c) for c in sel]]
    if not np.isfinite(want).all() or np.abs(full).max() > 1e8:
        return
    if arr:
        a = xi.to_numpy()
        got = e.predict(a if len(a) > 1 or case["seed"] % 2 else a[0], time_values=tv, qois=qois)
        ctx.tag("array")
    else:
        got = e.predict(xi, time_values=tv, qois=qois if qois is None or case["seed"] % 2 else pd.Index(qois))
    gen.valid_tsc(ctx, got, "prediction")
    ctx.index(got.columns, sel, "prediction: features")
    ctx.index_close(got.index, fz.index, "prediction: rows")
    ctx.eq(len(got), len(tvals) * len(ic["ser"]), "prediction: number of rows")
    ctx.close(got.to_numpy(), want, "prediction", 1e-5, 1e-6 * max(1.0, np.abs(full).max() * (1 if b is None else max(1.0, np.abs(b).max()))))
    if y is not None:
        back = e.inverse_transform(zi)
        ctx.index(back.columns, names, "inverse transform with targets: features")
        ctx.close(back.to_numpy(), zi.to_numpy() @ b, "inverse transform with targets", 1e-6, 1e-6 * max(1.0, np.abs(b).max()))
    if (h.attach or h.contains) and y is None and not case.get("inv") and case["model"] in ("spectral", "matrix", "diagonalize"):
        rows = got.index.get_level_values(1) == got.index.get_level_values(1)[0]
        byid = {int(i): v for i, v in zip(zi.index.get_level_values(0), zi.loc[:, sel].to_numpy())}
        ctx.close(got.to_numpy()[rows], np.array([byid[int(i)] for i in got.index.get_level_values(0)[rows]]), "prediction at the initial time", 1e-5, 1e-6 * max(1.0, np.abs(full).max()))


def run_control(case, ctx):
    spec, d = case["x"], case["d"]
    f = fit_both(case, ctx, "control")
    if f is None:
        return
    x, e, h, z = f
    q = case["nu"]
    rng = gen.rng_of(case["seed"], 7)
    keep = []
    for s in spec["ser"]:
        keep += [True] * (len(s["t"]) - 1) + [case["last"]]
    keep = np.array(keep)
    cn = ["u", "v"][:q]
    u = TSCDataFrame(rng.normal(size=(int(keep.sum()), q)), index=x.index[keep], columns=cn)
    uz = u.loc[u.index.intersection(z.index), :]
    # snapshot pairs by hand
    l, r, uu = [], [], []
    for i in z.ids:
        zi = z.loc[[i], :].to_numpy()
        ui = u.loc[[i], :].to_numpy()[edm.lost(d):][: len(zi) - 1]
        l.append(zi[:-1]), r.append(zi[1:]), uu.append(ui)
    l, r, uu = np.vstack(l), np.vstack(r), np.vstack(uu)
    lu = np.column_stack([l, uu])
    sv = np.linalg.svd(lu, compute_uv=False)
    if len(lu) < lu.shape[1] or sv[-1] < 1e-4 * sv[0]:
        return ctx.tag("system not unique")
    k = np.linalg.lstsq(lu, r, rcond=None)[0].T
    a, bm = k[:, :z.shape[1]], k[:, z.shape[1]:]
    e.fit(x, U=u)
    gen.classify(spec, ctx)
    ctx.tag("dict " + d["kind"], "attach" if h.attach else "contains" if h.contains else "lstsq")
    ctx.eq(e.n_samples_ic_, edm.lost(d) + 1, "number of samples for an initial condition")
    ctx.index(e.control_names_in_, cn, "control names")
    ctx.eq(e.n_control_in_, q, "number of controls")
    ctx.close(e.dmd_model.sys_matrix_, a, "system matrix", 1e-6, 1e-7 * max(1.0, np.abs(a).max()))
    ctx.close(e.dmd_model.control_matrix_, bm, "control matrix", 1e-6, 1e-7 * max(1.0, np.abs(bm).max()))
    if case.get("inv"):
        b = None
    else:
        b = back_map(case, h, x, z, None, uz.index)
        if b is None:
            return
    nic = edm.lost(d) + 1
    stp = dyn.step(spec)
    ic = dict(case["ic"])
    ic["ser"] = [{"id": s["id"], "t": [s["t"][0] + stp * j for j in range(nic)]} for s in ic["ser"]]
    n = case["n"]
    ua = case["uarr"]
    if ua:
        ic["ser"] = ic["ser"][:1]
        ctx.tag("control array")
    xi = gen.build(ic)
    zi = h.lift(xi)
    tvals = edm.times_after(ic, spec, list(range(n + 1)))
    un = rng.normal(size=(len(ic["ser"]), n, q))
    want = []
    mx = 1.0
    zrow = {int(i): v for i, v in zip(zi.index.get_level_values(0), zi.to_numpy())}
    for j in range(len(ic["ser"])):
        s = zrow[ic["ser"][j]["id"]]
        for t in range(n + 1):
            if b is None:
                want.append(s)
            else:
                want.append(s @ b)
            mx = max(mx, np.abs(s).max())
            if t < n:
                s = a @ s + bm @ un[j, t]
    want = np.array(want)
    rows = [(s["id"], t) for s in ic["ser"] for t in tvals]
    if b is None:
        w = h.inverse(TSCDataFrame(want, index=pd.MultiIndex.from_tuples(rows), columns=z.columns))
        want = w.loc[:, list(x.columns)].to_numpy()
    if mx > 1e8:
        return
    qois = None
    if case["q"] is not None:
        names = list(x.columns)
        qois = list(dict.fromkeys(names[k % len(names)] for k in case["q"]))
        want = want[:, [names.index(c) for c in qois]]
        ctx.tag("qois")
    ctx.nt(n > 1)
    kw = {}
    if ua:
        uu = un[0]
        if case["tv"]:
            kw["time_values"] = tvals
    else:
        urows = [(s["id"], t) for s in ic["ser"] for t in tvals[:-1]]
        uu = TSCDataFrame(un.reshape(-1, q), index=pd.MultiIndex.from_tuples(urows), columns=cn)
        if case["tv"]:
            kw["time_values"] = tvals
    got = e.predict(xi, U=uu, qois=qois, **kw)
    gen.valid_tsc(ctx, got, "prediction")
    ctx.index(got.columns, qois or list(x.columns), "prediction: features")
    if [int(i) for i in got.index.get_level_values(0)] != [r[0] for r in rows]:  # sorted by ID
        order = sorted(range(len(rows)), key=lambda k: rows[k][0])
        rows, want = [rows[k] for k in order], want[order]
    ctx.index_close(got.index, rows, "prediction: rows")
    ctx.close(got.to_numpy(), want, "controlled prediction", 1e-6, 1e-6 * mx * (1 if b is None else max(1.0, np.abs(b).max())))


def run_partial(case, ctx):
    """partial fits equal one fit of the online model on the hand dictionary"""
    spec, d = case["x"], case["d"]
    x = gen.build(spec)
    cls = {"online": lambda: OnlineDMD(with_warm_up=False), "streaming": StreamingDMD}[case["model"]]
    try:
        h = edm.Hand(d, x, True, "infer")
        z = h.lift(x)
    except Exception as ex:
        return ctx.tag("dictionary not applicable: " + type(ex).__name__)
    if h.clash or len(z) < 4:
        return
    ts = [s["k"] for s in d["steps"]]
    if not set(ts) <= {"identity", "poly", "takens", "fd"}:
        return ctx.tag("no partial fit")
    m = cls()
    e = EDMD(edm.steps_of(d), dmd_model=cls(), include_id_state=True)
    ids = list(dict.fromkeys(int(i) for i in x.index.get_level_values(0)))
    parts = [ids[:1]] + [[i] for i in ids[1:]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for part in parts:
            xp = x.loc[part, :]
            zp = h.lift(xp)
            try:
                m.partial_fit(zp)
            except Exception as ex:
                return ctx.tag("model: " + type(ex).__name__)
            e.partial_fit(xp)
    gen.classify(spec, ctx)
    ctx.tag("dict " + d["kind"], case["model"], "attach" if h.attach else "contains")
    ctx.nt(len(parts) > 1)
    ctx.eq(e.n_samples_ic_, edm.lost(d) + 1, "number of samples for an initial condition")
    ctx.index(e.feature_names_out_, z.columns, "dictionary features")
    sz = np.linalg.svd(z.to_numpy(), compute_uv=False)
    if len(z) < z.shape[1] or sz[-1] < 1e-6 * sz[0]:
        return ctx.tag("dependent features")
    ctx.close(np.sort_complex(e.dmd_model.eigenvalues_), np.sort_complex(m.eigenvalues_), "eigenvalues", 1e-6, 1e-6)
    if unstable(m):
        return
    ic = dict(case["ic"])
    nic = edm.lost(d) + 1
    stp = dyn.step(spec)
    ic["ser"] = [{"id": s["id"], "t": [s["t"][0] + stp * k for k in range(nic)]} for s in ic["ser"]]
    xi = gen.build(ic)
    tvals = edm.times_after(ic, spec, [0, 1, 2])
    fz = m.predict(h.lift(xi), time_values=tvals)
    if not np.isfinite(fz.to_numpy()).all() or np.abs(fz.to_numpy()).max() > 1e6:
        return
    got = e.predict(xi, time_values=tvals)
    frame(ctx, got, fz.loc[:, list(x.columns)], "prediction after partial fits", 1e-5, 1e-6)


@st.composite
def cases(draw, kinds=edm.DICTS, min_len=3, max_len=9, models=edm.MODELS, inv=False, max_feat=3, **kw):
    spec = draw(dyn.grid(min_len=min_len, max_len=max_len, max_feat=max_feat, **kw))
    d = draw(edm.dictionary(spec["cols"], kinds))
    n = edm.lost(d)
    spec = dict(spec, ser=[dict(s, t=[s["t"][0] + dyn.step(spec) * k for k in range(len(s["t"]) + n)]) for s in spec["ser"]])
    c = {"x": spec, "d": d, "model": draw(st.sampled_from(list(models))), "id": draw(st.sampled_from([True, True, False])),
         "pres": draw(st.sampled_from(["infer"] * 6 + ["no"])), "seed": draw(gen.seeds())}
    if inv:
        c["inv"] = draw(st.sampled_from([False, False, True]))
        if c["inv"]:
            c["id"] = False
    return c


INVERTIBLE = ["identity", "scale", "pca", "scale-scale", "takens", "scale-takens", "pca-full", "takens-pca"]


@st.composite
def transform_cases(draw):
    inv = draw(st.sampled_from([False, False, True]))
    c = draw(cases(kinds=INVERTIBLE if inv else edm.DICTS))
    if inv:
        c.update(inv=True, id=False)
    c["x2"] = draw(trf.same_grid(c["x"], edm.lost(c["d"]) + 1, edm.lost(c["d"]) + 6))
    c["arr"] = draw(st.sampled_from([0, 2, 3, 7]))
    c["sort"] = draw(st.booleans())
    return c


@st.composite
def predict_cases(draw):
    inv = draw(st.sampled_from([False, False, True]))
    c = draw(cases(kinds=INVERTIBLE if inv else edm.DICTS, max_len=14))
    if inv:
        c.update(inv=True, id=False)
    c["ic"] = draw(edm.ics(c["x"], 1))
    c["steps"] = draw(st.one_of(st.none(), st.lists(st.integers(1, 6), min_size=1, max_size=5, unique=True).map(sorted)))
    c["q"] = draw(st.one_of(st.none(), st.lists(st.integers(0, 5), min_size=1, max_size=3)))
    c["y"] = draw(st.sampled_from([0, 0, 0, 1, 2]))
    c["arr"] = draw(st.sampled_from([False, False, True]))
    c["sort"] = draw(st.booleans())
    return c


@st.composite
def control_cases(draw):
    inv = draw(st.sampled_from([False, False, True]))
    c = draw(cases(kinds=INVERTIBLE if inv else edm.DICTS, max_len=14))
    if inv:
        c.update(inv=True, id=False)
    c["ic"] = draw(edm.ics(c["x"], 1))
    c.update(nu=draw(st.integers(1, 2)), last=False, n=draw(st.integers(1, 5)), uarr=draw(st.booleans()), tv=draw(st.booleans()),
             q=draw(st.one_of(st.none(), st.lists(st.integers(0, 5), min_size=1, max_size=3))))
    return c


@st.composite
def partial_cases(draw):
    c = draw(cases(kinds=["identity", "identity-const", "poly", "takens", "fd"], models=["online", "streaming"], max_len=12))
    c["ic"] = draw(edm.ics(c["x"], 1))
    return c


SUBS = [
    Sub("transform", transform_cases(), run_transform, "dictionary with at least one step", 400, 6000, 4),
    Sub("predict", predict_cases(), run_predict, "several initial conditions and more than one time value", 700, 10000, 8),
    Sub("control", control_cases(), run_control, "more than one control step", 400, 6000, 6),
    Sub("partial", partial_cases(), run_partial, "more than one partial fit", 150, 2000, 3),
]
ASSUMPTIONS = [
    "The reference applies separately constructed and fitted copies of the dictionary steps (their own behaviour is checked by C11-C15) and of the linear model (C16-C20).",
    "Predictions are compared where the back-projection and the eigenvector basis are numerically unique (condition number below 1e5).",
]
