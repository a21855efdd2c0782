"""C06: time-axis and value manipulations against per-series formulas."""
import itertools
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from datafold import TSCDataFrame
from datafold.pcfold.timeseries.collection import TSCException
from vh import gen
from vh.core import Sub

A = st.integers(0, 10**6)


def lab(spec, ticks_per_row):
    return list(zip([i for i, _ in gen.rows(spec)], ticks_per_row))


def run_shift(case, ctx):
    spec, d = case["tsc"], case["d"]
    x = gen.build(spec)
    v = x.to_numpy().copy()
    gen.classify(spec, ctx)
    rws = gen.rows(spec)
    t = x.index.get_level_values(1).to_numpy()
    ctx.nt(d != 0 and len(spec["ser"]) > 1)
    if spec["kind"] == "dt":
        s = np.timedelta64(d, "s")
        y = x.copy().tsc.shift_time_by_delta(s)
        gen.valid_tsc(ctx, y)
        gen.same_frame(ctx, y, [(i, pd.Timestamp(tt + s)) for (i, _), tt in zip(rws, t)], spec["cols"], v, "shift", 0, 0, 0)
    else:
        s = d * spec["unit"]
        c = x.copy()
        if (t + s).min() < 0:
            ctx.tag("negative")
            ctx.raises(lambda: c.tsc.shift_time_by_delta(s), "shift to negative time", AttributeError)
            gen.same_frame(ctx, c, x.index, spec["cols"], v, "collection after failed shift", 0, 0, 0)
        else:
            y = c.tsc.shift_time_by_delta(s)
            gen.valid_tsc(ctx, y)
            gen.same_frame(ctx, y, [(i, tt + s) for (i, _), tt in zip(rws, t)], spec["cols"], v, "shift", 0, 0)
    # per series
    if spec["kind"] == "dt":
        return
    ids = sorted(s["id"] for s in spec["ser"])
    first = {s["id"]: s["t"][0] for s in spec["ser"]}
    ens = case["ensure"]
    y, sh = x.copy().tsc.shift_time_per_time_series(ensure_identical_values=ens, return_shift_values=True)
    gen.valid_tsc(ctx, y)
    want = [(i, (k - first[i]) * spec["unit"]) for i, k in rws]
    gen.same_frame(ctx, y, want, spec["cols"], v, "shift to zero", 0, 0)
    for i in ids:
        ctx.close(sh.loc[i], -first[i] * spec["unit"], "returned shift value")
    y2 = x.copy().tsc.shift_time_per_time_series(ensure_identical_values=ens)
    gen.same_frame(ctx, y2, want, spec["cols"], v, "shift to zero (2)", 0, 0)
    # shifting back with the returned values
    z = y.copy().tsc.shift_time_per_time_series(shift_values=-1 * sh)
    gen.same_frame(ctx, z, x.index, spec["cols"], v, "shifting back", 0, 0)
    # given values
    sv = pd.Series([(a % 5) * spec["unit"] for a in case["by"][:len(ids)]], index=pd.Index(ids, name="ID"))
    z = x.copy().tsc.shift_time_per_time_series(shift_values=sv)
    gen.valid_tsc(ctx, z)
    gen.same_frame(ctx, z, [(i, tt + sv.loc[i]) for (i, _), tt in zip(rws, t)], spec["cols"], v, "given shift", 0, 0)
    if len(ids) > 1:
        ctx.raises(lambda: x.copy().tsc.shift_time_per_time_series(shift_values=sv.iloc[:-1]), "missing ID", ValueError)
    ctx.raises(lambda: x.copy().tsc.shift_time_per_time_series(shift_values=sv.to_numpy()), "no series", TypeError)


def run_norm(case, ctx):
    spec = case["tsc"]
    x = gen.build(spec)
    v = x.to_numpy().copy()
    gen.classify(spec, ctx)
    dts = [set(np.diff(s["t"])) for s in spec["ser"]]
    const = all(len(d) == 1 for d in dts) and len(set().union(*dts)) == 1
    if not const:
        ctx.tag("not const")
        c = x.copy()
        ctx.raises(lambda: c.tsc.normalize_time(), "normalize irregular", TSCException)
        gen.same_frame(ctx, c, x.index, spec["cols"], v, "collection after refused normalisation", 0, 0, 0)
        return
    d = int(next(iter(dts[0])))
    lo = min(t for _, t in gen.rows(spec))
    if any((t - lo) % d for _, t in gen.rows(spec)):
        ctx.tag("offset is no multiple of the sampling interval")
        return
    ctx.nt(len(spec["ser"]) > 1 and (lo != 0 or d != 1))
    y = x.copy().tsc.normalize_time()
    gen.valid_tsc(ctx, y)
    gen.same_frame(ctx, y, [(i, (t - lo) // d) for i, t in gen.rows(spec)], spec["cols"], v, "normalize_time", 0, 0, 0)
    ctx.ok(y.is_normalized_time(), "is_normalized_time")
    z = y.copy().tsc.normalize_time()
    gen.same_frame(ctx, z, y.index, spec["cols"], v, "normalising twice", 0, 0, 0)


def fd_coeff(offsets, order):
    """Finite difference weights by solving the moment equations."""
    o = np.asarray(offsets, dtype=float)
    m = np.vander(o, len(o), increasing=True).T
    b = np.zeros(len(o))
    b[order] = math.factorial(order)
    return np.linalg.solve(m, b)


def offsets_of(scheme, order, acc):
    if scheme == "center":
        k = (2 * ((order + 1) // 2) - 2 + acc) // 2
        return list(range(-k, k + 1))
    n = 2 * ((order + 1) // 2) - 1 + acc if order % 2 else order + acc
    n = order + acc
    return list(range(0, n)) if scheme == "forward" else list(range(-n + 1, 1))


def run_deriv(case, ctx):
    spec = case["tsc"]
    scheme, order, acc = case["scheme"], case["order"], case["acc"]
    gen.classify(spec, ctx)
    ctx.tag(scheme, f"order:{order}", f"acc:{acc}", f"shift:{case['shift']}")
    u = spec["unit"]
    R = gen.rows(spec)
    p = len(spec["cols"])
    rng = gen.rng_of(spec["seed"])
    # polynomial of the highest exact degree, different in every series
    deg = order + acc - 1
    coef = {s["id"]: rng.uniform(-1, 1, size=(deg + 1, p)) for s in spec["ser"]}
    tt = np.array([t * u for _, t in R])
    scale = 1.0 / max(1.0, tt.max())
    v = np.array([sum(coef[i][k] * (t * u * scale) ** k for k in range(deg + 1)) for i, t in R])
    x = gen.build(spec, v)
    dts = [set(np.diff(s["t"])) for s in spec["ser"]]
    const = all(len(d) == 1 for d in dts) and len(set().union(*dts)) == 1
    kw = dict(scheme=scheme, diff_order=order, accuracy=acc, shift_index=case["shift"])
    if not const:
        ctx.raises(lambda: x.tsc.time_derivative(**kw), "irregular sampling", TSCException)
        return
    off = offsets_of(scheme, order, acc)
    lo, hi = -min(off), max(off)
    lens = [len(s["t"]) for s in spec["ser"]]
    if min(lens) <= lo + hi:
        ctx.tag("too short")
        try:
            y = x.tsc.time_derivative(**kw)
        except Exception:
            return
        long_ids = [s["id"] for s in spec["ser"] if len(s["t"]) > lo + hi]
        ctx.ok(set(int(i) for i in y.ids) <= set(long_ids), "numbers for a series that is too short")
        return
    y = x.tsc.time_derivative(**kw)
    gen.valid_tsc(ctx, y)
    want, idx = [], []
    wanth = []
    h = list(dts[0])[0] * u
    w = fd_coeff(off, order)
    for s in sorted(spec["ser"], key=lambda s: s["id"]):
        n = len(s["t"])
        base = [r for r, (i, _) in enumerate(R) if i == s["id"]]
        for k in range(lo, n - hi):
            t = s["t"][k] * u
            want.append([sum(coef[s["id"]][m, j] * math.perm(m, order) * scale ** m * t ** (m - order)
                             for m in range(order, deg + 1)) for j in range(p)])
            wanth.append(sum(c * v[base[k + o]] for c, o in zip(w, off)) / h ** order)
            kk = k + hi if case["shift"] and scheme != "backward" else k
            idx.append((s["id"], s["t"][kk] * u))
    ctx.nt(len(spec["ser"]) > 1)
    atol = 1e-9 * np.sum(np.abs(w)) / h ** order * max(1.0, np.abs(v).max())
    ctx.index_close(y.index, idx, "labels of derivative")
    ctx.index(y.columns, spec["cols"], "columns of derivative")
    ctx.close(y.to_numpy(), np.array(wanth), "finite difference formula", rtol=1e-7, atol=atol)
    ctx.close(y.to_numpy(), np.array(want), "derivative of polynomial", rtol=1e-6, atol=10 * atol)
    gen.same_frame(ctx, x, gen.index(spec), spec["cols"], v, "input", 0, 0, 0)


def run_diff(case, ctx):
    """Plain helpers: fill, expand, augment."""
    spec = case["tsc"]
    x = gen.build(spec)
    v = x.to_numpy().copy()
    gen.classify(spec, ctx)
    R = gen.rows(spec)
    p = len(spec["cols"])
    dts = [set(np.diff(s["t"])) for s in spec["ser"]]
    const = all(len(d) == 1 for d in dts) and len(set().union(*dts)) == 1

    # fill with the last state
    s0 = spec["ser"][case["pick"] % len(spec["ser"])]
    one = {**spec, "ser": [s0]}
    vo = np.array([v[r] for r, (i, _) in enumerate(R) if i == s0["id"]])
    xo = gen.build(one, vo)
    n = len(s0["t"])
    d = set(np.diff(s0["t"]))
    target = n + case["extra"]
    if len(spec["ser"]) > 1:
        ctx.raises(lambda: x.tsc.fill_timeseries_with_last_state(100), "several series", (NotImplementedError, TSCException))
    if case["extra"] == 0:
        ctx.raises(lambda: xo.tsc.fill_timeseries_with_last_state(target), "nothing to fill", TSCException)
    elif len(d) != 1:
        ctx.raises(lambda: xo.tsc.fill_timeseries_with_last_state(target), "irregular series", TSCException)
    else:
        step = int(next(iter(d)))
        y = xo.tsc.fill_timeseries_with_last_state(target)
        ticks = s0["t"] + [s0["t"][-1] + step * (k + 1) for k in range(case["extra"])]
        tv = gen.time_array(ticks, spec["kind"], spec["unit"])
        tv = [pd.Timestamp(q) for q in tv] if spec["kind"] == "dt" else tv
        gen.valid_tsc(ctx, y, "filled series")
        gen.same_frame(ctx, y, [(s0["id"], t) for t in tv], spec["cols"],
                       np.vstack([vo, np.tile(vo[-1], (case["extra"], 1))]), "fill_timeseries_with_last_state", 0, 0)
        ctx.nt()

    # expand time values
    same = len({tuple(s["t"]) for s in spec["ser"]}) == 1
    hi = max(t for _, t in R)
    new = [hi + 1 + k for k in range(case["extra"] + 1)]
    tv = gen.time_array(new, spec["kind"], spec["unit"])
    fv = case["fill"]
    if same:
        y = x.tsc.expand_time_values(tv, fill_value=fv)
        gen.valid_tsc(ctx, y, "expanded")
        ctx.eq(len(y), len(R) + len(spec["ser"]) * len(new), "rows of expanded collection")
        per = gen.per_series(spec, v)
        for s in spec["ser"]:
            got = y.loc[s["id"], :]
            tt = gen.time_array(s["t"] + new, spec["kind"], spec["unit"])
            ctx.ok(len(got) == len(tt) and (got.index.to_numpy() == tt).all(), f"expanded times of {s['id']}")
            ctx.close(got.to_numpy(), np.vstack([per[s["id"]][1], np.full((len(new), p), fv)]),
                      f"expanded values of {s['id']}", 0, 0)
        ctx.index(y.columns, spec["cols"], "expanded columns")
        ctx.nt(len(spec["ser"]) > 1)
    elif len(spec["ser"]) > 1:
        ctx.raises(lambda: x.tsc.expand_time_values(tv), "expand different time values", TSCException)

    # augment control input
    if min(len(s["t"]) for s in spec["ser"]) >= 2:
        us = {**spec, "ser": [{"id": s["id"], "t": s["t"][:-1]} for s in spec["ser"]], "cols": ["u1", "u2"]}
        U = gen.build(us, off=5)
        uv = U.to_numpy().copy()
        y = x.tsc.augment_control_input(U)
        gen.valid_tsc(ctx, y, "augmented")
        up = gen.per_series(us, uv)
        want = np.vstack([np.vstack([np.full((1, 2), np.nan), up[s["id"]][1]]) for s in spec["ser"]])
        gen.same_frame(ctx, y, gen.index(spec), spec["cols"] + ["u1", "u2"], np.hstack([v, want]), "augment_control_input", 0, 0, 0)
        gen.same_frame(ctx, U, gen.index(us), ["u1", "u2"], uv, "control", 0, 0, 0)
    gen.same_frame(ctx, x, gen.index(spec), spec["cols"], v, "input", 0, 0, 0)


REG = st.one_of(gen.tsc_spec(regular="const", min_len=2, max_series=4, max_len=7), gen.tsc_spec(max_series=4, max_len=6))
SUBS = [
    Sub("shift", st.fixed_dictionaries({"tsc": gen.tsc_spec(max_series=4, max_len=6), "d": st.integers(-6, 9), "ensure": st.booleans(),
        "by": st.lists(A, min_size=4, max_size=4)}), run_shift, "several series and a non-zero shift", quick=850, thorough=15000, shards=2),
    Sub("normalize", st.fixed_dictionaries({"tsc": REG}), run_norm, "several series, time not normalised yet",
        quick=850, thorough=15000),
    Sub("derivative", st.fixed_dictionaries({"tsc": st.one_of(
        gen.tsc_spec(regular="const", min_len=5, max_series=4, max_len=12, kinds=("int", "float"), max_feat=3),
        gen.tsc_spec(regular="const", min_len=2, max_series=3, max_len=6, kinds=("int", "float"), max_feat=2),
        gen.tsc_spec(max_series=3, max_len=6, kinds=("int", "float"), max_feat=2)),
        "scheme": st.sampled_from(["center", "forward", "backward"]), "order": st.integers(1, 2),
        "acc": st.sampled_from([2, 2, 4]), "shift": st.booleans()}), run_deriv, "several series", quick=850, thorough=15000, shards=3),
    Sub("fill", st.fixed_dictionaries({"tsc": st.one_of(REG, gen.tsc_spec(regular="const", same_times=True, min_len=2, max_series=4)),
        "pick": A, "extra": st.integers(0, 12), "fill": st.sampled_from([0.0, -1.5, 3.0])}),
        run_diff, "fill or expand is possible", quick=850, thorough=15000, shards=2),
]
ASSUMPTIONS = ["normalize_time is compared for offsets that are multiples of the sampling interval",
               "manipulations that work in place are given a copy"]
