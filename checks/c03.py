"""C03: constructors and exporters place every value where documented and are inverse to each other."""
import copy
import io
import os
import pickle
import tempfile

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from datafold import InitialCondition, TSCDataFrame
from vh import gen
from vh.core import Sub

A = st.integers(0, 10**6)


def cell(x):
    """{(id, time, feature): value} read from the plain table."""
    d = pd.DataFrame(x)
    v = d.to_numpy()
    return {(int(i), gen_key(t), str(c)): v[r, k] for r, (i, t) in enumerate(d.index) for k, c in enumerate(d.columns)}


def gen_key(t):
    return pd.Timestamp(t).value if isinstance(t, (pd.Timestamp, np.datetime64)) else float(t)


def same_cells(ctx, x, want, what):
    got = cell(x)
    ctx.ok(set(got) == set(want), f"{what}: labels differ: {sorted(set(got) ^ set(want))[:6]}")
    for k in want:
        ctx.ok(got[k] == want[k] or (np.isnan(got[k]) and np.isnan(want[k])), f"{what}: value at {k}: {got[k]} expected {want[k]}")


def times_of(case, n, shuffle=False):
    t = np.cumsum(gen.rng_of(case["seed"], 7).integers(1, 4, size=n)) - 1
    if case["kind"] == "dt":
        tv = gen.time_array(t, "dt", 1)
    elif case["kind"] == "float":
        tv = t * 0.1
    else:
        tv = t
    if shuffle:
        tv = tv[gen.rng_of(case["seed"], 8).permutation(n)]
    return tv


def cols_of(case, p):
    return [gen.NAMES[k] for k in gen.rng_of(case["seed"], 9).permutation(len(gen.NAMES))[:p]]


def run_tensor(case, ctx):
    n, m, p = case["n"], case["m"], case["p"]
    ten = gen.rng_of(case["seed"]).normal(size=(n, m, p))
    kw = {}
    ids = np.arange(n)
    if case["ids"]:
        ids = gen.rng_of(case["seed"], 1).permutation(20)[:n]
        kw["time_series_ids"] = ids if case["ids"] == 1 else pd.Index(ids)
    cols = [f"feature{j}" for j in range(p)]
    if case["cols"]:
        cols = cols_of(case, p)
        kw["feature_names"] = cols if case["cols"] == 1 else pd.Index(cols)
    tv = np.arange(m)
    if case["times"]:
        tv = times_of(case, m, shuffle=case["times"] == 2)
        kw["time_values"] = tv
    ctx.nt(n > 1 and bool(kw))
    src = ten.copy()
    x = TSCDataFrame.from_tensor(ten, **kw)
    ctx.close(ten, src, "tensor unchanged")
    gen.valid_tsc(ctx, x)
    same_cells(ctx, x, {(int(ids[i]), gen_key(tv[j]), cols[k]): ten[i, j, k]
                        for i in range(n) for j in range(m) for k in range(p)}, "from_tensor")
    ctx.index(x.columns, cols, "columns")
    # export back
    back = np.stack([x.loc[int(i), :].loc[tv, :].to_numpy() for i in ids])
    ctx.close(back, ten, "tensor read back", rtol=0, atol=0)
    for j, c in enumerate(cols):
        f = x.feature_to_array(c, as_frame=True)
        for k, i in enumerate(ids):
            ctx.close(f.loc[int(i), tv].to_numpy(), ten[k, :, j], "feature_to_array", rtol=0, atol=0)


def run_frames(case, ctx):
    """from_frame_list / from_single_timeseries / from_array."""
    rng = gen.rng_of(case["seed"])
    p = case["p"]
    cols = cols_of(case, p)
    frames, parts = [], []  # parts: (times, values)
    for k, item in enumerate(case["items"]):
        m, typ = item
        sub = dict(case, seed=case["seed"] + 31 * k)
        if typ == 3 and frames:  # the same object twice
            frames.append(frames[-1])
            parts.extend(parts[-last:])
            continue
        if typ == 2:  # a collection of several series
            ids = rng.permutation(9)[:2]
            loc, blocks = [], []
            for r, i in enumerate(ids):
                tv = times_of(dict(sub, seed=sub["seed"] + r), m)
                v = rng.normal(size=(m, p))
                loc.append((int(i), tv, v))
                blocks.append(pd.DataFrame(v, index=pd.MultiIndex.from_arrays([np.full(m, i), tv]), columns=cols))
            frames.append(TSCDataFrame(pd.concat(blocks)))
            parts.extend((tv, v) for _, tv, v in sorted(loc, key=lambda e: e[0]))
            last = 2
        else:
            tv = times_of(sub, m)
            v = rng.normal(size=(m, p))
            df = pd.DataFrame(v, index=tv, columns=cols)
            if typ == 1:
                df = TSCDataFrame.from_single_timeseries(df, ts_id=int(rng.integers(0, 9)))
            frames.append(df)
            parts.append((tv, v))
            last = 1
    ids = None
    want_ids = list(range(len(parts)))
    if case["ids"]:
        want_ids = [int(i) for i in rng.permutation(30)[:len(parts)]]
        ids = np.array(want_ids) if case["ids"] == 1 else list(want_ids)
    ctx.nt(len(parts) > 1)
    keep = [(f.copy(), f) for f in frames]
    x = TSCDataFrame.from_frame_list(frames, ts_ids=ids)
    gen.valid_tsc(ctx, x)
    for old, new in keep:
        ctx.ok(type(old) is type(new) and old.equals(new) and list(old.index) == list(new.index), "input frames unchanged")
    same_cells(ctx, x, {(i, gen_key(t), c): v[r, k] for i, (tv, v) in zip(want_ids, parts)
                        for r, t in enumerate(tv) for k, c in enumerate(cols)}, "from_frame_list")
    # inverse: iterate the collection
    got = {int(i): d for i, d in x.itertimeseries()}
    for i, (tv, v) in zip(want_ids, parts):
        ctx.close(got[i].to_numpy(), v, "itertimeseries(from_frame_list)", rtol=0, atol=0)
    ctx.raises(lambda: TSCDataFrame.from_frame_list(frames, ts_ids=[0] * len(parts) + [0]), "wrong number of IDs", ValueError)


def run_single(case, ctx):
    rng = gen.rng_of(case["seed"])
    m, p = case["n"], case["p"]
    ctx.nt(m > 1)
    tv = times_of(case, m, shuffle=case["shuffle"])
    v = rng.normal(size=(m, p))
    cols = cols_of(case, p)
    i = case["ts_id"]
    df = pd.DataFrame(v, index=tv, columns=cols)
    keep = df.copy()
    x = TSCDataFrame.from_single_timeseries(df, ts_id=i)
    ctx.ok(df.equals(keep) and list(df.columns) == list(keep.columns), "input frame unchanged")
    gen.valid_tsc(ctx, x)
    want = {(i or 0, gen_key(t), c): v[r, k] for r, t in enumerate(tv) for k, c in enumerate(cols)}
    same_cells(ctx, x, want, "from_single_timeseries")
    ser = pd.Series(v[:, 0], index=tv, name=cols[0] if case["named"] else None)
    y = TSCDataFrame.from_single_timeseries(ser, ts_id=i)
    gen.valid_tsc(ctx, y)
    ctx.eq(y.shape, (m, 1), "shape from series")
    ctx.close(y.to_numpy().ravel(), v[np.argsort(tv), 0], "values from series", rtol=0, atol=0)
    ctx.ok(ser.name == (cols[0] if case["named"] else None), "series unchanged")
    # from_array
    z = TSCDataFrame.from_array(v, time_values=tv, feature_names=cols, ts_id=i)
    same_cells(ctx, z, want, "from_array")
    z = TSCDataFrame.from_array(v, feature_names=pd.Index(cols))
    same_cells(ctx, z, {(0, float(r), c): v[r, k] for r in range(m) for k, c in enumerate(cols)}, "from_array default times")


def run_shift(case, ctx):
    rng = gen.rng_of(case["seed"])
    n, p = case["n"], case["p"]
    left, right = rng.normal(size=(n, p)), rng.normal(size=(n, p))
    o = "row" if case["row"] else "col"
    cols = cols_of(case, p)
    tv = [(0, 1), (0.0, 0.3), (2, 7), np.array([1.5, 4.0])][case["t"]]
    ctx.nt(n > 1 and p > 1)
    a, b = (left, right) if o == "row" else (left.T, right.T)
    x = TSCDataFrame.from_shift_matrices(a, b, time_values=tv, snapshot_orientation=o, columns=cols)
    gen.valid_tsc(ctx, x)
    want = {}
    for i in range(n):
        for k, c in enumerate(cols):
            want[(i, float(tv[0]), c)] = left[i, k]
            want[(i, float(tv[1]), c)] = right[i, k]
    same_cells(ctx, x, want, "from_shift_matrices")
    for o2 in ["row", "col"]:
        l2, r2 = x.tsc.shift_matrices(snapshot_orientation=o2)
        ctx.close(l2, left if o2 == "row" else left.T, "shift_matrices inverse (left)", rtol=0, atol=0)
        ctx.close(r2, right if o2 == "row" else right.T, "shift_matrices inverse (right)", rtol=0, atol=0)
    x.iloc[:, :] = 0.0
    ctx.ok(not (left == 0).any(), "inputs are copied")


def run_copyidx(case, ctx):
    spec = case["tsc"]
    x = gen.build(spec)
    gen.classify(spec, ctx)
    n, p = x.shape
    rng = gen.rng_of(case["seed"])
    ctx.nt(n > 1)
    v = rng.normal(size=(n, p))
    keep = x.copy()
    for form in (v, pd.DataFrame(v), gen.build(spec, v)):
        y = TSCDataFrame.from_same_indices_as(x, form)
        gen.valid_tsc(ctx, y)
        gen.same_frame(ctx, y, x.index, x.columns, v, "from_same_indices_as", rtol=0, atol=0)
    q = 1 + case["q"]
    cols = [f"new{k}" for k in range(q)]
    v2 = rng.normal(size=(n, q))
    y = TSCDataFrame.from_same_indices_as(x, v2, except_columns=cols)
    gen.valid_tsc(ctx, y)
    gen.same_frame(ctx, y, x.index, cols, v2, "from_same_indices_as(except_columns)", rtol=0, atol=0)
    idx = pd.MultiIndex.from_arrays([np.full(q, 3), np.arange(q)])
    v3 = rng.normal(size=(q, p))
    y = TSCDataFrame.from_same_indices_as(x, v3, except_index=idx)
    gen.valid_tsc(ctx, y)
    gen.same_frame(ctx, y, idx, x.columns, v3, "from_same_indices_as(except_index)", rtol=0, atol=0)
    ctx.ok(list(x.index) == list(keep.index) and list(x.columns) == list(keep.columns) and x.equals(keep), "source unchanged")
    # a wrong shape must not be accepted
    ctx.raises(lambda: TSCDataFrame.from_same_indices_as(x, np.zeros((n + 1, p))), "wrong number of rows")


def run_csv(case, ctx):
    spec = case["tsc"]
    x = gen.build(spec)
    gen.classify(spec, ctx)
    ctx.nt(len(spec["ser"]) > 1)
    text = x.to_csv()
    kw = {"float_precision": "round_trip"}
    if spec["kind"] == "dt":
        kw["parse_dates"] = [1]
    y = TSCDataFrame.from_csv(io.StringIO(text), **kw)
    gen.valid_tsc(ctx, y, "csv import")
    gen.same_frame(ctx, y, x.index, x.columns, x.to_numpy(), "csv round trip", rtol=0, atol=0, tol=0)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "x.csv")
        x.to_csv(f)
        z = TSCDataFrame.from_csv(f, **kw)
    gen.same_frame(ctx, z, x.index, x.columns, x.to_numpy(), "csv file round trip", rtol=0, atol=0, tol=0)


def run_copy(case, ctx):
    spec = case["tsc"]
    gen.classify(spec, ctx)
    kw = {}
    if spec["kind"] == "int" and case["fd"]:
        kw["fixed_delta"] = 0.5
    x = TSCDataFrame(gen.build(spec).to_numpy(), index=gen.index(spec), columns=spec["cols"], **kw)
    v, idx = x.to_numpy().copy(), gen.index(spec)
    ctx.nt(len(spec["ser"]) > 1)
    for name, fn in {"pickle": lambda o: pickle.loads(pickle.dumps(o)), "deepcopy": copy.deepcopy,
                     "copy": lambda o: o.copy(), "ctor": lambda o: TSCDataFrame(o, **kw)}.items():
        y = fn(x)
        gen.valid_tsc(ctx, y, name)
        gen.same_frame(ctx, y, idx, spec["cols"], v, name, rtol=0, atol=0, tol=0)
        ctx.eq(y.index.get_level_values(1).dtype, x.index.get_level_values(1).dtype, f"{name}: time dtype")
        if name == "pickle" or not kw:  # copying does not promise to keep `fixed_delta`
            ctx.eq(getattr(y, "fixed_delta", None), kw.get("fixed_delta"), f"{name}: fixed_delta")
            ctx.index(y.time_values(), x.time_values(), f"{name}: time values")
        if name != "ctor":
            y.iloc[0, 0] = 12345.0
            ctx.close(x.to_numpy(), v, f"{name} is independent of the source", rtol=0, atol=0)
    # single rows and initial states are typed consistently
    if True:
        ini = x.initial_states(1)
        gen.valid_tsc(ctx, ini, "initial_states")
        r = case["row"] % x.shape[0]
        one = x.iloc[[r], :]
        gen.valid_tsc(ctx, one, "single row")
        gen.same_frame(ctx, one, [idx[r]], spec["cols"], v[[r]], "single row", rtol=0, atol=0)
        h = x.head(1)
        gen.valid_tsc(ctx, h, "head(1)")
        back = TSCDataFrame(pd.DataFrame(one))
        gen.same_frame(ctx, back, [idx[r]], spec["cols"], v[[r]], "single row via DataFrame", rtol=0, atol=0)
        m = x.loc[[idx[r]], :]
        gen.valid_tsc(ctx, m, "loc of one row label")
    plain = pd.DataFrame(x)
    ctx.ok(type(plain) is pd.DataFrame, "DataFrame export")
    gen.same_frame(ctx, plain, idx, spec["cols"], v, "DataFrame export", rtol=0, atol=0)


def run_ic(case, ctx):
    rng = gen.rng_of(case["seed"])
    n, p = case["n"], case["p"]
    cols = cols_of(case, p)
    v = rng.normal(size=(n, p))
    t = [0, 3, 0.25][case["t"]]
    ids = None if not case["ids"] else rng.permutation(20)[:n]
    ctx.nt(n > 1)
    x = InitialCondition.from_array(v, time_value=t, feature_names=cols if case["lst"] else pd.Index(cols), ts_ids=ids)
    gen.valid_tsc(ctx, x, "initial condition")
    gen.same_frame(ctx, x, [(int(i), t) for i in (range(n) if ids is None else ids)], cols, v, "from_array", rtol=0, atol=0)
    y = InitialCondition.from_array(v[0], time_value=t, feature_names=cols)
    gen.same_frame(ctx, y, [(0, t)], cols, v[[0]], "from_array (vector)", rtol=0, atol=0)
    # control input
    m = case["m"]
    u = rng.normal(size=(m, p))
    dt = [1, 0.1, 0.01, 0.3, 2][case["dt"]]
    uu = InitialCondition.from_array_control(u, control_names=cols, dt=dt, ts_id=case["uid"])
    gen.valid_tsc(ctx, uu, "control")
    gen.same_frame(ctx, uu, [(case["uid"] or 0, k * dt) for k in range(m)], cols, u, "from_array_control(dt)", rtol=0, atol=0)
    tv = times_of(case, m)
    uu = InitialCondition.from_array_control(u, control_names=cols, time_values=tv)
    same_cells(ctx, uu, {(0, gen_key(t), c): u[r, k] for r, t in enumerate(tv) for k, c in enumerate(cols)}, "from_array_control")
    u1 = InitialCondition.from_array_control(u[:, 0], control_names=cols[:1], dt=dt)
    ctx.close(u1.to_numpy(), u[:, [0]], "one-dimensional control", rtol=0, atol=0)


KIND = st.sampled_from(["int", "float", "dt"])
KW = dict(max_series=4, max_len=5)
SUBS = [
    Sub("tensor", st.fixed_dictionaries({"n": st.integers(1, 5), "m": st.integers(1, 6), "p": st.integers(1, 4), "kind": KIND,
        "ids": st.integers(0, 2), "cols": st.integers(0, 2), "times": st.integers(0, 2), "seed": gen.seeds()}),
        run_tensor, "several series and non-default labels", quick=750, thorough=15000),
    Sub("frames", st.fixed_dictionaries({"items": st.lists(st.tuples(st.integers(1, 5), st.integers(0, 3)), min_size=1, max_size=4),
        "p": st.integers(1, 3), "kind": KIND, "ids": st.integers(0, 2), "seed": gen.seeds()}),
        run_frames, "two or more series", quick=600, thorough=10000, shards=2),
    Sub("single", st.fixed_dictionaries({"n": st.integers(1, 6), "p": st.integers(1, 4), "kind": KIND, "shuffle": st.booleans(),
        "ts_id": st.one_of(st.none(), st.integers(0, 9)), "named": st.booleans(), "seed": gen.seeds()}),
        run_single, "two or more samples", quick=450, thorough=8000),
    Sub("shift", st.fixed_dictionaries({"n": st.integers(1, 6), "p": st.integers(1, 4), "row": st.booleans(), "t": st.integers(0, 3),
        "seed": gen.seeds()}), run_shift, "several pairs and features", quick=450, thorough=8000),
    Sub("copyidx", st.fixed_dictionaries({"tsc": gen.tsc_spec(**KW), "q": st.integers(0, 3), "seed": gen.seeds()}),
        run_copyidx, "two or more rows", quick=450, thorough=8000),
    Sub("csv", st.fixed_dictionaries({"tsc": gen.tsc_spec(**KW)}), run_csv, "two or more series", quick=400, thorough=8000),
    Sub("copy", st.fixed_dictionaries({"tsc": gen.tsc_spec(**KW), "fd": st.booleans(), "row": A}), run_copy,
        "two or more series", quick=600, thorough=10000),
    Sub("ic", st.fixed_dictionaries({"n": st.integers(1, 5), "p": st.integers(1, 3), "m": st.integers(1, 12), "t": st.integers(0, 2),
        "kind": KIND, "dt": st.integers(0, 4), "ids": st.booleans(), "lst": st.booleans(),
        "uid": st.one_of(st.none(), st.integers(0, 5)), "seed": gen.seeds()}), run_ic,
        "two or more initial conditions", quick=400, thorough=8000),
]
ASSUMPTIONS = ["csv round trips use read_csv(float_precision='round_trip') and parse_dates for datetime indices"]
