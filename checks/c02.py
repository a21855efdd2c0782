"""C02: shape and time queries against a per-series reading of the rows."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from datafold import TSCDataFrame
from datafold.pcfold.timeseries.collection import TSCException
from vh import gen
from vh.core import Sub


def model(spec):
    """Per-series facts in ticks (exact integers)."""
    m = {}
    for s in spec["ser"]:
        d = np.diff(s["t"])
        m[s["id"]] = dict(t=s["t"], n=len(s["t"]),
                          dt=None if len(d) == 0 or len(set(d.tolist())) > 1 else int(d[0]))
    return m


def as_dt(spec, ticks):
    if ticks is None:
        return np.nan
    return ticks * spec["unit"]


def cmp_dt(ctx, spec, got, want_ticks, what):
    """got: a scalar reported by the library."""
    if want_ticks is None:
        ctx.ok(pd.isnull(got), f"{what}: expected nan/NaT, got {got!r}")
    elif spec["kind"] == "dt":
        ctx.ok(not pd.isnull(got) and pd.Timedelta(got) == pd.Timedelta(seconds=want_ticks * spec["unit"]),
               f"{what}: got {got!r} expected {want_ticks * spec['unit']} s")
    else:
        ctx.ok(np.isclose(float(got), want_ticks * spec["unit"], rtol=1e-9, atol=0),
               f"{what}: got {got!r} expected {want_ticks * spec['unit']}")


def check_delta(ctx, spec, m, got, what="delta_time"):
    want = {i: v["dt"] for i, v in m.items()}
    if len(set(want.values())) == 1:
        ctx.ok(np.ndim(got) == 0 and not isinstance(got, pd.Series), f"{what}: expected one value, got {got!r}")
        cmp_dt(ctx, spec, got, next(iter(want.values())), what)
    else:
        ctx.ok(isinstance(got, pd.Series), f"{what}: series differ ({want}) but got {got!r}")
        ctx.index(sorted(got.index), sorted(want), f"{what} index")
        for i in want:
            cmp_dt(ctx, spec, got.loc[i], want[i], f"{what} of series {i}")


def run(case, ctx):
    spec = case["tsc"]
    x = gen.build(spec)
    gen.classify(spec, ctx)
    if case["nan"] is not None:
        v = x.to_numpy().copy()
        v[case["nan"][0] % v.shape[0], case["nan"][1] % v.shape[1]] = [np.nan, np.inf, -np.inf][case["nan"][2]]
        x = gen.build(spec, v)
    vals = x.to_numpy().copy()
    m = model(spec)
    ids = sorted(m)
    ns = [m[i]["n"] for i in ids]
    ctx.nt(len(ids) > 1)

    ctx.index(x.ids, ids, "ids")
    ctx.eq(x.n_timeseries, len(ids), "n_timeseries")
    ctx.eq(x.n_features, len(spec["cols"]), "n_features")
    nts = x.n_timesteps
    if len(set(ns)) == 1:
        ctx.ok(np.ndim(nts) == 0 and nts == ns[0], f"n_timesteps {nts!r} expected {ns[0]}")
    else:
        ctx.ok(isinstance(nts, pd.Series), f"n_timesteps {nts!r}")
        ctx.eq({int(k): int(v) for k, v in nts.items()}, {i: m[i]["n"] for i in ids}, "n_timesteps")
    ctx.eq(bool(x.is_equal_length()), len(set(ns)) == 1, "is_equal_length")

    check_delta(ctx, spec, m, x.delta_time)
    dts = {v["dt"] for v in m.values()}
    const = len(dts) == 1 and None not in dts
    ctx.tag(f"const:{const}")
    ctx.eq(bool(x.is_const_delta_time()), const, "is_const_delta_time")
    ctx.eq(bool(x.is_const_delta_time(x.delta_time)), const, "is_const_delta_time(given)")

    allt = sorted({t for v in m.values() for t in v["t"]})
    tv = gen.time_array(allt, spec["kind"], spec["unit"])
    got = x.time_values()
    ctx.ok(np.asarray(got).shape == tv.shape and (np.asarray(got) == tv).all(), f"time_values {got} expected {tv}")
    lo, hi = x.time_interval()
    ctx.ok(lo == tv[0] and hi == tv[-1], f"time_interval {(lo, hi)}")
    for i in ids:
        ti = gen.time_array(m[i]["t"], spec["kind"], spec["unit"])
        lo, hi = x.time_interval(i)
        ctx.ok(lo == ti[0] and hi == ti[-1], f"time_interval({i}) {(lo, hi)} expected {ti[0], ti[-1]}")

    same = len({tuple(v["t"]) for v in m.values()}) == 1
    ctx.tag(f"same:{same}")
    ctx.eq(bool(x.is_same_time_values()), same, "is_same_time_values")
    ctx.eq(bool(x.is_datetime_index()), spec["kind"] == "dt", "is_datetime_index")
    norm = const and spec["kind"] != "dt" and allt[0] == 0 and next(iter(dts)) * spec["unit"] == 1
    if spec["kind"] != "dt":
        ctx.eq(bool(x.is_normalized_time()), bool(norm), "is_normalized_time")
    ctx.eq(bool(x.is_finite()), bool(np.isfinite(vals).all()), "is_finite")
    deg = [i for i in ids if m[i]["n"] == 1]
    ctx.eq(bool(x.has_degenerate()), bool(deg), "has_degenerate")
    d = x.degenerate_ids()
    ctx.eq([] if d is None else sorted(int(k) for k in d), deg, "degenerate_ids")

    # const_sampled_time_values
    if const:
        step = next(iter(dts))
        want = list(range(allt[0], allt[-1] + 1, step))
        got = np.asarray(x.const_sampled_time_values())
        w = gen.time_array(want, spec["kind"], spec["unit"])
        if (allt[-1] - allt[0]) % step == 0:
            ctx.ok(got.shape == w.shape, f"const_sampled_time_values {got} expected {w}")
            if spec["kind"] == "dt":
                ctx.ok((got == w).all(), f"const_sampled_time_values {got} expected {w}")
            else:
                ctx.close(got, w, "const_sampled_time_values")
    else:
        ctx.raises(x.const_sampled_time_values, "const_sampled_time_values without constant sampling", TSCException)

    # feature_to_array
    f = spec["cols"][case["f"] % len(spec["cols"])]
    j = spec["cols"].index(f)
    if same:
        per = gen.per_series(spec, vals)
        frame = x.feature_to_array(f, as_frame=True)
        ctx.index(sorted(frame.index), ids, "feature_to_array index")
        for i in ids:
            ctx.close(frame.loc[i].to_numpy(), per[i][1][:, j], f"feature_to_array row of {i}")
            ctx.ok((frame.columns.to_numpy() == per[i][0]).all(), "feature_to_array columns")
        arr = x.feature_to_array(f)
        ctx.close(arr, np.stack([per[i][1][:, j] for i in per]), "feature_to_array (rows as in the collection)")
    else:
        ctx.raises(lambda: x.feature_to_array(f), "feature_to_array with different time values", TSCException)

    # iteration
    per = gen.per_series(spec, vals)
    seen = []
    for i, df in x.itertimeseries():
        seen.append(int(i))
        ctx.ok((df.index.to_numpy() == per[int(i)][0]).all(), f"itertimeseries times of {i}")
        ctx.close(df.to_numpy(), per[int(i)][1], f"itertimeseries values of {i}")
    ctx.eq(sorted(seen), ids, "itertimeseries ids")
    seen = []
    for ts in x.itertimeseries(valid_tsc=True):
        gen.valid_tsc(ctx, ts, "itertimeseries(valid_tsc)")
        i = int(ts.ids[0])
        seen.append(i)
        ctx.close(ts.to_numpy(), per[i][1], f"itertimeseries(valid) values of {i}")
    ctx.eq(sorted(seen), ids, "itertimeseries(valid) ids")

    # overview
    tab = x.tsc.time_values_overview()
    ctx.index(sorted(tab.index), ids, "overview index")
    for i in ids:
        ti = per[i][0]
        ctx.ok(tab.loc[i, "start"] == ti[0] and tab.loc[i, "end"] == ti[-1], f"overview start/end of {i}")
        cmp_dt(ctx, spec, tab.loc[i, "delta_time"], m[i]["dt"], f"overview delta_time of {i}")

    # nothing changed by asking
    ctx.index(x.index, gen.index(spec), "index after queries")
    ctx.close(x.to_numpy(), vals, "values after queries")


def run_selected(case, ctx):
    """The same queries after a selection (unused index levels must not leak)."""
    spec = case["tsc"]
    x = gen.build(spec)
    keep = [s["id"] for k, s in enumerate(spec["ser"]) if (case["mask"] >> k) & 1] or [spec["ser"][0]["id"]]
    sub = {**spec, "ser": [s for s in spec["ser"] if s["id"] in keep]}
    y = x[x.index.get_level_values("ID").isin(keep)]
    m = model(sub)
    ids = sorted(m)
    ctx.nt(len(keep) < len(spec["ser"]))
    ctx.index(y.ids, ids, "ids of the selection")
    allt = sorted({t for v in m.values() for t in v["t"]})
    ctx.index(y.time_values(), gen.time_array(allt, spec["kind"], spec["unit"]), "time_values of the selection")
    check_delta(ctx, sub, m, y.delta_time, "delta_time of the selection")
    ctx.eq(y.n_timeseries, len(ids), "n_timeseries of the selection")
    ctx.eq(bool(y.is_same_time_values()), len({tuple(v["t"]) for v in m.values()}) == 1, "is_same_time_values of the selection")
    # concatenation in arbitrary ID order
    if len(spec["ser"]) > len(keep):
        other = x[~x.index.get_level_values("ID").isin(keep)]
        if len(other):
            z = pd.concat([other, y], axis=0)
            mz = model(spec)
            ctx.index(z.ids, sorted(mz), "ids of concatenation")
            check_delta(ctx, spec, mz, z.delta_time, "delta_time of concatenation")
            allt = sorted({t for v in mz.values() for t in v["t"]})
            ctx.index(z.time_values(), gen.time_array(allt, spec["kind"], spec["unit"]), "time_values of concatenation")
            n = z.n_timesteps
            want = {i: v["n"] for i, v in mz.items()}
            ctx.eq({int(k): int(v) for k, v in n.items()} if isinstance(n, pd.Series) else {i: n for i in want}, want,
                   "n_timesteps of concatenation")


def run_fixed(case, ctx):
    """Integer index with a fixed sampling factor."""
    spec = case["tsc"]
    fd = case["fd"]
    x = TSCDataFrame(gen.build(spec).to_numpy(), index=gen.index(spec), columns=spec["cols"], fixed_delta=fd)
    m = model(spec)
    ctx.nt(len(m) > 1)
    allt = np.array(sorted({t for v in m.values() for t in v["t"]})) * spec["unit"]
    ctx.close(x.time_values(), allt * fd, "time_values with fixed_delta")
    ctx.close(x.time_values(with_fixed_delta=False), allt, "time_values without fixed_delta")
    s2 = {**spec, "unit": spec["unit"] * fd, "kind": "float"}
    check_delta(ctx, s2, m, x.delta_time, "delta_time with fixed_delta")


KW = dict(max_series=5, max_len=6)
SUBS = [
    Sub("queries", st.fixed_dictionaries({
        "tsc": gen.tsc_spec(**KW), "f": st.integers(0, 3),
        "nan": st.one_of(st.none(), st.tuples(st.integers(0, 20), st.integers(0, 3), st.integers(0, 2)))}),
        run, "two or more series", quick=2800, thorough=40000, shards=6),
    Sub("selected", st.fixed_dictionaries({"tsc": gen.tsc_spec(min_series=2, **KW), "mask": st.integers(0, 31)}),
        run_selected, "a proper subset of the series is selected", quick=800, thorough=12000, shards=1),
    Sub("fixed", st.fixed_dictionaries({"tsc": gen.tsc_spec(kinds=("int",), **KW),
                                        "fd": st.sampled_from([0.1, 0.5, 2.0, 0.01])}),
        run_fixed, "two or more series", quick=600, thorough=6000),
]
ASSUMPTIONS = ["float time values are generated as tick * unit, so that sampling is constant exactly or clearly not"]
