"""C10: cross-validation splits."""
import numpy as np
from hypothesis import strategies as st

from datafold.pcfold.timeseries.collection import TSCException
from datafold.pcfold.timeseries.metric import TSCKfoldSeries, TSCKFoldTime, TSCWindowFoldTime
from vh import gen
from vh.core import Sub


def basic(ctx, folds, n):
    for a, b in folds:
        a, b = np.asarray(a), np.asarray(b)
        for z in (a, b):
            ctx.ok(z.ndim == 1 and len(z) > 0, f"empty or malformed fold {z!r}")
            ctx.ok(z.dtype.kind in "iu", f"index dtype {z.dtype}")
            ctx.ok(z.min() >= 0 and z.max() < n, "index out of range")
            ctx.ok((np.diff(z) > 0).all(), "indices sorted and unique")
        ctx.ok(len(np.intersect1d(a, b)) == 0, "train and test overlap")


def sizes(n, k):
    return sorted([n // k + (r < n % k) for r in range(k)])


def run_series(case, ctx):
    spec, k = case["tsc"], case["k"]
    x = gen.build(spec)
    gen.classify(spec, ctx)
    n, ids = len(x), [s["id"] for s in spec["ser"]]
    cv = TSCKfoldSeries(n_splits=k, shuffle=case["shuffle"], random_state=case["rs"] if case["shuffle"] else None)
    ctx.eq(cv.get_n_splits(x), k, "announced number of folds")
    if len({len(s["t"]) for s in spec["ser"]}) > 1:
        ctx.tag("refused")
        ctx.raises(lambda: list(cv.split(x)), "series of different length", NotImplementedError)
        return
    if len(ids) < k:
        ctx.tag("refused")
        ctx.raises(lambda: list(cv.split(x)), "more folds than series", ValueError)
        return
    ctx.nt()
    folds = list(cv.split(x))
    ctx.eq(len(folds), k, "number of folds")
    basic(ctx, folds, n)
    rid = np.array([i for i, _ in gen.rows(spec)])
    tested = []
    for a, b in folds:
        ctx.eq(len(a) + len(b), n, "every sample is used in a fold")
        ctx.ok(not (set(rid[a]) & set(rid[b])), "a series is split")
        tested.append(len(set(rid[b])))
        gen.valid_tsc(ctx, x.iloc[a, :], "training data")
        gen.valid_tsc(ctx, x.iloc[b, :], "test data")
    allb = np.concatenate([b for _, b in folds])
    ctx.eq(sorted(allb.tolist()), list(range(n)), "every sample is tested exactly once")
    ctx.eq(sorted(tested), sizes(len(ids), k), "balanced folds")
    again = list(TSCKfoldSeries(n_splits=k, shuffle=case["shuffle"], random_state=case["rs"] if case["shuffle"] else None).split(x))
    ctx.ok(all((p[0] == q[0]).all() and (p[1] == q[1]).all() for p, q in zip(folds, again)), "repeatable")


def run_time(case, ctx):
    spec, k = case["tsc"], case["k"]
    x = gen.build(spec)
    gen.classify(spec, ctx)
    n = len(x)
    cv = TSCKFoldTime(n_splits=k)
    ctx.eq(cv.get_n_splits(x), k, "announced number of folds")
    if len({tuple(s["t"]) for s in spec["ser"]}) > 1:
        ctx.tag("refused")
        ctx.raises(lambda: list(cv.split(x)), "different time values", NotImplementedError)
        return
    t = spec["ser"][0]["t"]
    if len(t) < k:
        ctx.tag("refused")
        ctx.raises(lambda: list(cv.split(x)), "more folds than time steps", ValueError)
        return
    ctx.nt(len(spec["ser"]) > 1)
    folds = list(cv.split(x))
    ctx.eq(len(folds), k, "number of folds")
    basic(ctx, folds, n)
    tick = np.array([q for _, q in gen.rows(spec)])
    blocks = []
    for a, b in folds:
        ctx.eq(len(a) + len(b), n, "every sample is used in a fold")
        tb = sorted(set(tick[b]))
        ctx.ok(not (set(tick[a]) & set(tb)), "test time values are contained in the training data")
        lo = t.index(tb[0])
        ctx.eq(tb, t[lo:lo + len(tb)], "test time values are one block")
        ctx.eq(len(b), len(tb) * len(spec["ser"]), "all series in the test block")
        blocks.append(len(tb))
    allb = np.concatenate([b for _, b in folds])
    ctx.eq(sorted(allb.tolist()), list(range(n)), "every sample is tested exactly once")
    ctx.eq(sorted(blocks), sizes(len(t), k), "balanced folds")


@st.composite
def disjoint(draw):
    spec = draw(gen.tsc_spec(max_series=4, max_len=3))
    ids = sorted(s["id"] for s in spec["ser"]) if draw(st.booleans()) else [s["id"] for s in spec["ser"]]
    t, ser = draw(st.integers(0, 3)), []
    step = draw(st.integers(1, 2))
    for i in ids:
        m = draw(st.integers(2, 12))
        ser.append({"id": i, "t": [t + step * q for q in range(m)]})
        t = ser[-1]["t"][-1] + draw(st.integers(1, 4))
    spec["ser"] = ser
    return spec


def run_window(case, ctx):
    spec, w, off, mn = case["tsc"], case["w"], case["off"], case["min"]
    x = gen.build(spec)
    v = x.to_numpy().copy()
    gen.classify(spec, ctx)
    n = len(x)
    cv = TSCWindowFoldTime(test_window_length=w, window_offset=off, train_min_timesteps=mn)
    ctx.raises(lambda: cv.get_n_splits(), "number of splits without data", ValueError)
    lens = [len(s["t"]) for s in spec["ser"]]
    if max(lens) < w:
        ctx.tag("refused")
        ctx.raises(lambda: list(cv.split(x)), "all series too short", ValueError)
        return
    allt = [q for _, q in gen.rows(spec)]
    dts = [set(np.diff(s["t"])) for s in spec["ser"]]
    const = all(len(d) == 1 for d in dts) and len(set().union(*dts)) == 1
    if len(set(allt)) < len(allt) or not const:
        ctx.tag("refused")
        ctx.raises(lambda: list(cv.split(x)), "overlapping or irregular series", TSCException)
        return
    # model: windows from the end of each series, the last series first
    want, base = [], n
    for s in reversed(spec["ser"]):
        m = len(s["t"])
        end = base
        while end - w >= base - m:
            want.append(list(range(end - w, end)))
            end -= w + off
        base -= m
    expect = []
    starts = np.cumsum([0] + lens)
    for b in want:
        train = []
        for k, m in enumerate(lens):
            rows = [r for r in range(starts[k], starts[k + 1])]
            if b[0] in rows:
                parts = [[r for r in rows if r < b[0]], [r for r in rows if r > b[-1]]]
            else:
                parts = [rows]
            for p in parts:
                if mn is None or len(p) >= mn:
                    train += p
        if train:
            expect.append((sorted(train), b))
    folds = list(cv.split(x))
    ctx.nt(len(expect) > 1)
    ctx.tag(f"folds:{min(len(expect), 4)}", f"lost:{len(want) - len(expect) > 0}")
    basic(ctx, folds, n)
    ctx.eq(len(folds), len(expect), "number of folds")
    ctx.eq(cv.get_n_splits(x), len(expect), "announced number of folds")
    for (a, b), (ea, eb) in zip(folds, expect):
        ctx.eq(b.tolist(), eb, "test window")
        ctx.eq(a.tolist(), ea, "training samples")
    gen.same_frame(ctx, x, gen.index(spec), spec["cols"], v, "input", 0, 0, 0)


EQ = st.one_of(gen.tsc_spec(max_series=6, min_series=2, max_len=5, equal_len=True), gen.tsc_spec(max_series=6, max_len=8, same_times=True),
               gen.tsc_spec(max_series=4, max_len=5))
SUBS = [
    Sub("series", st.fixed_dictionaries({"tsc": EQ, "k": st.integers(2, 5), "shuffle": st.booleans(), "rs": st.integers(0, 99)}),
        run_series, "split possible", quick=700, thorough=15000),
    Sub("time", st.fixed_dictionaries({"tsc": EQ, "k": st.integers(2, 5)}), run_time, "several series, split possible",
        quick=700, thorough=15000),
    Sub("window", st.fixed_dictionaries({"tsc": st.one_of(disjoint(), disjoint(), disjoint(), gen.tsc_spec(max_series=3, max_len=4)),
        "w": st.integers(1, 5), "off": st.integers(0, 3), "min": st.one_of(st.none(), st.integers(1, 5))}),
        run_window, "two or more windows", quick=1250, thorough=20000, shards=5),
]
ASSUMPTIONS = ["window folds: windows are counted from the last stored series, the order of series is the order of rows"]
