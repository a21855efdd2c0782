"""C07: (re)assignment of series IDs partitions the samples."""
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from datafold import TSCDataFrame
from vh import gen
from vh.core import Sub

A = st.integers(0, 10**6)


def cells(spec):
    """Values that identify the row: column 0 holds the row number."""
    n, p = len(gen.rows(spec)), len(spec["cols"])
    return np.arange(n)[:, None] + np.arange(p)[None, :] * 1000.0


def tkey(t):
    return pd.Timestamp(t).value if isinstance(t, (pd.Timestamp, np.datetime64)) else float(t)


def back(ctx, spec, v, got, what):
    """Row numbers of the source contained in `got`; checks values and times."""
    times = gen.index(spec).get_level_values(1)
    d = pd.DataFrame(got)
    rno = []
    for (i, t), row in zip(d.index, d.to_numpy()):
        r = int(row[0])
        ctx.ok(0 <= r < len(v) and (row == v[r]).all(), f"{what}: values changed: {row}")
        ctx.ok(tkey(t) == tkey(times[r]), f"{what}: time of sample {r} changed: {t}")
        rno.append((int(i), r))
    ctx.index(d.columns, spec["cols"], f"{what}: columns")
    return rno


def group(ctx, spec, rno, what):
    """{new ID: row numbers}; consecutive rows of one source series in the source order."""
    src = [i for i, _ in gen.rows(spec)]
    out = {}
    for i, r in rno:
        out.setdefault(i, []).append(r)
    allr = [r for _, r in rno]
    ctx.ok(len(set(allr)) == len(allr), f"{what}: duplicated samples")
    for i, rr in out.items():
        ctx.ok(len({src[r] for r in rr}) == 1, f"{what}: series {i} joins samples of different series")
        ctx.ok(rr == sorted(rr), f"{what}: order of samples in series {i}")
    return out


def run_seq(case, ctx):
    spec = case["tsc"]
    v = cells(spec)
    x = gen.build(spec, v)
    gen.classify(spec, ctx)
    if case["sel"] and len(spec["ser"]) > 1:
        drop = spec["ser"][case["pick"] % len(spec["ser"])]["id"]
        x = x[x.index.get_level_values("ID") != drop]
    n = len(x)
    want = [int(r) for r in x.to_numpy()[:, 0]]
    src = [i for i, _ in gen.rows(spec)]
    k = len({src[r] for r in want})
    ctx.nt(k > 1)
    y = x.copy().tsc.assign_ids_sequential()
    gen.valid_tsc(ctx, y)
    rno = back(ctx, spec, v, y, "assign_ids_sequential")
    ctx.eq([r for _, r in rno], want, "rows")
    ctx.eq(sorted({i for i, _ in rno}), list(range(k)), "IDs are 0, 1, ...")
    group(ctx, spec, rno, "assign_ids_sequential")
    ctx.eq(len({(i, src[r]) for i, r in rno}), k, "one new ID per series")
    ctx.eq(n, len(y), "number of rows")


def run_split(case, ctx):
    spec = case["tsc"]
    v = cells(spec)
    x = gen.build(spec, v)
    gen.classify(spec, ctx)
    n = len(v)
    rng = gen.rng_of(case["seed"])
    # 0 train, 1 test, 2 dropped; blocks or single samples
    lab = np.zeros(n, dtype=int)
    r = 0
    while r < n:
        w = int(rng.integers(1, 2 + case["block"]))
        lab[r:r + w] = rng.choice(3, p=[0.5, 0.35, 0.15] if case["drop"] else [0.55, 0.45, 0.0])
        r += w
    train, test, dropped = (np.flatnonzero(lab == k) for k in range(3))
    if len(train) == 0 or len(test) == 0:
        ctx.tag("empty side")
        return
    ctx.tag(f"dropped:{len(dropped) > 0}")
    a, b, c = x.tsc.assign_ids_train_test(train, test, return_dropped=True)
    a2, b2 = x.tsc.assign_ids_train_test(train, test)
    ctx.ok(pd.DataFrame(a).equals(pd.DataFrame(a2)) and pd.DataFrame(b).equals(pd.DataFrame(b2)), "return_dropped changes the result")
    ids = []
    src = [i for i, _ in gen.rows(spec)]
    for part, idx, what in ((a, train, "train"), (b, test, "test")):
        gen.valid_tsc(ctx, part, what)
        rno = back(ctx, spec, v, part, what)
        ctx.eq([q for _, q in rno], idx.tolist(), f"{what}: samples")
        g = group(ctx, spec, rno, what)
        for i, rr in g.items():
            ctx.ok(rr == list(range(rr[0], rr[-1] + 1)), f"{what}: series {i} bridges samples of another set")
        # maximal: successive samples of the same series in the same set stay together
        m = dict((q, i) for i, q in rno)
        for q in idx[:-1]:
            if q + 1 in m and src[q] == src[q + 1]:
                ctx.ok(m[q] == m[q + 1], f"{what}: series split without reason")
        ids.append(set(g))
    ctx.ok(not (ids[0] & ids[1]), "train and test series share an ID")
    rno = back(ctx, spec, v, c, "dropped")
    ctx.eq([q for _, q in rno], dropped.tolist(), "dropped samples")
    ctx.nt(len(ids[0]) + len(ids[1]) > 2)
    gen.same_frame(ctx, x, gen.index(spec), spec["cols"], v, "source", 0, 0, 0)
    # invalid indices
    ctx.raises(lambda: x.tsc.assign_ids_train_test(train, np.sort(np.append(test, train[0]))), "overlap", ValueError)
    if len(train) > 1:
        ctx.raises(lambda: x.tsc.assign_ids_train_test(train[::-1], test), "unsorted", ValueError)
    ctx.raises(lambda: x.tsc.assign_ids_train_test(train.astype(float), test), "float indices", ValueError)


def run_const(case, ctx):
    spec, drop = case["tsc"], case["drop"]
    v = cells(spec)
    x = gen.build(spec, v)
    gen.classify(spec, ctx)
    keep = x.copy()
    what = f"assign_ids_const_delta(drop_samples={drop})"
    diffs = {s["id"]: np.diff(s["t"]) for s in spec["ser"]}
    regular = {i: len(d) > 0 and len(set(d)) == 1 for i, d in diffs.items()}
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        if drop:
            y = x.tsc.assign_ids_const_delta(drop_samples=True)
        else:
            try:
                y = x.tsc.assign_ids_const_delta(drop_samples=False)
            except ValueError:
                ctx.tag("refused")
                ctx.ok(not all(regular.values()), f"{what}: refused although every series is regular")
                gen.same_frame(ctx, x, keep.index, spec["cols"], v, "source", 0, 0, 0)
                return
    gave_up = any("assign_ids_const_delta" in str(w.message) for w in rec)
    ctx.tag(f"warned:{gave_up}", f"none:{y is None}")
    gen.same_frame(ctx, x, keep.index, spec["cols"], v, "source", 0, 0, 0)
    ctx.eq(x.tsc.time_values_overview().shape[0], len(spec["ser"]), "accessor of the source still describes the source")
    src = [i for i, _ in gen.rows(spec)]
    kept = set()
    if y is None:
        ctx.ok(drop, f"{what}: no result")
    else:
        gen.valid_tsc(ctx, y)
        rno = back(ctx, spec, v, y, what)
        g = group(ctx, spec, rno, what)
        ctx.eq(sorted(g), list(range(len(g))), f"{what}: IDs")
        kept = {r for _, r in rno}
        for i, rr in g.items():
            ctx.ok(rr == list(range(rr[0], rr[-1] + 1)), f"{what}: series {i} skips samples")
            t = [gen.rows(spec)[r][1] for r in rr]
            if not gave_up:
                ctx.ok(len(set(np.diff(t))) == 1, f"{what}: series {i} is not regular: {t}")
        ctx.nt(len(g) > len(spec["ser"]))
    if not drop:
        ctx.eq(sorted(kept), list(range(len(v))), f"{what}: samples lost")
    # whole regular series are kept, as one series
    for r, i in enumerate(src):
        if regular[i]:
            ctx.ok(r in kept, f"{what}: sample {r} of regular series {i} lost")
    if y is not None:
        m = {r: i for i, r in rno}
        for i in regular:
            if regular[i]:
                ctx.ok(len({m[r] for r in range(len(v)) if src[r] == i}) == 1, f"{what}: regular series {i} was split")
        # interior of a regular block (two equal steps on both sides) is not lost
    for s in spec["ser"]:
        d = diffs[s["id"]]
        base = src.index(s["id"])
        for k in range(2, len(d) - 1):
            if d[k - 2] == d[k - 1] == d[k] == d[k + 1]:
                ctx.ok(base + k in kept, f"{what}: sample {base + k} inside a regular block lost")


@st.composite
def blocks(draw):
    """Series that consist of blocks of constant sampling."""
    lay = draw(gen.tsc_spec(max_series=3, max_len=2, values=("int",)))
    for s in lay["ser"]:
        t = [draw(st.integers(0, 4))]
        for _ in range(draw(st.integers(1, 3))):
            if len(t) > 1:
                t.append(t[-1] + draw(st.integers(1, 9)))
            step = draw(st.integers(1, 3))
            for _ in range(draw(st.integers(0, 5))):
                t.append(t[-1] + step)
        s["t"] = t
    return lay


SUBS = [
    Sub("sequential", st.fixed_dictionaries({"tsc": gen.tsc_spec(max_series=5, max_len=4), "sel": st.booleans(), "pick": A}),
        run_seq, "several series", quick=800, thorough=10000),
    Sub("train_test", st.fixed_dictionaries({"tsc": gen.tsc_spec(max_series=5, max_len=8), "block": st.integers(0, 5),
        "drop": st.booleans(), "seed": gen.seeds()}), run_split, "more than two resulting series", quick=2000, thorough=30000, shards=3),
    Sub("const_delta", st.fixed_dictionaries({"tsc": st.one_of(blocks(), blocks(), gen.tsc_spec(max_series=4, max_len=7)),
        "drop": st.booleans()}), run_const, "a series was split", quick=2000, thorough=30000, shards=4),
]
ASSUMPTIONS = []
