"""Generators of time series collections as plain JSON specs, and builders."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

BASE = pd.Timestamp("2021-03-01 00:00:00")
NAMES = ["a", "b", "x1", "x0", "z", "theta", "feature1", "Q", "y2", "c"]


def seeds():
    return st.integers(0, 2**31 - 1)


@st.composite
def layout(draw, min_series=1, max_series=4, min_len=1, max_len=7, kinds=("int", "float", "dt"),
           regular="any", equal_len=None, same_times=None, ids="any", normalized=False, max_start=6,
           units=(1.0, 0.5, 0.25, 0.1, 0.01, 0.3)):
    """Row layout of a collection.

    regular: "any" | "series" (constant step within each series) | "const" (one step for all)
    ids: "any" (unsorted, non-contiguous) | "sorted" | "range"
    Times are integer ticks times a unit, so that models can reason exactly.
    """
    n = draw(st.integers(min_series, max_series))
    if ids == "range":
        idl = list(range(n))
    else:
        idl = draw(st.lists(st.integers(0, 12), min_size=n, max_size=n, unique=True))
        if ids == "sorted":
            idl = sorted(idl)
    kind = draw(st.sampled_from(list(kinds)))
    unit = draw(st.sampled_from(list(units))) if kind == "float" else draw(st.sampled_from([1, 1, 2, 60]) if kind == "dt" else st.sampled_from([1, 1, 1, 3]))
    eq = draw(st.booleans()) if equal_len is None else equal_len
    same = draw(st.booleans()) if same_times is None else same_times
    mode = regular
    if regular == "any":
        mode = draw(st.sampled_from(["const", "const", "series", "irregular"]))
    length = draw(st.integers(min_len, max_len))
    step = draw(st.integers(1, 3))
    if normalized:
        unit, step, mode = 1, 1, "const"

    def ticks(length):
        start = 0 if normalized else draw(st.integers(0, max_start))
        if mode == "const":
            inc = [step] * (length - 1)
        elif mode == "series":
            inc = [draw(st.integers(1, 3))] * (length - 1)
        else:
            inc = draw(st.lists(st.integers(1, 4), min_size=length - 1, max_size=length - 1))
        return [start] + list((np.cumsum(inc) + start).tolist()) if length > 1 else [start]

    first = ticks(length)
    ser = []
    for i in idl:
        if same:
            t = first
        else:
            t = ticks(length if eq else draw(st.integers(min_len, max_len)))
        ser.append({"id": i, "t": [int(v) for v in t]})
    return {"ser": ser, "kind": kind, "unit": unit}


@st.composite
def tsc_spec(draw, min_feat=1, max_feat=4, values=("normal", "int"), intcols=False, **kw):
    lay = draw(layout(**kw))
    p = draw(st.integers(min_feat, max_feat))
    if intcols and draw(st.booleans()):
        cols = draw(st.lists(st.integers(0, 20), min_size=p, max_size=p, unique=True))
    else:
        cols = draw(st.lists(st.sampled_from(NAMES), min_size=p, max_size=p, unique=True))
    lay["cols"] = cols
    lay["vk"] = draw(st.sampled_from(list(values)))
    lay["seed"] = draw(seeds())
    return lay


def time_array(ticks, kind, unit):
    t = np.asarray(ticks, dtype=np.int64)
    if kind == "int":
        return t * int(unit)
    if kind == "float":
        return t * float(unit)
    return (BASE + pd.to_timedelta(t * unit, unit="s")).to_numpy()


def values(spec, n, p, off=0):
    rng = np.random.default_rng([int(spec["seed"]), off])
    if spec.get("vk", "normal") == "int":
        return rng.integers(-9, 10, size=(n, p)).astype(float)
    return rng.normal(size=(n, p)) * 2


def rows(spec):
    """[(id, tick)] in row order."""
    return [(s["id"], t) for s in spec["ser"] for t in s["t"]]


def index(spec):
    ids = np.array([i for i, _ in rows(spec)], dtype=np.int64)
    t = time_array([t for _, t in rows(spec)], spec["kind"], spec["unit"])
    return pd.MultiIndex.from_arrays([ids, t], names=["ID", "time"])


def build(spec, vals=None, off=0):
    from datafold import TSCDataFrame

    if vals is None:
        vals = values(spec, len(rows(spec)), len(spec["cols"]), off)
    return TSCDataFrame(vals.copy(), index=index(spec), columns=list(spec["cols"]))


def per_series(spec, vals):
    """{id: (times array, values array)} in row order."""
    out, k = {}, 0
    for s in spec["ser"]:
        n = len(s["t"])
        out[s["id"]] = (time_array(s["t"], spec["kind"], spec["unit"]), vals[k:k + n])
        k += n
    return out


def unsorted_ids(spec):
    idl = [s["id"] for s in spec["ser"]]
    return idl != sorted(idl)


def unequal_len(spec):
    return len({len(s["t"]) for s in spec["ser"]}) > 1


def classify(spec, ctx):
    ctx.tag(f"time:{spec['kind']}", f"series:{len(spec['ser'])}",
            "ids:unsorted" if unsorted_ids(spec) else "ids:sorted",
            "len:unequal" if unequal_len(spec) else "len:equal")


def valid_tsc(ctx, x, what="result"):
    """The invariant of C01 on one object typed as collection."""
    from datafold import TSCDataFrame

    ctx.ok(isinstance(x, TSCDataFrame), f"{what} must be a TSCDataFrame, got {type(x)}")
    idx = x.index
    ctx.ok(isinstance(idx, pd.MultiIndex) and idx.nlevels == 2, f"{what}: two-level index")
    ctx.ok(not idx.duplicated().any(), f"{what}: duplicated rows")
    i = idx.get_level_values(0).to_numpy()
    t = idx.get_level_values(1)
    ctx.ok(i.dtype.kind in "iu", f"{what}: ID dtype {i.dtype}")
    ctx.ok((i >= 0).all(), f"{what}: negative ID")
    ctx.ok(t.dtype.kind in "iufM", f"{what}: time dtype {t.dtype}")
    tt = t.to_numpy()
    if tt.dtype.kind == "M":
        ctx.ok(not np.isnat(tt).any(), f"{what}: NaT time")
    else:
        ctx.ok(np.isfinite(tt).all() and (tt >= 0).all(), f"{what}: time not finite and non-negative")
    seen = set()
    for k in range(len(i)):
        if k and i[k] == i[k - 1]:
            ctx.ok(tt[k] > tt[k - 1], f"{what}: time not increasing within series {i[k]}")
        else:
            ctx.ok(int(i[k]) not in seen, f"{what}: series {i[k]} not contiguous")
            seen.add(int(i[k]))
    ctx.ok(x.columns.nlevels == 1 and not x.columns.duplicated().any(), f"{what}: column names")
    ctx.ok(all(d.kind in "iufbc" for d in x.dtypes), f"{what}: non numeric data {list(x.dtypes)}")
    ctx.eq(list(idx.names), ["ID", "time"], f"{what}: index names")
    ctx.eq(x.columns.name, "feature", f"{what}: columns name")


def same_frame(ctx, got, want_index, want_cols, want_vals, what, rtol=1e-9, atol=1e-10, tol=1e-9):
    ctx.index_close(got.index, want_index, what + ": rows", tol=tol)
    ctx.index(got.columns, want_cols, what + ": columns")
    ctx.close(got.to_numpy(), np.asarray(want_vals), what + ": values", rtol, atol)


# ------------------------------------------------------------------ matrices
def rng_of(seed, *more):
    return np.random.default_rng([int(seed), *[int(m) for m in more]])


def orth(rng, n):
    q, r = np.linalg.qr(rng.normal(size=(n, n)))
    return q * np.sign(np.diag(r))


def stable_matrix(rng, n, lo=0.55, hi=1.0, gap=0.06, real=False):
    """Well-conditioned diagonalisable real matrix with separated eigenvalues of modulus in [lo, hi]."""
    blocks, k = [], 0
    mods = np.linspace(hi, lo, n) if n > 1 else np.array([(lo + hi) / 2])
    mods = mods + rng.uniform(-gap / 4, gap / 4, size=n) * (1 if n < 6 else 0.2)
    while k < n:
        if not real and k + 1 < n and rng.random() < 0.5:
            a = rng.uniform(0.3, 1.2)
            m = mods[k]
            blocks.append(m * np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]]))
            k += 2
        else:
            blocks.append(np.array([[mods[k]]]))
            k += 1
    d = np.zeros((n, n))
    p = 0
    for b in blocks:
        d[p:p + len(b), p:p + len(b)] = b
        p += len(b)
    s = orth(rng, n) @ np.diag(rng.uniform(0.8, 1.25, size=n)) @ orth(rng, n)
    return s @ d @ np.linalg.inv(s)
