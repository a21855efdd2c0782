"""Generators of data from linear systems (collections on a common time grid)."""
import numpy as np
from hypothesis import strategies as st

from vh import gen


@st.composite
def grid(draw, min_series=1, max_series=4, min_len=2, max_len=8, kinds=("int", "float", "dt"), same_start=False, equal_len=None,
         units=(1.0, 0.5, 0.25, 0.1, 0.01, 0.3), min_feat=1, max_feat=4, ids="any"):
    """Layout in which all series have one sampling interval and start on multiples of it."""
    n = draw(st.integers(min_series, max_series))
    idl = draw(st.lists(st.integers(0, 12), min_size=n, max_size=n, unique=True))
    if ids == "sorted":
        idl = sorted(idl)
    kind = draw(st.sampled_from(list(kinds)))
    unit = draw(st.sampled_from(list(units))) if kind == "float" else draw(st.sampled_from([1, 1, 2, 60] if kind == "dt" else [1, 1, 2]))
    step = draw(st.sampled_from([1, 1, 2]))
    same = draw(st.booleans()) if same_start is None else same_start
    eq = draw(st.booleans()) if equal_len is None else equal_len
    length, start = draw(st.integers(min_len, max_len)), draw(st.integers(0, 4))
    ser = []
    for i in idl:
        if not eq:
            length = draw(st.integers(min_len, max_len))
        if not same:
            start = draw(st.integers(0, 4))
        ser.append({"id": i, "t": [step * (start + k) for k in range(length)]})
    p = draw(st.integers(min_feat, max_feat))
    return {"ser": ser, "kind": kind, "unit": unit, "cols": draw(st.lists(st.sampled_from(gen.NAMES), min_size=p, max_size=p, unique=True)),
            "vk": "normal", "seed": draw(gen.seeds())}


def step(spec):
    t = next(s["t"] for s in spec["ser"] if len(s["t"]) > 1)
    return t[1] - t[0]


def dt(spec):
    t = gen.time_array([0, step(spec)], spec["kind"], spec["unit"])
    return t[1] - t[0]


def orbit(x, a, n):
    out = [x]
    for _ in range(n - 1):
        out.append(a @ out[-1])
    return np.array(out)


def free_values(spec, a, rng, x0=None):
    """Rows of all series evolved by x' = a x; returns (values, initial states)."""
    out, ics = [], []
    for k, s in enumerate(spec["ser"]):
        x = rng.normal(size=a.shape[0]) if x0 is None else x0[k]
        ics.append(x)
        out.append(orbit(x, a, len(s["t"])))
    return np.vstack(out), np.array(ics)


def pairs(spec, vals):
    """Snapshot pairs (rows) of all series in row order."""
    left, right, k = [], [], 0
    for s in spec["ser"]:
        n = len(s["t"])
        left.append(vals[k:k + n - 1])
        right.append(vals[k + 1:k + n])
        k += n
    return np.vstack(left), np.vstack(right)


def split_rows(spec, vals):
    out, k = {}, 0
    for s in spec["ser"]:
        out[s["id"]] = vals[k:k + len(s["t"])]
        k += len(s["t"])
    return out


def same_rows(ctx, got, spec, vals, cols, what, rtol=1e-7, atol=1e-8):
    """`got` has the rows of spec (in row order or sorted by ID) and the values `vals`."""
    gen.valid_tsc(ctx, got, what)
    ctx.index(got.columns, cols, what + ": columns")
    parts = split_rows(spec, vals)
    order = [s for s in spec["ser"]]
    seen = list(dict.fromkeys(int(i) for i in got.index.get_level_values(0)))
    if seen != [s["id"] for s in order]:
        order = sorted(order, key=lambda s: s["id"])
    rows, want = [], []
    for s in order:
        rows += [(s["id"], t) for t in gen.time_array(s["t"], spec["kind"], spec["unit"])]
        want.append(parts[s["id"]])
    want = np.vstack(want)
    ctx.index_close(got.index, rows, what + ": rows")
    ctx.close(got.to_numpy(), want, what, rtol, atol * max(1.0, np.abs(want).max()))


def match(ctx, got, want, what, tol=1e-7):
    """Two multisets of complex numbers are equal up to tol."""
    g, w = [complex(v) for v in np.ravel(got)], [complex(v) for v in np.ravel(want)]
    ctx.eq(len(g), len(w), what + ": number of values")
    for v in w:
        k = min(range(len(g)), key=lambda q: abs(g[q] - v))
        ctx.ok(abs(g[k] - v) <= tol * max(1, abs(v)), f"{what}: value {v} not found in {got}")
        g.pop(k)
