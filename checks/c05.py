"""C05: shift matrices contain exactly the successive pairs of every series."""
import numpy as np
from hypothesis import strategies as st

from datafold.pcfold.timeseries.collection import TSCException
from vh import gen
from vh.core import Sub


def pairs_of(spec, v):
    out, k = [], 0
    for s in spec["ser"]:
        n = len(s["t"])
        out += [(v[k + r], v[k + r + 1]) for r in range(n - 1)]
        k += n
    return out


def run(case, ctx):
    spec = case["tsc"]
    n, p = len(gen.rows(spec)), len(spec["cols"])
    # every cell has its own value, so that pairs can be identified
    v = np.arange(n * p, dtype=float).reshape(n, p) + 0.5
    x = gen.build(spec, v)
    if case["hist"] and len(spec["ser"]) > 1:  # a collection with a history: selected from a larger one
        big = {**spec, "ser": spec["ser"] + [{"id": 99, "t": [0, 1, 2]}]}
        vb = np.vstack([v, np.full((3, p), -7.0)])
        b = gen.build(big, vb)
        x = b[b.index.get_level_values("ID") != 99]
    gen.classify(spec, ctx)
    lens = [len(s["t"]) for s in spec["ser"]]
    dts = [set(np.diff(s["t"])) for s in spec["ser"]]
    const = all(len(d) == 1 for d in dts) and len(set().union(*dts)) == 1
    validate = case["validate"]
    if validate and (min(lens) < 2 or not const):
        ctx.tag("rejected")
        ctx.raises(lambda: x.tsc.shift_matrices(validate=True), "too short or irregular series", TSCException)
        return
    ctx.tag("validated" if validate else "not validated", "degenerate" if min(lens) == 1 else "")
    want = pairs_of(spec, v)
    ctx.nt(len(spec["ser"]) > 1 and len(want) > 1)
    kw = {} if validate and case["default"] else {"validate": validate}
    for o in ("row", "col"):
        left, right = x.tsc.shift_matrices(snapshot_orientation=o, **kw)
        left, right = np.asarray(left), np.asarray(right)
        ctx.eq(left.shape, (len(want), p) if o == "row" else (p, len(want)), f"shape of left matrix ({o})")
        ctx.eq(right.shape, left.shape, "shape of right matrix")
        if o == "col":
            left, right = left.T, right.T
        got = sorted(zip(map(tuple, left.tolist()), map(tuple, right.tolist())))
        ctx.eq(got, sorted((tuple(a.tolist()), tuple(b.tolist())) for a, b in want), f"pairs ({o})")
        # documented: order of the collection
        ctx.close(left, np.array([a for a, _ in want]).reshape(-1, p), "left in row order", rtol=0, atol=0)
        left[...] = -1
        right[...] = -1
        ctx.close(x.to_numpy(), v, "collection does not share memory with the matrices", rtol=0, atol=0)
    left, right = x.tsc.shift_matrices(**kw)
    ctx.eq(left.shape, (p, len(want)), "default orientation is column-wise")
    ctx.raises(lambda: x.tsc.shift_matrices(snapshot_orientation="x", **kw), "unknown orientation", ValueError)
    ctx.index(x.index, gen.index(spec), "index unchanged")


SUBS = [Sub("pairs", st.fixed_dictionaries({
    "tsc": st.one_of(gen.tsc_spec(regular="const", min_len=2, max_series=5, max_len=6),
                     gen.tsc_spec(regular="const", min_len=2, max_series=5, max_len=3, min_series=2),
                     gen.tsc_spec(max_series=5, max_len=5)),
    "validate": st.booleans(), "default": st.booleans(), "hist": st.booleans()}),
    run, "several series and several pairs", quick=4000, thorough=40000, shards=8)]
ASSUMPTIONS = []
