"""C13: time-delay embedding."""
import numpy as np
from hypothesis import strategies as st

from datafold.dynfold.transform import TSCTakensEmbedding
from datafold.pcfold import TSCDataFrame
from datafold.pcfold.timeseries.collection import TSCException
from vh import gen, trf
from vh.core import Sub


@st.composite
def case(draw):
    t = draw(trf.takens(6, 3, 4))
    need = max(trf.takens_indices(t)) + 1
    x = draw(gen.tsc_spec(min_len=need, max_len=need + 4, regular="const", intcols=True))
    if draw(st.integers(0, 4)) == 0:  # a series which is too short
        k = draw(st.integers(0, len(x["ser"]) - 1))
        x["ser"][k]["t"] = x["ser"][k]["t"][:draw(st.integers(1, max(1, need - 1)))]
    return {"t": t, "x": x, "int": draw(st.booleans()), "new": draw(trf.same_grid(x, need, need + 3, 2)), "attach": draw(st.booleans())}


def reference(spec, vals, t):
    """{(id, tick): row} by direct indexing."""
    idx = trf.takens_indices(t)
    out, k = {}, 0
    for s in spec["ser"]:
        v = vals[k:k + len(s["t"])]
        k += len(s["t"])
        for r in range(max(idx), len(s["t"])):
            row = list(v[r])
            for j, d in enumerate(idx):
                w = np.exp(-t["kappa"] * (j + 1)) if t["kappa"] > 0 else 1.0
                row += list(v[r - d] * w)
            out[(s["id"], s["t"][r])] = row
    return out


def verify(ctx, tr, y, spec, vals, t, what):
    ctx.ok(isinstance(y, TSCDataFrame), "type")
    gen.valid_tsc(ctx, y, what)
    ref = reference(spec, vals, t)
    cols = [str(c) for c in spec["cols"]]
    names = cols + [f"{c}:d{d}" for d in trf.takens_indices(t) for c in cols]
    ctx.index(y.columns, names, what + ": names")
    ctx.index(tr.get_feature_names_out(), names, what + ": announced names")
    # rows in the order of the series or sorted by ID
    keys = list(ref)
    want = {}
    for (i, tick), row in ref.items():
        want[(i, tick)] = row
    orders = [keys, sorted(keys)]
    got_ids = np.asarray(y.index.get_level_values(0)).tolist()
    order = next((o for o in orders if [i for i, _ in o] == got_ids), orders[0])
    t_arr = gen.time_array([q for _, q in order], spec["kind"], spec["unit"])
    ctx.index_close(y.index, list(zip([i for i, _ in order], t_arr)), what + ": rows")
    w = np.array([want[k] for k in order])
    ctx.close(y.to_numpy(), w, what + ": values", 1e-13, 1e-13)


def run(case, ctx):
    t, spec = case["t"], case["x"]
    idx = trf.takens_indices(t)
    need = max(idx) + 1
    ctx.tag(f"delays:{t['delays']}", f"lag:{t['lag']}", f"freq:{t['freq']}", f"kappa:{t['kappa']}", f"int:{case['int']}")
    gen.classify(spec, ctx)
    vals = gen.values(spec, len(gen.rows(spec)), len(spec["cols"]))
    if case["int"]:
        vals = np.round(vals * 5).astype(np.int64)
    x = gen.build(spec, vals)
    tr = trf.make(t)
    if min(len(s["t"]) for s in spec["ser"]) < need:
        ctx.tag("too short")
        ctx.raises(lambda: tr.fit(x), "fit with a series that is too short", TSCException)
        xn = gen.build(case["new"])
        if len(case["new"]["ser"][0]["t"]) > 1:
            tr = trf.make(t).fit(xn)
            ctx.raises(lambda: tr.transform(x), "transform of a series that is too short", (TSCException, ValueError))
        return
    tr.fit(x)
    ctx.index(tr.delay_indices_, idx, "delay indices")
    ctx.eq(int(tr.min_timesteps_), need, "minimum number of samples")
    y = tr.transform(x)
    verify(ctx, tr, y, spec, vals, t, "training data")
    ctx.nt(len(spec["ser"]) > 1 and len(idx) > 1)
    new = case["new"]
    vn = gen.values(new, len(gen.rows(new)), len(new["cols"]))
    if need > 1:
        verify(ctx, tr, tr.transform(gen.build(new, vn)), new, vn, t, "new data")
    inv = tr.inverse_transform(y)
    ctx.index(inv.columns, [str(c) for c in spec["cols"]], "names of the inverse")
    ctx.close(inv.to_numpy(), y.to_numpy()[:, :len(spec["cols"])], "inverse", 0, 0)
    gen.same_frame(ctx, x, gen.index(spec), spec["cols"], vals, "input", 0, 0, 0)
    if need <= 2 and len(spec["ser"]) == 1 and len(spec["ser"][0]["t"]) < 2:
        return
    # other sampling interval is rejected
    other = dict(new, ser=[dict(s, t=[2 * q for q in s["t"]]) for s in new["ser"]])
    ctx.raises(lambda: tr.transform(gen.build(other)), "other sampling interval", TSCException)


def run_bad(case, ctx):
    spec = case["x"]
    x = gen.build(spec)
    kw = dict(delays=3, lag=0, frequency=1, kappa=0.0)
    kw.update({case["p"]: case["v"]})
    if case["p"] == "frequency" and case["v"] == 2:
        kw["delays"] = 1
    ctx.tag(f"{case['p']}={case['v']}")
    ctx.nt()
    tr = TSCTakensEmbedding(kw.pop("delays"), **kw)
    ctx.raises(lambda: tr.fit(x), "invalid parameter", (ValueError, TypeError))


BAD = [("delays", 0), ("delays", -1), ("delays", 1.5), ("lag", -1), ("lag", 0.5), ("frequency", 0), ("frequency", -2), ("frequency", 2),
       ("frequency", 1.5), ("kappa", -1.0), ("kappa", -1)]
SUBS = [
    Sub("embed", case(), run, "several series and delays", quick=2500, thorough=40000, shards=6),
    Sub("invalid", st.tuples(gen.tsc_spec(min_len=9, max_len=10, regular="const", max_series=2), st.sampled_from(BAD)).map(
        lambda q: {"x": q[0], "p": q[1][0], "v": q[1][1]}), run_bad, "every case", quick=60, thorough=300),
]
ASSUMPTIONS = ["the order in which the series are stored in the result is free"]
