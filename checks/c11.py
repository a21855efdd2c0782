"""C11: every transformer follows one contract."""
import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vh import gen, trf
from vh.core import Sub

MINLEN = 7


@st.composite
def case(draw, kinds=None, intcols=False):
    base = draw(gen.tsc_spec(min_len=MINLEN, max_len=10, regular="const", kinds=("int", "float"), max_series=3, min_feat=1, max_feat=3,
                             intcols=intcols, values=("normal",)))
    t = draw(trf.spec_for(base["cols"], kinds))
    b = draw(trf.same_grid(base, MINLEN, 10))
    # other data for a refit: other number of features and names
    c = draw(gen.tsc_spec(min_len=MINLEN, max_len=9, regular="const", kinds=("int", "float"), max_series=2,
                          min_feat=len(base["cols"]), max_feat=len(base["cols"]) + 1, values=("normal",)))
    if t["k"] == "rbf" and t["center"] == "initial_condition" and min(len(q["ser"]) for q in (base, b, c)) < 2:
        t["center"] = "all_data"  # kernels need two reference points
    return {"t": t, "a": base, "b": b, "c": c, "kind": draw(st.sampled_from(["tsc", "tsc", "df", "np"])),
            "perm": draw(gen.seeds())}


def keep_rows(spec, start, end):
    out, k = [], 0
    for s in spec["ser"]:
        n = len(s["t"])
        out += list(range(k + start, k + n - end))
        k += n
    return out


def frames_equal(ctx, got, want, what, rtol=1e-9, atol=1e-9):
    """Same type, labels (rows in any order of series) and values."""
    ctx.ok(type(got) is type(want), f"{what}: type {type(got)} expected {type(want)}")
    if isinstance(got, np.ndarray):
        ctx.close(got, want, what, rtol, atol)
        return
    ctx.index(got.columns, want.columns, what + ": columns")
    if isinstance(want.index, pd.MultiIndex):
        got, want = got.sort_index(), want.sort_index()
    gen_index(ctx, got.index, want.index, what)
    ctx.close(got.to_numpy(), want.to_numpy(), what + ": values", rtol, atol)


def gen_index(ctx, got, want, what):
    if isinstance(want, pd.MultiIndex):
        ctx.ok(isinstance(got, pd.MultiIndex), f"{what}: row index type {type(got)}")
        ctx.index_close(got, want, what)
    else:
        ctx.index(got, want, what)


def run(case, ctx):
    t, sa, sb, sc = case["t"], case["a"], case["b"], case["c"]
    kind = case["kind"]
    if not trf.takes_arrays(t) or (kind == "df" and not isinstance(sa["cols"][0], str)):
        kind = "tsc"
    ctx.tag(t["k"], kind)
    gen.classify(sa, ctx)
    xa, xb, xc = gen.build(sa), gen.build(sb), gen.build(sc)
    if kind == "df":
        xa, xb, xc = [pd.DataFrame(x.to_numpy(), index=[f"r{i}" for i in range(len(x))], columns=list(x.columns)) for x in (xa, xb, xc)]
    if kind == "np":
        xa, xb, xc = [x.to_numpy().copy() for x in (xa, xb, xc)]
    orig = [copy.deepcopy(x) for x in (xa, xb, xc)]

    def pure(what):
        for x, o in zip((xa, xb, xc), orig):
            ctx.ok(type(x) is type(o), "type of input")
            if isinstance(x, np.ndarray):
                ctx.ok((x == o).all(), f"{what} changed the input values")
            else:
                ctx.ok(list(x.columns) == list(o.columns) and [type(c) for c in x.columns] == [type(c) for c in o.columns]
                       and x.columns.name == o.columns.name, f"{what} changed the columns of the input: {list(x.columns)}")
                ctx.ok(x.index.equals(o.index) and x.index.names == o.index.names, f"{what} changed the rows of the input")
                ctx.ok((x.to_numpy() == o.to_numpy()).all(), f"{what} changed the input values")

    tr = trf.make(t)
    ret = tr.fit(xa)
    ctx.ok(ret is tr, "fit returns self")
    pure("fit")
    ya = tr.transform(xa)
    pure("transform")
    yb = tr.transform(xb)
    # -------- labels and types
    start, end = trf.loss(t)
    for x, y, s, what in ((xa, ya, sa, "transform of the training data"), (xb, yb, sb, "transform of new data")):
        ctx.ok(type(y) is type(x), f"{what}: type {type(y)} from {type(x)}")
        ctx.eq(y.shape[1], tr.n_features_out_, f"{what}: announced number of features")
        keep = keep_rows(s, start, end)
        if kind == "np":
            ctx.eq(y.shape[0], len(keep), f"{what}: number of rows")
        else:
            ctx.index(y.columns, tr.get_feature_names_out(), f"{what}: announced feature names")
            ctx.ok(not y.columns.duplicated().any(), f"{what}: feature names are unique")
            wi = x.index[keep]
            if t["k"] in ("takens", "ma", "fd", "column"):  # order of series is free
                gen_index(ctx, y.index.sort_values(), wi.sort_values(), f"{what}: rows")
            else:
                gen_index(ctx, y.index, wi, f"{what}: rows")
        if kind == "tsc":
            gen.valid_tsc(ctx, y, what)
        ctx.ok(np.isfinite(np.asarray(y)).all(), f"{what}: finite")
    if kind != "np":
        if hasattr(tr, "feature_names_in_"):
            want = [str(c) for c in sa["cols"]] if t["k"] == "takens" else sa["cols"]
            ctx.index(tr.feature_names_in_, want, "feature names of the input")
        ctx.eq(int(tr.n_features_in_), len(sa["cols"]), "number of features of the input")
    # -------- repeatable, fit_transform
    frames_equal(ctx, tr.transform(xa), ya, "repeated transform", 0, 0)
    other = trf.make(t)
    yft = other.fit_transform(xa)
    pure("fit_transform")
    scale = max(1.0, np.abs(np.asarray(ya)).max())
    frames_equal(ctx, yft, ya, "fit_transform and fit, transform", 1e-7, 1e-8 * scale)
    frames_equal(ctx, other.transform(xb), yb, "transform after fit_transform", 1e-7, 1e-8 * scale)
    # -------- locality
    nser = len(sb["ser"])
    if kind == "tsc":
        rng = gen.rng_of(case["perm"])
        order = rng.permutation(nser)
        parts = []
        k = 0
        for s in sb["ser"]:
            parts.append((s, list(range(k, k + len(s["t"])))))
            k += len(s["t"])
        sel = [parts[j] for j in order[:max(1, nser - int(rng.integers(0, 2)))]]
        sub = dict(sb, ser=[s for s, _ in sel])
        rows = [r for _, q in sel for r in q]
        xs = gen.build(sub, xb.to_numpy()[rows])
        ys = tr.transform(xs)
        ids = [s["id"] for s, _ in sel]
        mask = np.isin(np.asarray(yb.index.get_level_values(0)), ids)
        gen.valid_tsc(ctx, ys, "transform of selected series")
        g, w = ys.sort_index(), pd.DataFrame(yb)[mask].sort_index()
        gen_index(ctx, g.index, w.index, "transform of selected series: rows")
        sc_ = max(1.0, np.abs(w.to_numpy()).max())
        ctx.close(g.to_numpy(), w.to_numpy(), "transform of a series depends on other series", 1e-8, 1e-9 * sc_)
        ctx.nt(nser > 1)
    else:
        rows = gen.rng_of(case["perm"]).permutation(len(xb))[:max(1, len(xb) // 2)]
        ys = tr.transform(xb[rows] if kind == "np" else xb.iloc[rows])
        w = yb[rows] if kind == "np" else yb.iloc[rows].to_numpy()
        ctx.close(np.asarray(ys), w, "transform of a row depends on other rows", 1e-8, 1e-9 * scale)
        ctx.nt()
    # -------- refit equals fresh fit
    def refit(x, what):
        fresh = trf.make(t).fit(x)
        want = fresh.transform(x)
        for o, n in ((tr, "fit again"), (other, "fit again after fit_transform")):
            o.fit(x)
            frames_equal(ctx, o.transform(x), want, f"{n} ({what})", 1e-9, 1e-10)
            if kind != "np":
                ctx.index(o.get_feature_names_out(), fresh.get_feature_names_out(), f"{n} ({what}): names")
            ctx.eq(o.n_features_out_, fresh.n_features_out_, f"{n} ({what}): n_features_out_")
            if hasattr(o, "inverse_transform") and hasattr(fresh, "inverse_transform") and t["k"] != "column":
                frames_equal(ctx, o.inverse_transform(want), fresh.inverse_transform(want), f"inverse after {n} ({what})", 1e-7,
                             1e-7 * max(1.0, np.abs(np.asarray(x)).max()))

    if hasattr(tr, "inverse_transform") and t["k"] != "column":
        inv = tr.inverse_transform(ya)
        ctx.ok(type(inv) is type(ya), f"type of inverse {type(inv)}")
        pure("inverse_transform")
        yy = copy.deepcopy(yft)
        other.inverse_transform(yft)
        frames_equal(ctx, yft, yy, "inverse_transform changed its input", 0, 0)
    refit(xb, "same features")
    if t["k"] not in ("select", "column", "pca") and not (t["k"] == "rbf" and t["center"] == "random" and t["n"] > len(xc)):
        refit(xc, "other features")
    pure("refit")


ALL = ["scale", "identity", "poly", "lambdas", "takens", "ma", "pca", "rbf", "fd", "select", "column"]
SUBS = [
    Sub("contract", case(), run, "several series in the transformed data or plain table input", quick=900, thorough=12000, shards=6),
    Sub("column", case(["column"]), run, "several series in the transformed data", quick=120, thorough=3000, shards=1),
    Sub("intcols", case(["scale", "identity", "takens", "pca", "rbf", "fd"], intcols=True), run,
        "several series in the transformed data or plain table input", quick=160, thorough=3000, shards=1),
]
ASSUMPTIONS = ["time-delay, moving average, finite differences and column transformers may store the series in another order"]
