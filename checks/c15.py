"""C15: column-wise composition."""
import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from datafold.dynfold.compose import TSCColumnTransformer
from vh import gen, trf
from vh.core import Sub


@st.composite
def case(draw):
    base = draw(gen.tsc_spec(min_len=6, max_len=9, regular="const", kinds=("int", "float", "dt"), max_series=3, min_feat=2, max_feat=5))
    cols = base["cols"]
    parts = []
    for j in range(draw(st.integers(1, 4))):
        n = draw(st.integers(1, len(cols)))
        sub = list(draw(st.permutations(cols))[:n])
        q = draw(st.one_of(trf.scale, trf.identity, trf.poly, trf.lambdas, trf.takens(2, 1, 1), trf.ma, trf.pca(n),
                           st.just({"k": "drop"}), st.just({"k": "passthrough"})))
        sel = draw(st.sampled_from(["names", "names", "ints", "mask", "slice", "callable"]))
        if sel == "slice":
            a = draw(st.integers(0, len(cols) - 1))
            b = draw(st.integers(a + 1, len(cols)))
            sub = cols[a:b]
        if sel == "mask":
            sub = [c for c in cols if c in sub]
        if q["k"] == "pca":
            q = dict(q, n=min(q["n"] or 1, len(sub)))
        if q["k"] == "poly" and q["inter"] and len(sub) == 1:
            q = dict(q, first=True)
        parts.append([f"t{j}", q, sub, sel])
    return {"parts": parts, "rem": draw(st.sampled_from(["drop", "passthrough", "scale"])), "verbose": draw(st.sampled_from([True, True, False])),
            "w": draw(st.one_of(st.none(), st.integers(0, 3))), "a": base, "b": draw(trf.same_grid(base, 6, 9)), "ft": draw(st.booleans())}


def selector(sub, sel, cols):
    idx = [cols.index(c) for c in sub]
    if sel == "names":
        return list(sub)
    if sel == "ints":
        return idx
    if sel == "mask":
        return [c in sub for c in cols]
    if sel == "slice":
        return slice(idx[0], idx[-1] + 1)
    return lambda x: list(sub)


def run(case, ctx):
    sa, sb = case["a"], case["b"]
    cols = sa["cols"]
    xa, xb = gen.build(sa), gen.build(sb)
    va, vb = xa.to_numpy().copy(), xb.to_numpy().copy()
    gen.classify(sa, ctx)
    obj, hand = [], []
    used = set()
    weights = {}
    for j, (name, q, sub, sel) in enumerate(case["parts"]):
        ctx.tag(f"part:{q['k']}", f"select:{sel}")
        obj.append((name, q["k"] if q["k"] in ("drop", "passthrough") else trf.make(q), selector(sub, sel, cols)))
        used |= set(sub)
        if q["k"] != "drop":
            hand.append((name, None if q["k"] == "passthrough" else trf.make(q), sub))
            if case["w"] == j:
                weights[name] = 2.5
    rest = [c for c in cols if c not in used]
    rem = case["rem"]
    if rem == "scale":
        remobj = trf.make({"k": "scale", "name": "standard"})
        hand += [("remainder", trf.make({"k": "scale", "name": "standard"}), rest)] if rest else []
    else:
        remobj = rem
        hand += [("remainder", None, rest)] if rest and rem == "passthrough" else []
    ctx.tag(f"remainder:{rem}:{bool(rest)}")
    ct = TSCColumnTransformer(obj, remainder=remobj, verbose_feature_names_out=case["verbose"], transformer_weights=weights or None)
    if not hand:
        ctx.tag("everything dropped")
        return
    # by hand
    outs = {}
    for key, x in (("a", xa), ("b", xb)):
        frames = []
        for name, tr, sub in hand:
            xs = x[list(sub)]
            if tr is not None:
                if key == "a":
                    tr.fit(xs)
                y = tr.transform(xs)
            else:
                y = xs
            y = pd.DataFrame(y).copy()
            if name in weights:
                y = y * weights[name]
            y.columns = [f"{name}__{c}" if case["verbose"] else c for c in y.columns]
            frames.append(y)
        rows = set(map(tuple, frames[0].index))
        for f in frames[1:]:
            rows &= set(map(tuple, f.index))
        keep = [r for r in x.index if tuple(r) in rows]
        idx = pd.MultiIndex.from_tuples(keep, names=x.index.names)
        outs[key] = (idx, [c for f in frames for c in f.columns], np.hstack([f.loc[idx].to_numpy() for f in frames]))
    names = outs["a"][1]
    if len(set(names)) < len(names):
        ctx.tag("ambiguous names")
        # ambiguous names must not be returned silently
        ctx.raises(lambda: ct.fit_transform(xa) if case["ft"] else ct.fit(xa).get_feature_names_out(), "ambiguous feature names", ValueError)
        return
    ya = ct.fit_transform(xa) if case["ft"] else ct.fit(xa).transform(xa)
    yb = ct.transform(xb)
    ctx.nt(len(hand) > 1)
    for key, y, spec in (("a", ya, sa), ("b", yb, sb)):
        idx, nm, want = outs[key]
        gen.valid_tsc(ctx, y, "result")
        ctx.index(y.columns, nm, "feature names")
        ctx.index(ct.get_feature_names_out(), nm, "announced names")
        ctx.eq(ct.n_features_out_, len(nm), "number of features")
        w = pd.DataFrame(want, index=idx)
        gs, ws = pd.DataFrame(y).sort_index(), w.sort_index()
        ctx.index_close(gs.index, ws.index, "rows")
        ctx.close(gs.to_numpy(), ws.to_numpy(), f"values ({key})", 1e-10, 1e-10 * max(1, np.abs(want).max()))
    gen.same_frame(ctx, xa, gen.index(sa), cols, va, "input", 0, 0, 0)
    gen.same_frame(ctx, xb, gen.index(sb), cols, vb, "input", 0, 0, 0)
    # copies of the fitted transformer agree; columns are taken by name
    yc = copy.deepcopy(ct).transform(xb)
    ctx.ok((yc.to_numpy() == yb.to_numpy()).all(), "copy")
    miss = xb[[c for c in cols if c != case["parts"][0][2][0]]] if len(cols) > 1 else None
    if miss is not None and miss.shape[1] > 0 and case["parts"][0][1]["k"] != "drop":
        ctx.raises(lambda: ct.transform(miss), "missing feature", (ValueError, KeyError))


SUBS = [Sub("compose", case(), run, "two or more parts with output", quick=900, thorough=15000, shards=7)]
ASSUMPTIONS = ["rows missing in one of the parts (documented sample loss) are dropped from the result; series may be stored sorted by ID"]
