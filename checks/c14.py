"""C14: feature maps compute their mathematical definition."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from vh import gen, trf
from vh.core import Sub

KINDS = ["scale", "identity", "poly", "lambdas", "ma", "pca", "rbf", "fd", "select", "fourier"]
PY = [math.sin, lambda x: x ** 2, abs, lambda x: 2 * x + 1, math.tanh]


@st.composite
def case(draw):
    base = draw(gen.tsc_spec(min_len=8, max_len=11, regular="const", kinds=("int", "float", "dt"), max_series=3, max_feat=4))
    cols = base["cols"]
    k = draw(st.sampled_from(KINDS))
    if k == "fourier":
        t = {"k": k, "n": draw(st.integers(1, 5)), "sigma": draw(st.sampled_from([0.5, 1, 2.0]))}
    elif k == "poly":
        t = {"k": k, "degree": draw(st.integers(1, 4)), "inter": draw(st.booleans()), "bias": draw(st.booleans()), "first": draw(st.booleans())}
    elif k == "ma":
        t = {"k": k, "w": draw(st.integers(1, 6))}
    elif k == "scale":
        t = {"k": k, "name": draw(st.sampled_from(["center", "min-max", "standard"]))}
    else:
        t = draw(trf.spec_for(cols, [k]))
    if k == "fd" and base["kind"] == "dt":
        base["kind"], base["unit"] = "int", 1
    if t.get("center") == "initial_condition" and len(base["ser"]) < 2:
        t["center"] = "all_data"
    return {"t": t, "a": base, "b": draw(trf.same_grid(base, 8, 11)), "ft": draw(st.booleans())}


def kernel_value(name, eps, d2):
    d = np.sqrt(d2)
    if name == "GaussianKernel":
        return np.exp(-d2 / (2 * eps))
    if name == "MultiquadricKernel":
        return np.sqrt(d2 / (2 * eps) + 1)
    if name == "InverseMultiquadricKernel":
        return 1 / np.sqrt(d2 / (2 * eps) + 1)
    if name == "InverseQuadraticKernel":
        return 1 / (d2 / (2 * eps) + 1)
    if name == "CubicKernel":
        return d ** 3
    if name == "QuinticKernel":
        return d ** 5
    out = np.zeros_like(d2)
    m = d > 0
    out[m] = d2[m] * np.log(d[m])
    return out


def fd_weights(off, order):
    a = np.vander(np.asarray(off, float), len(off), increasing=True).T
    b = np.zeros(len(off))
    b[order] = math.factorial(order)
    return np.linalg.solve(a, b)


def run(case, ctx):
    t, sa, sb = case["t"], case["a"], case["b"]
    ctx.tag(t["k"], *(f"{t['k']}:{v}" for v in t.values() if isinstance(v, (str, bool))))
    gen.classify(sa, ctx)
    cols = sa["cols"]
    va = gen.values(sa, len(gen.rows(sa)), len(cols))
    vb = gen.values(sb, len(gen.rows(sb)), len(cols))
    if t["k"] == "scale" and len(cols) > 1 and sa["seed"] % 3 == 0:
        va[:, 0] = 3.0  # a constant feature
    xa, xb = gen.build(sa, va), gen.build(sb, vb)
    tr = trf.make(t)
    if t["k"] == "poly" and not t["first"] and not t["bias"] and (t["degree"] == 1 or (t["inter"] and len(cols) == 1)):
        ctx.tag("no features")
        return
    ya = tr.fit_transform(xa) if case["ft"] else tr.fit(xa).transform(xa)
    yb = tr.transform(xb)
    ctx.nt(len(sb["ser"]) > 1)
    for spec, v, y, what in ((sa, va, ya, "training data"), (sb, vb, yb, "new data")):
        names, want, rows = expected(t, tr, cols, spec, v, sa, va, ctx)
        got_ids = [int(i) for i in y.index.get_level_values(0)]
        if t["k"] in ("ma", "fd"):
            order = sorted(range(len(rows)), key=lambda q: (rows[q][0], rows[q][1]))
            if got_ids != [i for i, _ in rows]:
                rows, want = [rows[q] for q in order], want[order]
        tt = gen.time_array([q for _, q in rows], spec["kind"], spec["unit"])
        ctx.index_close(y.index, list(zip([i for i, _ in rows], tt)), what + ": rows")
        ctx.index(y.columns, names, what + ": names")
        s = max(1.0, np.abs(want).max())
        ctx.close(y.to_numpy(), want, f"{what}: values", 1e-8, (1e-6 if t["k"] == "fd" else 1e-10) * s)


def expected(t, tr, cols, spec, v, sa, va, ctx):
    k, p = t["k"], len(cols)
    rows = gen.rows(spec)
    if k == "scale":
        m, sd = va.mean(axis=0), np.sqrt(((va - va.mean(axis=0)) ** 2).mean(axis=0))
        rg = va.max(axis=0) - va.min(axis=0)
        sd[sd < 1e-12], rg[rg == 0] = 1, 1
        w = {"center": lambda: v - m, "standard": lambda: (v - m) / sd, "min-max": lambda: (v - va.min(axis=0)) / rg}[t["name"]]()
        return cols, w, rows
    if k == "identity":
        names = [f"{c}_id" for c in cols] if t["rename"] else list(cols)
        return names + ["const"] * t["const"], np.hstack([v, np.ones((len(v), int(t["const"])))]), rows
    if k == "poly":
        names, w = [], []
        for d in range(t["degree"] + 1):
            it = itertools.combinations(range(p), d) if t["inter"] else itertools.combinations_with_replacement(range(p), d)
            for c in it:
                if (d == 0 and not t["bias"]) or (d == 1 and not t["first"]):
                    continue
                col = np.ones(len(v))
                for j in c:
                    col = col * v[:, j]
                w.append(col)
                parts = []
                for j in sorted(set(c)):
                    e = c.count(j)
                    parts.append(cols[j] if e == 1 else f"{cols[j]}^{e}")
                names.append(" ".join(parts) or "1")
        return names, np.column_stack(w), rows
    if k == "lambdas":
        names, w = [], []
        for i, q in enumerate(t["l"]):
            for j, c in enumerate(cols):
                names.append(f"{c}_lambda{i}")
                w.append([PY[q](z) for z in v[:, j]])
        return names, np.array(w).T, rows
    if k == "select":
        f = t["f"]
        idx = [cols.index(q) for q in f] if isinstance(f[0], str) else f
        return [cols[j] for j in idx], v[:, idx], rows
    if k == "fourier":
        wm = tr.fourier_components_
        ctx.eq(wm.shape, (p, t["n"]), "random directions")
        a = v @ wm
        return [f"sin{i}" for i in range(t["n"])] + [f"cos{i}" for i in range(t["n"])], np.hstack([np.sin(a), np.cos(a)]), rows
    if k == "rbf":
        n = len(va)
        if t["center"] == "all_data":
            c = va
        elif t["center"] == "initial_condition":
            st_ = np.cumsum([0] + [len(s["t"]) for s in sa["ser"]])[:-1]
            c = va[st_]
        else:
            c = tr.centers_
            ctx.eq(c.shape, (min(t["n"], n), p), "shape of the random centers")
            left = [tuple(r) for r in va]
            for r in c:
                ctx.ok(tuple(r) in left, "random centers are samples drawn without replacement")
                left.remove(tuple(r))
        ctx.close(tr.centers_, c, "centers", 0, 0)
        d2 = ((v[:, None, :] - c[None, :, :]) ** 2).sum(axis=2)
        return [f"rbf{i}" for i in range(len(c))], kernel_value(t["kernel"], t["eps"], d2), rows
    if k == "pca":
        n = t["n"] if t["n"] is not None else min(len(va), p)
        xc = va - va.mean(axis=0)
        c = tr.components_
        ctx.eq(c.shape, (n, p), "number of components")
        ctx.close(c @ c.T, np.eye(n), "components are orthonormal", 1e-9, 1e-9)
        cov = xc.T @ xc / (len(va) - 1)
        ev = np.sort(np.linalg.eigvalsh(cov))[::-1][:n]
        ctx.close(np.diag(c @ cov @ c.T), ev, "variances along the components", 1e-8, 1e-9 * max(1, ev[0]))
        w = (v - va.mean(axis=0)) @ c.T
        if t["whiten"]:
            w = w / np.sqrt(np.maximum(ev, 1e-300))
        return [f"pca{i}" for i in range(n)], w, rows
    out, names, keep = [], None, []
    base = 0
    if k == "ma":
        names = [f"{c}_ma{t['w']}" for c in cols]
        for s in spec["ser"]:
            for r in range(t["w"] - 1, len(s["t"])):
                out.append(v[base + r - t["w"] + 1:base + r + 1].sum(axis=0) / t["w"])
                keep.append((s["id"], s["t"][r]))
            base += len(s["t"])
        return names, np.array(out), keep
    # fd
    names = [f"{c}_dot{t['order']}" for c in cols]
    if t["scheme"] == "center":
        h = (2 * ((t["order"] + 1) // 2) - 2 + t["acc"]) // 2
        off = list(range(-h, h + 1))
    else:
        m = t["order"] + t["acc"]
        off = list(range(m)) if t["scheme"] == "forward" else list(range(-m + 1, 1))
    wts = fd_weights(off, t["order"])
    h = (spec["ser"][0]["t"][1] - spec["ser"][0]["t"][0]) * spec["unit"]
    for s in spec["ser"]:
        for r in range(-min(off), len(s["t"]) - max(off)):
            out.append(sum(c * v[base + r + o] for c, o in zip(wts, off)) / h ** t["order"])
            keep.append((s["id"], s["t"][r + max(off)]))
        base += len(s["t"])
    return names, np.array(out), keep


SUBS = [Sub("maps", case(), run, "several series in the new data", quick=3000, thorough=40000, shards=7)]
ASSUMPTIONS = ["finite differences are labelled with the last time value that enters the stencil (as implemented and documented by shift_index)",
               "moving average and finite differences may store the series sorted by ID"]
