"""C26: kernels against their formulas."""
import numpy as np
import scipy.sparse
from hypothesis import strategies as st

from datafold.pcfold import kernels as K
from datafold.pcfold.distance import init_distance_algorithm
from checks import c27
from checks.c14 import kernel_value
from vh import gen
from vh.core import Sub

EPS = ["GaussianKernel", "MultiquadricKernel", "InverseMultiquadricKernel", "InverseQuadraticKernel"]
NOEPS = ["ThinplateKernel", "CubicKernel", "QuinticKernel"]
PSD = {"GaussianKernel", "InverseMultiquadricKernel", "InverseQuadraticKernel"}


def req(name):
    return "sqeuclidean" if name in EPS else "euclidean"


def build(case, cut):
    name = case["name"]
    kw = {"epsilon": case["eps"]} if name in EPS else {}
    dist, d0 = None, None
    if name != "InverseQuadraticKernel" and case["how"] != "default":
        d = {"backend": case["backend"], "cut_off": cut}
        if case["metric"]:
            d["metric"] = req(name)
        d0 = dict(d) if case["how"] == "dict" else None
        dist = d if case["how"] == "dict" else init_distance_algorithm(**dict(d, metric=req(name)))
        kw["distance"] = dist
    return getattr(K, name)(**kw), dist, d0


def run(case, ctx):
    name, dim = case["name"], case["dim"]
    calls = [(c27.points(c["x"], dim), None if c["y"] is None else c27.points(c["y"], dim)) for c in case["calls"]]
    plain = name == "InverseQuadraticKernel" or case["how"] == "default"
    cut = None if plain else c27.radius(dict(case, metric="euclidean"), calls[0][0])
    if cut is not None and case["backend"] == "brute" and name == "x":
        return
    ctx.tag(name, case["how"], case["backend"] if not plain else "default distance", "cut-off" if cut else "full")
    k, dist, d0 = build(case, cut)
    if d0 is not None:
        ctx.ok(dist == d0, f"the kernel changed the user's settings {d0} to {dist}")
    ctx.nt(len(calls) > 1)
    ctx.nt(cut is not None)
    for j, (x, y) in enumerate(calls):
        what = f"{name} call {j} ({'one set' if y is None else 'two sets'})"
        xc, yc = x.copy(), None if y is None else y.copy()
        G = k(x) if y is None else k(x, y)
        ctx.ok((x == xc).all() and (y is None or (y == yc).all()), what + ": the points were changed")
        q = x if y is None else y
        d2 = c27.definition("sqeuclidean", q, x)
        want = kernel_value(name, case["eps"], d2)
        scale = max(1.0, np.abs(want).max())
        ctx.eq(tuple(G.shape), (len(q), len(x)), what + ": shape")
        if cut is None:
            ctx.ok(isinstance(G, np.ndarray), f"{what}: dense kernel expected, got {type(G)}")
            V, S = G, np.ones(G.shape, bool)
        else:
            ctx.ok(scipy.sparse.issparse(G), f"{what}: sparse kernel expected, got {type(G)}")
            C = G.tocoo()
            S = np.zeros(G.shape, bool)
            S[C.row, C.col] = True
            V = np.zeros(G.shape)
            V[C.row, C.col] = C.data
            d = np.sqrt(d2)
            m = 1e-9 * max(1e-300, d.max(), np.abs(x).max())
            ctx.ok((V[d < cut - m] == V[d < cut - m]).all() and S[(d < cut - m) & (np.abs(want) > 0)].all(), f"{what}: pairs within the cut-off are missing")
            ctx.ok(not S[d > cut + m].any(), f"{what}: pairs beyond the cut-off are stored")
        ctx.close(V[S], want[S], what + ": values", 1e-9, 1e-11 * scale)
        ctx.close(V[~S], np.zeros((~S).sum()), what + ": other pairs", 0, 0)
        if y is None:
            ctx.close(V, V.T, what + ": symmetry", 1e-12, 1e-14 * scale)
            dg = {"ThinplateKernel": 0.0, "CubicKernel": 0.0, "QuinticKernel": 0.0}.get(name, 1.0)
            ctx.close(np.diag(V), np.full(len(x), dg), what + ": diagonal", 0, 0)
            if name in PSD and cut is None:
                w = np.linalg.eigvalsh((V + V.T) / 2)
                ctx.ok(w.min() > -1e-9 * len(x), f"{what}: eigenvalue {w.min()} of a positive definite kernel")
            if np.array_equal(x, calls[0][0]):
                H = k(x, x.copy())
                ctx.close(H.toarray() if cut else H, G.toarray() if cut else G, what + ": evaluated for equal query points", 1e-12, 1e-12 * scale)
        # given distances
        D = k.distance(x) if y is None else k.distance(x, y)
        Dc = D.copy()
        E = k.evaluate(D)
        ctx.close(E.toarray() if scipy.sparse.issparse(E) else E, G.toarray() if cut else G, what + ": evaluate(distances)", 1e-13, 1e-13 * scale)
        ctx.ok((D != Dc).nnz == 0 if scipy.sparse.issparse(D) else (D == Dc).all(), what + ": evaluate changed the distances")
        if case["mutate"]:
            if scipy.sparse.issparse(G):
                G.data[:] = -1
            else:
                G[:] = -1
    if name in EPS:
        ctx.eq(k.epsilon, case["eps"], "kernel parameter")


def run_callable(case, ctx):
    dim = case["dim"]
    x = c27.points(case["calls"][0]["x"], dim)
    y = c27.points(case["y"], dim)
    cut = c27.radius(dict(case, metric="euclidean"), x)
    d2 = c27.definition("sqeuclidean", x, x)
    seen = []

    def fun(D):
        seen.append(np.array(D))
        return float(np.max(D)) * case["eps"] + 0.1

    k = K.GaussianKernel(epsilon=fun, distance={"backend": case["backend"], "cut_off": cut})
    G = k(x)
    ctx.tag(case["backend"], "cut-off" if cut else "full")
    ctx.nt(len(x) > 5)
    ctx.eq(len(seen), 1, "evaluations of the function")
    m = d2 if cut is None else d2[d2 < cut ** 2 * (1 - 1e-9)]
    eps = float(m.max()) * case["eps"] + 0.1
    want = np.exp(-d2 / (2 * eps))
    g = G.toarray() if scipy.sparse.issparse(G) else G
    s = g != 0
    ctx.close(g[s], want[s], "kernel with scale function", 1e-8, 1e-10)
    ctx.ok(s[d2 < (np.inf if cut is None else cut ** 2 * (1 - 1e-9))][want[d2 < (np.inf if cut is None else cut ** 2 * (1 - 1e-9))] > 0].all(), "stored pairs")
    H = k(x, y)
    h = H.toarray() if scipy.sparse.issparse(H) else H
    w2 = np.exp(-c27.definition("sqeuclidean", y, x) / (2 * eps))
    s = h != 0
    ctx.close(h[s], w2[s], "kernel for query points keeps the scale", 1e-8, 1e-10)
    g2 = k(x)
    ctx.close(g2.toarray() if scipy.sparse.issparse(g2) else g2, g, "kernel evaluated again", 1e-13, 1e-13)


@st.composite
def cases(draw):
    name = draw(st.sampled_from(EPS + NOEPS + ["GaussianKernel"]))
    dim = draw(st.integers(1, 4))
    calls, sc = [], None
    for _ in range(draw(st.integers(1, 3))):
        x = draw(c27.pts(2, 16))
        sc = sc or x["scale"]
        x["scale"] = sc
        if calls and draw(st.booleans()):
            x = calls[0]["x"]
        y = draw(st.one_of(st.none(), c27.pts(1, 10)))
        if y is not None:
            y["scale"] = sc
        calls.append({"x": x, "y": y})
    eps = draw(st.sampled_from([1.0, 0.3, 2.5, 1e-2, 50.0])) * sc ** 2
    return {"name": name, "dim": dim, "calls": calls, "eps": eps, "how": draw(st.sampled_from(["default", "dict", "dict", "object"])), "backend": draw(st.sampled_from(["brute", "scipy.kdtree", "sklearn.balltree", "guess_optimal"])),
            "metric": draw(st.booleans()), "cut": draw(st.one_of(st.none(), st.floats(0, 1))), "mutate": draw(st.booleans())}


@st.composite
def callables(draw):
    c = draw(cases())
    c["y"] = draw(c27.pts(1, 8))
    c["y"]["scale"] = c["calls"][0]["x"]["scale"]
    c["eps"] = draw(st.sampled_from([0.1, 0.5, 2.0]))
    return c


SUBS = [
    Sub("kernel", cases(), run, "a finite cut-off or several calls with one object", 2500, 50000, 6),
    Sub("callable", callables(), run_callable, "more than five points", 300, 5000, 2),
]
ASSUMPTIONS = ["Pairs whose distance equals the cut-off up to rounding may be stored or not.", "A scale function is evaluated at the first call; later calls keep the scale."]
