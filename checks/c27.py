"""C27: distance matrices against the pairwise definition."""
import numpy as np
import scipy.sparse
from hypothesis import strategies as st

from datafold.pcfold.distance import compute_distance_matrix, init_distance_algorithm
from vh import gen
from vh.core import Sub

METRICS = ["euclidean", "sqeuclidean", "cityblock", "chebyshev", "cosine", "correlation", "canberra"]
SPARSE = ["scipy.kdtree", "sklearn.balltree"]


def points(p, dim):
    rng = gen.rng_of(p["seed"], p["n"])
    k = p["kind"]
    if k == "lattice":
        v = rng.integers(0, 4, size=(p["n"], dim)).astype(float)
    elif k == "clusters":
        c = rng.normal(size=(3, dim)) * 5
        v = c[rng.integers(0, 3, size=p["n"])] + 0.1 * rng.normal(size=(p["n"], dim))
    elif k == "duplicates":
        v = rng.normal(size=(p["n"], dim))
        v = v[rng.integers(0, max(1, p["n"] // 2), size=p["n"])]
    else:
        v = rng.normal(size=(p["n"], dim))
    return v * p["scale"]


def definition(metric, y, x):
    if metric in ("euclidean", "sqeuclidean"):
        d2 = sum((y[:, None, j] - x[None, :, j]) ** 2 for j in range(x.shape[1]))
        return d2 if metric == "sqeuclidean" else np.sqrt(d2)
    a = np.abs(y[:, None, :] - x[None, :, :])
    if metric == "cityblock":
        return a.sum(axis=2)
    if metric == "chebyshev":
        return a.max(axis=2)
    if metric == "canberra":
        s = np.abs(y)[:, None, :] + np.abs(x)[None, :, :]
        return np.where(s > 0, a / np.where(s > 0, s, 1), 0).sum(axis=2)
    if metric == "correlation":
        y, x = y - y.mean(axis=1)[:, None], x - x.mean(axis=1)[:, None]
    return 1 - (y @ x.T) / np.sqrt((y ** 2).sum(axis=1)[:, None] * (x ** 2).sum(axis=1)[None, :])


def radius(case, x):
    """cut-off between two distances of the reference points, with a gap on both sides"""
    if case["cut"] is None:
        return None
    m = "euclidean" if case["metric"] == "sqeuclidean" else case["metric"]
    v = np.unique(np.round(definition(m, x, x)[np.triu_indices(len(x), 1)], 7))
    v = v[v > 1e-6]
    if len(v) == 0:
        return 1.0
    k = int(case["cut"] * len(v))
    return float(v[-1] * 1.1 if k >= len(v) - 1 else (v[k] + v[k + 1]) / 2)


def check(ctx, D, case, x, y, cut, what):
    pd_ = y is None
    q = x if pd_ else y
    metric = case["metric"]
    ref = definition(metric, q, x)
    scale = max(1e-300, np.abs(q).max(), np.abs(x).max()) ** (2 if metric == "sqeuclidean" else 1) if metric not in ("cosine", "correlation", "canberra") else 1.0
    tol = 1e-11 * scale
    if (not case["exact"] or case["backend"] == "sklearn.knn") and metric == "euclidean":
        tol = 1e-6 * scale
    ctx.eq(tuple(D.shape), (len(q), len(x)), what + ": shape")
    lim = np.inf if cut is None else (cut ** 2 if metric == "sqeuclidean" else cut)
    b = case["backend"]
    sure, never = ref < lim - 10 * tol - 1e-9 * scale, ref > lim + 10 * tol + 1e-9 * scale
    if cut is None and b != "sklearn.knn":
        ctx.ok(isinstance(D, np.ndarray), f"{what}: dense result expected, got {type(D)}")
        ctx.close(D, ref, what + ": distances", 1e-9, tol)
        if pd_:
            ctx.close(np.diag(D), np.zeros(len(x)), what + ": diagonal", 0, 0)
            ctx.close(D, D.T, what + ": symmetry", 0, 0 if case["exact"] else tol)
        return
    ctx.ok(scipy.sparse.issparse(D) and D.format == "csr", f"{what}: sparse result expected, got {type(D)}")
    C = D.tocoo()
    S = np.zeros(D.shape, bool)
    S[C.row, C.col] = True
    ctx.eq(int(S.sum()), len(C.data), what + ": every pair is stored once")
    V = np.zeros(D.shape)
    V[C.row, C.col] = C.data
    ctx.close(V[S], ref[S], what + ": stored distances", 1e-9, tol)
    if pd_:
        ctx.ok(np.diag(S).all(), what + ": the diagonal is stored")
        ctx.close(np.diag(V), np.zeros(len(x)), what + ": diagonal", 0, 0)
    if b == "sklearn.knn":
        k = case["k"]
        ctx.ok((S.sum(axis=1) == k).all(), f"{what}: {S.sum(axis=1)} neighbours, k={k}")
        kth = np.sort(ref, axis=1)[:, k - 1]
        ctx.ok((np.where(S, ref, 0) <= kth[:, None] + tol + 1e-9 * scale).all(), what + ": stored neighbours are the nearest")
        return
    ctx.ok(S[sure].all(), f"{what}: pairs within the cut-off {cut} are missing: {np.argwhere(sure & ~S)[:4].tolist()}")
    if pd_:
        ctx.ok((S == S.T).all(), what + ": symmetric pattern")
        ctx.close(V, V.T, what + ": symmetry", 1e-12, 0 if case["exact"] else tol)
    extra = S & never
    k = case["k"] if b in SPARSE or (b == "guess_optimal" and metric in ("euclidean", "sqeuclidean")) else None
    if not k or (pd_ and k < 2):
        ctx.ok(not extra.any(), f"{what}: pairs beyond the cut-off {cut}: {np.argwhere(extra)[:4].tolist()}")
        return
    count_hi = (~never).sum(axis=1)
    ctx.ok((S.sum(axis=1) >= k).all(), f"{what}: {S.sum(axis=1)} stored neighbours, at least {k} requested")
    kth = np.sort(ref, axis=1)[:, k - 1]
    row_ok = (sure.sum(axis=1) < k)[:, None] & (ref <= kth[:, None] + tol + 1e-9 * scale)
    allowed = row_ok | row_ok.T if pd_ else row_ok
    ctx.ok(not (extra & ~allowed).any(), f"{what}: pairs {np.argwhere(extra & ~allowed)[:4].tolist()} beyond the cut-off {cut} are no nearest neighbours")
    need = (count_hi < k)[:, None] & (ref < kth[:, None] - tol - 1e-9 * scale)
    ctx.ok(S[need].all(), f"{what}: nearest neighbours missing: {np.argwhere(need & ~S)[:4].tolist()}")
    if (sure.sum(axis=1) < k).any():
        ctx.tag("neighbours added")


def usable(metric, *pts):
    for v in pts:
        if v is None:
            continue
        if metric == "cosine" and (np.abs(v).max(axis=1) < 1e-6).any():
            return False
        if metric == "correlation" and (v.shape[1] < 2 or (v.max(axis=1) - v.min(axis=1) < 1e-6).any()):
            return False
    return True


def run(case, ctx):
    dim, metric, b = case["dim"], case["metric"], case["backend"]
    calls = [(points(c["x"], dim), None if c["y"] is None else points(c["y"], dim)) for c in case["calls"]]
    if not usable(metric, *(v for c in calls for v in c)):
        return
    cut = None if b == "sklearn.knn" else radius(case, calls[0][0])
    ctx.tag(b, metric, "full" if cut is None else "cut-off", "kmin" if case["k"] else "no kmin")
    kw = {"exact_numeric": case["exact"]} if b == "brute" else {}
    algo = init_distance_algorithm(b, metric=metric, cut_off=cut, k=case["k"], **kw)
    ctx.nt(len(calls) > 1)
    ctx.nt(cut is not None)
    first = True
    for j, (x, y) in enumerate(calls):
        xc, yc = x.copy(), None if y is None else y.copy()
        what = f"call {j} ({'one set' if y is None else 'two sets'})"
        if y is None:
            D = algo(x)
        else:
            D = algo(x, y)
        check(ctx, D, case, x, y, cut, what)
        ctx.ok((x == xc).all() and (y is None or (y == yc).all()), what + ": the points were changed")
        E = compute_distance_matrix(x, y, metric=metric, cut_off=cut, k=case["k"], backend=b, **kw)
        check(ctx, E, case, x, y, cut, what + ", compute_distance_matrix")
        if y is not None and len(y) > 1:  # rows do not depend on the other queries
            r = case["perm"] % len(y)
            F = algo(x, y[[r]])
            f, d = (F.toarray(), D.toarray()) if scipy.sparse.issparse(F) else (F, D)
            ctx.eq(f.shape, (1, len(x)), what + ": shape for one query")
            if b != "sklearn.knn" or case["calls"][j]["x"]["kind"] == "normal":
                ctx.close(f[0], d[r], what + ": single query", 1e-12, 1e-12 if case["exact"] else 1e-5)
        if case["mutate"]:  # results belong to the caller
            if scipy.sparse.issparse(D):
                D.data[:] = -1
            else:
                D[:] = -1
    del first


@st.composite
def pts(draw, lo, hi):
    return {"n": draw(st.integers(lo, hi)), "kind": draw(st.sampled_from(["normal", "normal", "lattice", "clusters", "duplicates"])), "scale": draw(st.sampled_from([1.0, 1.0, 100.0, 0.01])), "seed": draw(gen.seeds())}


@st.composite
def cases(draw):
    b = draw(st.sampled_from(["brute", "scipy.kdtree", "sklearn.balltree", "guess_optimal", "sklearn.knn"]))
    metric = draw(st.sampled_from(METRICS if b in ("brute", "guess_optimal") else (METRICS[:4] if b == "sklearn.knn" else METRICS[:2])))
    cut = draw(st.one_of(st.none(), st.floats(0, 1)))
    k = draw(st.integers(2, 5)) if b == "sklearn.knn" else draw(st.one_of(st.none(), st.integers(1, 6)))
    lo = max(2, (k or 1) + 1)
    dim = draw(st.integers(1, 4))
    calls = []
    sc = None
    for _ in range(draw(st.integers(1, 3))):
        x = draw(pts(lo, 20))
        sc = sc or x["scale"]
        x["scale"] = sc
        if calls and draw(st.booleans()):
            x = calls[0]["x"]
        y = draw(st.one_of(st.none(), pts(1, 12)))
        if y is not None:
            y["scale"] = sc
        calls.append({"x": x, "y": y})
    return {"backend": b, "metric": metric, "cut": cut, "k": k, "dim": dim, "calls": calls, "exact": draw(st.sampled_from([True, True, False])) if b == "brute" else True,
            "perm": draw(st.integers(0, 20)), "mutate": draw(st.booleans())}


SUBS = [Sub("distance", cases(), run, "a finite cut-off or several calls with one object", 3000, 60000, 8)]
ASSUMPTIONS = ["Pairs whose distance equals the cut-off up to rounding may be stored or not.", "Between equally distant candidates any choice of nearest neighbours is accepted."]
