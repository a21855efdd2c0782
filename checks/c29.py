"""C29: eigen- and singular-value solvers against the defining equations."""
import warnings

import numpy as np
import scipy.sparse
import scipy.sparse.linalg
from hypothesis import strategies as st

from datafold.pcfold import kernels as K
from datafold.pcfold.eigsolver import NumericalMathError, compute_kernel_eigenpairs, compute_kernel_svd
from checks import c27
from vh import gen
from vh.core import Sub


class Stub:
    """properties of a kernel that the solver reads"""

    def __init__(self, sym, stoch=False):
        self.is_symmetric = self._is_symmetric_kernel = sym
        self.is_stochastic = stoch


def matrix(case):
    """(kernel, matrix)"""
    dim, kind = case["dim"], case["kind"]
    x = c27.points(case["x"], dim)
    sc = case["x"]["scale"]
    rng = gen.rng_of(case["seed"])
    cut = c27.radius(dict(case, metric="euclidean"), x) if case["cut"] is not None else None
    d = {"cut_off": cut}
    if kind == "random-sym":
        a = rng.normal(size=(len(x), len(x)))
        m = (a + a.T) / 2
        return Stub(True), scipy.sparse.csr_matrix(np.where(np.abs(m) > 0.5, m, 0)) if cut else m
    if kind == "random":
        m = rng.normal(size=(len(x), len(x)))
        return Stub(False), scipy.sparse.csr_matrix(np.where(np.abs(m) > 0.5, m, 0)) if cut else m
    if kind == "cknn":
        k = K.ContinuousNNKernel(k_neighbor=min(3, len(x) - 1), delta=1.2, distance=d)
        return k, k(x)
    inner = getattr(K, {"gauss": "GaussianKernel", "multi": "MultiquadricKernel"}.get(kind, "GaussianKernel"))(epsilon=case["eps"] * sc ** 2, distance=d)
    if kind in ("gauss", "multi"):
        return inner, inner(x)
    if kind == "dmap-cknn":
        inner = K.ContinuousNNKernel(k_neighbor=min(3, len(x) - 1), delta=1.2, distance=d)
    k = K.DmapKernelFixed(inner, is_stochastic="plain" not in kind, alpha=case["alpha"], symmetrize_kernel=kind != "dmap-row")
    return k, k(x)


def run_eig(case, ctx):
    try:
        kern, M = matrix(case)
    except (ZeroDivisionError, ValueError) as ex:
        return ctx.tag("kernel: " + type(ex).__name__)
    n = M.shape[0]
    k = {"all": n, "all-1": n - 1, "all-2": n - 2}.get(case["n"], case["n"])
    if not isinstance(k, int) or not 1 <= k <= n:
        return
    A = np.asarray(M.toarray() if scipy.sparse.issparse(M) else M, float)
    B = M.copy()
    sp = scipy.sparse.issparse(M)
    if case["dense"] and sp:
        M, sp = A.astype(M.dtype), False
    ctx.tag(case["kind"], "sparse" if sp else "dense", "all pairs" if k == n else ("all but one" if k == n - 1 else "some pairs"), "normalised" if case["norm"] else "as computed")
    ctx.nt(1 < k < n)
    try:
        w, v = compute_kernel_eigenpairs(kern, M, n_eigenpairs=k, normalize_eigenvectors=case["norm"], validate_matrix=case["validate"])
    except (scipy.sparse.linalg.ArpackError, NumericalMathError) as ex:
        return ctx.tag("solver: " + type(ex).__name__)
    except ValueError as ex:
        if "not symmetric" in str(ex):
            d = np.abs(A - A.T).max()
            ctx.ok(d > 0, "a symmetric matrix is reported as not symmetric")
            return ctx.tag("validation")
        raise
    ctx.ok((B != (M if sp or not scipy.sparse.issparse(B) else scipy.sparse.csr_matrix(M))).sum() == 0, "the kernel matrix was changed")
    ctx.eq((w.shape, v.shape), ((k,), (n, k)), "shapes of eigenvalues and eigenvectors")
    s = max(np.abs(np.linalg.norm(A, 2)), 1e-300)
    nv = np.linalg.norm(v, axis=0)
    ctx.ok((nv > 1e-8).all(), "zero eigenvectors")
    res = np.linalg.norm(A @ v - v * w[None, :], axis=0) / nv
    ctx.ok(res.max() <= 1e-7 * s, f"eigen-equation violated by {res.max()} (matrix norm {s})")
    ctx.ok((np.diff(w.real) <= 1e-12 * s).all(), f"eigenvalues {w} are not in descending order")
    if case["norm"] or kern.is_symmetric:
        ctx.close(nv, np.ones(k), "norms of the eigenvectors", 1e-8, 0)
    sym = bool(kern.is_symmetric)
    if sym:
        ctx.ok(np.isrealobj(w) and np.isrealobj(v), "real results for symmetric kernels")
        al = np.linalg.eigvalsh((A + A.T) / 2)
        g = v.T @ v - np.eye(k)
        apart = np.abs(w[:, None] - w[None, :]) > 1e-6 * s
        ctx.ok(np.abs(g[apart]).max(initial=0) < 1e-6, "eigenvectors of different eigenvalues are not orthogonal")
    else:
        al = np.linalg.eigvals(A)
    # the leading ones: largest values for stochastic kernels, largest magnitude otherwise
    key = al.real if (sym and kern.is_stochastic) else np.abs(al)
    o = np.argsort(-key)
    lead, rest = al[o][:k], al[o][k:]
    gaps = np.abs(np.subtract.outer(al, al)) + np.eye(n) * s
    multiple = gaps[o[:k]].min() < 1e-5 * s
    if k < n and (multiple or np.abs(key[o][k - 1] - key[o][k]) < 1e-6 * s):
        return ctx.tag("multiple eigenvalues")
    if sym:
        ctx.close(w, np.sort(lead)[::-1], "leading eigenvalues", 1e-8, 1e-8 * s)
    elif not multiple:
        d = np.abs(w[:, None] - lead[None, :])
        ctx.ok(d.min(axis=0).max() < 1e-5 * s and d.min(axis=1).max() < 1e-5 * s, f"leading eigenvalues {lead}, got {w}, others {rest}")
    if kern.is_stochastic:
        ctx.ok(abs(w[0] - 1) < 1e-8, f"largest eigenvalue of a stochastic kernel {w[0]}")
        ctx.tag("stochastic")
    w2, v2 = compute_kernel_eigenpairs(kern, M, n_eigenpairs=k, normalize_eigenvectors=case["norm"])
    ctx.close(w2, w, "eigenvalues computed again", 1e-9, 1e-9 * s)


def run_svd(case, ctx):
    rng = gen.rng_of(case["seed"])
    if case["kind"] == "random":
        A = rng.normal(size=(case["x"]["n"], case["m"]))
        if case["cut"] is not None:
            A = scipy.sparse.csr_matrix(np.where(np.abs(A) > 0.5, A, 0))
    elif case["kind"] == "decay":
        n, m = case["x"]["n"], case["m"]
        r = min(n, m)
        A = (gen.orth(rng, n)[:, :r] * 0.3 ** np.arange(r)) @ gen.orth(rng, m)[:r]
    else:
        x, l = c27.points(case["x"], case["dim"]), c27.points(case["l"], case["dim"])
        cut = c27.radius(dict(case, metric="euclidean"), x) if case["cut"] is not None else None
        g = K.GaussianKernel(epsilon=case["eps"] * case["x"]["scale"] ** 2, distance={"cut_off": cut})
        if case["kind"] == "roseland":
            g = K.RoselandKernel(g)
        A = g(l, x)
    D = np.asarray(A.toarray() if scipy.sparse.issparse(A) else A, float)
    if not np.isfinite(D).all() or np.abs(D).max() < 1e-60:
        return
    mn = min(D.shape)
    k = {"all": mn, "all-1": mn - 1, "all-2": mn - 2}.get(case["n"], case["n"])
    if k > mn:
        ctx.raises(lambda: compute_kernel_svd(A, k), "more triplets than available", ValueError)
        return
    if k < 1:
        return
    ctx.tag(case["kind"], "sparse" if scipy.sparse.issparse(A) else "dense", "all triplets" if k == mn else "some triplets", "tall" if D.shape[0] > D.shape[1] else "wide")
    ctx.nt(1 < k < mn)
    try:
        u, s, vt = compute_kernel_svd(A, k)
    except scipy.sparse.linalg.ArpackError as ex:
        return ctx.tag("solver: " + type(ex).__name__)
    A2 = A.toarray() if scipy.sparse.issparse(A) else A
    ctx.close(A2, D, "matrix after the decomposition", 0, 0)
    sv = np.linalg.svd(D, compute_uv=False)
    ctx.eq((u.shape, s.shape, vt.shape), ((D.shape[0], k), (k,), (k, D.shape[1])), "shapes")
    t = sv[0]
    ctx.ok((np.diff(s) <= 1e-12 * t).all() and (s >= -1e-12 * t).all(), f"singular values {s} are not in descending order")
    ctx.close(s, sv[:k], "singular values", 1e-7, 1e-7 * t)
    ok = s > 1e-6 * t
    ctx.close(D @ vt.T, u * s, "A v = s u", 1e-7, 1e-7 * t)
    ctx.close(D.T @ u[:, ok], vt[ok].T * s[ok], "A' u = s v", 1e-7, 1e-7 * t)
    ctx.close(u[:, ok].T @ u[:, ok], np.eye(int(ok.sum())), "left vectors orthonormal", 1e-7, 1e-7)
    ctx.close(vt[ok] @ vt[ok].T, np.eye(int(ok.sum())), "right vectors orthonormal", 1e-7, 1e-7)


@st.composite
def base(draw):
    x = draw(c27.pts(3, 22))
    l = draw(c27.pts(2, 10))
    l["scale"] = x["scale"]
    return {"dim": draw(st.integers(1, 3)), "x": x, "l": l, "m": draw(st.integers(2, 15)), "seed": draw(gen.seeds()), "eps": draw(st.sampled_from([1.0, 0.3, 3.0, 0.05])),
            "cut": draw(st.one_of(st.none(), st.floats(0.1, 1))), "alpha": draw(st.sampled_from([0, 0.5, 1])), "norm": draw(st.booleans()), "validate": draw(st.booleans()),
            "n": draw(st.one_of(st.integers(1, 8), st.sampled_from(["all", "all-1", "all-2"]))), "dense": draw(st.booleans())}


@st.composite
def eig_cases(draw):
    c = draw(base())
    c["kind"] = draw(st.sampled_from(["gauss", "multi", "cknn", "dmap", "dmap", "dmap-row", "dmap-plain", "dmap-cknn", "random-sym", "random"]))
    return c


@st.composite
def svd_cases(draw):
    c = draw(base())
    c["kind"] = draw(st.sampled_from(["random", "decay", "gauss", "roseland"]))
    return c


SUBS = [
    Sub("eig", eig_cases(), run_eig, "more than one and not all pairs", 2500, 50000, 6),
    Sub("svd", svd_cases(), run_svd, "more than one and not all triplets", 1500, 30000, 3),
]
ASSUMPTIONS = [
    "Which eigenvalues are leading is only compared if the spectrum is simple and separated; convergence errors of ARPACK are accepted.",
    "Leading means largest for symmetric stochastic kernels and largest in magnitude otherwise.",
]
