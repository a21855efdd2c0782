"""C30: diffusion maps and the landmark variant: eigen-equation, out-of-sample extension, invariances."""
import warnings

import numpy as np
import pandas as pd
import scipy.sparse
from hypothesis import strategies as st

from datafold import TSCDataFrame
from datafold.dynfold import DiffusionMaps, Roseland
from datafold.pcfold import kernels as K
from datafold.pcfold.eigsolver import NumericalMathError
from checks import c27
from checks.c14 import kernel_value
from checks.c28 import dense, dmap_matrix
from vh import gen
from vh.core import Sub

SEED = gen.seeds()


def wrap(v, kind, r, off=0):
    """the same points as array, time series collection or data frame"""
    if kind == "array":
        return v.copy()
    cols = [f"f{i}" for i in range(v.shape[1])]
    if kind == "df":
        return pd.DataFrame(v, index=np.arange(len(v)) * 2 + off, columns=cols)
    n = len(v)
    k = int(r.integers(1, n)) if n > 1 else n
    idx = pd.MultiIndex.from_arrays([[off + 1] * k + [off + 4] * (n - k), list(range(k)) + list(range(n - k))])
    return TSCDataFrame(v, index=idx, columns=cols)


def same_labels(ctx, got, x, cols, what):
    ctx.eq(type(got) is TSCDataFrame, isinstance(x, TSCDataFrame), what + ": type")
    ctx.eq(isinstance(got, pd.DataFrame), isinstance(x, pd.DataFrame), what + ": type")
    if isinstance(x, pd.DataFrame):
        ctx.index(got.index, x.index, what + ": rows")
        ctx.index(got.columns, cols, what + ": columns")


def aligned(ctx, got, want, what, rtol, atol):
    """columns equal up to sign"""
    ctx.eq(got.shape, want.shape, what + ": shape")
    s = np.sign((got * want).sum(axis=0))
    s[s == 0] = 1
    ctx.close(got * s, want, what, rtol, atol)


def build(case):
    dim = case["dim"]
    x, y = c27.points(case["x"], dim), c27.points(case["y"], dim)
    cut = c27.radius(dict(case, metric="euclidean"), x)
    d2 = c27.definition("sqeuclidean", x, x)
    eps = case["eps"] * (float(np.median(d2[d2 > 0])) if (d2 > 0).any() else 1.0)
    return x, y, cut, eps


def kern(case, eps, cut):
    kw = {} if case["inner"] == "InverseQuadraticKernel" else {"distance": {"cut_off": cut, "backend": "guess_optimal"}}
    return getattr(K, case["inner"])(epsilon=eps, **kw)


def kmat(case, eps, cut, q, x):
    d2 = c27.definition("sqeuclidean", q, x)
    k = kernel_value(case["inner"], eps, d2)
    return k if cut is None else np.where(d2 < cut ** 2, k, 0)


def power(lam, t):
    return np.power(lam, t)


def dmap(case, ctx):
    x, y, cut, eps = build(case)
    n = len(x)
    r = gen.rng_of(case["seed"], 3)
    if case["inner"] == "InverseQuadraticKernel":
        cut = None
    if cut is not None and any((np.abs(np.sqrt(c27.definition("sqeuclidean", q, x)) - cut) < 1e-9 * cut).any() for q in (x, y)):
        return
    kxx = kmat(case, eps, cut, x, x)
    if (kxx.sum(axis=1) < 1e-100).any():
        return
    P, q, d = dmap_matrix(kxx, case["alpha"], case["stoch"])
    ne = min(case["ne"], n)
    t = case["t"]
    X, Y = wrap(x, case["form"], r), wrap(y, case["form"], r, 10)
    kernel = kern(case, eps, cut)
    par = dict(n_eigenpairs=ne, time_exponent=t, is_stochastic=case["stoch"], alpha=case["alpha"], symmetrize_kernel=case["sym"])
    how = case["how"]
    if how == "op" and case["stoch"] and case["alpha"] in (0, 0.5, 1):
        par.pop("is_stochastic"), par.pop("alpha")
        make = {0: DiffusionMaps.graph_laplacian, 0.5: DiffusionMaps.fokker_planck, 1: DiffusionMaps.laplace_beltrami}[case["alpha"]]
    else:
        make = DiffusionMaps
    m = make(kernel, **par)
    ctx.tag(case["inner"], case["form"], "sparse" if cut else "dense", f"alpha={case['alpha']}", "sym" if case["sym"] else "nonsym",
            "stochastic" if case["stoch"] else "plain", f"t={t}")
    keep = X.copy()
    try:
        if case["refit"]:  # a history before the fit that counts
            z = wrap(x * 1.3 + 0.1, case["form"], r)
            e = m.fit_transform(z)
            m.transform(z)
            if np.isfinite(np.asarray(e)).all():  # fractional power of a slightly negative eigenvalue
                m.inverse_transform(e)
        emb = m.fit_transform(X, store_kernel_matrix=True) if case["store"] else m.fit_transform(X)
    except (NumericalMathError, scipy.sparse.linalg.ArpackNoConvergence):
        ctx.ok(not case["sym"] or not case["stoch"], "symmetric problems are solvable")
        return ctx.tag("numerical error")
    ctx.ok(np.array_equal(np.asarray(keep), np.asarray(X)), "data not modified")
    ctx.ok(m.kernel is kernel and kernel.epsilon == eps, "kernel parameter not modified")
    lam, psi = m.eigenvalues_, np.asarray(m.eigenvectors_)
    ctx.eq((lam.shape, psi.shape), ((ne,), (n, ne)), "shapes")
    sc = np.abs(lam).max()
    ctx.ok((np.diff(lam) <= 1e-12 * sc).all(), "eigenvalues are sorted")
    ctx.close(np.linalg.norm(psi, axis=0), np.ones(ne), "norm of the eigenvectors", 1e-10)
    ctx.close(P @ psi, psi * lam, "eigen-equation", 1e-7, 1e-8 * sc)
    full = np.linalg.eigvals(P)
    if np.abs(full.imag).max() < 1e-8 * sc:
        full = np.sort(full.real)[::-1]
        byabs = np.sort(np.sort(np.abs(full))[::-1][:ne])
        top = full[:ne]
        simple = n == ne or np.abs(np.diff(full[:ne + 1])).min(initial=1) > 1e-5 * sc
        if simple and np.allclose(np.sort(np.abs(top)), byabs, rtol=0, atol=1e-9 * sc):
            ctx.close(lam / sc, top / sc, "leading eigenvalues", 1e-7, 1e-7)
        simple = simple and ne < n
    else:
        simple = False
    if case["stoch"]:
        ctx.close(lam[0], 1.0, "trivial eigenvalue", 1e-8, 1e-8)
    if case["store"]:
        ctx.close(dense(m.kernel_matrix_), P, "stored kernel matrix", 1e-8, 1e-10)
    else:
        ctx.ok(case["refit"] or not hasattr(m, "kernel_matrix_"), "kernel matrix not stored")
    if t != int(t) and (lam <= 0).any():
        return ctx.tag("fractional power of negative eigenvalue")
    cols = [f"dmap{i}" for i in range(ne)]
    same_labels(ctx, emb, X, cols, "embedding")
    ctx.index(m.get_feature_names_out(), cols, "announced names")
    ctx.close(np.asarray(emb), psi * power(lam, t), "embedding is scaled eigenvectors", 1e-10, 1e-12)
    ctx.nt(cut is None and ne > 2 and n > ne)

    # ---- out of sample
    good = np.abs(lam) > 1e-5 * sc
    with np.errstate(all="ignore"):
        scale = power(lam, t) / lam
    tr = np.asarray(m.transform(X.copy()))
    ctx.close(tr[:, good], np.asarray(emb)[:, good], "training points as new points", 1e-5, 1e-6)
    kyx = kmat(case, eps, cut, y, x)
    ysafe = (kyx.sum(axis=1) > 1e-150).all()
    if ysafe:
        w = dmap_matrix(kyx, case["alpha"], case["stoch"], q)[0] @ psi * scale
        ty = m.transform(Y)
        same_labels(ctx, ty, Y, cols, "transform")
        g = np.asarray(ty)
        tol = 1e-7 * (1 + np.abs(w[:, good]).max(initial=0))
        ctx.close(g[:, good], w[:, good], "Nystroem extension", 1e-6, tol)
        if case["form"] == "array":
            ctx.close(np.asarray(m.transform(y[:1]))[:, good], g[:1, good], "independent of other query points", 1e-7, tol)
            p = r.permutation(len(y))
            ctx.close(np.asarray(m.transform(y[p]))[:, good], g[p][:, good], "order of query points", 1e-7, tol)
    # ---- selection of coordinates and back
    inv0 = np.asarray(m.inverse_transform(m.transform(X))) if case["invfirst"] and good.all() else None
    if inv0 is not None and np.linalg.cond(psi) < 1e5:
        ctx.close(inv0, psi @ np.linalg.lstsq(psi, x, rcond=None)[0], "mapped back (all coordinates)", 1e-5, 1e-6 * np.abs(x).max() + 1e-8)
    sel = sorted(int(i) for i in r.permutation(ne)[: int(r.integers(1, ne + 1))])
    ctx.ok(m.set_target_coords(list(r.permutation(sel))) is m, "set_target_coords returns the model")
    scols = [f"dmap{i}" for i in sel]
    ctx.index(m.get_feature_names_out(), scols, "names of selected coordinates")
    ts = m.transform(X)
    same_labels(ctx, ts, X, scols, "selected coordinates")
    gs = good[sel]
    ctx.close(np.asarray(ts)[:, gs], tr[:, sel][:, gs], "selected coordinates", 1e-8, 1e-10)
    if gs.all():
        back = m.inverse_transform(ts)
        same_labels(ctx, back, X, list(X.columns) if isinstance(X, pd.DataFrame) else None, "mapped back")
        ps = psi[:, sel]
        if np.linalg.cond(ps) < 1e5:
            ctx.close(np.asarray(back), ps @ np.linalg.lstsq(ps, x, rcond=None)[0], "mapped back", 1e-5, 1e-6 * np.abs(x).max() + 1e-8)
        if ysafe:
            ctx.close(np.asarray(m.transform(Y)), g[:, sel], "selected coordinates of query points", 1e-7, tol)
    for bad in ([-1], [ne], [0, ne]):
        ctx.raises(lambda: m.set_target_coords(bad), f"coordinate out of range {bad}", ValueError)
    ctx.raises(lambda: m.set_target_coords([0.5]), "non-integer coordinate", TypeError)
    m.time_exponent = 0
    ctx.close(np.asarray(m.transform(X))[:, gs], psi[:, sel][:, gs], "time exponent changed after the fit", 1e-4, 1e-5)

    # ---- invariance
    if cut is None and simple and case["inner"] == "GaussianKernel":
        rot = gen.orth(r, x.shape[1])
        p = r.permutation(n)
        m2 = DiffusionMaps(kern(case, eps, cut), n_eigenpairs=ne, time_exponent=0, is_stochastic=case["stoch"], alpha=case["alpha"],
                           symmetrize_kernel=case["sym"])
        e2 = m2.fit_transform((x @ rot + r.normal(size=x.shape[1]) * case["x"]["scale"])[p])
        ctx.close(m2.eigenvalues_ / sc, lam / sc, "eigenvalues of moved points", 1e-7, 1e-8)
        big = np.abs(lam) > 1e-3 * sc
        gaps = np.abs(np.subtract.outer(full[:ne + 1], full[:ne + 1])) + np.eye(ne + 1)
        big &= gaps[:ne].min(axis=1) > 1e-3 * sc
        aligned(ctx, e2[:, big], psi[p][:, big], "embedding of moved points", 1e-5, 1e-6)
        ctx.tag("invariance")


def roseland(case, ctx):
    x, y, cut, eps = build(case)
    n = len(x)
    r = gen.rng_of(case["seed"], 5)
    case = dict(case, inner="GaussianKernel")
    lk = case["lm"]
    rs = case["seed"] % 1000
    if lk == "float":
        frac = float(np.round(r.uniform(0.2, 1.0), 2))
        lm, nl = frac, int(n * frac)
    elif lk == "int":
        lm = nl = int(r.integers(2, n + 1))
    elif lk == "all":
        lm, nl = (1.0 if case["refit"] else n), n
    else:
        nl = int(r.integers(2, 10))
        lm = x[r.integers(0, n, nl)] + 0.1 * r.normal(size=(nl, x.shape[1])) * case["x"]["scale"]
    X, Y = wrap(x, case["form"], r), wrap(y, case["form"], r, 10)
    t = case["t"]
    kernel = kern(case, eps, None)
    if nl < 2:
        return ctx.raises(lambda: Roseland(kernel, n_svdtriplet=1, landmarks=lm).fit(X), "too few landmarks", ValueError)
    k = min(case["ne"], nl, n)
    m = Roseland(kernel, n_svdtriplet=k, time_exponent=t, landmarks=lm, alpha=case["alpha"], random_state=rs)
    ctx.tag(lk, case["form"], f"alpha={case['alpha']}", f"t={t}")
    keep = X.copy()
    try:
        if case["refit"] and lk != "array":
            m.fit(wrap(x * 1.1, case["form"], r))
        emb = m.fit_transform(X, store_kernel_matrix=True)
    except scipy.sparse.linalg.ArpackError:
        return ctx.tag("no convergence")
    except ZeroDivisionError:  # points without any landmark in reach of the kernel
        A = kmat(case, eps, None, x * 1.1, np.asarray(m.landmarks_))
        B = kmat(case, eps, None, x, np.asarray(m.landmarks_))
        tiny = min(A.sum(axis=1).min(), A.sum(axis=0).min(), B.sum(axis=1).min(), B.sum(axis=0).min())
        ctx.ok(tiny < 1e-50, "division by zero for points close to landmarks")
        return ctx.tag("isolated points")
    ctx.ok(np.array_equal(np.asarray(keep), np.asarray(X)), "data not modified")
    ctx.ok(m.kernel is kernel and (m.landmarks is lm), "parameters not modified")
    L = np.asarray(m.landmarks_)
    if lk == "array":
        ctx.close(L, lm, "landmarks", 0, 0)
    else:
        ctx.eq(L.shape, (nl, x.shape[1]), "number of landmarks")
        rows = sorted(map(tuple, x.tolist()))
        for p in map(tuple, L.tolist()):  # multi-subset of the data
            ctx.ok(p in rows, "landmarks are points of the data")
            rows.remove(p)
    A = kmat(case, eps, None, x, L)
    if A.sum(axis=1).min() < 1e-100 or A.sum(axis=0).min() < 1e-100:
        return

    def oracle(a, fit):
        cd = None
        if case["alpha"] > 0:
            cd = a.sum(axis=0) if fit is None else fit[0]
            a = a / (a.sum(axis=1) ** case["alpha"])[:, None] / (cd ** case["alpha"])[None, :]
        s = a.sum(axis=0) if fit is None else fit[1]
        dd = 1 / np.sqrt(a @ s)
        return a * dd[:, None], dd, (cd, s)

    w, dd, fit = oracle(A, None)
    sv, U, V = m.svdvalues_, np.asarray(m.svdvec_left_), np.asarray(m.svdvec_right_)
    ctx.close(dense(m.kernel_matrix_), w, "stored kernel", 1e-8, 1e-10)
    ctx.eq((sv.shape, U.shape, V.shape), ((k,), (n, k), (nl, k)), "shapes")
    ctx.ok((np.diff(sv) <= 1e-12).all(), "decreasing singular values")
    full = np.linalg.svd(w, compute_uv=False)
    ctx.close(sv, full[:k], "leading singular values", 1e-6, 1e-7)
    ctx.close(sv[0], 1.0, "trivial singular value", 1e-8, 1e-8)
    u = U / dd[:, None]
    ok = sv > 1e-5
    ctx.close(w @ V, u * sv, "singular value equation", 1e-7, 1e-8)
    ctx.close((w.T @ u)[:, ok], (V * sv)[:, ok], "transposed singular value equation", 1e-6, 1e-7)
    ctx.close(V.T @ V, np.eye(k), "orthonormal right vectors", 1e-7, 1e-8)
    cols = [f"rose{i}" for i in range(k)]
    same_labels(ctx, emb, X, cols, "embedding")
    ctx.index(m.get_feature_names_out(), cols, "announced names")
    ctx.close(np.asarray(emb)[:, ok], (U * sv ** (2 * t))[:, ok], "embedding", 1e-8, 1e-10)
    ctx.nt(k > 2 and nl < n)
    big = np.maximum(1 + np.abs(U).max(), dd[:, None])  # outliers amplify errors by dd
    tr = np.asarray(m.transform(X))
    ctx.close(tr[:, ok] / big, np.asarray(emb)[:, ok] / big, "training points as new points", 1e-5, 1e-6)
    B = kmat(case, eps, None, y, L)
    safe = B.sum(axis=1).min() > 1e-100
    if safe:
        wy, dy, _ = oracle(B, fit)
        want = dy[:, None] * (wy @ (V / sv)) * sv ** (2 * t)
        ty = m.transform(Y)
        same_labels(ctx, ty, Y, cols, "transform")
        tol = 1e-6 * (1 + np.abs(want[:, ok]).max())
        ctx.close(np.asarray(ty)[:, ok], want[:, ok], "out-of-sample extension", 1e-6, tol)
        if case["form"] == "array":
            ctx.close(np.asarray(m.transform(y[:1]))[:, ok], want[:1, ok], "independent of other query points", 1e-6, tol)
    sel = sorted(int(i) for i in r.permutation(k)[: int(r.integers(1, k + 1))])
    m.set_target_coords(list(r.permutation(sel)))
    scols = [f"rose{i}" for i in sel]
    ctx.index(m.get_feature_names_out(), scols, "selected names")
    ts = m.transform(X)
    same_labels(ctx, ts, X, scols, "selected coordinates")
    os_ = ok[sel]
    ctx.close(np.asarray(ts)[:, os_] / big, tr[:, sel][:, os_] / big, "selected coordinates", 1e-8, 1e-9)
    e2 = m.fit_transform(X)
    same_labels(ctx, e2, X, scols, "selected coordinates (fit)")
    aligned(ctx, np.asarray(e2)[:, os_] / big, np.asarray(emb)[:, sel][:, os_] / big, "selected coordinates (fit), same landmarks", 1e-7, 1e-8)
    ctx.raises(lambda: m.set_target_coords([k]), "coordinate out of range", ValueError)


PTS = st.fixed_dictionaries({"seed": SEED, "n": st.integers(5, 22), "kind": st.sampled_from(["normal", "normal", "clusters", "lattice"]),
                             "scale": st.sampled_from([1.0, 1.0, 10.0, 0.1])})
YPT = st.fixed_dictionaries({"seed": SEED, "n": st.integers(2, 6), "kind": st.just("normal"), "scale": st.just(1.0)})


@st.composite
def cases(draw, rose=False):
    c = {"seed": draw(SEED), "x": draw(PTS), "y": draw(YPT), "dim": draw(st.integers(1, 3)), "eps": draw(st.sampled_from([0.05, 0.3, 1.0])),
         "ne": draw(st.integers(1, 6)), "t": draw(st.sampled_from([0, 0, 1, 2, 0.5])), "alpha": draw(st.sampled_from([0, 0.3, 0.5, 1])),
         "form": draw(st.sampled_from(["array", "array", "tsc", "df"])), "refit": draw(st.booleans()), "cut": None}
    c["y"]["scale"] = c["x"]["scale"]
    if rose:
        c["lm"] = draw(st.sampled_from(["float", "int", "all", "array"]))
        return c
    c.update(stoch=draw(st.sampled_from([True, True, True, False])), sym=draw(st.sampled_from([True, True, False])),
             how=draw(st.sampled_from(["init", "op"])), store=draw(st.booleans()), invfirst=draw(st.booleans()),
             inner=draw(st.sampled_from(["GaussianKernel", "GaussianKernel", "InverseMultiquadricKernel", "InverseQuadraticKernel"])),
             cut=draw(st.sampled_from([None, None, 0.6, 0.9])))
    return c


SUBS = [Sub("dmap", cases(), dmap, "dense kernel with more than two of the eigenpairs", 1600, 20000, 8),
        Sub("roseland", cases(rose=True), roseland, "more than two triplets and a proper subset of landmarks", 1000, 12000, 4)]
ASSUMPTIONS = ["Coordinates with (nearly) vanishing eigenvalues cannot be extended to new points and are not compared there.",
               "Eigenvectors are compared between runs only where the eigenvalue is simple (relative gap 1e-3)."]
