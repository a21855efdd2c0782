"""C31: out-of-sample interpolators against reference models."""
import numpy as np
import scipy.sparse
from hypothesis import strategies as st
from sklearn.base import clone
from sklearn.exceptions import NotFittedError
from sklearn.metrics import r2_score

from datafold.dynfold import GeometricHarmonicsInterpolator, LaplacianPyramidsInterpolator
from datafold.pcfold.eigsolver import NumericalMathError
from checks import c27
from checks.c28 import dense, dmap_matrix
from checks.c30 import PTS, SEED, YPT, build, kern, kmat
from vh import gen
from vh.core import Sub


def targets(case, x, r):
    """target values of different kinds and magnitudes"""
    n, m = len(x), case["m"]
    if case["y"] == "smooth":
        y = np.sin(x @ r.normal(size=(x.shape[1], m)) / np.abs(x).max(initial=1))
    elif case["y"] == "random":
        y = r.normal(size=(n, m))
    elif case["y"] == "int":
        y = r.integers(-5, 6, size=(n, m))
    else:
        y = r.normal(size=(n, m)) * 10.0 ** r.integers(-3, 4, size=m)
    return y


def flat(y):
    return y[:, 0] if y.ndim == 2 and y.shape[1] == 1 else y


def gh(case, ctx):
    case["q"]["scale"] = case["x"]["scale"]
    x, q, cut, eps = build(dict(case, y=case["q"]))
    n = len(x)
    r = gen.rng_of(case["seed"], 31)
    if case["inner"] == "InverseQuadraticKernel":
        cut = None
    if cut is not None and any((np.abs(np.sqrt(c27.definition("sqeuclidean", z, x)) - cut) < 1e-9 * cut).any() for z in (x, q)):
        return
    kxx = kmat(case, eps, cut, x, x)
    P, rows, _ = dmap_matrix(kxx, case["alpha"], case["stoch"])
    ne = min(case["ne"], n - 1)
    kernel = kern(case, eps, cut)
    par = dict(n_eigenpairs=ne, is_stochastic=case["stoch"], alpha=case["alpha"], symmetrize_kernel=case["sym"])
    y = targets(case, x, r)
    y1 = y[:, 0] if case["oned"] else y  # one-dimensional form of the targets
    if case["oned"]:
        y = y[:, :1]
    ctx.tag(case["inner"], "sparse" if cut else "dense", "stochastic" if case["stoch"] else "plain", "sym" if case["sym"] else "nonsym",
            case["y"], "1-d targets" if case["oned"] else f"targets={y.shape[1]}")
    m = GeometricHarmonicsInterpolator(kernel, **par)
    ctx.raises(lambda: m.predict(q), "prediction before the fit", NotFittedError)
    x0, y0 = x.copy(), y1.copy()
    try:
        if case["refit"]:
            m.fit(x * 1.2 + 0.3, np.column_stack([y, y]))
            m.predict(x * 1.2 + 0.3)
        ctx.ok(m.fit(x, y1, store_kernel_matrix=case["store"]) is m, "fit returns the model")
    except (NumericalMathError, scipy.sparse.linalg.ArpackNoConvergence):
        return ctx.tag("numerical error")
    ctx.ok((x == x0).all() and (y1 == y0).all(), "arguments not modified")
    ctx.ok(m.kernel is kernel and kernel.epsilon == eps, "kernel parameter not modified")
    lam, V = np.asarray(m.eigenvalues_), np.asarray(m.eigenvectors_)
    ctx.eq((lam.shape, V.shape), ((ne,), (n, ne)), "shapes")
    sc = np.abs(lam).max()
    ctx.close(P @ V, V * lam, "eigen-equation", 1e-7, 1e-8 * sc)
    ctx.close(np.linalg.norm(V, axis=0), np.ones(ne), "norm of the eigenvectors", 1e-9)
    if case["store"]:
        ctx.close(dense(m.kernel_matrix_), P, "stored kernel matrix", 1e-8, 1e-10)
    if np.abs(lam).min() < 1e-6 * sc:
        return ctx.tag("vanishing eigenvalue")
    ctx.nt(ne > 2 and y.shape[1] > 1)
    if not case["stoch"]:
        ctx.close(V.T @ V, np.eye(ne), "orthonormal eigenvectors", 1e-7, 1e-7)
    full = np.linalg.eigvals(P)
    full = full[np.argsort(-np.abs(full))] / sc
    unique = np.abs(np.abs(full[ne - 1]) - np.abs(full[ne])) > 1e-3 and (  # the spanned space is well defined
        not case["stoch"] or np.abs(np.diff(np.abs(full[: ne + 1]))).min() > 1e-3)
    aux = (V / lam) @ (V.T @ y)
    tol = 1e-7 * (1 + np.abs(aux).max()) * sc + 1e-300

    got = m.predict(x)
    ctx.eq(got.shape, flat(y).shape, "shape of the prediction")
    ctx.close(got, flat(P @ aux), "prediction at training points", 1e-6, tol)
    if not case["stoch"]:
        ctx.close(got, flat(V @ (V.T @ y)), "projection to the eigenvectors", 1e-5, 10 * tol)
        co = r.normal(size=(ne, 2))
        if unique:
            ctx.close(GeometricHarmonicsInterpolator(kernel, **par).fit(x, V @ co).predict(x), V @ co, "functions in the span are interpolated", 1e-4,
                      1e-4)
    kq = kmat(case, eps, cut, q, x)
    if not case["stoch"] or (kq.sum(axis=1) > 1e-150).all():
        Q = dmap_matrix(kq, case["alpha"], case["stoch"], rows)[0]
        g = m.predict(q)
        ctx.eq(g.shape, (len(q),) + flat(y).shape[1:], "shape of the prediction of query points")
        ctx.close(g, flat(Q @ aux), "prediction of query points", 1e-6, tol)
        one = m.predict(q[:1])
        ctx.eq(one.shape, g[:1].shape, "shape of a single prediction")
        ctx.close(one, g[:1], "independent of other query points", 1e-7, tol)
        p = r.permutation(len(q))
        ctx.close(m.predict(q[p]), g[p], "order of query points", 1e-7, tol)
        # a model per target
        for j in range(y.shape[1] if unique else 0):
            s = GeometricHarmonicsInterpolator(kern(case, eps, cut), **par).fit(x, y[:, j])
            ctx.close(s.predict(q), (Q @ aux)[:, j], "targets are independent", 1e-4, 1e3 * tol)
        if unique:
            ctx.close(clone(m).fit(x, 2.0 * y).predict(q), 2 * g, "linear in the targets", 1e-4, 1e3 * tol)
        ctx.close(m.predict(q), g, "repeated prediction", 1e-12, 0)
        yq = r.normal(size=y.shape)[: 1].repeat(len(q), axis=0) + r.normal(size=(len(q), y.shape[1]))
        w = r.uniform(0.1, 2, size=len(q))
        g2 = g.reshape(len(q), -1)
        for sw in (None, w):
            mse = np.average((yq - g2) ** 2, axis=0, weights=sw)
            got = m.score(q, yq[:, 0] if case["oned"] else yq, sample_weight=sw)
            ctx.close(np.ravel(got), -np.sqrt(mse), "score per target", 1e-9, 1e-12)
            ctx.close(m.score(q, yq, sample_weight=sw, multioutput="uniform_average"), -np.sqrt(mse.mean()), "average score", 1e-9, 1e-12)
        ctx.close(np.ravel(m.score(q[:1], yq[:1])), -np.abs(yq - g2)[0], "score of a single sample", 1e-9, 1e-12)
    ctx.raises(lambda: GeometricHarmonicsInterpolator(kernel, n_eigenpairs=n).fit(x, y), "too many eigenpairs", ValueError)
    ctx.raises(lambda: GeometricHarmonicsInterpolator(kernel, n_eigenpairs=1).fit(x, y[1:]), "inconsistent number of samples", ValueError)


def gauss(eps, q, x):
    return np.exp(-c27.definition("sqeuclidean", q, x) / (2 * eps))


def pyramid(x, y, eps, mu, tol, auto, alpha):
    """reference for one target: list of (epsilon, coefficients), residual norms; None near a tie of the stopping rule"""
    f, t, last, levels, res = np.zeros(len(y)), y.astype(float), None, [], []
    for _ in range(200):
        P = dmap_matrix(gauss(eps, x, x), alpha, True)[0]
        if auto:
            P = P - np.diag(np.diag(P))
        f = f + P @ t
        r = y - f
        nr = np.linalg.norm(r)
        if auto and last is not None:
            if abs(nr - last) < 1e-9 * last:
                return None
            if nr > last:
                return levels, res
        levels.append((eps, t))
        res.append(nr)
        if tol is not None:
            if abs(nr - tol) < 1e-6 * tol:
                return None
            if nr <= tol:
                return levels, res
        if nr < 1e-13:
            return None if nr > 1e-17 else (levels, res)
        eps, t, last = eps / mu, r, nr
    return None


def lp(case, ctx):
    case["q"]["scale"] = case["x"]["scale"]
    x, q = c27.points(case["x"], case["dim"]), c27.points(case["q"], case["dim"])
    r = gen.rng_of(case["seed"], 32)
    y = targets(case, x, r).astype(float)
    if case["y"] == "int":
        y = np.round(y).astype(int)
    d = c27.definition("sqeuclidean", x, x)[np.triu_indices(len(x), 1)]
    auto, alpha, mu = case["auto"], case["alpha"], case["mu"]
    if d.min() <= 1e-3 * np.median(d):
        return ctx.tag("(nearly) duplicate points")
    eps = float(np.median(d)) * case["eps"]
    tol = None if case["tol"] is None else float(case["tol"] * np.linalg.norm(y, axis=0).max(initial=1e-3))
    if tol is None and not auto:
        ctx.raises(lambda: LaplacianPyramidsInterpolator(initial_epsilon=eps, mu=mu).fit(x, y), "no stopping criterion", ValueError)
        tol = 0.1 * max(1e-3, float(np.linalg.norm(y, axis=0).max()))
    par = dict(initial_epsilon=eps, mu=mu, residual_tol=tol, auto_adaptive=auto, alpha=alpha)
    m = LaplacianPyramidsInterpolator(**par)
    ctx.tag("auto adaptive" if auto else "tolerance", f"alpha={alpha}", case["y"], f"mu={mu}", f"targets={y.shape[1]}")
    x0, y0 = x.copy(), y.copy()
    if case["refit"]:
        m.fit(x * 1.1, np.column_stack([y, y + 1]))
        m.predict(x * 1.1)
    y1 = y[:, 0] if case["oned"] and y.shape[1] == 1 else y
    ctx.ok(m.fit(x, y1) is m, "fit returns the model")
    ctx.ok((x == x0).all() and (y == y0).all(), "arguments not modified")
    ctx.eq(m.n_targets_, y.shape[1], "number of targets")
    got = m.predict(x)
    ctx.eq(got.shape, flat(y).shape, "shape")
    got2 = got.reshape(y.shape)
    if not auto:
        ctx.ok((np.linalg.norm(got2 - y, axis=0) <= tol * (1 + 1e-9) + 1e-12 * np.abs(y).max()).all(), "residual at the training points")
    refs = [pyramid(x, y[:, j], eps, mu, tol, auto, alpha) for j in range(y.shape[1])]
    if all(v is not None for v in refs):
        ctx.eq(m.level_ + 1, max(len(v[0]) for v in refs), "number of levels")
        lo = min(v[0][-1][0] for v in refs)

        def reference(z):
            return np.column_stack([sum(dmap_matrix(gauss(e, z, x), alpha, True, gauss(e, x, x).sum(axis=1))[0] @ t for e, t in v[0]) for v in refs])

        sc = 1 + np.abs(y).max()
        ctx.close(got2, reference(x), "prediction at training points", 1e-6, 1e-9 * sc)
        ctx.nt(y.shape[1] > 1 and len({len(v[0]) for v in refs}) > 1)
        z = np.vstack([q, x[:1] + 1e-3 * np.sqrt(eps)])
        z = z[gauss(lo, z, x).sum(axis=1) > 1e-100]
        if len(z) > 1:
            w = m.predict(z)
            ctx.eq(w.shape, (len(z),) + flat(y).shape[1:], "shape")
            ctx.close(w.reshape(len(z), -1), reference(z), "prediction of query points", 1e-6, 1e-9 * sc)
            ctx.close(m.predict(z[:1]), w[:1], "independent of other query points", 1e-9, 1e-10 * sc)
            ctx.close(m.predict(z[::-1]), w[::-1], "order of the query points", 1e-9, 1e-10 * sc)
            p = r.permutation(len(x))
            ctx.close(clone(m).fit(x[p], y1[p]).predict(z), w, "order of the training points", 1e-6, 1e-8 * sc)
            c = r.permutation(y.shape[1])
            ctx.close(clone(m).fit(x, y[:, c]).predict(z).reshape(len(z), -1), w.reshape(len(z), -1)[:, c], "order of the targets", 1e-9, 1e-9 * sc)
            if tol is not None:  # the same problem in other units
                k = LaplacianPyramidsInterpolator(**dict(par, residual_tol=tol * 4.0)).fit(x, y1 * 4.0)
                ctx.close(k.predict(z), 4 * w, "units of the targets", 1e-9, 1e-9 * sc)
            wt = r.uniform(0.2, 1, size=len(z))
            yz = r.normal(size=w.shape)
            ctx.close(m.score(z, yz, sample_weight=wt), r2_score(yz, w, sample_weight=wt), "score", 1e-9, 1e-9)
    else:
        ctx.tag("close to a tie")
    for bad in ({"mu": 1.0}, {"mu": 0.5}, {"residual_tol": -1.0}):
        ctx.raises(lambda: LaplacianPyramidsInterpolator(**dict(par, **bad)).fit(x, y), f"invalid setting {bad}", ValueError)


@st.composite
def gh_case(draw):
    return {"seed": draw(SEED), "x": draw(PTS), "q": draw(YPT), "dim": draw(st.integers(1, 3)), "eps": draw(st.sampled_from([0.01, 0.03, 0.1, 0.3])),
            "ne": draw(st.one_of(st.integers(1, 6), st.integers(7, 30))), "alpha": draw(st.sampled_from([0, 0.5, 1])), "stoch": draw(st.sampled_from([False, False, True])),
            "sym": draw(st.booleans()), "store": draw(st.booleans()), "refit": draw(st.booleans()), "oned": draw(st.sampled_from([False, False, True])),
            "m": draw(st.integers(1, 3)), "y": draw(st.sampled_from(["smooth", "random", "int", "scales"])),
            "inner": draw(st.sampled_from(["GaussianKernel", "GaussianKernel", "InverseMultiquadricKernel", "InverseQuadraticKernel"])),
            "cut": draw(st.sampled_from([None, None, 0.6, 0.9]))}


LP = st.fixed_dictionaries({"seed": SEED, "x": PTS, "q": YPT, "dim": st.integers(1, 3), "eps": st.sampled_from([0.3, 1.0, 3.0]),
                            "mu": st.sampled_from([2.0, 2, 1.5, 3.0]), "tol": st.sampled_from([None, 0.3, 0.1, 0.02, 1e-4]), "auto": st.booleans(),
                            "alpha": st.sampled_from([0, 0, 1, 0.5]), "refit": st.booleans(), "oned": st.booleans(), "m": st.integers(1, 4),
                            "y": st.sampled_from(["smooth", "random", "int", "scales"])})

SUBS = [Sub("geometric_harmonics", gh_case(), gh, "more than two eigenpairs, all well above zero, and several targets", 1200, 15000, 6),
        Sub("laplacian_pyramids", LP, lp, "several targets that stop at different levels", 1200, 15000, 6)]
ASSUMPTIONS = ["Models with an eigenvalue below 1e-6 of the largest are not evaluated (the extension divides by it).",
               "Pyramids whose stopping rule is decided by less than rounding error are compared only for the promised residual."]
