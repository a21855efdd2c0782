"""C24: Koopman triplets (eigenvalues, eigenfunctions, modes) against the predictions of the model."""
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from datafold import EDMD, TSCDataFrame
from datafold.dynfold.dmd import OnlineDMD, StreamingDMD
from checks import c22, c23
from vh import dyn, edm, gen, trf
from vh.core import Sub

KINDS = ["identity", "identity-const", "scale", "poly", "takens", "scale-takens", "rbf", "lambdas", "pca", "pca-full", "fd", "column", "takens-takens", "select"]
MODELS = ["spectral", "spectral", "diagonalize", "rank", "generator", "gdmd"]


def spectral_fit(case, ctx):
    f = c22.fit_both(case, ctx)
    if f is None:
        return None
    x, e, h, z = f
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = edm.make_dmd(case["model"])
        try:
            m.fit(z)
        except Exception as ex:
            ctx.tag("dmd: " + type(ex).__name__)
            return None
        if c22.unstable(m) or m.eigenvectors_right_.shape[1] < 1:
            return None
        if not np.isfinite(m.eigenvalues_).all() or np.abs(m.eigenvalues_).max() * (m.dt_ if m.is_differential_system else 1) > 30:
            return None
        b = c22.back_map(case, h, x, z)
        if b is None:
            return None
        e.fit(x)
    gen.classify(case["x"], ctx)
    ctx.tag("dict " + case["d"]["kind"], case["model"], "sorted" if case["sort"] else "as computed")
    return x, e, h, z, m, b


def flow(m, lam, dt):
    """factors per sampling interval"""
    return np.exp(lam * dt) if m.is_differential_system else lam


def separated(w, tol=1e-3):
    d = np.abs(w[:, None] - w[None, :]) + np.eye(len(w)) * 10
    return d.min() > tol * max(1.0, np.abs(w).max())


def run_triplets(case, ctx):
    f = spectral_fit(case, ctx)
    if f is None:
        return
    x, e, h, z, m, b = f
    lam = e.koopman_eigenvalues
    modes = e.koopman_modes
    ctx.ok(isinstance(lam, pd.Series) and isinstance(modes, pd.DataFrame), "types of eigenvalues and modes")
    k = len(lam)
    ctx.index(modes.index, x.columns, "rows of the modes")
    ctx.eq(modes.shape, (x.shape[1], k), "shape of the modes")
    ctx.index(modes.columns, [f"evec{i}" for i in range(k)], "columns of the modes")
    sz = np.linalg.svd(z.to_numpy(), compute_uv=False)
    if len(z) >= z.shape[1] and sz[-1] > 1e-9 * sz[0]:  # otherwise a numerical rank decision separates the two fits
        dyn.match(ctx, lam.to_numpy(), m.eigenvalues_, "eigenvalues", 1e-6)
    nic = e.n_samples_ic_
    # eigenfunctions of the training data
    phi = e.koopman_eigenfunction(x)
    ctx.ok(isinstance(phi, TSCDataFrame) or phi.shape[0] == z.shape[0], "type of the eigenfunctions")
    ctx.index(phi.columns, [f"koop_eigfunc{i}" for i in range(k)], "columns of the eigenfunctions")
    same = [int(i) for i in phi.index.get_level_values(0)] == [int(i) for i in z.index.get_level_values(0)]
    zz = z if same else z.sort_index()
    pp = phi.to_numpy() if same else phi.sort_index().to_numpy()
    ctx.index_close(phi.index if same else phi.sort_index().index, zz.index, "rows of the eigenfunctions")
    V, L, P, Z = modes.to_numpy(), lam.to_numpy(), pp, zz.to_numpy()
    vr = e.dmd_model.eigenvectors_right_
    square = vr.shape[0] == vr.shape[1]
    scale = max(1.0, np.abs(Z).max())
    if square:  # the modes and eigenfunctions give back the states
        ctx.close(P @ V.T, (Z @ b).astype(complex), "modes times eigenfunctions", 1e-5, 1e-6 * scale * max(1.0, np.abs(b).max()))
        # eigenvector equation with the system found by the separately fitted model
        K = m.eigenvectors_right_ @ np.diag(m.eigenvalues_) @ np.linalg.inv(m.eigenvectors_right_)
        W = np.linalg.lstsq(Z.astype(complex), P, rcond=None)[0]
        sv = np.linalg.svd(Z, compute_uv=False)
        if len(Z) >= Z.shape[1] and sv[-1] > 1e-5 * sv[0]:
            R = W.T @ K - np.diag(L) @ W.T
            ctx.ok(np.abs(R).max() <= 1e-5 * max(1.0, np.abs(W).max()) * max(1.0, np.abs(K).max()), f"eigenfunctions are no left eigenvectors: {np.abs(R).max()}")
            ctx.tag("eigen-equation")
    # predictions are reproduced by the triplets
    spec = case["x"]
    stp = dyn.step(spec)
    ic = dict(case["ic"])
    ic["ser"] = [{"id": s["id"], "t": [s["t"][0] + stp * j for j in range(nic)]} for s in ic["ser"]]
    xi = gen.build(ic)
    steps = [0] + case["steps"]
    tv = edm.times_after(ic, spec, steps)
    before = e.predict(xi, time_values=tv)
    f0 = e.koopman_eigenfunction(xi)
    dt = 1.0 if spec["kind"] == "dt" else float(m.dt_)
    mu = flow(m, L.astype(complex), dt)
    want = {}
    mx = 1.0
    for i, p in zip(f0.index.get_level_values(0), f0.to_numpy()):
        terms = [np.abs(V) * np.abs(mu ** s * p)[None, :] for s in steps]
        mx = max(mx, max(t.max() for t in terms))
        want[int(i)] = np.array([np.real(V @ (mu ** s * p)) for s in steps])
    if not mx < 1e7:
        return
    ctx.nt(k > 1)
    ctx.tag(f"pairs={min(k, 6)}")
    ids = list(dict.fromkeys(int(i) for i in before.index.get_level_values(0)))
    ctx.eq(sorted(ids), sorted(want), "series of the prediction")
    ctx.close(before.to_numpy(), np.vstack([want[i] for i in ids]), "prediction from the triplets", 1e-6, 1e-7 * mx)
    # evaluating the eigenfunctions changes nothing
    e.koopman_eigenfunction(xi), e.koopman_modes, e.koopman_eigenvalues
    after = e.predict(xi, time_values=tv)
    ctx.close(after.to_numpy(), before.to_numpy(), "prediction after evaluating the triplets", 1e-14, 1e-14)
    ctx.close(e.koopman_eigenvalues.to_numpy(), L, "eigenvalues after evaluation", 0, 0)
    ctx.close(e.koopman_eigenfunction(xi).to_numpy(), f0.to_numpy(), "eigenfunctions evaluated again", 1e-14, 1e-14)
    # fitted with the other ordering
    o = dict(case, sort=not case["sort"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        e2 = c22.fit_both(o, ctx)[1].fit(x)
    p2 = e2.predict(xi, time_values=tv)
    ctx.close(p2.to_numpy(), before.to_numpy(), "prediction with re-ordered triplets", 1e-6, 1e-7 * mx)
    L2, V2, P2 = e2.koopman_eigenvalues.to_numpy(), e2.koopman_modes.to_numpy(), e2.koopman_eigenfunction(x).to_numpy()
    dyn.match(ctx, L2, L, "re-ordered eigenvalues", 1e-9)
    if separated(L):
        ctx.tag("separated")
        for i in range(k):
            j = int(np.argmin(np.abs(L2 - L[i])))
            a, c = np.outer(phi.to_numpy()[:, i], V[:, i]), np.outer(P2[:, j], V2[:, j])
            ctx.close(c, a, f"contribution of eigenvalue {L[i]}", 1e-6, 1e-7 * max(1.0, np.abs(a).max()))
    # importance in descending order
    es = e if case["sort"] else e2
    zi = h.lift(x).initial_states()
    ph = es.dmd_model.compute_spectral_system_states(zi.to_numpy().T)
    imp = np.mean(np.abs(np.linalg.norm(es.koopman_modes.to_numpy(), axis=0)[:, None] * ph), axis=1)
    ctx.ok((np.diff(imp) <= 1e-9 * max(1.0, imp.max())).all(), f"triplets are not ordered by importance: {imp}")
    # fit again with the same object
    e.fit(x)
    ctx.close(e.predict(xi, time_values=tv).to_numpy(), before.to_numpy(), "prediction after fitting again", 1e-9, 1e-10 * mx)


def run_evolve(case, ctx):
    """eigenfunctions along trajectories of the learned system"""
    f = spectral_fit(case, ctx)
    if f is None:
        return
    x, e, h, z, m, b = f
    spec = case["x"]
    ic = dict(case["ic"])
    xi = gen.build(ic)
    n = case["n"]
    tv = edm.times_after(ic, spec, list(range(n + 1)))
    pr = e.predict(xi, time_values=tv)
    if not np.isfinite(pr.to_numpy()).all() or np.abs(pr.to_numpy()).max() > 1e5:
        return
    # closed under the learned system: lifting the prediction equals the prediction of the lifted states
    zl = m.predict(h.lift(xi), time_values=tv)
    if not np.allclose(h.lift(pr).to_numpy(), zl.to_numpy(), rtol=1e-8, atol=1e-8):
        return ctx.tag("dictionary not closed")
    ctx.nt(n > 1 and len(m.eigenvalues_) > 1)
    phi = e.koopman_eigenfunction(pr)
    lam = e.koopman_eigenvalues.to_numpy().astype(complex)
    dt = 1.0 if spec["kind"] == "dt" else float(m.dt_)
    mu = flow(m, lam, dt)
    ctx.tag("evolve")
    for i in phi.ids:
        p = phi.loc[[i], :].to_numpy()
        for k in range(n + 1):
            w = mu ** k * p[0]
            ctx.close(p[k], w, f"eigenfunctions after {k} steps", 1e-5, 1e-6 * max(1.0, np.abs(p).max(), np.abs(w).max()))


def run_partial(case, ctx):
    """sorted triplets with partial fits"""
    spec, d = case["x"], case["d"]
    x = gen.build(spec)
    cls = {"online": lambda: OnlineDMD(with_warm_up=False), "streaming": StreamingDMD}[case["model"]]
    ids = [int(i) for i in x.ids]
    if any(len(s["t"]) < 3 + edm.lost(d) for s in spec["ser"]):
        return
    es = [EDMD(edm.steps_of(d), dmd_model=cls(), include_id_state=True, sort_koopman_triplets=s) for s in (False, True)]
    stp = dyn.step(spec)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for i in ids:
            xp = x.loc[[i], :]
            try:
                es[0].partial_fit(xp)
            except Exception as ex:
                return ctx.tag("not applicable: " + type(ex).__name__)
            es[1].partial_fit(xp)
            if c22.unstable(es[0].dmd_model):
                continue
            nic = es[0].n_samples_ic_
            ic = dict(case["ic"])
            ic["ser"] = [{"id": s["id"], "t": [s["t"][0] + stp * j for j in range(nic)]} for s in ic["ser"]]
            xi = gen.build(ic)
            tv = edm.times_after(ic, spec, [0, 1, 2])
            a, b = es[0].predict(xi, time_values=tv).to_numpy(), es[1].predict(xi, time_values=tv).to_numpy()
            if not np.isfinite(a).all() or np.abs(a).max() > 1e6:
                return
            ctx.nt(i != ids[0])
            ctx.tag(case["model"])
            ctx.close(b, a, "prediction with re-ordered triplets after partial fits", 1e-6, 1e-7 * max(1.0, np.abs(a).max()))
            L, L2 = es[0].koopman_eigenvalues.to_numpy(), es[1].koopman_eigenvalues.to_numpy()
            dyn.match(ctx, L2, L, "re-ordered eigenvalues", 1e-8)


def run_matrix(case, ctx):
    """models without spectral components"""
    f = c22.fit_both(case, ctx, "matrix")
    if f is None:
        return
    x, e, h, z = f
    e.fit(x)
    ctx.nt()
    ctx.ok(e.koopman_modes is None, "modes of a model in matrix mode")
    ctx.raises(lambda: e.koopman_eigenvalues, "eigenvalues of a model in matrix mode", AttributeError)
    ctx.raises(lambda: e.koopman_eigenfunction(x), "eigenfunctions of a model in matrix mode", AttributeError)


@st.composite
def triplet_cases(draw):
    c = draw(c22.cases(kinds=KINDS, max_len=14, models=MODELS))
    c["ic"] = draw(edm.ics(c["x"], 1))
    c["steps"] = sorted(draw(st.lists(st.integers(1, 6), min_size=1, max_size=4, unique=True)))
    c["sort"] = draw(st.booleans())
    return c


@st.composite
def evolve_cases(draw):
    c = draw(c22.cases(kinds=["identity", "identity-const", "scale", "pca-full", "scale-scale"], max_len=12, models=MODELS, max_feat=4))
    c["ic"] = draw(edm.ics(c["x"], 1))
    c["n"] = draw(st.integers(1, 5))
    c["sort"] = draw(st.booleans())
    return c


@st.composite
def partial_cases(draw):
    c = draw(c22.cases(kinds=["identity", "identity-const", "poly", "takens"], models=["online", "streaming"], max_len=12, min_series=2))
    c["ic"] = draw(edm.ics(c["x"], 1))
    return c


SUBS = [
    Sub("triplets", triplet_cases(), run_triplets, "more than one eigenpair", 500, 8000, 8),
    Sub("evolve", evolve_cases(), run_evolve, "closed dictionary, several steps and eigenpairs", 200, 4000, 3),
    Sub("partial", partial_cases(), run_partial, "more than one partial fit", 120, 2000, 3),
    Sub("matrix", c22.cases(kinds=KINDS, max_len=8, models=["matrix"]), run_matrix, "every case", 30, 300, 1),
]
ASSUMPTIONS = [
    "Compared where the eigenvector basis is well conditioned (below 1e5), since otherwise triplets are not numerically determined.",
]
