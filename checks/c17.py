"""C17: dynamic mode decomposition."""
import numpy as np
import scipy.linalg
from hypothesis import strategies as st

from datafold.dynfold.dmd import DMDControl, DMDStandard, OnlineDMD, PyDMDWrapper, StreamingDMD, gDMDFull
from datafold.dynfold.dmd import PretrainedDMD
from vh import dyn, gen
from vh.core import Known, Sub


def eig_checks(ctx, m, a, what, tol=1e-7):
    """eigenvalues and right eigenvectors (modes) of the matrix a"""
    w, v = m.eigenvalues_, m.eigenvectors_right_
    ctx.close(a @ v, v * w, what + ": eigenvector equation", tol, tol * max(1, np.abs(a).max()))
    dyn.match(ctx, w, np.linalg.eigvals(a), what + ": spectrum", 1e-6)
    ctx.ok((np.diff(np.real(w)) <= 1e-12).all(), what + ": descending order of the eigenvalues")
    ctx.ok((m.dmd_modes == v).all(), what + ": modes")


def run_full(case, ctx):
    """Arbitrary (noisy) data: least squares over the snapshot pairs of all series."""
    spec = case["x"]
    p = len(spec["cols"])
    gen.classify(spec, ctx)
    vals = gen.values(spec, len(gen.rows(spec)), p)
    x = gen.build(spec, vals)
    l, r = dyn.pairs(spec, vals)
    s = np.linalg.svd(l, compute_uv=False)
    full = len(l) >= p and s[-1] > 1e-2 * s[0]
    ctx.tag(f"rank:{'full' if full else 'deficient'}")
    ctx.nt(full and len(spec["ser"]) > 1 and p > 1)
    if not full and not (len(l) < p and s[-1] > 1e-2 * s[0]):
        return
    kw, wts = {}, None
    if case["weights"] and full:
        wts = gen.rng_of(case["seed"]).uniform(0.2, 2.0, size=len(l))
        kw["sample_weights"] = wts.copy()
        sq = np.sqrt(wts)[:, None]
        want = np.linalg.lstsq(l * sq, r * sq, rcond=None)[0].T
    else:
        want = np.linalg.lstsq(l, r, rcond=None)[0].T  # minimum norm if rank deficient
    tol = 1e-6
    m = DMDStandard(sys_mode="matrix").fit(x, **kw)
    ctx.close(m.sys_matrix_, want, "system matrix", tol, tol * max(1, np.abs(want).max()))
    if wts is not None:
        ctx.ok((kw["sample_weights"] == wts).all(), "weights unchanged")
    ctx.ok((x.to_numpy() == vals).all(), "data unchanged")
    ctx.raises(lambda: m.dmd_modes, "modes in matrix mode", AttributeError)
    m = DMDStandard(sys_mode="spectral").fit(x, store_system_matrix=True, **kw)
    ctx.close(m.system_matrix_, want, "stored system matrix", tol, tol * max(1, np.abs(want).max()))
    eig_checks(ctx, m, m.system_matrix_, "spectral")
    if full and np.linalg.cond(want) < 1e4 and np.linalg.cond(m.eigenvectors_right_) < 1e4:
        m = DMDStandard(sys_mode="spectral", diagonalize=True).fit(x, **kw)
        ctx.close(m.eigenvectors_left_ @ m.eigenvectors_right_, np.eye(p), "left and right eigenvectors", 1e-6, 1e-6)
    if wts is None and full:
        m = OnlineDMD(with_warm_up=False).fit(x)
        ctx.close(m.A, want, "OnlineDMD.fit", tol, tol * max(1, np.abs(want).max()))
        eig_checks(ctx, m, m.A, "OnlineDMD")


def run_reduced(case, ctx):
    """Economic DMD on arbitrary data: projected least squares."""
    spec, p = case["x"], len(case["x"]["cols"])
    vals = gen.values(spec, len(gen.rows(spec)), p)
    x = gen.build(spec, vals)
    l, r = dyn.pairs(spec, vals)
    rank = case["rank"]
    u, s, vh = np.linalg.svd(l.T, full_matrices=False)
    if rank > p - 1 or len(l) < p or s[rank - 1] - s[rank] < 0.05 * s[0] or s[-1] < 1e-2 * s[0]:
        return
    ctx.nt(len(spec["ser"]) > 1)
    ctx.tag(case["mode"])
    low = u[:, :rank].T @ r.T @ vh[:rank].T @ np.diag(1 / s[:rank])
    m = DMDStandard(rank=rank, reconstruct_mode=case["mode"]).fit(x, store_system_matrix=True)
    dyn.match(ctx, m.eigenvalues_, np.linalg.eigvals(low), "eigenvalues of the projected system", 1e-6)
    dyn.match(ctx, np.linalg.eigvals(m.system_matrix_), np.linalg.eigvals(low), "stored projected matrix", 1e-6)
    v, w = m.eigenvectors_right_, m.eigenvalues_
    ctx.eq(v.shape, (p, rank), "shape of the modes")
    if case["mode"] == "project":
        op = u[:, :rank] @ u[:, :rank].T @ (r.T @ np.linalg.pinv(u[:, :rank] @ np.diag(s[:rank]) @ vh[:rank]))
        ctx.close(op @ v, v * w, "modes of the projected operator", 1e-6, 1e-6 * max(1, np.abs(op).max()))
    else:  # exact modes: eigenvectors of A = Y X_r^+
        op = r.T @ (vh[:rank].T @ np.diag(1 / s[:rank]) @ u[:, :rank].T)
        ctx.close(op @ v, v * w, "exact modes", 1e-6, 1e-6 * max(1, np.abs(op).max()))


VARIANTS = ["spectral", "matrix", "diagonalize", "generator-spectral", "generator-matrix", "reduced-exact", "reduced-project", "online", "streaming", "pydmd",
            "pretrained-spectral", "pretrained-matrix", "pretrained-diag", "filter"]


def run_recover(case, ctx):
    """Noise-free data of a linear system."""
    spec, var = case["x"], case["variant"]
    p = len(spec["cols"])
    rng = gen.rng_of(case["seed"])
    real = case["real"]
    r = case["rank"] if var.startswith("reduced") else p
    if r > p or (var.startswith("reduced") and r > p - 1):
        return
    a = gen.stable_matrix(rng, r, lo=0.55, hi=1.0, real=real)
    if var.startswith("generator") and spec["kind"] == "dt":
        return
    basis = np.eye(p) if r == p else gen.orth(rng, p)[:, :r]
    if var == "pydmd":
        spec = dict(spec, ser=[dict(spec["ser"][0])])
        n = max(len(spec["ser"][0]["t"]), 2 * p + 2)
        spec["ser"][0]["t"] = [spec["ser"][0]["t"][0] + dyn.step(case["x"]) * k for k in range(n)]
    z, _ = dyn.free_values(spec, a, rng)
    vals = z @ basis.T
    l, rr = dyn.pairs(spec, z)
    s = np.linalg.svd(l, compute_uv=False)
    if len(l) < r or s[-1] < 2e-3 * s[0]:
        return
    gen.classify(spec, ctx)
    ctx.tag(var)
    ctx.nt(p > 1 and (len(spec["ser"]) > 1 or var == "pydmd"))
    x = gen.build(spec, vals)
    want = np.linalg.eigvals(a)
    gen_sys = var.startswith("generator")
    matrix_mode = False
    amat = a
    if var == "spectral":
        m = DMDStandard().fit(x)
    elif var == "matrix":
        m = DMDStandard(sys_mode="matrix").fit(x)
        matrix_mode = True
    elif var == "diagonalize":
        m = DMDStandard(diagonalize=True).fit(x)
    elif var == "generator-spectral":
        m = DMDStandard(approx_generator=True).fit(x, store_system_matrix=True)
        ctx.close(scipy.linalg.expm(m.generator_matrix_ * dyn.dt(spec)), a, "exp(dt L) is the flow map", 1e-6, 1e-6)
        ctx.ok(not hasattr(m, "system_matrix_"), "no flow map in generator mode")
    elif var == "generator-matrix":
        m = DMDStandard(approx_generator=True, sys_mode="matrix").fit(x)
        matrix_mode = True
        ctx.close(scipy.linalg.expm(m.sys_matrix_ * dyn.dt(spec)), a, "exp(dt L) is the flow map (matrix mode)", 1e-6, 1e-6)
    elif var.startswith("reduced"):
        m = DMDStandard(rank=r, reconstruct_mode=var.split("-")[1]).fit(x)
    elif var == "online":
        m = OnlineDMD().partial_fit(x, batch_fit=False)
        if not m.ready_:
            return
    elif var == "streaming":
        if len(spec["ser"][0]["t"]) == 3:  # documented: two or more than three samples
            return
        m = StreamingDMD().partial_fit(x)
        if not hasattr(m, "eigenvalues_"):
            return
    elif var == "pydmd":
        m = PyDMDWrapper(method="dmd", svd_rank=-1, exact=True).fit(x)
    elif var == "filter":
        m = DMDStandard(residual_filter=dict(threshold=1e6)).fit(x)
    else:
        mode = "matrix" if var.endswith("matrix") else "spectral"
        m = PretrainedDMD.from_available_system_matrix("flowmap", mode, a.copy(), is_diagonalize=var.endswith("diag"))
        m.fit(x)
        matrix_mode = mode == "matrix"
    dtv = dyn.dt(spec)
    if not matrix_mode:
        got = np.exp(m.eigenvalues_ * dtv) if gen_sys else m.eigenvalues_
        tol = 1e-4 if var in ("streaming", "online", "pydmd") else 1e-6
        dyn.match(ctx, got, want, f"{var}: spectrum of the flow map", tol)
        v = m.eigenvectors_right_
        op = basis @ amat @ basis.T
        ctx.close(op @ v, v * got, f"{var}: modes", 1e-4, tol * max(1, np.abs(v).max()))
        # eigenfunction coordinates evolve by their eigenvalue
        first = spec["ser"][0]
        seg = vals[:len(first["t"])]
        coords = m.compute_spectral_system_states(seg.T)
        ctx.close(coords[:, 1:], got[:, None] * coords[:, :-1], f"{var}: eigenfunction coordinates along a trajectory", 1e-4,
                  10 * tol * max(1, np.abs(coords).max()))
    tol = 1e-3 if var in ("streaming", "online", "pydmd") else 1e-6
    if var == "streaming" and (m.max_rank is not None):
        return
    back = m.reconstruct(x)
    dyn.same_rows(ctx, back, spec, vals, spec["cols"], f"{var}: reconstruction of noise-free data", tol, tol)


def run_gdmd(case, ctx):
    """gDMD: least squares of the finite difference derivative on the states at the same row."""
    spec = case["x"]
    p = len(spec["cols"])
    gen.classify(spec, ctx)
    acc, scheme = case["acc"], case["scheme"]
    vals = gen.values(spec, len(gen.rows(spec)), p)
    h = float(dyn.dt(spec))
    w = {("center", 2): {-1: -.5, 1: .5}, ("center", 4): {-2: 1 / 12, -1: -2 / 3, 1: 2 / 3, 2: -1 / 12},
         ("forward", 2): {0: -1.5, 1: 2, 2: -.5}, ("backward", 2): {0: 1.5, -1: -2, -2: .5},
         ("forward", 4): {0: -25 / 12, 1: 4, 2: -3, 3: 4 / 3, 4: -1 / 4}, ("backward", 4): {0: 25 / 12, -1: -4, -2: 3, -3: -4 / 3, -4: 1 / 4}}[scheme, acc]
    xs, ds, k = [], [], 0
    for s in spec["ser"]:
        n = len(s["t"])
        v = vals[k:k + n]
        k += n
        lo, hi = max(0, -min(w)), n - max(0, max(w))
        if hi <= lo:
            return
        for i in range(lo, hi):
            xs.append(v[i])
            ds.append(sum(c * v[i + o] for o, c in w.items()) / h)
    xs, ds = np.array(xs), np.array(ds)
    sv = np.linalg.svd(xs, compute_uv=False)
    if len(xs) < p or sv[-1] < 2e-2 * sv[0]:
        return
    ctx.nt(len(spec["ser"]) > 1 and p > 1)
    ctx.tag(f"{scheme}-{acc}")
    x = gen.build(spec, vals)
    want = np.linalg.lstsq(xs, ds, rcond=None)[0].T
    kw = {} if scheme == "center" and acc == 2 and case["default"] else dict(kwargs_fd=dict(scheme=scheme, accuracy=acc))
    m = gDMDFull(**kw).fit(x, store_generator_matrix=True)
    sc = max(1, np.abs(want).max())
    ctx.close(m.generator_matrix_, want, "generator matrix", 1e-6, 1e-6 * sc)
    eig_checks(ctx, m, m.generator_matrix_, "gDMD", 1e-6)
    m2 = gDMDFull(sys_mode="matrix", **kw).fit(x)
    ctx.close(m2.sys_matrix_, want, "generator matrix (matrix mode)", 1e-6, 1e-6 * sc)
    if np.linalg.cond(m.eigenvectors_right_) < 1e4 and np.linalg.cond(want) < 1e4:
        m3 = gDMDFull(is_diagonalize=True, **kw).fit(x)
        ctx.close(m3.eigenvectors_left_ @ m3.eigenvectors_right_, np.eye(p), "gDMD left eigenvectors", 1e-6, 1e-6)
    # prediction: flow of the estimated generator
    t = np.arange(3) * h * 0.5
    x0 = gen.rng_of(case["seed"]).normal(size=p)
    ref = np.array([scipy.linalg.expm(want * q) @ x0 for q in t])
    if np.abs(ref).max() < 1e3 and np.linalg.cond(m.eigenvectors_right_) < 1e4:
        for q in (m, m2):
            got = q.predict(x0, time_values=t)
            ctx.close(got.to_numpy(), ref, "flow of the generator", 1e-5, 1e-5 * max(1, np.abs(ref).max()))


def run_filter(case, ctx):
    """Residual filter: which components are kept, and that pairs stay together."""
    spec, p = case["x"], len(case["x"]["cols"])
    vals = gen.values(spec, len(gen.rows(spec)), p)
    l, _ = dyn.pairs(spec, vals)
    s = np.linalg.svd(l, compute_uv=False)
    if len(l) < p or s[-1] < 1e-2 * s[0]:
        return
    x = gen.build(spec, vals)
    full = DMDStandard().fit(x, store_system_matrix=True)
    a = full.system_matrix_
    if np.linalg.cond(a) > 1e4 or np.linalg.cond(full.eigenvectors_right_) > 1e4:
        return
    f = {case["key"]: {"threshold": case["thr"], "quantile": case["q"], "keep_n": min(case["keep"], p)}[case["key"]], "store_residuals": True,
         "sort": case["sort"]}
    f0 = dict(f)
    m = DMDStandard(residual_filter=f, diagonalize=case["diag"])
    try:
        m.fit(x)
    except ValueError as e:
        ctx.ok(case["key"] == "threshold" and "spectral pollution" in str(e), f"unexpected error {e}")
        ctx.ok((DMDStandard(residual_filter=dict(threshold=1e9, store_residuals=True)).fit(x).residuals_ > case["thr"]).all(),
               "all components were removed but a residual is below the threshold")
        ctx.tag("all-removed")
        return
    ctx.ok(m.residual_filter is f and f == f0, "parameter residual_filter unchanged")
    res, keep = m.residuals_, m.residuals_mask_keep_
    ctx.eq(len(res), p, "one residual per component")
    if case["key"] == "threshold":
        want = res <= case["thr"]
    elif case["key"] == "quantile":
        want = res <= np.quantile(res, case["q"])
    else:
        want = res <= np.sort(res)[f["keep_n"] - 1]
    ctx.nt(want.any() and not want.all())
    ctx.ok((want == keep).all(), "mask of kept components")
    order = np.argsort(res[want]) if case["sort"] else np.arange(int(want.sum()))
    w = full.eigenvalues_[want]
    if case["sort"]:
        ctx.close(np.sort_complex(m.eigenvalues_), np.sort_complex(w), "kept eigenvalues")
        if len(np.unique(np.round(res[want], 12))) == want.sum():
            ctx.close(m.eigenvalues_, w[order], "kept eigenvalues sorted by residual")
    else:
        ctx.close(m.eigenvalues_, w, "kept eigenvalues")
    v = m.eigenvectors_right_
    ctx.close(a @ v, v * m.eigenvalues_, "kept modes belong to their eigenvalues", 1e-6, 1e-6 * max(1, np.abs(a).max()))
    if case["diag"]:
        ctx.close(m.eigenvectors_left_ @ v, np.eye(v.shape[1]), "kept left eigenvectors", 1e-6, 1e-6)


def resdmd_fails():
    """Noise-free linear system: the residual of every eigenpair is zero by definition."""
    a = np.array([[0.9, 0.5, 0.0], [0.0, 0.5, 0.3], [0.0, 0.0, -0.7]])
    spec = {"ser": [{"id": 0, "t": list(range(10))}], "kind": "int", "unit": 1, "cols": ["a", "b", "c"], "seed": 0}
    vals = dyn.orbit(np.array([1.0, -1.0, 2.0]), a, 10)
    m = DMDStandard(residual_filter=dict(threshold=1e6, store_residuals=True)).fit(gen.build(spec, vals))
    return not (np.abs(m.residuals_) < 1e-4).all()


num = ("int", "float")
SUBS = [
    Sub("full", st.fixed_dictionaries(dict(x=dyn.grid(min_series=1, max_series=4, min_len=2, max_len=8), weights=st.booleans(), seed=gen.seeds())),
        run_full, "full-rank snapshots of several series and features", quick=500, thorough=20000, shards=2),
    Sub("reduced", st.fixed_dictionaries(dict(x=dyn.grid(min_len=4, max_len=8, min_feat=2), rank=st.integers(1, 3), mode=st.sampled_from(["exact", "project"]))),
        run_reduced, "several series", quick=420, thorough=12000),
    Sub("recover", st.fixed_dictionaries(dict(x=dyn.grid(min_len=2, max_len=8, max_series=5, equal_len=False), variant=st.sampled_from(VARIANTS), rank=st.integers(1, 3),
                                              real=st.booleans(), seed=gen.seeds())),
        run_recover, "several features and series", quick=900, thorough=30000, shards=4),
    Sub("gdmd", st.fixed_dictionaries(dict(x=dyn.grid(min_len=5, max_len=9, kinds=num), acc=st.sampled_from([2, 4]),
                                           scheme=st.sampled_from(["center", "center", "forward", "backward"]), default=st.booleans(), seed=gen.seeds())),
        run_gdmd, "several series and features", quick=300, thorough=10000),
    Sub("filter", st.fixed_dictionaries(dict(x=dyn.grid(min_len=3, max_len=8, min_feat=2), key=st.sampled_from(["threshold", "quantile", "keep_n"]),
                                             thr=st.sampled_from([0.3, 0.6, 1.0, 2.0]), q=st.sampled_from([0.3, 0.5, 0.8]), keep=st.integers(1, 4),
                                             sort=st.booleans(), diag=st.booleans())),
        run_filter, "some components kept, some removed", quick=200, thorough=6000),
]
KNOWN = [Known("resdmd-residual-of-modes", resdmd_fails)]
ASSUMPTIONS = ["snapshot matrices with a ratio of extreme singular values below 1e-2 (2e-3 for noise-free data) are not judged: the code solves normal equations",
               "the generator variants are judged for real spectra inside the principal branch of the logarithm"]
