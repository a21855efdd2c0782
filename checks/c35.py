"""C35: jointly smooth functions and the selection of coordinates by local regression."""
import copy

import numpy as np
import scipy.linalg
from hypothesis import strategies as st
from sklearn.base import clone
from sklearn.exceptions import NotFittedError

from datafold import TSCDataFrame
from datafold.dynfold import DiffusionMaps, LocalRegressionSelection
from datafold.dynfold.jsf import JointlySmoothFunctions
from datafold.pcfold import kernels as K
from checks import c27
from checks.c14 import kernel_value
from checks.c30 import SEED, aligned, same_labels, wrap
from checks.c34 import freeze
from vh import gen
from vh.core import Sub

# ------------------------------------------------------------------ jointly smooth functions


def kernel(o):
    if o["k"] == "dmap":
        return K.DmapKernelFixed(K.GaussianKernel(epsilon=o["eps"]), is_stochastic=False, symmetrize_kernel=False)
    return getattr(K, o["k"])(epsilon=o["eps"])


def matrix(o, q, x):
    """kernel matrix of shape (len(q), len(x)), from the definitions"""
    return kernel_value("GaussianKernel" if o["k"] == "dmap" else o["k"], o["eps"], c27.definition("sqeuclidean", q, x))


def eigenpairs(a, d, cut):
    lam, w = scipy.linalg.eigh(a)
    lam, w = lam[::-1], w[:, ::-1]
    ok = lam[d - 1] > 1e-5 * lam[0] and (len(lam) == d or lam[d - 1] - lam[d] > 1e-4 * lam[d - 1])
    ok = ok and (np.abs(lam[:d] - cut) > 1e-6 * lam[0]).all() and (np.diff(lam[:d]) < -1e-5 * lam[0]).all()
    keep = lam[:d] > cut
    return lam[:d][keep], w[:, :d][:, keep], ok


def split_columns(o, p):
    return list(range(p))[o] if isinstance(o, slice) else list(o)


def splits_of(case, p):
    out = []
    for i, o in enumerate(case["splits"]):
        a = o["cols"][0] % p
        b = min(p, a + o["cols"][1])
        c = slice(a, b) if o["form"] == "slice" else sorted({a, b - 1}, reverse=o["form"] == "array")
        out.append((f"s{i}", kernel(o), np.array(c) if o["form"] == "array" else c))
    return out


def jsf(case, ctx):
    r = gen.rng_of(case["seed"], 41)
    n, p = case["n"], case["p"]
    if case["data"] == "common":  # every observation is a function of the same hidden variable
        h = np.sort(r.uniform(-2, 2, size=n))
        x = np.column_stack([np.sin((j + 1) * 0.6 * h + j) + 0.05 * r.normal(size=n) for j in range(p)])
        x = x[r.permutation(n)]
    else:
        x = r.normal(size=(n, p))
    q = x[r.integers(0, n, size=6)] + 0.1 * r.normal(size=(6, p))
    d = min(case["d"], n - 1)
    splits = splits_of(case, p)
    names = [s[0] for s in splits]
    ks = {s[0]: split_columns(s[2], p) for s in splits}
    W, L, good = {}, {}, True
    for s, o in zip(splits, case["splits"]):
        a = matrix(o, x[:, ks[s[0]]], x[:, ks[s[0]]])
        lam = np.sort(scipy.linalg.eigvalsh(a))[::-1]
        cut = 0
        if case["cut"]:
            cut = float((lam[d // 2] + lam[d // 2 + 1]) / 2)
            cut = min(cut, case.setdefault("_c", cut))
            case["_c"] = cut
    cut = case.pop("_c", 0) if case["cut"] else 0
    for s, o in zip(splits, case["splits"]):
        L[s[0]], W[s[0]], ok = eigenpairs(matrix(o, x[:, ks[s[0]]], x[:, ks[s[0]]]), d, cut)
        good = good and ok and len(L[s[0]]) > 1
    if not good:
        return ctx.tag("ill-conditioned kernel")
    k = len(splits)
    two = k == 2
    stacked = np.column_stack([W[s] for s in names])
    if two:
        nf = min(case["nf"], *[len(L[s]) - 1 for s in names])
        Q, g, Rt = scipy.linalg.svd(W["s0"].T @ W["s1"], full_matrices=False)
        want = (W["s0"] @ Q + W["s1"] @ Rt.T)[:, :nf] / np.sqrt(2 * (1 + g[:nf]))
        gaps = -np.diff(g[: nf + 1])
        smooth = (1 + g[:nf]) / 2
    else:
        nf = min(case["nf"], stacked.shape[1])
        if nf >= min(stacked.shape):
            nf = min(nf, n)
        U, g, _ = scipy.linalg.svd(stacked, full_matrices=False)
        want = U[:, :nf]
        gaps = -np.diff(g[: nf + 1])
        smooth = g[:nf] ** 2 / k
    if (gaps < 1e-5).any() or smooth.min() < 1e-4:
        return ctx.tag("ill-conditioned functions")
    X, Y = wrap(x, case["form"], r), wrap(q, case["form"], r, 10)
    ctx.tag(case["form"], f"{k} splits", case["data"], *[o["k"] for o in case["splits"]], "eigenvalue cut-off" if case["cut"] else "no cut-off",
            "fewer functions than requested" if nf < case["nf"] else "requested number")
    ctx.nt(nf > 1)
    user = freeze([s[1] for s in splits])
    m = JointlySmoothFunctions(splits, n_kernel_eigenvectors=d, n_jointly_smooth_functions=case["nf"], kernel_eigenvalue_cut_off=cut)
    ctx.raises(lambda: m.transform(X), "transform before the fit", NotFittedError)
    if case["refit"]:
        m.fit(wrap(x[::-1] * 0.9, case["form"], r))
    got = m.fit_transform(X)
    cols = [f"jsf{i}" for i in range(nf)]
    same_labels(ctx, got, X, cols, "functions at the training points")
    f = np.asarray(got)
    ctx.eq(freeze([s[1] for s in splits]), user, "kernels of the user")
    ctx.close(np.asarray(x), np.asarray(X), "training data", 0, 0)
    for s in names:
        ctx.close(np.sort(m.kernel_eigenvalues_[s])[::-1], L[s], "kernel eigenvalues " + s, 1e-7, 1e-9 * L[s][0])
        ctx.close(np.abs(np.asarray(m.kernel_eigenvectors_[s]).T @ W[s]), np.eye(len(L[s])), "kernel eigenvectors " + s, 1e-4, 1e-4)
    ev = np.asarray(m.eigenvalues_)
    ctx.eq(len(ev) >= nf, True, "number of eigenvalues")
    ctx.close(ev[:nf], g[:nf], "reported singular values", 1e-6, 1e-6)
    ctx.ok((np.diff(ev) <= 1e-9).all(), "singular values sorted")
    aligned(ctx, f, want, "functions", 1e-4, 1e-4)
    ctx.close(f.T @ f, np.eye(nf), "functions are orthonormal", 1e-6, 1e-6)
    # smoothness on every observation
    en = {s: (W[s].T @ f) ** 2 for s in names}
    tot = sum(e.sum(axis=0) for e in en.values())
    ctx.close(tot / k, smooth, "energy in the kernel eigenspaces", 1e-6, 1e-6)
    if two:
        for s in names:
            ctx.close(en[s].sum(axis=0), smooth, "energy on observation " + s, 1e-6, 1e-6)
    ctx.close(m.score_(None, None), sum(smooth) * k, "score", 1e-6, 1e-6)
    # new points

    def extension(z):
        return sum(matrix(o, z[:, ks[s]], x[:, ks[s]]) @ (W[s] / L[s]) @ (W[s].T @ f) for s, o in zip(names, case["splits"])) / k
    new = m.transform(Y)
    same_labels(ctx, new, Y, cols, "functions at new points")
    tol = 1e-6 * max(L[s][0] / L[s][-1] for s in names)
    ctx.close(np.asarray(new), extension(q), "extension to new points", 1e-5, tol)
    ctx.close(np.asarray(m.transform(X)), f * smooth, "training points as new points", 1e-5, tol)
    one = Y[:1] if case["form"] == "array" else Y.iloc[:1]
    ctx.close(np.asarray(m.transform(one)), np.asarray(new)[:1], "extension of a single point", 1e-7, 1e-7)
    ctx.eq(list(m.get_feature_names_out()), cols, "names")
    # order of the points and of the splits
    perm = r.permutation(n)
    a = clone(m).fit_transform(wrap(x[perm], "array", r))
    aligned(ctx, np.asarray(a), f[perm], "order of the points", 1e-4, 1e-4)
    b = JointlySmoothFunctions([(s[0], copy.deepcopy(s[1]), s[2]) for s in splits[::-1]], n_kernel_eigenvectors=d, n_jointly_smooth_functions=case["nf"],
                               kernel_eigenvalue_cut_off=cut).fit_transform(x)
    aligned(ctx, np.asarray(b), f, "order of the observations", 1e-4, 1e-4)
    if two and len(gaps) and nf >= 3 and case["nf"] < min(len(L[s]) for s in names):
        z = np.asarray(m.kernel_eigenvectors_["s1"]).copy()
        np.random.default_rng(1).shuffle(z)
        e = scipy.linalg.svdvals(np.asarray(m.kernel_eigenvectors_["s0"]).T @ z)
        ctx.close(m.compute_E0(), (1 + e[2]) / 2, "threshold of random functions", 1e-6, 1e-6)
    with_matrix = clone(m).fit(X, store_kernel_matrix=True)
    for s, o in zip(names, case["splits"]):
        ctx.ok("kernel_matrix" not in m.kernel_content_[s], "kernel matrix not stored")
        ctx.close(np.asarray(with_matrix.kernel_content_[s]["kernel_matrix"]), matrix(o, x[:, ks[s]], x[:, ks[s]]), "stored kernel matrix", 1e-9, 1e-12)


def invalid(case, ctx):
    r = gen.rng_of(case["seed"], 42)
    x = r.normal(size=(12, 4))
    g = lambda: K.GaussianKernel(epsilon=1.0)  # noqa: E731
    a, b = ("a", g(), [0, 1]), ("b", g(), slice(2, 4))
    bad = {"tuple": (a, b), "single": [a], "names": [a, ("a", g(), [2])], "short": [a, ("b", g())], "name": [a, (1, g(), [2])], "kernel": [a, ("b", "rbf", [2])],
           "index": [a, ("b", g(), 2)], "list": [a, ["b", g(), [2]]]}[case["what"]]
    ctx.tag(case["what"])
    ctx.nt()
    ctx.raises(lambda: JointlySmoothFunctions(bad, n_kernel_eigenvectors=4, n_jointly_smooth_functions=2).fit(x), case["what"], (TypeError, ValueError))
    for kw in ({"n_kernel_eigenvectors": 0}, {"n_jointly_smooth_functions": 0}, {"kernel_eigenvalue_cut_off": -1.0}, {"n_kernel_eigenvectors": 12}):
        ctx.raises(lambda: JointlySmoothFunctions([a, b], **dict(dict(n_kernel_eigenvectors=4, n_jointly_smooth_functions=2), **kw)).fit(x), str(kw), (TypeError, ValueError))
    m = JointlySmoothFunctions([a, b], n_kernel_eigenvectors=4, n_jointly_smooth_functions=2).fit(x)
    ctx.raises(lambda: m.transform(x[:, :3]), "other number of features", (TypeError, ValueError))
    z = x.copy()
    z[0, 0] = np.nan
    ctx.raises(lambda: m.transform(z), "missing values", (TypeError, ValueError))
    ctx.raises(lambda: clone(m).fit(z), "missing values in fit", (TypeError, ValueError))


# ------------------------------------------------------------------ local regression

def regression(dom, target, bw, scale):
    """relative residual of the weighted local linear regression; and if the solution is well-conditioned"""
    d2 = ((dom[:, None, :] - dom[None, :, :]) ** 2).sum(axis=2)
    eps = (np.median(d2) if bw == "median" else np.mean(d2)) / scale
    if eps <= 0:
        return None, False
    w = np.exp(-d2 / eps)
    est, ok = np.empty(len(dom)), True
    for i in range(len(dom)):
        A = np.column_stack([np.ones(len(dom)), dom - dom[i]])
        N = A.T @ (w[i][:, None] * A)
        s = np.linalg.svd(N, compute_uv=False)
        ok = ok and s[-1] > 1e-5 * s[0]
        sw = np.sqrt(w[i])
        est[i] = np.linalg.lstsq(sw[:, None] * A, sw * target, rcond=None)[0][0]
    return np.sqrt(((target - est) ** 2).sum() / (target ** 2).sum()), ok


def columns(case, r):
    n, kinds = case["n"], case["cols"]
    base = [np.ones(n) * r.normal(), r.uniform(-1, 1, size=n)]
    for k in kinds:
        prev = np.column_stack(base[1:])
        if k == "linear":
            base.append(prev @ r.normal(size=prev.shape[1]) + r.normal())
        elif k == "function":
            t = base[1]
            base.append([2 * t ** 2 - 1, np.cos(2 * t), t ** 3 - t, np.exp(t)][int(r.integers(4))])
        else:
            base.append(r.uniform(-1, 1, size=n))
    return np.column_stack(base)


def selection(case, ctx):
    r = gen.rng_of(case["seed"], 43)
    x = columns(case, r)
    n, p = x.shape
    X = wrap(x, case["form"], r)
    dim = min(case["dim"], p - 1)
    par = dict(eps_med_scale=case["scale"], strategy=case["strategy"], intrinsic_dim=dim, regress_threshold=case["thr"], bandwidth_type=case["bw"])
    m = LocalRegressionSelection(**par)
    if case["refit"]:
        m.fit(wrap(r.normal(size=(9, p)), case["form"], r))
    m.fit(X)
    res = np.asarray(m.residuals_)
    ctx.eq(len(res), p, "number of residuals")
    ctx.ok(np.isnan(res[0]), "residual of the trivial coordinate")
    ctx.eq(float(res[1]), 1.0, "residual of the first coordinate")
    ctx.tag(case["form"], case["strategy"], case["bw"], *case["cols"])
    conditioned = True
    for j in range(2, p):
        w, ok = regression(x[:, 1:j], x[:, j], case["bw"], case["scale"])
        conditioned = conditioned and ok
        ctx.ok(np.isfinite(res[j]) and res[j] >= 0, "residual is a number")
        if ok:
            ctx.close(res[j], w, f"residual of coordinate {j}", 1e-5, 1e-6)
            if case["cols"][j - 2] == "linear":
                ctx.ok(res[j] < 1e-6, "linear function of previous coordinates")
    # selected coordinates
    idx = [int(i) for i in m.evec_indices_]
    ctx.eq(idx, sorted(set(idx)), "indices are increasing")
    ctx.ok(all(0 < i < p for i in idx), "indices are admissible")
    if case["strategy"] == "threshold":
        ctx.eq(idx, [j for j in range(1, p) if res[j] > case["thr"]], "indices above the threshold")
    else:
        ctx.eq(len(idx), dim, "requested number of coordinates")
        if dim == 1:
            ctx.eq(idx, [1], "single coordinate")
        else:
            rest = [res[j] for j in range(1, p) if j not in idx]
            ctx.ok(not rest or min(res[j] for j in idx) >= max(rest), "coordinates with the largest residuals")
    ctx.nt(len(set(case["cols"])) > 1)
    out = m.transform(X)
    cols = [f"f{i}" for i in idx]
    same_labels(ctx, out, X, cols, "selected coordinates")
    ctx.close(np.asarray(out), x[:, idx], "values of the selected coordinates", 0, 0)
    ctx.close(np.asarray(m.fit_transform(X)), x[:, idx], "fit_transform", 0, 0)
    Y = wrap(r.normal(size=(5, p)), case["form"], r, 7)
    same_labels(ctx, m.transform(Y), Y, cols, "coordinates of new points")
    ctx.close(np.asarray(m.transform(Y)), np.asarray(Y)[:, idx], "values of new points", 0, 0)
    ctx.close(np.asarray(X), x, "data supplied by the user", 0, 0)
    ctx.raises(lambda: m.inverse_transform(out), "inverse", NotImplementedError)
    if conditioned:
        perm = r.permutation(n)
        ctx.close(clone(m).fit(x[perm]).residuals_[1:], res[1:], "order of the points", 1e-5, 1e-7)
        full = clone(m).set_params(n_subsample=n, random_state=case["seed"] % 1000)
        ctx.close(full.fit(x).residuals_[1:], res[1:], "subsample of all points", 1e-5, 1e-7)
        sc = np.array([1.0] + [s * float(2.0 ** case["pow"]) for s in r.choice([-1, 1], size=p - 1)])
        if all(regression((x * sc)[:, 1:j], (x * sc)[:, j], case["bw"], case["scale"])[1] for j in range(2, p)):
            ctx.close(clone(m).fit(x * sc).residuals_[1:], res[1:], "scale and sign of the coordinates", 1e-4, 1e-6)
        late = x.copy()
        late[:, -1] = r.normal(size=n)
        ctx.close(clone(m).fit(late).residuals_[1:-1], res[1:-1], "residuals depend on previous coordinates only", 0, 0)
    k = max(6, n // 2)
    s = [clone(m).set_params(n_subsample=k, random_state=case["seed"] % 1000).fit(x) for _ in range(2)]
    ctx.close(s[0].residuals_[1:], s[1].residuals_[1:], "random state", 0, 0)
    ctx.eq(np.asarray(s[0].transform(X)).shape[0], n, "subsampled selection applies to all points")
    ctx.raises(lambda: LocalRegressionSelection(intrinsic_dim=p).fit(x), "too many coordinates", ValueError)
    ctx.raises(lambda: LocalRegressionSelection(strategy="other").fit(x), "strategy", ValueError)
    ctx.raises(lambda: LocalRegressionSelection(intrinsic_dim=1, bandwidth_type="other").fit(x), "bandwidth", ValueError)
    ctx.raises(lambda: LocalRegressionSelection(strategy="threshold", regress_threshold=1.5).fit(x), "threshold", ValueError)
    ctx.raises(lambda: LocalRegressionSelection(intrinsic_dim=1).fit(x[:, :1]), "single feature", ValueError)


def strip(case, ctx):
    """a coordinate that is a function of previous ones ranks below independent ones (diffusion coordinates of a rectangle)"""
    r = gen.rng_of(case["seed"], 44)
    n, b = 160, case["b"]
    pts = np.column_stack([r.uniform(0, 1, size=n), r.uniform(0, b, size=n)])
    t, s = pts[:, 0], pts[:, 1]
    pos = case["pos"]
    indep = np.cos(np.pi * s / b)
    cols = [np.ones(n)] + [np.cos(np.pi * (k + 1) * t) for k in range(4)]
    cols.insert(pos, indep)
    x = np.column_stack(cols)
    m = LocalRegressionSelection(intrinsic_dim=2, bandwidth_type=case["bw"]).fit(x)
    ctx.nt()
    ctx.eq([int(i) for i in m.evec_indices_], [1, pos], "independent coordinates of a rectangle")
    res = m.residuals_
    ctx.ok(all(res[j] < res[pos] for j in range(2, 6) if j != pos), "dependent coordinates have smaller residuals")
    mt = LocalRegressionSelection(strategy="threshold", regress_threshold=0.7, bandwidth_type=case["bw"]).fit(x)
    ctx.ok(set(int(i) for i in mt.evec_indices_) >= {1, pos}, "threshold keeps the independent coordinates")
    if case["dmap"]:
        d = DiffusionMaps(K.GaussianKernel(epsilon=0.004), n_eigenpairs=6).fit_transform(TSCDataFrame.from_single_timeseries(pts_frame(pts)))
        sel = LocalRegressionSelection(intrinsic_dim=2).fit(d)
        out = sel.transform(d)
        ctx.ok(isinstance(out, TSCDataFrame), "type")
        ctx.eq(list(out.columns), [f"dmap{int(i)}" for i in sel.evec_indices_], "names of the diffusion coordinates")
        ctx.close(out.to_numpy(), d.to_numpy()[:, sel.evec_indices_], "diffusion coordinates", 0, 0)


def pts_frame(pts):
    import pandas as pd

    return pd.DataFrame(pts, columns=["x", "y"])


SPLIT = st.fixed_dictionaries({"k": st.sampled_from(["GaussianKernel", "GaussianKernel", "InverseMultiquadricKernel", "dmap"]), "eps": st.sampled_from([0.3, 0.8, 1.5]),
                               "cols": st.tuples(st.integers(0, 4), st.integers(1, 3)).map(list),
                               "form": st.sampled_from(["slice", "list", "array"])})
FORM = st.sampled_from(["array", "tsc", "df"])
JSF = st.fixed_dictionaries({"seed": SEED, "n": st.integers(8, 24), "p": st.integers(2, 5), "data": st.sampled_from(["common", "random"]), "d": st.integers(2, 8),
                             "nf": st.integers(1, 8), "splits": st.lists(SPLIT, min_size=2, max_size=4), "form": FORM, "refit": st.booleans(),
                             "cut": st.sampled_from([False, False, True])})
LRS = st.fixed_dictionaries({"seed": SEED, "n": st.integers(12, 30), "cols": st.lists(st.sampled_from(["linear", "function", "independent", "independent"]), min_size=0, max_size=4),
                             "form": FORM, "dim": st.integers(1, 5), "scale": st.sampled_from([3, 1, 0.5, 5.0]), "strategy": st.sampled_from(["dim", "threshold"]),
                             "thr": st.sampled_from([0.9, 0.5, 0.1]), "bw": st.sampled_from(["median", "mean"]), "refit": st.booleans(), "pow": st.integers(-2, 2)})
SUBS = [Sub("jsf", JSF, jsf, "more than one function", 1200, 15000, 4),
        Sub("jsf_invalid", st.fixed_dictionaries({"seed": SEED, "what": st.sampled_from(["tuple", "single", "names", "short", "name", "kernel", "index", "list"])}), invalid,
            "every case", 60, 300, 1),
        Sub("selection", LRS, selection, "different kinds of coordinates", 500, 8000, 4),
        Sub("strip", st.fixed_dictionaries({"seed": SEED, "b": st.sampled_from([0.3, 0.5, 0.8]), "pos": st.integers(2, 5), "bw": st.sampled_from(["median", "mean"]),
                                            "dmap": st.booleans()}), strip, "every case", 60, 600, 3)]
ASSUMPTIONS = ["Jointly smooth functions are compared only where the kernel eigenvalues and singular values are separated (gaps above 1e-5); functions up to their sign.",
               "Regression residuals are compared with the oracle only where the normal equations are well-conditioned (the code truncates singular values below 1e-6)."]
