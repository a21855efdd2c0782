"""C32: point clouds, parameter estimation, sub-sampling and outlier removal."""
import copy
import pickle
import warnings

import numpy as np
import pandas as pd
import scipy.sparse
from hypothesis import strategies as st

from datafold.pcfold import GaussianKernel, InverseMultiquadricKernel, PCManifold
from datafold.pcfold.estimators import estimate_cutoff, estimate_scale
from datafold.pcfold.kernels import _kth_nearest_neighbor_dist
from datafold.pcfold.pointcloud import pcm_remove_outlier, pcm_subsample
from checks import c27
from checks.c14 import kernel_value
from checks.c28 import dense
from vh import gen
from vh.core import Sub

SEED = gen.seeds()


def pts(lo, hi, kinds=("normal", "normal", "clusters", "lattice", "duplicates")):
    return st.fixed_dictionaries({"seed": SEED, "n": st.integers(lo, hi), "kind": st.sampled_from(kinds), "scale": st.sampled_from([1.0, 1.0, 10.0, 0.1])})


# ------------------------------------------------------------------ container

class Model:
    """what the point cloud has to be: values, kernel family and scale, distance settings"""

    def __init__(self, v, eps, cut):
        self.v, self.eps, self.cut = v, eps, cut


def expected_distance(v, q, cut):
    d = np.sqrt(c27.definition("sqeuclidean", q, v))
    return d, (np.ones_like(d, bool) if np.isinf(cut) else d <= cut)


def same(ctx, p, m, q, what):
    ctx.ok(isinstance(p, PCManifold), f"{what}: type {type(p).__name__}")
    ctx.close(np.asarray(p), m.v, what + ": points", 0, 0)
    ctx.eq(p.cut_off, m.cut, what + ": cut-off")
    ctx.eq(p.kernel.epsilon, m.eps, what + ": kernel scale")
    s = max(1e-300, np.abs(m.v).max(), np.abs(q).max())
    for y, ref in ((None, m.v), (q, q)):
        d, near = expected_distance(m.v, ref, m.cut)
        if not np.isinf(m.cut) and (np.abs(d - m.cut) < 1e-7 * m.cut).any():
            continue
        got = p.compute_distance_matrix() if y is None else p.compute_distance_matrix(Y=y)
        ctx.eq(scipy.sparse.issparse(got), not np.isinf(m.cut), what + ": sparse distance matrix")
        g = dense(got)
        ctx.close(g, np.where(near, d, 0), what + ": distance matrix", 1e-6, 1e-6 * s)
    for y, ref in ((None, m.v), (q, q)):
        got = p.compute_kernel_matrix() if y is None else p.compute_kernel_matrix(Y=y)
        d2 = c27.definition("sqeuclidean", ref, m.v)
        ctx.close(dense(got), kernel_value(type(p.kernel).__name__, m.eps, d2), what + ": kernel matrix", 1e-6, 1e-7)


def container(case, ctx):
    dim = case["dim"]
    v, q = c27.points(case["x"], dim), c27.points(dict(case["q"], scale=case["x"]["scale"]), dim)
    r = gen.rng_of(case["seed"], 1)
    sc = case["x"]["scale"]
    eps = float(sc ** 2 * r.uniform(0.3, 2))
    cut = float("inf") if case["cut"] is None else case["cut"] * sc
    kw = None if case["cut"] is None else {"cut_off": cut}
    if kw is not None and case["backend"]:
        kw["backend"] = case["backend"]
    kw0 = copy.deepcopy(kw)
    kern = (GaussianKernel if case["gauss"] else InverseMultiquadricKernel)(epsilon=eps)
    data = v.copy()
    if case["form"] == "df":
        data = pd.DataFrame(data, columns=[f"c{i}" for i in range(dim)])
    elif case["form"] == "pcm":
        data = PCManifold(data)
    p, m = PCManifold(data, kernel=kern, dist_kwargs=kw), Model(v.copy(), eps, cut)
    ctx.eq(kw, kw0, "distance settings of the user")
    other = []  # objects that must not be affected
    ctx.tag(case["form"], "sparse" if kw else "dense", *case["ops"])
    for op in case["ops"]:
        n = len(m.v)
        if op in ("slice", "mask", "fancy"):
            i = slice(0, max(1, n // 2)) if op == "slice" else (r.random(n) < 0.7 if op == "mask" else r.permutation(n)[: max(1, n - 1)])
            if op == "slice":
                i = slice(int(r.integers(0, n)), None, int(r.integers(1, 3)))
            if len(m.v[i]) < 2:
                continue
            other.append((p, copy.deepcopy(m), True))
            p, m = p[i], Model(m.v[i], m.eps, m.cut)
        elif op == "copy":
            other.append((p, copy.deepcopy(m), True))
            p, m = p.copy(), Model(m.v.copy(), m.eps, m.cut)
        elif op == "deepcopy":
            other.append((p, copy.deepcopy(m), False))
            p, m = copy.deepcopy(p), copy.deepcopy(m)
        elif op == "pickle":
            other.append((p, copy.deepcopy(m), False))
            p, m = pickle.loads(pickle.dumps(p)), copy.deepcopy(m)
        elif op == "cut_off":
            m.cut = float(np.round(sc * r.uniform(0.5, 3), 3))
            p.cut_off = m.cut
        elif op == "epsilon" and case["gauss"]:
            shared = [o for o in other if o[0].kernel is p.kernel]
            m.eps = float(m.eps * 1.7)
            p.kernel.epsilon = m.eps
            for o in shared:  # views share their kernel by design
                ctx.ok(o[2], "kernel is shared after a deep copy")
                o[1].eps = m.eps
        elif op == "optimize" and case["gauss"]:
            got = p.optimize_parameters(k=5, inplace=False)
            ctx.eq((p.cut_off, p.kernel.epsilon), (m.cut, m.eps), "parameters after optimisation without inplace")
            if got[0] <= 1e-6 * sc:
                continue
            shared = [o for o in other if o[0].kernel is p.kernel]
            ctx.eq(p.optimize_parameters(k=5), got, "optimised parameters")
            m.cut, m.eps = float(got[0]), float(got[1])
            for o in shared:
                ctx.ok(o[2], "kernel is shared after a deep copy")
                o[1].eps = m.eps
    same(ctx, p, m, q, "cloud")
    for o, om, _ in other:
        same(ctx, o, om, q, "object the cloud was made from")
    ctx.nt(len(case["ops"]) > 2 and len(m.v) > 1)
    for bad in (0, -1.0):
        ctx.raises(lambda: setattr(p, "cut_off", bad), f"cut-off {bad}", ValueError)
    for bad in (v[:, 0], np.array([["a", "b"]]), np.empty((0, 2)), np.array([[1.0, np.nan]]), np.array([[np.inf]]), v[None]):
        ctx.raises(lambda: PCManifold(bad), "invalid point cloud", ValueError)
    ctx.raises(lambda: PCManifold(v, dist_kwargs=[1]), "invalid distance settings", TypeError)


# ------------------------------------------------------------------ estimators

def cutoff_def(x, rows, k):
    d = np.sqrt(c27.definition("sqeuclidean", x[rows], x))
    return float(np.sort(d, axis=1)[:, min(k, len(x)) - 1].max())


def estimators(case, ctx):
    dim = case["dim"]
    x = c27.points(case["x"], dim)
    n = len(x)
    r = gen.rng_of(case["seed"], 2)
    k, ns, sub = case["k"], case["ns"], case["ns"] < n
    sc = np.abs(x).max() + 1e-300
    form = PCManifold if case["pcm"] else (lambda z: z)
    kw = dict(n_subsample=ns, k=k, random_state=case["seed"] % 2 ** 31)
    ctx.tag("point cloud" if case["pcm"] else "array", "subsampled" if sub else "all points", "few" if n < 10 else "many", case["x"]["kind"])
    x0 = x.copy()
    got = estimate_cutoff(form(x), **kw)
    ctx.ok((x == x0).all(), "points not modified")
    tol = 2e-6 * sc
    if n < 10:
        ref = float(np.sqrt(c27.definition("sqeuclidean", x, x)).max())
        ctx.close(got, ref, "cut-off of a small cloud", 1e-9, 1e-12 * sc)
    elif not sub:
        ref = cutoff_def(x, np.arange(n), k)
        ctx.close(got, ref, "cut-off", 1e-6, tol)
        ctx.close(estimate_cutoff(form(x), k=k), ref, "cut-off with default settings", 1e-6, tol)
    else:
        d = np.sort(np.sqrt(c27.definition("sqeuclidean", x, x)), axis=1)[:, min(k, n) - 1]
        ctx.ok(np.abs(d - got).min() <= tol + 1e-6 * got, f"the estimated cut-off {got} is the distance of no point to its {k}-th neighbour")
        # maximum over at least ns points
        ctx.ok((d <= got + tol + 1e-6 * got).sum() >= ns, "cut-off is the maximum over the subsample")
        ctx.eq(estimate_cutoff(form(x), **kw), got, "same random state")
    ctx.nt(n >= 10 and k < n)
    f = float(r.choice([0.25, 3.0, 100.0]))
    ctx.close(estimate_cutoff(form(x * f), **kw), got * f, "scaled points", 1e-5, 3 * tol * f)
    if np.abs(x).max() > 0:
        ctx.close(estimate_cutoff(form(x @ gen.orth(r, dim) + r.normal(size=dim) * sc), **kw), got, "moved points", 1e-5, 6 * tol)
    if n >= 10:
        d = np.sqrt(c27.definition("sqeuclidean", x, x))
        ref = cutoff_def(x, np.arange(n), k) if k <= n else None
        if ref is not None:
            ctx.close(estimate_cutoff(form(x), k=k, distance_matrix=d), ref, "cut-off from given distances", 1e-9, 1e-12)
            if len(np.unique(x, axis=0)) == n:
                s = scipy.sparse.csr_matrix(d + 1) - scipy.sparse.csr_matrix(np.ones_like(d))
                ctx.close(_kth_nearest_neighbor_dist(s.tocsr(), k), np.sort(d, axis=1)[:, k - 1], "k-th distance of a sparse matrix", 1e-9, 1e-12) \
                    if s.nnz == n * n else None
            p = r.permutation(n)
            if not sub:
                ctx.close(estimate_cutoff(form(x[p]), **kw), got, "order of the points", 1e-6, tol)
    t = case["tol"]
    if got > 10 * tol:
        e = estimate_scale(form(x), tol=t, **kw)
        ctx.close(e, got ** 2 / -np.log(t), "kernel scale", 1e-10)
        ctx.close(estimate_scale(form(x), tol=t, cut_off=2 * got), 4 * got ** 2 / -np.log(t), "kernel scale of a given cut-off", 1e-10)
        ctx.close(np.exp(-got ** 2 / e), t, "tolerance at the cut-off", 1e-8)
        p = PCManifold(x)
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            o = p.optimize_parameters(tol=t, **kw)
        ctx.close(np.array(o), np.array([got, got ** 2 / -np.log(t)]), "optimised parameters", 1e-6)
        ctx.eq((p.cut_off, p.kernel.epsilon), (float(o[0]), float(o[1])), "parameters are set")
        p = PCManifold(x)
        o2 = p.optimize_parameters(tol=t, result_scaling=f, inplace=False, **kw)
        ctx.close(np.array(o2), np.array([f * o[0], f ** 2 * o[1]]), "scaled result", 1e-6)
        ctx.eq((p.cut_off, p.kernel.epsilon), (np.inf, 1.0), "parameters are not set")
    for bad in (0, 1, 0.5, 2.5, -3):
        ctx.raises(lambda: estimate_cutoff(form(x), k=bad), f"number of neighbours {bad}", ValueError)
    ctx.raises(lambda: PCManifold(x, InverseMultiquadricKernel()).optimize_parameters(), "kernel without scale", TypeError)


# ------------------------------------------------------------------ subsample and outliers

def subsample(case, ctx):
    dim = case["dim"]
    x = c27.points(case["x"], dim)
    n = len(x)
    sc = case["x"]["scale"]
    md = case["md"] * sc * (5 if case["x"]["kind"] == "clusters" else 1)
    d = np.sqrt(c27.definition("sqeuclidean", x, x))
    if (np.abs(d - md) < 1e-5 * md).any():
        return
    cloud = PCManifold(x.copy(), GaussianKernel(epsilon=0.37))
    kw = {"min_distance": md}
    if case["default"]:
        cloud.cut_off, kw = md / 2, {}
    bs, mi = case["block"], case["min"]
    got, idx = pcm_subsample(cloud, n_samples=bs, min_added_per_iteration=mi, **kw)
    ctx.tag("one block" if bs > n else "many blocks", case["x"]["kind"], "default distance" if case["default"] else "given distance", f"min={mi}")
    ctx.ok((np.asarray(cloud) == x).all(), "points not modified")
    ctx.ok(isinstance(got, PCManifold), "type")
    ctx.eq(len(set(idx.tolist())), len(idx), "distinct indices")
    ctx.ok(((idx >= 0) & (idx < n)).all(), "indices in range")
    ctx.close(np.asarray(got), x[idx], "points at the indices", 0, 0)
    ctx.eq(got.kernel.epsilon, 0.37, "kernel")
    got.kernel.epsilon = 2.0
    ctx.eq(cloud.kernel.epsilon, 0.37, "kernel of the full cloud")
    blocks = [len(b) for b in np.array_split(np.arange(n), n // bs + 1)]
    ctx.ok(len(idx) >= blocks[0], "the first block is kept")
    first = idx[: blocks[0]]
    rest = idx[blocks[0]:]
    ctx.ok((d[np.ix_(rest, first)] >= md).all(), "added points keep their distance to the first block")
    close = d < md
    # points of later blocks are added in order of the blocks: close added points can only be of the same block
    near = close[np.ix_(rest, rest)] & ~np.eye(len(rest), dtype=bool)
    lo = 0
    while lo < len(rest):  # merge overlapping ranges of close points
        hi, k = lo, lo
        while k <= hi:
            hi = max(hi, int(np.flatnonzero(near[k]).max(initial=k)))
            k += 1
        ctx.ok(hi - lo + 1 <= max(blocks), "added points of different blocks keep their distance")
        lo = hi + 1
    left = np.setdiff1d(np.arange(n), idx)
    if mi == 0:
        ctx.ok(close[np.ix_(left, idx)].any(axis=1).all(), "every point left out is close to a selected point")
        ctx.nt(len(blocks) > 2 and 0 < len(rest) < n - blocks[0])
    elif len(rest) and len(left):
        free = ~close[np.ix_(left, idx)].any(axis=1)
        ctx.ok(not free.any() or len(blocks) > 2, "all blocks are visited")
    got2, idx2 = pcm_subsample(cloud, n_samples=bs, min_added_per_iteration=mi, **kw)
    ctx.ok((idx == idx2).all(), "repeated call")
    f = 4.0
    moved = PCManifold(x * f)
    ctx.ok((pcm_subsample(moved, n_samples=bs, min_added_per_iteration=mi, min_distance=md * f)[1] == idx).all(), "scaled points")


def outlier(case, ctx):
    dim = case["dim"]
    x = c27.points(case["x"], dim)
    sc = case["x"]["scale"]
    cut = case["md"] * sc
    d = np.sqrt(c27.definition("sqeuclidean", x, x))
    if (np.abs(d - cut) < 1e-6 * cut).any():
        return
    n, k = len(x), case["k"]
    cloud = PCManifold(x.copy(), GaussianKernel(epsilon=0.37))
    got, removed = pcm_remove_outlier(cloud, k, cut)
    count = (d <= cut).sum(axis=1)  # a point is its own neighbour
    ctx.tag(case["x"]["kind"])
    ctx.eq(removed.tolist(), np.flatnonzero(count < k).tolist(), "removed points")
    ctx.close(np.asarray(got), x[count >= k], "points left", 0, 0)
    ctx.ok(isinstance(got, PCManifold) and got.kernel.epsilon == 0.37, "kernel of the points left")
    ctx.ok((np.asarray(cloud) == x).all(), "points not modified")
    ctx.nt(0 < len(removed) < n)
    p = gen.rng_of(case["seed"], 4).permutation(n)
    ctx.eq(sorted(p[pcm_remove_outlier(PCManifold(x[p]), k, cut)[1]].tolist()), removed.tolist(), "order of the points")
    for bad in (0, -1, 1.5):
        ctx.raises(lambda: pcm_remove_outlier(cloud, bad, cut), f"kmin={bad}", ValueError)


C = st.fixed_dictionaries({"seed": SEED, "x": pts(2, 14), "q": pts(1, 5, ("normal",)), "dim": st.integers(1, 3), "cut": st.sampled_from([None, None, 0.7, 1.5, 100.0]),
                           "backend": st.sampled_from([None, "scipy.kdtree", "brute"]), "gauss": st.sampled_from([True, True, False]), "form": st.sampled_from(["array", "df", "pcm"]),
                           "ops": st.lists(st.sampled_from(["slice", "mask", "fancy", "copy", "deepcopy", "pickle", "cut_off", "epsilon", "optimize"]), max_size=6)})
E_ = st.fixed_dictionaries({"seed": SEED, "x": pts(2, 40), "dim": st.integers(1, 4), "k": st.integers(2, 30), "ns": st.sampled_from([2, 5, 12, 1000, 1000, 1000]),
                            "pcm": st.booleans(), "tol": st.sampled_from([1e-8, 1e-3, 0.1])})
S = st.fixed_dictionaries({"seed": SEED, "x": pts(3, 120), "dim": st.integers(1, 3), "md": st.sampled_from([0.1, 0.3, 0.7, 1.5]), "block": st.integers(2, 8) | st.integers(2, 30),
                           "min": st.sampled_from([0, 0, 1, 2]), "default": st.booleans()})
O = st.fixed_dictionaries({"seed": SEED, "x": pts(2, 40), "dim": st.integers(1, 3), "md": st.sampled_from([0.05, 0.2, 0.5, 1.2]), "k": st.integers(1, 8)})

SUBS = [Sub("container", C, container, "more than two operations", 900, 10000, 4),
        Sub("estimators", E_, estimators, "ten or more points and fewer neighbours than points", 1200, 12000, 4),
        Sub("subsample", S, subsample, "several blocks of which some points are added and some not", 1200, 12000, 3),
        Sub("outlier", O, outlier, "some points removed and some left", 800, 8000, 2)]
ASSUMPTIONS = ["Cut-offs within rounding error of a pairwise distance are skipped.",
               "Views and shallow copies of a point cloud share its kernel object; deep copies and pickled clouds do not."]
