"""C28: manifold kernels against their documented construction."""
import warnings

import numpy as np
import scipy.sparse
from hypothesis import strategies as st

from datafold import TSCDataFrame
from datafold.pcfold import kernels as K
from datafold.pcfold.distance import init_distance_algorithm
from checks import c27
from checks.c14 import fd_weights, kernel_value
from vh import dyn, gen
from vh.core import Sub


def dense(G):
    return np.asarray(G.toarray() if scipy.sparse.issparse(G) else (G.to_numpy() if hasattr(G, "to_numpy") else G), float)


def rbf_oracle(case, cut, q, x, ctx):
    d2 = c27.definition("sqeuclidean", q, x)
    k = kernel_value(case["inner"], case["eps"], d2)
    if cut is not None:
        k = np.where(d2 < cut ** 2, k, 0)
    return k


def dmap_matrix(k, alpha, stochastic, q_ref=None):
    """row-stochastic matrix, density of the rows, row sums"""
    q = k.sum(axis=1)
    if not stochastic:
        return k, q, None
    m = k / (q ** alpha)[:, None] / ((q if q_ref is None else q_ref) ** alpha)[None, :]
    d = m.sum(axis=1)
    return m / d[:, None], q, d


def check_dmap(ctx, kern, case, kxx, evals, G, what):
    """G = kern(X); evals: list of (kernel matrix of the internal kernel, call)"""
    P, q, d = dmap_matrix(kxx, case["alpha"], case["stoch"])
    conj = case["stoch"] and case["sym"]
    ctx.eq(bool(kern.is_conjugate), conj, what + ": is_conjugate")
    g = dense(G)
    if conj:
        ctx.close(g, P * np.sqrt(d)[:, None] / np.sqrt(d)[None, :], what + ": symmetric kernel", 1e-8, 1e-12)
        ctx.close(g, g.T, what + ": symmetry", 1e-12, 1e-14)
        b = dense(kern.basis_change_matrix_)
        ctx.close(b, np.diag(1 / np.sqrt(d)), what + ": change of basis", 1e-8, 1e-300)
        ctx.close(b @ g @ np.linalg.inv(b), P, what + ": row-stochastic kernel from the change of basis", 1e-7, 1e-10)
    else:
        ctx.close(g, P, what + ": kernel", 1e-8, 1e-12)
        if case["stoch"]:
            ctx.close(g.sum(axis=1), np.ones(len(g)), what + ": row sums", 1e-10, 0)
    for kyx, call in evals:
        if (kyx.sum(axis=1) < 1e-200).any():
            continue
        H = dense(call())
        w = dmap_matrix(kyx, case["alpha"], case["stoch"], q)[0]
        ctx.close(H, w, what + ": kernel of query points", 1e-7, 1e-11)
        if case["stoch"]:
            ctx.close(H.sum(axis=1), np.ones(len(H)), what + ": row sums of query points", 1e-10, 0)
    return P


def run_dmap(case, ctx):
    dim = case["dim"]
    x, y = c27.points(case["x"], dim), c27.points(case["y"], dim)
    cut = c27.radius(dict(case, metric="euclidean"), x)
    d = {"backend": case["backend"], "cut_off": cut}
    inner = getattr(K, case["inner"])(epsilon=case["eps"], **({} if case["inner"] == "InverseQuadraticKernel" else {"distance": d}))
    if case["inner"] == "InverseQuadraticKernel":
        cut = None
    if cut is not None:
        for q in (x, y):
            dd = np.sqrt(c27.definition("sqeuclidean", q, x))
            if (np.abs(dd - cut) < 1e-9 * cut).any():
                return
    kxx = rbf_oracle(case, cut, x, x, ctx)
    if (kxx.sum(axis=1) < 1e-100).any():
        return
    kern = K.DmapKernelFixed(inner, is_stochastic=case["stoch"], alpha=case["alpha"], symmetrize_kernel=case["sym"])
    ctx.tag(case["inner"], f"alpha={case['alpha']}", "stochastic" if case["stoch"] else "plain", "symmetrised" if case["sym"] else "not symmetrised", "sparse" if cut else "dense", case["backend"])
    xc = x.copy()
    G = kern(x)
    ctx.nt(case["stoch"] and case["alpha"] > 0)
    sub = [case["perm"] % len(x), (case["perm"] * 7 + 1) % len(x)]
    evals = [(rbf_oracle(case, cut, y, x, ctx), lambda: kern(x, y)), (kxx, lambda: kern(x, x.copy())), (kxx[sub], lambda: kern(x, x[sub])),
             (rbf_oracle(case, cut, y, x, ctx), lambda: kern(x, y)), (rbf_oracle(case, cut, y[:1], x, ctx), lambda: kern(x, y[:1]))]
    P = check_dmap(ctx, kern, case, kxx, evals, G, "DmapKernelFixed")
    ctx.ok((x == xc).all(), "the points were changed")
    # evaluation from distances with a new object
    k2 = K.DmapKernelFixed(inner, is_stochastic=case["stoch"], alpha=case["alpha"], symmetrize_kernel=case["sym"])
    D = inner.distance(x)
    Dc = D.copy()
    E = k2.evaluate(D, is_pdist=True)
    ctx.close(dense(E), dense(G), "evaluate(distances)", 1e-12, 1e-13)
    ctx.close(dense(D), dense(Dc), "distances after the evaluation", 0, 0)
    # order of the points
    p = np.random.default_rng(case["perm"]).permutation(len(x))
    k3 = K.DmapKernelFixed(inner, is_stochastic=case["stoch"], alpha=case["alpha"], symmetrize_kernel=case["sym"])
    ctx.close(dense(k3(x[p])), dense(G)[np.ix_(p, p)], "re-ordered points", 1e-9, 1e-11)
    del P


def run_cknn(case, ctx):
    dim, k, delta = case["dim"], case["k"], case["delta"]
    x, y = c27.points(case["x"], dim), c27.points(case["y"], dim)
    k = min(k, len(x) - 1)
    dx = np.sqrt(c27.definition("sqeuclidean", x, x))
    dy = np.sqrt(c27.definition("sqeuclidean", y, x))
    kx = np.sort(dx, axis=1)[:, k - 1]
    ky = np.sort(dy, axis=1)[:, k - 1]
    cut = c27.radius(dict(case, metric="euclidean"), x)
    dist = None
    if case["how"] != "default":
        d = {"cut_off": cut}
        if case["backend"] != "guess_optimal":
            d["backend"] = case["backend"] if not (cut and case["backend"] == "brute") else "scipy.kdtree"
        dist = d if case["how"] == "dict" else init_distance_algorithm(**dict(d, metric="euclidean", k=k))
    else:
        cut = None
    if k < 2 or kx.min() < 1e-9 or ky.min() < 1e-9:
        return
    tx, ty = dx / np.sqrt(kx[:, None] * kx[None, :]), dy / np.sqrt(ky[:, None] * kx[None, :])
    d0 = dict(dist) if isinstance(dist, dict) else None
    kern = K.ContinuousNNKernel(k_neighbor=k, delta=delta, distance=dist)
    if d0 is not None:
        ctx.ok(dist == d0, f"the kernel changed the user's settings {d0} to {dist}")
    ctx.tag(case["how"], "sparse" if cut else "dense")
    G = kern(x)
    ctx.ok(scipy.sparse.issparse(G), "sparse graph")

    def cmp(G, t, d, kth_row, what):
        g = dense(G)
        ctx.ok(np.isin(g, (0, 1)).all(), what + ": only zeros and ones")
        sure, never = t < delta * (1 - 1e-9), t > delta * (1 + 1e-9)
        if cut is not None:  # pairs that are beyond the cut-off may be dropped
            sure &= d < cut * (1 - 1e-9)
        ctx.ok((g[sure] == 1).all(), f"{what}: edges missing at {np.argwhere(sure & (g != 1))[:4].tolist()}")
        ctx.ok((g[never] == 0).all(), f"{what}: additional edges at {np.argwhere(never & (g != 0))[:4].tolist()}")
        ctx.nt(0 < g.sum() < g.size)

    cmp(G, tx, dx, kx, "graph")
    ctx.close(dense(G), dense(G).T, "symmetry", 0, 0)
    ctx.close(kern.reference_dist_knn_, kx, "distances of the k-th neighbour", 1e-9, 0)
    cmp(kern(x, y), ty, dy, ky, "graph of query points")
    near = np.abs(tx - delta).min() < 1e-9
    if not near and cut is None:
        ctx.close(dense(kern(x, x.copy())), dense(G), "graph of the training points as query points", 0, 0)
    cmp(kern(x, y[:1]), ty[:1], dy[:1], ky[:1], "graph of one query point")
    k2 = K.ContinuousNNKernel(k_neighbor=k, delta=delta, distance=None if dist is None else dist)
    D = k2.distance(x)
    Dc = D.copy()
    E = k2.evaluate(D, is_pdist=True)
    ctx.close(dense(E), dense(G), "evaluate(distances)", 0, 0)
    ctx.close(dense(D), dense(Dc), "distances after the evaluation", 0, 0)


def run_roseland(case, ctx):
    dim = case["dim"]
    lm, y, z = c27.points(case["l"], dim), c27.points(case["x"], dim), c27.points(case["y"], dim)
    cut = c27.radius(dict(case, metric="euclidean"), lm)
    inner = K.GaussianKernel(epsilon=case["eps"], distance={"backend": case["backend"], "cut_off": cut})
    o = dict(case, inner="GaussianKernel")
    A, B = rbf_oracle(o, cut, y, lm, ctx), rbf_oracle(o, cut, z, lm, ctx)
    if cut is not None and any((np.abs(np.sqrt(c27.definition("sqeuclidean", q, lm)) - cut) < 1e-9 * cut).any() for q in (y, z)):
        return
    if A.sum(axis=1).min() < 1e-100 or A.sum(axis=0).min() < 1e-100:
        return
    kern = K.RoselandKernel(inner, alpha=case["alpha"])
    ctx.tag(f"alpha={case['alpha']}", "sparse" if cut else "dense")
    ctx.nt(case["alpha"] > 0 or cut is not None)

    def oracle(m, fit):
        if case["alpha"] > 0:
            cd = m.sum(axis=0) if fit is None else fit[0]
            m = m / (m.sum(axis=1) ** case["alpha"])[:, None] / (cd ** case["alpha"])[None, :]
        else:
            cd = None
        s = m.sum(axis=0) if fit is None else fit[1]
        return m / np.sqrt(m @ s)[:, None], (cd, s)

    w, fit = oracle(A, None)
    G = kern(lm, y)
    ctx.eq(tuple(G.shape), (len(y), len(lm)), "shape")
    ctx.close(dense(G), w, "kernel", 1e-8, 1e-11)
    ctx.close(dense(kern(lm, y.copy())), w, "kernel of the same points again", 1e-8, 1e-11)
    r = case["perm"] % len(y)
    ctx.close(dense(kern(lm, y[[r]])), w[[r]], "kernel of one training point", 1e-8, 1e-11)
    if B.sum(axis=1).min() > 1e-100:
        ctx.close(dense(kern(lm, z)), oracle(B, fit)[0], "kernel of query points", 1e-8, 1e-11)


def flow_field(spec, x, acc, dt):
    """rows (id, index) -> (value, derivative) of the shifted central difference"""
    off = np.arange(-(acc // 2), acc // 2 + 1)
    w = fd_weights(off, 1) / dt
    out = []
    pos = 0
    v = x.to_numpy()
    for s in spec["ser"]:
        n = len(s["t"])
        b = v[pos:pos + n]
        for k in range(acc, n):
            out.append(((s["id"], s["t"][k]), b[k], w @ b[k - acc:k + 1]))
        pos += n
    return [o[0] for o in out], np.array([o[1] for o in out]), np.array([o[2] for o in out])


def cone_oracle(yv, yd, xv, xd, zeta, eps, dt):
    om = xv[None, :, :] - yv[:, None, :]
    d2 = (om ** 2).sum(axis=2)
    ny, nx = np.linalg.norm(yd, axis=1), np.linalg.norm(xd, axis=1)
    with np.errstate(all="ignore"):
        cy = (om * yd[:, None, :]).sum(axis=2) / (ny[:, None] * np.sqrt(d2))
        cx = (om * xd[None, :, :]).sum(axis=2) / (nx[None, :] * np.sqrt(d2))
        f = np.sqrt((1 - zeta * cy ** 2) * (1 - zeta * cx ** 2))
        w = np.exp(-d2 / (eps * dt ** 2 * ny[:, None] * nx[None, :]) * f)
    w[d2 == 0] = 1
    return w


def run_cone(case, ctx):
    sx, sy = case["a"], case["b"]
    x, y = gen.build(sx), gen.build(sy)
    dt = float(dyn.step(sx)) if sx["kind"] == "int" else dyn.step(sx) * sx["unit"]
    acc = case["acc"]
    ix, xv, xd = flow_field(sx, x, acc, dt)
    iy, yv, yd = flow_field(sy, y, acc, dt)
    if len(ix) < 2 or min(np.linalg.norm(xd, axis=1).min(), np.linalg.norm(yd, axis=1).min()) < 1e-6:
        return
    z = case["zeta"]
    ud = {"backend": "brute"}
    kern = K.ConeKernel(zeta=z, epsilon=case["eps"], fd_accuracy=acc, **({"distance": ud} if case["dmap"] else {}))
    ctx.eq(ud, {"backend": "brute"}, "distance settings of the user")
    gen.classify(sx, ctx)
    ctx.tag("zeta=0" if z == 0 else "zeta>0", f"accuracy={acc}")
    ctx.nt(z > 0)
    xc = x.copy()
    G = kern(x)

    def cmp(G, ids, spec, want, what):
        ctx.ok(isinstance(G, TSCDataFrame), f"{what}: TSCDataFrame expected, got {type(G)}")
        rows = {r: j for j, r in enumerate(ids)}
        tt = gen.time_array([t for _, t in ids], spec["kind"], spec["unit"])
        order = list(range(len(ids)))
        if [int(i) for i in G.index.get_level_values(0)] != [i for i, _ in ids]:
            order = sorted(order, key=lambda q: ids[q])
        ctx.index_close(G.index, [(ids[q][0], tt[q]) for q in order], what + ": rows")
        del rows
        return order

    o = cmp(G, ix, sx, None, "kernel")
    want = cone_oracle(xv, xd, xv, xd, z, case["eps"], dt)
    ctx.close(G.to_numpy(), want[np.ix_(o, o)], "kernel", 1e-7, 1e-10)
    ctx.close(G.to_numpy(), G.to_numpy().T, "symmetry", 1e-9, 1e-12)
    ctx.close(np.diag(G.to_numpy()), np.ones(len(G)), "diagonal", 1e-12, 0)
    H = kern(x, y)
    oy = cmp(H, iy, sy, None, "kernel of query points")
    w2 = cone_oracle(yv, yd, xv, xd, z, case["eps"], dt)
    ctx.close(H.to_numpy(), w2[np.ix_(oy, o)], "kernel of query points", 1e-7, 1e-10)
    ctx.close(kern(x, x.copy()).to_numpy(), G.to_numpy(), "training series as query series", 1e-7, 1e-10)
    ctx.ok(x.equals(xc), "the data was changed")
    if case["dmap"]:
        kd = K.DmapKernelFixed(K.ConeKernel(zeta=z, epsilon=case["eps"], fd_accuracy=acc), is_stochastic=case["stoch"], alpha=case["alpha"], symmetrize_kernel=case["sym"])
        if want.sum(axis=1).min() > 1e-100:
            G2 = kd(x)
            ctx.ok(isinstance(G2, TSCDataFrame), "type of the normalised kernel")
            ctx.index(G2.index, G.index, "rows of the normalised kernel")
            check_dmap(ctx, kd, case, want[np.ix_(o, o)], [(w2[np.ix_(oy, o)], lambda: kd(x, y))], G2, "DmapKernelFixed(ConeKernel)")


@st.composite
def base(draw, lo=3):
    sc = draw(st.sampled_from([1.0, 1.0, 100.0, 0.01]))
    out = {"dim": draw(st.integers(1, 3)), "eps": draw(st.sampled_from([1.0, 0.3, 3.0, 0.05])) * sc ** 2, "backend": draw(st.sampled_from(["brute", "scipy.kdtree", "sklearn.balltree", "guess_optimal"])),
           "cut": draw(st.one_of(st.none(), st.floats(0.1, 1))), "alpha": draw(st.sampled_from([0, 0.5, 1, 1.0, 0.3])), "perm": draw(st.integers(0, 50)),
           "stoch": draw(st.sampled_from([True, True, False])), "sym": draw(st.booleans()), "k": draw(st.integers(2, 6)), "delta": draw(st.sampled_from([1.0, 0.7, 1.5, 2]))}
    for n, a, b in (("x", lo, 15), ("y", 1, 8), ("l", 2, 8)):
        p = draw(c27.pts(a, b))
        p["scale"] = sc
        out[n] = p
    return out


@st.composite
def dmap_cases(draw):
    c = draw(base())
    c["inner"] = draw(st.sampled_from(["GaussianKernel", "GaussianKernel", "InverseMultiquadricKernel", "InverseQuadraticKernel", "MultiquadricKernel"]))
    return c


@st.composite
def cknn_cases(draw):
    c = draw(base())
    c["how"] = draw(st.sampled_from(["default", "dict", "object"]))
    for n in ("x", "y"):
        c[n]["kind"] = draw(st.sampled_from(["normal", "clusters", "lattice"]))
    return c


@st.composite
def cone_cases(draw):
    acc = draw(st.sampled_from([2, 4, 4, 6]))
    a = draw(dyn.grid(min_series=1, max_series=3, min_len=acc + 2, max_len=acc + 9, max_feat=3, kinds=("int", "float")))
    b = draw(dyn.grid(min_series=1, max_series=2, min_len=acc + 2, max_len=acc + 7, max_feat=3, kinds=("int", "float")))
    n = dyn.step(a)
    b = dict(b, kind=a["kind"], unit=a["unit"], cols=a["cols"], ser=[dict(s, t=[n * k for k in range(len(s["t"]))]) for s in b["ser"]])
    return {"a": a, "b": b, "acc": acc, "zeta": draw(st.sampled_from([0, 0.5, 0.9, 0.99, 0.1])), "eps": draw(st.sampled_from([1.0, 0.3, 5.0])), "dmap": draw(st.booleans()),
            "alpha": draw(st.sampled_from([0, 0.5, 1])), "stoch": draw(st.sampled_from([True, True, False])), "sym": draw(st.booleans())}


SUBS = [
    Sub("dmap", dmap_cases(), run_dmap, "stochastic kernel with density correction", 1500, 30000, 5),
    Sub("cknn", cknn_cases(), run_cknn, "graph neither empty nor complete", 1200, 25000, 4),
    Sub("roseland", base(), run_roseland, "density correction or cut-off", 1200, 25000, 3),
    Sub("cone", cone_cases(), run_cone, "angular influence", 500, 10000, 4),
]
ASSUMPTIONS = [
    "The derivative in the cone kernel is the finite difference divided by the sampling interval.",
    "Edges of the continuous nearest neighbour graph whose value equals delta up to rounding may be present or not; with a cut-off only pairs within the cut-off are compared.",
    "Kernels with state are evaluated on one set first; query points are evaluated with the same reference points.",
]
