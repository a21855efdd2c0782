"""C33: linear-algebra and array helpers satisfy their algebraic definitions."""
import numpy as np
import pandas as pd
import scipy.sparse as sp
from hypothesis import strategies as st

from datafold.pcfold import InitialCondition, TSCDataFrame
from datafold.pcfold import kernels as K
from datafold.utils import general as G
from vh import gen
from vh.core import Sub

SEED = gen.seeds()


def matrix(seed, n, m, kind, dens=0.6, keep=True, symmask=False):
    """(dense copy, matrix in the requested kind); sparse matrices may store explicit zeros."""
    r = gen.rng_of(seed, n, m)
    a = np.round(r.normal(size=(n, m)), 2)
    a[a == 0] = 0.01
    if kind.startswith("c"):
        a = a + 1j * np.round(r.normal(size=(n, m)), 2)
    if not kind.endswith("s"):
        return a, a.copy()
    mask = r.random((n, m)) < dens
    if symmask:  # documented requirement: symmetric sparsity structure
        mask = mask | mask.T
    a = np.where(mask, a, 0)
    i, j = np.nonzero(mask)
    vals = a[i, j].copy()
    if keep and len(vals):
        vals[(i + j) % 3 == 0] = 0  # symmetric pattern of stored zeros
        a[i, j] = vals
    return a, sp.csr_matrix((vals, (i, j)), shape=(n, m))


def dense(x):
    return np.asarray(x.todense()) if sp.issparse(x) else np.asarray(x)


# ------------------------------------------------------------------ diagonal scaling
def scaling(case, ctx):
    n, m, kind = case["n"], case["m"], case["kind"]
    a, mat = matrix(case["seed"], n, m, kind)
    r = gen.rng_of(case["seed"], 5)
    dl, dr = np.round(r.normal(size=n), 2), np.round(r.normal(size=m), 2)
    if case["cd"]:
        dl, dr = dl + 1j, dr - 2j
    if case["typ"] != "float":  # values of another type are promoted, not cast
        a = np.round(a.real * 3)
        mat = (sp.csr_matrix(a) if sp.issparse(mat) else a).astype({"int": int, "bool": bool, "single": np.float32}[case["typ"]])
        a = np.asarray(dense(mat), dtype=float)
    ctx.nt(n > 1 and m > 1)
    ctx.tag("values: " + case["typ"], "sparse" if kind.endswith("s") else "dense", "square" if n == m else "rectangular")
    kdl, kdr = dl.copy(), dr.copy()
    left, right = G.diagmat_dot_mat(dl, mat), G.mat_dot_diagmat(mat, dr)
    ctx.ok(sp.issparse(left) == kind.endswith("s") and sp.issparse(right) == kind.endswith("s"), "matrix format kept")
    ctx.close(dense(left), np.diag(dl) @ a, "diag @ matrix")
    ctx.close(dense(right), a @ np.diag(dr), "matrix @ diag")
    ctx.close(dense(mat), a, "matrix not modified", 0, 0)
    ctx.close(dl, kdl, "diagonal not modified", 0, 0)
    ctx.close(dr, kdr, "diagonal not modified", 0, 0)
    if not kind.endswith("s") and not case["cd"] and case["typ"] == "float":
        res = G.diagmat_dot_mat(dl, mat, out=mat)
        ctx.ok(res is mat, "result written to 'out'")
        ctx.close(mat, np.diag(dl) @ a, "diag @ matrix in place")
        res = G.mat_dot_diagmat(mat, dr, out=mat)
        ctx.ok(res is mat, "result written to 'out'")
        ctx.close(mat, np.diag(dl) @ a @ np.diag(dr), "matrix @ diag in place")
        ctx.close(dl, kdl, "diagonal not modified", 0, 0)


# ------------------------------------------------------------------ eigenpairs
def eigsort(case, ctx):
    n, k = case["n"], len(case["ev"])
    r = gen.rng_of(case["seed"], n, k)
    ev = np.array([complex(*e) for e in case["ev"]]) if case["cplx"] else np.array([float(e[0]) for e in case["ev"]])
    right, left = r.normal(size=(n, k)), r.normal(size=(k, n))
    args = (ev.copy(), right.copy(), left.copy())
    ctx.nt(k > 2)
    ctx.tag("complex" if case["cplx"] else "real", "with left" if case["left"] else "right only")
    kw = {"left_eigenvectors": left} if case["left"] else {}
    default = case["default"]
    if not default:
        kw["ascending"] = case["asc"]
    res = G.sort_eigenpairs(ev, right, **kw)
    ctx.eq(len(res), 3 if case["left"] else 2, "number of results")
    for got, want in zip((ev, right, left), args):
        ctx.close(got, want, "arguments not modified", 0, 0)
    asc = (not default) and case["asc"]
    sev = res[0]
    want = np.sort(args[0])
    ctx.close(sev, want if asc else want[::-1], "sorted eigenvalues", 0, 0)
    # every eigenvector stays with its eigenvalue: columns are distinct, so the permutation can be read off
    perm = [int(np.argmin(np.abs(args[1] - res[1][:, [i]]).sum(axis=0))) for i in range(k)]
    ctx.eq(sorted(perm), list(range(k)), "permutation of the eigenvectors")
    ctx.close(res[1], args[1][:, perm], "right eigenvectors", 0, 0)
    ctx.close(sev, args[0][perm], "right eigenvectors belong to their eigenvalue", 0, 0)
    if case["left"]:
        ctx.close(res[2], args[2][perm, :], "left eigenvectors belong to their eigenvalue", 0, 0)
    ctx.raises(lambda: G.sort_eigenpairs(ev[:, None], right), "eigenvalues 2-dim", ValueError)
    ctx.raises(lambda: G.sort_eigenpairs(np.append(ev, 1.0), right), "different number", ValueError)
    ctx.raises(lambda: G.sort_eigenpairs(ev, right, left_eigenvectors=left[:-1] if k > 1 else np.vstack([left, left])),
               "different number (left)", ValueError)
    # same directions up to sign/phase
    ph = np.exp(2j * np.pi * r.random(k)) if case["cplx"] else np.where(r.random(k) < .5, -1., 1.)
    q = gen.orth(r, max(n, 2))
    kk = min(k, q.shape[1])
    q = q[:, :kk]
    G.assert_equal_eigenvectors(q * 3, q * ph[:kk], tol=1e-10)
    if kk > 1:
        ctx.raises(lambda: G.assert_equal_eigenvectors(q, q[:, ::-1] if kk % 2 == 0 else np.roll(q, 1, axis=1), tol=1e-10),
                   "different eigenvectors", AssertionError)


# ------------------------------------------------------------------ symmetry and stochasticity
def symm(case, ctx):
    n, kind = case["n"], case["kind"]
    a, mat = matrix(case["seed"], n, n, kind, symmask=True)
    ctx.nt(n > 1)
    sparse = kind.endswith("s")
    ctx.tag("sparse" if sparse else "dense", kind)
    dev = float(np.max(np.abs(a - a.T)))
    ctx.eq(bool(G.is_symmetric_matrix(mat)), dev == 0, "is_symmetric_matrix")
    for tol in (dev * 0.5, dev * 2):
        ctx.eq(bool(G.is_symmetric_matrix(mat, tol=tol)), dev <= tol, f"is_symmetric_matrix tol={tol}")
    ctx.close(dense(mat), a, "not modified", 0, 0)
    stored = None
    if sparse:
        stored = set(zip(*[x.tolist() for x in mat.tocoo().coords])) if hasattr(mat.tocoo(), "coords") else \
            set(zip(mat.tocoo().row.tolist(), mat.tocoo().col.tolist()))
    s = G.remove_numeric_noise_symmetric_matrix(mat)
    ctx.eq(sp.issparse(s), sparse, "format kept")
    ctx.close(dense(s), (a + a.T) / 2, "symmetric part")
    ctx.ok(G.is_symmetric_matrix(s), "result is exactly symmetric")
    if sparse:
        ctx.close(dense(mat), a, "sparse input not modified", 0, 0)
        z = {(i, j) for i, j in stored if a[i, j] == 0 and ((j, i) in stored or i == j) and a[j, i] == 0}
        got = set(zip(s.tocoo().row.tolist(), s.tocoo().col.tolist()))
        ctx.ok(z <= got, "stored zeros are kept")
        ctx.ok(np.isfinite(s.data).all(), "no nan")
    # stochastic
    p = np.abs(a) + (np.eye(n) if sparse else 0.1)
    for axis in (0, 1):
        q = p / p.sum(axis=axis, keepdims=True)
        for eps in (0, 1e-3):
            w = q.copy()
            w[0, -1] += eps
            w = sp.csr_matrix(w) if sparse else w
            ctx.eq(bool(G.is_stochastic_matrix(w, axis=axis, tol=1e-9)), eps == 0, f"stochastic along {axis} (+{eps})")
    q = p / p.sum(axis=1, keepdims=True)
    ctx.eq(bool(G.is_stochastic_matrix(sp.csr_matrix(q) if sparse else q, tol=1e-9)), True, "default axis: rows sum to 1")
    # shape predicates
    b = mat[:, :-1] if n > 1 else np.ones((1, 2))
    for f in (lambda h: G.is_matrix(b, square=True, allow_sparse=True, handle=h),
              lambda h: G.is_matrix(np.zeros(3), handle=h), lambda h: G.is_matrix(np.zeros((1, 2, 3)), handle=h),
              lambda h: G.is_vector(np.zeros((2, 1)), handle=h), lambda h: G.is_vector(np.zeros(0), handle=h)):
        ctx.raises(lambda: f("raise"), "wrong shape", ValueError)
        ctx.eq(f(None), False, "wrong shape, no exception")
    for f in (lambda h: G.is_matrix([[1.]], handle=h), lambda h: G.is_matrix(sp.csr_matrix(p), handle=h),
              lambda h: G.is_vector([1.], handle=h)):
        ctx.raises(lambda: f("raise"), "wrong type", TypeError)
        ctx.eq(f(None), False, "wrong type, no exception")
    ctx.eq((G.is_matrix(mat, allow_sparse=True, square=True), G.is_matrix(a), G.is_vector(a[0])), (True,) * 3, "valid")
    v = a[0]
    ctx.close(G.if1dim_colvec(v), v.reshape(-1, 1), "column vector", 0, 0)
    ctx.close(G.if1dim_rowvec(v), v.reshape(1, -1), "row vector", 0, 0)
    ctx.close(G.if1dim_colvec(a), a, "matrix kept", 0, 0)
    ctx.close(G.if1dim_rowvec(a), a, "matrix kept", 0, 0)


# ------------------------------------------------------------------ labels and frames
def names(case, ctx):
    spec = case["tsc"]
    v = gen.values(spec, len(gen.rows(spec)), len(spec["cols"]))
    x = gen.build(spec, v)
    cols = list(x.columns)
    r = gen.rng_of(case["seed"], 1)
    sel = [cols[i] for i in r.permutation(len(cols))[: r.integers(1, len(cols) + 1)]]
    ctx.nt(len(sel) > 1 and sel != sorted(sel, key=cols.index))
    ctx.tag("permuted" if sel != sorted(sel, key=cols.index) else "ordered", "all" if len(sel) == len(cols) else "subset")
    p = G.projection_matrix_from_feature_names(x.columns, pd.Index(sel))
    ctx.eq(p.shape, (len(cols), len(sel)), "shape")
    ctx.close(x.to_numpy() @ p.toarray(), x[sel].to_numpy(), "projection selects the features", 0, 1e-15)
    ctx.raises(lambda: G.projection_matrix_from_feature_names(x.columns, pd.Index(sel + ["missing"])), "missing", ValueError)
    # df_type_and_indices_from
    n, w = x.shape
    new = np.arange(n * w, dtype=float).reshape(n, w)
    keep = x.copy()
    for frame, typ in ((x, TSCDataFrame), (pd.DataFrame(x), pd.DataFrame)):
        y = G.df_type_and_indices_from(frame, new)
        ctx.ok(type(y) is typ, "type")
        ctx.index(y.index, frame.index, "index")
        ctx.index(y.columns, frame.columns, "columns")
        ctx.close(np.asarray(y), new, "values", 0, 0)
        y = G.df_type_and_indices_from(frame, new[:, :1], except_columns=["q"])
        ctx.ok(type(y) is typ, "type")
        ctx.index(y.columns, ["q"], "other columns")
        ctx.index(y.index, frame.index, "index")
        ctx.close(np.asarray(y), new[:, :1], "values", 0, 0)
        if n == 1:  # collections cannot be empty
            continue
        y = G.df_type_and_indices_from(frame, pd.DataFrame(new[1:]), except_index=frame.index[1:])
        ctx.index(y.index, frame.index[1:], "other index")
        ctx.index(y.columns, frame.columns, "columns")
        ctx.close(np.asarray(y), new[1:], "values", 0, 0)
    ctx.raises(lambda: G.df_type_and_indices_from(x, new, except_index=x.index, except_columns=x.columns), "both", ValueError)
    ctx.raises(lambda: G.df_type_and_indices_from(new, new, except_index=x.index, except_columns=["a"]), "both", ValueError)
    ctx.ok(keep.equals(x), "frame not modified")
    # is_df_same_index
    other = x.copy()
    other += 1
    ctx.eq(G.is_df_same_index(x, other), True, "same labels, other values")
    variants = [("column", x[cols[::-1]]) if len(cols) > 1 else None,
                ("column", x.rename(columns={cols[0]: "renamed"})),
                ("index", x.iloc[1:]) if len(x) > 1 and len(x.iloc[1:]) else None]
    for t in filter(None, variants):
        for a, b in ((x, t[1]), (t[1], x)):
            ctx.raises(lambda: G.is_df_same_index(a, b), t[0], AssertionError)
            ctx.eq(G.is_df_same_index(a, b, handle=None), False, f"different {t[0]}")
            ci, cc = t[0] != "index", t[0] != "column"
            ctx.eq(G.is_df_same_index(a, b, check_index=ci, check_column=cc), True, f"only other labels compared than {t[0]}")
    # series_if_applicable
    d = pd.DataFrame(x)
    s = G.series_if_applicable(d[[cols[0]]])
    ctx.ok(isinstance(s, pd.Series), "single column becomes a series")
    ctx.close(s.to_numpy(), x[cols[0]].to_numpy().ravel(), "values of the series", 0, 0)
    ctx.ok(G.series_if_applicable(s) is s, "series is returned")
    if len(cols) > 1:
        ctx.ok(G.series_if_applicable(d) is d, "wide frame is returned")
    ctx.raises(lambda: G.series_if_applicable(x), "time series collection", TypeError)
    # random sub-sample
    n = case["n"]
    data = np.arange(n * 3, dtype=float).reshape(n, 3)
    k = 1 + case["k"] % (n - 1)
    sub, idx = G.random_subsample(data, k, random_state=case["seed"] % 1000)
    sub2, idx2 = G.random_subsample(data, k, random_state=case["seed"] % 1000)
    ctx.eq(sub.shape, (k, 3), "number of samples")
    ctx.eq(len(set(idx.tolist())), k, "without replacement")
    ctx.close(sub, data[idx], "indices match the samples", 0, 0)
    ctx.close(idx, idx2, "same seed gives the same sample", 0, 0)
    ctx.raises(lambda: G.random_subsample(data, n), "too many samples", ValueError)
    ctx.raises(lambda: G.random_subsample(data, 0), "no samples", ValueError)
    # mesh
    lo, hi = np.sort(r.normal(size=(2, 2)), axis=0)
    a, b = int(r.integers(1, 5)), int(r.integers(1, 5))
    mesh = G.generate_2d_regular_mesh(tuple(lo), tuple(hi), n_xvalues=a, n_yvalues=b, feature_names=["u", "v"] if case["k"] % 2 else None)
    if case["k"] % 2:
        InitialCondition.validate(mesh)
        ctx.index(mesh.columns, ["u", "v"], "mesh names")
    want = sorted((u, w) for u in np.linspace(lo[0], hi[0], a) for w in np.linspace(lo[1], hi[1], b))
    ctx.close(np.array(sorted(map(tuple, np.asarray(mesh)))), np.array(want), "mesh points")


# ------------------------------------------------------------------ numeric kinds
VALS = st.one_of(st.integers(-10 ** 6, 10 ** 6), st.sampled_from([0, 1, -1]), st.floats(-50, 50), st.sampled_from(
    [0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1e-12, 1e300, 2.5e15, float("inf"), float("-inf")]), st.just("nan"), st.integers(-40, 40).map(float))


def kinds(case, ctx):
    v = float("nan") if case["v"] == "nan" else case["v"]
    ctx.nt(not isinstance(v, int))
    isint = isinstance(v, int) or (np.isfinite(v) and float(v) == np.floor(float(v)))
    ctx.tag("integer" if isint else "non-integer")
    forms = [v]
    if isinstance(v, int):
        forms += [np.int64(v), np.int32(v)]
    else:
        forms += [np.float64(v)] + ([np.float32(v)] if np.isfinite(v) and float(np.float32(v)) == v else [])
    for f in forms:
        ctx.eq(bool(G.is_integer(f)), isint, f"is_integer({f!r})")
        ctx.eq(bool(G.is_float(f)), not isinstance(v, int), f"is_float({f!r})")
        ctx.eq(bool(G.is_scalar(f)), True, f"is_scalar({f!r})")
    for f in ("1", None, [v], np.array([v]), complex(1, 1), pd.Series([1])):
        ctx.eq((bool(G.is_integer(f)), bool(G.is_float(f)), bool(G.is_scalar(f))), (False,) * 3, f"not numeric {f!r}")


# ------------------------------------------------------------------ operations of the kernels
def kernelops(case, ctx):
    n, m = case["n"], case["n"] if case["square"] else case["m"]
    sparse = case["sparse"]
    a, mat = matrix(case["seed"], n, m, "s" if sparse else "d", dens=0.7)
    a = np.abs(a)
    mat = abs(mat)
    r = gen.rng_of(case["seed"], 77)
    left, right = np.round(r.uniform(0.5, 2, n), 2), np.round(r.uniform(0.5, 2, m), 2)
    scalar = [1.0, 2.0, 0.25][case["k"] % 3]
    ctx.nt(n > 1 and m > 1)
    ctx.tag("sparse" if sparse else "dense")
    fresh = lambda z: sp.csr_matrix(z) if False else z.copy()  # noqa: E731
    kl, kr = left.copy(), right.copy()
    got = K._symmetric_matrix_division(fresh(mat), vec=left, vec_right=right, is_symmetric=False, scalar=scalar)
    ctx.close(dense(got), a / left[:, None] / right / scalar, "symmetric division")
    ctx.close(left, kl, "vector not modified", 0, 0)
    ctx.close(right, kr, "vector not modified", 0, 0)
    # zero denominators
    z = left.copy()
    z[case["k"] % n] = 0
    ctx.raises(lambda: K._symmetric_matrix_division(fresh(mat), vec=z, vec_right=right, is_symmetric=False), "zero",
               ZeroDivisionError)
    zk = z.copy()
    got = K._symmetric_matrix_division(fresh(mat), vec=z, vec_right=right, is_symmetric=False, value_zero_division=0)
    want = a / np.where(z == 0, np.inf, z)[:, None] / right
    ctx.close(dense(got), want, "division by zero replaced")
    ctx.close(z, zk, "vector not modified", 0, 0)
    if n == m:
        s = a + a.T
        ms = mat + mat.T
        got = K._symmetric_matrix_division(fresh(ms), vec=left, is_symmetric=True, scalar=scalar)
        ctx.close(dense(got), s / np.outer(left, left) / scalar, "symmetric division (square)")
        ctx.ok(G.is_symmetric_matrix(got), "exactly symmetric")
        s = s + np.eye(n)
        ms = sp.csr_matrix(ms + sp.identity(n)) if sparse else ms + np.eye(n)
        d = s.sum(axis=1)
        conj, basis = K._conjugate_stochastic_kernel_matrix(fresh(ms))
        ctx.close(dense(conj), s / np.sqrt(np.outer(d, d)), "conjugate matrix")
        ctx.close(basis.toarray(), np.diag(1 / np.sqrt(d)), "basis change")
        ctx.ok(G.is_symmetric_matrix(conj), "conjugate is symmetric")
        ev = np.linalg.eigvalsh(dense(conj))
        ctx.close(ev, np.sort(np.linalg.eigvals(s / d[:, None]).real), "spectrum of the stochastic matrix", 1e-7, 1e-8)
    elif case["k"] % 2:
        ctx.raises(lambda: K._symmetric_matrix_division(fresh(mat), vec=left, is_symmetric=False), "needs right", ValueError)
    # stochastic
    b, mb = a + 0.1, None
    if sparse:
        b, mb = a.copy(), mat.copy()
    else:
        mb = b.copy()
    if case["k"] % 4 == 0 and not sparse:
        b[0], mb[0] = 0, 0
    rs = b.sum(axis=1)
    got = K._stochastic_kernel_matrix(mb)
    ctx.eq(sp.issparse(got), sparse, "format")
    ctx.close(dense(got), b / np.where(rs == 0, 1, rs)[:, None], "row stochastic")
    # k-th nearest neighbour
    cnt = mat.getnnz(axis=1) if sparse else np.full(n, m)
    for k in {1, m, 1 + case["k"] % m}:
        if cnt.min() < k:
            ctx.raises(lambda: K._kth_nearest_neighbor_dist(mat, k), "too few neighbours", ValueError)
            continue
        want = []
        for i in range(n):
            row = mat.data[mat.indptr[i]:mat.indptr[i + 1]] if sparse else a[i]
            want.append(np.sort(row)[k - 1])
        keep = mat.copy()
        ctx.close(K._kth_nearest_neighbor_dist(mat, k), np.array(want), f"distance to neighbour {k}", 0, 0)
        ctx.close(K._kth_nearest_neighbor_dist(mat, float(k)), np.array(want), f"distance to neighbour {float(k)}", 0, 0)
        ctx.close(dense(mat), dense(keep), "distance matrix not modified", 0, 0)
    for k in (0, -1, m + 1, 0.5, 1.5):
        ctx.raises(lambda: K._kth_nearest_neighbor_dist(mat, k), f"invalid k={k}", ValueError)


N = st.integers(1, 7)
EV = st.lists(st.tuples(st.integers(-4, 4), st.integers(-2, 2)).map(list), min_size=1, max_size=6)
SUBS = [
    Sub("scaling", st.fixed_dictionaries({"seed": SEED, "n": N, "m": N, "kind": st.sampled_from(["d", "s", "cd", "cs"]),
                                          "cd": st.booleans(), "typ": st.sampled_from(["float", "float", "int", "bool", "single"])}), scaling, "more than one row and column", 1500, 15000, 2),
    Sub("eigenpairs", st.fixed_dictionaries({"seed": SEED, "n": N, "ev": EV, "cplx": st.booleans(), "left": st.booleans(),
                                             "default": st.booleans(), "asc": st.booleans()}), eigsort, "more than two pairs",
        1500, 15000, 2),
    Sub("symmetry", st.fixed_dictionaries({"seed": SEED, "n": N, "kind": st.sampled_from(["d", "s", "cd", "cs"])}), symm,
        "more than one row", 1200, 12000, 2),
    Sub("labels", st.fixed_dictionaries({"seed": SEED, "tsc": gen.tsc_spec(max_feat=5), "n": st.integers(2, 20),
                                         "k": st.integers(0, 40)}), names, "several features in changed order", 1200, 12000, 3),
    Sub("kinds", st.fixed_dictionaries({"v": VALS}), kinds, "floating value", 800, 8000),
    Sub("kernelops", st.fixed_dictionaries({"seed": SEED, "n": N, "m": N, "square": st.booleans(), "sparse": st.booleans(),
                                            "k": st.integers(0, 40)}), kernelops, "more than one row and column", 1500, 15000, 2),
]
ASSUMPTIONS = ["In-place operation of dense matrices in remove_numeric_noise_symmetric_matrix and of _symmetric_matrix_division "
               "(documented) is not judged."]
