"""C34: estimators under arbitrary histories of fit, evaluation, copy, pickle and clone."""
import copy
import pickle
import warnings

import numpy as np
import pandas as pd
import scipy.sparse
from hypothesis import strategies as st
from sklearn.base import BaseEstimator, clone

from datafold import EDMD, TSCDataFrame
from datafold.dynfold import DiffusionMaps, GeometricHarmonicsInterpolator, LaplacianPyramidsInterpolator, LocalRegressionSelection, Roseland
from datafold.dynfold import dmd as M
from datafold.dynfold.jsf import JointlySmoothFunctions
from datafold.pcfold import distance as DI
from datafold.pcfold import kernels as K
from datafold.pcfold.timeseries.collection import TSCException
from vh import dyn, edm, gen, trf
from vh.core import Sub

SEED = gen.seeds()


def freeze(o, depth=0):
    """comparable, exact image of a parameter or result"""
    if isinstance(o, pd.DataFrame):
        return (type(o).__name__, [str(c) for c in o.columns], list(o.index), np.ascontiguousarray(o.to_numpy()).tobytes(), str(o.to_numpy().dtype))
    if scipy.sparse.issparse(o):
        return ("sparse", freeze(o.toarray()))
    if isinstance(o, np.ndarray):
        return ("array", o.shape, str(o.dtype), o.tolist() if o.dtype == object else np.ascontiguousarray(o).tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [freeze(i, depth) for i in o])
    if isinstance(o, dict):
        return ("dict", [(str(k), freeze(v, depth)) for k, v in o.items()])
    if isinstance(o, BaseEstimator):
        if depth and not type(o).__module__.startswith("datafold"):  # scikit-learn objects given as parameter are not fitted
            return (type(o).__name__, [(k, freeze(v, depth + 1)) for k, v in sorted(vars(o).items())])
        return (type(o).__name__, [(k, freeze(v, depth + 1)) for k, v in sorted(o.get_params(deep=False).items())])
    if isinstance(o, (K.BaseManifoldKernel, DI.DistanceAlgorithm)):
        if depth > 5:
            return type(o).__name__
        return (type(o).__name__, [(k, freeze(v, depth + 1)) for k, v in sorted(vars(o).items())])
    if callable(o):
        return getattr(o, "__name__", str(o))
    return o if isinstance(o, (str, int, bool, type(None))) else repr(o)


def params(m):
    return freeze(m)


def numbers(o):
    if isinstance(o, tuple):
        return np.concatenate([numbers(i).ravel() for i in o])
    return np.asarray(o.toarray() if scipy.sparse.issparse(o) else o, dtype=complex)


def evaluate(fam, m):
    out = {}
    for name, fn in fam["evals"]:
        try:
            out[name] = fn(m)
        except (NotImplementedError, AttributeError) as e:
            out[name] = type(e).__name__
        except TSCException as e:
            if "not finite" not in str(e):
                raise
            out[name] = "diverged"  # e.g. step-wise prediction with a quadratic dictionary
    return out


def near(ctx, fam, got, want, what):
    for k, w in want.items():
        g = got[k]
        if any(isinstance(v, str) and v == "diverged" for v in (w, g)):
            continue
        if isinstance(w, str) or isinstance(g, str):
            ctx.eq(str(g)[:40] if isinstance(g, str) else "value", str(w)[:40] if isinstance(w, str) else "value", f"{what}: {k}")
            continue
        if isinstance(w, np.ndarray) and w.dtype.kind in "OUS":
            ctx.eq(g.tolist(), w.tolist(), f"{what}: {k}")
            continue
        f = fam.get("canon", lambda v: v)
        a, b = f(numbers(g)), f(numbers(w))
        sc = max(1e-300, np.abs(b).max(initial=0)) if b.size else 1
        ctx.close(a / sc, b / sc, f"{what}: {k}", fam.get("rtol", 1e-6), fam.get("atol", 1e-7))


# ------------------------------------------------------------------ families

def collection(spec, r, a=None):
    n = sum(len(s["t"]) for s in spec["ser"])
    p = len(spec["cols"])
    v = r.normal(size=(n, p)) if a is None else dyn.free_values(spec, a, r)[0] + 0.1 * r.normal(size=(n, p))
    return gen.build(spec, v)


def pieces(case, r, linear):
    p = len(case["a"]["cols"])
    a = gen.stable_matrix(r, p) if linear else None
    return {k: collection(case[k], r, a) for k in "abq"}


def fam_transform(case, r):
    d = pieces(case, r, False)
    ev = [("transform", lambda m: m.transform(d["q"])), ("back", lambda m: m.inverse_transform(m.transform(d["q"]))),
          ("names", lambda m: np.asarray(m.get_feature_names_out(), dtype=str)), ("transform again", lambda m: m.transform(d["a"]))]
    return {"make": lambda: trf.make(case["t"]), "data": {k: ((d[k],), {}) for k in "ab"}, "evals": ev,
            "canon": (lambda v: np.abs(v)) if case["t"]["k"] == "pca" else (lambda v: v),
            "skip_new": case["t"]["k"] in ("pca", "column")}


def dmd_evals(d, u=None):
    q = d["q"]
    if u is not None:
        return [("reconstruct", lambda m: m.reconstruct(q, U=u))]
    one = q.iloc[[0], :]
    return [("predict", lambda m: m.predict(one)), ("reconstruct", lambda m: m.reconstruct(q))]


DMDS = ["spectral", "matrix", "diagonalize", "rank", "generator", "project", "online", "streaming", "gdmd"]


def fam_dmd(case, r):
    d = pieces(case, r, True)
    k = case["kind"]
    if k == "project":
        make = lambda: M.DMDStandard(rank=1, reconstruct_mode="project")  # noqa: E731
    elif k == "online":
        make = lambda: M.OnlineDMD(weighting=0.9)  # noqa: E731
    elif k == "streaming":
        make = lambda: M.StreamingDMD()  # noqa: E731
    elif k == "gdmd":
        make = lambda: M.gDMDFull()  # noqa: E731
    else:
        make = lambda: edm.make_dmd(k)  # noqa: E731
    return {"make": make, "data": {j: ((d[j],), {}) for j in "ab"}, "evals": dmd_evals(d), "partial": k in ("online", "streaming"), "rtol": 1e-5, "atol": 1e-5,
            "cond": True}


def controls(x, r, every=False):
    u = r.normal(size=(len(x), 1))
    keep = np.ones(len(x), bool)
    pos = pd.Series(np.arange(len(x)), index=x.index).groupby(level=0, sort=False).last()
    keep[pos.to_numpy()] = every
    return TSCDataFrame(u[keep], index=x.index[keep], columns=["u"])


def fam_control(case, r):
    d = pieces(case, r, True)
    u = {k: controls(d[k], r, case["kind"] == "affine") for k in "abq"}
    make = (lambda: M.DMDControl()) if case["kind"] != "affine" else (lambda: M.gDMDAffine())
    return {"make": make, "data": {j: ((d[j],), {"U": u[j]}) for j in "ab"}, "evals": dmd_evals(d, u["q"]), "rtol": 1e-5, "atol": 1e-5}


def fam_edmd(case, r):
    d = pieces(case, r, True)

    def make():
        return EDMD(edm.steps_of(case["d"]), edm.make_dmd(case["kind"]) if case["kind"] in ("spectral", "matrix", "diagonalize", "generator") else None,
                    include_id_state=case["id"], stepwise_transform=case["stepwise"])

    ev = [("reconstruct", lambda m: m.reconstruct(d["q"])), ("transform", lambda m: m.transform(d["q"])),
          ("back", lambda m: m.inverse_transform(m.transform(d["q"]))), ("names", lambda m: np.asarray(m.get_feature_names_out(), dtype=str))]
    return {"make": make, "data": {k: ((d[k],), {}) for k in "ab"}, "evals": ev, "rtol": 1e-4, "atol": 1e-4, "skip_new": True}


def fam_edmd_control(case, r):
    d = pieces(case, r, True)
    u = {k: controls(d[k], r) for k in "abq"}

    def make():
        return EDMD([("s0", trf.make({"k": "scale", "name": "min-max"})), ("s1", trf.make({"k": "identity", "const": False, "rename": True}))], M.DMDControl(),
                    include_id_state=case["id"])

    ev = [("reconstruct", lambda m: m.reconstruct(d["q"], U=u["q"])), ("transform", lambda m: m.transform(d["q"]))]
    return {"make": make, "data": {k: ((d[k],), {"U": u[k]}) for k in "ab"}, "evals": ev, "rtol": 1e-4, "atol": 1e-4, "skip_new": True}


def kernel_of(case):
    k, cut = case["kern"], case["cut"]
    dist = {"cut_off": cut} if cut else None
    if k == "CkNN":
        return K.ContinuousNNKernel(k_neighbor=4, delta=2.0)
    if k == "none":
        return None
    return getattr(K, k)(epsilon=0.8, **({"distance": dist} if dist and k != "InverseQuadraticKernel" else {}))


def clouds(case, r):
    n = 14
    f = {"array": lambda v: v, "tsc": lambda v: TSCDataFrame.from_array(v, feature_names=["x", "y", "z"][: v.shape[1]]),
         "df": lambda v: pd.DataFrame(v, columns=["x", "y", "z"][: v.shape[1]])}[case["form"]]
    return {k: f(r.normal(size=(n, 3))) for k in "abq"}


def fam_manifold(case, r):
    d = clouds(case, r)
    k = case["model"]
    kern = kernel_of(case)
    names = ("names", lambda m: np.asarray(m.get_feature_names_out(), dtype=str))
    ev = [("transform", lambda m: m.transform(d["q"])), names]
    canon = np.abs
    if k == "dmap":
        make = lambda: DiffusionMaps(kern, n_eigenpairs=3, alpha=0.5)  # noqa: E731
        ev.append(("back", lambda m: m.inverse_transform(m.transform(d["q"]))))
        ev.append(("selected", lambda m: copy.deepcopy(m).set_target_coords([2, 1]).transform(d["q"])))
    elif k == "rose":
        if case["kern"] == "CkNN":
            kern = None
        make = lambda: Roseland(kern, n_svdtriplet=3, landmarks=0.7, random_state=4)  # noqa: E731
    elif k == "lrs":
        make = lambda: LocalRegressionSelection(intrinsic_dim=1, n_subsample=8, random_state=1)  # noqa: E731
        ev.append(("residuals", lambda m: m.residuals_[1:]))
    else:
        kern2 = K.GaussianKernel(epsilon=0.5)
        splits = [("one", kern if kern is not None else K.GaussianKernel(), slice(0, 2)), ("two", kern2, [1, 2])]
        make = lambda: JointlySmoothFunctions(splits, n_kernel_eigenvectors=4, n_jointly_smooth_functions=2)  # noqa: E731
    return {"make": make, "data": {j: ((d[j],), {}) for j in "ab"}, "evals": ev, "canon": canon, "rtol": 1e-4, "atol": 1e-4,
            "skip_new": case["kern"] == "CkNN" or bool(case["cut"]), "numerical": True}


def fam_regress(case, r):
    x = {k: r.normal(size=(12, 2)) for k in "abq"}
    y = {k: np.column_stack([np.sin(x[k][:, 0]), x[k][:, 1] ** 2]) for k in "abq"}
    kern = kernel_of(case)
    if case["model"] in ("dmap", "rose", "lrs"):
        make = lambda: GeometricHarmonicsInterpolator(kern, n_eigenpairs=4, is_stochastic=case["id"], alpha=1)  # noqa: E731
    else:
        make = lambda: LaplacianPyramidsInterpolator(residual_tol=1e-1, auto_adaptive=case["id"])  # noqa: E731
    return {"make": make, "data": {k: ((x[k], y[k]), {}) for k in "ab"}, "evals": [("predict", lambda m: m.predict(x["q"])), ("score", lambda m: np.asarray(m.score(x["q"], y["q"]) if np.isfinite(np.asarray(m.predict(x["q"]))).all() else 0.0))],
            "rtol": 1e-4, "atol": 1e-4, "skip_new": case["kern"] == "CkNN" or bool(case["cut"]), "numerical": True}


FAMS = {"transform": fam_transform, "dmd": fam_dmd, "control": fam_control, "edmd": fam_edmd, "edmd_control": fam_edmd_control, "manifold": fam_manifold,
        "regress": fam_regress}


def args_image(data):
    return freeze([list(data[k][0]) + list(data[k][1].values()) for k in sorted(data)])


def fit(fam, m, label, how="fit"):
    a, kw = fam["data"][label]
    if isinstance(m, M.StreamingDMD):  # starts with a single pair of samples
        m.fit(a[0].iloc[:2, :])
        return m.partial_fit(a[0])
    if how == "fit_transform":
        m.fit_transform(*a, **kw)
        return m
    return m.fit(*a, **kw)


def history(case, ctx):
    r = gen.rng_of(case["seed"], 34)
    fam = FAMS[case["fam"]](case, r)
    before = args_image(fam["data"])
    first = fam["make"]()
    p0 = params(first)
    ctx.tag(case["fam"], case.get("model", "") if case["fam"] in ("manifold", "regress") else str(case.get("kind", "")), *{o[0] for o in case["ops"]})
    allowed = (K.NumericalMathError,) if hasattr(K, "NumericalMathError") else ()
    from datafold.pcfold.eigsolver import NumericalMathError
    from scipy.sparse.linalg import ArpackError

    allowed += (NumericalMathError, ArpackError, ZeroDivisionError) if fam.get("numerical") else ()
    ref, firsts = {}, {}

    def reference(label):
        """results of a model with no other history"""
        if label not in ref:
            m = fam["make"]()
            fit(fam, m, label[0])
            for q in label[1:]:
                m.partial_fit(*fam["data"][q][0])
            ref[label] = evaluate(fam, m)
        return ref[label]

    try:
        reference(("a",)), reference(("b",))
    except allowed:
        return ctx.tag("numerical error")
    except ValueError as e:
        if case["fam"] in ("edmd",):  # dictionary and data that do not fit together (checked in C08)
            return ctx.tag("rejected: " + str(e)[:30])
        raise
    models = [[first, None, None]]  # model, data it has seen, results after that fit

    def check(s, what):
        m, label, res = s
        if label is None:
            return
        got = evaluate(fam, m)
        if res is None:
            near(ctx, fam, got, reference(label), what)
            s[2] = got
        else:
            near(ctx, fam, got, res, what)

    for i, (op, j, label) in enumerate(case["ops"]):
        s = models[j % len(models)]
        what = f"step {i} ({op})"
        if op in ("fit", "fit_transform"):
            ctx.ok(fit(fam, s[0], label, op if hasattr(s[0], "fit_transform") else "fit") is s[0], what + ": fit returns the model")
            s[1], s[2] = (label,), None
            check(s, what)
        elif op == "partial":
            if fam.get("partial") and s[1] is not None and len(s[1]) < 4:
                s[0].partial_fit(*fam["data"][label][0])
                s[1], s[2] = s[1] + (label,), None
                check(s, what)
        elif op == "eval":
            check(s, what)
        elif op == "clone":
            c = clone(s[0])
            ctx.ok(params(c) == p0, what + ": parameters of the clone")
            ctx.ok(not [v for v in vars(c) if v.endswith("_") and not v.startswith("_") and not v.endswith("__")], what + ": clone is fitted")
            models.append([c, None, None])
        elif op == "set_params":
            if case["fam"].startswith("edmd"):  # would share the estimators of the dictionary
                continue
            c = type(s[0])(**s[0].get_params(deep=False))
            ctx.ok(params(c) == p0, what + ": constructed from the parameters")
            models.append([c, None, None])
        else:
            if s[1] is not None:
                check(s, what + " before")
            c = copy.deepcopy(s[0]) if op == "deepcopy" or "lambdas" in str(case.get("t", case.get("d", ""))) else pickle.loads(pickle.dumps(s[0]))
            ctx.ok(params(c) == p0, what + ": parameters of the copy")
            n = [c, s[1], s[2]]
            check(n, what)
            models.append(n)
    for i, s in enumerate(models):
        check(s, f"final results of model {i}")
        ctx.ok(params(s[0]) == p0, f"parameters of model {i}")
    ctx.ok(args_image(fam["data"]) == before, "data supplied by the user")
    ctx.nt(sum(s[1] is not None for s in models) > 1)


# ------------------------------------------------------------------ kernels and distances

def kernels(case, ctx):
    r = gen.rng_of(case["seed"], 35)
    x, z = r.normal(size=(12, 2)), r.normal(size=(10, 2))
    q = x[:4] + 0.1 * r.normal(size=(4, 2))
    name = case["name"]
    dist = {"cut_off": case["cut"]} if case["cut"] else None
    base = K.GaussianKernel(epsilon=0.7, distance=dist)
    if name == "dmap":
        make = lambda: K.DmapKernelFixed(base, alpha=case["alpha"], is_stochastic=True, symmetrize_kernel=case["sym"])  # noqa: E731
    elif name == "CkNN":
        make = lambda: K.ContinuousNNKernel(k_neighbor=3, delta=1.5)  # noqa: E731
    elif name in ("ThinplateKernel", "CubicKernel", "QuinticKernel"):
        make = lambda: getattr(K, name)()  # noqa: E731
    else:
        make = lambda: getattr(K, name)(epsilon=0.7)  # noqa: E731
    ctx.tag(name)
    k = make()
    stateful = name in ("dmap", "CkNN")
    a, aq = k(x), k(x, q)
    keep = freeze([a, aq])
    copies = [copy.deepcopy(k), pickle.loads(pickle.dumps(k))]
    for c in copies:
        ctx.ok(freeze(c(x, q)) == freeze(aq), "copied kernel at query points")
    c2 = make() if name != "dmap" else clone(make(), safe=False)
    c2(z), c2(z, z[:4] + 0.1)
    ctx.ok(freeze(k(x, q)) == freeze(aq), "kernel after another instance was used")
    ctx.ok(freeze([a, k(x, q)]) == keep, "repeated evaluation")
    if stateful:
        ctx.raises(lambda: k(z), "reset of a used kernel", AttributeError)
    else:
        k(z), k(z, z[:4])
    ctx.ok(freeze(k(x, q)) == freeze(aq), "evaluation after other data")
    ctx.nt(stateful)
    d = DI.init_distance_algorithm(backend=case["backend"], metric="euclidean", cut_off=case["cut"] or (2.0 if case["backend"] != "brute" else None))
    D = d(x)
    e = pickle.loads(pickle.dumps(d))
    ctx.ok(freeze(e(x)) == freeze(D) and freeze(copy.deepcopy(d)(x, q)) == freeze(d(x, q)), "copied distance algorithm")
    t = TSCDataFrame.from_array(x, feature_names=["a", "b"])
    for c in (copy.deepcopy(t), pickle.loads(pickle.dumps(t)), t.copy()):
        ctx.ok(freeze(c) == freeze(t), "copied collection")
        c.iloc[0, 0] = 99.0
        ctx.ok(t.iloc[0, 0] == x[0, 0], "collection is independent of its copies")


OPS = st.lists(st.tuples(st.sampled_from(["fit", "fit", "fit_transform", "fit_transform", "eval", "deepcopy", "pickle", "clone", "set_params", "partial", "partial"]), st.integers(0, 3), st.sampled_from(["a", "b"])).map(list),
               min_size=1, max_size=8)


SHORT = OPS.map(lambda o: o[:4])


@st.composite
def cases(draw, fam):
    grid = draw(dyn.grid(min_series=1, max_series=3, min_len=8, max_len=11, max_feat=3, units=(1.0, 0.5)))
    c = {"fam": draw(st.sampled_from(fam)), "seed": draw(SEED), "a": grid, "b": draw(trf.same_grid(grid, 8, 11)), "q": draw(trf.same_grid(grid, 8, 10)),
         "ops": [["fit", 0, draw(st.sampled_from("ab"))]] + draw(OPS if fam[0] != "edmd" else SHORT), "id": draw(st.booleans())}
    if c["fam"] != "edmd_control" and grid["kind"] == "dt" and draw(st.booleans() if c["fam"] == "dmd" else st.just(True)):  # derivatives reject dates
        for k in "abq":
            c[k]["kind"], c[k]["unit"] = "int", 1
        grid = c["a"]
    cols = grid["cols"]
    stp = dyn.step(grid)
    for k in "abq":  # all times on one grid
        for q in c[k]["ser"]:
            q["t"] = [stp * (q["t"][0] % 5 + j) for j in range(len(q["t"]))]
    if c["fam"] == "transform":
        c["t"] = draw(trf.spec_for(cols))
        c["t"] = dict(c["t"], center="all_data") if c["t"]["k"] == "rbf" and c["t"]["center"] == "initial_condition" else c["t"]
    elif c["fam"] == "dmd":
        c["kind"] = draw(st.sampled_from([k for k in DMDS if len(cols) > {"rank": 2, "project": 1}.get(k, 0) and not (k in ("gdmd", "generator") and grid["kind"] == "dt")]))
    elif c["fam"] == "control":
        c["kind"] = draw(st.sampled_from(["control", "affine"]))
    elif c["fam"] == "edmd":
        c["kind"] = draw(st.sampled_from(["spectral", "matrix", "diagonalize", "default"]))
        c["d"] = draw(edm.dictionary(cols))
        c["stepwise"] = draw(st.sampled_from([False, False, True]))
    elif c["fam"] in ("manifold", "regress"):
        c["model"] = draw(st.sampled_from(["dmap", "rose", "lrs", "jsf"]))
        c["kern"] = draw(st.sampled_from(["GaussianKernel", "InverseMultiquadricKernel", "none", "CkNN"]))
        c["cut"] = draw(st.sampled_from([None, None, 2.5]))
        c["form"] = draw(st.sampled_from(["array", "tsc", "df"]))
        for k in "abq":
            c.pop(k)
    return c


KER = st.fixed_dictionaries({"seed": SEED, "name": st.sampled_from(["dmap", "dmap", "CkNN", "GaussianKernel", "InverseQuadraticKernel", "CubicKernel", "ThinplateKernel", "QuinticKernel"]),
                             "cut": st.sampled_from([None, 1.5]), "alpha": st.sampled_from([0, 0.5, 1]), "sym": st.booleans(),
                             "backend": st.sampled_from(["brute", "scipy.kdtree", "guess_optimal"])})

SUBS = [Sub("linear", cases(["dmd", "control"]), history, "more than one fitted model in the history", 120, 6000, 5),
        Sub("transforms", cases(["transform"]), history, "more than one fitted model in the history", 300, 6000, 4),
        Sub("edmd", cases(["edmd", "edmd", "edmd_control"]), history, "more than one fitted model in the history", 80, 3000, 8),
        Sub("manifold", cases(["manifold", "regress"]), history, "more than one fitted model in the history", 300, 6000, 4),
        Sub("kernels", KER, kernels, "kernel with fitted state", 300, 3000, 2)]
ASSUMPTIONS = ["Results of two separate fits to the same data are compared up to rounding and the sign of eigenvectors (memory alignment changes the last bits even for copies).",
               "Estimators given inside an EDMD dictionary are fitted in place, as scikit-learn pipelines do; only their parameters are compared."]
