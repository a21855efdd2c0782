"""C19: controlled dynamic mode decomposition models."""
import numpy as np
import pandas as pd
import scipy.integrate
import scipy.interpolate
from hypothesis import strategies as st

from datafold import TSCDataFrame, TSCMetric
from datafold.dynfold.dmd import DMDControl, gDMDAffine
from datafold.pcfold.timeseries.collection import TSCException
from vh import dyn, gen
from vh.core import Sub

CN = ["u", "v", "w"]


def control_index(spec, last):
    idx = gen.index(spec)
    if last:
        return idx
    keep = []
    for s in spec["ser"]:
        keep += [True] * (len(s["t"]) - 1) + [False]
    return idx[np.array(keep)]


def simulate(spec, a, b, rng, q, noise=0.0):
    """values of all series, control values (without the last sample of each series)"""
    xs, us = [], []
    for s in spec["ser"]:
        n = len(s["t"])
        u = rng.normal(size=(n - 1, q))
        x = [rng.normal(size=a.shape[0])]
        for k in range(n - 1):
            x.append(a @ x[-1] + b @ u[k] + noise * rng.normal(size=a.shape[0]))
        xs.append(np.array(x))
        us.append(u)
    return np.vstack(xs), np.vstack(us)


def tsc(vals, index, cols):
    return TSCDataFrame(np.array(vals, copy=True), index=index, columns=list(cols))


def setup(case, ctx, noise=0.0):
    spec, q = case["x"], case["q"]
    p = len(spec["cols"])
    rng = gen.rng_of(case["seed"])
    a = gen.stable_matrix(rng, p, lo=0.5, hi=0.95)
    b = rng.normal(size=(p, q))
    vals, u = simulate(spec, a, b, rng, q, noise)
    l, r = dyn.pairs(spec, vals)
    xu = np.column_stack([l, u])
    s = np.linalg.svd(xu, compute_uv=False)
    if len(l) < p + q or s[-1] < 1e-2 * s[0]:
        return None
    want = np.linalg.lstsq(xu, r, rcond=None)[0].T
    x = gen.build(spec, vals)
    cn = CN[:q] if case["names"] else CN[::-1][:q]
    ut = tsc(u, control_index(spec, False), cn)
    gen.classify(spec, ctx)
    return spec, p, q, a, b, vals, u, x, ut, cn, want


def run_fit(case, ctx):
    r = setup(case, ctx, noise=0.3 if case["noisy"] else 0.0)
    if r is None:
        return
    spec, p, q, a, b, vals, u, x, ut, cn, want = r
    ctx.nt(len(spec["ser"]) > 1 and p > 1 and gen.unequal_len(spec))
    m = DMDControl().fit(x, U=ut)
    ctx.close(m.sys_matrix_, want[:, :p], "state matrix", 1e-6, 1e-6)
    ctx.close(m.control_matrix_, want[:, p:], "input matrix", 1e-6, 1e-6)
    if not case["noisy"]:
        ctx.close(m.sys_matrix_, a, "state matrix of the data-generating system", 1e-5, 1e-5)
        ctx.close(m.control_matrix_, b, "input matrix of the data-generating system", 1e-5, 1e-5)
    ctx.index(m.control_names_in_, cn, "control names")
    ctx.eq(m.n_control_in_, q, "number of inputs")
    ms = DMDControl(sys_mode="spectral").fit(x, U=ut)
    v = ms.eigenvectors_right_
    if np.linalg.cond(v) < 1e4:
        ctx.close(np.real(v @ np.diag(ms.eigenvalues_) @ ms.eigenvectors_left_), want[:, :p], "spectral decomposition", 1e-5, 1e-5)
    ctx.ok((x.to_numpy() == vals).all() and (ut.to_numpy() == u).all(), "data unchanged")
    # invalid control data
    E = (ValueError, TypeError, TSCException)
    ctx.raises(lambda: DMDControl().fit(x, U=tsc(np.vstack([u, u[:1]])[: len(vals)] if len(u) + 1 == len(vals) else np.zeros((len(vals), q)), gen.index(spec), cn)),
               "control input for the last state", E)
    if len(u) > len(spec["ser"]):
        ctx.raises(lambda: DMDControl().fit(x, U=ut.iloc[:-1]), "missing control sample", E)
        ctx.raises(lambda: DMDControl().fit(x, U=ut.iloc[1:]), "missing first control sample", E)
    shifted = dict(spec, ser=[dict(s, t=[k + dyn.step(spec) for k in s["t"]]) for s in spec["ser"]])
    ctx.raises(lambda: DMDControl().fit(x, U=tsc(u, control_index(shifted, False), cn)), "shifted control times", E)
    if len(spec["ser"]) > 1:
        other = dict(spec, ser=[dict(s, id=s["id"] + 1 + 12) for s in spec["ser"]])
        ctx.raises(lambda: DMDControl().fit(x, U=tsc(u, control_index(other, False), cn)), "control for other IDs", E)


def run_predict(case, ctx):
    r = setup(case, ctx)
    if r is None:
        return
    spec, p, q, a, b, vals, u, x, ut, cn, want = r
    m = DMDControl(sys_mode=case["mode"]).fit(x, U=ut)
    if case["mode"] == "spectral" and np.linalg.cond(m.eigenvectors_right_) > 1e4:
        return
    rng = gen.rng_of(case["seed"], 7)
    nic, nt, start, stp = case["nic"], case["nt"], case["start"], dyn.step(spec)
    ids = case["ids"][:nic]
    x0 = rng.normal(size=(nic, p))
    up = rng.normal(size=(nic, nt, q))
    times = gen.time_array([start + k * stp for k in range(nt + 1)], spec["kind"], spec["unit"])
    ref = []
    for i in range(nic):
        s = [x0[i]]
        for k in range(nt):
            s.append(a @ s[-1] + b @ up[i, k])
        ref.append(s)
    ctx.nt(nic > 1 and nt > 1 and q > 1)
    ctx.tag(case["mode"], case["form"], f"nt:{nt}")
    ic = tsc(x0, pd.MultiIndex.from_arrays([ids, times[[0] * nic]], names=["ID", "time"]), spec["cols"])

    def controls(order, k=0):
        return tsc(np.vstack([up[i][k:] for i in order]),
                   pd.MultiIndex.from_arrays([np.repeat([ids[i] for i in order], nt - k), np.tile(times[k:-1], nic)], names=["ID", "time"]), cn)
    uu = controls(range(nic))

    def verify(got, ids=ids, ref=ref, what="controlled prediction", times=times):
        gen.valid_tsc(ctx, got, what)
        ctx.index(got.columns, spec["cols"], what + ": features")
        order = list(range(len(ids)))
        if [int(i) for i in got.index.get_level_values(0)[::len(times)]] != list(ids):
            order = sorted(order, key=lambda k: ids[k])
        ctx.index_close(got.index, [(ids[k], t) for k in order for t in times], what + ": rows", 1e-12)
        w = np.array([s for k in order for s in ref[k]])
        ctx.close(got.to_numpy(), w, what, 1e-5, 1e-5 * max(1, np.abs(w).max()))
    E = (ValueError, TypeError, TSCException)
    form = case["form"]
    if form == "tsc":
        verify(m.predict(ic, U=uu))
        verify(m.predict(ic, U=uu, time_values=times), what="controlled prediction with time values")
        ctx.ok((uu.to_numpy() == np.vstack(up)).all() and (ic.to_numpy() == x0).all(), "inputs unchanged")
        for i in range(nic):  # independence
            one = m.predict(ic.iloc[[i]], U=uu.loc[[ids[i]], :])
            verify(one, [ids[i]], [ref[i]], "prediction of one initial condition")
        if nt > 1:  # restart with the remaining control input
            k = 1 + case["seed"] % (nt - 1)
            full = m.predict(ic, U=uu)
            mid = full.iloc[k::nt + 1]
            verify(m.predict(mid, U=controls(range(nic), k)), what="restarted prediction", ref=[r[k:] for r in ref], times=times[k:])
    elif form == "order":
        # control input with the series in another order: rejected or assigned by ID
        perm = list(range(nic))[::-1]
        try:
            got = m.predict(ic, U=controls(perm))
        except (*E, AttributeError):
            ctx.tag("rejected")
            return
        verify(got, what="control input in another order")
    elif form == "array":
        one = ic.iloc[[0]]
        verify(m.predict(one, U=up[0]), ids[:1], ref[:1], "control as array")
        verify(m.predict(one, U=up[0], time_values=times), ids[:1], ref[:1], "control as array with time values")
        if spec["kind"] != "dt":
            t0 = times - times[0]
            verify(m.predict(x0[:1], U=up[0]), [0], ref[:1], "state and control as array", t0)
            verify(m.predict(x0[:1], U=up[0], time_values=times), [0], ref[:1], "state and control as array with time values")
        if ids == sorted(ids):  # the rows are assigned to the IDs of the control input
            verify(m.predict(x0, U=uu), what="state as array")
    else:
        ctx.raises(lambda: m.predict(ic), "missing control input", Exception)
        ctx.raises(lambda: m.predict(ic, U=uu, time_values=times[:-1]), "too few time values", E)
        ctx.raises(lambda: m.predict(ic, U=uu, time_values=np.append(times, times[-1] + dyn.dt(spec))), "too many time values", E)
        if nt > 1:
            ctx.raises(lambda: m.predict(ic, U=uu.iloc[:-1], time_values=times), "missing control sample", E)
            ctx.raises(lambda: m.predict(ic, U=controls(range(nic), 1)), "control starts later", E)
        if nic > 1:
            ctx.raises(lambda: m.predict(ic, U=uu.loc[[ids[0]], :]), "missing control of a series", E + (AttributeError,))
            ctx.raises(lambda: m.predict(ic, U=up[0]), "control array for several series", (NotImplementedError, ValueError))
        ctx.raises(lambda: m.predict(ic, U=tsc(np.vstack(up), uu.index, [c + "_" for c in cn])), "renamed control", E)
        if q > 1:
            ctx.raises(lambda: m.predict(ic, U=uu.loc[:, cn[::-1]]), "reordered control", E)
            ctx.raises(lambda: m.predict(ic, U=uu.loc[:, cn[:-1]]), "missing control column", E)
            ctx.raises(lambda: m.predict(ic.iloc[[0]], U=up[0][:, :-1]), "missing control column (array)", E)
        ctx.raises(lambda: m.predict(ic.iloc[[0]], U=up[0], time_values=times[:-1] if nt > 1 else np.append(times, times[-1] + dyn.dt(spec))),
                   "mismatching time values and control array", E)


def run_reconstruct(case, ctx):
    r = setup(case, ctx)
    if r is None:
        return
    spec, p, q, a, b, vals, u, x, ut, cn, want = r
    m = DMDControl(sys_mode=case["mode"]).fit(x, U=ut)
    if case["mode"] == "spectral" and np.linalg.cond(m.eigenvectors_right_) > 1e4:
        return
    ctx.nt(len(spec["ser"]) > 1)
    got = m.reconstruct(x, U=ut)
    dyn.same_rows(ctx, got, spec, vals, spec["cols"], "controlled reconstruction", 1e-5, 1e-5)
    # other data, not following the model
    rng = gen.rng_of(case["seed"], 3)
    v2 = rng.normal(size=vals.shape)
    u2 = rng.normal(size=u.shape)
    ref, k = [], 0
    j = 0
    for s in spec["ser"]:
        z = [v2[k]]
        for i in range(len(s["t"]) - 1):
            z.append(a @ z[-1] + b @ u2[j])
            j += 1
        k += len(s["t"])
        ref.append(np.array(z))
    ref = np.vstack(ref)
    x2, ut2 = gen.build(spec, v2), tsc(u2, ut.index, cn)
    dyn.same_rows(ctx, m.reconstruct(x2, U=ut2), spec, ref, spec["cols"], "controlled reconstruction of other data", 1e-4, 1e-4)
    if np.ptp(v2, axis=0).min() > 1e-3:
        w = TSCMetric("rmse", "feature", scaling="min-max")(x2, gen.build(spec, ref))
        ctx.close(m.score(x2, U=ut2), -np.mean(w.to_numpy()), "score", 1e-3, 1e-3)


def run_affine(case, ctx):
    """gDMDAffine: least squares of central differences on states and products of states and inputs."""
    spec, q = case["x"], case["q"]
    p = len(spec["cols"])
    rng = gen.rng_of(case["seed"])
    n = len(gen.rows(spec))
    vals, u = rng.normal(size=(n, p)), rng.normal(size=(n, q))
    h = float(dyn.dt(spec))
    rows, ds, k = [], [], 0
    for s in spec["ser"]:
        for i in range(k + 1, k + len(s["t"]) - 1):
            rows.append(np.concatenate([vals[i]] + [u[i, j] * vals[i] for j in range(q)]))
            ds.append((vals[i + 1] - vals[i - 1]) / (2 * h))
        k += len(s["t"])
    rows, ds = np.array(rows), np.array(ds)
    if len(rows) < p * (q + 1):
        return
    s = np.linalg.svd(rows, compute_uv=False)
    if s[-1] < 2e-2 * s[0]:
        return
    ctx.nt(len(spec["ser"]) > 1)
    gen.classify(spec, ctx)
    want = np.linalg.lstsq(rows, ds, rcond=None)[0].T
    x, ut = gen.build(spec, vals), tsc(u, gen.index(spec), CN[:q])
    m = gDMDAffine().fit(x, U=ut)
    sc = max(1, np.abs(want).max())
    ctx.close(m.sys_matrix_, want[:, :p], "state matrix", 1e-5, 1e-5 * sc)
    for j in range(q):
        ctx.close(m.control_matrix_[:, :, j], want[:, p * (j + 1):p * (j + 2)], f"input matrix {j}", 1e-5, 1e-5 * sc)
    ctx.raises(lambda: gDMDAffine().fit(x, U=tsc(u[:-1], gen.index(spec)[:-1], CN[:q])), "missing last control sample", (ValueError, TypeError))


def run_affine_predict(case, ctx):
    """Control-affine system: smooth data recover the system, predictions follow the ODE."""
    p, q, nser = case["p"], case["q"], case["nser"]
    rng = gen.rng_of(case["seed"])
    a = gen.stable_matrix(rng, p, lo=0.2, hi=0.8) - np.eye(p)
    b = rng.normal(size=(p, p, q)) * 0.3
    h, n = 0.02, 60
    ids = case["ids"][:nser]
    t = np.arange(n) * h
    xs, us, fs = [], [], []
    for _ in ids:
        ph, om = rng.uniform(0, 6, size=q), rng.uniform(1, 4, size=q)

        def f(tt, ph=ph, om=om):
            return np.sin(np.multiply.outer(tt, om) + ph)
        sol = scipy.integrate.solve_ivp(lambda tt, x: (a + b @ f(tt)) @ x, (0, t[-1]), rng.normal(size=p), t_eval=t, rtol=1e-10, atol=1e-12, method="DOP853")
        xs.append(sol.y.T)
        us.append(f(t))
        fs.append(f)
    idx = pd.MultiIndex.from_arrays([np.repeat(ids, n), np.tile(t, nser)], names=["ID", "time"])
    cols = [f"x{k}" for k in range(p)]
    x, u = tsc(np.vstack(xs), idx, cols), tsc(np.vstack(us), idx, CN[:q])
    phi = np.vstack([np.column_stack([xx] + [uu[:, [j]] * xx for j in range(q)]) for xx, uu in zip(xs, us)])
    s = np.linalg.svd(phi, compute_uv=False)
    if s[-1] < 0.02 * s[0]:
        return
    ctx.nt(nser > 1)
    m = gDMDAffine().fit(x, U=u)
    ctx.close(m.sys_matrix_, a, "state matrix of the data-generating system", 2e-2, 2e-2)
    ctx.close(m.control_matrix_, b, "input matrices of the data-generating system", 2e-2, 2e-2)
    got = m.predict(x.initial_states(), U=u)
    order = sorted(range(nser), key=lambda k: ids[k]) if [int(i) for i in got.index.get_level_values(0)[::n]] != list(ids) else list(range(nser))
    want = np.vstack([xs[k] for k in order])
    ctx.index_close(got.index, [(ids[k], tt) for k in order for tt in t], "rows")
    ctx.close(got.to_numpy(), want, "prediction of the control-affine system", 3e-2, 3e-2 * max(1, np.abs(want).max()))


common = dict(q=st.integers(1, 3), seed=gen.seeds(), names=st.booleans())
grid = dyn.grid(min_len=2, max_len=8, max_feat=3)
long = dyn.grid(min_len=4, max_len=9, max_feat=3)
ids = st.lists(st.integers(0, 20), min_size=3, max_size=3, unique=True)
mode = st.sampled_from(["matrix", "spectral"])
SUBS = [
    Sub("fit", st.fixed_dictionaries(dict(x=grid, noisy=st.booleans(), **common)), run_fit, "several series of different length and several features",
        quick=380, thorough=8000, shards=2),
    Sub("predict", st.fixed_dictionaries(dict(x=long, mode=mode, nic=st.integers(1, 3), nt=st.integers(1, 5), start=st.integers(0, 4), ids=ids,
                                              form=st.sampled_from(["tsc", "tsc", "order", "array", "invalid"]), **common)),
        run_predict, "several initial conditions, steps and inputs", quick=650, thorough=15000, shards=3),
    Sub("reconstruct", st.fixed_dictionaries(dict(x=long, mode=mode, **common)), run_reconstruct, "several series", quick=220, thorough=5000, shards=2),
    Sub("affine", st.fixed_dictionaries(dict(x=dyn.grid(min_len=5, max_len=9, max_feat=2, kinds=("int", "float")), q=st.integers(1, 2), seed=gen.seeds())),
        run_affine, "several series", quick=300, thorough=6000),
    Sub("affine_predict", st.fixed_dictionaries(dict(p=st.integers(1, 3), q=st.integers(1, 2), nser=st.integers(1, 3), ids=ids, seed=gen.seeds())),
        run_affine_predict, "several series", quick=44, thorough=800),
]
ASSUMPTIONS = ["data matrices of states and inputs with a ratio of extreme singular values below 1e-2 are not judged",
               "gDMDAffine is judged with the central difference of order 2; its predictions to 3e-2 (RK23, interpolated inputs)"]
