"""C18: predictions of dynamic mode decomposition models."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from datafold import TSCDataFrame, TSCMetric
from datafold.dynfold.dmd import DMDStandard, OnlineDMD, PretrainedDMD, StreamingDMD
from vh import dyn, gen
from vh.core import Sub

VARIANTS = ["spectral", "matrix", "diagonalize", "generator-spectral", "generator-matrix", "online", "streaming", "pretrained-spectral", "pretrained-matrix"]


def fitted(case, spec, ctx):
    """(model, flow map for one sampling interval, training data, training values) or None"""
    var, p = case["variant"], len(spec["cols"])
    if var.startswith("generator") and spec["kind"] == "dt":
        return None
    rng = gen.rng_of(case["seed"])
    a = gen.stable_matrix(rng, p, lo=0.6, hi=1.0, real=case["real"])
    vals, _ = dyn.free_values(spec, a, rng)
    x = gen.build(spec, vals)
    l, _ = dyn.pairs(spec, vals)
    s = np.linalg.svd(l, compute_uv=False)
    if len(l) < p or s[-1] < 5e-3 * s[0]:
        return None
    if var == "spectral":
        m = DMDStandard().fit(x)
    elif var == "matrix":
        m = DMDStandard(sys_mode="matrix").fit(x)
    elif var == "diagonalize":
        m = DMDStandard(diagonalize=True).fit(x)
    elif var.startswith("generator"):
        m = DMDStandard(approx_generator=True, sys_mode=var.split("-")[1]).fit(x)
    elif var == "online":
        m = OnlineDMD(with_warm_up=False).fit(x)
    elif var == "streaming":
        if len(x) <= 2:
            return None
        m = StreamingDMD().partial_fit(x)
    else:
        m = PretrainedDMD.from_available_system_matrix("flowmap", var.split("-")[1], a, is_diagonalize=False)
        m.fit(x)
    ctx.tag(var)
    return m, a, x, vals


def power(a, k):
    if k == int(k):
        return np.linalg.matrix_power(a, int(k))
    w, v = np.linalg.eig(a)
    return np.real(v @ np.diag(w.astype(complex) ** k) @ np.linalg.inv(v))


def expect(a, x0, steps):
    """rows of all initial conditions (rows of x0) at the step numbers"""
    return [[power(a, k) @ x for k in steps] for x in x0]


def verify(ctx, got, ids, times, cols, ref, what, tol=1e-5):
    gen.valid_tsc(ctx, got, what)
    ctx.index(got.columns, cols, what + ": features")
    order = list(range(len(ids)))
    if len(got) and [int(i) for i in got.index.get_level_values(0)[::max(1, len(times))]] != list(ids):
        order = sorted(order, key=lambda k: ids[k])
    ctx.index_close(got.index, [(ids[k], t) for k in order for t in times], what + ": rows", tol=1e-12)
    want = np.array([s for k in order for s in ref[k]])
    ctx.close(got.to_numpy(), want, what, tol, tol * max(1.0, np.abs(want).max()))


def run_predict(case, ctx):
    spec = case["x"]
    f = fitted(case, spec, ctx)
    if f is None:
        return
    m, a, _, _ = f
    gen.classify(spec, ctx)
    p, cols, stp = len(spec["cols"]), spec["cols"], dyn.step(spec)
    nic = case["nic"]
    rng = gen.rng_of(case["seed"], 1)
    x0 = rng.normal(size=(nic, p))
    ids = case["ids"][:nic]
    start = case["start"]

    def tarr(steps):
        if any(k != int(k) for k in steps):
            return np.array([(start + k * stp) * spec["unit"] for k in steps])
        return gen.time_array([start + int(k) * stp for k in steps], spec["kind"], spec["unit"])
    steps = sorted(set(case["steps"]))
    if case["half"] and case["real"] and spec["kind"] == "float" and not case["variant"] == "matrix" and "pretrained-matrix" != case["variant"]:
        steps = [k / 2 for k in steps]
    times = tarr(steps)
    form = case["form"]
    t0 = tarr([0])[0]
    ic = TSCDataFrame(x0.copy(), index=pd.MultiIndex.from_arrays([ids, np.array([t0] * nic)], names=["ID", "time"]), columns=cols)
    ctx.nt(nic > 1 and p > 1 and len(steps) > 1)
    ctx.tag("form:" + form)
    if form == "tsc":
        before = ic.copy()
        tv = times if case["arr"] or spec["kind"] == "dt" else times.tolist()
        got = m.predict(ic, time_values=tv)
        full = steps if steps[0] == 0 else [0] + steps  # the initial time is always included
        verify(ctx, got, ids, tarr(full), cols, expect(a, x0, full), "prediction")
        ctx.ok(before.equals(ic) and list(before.index) == list(ic.index), "initial condition unchanged")
        ctx.ok((m.predict(ic, time_values=tv).to_numpy() == got.to_numpy()).all(), "repeatable")
        # independence of other initial conditions
        k = case["steps"][0] % nic
        one = m.predict(ic.iloc[[k]], time_values=tv)
        verify(ctx, one, [ids[k]], tarr(full), cols, expect(a, x0[[k]], full), "prediction of one initial condition")
        # independence of other time values
        j = case["steps"][-1] % len(full)
        sub = m.predict(ic, time_values=tarr([full[j]]))
        sub_steps = [full[j]] if full[j] == 0 else [0, full[j]]
        verify(ctx, sub, ids, tarr(sub_steps), cols, expect(a, x0, sub_steps), "prediction of one time value")
        # restart
        mid = got.loc[pd.IndexSlice[:, tarr([full[j]])[0]], :]
        rest = [q for q in full if q >= full[j]]
        re = m.predict(mid, time_values=tarr(rest))
        verify(ctx, re, ids, tarr(rest), cols, expect(a, x0, rest), "restarted prediction")
    elif form == "default":
        got = m.predict(ic)
        verify(ctx, got, ids, tarr([0, 1]), cols, expect(a, x0, [0, 1]), "prediction of the default time values")
    elif form == "array":
        if spec["kind"] == "dt":
            return
        arr = x0 if case["arr"] or nic > 1 else x0[0]
        got = m.predict(arr, time_values=times)
        rel = [k - steps[0] for k in steps]
        verify(ctx, got, list(range(nic)), times, cols, expect(a, x0, rel), "prediction from an array")
        got = m.predict(arr)
        dt = dyn.dt(spec)
        verify(ctx, got, list(range(nic)), [0, dt], cols, expect(a, x0, [0, 1]), "prediction from an array with default time values")
    elif form == "modes":
        if "matrix" in case["variant"]:
            ctx.raises(lambda: m.predict(ic, time_values=times, post_map=np.ones((1, p)), feature_columns=["s"]), "post_map in matrix mode", ValueError)
            return
        pm = rng.normal(size=(case["arr"] + 1, p))
        names = [f"s{j}" for j in range(len(pm))]
        full = steps if steps[0] == 0 else [0] + steps
        ref = [[pm @ s for s in r] for r in expect(a, x0, full)]
        got = m.predict(ic, time_values=times, post_map=pm, feature_columns=names)
        verify(ctx, got, ids, tarr(full), names, ref, "prediction with post_map")
        got = m.predict(ic, time_values=times, modes=pm @ m.dmd_modes, feature_columns=names)
        verify(ctx, got, ids, tarr(full), names, ref, "prediction with modes")
        ctx.raises(lambda: m.predict(ic, time_values=times, modes=pm @ m.dmd_modes), "feature_columns missing", ValueError)
        ctx.raises(lambda: m.predict(ic, time_values=times, modes=pm @ m.dmd_modes, post_map=pm, feature_columns=names), "modes and post_map", ValueError)
        ctx.raises(lambda: m.predict(ic, time_values=times, mode=pm), "unknown parameter", KeyError)
    else:  # invalid requests
        V = (ValueError, TypeError)
        dt = dyn.dt(spec)
        if start > 0 or spec["kind"] == "dt":
            ctx.raises(lambda: m.predict(ic, time_values=np.array([t0 - dt if spec["kind"] == "dt" else 0 * t0, t0 + dt])), "time before the initial condition", V)
        ctx.raises(lambda: m.predict(ic, time_values=np.array([t0 + 2 * dt, t0 + dt])), "decreasing times", V)
        ctx.raises(lambda: m.predict(ic, time_values=np.array([t0 + dt, t0 + dt])), "duplicated times", V)
        ctx.raises(lambda: m.predict(ic, time_values=np.array([[t0 + dt]])), "2-dim times", V)
        if spec["kind"] == "float":
            ctx.raises(lambda: m.predict(ic, time_values=np.array([t0, np.nan])), "nan time", V)
            ctx.raises(lambda: m.predict(ic, time_values=np.array([t0, np.inf])), "inf time", V)
        two = TSCDataFrame(x0[[0, 0]], index=pd.MultiIndex.from_arrays([[ids[0]] * 2, np.array([t0, t0 + dt])], names=["ID", "time"]), columns=cols)
        ctx.raises(lambda: m.predict(two, time_values=times), "several samples in one initial condition", Exception)
        if p > 1:
            ctx.raises(lambda: m.predict(ic.loc[:, cols[::-1]], time_values=times), "reordered features", V)
            ctx.raises(lambda: m.predict(ic.loc[:, cols[:-1]], time_values=times), "missing feature", V)


def run_reduced(case, ctx):
    """Reduced rank: the prediction starts at the least squares projection onto the modes and follows the modes' eigenvalues."""
    spec, p = case["x"], len(case["x"]["cols"])
    rank = case["rank"]
    vals = gen.values(spec, len(gen.rows(spec)), p)
    l, _ = dyn.pairs(spec, vals)
    s = np.linalg.svd(l, compute_uv=False)
    if rank > p - 1 or len(l) < p or s[-1] < 1e-2 * s[0]:
        return
    m = DMDStandard(rank=rank, reconstruct_mode=case["mode"]).fit(gen.build(spec, vals))
    v, w = m.eigenvectors_right_, m.eigenvalues_
    if np.linalg.cond(v) > 1e4 or np.abs(w).max() > 5 or np.abs(w).min() < 1e-3:
        return
    nic, stp = case["nic"], dyn.step(spec)
    x0 = gen.rng_of(case["seed"]).normal(size=(nic, p))
    ids = case["ids"][:nic]
    times = gen.time_array([k * stp for k in range(4)], spec["kind"], spec["unit"])
    ic = TSCDataFrame(x0, index=pd.MultiIndex.from_arrays([ids, np.array([times[0]] * nic)], names=["ID", "time"]), columns=spec["cols"])
    pv = np.linalg.pinv(v)
    ref = [[np.real(v @ (w ** k * (pv @ x))) for k in range(4)] for x in x0]
    ctx.nt(nic > 1)
    got = m.predict(ic, time_values=times)
    verify(ctx, got, ids, times, spec["cols"], ref, "reduced rank prediction")
    ctx.close(np.real(v @ (pv @ got.loc[pd.IndexSlice[:, times[0]], :].to_numpy().T)), got.loc[pd.IndexSlice[:, times[0]], :].to_numpy().T,
              "the initial state is a fixed point of the projection", 1e-6, 1e-6)


def run_reconstruct(case, ctx):
    """Every series is predicted from its own first sample, labels and order as in the data, score = metric."""
    spec = case["x"]
    f = fitted(case, spec, ctx)
    if f is None:
        return
    m, a, _, _ = f
    new = case["new"]
    t = [s["t"] for s in new["ser"]]
    new = dict(new, cols=spec["cols"], kind=spec["kind"], unit=spec["unit"],
               ser=[dict(id=s["id"], t=[dyn.step(spec) * (s["t"][0] + k) for k in range(len(s["t"]))]) for s in new["ser"]])
    gen.classify(new, ctx)
    p = len(spec["cols"])
    vals = gen.values(new, len(gen.rows(new)), p)
    x = gen.build(new, vals)
    parts = dyn.split_rows(new, vals)
    ref = np.vstack([dyn.orbit(parts[s["id"]][0], a, len(s["t"])) for s in new["ser"]])
    ctx.nt(len(t) > 1 and gen.unequal_len(new))
    got = m.reconstruct(x)
    dyn.same_rows(ctx, got, new, ref, spec["cols"], "reconstruction", 1e-5, 1e-5)
    ctx.ok((x.to_numpy() == vals).all(), "data unchanged")
    if np.ptp(vals, axis=0).min() > 1e-3:
        want = TSCMetric("rmse", "feature", scaling="min-max")(x, gen.build(new, ref))
        ctx.close(m.score(x), -np.mean(want.to_numpy()), "score", 1e-4, 1e-4)


common = dict(variant=st.sampled_from(VARIANTS), real=st.booleans(), seed=gen.seeds())
ids = st.lists(st.integers(0, 20), min_size=3, max_size=3, unique=True)
train = dyn.grid(min_len=3, max_len=8, max_series=3)
SUBS = [
    Sub("predict", st.fixed_dictionaries(dict(x=train, nic=st.integers(1, 3), ids=ids, start=st.sampled_from([0, 1, 2, 3, 4, 137, 12345]), arr=st.booleans(), half=st.booleans(),
                                              steps=st.lists(st.one_of(st.integers(0, 12), st.integers(0, 12), st.integers(13, 600)), min_size=1, max_size=5),
                                              form=st.sampled_from(["tsc", "tsc", "tsc", "default", "array", "modes", "invalid"]), **common)),
        run_predict, "several initial conditions, features and times", quick=1300, thorough=20000, shards=4),
    Sub("reduced", st.fixed_dictionaries(dict(x=dyn.grid(min_len=4, max_len=8, min_feat=2), rank=st.integers(1, 3), mode=st.sampled_from(["exact", "project"]),
                                              nic=st.integers(1, 3), ids=ids, seed=gen.seeds())),
        run_reduced, "several initial conditions", quick=300, thorough=5000),
    Sub("reconstruct", st.fixed_dictionaries(dict(x=train, new=dyn.grid(min_len=2, max_len=6, equal_len=False), **common)),
        run_reconstruct, "several series of different length", quick=500, thorough=8000, shards=3),
]
ASSUMPTIONS = ["training data are noise-free and well conditioned, so that the flow map of the model is known exactly",
               "time values between samples are judged for spectral models with positive real spectrum"]
