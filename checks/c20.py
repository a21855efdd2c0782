"""C20: incremental model updates (OnlineDMD, StreamingDMD) against batch least squares."""
import copy

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from sklearn.base import clone

from datafold import TSCDataFrame
from datafold.dynfold.dmd import OnlineDMD, StreamingDMD
from datafold.pcfold.timeseries.collection import TSCException
from vh import dyn, gen
from vh.core import Sub

E = (ValueError, TypeError, TSCException, NotImplementedError)


def batches(case, rng, a, noise):
    """Consecutive batches: list of (collection, pairs left, pairs right)."""
    spec = case["x"]
    stp, cols, p = dyn.step(spec), spec["cols"], a.shape[0]
    out = []
    for ser in case["batches"]:
        rows, vals, l, r = [], [], [], []
        for k, (i, start, n) in enumerate(ser):
            x = [case["scale"] * rng.normal(size=p)]
            for _ in range(n - 1):
                x.append(a @ x[-1] + noise * case["scale"] * rng.normal(size=p))
            x = np.array(x)
            t = gen.time_array([stp * (start + m) for m in range(n)], spec["kind"], spec["unit"])
            rows += [(i, v) for v in t]
            vals.append(x)
            l.append(x[:-1])
            r.append(x[1:])
        v = np.vstack(vals)
        ids = [i for i, _ in rows]
        tv = gen.time_array([stp * (start + m) for (i, start, n) in ser for m in range(n)], spec["kind"], spec["unit"])
        idx = pd.MultiIndex.from_arrays([ids, tv], names=["ID", "time"])
        out.append((TSCDataFrame(v, index=idx, columns=list(cols)), np.vstack(l), np.vstack(r)))
    return out


def same(ctx, got, want, what):
    ctx.index(got.index, list(want.index), what + ": rows")
    ctx.close(got.to_numpy(), want.to_numpy(), what, 1e-12, 1e-12)


def solve(l, r, w):
    n = len(l)
    s = np.sqrt(w) ** np.arange(n)[::-1]
    lw, rw = l * s[:, None], r * s[:, None]
    sv = np.linalg.svd(lw, compute_uv=False)
    # the second value relates the smallest singular value to the largest row that was ever seen
    return np.linalg.lstsq(lw, rw, rcond=None)[0].T, (sv[-1] if n >= l.shape[1] else 0.0)


def wellposed(l, w, p):
    """Smallest singular value of the weighted data of all prefixes with at least 2p pairs (relative to the data)."""
    n = len(l)
    s = np.sqrt(w) ** np.arange(n)[::-1]
    return np.linalg.svd(l * s[:, None], compute_uv=False)[-1] / np.sqrt(np.mean(l ** 2)) if n >= p else 0.0


def run_online(case, ctx):
    rng = gen.rng_of(case["seed"])
    p = len(case["x"]["cols"])
    a = gen.stable_matrix(rng, p, lo=0.6, hi=1.0, gap=0.05)
    noise = case["noise"]
    w = case["weighting"]
    data = batches(case, rng, a, noise)
    m = OnlineDMD(weighting=w, with_warm_up=case["warm"], is_diagonalize=case["diag"])
    l, r = np.empty((0, p)), np.empty((0, p))
    judged = 0
    for k, (x, bl, br) in enumerate(data):
        keep = x.copy(deep=True)
        if k == 0 and case["batch_fit"]:
            if wellposed(bl, 1.0, p) < 0.3 or wellposed(bl, w, p) < 0.1:
                return
            m = m.partial_fit(x, batch_fit=True)
        else:
            ret = m.partial_fit(x)
            ctx.ok(ret is m, "partial_fit returns the model")
        same(ctx, x, keep, "data passed to partial_fit")
        l, r = np.vstack([l, bl]), np.vstack([r, br])
        ctx.eq(int(m.timestep_), len(l), "number of processed pairs")
        ctx.eq(bool(m.ready_), (len(l) >= 2 * p) if case["warm"] else True, "ready")
        ic = x.iloc[[-1]]
        if not m.ready_:
            ctx.raises(lambda: m.predict(ic), "prediction before the warm up has finished", Exception)
            continue
        want, _ = solve(l, r, w)
        cond = wellposed(l, w, p)
        if len(l) < 2 * p or cond < 0.1:
            continue
        judged += 1
        tol = 1e-5 / cond ** 2 * max(1.0, np.abs(want).max())
        ctx.close(m.A, want, f"system matrix after {k + 1} batches", 0, tol)
        ev = np.linalg.eigvals(want)
        gap = min([abs(x - y) for i, x in enumerate(ev) for y in ev[:i]] + [1.0])
        if gap > 0.02 and np.linalg.cond(np.linalg.eig(want)[1]) < 1e2:
            dyn.match(ctx, m.eigenvalues_, ev, "eigenvalues", 1e3 * tol)
            dt = dyn.dt(case["x"])
            t0 = ic.index.get_level_values("time")[0]
            times = np.array([t0, t0 + dt, t0 + dt + dt])
            if case["x"]["kind"] == "dt":
                times = times.astype("datetime64[ns]")
            got = m.predict(ic, time_values=times)
            wx = dyn.orbit(ic.to_numpy()[0], want, 3)
            ctx.close(got.to_numpy(), wx, "prediction", 0, 1e3 * tol * max(np.abs(wx).max(), case["scale"]))
    ctx.nt(judged > 1 and w < 1)
    ctx.tag("noise" if noise else "exact", f"w:{w}", "batch_fit" if case["batch_fit"] else "scratch")
    # other divisions: every pair on its own / all at once
    if judged and case["batch_fit"] is False:
        m2 = clone(m)
        i = 0
        for x, bl, br in data:
            for q in range(len(bl)):
                i += 1
                m2.partial_fit(TSCDataFrame.from_array(np.vstack([bl[q], br[q]]), time_values=x.time_values()[:1].repeat(2) + dyn.dt(case["x"]) * np.array([0, 1]),
                                                       feature_names=list(case["x"]["cols"])))
        if wellposed(l, w, p) >= 0.1:
            ctx.close(m2.A, m.A, "system matrix of pairwise updates", 0, 2e-5 / wellposed(l, w, p) ** 2 * max(1.0, np.abs(m.A).max()))
        ctx.eq(int(m2.timestep_), int(m.timestep_), "pairs of pairwise updates")
    # fitting anew forgets everything
    x, bl, br = data[-1]
    if wellposed(bl, w, p) > 0.1:
        again, fresh = copy.deepcopy(m).fit(x), clone(m).fit(x)
        ctx.close(again.A, fresh.A, "refitted system matrix", 1e-12, 1e-12)
        ctx.close(fresh.A, solve(bl, br, w)[0], "batch fit", 1e-6, 1e-6)
        ctx.eq(int(again.timestep_), len(bl), "pairs after refit")
        ctx.eq(bool(again.ready_), bool(fresh.ready_), "ready after refit")
        if fresh.ready_:
            same(ctx, again.predict(x.iloc[[0]]), fresh.predict(x.iloc[[0]]), "prediction of the refitted model")
        else:
            ctx.raises(lambda: again.predict(x.iloc[[0]]), "prediction of a refitted model before the warm up has finished", Exception)
    invalid(case, ctx, m, data[-1][0])


def invalid(case, ctx, m, x):
    state = m.A.copy()
    cols = list(case["x"]["cols"])
    ctx.raises(lambda: m.partial_fit(x.rename(columns={cols[0]: "zz"})), "renamed feature", E)
    if len(cols) > 1:
        ctx.raises(lambda: m.partial_fit(x.loc[:, cols[::-1]]), "reordered features", E)
        ctx.raises(lambda: m.partial_fit(x.loc[:, cols[:-1]]), "missing feature", E)
    i = x.index
    t = gen.time_array([2 * k * dyn.step(case["x"]) for k in range(3)], case["x"]["kind"], case["x"]["unit"])
    other = TSCDataFrame(np.ones((3, len(cols))), index=pd.MultiIndex.from_arrays([[0] * 3, t], names=["ID", "time"]), columns=cols)
    ctx.raises(lambda: m.partial_fit(other), "other sampling interval", E)
    bad = x.copy(deep=True)
    v = bad.to_numpy().copy()
    v[len(v) // 2, 0] = np.nan
    bad = TSCDataFrame(v, index=i, columns=cols)
    ctx.raises(lambda: m.partial_fit(bad), "non-finite value", E)
    ctx.ok((m.A == state).all(), "rejected data leave the model unchanged")


def run_stream(case, ctx):
    rng = gen.rng_of(case["seed"])
    p = len(case["x"]["cols"])
    rank = min(case["rank"], p)
    if rank < p:  # data in a subspace
        q = np.linalg.qr(rng.normal(size=(p, p)))[0][:, :rank]
        a = q @ gen.stable_matrix(rng, rank, lo=0.6, hi=1.0, gap=0.05) @ q.T
        proj = q @ q.T
        noise = 0.0
    else:
        a, proj, noise = gen.stable_matrix(rng, p, lo=0.6, hi=1.0, gap=0.05), np.eye(p), case["noise"]
    data = []
    for x, l, r in batches(case, rng, a, noise):
        l, r = l @ proj, r @ proj
        data.append((TSCDataFrame(x.to_numpy() @ proj, index=x.index, columns=x.columns), l, r))
    max_rank = None if case["max_rank"] == 0 else rank + case["max_rank"] - 1
    if max_rank is not None and noise and max_rank < p:
        return
    m = StreamingDMD(max_rank=max_rank)
    l, r = np.empty((0, p)), np.empty((0, p))
    judged = 0
    for k, (x, bl, br) in enumerate(data):
        keep = x.copy(deep=True)
        m.partial_fit(x)
        same(ctx, x, keep, "data passed to partial_fit")
        l, r = np.vstack([l, bl]), np.vstack([r, br])
        sv = np.linalg.svd(l, compute_uv=False)
        if len(l) < rank or sv[rank - 1] < 0.05 * sv[0]:
            continue
        judged += 1
        want = proj @ np.linalg.lstsq(l, r, rcond=1e-9)[0].T
        full = m._Qx @ m._compute_koopman_matrix() @ m._Qx.T
        ctx.close(full, want, f"system matrix after {k + 1} batches", 1e-6, 1e-6 * max(1, np.abs(want).max()))
        ev = np.linalg.eigvals(want)
        ev = ev[np.argsort(-abs(ev))][:rank]
        gap = min([abs(x - y) for i, x in enumerate(ev) for y in ev[:i]] + [1.0])
        if len(l) > 1 and gap > 0.02 and np.linalg.cond(m.eigenvectors_right_) < 1e2:
            dyn.match(ctx, m.eigenvalues_[np.argsort(-abs(m.eigenvalues_))][:rank], ev, "eigenvalues", 1e-4)
            for v, lam in zip(m.eigenvectors_right_.T, m.eigenvalues_):
                ctx.close(want @ v, lam * v, "eigen-equation", 1e-5, 1e-5 * max(1, np.abs(want).max()))
            ic = x.iloc[[-1]]
            t0, dt = ic.index.get_level_values("time")[0], dyn.dt(case["x"])
            times = np.array([t0, t0 + dt, t0 + dt + dt])
            if case["x"]["kind"] == "dt":
                times = times.astype("datetime64[ns]")
            got = m.predict(ic, time_values=times)
            wx = dyn.orbit(ic.to_numpy()[0], want, 3)
            ctx.close(got.to_numpy(), wx, "prediction", 1e-4, 1e-4 * max(1, np.abs(wx).max()))
    ctx.nt(judged > 1)
    ctx.tag(f"rank:{'full' if rank == p else 'low'}", f"max_rank:{case['max_rank']}", "noise" if noise else "exact")
    if judged and len(data) > 1:  # pairs one by one
        m2 = clone(m)
        for x, bl, br in data:
            for q in range(len(bl)):
                m2.partial_fit(TSCDataFrame.from_array(np.vstack([bl[q], br[q]]), time_values=x.time_values()[:1].repeat(2) + dyn.dt(case["x"]) * np.array([0, 1]),
                                                       feature_names=list(case["x"]["cols"])))
        sv = np.linalg.svd(l, compute_uv=False)
        if sv[rank - 1] > 0.05 * sv[0]:
            ctx.close(m2._Qx @ m2._compute_koopman_matrix() @ m2._Qx.T, m._Qx @ m._compute_koopman_matrix() @ m._Qx.T, "system matrix of pairwise updates", 1e-6, 1e-6 * max(1, np.abs(want).max()))
    # other objects are not affected
    fresh = StreamingDMD(max_rank=max_rank).partial_fit(data[0][0])
    other = clone(m).partial_fit(data[0][0])
    ctx.close(other.A, fresh.A, "clone of a fitted model starts empty", 1e-12, 1e-12)
    invalid(case, ctx, m, data[-1][0])



@st.composite
def batch_list(draw):
    out = []
    for _ in range(draw(st.integers(1, 4))):
        n = draw(st.integers(1, 3))
        ids = draw(st.lists(st.integers(0, 9), min_size=n, max_size=n, unique=True))
        out.append([(i, draw(st.integers(0, 4)), draw(st.integers(2, 7))) for i in ids])
    return out


one = dyn.grid(min_series=1, max_series=1, min_len=2, max_len=2, max_feat=4)
scale = st.sampled_from([1.0, 1.0, 0.01, 100.0])
noise = st.sampled_from([0.0, 0.3])
SUBS = [
    Sub("online", st.fixed_dictionaries(dict(x=one, batches=batch_list(), scale=scale, noise=noise, weighting=st.sampled_from([1.0, 1, 0.95, 0.8]),
                                             warm=st.booleans(), diag=st.booleans(), batch_fit=st.booleans(), seed=gen.seeds())),
        run_online, "at least two judged updates and weighting below one", quick=430, thorough=12000, shards=4),
    Sub("stream", st.fixed_dictionaries(dict(x=one, batches=batch_list(), scale=scale, noise=noise, rank=st.integers(1, 4), max_rank=st.integers(0, 2), seed=gen.seeds())),
        run_stream, "at least two judged updates", quick=430, thorough=12000, shards=4),
]
ASSUMPTIONS = ["estimates are judged only if the (weighted) data seen so far determine the system (smallest singular value at least 0.1 of the data's scale)",
               "OnlineDMD from scratch keeps a ghost observation of weight 1e-8; agreement is judged to 1e-5 over the squared conditioning",
               "a pair between the last row of one batch and the first row of the next is not part of the data"]
