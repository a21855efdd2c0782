"""C25: Koopman model predictive control and linear quadratic regulator."""
import warnings

import numpy as np
import pandas as pd
import scipy.linalg
import scipy.optimize
from hypothesis import strategies as st

from datafold import EDMD, TSCDataFrame
from datafold.appfold.mpc import KMPC, LQR
from datafold.dynfold.dmd import DMDControl
from vh import dyn, edm, gen, trf
from vh.core import Sub

CN = ["u", "v"]


def system(case, ctx):
    """EDMD with control fitted on simulated data; (edmd, names, A, B)"""
    spec, q, d = case["x"], case["q"], case["d"]
    p = len(spec["cols"])
    rng = gen.rng_of(case["seed"])
    a = gen.stable_matrix(rng, p, lo=0.5, hi=case["rad"])
    bm = rng.normal(size=(p, q))
    xs, us = [], []
    for s in spec["ser"]:
        n = len(s["t"])
        u = rng.normal(size=(n - 1, q))
        x = [rng.normal(size=p)]
        for k in range(n - 1):
            x.append(a @ x[-1] + bm @ u[k])
        xs.append(np.array(x)), us.append(u)
    x = gen.build(spec, np.vstack(xs))
    keep = np.concatenate([[True] * (len(s["t"]) - 1) + [False] for s in spec["ser"]])
    u = TSCDataFrame(np.vstack(us), index=x.index[keep], columns=CN[:q])
    e = EDMD(edm.steps_of(d), dmd_model=DMDControl(), include_id_state=case["id"])
    try:
        h = edm.Hand(d, x, case["id"], "infer")
        z = h.lift(x)
    except Exception as ex:
        ctx.tag("dictionary: " + type(ex).__name__)
        return None
    if h.clash:
        return None
    uz = u.loc[u.index.intersection(z.index), :]
    lu = np.column_stack([z.loc[uz.index, :].to_numpy(), uz.to_numpy()])
    sv = np.linalg.svd(lu, compute_uv=False)
    if len(lu) < lu.shape[1] or sv[-1] < 1e-3 * sv[0]:
        return None
    e.fit(x, U=u)
    A, B = e.dmd_model.sys_matrix_, e.dmd_model.control_matrix_
    if np.abs(np.linalg.eigvals(A)).max() > 1.6 or np.abs(A).max() > 20:
        return None
    gen.classify(spec, ctx)
    ctx.tag("dict " + d["kind"])
    return e, h, list(z.columns), A, B


def initial(case, e):
    spec = case["x"]
    stp = dyn.step(spec)
    n = e.n_samples_ic_
    t0 = case["t0"]
    s = dict(spec, ser=[{"id": case["icid"], "t": [t0 + stp * k for k in range(n)]}], seed=case["seed"] // 2)
    times = gen.time_array([t0 + stp * (n - 1 + k) for k in range(60)], spec["kind"], spec["unit"])
    return gen.build(s), times


def setup_mpc(case, ctx):
    f = system(case, ctx)
    if f is None:
        return None
    e, h, names, A, B = f
    N = case["N"]
    qois = None
    if case["qois"] is not None:
        qois = list(dict.fromkeys(names[k % len(names)] for k in case["qois"]))
    sel = names if qois is None else qois
    C = np.zeros((len(sel), len(names)))
    for j, c in enumerate(sel):
        C[j, names.index(c)] = 1
    nq, m = len(sel), case["q"]
    rng = gen.rng_of(case["seed"], 2)

    def cost(c, n):
        if c in ("none", "zero"):
            return None
        return float(rng.uniform(0.1, 3)) if c == "scalar" else np.array(rng.uniform(0.1, 3, size=n))

    cr, ct, ci = cost(case["cr"], nq), cost(case["ct"], nq), cost(case["ci"], m)
    ib = None
    if case["ib"]:
        c = rng.uniform(-0.5, 0.5, size=m)
        w = rng.uniform(0.05, 1.0, size=m)
        ib = np.column_stack([c - w, c + w])
    return e, h, names, A, B, N, qois, sel, C, nq, m, cr, ct, ci, ib, rng


def stacked(A, B, C, N):
    """states 1..N as affine function of the initial state and all inputs"""
    nz, m = B.shape
    F, G = [], np.zeros((N * len(C), N * m))
    P = np.eye(nz)
    for k in range(N):
        P = A @ P
        F.append(C @ P)
    for k in range(N):
        Q = B
        for j in range(k, N):
            G[j * len(C):(j + 1) * len(C), k * m:(k + 1) * m] = C @ Q
            Q = A @ Q
    return np.vstack(F), G


def run_horizon(case, ctx):
    f = setup_mpc(case, ctx)
    if f is None:
        return
    e, h, names, A, B, N, qois, sel, C, nq, m, cr, ct, ci, ib, rng = f
    xi, times = initial(case, e)
    z0 = h.lift(xi).to_numpy()[0]
    F, G = stacked(A, B, C, N)
    if np.abs(F).max() > 1e4 or np.abs(G).max() > 1e4:
        return
    wq = np.concatenate([np.broadcast_to(cr, nq)] * (N - 1) + [np.broadcast_to(cr if ct is None else ct, nq)])
    wr = np.tile(np.broadcast_to(ci, m), N)
    ref = (F @ z0).reshape(N, nq) * rng.uniform(0, 1) + rng.normal(size=(N, nq))
    sb = None
    if case["sb"]:
        # feasible by construction: states of a random admissible input sequence with a margin
        if ib is None:
            uf = rng.normal(size=N * m) * 0.5
        else:
            uf = rng.uniform(np.tile(ib[:, 0], N), np.tile(ib[:, 1], N))
        xf = (F @ z0 + G @ uf).reshape(N, nq)
        mg = 0.05 + rng.uniform(0, 0.5, size=nq)
        sb = np.column_stack([xf.min(axis=0) - mg, xf.max(axis=0) + mg])
        if not case["tight"]:
            sb += np.array([[-5.0, 5.0]])
    X, Y = xi.copy(), TSCDataFrame(ref, index=pd.MultiIndex.from_arrays([[case["icid"]] * N, times[1:N + 1]]), columns=sel)
    y0 = Y.copy()
    o = slice(None, None, -1 if case["flip"] else 1)
    ctx.tag("(max, min) bounds" if case["flip"] else "(min, max) bounds")
    k = KMPC(edmd=e, horizon=N, state_bounds=None if sb is None else sb[:, o].copy(), input_bounds=None if ib is None else ib[:, o].copy(), qois=qois,
             cost_running=cr, cost_terminal=ct, cost_input=ci)
    try:
        U = k.control_sequence_horizon(X, Y)
    except ValueError as ex:
        if "did not converge" in str(ex):
            ctx.ok(np.abs(F @ z0).max() > 1e3 or np.linalg.cond(G.T @ G + np.diag(wr)) > 1e8, f"no solution of a feasible problem: {ex}")
            return
        raise
    ctx.tag("state bounds" if sb is not None else "no state bounds", "input bounds" if ib is not None else "no input bounds", "qois" if qois else "all states")
    ctx.ok(Y.equals(y0) and X.equals(xi), "the controller changed its data")
    gen.valid_tsc(ctx, U, "control sequence")
    ctx.index(U.columns, CN[:m], "control names")
    ctx.index_close(U.index, [(case["icid"], t) for t in times[:N]], "control times")
    u = U.to_numpy().ravel()

    def states(v):
        s, out = z0, []
        for j in range(N):
            s = A @ s + B @ v[j * m:(j + 1) * m]
            out.append(C @ s)
        return np.concatenate(out)

    def J(v):
        r = states(v) - ref.ravel()
        return float(r @ (wq * r) + v @ (wr * v))

    scale = max(1.0, np.abs(u).max())
    tol = 1e-6 * scale
    if ib is not None:
        v = u.reshape(N, m)
        ctx.ok((v >= ib[:, 0] - tol).all() and (v <= ib[:, 1] + tol).all(), f"input bounds {ib} violated by {v}")
    xs = states(u).reshape(N, nq)
    if sb is not None:
        t2 = 1e-5 * max(1.0, np.abs(xs).max())
        ctx.ok((xs >= sb[:, 0] - t2).all() and (xs <= sb[:, 1] + t2).all(), f"state bounds {sb} violated by predicted states {xs}")
    ju = J(u)
    jt = 1e-6 * max(1.0, abs(ju))

    def feasible(v):
        if ib is not None and not ((v.reshape(N, m) >= ib[:, 0]).all() and (v.reshape(N, m) <= ib[:, 1]).all()):
            return False
        if sb is not None:
            w = states(v).reshape(N, nq)
            return (w >= sb[:, 0]).all() and (w <= sb[:, 1]).all()
        return True

    # bounded least squares gives the optimum without state bounds, and a lower bound with them
    M = np.vstack([np.sqrt(wq)[:, None] * G, np.diag(np.sqrt(wr))])
    y = np.concatenate([np.sqrt(wq) * (ref.ravel() - F @ z0), np.zeros(N * m)])
    if ib is None:
        best = np.linalg.lstsq(M, y, rcond=None)[0]
    else:
        best = scipy.optimize.lsq_linear(M, y, bounds=(np.tile(ib[:, 0], N), np.tile(ib[:, 1], N)), method="bvls", tol=1e-12).x
        ctx.nt((np.abs(best - np.tile(ib[:, 0], N)) < 1e-6).any() or (np.abs(best - np.tile(ib[:, 1], N)) < 1e-6).any())
    ctx.nt(N > 2)
    ctx.ok(ju >= J(best) - 1e-5 * max(1.0, ju), f"cost {ju} lower than the optimum {J(best)} (oracle)")
    if sb is None or feasible(best):
        ctx.ok(ju <= J(best) + jt, f"cost {ju} of the returned sequence, optimum {J(best)} (inputs {best})")
        ctx.close(u, best, "control sequence", 1e-3, 1e-4 * scale)
        ctx.tag("unique optimum")
    else:
        ctx.tag("active state bounds")
    # any other feasible sequence: candidates towards the unconstrained optimum and random ones
    others = [u + s * (best - u) for s in (1, 0.5, 0.1, 0.01, 1e-3)]
    if sb is not None:
        others += [u + s * (uf - u) for s in (1, 0.5, 0.1, 0.01)]
    others += [u + s * rng.normal(size=len(u)) for s in (1, 0.1, 0.01, 1e-3) for _ in range(5)]
    if ib is not None:
        others = [np.clip(v, np.tile(ib[:, 0], N), np.tile(ib[:, 1], N)) for v in others]
    for v in others:
        if feasible(v):
            ctx.ok(ju <= J(v) + jt, f"feasible inputs {v} have cost {J(v)} lower than {ju}")
    if sb is not None and case["slsqp"]:
        r = scipy.optimize.minimize(J, uf, jac=lambda v: 2 * M.T @ (M @ v - y), method="SLSQP",
                                    bounds=None if ib is None else list(zip(np.tile(ib[:, 0], N), np.tile(ib[:, 1], N))),
                                    constraints=[{"type": "ineq", "fun": lambda v: np.concatenate([np.tile(sb[:, 1], N) - states(v), states(v) - np.tile(sb[:, 0], N)]),
                                                  "jac": lambda v: np.vstack([-G, G])}], options={"maxiter": 300, "ftol": 1e-12})
        v = uf + (1 - 1e-6) * (r.x - uf)
        if feasible(v):
            ctx.tag("SLSQP")
            ctx.ok(ju <= J(v) + 1e-4 * max(1.0, abs(ju)), f"feasible inputs {v} have cost {J(v)} lower than {ju}")
    # the model's own prediction
    pred = e.predict(xi, U=U)
    com = [c for c in sel if c in list(pred.columns)]
    if com and (h.attach or h.contains):
        w = xs[:, [sel.index(c) for c in com]]
        ctx.tag("prediction")
        ctx.close(pred.loc[:, com].to_numpy()[1:], w, "prediction with the control sequence", 1e-5, 1e-6 * max(1.0, np.abs(w).max()))
    # repeatable
    ctx.close(k.control_sequence_horizon(X, Y).to_numpy(), U.to_numpy(), "control sequence computed again", 1e-12, 1e-12)


class Plant:
    """A linear system that takes the interface of the bundled systems."""

    def __init__(self, a, b, cols):
        self.a, self.b, self.cols, self.calls = a, b, cols, []

    def predict(self, X, U, time_values):
        self.calls.append((X.copy(), U.copy(), list(time_values)))
        x = X.to_numpy()[0]
        y = self.a @ x + self.b @ U.to_numpy()[0] + 0.05 * np.tanh(x)
        i = X.ids[0]
        return TSCDataFrame(np.vstack([x, y]), index=pd.MultiIndex.from_arrays([[i, i], np.array(time_values)]), columns=self.cols), U


def run_closed(case, ctx):
    f = setup_mpc(case, ctx)
    if f is None:
        return
    e, h, names, A, B, N, qois, sel, C, nq, m, cr, ct, ci, ib, rng = f
    xi, times = initial(case, e)
    k = KMPC(edmd=e, horizon=N, state_bounds=None, input_bounds=ib, qois=qois, cost_running=cr, cost_terminal=ct, cost_input=ci)
    T = case["T"]
    i0 = case["icid"]
    ref = TSCDataFrame(rng.normal(size=(T, nq)), index=pd.MultiIndex.from_arrays([[i0] * T, times[1:T + 1]]), columns=sel)
    cols = list(xi.columns)
    p = len(cols)
    a = gen.stable_matrix(rng, p, lo=0.4, hi=0.9)
    b = rng.normal(size=(p, m))
    plant = Plant(a, b, cols)
    sys_ic = xi.iloc[[-1], :]
    xs, us = k.control_system_reference(plant if case["obj"] else plant.predict, sys_ic, ref, xi)
    ctx.nt(T > 2)
    # by hand
    hist = [v for v in xi.to_numpy()]
    n = e.n_samples_ic_
    X, want_u = [hist[-1]], []
    stp_times = list(gen.time_array([case["t0"] + dyn.step(case["x"]) * j for j in range(n + 60)], case["x"]["kind"], case["x"]["unit"]))
    for j in range(T - 1):
        cur = TSCDataFrame(np.array(hist[-n:]), index=pd.MultiIndex.from_arrays([[i0] * n, np.array(stp_times[j:j + n])]), columns=cols)
        r = ref.to_numpy()[j:j + N]
        r = np.vstack([r] + [r[-1:]] * (N - len(r)))
        rr = TSCDataFrame(r, index=pd.MultiIndex.from_arrays([[i0] * N, times[j + 1:j + N + 1]]), columns=sel)
        u = k.control_sequence_horizon(cur, rr).to_numpy()[0]
        x = X[-1]
        x = a @ x + b @ u + 0.05 * np.tanh(x)
        hist.append(x), X.append(x), want_u.append(u)
    gen.valid_tsc(ctx, xs, "controlled states")
    ctx.index(xs.columns, cols, "state names")
    ctx.index_close(xs.index, [(i0, t) for t in times[:T]], "controlled states: rows")
    ctx.index_close(us.index, [(i0, t) for t in times[:T - 1]], "applied inputs: rows")
    ctx.close(us.to_numpy(), np.array(want_u), "applied inputs", 1e-5, 1e-6 * max(1.0, np.abs(want_u).max()))
    ctx.close(xs.to_numpy(), np.array(X), "controlled states", 1e-5, 1e-6 * max(1.0, np.abs(X).max()))


def run_lqr(case, ctx):
    f = system(case, ctx)
    if f is None:
        return
    e, h, names, A, B = f
    nz, m = B.shape
    rng = gen.rng_of(case["seed"], 2)
    q = float(rng.uniform(0.1, 3)) if case["cr"] == "scalar" else np.array(rng.uniform(0.1, 3, size=nz))
    r = float(rng.uniform(0.1, 3)) if case["ci"] == "scalar" else np.array(rng.uniform(0.1, 3, size=m))
    Q, R = np.diag(np.broadcast_to(q, nz)), np.diag(np.broadcast_to(r, m))
    # value iteration
    P = Q.copy()
    for _ in range(4000):
        Fk = np.linalg.solve(R + B.T @ P @ B, B.T @ P @ A)
        Pn = Q + A.T @ P @ (A - B @ Fk)
        Pn = (Pn + Pn.T) / 2
        if np.abs(Pn).max() > 1e6:
            return ctx.tag("not stabilisable")
        d = np.abs(Pn - P).max()
        P = Pn
        if d < 1e-12 * max(1.0, np.abs(P).max()):
            break
    else:
        return ctx.tag("slow convergence")
    Fw = np.linalg.solve(R + B.T @ P @ B, B.T @ P @ A)
    if np.abs(np.linalg.eigvals(A - B @ Fw)).max() > 1 - 1e-3:
        return
    l = LQR(e, q, r)
    ctx.nt(nz > 1)
    ctx.close(l.Flqr, Fw, "feedback matrix", 1e-5, 1e-6 * max(1.0, np.abs(Fw).max()))
    xi, times = initial(case, e)
    c2 = dict(case, seed=case["seed"] + 2)
    xt, _ = initial(c2, e)
    z, zt = h.lift(xi).to_numpy()[0], h.lift(xt).to_numpy()[0]
    want = -Fw @ (z - zt)
    if case["preset"]:
        l.preset_target_state(xt)
        U = l.control_sequence(xi)
        ctx.tag("preset")
    else:
        U = l.control_sequence(xi, xt)
    gen.valid_tsc(ctx, U, "feedback")
    ctx.index(U.columns, CN[:m], "control names")
    ctx.index_close(U.index, [(case["icid"], times[0])], "time of the input")
    ctx.close(U.to_numpy()[0], want, "feedback", 1e-5, 1e-6 * max(1.0, np.abs(want).max()))
    ctx.raises(lambda: LQR(e, q, r).control_sequence(xi), "no target state", ValueError)


@st.composite
def base(draw):
    spec = draw(dyn.grid(min_series=1, max_series=3, min_len=8, max_len=16, max_feat=3, kinds=("int", "float")))
    d = draw(edm.dictionary(spec["cols"], ["identity", "identity", "scale", "takens", "poly", "lambdas", "select"]))
    spec = dict(spec, ser=[dict(s, t=[s["t"][0] + dyn.step(spec) * k for k in range(len(s["t"]) + 2 * edm.lost(d))]) for s in spec["ser"]])
    return {"x": spec, "d": d, "q": draw(st.integers(1, 2)), "id": draw(st.sampled_from([True, True, False])), "seed": draw(gen.seeds()), "rad": draw(st.sampled_from([0.9, 1.1])),
            "t0": draw(st.sampled_from([0, 0, 3, 10])), "icid": draw(st.sampled_from([0, 0, 1, 7]))}


@st.composite
def mpc_cases(draw):
    c = draw(base())
    c.update(N=draw(st.integers(2, 5)), qois=draw(st.one_of(st.none(), st.lists(st.integers(0, 5), min_size=1, max_size=3))),
             cr=draw(st.sampled_from(["scalar", "array"])), ct=draw(st.sampled_from(["scalar", "array", "none"])), ci=draw(st.sampled_from(["scalar", "array"])),
             ib=draw(st.booleans()), sb=draw(st.booleans()), tight=draw(st.booleans()), slsqp=draw(st.booleans()), flip=draw(st.booleans()))
    return c


@st.composite
def closed_cases(draw):
    c = draw(mpc_cases())
    c.update(sb=False, T=draw(st.integers(2, 5)), obj=draw(st.booleans()))
    return c


@st.composite
def lqr_cases(draw):
    c = draw(base())
    c.update(cr=draw(st.sampled_from(["scalar", "array"])), ci=draw(st.sampled_from(["scalar", "array"])), preset=draw(st.booleans()))
    return c


SUBS = [
    Sub("horizon", mpc_cases(), run_horizon, "active input bounds or horizon above 2", 260, 5000, 6),
    Sub("closed", closed_cases(), run_closed, "more than one controlled step", 100, 1500, 4),
    Sub("lqr", lqr_cases(), run_lqr, "more than one dictionary state", 150, 2500, 3),
]
ASSUMPTIONS = [
    "Bounds are given as columns (lower, upper), as in the tutorials, or (upper, lower), as documented.",
    "The optimum is computed independently by bounded least squares (exact without active state bounds); with active state bounds the result is compared with feasible alternatives and a general solver.",
]
