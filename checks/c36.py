"""C36: simulated example systems follow their vector field and input."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from datafold.pcfold import InitialCondition, TSCDataFrame
from datafold.utils import _systems as S
from vh import gen
from vh.core import Sub

SEED = gen.seeds()


def integrate(f, x0, times, inputs=None):
    """Accurate reference: piecewise constant input on every interval."""
    out = [np.asarray(x0, float)]
    for k in range(len(times) - 1):
        u = None if inputs is None else inputs[k]
        s = solve_ivp(lambda t, x: f(t, x, u), (times[k], times[k + 1]), out[-1], method="DOP853", rtol=1e-11, atol=1e-12)
        out.append(s.y[:, -1])
    return np.array(out)


class Lin(S.ControllableODE):
    """Own system of arbitrary size: x' = A x + B u."""

    def __init__(self, a, b):
        self.a, self.b = a, b
        super().__init__([f"s{i}" for i in range(len(a))], [f"c{i}" for i in range(b.shape[1])])

    def _f(self, t, y, u):
        return self.a @ y + self.b @ u


def system(name, r):
    """(system, reference field f(t, x, u), radius of initial conditions, horizon)"""
    if name.startswith("vdp"):
        coord = {"vdp": "both", "vdpx": "x", "vdpy": "y"}[name]
        eps = float(np.round(r.uniform(0.2, 1.5), 2))
        s = S.VanDerPol(eps=eps, control_coord=coord)

        def f(t, x, u):
            u1, u2 = (u[0], u[1]) if coord == "both" else ((u[0], 0) if coord == "x" else (0, u[0]))
            return np.array([x[1] + u1, -x[0] + eps * (1 - x[0] ** 2) * x[1] + u2])
        return s, f, 1.5, 2.0
    if name == "duffing":
        al, be, de = np.round(r.uniform(0.2, 1.2, 3), 2)
        s = S.Duffing(alpha=al, beta=-be, delta=de)
        return s, lambda t, x, u: np.array([x[1], -de * x[1] - x[0] * (-be + al * x[0] ** 2) + u[0]]), 1.0, 2.0
    if name == "motor":
        s = S.DCMotor()
        s.ivp_kwargs["method"] = "RK45"
        return s, lambda t, x, u: np.array([19.10828025 - 39.3153 * x[0] - 32.2293 * x[1] * u[0],
                                            -3.333333333 - 1.6599 * x[1] + 22.9478 * x[0] * u[0]]), 1.0, 0.1
    if name == "burger":
        n = int(r.integers(4, 8))
        nu = float(np.round(r.uniform(0.02, 0.2), 2))
        s = S.Burger1DPeriodicBoundary(n_spatial_points=n, nu=nu)
        s.ivp_kwargs["method"] = "RK45"
        dx = 2 * np.pi / (n - 1)

        def f(t, x, u):
            up, dn = np.roll(x, -1), np.roll(x, 1)
            return -x * (up - dn) / (2 * dx) + nu * (up - 2 * x + dn) / dx ** 2 + u
        return s, f, 1.0, 1.0
    if name in ("pend", "pend2"):
        s = S.InvertedPendulum() if name == "pend" else S.InvertedPendulum2()

        def f(t, x, u):  # no documented equation: the vector field of the system itself
            if name == "pend2":
                return np.asarray(s._f(t, x, u[0]), float).ravel()
            return np.asarray(s._f(t, x[:, None], np.asarray(u)[:, None]), float).ravel()
        return s, f, 0.3, 0.3
    n, c = int(r.integers(1, 5)), int(r.integers(1, 5))
    a, b = r.normal(size=(n, n)) - np.eye(n), np.round(r.normal(size=(n, c)), 2)
    return Lin(a, b), lambda t, x, u: a @ x + b @ u, 1.0, 1.5


def control(case, ctx):
    r = gen.rng_of(case["seed"], 1)
    s, f, rad, hor = system(case["sys"], r)
    s.ivp_kwargs.update(rtol=1e-8, atol=1e-9)
    nf, nc = s.n_features_in_, s.n_control_in_
    mode, xm, n = case["mode"], case["xm"], case["n"]
    steps = case["steps"]
    if mode == "array" or xm == "1d":
        n = 1
    if mode in ("onestep", "tsc1"):
        steps = 1
    # a single control row is treated as one-step prediction (needs time values)
    t0 = case["t0"]
    h = hor / 8
    times = t0 + h * np.arange(steps + 1)
    ids = list(r.permutation(12)[:n]) if case["ids"] else list(range(n))
    ids = [int(i) for i in (ids if xm == "tsc" else sorted(ids))]  # arrays match the input by (sorted) order
    x0 = np.round(r.uniform(-rad, rad, (n, nf)), 3)
    if xm == "tsc":
        x = InitialCondition.from_array(x0, time_value=times[0], feature_names=s.feature_names_in_, ts_ids=np.array(ids))
    else:
        x = x0[0].copy() if xm == "1d" else x0.copy()
    amp = 0.8 if case["sys"] != "motor" else 3.0
    u = np.round(r.uniform(-amp, amp, (n, steps, nc)), 2)
    rids = ids if xm == "tsc" else None
    kw = {"time_values": times}
    names = list(s.control_names_in_)
    if mode == "none":
        u[:] = 0
        U = None
    elif mode == "array":
        U = u[0].copy()
        if nc == 1 and case["flat"]:
            U = U.ravel()
        if steps == 1 and xm == "1d":
            pass
    elif mode == "onestep":
        U = u[:, 0, :].copy()
    elif mode in ("tsc", "tsc1"):
        uids = ids if (xm == "tsc" or case["ids"]) else list(range(n))
        order = list(r.permutation(n)) if (xm == "tsc" and case["mix"]) else list(range(n))
        idx = pd.MultiIndex.from_arrays([[uids[o] for o in order for _ in range(steps)], list(times[:-1]) * n])
        U = TSCDataFrame(np.concatenate([u[o] for o in order]), index=idx, columns=names)
        if rids is None:
            rids = uids
        if steps > 1 and not case["giventime"]:
            kw = {}
    else:
        w = np.round(r.uniform(0.5, 2, nc), 2)

        def U(t, y):
            y = y.T if y.shape == (nf, 1) else y
            t = np.atleast_1d(t)
            return np.column_stack([np.sin(w[j] * t / h + j) + 0.1 * y[:, j % nf] for j in range(nc)]) * amp
    rids = rids if rids is not None else list(range(n))
    keep = None if U is None or callable(U) else U.copy()
    xkeep = x.copy()
    res, ures = s.predict(x, U=U, **kw)
    ctx.tag(case["sys"], mode, xm, "ids" if case["ids"] else "")
    ctx.nt(steps > 1 and (n > 1 or nc > 1))
    gen.valid_tsc(ctx, res, "trajectory")
    gen.valid_tsc(ctx, ures, "control")
    ctx.ok(x.equals(xkeep) if hasattr(x, "equals") else np.array_equal(x, xkeep), "initial conditions not modified")
    if keep is not None:
        ctx.ok(np.array_equal(np.asarray(U), np.asarray(keep)), "control input not modified")
    ctx.eq(sorted(res.ids), sorted(rids), "series of the trajectory")
    ctx.eq(sorted(ures.ids), sorted(rids), "series of the control")
    ctx.index(res.columns, s.feature_names_in_, "features")
    ctx.index(ures.columns, names, "control names")
    for k in range(n):
        got, gu = res.loc[[rids[k]], :], ures.loc[[rids[k]], :]
        ctx.index_close(got.index, [(rids[k], t) for t in times], "times of the trajectory")
        ctx.index_close(gu.index, [(rids[k], t) for t in times[:-1]], "times of the control")
        if callable(U):
            want = [x0[k]]
            for j in range(steps):
                sol = solve_ivp(lambda t, y: f(t, y, U(t, y[:, None])[0]), (times[j], times[j + 1]), want[-1],
                                method="DOP853", rtol=1e-11, atol=1e-12)
                want.append(sol.y[:, -1])
            want = np.array(want)
            uw = np.concatenate([U(times[j], np.asarray(got)[j][:, None]) for j in range(steps)])
        else:
            want = integrate(f, x0[k], times, u[k])
            uw = u[k]
        ctx.close(np.asarray(got)[0], x0[k], "initial condition", 1e-12, 1e-12)
        sc = 1 + np.abs(want).max()
        ctx.close(np.asarray(got) / sc, want / sc, "trajectory solves the equation", 0, 2e-5)
        ctx.close(np.asarray(gu), uw, "reported control", 1e-9, 1e-10)


def ode(case, ctx):
    r = gen.rng_of(case["seed"], 2)
    name, xm, n = case["sys"], case["xm"], case["n"]
    hor = 1.0
    polar_out = cart_out = False
    if name == "three":
        s, f = S.ThreeStablePoints(), lambda t, x, u: np.array([x[0] - x[0] * x[1], x[0] ** 2 - 2 * x[1]])
    elif name == "lorenz":
        sg, rho, be = np.round(r.uniform(1, 12, 3), 1)
        s = S.Lorenz(sigma=sg, rho=rho, beta=be)
        f = lambda t, x, u: np.array([sg * (x[1] - x[0]), x[0] * (rho - x[2]) - x[1], x[0] * x[1] - be * x[2]])  # noqa: E731
        hor = 0.5
    else:
        mu = float(np.round(r.uniform(-1, 2), 2))
        cart_out, polar_out = case["cart"], case["polar"] or not case["cart"]
        s = S.Hopf(mu=mu, return_cart=cart_out, return_polar=polar_out)

        def f(t, x, u):
            q = mu - x[0] ** 2 - x[1] ** 2
            return np.array([-x[1] + x[0] * q, x[0] + x[1] * q])
    s.ivp_kwargs.update(rtol=1e-8, atol=1e-9)
    nf = s.n_features_in_
    ids = [int(i) for i in (r.permutation(12)[:n] if case["ids"] and xm == "tsc" else np.arange(n))]
    x0 = np.round(r.uniform(-1.2, 1.2, (n, nf)), 2)
    if case["axis"]:
        x0[0, 0] = 0.0
    kw, names = {}, list(s.feature_names_in_)
    given = x0
    if name == "hopf" and case["icpolar"]:
        given = np.column_stack([np.round(r.uniform(0.1, 2, n), 2), np.round(r.uniform(-3, 3, n), 2)])
        if case["intic"]:
            given = np.round(given) + np.array([1.0, 0.0])
        x0 = np.column_stack([given[:, 0] * np.cos(given[:, 1]), given[:, 0] * np.sin(given[:, 1])])
        kw["ic_type"] = "polar"
        names = ["r", "angle"]
    if case["intic"] and xm == "array" and (given == np.round(given)).all():
        given = given.astype(int)
    tk = case["tk"]
    if tk == "scalar":
        tv, times = hor / 4, [0, hor / 4]
    elif tk == "one":
        tv, times = [hor / 4], [0, hor / 4]
    elif tk == "none":
        tv, times = None, [0, 0.01]
    else:
        times = np.round(np.cumsum(r.uniform(0.02, 0.2, case["steps"] + 1)) * hor, 4)
        times = times - times[0] if tk == "zero" else times
        tv = times.copy()
    if xm == "tsc":
        x = InitialCondition.from_array(given, time_value=times[0], feature_names=names, ts_ids=np.array(ids))
    else:
        x = given.copy() if xm == "array" else given.tolist()
    keep = x.copy()
    if name == "hopf" and kw and xm == "list":
        x = np.asarray(x)
    if tv is not None or case["explicit"]:
        kw["time_values"] = tv
    res = s.predict(x, **kw)
    ctx.tag(name, xm, tk, "polar ic" if names[0] == "r" else "")
    ctx.nt(n > 1 and len(times) > 2)
    gen.valid_tsc(ctx, res, "trajectory")
    ctx.ok(keep.equals(x) if xm == "tsc" else np.array_equal(np.asarray(keep), np.asarray(x)), "initial conditions not modified")
    if xm == "tsc":
        ctx.index(x.columns, names, "initial conditions not modified (names)")
    ctx.eq(sorted(res.ids), sorted(ids), "series")
    out = names if name != "hopf" else (["x1", "x2"] if cart_out else []) + (["r", "angle"] if polar_out else [])
    ctx.index(res.columns, out, "features")
    ctx.index(s.get_feature_names_out(), out, "announced features")
    for k in range(n):
        got = res.loc[[ids[k]], :]
        ctx.index_close(got.index, [(ids[k], t) for t in times], "times")
        want = integrate(f, x0[k], times)
        sc = 1 + np.abs(want).max()
        g = np.asarray(got)
        if name != "hopf" or cart_out:
            ctx.close(g[0, :nf], x0[k], "initial condition", 1e-12, 1e-12)
            ctx.close(g[:, :nf] / sc, want / sc, "trajectory solves the equation", 0, 2e-5)
        if polar_out:
            rr, th = g[:, -2], g[:, -1]
            ctx.close(np.column_stack([rr * np.cos(th), rr * np.sin(th)]) / sc, want / sc, "polar coordinates", 0, 2e-5)
            ctx.ok((rr >= 0).all() and (np.abs(th) <= np.pi + 1e-12).all(), "range of polar coordinates")


def motor(case, ctx):
    r = gen.rng_of(case["seed"], 3)
    n, steps = case["n"], case["steps"]
    h = [0.01, 0.005, 0.02][case["h"]]
    t0 = case["t0"]
    times = t0 + h * np.arange(steps + 1)
    ids = [int(i) for i in (r.permutation(12)[:n] if case["ids"] else np.arange(n))]
    x0, u = np.round(r.uniform(-1, 1, (n, 2)), 2), np.round(r.uniform(-3, 3, (n, steps, 1)), 2)
    x = InitialCondition.from_array(x0, time_value=times[0], feature_names=["x1", "x2"], ts_ids=np.array(ids))
    order = list(r.permutation(n)) if case["mix"] else list(range(n))
    idx = pd.MultiIndex.from_arrays([[ids[o] for o in order for _ in range(steps)], list(times[:-1]) * n])
    U = TSCDataFrame(np.concatenate([u[o] for o in order]), index=idx, columns=["u"])
    s = S.DCMotor()
    kw = {"time_values": times} if steps == 1 else {}
    if steps == 1:
        ctx.raises(lambda: s.predict_vectorize(x, U), "single control row needs time values", ValueError)
    res, ures = s.predict_vectorize(x, U, **kw)
    ctx.nt(n > 1 and steps > 1)
    ctx.tag("mixed order" if order != sorted(order) else "", "single" if steps == 1 else "several")
    gen.valid_tsc(ctx, res, "trajectory")
    ctx.index(res.columns, ["x1", "x2"], "features")
    ctx.eq(sorted(res.ids), sorted(ids), "series")
    ctx.ok(U.equals(ures), "control returned")

    def f(x, u):
        return np.array([19.10828025 - 39.3153 * x[0] - 32.2293 * x[1] * u, -3.333333333 - 1.6599 * x[1] + 22.9478 * x[0] * u])
    for k in range(n):
        got = res.loc[[ids[k]], :]
        ctx.index_close(got.index, [(ids[k], t) for t in times], "times")
        want = [x0[k]]
        for j in range(steps):
            y, v = want[-1], u[k, j, 0]
            k1 = f(y, v)
            k2 = f(y + h / 2 * k1, v)
            k3 = f(y + h / 2 * k2, v)
            k4 = f(y + h * k3, v)
            want.append(y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4))
        ctx.close(np.asarray(got), np.array(want), "Runge-Kutta scheme of order four", 1e-9, 1e-10)
    ctx.raises(lambda: s.predict_vectorize(x, U.loc[[ids[0]], :] if n > 1 else
                                           TSCDataFrame(np.zeros((2, 1)), index=pd.MultiIndex.from_arrays([[90, 91], [0, 0]]), columns=["u"]),
                                           time_values=times), "different number of series", ValueError)


def closed(case, ctx):
    r = gen.rng_of(case["seed"], 4)
    n = case["n"]
    t = np.round(np.cumsum(r.uniform(0.01, 0.2, case["steps"] + 1)), 3)
    ctx.nt(n > 1)
    # pendulum
    m, length, fr, g = np.round(r.uniform(0.5, 2, 4), 2)
    x0 = np.round(r.uniform(-2, 2, (n, 2)), 2)
    p = S.Pendulum(mass_kg=m, length_rod_m=length, friction=fr, gravity=g)
    res = p.predict(x0[0] if n == 1 and case["steps"] % 2 else x0, time_values=t)
    gen.valid_tsc(ctx, res, "pendulum")
    ctx.index(res.columns, ["theta", "dot_theta", "x", "y"], "pendulum features")
    for k in range(n):
        got = res.loc[[k], :]
        ctx.index_close(got.index, [(k, q) for q in t], "pendulum times")
        want = integrate(lambda t, x, u: np.array([x[1], -fr / m * x[1] - g / length * np.sin(x[0])]), x0[k], t)
        ctx.close(np.asarray(got)[:, :2], want, "pendulum", 1e-5, 1e-5)
        th = np.asarray(got)[:, 0]
        ctx.close(np.asarray(got)[:, 2:], np.column_stack([length * np.sin(th), length - length * np.cos(th)]), "position of the mass")
    # closed curve
    c = [int(v) for v in r.integers(1, 6, 5)]
    got = S.ClosedPeriodicalCurve(consts=c).predict(None, t)
    want = np.column_stack([np.sin(c[0] * t) * np.cos(c[1] * t), np.sin(c[2] * t) * np.sin(c[3] * t), np.sin(c[4] * t)])
    ctx.close(got.to_numpy(), want, "closed curve")
    ctx.close(got.index.to_numpy(), t, "closed curve times")
    # limit cycle
    eps, dt = float(np.round(r.uniform(0.3, 3), 2)), 0.05
    k = case["steps"] + 1
    y0 = np.round(r.uniform(0.2, 1.5, 2), 2) * r.choice([-1, 1], 2)
    an = S.LimitCycle(eps=eps).predict(x1=y0[0], x2=y0[1], dt=dt, nr_steps=k)
    ts = dt * np.arange(k)
    r0 = np.hypot(*y0)
    a0 = np.arctan2(y0[1], y0[0]) % (2 * np.pi)
    want = integrate(lambda t, x, u: np.array([1 / eps, x[1] - x[1] ** 3]), [a0, r0], ts)
    ctx.close(an.to_numpy(), want, "limit cycle", 1e-6, 1e-6)
    ctx.close(an.index.to_numpy(), ts, "limit cycle times")
    te = S.LimitCycle(eps=eps).predict(x1=y0[0], x2=y0[1], t_eval=ts) if k > 1 else an
    ctx.close(te.to_numpy(), an.to_numpy(), "limit cycle by evaluation times")
    # trigonometric representation
    ids = [int(i) for i in r.permutation(9)[:n]]
    xs = np.round(r.uniform(-3, 3, (n * k, 4)), 2)
    idx = pd.MultiIndex.from_product([ids, range(k)])
    for s in (S.InvertedPendulum(), S.InvertedPendulum2()):
        x = TSCDataFrame(xs, index=idx, columns=s.feature_names_in_)
        tr = s.theta_to_trigonometric(x.copy())
        for a, col in (("theta", 2), ("thetadot", 3)):
            ctx.close(tr[[a + "_cos", a + "_sin"]].to_numpy(), np.column_stack([np.cos(xs[:, col]), np.sin(xs[:, col])]), a)
        back = s.trigonometric_to_theta(tr)
        ctx.index(back.index, x.index, "index")
        ctx.index(back.columns, x.columns, "columns")
        ctx.close(back.to_numpy(), xs, "round trip")


SYS = ["lin", "lin", "vdp", "vdpx", "vdpy", "duffing", "motor", "burger", "pend", "pend2"]
SUBS = [
    Sub("control", st.fixed_dictionaries({
        "seed": SEED, "sys": st.sampled_from(SYS), "mode": st.sampled_from(["none", "array", "onestep", "tsc", "tsc", "tsc1", "call"]),
        "xm": st.sampled_from(["1d", "2d", "tsc"]), "n": st.integers(1, 3), "steps": st.integers(2, 5), "ids": st.booleans(),
        "mix": st.booleans(), "giventime": st.booleans(), "flat": st.booleans(), "t0": st.sampled_from([0.0, 0.5, 2.0])}),
        control, "several steps and several series or channels", 420, 3000, 6),
    Sub("ode", st.fixed_dictionaries({
        "seed": SEED, "sys": st.sampled_from(["three", "lorenz", "hopf", "hopf"]), "xm": st.sampled_from(["array", "list", "tsc"]),
        "n": st.integers(1, 3), "steps": st.integers(1, 4), "ids": st.booleans(), "cart": st.booleans(), "polar": st.booleans(),
        "icpolar": st.booleans(), "intic": st.booleans(), "axis": st.booleans(), "explicit": st.booleans(),
        "tk": st.sampled_from(["scalar", "one", "none", "zero", "grid"])}), ode, "several series and times", 500, 4000, 4),
    Sub("motor", st.fixed_dictionaries({"seed": SEED, "n": st.integers(1, 4), "steps": st.integers(1, 5), "ids": st.booleans(),
                                        "mix": st.booleans(), "h": st.integers(0, 2), "t0": st.sampled_from([0.0, 0.5])}),
        motor, "several series and steps", 500, 5000, 2),
    Sub("closed", st.fixed_dictionaries({"seed": SEED, "n": st.integers(1, 3), "steps": st.integers(0, 5)}), closed,
        "several series", 300, 3000, 2),
]
ASSUMPTIONS = ["The inverted pendulums document no equation; their own vector field is the reference (input, times, labels are checked).",
               "Solver tolerances are tightened to 1e-8 to compare with an independent integration (2e-5)."]
