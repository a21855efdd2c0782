"""C16: linear system evolution."""
import numpy as np
import scipy.integrate
import scipy.interpolate
from hypothesis import strategies as st

from datafold.dynfold.dynsystem import LinearDynamicalSystem
from vh import gen
from vh.core import Sub

UNITS = [1, 2, 1.0, 0.5, 0.1, 0.01, 0.3]


def matrix(case, rng):
    n, kind = case["n"], case["mat"]
    a = gen.stable_matrix(rng, n, lo=0.5, hi=1.05)
    if kind == "negative":
        a = gen.stable_matrix(rng, n, real=True)
        w, v = np.linalg.eig(a)
        w = w * np.where(np.arange(n) % 2 == 0, -1, 1)
        a = np.real(v @ np.diag(w) @ np.linalg.inv(v))
    if kind == "singular":
        w, v = np.linalg.eig(gen.stable_matrix(rng, n, real=True))
        w = w.copy()
        w[0] = 0
        a = np.real(v @ np.diag(w) @ np.linalg.inv(v))
    return a


common = dict(n=st.integers(1, 5), nic=st.integers(1, 4), dt=st.sampled_from(UNITS), seed=gen.seeds(),
              ids=st.lists(st.integers(0, 20), min_size=4, max_size=4, unique=True), names=st.booleans(), defaults=st.booleans())


def labels(case, n, nic):
    ids = case["ids"][:nic]
    names = [f"q{n - j}" for j in range(n)] if case["names"] else list(range(n))
    kw = {} if case["defaults"] else dict(time_series_ids=np.array(ids), feature_names_out=names)
    if case["defaults"]:
        ids, names = list(range(nic)), list(range(n))
    return ids, names, kw


def verify(ctx, x, ids, times, names, ref, what, rtol=1e-8, atol=1e-9):
    """ref[i][k] state of initial condition i at time k"""
    gen.valid_tsc(ctx, x, what)
    ctx.index(x.columns, names, what + ": features")
    order = list(range(len(ids)))
    if [int(i) for i in x.index.get_level_values(0)[::len(times)]] != list(ids):  # rows may be sorted by ID
        order = sorted(order, key=lambda k: ids[k])
    rows = [(ids[k], t) for k in order for t in times]
    ref = [ref[k] for k in order]
    ctx.index_close(x.index, rows, what + ": rows")
    want = np.array([s for r in ref for s in r])
    ctx.ok(np.isrealobj(x.to_numpy()), what + ": real")
    ctx.close(x.to_numpy(), want, what, rtol, atol * max(1.0, np.abs(want).max()))


def run_free(case, ctx):
    rng = gen.rng_of(case["seed"])
    n, nic, dt = case["n"], case["nic"], case["dt"]
    a = matrix(case, rng)
    x0 = rng.normal(size=(n, nic))
    ticks = sorted(set(case["ticks"]))
    half = case["half"] and case["mat"] == "plain" and isinstance(dt, float)
    steps = [k / 2 for k in ticks] if half else ticks
    times = np.array([k * dt for k in steps])
    flow, spectral = case["flow"], case["spectral"]
    ctx.tag(f"{'flowmap' if flow else 'differential'}-{'spectral' if spectral else 'matrix'}", case["mat"], f"half:{half}")
    w, v = np.linalg.eig(a)
    if np.linalg.cond(v) > 1e6:
        return
    ctx.nt(nic > 1 and n > 1)
    vi = np.linalg.inv(v)
    if flow:
        sysm = a

        def state(k, x):
            if k == int(k):
                for _ in range(int(k)):
                    x = a @ x
                return x
            return np.real(v @ np.diag(w.astype(complex) ** k) @ vi @ x)
    else:
        g = a - np.eye(n)
        w = w - 1
        sysm = g

        def state(k, x):
            return np.real(v @ np.diag(np.exp(w * k * dt)) @ vi @ x)
    ref = [[state(k, x0[:, i]) for k in steps] for i in range(nic)]
    ids, names, kw = labels(case, n, nic)
    s = LinearDynamicalSystem("flowmap" if flow else "differential", "spectral" if spectral else "matrix")
    ctx.raises(lambda: s.is_linear_system_setup(raise_error_if_not_setup=True), "not set up", RuntimeError)
    proj = None
    if case["project"] and spectral:
        proj = rng.normal(size=(case["project"], n))
        ref = [[proj @ q for q in r] for r in ref]
        names = [f"p{j}" for j in range(len(proj))] if not case["defaults"] else list(range(len(proj)))
        if not case["defaults"]:
            kw["feature_names_out"] = names
    if spectral:
        left = vi if case["left"] else None
        s.setup_spectral_system(eigenvectors_right=v, eigenvalues=w, eigenvectors_left=left)
        ic = s.compute_spectral_system_states(x0)
        ctx.close(v @ ic, x0, "spectral states", 1e-8, 1e-8)
        over = None if proj is None else proj @ v
    else:
        s.setup_matrix_system(sysm)
        ctx.raises(lambda: s.compute_spectral_system_states(x0), "spectral states of a matrix system", AttributeError)
        ic, over = x0, None
    ic0, t0 = np.array(ic, copy=True), times.copy()
    sm0 = np.array(sysm, copy=True)
    if nic == 1 and case["half"]:
        ic = ic[:, 0]
    tv = times if case["left"] else times.tolist()
    if len(times) == 1 and case["defaults"]:
        tv = times[0]
    got = s.evolve_system(ic, time_values=tv, time_delta=dt if flow else None, overwrite_sys_matrix=over, **kw)
    verify(ctx, got, ids, times, names, ref, "evolution", 1e-7, 1e-8)
    ctx.ok((np.asarray(ic).reshape(ic0.shape) == ic0).all() and (times == t0).all() and (sysm == sm0).all(), "inputs unchanged")
    again = s.evolve_system(ic, time_values=tv, time_delta=dt if flow else None, overwrite_sys_matrix=over, **kw)
    ctx.ok((again.to_numpy() == got.to_numpy()).all(), "repeatable")


def run_control(case, ctx):
    rng = gen.rng_of(case["seed"])
    n, nic, q, nt = case["n"], case["nic"], case["q"], case["nt"]
    dt = case["dt"]
    a = gen.stable_matrix(rng, n, lo=0.5, hi=1.0)
    b = rng.normal(size=(n, q))
    x0 = rng.normal(size=(n, nic))
    u = rng.normal(size=(nic, nt - 1, q))
    start = case["start"]
    times = np.array([(start + k) * dt for k in range(nt)])
    kind = case["kind"]
    ctx.tag(kind)
    ctx.nt(nic > 1 and q > 1 and nt > 2)
    ids, names, kw = labels(case, n, nic)
    ref = []
    w, v = np.linalg.eig(a)
    if np.linalg.cond(v) > 1e5:
        return
    for i in range(nic):
        x, r = x0[:, i], [x0[:, i]]
        for k in range(nt - 1):
            if kind == "differential":
                g = a - 1.5 * np.eye(n)
                e = np.real(v @ np.diag(np.exp((w - 1.5) * dt)) @ np.linalg.inv(v))
                x = e @ x + np.linalg.solve(g, (e - np.eye(n)) @ b @ u[i, k])
            else:
                x = a @ x + b @ u[i, k]
            r.append(x)
        ref.append(r)
    if kind == "spectral":
        s = LinearDynamicalSystem("flowmap", "spectral", is_controlled=True)
        s.setup_spectral_system(eigenvectors_right=v, eigenvalues=w, eigenvectors_left=np.linalg.inv(v), control_matrix=b)
        ic = s.compute_spectral_system_states(x0)
    else:
        s = LinearDynamicalSystem("flowmap" if kind == "matrix" else "differential", "matrix", is_controlled=True)
        s.setup_matrix_system(a if kind == "matrix" else a - 1.5 * np.eye(n), control_matrix=b)
        ic = x0
    uu = u.copy()
    if nic == 1 and case["names"]:
        uu = uu[0]
    got = s.evolve_system(ic, time_values=times, control_input=uu, time_delta=dt, **kw)
    verify(ctx, got, ids, times, names, ref, "controlled evolution", 1e-7, 1e-8)
    ctx.ok((uu.reshape(u.shape) == u).all(), "control unchanged")
    # invalid control input
    V = (ValueError,)
    ctx.raises(lambda: s.evolve_system(ic, time_values=times, control_input=u[:, :-1] if nt > 2 else np.zeros((nic, nt + 1, q)),
                                       time_delta=dt, **kw), "wrong number of control samples", V)
    ctx.raises(lambda: s.evolve_system(ic, time_values=times, control_input=np.concatenate([u, u[:1]]), time_delta=dt, **kw),
               "wrong number of initial conditions in the control input", V)
    ctx.raises(lambda: s.evolve_system(ic, time_values=times, control_input=np.concatenate([u, u], axis=2), time_delta=dt, **kw),
               "wrong number of control features", V)
    ctx.raises(lambda: s.evolve_system(ic, time_values=times, time_delta=dt, **kw), "missing control input")


def run_affine(case, ctx):
    rng = gen.rng_of(case["seed"])
    n, nic, q, nt, dt = case["n"], case["nic"], case["q"], case["nt"] + 3, 0.1
    a = gen.stable_matrix(rng, n, lo=0.5, hi=1.0) - 1.2 * np.eye(n)
    b = rng.normal(size=(n, n, q)) * 0.5
    x0 = rng.normal(size=(n, nic))
    times = np.arange(nt) * dt
    ph = rng.uniform(0, 6, size=(nic, q))
    u = np.sin(2 * times[None, :, None] + ph[:, None, :])
    ids, names, kw = labels(case, n, nic)
    ctx.nt(nic > 1 and q > 1)
    s = LinearDynamicalSystem("differential", "matrix", is_controlled=True, is_control_affine=True)
    s._requires_last_control_state = True
    s.setup_matrix_system(a, control_matrix=b)
    got = s.evolve_system(x0, time_values=times, control_input=u, **kw)
    ref = []
    for i in range(nic):
        f = scipy.interpolate.CubicSpline(times, u[i], axis=0)
        sol = scipy.integrate.solve_ivp(lambda t, x: (a + b @ f(t)) @ x, (times[0], times[-1]), x0[:, i], method="DOP853", t_eval=times,
                                        rtol=1e-10, atol=1e-12)
        ref.append(sol.y.T)
    verify(ctx, got, ids, times, names, ref, "affine controlled evolution", 1e-2, 1e-2)


def run_errors(case, ctx):
    rng = gen.rng_of(case["seed"])
    n = case["n"] + 1
    a = gen.stable_matrix(rng, n)
    x0 = rng.normal(size=(n, 2))
    ctx.nt()
    V = (ValueError, TypeError)
    s = LinearDynamicalSystem("flowmap", "matrix").setup_matrix_system(a)
    t = np.arange(3)
    ctx.raises(lambda: s.evolve_system(x0[:-1], time_values=t, time_delta=1), "state length", V)
    ctx.raises(lambda: s.evolve_system(x0, time_values=t), "time_delta missing", V)
    for bad in (0, -1, -0.5, np.array([1, 2])):
        ctx.raises(lambda: s.evolve_system(x0, time_values=t, time_delta=bad), f"time_delta={bad}", V)
    ctx.raises(lambda: s.evolve_system(x0, time_values=t, time_delta=1, time_series_ids=[1, 1]), "duplicated IDs")
    ctx.raises(lambda: s.evolve_system(x0, time_values=t, time_delta=1, time_series_ids=[1]), "missing ID")
    ctx.raises(lambda: s.evolve_system(x0, time_values=t, time_delta=1, feature_names_out=["a"] * n), "duplicated names")
    ctx.raises(lambda: s.evolve_system(x0, time_values=t, time_delta=1, feature_names_out=list(range(n + 1))), "names", V)
    ctx.raises(lambda: s.evolve_system(x0, time_values=t[:, None], time_delta=1), "time values", V)
    ctx.raises(lambda: LinearDynamicalSystem("flow", "matrix"), "type", V)
    ctx.raises(lambda: LinearDynamicalSystem("flowmap", "matrices"), "mode", V)
    ctx.raises(lambda: LinearDynamicalSystem("flowmap", "spectral").setup_matrix_system(a).evolve_system(
        x0, time_values=t, time_delta=1), "matrix in a spectral system", Exception)
    ctx.raises(lambda: LinearDynamicalSystem("flowmap", "matrix").setup_spectral_system(a, np.ones(n)), "spectral setup", RuntimeError)
    ctx.raises(lambda: LinearDynamicalSystem("flowmap", "matrix").setup_matrix_system(a, control_matrix=a), "control", V)
    ctx.raises(lambda: LinearDynamicalSystem("flowmap", "matrix", is_controlled=True).setup_matrix_system(a, control_matrix=a[:-1]), "control rows", V)
    ctx.raises(lambda: LinearDynamicalSystem("flowmap", "spectral").setup_spectral_system(a, np.ones(n - 1)), "eigenvalues", V)


def d(**kw):
    return st.fixed_dictionaries({**common, **kw})


SUBS = [
    Sub("free", d(mat=st.sampled_from(["plain", "plain", "negative", "singular"]), flow=st.booleans(), spectral=st.booleans(),
                  ticks=st.lists(st.integers(0, 12), min_size=1, max_size=6), half=st.booleans(), left=st.booleans(),
                  project=st.sampled_from([0, 0, 1, 3])), run_free, "several states and initial conditions", quick=2500, thorough=40000, shards=4),
    Sub("controlled", d(q=st.integers(1, 3), nt=st.integers(2, 6), start=st.integers(0, 3), kind=st.sampled_from(["matrix", "spectral", "differential"])),
        run_control, "several initial conditions, control inputs and steps", quick=1500, thorough=20000, shards=2),
    Sub("affine", d(q=st.integers(1, 3), nt=st.integers(2, 6)), run_affine, "several initial conditions and inputs", quick=250, thorough=3000),
    Sub("errors", d(), run_errors, "every case", quick=40, thorough=300),
]
ASSUMPTIONS = ["uncontrolled systems: time values count from zero (x(t) = A^(t/dt) x0); controlled systems start at the first time value",
               "controlled differential systems hold the input constant within a time step; affine systems interpolate it (tolerance 1e-2, RK23)"]
