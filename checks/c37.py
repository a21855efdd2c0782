"""C37: dictionary learning (neural network dictionaries of EDMD) against an independent training loop."""
import copy
import pickle
import warnings

import numpy as np
import torch
from hypothesis import strategies as st
from sklearn.base import clone

from datafold import EDMD, TSCDataFrame
from datafold.dynfold import TSCIdentity, TSCPolynomialFeatures
from datafold.dynfold.dictlearning import DMDDictLearning, EarlyStopping, FeedforwardNN
from datafold.pcfold.timeseries.collection import TSCException
from vh import dyn, gen
from vh.core import Sub

torch.set_num_threads(1)
E = (ValueError, TypeError, TSCException, AttributeError)
QUIET = {"with_tqdm": False}


def schedule(name):
    s = torch.optim.lr_scheduler
    return {None: None, "exp": lambda o: s.ExponentialLR(o, 0.5), "step": lambda o: s.StepLR(o, 1, gamma=0.1),
            "plateau": lambda o: s.ReduceLROnPlateau(o, factor=0.1, patience=0)}[name]


def network(case, **kw):
    par = dict(hidden_size=case["hidden"], n_hidden_layer=case["layers"], n_dict_elements=case["ne"], include_id_state=case["id"],
               loss_with_inverse_map=case["inv"], learning_rate=case["lr"], n_epochs=case["epochs"], batch_size=case["batch"],
               loss_regularization=case["lreg"], sys_regularization=case["sreg"], random_state=case["rs"],
               use_dtype=torch.float32 if case.get("single") else torch.float64)
    par.update(kw)
    return FeedforwardNN(**par)


def forward(net, x):
    """dense layers with tanh in between, evaluated from the weights only"""
    w = [p.detach().numpy() for p in net.parameters()]
    for i in range(0, len(w), 2):
        x = x @ w[i].T + w[i + 1]
        if i < len(w) - 2:
            x = np.tanh(x)
    return x


def augment(case, x, psi):
    one = torch.ones(len(x), 1, dtype=psi.dtype)
    return torch.cat(([x] if case["id"] else []) + [one, psi], dim=1)


def names(case, cols):
    return (list(cols) if case["id"] else []) + ["const"] + [f"psi{i}" for i in range(case["ne"])]


def system(case, spec, psi):
    l, r = dyn.pairs(spec, psi)
    g, a = l.T @ l / len(psi), l.T @ r / len(psi)
    return g + case["sreg"] * np.eye(len(g)), a


def loss(case, now, k, nxt, inv, x):
    out = torch.mean((nxt - now @ k) ** 2)
    if case["lreg"] > 0:
        out = out + case["lreg"] * torch.sqrt(torch.sum(k ** 2))
    if case["inv"]:
        out = out + torch.mean((now @ inv - x) ** 2)
    return out


def reference(case, net, spec, xv, vspec, vv):
    """alternate between the system matrix and a full-batch step; returns losses, or None if ill-conditioned"""
    opt = torch.optim.Adam(net.parameters(), lr=case["lr"])
    sched = schedule(case["sched"])
    sched = sched(opt) if sched else None
    x = torch.tensor(xv)
    left = torch.tensor(dyn.pairs(spec, xv)[0])
    fit, val, best, count = [], [], None, 0
    for _ in range(case["epochs"]):
        with torch.no_grad():
            psi = augment(case, x, net(x)).numpy()
        g, a = system(case, spec, psi)
        if np.linalg.cond(g) > 1e8 or (case["inv"] and np.linalg.cond(psi) > 1e6):
            return None
        k = torch.tensor(np.linalg.solve(g, a))
        inv = torch.tensor(np.linalg.lstsq(psi, xv, rcond=None)[0])
        nxt = torch.tensor(dyn.pairs(spec, psi)[1])
        opt.zero_grad()
        value = loss(case, augment(case, left, net(left)), k, nxt, inv, left)
        value.backward()
        if case["lr"] > 0 and any(0 < p.grad.abs().min() < 1e-9 for p in net.parameters()):
            return None  # Adam is sensitive to gradients at rounding level
        opt.step()
        fit.append(value.item())
        if vv is not None:
            l, r = (torch.tensor(i) for i in dyn.pairs(vspec, vv))
            with torch.no_grad():
                val.append(loss(case, augment(case, l, net(l)), k, augment(case, r, net(r)), inv, l).item())
        if sched:
            sched.step(*([val[-1]] if case["sched"] == "plateau" else []))
        if case["stop"] and vv is not None:  # patience: epochs without improvement
            if best is None or val[-1] <= best:
                best, count = val[-1], 0
            else:
                count += 1
                if abs(val[-1] - best) < 1e-9 * (1 + abs(best)):
                    return None
            if count >= case["stop"]:
                break
    return fit, val


def training(case, ctx):
    spec, vspec = case["x"], case["v"]
    r = gen.rng_of(case["seed"], 1)
    p = len(spec["cols"])
    xv = r.normal(size=(len(gen.rows(spec)), p))
    X = gen.build(spec, xv)
    npairs = len(dyn.pairs(spec, xv)[0])
    vv = V = None
    if case["val"]:
        vspec = dict(vspec, cols=spec["cols"])
        vv = r.normal(size=(len(gen.rows(vspec)), p))
        V = gen.build(vspec, vv)
    full = case["batch"] >= npairs and (vv is None or case["batch"] >= len(dyn.pairs(vspec, vv)[0]))
    if not case["val"]:
        case = dict(case, stop=None, sched=None if case["sched"] == "plateau" else case["sched"])
    fp = dict(with_tqdm=case["bar"], record_losses=case["rec"])
    if V is not None:
        fp["X_val"] = V
    if case["sched"]:
        fp["lr_scheduler"] = schedule(case["sched"])
    if case["stop"]:
        fp["early_stopping"] = {"patience": case["stop"]}
    ctx.tag("full batch" if full else "mini batches", f"scheduler {case['sched']}", "early stopping" if case["stop"] else "all epochs",
            "id" if case["id"] else "no id", "reconstruction loss" if case["inv"] else "prediction loss", "unequal" if gen.unequal_len(spec) else "equal")
    single = case["single"]
    tol = 1e-3 if single else 1e-8
    m = network(case)
    p0 = m.get_params()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if case["refit"]:
            m.fit(gen.build(spec, r.normal(size=xv.shape)), **fp)
        ctx.ok(m.fit(X, **fp) is m, "fit returns the model")
    ctx.eq(str(m.get_params()), str(p0), "parameters are not modified")
    ctx.close(X.to_numpy(), xv, "training data not modified", 0, 0)

    # the dictionary
    cols = names(case, spec["cols"])
    ctx.index(m.get_feature_names_out(), cols, "announced names")
    ctx.eq((m.n_features_in_, m.n_features_out_), (p, len(cols)), "number of features")
    t = m.transform(X)
    gen.valid_tsc(ctx, t, "dictionary")
    ctx.index(t.columns, cols, "names")
    ctx.index_close(t.index, list(X.index), "rows")
    k = p if case["id"] else 0
    if k:
        ctx.close(t.to_numpy()[:, :k], xv, "original states", tol, tol)
    ctx.close(t.to_numpy()[:, k], np.ones(len(xv)), "constant", 0, 0)
    ctx.close(t.to_numpy()[:, k + 1:], forward(m.method, xv), "feed-forward network", tol, tol)
    ctx.eq(m.n_params, sum(q.numel() for q in m.method.parameters()), "number of weights")
    one = X.iloc[[len(xv) // 2], :]
    ctx.close(m.transform(one).to_numpy(), t.to_numpy()[[len(xv) // 2]], "samples are independent", tol, tol)
    ctx.raises(lambda: m.transform(X.rename(columns={spec["cols"][0]: "other"})), "feature names", E)

    # the system matrix belongs to the final dictionary
    g, a = system(case, spec, t.to_numpy().astype(float))
    K = m.system_matrix_.T.astype(float)
    ctx.eq(K.shape, g.shape, "shape of the system matrix")
    sc = np.linalg.norm(g) * np.linalg.norm(K) + np.linalg.norm(a)
    ctx.close((g @ K) / sc, a / sc, "normal equations of the system matrix", tol, tol)

    # repeatable with a random state
    n = clone(m)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        n.fit(X, **fp)
    ctx.close(n.transform(X).to_numpy(), t.to_numpy(), "same random state", tol, tol)
    q = pickle.loads(pickle.dumps(m))
    ctx.close(q.transform(X).to_numpy(), t.to_numpy(), "pickled dictionary", 0, 0)
    if case["rec"]:
        ctx.close(n.fit_losses_, m.fit_losses_, "same losses", tol, tol)
        ctx.ok(len(m.fit_losses_) == case["epochs"] or case["stop"], "number of losses")
        ctx.ok(np.isfinite(m.fit_losses_).all(), "losses are recorded")
        if V is not None:
            ctx.ok(len(m.val_losses_) == len(m.fit_losses_) and np.isfinite(m.val_losses_).all(), "validation losses are recorded")
    if single or not full:
        ctx.nt(not full and case["epochs"] > 1)
        return
    init = network(case, learning_rate=0.0, n_epochs=1).fit(X, **QUIET)
    net = copy.deepcopy(init.method)
    want = reference(case, net, spec, xv, vspec, vv)
    if want is None:
        return ctx.tag("ill-conditioned")
    ctx.nt(case["epochs"] > 1)
    ctx.close(t.to_numpy()[:, k + 1:], forward(net, xv), "dictionary after training", 1e-4, 1e-5)
    if case["rec"]:
        ctx.close(m.fit_losses_, want[0], "training losses", 1e-4, 1e-7)
        if V is not None:
            ctx.close(m.val_losses_, want[1], "validation losses", 1e-4, 1e-7)


# ------------------------------------------------------------------ EDMD with learned dictionary

def edmd(case, ctx):
    spec = case["x"]
    r = gen.rng_of(case["seed"], 2)
    p = len(spec["cols"])
    a = gen.stable_matrix(r, p)
    xv = dyn.free_values(spec, a, r)[0] + 0.3 * r.normal(size=(len(gen.rows(spec)), p))
    X = gen.build(spec, xv)
    net = network(case)
    steps = [("id", TSCIdentity())]
    if case["poly"]:
        steps = [("poly", TSCPolynomialFeatures(degree=2, include_bias=False, include_first_order=True))]
    dmd = DMDDictLearning(net, sys_mode=case["mode"], is_diagonalize=case["diag"])
    m = EDMD(steps, dmd_model=dmd, include_id_state=False, dict_preserves_id_state=case["keep"], stepwise_transform=case["stepwise"])
    fp = {"dmd__with_tqdm": False}
    ctx.tag(case["mode"], "id" if case["id"] else "no id", "stepwise" if case["stepwise"] else "linear", f"history {case['hist']}")
    if case["hist"] == "refit":
        m.fit(gen.build(spec, r.normal(size=xv.shape)), **fp)
    elif case["hist"] == "clone":
        m = clone(m.fit(gen.build(spec, r.normal(size=xv.shape)), **fp))
    ctx.ok(m.fit(X, **fp) is m, "fit returns the model")
    if case["hist"] == "pickle":
        m = pickle.loads(pickle.dumps(m))
    ctx.close(X.to_numpy(), xv, "training data not modified", 0, 0)
    # dictionary and system matrix of the pipeline
    if case["poly"]:
        z = steps[0][1].fit_transform(X)
    else:
        z = X
    lonely = network(case).fit(z, **QUIET)
    psi = lonely.transform(z)
    d = m.transform(X)
    ctx.index(d.columns, list(psi.columns), "names of the dictionary")
    ctx.index_close(d.index, list(X.index), "rows of the dictionary")
    ctx.close(d.to_numpy(), psi.to_numpy(), "dictionary", 1e-7, 1e-8)
    K = np.asarray(lonely.system_matrix_)
    P = psi.to_numpy()
    exact = case["id"] and case["keep"] == "infer"
    if not exact and np.linalg.cond(P) > 1e6:
        return ctx.tag("ill-conditioned")
    ev, vec = np.linalg.eig(K)
    if case["mode"] == "spectral" and np.linalg.cond(vec) > 1e5:
        return ctx.tag("defective")
    if exact:
        B = np.zeros((P.shape[1], p))
        B[[list(psi.columns).index(c) for c in spec["cols"]], range(p)] = 1
    else:
        B = np.linalg.lstsq(P, xv, rcond=None)[0]
    ctx.ok(bool(m.dict_preserves_id_state_) == (case["keep"] == "infer" and case["id"]), "original state in the dictionary")
    dt = dyn.dt(spec)
    n = case["steps"]
    q = r.normal(size=(2, p)) * 0.5
    t0 = np.asarray(X.time_values())[0]
    ic = TSCDataFrame.from_array(q[0], time_values=[t0], feature_names=spec["cols"], ts_id=3)
    ic2 = TSCDataFrame.from_array(q[1], time_values=[t0], feature_names=spec["cols"], ts_id=7)
    IC = TSCDataFrame.from_frame_list([ic.loc[3], ic2.loc[7]], ts_ids=[3, 7])
    tv = np.array([t0 + i * dt for i in range(n)])
    got = m.predict(IC, time_values=tv)
    gen.valid_tsc(ctx, got, "prediction")
    ctx.index(got.columns, list(spec["cols"]), "predicted features")
    ctx.index_close(got.index, [(i, s) for i in (3, 7) for s in tv], "predicted rows", 1e-7)

    def lift(v):
        f = TSCDataFrame.from_array(v, time_values=[t0], feature_names=spec["cols"])
        return lonely.transform(steps[0][1].transform(f) if case["poly"] else f).to_numpy()[0]

    for j, i in enumerate((3, 7)):
        s, out = lift(q[j]), [lift(q[j]) @ B]
        for _ in range(n - 1):
            s = K @ s
            out.append(s @ B)
            if case["stepwise"]:
                s = lift(s @ B)
        want = np.array(out)
        if np.abs(want).max() > 1e3:
            return ctx.tag("diverging")
        rows = np.asarray(got)[j * n:(j + 1) * n]
        first = 1 if case["stepwise"] else 0  # stepwise predictions include the given state itself
        ctx.close(rows[first:], want[first:], "evolution of the dictionary", 1e-5, 1e-5)
    ctx.nt(n > 2)
    for i, w in [(i, np.abs(ev - i).min()) for i in (m.koopman_eigenvalues if case["mode"] == "spectral" else [])]:
        ctx.ok(w < 1e-6 * (1 + abs(i)), "eigenvalues of the learned system matrix")


# ------------------------------------------------------------------ parameters and early stopping

def stopping(case, ctx):
    """the documented stopping rule on arbitrary loss sequences"""
    s = EarlyStopping(patience=case["patience"], delta=case["delta"])
    best, count, done = None, 0, False
    for i, v in enumerate(case["losses"]):
        s.update(v)
        if best is not None and v > best + case["delta"]:
            count += 1
            done = done or count >= case["patience"]
        else:
            best, count = v, 0
        ctx.eq(bool(s.is_stop()), done, f"stop after loss {i}")
    ctx.nt(done)


def invalid(case, ctx):
    spec = case["x"]
    X = gen.build(spec)
    base = dict(hidden_size=2, n_epochs=1, n_dict_elements=2)
    bad = [dict(n_dict_elements=0), dict(n_dict_elements=1.5), dict(n_epochs=0), dict(sys_regularization=-0.1), dict(loss_regularization=-1.0)]
    kw = bad[case["which"] % len(bad)]
    ctx.tag(str(kw))
    ctx.raises(lambda: FeedforwardNN(**{**base, **kw}).fit(X, **QUIET), f"{kw}", (ValueError, TypeError))
    m = FeedforwardNN(**base)
    ctx.raises(lambda: m.fit(X, early_stopping={"patience": 1}, **QUIET), "early stopping without validation data", ValueError)
    ctx.raises(lambda: m.fit(X, lr_scheduler=schedule("plateau"), **QUIET), "scheduler without validation data", ValueError)
    ctx.raises(lambda: m.fit(X, unknown=1, **QUIET), "unknown argument", (ValueError, KeyError))
    ctx.raises(lambda: DMDDictLearning(m, sys_type="differential").fit(X, **QUIET), "type of the system", ValueError)
    bad = X.copy()
    bad.iloc[0, 0] = np.nan
    e = EDMD([("id", TSCIdentity())], dmd_model=DMDDictLearning(m), include_id_state=False)
    ctx.raises(lambda: e.fit(bad, dmd__with_tqdm=False), "missing values", E)
    ctx.nt(len(spec["ser"]) > 1)


SEED = gen.seeds()
NET = {"seed": SEED, "hidden": st.integers(1, 6), "layers": st.integers(0, 2), "ne": st.integers(1, 4), "id": st.booleans(), "inv": st.booleans(),
       "lr": st.sampled_from([1e-4, 1e-2, 0.1, 1.0]), "epochs": st.integers(1, 4), "batch": st.sampled_from([100, 100, 50, 3, 7]),
       "lreg": st.sampled_from([0.0, 0.0, 0.1, 2.0]), "sreg": st.sampled_from([0.0, 0.1, 0.01, 1.0]), "rs": st.integers(0, 1000)}
TRAIN = st.fixed_dictionaries(dict(NET, x=dyn.grid(min_series=1, max_series=3, min_len=4, max_len=9, max_feat=3), v=dyn.grid(min_series=1, max_series=2, min_len=2, max_len=6, kinds=("int",), max_feat=1),
                                   val=st.sampled_from([True, True, False]), sched=st.sampled_from([None, "exp", "step", "plateau"]), stop=st.sampled_from([None, 1, 2]),
                                   rec=st.sampled_from([True, True, False]), bar=st.booleans(), refit=st.sampled_from([False, False, True]), single=st.sampled_from([False] * 5 + [True])))
EDMDS = st.fixed_dictionaries(dict(NET, x=dyn.grid(min_series=1, max_series=3, min_len=6, max_len=10, max_feat=2), poly=st.sampled_from([False, False, True]), mode=st.sampled_from(["spectral", "matrix"]),
                                   diag=st.booleans(), keep=st.sampled_from(["infer", "infer", False]), stepwise=st.booleans(),
                                   hist=st.sampled_from(["fresh", "refit", "clone", "pickle"]), steps=st.integers(2, 6), id=st.sampled_from([True, True, False])))
SUBS = [Sub("training", TRAIN, training, "more than one epoch of training", 120, 3000, 4),
        Sub("edmd", EDMDS, edmd, "prediction of more than two steps", 110, 3000, 4),
        Sub("stopping", st.fixed_dictionaries({"patience": st.integers(1, 4), "delta": st.sampled_from([0, 0.5, 2]), "losses": st.lists(st.integers(0, 6), min_size=1, max_size=12)}),
            stopping, "training is stopped", 400, 6000),
        Sub("invalid", st.fixed_dictionaries({"x": dyn.grid(min_len=3), "which": st.integers(0, 4)}), invalid, "more than one series", 60, 600)]
ASSUMPTIONS = ["torch evaluates, differentiates and updates networks correctly (torch.nn, autograd, torch.optim.Adam)",
               "EDMD with dictionary learning is used with include_id_state=False (the learned dictionary decides on the original states)"]
