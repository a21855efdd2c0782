"""C08: requirement checks accept exactly the collections that meet the requirement."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from datafold import InitialCondition
from datafold.pcfold.timeseries.accessor import TSCAccessor
from datafold.pcfold.timeseries.collection import TSCException
from vh import gen
from vh.core import Sub

A = st.integers(0, 10**6)


def accepts(ctx, fn, want, what, exc=TSCException):
    """fn() returns normally iff `want`; a refusal is a TSCException."""
    try:
        r = fn()
    except exc as e:
        ctx.ok(not want, f"{what}: refused although the requirement is met ({e})")
        return None
    except Exception as e:
        ctx.fail(f"{what}: raised {type(e).__name__}: {e}" + ("" if want else " instead of TSCException"))
    ctx.ok(want, f"{what}: accepted although the requirement is not met")
    return r


class Facts:
    def __init__(self, spec, v):
        self.t = {s["id"]: s["t"] for s in spec["ser"]}
        self.order = [s["id"] for s in spec["ser"]]
        self.n = {i: len(t) for i, t in self.t.items()}
        self.d = {i: (int(np.diff(t)[0]) if len(t) > 1 and len(set(np.diff(t))) == 1 else None) for i, t in self.t.items()}
        vals = set(self.d.values())
        self.const = len(vals) == 1 and None not in vals
        self.same_len = len(set(self.n.values())) == 1
        self.same_times = len({tuple(t) for t in self.t.values()}) == 1
        self.finite = bool(np.isfinite(v).all())
        self.degenerate = 1 in self.n.values()
        allt = [k for t in self.t.values() for k in t]
        self.overlap = len(set(allt)) < len(allt)
        self.normalized = (spec["kind"] != "dt" and self.const and min(allt) == 0 and self.d[self.order[0]] * spec["unit"] == 1)


def delta(spec, ticks):
    return np.timedelta64(int(ticks * spec["unit"]), "s") if spec["kind"] == "dt" else ticks * spec["unit"]


def setup(case):
    spec = case["tsc"]
    n, p = len(gen.rows(spec)), len(spec["cols"])
    v = gen.values(spec, n, p)
    for r, j, k in case["bad"]:
        v[r % n, j % p] = [np.nan, np.inf, -np.inf][k]
    return spec, gen.build(spec, v), v, Facts(spec, v)


def run_single(case, ctx):
    spec, x, v, f = setup(case)
    gen.classify(spec, ctx)
    ctx.nt(len(f.order) > 1)
    a = x.tsc
    ns = list(f.n.values())
    accepts(ctx, a.check_finite, f.finite, "check_finite")
    accepts(ctx, a.check_timeseries_same_length, f.same_len, "check_timeseries_same_length")
    r = accepts(ctx, a.check_const_time_delta, f.const, "check_const_time_delta")
    if f.const:
        w = delta(spec, f.d[f.order[0]])
        ctx.ok(r == w or np.isclose(float(r), float(w)), f"returned time delta {r!r} expected {w!r}")
    r = accepts(ctx, a.check_const_timesteps, f.same_len, "check_const_timesteps")
    if f.same_len:
        ctx.eq(r, ns[0], "returned number of time steps")
    accepts(ctx, a.check_equal_timevalues, f.same_times, "check_equal_timevalues")
    if spec["kind"] != "dt":
        accepts(ctx, a.check_normalized_time, f.normalized, "check_normalized_time")
    accepts(ctx, a.check_no_degenerate_ts, not f.degenerate, "check_no_degenerate_ts")
    accepts(ctx, a.check_non_overlapping_timeseries, not f.overlap, "check_non_overlapping_timeseries")
    k = case["k"]
    for q in {k, len(f.order)}:
        accepts(ctx, lambda: a.check_required_n_timeseries(q), q == len(f.order), f"check_required_n_timeseries({q})")
    for q in {k, min(ns), max(ns), min(ns) + 1}:
        accepts(ctx, lambda: a.check_required_n_timesteps(q), f.same_len and ns[0] == q, f"check_required_n_timesteps({q})")
        accepts(ctx, lambda: a.check_required_min_timesteps(q), min(ns) >= q, f"check_required_min_timesteps({q})")
    for q in {k, len(v), len(v) + 1}:
        accepts(ctx, lambda: a.check_min_samples(q), len(v) >= q, f"check_min_samples({q})")
    for q in {k, v.shape[1], v.shape[1] + 1}:
        accepts(ctx, lambda: a.check_min_features(q), v.shape[1] >= q, f"check_min_features({q})")
    # IDs
    ids = list(f.order)
    rng = gen.rng_of(spec["seed"], 3)
    perm = [ids[q] for q in rng.permutation(len(ids))]
    accepts(ctx, lambda: a.check_contain_required_ids(perm), True, "check_contain_required_ids(permuted)")
    accepts(ctx, lambda: a.check_contain_required_ids(perm, check_order=True), perm == ids, "check_contain_required_ids(order)")
    accepts(ctx, lambda: a.check_contain_required_ids(ids, check_order=True), True, "check_contain_required_ids(same order)")
    accepts(ctx, lambda: a.check_contain_required_ids(ids + [77]), False, "check_contain_required_ids(additional)")
    if len(ids) > 1:
        accepts(ctx, lambda: a.check_contain_required_ids(ids[1:]), False, "check_contain_required_ids(missing)")
        accepts(ctx, lambda: a.check_contain_required_ids(ids[1:] + [77]), False, "check_contain_required_ids(other)")
    # sampling interval
    for q in {1, 2, case["k"] + 1} | {d for d in f.d.values() if d}:
        accepts(ctx, lambda: a.check_required_time_delta(delta(spec, q)), all(d == q for d in f.d.values()),
                f"check_required_time_delta({q} ticks)")
    if len(set(f.d.values())) > 1 and None not in f.d.values():
        srt = sorted(ids)
        ser = pd.Series([delta(spec, f.d[i]) for i in srt], index=srt)
        accepts(ctx, lambda: a.check_required_time_delta(ser), True, "check_required_time_delta(per series)")
        accepts(ctx, lambda: a.check_required_time_delta(ser + delta(spec, 1)), False, "check_required_time_delta(other, per series)")
    dt = {"int": "int64", "float": "float64", "dt": "datetime64[ns]"}
    for kk, name in dt.items():
        accepts(ctx, lambda: a.check_dtype_time(np.dtype(name)), kk == spec["kind"], f"check_dtype_time({name})")
    gen.same_frame(ctx, x, gen.index(spec), spec["cols"], v, "collection", 0, 0, 0)


def run_comb(case, ctx):
    spec, x, v, f = setup(case)
    gen.classify(spec, ctx)
    kw, want = {}, True
    bits = case["bits"]
    req = {
        "ensure_all_finite": (True, f.finite),
        "ensure_const_delta_time": (True, f.const),
        "ensure_no_degenerate_ts": (True, not f.degenerate),
    }
    # options that are on by default
    for k, (name, (_, cond)) in enumerate(req.items()):
        if (bits >> k) & 1:
            kw[name] = False
        else:
            if (bits >> (k + 3)) & 1:
                kw[name] = True
            want &= cond
    k = case["k"]
    ns = list(f.n.values())
    some = f.d[f.order[0]] or 1
    dq = some + (case["off"] % 2 if case["off"] < 4 else 0)
    nq = ns[0] + (case["off"] == 1)
    opt = {
        "ensure_same_length": (True, f.same_len),
        "ensure_same_time_values": (True, f.same_times),
        "ensure_n_timeseries": (len(f.order) + (case["off"] == 2), case["off"] != 2),
        "ensure_n_timesteps": (nq, f.same_len and ns[0] == nq),
        "ensure_min_timesteps": (k, min(ns) >= k),
        "ensure_min_samples": (2 * k, len(v) >= 2 * k),
        "ensure_min_features": (k, v.shape[1] >= k),
        "ensure_delta_time": (delta(spec, dq), all(d == dq for d in f.d.values())),
        "ensure_dtype_time": (np.dtype({"int": "int64", "float": "float64", "dt": "datetime64[ns]"}[spec["kind"]]), True),
    }
    if spec["kind"] != "dt":
        opt["ensure_normalized_time"] = (True, f.normalized)
    for q, (name, (val, cond)) in enumerate(opt.items()):
        if (bits >> (6 + q)) & 1 and (case["few"] == 0 or q % 3 == case["few"] - 1):
            kw[name] = val
            want &= cond
    ctx.nt(len(kw) > 1)
    ctx.tag(f"accepted:{want}")
    r = accepts(ctx, lambda: x.tsc.check_tsc(**kw), want, f"check_tsc({kw})")
    if want:
        gen.same_frame(ctx, r, gen.index(spec), spec["cols"], v, "returned collection", 0, 0, 0)


def run_pair(case, ctx):
    """Two collections and initial conditions."""
    spec, x, v, f = setup(case)
    other = {**case["other"], "kind": spec["kind"], "unit": spec["unit"]}
    y = gen.build(other)
    g = Facts(other, y.to_numpy())
    gen.classify(spec, ctx)
    ctx.nt(len(f.order) > 1)
    for req in (False, True):
        fs, gs = len(set(f.d.values())) > 1, len(set(g.d.values())) > 1
        if not fs and not gs:
            if f.d[f.order[0]] is None or g.d[g.order[0]] is None:
                continue  # irregular sampling: unspecified
            want = f.d[f.order[0]] == g.d[g.order[0]]
        elif req:
            want = False
        elif fs != gs:
            want = False
        elif None in list(f.d.values()) + list(g.d.values()):
            continue
        else:
            want = f.d == g.d
        ctx.tag(f"pair:{want}")
        accepts(ctx, lambda: TSCAccessor.check_equal_delta_time(x, y, require_const=req), want,
                f"check_equal_delta_time(require_const={req})")
    # initial conditions
    n = case["k"]
    dq = f.d[f.order[0]] or 1
    multi = f.same_len and list(f.n.values())[0] > 1
    base = f.finite and f.same_len and f.same_times and (f.const or not multi)
    accepts(ctx, lambda: InitialCondition.validate(x), base, "validate")
    accepts(ctx, lambda: InitialCondition.validate(x, n_samples_ic=n), base and list(f.n.values())[0] == n, "validate(n)")
    if n > 1:
        accepts(ctx, lambda: InitialCondition.validate(x, n_samples_ic=n, dt=delta(spec, dq)),
                base and list(f.n.values())[0] == n and f.const, "validate(n, dt)")
        accepts(ctx, lambda: InitialCondition.validate(x, n_samples_ic=n, dt=delta(spec, dq + 1)), False, "validate(n, other dt)")
    # control: the same IDs, first control time is the last time of the initial condition
    if f.same_times:
        last = f.t[f.order[0]][-1]
        sh = case["off"] % 2
        cs = {**spec, "ser": [{"id": i, "t": [last + sh, last + sh + 1]} for i in sorted(f.order)], "cols": ["u"]}
        U = gen.build(cs)
        srt = f.order == sorted(f.order)
        if srt:
            accepts(ctx, lambda: InitialCondition.validate_control(x, U), sh == 0, "validate_control")
        cs["ser"][-1]["id"] = 55
        accepts(ctx, lambda: InitialCondition.validate_control(x, gen.build(cs)), False, "validate_control (other IDs)")


BAD = st.one_of(st.just([]), st.just([]), st.lists(st.tuples(A, A, st.integers(0, 2)), max_size=2))
TSC = st.one_of(gen.tsc_spec(max_series=4, max_len=5), gen.tsc_spec(max_series=4, max_len=5, regular="const", min_len=2),
                gen.tsc_spec(max_series=4, max_len=5, regular="const", same_times=True),
                gen.tsc_spec(max_series=3, max_len=4, normalized=True, kinds=("int", "float")))
SUBS = [
    Sub("single", st.fixed_dictionaries({"tsc": TSC, "bad": BAD, "k": st.integers(1, 5)}), run_single,
        "several series", quick=1400, thorough=25000, shards=3),
    Sub("combined", st.fixed_dictionaries({"tsc": TSC, "bad": BAD, "k": st.integers(1, 3), "bits": st.integers(0, 2**16 - 1),
        "off": st.integers(0, 6), "few": st.integers(0, 3)}), run_comb, "several requirements", quick=1700, thorough=30000, shards=2),
    Sub("pair", st.fixed_dictionaries({"tsc": TSC, "other": st.one_of(TSC, gen.tsc_spec(regular="series", min_len=2, max_series=3)),
        "bad": BAD, "k": st.integers(1, 4), "off": st.integers(0, 3)}), run_pair, "several series", quick=1000, thorough=20000, shards=2),
]
ASSUMPTIONS = ["whether two irregular collections have 'equal' time deltas is not compared"]
