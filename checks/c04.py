"""C04: selections return exactly the requested rows."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from datafold import InitialCondition
from datafold.pcfold.timeseries.collection import TSCException
from vh import gen
from vh.core import Sub

A = st.integers(0, 10**6)


def rows_of(spec, vals):
    """[(id, tick, time, value row)] in row order."""
    t = gen.index(spec).get_level_values(1)
    return [(i, k, t[r], vals[r]) for r, (i, k) in enumerate(gen.rows(spec))]


def expect(ctx, got, rws, cols, what, order=True, tsc=True):
    if tsc:
        gen.valid_tsc(ctx, got, what)
    if not order:
        got = got.sort_index()
        rws = sorted(rws, key=lambda r: (r[0], r[1]))
    gen.same_frame(ctx, got, [(r[0], r[2]) for r in rws], cols, np.array([r[3] for r in rws]), what, rtol=0, atol=0, tol=0)


def run_states(case, ctx):
    spec, n = case["tsc"], case["n"]
    x = gen.build(spec)
    v = x.to_numpy().copy()
    R = rows_of(spec, v)
    gen.classify(spec, ctx)
    lens = [len(s["t"]) for s in spec["ser"]]
    ctx.nt(len(lens) > 1 and n <= min(lens))
    if n > min(lens):
        ctx.tag("too short")
        ctx.raises(lambda: x.initial_states(n), "initial_states of a too short series", TSCException)
        ctx.raises(lambda: x.final_states(n), "final_states of a too short series", TSCException)
    else:
        first, last, drop = [], [], []
        for s in spec["ser"]:
            own = [r for r in R if r[0] == s["id"]]
            first += own[:n]
            last += own[-n:]
            drop += own[:-n]
        expect(ctx, x.initial_states(n), first, spec["cols"], "initial_states")
        expect(ctx, x.final_states(n), last, spec["cols"], "final_states")
        dts = set().union(*[set(np.diff(s["t"])) for s in spec["ser"]])
        if n == 1 or (len(dts) == 1 and min(lens) > 1):
            if len({tuple(s["t"][:n]) for s in spec["ser"]}) == 1:
                expect(ctx, InitialCondition.from_tsc(x, n_samples_ic=n), first, spec["cols"], "from_tsc")
            else:
                ctx.raises(lambda: InitialCondition.from_tsc(x, n_samples_ic=n), "from_tsc with different times",
                           (TSCException, ValueError))
        if drop:
            expect(ctx, x.tsc.drop_last_n_samples(n), drop, spec["cols"], "drop_last_n_samples")
    for bad in (0, -1, 1.5):
        ctx.raises(lambda: x.initial_states(bad), f"initial_states({bad})", ValueError)
        ctx.raises(lambda: x.final_states(bad), f"final_states({bad})", ValueError)
    # one series at a time
    for s in spec["ser"]:
        own = [r for r in R if r[0] == s["id"]]
        d = x.loc[s["id"], :]
        ctx.index(d.index, [r[2] for r in own], "loc of one series: times")
        ctx.close(d.to_numpy(), np.array([r[3] for r in own]), "loc of one series", rtol=0, atol=0)
        expect(ctx, x.loc[[s["id"]], :], own, spec["cols"], "loc of a list of one series")
    per = {int(t.ids[0]): t for t in x.itertimeseries(valid_tsc=True)}
    ctx.eq(sorted(per), sorted(s["id"] for s in spec["ser"]), "iterated IDs")
    for s in spec["ser"]:
        expect(ctx, per[s["id"]], [r for r in R if r[0] == s["id"]], spec["cols"], "itertimeseries(valid_tsc)")
    # source untouched
    ctx.index(x.index, gen.index(spec), "index of the source")
    ctx.close(x.to_numpy(), v, "values of the source", rtol=0, atol=0)


def run_times(case, ctx):
    spec = case["tsc"]
    x = gen.build(spec)
    v = x.to_numpy().copy()
    R = rows_of(spec, v)
    gen.classify(spec, ctx)
    allt = sorted({r[1] for r in R})
    rng = gen.rng_of(case["seed"])
    k = int(rng.integers(1, len(allt) + 1))
    pick = [allt[j] for j in rng.permutation(len(allt))[:k]]
    if case["sorted"]:
        pick = sorted(pick)
    tmap = {r[1]: r[2] for r in R}
    want = [r for r in R if r[1] in set(pick)]
    ctx.nt(len(want) < len(R) and len(spec["ser"]) > 1)
    tv = pd.Index([tmap[p] for p in pick])
    tv = [tv, tv.to_numpy(), list(tv)][case["form"]]
    expect(ctx, x.select_time_values(tv), want, spec["cols"], "select_time_values")
    one = pick[0]
    got = x.select_time_values(tmap[one])
    want = [r for r in R if r[1] == one]
    ctx.eq(sorted(int(i) for i in got.index.get_level_values(0)), sorted(r[0] for r in want), "select_time_values(one) IDs")
    for r in want:
        row = got[got.index.get_level_values(0) == r[0]] if not hasattr(got, "ids") else got.loc[[r[0]], :]
        ctx.close(row.to_numpy()[0], r[3], "select_time_values(one)", rtol=0, atol=0)
    ctx.index(x.index, gen.index(spec), "index of the source")


def run_windows(case, ctx):
    spec, w, o = case["tsc"], case["w"], case["o"]
    x = gen.build(spec)
    v = x.to_numpy().copy()
    R = rows_of(spec, v)
    gen.classify(spec, ctx)
    dts = [set(np.diff(s["t"])) for s in spec["ser"]]
    const = all(len(d) == 1 for d in dts) and len(set().union(*dts)) == 1
    if not const:
        ctx.tag("not const")
        ctx.raises(lambda: list(x.tsc.iter_timevalue_window(w, o, per_time_series=case["per"])),
                   "windows without constant sampling", TSCException)
        return
    want = []
    if case["per"]:
        for i in sorted(s["id"] for s in spec["ser"]):
            own = [r for r in R if r[0] == i]
            want += [own[a:a + w] for a in range(0, len(own) - w + 1, o)]
    else:
        allt = sorted({r[1] for r in R})
        for a in range(0, len(allt) - w + 1, o):
            sel = set(allt[a:a + w])
            want.append([r for r in R if r[1] in sel])
    got = list(x.tsc.iter_timevalue_window(w, o, per_time_series=case["per"]))
    ctx.nt(len(want) > 1)
    ctx.tag(f"windows:{min(len(want), 4)}")
    ctx.eq(len(got), len(want), "number of windows")
    for g, rr in zip(got, want):
        expect(ctx, g, rr, spec["cols"], "window")
    for bad in (0, -2):
        ctx.raises(lambda: list(x.tsc.iter_timevalue_window(bad, 1)), "window size", ValueError)
        ctx.raises(lambda: list(x.tsc.iter_timevalue_window(2, bad)), "offset", ValueError)
    ctx.raises(lambda: list(x.tsc.iter_timevalue_window(1.5, 1)), "float window size", TypeError)
    ctx.index(x.index, gen.index(spec), "index of the source")


def run_groups(case, ctx):
    spec, n = case["tsc"], case["n"]
    x = gen.build(spec)
    v = x.to_numpy().copy()
    R = rows_of(spec, v)
    gen.classify(spec, ctx)
    lens = [len(s["t"]) for s in spec["ser"]]
    if min(lens) < n:
        ctx.tag("too short")
        ctx.raises(lambda: list(InitialCondition.iter_reconstruct_ic(x, n_samples_ic=n)), "too short series", TSCException)
        return
    if any(len(set(np.diff(s["t"]))) != 1 for s in spec["ser"]):
        ctx.tag("irregular")
        ctx.raises(lambda: list(InitialCondition.iter_reconstruct_ic(x, n_samples_ic=n)), "irregular series",
                   (NotImplementedError, TSCException))
        return
    seen = []
    groups = list(InitialCondition.iter_reconstruct_ic(x, n_samples_ic=n))
    ctx.nt(len(spec["ser"]) > 1)
    ctx.tag(f"groups:{len(groups)}")
    tick = {s["id"]: s["t"] for s in spec["ser"]}
    for ic, tv in groups:
        gen.valid_tsc(ctx, ic, "initial condition")
        ids = [int(i) for i in ic.ids]
        seen += ids
        for i in ids:
            own = [r for r in R if r[0] == i]
            expect(ctx, ic.loc[[i], :], own[:n], spec["cols"], "initial states of a group")
            want = gen.time_array(tick[i][n - 1:], spec["kind"], spec["unit"])
            ctx.ok(len(tv) == len(want) and (np.asarray(tv) == want).all(), f"time values of series {i}: {tv} expected {want}")
        ctx.eq(len(ic), n * len(ids), "rows of initial condition")
    ctx.eq(sorted(seen), sorted(tick), "every series is in exactly one group")


def _reg(**k):
    return gen.tsc_spec(regular="const", **k)


SUBS = [
    Sub("states", st.fixed_dictionaries({"tsc": gen.tsc_spec(max_series=5, max_len=6), "n": st.integers(1, 5)}),
        run_states, "several series that are long enough", quick=1200, thorough=20000, shards=2),
    Sub("times", st.fixed_dictionaries({"tsc": gen.tsc_spec(max_series=5, max_len=6), "sorted": st.booleans(),
                                        "form": st.integers(0, 2), "seed": gen.seeds()}),
        run_times, "several series and a proper subset of rows", quick=1200, thorough=20000, shards=2),
    Sub("windows", st.fixed_dictionaries({"tsc": st.one_of(_reg(max_series=4, min_len=2, max_len=8), _reg(max_series=4, min_len=2, max_len=8), gen.tsc_spec(max_series=4, max_len=7)),
                                          "w": st.integers(1, 5), "o": st.integers(1, 4), "per": st.booleans()}),
        run_windows, "two or more windows", quick=1200, thorough=20000, shards=2),
    Sub("groups", st.fixed_dictionaries({"tsc": st.one_of(gen.tsc_spec(regular="const", max_series=5, min_len=2, max_len=6),
                                                          gen.tsc_spec(regular="series", max_series=5, min_len=2, max_len=6),
                                                          gen.tsc_spec(max_series=4, max_len=5)), "n": st.integers(1, 3)}),
        run_groups, "several series", quick=1600, thorough=20000, shards=2),
]
ASSUMPTIONS = []
