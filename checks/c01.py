"""C01: validity of collections under operation histories (differential against plain pandas tables)."""
import copy
import pickle

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from datafold import TSCDataFrame
from vh import gen
from vh.core import Sub, Violation

CNAMES = ["a", "b", "c", "z", "x0", "n1", "n2"]


def plain_ok(df):
    """Own statement of the invariant on a plain table."""
    if not isinstance(df, pd.DataFrame) or not isinstance(df.index, pd.MultiIndex) or df.index.nlevels != 2:
        return False
    if len(df) == 0 or df.shape[1] == 0:
        return None  # unspecified: empty collections
    if df.index.duplicated().any() or df.columns.nlevels != 1 or df.columns.duplicated().any():
        return False
    if len({type(c).__qualname__ for c in df.columns}) > 1:
        return None if len({np.issubdtype(type(c), np.integer) or isinstance(c, int) for c in df.columns}) == 1 else False
    if any(d.kind not in "iufbc" for d in df.dtypes):
        return False
    i = df.index.get_level_values(0)
    t = df.index.get_level_values(1)
    if i.dtype.kind not in "iuf" or t.dtype.kind not in "iufM":
        return False
    i, t = i.to_numpy(), t.to_numpy()
    if i.dtype.kind == "f":
        if not np.isfinite(i).all() or (i != np.round(i)).any():
            return False
    if (i < 0).any():
        return False
    if t.dtype.kind == "M":
        if np.isnat(t).any():
            return False
    elif not np.isfinite(t).all() or (t < 0).any():
        return False
    seen = set()
    for k in range(len(i)):
        if k and i[k] == i[k - 1]:
            if not t[k] > t[k - 1]:
                return False
        elif i[k] in seen:
            return False
        else:
            seen.add(i[k])
    return True


# ------------------------------------------------------------------ histories
def _ids(x):
    return list(dict.fromkeys(pd.DataFrame(x).index.get_level_values(0)))


def _other(x, a, b, c, seed):
    """A second table with the same columns; IDs may collide."""
    t = x.index.get_level_values(1)
    n = 1 + b % 3
    if t.dtype.kind == "M":
        tv = (gen.BASE + pd.to_timedelta(np.arange(n) * (1 + c % 3), unit="s")).to_numpy()
    else:
        tv = np.arange(n) * (1 + c % 3)
    ix = pd.MultiIndex.from_arrays([np.full(n, a % 13), tv])
    v = gen.rng_of(seed, a, b, c).integers(-5, 6, size=(n, x.shape[1])).astype(float)
    return pd.DataFrame(v, index=ix, columns=x.columns)


def op_sel_ids(x, a, b, c, s):
    i = _ids(x)
    return x.loc[[i[a % len(i)], i[b % len(i)]] if a % len(i) != b % len(i) else [i[a % len(i)]], :]


def op_sel_id(x, a, b, c, s):
    i = _ids(x)
    return x.loc[i[a % len(i)], :]


def op_mask(x, a, b, c, s):
    m = gen.rng_of(s, a).random(len(x)) < 0.3 + 0.07 * (b % 10)
    if not m.any():
        m[a % len(x)] = True
    return x[m] if c % 2 else x.loc[m, :]


def op_iloc_list(x, a, b, c, s):
    k = 1 + b % min(4, len(x))
    pos = gen.rng_of(s, a, b).integers(0, len(x), size=k)
    if c % 3:
        pos = np.unique(pos)
    return x.iloc[pos, :] if c % 2 else x.iloc[pos]


def op_iloc_slice(x, a, b, c, s):
    lo = a % len(x)
    return x.iloc[lo:lo + 1 + b % 6: 1 + (c % 4 == 0)]


def op_cols(x, a, b, c, s):
    cs = list(x.columns)
    rng = gen.rng_of(s, a)
    k = 1 + b % len(cs)
    pick = [cs[j] for j in rng.permutation(len(cs))[:k]]
    return x[pick] if c % 2 else x.loc[:, pick]


def op_col1(x, a, b, c, s):
    r = x[x.columns[a % x.shape[1]]] if c % 2 else x.loc[:, x.columns[a % x.shape[1]]]
    return r.to_frame() if isinstance(r, pd.Series) else r


def op_ilocrow(x, a, b, c, s):
    return x.iloc[a % len(x)]


def op_dropcol(x, a, b, c, s):
    return x.drop(columns=x.columns[a % x.shape[1]]) if x.shape[1] > 1 else x.copy()


def op_dropid(x, a, b, c, s):
    i = _ids(x)
    return x.drop(index=i[a % len(i)], level=0) if len(i) > 1 else x.copy()


def op_head(x, a, b, c, s):
    return x.head(1 + a % 5) if c % 2 else x.tail(1 + a % 5)


def op_arith(x, a, b, c, s):
    k = c % 8
    if k == 0:
        return x + (a % 7)
    if k == 1:
        return x + x
    if k == 2:
        return x * gen.rng_of(s, a).normal(size=x.shape)
    if k == 3:
        return np.sin(x)
    if k == 4:
        return -x.abs()
    if k == 5:
        return (x > 0).astype(float)
    if k == 6:
        return x - x.iloc[[a % len(x)]].to_numpy()
    return x.div(2.0)


def op_where(x, a, b, c, s):
    return [lambda: x.where(x > 0), lambda: x.fillna(1.0), lambda: x.diff(), lambda: x.shift(1),
            lambda: x.clip(-1, 1), lambda: x.apply(np.abs), lambda: x.astype(np.float32)][a % 7]()


def op_sort(x, a, b, c, s):
    return x.sort_index()


def op_reindex(x, a, b, c, s):
    i = x.index
    return x.reindex(i[::-1]) if a % 2 else x.reindex(i.sort_values())


def op_copy(x, a, b, c, s):
    k = c % 5
    if k == 0:
        return x.copy()
    if k == 1:
        return x.copy(deep=False)
    if k == 2:
        return copy.deepcopy(x)
    if k == 3:
        return pickle.loads(pickle.dumps(x))
    return type(x)(x)


def op_rename(x, a, b, c, s):
    return x.rename(columns={x.columns[a % x.shape[1]]: CNAMES[b % len(CNAMES)]})


def op_setcol(x, a, b, c, s):
    x = x.copy()
    v = gen.rng_of(s, b).normal(size=len(x))
    x[CNAMES[a % len(CNAMES)]] = [v, v.astype(np.float32), (v * 10).astype(int), 1.5][c % 4]
    return x


def op_setstr(x, a, b, c, s):
    x = x.copy()
    v = ["s"] * len(x)
    if c % 4 == 0:
        x[CNAMES[a % len(CNAMES)]] = v
    elif c % 4 == 1:
        x.loc[:, x.columns[0]] = "s"
    elif c % 4 == 2:
        x.iloc[0, 0] = "s"
    else:
        x = x.assign(**{CNAMES[a % len(CNAMES)]: v})
    return x


def op_setloc(x, a, b, c, s):
    x = x.copy()
    i = _ids(x)
    k = c % 3
    if k == 0:
        x.loc[(i[a % len(i)], slice(None)), :] = float(b)
    elif k == 1:
        x.iloc[a % len(x), b % x.shape[1]] = 3.25
    else:
        x.loc[:, x.columns[a % x.shape[1]]] = np.arange(len(x), dtype=float)
    return x


def op_setindex(x, a, b, c, s):
    x = x.copy()
    i = x.index.get_level_values(0).to_numpy()
    t = x.index.get_level_values(1).to_numpy()
    k = c % 6
    if k == 0:
        new = pd.MultiIndex.from_arrays([i + a, t])
    elif k == 1:
        new = pd.MultiIndex.from_arrays([i - a, t])
    elif k == 2:
        new = pd.MultiIndex.from_arrays([i, t[::-1]])
    elif k == 3:
        new = pd.MultiIndex.from_arrays([np.zeros(len(i), dtype=int), t])
    elif k == 4:
        new = pd.MultiIndex.from_arrays([i, np.arange(len(i)) - (b % 3)])
    else:
        new = pd.Index(np.arange(len(i)))
    if a % 2:
        return x.set_index(new)
    x.index = new
    return x


def op_setcolumns(x, a, b, c, s):
    x = x.copy()
    names = [CNAMES[(a + (b * j if c % 2 else j)) % len(CNAMES)] for j in range(x.shape[1])]
    x.columns = pd.Index(names)
    return x


def op_concat0(x, a, b, c, s):
    o = _other(x, a, b, c, s)
    o = type(x)(o)
    return pd.concat([x, o], axis=0) if c % 2 else pd.concat([o, x], axis=0)


def op_concat1(x, a, b, c, s):
    o = x.rename(columns={n: (f"{n}_2" if (a >> j) % 4 else n) for j, n in enumerate(x.columns)})
    return pd.concat([x, o], axis=1)


def op_insert(x, a, b, c, s):
    """insert_ts of the collection; for the plain table: appended rows with the new ID."""
    o = _other(x, a, b, c, s)
    ts_id = None if a % 4 == 0 else a % 13
    body = pd.DataFrame(o.to_numpy(), index=o.index.get_level_values(1), columns=o.columns)
    if isinstance(x, TSCDataFrame):
        keep = body.copy()
        arg = body if b % 2 else TSCDataFrame.from_single_timeseries(body, ts_id=a % 5)
        before = arg.copy()
        r = x.insert_ts(arg, ts_id=ts_id)
        if not (arg.index.equals(before.index) and (arg.to_numpy() == keep.to_numpy()).all()):
            raise Violation(f"insert_ts changed the inserted frame: {arg.index} before {before.index}")
        return r
    ids = x.index.get_level_values(0)
    if ts_id is None:
        ts_id = ids.max() + 1
    if ts_id in set(ids):
        raise ValueError("collision")
    body.index = pd.MultiIndex.from_arrays([np.full(len(body), ts_id), body.index])
    return pd.concat([x, body], axis=0)


def op_select_time(x, a, b, c, s):
    t = x.index.get_level_values(1)
    pick = [t[a % len(t)], t[b % len(t)]] if c % 2 else [t[a % len(t)]]
    pick = sorted(set(pick))
    if isinstance(x, TSCDataFrame):
        return x.select_time_values(np.array(pick))
    return x[t.isin(pick)]


def op_groupby(x, a, b, c, s):
    g = x.groupby(level=0)
    return g.head(1 + a % 3) if c % 2 else g.tail(1 + a % 3)


def op_transpose(x, a, b, c, s):
    return x.T


OPS = {f.__name__[3:]: f for f in [
    op_sel_ids, op_sel_id, op_mask, op_iloc_list, op_iloc_slice, op_cols, op_col1, op_ilocrow, op_dropcol, op_dropid,
    op_head, op_arith, op_where, op_sort, op_reindex, op_copy, op_rename, op_setcol, op_setstr, op_setloc,
    op_setindex, op_setcolumns, op_concat0, op_concat1, op_insert, op_select_time, op_groupby, op_transpose]}
# may legitimately succeed on a plain table although the result is no collection
NOT_A_TABLE = {"sel_id", "ilocrow", "transpose"}
ANYWAY = {"sel_id", "ilocrow", "transpose"}


def num(x):
    try:
        return x.to_numpy().astype(complex)
    except (TypeError, ValueError):
        return np.zeros(x.shape)


def same(ctx, got, want, what):
    if isinstance(got, TSCDataFrame) and got.index.nlevels == 2 and want.index.nlevels == 2:
        ctx.index([(int(i), t) for i, t in got.index], [(int(i), t) for i, t in want.index], what + " rows")
    else:
        ctx.index(got.index, want.index, what + " rows")
    if want.ndim == 2:
        ctx.index(got.columns, want.columns, what + " columns")
    g, w = got.to_numpy(), want.to_numpy()
    ctx.ok(g.shape == w.shape, what + " shape")
    if want.ndim == 1 or plain_ok(want) is not False or isinstance(got, TSCDataFrame):
        ctx.ok(np.array_equal(num(got), num(want), equal_nan=True), f"{what} values {g} expected {w}")


def run_history(case, ctx):
    spec = case["tsc"]
    x = gen.build(spec)
    gen.classify(spec, ctx)
    p = pd.DataFrame(x.to_numpy().copy(), index=gen.index(spec), columns=pd.Index(spec["cols"]))
    applied = 0
    for name, a, b, c, s in case["ops"]:
        f = OPS[name]
        before_x, before_p = x.copy(deep=True), p.copy(deep=True)
        try:
            want, perr = f(p, a, b, c, s), None
        except Exception as e:
            want, perr = None, e
        p = before_p
        try:
            got, gerr = f(x, a, b, c, s), None
        except Violation:
            raise
        except Exception as e:
            got, gerr = None, e
        what = f"after {name}({a},{b},{c})"
        # the operand is never corrupted
        gen.valid_tsc(ctx, x, what + " operand")
        ctx.ok(x.index.equals(before_x.index) and x.columns.equals(before_x.columns), what + ": operand labels changed")
        ctx.ok(np.array_equal(num(x), num(before_x), equal_nan=True), what + ": operand values changed")
        if isinstance(got, TSCDataFrame):
            gen.valid_tsc(ctx, got, what)
        if perr is not None:
            ctx.ok(gerr is not None, f"{what}: should be rejected ({perr}), returned {type(got)}")
            ctx.tag("rejected")
            continue
        verdict = plain_ok(want) if isinstance(want, pd.DataFrame) else False
        if gerr is not None:
            ctx.ok(verdict is not True and name not in ANYWAY,
                   f"{what}: valid operation raised {type(gerr).__name__}: {gerr}")
            ctx.tag("rejected")
            continue
        if verdict is False:
            ctx.ok(not isinstance(got, TSCDataFrame), f"{what}: not a valid collection but typed as one")
        if verdict is True and name not in NOT_A_TABLE:
            ctx.ok(isinstance(got, TSCDataFrame), f"{what}: valid collection returned as {type(got)}")
        if isinstance(got, (pd.DataFrame, pd.Series)):
            same(ctx, got, want, what)
        if isinstance(got, TSCDataFrame):
            applied += 1
            ctx.tag(f"op:{name}")
            x, p = got, want.copy()
            p.index = pd.MultiIndex.from_arrays([p.index.get_level_values(0).astype(int), p.index.get_level_values(1)])
    ctx.nt(applied >= 3 and len(spec["ser"]) >= 2)


history = st.fixed_dictionaries({
    "tsc": gen.tsc_spec(max_series=4, max_len=5),
    "ops": st.lists(st.tuples(st.sampled_from(sorted(OPS)), st.integers(0, 40), st.integers(0, 40),
                              st.integers(0, 40), st.integers(0, 1000)), min_size=2, max_size=14),
})


# --------------------------------------------------------------- construction
def run_construct(case, ctx):
    kind = case["kind"]
    rows = case["rows"]
    ids = [r[0] for r in rows]
    ts = [r[1] for r in rows]
    fault = case["fault"]
    if kind == "dt":
        t = gen.time_array(ts, "dt", 1)
        if fault == "nan":
            t = t.copy()
            t[case["pos"] % len(t)] = np.datetime64("NaT")
    else:
        t = np.array(ts, dtype=float if kind == "float" else int)
        if kind == "float" and fault in ("nan", "inf"):
            t[case["pos"] % len(t)] = np.nan if fault == "nan" else np.inf
        if kind == "float" and fault == "-inf":
            t[case["pos"] % len(t)] = -np.inf
    i = np.array(ids)
    if fault == "floatid":
        i = i.astype(float)
    if fault == "halfid":
        i = i.astype(float)
        i[case["pos"] % len(i)] += 0.5
    if fault == "strid":
        i = np.array([f"s{k}" for k in ids])
    if fault == "strtime":
        t = np.array([f"t{k:03d}" for k in ts])
    arrays = [i, t]
    if fault == "3level":
        arrays.append(np.arange(len(i)))
    idx = pd.MultiIndex.from_arrays(arrays)
    if fault == "1level":
        idx = pd.Index(np.arange(len(i)))
    cols = list(case["cols"])
    if fault == "dupcol" and len(cols) > 1:
        cols[-1] = cols[0]
    if fault == "mixcol" and len(cols) > 1:
        cols[-1] = 3
    v = np.arange(len(i) * len(cols), dtype=float).reshape(len(i), len(cols))
    df = pd.DataFrame(v, index=idx, columns=pd.Index(cols))
    if fault == "object":
        df = df.astype(object)
        df.iloc[0, 0] = "s"
    if fault == "multicol":
        df.columns = pd.MultiIndex.from_arrays([cols, list(range(len(cols)))])
    want = plain_ok(df)
    frame0 = df.copy()
    try:
        x, err = TSCDataFrame(df) if case["how"] else TSCDataFrame(df.to_numpy(), index=df.index, columns=df.columns), None
    except Exception as e:
        x, err = None, e
    ctx.tag(f"fault:{fault}", f"accept:{want}")
    ctx.ok(np.array_equal(df.to_numpy().astype(str), frame0.to_numpy().astype(str)), "source table changed")
    if want is True:
        ctx.ok(err is None, f"valid table rejected: {type(err).__name__}: {err}")
        gen.valid_tsc(ctx, x)
        same(ctx, x, df, "constructed")
    elif want is False:
        if err is None:
            ctx.ok(not isinstance(x, TSCDataFrame), f"invalid table accepted (fault {fault})")
    ctx.nt(len(rows) > 1)


construct = st.fixed_dictionaries({
    "kind": st.sampled_from(["int", "float", "dt"]),
    "rows": st.one_of(
        st.lists(st.tuples(st.integers(-1, 4), st.integers(-1, 6)), min_size=1, max_size=6),
        st.lists(st.tuples(st.integers(0, 3), st.integers(0, 6)), min_size=1, max_size=8, unique=True).map(sorted),
        st.lists(st.tuples(st.integers(0, 3), st.integers(0, 6)), min_size=1, max_size=8, unique=True)
        .map(lambda r: sorted(r, key=lambda v: (-v[0], v[1])))),
    "cols": st.lists(st.sampled_from(CNAMES), min_size=1, max_size=3, unique=True),
    "fault": st.sampled_from([None, None, None, "nan", "inf", "-inf", "floatid", "halfid", "strid", "strtime", "3level",
                              "1level", "dupcol", "mixcol", "object", "multicol"]),
    "pos": st.integers(0, 7),
    "how": st.booleans(),
})

SUBS = [
    Sub("history", history, run_history, "at least three operations applied on a collection with two or more series",
        quick=3400, thorough=60000, shards=6),
    Sub("construct", construct, run_construct, "more than one row", quick=2000, thorough=30000, shards=2),
]
ASSUMPTIONS = ["pandas' plain DataFrame operations are the reference for values",
               "empty collections (no rows or columns) are unspecified"]
