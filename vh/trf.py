"""Transformers as JSON specs: strategies, builders and expected loss of samples."""
import numpy as np
from hypothesis import strategies as st

LAMBDAS = [np.sin, lambda x: x ** 2, np.abs, lambda x: 2 * x + 1, np.tanh]
KERNELS = ["GaussianKernel", "MultiquadricKernel", "InverseMultiquadricKernel", "InverseQuadraticKernel", "CubicKernel",
           "QuinticKernel", "ThinplateKernel"]


def kernel(name, eps):
    from datafold.pcfold import kernels as K

    cls = getattr(K, name)
    return cls(epsilon=eps) if name in KERNELS[:4] else cls()


def make(s):
    """Build the (unfitted) transformer of spec `s`."""
    from sklearn.preprocessing import MaxAbsScaler, PowerTransformer, RobustScaler

    from datafold.dynfold import transform as T
    from datafold.dynfold.compose import TSCColumnTransformer

    k = s["k"]
    if k == "scale":
        n = s["name"]
        if n in ("center", "min-max", "standard"):
            return T.TSCFeaturePreprocess.from_name(n)
        return T.TSCFeaturePreprocess({"robust": RobustScaler, "maxabs": MaxAbsScaler, "power": PowerTransformer}[n]())
    if k == "pca":
        return T.TSCPrincipalComponent(n_components=s["n"], whiten=s["whiten"], svd_solver="full")
    if k == "identity":
        return T.TSCIdentity(include_const=s["const"], rename_features=s["rename"])
    if k == "select":
        return T.TSCFeatureSelect(features=np.array(s["f"]))
    if k == "takens":
        return T.TSCTakensEmbedding(delays=s["delays"], lag=s["lag"], frequency=s["freq"], kappa=s["kappa"])
    if k == "ma":
        return T.TSCMovingAverage(window=s["w"])
    if k == "rbf":
        return T.TSCRadialBasis(kernel=kernel(s["kernel"], s["eps"]), center_type=s["center"], n_samples=s["n"])
    if k == "poly":
        return T.TSCPolynomialFeatures(degree=s["degree"], interaction_only=s["inter"], include_bias=s["bias"],
                                       include_first_order=s["first"])
    if k == "lambdas":
        return T.TSCApplyLambdas(lambdas=[LAMBDAS[i] for i in s["l"]])
    if k == "fd":
        return T.TSCFiniteDifference(scheme=s["scheme"], diff_order=s["order"], accuracy=s["acc"])
    if k == "fourier":
        return T.FourierRBF(n_features=s["n"], sigma=s["sigma"])
    if k == "column":
        return TSCColumnTransformer([(n, make(q), list(c)) for n, q, c in s["parts"]], remainder=s["rem"],
                                    verbose_feature_names_out=s["verbose"])
    raise ValueError(k)


scale = st.fixed_dictionaries({"k": st.just("scale"), "name": st.sampled_from(["center", "min-max", "standard", "robust", "maxabs"])})
identity = st.fixed_dictionaries({"k": st.just("identity"), "const": st.booleans(), "rename": st.booleans()})
poly = st.fixed_dictionaries({"k": st.just("poly"), "degree": st.integers(2, 3), "inter": st.booleans(), "bias": st.booleans(),
                              "first": st.booleans()}).map(lambda d: dict(d, first=d["first"] or (d["inter"] and not d["bias"])))
lambdas = st.fixed_dictionaries({"k": st.just("lambdas"), "l": st.lists(st.integers(0, 4), min_size=1, max_size=3, unique=True)})
ma = st.fixed_dictionaries({"k": st.just("ma"), "w": st.integers(1, 4)})


@st.composite
def takens(draw, max_delays=4, max_freq=2, max_lag=2):
    d = draw(st.integers(1, max_delays))
    return {"k": "takens", "delays": d, "lag": draw(st.integers(0, max_lag)),
            "freq": draw(st.integers(1, max_freq)) if d > 1 else 1,
            "kappa": draw(st.sampled_from([0, 0.0, 1, 0.5, 0.1, 2.0]))}


def takens_indices(s):
    return [s["lag"] + 1 + s["freq"] * j for j in range(s["delays"])]


@st.composite
def pca(draw, nf):
    return {"k": "pca", "n": draw(st.one_of(st.none(), st.integers(1, nf))), "whiten": draw(st.booleans())}


@st.composite
def rbf(draw, centers=("all_data", "random", "initial_condition")):
    return {"k": "rbf", "kernel": draw(st.sampled_from(KERNELS)), "eps": draw(st.sampled_from([0.5, 1.0, 3.0])),
            "center": draw(st.sampled_from(list(centers))), "n": draw(st.integers(2, 5))}


@st.composite
def fd(draw):
    return {"k": "fd", "scheme": draw(st.sampled_from(["backward", "center", "forward"])), "order": draw(st.integers(1, 2)),
            "acc": draw(st.sampled_from([2, 2, 4]))}


@st.composite
def select(draw, cols):
    n = draw(st.integers(1, len(cols)))
    idx = draw(st.permutations(range(len(cols))))[:n]
    if draw(st.booleans()) and isinstance(cols[0], str):
        return {"k": "select", "f": [cols[i] for i in idx]}
    return {"k": "select", "f": list(idx)}


@st.composite
def column(draw, cols):
    """Column transformer with 1-3 parts over disjoint or overlapping columns."""
    parts = []
    for j in range(draw(st.integers(1, 3))):
        n = draw(st.integers(1, len(cols)))
        sub = list(draw(st.permutations(list(cols)))[:n])
        q = draw(st.one_of(scale, identity, poly, lambdas, takens(2, 1, 1), ma, pca(len(sub))))
        parts.append([f"t{j}", q, sub])
    return {"k": "column", "parts": parts, "rem": draw(st.sampled_from(["drop", "drop", "passthrough"])), "verbose": True}


def spec_for(cols, kinds=None):
    m = {"scale": scale, "identity": identity, "poly": poly, "lambdas": lambdas, "takens": takens(3, 2, 1), "ma": ma, "pca": pca(len(cols)),
         "rbf": rbf(), "fd": fd(), "select": select(cols), "column": column(cols)}
    return st.one_of(*[m[k] for k in (kinds or m)])


def loss(s):
    """(rows lost at the start, rows lost at the end) of each series; None if unknown."""
    k = s["k"]
    if k == "takens":
        return max(takens_indices(s)), 0
    if k == "ma":
        return s["w"] - 1, 0
    if k == "fd":
        k = (2 * ((s["order"] + 1) // 2) - 2 + s["acc"]) // 2
        return (2 * k if s["scheme"] == "center" else s["order"] + s["acc"] - 1), 0
    if k == "column":
        ls = [loss(q) for _, q, _ in s["parts"]]
        return max(a for a, _ in ls), max(b for _, b in ls)
    return 0, 0


def takes_arrays(s):
    return s["k"] in ("scale", "identity", "pca", "rbf", "poly") and s.get("center") != "initial_condition"


@st.composite
def same_grid(draw, base, min_len, max_len, max_series=3):
    """Another collection with the sampling interval, time kind and features of `base` (IDs, lengths, starts differ)."""
    t = next((s["t"] for s in base["ser"] if len(s["t"]) > 1), [0, 1])
    step = t[1] - t[0]
    ns = draw(st.sampled_from([2, 1, 2, 3]))
    ids = draw(st.lists(st.integers(0, 12), min_size=min(ns, max_series), max_size=min(ns, max_series), unique=True))
    ser = []
    for i in ids:
        n = draw(st.integers(min_len, max_len))
        a = draw(st.integers(0, 5))
        ser.append({"id": i, "t": [a + step * q for q in range(n)]})
    out = dict(base)
    out.update(ser=ser, seed=draw(st.integers(0, 2**31 - 1)))
    return out
