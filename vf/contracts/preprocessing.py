import math

import numpy as np
import reagent.types as rlt
import torch
from reagent.parameters import NormalizationData, NormalizationParameters
from reagent.preprocessing import identify_types as it
from reagent.preprocessing import normalization as nz
from reagent.preprocessing import postprocessor, preprocessor
from vf.runner import contract
from vf.contracts._common import *

PP = "reagent/preprocessing/preprocessor.py:Preprocessor."
NO = "reagent/preprocessing/normalization.py:"
EPS = 1e-6


def params(c, kind, name, big=False):
    """normalisation parameters of one feature, every number symbolic"""
    set_ = dict(feature_type=kind)
    if kind in ("CONTINUOUS", "BOXCOX"):
        set_.update(mean=c.real(name + ".mean", -20, 20), stddev=c.real(name + ".std", 0.125, 20))
    if kind == "BOXCOX":
        lam = c.real(name + ".lambda", 0.125, 3)
        set_.update(boxcox_lambda=lam if c.choice(name + ".sign", [True, False]) else -lam, boxcox_shift=c.real(name + ".shift", -5, 5))
    if kind == "CONTINUOUS_ACTION":
        lo = c.real(name + ".min", -10, 10)
        set_.update(min_value=lo, max_value=lo + c.real(name + ".range", 0.25, 20))
    if kind == "ENUM":
        set_.update(possible_values=[c.int(f"{name}.v{k}", -3, 9) for k in range(c.choice(name + ".values", [1, 3]))])
        if c.sym:
            pass
    if kind == "QUANTILE":
        q = [c.real(name + ".q0", -10, 10)]
        for k in range(c.choice(name + ".bounds", [2, 4] if big else [2, 3]) - 1):
            q.append(q[-1] + c.real(f"{name}.gap{k}", 0.125, 4))
        set_.update(quantiles=q)
    p = NormalizationParameters(kind)
    for k, v in set_.items():
        object.__setattr__(p, k, v)
    return p


def clamp(c, x, lo, hi):
    x = c.If(c.lt(x, lo), lo, x)
    return c.If(c.lt(hi, x), hi, x)


def formula(c, p, x):
    """-> the columns one feature turns into"""
    k = p.feature_type
    if k == "BINARY":
        return [c.If(c.exacteq(x, 0), 0.0, 1.0)]
    if k == "PROBABILITY":
        z = clamp(c, x, 0.01, 0.99)
        return [-1.0 * c.log(c.div(1.0, z) - 1.0)]
    if k == "CLIP_LOG":
        return [c.log(c.If(c.lt(x, EPS), EPS, x))]
    if k == "CONTINUOUS":
        return [c.div(x - p.mean, p.stddev)]
    if k == "BOXCOX":
        y = x + p.boxcox_shift
        y = c.If(c.lt(y, 1e-6), 1e-6, y)
        y = c.div(c.pow(y, p.boxcox_lambda) - 1.0, p.boxcox_lambda)
        return [c.div(y - p.mean, p.stddev)]
    if k == "ENUM":
        return [c.If(c.exacteq(x, v), 1.0, 0.0) for v in p.possible_values]
    if k == "QUANTILE":
        q = p.quantiles
        n = len(q) - 1
        out = 1.0
        for j in range(n - 1, -1, -1):
            out = c.If(c.lt(x, q[j + 1]), c.div(j + c.div(x - q[j], (q[j + 1] + EPS) - q[j]), n), out)
        return [c.If(c.le(x, q[0]), 0.0, out)]
    if k == "CONTINUOUS_ACTION":
        return [clamp(c, (x - p.min_value) * c.div((1 - EPS) * 2, p.max_value - p.min_value) + (-1 + EPS), -1 + EPS, 1 - EPS)]
    return [x]


BOUNDED = ("ENUM", "DO_NOT_PREPROCESS")


def columns(c, norm, order, x, present):
    """output columns in the documented order: by type, then by feature id"""
    out = []
    for k in it.FEATURE_TYPES:
        for f in sorted(norm):
            if norm[f].feature_type == k:
                for v in formula(c, norm[f], x(order.index(f))):
                    v = c.If(c.eq(present(order.index(f)), 1), v, 0.0)
                    out.append(v if k in BOUNDED else clamp(c, v, -6.0, 6.0))
    return out


def run(c, norm, N, lo=-50, hi=50):
    order = [f for k in it.FEATURE_TYPES for f in sorted(norm) if norm[f].feature_type == k]
    pre = c.call("construct", preprocessor.Preprocessor, norm, inject={"Parameter": lambda t, requires_grad=False: t} if c.sym else None)
    c.same("features are expected by type, then by id", list(pre.sorted_features), order)
    pre.eval()
    x = c.tensor("x", [N, len(norm)], lo=lo, hi=hi)
    m = c.tensor("presence", [N, len(norm)], "b")
    y = c.call("forward", pre, x, m)
    n = len(columns(c, norm, order, lambda j: 0.0, lambda j: 1))
    c.same("number of output columns", c.shape(y)[1], n)
    c.same("number of output columns is the announced one", nz.get_num_output_features(norm), n)
    starts = nz.get_feature_start_indices(order, norm)
    at = 0
    for f, s in zip(order, starts):
        c.same("announced start of a feature's columns", s, at)
        at += len(norm[f].possible_values) if norm[f].feature_type == "ENUM" else 1
    for j in range(n):
        c.forall(f"column {j}: normalised value of its own feature, zero where absent", [N],
                 lambda i: c.eq(c.at(y, i, j), columns(c, norm, order, lambda q: c.at(x, i, q), lambda q: c.at(m, i, q))[j]))


for KIND in it.FEATURE_TYPES:
    def one(c, KIND=KIND):
        n = 1 if KIND == "QUANTILE" and c.sym and not c.thorough else 2
        norm = {f: params(c, KIND, f"f{f}") for f in ([7, 3] if n == 2 else [7])}
        run(c, norm, c.dim("N"), 0 if KIND == "PROBABILITY" else -50, 1 if KIND == "PROBABILITY" else 50)
    contract("P19", f"normalisation of {KIND} features", under=[PP + x for x in ("__init__", "forward", "_preprocess_" + KIND)] + ([] if KIND in ("DISCRETE_ACTION",) else [PP + "_create_parameters_" + KIND]),
             bound="one or two features (every value, parameter and the number of rows symbolic)" + ("; 2 or 3 quantiles" if KIND == "QUANTILE" else ""))(one)


@contract("P19", "features of several types", under=[PP + x for x in ("__init__", "forward", "_sort_features_by_normalization", "_get_type_boundaries")] + [NO + "get_num_output_features", NO + "get_feature_start_indices"],
          bound="three features of different types", split=[("types", 4)])
def several(c):
    ks = c.choice("types", [("ENUM", "BINARY", "CONTINUOUS"), ("DO_NOT_PREPROCESS", "ENUM", "ENUM"), ("CONTINUOUS_ACTION", "PROBABILITY", "DISCRETE_ACTION"), ("CLIP_LOG", "BINARY", "CONTINUOUS")])
    norm = {f: params(c, k, f"f{f}") for f, k in zip((5, 9, 2), ks)}
    run(c, norm, c.dim("N"))


@contract("P19", "any mixture of features", under=[PP + "forward"], bounded=True, quick=150, bound="up to 12 features of all types, up to 5 quantiles, 1 to 6 rows")
def mixture(c):
    F = c.int("features", 1, 12)
    ids = list(range(1, F + 1))
    ids = ids if c.bool("ascending") else ids[::-1]
    norm = {f: params(c, c.choice(f"type{f}", list(it.FEATURE_TYPES)), f"f{f}", True) for f in ids}
    run(c, norm, c.int("N", 1, 6), -8, 8)


# ------------------------------------------------------------------ P20
def series(c):
    """a batch of logged values of one feature"""
    n = c.int("n", 20, 60)
    kind = c.choice("kind", ["constant", "binary", "fraction", "ids", "huge ids", "negative ids", "many ids", "normal", "skewed", "spiky", "wide"])
    rnd = np.random.RandomState(c.int("seed", 0, 10 ** 6))
    v = {"constant": lambda: np.full(n, float(rnd.randint(-3, 4))), "binary": lambda: rnd.randint(0, 2, n) * 1.0, "fraction": lambda: rnd.rand(n),
         "ids": lambda: rnd.randint(0, 9, n) * 1.0, "huge ids": lambda: rnd.choice([1.0, 3e9, 2.0 ** 33, 2.0 ** 40], n), "negative ids": lambda: rnd.randint(-4, 9, n) * 1.0, "many ids": lambda: rnd.permutation(500)[:n] * 1.0,
         "normal": lambda: rnd.randn(n) * 4 + 2, "skewed": lambda: np.exp(rnd.randn(n)) * 3 + 1, "spiky": lambda: np.concatenate([rnd.randn(n - 3), rnd.randn(3) * 1e3]), "wide": lambda: rnd.randn(n) * 100}[kind]()
    return v.astype(np.float32 if c.choice("f32", [True, False]) else np.float64)


@contract("P20", "identified parameters describe the logged values", under=[NO + "identify_parameter", NO + "get_feature_norm_metadata", "reagent/preprocessing/identify_types.py:identify_type"], bounded=True, quick=200, bound="20 to 60 values of 11 shapes")
def identify(c):
    v = series(c)
    keep = v.copy()
    cap = c.choice("max enum values", [5, 100])
    qs = c.choice("quantiles", [2, 5, 20])
    k2 = c.choice("k2 threshold", [0.0, 3.0, 1000.0])
    nobox, noq = c.bool("skip_box_cox"), c.bool("skip_quantiles")
    over = c.choice("type", [None, None, None, None, "CONTINUOUS", "CONTINUOUS_ACTION", "DO_NOT_PREPROCESS", "PROBABILITY", "BINARY"])
    if c.bool("metadata"):
        c.assume(v.dtype == np.float32)
        p = c.call("get_feature_norm_metadata", nz.get_feature_norm_metadata, "f", list(v), dict(feature_overrides={"f": over} if over else c.choice("no override", [None, {"g": "BINARY"}]), max_unique_enum_values=cap, quantile_size=qs, quantile_k2_threshold=k2, skip_box_cox=nobox, skip_quantiles=noq))
    else:
        p = c.call("identify", nz.identify_parameter, "f", v, cap, qs, k2, nobox, noq, over)
    c.same("logged values are left alone", v.tolist(), keep.tolist())
    x = keep.astype(np.float64)
    whole = bool(np.all(x == np.floor(x)))
    if over is None:
        kind = "BINARY" if set(x) <= {0.0, 1.0} or x.min() == x.max() else "PROBABILITY" if 0 <= x.min() and x.max() <= 1 else "ENUM" if x.min() >= 0 and whole and len(set(x)) <= cap else "CONTINUOUS"
    else:
        kind = over
    if kind == "CONTINUOUS" and x.min() != x.max():
        c.check("continuous features: Box-Cox only when allowed", p.feature_type in ["CONTINUOUS"] + ["BOXCOX"] * (not nobox) + ["QUANTILE"] * (not noq))
        kind = p.feature_type
    c.same("type", p.feature_type, kind)
    if x.min() == x.max() and kind == "CONTINUOUS":
        c.same("constant continuous feature: left as it is", (p.mean, p.stddev), (0, 1))
        return
    c.checkeq("smallest value", p.min_value, float(x.min()))
    c.checkeq("largest value", p.max_value, float(x.max()))
    if kind in ("CONTINUOUS", "CONTINUOUS_ACTION", "DO_NOT_PREPROCESS"):
        c.check("mean of the values", abs(p.mean - x.mean()) <= 1e-3 * (1 + abs(x).max()))
        sd = max(1.0, x.std(ddof=1))
        c.check("standard deviation of the values, at least 1", abs(p.stddev - sd) <= 1e-3 * (1 + sd))
    if kind == "BOXCOX":
        c.checkeq("shift: smallest value to zero", p.boxcox_shift, -float(x.min()))
        y = np.maximum(x + p.boxcox_shift, 1e-4)
        y = (y ** p.boxcox_lambda - 1) / p.boxcox_lambda
        c.check("mean of the transformed values", abs(p.mean - y.mean()) <= 1e-2 * (1 + abs(y).max()))
        sd = max(1.0, y.std(ddof=1))
        c.check("standard deviation of the transformed values, at least 1", abs(p.stddev - sd) <= 1e-2 * (1 + sd))
    elif kind != "BOXCOX":
        c.check("no Box-Cox parameters otherwise", p.boxcox_lambda is None)
    if kind == "QUANTILE":
        q = p.quantiles
        c.check("quantiles increase strictly", all(a < b for a, b in zip(q, q[1:])))
        c.check("quantiles span the values", abs(q[0] - x.min()) <= 1e-4 * (1 + abs(x).max()) and abs(q[-1] - x.max()) <= 1e-4 * (1 + abs(x).max()))
        c.check("at most the requested number of quantiles", 2 <= len(q) <= qs + 1)
        s = np.sort(x)
        c.check("each quantile lies where its share of the values lies below", all(min(abs(np.quantile(s, j / qs, method="hazen") - a) for a in q) <= (s[min(len(s) - 1, int(j / qs * len(s)) + 1)] - s[max(0, int(j / qs * len(s)) - 2)]) + 1e-6 * (1 + abs(x).max()) for j in range(qs + 1)))
    if kind == "ENUM":
        c.same("possible values: those seen, ascending", p.possible_values, sorted({int(a) for a in x}))


@contract("P20", "few values and round trip", under=[NO + x for x in ("serialize", "serialize_one", "deserialize", "get_feature_norm_metadata", "construct_action_scale_tensor", "sort_features_by_normalization")], bounded=True, quick=80, bound="up to 8 features")
def roundtrip(c):
    n = c.int("n", 1, 19)
    c.same("too few values: no parameters", nz.get_feature_norm_metadata("f", [1.0] * n, dict(feature_overrides=None)), None)
    F = c.int("features", 1, 8)
    ids = list(range(2, F + 2))
    ids = ids if c.bool("ascending") else ids[::-1]
    norm = {f: params(c, c.choice(f"type{f}", list(it.FEATURE_TYPES)), f"f{f}", True) for f in ids}
    back = c.call("round trip", lambda: nz.deserialize(nz.serialize(norm)))
    c.same("parameters survive a round trip", {k: v.__dict__ for k, v in back.items()}, {k: v.__dict__ for k, v in norm.items()})
    order, starts = c.call("sort", nz.sort_features_by_normalization, norm)
    c.same("features by type, then id", list(order), [f for k in it.FEATURE_TYPES for f in sorted(norm) if norm[f].feature_type == k])
    c.same("start of each type", list(starts), [sum(1 for f in norm if it.FEATURE_TYPES.index(norm[f].feature_type) < k) for k in range(len(it.FEATURE_TYPES))])
    acts = {f: NormalizationParameters("CONTINUOUS_ACTION", min_value=c.real(f"lo{f}", -4, 0), max_value=c.real(f"hi{f}", 1, 4)) for f in ids}
    over = {f: (-9.0, 9.0) for f in ids if c.bool(f"override{f}")}
    lo, hi = c.call("action range", nz.construct_action_scale_tensor, acts, over)
    for k, f in enumerate(sorted(ids)):
        c.checkeq("lower end of each action", lo[0, k], over[f][0] if f in over else acts[f].min_value)
        c.checkeq("upper end of each action", hi[0, k], over[f][1] if f in over else acts[f].max_value)
