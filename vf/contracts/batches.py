import itertools

import numpy as np
import reagent.types as rlt
import torch
from reagent.parameters import NormalizationData, NormalizationParameters
from reagent.preprocessing import batch_preprocessor as bp
from reagent.preprocessing import normalization as nz
from reagent.preprocessing import postprocessor, preprocessor
from reagent.preprocessing import sparse_to_dense as sd
from reagent.preprocessing import transforms as tf
from vf.runner import contract
from vf.contracts._common import *
from vf.contracts.preprocessing import EPS, clamp, params

SD = "reagent/preprocessing/sparse_to_dense.py:"
BP = "reagent/preprocessing/batch_preprocessor.py:"
TR = "reagent/preprocessing/transforms.py:"


# ------------------------------------------------------------------ P21
def dense(c, cls, key, n, ids, known, zero):
    data, want = [], []
    for i in range(n):
        row = {}
        for f in ids:
            if c.bool(f"has{i}.{f}"):
                row[f] = c.real(f"v{i}.{f}", -100, 100)
        data.append({key(f): v for f, v in row.items()})
        want.append(row)
    v, m = c.call("process", cls(list(known), zero), data, objects=True)
    if not c.eqshape("values: one row per example, one column per feature", v, [n, len(known)]) or not c.eqshape("presence: one row per example, one column per feature", m, [n, len(known)]):
        return
    for i, row in enumerate(want):
        for j, f in enumerate(known):
            c.checkeq("a given feature keeps its value in its own column, a missing one gets the filler", c.at(v, i, j), row[f] if f in row else (0.0 if zero else nz.MISSING_VALUE))
            c.checkeq("presence tells given from missing features", c.at(m, i, j), 1 if zero or f in row else 0)


@contract("P21", "sparse features to dense columns", under=[SD + "PythonSparseToDenseProcessor.process"], bound="2 examples, 2 known features and 1 unknown (every value symbolic, every pattern of missing features)", split=[("zero", 2), ("has0.4", 2), ("has1.4", 2)])
def sparse(c):
    zero = c.choice("zero", [False, True])
    dense(c, sd.PythonSparseToDenseProcessor, int, 2, (4, 1, 9), (4, 1), zero)


@contract("P21", "string keys and larger batches", under=[SD + "StringKeySparseToDenseProcessor.process", SD + "PythonSparseToDenseProcessor.process"], bounded=True, quick=80, bound="1 to 6 examples, up to 6 features")
def sparse2(c):
    ids = list(range(1, c.int("ids", 1, 6) + 1))
    known = [f for f in ids if c.bool(f"known{f}")] + [17]
    known = known if c.bool("ascending") else known[::-1]
    zero = c.choice("zero", [False, True])
    cls, key = (sd.StringKeySparseToDenseProcessor, str) if c.bool("string keys") else (sd.PythonSparseToDenseProcessor, int)
    dense(c, cls, key, c.int("n", 1, 6), ids, known, zero)


# ------------------------------------------------------------------ P22
class Pre(torch.nn.Module):
    """stands for any preprocessor: remembers what it was given, returns a value of its own"""

    def __init__(self, c, name, width):
        super().__init__()
        self.c, self.name_, self.width, self.calls = c, name, width, []

    def forward(self, x, presence):
        y = self.c.tensor(f"{self.name_}.out{len(self.calls)}", [self.c.shape(x)[0], self.width])
        self.calls.append((x, presence, y))
        return y


def fed(c, what, pre, got, x, presence):
    """got is the preprocessor's output for exactly this value and presence"""
    for a, b, y in pre.calls:
        if y is got:
            c.eqt(what + ": features handed to the preprocessor", a, c.shape(x), lambda *i: c.at(x, *i))
            c.eqt(what + ": presence handed to the preprocessor", b, c.shape(presence), lambda *i: c.at(presence, *i))
            return
    c.check(what + " comes from its preprocessor", False)


def batch(c, B, A, **more):
    d = {}
    for k in ("state_features", "next_state_features"):
        d[k], d[k + "_presence"] = c.tensor(k, [B, 2]), c.tensor(k + "_presence", [B, 2], "b")
    for k in ("reward", "time_diff", "step", "mdp_id", "sequence_number", "action_probability"):
        d[k] = c.tensor(k, [B])
    d["possible_actions_mask"], d["possible_next_actions_mask"] = c.tensor("pam", [B, A], "b"), c.tensor("pnam", [B, A], "b")
    d.update(more)
    return d


def common(c, B, d, out, spre):
    keep = {k: v for k, v in d.items()}
    fed(c, "state", spre, out.state.float_features, keep["state_features"], keep["state_features_presence"])
    fed(c, "next state", spre, out.next_state.float_features, keep["next_state_features"], keep["next_state_features_presence"])
    for k, t in [("reward", out.reward), ("time_diff", out.time_diff), ("step", out.step), ("mdp_id", out.extras.mdp_id), ("sequence_number", out.extras.sequence_number), ("action_probability", out.extras.action_probability)]:
        c.eqt(k + ": as a column", t, [B, 1], lambda i, j: c.at(d[k], i))


@contract("P22", "discrete-action batches", under=[BP + "DiscreteDqnBatchPreprocessor.forward", BP + "batch_to_device"])
def discrete(c):
    B, A = c.dim("B"), c.dim("A")
    spre = Pre(c, "state", 3)
    d = batch(c, B, A, action=c.tensor("action", [B], "i", 0, A), next_action=c.tensor("next_action", [B], "i", 0, A + 1))
    d0 = dict(d)
    out = c.call("forward", bp.DiscreteDqnBatchPreprocessor(A, spre, False), d)
    common(c, B, d0, out, spre)
    c.eqt("action: one-hot", out.action, [B, A], lambda i, a: c.If(c.exacteq(c.at(d0["action"], i), a), 1, 0))
    c.eqt("next action: one-hot, zero if there is none", out.next_action, [B, A], lambda i, a: c.If(c.exacteq(c.at(d0["next_action"], i), a), 1, 0))
    c.eqt("not terminal: some next action is possible", out.not_terminal, [B, 1], lambda i, j: c.If(c.Any(A, lambda a: c.eq(c.at(d0["possible_next_actions_mask"], i, a), 1)), 1.0, 0.0))
    c.eqt("possible actions", out.possible_actions_mask, [B, A], lambda i, a: c.at(d0["possible_actions_mask"], i, a))
    c.eqt("possible next actions", out.possible_next_actions_mask, [B, A], lambda i, a: c.at(d0["possible_next_actions_mask"], i, a))


@contract("P22", "batches with parametric and continuous actions", under=[BP + "ParametricDqnBatchPreprocessor.forward", BP + "PolicyNetworkBatchPreprocessor.forward"], split=[("kind", 2)])
def parametric(c):
    B, A = c.dim("B"), c.dim("A")
    kind = c.choice("kind", ["parametric", "policy"])
    spre, apre = Pre(c, "state", 3), Pre(c, "action", 2)
    d = batch(c, B, A, not_terminal=c.tensor("not_terminal", [B], "b"))
    for k in ("action", "next_action"):
        d[k], d[k + "_presence"] = c.tensor(k, [B, 2]), c.tensor(k + "_presence", [B, 2], "b")
    d["possible_actions"], d["possible_next_actions"] = c.tensor("pa", [B, A]), c.tensor("pna", [B, A])
    d0 = dict(d)
    cls = bp.ParametricDqnBatchPreprocessor if kind == "parametric" else bp.PolicyNetworkBatchPreprocessor
    out = c.call("forward", cls(spre, apre, False), d)
    common(c, B, d0, out, spre)
    for k in ("action", "next_action"):
        fed(c, k, apre, getattr(out, k).float_features, d0[k], d0[k + "_presence"])
    c.eqt("not terminal", out.not_terminal, [B, 1], lambda i, j: c.at(d0["not_terminal"], i))
    if kind == "parametric":
        for k in ("possible_actions", "possible_actions_mask", "possible_next_actions", "possible_next_actions_mask"):
            c.eqt(k, getattr(out, k), [B, A], lambda i, a: c.at(d0[k], i, a))


@contract("P22", "column, mask and one-hot transforms", under=[TR + x + ".__call__" for x in ("ColumnVector", "MaskByPresence", "OneHotActions", "Lambda", "ValuePresence", "Compose")])
def transforms(c):
    B, A = c.dim("B"), c.dim("A")
    x, p, m = c.tensor("x", [B, 3]), c.tensor("x_presence", [B, 3], "b"), c.tensor("other", [B])
    col = c.tensor("col", [B, 1])
    a = c.tensor("action", [B], "i", 0, A + 1)
    d = {"x": x, "x_presence": p, "other": m, "pair": (col, col), "action": a}
    t = tf.Compose(tf.ValuePresence(), tf.MaskByPresence(["x"]), tf.ColumnVector(["other", "pair"]), tf.OneHotActions(["action"], A), tf.Lambda(["pair"], lambda v: v * 2))
    out = c.call("transform", t, d)
    c.same("keys", sorted(out), ["action", "other", "pair", "x"])
    c.eqt("value where present, else zero", out["x"], [B, 3], lambda i, j: c.If(c.eq(c.at(p, i, j), 1), c.at(x, i, j), 0.0))
    c.eqt("column vector", out["other"], [B, 1], lambda i, j: c.at(m, i))
    c.eqt("value of a pair, transformed", out["pair"], [B, 1], lambda i, j: c.at(col, i, 0) * 2)
    c.eqt("one-hot action, zero for none", out["action"], [B, A], lambda i, k: c.If(c.exacteq(c.at(a, i), k), 1, 0))


@contract("P22", "dense normalisation of pairs", under=[TR + "DenseNormalization.__call__"], bound="one continuous and one binary feature")
def densenorm(c):
    B = c.dim("B")
    norm = {5: params(c, "CONTINUOUS", "f5"), 3: NormalizationParameters("BINARY")}
    d, raw = {}, {}
    for k in ("a", "b"):
        raw[k] = c.tensor(k, [B, 2]), c.tensor(k + "p", [B, 2], "b")
        d[k] = raw[k]
    t = tf.DenseNormalization(["a", "b"], NormalizationData(dense_normalization_parameters={}))
    object.__setattr__(t.normalization_data, "dense_normalization_parameters", norm)
    out = c.call("normalise", t, d, inject={"Parameter": lambda t, requires_grad=False: t} if c.sym else None)
    for k, (x, p) in raw.items():
        c.eqt("each key is normalised with its own presence", out[k], [B, 2], lambda i, j: c.If(c.eq(c.at(p, i, j), 1), c.If(c.exacteq(j, 0), c.If(c.exacteq(c.at(x, i, 0), 0), 0.0, 1.0), clamp(c, c.div(c.at(x, i, 1) - norm[5].mean, norm[5].stddev), -6.0, 6.0)), 0.0))


@contract("P22", "sequences and slates", under=[TR + x + ".__call__" for x in ("FixedLengthSequences", "SlateView", "StackDenseFixedSizeArray", "FixedLengthSequenceDenseNormalization", "DenseNormalization", "MapIDListFeatures")] + ["reagent/preprocessing/sparse_preprocessor.py:SparsePreprocessor.preprocess_id_list", "reagent/preprocessing/sparse_preprocessor.py:SparsePreprocessor.preprocess_id_score_list"],
          bounded=True, quick=60, bound="up to 5 rows of slates of up to 4 items")
def sequences(c):
    B, L, D = c.int("B", 1, 5), c.int("L", 1, 4), c.int("D", 1, 3)
    x = c.tensor("x", [B * L, D])
    m = c.tensor("m", [B * L, D], "b")
    off = torch.arange(0, B * L, L)
    given = c.choice("expected_length", [None, L])
    out = c.call("sequences", tf.FixedLengthSequences(["s"], 7, given, to_keys=["t"]), {"s": {7: (off, (x, m)), 8: (off, (m, m))}})
    c.check("values of the sequence", out["t"][0] is x and out["t"][1] is m)
    if B > 1:
        bad = off.clone()
        bad[-1] += c.choice("shift", [-1, 1])
        try:
            tf.FixedLengthSequences(["s"], 7, L)({"s": {7: (bad, (x, m))}})
            c.check("sequences of another length are refused", False)
        except AssertionError:
            pass
    v = c.call("slates", tf.SlateView(["t"], L), {"t": x})["t"]
    c.eqt("rows grouped by slate", v, [B, L, D], lambda i, l, j: c.at(x, i * L + l, j))
    norm = {k + 1: NormalizationParameters("CONTINUOUS", mean=c.real(f"mean{k}", -1, 1), stddev=c.real(f"sd{k}", 1, 2)) for k in range(D)}
    t = tf.FixedLengthSequenceDenseNormalization(["s"], 7, NormalizationData(dense_normalization_parameters=norm), given)
    for _ in range(2):
        y = c.call("normalised slates", t, {"s": {7: (off, (x, m))}})["s:7"]
        c.eqt("each item normalised", y, [B, L, D], lambda i, l, j: clamp(c, c.div(c.at(x, i * L + l, j) - norm[j + 1].mean, norm[j + 1].stddev), -6, 6) if c.at(m, i * L + l, j) else 0.0)
    st = tf.StackDenseFixedSizeArray(["k"], D)
    rows = [(x[i], m[i]) for i in range(B * L)]
    c.eqt("stacked arrays", c.call("stack", st, {"k": rows})["k"], [B * L, D], lambda i, j: c.at(x, i, j))
    c.eqt("stacked arrays: a matrix is kept", c.call("stack", st, {"k": x})["k"], [B * L, D], lambda i, j: c.at(x, i, j))
    ids = [c.int(f"id{k}", 0, 5) for k in range(B * L)]
    w = c.tensor("weights", [B * L])
    cfg = rlt.ModelFeatureConfig(float_feature_infos=[], id_list_feature_configs=[rlt.IdListFeatureConfig(name="l", feature_id=1, id_mapping_name="map")], id_score_list_feature_configs=[rlt.IdScoreListFeatureConfig(name="s", feature_id=2, id_mapping_name="map")],
                                 id_mapping_config={"map": rlt.IdMapping(ids=[50 + 10 * k for k in range(6)])})
    raw = torch.tensor([50 + 10 * k for k in ids])
    tr = tf.MapIDListFeatures(["ll", "gone"], ["ss"], cfg, torch.device("cpu"))
    out = c.call("id lists", tr, {"ll": {1: (off, raw), 99: (off, raw)}, "ss": {2: (off, raw, w)}})
    c.same("absent id lists", out["gone"], None)
    c.same("only known lists, by name", (sorted(out["ll"]), sorted(out["ss"])), (["l"], ["s"]))
    c.same("ids become their positions", (out["ll"]["l"][1].tolist(), out["ss"]["s"][1].tolist()), (ids, ids))
    c.same("offsets and weights are kept", (out["ll"]["l"][0].tolist(), out["ss"]["s"][0].tolist(), out["ss"]["s"][2].tolist()), (off.tolist(), off.tolist(), w.tolist()))


# ------------------------------------------------------------------ P23
@contract("P23", "serving actions come back from the training range", under=["reagent/preprocessing/postprocessor.py:Postprocessor.forward", "reagent/preprocessing/postprocessor.py:Postprocessor.__init__", "reagent/preprocessing/preprocessor.py:Preprocessor._preprocess_CONTINUOUS_ACTION"], bound="two action dimensions")
def inverse(c):
    B = c.dim("B")
    norm = {f: params(c, "CONTINUOUS_ACTION", f"a{f}") for f in (8, 2)}
    order = sorted(norm)
    inj = {"Parameter": lambda t, requires_grad=False: t} if c.sym else None
    pre = c.call("construct", preprocessor.Preprocessor, norm, inject=inj)
    pre.eval()
    post = c.call("construct", postprocessor.Postprocessor, norm, False)
    x = c.tensor("serving action", [B, 2], lo=-40, hi=40)
    y = c.call("to training range", pre, x, c.tensor("present", [B, 2], "i", 1, 2))
    z = c.call("to serving range", post, y)
    u = c.tensor("training action", [B, 2], lo=-2, hi=2)
    v = c.call("to serving range", post, u)
    for j, f in enumerate(order):
        p = norm[f]
        c.forall("training actions lie within (-1, 1)", [B], lambda i: c.And(c.lt(-1, c.at(y, i, j)), c.lt(c.at(y, i, j), 1)))
        c.forall("there and back: the action itself, clamped to its range", [B], lambda i: c.eq(c.at(z, i, j), clamp(c, c.at(x, i, j), p.min_value, p.max_value)))
        tol = 1e-4 if not c.sym else 0.0
        c.forall("any training action is served within the action's range", [B], lambda i: c.And(c.le(p.min_value - tol, c.at(v, i, j)), c.le(c.at(v, i, j), p.max_value + tol)))
        a1 = 1 - EPS
        c.forall("serving is linear between the two ends", [B], lambda i: c.eq(c.at(v, i, j), p.min_value + c.div((p.max_value - p.min_value) * (clamp(c, c.at(u, i, j), -a1, a1) + a1), 2 * a1)))


@contract("P23", "other actions are served as they are", under=["reagent/preprocessing/postprocessor.py:Postprocessor.forward"])
def identity(c):
    B = c.dim("B")
    kind = c.choice("kind", ["DISCRETE_ACTION", "DO_NOT_PREPROCESS"])
    post = c.call("construct", postprocessor.Postprocessor, {k: NormalizationParameters(kind) for k in (1, 0)}, False)
    x = c.tensor("x", [B, 2])
    c.eqt("unchanged", c.call("serve", post, x), [B, 2], lambda i, j: c.at(x, i, j))


TY = "reagent/types.py:"


@contract("P22", "batches given as named columns", under=[TY + x + ".from_dict" for x in ("BaseInput", "DiscreteDqnInput", "ParametricDqnInput", "PolicyNetworkInput", "SlateQInput", "ExtraData")] + [TY + "BaseInput.as_dict_shallow"], split=[("kind", 4)], bound="2 candidate documents (any number of rows, any features)")
def named(c):
    kind = c.choice("kind", ["discrete", "parametric", "policy", "slate"])
    B, D, A, G, n = c.dim("B"), c.dim("D"), c.dim("A"), c.dim("G"), 2
    docs = c.choice("documents", [False, True]) or kind == "slate"
    d, shapes = {}, {}

    def put(k, s, dt="f"):
        d[k], shapes[k] = c.tensor(k, s, dt), s
    for k, s in (("state_features", [B, D]), ("next_state_features", [B, D]), ("time_diff", [B, 1]), ("not_terminal", [B, 1])):
        put(k, s)
    if kind == "slate":
        put("position_reward", [B, n])
        put("reward_mask", [B, n], "m")
        for p in ("", "next_"):
            put(p + "item_mask", [B, n], "m")
            put(p + "item_probability", [B, n])
            put(p + "action", [B, n])
    else:
        put("reward", [B, 1])
        step = c.choice("step", [True, False]) or kind == "parametric"
        if step:
            put("step", [B, 1])
        put("action", [B, A])
        put("next_action", [B, A])
    if docs and kind != "parametric":
        put("candidate_features", [B, n, G])
        put("next_candidate_features", [B, n, G])
    if kind in ("discrete", "parametric"):
        put("possible_actions_mask", [B, A], "m")
        put("possible_next_actions_mask", [B, A], "m")
    if kind == "parametric":
        put("possible_actions", [B, G])
        put("possible_next_actions", [B, G])
    extras = rlt.ExtraData()
    if kind != "slate":
        d["extras"] = extras
    else:
        for k in ("mdp_id", "sequence_number", "action_probability"):
            put(k, [B, 1])
    ids, nids = {"a": (1, 2)}, {"b": (3, 4)}
    listed = [False] * 4
    names = ["state_id_list_features", "next_state_id_list_features", "state_id_score_list_features", "next_state_id_score_list_features"]
    lists = [ids, nids, {"c": 1}, {"d": 2}]
    if kind in ("discrete", "policy"):
        listed = c.choice("id lists", [[0, 0, 0, 0], [1, 1, 1, 1], [1, 0, 1, 0], [0, 1, 0, 1]])
        absent = c.choice("absent lists", ["left out", "empty"])
        d.update({k: v if g else {} for k, v, g in zip(names, lists, listed) if g or absent == "empty"})
    cls = {"discrete": rlt.DiscreteDqnInput, "parametric": rlt.ParametricDqnInput, "policy": rlt.PolicyNetworkInput, "slate": rlt.SlateQInput}[kind]
    given = dict(d)
    x = c.call("from_dict", cls.from_dict, d)
    c.check("the columns are left alone", set(given) == set(d) and all(given[k] is d[k] for k in d))
    c.check("of the class asked for", type(x) is cls)
    feat = lambda v: v.float_features
    got = {"state_features": feat(x.state), "next_state_features": feat(x.next_state), "time_diff": x.time_diff, "not_terminal": x.not_terminal}
    if kind == "slate":
        got.update(position_reward=x.reward, reward_mask=x.reward_mask, action=x.action, next_action=x.next_action)
        for p, s in (("", x.state), ("next_", x.next_state)):
            got.update({p + "item_mask": s.candidate_docs.mask, p + "item_probability": s.candidate_docs.value})
        for k in ("mdp_id", "sequence_number", "action_probability"):
            got[k] = getattr(x.extras, k)
        c.same("nothing else is made up", [k for k, v in x.extras.__dict__.items() if v is not None and k not in d], [])
    else:
        fa = (lambda v: v) if kind == "discrete" else feat
        got.update(reward=x.reward, action=fa(x.action), next_action=fa(x.next_action))
        c.check("step", x.step is not None if step else x.step is None)
        if step:
            got["step"] = x.step
        c.check("extras", x.extras is extras)
    if kind in ("discrete", "parametric"):
        got.update(possible_actions_mask=x.possible_actions_mask, possible_next_actions_mask=x.possible_next_actions_mask)
    if kind == "parametric":
        got.update(possible_actions=feat(x.possible_actions), possible_next_actions=feat(x.possible_next_actions))
    elif docs:
        got.update(candidate_features=feat(x.state.candidate_docs), next_candidate_features=feat(x.next_state.candidate_docs))
    else:
        c.check("no documents", x.state.candidate_docs is None and x.next_state.candidate_docs is None)
    c.same("every column has its field", sorted(got), sorted(shapes))
    for k, s in shapes.items():
        c.eqt("column " + k, got[k], s, lambda *i: c.at(d[k], *i))
    if kind in ("discrete", "policy"):
        c.same("id lists", [x.state.id_list_features, x.next_state.id_list_features, x.state.id_score_list_features, x.next_state.id_score_list_features], [v if g else {} for v, g in zip(lists, listed)])
