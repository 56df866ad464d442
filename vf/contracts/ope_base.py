"""P45: evaluation records every experiment's results; maps of values, items and actions stay consistent."""
import itertools
import math
import pickle
import tempfile

import numpy as np
import torch
from reagent.ope.estimators import estimator as es
from reagent.ope.estimators import types as ty
from vf.contracts._common import *
from vf.runner import contract

E_ = "reagent/ope/estimators/estimator.py:"
T_ = "reagent/ope/estimators/types.py:"
V_, O_, I_ = T_ + "Values.", T_ + "Objects.", T_ + "Items."
A, D, Sp = ty.Action, ty.ActionDistribution, ty.ActionSpace


def make(c, n):
    """a map of any values, over numbered or named keys"""
    t = c.tensor("values", [n], lo=-4.0, hi=4.0)
    x = [c.at(t, i) for i in range(n)]
    if c.choice("keys", ["numbered", "named"]) == "numbered":
        d = c.call("construct", D, t)
        return d, [A(i) for i in range(n)], x, lambda ts: ts
    ks = [A(7 - 2 * i) for i in range(n)]
    d = c.call("construct", D, {k: 0.0 for k in ks})
    return c.call("replace", d.replace, t), ks, x, lambda ts: ts


def agrees(c, what, d, ks, x):
    """everything the map answers says the same"""
    n = len(ks)
    c.same(what + ": size", c.call("len", len, d), n)
    c.same(what + ": keys in order", list(c.call("keys", lambda: d.keys)), ks)
    vs = c.call("values", lambda: d.values)
    its = c.call("items", lambda: list(d))
    c.check(what + ": iterates the keys in order", [k for k, _ in its] == ks)
    for i, k in enumerate(ks):
        c.checkeq(what + ": value of a key", c.scalar(c.call("get", lambda: d[k])), x[i])
        c.checkeq(what + ": values in the order of the keys", c.at(vs, i), x[i])
        c.checkeq(what + ": value iterated with its key", c.scalar(its[i][1]), x[i])
        c.same(what + ": place of a key", d.index_of(k), i)


@contract("P45", "values by key", under=[V_ + "_init_values", V_ + "__getitem__", V_ + "replace", V_ + "_values_copy", V_ + "_to_value", O_ + "__setitem__", O_ + "__getitem__", O_ + "__iter__", O_ + "keys", O_ + "values", O_ + "index_of", T_ + "ActionDistribution._to_key"], split=[("keys", 2), ("n", 3)], bound="1 to 3 keys (any values)")
def values(c):
    n = c.choice("n", [1, 2, 3])
    d, ks, x, _ = make(c, n)
    agrees(c, "as built", d, ks, x)
    j = c.choice("key", list(range(n)))
    new = c.tensor("new", [n], lo=-4.0, hi=4.0)
    y = [c.at(new, i) for i in range(n)]
    d2 = c.call("replace", d.replace, new)
    agrees(c, "replaced", d2, ks, y)
    agrees(c, "the original of a replacement", d, ks, x)
    c.call("set", d2.__setitem__, ks[j], c.at(new, 0) + 1)
    agrees(c, "one value set", d2, ks, [y[0] + 1 if i == j else y[i] for i in range(n)])
    agrees(c, "the original of a changed replacement", d, ks, x)
    out = c.call("values", lambda: d.values)
    out[0] = 9.0
    agrees(c, "after changing the copy handed out", d, ks, x)


@contract("P45", "order and probability", under=[V_ + "sort", V_ + "greedy", V_ + "_normalize", V_ + "probability", V_ + "_reset"], split=[("keys", 2), ("n", 3)], bound="1 to 3 keys (any values)")
def order(c):
    n = c.choice("n", [1, 2, 3])
    d, ks, x, _ = make(c, n)
    new = c.real("new", -4, 4)

    def asks(x):
        down = c.call("sort", d.sort)
        up = c.call("sort", d.sort, False)
        for what, (sk, sv), s in (("descending", down, 1), ("ascending", up, -1)):
            c.check(what + ": every key once", sorted(k.value for k in sk) == sorted(k.value for k in ks))
            for i in range(n):
                c.checkeq(what + ": each with its own value", c.at(sv, i), x[ks.index(sk[i])])
                if i:
                    c.check(what + ": ordered", c.le(s * c.at(sv, i), s * c.at(sv, i - 1)))
        for m in range(1, n + 1):
            c.same("greedy: the first of the order", list(c.call("greedy", d.greedy, m)), list(down[0][:m]))
        pos = [c.If(c.le(0, v), v, 0.0) for v in x]
        if bool(c.Or(*[c.lt(0, v) for v in x])):
            for i, k in enumerate(ks):
                c.checkeq("probability: share of the positive values", c.scalar(c.call("probability", d.probability, k)), c.div(pos[i], sum(pos)))
    asks(x)
    if n < 3:
        c.call("set", d.__setitem__, ks[-1], new)
        asks(x[:-1] + [new])


@contract("P45", "values from any source", under=[V_ + "_init_values", V_ + "replace", V_ + "sample", V_ + "__len__", O_ + "_init_values", O_ + "is_sequence"], bounded=True, quick=80, bound="up to 6 keys")
def sources(c):
    n = c.int("n", 1, 6)
    x = [c.int(f"x{i}", -8, 8) / 4 for i in range(n)]
    as_ = {"list": list, "tuple": tuple, "array": lambda v: np.array(v), "tensor": lambda v: torch.tensor(v, dtype=torch.float64), "floats": lambda v: torch.tensor(v, dtype=torch.float32)}
    named = c.choice("named", [True, False])
    ks = [A((5 * i + 3) % 17) for i in range(n)] if named else [A(i) for i in range(n)]
    d = c.call("construct", D, dict(zip(ks, x)) if named else as_[c.choice("from", list(as_))](x))
    c.same("numbered or named", d.is_sequence, not named)
    agrees(c, "built", d, ks, x)
    y = [c.int(f"y{i}", -8, 8) / 4 for i in range(n)]
    how = c.choice("with", list(as_) + ["map"])
    if how == "map":
        some = [i for i in range(n) if c.choice(f"given{i}", [True, False])]
        e = c.call("replace", d.replace, {ks[i]: y[i] for i in some})
        y = [y[i] if i in some else x[i] for i in range(n)]
    else:
        e = c.call("replace", d.replace, as_[how](y))
    agrees(c, "replaced", e, ks, y)
    agrees(c, "original", d, ks, x)
    for bad in (A(100), A(-1), A("x")):
        ok = False
        try:
            d.index_of(bad)
        except ValueError:
            ok = True
        c.check("a key it does not have has no place", ok)
    pos = [k for k, v in zip(ks, x) if v > 0]
    if pos:
        m = c.int("draws", 1, len(pos))
        torch.manual_seed(c.int("seed", 0, 10 ** 6))
        got = c.call("sample", d.sample, m)
        c.check("samples distinct keys of positive value", len(got) == m and len({g.value for g in got}) == m and all(g in pos for g in got))
        c.check("probabilities sum to one", abs(sum(d.probability(k) for k in ks) - 1) < 1e-9)


@contract("P45", "objects by key", under=[O_ + "__setitem__", O_ + "__iter__", O_ + "keys", O_ + "values", O_ + "_init_values", O_ + "index_of", O_ + "__len__"], bounded=True, quick=40, bound="up to 6 keys")
def objects(c):
    class Ob(ty.Objects):
        def _to_key(self, k):
            return A(k)
    n = c.int("n", 1, 6)
    x = [object() for _ in range(n)]
    named = c.choice("named", [True, False])
    ks = [A((5 * i + 3) % 17) for i in range(n)] if named else [A(i) for i in range(n)]
    given = dict(zip(ks, x)) if named else list(x)
    d = c.call("construct", Ob, given)
    for j in (None, c.int("key", 0, n - 1)):
        if j is not None:
            x[j] = object()
            c.call("set", d.__setitem__, ks[j], x[j])
        c.check("items in order", [(k, v) for k, v in d] == list(zip(ks, x)))
        c.check("keys and values in order", list(d.keys) == ks and list(d.values) == x and len(d) == n)
        c.check("each key its own value and place", all(d[k] is v and d.index_of(k) == i for i, (k, v) in enumerate(zip(ks, x))))
    c.check("what it was built from is left alone", (list(given.values()) if named else given)[:] != x)


@contract("P45", "spaces of actions", under=[I_ + x for x in ("__init__", "fill", "index_of", "__int__", "__iter__", "__getitem__", "__len__")] + [T_ + "ActionSpace.distribution", T_ + "ActionSpace._new_item", T_ + "ActionSpace.space"], bounded=True, quick=80, bound="up to 6 actions")
def spaces(c):
    n = c.int("n", 1, 6)
    named = c.choice("named", [True, False])
    acts = [A((5 * i + 3) % 17) for i in range(n)] if named else [A(i) for i in range(n)]
    sp = c.call("construct", Sp, list(acts) if named else n)
    c.check("its actions, in order", list(sp) == acts and list(sp.space) == acts and len(sp) == n and all(sp[i] == a for i, a in enumerate(acts)))
    c.same("numbered or named", sp.is_sequence, not named)
    c.check("each at its place", [c.call("index_of", sp.index_of, a) for a in acts] == list(range(n)))
    for bad in (A(50), A(-1)):
        ok = False
        try:
            sp.index_of(bad)
        except ValueError:
            ok = True
        c.check("an action it does not have has no place", ok)
    x = [c.int(f"x{i}", 0, 8) / 4 for i in range(n)]
    how = c.choice("given as", ["list", "array", "tensor", "map", "short list", "part of a map", "shuffled map"])
    m = c.int("given", 0, n) if how in ("short list", "part of a map") else n
    order = list(range(n)) if how != "shuffled map" else sorted(range(n), key=lambda i: (c.int(f"o{i}", 0, 9), i))
    give = {acts[i]: x[i] for i in order if i < m} if "map" in how else np.array(x) if how == "array" else torch.tensor(x) if how == "tensor" else x[:m]
    d = c.call("distribution", sp.distribution, give)
    agrees(c, "distribution of the space", d, acts, [x[i] if i < m else 0.0 for i in range(n)])


@contract("P45", "equal values, equal keys", under=[T_ + "TypeWrapper." + x for x in ("__eq__", "__ne__", "__hash__", "__lt__", "__index__", "__int__")], bounded=True, quick=60, bound="values of up to 4 numbers")
def wrapper(c):
    n = c.int("n", 1, 4)
    x, y = [[c.int(f"{s}{i}", 0, 2) for i in range(n)] for s in "xy"]
    kinds = {"int": lambda v: v[0], "float": lambda v: v[0] / 2, "tuple": tuple, "tensor": torch.tensor, "array": np.array, "list": list}
    f = kinds[c.choice("kind", list(kinds))]
    a, b = A(f(x)), A(f(y))
    equal = np.array_equal(np.array(f(x)), np.array(f(y)))
    e = c.call("equal", lambda: a == b)
    c.check("equal when their values are", bool(e) == equal and bool(a != b) == (not equal))
    c.check("equal to a copy, with the same hash", A(f(list(x))) == a and hash(A(f(list(x)))) == hash(a))
    c.check("usable as a key", {a: 1}[A(f(list(x)))] == 1 and len({a, b}) == (1 if equal else 2))
    c.check("not equal to a bare value", not (a == 17))
    if not isinstance(f(x), (tuple, list)) and (n == 1 or not isinstance(f(x), (torch.Tensor, np.ndarray))):
        c.check("ordered as their values", bool(a < b) == bool(np.array(f(x) < f(y)).all()))
        c.same("usable as a number", int(a), int(f(x)))
        c.same("usable as an index", list(range(9))[a], list(range(9))[int(f(x))])


class Est(es.Estimator):
    def __init__(self, name, f):
        super().__init__()
        self.name, self.f = name, f

    def __repr__(self):
        return self.name

    def evaluate(self, input, **kw):
        return es.EstimatorResult(*(g(input) if callable(g) else g for g in TABLE[self.f]))


TABLE = {
    "plain": (lambda x: x, lambda x: 2 * x + 1, lambda x: x / 2, lambda x: x + 3),
    "other": (lambda x: -x, lambda x: x * x, lambda x: 1.0, lambda x: 2.0),
    "no truth": (lambda x: x, lambda x: x, lambda x: None, lambda x: 1.0),
    "at times invalid": (lambda x: x, lambda x: [math.nan, math.inf, -math.inf, x][int(x) % 4], lambda x: 1.0, lambda x: 1.0),
}


class Here:
    """the pool of workers, in this process: what each worker does is the code's own"""
    used = 0

    def __init__(self, n):
        Here.used = n

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def map(self, f, xs):
        return [f(x) for x in xs]


def want(exps):
    out = {}
    for ests, x in exps:
        for e in ests:
            rs = out.setdefault(repr(e), [])
            r = e.evaluate(x)
            if math.isfinite(r.estimated_reward):
                rs.append((r.log_reward, r.estimated_reward, r.ground_truth_reward or 0.0, r.estimated_weight))
    return out


@contract("P45", "every experiment's results", under=[E_ + "Evaluator.__init__", E_ + "Evaluator.evaluate", E_ + "run_evaluation", E_ + "EstimatorResults.append", E_ + "EstimatorResults.report", E_ + "ResultDiffs.rmse", E_ + "ResultDiffs.bias", E_ + "ResultDiffs.variance"], bounded=True, quick=80, bound="up to 6 experiments, 4 estimators and 4 workers, the workers run in the checking process")
def evaluations(c):
    m = c.int("experiments", 0, 6)
    ests = [Est(n, n) for n in TABLE]
    exps = []
    for k in range(m):
        some = [e for e in ests if c.choice(f"e{k}{e.name}", [True, False])]
        exps.append((some, float(c.int(f"x{k}", 0, 9))))
    w = c.int("workers", -1, 4)
    Here.used = 0
    old, es.Pool = es.Pool, Here
    try:
        ev = c.call("construct", es.Evaluator, list(exps), w)
        got = c.call("evaluate", ev.evaluate)
    finally:
        es.Pool = old
    c.same("as many workers as configured", Here.used, max(w, 0))
    tup = {k: [(r.log_reward, r.estimated_reward, r.ground_truth_reward, r.estimated_weight) for r in v.results] for k, v in got.items()}
    exp = want(exps)
    c.same("the estimators that took part", sorted(tup), sorted(exp))
    for k, v in exp.items():
        c.same("one result of each experiment", sorted(tup[k]), sorted(v))
        if w <= 0:
            c.same("in the order of the experiments", tup[k], v)
        if len(v) > 1:
            l, e, g, tg, tl, wt = c.call("report", got[k].report)
            mean = lambda z: sum(z) / len(z)
            col = [[r[i] for r in v] for i in range(4)]
            for what, a, b in (("logged", l, col[0]), ("estimated", e, col[1]), ("true", g, col[2]), ("weight", wt, col[3])):
                c.check(f"mean {what}", abs(a - mean(b)) < 1e-5 * (1 + abs(a)))
            for what, df, o in (("truth", tg, col[2]), ("log", tl, col[0])):
                z = [a - b for a, b in zip(col[1], o)]
                for _ in range(2):
                    c.check(f"against the {what}: root mean square", abs(df.rmse.item() - math.sqrt(mean([t * t for t in z]))) < 1e-6)
                    c.check(f"against the {what}: mean", abs(df.bias.item() - mean(z)) < 1e-6)
                    c.check(f"against the {what}: variance", abs(df.variance.item() - sum((t - mean(z)) ** 2 for t in z) / (len(z) - 1)) < 1e-6)


class Tr(ty.Trainer):
    name = "t"
    train = predict = score = None


@contract("P45", "training samples and models", under=[T_ + "Trainer._sample", T_ + "Trainer.save_model", T_ + "Trainer.load_model", T_ + "Trainer.is_trained", T_ + "Trainer.reset"], bounded=True, quick=40, bound="up to 8 rows")
def trainer(c):
    n, w = c.int("rows", 1, 8), c.int("features", 1, 3)
    x = torch.arange(n)[:, None] * 10.0 + torch.arange(w)
    y, wt = torch.arange(n) * 1.0 + 100, (torch.arange(n) * 1.0 + 200) if c.choice("weights", [True, False]) else None
    m = c.int("samples", 0, 10)
    np.random.seed(c.int("seed", 0, 10 ** 6))
    sx, sy, sw = c.call("sample", ty.Trainer._sample, x, y, wt, num_samples=m, fortran_order=c.choice("fortran", [False]))
    size = m if 0 < m < n else n
    rows = [int(v) - 100 for v in sy]
    c.check("as many distinct rows as asked for", len(rows) == size and len(set(rows)) == size and all(0 <= r < n for r in rows))
    c.check("each row's features, label and weight together", all(np.array_equal(sx[i], x[r].numpy()) and (wt is None or sw[i] == wt[r].item()) for i, r in enumerate(rows)) and (sw is None) == (wt is None))
    t = c.call("construct", Tr)
    c.check("untrained at first", not t.is_trained)
    with tempfile.NamedTemporaryFile() as f:
        t._model = {"w": x}
        c.call("save", t.save_model, f.name)
        u = Tr()
        c.call("load", u.load_model, f.name)
        c.check("the saved model comes back", u.is_trained and torch.equal(u._model["w"], x))
    c.call("reset", t.reset)
    c.check("untrained again", not t.is_trained)
