import math

import numpy as np
import torch
from reagent.evaluation import cpe as _cpe
from reagent.ope.estimators import contextual_bandits_estimators as cb
from reagent.ope.estimators.types import ActionDistribution, ActionSpace, Trainer, PredictResults
from reagent.ope.utils import Clamper, RunningAverage, convert_to_one_hots
from vf.runner import contract
from vf.contracts._common import *
from vf.contracts.ope_cpe import Boot

CB = "reagent/ope/estimators/contextual_bandits_estimators.py:"


@contract("P16", "running average", under=["reagent/ope/utils.py:RunningAverage.add"])
def running(c):
    a = RunningAverage()
    x = c.real("x", -9, 9)
    c.call("add", a.add, x)
    c.checkeq("first value: average", a.average, x)
    c.checkeq("first value: count", a.count, 1)
    n = c.dim("n")  # any earlier history of n values with average avg
    avg, v = c.real("avg", -9, 9), c.real("v", -9, 9)
    a._average, a._count = avg, n
    c.call("add", a.add, v)
    c.checkeq("one more value counted", a.count, n + 1)
    c.checkeq("average of the earlier values and the new one", a.average * (n + 1), avg * n + v)
    c.checkeq("total of the earlier values and the new one", a.total, avg * n + v)
    before = (a.average, a.count)
    a.add(float("nan"))
    a.add(float("inf"))
    c.checkeq("invalid values are left out", a.average, before[0])
    c.checkeq("invalid values are not counted", a.count, before[1])


@contract("P16", "clamping", under=["reagent/ope/utils.py:Clamper.__call__"])
def clamping(c):
    lo, hi = c.choice("range", [(None, None), (0.0, 1.0), (-2.0, 3.0), (0.0, None), (None, 5.0)])
    f = c.call("construct", Clamper, *(() if lo is None and hi is None else (float("-inf") if lo is None else lo, float("inf") if hi is None else hi)))
    lo, hi = -9 if lo is None else lo, 9 if hi is None else hi
    n = c.dim("n")
    want = lambda x: clamp(c, x, lo, hi)
    t = c.tensor("values", [n], lo=-9, hi=9)
    c.eqt("of every element of a tensor", c.call("clamp", f, t), [n], lambda i: want(c.at(t, i)))
    xs = [c.real(f"x{i}", -9, 9) for i in range(3)]
    for x, y in zip(xs, c.call("clamp", f, list(xs))):
        c.checkeq("of every element of a list", y, want(x))
    c.checkeq("of a number", c.call("clamp", f, xs[0]), want(xs[0]))


@contract("P16", "clamping arrays", under=["reagent/ope/utils.py:Clamper.__call__", "reagent/ope/utils.py:Clamper.__init__", "reagent/ope/utils.py:convert_to_one_hots"], bounded=True, quick=40, bound="up to 5 elements")
def clamparray(c):
    n = c.int("n", 1, 5)
    lo, hi = c.int("lo", -4, 4) / 2, c.int("hi", -4, 4) / 2
    try:
        f = Clamper(lo, hi)
    except ValueError:
        f = None
    c.check("only ranges with room are accepted", (f is None) == (lo >= hi))
    x = np.array([c.int(f"x{i}", -9, 9) / 3 for i in range(n)])
    if f is not None:
        c.check("of every element of an array", c.call("clamp", f, x.copy()).tolist() == [min(max(v, lo), hi) for v in x])
    k = c.int("classes", 1, 4)
    a = torch.tensor([c.int(f"a{i}", 0, k - 1) for i in range(n)])
    c.check("each row marks its own class", c.call("one hot", convert_to_one_hots, a, k).tolist() == [[int(j == int(z)) for j in range(k)] for z in a])


def samples(c, n, A, model):
    out = []
    for i in range(n):
        lp = c.tensor(f"log_p{i}", [A], lo=0.0, hi=1.0)
        tp = c.tensor(f"tgt_p{i}", [A], lo=0.0, hi=1.0)
        act = c.choice(f"log_action{i}", list(range(A)))
        kw = {}
        if model:
            sc = c.tensor(f"model{i}", [A], lo=-4, hi=4)
            kw["model_outputs"] = cb.ModelOutputs(c.real(f"model_logged{i}", -4, 4), [c.at(sc, a) for a in range(A)])
        out.append(cb.LogSample(
            context=None, log_action=cb.Action(act), log_reward=c.real(f"r{i}", -4, 4), log_action_probabilities=ActionDistribution(lp),
            tgt_action_probabilities=ActionDistribution(tp), tgt_action=cb.Action(0), ground_truth_reward=c.real(f"g{i}", -4, 4), **kw))
        out[-1].__dict__["_t"] = (lp, tp, act)
    return out


def clamp(c, x, lo, hi):
    return c.If(c.lt(x, lo), lo, c.If(c.lt(hi, x), hi, x)) if lo is not None else x


def weight(c, s, a, cl):
    lp, tp, _ = s._t
    w = c.If(c.lt(c.at(lp, a), 1e-6), 0.0, c.div(c.at(tp, a), c.If(c.lt(c.at(lp, a), 1e-6), 1.0, c.at(lp, a))))
    return clamp(c, w, *cl)


def result(c, name, e, boot, raw, rows, S, boot_ok=True):
    n = len(S)
    log = c.div(sum(s.log_reward for s in S), n)
    c.checkeq(f"{name}: logged reward", e.log_reward, log)
    c.checkeq(f"{name}: ground truth", e.ground_truth_reward, c.div(sum(s.ground_truth_reward for s in S), n))
    c.checkeq(f"{name}: estimate", e.estimated_reward, raw)
    c.checkeq(f"{name}: number of samples", e.estimated_weight, n)
    data, pc, m, se = boot.of(e.estimated_reward_std_error)
    for i in range(n):
        c.checkeq(f"{name}: standard error of the per-sample values", c.at(data, i), rows[i])
    norm = lambda x: x * c.If(c.lt(log, 1e-6), 0.0, c.div(1.0, c.If(c.lt(log, 1e-6), 1.0, log)))
    c.checkeq(f"{name}: normalised estimate", e.estimated_reward_normalized, norm(c.div(sum(rows), n)))
    c.checkeq(f"{name}: normalised standard error", e.estimated_reward_normalized_std_error, norm(se))


def mean(c, xs):
    return c.div(sum(xs), len(xs))


BD = "1 or 2 samples, 2 actions (all probabilities, rewards, model outputs and clamps)"


@contract("P16", "inverse propensity", under=[CB + "IPSEstimator.evaluate", "reagent/ope/utils.py:Clamper.__call__", "reagent/ope/estimators/estimator.py:Estimator._compute_metric_data"], bound=BD, split=[("n", 2)])
def ips(c):
    n, A = c.choice("n", [1, 2]), 2
    cl = c.choice("clamp", [(None, None), (0.25, 2.0)])
    wtd = c.choice("weighted", [False, True])
    S = samples(c, n, A, False)
    boot = Boot(c)
    w = [weight(c, s, s._t[2], cl) for s in S]
    if wtd:
        c.assume(c.lt(1e-3, sum(w)))
    est = cb.IPSEstimator(Clamper(*cl) if cl[0] is not None else None, wtd)
    e = c.call("evaluate", est.evaluate, cb.BanditsEstimatorInput(ActionSpace(A), S, False), stub=boot.stub)
    rows = [s.log_reward * x for s, x in zip(S, w)]
    result(c, "inverse propensity", e, boot, c.div(sum(rows), sum(w)) if wtd else mean(c, rows), rows, S)


def dm_of(c, s):
    return sum(c.at(s._t[1], a) * s.model_outputs.tgt_rewards[a] for a in range(2))


@contract("P16", "direct method and doubly robust", under=[CB + "DMEstimator._evaluate", CB + "DMEstimator.evaluate", CB + "DMEstimator._calc_dm_reward", CB + "DoublyRobustEstimator._evaluate"], bound=BD, split=[("n", 2)])
def dmdr(c):
    n, A = c.choice("n", [1, 2]), 2
    cl = c.choice("clamp", [(None, None), (0.25, 2.0)])
    kind = c.choice("kind", ["dm", "dr"])
    S = samples(c, n, A, True)
    boot = Boot(c)
    inp = cb.BanditsEstimatorInput(ActionSpace(A), S, True)
    if kind == "dm":
        rows = [dm_of(c, s) for s in S]
        e = c.call("evaluate", cb.DMEstimator().evaluate, inp, stub=boot.stub)
    else:
        rows = [dm_of(c, s) + weight(c, s, s._t[2], cl) * (s.log_reward - s.model_outputs.tgt_reward_from_log_action) for s in S]
        e = c.call("evaluate", cb.DoublyRobustEstimator(None, Clamper(*cl) if cl[0] is not None else None).evaluate, inp, stub=boot.stub)
    result(c, "direct method" if kind == "dm" else "doubly robust", e, boot, mean(c, rows), rows, S)


def switch_values(c, S, A, cl, tau, dr):
    out = []
    for s in S:
        w = [weight(c, s, a, cl) for a in range(A)]
        wl = w[s._t[2]]
        r = s.model_outputs.tgt_rewards
        far = sum(c.If(c.lt(tau, w[a]), r[a] * c.at(s._t[1], a), 0.0) for a in range(A))
        near = wl * (s.log_reward - s.model_outputs.tgt_reward_from_log_action) + dm_of(c, s) if dr else wl * s.log_reward
        out.append(c.If(c.le(wl, tau), near, 0.0) + far)
    return out


SW = [CB + x for x in ["SwitchEstimator._evaluate", "SwitchEstimator._calc_estimated_values", "SwitchEstimator._calc_weight_reward_tensors", "SwitchEstimator._estimate_rmax", "SwitchDREstimator._calc_estimated_values"]]


@contract("P16", "switch at its extreme thresholds", under=SW, bound="1 sample, 2 actions, thresholds at both ends", split=[("dr", 2), ("end", 2)])
def switch_ends(c):
    n, A = 1, 2
    dr, end = c.choice("dr", [False, True]), c.choice("end", ["low", "high"])
    cl = (None, None)
    S = samples(c, n, A, True)
    boot = Boot(c)
    est = (cb.SwitchDREstimator if dr else cb.SwitchEstimator)(rmax=c.real("rmax", 0, 4))
    e = c.call("evaluate", est.evaluate, cb.BanditsEstimatorInput(ActionSpace(A), S, True), candidates=1 if end == "high" else 0, stub=boot.stub)
    if end == "high":
        rows = [weight(c, s, s._t[2], cl) * (s.log_reward - (s.model_outputs.tgt_reward_from_log_action if dr else 0.0)) + (dm_of(c, s) if dr else 0.0) for s in S]
    else:
        rows = [dm_of(c, s) for s in S]
    result(c, "switch", e, boot, mean(c, rows), rows, S)


@contract("P16", "switch chooses the threshold of least estimated error", under=SW, bounded=True, quick=150, bound="1 to 6 samples, 2 or 3 actions, 2 to 21 candidate thresholds")
def switch(c):
    n, A = c.int("n", 1, 6), c.choice("A", [2, 3])
    dr = c.choice("dr", [False, True])
    cl = c.choice("clamp", [(None, None), (0.25, 2.0)])
    base, k = c.choice("base", [1.5, 2.0]), c.choice("candidates", [2, 5, 21])
    S = []
    for i in range(n):
        lp, tp, sc = torch.softmax(c.tensor(f"l{i}", [A]), 0), torch.softmax(c.tensor(f"t{i}", [A]), 0), c.tensor(f"m{i}", [A])
        act = c.int(f"a{i}", 0, A - 1)
        S.append(cb.LogSample(context=None, log_action=cb.Action(act), log_reward=c.real(f"r{i}", -4, 4), log_action_probabilities=ActionDistribution(lp), tgt_action_probabilities=ActionDistribution(tp),
                              tgt_action=cb.Action(0), ground_truth_reward=c.real(f"g{i}", -4, 4), model_outputs=cb.ModelOutputs(float(sc[act]), [float(x) for x in sc])))
        S[-1].__dict__["_t"] = (lp, tp, act)
    rmax = c.choice("rmax", [None, 5.0])
    boot = Boot(c)
    est = (cb.SwitchDREstimator if dr else cb.SwitchEstimator)(rmax=rmax, weight_clamper=Clamper(*cl) if cl[0] is not None else None)
    e = c.call("evaluate", est.evaluate, cb.BanditsEstimatorInput(ActionSpace(A), S, True), candidates=k, exp_base=base, stub=boot.stub)
    W = [[float(weight(c, s, a, cl)) for a in range(A)] for s in S]
    lo, hi = min(map(min, W)), max(map(max, W))
    R = rmax if rmax is not None else max(max(s.log_reward, *s.model_outputs.tgt_rewards) for s in S)
    def vals(tau):
        out = []
        for s, w in zip(S, W):
            r, tp = s.model_outputs.tgt_rewards, [float(x) for x in s._t[1]]
            wl = w[s._t[2]]
            near = wl * (s.log_reward - s.model_outputs.tgt_reward_from_log_action) + sum(x * y for x, y in zip(r, tp)) if dr else wl * s.log_reward
            out.append((near if wl <= tau else 0.0) + sum(r[a] * tp[a] for a in range(A) if w[a] > tau))
        return out
    def loss(tau):
        v = vals(tau)
        m = sum(v) / n
        bias = sum(float(s._t[1][a]) * R for s, w in zip(S, W) for a in range(A) if w[a] > tau) / n
        return sum((x - m) ** 2 for x in v) / n ** 2 + bias ** 2
    taus = [lo + base ** (x - k + 1) * (hi - lo) for x in range(k)]
    if any(abs(w - t) < 1e-5 * max(1, hi) for t in taus[:-1] for ws in W for w in ws):
        return  # rounding decides which side of the threshold a weight falls on
    taus[-1] = hi + 1e-9
    best = min(map(loss, taus))
    got = float(e.estimated_reward)
    c.check("the estimate is that of a threshold of least variance plus squared bias", any(abs(sum(vals(t)) / n - got) < 1e-3 for t in taus if loss(t) <= best + 1e-3 * (1 + abs(best))))


class Fake(Trainer):
    """reward model that remembers the samples it was trained on and predicts from the features alone"""

    def __init__(self):
        super().__init__()
        self.seen = []

    name = "fake"

    def train(self, data, iterations=1, num_samples=0):
        self._model = sorted([*data.train_y.tolist(), *data.validation_y.tolist()])
        self.seen.append(self._model)

    def predict(self, x, device=None):
        return PredictResults(None, 0.5 * x[:, 0] + x[:, 1] + 0.01 * len(self.seen))

    def score(self, x, y, weight=None):
        return 0.0


@contract("P16", "reward models are fitted on the other half", under=[CB + "DMEstimator.evaluate", CB + "DMEstimator._train_model", CB + "DMEstimator._calc_dm_reward"], bounded=True, quick=60, bound="4 to 12 samples, 2 or 3 actions")
def crossfit(c):
    n, A = c.int("n", 4, 12), c.choice("A", [2, 3])
    kind = c.choice("kind", [cb.DMEstimator, cb.DoublyRobustEstimator])
    S = []
    for i in range(n):
        lp, tp = torch.softmax(c.tensor(f"l{i}", [A]), 0), torch.softmax(c.tensor(f"t{i}", [A]), 0)
        S.append(cb.LogSample(context=None, log_action=cb.Action(c.int(f"a{i}", 0, A - 1)), log_reward=float(i) + 0.5, log_action_probabilities=ActionDistribution(lp), tgt_action_probabilities=ActionDistribution(tp),
                              tgt_action=cb.Action(0), ground_truth_reward=1.0, item_feature=torch.tensor([c.real(f"f{i}", -2, 2)])))
    t = Fake()
    boot = Boot(c)
    e = c.call("evaluate", kind(trainer=t).evaluate, cb.BanditsEstimatorInput(ActionSpace(A), S, False), stub=boot.stub)
    c.same("two models are fitted", len(t.seen), 2)
    if len(t.seen) != 2:
        return
    idx = [[int(y) for y in s] for s in t.seen]
    nv = [x for x in idx[0] + idx[1]]
    c.check("every sample is used to fit exactly one model", sorted(nv) == list(range(n)) or len(set(nv)) == len(nv) == n)
    def val(i, k):
        s = S[i]
        pred = [0.5 * a + float(s.item_feature) + 0.01 * k for a in range(A)]
        tp, lp = s.tgt_action_probabilities, s.log_action_probabilities
        v = sum(tp[cb.Action(a)] * pred[a] for a in range(A))
        if kind is cb.DoublyRobustEstimator:
            a = s.log_action
            v += tp[a] / lp[a] * (s.log_reward - pred[a.value])
        return v
    halves = [sum(val(i, k + 1) for i in range(n) if i not in idx[k]) / (n - len(idx[k])) for k in range(2)]
    c.checkeq("each half is valued with the model fitted on the other", e.estimated_reward, sum(halves) / 2)
    c.checkeq("logged reward over all samples", e.log_reward, sum(s.log_reward for s in S) / n)


@contract("P16", "no reward model", under=[CB + "DoublyRobustEstimator._evaluate", CB + "DMEstimator._calc_dm_reward"], bounded=True, quick=30, bound="2 to 6 samples")
def nomodel(c):
    n, A = c.int("n", 2, 6), 2
    S = samples(c, n, A, False)
    boot = Boot(c)
    inp = cb.BanditsEstimatorInput(ActionSpace(A), S, False)
    c.check("the direct method gives no estimate", c.call("evaluate", cb.DMEstimator().evaluate, inp, stub=boot.stub) is None)
    e = c.call("evaluate", cb.DoublyRobustEstimator().evaluate, inp, stub=boot.stub)
    rows = {i: float(weight(c, s, s._t[2], (None, None))) * s.log_reward for i, s in enumerate(S)}
    if n % 2 == 0:
        c.checkeq("doubly robust falls back to inverse propensity", e.estimated_reward, sum(rows.values()) / n)
