import itertools
import math
import random

import numpy as np
import torch
from reagent.ope.estimators import slate_estimators as sl
from reagent.ope.estimators.types import PredictResults, Trainer
from reagent.ope.utils import Clamper
from vf.runner import contract
from vf.contracts._common import *

SL = "reagent/ope/estimators/slate_estimators.py:"
I, K = sl.SlateItem, sl.SlateSlot


def pl(c, p, items):
    """Plackett-Luce probability of drawing these items in order without replacement"""
    out, left = 1.0, list(range(len(p)))
    for x in items:
        out = out * c.div(p[x], sum(p[k] for k in left))
        left.remove(x)
    return out


def showing(c, p, k, x):
    """chance of showing item x in slot k: what is left after k other items were drawn, in terms of shares of the total score"""
    q = [c.If(c.le(0, y), y, 0.0) for y in p]
    q = [c.div(y, sum(q)) for y in q]
    if k == 0:
        return q[x]
    out = 0.0
    for its in itertools.permutations([i for i in range(len(p)) if i != x], k):
        w, used = 1.0, 0.0
        for i in its:
            w, used = c.div(w * q[i], 1.0 - used), used + q[i]
        out = out + c.div(w, 1.0 - used)
    return out * q[x]


def vals(c, name, n, lo=0.0, hi=4.0, lo_open=False):
    t = c.tensor(name, [n], lo=lo, hi=hi, lo_open=lo_open)
    return t, [c.at(t, i) for i in range(n)]


@contract("P18", "item distribution", under=[SL + "SlateItemProbabilities." + x for x in ["slate_probability", "slot_item_expectations", "_calculate_expectations"]] + [SL + "_calculate_slot_expectation", SL + "SlateSlotItemExpectations.expected_rewards"],
          bound="1 or 2 slots, 2 or 3 items (every score and reward symbolic)", split=[("slots", 2), ("items", 2)])
def itemdist(c):
    m, n = c.choice("slots", [1, 2]), c.choice("items", [2, 3])
    t, p = vals(c, "score", n, 0.125, 4.0)
    d = c.call("construct", sl.SlateItemProbabilities, t)
    slots = sl.SlateSlots(m)
    for its in itertools.permutations(range(n), m):
        got = c.call("slate_probability", d.slate_probability, sl.Slate([I(x) for x in its]))
        c.checkeq("probability of a slate: items drawn in order without replacement", c.scalar(got), pl(c, p, its))
    e = c.call("slot_item_expectations", d.slot_item_expectations, slots)
    ev = c.call("values_tensor", e.values_tensor)
    for k in range(m):
        for x in range(n):
            c.checkeq("expectation of an item in a slot: total probability of the slates showing it there", c.at(ev, k, x), showing(c, p, k, x))
    rt, r = vals(c, "reward", n, -4, 4)
    er = c.call("expected_rewards", lambda: e.expected_rewards(sl.SlateItemValues(rt)).values)
    for k in range(m):
        c.checkeq("expected reward of a slot", c.at(er, k), sum(c.at(ev, k, x) * r[x] for x in range(n)))


@contract("P18", "slate distributions are consistent", under=[SL + "SlateItemProbabilities." + x for x in ["slate_probability", "slot_item_expectations", "slate_space", "sample_slate", "_sample_expectations"]] + [SL + "SlateSlotItemProbabilities." + x for x in ["slate_probability", "sample_slate", "slot_item_expectations"]],
          bounded=True, quick=60, bound="1 to 4 slots, up to 5 items")
def consistent(c):
    n = c.int("items", 2, 5)
    m = c.int("slots", 1, min(4, n))
    greedy = c.choice("greedy", [False, True])
    p = [c.int(f"p{i}", 1, 40) / 8 + i * 1e-3 for i in range(n)]
    named = c.choice("named", [False, True])
    d = sl.SlateItemProbabilities(list(p), greedy)
    slots = sl.SlateSlots([K(10 + k) for k in range(m)]) if named else sl.SlateSlots(m)
    if not named:
        space = c.call("slate_space", lambda: list(d.slate_space(slots)))
        c.checkeq("the slates have total probability one", sum(x for _, x in space), 1.0)
        c.same("every slate once", len({tuple(i.value for i in s) for s, _ in space}), 1 if greedy else math.perm(n, m))
        for s, x in space:
            c.checkeq("slate space and slate probability agree", d.slate_probability(sl.make_slate(slots, s)), x)
            if not greedy:
                c.checkeq("items drawn in order without replacement", x, pl(c, p, [i.value for i in s]))
    s = c.call("sample_slate", d.sample_slate, slots)
    its = [i.value for i in s.items]
    c.check("a sampled slate shows distinct items of the distribution", len(s) == m and len(set(its)) == m and all(0 <= i < n for i in its))
    c.check("a sampled slate has positive probability", d.slate_probability(s) > 0)
    if greedy:
        c.same("greedy: items of greatest score, best first", its, sorted(range(n), key=lambda i: -p[i])[:m])
    e = c.call("slot_item_expectations", d.slot_item_expectations, slots)
    ev = e.values_tensor()
    for k in range(m):
        c.checkeq("each slot shows one item", ev[k].sum(), 1.0)
    if greedy:
        for k in range(m):
            c.checkeq("greedy expectation", ev[k, its[k]], 1.0)
    p2 = [p[-1 - i] + i * 1e-2 for i in range(n)]
    for how in ("replace", "set"):
        if how == "replace":
            d2 = c.call("replace", d.replace, torch.tensor(p2, dtype=torch.float64))
        else:
            d2 = sl.SlateItemProbabilities(list(p), greedy)
            d2.slot_item_expectations(slots)
            for i in range(n):
                d2[I(i)] = p2[i]
        a = c.call("expectations of the new probabilities", lambda: d2.slot_item_expectations(slots).values_tensor())
        b = sl.SlateItemProbabilities(list(p2), greedy).slot_item_expectations(slots).values_tensor()
        if greedy or m <= 2:
            c.check("changed probabilities are taken into account", c.close(a, b, atol=1e-3))
    feats = torch.arange(n * 2.0).reshape(n, 2)
    r = sl.SlateItemValues([float(i * i) for i in range(n)])
    sv = c.call("slot_values", s.slot_values, r)
    sf = c.call("slot_features", s.slot_features, sl.SlateItemFeatures(feats))
    for k, slot in enumerate(slots):
        c.checkeq("value of a slot: its item's", sv[slot], float(its[k] ** 2))
        c.same("features of a slot: its item's", sf[slot].tolist(), feats[its[k]].tolist())
    sp = [[c.int(f"sp{k}.{i}", 1, 40) / 8 + i * 1e-3 for i in range(n)] for k in range(m)]
    q = sl.SlateSlotItemProbabilities([sl.SlateItemValues(x) for x in sp], greedy)
    tot = 0.0
    for its in itertools.permutations(range(n), m):
        want, used = 1.0, []
        for k, x in enumerate(its):
            left = [i for i in range(n) if i not in used]
            want *= (1.0 if x == max(left, key=lambda i: sp[k][i]) else 0.0) if greedy else sp[k][x] / sum(sp[k][i] for i in left)
            used.append(x)
        got = c.call("slate_probability", q.slate_probability, sl.Slate([I(x) for x in its]))
        c.checkeq("slot-dependent: each slot draws among the items not yet shown", got, want)
        tot += got
    c.checkeq("slot-dependent: total probability one", tot, 1.0)
    s = c.call("sample_slate", q.sample_slate, sl.SlateSlots(m))
    c.check("slot-dependent: a sampled slate has positive probability", q.slate_probability(s) > 0)


@contract("P18", "expectations of slot-dependent distributions", under=[SL + "SlateSlotItemProbabilities.slot_item_expectations"], bounded=True, quick=40, bound="1 to 3 slots, 3 or 4 items")
def slotexp(c):
    n, m = c.int("items", 3, 4), c.int("slots", 1, 3)
    greedy = c.choice("greedy", [False, True])
    sp = [[c.int(f"sp{k}.{i}", 1, 40) / 8 + i * 1e-3 for i in range(n)] for k in range(m)]
    q = sl.SlateSlotItemProbabilities([sl.SlateItemValues(x) for x in sp], greedy)
    ev = c.call("slot_item_expectations", lambda: q.slot_item_expectations().values_tensor())
    for x in range(n):
        c.checkeq("first slot: its own distribution", ev[0, x], sp[0][x] / sum(sp[0]) if not greedy else float(x == max(range(n), key=lambda i: sp[0][i])))
    ok = True
    for k in range(1, m):
        for x in range(n):
            want = sum(q.slate_probability(sl.Slate([I(i) for i in its])) for its in itertools.permutations(range(n), m) if its[k] == x)
            ok = ok and abs(want - float(ev[k, x])) < 1e-6
    if greedy:
        c.check("greedy: the item shown in each slot", ok)
    else:
        c.check("later slots: total probability of the slates showing the item there", ok)


@contract("P18", "slate metrics", under=[SL + x for x in ["SlateMetric.calculate_reward", "DCGSlateMetric.slot_values", "DCGSlateMetric.slot_weights", "NDCGSlateMetric.slot_weights", "ERRSlateMetric.slot_values"]], bound="1 to 3 slots, rewards symbolic", split=[("slots", 3)])
def metrics(c):
    m = c.choice("slots", [1, 2, 3])
    t, r = vals(c, "reward", m, 0, 4)
    slots = sl.SlateSlots(m)
    rv = c.call("values", sl.SlateSlotValues, t)
    c.checkeq("sum of the rewards", c.scalar(c.call("metric", sl.SlateMetric(), slots, rv)), sum(r))


@contract("P18", "gains and discounts", under=[SL + x for x in ["DCGSlateMetric.slot_values", "DCGSlateMetric.slot_weights", "NDCGSlateMetric.slot_weights", "ERRSlateMetric.slot_values", "ERRSlateMetric.slot_weights", "RankingDistribution.distribution", "FrechetDistribution.distribution", "RewardDistribution.__call__"]], bounded=True, quick=100, bound="1 to 6 slots of up to 8 items")
def gains(c):
    n = c.int("items", 1, 8)
    m = c.int("slots", 1, min(6, n))
    mx = c.choice("max_reward", [1.0, 2.0, 3.0, 4.0])
    rel = [c.choice(f"r{i}", [0.0, 0.5, 1.0, mx]) for i in range(n)]
    its = c.choice("order", [list(range(n)), list(range(n))[::-1]])[:m]
    slots = sl.SlateSlots(m)
    s = sl.make_slate(slots, [I(i) for i in its])
    iv = sl.SlateItemValues(rel)
    rv = s.slot_values(iv)
    dcg = lambda xs: sum((2 ** x - 1) / math.log2(k + 2) for k, x in enumerate(xs))
    got = [rel[i] for i in its]
    c.checkeq("DCG", c.call("dcg", sl.DCGSlateMetric(), slots, rv), dcg(got))
    ideal = dcg(sorted(rel, reverse=True)[:m])
    nd = sl.NDCGSlateMetric(iv)
    for _ in range(2):
        c.checkeq("NDCG: relative to the best slate", c.call("ndcg", nd, slots, rv), dcg(got) / ideal if ideal else 0.0)
    p, err = 1.0, 0.0
    for k, x in enumerate(got):
        R = (2 ** x - 1) / 2 ** mx
        err += p * R / (k + 1)
        p *= 1 - R
    c.checkeq("ERR: chance of stopping at each slot over its rank", c.call("err", sl.ERRSlateMetric(mx), slots, rv), err)
    alpha, shape = c.choice("alpha", [-1.0, 0.0, 0.5, 1.0, 2.0]), c.choice("shape", [1.0, 2.0])
    rank = {i: k + 1 for k, i in enumerate(sorted(range(n), key=lambda i: -rel[i] - 1e-9 * (n - i)))}
    uniq = [x + 0.001 * i for i, x in enumerate(rel)]
    rank = {i: k + 1 for k, i in enumerate(sorted(range(n), key=lambda i: -uniq[i]))}
    d = c.call("ranking", sl.RankingDistribution(alpha), sl.SlateItemValues(uniq))
    f = c.call("frechet", sl.FrechetDistribution(shape), sl.SlateItemValues(uniq))
    for i in range(n):
        c.checkeq("ranking distribution: 2^-floor(alpha log2 rank)", d[I(i)], 2.0 ** -math.floor(alpha * math.log2(rank[i]) + 1e-12) if alpha >= 0 else uniq[i])
        c.checkeq("Frechet distribution: power of the score", f[I(i)], uniq[i] ** shape)


def log(c, n, prob=True, **kw):
    out = []
    for i in range(n):
        d = dict(context=sl.SlateContext(sl.SlateQuery((i,)), sl.SlateSlots(2)), metric=sl.SlateMetric(), log_slate=sl.Slate([I(0), I(1)]), log_reward=c.real(f"r{i}", -4, 4),
                 ground_truth_reward=c.real(f"g{i}", -4, 4), _log_item_probabilities=sl.SlateItemProbabilities([1.0, 1.0]))
        if prob:
            d["_log_slate_probability"] = c.real(f"log_p{i}", 0, 1)
            d["_tgt_slate_probability"] = c.real(f"tgt_p{i}", 0, 1)
        out.append(sl.LogSample(**d))
    return out


def weight(c, lp, tp, cl):
    """(counted, weight)"""
    w = c.div(tp, c.If(c.le(lp, 0), 1.0, lp))
    w = c.If(c.lt(w, cl[0]), cl[0], c.If(c.lt(cl[1], w), cl[1], w)) if cl[0] is not None else w
    return c.Or(c.eq(tp, lp), c.le(tp, 0), c.lt(0, lp)), c.If(c.eq(tp, lp), 1.0, c.If(c.le(tp, 0), 0.0, w))


def summary(c, e, S, rows, keep, ws, weighted):
    n = sum(c.If(k, 1.0, 0.0) for k in keep)
    tot = lambda xs: sum(c.If(k, x, 0.0) for k, x in zip(keep, xs))
    c.checkeq("logged reward", e.log_reward, c.div(tot([s.log_reward for s in S]), n))
    c.checkeq("ground truth", e.ground_truth_reward, c.div(tot([s.ground_truth_reward for s in S]), n))
    if weighted:
        c.checkeq("estimate: weighted rewards over the total weight", e.estimated_reward, c.div(tot(rows), tot(ws)))
    else:
        c.checkeq("estimate: mean weighted reward", e.estimated_reward, c.div(tot(rows), n))
        c.checkeq("number of samples", e.estimated_weight, n)


@contract("P18", "inverse propensity over slates", under=[SL + "IPSEstimator.evaluate", SL + "IPSEstimator._evaluate_sample"], bound="1 or 2 samples (every number symbolic)", split=[("n", 2), ("weighted", 2)])
def ips(c):
    n = c.choice("n", [1, 2])
    wtd = c.choice("weighted", [True, False])
    cl = c.choice("clamp", [(None, None), (0.125, 2.0)])
    S = log(c, n)
    kw = [weight(c, s._log_slate_probability, s._tgt_slate_probability, cl) for s in S]
    keep, ws = [k for k, _ in kw], [w for _, w in kw]
    if wtd:
        c.assume(c.lt(1e-3, sum(c.If(k, w, 0.0) for k, w in kw)))
    est = sl.IPSEstimator(Clamper(*cl) if cl[0] is not None else None, wtd)
    e = c.call("evaluate", est.evaluate, sl.SlateEstimatorInput(S))
    if e is None:
        c.check("no estimate only without a valid sample", c.Not(c.Or(*keep)))
        return
    c.check("an estimate needs a valid sample", c.Or(*keep))
    summary(c, e, S, [s.log_reward * w for s, w in zip(S, ws)], keep, ws, wtd)


class Model(Trainer):
    name = "fake"

    def __init__(self):
        super().__init__()
        self.data = None

    def train(self, data, iterations=1, num_samples=0):
        self._model, self.data = True, data

    def reset(self):
        pass

    def predict(self, x, device=None):
        return PredictResults(None, (x * torch.arange(1.0, x.shape[1] + 1).double()).sum(1).double())

    def score(self, x, y, weight=None):
        return 0.0


@contract("P18", "model-based and position-based estimators", under=[SL + x for x in ["DMEstimator.evaluate", "DMEstimator._train_model", "DMEstimator._evaluate_sample", "DoublyRobustEstimator.evaluate", "DoublyRobustEstimator._evaluate_sample", "PBMEstimator._evaluate_sample", "PBMEstimator.evaluate", "PseudoInverseEstimator._evaluate_sample", "PseudoInverseEstimator.evaluate"]],
          bounded=True, quick=60, bound="2 to 6 samples, 1 to 3 slots, 3 or 4 items")
def modelled(c):
    N, m, n = c.int("N", 2, 6), c.int("slots", 1, 3), c.int("items", 3, 4)
    ratio = c.choice("ratio", [0.5, 1.0])
    cl = c.choice("clamp", [(None, None), (0.125, 2.0)])
    pbmw = c.choice("slot weights", [False, True])
    wtd = c.choice("weighted", [False, True])
    slots = sl.SlateSlots(m)
    S, raw = [], []
    for i in range(N):
        lp = [c.int(f"l{i}.{a}", 1, 40) / 8 for a in range(n)]
        tp = [c.int(f"t{i}.{a}", 1, 40) / 8 for a in range(n)]
        its = c.choice(f"slate{i}", list(itertools.permutations(range(n), m)))
        feats = torch.tensor([[c.real(f"f{i}.{a}", -2, 2)] for a in range(n)]).double()
        sw, spr = [1.0 / (k + 1) for k in range(m)], [0.5 + 0.25 * k for k in range(m)]
        S.append(sl.LogSample(context=sl.SlateContext(sl.SlateQuery((i,)), slots), metric=sl.SlateMetric(), log_slate=sl.make_slate(slots, [I(x) for x in its]), log_reward=c.real(f"r{i}", -4, 4),
                              _log_item_probabilities=sl.SlateItemProbabilities(list(lp)), _tgt_item_probabilities=sl.SlateItemProbabilities(list(tp)), ground_truth_reward=c.real(f"g{i}", -4, 4), item_features=sl.SlateItemFeatures(feats),
                              slot_weights=sl.SlateSlotValues(sw) if pbmw else None, slot_probabilities=sl.SlateSlotValues(spr) if pbmw else None))
        raw.append((lp, tp, its, feats, [a * b for a, b in zip(sw, spr)] if pbmw else [1.0] * m))
    pred = lambda i, its: sum((k + 1) * float(raw[i][3][x, 0]) for k, x in enumerate(its))
    perms = list(itertools.permutations(range(n), m))
    dm = lambda i: sum(pl(c, raw[i][1], x) * pred(i, x) for x in perms)
    clamp = lambda w: min(max(w, cl[0]), cl[1]) if cl[0] is not None else w
    ratio_w = lambda a, b: 1.0 if a == b else clamp(a / b)
    mk = lambda: Clamper(*cl) if cl[0] is not None else None
    ev = [i for i in range(N) if i >= int(N * ratio)] if ratio < 1 else list(range(N))
    w = [ratio_w(pl(c, r[1], r[2]), pl(c, r[0], r[2])) for r in raw]
    t = Model()
    e = c.call("direct method", sl.DMEstimator(t, ratio).evaluate, sl.SlateEstimatorInput(S))
    c.same("trained on the leading share of the samples", t.data.train_y.tolist(), [s.log_reward for i, s in enumerate(S) if i < (int(N * ratio) if ratio < 1 else N)])
    c.checkeq("direct method: model value expected under the target policy", e.estimated_reward, sum(map(dm, ev)) / len(ev))
    c.checkeq("direct method: logged reward of the valued samples", e.log_reward, sum(S[i].log_reward for i in ev) / len(ev))
    e = c.call("doubly robust", sl.DoublyRobustEstimator(Model(), ratio, mk(), wtd).evaluate, sl.SlateEstimatorInput(S))
    rows = [dm(i) + w[i] * (S[i].log_reward - pred(i, raw[i][2])) for i in ev]
    c.checkeq("doubly robust: direct method plus the weighted residual", e.estimated_reward, sum(rows) / (sum(w[i] for i in ev) if wtd else len(ev)))
    ex = lambda p: [[sum(pl(c, p, s) for s in perms if s[k] == x) for x in range(n)] for k in range(m)]
    pw = []
    for lp, tp, its, _, sw in raw:
        el, et = ex(lp), ex(tp)
        nu, de = sum(sw[k] * et[k][x] for k, x in enumerate(its)), sum(sw[k] * el[k][x] for k, x in enumerate(its))
        pw.append(1.0 if nu == de else clamp(nu / de))
    e = c.call("position based", sl.PBMEstimator(mk(), wtd).evaluate, sl.SlateEstimatorInput(S))
    c.checkeq("position based: expected examination under target over logging policy", e.estimated_reward, sum(x * s.log_reward for x, s in zip(pw, S)) / (sum(pw) if wtd else N))
    qw = []
    for lp, tp, its, _, _ in raw:
        el, et = np.array(ex(lp)).flatten(), np.array(ex(tp)).flatten()
        one = np.zeros((m, n))
        for k, x in enumerate(its):
            one[k, x] = 1
        qw.append(clamp(float(et @ np.linalg.pinv(np.outer(el, el)) @ one.flatten())))
    e = c.call("pseudo inverse", sl.PseudoInverseEstimator(mk(), wtd).evaluate, sl.SlateEstimatorInput(S))
    c.checkeq("pseudo inverse weight", e.estimated_reward, sum(x * s.log_reward for x, s in zip(qw, S)) / (sum(qw) if wtd else N))
