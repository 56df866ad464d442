import math
import types

import torch
import reagent.types as rlt
from reagent.training.imitator_training import ImitatorTrainer
from reagent.training.ppo_trainer import PPOTrainer
from reagent.training.reinforce import Reinforce, ReinforceParams
from reagent.training.utils import discounted_returns, whiten
from vf.runner import contract
from vf.contracts._common import *

F = rlt.FeatureData
EPS = 2.220446049250313e-16


class Sampler:
    """arbitrary sampler: log probability of an action is a function of the scores and the action"""

    def __init__(self, c):
        self.lp = c.net("lp", [1], -3, 3, nargs=2)
        self.en = c.net("en", [1], 0, 3)

    def log_prob(self, scores, action):
        return self.lp(scores, action).squeeze(1)

    def entropy(self, scores):
        return self.en(scores).mean()


class Scorer(torch.nn.Module):
    def __init__(self, c, A):
        super().__init__()
        self.net = c.net("score", [A], -3, 3)
        self.masks = []

    def forward(self, state, mask=None):
        self.masks.append(mask)
        return self.net(state)


def returns(c, N, r, gamma, rolled):
    """R(i): discounted return to go (rolled: N is a concrete length)"""
    if not rolled:
        return r

    def R(i):
        if c.sym and not isinstance(i, int):
            out = R(N - 1)
            for k in range(N - 2, -1, -1):
                out = c.If(c.eq(i, k), R(k), out)
            return out
        out = 0.0
        for j in range(N - 1, int(i) - 1, -1):
            out = r(j) + gamma * out
        return out
    return R


def advantages(c, N, R, normalize, sub, cmin):
    mean = c.div(c.Sum(N, R), N)
    dev = lambda i: R(i) - mean
    f = R
    if normalize:
        std = c.fn("sqrt", c.div(c.Sum(N, lambda i: dev(i) * dev(i)), N - 1))
        f = lambda i: c.div(dev(i) if sub else R(i), std + EPS)
    if cmin:
        g = f
        f = lambda i: c.max(g(i), 0.0)
    return f


def draw(c, tags, rolled):
    """trajectories"""
    A, D, K = 2, 3, 2
    out = []
    for k, t in enumerate(tags):
        N = c.choice(f"len{t}", [2, 3]) if rolled and not k else 2 if rolled else c.dim(f"N{t}", 2)
        out.append((N, rlt.PolicyGradientInput(
            state=F(float_features=c.rows(f"state{t}", [N], D)), action=c.rows(f"action{t}", [N], K),
            reward=c.tensor(f"reward{t}", [N]), log_prob=c.tensor(f"logp{t}", [N], lo=-3, hi=3), possible_actions_mask=None)))
    return out


def common(c, value, norms):
    gm = c.choice("gamma_kind", ["zero", "pos"])
    gamma = 0 if gm == "zero" else c.real("gamma", 0, 1, lo_open=True)
    clip = c.real("reward_clip", -10, 100)
    normalize, sub = c.choice("normalize", norms)
    cmin = c.choice("offset_clamp_min", [False, True])
    return gm == "pos" or normalize, gamma, clip, normalize, sub, cmin


@contract("P10", "REINFORCE loss", under=["reagent/training/reinforce.py:Reinforce.train", "reagent/training/reinforce.py:Reinforce.update_model", "reagent/training/utils.py:discounted_returns", "reagent/training/utils.py:whiten"],
          split=[("value", 2), ("off_policy", 2), ("gamma_kind", 2), ("update_freq", 2)], bound="trajectory length 2 and 3 when gamma > 0 or returns are normalised (any length otherwise)")
def reinforce(c):
    value = c.choice("value", [False, True])
    off = c.choice("off_policy", [False, True])
    rolled, gamma, clip, normalize, sub, cmin = common(c, value, [(False, False)] if value else [(False, False), (True, True), (True, False)])
    freq = c.choice("update_freq", [1, 2])
    rho = c.choice("clip_param", [1.5, 1e6])
    sampler, scorer = Sampler(c), Scorer(c, 2)
    params = ReinforceParams(gamma=0.5, off_policy=off, normalize=normalize, subtract_mean=sub, offset_clamp_min=cmin, update_freq=freq, clip_param=rho,
                             optimizer=c.optimizer("policy"), optimizer_value_net=c.optimizer("value"))
    object.__setattr__(params, "gamma", gamma)
    object.__setattr__(params, "reward_clip", clip)
    vn = c.net("v", [1], -10, 10) if value else None
    tr = c.call("construct", lambda: Reinforce(types.SimpleNamespace(scorer=scorer, sampler=sampler), params, vn))
    trajs = draw(c, [""] if freq == 1 else ["a", "b", "c"], rolled)
    if normalize:
        # a constant return sequence has no spread to divide by
        for N, b in trajs:
            R = returns(c, N, lambda i: c.min(c.at(b.reward, i), clip), gamma, rolled)
            m = c.div(c.Sum(N, R), N)
            c.assume(c.lt(0.01, c.Sum(N, lambda i: (R(i) - m) * (R(i) - m))))
    counts = []
    for N, b in trajs:
        c.call("train", tr.train, b)
        counts.append(len(c.steps("policy", ["lp"])))

    def loss(N, b):
        R = returns(c, N, lambda i: c.min(c.at(b.reward, i), clip), gamma, rolled)
        adv = advantages(c, N, R, normalize, sub, cmin)
        sc = sampler_scores(c, b)
        lp = lambda i: c.netval("lp", [(sc, i), (b.action, i)], 0)

        def term(i):
            a = adv(i) - (c.netval("v", [(b.state, i)], 0) if value else 0.0)
            w = c.exp(c.min(lp(i) - c.at(b.log_prob, i), math.log(float(rho)))) if off else lp(i)
            return a * w
        vl = None
        if value:
            vl = c.div(c.Sum(N, lambda i: (c.netval("v", [(b.state, i)], 0) - adv(i)) * (c.netval("v", [(b.state, i)], 0) - adv(i))), N)
        return -c.Sum(N, term), vl

    def sampler_scores(c, b):
        return c.call("scores", scorer.net, b.state)

    pol, val = c.steps("policy", ["lp"]), c.steps("value", ["v"])
    L = [loss(N, b) for N, b in trajs]
    if freq == 1:
        c.same("one policy update per trajectory", [len(x) for x in pol], [1])
        c.checkeq("policy loss: minus the sum of advantage times log-likelihood (or clipped importance weight)", c.scalar(pol[0][0]), L[0][0])
        if value:
            c.same("one value update per trajectory", [len(x) for x in val], [1])
            c.checkeq("value loss: mean squared error to the return to go", c.scalar(val[0][0]), L[0][1])
    else:
        at = [k for k in range(3) if counts[k] > (counts[k - 1] if k else 0)]
        c.check("updates are update_freq trajectories apart", at in ([0, 2], [1]))
        groups = [[0], [1, 2]] if at == [0, 2] else [[0, 1]]
        c.same("every update applies one loss", [len(x) for x in pol], [1] * len(groups))
        for g, x in zip(groups, pol):
            c.checkeq("an update averages the losses of the trajectories since the previous one", c.scalar(x[0]), sum(L[k][0] for k in g) * (1.0 / len(g)))
        if value:
            for g, x in zip(groups, val):
                c.checkeq("a value update averages the trajectories since the previous one", c.scalar(x[0]), sum(L[k][1] for k in g) * (1.0 / len(g)))
    c.check("the policy loss does not train the value network", not any("v" in c.gradset(x) for s in pol for x in s))


@contract("P10", "PPO loss", under=["reagent/training/ppo_trainer.py:PPOTrainer._trajectory_to_losses", "reagent/training/ppo_trainer.py:PPOTrainer.update_model", "reagent/training/ppo_trainer.py:PPOTrainer.train", "reagent/training/utils.py:discounted_returns", "reagent/training/utils.py:whiten"],
          split=[("value", 2), ("gamma_kind", 2), ("sizes", 4), ("entropy_weight", 2)], bound="trajectory length 2 and 3 when gamma > 0 or returns are normalised (any length otherwise)")
def ppo(c):
    value = c.choice("value", [False, True])
    rolled, gamma, clip, normalize, sub, cmin = common(c, value, [(False, False)] if value else [(False, False), (True, True), (True, False)])
    freq, bs = c.choice("sizes", [(1, 1), (2, 1), (2, 2), (3, 2)])
    epochs = c.choice("epochs", [1, 2]) if freq < 3 else 1
    eps = c.real("epsilon", 0, 1)
    ew = c.choice("entropy_weight", [0.0, 0.5])
    sampler, scorer = Sampler(c), Scorer(c, 2)
    vn = c.net("v", [1], -10, 10) if value else None
    tr = c.call("construct", lambda: PPOTrainer(types.SimpleNamespace(scorer=scorer, sampler=sampler), gamma=gamma, optimizer=c.optimizer("policy"), optimizer_value_net=c.optimizer("value"),
                reward_clip=clip, normalize=normalize, subtract_mean=sub, offset_clamp_min=cmin, update_freq=freq, update_epochs=epochs, ppo_batch_size=bs, ppo_epsilon=eps, entropy_weight=ew, value_net=vn))
    trajs = draw(c, ["a", "b", "c"][:freq], rolled)
    if normalize:
        for N, b in trajs:
            R = returns(c, N, lambda i: c.min(c.at(b.reward, i), clip), gamma, rolled)
            m = c.div(c.Sum(N, R), N)
            c.assume(c.lt(0.01, c.Sum(N, lambda i: (R(i) - m) * (R(i) - m))))
    for k, (N, b) in enumerate(trajs):
        c.same("no update before enough trajectories are collected", len(c.events), 0)
        c.call("train", tr.train, b)

    def loss(N, b):
        R = returns(c, N, lambda i: c.min(c.at(b.reward, i), clip), gamma, rolled)
        adv = advantages(c, N, R, normalize, sub, cmin)
        sc = c.call("scores", scorer.net, b.state)
        ratio = lambda i: c.exp(c.netval("lp", [(sc, i), (b.action, i)], 0) - c.at(b.log_prob, i))
        a = lambda i: adv(i) - (c.netval("v", [(b.state, i)], 0) if value else 0.0)
        s1 = c.Sum(N, lambda i: a(i) * ratio(i))
        s2 = c.Sum(N, lambda i: a(i) * c.min(c.max(ratio(i), 1 - eps), 1 + eps))
        out = -c.min(s1, s2)
        if ew:
            out = out - ew * c.div(c.Sum(N, lambda i: c.netval("en", [(sc, i)], 0)), N)
        vl = c.div(c.Sum(N, lambda i: (c.netval("v", [(b.state, i)], 0) - adv(i)) * (c.netval("v", [(b.state, i)], 0) - adv(i))), N) if value else None
        return out, vl

    pol, val = c.steps("policy", ["lp"]), c.steps("value", ["v"])
    per = -(-freq // bs)
    size = lambda k: min(bs, freq - k % per * bs)
    c.same("every epoch visits every minibatch once", [len(x) for x in pol], [1] * (per * epochs))
    L = [loss(N, b) for N, b in trajs]
    for e in range(epochs):
        tot = sum(c.scalar(x[0]) * size(k) for k, x in enumerate(pol[e * per:(e + 1) * per]))
        c.checkeq("an epoch's updates cover every trajectory's clipped surrogate loss once", tot, sum(l for l, _ in L))
        if value:
            tot = sum(c.scalar(x[0]) * size(k) for k, x in enumerate(val[e * per:(e + 1) * per]))
            c.checkeq("an epoch's value updates cover every trajectory's squared error once", tot, sum(l for _, l in L))
    c.check("the policy loss does not train the value network", not any("v" in c.gradset(x) for s in pol for x in s))


@contract("P10", "discounted returns of long trajectories", under=["reagent/training/utils.py:discounted_returns"], bounded=True, bound="lengths up to 64", quick=200)
def dret(c):
    N = c.choice("N", list(range(1, 12)) + [33, 64])
    gamma = c.choice("g", [0, 0.0, 0.25, 0.9, 1.0])
    r = c.tensor("reward", [N], lo=-4, hi=4)
    r0 = r.clone()
    out = c.call("discounted_returns", discounted_returns, r, gamma)
    c.eqt("return to go", out, [N], lambda i: sum(gamma ** (j - i) * c.at(r0, j) for j in range(i, N)))
    c.eqt("rewards are left alone", r, [N], lambda i: c.at(r0, i))


@contract("P11", "imitator training", under=["reagent/training/imitator_training.py:ImitatorTrainer.train", "reagent/training/rl_trainer_pytorch.py:RLTrainer._maybe_run_optimizer"])
def imitator(c):
    B, A = c.dim("B"), c.dim("A", 2)
    im = c.net("im", [A], -4, 4)
    per = c.choice("minibatches_per_step", [1, 2])
    train = c.choice("train", [True, False])
    from reagent.parameters import RLParameters
    tr = c.call("construct", lambda: ImitatorTrainer(im, rl=RLParameters(), minibatches_per_step=per, optimizer=c.optimizer("im")))
    ns = types.SimpleNamespace
    n = 2 if per == 2 else 1
    Ls = []
    for k in range(n):
        st, act = c.rows(f"state{k}", [B], 3), c.tensor(f"action{k}", [B, A], "m")
        if per == 1 or k == 1:
            c.same("no step before enough minibatches", len([e for e in c.events if e[0] == "step"]), 0)
        tr.minibatch = k + 1  # counted by the training loop
        acc = c.call("train", lambda: tr.train(ns(training_input=ns(state=F(float_features=st), action=act)), train=train))
        hot = lambda i, act=act: c.ArgMax(A, lambda a: c.at(act, i, a))
        p = softmax(c, A, lambda i, a, st=st: c.netval("im", [(st, i)], a))
        Ls.append(c.div(c.Sum(B, lambda i: -c.log(p(i, hot(i)))), B))
    got = c.steps("im", ["im"])
    if not train:
        c.same("evaluation does not train", c.events, [])
        return
    c.same("one step per minibatches_per_step minibatches", [len(x) for x in got], [n])
    for k in range(n):
        c.checkeq("loss is the cross entropy of the logged action", c.scalar(got[0][k]), Ls[k])


@contract("P11", "reward network training", under=["reagent/training/reward_network_trainer.py:RewardNetTrainer.train", "reagent/training/reward_network_trainer.py:_get_loss_function"])
def rewardnet(c):
    from reagent.training.reward_network_trainer import LossFunction, RewardNetTrainer
    kind = c.choice("loss", [LossFunction.MSE, LossFunction.SmoothL1Loss, LossFunction.L1Loss, LossFunction.BCELoss])
    thr = c.choice("threshold", [None, 1]) and c.real("reward_ignore_threshold", -2, 2)
    ranking = c.choice("ranking", [False, True])
    B = c.dim("B")
    bce = kind == LossFunction.BCELoss
    net = c.net("rn", [1], 0.05 if bce else -5, 0.95 if bce else 5)
    st = c.rows("state", [B], 3)
    y = c.tensor("target", [B, 1], lo=0.0 if bce else -4.0, hi=1.0 if bce else 4.0)
    other = c.tensor("other", [B, 1], lo=0.0, hi=1.0)
    if thr is not None:
        keep = lambda i: c.le(c.at(y, i, 0), thr)
        c.assume(c.lt(0, c.Sum(B, lambda i: 1.0, keep)))
    else:
        keep = lambda i: True
    model = lambda batch: types.SimpleNamespace(predicted_reward=net(batch.state.float_features))
    model.parameters = lambda: net.parameters()
    tr = c.call("construct", lambda: RewardNetTrainer(model, optimizer=c.optimizer("rn"), loss_type=kind, reward_ignore_threshold=thr))
    if ranking:
        batch = rlt.PreprocessedRankingInput(state=F(float_features=st), src_seq=None, slate_reward=y, position_reward=other)
    else:
        batch = types.SimpleNamespace(state=F(float_features=st), reward=y, slate_reward=other)
    out = c.call("train", tr.train, batch)
    p = lambda i: c.netval("rn", [(st, i)], 0)

    def one(i):
        d = p(i) - c.at(y, i, 0)
        if kind == LossFunction.MSE:
            return d * d
        if kind == LossFunction.L1Loss:
            return c.abs(d)
        if kind == LossFunction.SmoothL1Loss:
            return c.If(c.lt(c.abs(d), 1), 0.5 * d * d, c.abs(d) - 0.5)
        t = c.at(y, i, 0)
        return -(t * c.max(c.log(p(i)), -100.0) + (1 - t) * c.max(c.log(1 - p(i)), -100.0))
    want = c.div(c.Sum(B, one, keep), c.Sum(B, lambda i: 1.0, keep)) if thr is not None else c.div(c.Sum(B, one), B)
    got = c.steps("rn", ["rn"])
    c.same("one optimizer step per batch", [len(x) for x in got], [1])
    c.checkeq("loss: mean over the rows whose target is not above the threshold", c.scalar(got[0][0]), want)
    c.checkeq("the loss is reported", c.scalar(out), want)
