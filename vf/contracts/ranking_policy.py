"""P29: Frechet-sort ranking sampler and stochastic continuous actors."""
import math
import types

import torch
import reagent.types as rlt
from reagent.samplers import frechet as fs
from reagent.models import actor as ac
from reagent.gym.policies.samplers import continuous_sampler as cs
from reagent.gym.policies.scorers import continuous_scorer as csc
from vf.runner import contract
from vf.smt import Unsupported
from vf.contracts._common import *

FS = "reagent/samplers/frechet.py:FrechetSort."


class Noise:
    """stands for torch's Gumbel distribution (never sampled here)"""

    def __init__(self, loc, scale, **kw):
        self.loc, self.scale = loc, scale


@contract("P29", "probability of a ranking", under=[FS + "log_prob", FS + "__init__"], split=[("items", 3)], bound="1 to 3 items (any number of rows, any scores, shape and ranking)")
def frechet(c):
    B = c.dim("B")
    n = c.choice("items", [1, 2, 3])
    upto = c.choice("equivalence length", [None, 1, 2])
    if upto is not None and upto > n:
        return
    logs = c.choice("log scores", [False, True])
    flat = c.choice("single list", [False, True])
    shape = c.real("shape", 0.25, 4)
    lead = [] if flat else [B]
    sc = c.tensor("scores", lead + [n], lo=-3 if logs else 0.125, hi=4)
    # rank -> item; n is the padding of a slate shorter than the candidate list
    act = c.tensor("ranking", lead + [n], kind="i", lo=0, hi=n + 1)
    s = c.call("construct", fs.FrechetSort, shape=shape, equiv_len=upto, log_scores=logs, inject={"Gumbel": Noise} if c.sym else None)
    got = c.call("log_prob", s.log_prob, sc, act)

    def spec(*b):
        # an item's weight is score ** shape; padding weighs nothing
        def logw(i):
            a, v = c.at(act, *b, i), 0.0
            for k in range(n):
                x = c.at(sc, *b, k)
                v = c.If(c.eq(a, k), (x if logs else c.log(x)) * shape, v)
            return v

        pad = lambda i: c.eq(c.at(act, *b, i), n)
        r = 0.0
        for i in range(upto or n):
            rest = sum(c.If(pad(j), 0.0, c.exp(logw(j))) for j in range(i, n))
            r = r + c.If(pad(i), 0.0, logw(i) - c.log(c.If(pad(i), 1.0, rest)))
        return r

    if flat:
        c.eqt("log-probability of the leading ranks", got, [1], lambda b: spec())
    else:
        c.eqt("log-probability of the leading ranks", got, [B], spec)


GA = "reagent/models/actor.py:GaussianFullyConnectedActor."
EPS = 1e-6
LOG2PI = math.log(math.sqrt(2 * math.pi))


def actor(c, D, out, cls=None, **kw):
    fc = c.net("fc", [out], lo=-3, hi=3)
    a = c.call("construct", cls or ac.GaussianFullyConnectedActor, 3, D, [4], ["relu"], inject={"FullyConnectedNetwork": lambda *a, **k: fc}, **kw)
    return a, fc


def gauss(c, st, D, b, d):
    """mean and log standard deviation of coordinate d"""
    loc = c.netval("fc", [(st, b)], (d,))
    ls = c.netval("fc", [(st, b)], (D + d,))
    if getattr(c, "shifts", None):  # what the layer normalisations make of them
        loc, ls = c.shifts[0] * loc + c.shifts[1], c.shifts[2] * ls + c.shifts[3]
    return loc, c.min(c.max(ls, -20.0), 2.0)


def density(c, a, loc, ls):
    """log-density of tanh(Normal(loc, exp(ls))) at a"""
    r = c.div(c.fn("atanh", a) - loc, c.exp(ls))
    return c.div(-(r * r), 2) - ls - LOG2PI - c.log(1 - a * a + EPS)


def squash(c, x):
    return c.min(c.max(c.fn("tanh", x), -1.0 + EPS), 1.0 - EPS)


class Affine(torch.nn.Module):
    """a stand-in for layer normalisation that can move values anywhere"""

    def __init__(self, a, b):
        super().__init__()
        self.a, self.b = a, b

    def forward(self, x):
        return x * self.a + self.b


@contract("P29", "Gaussian actor", under=[GA + "forward", GA + "get_log_prob", GA + "_get_loc_and_scale_log", GA + "_squash_raw_action", GA + "_normal_log_prob", GA + "_squash_correction"], bound="1 or 2 action dimensions (any number of rows, any network output and noise)")
def gaussian_actor(c):
    B = c.dim("B")
    D = c.choice("dims", [1, 2])
    l2 = c.choice("l2", [False, True])
    a, fc = actor(c, D, 2 * D, use_l2_normalization=l2)
    st = c.rows("state", [B])
    out = c.call("forward", a.forward, rlt.FeatureData(st))
    sq = lambda b, d: squash(c, gauss(c, st, D, b, d)[0])
    norm = lambda b: c.sqrt(sum(sq(b, d) * sq(b, d) for d in range(D))) if l2 else 1.0
    c.eqshape("one action per row", out.action, [B, D])
    c.eqt("mean action", out.squashed_mean, [B, D], lambda b, d: c.div(pick(c, d, [sq(b, k) for k in range(D)]), norm(b)))
    if l2:  # the code leaves the density of the normalised action open
        return
    c.forall("actions strictly inside the training range", [B, D], lambda b, d: c.And(c.le(-1.0 + EPS, c.at(out.action, b, d)), c.le(c.at(out.action, b, d), 1.0 - EPS)))
    lp = lambda x: lambda b, _: sum(density(c, c.at(x, b, d), *gauss(c, st, D, b, d)) for d in range(D))
    c.eqt("log-probability of the emitted action", out.log_prob, [B, 1], lp(out.action))
    given = c.tensor("given", [B, D], lo=-0.99, hi=0.99)
    got = c.call("get_log_prob", a.get_log_prob, rlt.FeatureData(st), given)
    c.eqt("log-probability of a given action", got, [B, 1], lp(given))


def pick(c, d, xs):
    r = xs[0]
    for k in range(1, len(xs)):
        r = c.If(c.eq(d, k), xs[k], r)
    return r


@contract("P29", "Gaussian sampler", under=["reagent/gym/policies/samplers/continuous_sampler.py:GaussianSampler.sample_action", "reagent/gym/policies/samplers/continuous_sampler.py:GaussianSampler.log_prob", "reagent/gym/policies/scorers/continuous_scorer.py:sac_scorer"], bound="1 or 2 action dimensions (any number of rows, any network output and noise)")
def gaussian_sampler(c):
    B = c.dim("B")
    D = c.choice("dims", [1, 2])
    ln = c.choice("layer norm", [False, True])
    a, fc = actor(c, D, 2 * D, **({"use_layer_norm": True} if ln else {}))
    if ln:
        if not hasattr(a, "scale_layer_norm"):
            raise Unsupported("layer normalisation of the actor")
        c.shifts = [c.real(f"shift{k}", -15, 15) for k in range(4)]
        for k, nm in ((0, "loc_layer_norm"), (2, "scale_layer_norm")):
            setattr(a, nm, Affine(c.shifts[k], c.shifts[k + 1]))
    st = c.rows("state", [B])
    score = csc.sac_scorer(a)
    sc = c.call("score", score, rlt.FeatureData(st))
    c.eqt("mean", sc.loc, [B, D], lambda b, d: pick(c, d, [gauss(c, st, D, b, k)[0] for k in range(D)]))
    c.eqt("log standard deviation", sc.scale_log, [B, D], lambda b, d: pick(c, d, [gauss(c, st, D, b, k)[1] for k in range(D)]))
    if ln:
        return
    s = cs.GaussianSampler(a)
    given = c.tensor("given", [B, D], lo=-0.99, hi=0.99)
    lp = lambda x: lambda b: sum(density(c, c.at(x, b, d), *gauss(c, st, D, b, d)) for d in range(D))
    got = c.call("log_prob", s.log_prob, sc, given)
    c.eqt("log-probability of a given action", got, [B], lp(given))
    out = c.call("sample", s.sample_action, sc)
    c.eqshape("one action per row", out.action, [B, D])
    if c.sym:  # (in floats the inverse of a saturated tanh is not the value drawn)
        c.eqt("log-probability of the emitted action", out.log_prob, [B], lp(out.action))
    else:
        for b in range(B):
            if all(abs(float(out.action[b, d])) < 0.98 and float(sc.scale_log[b, d]) > -4 for d in range(D)):
                c.checkeq("log-probability of the emitted action", out.log_prob[b], lp(out.action)(b))
    c.forall("actions within the training range", [B, D], lambda b, d: c.And(c.le(-1.0, c.at(out.action, b, d)), c.le(c.at(out.action, b, d), 1.0)))
    c.check("the network is scored in evaluation mode", not any(fc.modes) or fc.modes[-1] is False)
    c.check("and left in training mode", a.training)


@contract("P29", "deterministic actor", under=["reagent/models/actor.py:FullyConnectedActor.forward"], bound="1 or 2 action dimensions (any number of rows and network output)")
def fc_actor(c):
    B = c.dim("B")
    D = c.choice("dims", [1, 2])
    a, fc = actor(c, D, D, cls=ac.FullyConnectedActor)
    st = c.rows("state", [B])
    out = c.call("forward", a.forward, rlt.FeatureData(st))
    c.eqt("the network's action", out.action, [B, D], lambda b, d: c.netval("fc", [(st, b)], (d,)))
    c.eqt("certain", out.log_prob, [B, 1], lambda b, _: 0.0)


@contract("P29", "drawn rankings and actions", under=[FS + "sample_action", "reagent/models/actor.py:FullyConnectedActor.forward", "reagent/models/actor.py:DirichletFullyConnectedActor.forward", "reagent/models/actor.py:DirichletFullyConnectedActor.get_log_prob", "reagent/models/actor.py:StochasticActor.forward"], bounded=True, quick=4, bound="random scores of up to 4 rows and 5 items, 3 action dimensions; frequencies of 6000 draws per evaluation against the claimed probabilities within 6 standard deviations")
def drawn(c):
    B, N = c.dim("B", 1, 4), c.dim("N", 1, 5)
    topk = c.choice("topk", [None, 1, 2])
    if topk is not None and topk > N:
        return
    equiv = c.choice("equivalence length", [None, 1])
    if equiv and equiv > (topk or N):
        return
    shape = c.real("shape", 0.5, 3)
    logs = c.choice("log scores", [False, True])
    s = fs.FrechetSort(shape=shape, topk=topk, equiv_len=equiv, log_scores=logs)
    sc = c.tensor("scores", [B, N], lo=-2 if logs else 0.2, hi=3)
    out = s.sample_action(sc)
    c.eqshape("ranking of the leading items", out.action, [B, topk or N])
    for b in range(B):
        row = [int(i) for i in out.action[b]]
        c.check("distinct items", len(set(row)) == len(row) and all(0 <= i < N for i in row))
        w = [math.exp(float(x) * shape) if logs else float(x) ** shape for x in sc[b]]
        lp, rest = 0.0, sum(w)
        for i in row[: equiv or topk or N]:
            lp += math.log(w[i] / rest)
            rest = max(rest - w[i], 1e-30)
        c.check("log-probability of the leading ranks", abs(float(out.log_prob[b]) - lp) < 1e-3 * (1 + abs(lp)))
    n = 6000
    torch.manual_seed(0)
    first = s.sample_action(sc[:1].expand(n, N)).action[:, 0]
    w = [math.exp(float(x) * shape) if logs else float(x) ** shape for x in sc[0]]
    for i in range(N):
        p = w[i] / sum(w)
        c.check("first ranks follow score ** shape", abs(float((first == i).float().mean()) - p) < 6 * math.sqrt(p * (1 - p) / n) + 1e-3)
    st = rlt.FeatureData(torch.randn(B, 3))
    low, high = ac.CONTINUOUS_TRAINING_ACTION_RANGE
    a = ac.FullyConnectedActor(3, 3, [4], ["relu"], exploration_variance=0.7)
    x = a(st)
    c.check("explored actions stay in the training range", x.action.shape == (B, 3) and bool(((x.action >= low) & (x.action <= high)).all()))
    c.check("log-density of the exploration noise, per row", x.log_prob.shape == (B, 1))
    d = ac.DirichletFullyConnectedActor(3, 3, [4], ["relu"])
    for train in (True, False):
        d.train(train)
        x = d(st)
        c.check("actions are proportions", x.action.shape == (B, 3) and c.close(x.action.sum(1), torch.ones(B), atol=1e-4) and bool((x.action >= 0).all()))
    d.train()
    x = d(st)
    conc = d.fc(st.float_features).exp() + 1e-6
    want = (torch.lgamma(conc.sum(1)) - torch.lgamma(conc).sum(1) + ((conc - 1) * x.action.clamp(min=1e-30).log()).sum(1)).unsqueeze(1)
    if bool((x.action > 1e-12).all()):
        c.check("Dirichlet log-density of the emitted action", c.close(x.log_prob, want, atol=1e-2, rtol=1e-3))
        c.check("and of a given action", c.close(d.get_log_prob(st, x.action.detach()), want, atol=1e-2, rtol=1e-3))
