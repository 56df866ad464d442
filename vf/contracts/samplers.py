"""P28: discrete samplers, scorers and random policies."""
import numpy as np
import reagent.types as rlt
import torch
from reagent.gym.policies import policy as _pol, random_policies as rp
from reagent.gym.policies.samplers import discrete_sampler as ds, top_k_sampler as tk
from reagent.gym.policies.scorers import discrete_scorer as sc, slate_q_scorer as sq
from vf.runner import contract
from vf.contracts._common import *

DS = "reagent/gym/policies/samplers/discrete_sampler.py:"
SC = "reagent/gym/policies/scorers/discrete_scorer.py:"
RP = "reagent/gym/policies/random_policies.py:"


def onehot_of(c, name, action, B, A):
    """the index each row's one-hot action marks; every row marks exactly one"""
    c.eqshape(f"{name}: shape", action, [B, A])
    idx = lambda b: c.ArgMax(A, lambda k: c.at(action, b, k))
    c.forall(f"{name}: one-hot", [B, A], lambda b, k: c.eq(c.at(action, b, k), c.If(c.eq(k, idx(b)), 1, 0)))
    return idx


def logits_spec(c, s, A, temp):
    lse = lambda b: c.log(c.Sum(A, lambda k: c.exp(c.div(c.at(s, b, k), temp))))
    return lambda b, k: c.div(c.at(s, b, k), temp) - lse(b)


@contract("P28", "softmax sampler", under=[DS + "SoftmaxActionSampler.sample_action", DS + "SoftmaxActionSampler.log_prob", DS + "SoftmaxActionSampler.entropy", DS + "SoftmaxActionSampler._get_distribution"])
def softmax(c):
    B, A = c.dim("B"), c.dim("A")
    temp = c.real("temperature", 0.1, 10)
    s = c.tensor("scores", [B, A], lo=-5, hi=5)
    sampler = c.call("construct", ds.SoftmaxActionSampler, temp)
    out = c.call("sample", sampler.sample_action, s)
    idx = onehot_of(c, "sampled action", out.action, B, A)
    lp = logits_spec(c, s, A, temp)
    c.eqt("log-probability of the sampled action", out.log_prob, [B], lambda b: lp(b, idx(b)))
    a = c.tensor("logged", [B, A], kind="m")
    got = c.call("log_prob", sampler.log_prob, s, a)
    c.eqt("log-probability of a given action", got, [B], lambda b: lp(b, c.ArgMax(A, lambda k: c.at(a, b, k))))
    ent = c.call("entropy", sampler.entropy, s)
    p = lambda b, k: c.div(c.exp(c.div(c.at(s, b, k), temp)), c.Sum(A, lambda q: c.exp(c.div(c.at(s, b, q), temp))))
    c.checkeq("mean entropy", c.scalar(ent), c.div(c.Sum(B, lambda b: -c.Sum(A, lambda k: c.max(lp(b, k), F32MIN) * p(b, k))), B))


@contract("P28", "greedy sampler", under=[DS + "GreedyActionSampler.sample_action", DS + "GreedyActionSampler.log_prob", DS + "GreedyActionSampler._get_greedy_indices"])
def greedy(c):
    B, A = c.dim("B"), c.dim("A")
    s = c.tensor("scores", [B, A])
    sampler = ds.GreedyActionSampler()
    out = c.call("sample", sampler.sample_action, s)
    idx = onehot_of(c, "greedy action", out.action, B, A)
    best = lambda b: c.ArgMax(A, lambda k: c.at(s, b, k))
    c.forall("an action of greatest score", [B, A], lambda b, k: c.le(c.at(s, b, k), c.at(s, b, idx(b))))
    c.eqt("certain", out.log_prob, [B], lambda b: 0.0)
    a = c.tensor("logged", [B, A], kind="m")
    got = c.call("log_prob", sampler.log_prob, s, a)
    given = lambda b: c.ArgMax(A, lambda k: c.at(a, b, k))
    c.eqshape("one log-probability per row", got, [B])
    c.forall("the greedy action is certain", [B], lambda b: c.Implies(c.eq(given(b), idx(b)), c.eq(c.at(got, b), 0.0)))
    c.forall("any other action is impossible", [B], lambda b: c.Implies(c.Not(c.eq(given(b), idx(b))), c.lt(c.at(got, b), -1e30)))


@contract("P28", "epsilon-greedy sampler", under=[DS + "EpsilonGreedyActionSampler.sample_action", DS + "EpsilonGreedyActionSampler.log_prob", DS + "EpsilonGreedyActionSampler._get_distribution"])
def eps_greedy(c):
    B, A = c.dim("B"), c.dim("A")
    eps = c.real("epsilon", 0.01, 0.99)
    s = c.tensor("scores", [B, A])
    sampler = c.call("construct", ds.EpsilonGreedyActionSampler, eps)
    # probability of the greedy action, and of any other one
    best = lambda b: c.ArgMax(A, lambda k: c.at(s, b, k))
    raw = lambda b, k: c.If(c.eq(k, best(b)), 1 - eps + c.div(eps, A), c.div(eps, A))
    tot = lambda b: c.Sum(A, lambda k: raw(b, k))
    p = lambda b, k: c.div(raw(b, k), tot(b))
    m = c.call("distribution", sampler._get_distribution, s) if hasattr(sampler, "_get_distribution") else None
    if m is not None:
        c.eqt("probabilities", m.probs, [B, A], p)
    clamped = lambda x: c.min(c.max(x, F32EPS), 1 - F32EPS)  # torch keeps log-probabilities finite
    lp = lambda b, k: c.log(clamped(p(b, k)))
    out = c.call("sample", sampler.sample_action, s)
    idx = onehot_of(c, "sampled action", out.action, B, A)
    c.eqt("log-probability of the sampled action", out.log_prob, [B], lambda b: lp(b, idx(b)))
    a = c.tensor("logged", [B, A], kind="m")
    got = c.call("log_prob", sampler.log_prob, s, a)
    c.eqt("log-probability of a given action", got, [B], lambda b: lp(b, c.ArgMax(A, lambda k: c.at(a, b, k))))


F32MIN = torch.finfo(torch.float32).min
F32EPS = torch.finfo(torch.float32).eps


@contract("P28", "epsilon decay", under=[DS + "EpsilonGreedyActionSampler.update"])
def decay(c):
    eps, d, lo = c.real("epsilon", 0, 1), c.real("decay", 0, 1), c.real("minimum", 0, 1)
    c.assume(c.le(lo, d))
    sampler = c.call("construct", ds.EpsilonGreedyActionSampler, eps, d, lo)
    c.checkeq("starts at epsilon", sampler.epsilon, eps)
    c.call("update", sampler.update)
    c.checkeq("decays by the factor, not below the minimum", sampler.epsilon, c.max(eps * d, lo))
    e1 = sampler.epsilon
    c.call("update", sampler.update)
    c.checkeq("decays again", sampler.epsilon, c.max(e1 * d, lo))


@contract("P28", "actions outside the mask", under=[SC + "apply_possible_actions_mask", SC + "discrete_dqn_scorer", SC + "discrete_dqn_serving_scorer", "reagent/gym/policies/policy.py:Policy.act"])
def masked(c):
    A = c.dim("A")
    kind = c.choice("scorer", ["value", "quantile", "serving"])
    masked = c.choice("mask given", [True, False])
    N = c.dim("N")
    q = c.net("q", [A, N] if kind == "quantile" else [A], lo=-5, hi=5)
    st = c.rows("state", [1])
    mask = c.tensor("mask", [A], kind="b") if masked else None
    if masked:
        c.assume(c.Any(A, lambda k: c.at(mask, k)))
    m = np_of(c, mask) if masked else None
    if kind == "serving":
        score = c.call("scorer", sc.discrete_dqn_serving_scorer, lambda x: ([], q(x)))
        args = ((st,),)
    else:
        score = c.call("scorer", sc.discrete_dqn_scorer, q)
        args = (rlt.FeatureData(st),)
    got = c.call("score", score, *args, *([m] if masked else []))
    val = lambda k: c.netval("q", [(st, 0)], (k,)) if kind != "quantile" else c.div(c.Sum(N, lambda j: c.netval("q", [(st, 0)], (k, j))), N)
    ok = lambda k: c.at(mask, k) if masked else True
    c.eqshape("one row of scores", got, [1, A])
    c.forall("scores of possible actions are the network's values", [A], lambda k: c.Implies(ok(k), c.eq(c.at(got, 0, k), val(k))))
    c.forall("impossible actions score lowest", [A], lambda k: c.Implies(c.Not(ok(k)), c.lt(c.at(got, 0, k), -1e30)))
    if kind != "serving":
        c.check("networks score in evaluation mode", all(not t for t in q.modes))
        c.check("and are left in training mode", q.training)
    if kind == "quantile":
        return
    for nm, sampler in (("greedy", ds.GreedyActionSampler()), ("softmax", ds.SoftmaxActionSampler())):
        pol = _pol.Policy(score, sampler)
        out = c.call(f"act {nm}", pol.act, *args, *([m] if masked else []))
        idx = onehot_of(c, f"{nm} action", out.action, 1, A)
        c.check(f"{nm}: the action taken is a possible one", ok(idx(0)))


def np_of(c, t):
    if c.sym:
        from vf.tensor import T

        r = T(t._shape, t.snap(), t.dtype)
        r._np = True
        return r
    return t.numpy()


@contract("P28", "random discrete policy", under=[RP + "DiscreteRandomPolicy.act", RP + "DiscreteRandomPolicy.create_for_env"])
def rand_discrete(c):
    A = c.dim("A")
    masked = c.choice("mask given", [True, False])
    mask = c.tensor("mask", [A], kind="b") if masked else None
    if masked:
        c.assume(c.Any(A, lambda k: c.at(mask, k)))
    pol = rp.DiscreteRandomPolicy(A)
    st = c.rows("state", [1])
    out = c.call("act", pol.act, rlt.FeatureData(st), *([np_of(c, mask)] if masked else []))
    idx = onehot_of(c, "random action", out.action, 1, A)
    ok = lambda k: c.at(mask, k) if masked else True
    c.check("a possible action", ok(idx(0)))
    n = c.Sum(A, lambda k: c.If(ok(k), 1.0, 0.0))
    p = c.div(1.0, n)
    c.eqt("uniform over the possible actions", out.log_prob, [1], lambda b: c.log(c.min(c.max(p, F32EPS), 1 - F32EPS)))


@contract("P28", "candidate scores", under=[SC + "parametric_dqn_scorer", SC + "parametric_dqn_serving_scorer", SC + "get_parametric_input", "reagent/gym/preprocessors/trainer_preprocessor.py:get_possible_actions_for_gym"])
def candidates(c):
    B = c.dim("B")
    A = c.dim("A")
    q = c.net("q", [1], nargs=2)
    st = c.rows("state", [B])
    serving = c.choice("serving", [False, True])
    seen = []

    def net(state_with_presence, action_with_presence):
        seen.append((state_with_presence, action_with_presence))
        return [], q(state_with_presence[0], action_with_presence[0])

    if serving:
        got = c.call("score", sc.parametric_dqn_serving_scorer(A, net), (st, st))
    else:
        got = c.call("score", sc.parametric_dqn_scorer(A, q), rlt.FeatureData(st))
    c.eqshape("one score per candidate", got, [B, A])
    s, a = q.log[-1]
    c.eqshape("candidate rows", a, [B * A, A])
    c.forall("candidate k of a row is action k", [B, A, A], lambda b, k, j: c.eq(c.at(a, b * A + k, j), c.If(c.eq(k, j), 1.0, 0.0)))
    W = c.shape(st)[1]
    c.forall("every candidate is paired with its own state", [B, A, W], lambda b, k, j: c.eq(c.at(s, b * A + k, j), c.at(st, b, j)))
    c.forall("scores in candidate order", [B, A], lambda b, k: c.eq(c.at(got, b, k), c.netval("q", [(s, b * A + k), (a, b * A + k)], (0,))))
    if serving:
        (s, sp), (a, ap) = seen[-1]
        c.forall("every feature is marked present", [B * A, A], lambda i, j: c.eq(c.at(ap, i, j), 1))
        c.forall("every state feature is marked present", [B * A, W], lambda i, j: c.eq(c.at(sp, i, j), 1))


@contract("P28", "slate scores", under=["reagent/gym/policies/scorers/slate_q_scorer.py:slate_q_scorer", "reagent/gym/policies/scorers/slate_q_scorer.py:slate_q_serving_scorer"])
def slate_scores(c):
    B, N = c.dim("B"), c.dim("N")
    serving = c.choice("serving", [False, True])
    q = c.net("q", [1], nargs=2)
    st = c.rows("state", [B])
    docs = c.rows("docs", [B, N])
    val = c.tensor("value", [B, N], lo=-4, hi=4)
    state = rlt.FeatureData(st, candidate_docs=rlt.DocList(docs, mask=None, value=val))
    seen = []

    class Served:
        eval = train = staticmethod(lambda *a: None)

        def __call__(self, s, a):
            seen.append((s, a))
            return [], q(s[0], a[0])

    if serving:
        got = c.call("score", sq.slate_q_serving_scorer(N, Served()), state)
    else:
        got = c.call("score", sq.slate_q_scorer(N, q), state)
    s, a = q.log[-1]
    W, D = c.shape(st)[1], c.shape(docs)[2]
    c.eqshape("item rows", a, [B * N, D])
    c.forall("item k of a row is candidate k", [B, N, D], lambda b, k, j: c.eq(c.at(a, b * N + k, j), c.at(docs, b, k, j)))
    c.forall("every item is paired with its own user", [B, N, W], lambda b, k, j: c.eq(c.at(s, b * N + k, j), c.at(st, b, j)))
    p = lambda b, k: c.div(c.exp(c.at(val, b, k)), c.Sum(N, lambda m: c.exp(c.at(val, b, m))))
    c.eqt("selection probability times value", got, [B, N], lambda b, k: p(b, k) * c.netval("q", [(s, b * N + k), (a, b * N + k)], (0,)))
    if serving:
        (x, xp), (y, yp) = seen[-1]
        c.forall("every feature is marked present", [B * N, D], lambda i, j: c.eq(c.at(yp, i, j), 1))
        c.forall("every state feature is marked present", [B * N, W], lambda i, j: c.eq(c.at(xp, i, j), 1))


@contract("P28", "top-k sampler and random policies", under=["reagent/gym/policies/samplers/top_k_sampler.py:TopKSampler.sample_action", RP + "MultiDiscreteRandomPolicy.act", RP + "ContinuousRandomPolicy.act", RP + "make_random_policy_for_env"], bounded=True, bound="random scores, up to 4 rows, up to 6 items, up to 3 action components")
def topk_random(c):
    import gym

    B, N = c.dim("B", 1, 4), c.dim("N", 1, 6)
    k = c.int("k", 1, N)
    s = c.tensor("scores", [B, N], lo=-4, hi=4)
    out = tk.TopKSampler(k).sample_action(s)
    c.eqshape("k items per row", out.action, [B, k])
    for b in range(B):
        row = [int(i) for i in out.action[b]]
        c.check("distinct items", len(set(row)) == k)
        v = [float(s[b, i]) for i in row]
        c.check("best first", all(x >= y for x, y in zip(v, v[1:])))
        c.check("no item left out scores higher", all(float(s[b, j]) <= v[-1] for j in range(N) if j not in row))
    obs = rlt.FeatureData(torch.zeros(B, 2))
    nvec = [c.int(f"nvec{i}", 1, 5) for i in range(c.dim("components", 1, 3))]
    pol = rp.make_random_policy_for_env(type("E", (), {"action_space": gym.spaces.MultiDiscrete(nvec)})())
    out = pol.act(obs)
    c.eqshape("one value per component", out.action, [B, len(nvec)])
    c.check("values in range", all(0 <= int(out.action[b, i]) < n for b in range(B) for i, n in enumerate(nvec)))
    c.eqshape("one log-probability per row", out.log_prob, [B, 1])
    c.check("log-probability of independent uniform choices", c.close(out.log_prob, torch.full((B, 1), -sum(float(np.log(n)) for n in nvec)), atol=1e-4))
    d = len(nvec)
    low, high = rp.CONTINUOUS_TRAINING_ACTION_RANGE
    pol = rp.make_random_policy_for_env(type("E", (), {"action_space": gym.spaces.Box(-3 * np.ones(d, dtype=np.float32), 5 * np.ones(d, dtype=np.float32))})())
    out = pol.act(obs)
    c.eqshape("one coordinate per dimension", out.action, [B, d])
    c.check("within the training action range", bool(((out.action >= low) & (out.action <= high)).all()))
    c.check("log-density of independent uniforms", c.close(out.log_prob.reshape(-1), torch.full((B,), -d * float(np.log(high - low)), dtype=out.log_prob.dtype), atol=1e-5))
    pol = rp.make_random_policy_for_env(type("E", (), {"action_space": gym.spaces.Discrete(N)})())
    c.check("a discrete policy knows its number of actions", pol.act(rlt.FeatureData(torch.zeros(1, 2))).action.shape == (1, N))
