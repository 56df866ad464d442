import math
import random

import numpy as np
import torch
from reagent.evaluation.evaluator import Evaluator  # noqa
from reagent.evaluation import ope_adapter as oa
from reagent.evaluation.doubly_robust_estimator import DoublyRobustEstimator as EdpDR
from reagent.ope.estimators import sequential_estimators as sq
from reagent.ope.estimators.types import Action, ActionDistribution, ActionSpace
from reagent.ope.utils import Clamper
from vf.runner import contract
from vf.contracts._common import *
from vf.contracts.ope_cpe import Boot, ObjT, page
from vf.tensor import T_of

SQ = "reagent/ope/estimators/sequential_estimators.py:"
OA = "reagent/evaluation/ope_adapter.py:"


class Policy(sq.RLPolicy):
    def __init__(self, A, dists):
        super().__init__(ActionSpace(A))
        self.d = dists

    def action_dist(self, state):
        return self.d[state.value]


class Value(sq.ValueFunction):
    def __init__(self, v, q):
        self.v, self.q = v, q

    def state_value(self, s):
        return self.v[s.value]

    def state_action_value(self, s, a):
        return self.q[s.value][a.value]

    def reset(self):
        pass


def log(c, lens, A, gaps=False):
    """episodes of these lengths over states (episode, step); every number symbolic"""
    mdps, dists, q, v, g = [], {}, {}, {}, {}
    for i, n in enumerate(lens):
        m = []
        for t in range(n):
            k = (i, t)
            act = c.choice(f"action{i}.{t}", list(range(A))) if i + t else 0
            p = c.real(f"logged_p{i}.{t}", 0, 1, lo_open=True)
            tp = c.tensor(f"target_p{i}.{t}", [A], lo=0.0, hi=1.0)
            dists[k] = ActionDistribution(tp)
            dists[k].__dict__["_t"] = tp
            q[k] = [c.real(f"q{i}.{t}.{a}", -4, 4) for a in range(A)]
            v[k] = c.real(f"v{i}.{t}", -4, 4)
            g[k] = c.real(f"g{i}.{t}", -4, 4)
            m.append(sq.Transition(last_state=sq.State(k), action=Action(act), action_prob=p, state=sq.State((i, t + 1)), reward=c.real(f"r{i}.{t}", -4, 4)))
        mdps.append(m)
    return mdps, dists, q, v, g


def weights(c, mdps, dists, weighted, cl):
    """w[i][t]; 0 beyond the episode's end"""
    n, H = len(mdps), max(map(len, mdps))
    rho = []
    for m in mdps:
        acc, row = 1.0, []
        for t in m:
            acc = acc * c.div(c.at(dists[t.last_state.value]._t, t.action.value), t.action_prob)
            row.append(acc)
        rho.append(row)
    w = [[0.0] * H for _ in mdps]
    for t in range(H):
        live = [i for i in range(n) if len(mdps[i]) > t]
        tot = sum(rho[i][t] for i in live) if weighted else float(len(live))
        if weighted:
            tot = tot + c.If(c.lt(tot, 1e-15), float(n), 0.0)
        for i in live:
            w[i][t] = c.div(rho[i][t], tot)
        for i in range(n):
            x = w[i][t]
            w[i][t] = c.If(c.lt(x, cl[0]), cl[0], c.If(c.lt(cl[1], x), cl[1], x)) if cl[0] is not None else x
    return w


def values(c, gamma, mdps, f):
    tot = []
    for m in mdps:
        d, r = 1.0, 0.0
        for t in m:
            r = r + d * f(t)
            d = d * gamma
        tot.append(r)
    return c.div(sum(tot), len(tot))


SH = [([1], 2), ([2], 2), ([1, 1], 2), ([2, 1], 1), ([1, 2], 1), ([2, 2], 1)]
BD = "1 or 2 episodes of 1 or 2 steps (every number symbolic)"


def inp(c, shape, gamma_lo=0.0):
    lens, A = shape
    mdps, dists, q, v, g = log(c, lens, A)
    gamma = c.real("gamma", gamma_lo, 1)
    return gamma, mdps, dists, q, v, g, sq.RLEstimatorInput(gamma=gamma, log=mdps, target_policy=Policy(A, dists), value_function=Value(v, q), ground_truth=Value(g, q))


def report(c, res, gamma, mdps, g, want, name):
    c.same(f"{name}: one result", len(res.results), 1)
    e = res.results[0]
    c.checkeq(f"{name}: logged return", e.log_reward, values(c, gamma, mdps, lambda t: t.reward))
    c.checkeq(f"{name}: estimate", c.scalar(e.estimated_reward), want)
    if g is not None:
        c.checkeq(f"{name}: ground truth", e.ground_truth_reward, values(c, gamma, mdps, lambda t: g[t.last_state.value]))
    else:
        c.checkeq(f"{name}: no ground truth", e.ground_truth_reward, 0.0)


@contract("P17", "direct method", under=[SQ + "DMEstimator.evaluate", SQ + "RLEstimator._log_reward", SQ + "RLEstimator._estimate_value"], bound=BD, split=[("shape", len(SH))])
def dm(c):
    gamma, mdps, dists, q, v, g, i = inp(c, c.choice("shape", SH))
    res = c.call("evaluate", sq.DMEstimator().evaluate, i)
    report(c, res, gamma, mdps, g, values(c, gamma, mdps, lambda t: v[t.last_state.value]), "direct method")


def disc(gamma, t):
    return 1.0 if t == 0 else gamma * disc(gamma, t - 1)


def ips_of(c, gamma, mdps, w):
    H = len(w[0])
    return sum(sum(w[i][t] * mdps[i][t].reward for i in range(len(mdps)) if t < len(mdps[i])) * disc(gamma, t) for t in range(H))


def dr_of(c, gamma, mdps, w, q, v):
    out = 0.0
    n = len(mdps)
    for t in range(len(w[0])):
        x = 0.0
        for i, m in enumerate(mdps):
            if t < len(m):
                k = m[t].last_state.value
                x = x + w[i][t] * (m[t].reward - q[k][m[t].action.value]) + (w[i][t - 1] if t else 1.0 / n) * v[k]
        out = out + x * disc(gamma, t)
    return out


@contract("P17", "inverse propensity and doubly robust", under=[SQ + "IPSEstimator.evaluate", SQ + "IPSEstimator._calc_weights", SQ + "DoublyRobustEstimator.evaluate"], bound=BD, split=[("shape", len(SH)), ("kind", 2)])
def ips(c):
    shape = c.choice("shape", SH)
    kind = c.choice("kind", [sq.IPSEstimator, sq.DoublyRobustEstimator])
    small = kind is sq.IPSEstimator or sum(shape[0]) < 4 or c.thorough
    wtd = c.choice("weighted", [True, False]) if small else False
    cl = c.choice("clamp", [(None, None), (0.125, 2.0)]) if small else (None, None)
    gamma, mdps, dists, q, v, g, i = inp(c, shape)
    est = kind(Clamper(*cl) if cl[0] is not None else None, weighted=wtd)
    res = c.call("evaluate", est.evaluate, i)
    w = weights(c, mdps, dists, wtd, cl)
    report(c, res, gamma, mdps, g, ips_of(c, gamma, mdps, w) if kind is sq.IPSEstimator else dr_of(c, gamma, mdps, w, q, v), "estimate")


@contract("P17", "longer logs", under=[SQ + "IPSEstimator.evaluate", SQ + "IPSEstimator._calc_weights", SQ + "DoublyRobustEstimator.evaluate", SQ + "MAGICEstimator.evaluate", SQ + "DMEstimator.evaluate"], bounded=True, quick=60, bound="1 to 5 episodes of 1 to 6 steps, 2 or 3 actions")
def longer(c):
    A = c.choice("A", [2, 3])
    n = c.int("n", 1, 5)
    lens = [c.int(f"len{i}", 1, 6) for i in range(n)]
    gamma, mdps, dists, q, v, g, i = inp(c, (lens, A))
    gt = c.choice("gt", [False, True])
    if not gt:
        i = sq.RLEstimatorInput(gamma=gamma, log=mdps, target_policy=i.target_policy, value_function=i.value_function)
        g = None
    wtd = c.choice("weighted", [True, False])
    cl = c.choice("clamp", [(None, None), (0.125, 2.0)])
    mk = lambda k: k(Clamper(*cl) if cl[0] is not None else None, weighted=wtd)
    w = weights(c, mdps, dists, wtd, cl)
    report(c, c.call("evaluate", sq.DMEstimator().evaluate, i), gamma, mdps, g, values(c, gamma, mdps, lambda t: v[t.last_state.value]), "direct method")
    report(c, c.call("evaluate", mk(sq.IPSEstimator).evaluate, i), gamma, mdps, g, ips_of(c, gamma, mdps, w), "inverse propensity")
    report(c, c.call("evaluate", mk(sq.DoublyRobustEstimator).evaluate, i), gamma, mdps, g, dr_of(c, gamma, mdps, w, q, v), "doubly robust")
    if n > 1:
        random.seed(7)
        w = weights(c, mdps, dists, True, cl)
        est = sq.MAGICEstimator(Clamper(*cl) if cl[0] is not None else None)
        res = c.call("evaluate", est.evaluate, i, num_resamples=40, lr=c.choice("lr", [1e-4, 0.05]))
        H = len(w[0])
        g_j = []
        for j in range(H):
            cut = [m[:j + 1] for m in mdps]
            x = dr_of(c, gamma, cut, [r[:j + 1] for r in w], q, v) if j + 1 <= H else 0
            x += sum(float(w[k][j]) * float(v[m[j + 1].last_state.value]) * float(gamma) ** (j + 1) for k, m in enumerate(mdps) if j + 1 < len(m))
            g_j.append(float(x))
        e = float(res.results[0].estimated_reward)
        tol = 1e-3 * (1 + max(map(abs, g_j)))
        c.check("MAGIC: between the estimates of the horizons it combines", min(g_j) - tol <= e <= max(g_j) + tol)
        if H == 1:
            c.checkeq("MAGIC: one horizon is doubly robust", e, g_j[0])


@contract("P17", "steps without a logged action", under=[SQ + "IPSEstimator._calc_weights"], bounded=True, quick=40, bound="2 or 3 episodes of 1 to 4 steps")
def gaps(c):
    A, n = 2, c.int("n", 2, 3)
    lens = [c.int(f"len{i}", 1, 4) for i in range(n)]
    gamma, mdps, dists, q, v, g, i = inp(c, (lens, A))
    hole = {(e, t) for e, m in enumerate(mdps) for t in range(len(m)) if c.int(f"hole{e}.{t}", 0, 3) == 0}
    for e, t in hole:
        x = mdps[e][t]
        mdps[e][t] = sq.Transition(last_state=x.last_state, action=None, action_prob=x.action_prob, state=x.state, reward=x.reward)
    wtd = c.choice("weighted", [True, False])
    res = c.call("evaluate", sq.IPSEstimator(weighted=wtd).evaluate, i)
    H, tot = max(lens), 0.0
    for t in range(H):
        live = {}
        for e, m in enumerate(mdps):
            if t < len(m) and (e, t) not in hole:
                r = 1.0
                for s in range(t + 1):
                    if (e, s) not in hole:
                        r *= float(dists[(e, s)]._t[m[s].action.value]) / float(m[s].action_prob)
                live[e] = r
        z = sum(live.values()) if wtd else len(live)
        z = z if z >= 1e-15 else n
        tot += float(gamma) ** t * sum(r * float(mdps[e][t].reward) for e, r in live.items()) / z
    c.checkeq("such a step has no weight and leaves later ratios alone", res.results[0].estimated_reward, tot)


@contract("P17", "policies", under=[SQ + "EpsilonGreedyRLPolicy.action_dist", SQ + "RandomRLPolicy.action_dist"], bound="2 or 3 actions")
def policies(c):
    A = c.choice("A", [2, 3])
    p = c.tensor("p", [A], lo=0.0, hi=1.0)
    base = Policy(A, {0: ActionDistribution(p)})
    eps = c.choice("epsilon", [0.0, 0.25, 0.75])
    pol = c.call("construct", sq.EpsilonGreedyRLPolicy, base, eps)
    c.same("keeps the action space", len(pol.action_space), A)
    d = c.call("action_dist", pol, sq.State(0))
    for a in range(A):
        c.checkeq("probability mixed with the uniform one", d[Action(a)], c.at(p, a) * (1 - eps) + eps / A)
        c.checkeq("the wrapped policy keeps its own", base(sq.State(0))[Action(a)], c.at(p, a))
    r = c.call("action_dist", sq.RandomRLPolicy(ActionSpace(A)), sq.State(0))
    for a in range(A):
        c.checkeq("uniform", r[Action(a)], 1.0 / A)


@contract("P17", "NeuralDualDICE", under=[SQ + "NeuralDualDICE." + x for x in ["evaluate", "_compute_loss", "_compute_average_v", "_mdps_value", "_collect_data", "_compute_estimates", "_sample_batch", "__post_init__", "reset"]], bounded=True, quick=24, bound="2 to 4 episodes of 1 to 4 steps, 2 or 3 actions, one training batch of 4096 samples")
def dice(c):
    A, D, n = c.choice("A", [2, 3]), 2, c.int("n", 2, 4)
    avg, det = c.choice("average_v", [False, True]), c.choice("deterministic", [False, True])
    deg, gamma = c.choice("degree", [1.5, 2.0]), c.choice("gamma", [0.5, 0.9])
    rnd = random.Random(c.int("seed", 0, 10 ** 6))
    dists, mdps = {}, []
    def state():
        s = tuple(rnd.uniform(-1, 1) for _ in range(D))
        k = rnd.randrange(A)
        dists[s] = ActionDistribution([1.0 if a == k else 0.0 for a in range(A)])
        return sq.State(s)
    for _ in range(n):
        m, s = [], state()
        for _ in range(rnd.randint(1, 4)):
            nx = state()
            m.append(sq.Transition(last_state=s, action=Action(rnd.randrange(A)), action_prob=0.5, state=nx, reward=rnd.uniform(-2, 2)))
            s = nx
        mdps.append(m)
    step = c.choice("learning rate", [0.0, 1e-3])
    seen = []
    torch.manual_seed(3)
    est = sq.NeuralDualDICE(state_dim=D, action_dim=A, deterministic_env=det, average_next_v=avg, polynomial_degree=deg, value_lr=step, zeta_lr=step, hidden_dim=8, hidden_layers=1,
                            training_samples=1, batch_size=4096, loss_callback_fn=lambda z, v, me: seen.append((z, v)), reporting_frequency=1)
    with torch.no_grad():
        for p in [*est.v_net.parameters(), *est.zeta_net.parameters()]:
            p.copy_(torch.randn_like(p))
    import copy
    v0, z0 = copy.deepcopy(est.v_net), copy.deepcopy(est.zeta_net)
    np.random.seed(5)
    res = c.call("evaluate", est.evaluate, sq.RLEstimatorInput(gamma=gamma, log=mdps, target_policy=Policy(A, dists)))
    oh = lambda a: torch.nn.functional.one_hot(torch.tensor(a), A).float()
    at = lambda net, s, a: net(torch.cat((torch.tensor(s.value), oh(a))).unsqueeze(0))[0, 0]
    tgt = lambda s: int(dists[s.value].values.argmax())
    def obj(determ):
        num = den = 0.0
        for m in mdps:
            for t, x in enumerate(m):
                d = at(v0, x.last_state, x.action.value) - gamma * at(v0, x.state, tgt(x.state))
                i = at(v0, m[0].last_state, tgt(m[0].last_state))
                if determ:
                    o = d.abs() ** deg / deg - (1 - gamma) * i
                else:
                    z, cj = at(z0, x.last_state, x.action.value), deg / (deg - 1)
                    o = d * z - z.abs() ** cj / cj - (1 - gamma) * i
                num, den = num + gamma ** t * o, den + gamma ** t
        return num / den
    zl, vl = -obj(False), obj(det)
    zs = [float(at(z0, x.last_state, x.action.value)) for m in mdps for x in m]
    tol = 0.12 * (1 + max(map(abs, zs)) ** 3 + 30)
    if step == 0.0:
        c.check("zeta maximises the saddle-point objective", abs(seen[0][0] - float(zl)) < tol * 0.1)
        c.check("the value network minimises it", abs(seen[0][1] - float(vl)) < tol * 0.1)
        want = sum(sum(gamma ** t * x.reward * float(at(z0, x.last_state, x.action.value)) for t, x in enumerate(m)) for m in mdps) / len(mdps)
        c.checkeq("estimate: discounted rewards weighted by zeta", res.results[0].estimated_reward, want)
    else:
        for name, net, old, loss in [("zeta", est.zeta_net, z0, zl), ("value", est.v_net, v0, vl)]:
            gr = torch.autograd.grad(loss, list(old.parameters()), retain_graph=True, allow_unused=True)
            big = max(float(g.abs().max()) for g in gr if g is not None)
            for p, o, g in zip(net.parameters(), old.parameters(), gr):
                if g is not None:
                    k = g.abs() > 0.2 * big
                    c.check(f"{name} network steps down its loss", bool((((p - o) * g)[k] < 0).all()))


def cpe(c, name, e, raw, log):
    c.checkeq(f"{name}: raw", c.scalar(e.raw), raw)
    c.checkeq(f"{name}: normalised", c.scalar(e.normalized), c.If(c.lt(log, 1e-6), 0.0, c.div(raw, c.If(c.lt(log, 1e-6), 1.0, log))))


def single(c, N, A):
    acts = [c.choice(f"action{i}", list(range(A))) for i in range(N)]
    mask = torch.tensor([[1.0 if a == x else 0.0 for a in range(A)] for x in acts])
    return acts, page(c, N, A, action_mask=mask)


@contract("P17", "bandit estimators over an evaluation page", under=[OA + "OPEstimatorAdapter.estimate", OA + "OPEstimatorAdapter.edp_to_contextual_bandit_log", OA + "OPEstimatorAdapter.estimator_result_to_cpe_estimate"], bound="1 or 2 rows, 2 actions (every number symbolic)", split=[("N", 2), ("kind", 3)])
def bandit_page(c):
    N, A = c.choice("N", [1, 2]), 2
    kind = c.choice("kind", ["dm", "ips", "dr"])
    acts, edp = single(c, N, A)
    boot = Boot(c)
    from reagent.ope.estimators import contextual_bandits_estimators as cb
    est = {"dm": cb.DMEstimator, "ips": cb.IPSEstimator, "dr": cb.DoublyRobustEstimator}[kind]()
    e = c.call("estimate", oa.OPEstimatorAdapter(est).estimate, edp, stub=boot.stub)
    w = lambda i: c.div(c.at(edp.model_propensities, i, acts[i]), c.at(edp.logged_propensities, i, 0))
    r = lambda i: c.at(edp.logged_rewards, i, 0)
    d = lambda i: sum(c.at(edp.model_propensities, i, a) * c.at(edp.model_rewards, i, a) for a in range(A))
    f = {"dm": d, "ips": lambda i: r(i) * w(i), "dr": lambda i: d(i) + w(i) * (r(i) - c.at(edp.model_rewards_for_logged_action, i, 0))}[kind]
    mean = lambda f: c.div(sum(f(i) for i in range(N)), N)
    log = mean(r)
    raw = mean(f)
    c.checkeq("raw", c.scalar(e.raw), raw)
    c.checkeq("normalised", c.scalar(e.normalized), raw * c.If(c.lt(log, 1e-6), 0.0, c.div(1.0, c.If(c.lt(log, 1e-6), 1.0, log))))


SHAPES = [[1], [2], [1, 1], [2, 1], [1, 2]]


def seqpage(c, lens, A):
    N = sum(lens)
    acts, _ = [c.choice(f"action{i}", list(range(A))) if i else 0 for i in range(N)], 0
    mask = torch.tensor([[1.0 if a == x else 0.0 for a in range(A)] for x in acts])
    ids = torch.tensor([[i] for i, n in enumerate(lens) for _ in range(n)])
    return acts, page(c, N, A, values=True, action_mask=mask, mdp_id=ids)


def seq_dr(c, edp, lens, acts, gamma, wtd, A):
    at = {}
    k = 0
    mdps, dists, q, v = [], {}, {}, {}
    for i, n in enumerate(lens):
        m = []
        for t in range(n):
            tp = [c.at(edp.model_propensities, k, a) for a in range(A)]
            q[(i, t)] = [c.at(edp.model_values, k, a) for a in range(A)]
            v[(i, t)] = sum(x * y for x, y in zip(q[(i, t)], tp))
            m.append(dict(p=c.at(edp.logged_propensities, k, 0), tp=tp, a=acts[k], r=c.at(edp.logged_rewards, k, 0)))
            k += 1
        mdps.append(m)
    n, H = len(mdps), max(lens)
    rho = []
    for m in mdps:
        acc, row = 1.0, []
        for x in m:
            acc = acc * c.div(x["tp"][x["a"]], x["p"])
            row.append(acc)
        rho.append(row)
    w = [[0.0] * H for _ in mdps]
    for t in range(H):
        live = [i for i in range(n) if len(mdps[i]) > t]
        tot = sum(rho[i][t] for i in live) if wtd else float(len(live))
        if wtd:
            tot = tot + c.If(c.lt(tot, 1e-15), float(n), 0.0)
        for i in live:
            w[i][t] = c.div(rho[i][t], tot)
    out = 0.0
    for t in range(H):
        x = 0.0
        for i, m in enumerate(mdps):
            if t < len(m):
                x = x + w[i][t] * (m[t]["r"] - q[(i, t)][m[t]["a"]]) + (w[i][t - 1] if t else 1.0 / n) * v[(i, t)]
        out = out + x * disc(gamma, t)
    logr = c.div(sum(sum(x["r"] * disc(gamma, t) for t, x in enumerate(m)) for m in mdps), n)
    return out, logr


@contract("P17", "sequential estimators over an evaluation page", under=[OA + "SequentialOPEstimatorAdapter.estimate", OA + "SequentialOPEstimatorAdapter.edp_to_rl_input", OA + "SequentialOPEstimatorAdapter.estimator_results_to_cpe_estimate"], bound="1 to 3 rows in 1 or 2 episodes, 1 or 2 actions (every number symbolic)", split=[("shape", len(SHAPES))])
def seq_page(c):
    lens = c.choice("shape", SHAPES)
    A = 2 if sum(lens) < 3 else 1
    wtd = c.choice("weighted", [True, False])
    acts, edp = seqpage(c, lens, A)
    gamma = c.real("gamma", 0, 1)
    boot = Boot(c)
    est = sq.DoublyRobustEstimator(weighted=wtd)
    q = edp
    if c.sym:
        ob = lambda x: ObjT(T_of(x), *x.shape)
        q = edp._replace(**{f: ob(getattr(edp, f)) for f in ["action_mask", "logged_rewards", "logged_propensities", "model_propensities", "model_values"]})
    e = c.call("estimate", oa.SequentialOPEstimatorAdapter(est, gamma).estimate, q, objects=True, stub=boot.stub)
    raw, log = seq_dr(c, edp, lens, acts, gamma, wtd, A)
    cpe(c, "estimate", e, raw, log)


@contract("P17", "page report of the estimators", under=[OA + "OPEvaluator.score_cpe", OA + "OPEvaluator.__init__"], bounded=True, quick=20, bound="2 to 8 rows in 2 to 4 episodes, 2 or 3 actions")
def report_page(c):
    A, n = c.choice("A", [2, 3]), c.int("n", 2, 4)
    lens = [c.int(f"len{i}", 1, 3) for i in range(n)]
    gamma = c.choice("gamma", [0.5, 0.9, 1.0])
    acts, edp = seqpage(c, lens, A)
    ev = oa.OPEvaluator([str(a) for a in range(A)], gamma, None)
    s = c.call("score_cpe", ev.score_cpe, "reward", edp)
    N = sum(lens)
    w = lambda i: float(edp.model_propensities[i, acts[i]] / edp.logged_propensities[i, 0])
    r = lambda i: float(edp.logged_rewards[i, 0])
    d = lambda i: float((edp.model_propensities[i] * edp.model_rewards[i]).sum())
    mean = lambda f: sum(map(f, range(N))) / N
    for name, e, f in [("direct method", s.direct_method, d), ("inverse propensity", s.inverse_propensity, lambda i: w(i) * r(i)),
                       ("doubly robust", s.doubly_robust, lambda i: d(i) + w(i) * (r(i) - float(edp.model_rewards_for_logged_action[i, 0])))]:
        c.checkeq(f"{name}: raw", c.scalar(e.raw), mean(f))
    for name, e, wtd in [("sequential doubly robust", s.sequential_doubly_robust, False), ("weighted doubly robust", s.weighted_doubly_robust, True)]:
        raw, log = seq_dr(c, edp, lens, acts, gamma, wtd, A)
        cpe(c, name, e, raw, log)
    c.check("MAGIC: a number", math.isfinite(float(s.magic.raw)))
