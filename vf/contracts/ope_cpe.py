import itertools
import types

import numpy as np
import torch
from reagent.evaluation import cpe as _cpe
from reagent.evaluation.doubly_robust_estimator import DoublyRobustEstimator, DoublyRobustHP
from reagent.evaluation.evaluation_data_page import EvaluationDataPage
from reagent.evaluation.sequential_doubly_robust_estimator import SequentialDoublyRobustEstimator
from reagent.evaluation.weighted_sequential_doubly_robust_estimator import WeightedSequentialDoublyRobustEstimator
from vf.runner import contract
from vf.contracts._common import *


class Boot:
    """bootstrapped standard error: any non-negative number (it is random); remembers what it was asked"""

    def __init__(self, c):
        self.c, self.calls = c, []

    def __call__(self, data, sample_percent=0.25, num_samples=1000):
        k = len(self.calls)
        v = self.c.real(f"std_error{k}", 0, 5) if self.c.sym else 0.375 + k
        self.calls.append((data, sample_percent, num_samples, v))
        return v

    def of(self, v):
        """what the reported standard error v was computed from"""
        for x in self.calls:
            if x[3] is v or (not self.c.sym and float(x[3]) == float(v)):
                return x
        self.c.check("reported standard error is the bootstrapped one", False)
        return self.calls[0]

    @property
    def stub(self):
        return [(_cpe.bootstrapped_std_error_of_mean, self)]


def page(c, B, A, values=False, rew=True, **kw):
    prob = c.tensor("model_propensities", [B, A], lo=0.0, hi=1.0)
    mask = c.tensor("action_mask", [B, A], "m")
    d = dict(
        mdp_id=None, sequence_number=None,
        logged_propensities=c.tensor("logged_propensities", [B, 1], lo=0.01, hi=1.0),
        logged_rewards=c.tensor("logged_rewards", [B, 1], lo=-4, hi=4), action_mask=mask, model_propensities=prob,
        model_rewards=c.tensor("model_rewards", [B, A], lo=-4, hi=4) if rew else None,
        model_rewards_for_logged_action=c.tensor("model_rewards_for_logged_action", [B, 1], lo=-4, hi=4) if rew else None,
    )
    if values:
        d["model_values"] = c.tensor("model_values", [B, A], lo=-4, hi=4)
    d.update(kw)
    return EvaluationDataPage(**d)


def est(c, name, e, raw, norm, se):
    c.checkeq(f"{name}: raw estimate", c.scalar(e.raw), raw)
    c.checkeq(f"{name}: normalised by the logged policy's value", c.scalar(e.normalized), norm(raw))
    c.checkeq(f"{name}: standard error", c.scalar(e.raw_std_error), se)
    c.checkeq(f"{name}: normalised standard error", c.scalar(e.normalized_std_error), norm(se))


@contract("P13", "direct method, inverse propensity and doubly robust", under=["reagent/evaluation/doubly_robust_estimator.py:DoublyRobustEstimator.estimate", "reagent/evaluation/doubly_robust_estimator.py:DoublyRobustEstimator._get_importance_sampling_inputs", "reagent/evaluation/doubly_robust_estimator.py:DoublyRobustEstimator._get_importance_sampling_estimates", "reagent/evaluation/doubly_robust_estimator.py:DoublyRobustEstimator._prepare_data"],
          assumptions=["bootstrapped_std_error_of_mean returns an arbitrary non-negative number", "at least two rows"])
def dr(c):
    B, A = c.dim("B", 2), c.dim("A")
    edp = page(c, B, A)
    boot = Boot(c)
    hp = c.choice("hp", [None, DoublyRobustHP(bootstrap_num_samples=17, bootstrap_sample_percent=0.75)])
    dm, ips, drr = c.call("estimate", DoublyRobustEstimator().estimate, edp, hp, stub=boot.stub)
    w = lambda i: c.div(c.Sum(A, lambda a: c.at(edp.model_propensities, i, a) * c.at(edp.action_mask, i, a)), c.at(edp.logged_propensities, i, 0))
    r = lambda i: c.at(edp.logged_rewards, i, 0)
    d = lambda i: c.Sum(A, lambda a: c.at(edp.model_propensities, i, a) * c.at(edp.model_rewards, i, a))
    mean = lambda f: c.div(c.Sum(B, f), B)
    score = mean(r)
    norm = lambda x: c.If(c.lt(score, 1e-6), 0.0, c.div(x, score))
    f_dm, f_ips = d, lambda i: w(i) * r(i)
    f_dr = lambda i: w(i) * (r(i) - c.at(edp.model_rewards_for_logged_action, i, 0)) + d(i)
    for name, e, f in zip(["direct method", "inverse propensity", "doubly robust"], [dm, ips, drr], [f_dm, f_ips, f_dr]):
        data, pc, n, se = boot.of(e.raw_std_error)
        est(c, name, e, mean(f), norm, se)
        c.eqt(f"{name}: standard error of the per-row estimates", data, [B], f)
        c.same(f"{name}: bootstrap parameters", (pc, n), (0.75, 17) if hp else (0.25, 1000))


@contract("P13", "bootstrapped standard error", under=["reagent/evaluation/cpe.py:bootstrapped_std_error_of_mean"], bounded=True, bound="up to 60 data points, seeded resampling", quick=25)
def boot(c):
    n = c.int("n", 24, 60)
    as_tensor = c.choice("tensor", [False, True])
    pc = c.choice("percent", [0.25, 0.5, 1.0])
    data = c.tensor("data", [n], lo=-4, hi=4)
    np.random.seed(c.int("seed", 0, 10 ** 6))
    x = data.double() if as_tensor else data.double().numpy()
    got = c.call("bootstrap", _cpe.bootstrapped_std_error_of_mean, x, pc, 3000)
    want = float(data.double().numpy().std()) / int(pc * n) ** 0.5
    c.check("spread of means of resamples of the requested size", abs(float(got) - want) <= 0.12 * want + 1e-9)
    flat = c.call("bootstrap", _cpe.bootstrapped_std_error_of_mean, np.full(n, 1.5), pc, 20)
    c.check("no spread in constant data", abs(float(flat)) < 1e-9)


def episodes(c, N, ids):
    """symbolic episode boundaries decided row by row -> lists of rows of one episode"""
    eps, cur = [], [0]
    for i in range(1, N):
        if bool(c.eq(c.at(ids, i, 0), c.at(ids, i - 1, 0))):
            cur.append(i)
        else:
            eps.append(cur)
            cur = [i]
    return eps + [cur]


@contract("P14", "sequential doubly robust", under=["reagent/evaluation/sequential_doubly_robust_estimator.py:SequentialDoublyRobustEstimator.estimate"],
          bound="2 to 4 rows in any split into episodes (any values, propensities, action counts and discount)", split=[("rows", 3)],
          assumptions=["bootstrapped_std_error_of_mean returns an arbitrary non-negative number"])
def sdr(c):
    N = c.choice("rows", [2, 3, 4])
    A = c.dim("A")
    gamma = c.real("gamma", 0, 1)
    ids = c.tensor("mdp_id", [N, 1], "i", lo=0, hi=3)
    edp = page(c, N, A, values=True, rew=False, mdp_id=ids)
    boot = Boot(c)
    e = c.call("estimate", SequentialDoublyRobustEstimator(gamma).estimate, edp, stub=boot.stub)
    eps = episodes(c, N, ids)
    at = c.at
    S = lambda i, f: c.Sum(A, lambda a: f(i, a))
    V = lambda i: S(i, lambda i, a: at(edp.model_propensities, i, a) * at(edp.model_values, i, a))
    Q = lambda i: S(i, lambda i, a: at(edp.model_values, i, a) * at(edp.action_mask, i, a))
    w = lambda i: c.div(S(i, lambda i, a: at(edp.model_propensities, i, a) * at(edp.action_mask, i, a)), at(edp.logged_propensities, i, 0))
    r = lambda i: at(edp.logged_rewards, i, 0)
    drs, vals = [], []
    for ep in eps:
        d = v = 0.0
        for i in reversed(ep):
            d = V(i) + w(i) * (r(i) + gamma * d - Q(i))
            v = r(i) + gamma * v
        drs.append(d)
        vals.append(v)
    raw = c.div(sum(drs), len(drs))
    score = c.div(sum(vals), len(vals))
    data, pc, n, se = boot.of(e.raw_std_error)
    est(c, "sequential doubly robust", e, raw, lambda x: c.If(c.lt(score, 1e-6), 0.0, c.div(x, score)), se)
    c.same("standard error over one estimate per episode", len(data), len(drs))
    for k, d in enumerate(drs):
        c.checkeq("standard error over the episodes' estimates", data[k], d)


class ObjT:
    """tensor of symbolic scalars handed to numpy code as an object array (fixed shape)"""

    def __init__(self, t, n, m):
        self.a = np.empty((n, m), dtype=object)
        for i in range(n):
            for j in range(m):
                self.a[i, j] = t.at(i, j)
        self.shape = (n, m)

    def cpu(self):
        return self

    def detach(self):
        return self

    def numpy(self):
        return self.a.copy()


def npage(c, N, A, ids):
    p = page(c, N, A, values=True, rew=False, mdp_id=ids)
    q = p
    if c.sym:
        q = p._replace(**{f: ObjT(getattr(p, f), N, getattr(p, f).shape[1]) for f in ["action_mask", "logged_rewards", "logged_propensities", "model_propensities", "model_values"]})
    return p, q


def wsdr_terms(c, p, eps, A, gamma):
    """per episode and step (padded to equal length): reward, target propensity of the logged action, logged propensity, Q, V"""
    at = c.at
    T = max(len(e) for e in eps)
    S = lambda f: sum((f(a) for a in range(1, A)), f(0))
    r = [[at(p.logged_rewards, e[t], 0) if t < len(e) else 0.0 for t in range(T)] for e in eps]
    w = []
    for e in eps:
        row, acc = [], 1.0
        for t in range(T):
            acc = acc * c.div(S(lambda a: at(p.model_propensities, e[t], a) * at(p.action_mask, e[t], a)), at(p.logged_propensities, e[t], 0)) if t < len(e) else 0.0
            row.append(acc)
        w.append(row)
    Q = [[S(lambda a: at(p.model_values, e[t], a) * at(p.action_mask, e[t], a)) if t < len(e) else 0.0 for t in range(T)] for e in eps]
    V = [[S(lambda a: at(p.model_propensities, e[t], a) * at(p.model_values, e[t], a)) if t < len(e) else 0.0 for t in range(T)] for e in eps]
    return T, r, w, Q, V


def normalise(c, w, T, self_norm):
    n = len(w)
    out = [[None] * T for _ in w]
    for t in range(T):
        tot = sum((w[i][t] for i in range(1, n)), w[0][t])
        for i in range(n):
            out[i][t] = c.If(c.eq(tot, 0.0), 1.0 / n, c.div(w[i][t], c.If(c.eq(tot, 0.0), 1.0, tot))) if self_norm else c.div(w[i][t], n)
    return out


def jreturn(c, r, w, Q, V, T, gamma, j):
    """j-step returns, one per episode"""
    out = []
    j = T - 1 if j == "inf" else min(j, T - 1)
    for i in range(len(r)):
        tot, g = 0.0, 1.0
        before = c.div(1.0, len(r))
        for t in range(j + 1):
            tot = tot + g * w[i][t] * r[i][t] - g * (w[i][t] * Q[i][t] - before * V[i][t])
            before = w[i][t]
            g = g * gamma
        if j + 1 < T:
            tot = tot + g * (before if j >= 0 else c.div(1.0, len(r))) * V[i][j + 1]
        out.append(tot)
    return out


@contract("P15", "weighted sequential doubly robust", under=["reagent/evaluation/weighted_sequential_doubly_robust_estimator.py:WeightedSequentialDoublyRobustEstimator.estimate", "reagent/evaluation/weighted_sequential_doubly_robust_estimator.py:WeightedSequentialDoublyRobustEstimator.transform_to_equal_length_trajectories", "reagent/evaluation/weighted_sequential_doubly_robust_estimator.py:WeightedSequentialDoublyRobustEstimator.normalize_importance_weights", "reagent/evaluation/weighted_sequential_doubly_robust_estimator.py:WeightedSequentialDoublyRobustEstimator.calculate_step_return"],
          bound="1 to 3 rows in any split into episodes, 1 or 2 actions", split=[("rows", 3), ("actions", 2), ("self_normalise", 2)])
def wsdr(c):
    N, A = c.choice("rows", [1, 2, 3]), c.choice("actions", [1, 2])
    sn = c.choice("self_normalise", [True, False])
    gamma = c.real("gamma", 0, 1)
    ids = c.tensor("mdp_id", [N, 1], "i", lo=0, hi=3)
    p, q = npage(c, N, A, ids)
    e = c.call("estimate", WeightedSequentialDoublyRobustEstimator(gamma).estimate, q, 1, sn, objects=True)
    eps = episodes(c, N, ids)
    T, r, w, Q, V = wsdr_terms(c, p, eps, A, gamma)
    raw = sum(jreturn(c, r, normalise(c, w, T, sn), Q, V, T, gamma, "inf"), 0.0)
    disc = lambda row: sum((x * c.pow(gamma, k) if k else x for k, x in enumerate(row)), 0.0)
    score = c.div(sum((disc(x) for x in r), 0.0), len(eps))
    norm = lambda x: c.If(c.lt(score, 1e-6), 0.0, c.div(x, score))
    est(c, "weighted doubly robust", e, raw, norm, 0.0)


WS = "reagent/evaluation/weighted_sequential_doubly_robust_estimator.py:WeightedSequentialDoublyRobustEstimator."


@contract("P15", "MAGIC", under=[WS + "estimate", WS + "compute_weighted_doubly_robust_point_estimate", WS + "confidence_bounds"], bounded=True, quick=60, thorough=600,
          bound="2 to 4 return lengths, 4 to 8 episodes of 2 to 6 steps, 2 actions, resampled standard error not checked")
def magic(c):
    from scipy import stats
    n, sn = c.int("episodes", 4, 8), c.choice("self_normalise", [True, False])
    gamma = c.choice("gamma", [0.5, 0.9, 1.0])
    K = c.choice("horizons", [2, 3, 4])
    lens = [c.int(f"len{i}", 2, 4 if K == 2 else 6) for i in range(n)]
    N, A = sum(lens), 2
    ids = torch.tensor([[i] for i, l in enumerate(lens) for _ in range(l)])
    p, _ = npage(c, N, A, ids)
    p = p._replace(logged_propensities=p.logged_propensities * 0.5 + 0.5)
    np.random.seed(c.int("seed", 0, 10 ** 6))
    e = c.call("estimate", WeightedSequentialDoublyRobustEstimator(gamma).estimate, p, K, sn)
    eps = episodes(c, N, ids)
    T, r, w, Q, V = wsdr_terms(c, p, eps, A, gamma)

    def returns(idx, j):
        s = lambda x: [x[i] for i in idx]
        return jreturn(c, s(r), normalise(c, s(w), T, sn), s(Q), s(V), T, gamma, j)
    step = T // (K - 1)
    G = np.array([returns(range(n), h) for h in ["inf", -1] + [k * step for k in range(1, K - 1)]], dtype=float)
    tot = G.sum(1)
    m = min(n // 2, 25)
    inf = [sum(returns(range(int(k * n / m), int((k + 1) * n / m)), "inf")) for k in range(m)]
    half = stats.sem(inf) * stats.t.ppf(0.95, m - 1)
    lo, hi = np.mean(inf) - half, np.mean(inf) + half
    bias = np.array([x - lo if x < lo else x - hi if x > hi else 0.0 for x in tot])
    M = np.cov(G) + np.outer(bias, bias)
    c.check("MAGIC: a convex combination of the returns", min(tot) - 1e-3 <= float(e.raw) <= max(tot) + 1e-3)
    # exact minimiser over the simplex: every support
    best = None
    for k in range(1, K + 1):
        for sup in itertools.combinations(range(K), k):
            KKT = np.block([[M[np.ix_(sup, sup)], np.ones((k, 1))], [np.ones((1, k)), np.zeros((1, 1))]])
            if abs(np.linalg.det(KKT)) < 1e-12:
                continue
            y = np.zeros(K)
            y[list(sup)] = np.linalg.solve(KKT, np.append(np.zeros(k), 1.0))[:k]
            if (y >= -1e-9).all() and (best is None or y @ M @ y < best @ M @ best):
                best = y
    tangent = np.linalg.svd(np.ones((1, K)))[2][1:]
    if best is None or np.linalg.eigvalsh(tangent @ M @ tangent.T)[0] < 1e-2:
        return
    # raw = x.tot for some x of the simplex: the least objective among those x must be (nearly) the best
    d = float(e.raw) - float(best @ tot)
    v = tot - tot.mean()
    Q = tangent @ M @ tangent.T
    g = tangent @ v
    least = best @ M @ best + (d * d / (g @ np.linalg.solve(Q, g)) if g @ g > 1e-9 else 0.0)  # lower bound: drop x >= 0
    c.check("MAGIC: the combination minimises covariance plus squared bias", least <= best @ M @ best * (1 + 5e-3) + 2e-4)


@contract("P13", "post-training evaluation", under=["reagent/evaluation/evaluator.py:Evaluator.evaluate_post_training", "reagent/evaluation/evaluator.py:Evaluator.score_cpe"], bounded=True, quick=12, thorough=200,
          bound="6 to 24 rows, 2 or 3 actions, up to 2 metrics")
def post(c):
    from reagent.evaluation.evaluator import Evaluator
    from reagent.evaluation.ope_adapter import OPEstimatorAdapter  # noqa: F401
    N, A, M = c.int("rows", 6, 24), c.choice("A", [2, 3]), c.choice("metrics", [0, 1, 2])
    gamma = c.choice("gamma", [0.5, 0.9])
    n_ep = c.int("episodes", 4, 6)
    ids = sorted(i % n_ep for i in range(N))
    t = lambda n, shape, **k: c.tensor(n, shape, **k)
    taken = torch.tensor([c.int(f"a{i}", 0, A - 1) for i in range(N)])
    edp = EvaluationDataPage(
        mdp_id=torch.tensor(ids).reshape(-1, 1), sequence_number=torch.arange(N).reshape(-1, 1), logged_propensities=t("lp", [N, 1], lo=0.3, hi=1.0), logged_rewards=t("lr", [N, 1], lo=0.1, hi=4),
        action_mask=torch.nn.functional.one_hot(taken, A).float(), model_propensities=torch.softmax(t("mp", [N, A]), 1), model_rewards=t("mr", [N, A]), model_rewards_for_logged_action=t("mrl", [N, 1]),
        model_values=t("mv", [N, A]), model_values_for_logged_action=t("mvl", [N, 1]), possible_actions_mask=torch.ones(N, A), optimal_q_values=t("q", [N, A]),
        eval_action_idxs=torch.tensor([[c.int(f"e{i}", 0, A - 1)] for i in range(N)]), logged_values=t("lv", [N, 1]), logged_metrics=t("lm", [N, M], lo=0.1, hi=4) if M else None,
        logged_metrics_values=t("lmv", [N, M]) if M else None, model_metrics=t("mm", [N, M * A]) if M else None, model_metrics_values=t("mmv", [N, M * A]) if M else None)
    names_, mets = [f"act{a}" for a in range(A)], [f"met{m}" for m in range(M)]
    np.random.seed(1)
    d = c.call("evaluate_post_training", Evaluator(names_, gamma, None, metrics_to_score=mets).evaluate_post_training, edp)
    for what, got, p in [("reward", d.reward_estimates, edp)] + [(k, d.metric_estimates.get(k), edp.set_metric_as_reward(m, A)) for m, k in enumerate(mets)]:
        c.check(f"an estimate for {'every metric' if what != 'reward' else 'the reward'}", got is not None)
        if got is None:
            continue
        three = DoublyRobustEstimator().estimate(p)
        want = dict(zip(["direct_method", "inverse_propensity", "doubly_robust"], three))
        want["sequential_doubly_robust"] = SequentialDoublyRobustEstimator(gamma).estimate(p)
        want["weighted_doubly_robust"] = WeightedSequentialDoublyRobustEstimator(gamma).estimate(p, 1, True)
        want["magic"] = WeightedSequentialDoublyRobustEstimator(gamma).estimate(p, 25, True)
        for k, w in want.items():
            c.checkeq(f"{k} estimate is that estimator's", float(getattr(got, k).raw), float(w.raw))
            c.checkeq(f"{k} normalised estimate is that estimator's", float(getattr(got, k).normalized), float(w.normalized))
    for a, nm in enumerate(names_):
        q = edp.optimal_q_values[:, a].double()
        c.checkeq("mean q value per action", d.q_value_means[nm], float(q.mean()))
        c.checkeq("spread of the q values per action", d.q_value_stds[nm], float(q.std()))
        c.checkeq("share of rows choosing the action", d.action_distribution[nm], sum(int(x) == a for x in edp.eval_action_idxs) / N)
    c.checkeq("Monte Carlo loss", d.mc_loss, float(((edp.logged_values - edp.model_values_for_logged_action).double() ** 2).mean()))


@contract("P13", "splitting a page", under=["reagent/evaluation/doubly_robust_estimator.py:DoublyRobustEstimator._split_data"], bounded=True, quick=60, bound="up to 12 rows of up to 3 actions")
def split(c):
    n, A = int(c.int("rows", 1, 12)), int(c.int("actions", 1, 3))
    seed = int(c.int("seed", 0, 10 ** 6))
    torch.manual_seed(seed)
    np.random.seed(seed)
    ft, fv = c.choice("fractions", [(0.4, 0.1), (0.5, 0.5), (0.0, 0.0), (0.25, 0.5), (1.0, 0.0)])
    logged = torch.randint(A, (n,))
    i = torch.arange(float(n)).unsqueeze(1)
    edp = EvaluationDataPage(mdp_id=None, sequence_number=None, contexts=i.repeat(1, 2), logged_propensities=i + 0.5, logged_rewards=i + 100, action_mask=torch.nn.functional.one_hot(logged, A).float(),
                             model_propensities=i.repeat(1, A) + 200, model_rewards=i.repeat(1, A) + 300, model_rewards_for_logged_action=i + 400)
    got = c.call("split", DoublyRobustEstimator()._split_data, edp, ft, fv)
    seen = []
    cut = [0, int(ft * n), int((ft + fv) * n), n]
    for k, part in enumerate(("train", "valid", "eval")):
        rows = got.contexts_dict[part][:, 0].long()
        seen += rows.tolist()
        c.same("size of the part", (len(rows), got.num_examples_dict[part]), (cut[k + 1] - cut[k],) * 2)
        for d, of in ((got.contexts_dict, edp.contexts), (got.model_propensities_dict, edp.model_propensities), (got.actions_logged_dict, logged.float().unsqueeze(1)), (got.action_mask_dict, edp.action_mask),
                      (got.logged_rewards_dict, edp.logged_rewards), (got.model_rewards_dict, edp.model_rewards), (got.model_rewards_for_logged_action_dict, edp.model_rewards_for_logged_action), (got.logged_propensities_dict, edp.logged_propensities)):
            c.check("every column of a part holds the same rows", torch.equal(d[part], of[rows]))
    c.same("every row is in exactly one part", sorted(seen), list(range(n)))
