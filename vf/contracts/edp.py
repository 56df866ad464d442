import reagent.types as rlt
import torch
from reagent.evaluation.evaluation_data_page import EvaluationDataPage
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.training.dqn_trainer import DQNTrainer
from reagent.training.parametric_dqn_trainer import ParametricDQNTrainer
from reagent.training.qrdqn_trainer import QRDQNTrainer
from vf.runner import contract
from vf.contracts._common import *
from vf.contracts.dqn import dqn_batch, set_rl

HIGH, QH = 1e6, 1e5
EDP = "reagent/evaluation/evaluation_data_page.py:EvaluationDataPage."


def flags(c, nets):
    old = []
    for n in nets:
        t = c.choice(f"train_mode{len(old)}", [True, False]) if not old else not old[0]
        n.train(t)
        old.append(t)
    return old


def eval_mode(c, nets, old):
    c.check("networks are evaluated in evaluation mode", all(not m for n in nets for m in n.modes))
    c.same("training mode of the networks is restored", [n.training for n in nets], old)


def dqn_page(cls, atoms):
    def body(c):
        B, A = c.dim("B"), c.dim("A")
        M = c.choice("metrics", [0, 1, 2])
        temp = c.real("temperature", 0.01, 100)
        boost = c.choice("boost", [False, True])
        rl, idx, bonus = set_rl(c, A, c.real("gamma", 0, 1), True, "plain", boost)
        object.__setattr__(rl, "temperature", temp)
        N = [c.dim("N")] if atoms else []
        rew, cpe = c.net("rew", [(M + 1) * A], -HIGH, HIGH), c.net("cpe", [(M + 1) * A], -HIGH, HIGH)
        q, qt = c.net("q", [A] + N, -QH, QH), c.net("qt", [A] + N, -QH, QH)
        tr = c.call("construct", cls, q_network=q, q_network_target=qt, reward_network=rew, q_network_cpe=cpe, q_network_cpe_target=c.net("cpet", [(M + 1) * A], -HIGH, HIGH),
                    actions=names(c, A, idx), rl=rl, metrics_to_score=[f"m{k}" for k in range(M)], evaluation=EvaluationParameters(calc_cpe_in_training=True), **(dict(num_atoms=N[0]) if atoms else {}))
        prep(tr)
        b = dqn_batch(c, B, A, 3)
        b.extras.mdp_id = c.tensor("mdp_id", [B, 1], "i", 0, 5)
        b.extras.sequence_number = c.tensor("seq", [B, 1], "i", 0, 9)
        if M:
            b.extras.metrics = c.tensor("metric_values", [B, M])
        old = flags(c, [q, rew, cpe])
        p = c.call("create page", EvaluationDataPage.create_from_training_batch, b, tr)
        eval_mode(c, [q, rew, cpe], old)
        qv = (lambda i, a: c.div(c.Sum(N[0], lambda k: c.netval("q", [(b.state, i)], (a, k))), N[0])) if atoms else (lambda i, a: c.netval("q", [(b.state, i)], a))
        if atoms:
            c.meanbound([B, A], N[0], lambda i, a, k: c.netval("q", [(b.state, i)], (a, k)), -QH, QH)
        ok = lambda i, a: c.eq(c.at(b.possible_actions_mask, i, a), 1)
        prob = softmax(c, A, qv, ok, temp)
        hot = lambda i: c.ArgMax(A, lambda a: c.at(b.action, i, a))
        rv = lambda i, a: c.netval("rew", [(b.state, i)], a)
        cv = lambda i, a: c.netval("cpe", [(b.state, i)], a)
        logged = lambda f, m=0: lambda i, j=0: c.Sum(A, lambda a: f(i, (m + j) * A + a) * c.at(b.action, i, a))
        c.eqt("model propensities: softmax of the q values over the possible actions", p.model_propensities, [B, A], prob)
        c.eqt("optimal q values", p.optimal_q_values, [B, A], qv)
        c.eqt("model values come from the evaluation network", p.model_values, [B, A], cv)
        c.eqt("model rewards", p.model_rewards, [B, A], rv)
        c.eqt("model value of the logged action", p.model_values_for_logged_action, [B, 1], logged(cv))
        c.eqt("model reward of the logged action", p.model_rewards_for_logged_action, [B, 1], logged(rv))
        pick = lambda i: c.at(p.eval_action_idxs, i, 0)
        some = lambda i: c.Any(A, lambda a: ok(i, a))
        c.forall("evaluated action is a possible one", [B], lambda i: c.Implies(some(i), c.And(c.le(0, pick(i)), c.lt(pick(i), A), ok(i, pick(i)))))
        c.forall("no possible action is better than the evaluated one", [B, A], lambda i, a: c.Implies(c.And(some(i), ok(i, a)), c.le(qv(i, a), qv(i, pick(i)))))
        c.eqt("action mask", p.action_mask, [B, A], lambda i, a: c.at(b.action, i, a))
        c.eqt("logged rewards include the boost", p.logged_rewards, [B, 1], lambda i, j: c.at(b.reward, i, 0) + bonus(b, i))
        c.eqt("logged propensities", p.logged_propensities, [B, 1], lambda i, j: c.at(b.extras.action_probability, i, 0))
        c.eqt("episode ids", p.mdp_id, [B, 1], lambda i, j: c.at(b.extras.mdp_id, i, 0))
        c.eqt("sequence numbers", p.sequence_number, [B, 1], lambda i, j: c.at(b.extras.sequence_number, i, 0))
        c.eqt("possible actions", p.possible_actions_mask, [B, A], lambda i, a: c.at(b.possible_actions_mask, i, a))
        if M:
            c.eqt("logged metrics", p.logged_metrics, [B, M], lambda i, m: c.at(b.extras.metrics, i, m))
            c.eqt("model metrics are grouped by metric", p.model_metrics, [B, M * A], lambda i, j: rv(i, A + j))
            c.eqt("model metric values are grouped by metric", p.model_metrics_values, [B, M * A], lambda i, j: cv(i, A + j))
            for m in range(M):
                pick = lambda t: t[:, m:m + 1]
                c.eqt("model metric of the logged action", pick(p.model_metrics_for_logged_action), [B, 1], logged(rv, m + 1))
                c.eqt("model metric value of the logged action", pick(p.model_metrics_values_for_logged_action), [B, 1], logged(cv, m + 1))
        else:
            c.same("no metric columns", [p.model_metrics_values, p.model_metrics_for_logged_action, p.model_metrics_values_for_logged_action, p.logged_metrics], [None] * 4)
    return body


U = [EDP + "create_from_training_batch", EDP + "create_from_tensors_dqn", "reagent/torch_utils.py:masked_softmax"]
contract("P12", "page of a DQN trainer", under=U, split=[("metrics", 3), ("boost", 2)])(dqn_page(DQNTrainer, False))
contract("P12", "page of a QR-DQN trainer", under=U, split=[("metrics", 3), ("boost", 2)])(dqn_page(QRDQNTrainer, True))


@contract("P12", "page of a parametric trainer", under=[EDP + "create_from_tensors_parametric_dqn", EDP + "create_from_training_batch"], split=[("metrics", 3)])
def pdqn_page(c):
    B, A, D, K = c.dim("B"), c.dim("A"), 3, 2
    M = c.choice("metrics", [0, 1, 2])
    temp = c.real("temperature", 0.01, 100)
    rl = RLParameters(gamma=0.5)
    object.__setattr__(rl, "temperature", temp)
    q, qt, rw = c.net("q", [1], -HIGH, HIGH, nargs=2), c.net("qt", [1], -HIGH, HIGH, nargs=2), c.net("rew", [1 + M], -HIGH, HIGH, nargs=2)
    tr = c.call("construct", ParametricDQNTrainer, q_network=q, q_network_target=qt, reward_network=rw, rl=rl)
    prep(tr)
    F = rlt.FeatureData
    st, ac, pa = c.rows("state", [B], D), c.rows("action", [B], K), c.rows("pa", [B * A], K)
    is_logged = lambda i, a: c.And(*[c.eq(c.at(pa, i * A + a, k), c.at(ac, i, k)) for k in range(K)])
    if not c.sym:  # draw the logged action among the candidates
        for i in range(B):
            ac[i] = pa[i * A + c.int(f"taken{i}", 0, A - 1)]
    c.assume_forall([B], lambda i: c.eq(c.Sum(A, lambda a: c.If(is_logged(i, a), 1.0, 0.0)), 1.0))
    b = rlt.ParametricDqnInput(
        state=F(float_features=st), next_state=F(float_features=st), action=F(float_features=ac), next_action=F(float_features=ac),
        reward=c.tensor("reward", [B, 1]), not_terminal=c.tensor("not_terminal", [B, 1], "b"),
        possible_actions=F(float_features=pa), possible_actions_mask=c.tensor("pam", [B, A], "m"),
        possible_next_actions=F(float_features=pa), possible_next_actions_mask=c.tensor("pnam", [B, A], "m"),
        time_diff=c.tensor("time_diff", [B, 1], "i", 0, 6), step=c.tensor("step", [B, 1], "i", 1, 6),
        extras=rlt.ExtraData(mdp_id=c.tensor("mdp_id", [B, 1], "i", 0, 5), sequence_number=c.tensor("seq", [B, 1], "i", 0, 9), max_num_actions=A,
                             action_probability=c.tensor("ap", [B, 1], lo=0.01, hi=1), metrics=c.tensor("metric_values", [B, M]) if M else None),
    )
    old = flags(c, [q, rw])
    p = c.call("create page", EvaluationDataPage.create_from_training_batch, b, tr)
    eval_mode(c, [q, rw], old)
    cand = lambda n: lambda i, a, m=0: c.netval(n, [(st, i), (pa, i * A + a)], m)
    qv = cand("q")
    prob = softmax(c, A, qv, lambda i, a: c.eq(c.at(b.possible_actions_mask, i, a), 1), temp)
    c.eqt("model propensities: softmax of the candidates' q values", p.model_propensities, [B, A], prob)
    c.eqt("model values", p.model_values, [B, A], qv)
    c.eqt("optimal q values", p.optimal_q_values, [B, A], qv)
    c.eqt("model rewards", p.model_rewards, [B, A], cand("rew"))
    c.eqt("model value of the logged action", p.model_values_for_logged_action, [B, 1], lambda i, j: c.netval("q", [(st, i), (ac, i)], 0))
    c.eqt("model reward of the logged action", p.model_rewards_for_logged_action, [B, 1], lambda i, j: c.netval("rew", [(st, i), (ac, i)], 0))
    c.eqt("action mask marks the logged candidate", p.action_mask, [B, A], lambda i, a: c.If(is_logged(i, a), 1.0, 0.0))
    c.eqt("logged rewards", p.logged_rewards, [B, 1], lambda i, j: c.at(b.reward, i, 0))
    c.eqt("logged propensities", p.logged_propensities, [B, 1], lambda i, j: c.at(b.extras.action_probability, i, 0))
    if M:
        c.eqt("logged metrics", p.logged_metrics, [B, M], lambda i, m: c.at(b.extras.metrics, i, m))
        c.eqshape("model metrics", p.model_metrics, [B, M * A])
        for m in range(M):
            c.eqt("model metrics are grouped by metric", p.model_metrics[:, m * A:(m + 1) * A], [B, A], lambda i, a: cand("rew")(i, a, m + 1))
            c.eqt("metric values are the model values", p.model_metrics_values[:, m * A:(m + 1) * A], [B, A], qv)


def full_page(c, tag, B, A, M):
    t = lambda n, shape, kind="f", **k: c.tensor(f"{tag}_{n}", shape, kind, **k)
    return EvaluationDataPage(
        mdp_id=t("mdp_id", [B, 1], "i", lo=0, hi=3), sequence_number=t("sequence_number", [B, 1], "i", lo=0, hi=9),
        logged_propensities=t("lp", [B, 1]), logged_rewards=t("lr", [B, 1]), action_mask=t("am", [B, A], "m"), model_propensities=t("mp", [B, A]),
        model_rewards=t("mr", [B, A]), model_rewards_for_logged_action=t("mrl", [B, 1]), model_values=t("mv", [B, A]), model_values_for_logged_action=t("mvl", [B, 1]),
        possible_actions_mask=t("pam", [B, A], "m"), optimal_q_values=t("q", [B, A]), eval_action_idxs=t("ei", [B, 1], "i", lo=0, hi=4),
        logged_values=t("lv", [B, 1]) if M else None, logged_metrics=t("lm", [B, M]) if M else None, logged_metrics_values=t("lmv", [B, M]) if M else None,
        model_metrics=t("mm", [B, M * A]) if M else None, model_metrics_values=t("mmv", [B, M * A]) if M else None,
    )


@contract("P12", "appending pages", under=[EDP + "append"])
def append(c):
    A = c.dim("A")
    M = c.choice("metrics", [0, 2])
    n1, n2 = c.dim("n1"), c.dim("n2")
    p, q = full_page(c, "p", n1, A, M), full_page(c, "q", n2, A, M)
    r = c.call("append", p.append, q)
    for f in EvaluationDataPage._fields:
        x, y, z = getattr(p, f), getattr(q, f), getattr(r, f)
        if x is None:
            c.check(f"{f}: absent stays absent", z is None)
            continue
        w = c.shape(x)[1]
        c.eqshape(f"{f}: one row per row of either page", z, [n1 + n2, w])
        c.forall(f"{f}: first page's rows come first, in order", [n1, w], lambda i, j: c.eq(c.at(z, i, j), c.at(x, i, j)))
        c.forall(f"{f}: then the second page's rows, in order", [n2, w], lambda i, j: c.eq(c.at(z, n1 + i, j), c.at(y, i, j)))


@contract("P12", "using a metric as the reward", under=[EDP + "set_metric_as_reward"])
def metric(c):
    A, B = c.dim("A"), c.dim("B")
    M = c.choice("metrics", [1, 3])
    m = c.choice("metric", list(range(M)))
    p = full_page(c, "p", B, A, M)
    r = c.call("set_metric_as_reward", p.set_metric_as_reward, m, A)
    c.eqt("logged reward is the metric", r.logged_rewards, [B, 1], lambda i, j: c.at(p.logged_metrics, i, m))
    c.eqt("logged value is the metric's", r.logged_values, [B, 1], lambda i, j: c.at(p.logged_metrics_values, i, m))
    c.eqt("model rewards are the metric's", r.model_rewards, [B, A], lambda i, a: c.at(p.model_metrics, i, m * A + a))
    c.eqt("model values are the metric's", r.model_values, [B, A], lambda i, a: c.at(p.model_metrics_values, i, m * A + a))
    c.eqt("the logged action's model reward is the metric's", r.model_rewards_for_logged_action, [B, 1],
          lambda i, j: c.Sum(A, lambda a: c.at(p.model_metrics, i, m * A + a) * c.at(p.action_mask, i, a)))
    for f in ["logged_propensities", "model_propensities", "action_mask", "mdp_id", "sequence_number"]:
        x = getattr(p, f)
        c.eqt(f"{f} is unchanged", getattr(r, f), c.shape(x), lambda i, j: c.at(x, i, j))


@contract("P12", "discounted values of a page", under=[EDP + "compute_values", EDP + "compute_values_for_mdps"], bound="pages of 1 to 4 rows (any episode structure, values, sequence numbers, discount)")
def symvalues(c):
    N, M = c.choice("rows", [1, 2, 3, 4]), c.choice("metrics", [0, 2])
    gamma = c.real("gamma", 0, 1, lo_open=True)
    p = full_page(c, "p", N, c.dim("A"), M)
    p = p._replace(logged_values=None, logged_metrics_values=None)
    v = c.call("compute_values", p.compute_values, gamma)
    same = lambda i, j: c.eq(c.at(p.mdp_id, i, 0), c.at(p.mdp_id, j, 0))

    def disc(t, i, m):
        if i == N - 1:
            return c.at(t, i, m)
        g = c.pow(gamma, (c.at(p.sequence_number, i + 1, 0) - c.at(p.sequence_number, i, 0)) * 1.0)
        return c.at(t, i, m) + c.If(same(i, i + 1), g * disc(t, i + 1, m), 0.0)
    for i in range(N):
        c.checkeq("logged value: reward plus the discounted value of the next row of the episode", c.at(v.logged_values, i, 0), disc(p.logged_rewards, i, 0))
        for m in range(M):
            c.checkeq("metric value: the same, per metric", c.at(v.logged_metrics_values, i, m), disc(p.logged_metrics, i, m))


@contract("P12", "sorting and discounted values of a page", under=[EDP + "sort", EDP + "compute_values", EDP + "compute_values_for_mdps", EDP + "validate"], bounded=True, bound="pages of up to 8 rows, up to 2 metrics", quick=250)
def values(c):
    B, A, M = c.dim("B", hi=8), c.dim("A", hi=3), c.choice("metrics", [0, 2])
    gamma = c.choice("gamma", [0.0, 0.5, 0.9, 1.0])
    p = full_page(c, "p", B, A, M)
    perm = list(range(B))
    key, left = [], [list(range(0, 40, 3)) for _ in range(3)]
    for i in range(B):  # distinct sequence numbers within an episode, any row order
        e = c.int(f"episode{i}", 0, 2)
        s = left[e].pop(c.int(f"pos{i}", 0, len(left[e]) - 1))
        key.append((e, s))
    p = p._replace(mdp_id=torch.tensor([[e] for e, _ in key]), sequence_number=torch.tensor([[s] for _, s in key]))
    order = sorted(range(B), key=lambda i: key[i])
    s = c.call("sort", p.sort)
    for f in EvaluationDataPage._fields:
        x, z = getattr(p, f), getattr(s, f)
        if x is None:
            c.check(f"{f}: absent stays absent", z is None)
        else:
            c.eqt(f"{f}: rows ordered by episode, then sequence number", z, list(x.shape), lambda i, j: c.at(x, order[i], j))
    v = c.call("compute_values", s.compute_values, gamma)
    ks = [key[i] for i in order]

    def disc(t, col):
        out = [0.0] * B
        for i in range(B):
            for j in range(i, B):
                if ks[j][0] == ks[i][0]:
                    out[i] += float(t[j, col]) * gamma ** (ks[j][1] - ks[i][1])
        return out
    lv = disc(s.logged_rewards, 0)
    c.eqt("logged value: rewards of the rest of the episode, discounted by sequence number", v.logged_values, [B, 1], lambda i, j: lv[i])
    for m in range(M):
        mv = disc(s.logged_metrics, m)
        c.eqt("metric value: metric of the rest of the episode, discounted by sequence number", v.logged_metrics_values[:, m:m + 1], [B, 1], lambda i, j: mv[i])
    c.eqt("rewards are left alone", v.logged_rewards, [B, 1], lambda i, j: c.at(s.logged_rewards, i, 0))
    c.call("a sorted page is valid", v.validate)
    if B > 1 and len({e for e, _ in ks}) < B:
        k = next(i for i in range(B - 1) if ks[i][0] == ks[i + 1][0])
        bad = v.sequence_number.clone()
        bad[k + 1] = bad[k]
        r = c.call("validate", v._replace(sequence_number=bad).validate, expect=AssertionError)
        c.check("repeated sequence numbers are rejected", isinstance(r, AssertionError))


@contract("P12", "evaluating a trained network", under=["reagent/training/dqn_trainer_base.py:DQNTrainerBaseLightning.test_epoch_end", "reagent/training/dqn_trainer_base.py:DQNTrainerBaseLightning.gather_eval_data", "reagent/evaluation/evaluator.py:Evaluator.evaluate_post_training"], bounded=True, quick=8, bound="random networks, 120 episodes of 3 steps in 1 to 3 batches, up to 2 metrics")
def evaluating(c):
    from reagent.models.dqn import FullyConnectedDQN
    import numpy as np
    M, A, k = c.choice("metrics", [0, 1, 2]), c.choice("actions", [2, 3]), c.choice("batches", [1, 2, 3])
    seed = int(c.int("seed", 0, 10 ** 6))
    torch.manual_seed(seed)
    mk = lambda o: FullyConnectedDQN(3, o, sizes=[4], activations=["relu"])
    ms = [f"m{i}" for i in range(M)]
    tr = c.call("construct", DQNTrainer, q_network=mk(A), q_network_target=mk(A), reward_network=mk(A * (M + 1)), q_network_cpe=mk(A * (M + 1)), q_network_cpe_target=mk(A * (M + 1)),
                metrics_to_score=list(ms), actions=[f"a{i}" for i in range(A)], evaluation=EvaluationParameters(calc_cpe_in_training=True), rl=RLParameters(gamma=0.5))
    n, L = 120, 3
    B = n * L
    ids, seq = torch.arange(n).repeat_interleave(L), torch.arange(L).repeat(n)
    order = torch.randperm(B)
    ac, nac = torch.eye(A)[torch.randint(0, A, (B,))], torch.eye(A)[torch.randint(0, A, (B,))]
    f = {k2: torch.rand(B, w) for k2, w in (("s", 3), ("n", 3), ("r", 1), ("p", 1), ("m", max(M, 1)))}

    def batch(i):
        F = lambda t: rlt.FeatureData(t)
        return rlt.DiscreteDqnInput(state=F(f["s"][i]), next_state=F(f["n"][i]), reward=f["r"][i], time_diff=torch.ones(len(i), 1), step=None, not_terminal=(seq[i] < L - 1).float().reshape(-1, 1), action=ac[i], next_action=nac[i],
                                    possible_actions_mask=torch.ones(len(i), A), possible_next_actions_mask=torch.ones(len(i), A),
                                    extras=rlt.ExtraData(mdp_id=ids[i].reshape(-1, 1), sequence_number=seq[i].reshape(-1, 1), action_probability=f["p"][i] * 0.5 + 0.5, max_num_actions=torch.tensor([A]), metrics=f["m"][i] if M else None))
    log = Reporter()
    tr.set_reporter(log)
    outs = [c.call("test_step", tr.test_step, batch(i), j) for j, i in enumerate(order.chunk(k))]
    page = c.call("gather", tr.gather_eval_data, outs)
    c.check("episodes are put together, in order", torch.equal(page.mdp_id.flatten(), ids) and torch.equal(page.sequence_number.flatten(), seq))
    inv = torch.arange(B)
    c.check("with the rows that belong to them", c.close(page.logged_rewards, f["r"][inv]) and torch.equal(page.action_mask.float(), ac[inv]))
    np.random.seed(1)
    c.call("evaluate", tr.test_epoch_end, outs)
    c.check("one report", len(log.logged) == 1 and list(log.logged[0]) == ["cpe_details"])
    d = log.logged[0]["cpe_details"]
    c.same("every metric is scored, by name", sorted(d.metric_estimates), sorted(ms))
    ev = tr.evaluator
    same = lambda a, b: all(abs(getattr(a, x).raw - getattr(b, x).raw) < 1e-3 * max(1, abs(getattr(b, x).raw)) for x in ("direct_method", "inverse_propensity", "doubly_robust", "sequential_doubly_robust"))
    c.check("the reward is scored", same(d.reward_estimates, ev.score_cpe("x", page)))
    for i, m in enumerate(ms):
        c.check("a metric is scored as if it were the reward", same(d.metric_estimates[m], ev.score_cpe("x", page.set_metric_as_reward(i, A))))
