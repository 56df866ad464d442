import torch
import reagent.types as rlt
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.training.dqn_trainer import DQNTrainer, BCQConfig
from vf.runner import contract
from vf.contracts._common import *

HIGH = 1e6


def dqn_batch(c, B, A, D):
    st = c.rows("state", [B], D)
    ns = c.rows("next_state", [B], D)
    b = rlt.DiscreteDqnInput(
        state=rlt.FeatureData(float_features=st),
        next_state=rlt.FeatureData(float_features=ns),
        action=c.tensor("action", [B, A], "m"),
        next_action=c.tensor("next_action", [B, A], "m"),
        reward=c.tensor("reward", [B, 1]),
        not_terminal=c.tensor("not_terminal", [B, 1], "b"),
        possible_actions_mask=c.tensor("pam", [B, A], "m"),
        possible_next_actions_mask=c.tensor("pnam", [B, A], "m"),
        time_diff=c.tensor("time_diff", [B, 1], "i", 0, 6),
        step=c.tensor("step", [B, 1], "i", 1, 6),
        extras=rlt.ExtraData(action_probability=c.tensor("ap", [B, 1], lo=0.01, hi=1)),
    )
    return b


def set_rl(c, A, gamma, maxq, disc, boost, **kw):
    """-> RLParameters with symbolic entries, name index, reward bonus(b, i)"""
    rl = RLParameters(
        gamma=0.5, maxq_learning=maxq, use_seq_num_diff_as_time_diff=disc == "time_diff",
        multi_steps=3 if disc == "multi" else None, **kw,
    )
    object.__setattr__(rl, "gamma", gamma)
    idx, bonus = {}, lambda b, i: 0.0
    if boost:
        bi = c.int("boost_idx", 0)
        c.assume(c.lt(bi, A))
        idx = {"boosted": bi}
        bv = c.real("boost_val")
        object.__setattr__(rl, "reward_boost", {"boosted": bv})
        bonus = lambda b, i: c.at(b.action, i, bi) * bv
    return rl, idx, bonus


def discount_of(c, b, i, disc, gamma):
    if disc == "plain":
        return gamma
    return c.pow(gamma, c.at(b.time_diff if disc == "time_diff" else b.step, i, 0) * 1.0)


@contract("P01", "DQN TD loss", under=["reagent/training/dqn_trainer.py:DQNTrainer.train_step_gen", "reagent/training/dqn_trainer_base.py:DQNTrainerMixin.get_max_q_values_with_target", "reagent/training/dqn_trainer_base.py:DQNTrainerBaseLightning.boost_rewards"], split=[("double", 2), ("maxq", 2)])
def dqn_td(c):
    B, A, D = c.dim("B"), c.dim("A"), 3
    gamma = c.real("gamma", 0, 1)
    double = c.choice("double", [True, False])
    maxq = c.choice("maxq", [True, False])
    disc = c.choice("discount", ["plain", "time_diff", "multi"])
    lossk = c.choice("loss", ["mse", "huber"])
    boost = c.choice("boost", [False, True])
    rl, idx, bonus = set_rl(c, A, gamma, maxq, disc, boost, q_network_loss=lossk)
    qn = c.net("q", [A], -HIGH, HIGH)
    qt = c.net("qt", [A], -HIGH, HIGH)
    tr = c.call("construct", DQNTrainer, q_network=qn, q_network_target=qt, reward_network=None,
                actions=names(c, A, idx), rl=rl, double_q_learning=double,
                evaluation=EvaluationParameters(calc_cpe_in_training=False))
    prep(tr)
    b = dqn_batch(c, B, A, D)
    # at least one action possible in each next state; actions one-hot
    onehot = lambda t: lambda i: c.eq(c.Sum(A, lambda a: c.at(t, i, a)), 1)
    losses = c.call("train_step_gen", lambda: run_gen(tr.train_step_gen(b, 0)))
    q = lambda i, a: c.netval("q", [(b.state, i)], a)
    qn_ = lambda i, a: c.netval("q", [(b.next_state, i)], a)
    qt_ = lambda i, a: c.netval("qt", [(b.next_state, i)], a)
    mask = b.possible_next_actions_mask if maxq else b.next_action
    c.assume_forall([B], lambda i: c.Any(A, lambda a: c.eq(c.at(mask, i, a), 1)))

    def nextv(i):
        possible = lambda a: c.eq(c.at(mask, i, a), 1)
        a = c.ArgMax(A, lambda a: qn_(i, a) if double else qt_(i, a), possible)
        return qt_(i, a)

    def target(i):
        r = c.at(b.reward, i, 0) + bonus(b, i)
        return r + c.If(c.eq(c.at(b.not_terminal, i, 0), 1), discount_of(c, b, i, disc, gamma) * nextv(i), 0.0)

    def pred(i):
        return c.Sum(A, lambda a: c.at(b.action, i, a) * q(i, a))

    if lossk == "mse":
        want = mse(c, B, pred, target)
    else:
        want = c.div(c.Sum(B, lambda i: huber1(c, pred(i) - target(i))), B)
    c.checkeq("loss is the mean TD error against r + discount * not_terminal * Q_target", c.scalar(losses[0]), want)
    src = c.gradsrc(losses[0], {"state": b.state, "next_state": b.next_state})
    c.same("the online network is differentiated through its prediction only", [s for s in src if s.startswith("q@")], ["q@state"])


@contract("P01", "DQN TD loss with batch-constrained actions", under=["reagent/training/dqn_trainer.py:DQNTrainer.train_step_gen", "reagent/training/imitator_training.py:get_valid_actions_from_imitator"], split=[("double", 2)], sym_budget=60)
def dqn_bcq(c):
    B, A, D = c.dim("B"), c.dim("A"), 3
    gamma = c.real("gamma", 0, 1)
    thr = c.real("threshold", 0, 1)
    double = c.choice("double", [True, False])
    rl, idx, bonus = set_rl(c, A, gamma, True, "plain", False)
    qn, qt = c.net("q", [A], -HIGH, HIGH), c.net("qt", [A], -HIGH, HIGH)
    im = c.net("im", [A], -5, 5)
    bcq = BCQConfig()
    object.__setattr__(bcq, "drop_threshold", thr)
    tr = c.call("construct", DQNTrainer, q_network=qn, q_network_target=qt, reward_network=None, actions=names(c, A, idx), rl=rl,
                double_q_learning=double, imitator=im, bcq=bcq, evaluation=EvaluationParameters(calc_cpe_in_training=False))
    prep(tr)
    b = dqn_batch(c, B, A, D)
    mask0 = c.call("clone", lambda: b.possible_next_actions_mask.clone())
    losses = c.call("train_step_gen", lambda: run_gen(tr.train_step_gen(b, 0)))
    logit = lambda i, a: c.netval("im", [(b.next_state, i)], a)
    p = softmax(c, A, logit)

    def allowed(i, a):
        # a's probability is at least thr times the most likely action's
        top = c.ArgMax(A, lambda k: p(i, k))
        return c.And(c.eq(c.at(mask0, i, a), 1), c.le(thr, c.div(p(i, a), p(i, top))))
    c.assume_forall([B], lambda i: c.Any(A, lambda a: allowed(i, a)))
    qn_ = lambda i, a: c.netval("q", [(b.next_state, i)], a)
    qt_ = lambda i, a: c.netval("qt", [(b.next_state, i)], a)

    def target(i):
        a = c.ArgMax(A, lambda a: qn_(i, a) if double else qt_(i, a), lambda a: allowed(i, a))
        return c.at(b.reward, i, 0) + c.If(c.eq(c.at(b.not_terminal, i, 0), 1), gamma * qt_(i, a), 0.0)

    pred = lambda i: c.Sum(A, lambda a: c.at(b.action, i, a) * c.netval("q", [(b.state, i)], a))
    c.checkeq("loss bootstraps from the best action the imitator allows", c.scalar(losses[0]), mse(c, B, pred, target))


@contract("P01", "batch-constrained actions with SARSA targets", under=["reagent/training/dqn_trainer.py:DQNTrainer.train_step_gen"])
def dqn_bcq_sarsa(c):
    """the next action is the logged one, whatever the imitator allows"""
    B, A, D = c.dim("B"), c.dim("A"), 3
    gamma = c.real("gamma", 0, 1)
    rl, idx, bonus = set_rl(c, A, gamma, False, "plain", False)
    qn, qt = c.net("q", [A], -HIGH, HIGH), c.net("qt", [A], -HIGH, HIGH)
    im = c.net("im", [A], -5, 5)
    tr = c.call("construct", DQNTrainer, q_network=qn, q_network_target=qt, reward_network=None, actions=names(c, A, idx), rl=rl,
                imitator=im, bcq=BCQConfig(), evaluation=EvaluationParameters(calc_cpe_in_training=False))
    prep(tr)
    b = dqn_batch(c, B, A, D)
    c.assume_forall([B], lambda i: c.Any(A, lambda a: c.eq(c.at(b.next_action, i, a), 1)))
    losses = c.call("train_step_gen", lambda: run_gen(tr.train_step_gen(b, 0)))
    target = lambda i: c.at(b.reward, i, 0) + bonus(b, i) + c.If(c.eq(c.at(b.not_terminal, i, 0), 1), gamma * nextof(c, b, i, A), 0.0)
    pred = lambda i: c.Sum(A, lambda a: c.at(b.action, i, a) * c.netval("q", [(b.state, i)], a))
    c.checkeq("loss is the mean TD error against r + discount * not_terminal * Q_target of the next action", c.scalar(losses[0]), mse(c, B, pred, target))


def nextof(c, b, i, A):
    double = True
    a = c.ArgMax(A, lambda a: c.netval("q" if double else "qt", [(b.next_state, i)], a), lambda a: c.eq(c.at(b.next_action, i, a), 1))
    return c.netval("qt", [(b.next_state, i)], a)
