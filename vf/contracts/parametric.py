import torch
import reagent.types as rlt
from reagent.parameters import RLParameters
from reagent.training.parametric_dqn_trainer import ParametricDQNTrainer
from vf.runner import contract
from vf.contracts._common import *

HIGH = 1e6


@contract("P04", "parametric DQN TD and reward losses", under=["reagent/training/parametric_dqn_trainer.py:ParametricDQNTrainer.train_step_gen", "reagent/training/dqn_trainer_base.py:DQNTrainerMixin.get_max_q_values_with_target", "reagent/types.py:FeatureData.get_tiled_batch"], split=[("double", 2), ("maxq", 2)],
          assumptions=["number of extra metrics is 0 or 1"])
def pdqn(c):
    B, D, K = c.dim("B"), 3, 2
    gamma = c.real("gamma", 0, 1)
    double = c.choice("double", [True, False])
    maxq = c.choice("maxq", [True, False])
    disc = c.choice("discount", ["plain", "time_diff", "multi"])
    lossk = c.choice("loss", ["mse", "huber"])
    M = c.choice("metrics", [0, 1])
    rl = RLParameters(gamma=0.5, maxq_learning=maxq, use_seq_num_diff_as_time_diff=disc == "time_diff",
                      multi_steps=3 if disc == "multi" else None, q_network_loss=lossk)
    object.__setattr__(rl, "gamma", gamma)
    q = c.net("q", [1], -HIGH, HIGH, nargs=2)
    qt = c.net("qt", [1], -HIGH, HIGH, nargs=2)
    rw = c.net("rew", [1 + M], -HIGH, HIGH, nargs=2)
    tr = c.call("construct", ParametricDQNTrainer, q_network=q, q_network_target=qt, reward_network=rw, rl=rl, double_q_learning=double)
    prep(tr)
    A = c.dim("A") if maxq else 1
    F = rlt.FeatureData
    st, ns = c.rows("state", [B], D), c.rows("next_state", [B], D)
    ac, na = c.rows("action", [B], K), c.rows("next_action", [B], K)
    pna = c.rows("pna", [B * A], K)
    b = rlt.ParametricDqnInput(
        state=F(float_features=st), next_state=F(float_features=ns), action=F(float_features=ac), next_action=F(float_features=na),
        reward=c.tensor("reward", [B, 1]), not_terminal=c.tensor("not_terminal", [B, 1], "b"),
        possible_actions=F(float_features=c.rows("pa", [B * A], K)), possible_actions_mask=c.tensor("pam", [B, A], "m"),
        possible_next_actions=F(float_features=pna), possible_next_actions_mask=c.tensor("pnam", [B, A], "m"),
        time_diff=c.tensor("time_diff", [B, 1], "i", 0, 6), step=c.tensor("step", [B, 1], "i", 1, 6),
        extras=rlt.ExtraData(metrics=c.tensor("metrics_t", [B, M]) if M else None),
    )
    mask = b.possible_next_actions_mask
    if maxq:
        c.assume_forall([B], lambda i: c.Any(A, lambda a: c.eq(c.at(mask, i, a), 1)))
    losses = c.call("train_step_gen", lambda: run_gen(tr.train_step_gen(b, 0)))

    def nextv(i):
        if not maxq:
            return c.netval("qt", [(ns, i), (na, i)], 0)
        v = lambda n: lambda a: c.netval(n, [(ns, i), (pna, i * A + a)], 0)
        a = c.ArgMax(A, v("q" if double else "qt"), lambda a: c.eq(c.at(mask, i, a), 1))
        return v("qt")(a)

    def target(i):
        d = gamma if disc == "plain" else c.pow(gamma, c.at(b.time_diff if disc == "time_diff" else b.step, i, 0) * 1.0)
        return c.at(b.reward, i, 0) + c.If(c.eq(c.at(b.not_terminal, i, 0), 1), d * nextv(i), 0.0)

    def term(i):
        e = c.netval("q", [(st, i), (ac, i)], 0) - target(i)
        return e * e if lossk == "mse" else huber1(c, e)

    c.checkeq("td loss: mean error against r + discount * not_terminal * Q_target of the next action", c.scalar(losses[0]), c.div(c.Sum(B, term), B))
    real = lambda i, m: c.at(b.reward, i, 0) if m == 0 else c.at(b.extras.metrics, i, m - 1)

    def rterm(i):
        r = 0.0
        for m in range(1 + M):
            e = c.netval("rew", [(st, i), (ac, i)], m) - real(i, m)
            r = r + e * e
        return r

    c.checkeq("reward loss: mean squared error of reward and metrics", c.scalar(losses[1]), c.div(c.Sum(B, rterm), B * (1 + M)))
    lab = {"state": st, "next_state": ns}
    c.same("td loss trains the online network through its prediction only", c.gradsrc(losses[0], lab), ["q@state"])
    c.same("reward loss trains the reward network only", c.gradsrc(losses[1], lab), ["rew@state"])
