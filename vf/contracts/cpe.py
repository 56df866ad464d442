import torch
import reagent.types as rlt
from reagent.parameters import EvaluationParameters
from reagent.training.dqn_trainer import DQNTrainer
from reagent.training.qrdqn_trainer import QRDQNTrainer
from vf.runner import contract
from vf.contracts._common import *
from vf.contracts.dqn import dqn_batch, set_rl, discount_of

HIGH = 1e6

UNDER = ["reagent/training/dqn_trainer_base.py:DQNTrainerBaseLightning._calculate_cpes", "reagent/training/dqn_trainer_base.py:DQNTrainerBaseLightning._initialize_cpe", "reagent/torch_utils.py:masked_softmax"]


def setup(c, M):
    B, A, D = c.dim("B"), c.dim("A"), 3
    gamma = c.real("gamma", 0, 1)
    temp = c.real("temperature", 0.01, 100)
    maxq = c.choice("maxq", [True, False])
    disc = c.choice("discount", ["plain", "time_diff", "multi"])
    lossk = c.choice("loss", ["mse", "huber"])
    boost = c.choice("boost", [False, True])
    rl, idx, bonus = set_rl(c, A, gamma, maxq, disc, boost, q_network_loss=lossk)
    object.__setattr__(rl, "temperature", temp)
    nets = {
        "reward_network": c.net("rew", [M * A], -HIGH, HIGH),
        "q_network_cpe": c.net("cpe", [M * A], -HIGH, HIGH),
        "q_network_cpe_target": c.net("cpet", [M * A], -HIGH, HIGH),
        "metrics_to_score": [f"m{k}" for k in range(M - 1)],
        "evaluation": EvaluationParameters(calc_cpe_in_training=True),
    }
    b = dqn_batch(c, B, A, D)
    if M > 1:
        b.extras.metrics = c.tensor("metrics", [B, M - 1])
    return B, A, gamma, temp, maxq, disc, lossk, rl, idx, nets, b


def check_cpe(c, losses, B, A, M, gamma, temp, maxq, disc, lossk, b, nextscore):
    mask = b.possible_next_actions_mask if maxq else b.next_action
    hot = lambda i: c.ArgMax(A, lambda a: c.at(b.action, i, a))
    # logged action one-hot
    real = lambda i, m: c.at(b.reward, i, 0) if m == 0 else c.at(b.extras.metrics, i, m - 1)
    tot = c.Sum(B, lambda i: sum(sq(c.netval("rew", [(b.state, i)], m * A + hot(i)) - real(i, m)) for m in range(M)))
    c.checkeq("reward loss: mean squared error of the logged action's reward and metrics", c.scalar(losses[1]), c.div(tot, B * M))
    prob = softmax(c, A, nextscore, lambda i, a: c.eq(c.at(mask, i, a), 1), temp)

    def term(i, m):
        nq = c.Sum(A, lambda a: c.netval("cpet", [(b.next_state, i)], m * A + a) * prob(i, a))
        y = real(i, m) + discount_of(c, b, i, disc, gamma) * c.If(c.eq(c.at(b.not_terminal, i, 0), 1), nq, 0.0)
        d = c.netval("cpe", [(b.state, i)], m * A + hot(i)) - y
        return d * d if lossk == "mse" else huber1(c, d)

    tot = c.Sum(B, lambda i: sum(term(i, m) for m in range(M)))
    c.checkeq("metric q loss: TD error under the softmax of the trained policy", c.scalar(losses[2]), c.div(tot, B * M))
    src = c.gradsrc(losses[1], {"state": b.state, "next_state": b.next_state})
    c.same("reward loss differentiates only the reward network", src, ["rew@state"])
    src = c.gradsrc(losses[2], {"state": b.state, "next_state": b.next_state})
    c.same("metric q loss differentiates only the metric q-network", src, ["cpe@state"])


sq = lambda x: x * x


def mk(cls, atoms):
    def body(c):
        M = c.choice("metrics", [1, 2])
        B, A, gamma, temp, maxq, disc, lossk, rl, idx, nets, b = setup(c, M)
        N = [c.dim("N")] if atoms else []
        kw = dict(num_atoms=N[0]) if atoms else {}
        qn, qt = c.net("q", [A] + N, -HIGH, HIGH), c.net("qt", [A] + N, -HIGH, HIGH)
        tr = c.call("construct", cls, q_network=qn, q_network_target=qt, actions=names(c, A, idx), rl=rl, **kw, **nets)
        prep(tr)
        mask = b.possible_next_actions_mask if maxq else b.next_action
        c.assume_forall([B], lambda i: c.Any(A, lambda a: c.eq(c.at(mask, i, a), 1)))
        losses = c.call("train_step_gen", lambda: run_gen(tr.train_step_gen(b, 0)))
        c.same("four steps are yielded", len(losses), 4)
        if atoms:
            score = lambda i, a: c.div(c.Sum(N[0], lambda k: c.netval("q", [(b.next_state, i)], (a, k))), N[0])
        else:
            score = lambda i, a: c.netval("q", [(b.next_state, i)], a)
        check_cpe(c, losses, B, A, M, gamma, temp, maxq, disc, lossk, b, score)
    return body


contract("P03", "CPE networks (DQN)", under=UNDER + ["reagent/training/dqn_trainer.py:DQNTrainer.train_step_gen"], split=[("metrics", 2), ("maxq", 2), ("loss", 2)],
         assumptions=["number of extra metrics is 0 or 1"])(mk(DQNTrainer, False))
contract("P03", "CPE networks (QR-DQN)", under=UNDER + ["reagent/training/qrdqn_trainer.py:QRDQNTrainer.train_step_gen"], split=[("metrics", 2), ("maxq", 2), ("loss", 2)])(mk(QRDQNTrainer, True))
