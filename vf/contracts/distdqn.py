import torch
import reagent.types as rlt
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.training.c51_trainer import C51Trainer
from reagent.training.qrdqn_trainer import QRDQNTrainer
from vf.runner import contract
from vf.contracts._common import *
from vf.contracts.dqn import dqn_batch, set_rl, discount_of

HIGH = 1e6


def setup(c, B, A):
    gamma = c.real("gamma", 0, 1)
    double = c.choice("double", [True, False])
    maxq = c.choice("maxq", [True, False])
    disc = c.choice("discount", ["plain", "time_diff", "multi"])
    boost = c.choice("boost", [False, True]) if disc == "plain" else False
    rl, idx, bonus = set_rl(c, A, gamma, maxq, disc, boost)
    return gamma, double, maxq, disc, rl, idx, bonus


@contract("P02", "QR-DQN quantile loss", under=["reagent/training/qrdqn_trainer.py:QRDQNTrainer.train_step_gen", "reagent/training/qrdqn_trainer.py:QRDQNTrainer.boost_rewards", "reagent/training/qrdqn_trainer.py:QRDQNTrainer.argmax_with_mask"], split=[("maxq", 2)], timeout_ms=16000)
def qrdqn(c):
    B, A, D = c.dim("B"), c.dim("A"), 3
    N = c.dim("N")
    gamma, double, maxq, disc, rl, idx, bonus = setup(c, B, A)
    qn = c.net("q", [A, N], -HIGH, HIGH)
    qt = c.net("qt", [A, N], -HIGH, HIGH)
    tr = c.call("construct", QRDQNTrainer, q_network=qn, q_network_target=qt, actions=names(c, A, idx), rl=rl,
                double_q_learning=double, num_atoms=N, evaluation=EvaluationParameters(calc_cpe_in_training=False))
    prep(tr)
    b = dqn_batch(c, B, A, D)
    mask = b.possible_next_actions_mask
    c.assume_forall([B], lambda i: c.Any(A, lambda a: c.eq(c.at(mask, i, a), 1)))
    losses = c.call("train_step_gen", lambda: run_gen(tr.train_step_gen(b, 0)))
    q = lambda i, a, k: c.netval("q", [(b.state, i)], (a, k))
    src = "q" if double else "qt"
    if maxq:
        c.meanbound([B, A], N, lambda i, a, m: c.netval(src, [(b.next_state, i)], (a, m)), -HIGH, HIGH)

    def nextq(i, k):
        if maxq:
            possible = lambda a: c.eq(c.at(mask, i, a), 1)
            a = c.ArgMax(A, lambda a: c.div(c.Sum(N, lambda m: c.netval(src, [(b.next_state, i)], (a, m))), N), possible)
            return c.netval("qt", [(b.next_state, i)], (a, k))
        return c.Sum(A, lambda a: c.at(b.next_action, i, a) * c.netval("qt", [(b.next_state, i)], (a, k)))

    def target(i, k):
        return c.at(b.reward, i, 0) + bonus(b, i) + c.If(c.eq(c.at(b.not_terminal, i, 0), 1), discount_of(c, b, i, disc, gamma) * nextq(i, k), 0.0)

    pred = lambda i, k: c.Sum(A, lambda a: c.at(b.action, i, a) * q(i, a, k))

    def term(i, j, k):
        # target atom j against predicted quantile k
        d = target(i, j) - pred(i, k)
        tau = c.div(k * 1.0 + 0.5, N)
        return huber1(c, d) * c.abs(tau - c.If(c.lt(d, 0), 1.0, 0.0))

    want = c.div(c.Sum(N, lambda j: c.Sum(B, lambda i: c.Sum(N, lambda k: term(i, j, k)))), N * B * N)
    c.checkeq("loss is the mean quantile Huber loss over all atom pairs", c.scalar(losses[0]), want)
    src = c.gradsrc(losses[0], {"state": b.state, "next_state": b.next_state})
    c.same("the online network is differentiated through its prediction only", [s for s in src if s.startswith("q@")], ["q@state"])


def dist_net(c, name, A, N):
    """network with log_dist; concrete: normalised log-probabilities"""
    n = c.net(name, [A, N], -20, 0)
    n.log_dist = lambda fd: n(fd)
    return n


@contract("P02", "C51 projected distribution loss", under=["reagent/training/c51_trainer.py:C51Trainer.train_step_gen", "reagent/training/c51_trainer.py:C51Trainer.boost_rewards", "reagent/training/c51_trainer.py:C51Trainer.argmax_with_mask"], split=[("support", 2), ("maxq", 2)], timeout_ms=20000,
          assumptions=["number of atoms fixed to 2 and 3 (thorough: also 4): batch size, actions, values unbounded"])
def c51(c):
    B, A, D = c.dim("B"), c.dim("A"), 3
    N, qmin, qmax = c.choice("support", [(2, -100.0, 200.0), (3, -1.0, 1.0)] + ([(4, 0.0, 3.0)] if c.thorough else []))
    gamma, double, maxq, disc, rl, idx, bonus = setup(c, B, A)
    qn, qt = dist_net(c, "q", A, N), dist_net(c, "qt", A, N)
    tr = c.call("construct", C51Trainer, q_network=qn, q_network_target=qt, actions=names(c, A, idx), rl=rl,
                double_q_learning=double, num_atoms=N, qmin=qmin, qmax=qmax)
    prep(tr)
    b = dqn_batch(c, B, A, D)
    mask = b.possible_next_actions_mask
    c.assume_forall([B], lambda i: c.Any(A, lambda a: c.eq(c.at(mask, i, a), 1)))
    dz = (qmax - qmin) / (N - 1)
    z = lambda k: qmin + k * dz
    losses = c.call("train_step_gen", lambda: run_gen(tr.train_step_gen(b, 1)))
    p = lambda net, i, a, k: c.exp(c.netval(net, [(b.next_state, i)], (a, k)))
    src = "q" if double else "qt"

    def nextp(i, k):
        if maxq:
            possible = lambda a: c.eq(c.at(mask, i, a), 1)
            a = c.ArgMax(A, lambda a: c.Sum(N, lambda m: p(src, i, a, m) * z(m)), possible)
            return p("qt", i, a, k)
        return c.Sum(A, lambda a: c.at(b.next_action, i, a) * p("qt", i, a, k))

    def proj(i, j):
        r = 0.0
        for k in range(N):
            tz = c.at(b.reward, i, 0) + bonus(b, i) + c.If(c.eq(c.at(b.not_terminal, i, 0), 1), discount_of(c, b, i, disc, gamma) * z(k), 0.0)
            tz = c.min(c.max(tz, qmin), qmax)
            # triangular kernel: mass is split linearly between the two neighbours
            w = c.max(1 - c.abs(c.div(tz - z(j), dz)), 0.0)
            r = r + nextp(i, k) * w
        return r

    lp = lambda i, k: c.Sum(A, lambda a: c.at(b.action, i, a) * c.netval("q", [(b.state, i)], (a, k)))
    want = -c.div(c.Sum(B, lambda i: sum(proj(i, j) * lp(i, j) for j in range(N))), B)
    c.checkeq("loss is the cross entropy against the projected target distribution", c.scalar(losses[0]), want)
    src = c.gradsrc(losses[0], {"state": b.state, "next_state": b.next_state})
    c.same("the online network is differentiated through its prediction only", [s for s in src if s.startswith("q@")], ["q@state"])
