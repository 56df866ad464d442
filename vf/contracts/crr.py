import torch
import reagent.types as rlt
from reagent.parameters import EvaluationParameters
from reagent.training.discrete_crr_trainer import DiscreteCRRTrainer
from vf.runner import contract
from vf.contracts._common import *
from vf.contracts.dqn import dqn_batch, set_rl

HIGH = 1e4


class LogitActor(torch.nn.Module):
    def __init__(self, net):
        super().__init__()
        self.net = net

    def forward(self, state):
        return rlt.ActorOutput(action=self.net(state))


@contract("P07", "discrete CRR losses", under=["reagent/training/discrete_crr_trainer.py:DiscreteCRRTrainer.train_step_gen", "reagent/training/discrete_crr_trainer.py:DiscreteCRRTrainer.__init__"], split=[("double", 2), ("target_actor", 2)])
def crr(c):
    B, A, D = c.dim("B"), c.dim("A", 2), 3
    gamma = c.real("gamma", 0, 1)
    double = c.choice("double", [True, False])
    tactor = c.choice("target_actor", [True, False])
    boost = c.choice("boost", [False, True])
    delay, idx = c.choice("delay", [(1, 0), (1, 3), (2, 2), (2, 3), (3, 2), (3, 6)])
    rl, ix, bonus = set_rl(c, A, gamma, False, "plain", boost)
    q1 = c.net("q1", [A], -5, 5)
    q2 = c.net("q2", [A], -5, 5) if double else None
    act = LogitActor(c.net("act", [A], -4, 4))
    tr = c.call("construct", DiscreteCRRTrainer, actor_network=act, q1_network=q1, q2_network=q2, reward_network=None, rl=rl,
                actions=names(c, A, ix), use_target_actor=tactor, delayed_policy_update=delay, double_q_learning=double,
                evaluation=EvaluationParameters(calc_cpe_in_training=False))
    prep(tr)
    b = dqn_batch(c, B, A, D)
    c.assume_forall([B], lambda i: c.eq(c.Sum(A, lambda a: c.at(b.action, i, a)), 1))
    losses = c.call("train_step_gen", lambda: run_gen(tr.train_step_gen(b, idx)))
    nq = 2 if double else 1
    c.same("number of steps", len(losses), nq + 2)
    logit = lambda n, r: (lambda i, a: c.netval(n, [(r, i)], a))
    pi_next = softmax(c, A, logit("act_copy" if tactor else "act", b.next_state))
    v = lambda n, i: c.Sum(A, lambda a: c.netval(n, [(b.next_state, i)], a) * pi_next(i, a))
    nextv = lambda i: c.min(v("q1_copy", i), v("q2_copy", i)) if double else v("q1_copy", i)

    def tdl(n):
        def term(i):
            y = c.at(b.reward, i, 0) + bonus(b, i) + c.If(c.eq(c.at(b.not_terminal, i, 0), 1), gamma * nextv(i), 0.0)
            e = c.Sum(A, lambda a: c.at(b.action, i, a) * c.netval(n, [(b.state, i)], a)) - y
            return e * e
        return c.div(c.Sum(B, term), B)

    lab = {"state": b.state, "next_state": b.next_state}
    own = lambda l, *ns: [s for s in c.gradsrc(l, lab) if s.split("@")[0] in ns]
    c.checkeq("q1 loss: mean squared error to r + gamma * not_terminal * expected target value", c.scalar(losses[0]), tdl("q1"))
    c.same("q1 loss reaches q1 through its prediction only", own(losses[0], "q1", "q2"), ["q1@state"])
    if double:
        c.checkeq("q2 loss: mean squared error to the same target", c.scalar(losses[1]), tdl("q2"))
        c.same("q2 loss reaches q2 through its prediction only", own(losses[1], "q1", "q2"), ["q2@state"])
    if idx % delay:
        c.same("actor and targets are left alone between delayed updates", losses[nq:], [None, None])
        return
    pi = softmax(c, A, logit("act", b.state))
    hot = lambda i: c.ArgMax(A, lambda a: c.at(b.action, i, a))

    def aterm(i):
        q = lambda a: c.netval("q1", [(b.state, i)], a)
        val = c.Sum(A, lambda a: q(a) * pi(i, a))
        adv = c.Sum(A, lambda a: (q(a) - val) * c.at(b.action, i, a))
        return -c.log(pi(i, hot(i))) * c.min(c.exp(adv), 20)

    c.checkeq("actor loss: log likelihood of the logged action weighted by min(exp(advantage), 20)", c.scalar(losses[nq]), c.div(c.Sum(B, aterm), B))
    c.same("actor loss trains only the actor", own(losses[nq], "act", "q1", "q2"), ["act@state"])
    c.check("target networks are updated with the actor", losses[nq + 1] is not None)
