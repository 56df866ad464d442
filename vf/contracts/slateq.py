import torch
import reagent.types as rlt
from reagent.parameters import RLParameters
from reagent.training.slate_q_trainer import SlateQTrainer
from vf.runner import contract
from vf.contracts._common import *

HIGH = 1e6


@contract("P08", "SlateQ loss", under=["reagent/training/slate_q_trainer.py:SlateQTrainer.train_step_gen", "reagent/types.py:DocList.select_slate", "reagent/training/slate_q_trainer.py:SlateQTrainer._get_unmasked_q_values"], split=[("single", 2)])
def slateq(c):
    B, C, S, D, K = c.dim("B"), c.dim("C"), c.dim("S"), 3, 2
    gamma = c.real("gamma", 0, 1)
    single = c.choice("single", [True, False])
    rl = RLParameters(gamma=0.5, maxq_learning=False)
    object.__setattr__(rl, "gamma", gamma)
    q = c.net("q", [1], -HIGH, HIGH, nargs=2)
    qt = c.net("qt", [1], -HIGH, HIGH, nargs=2)
    tr = c.call("construct", SlateQTrainer, q_network=q, q_network_target=qt, rl=rl, single_selection=single)
    prep(tr)
    F, DL = rlt.FeatureData, rlt.DocList
    docs, ndocs = c.rows("docs", [B, C], K), c.rows("next_docs", [B, C], K)
    nval = c.tensor("next_value", [B, C], lo=-20, hi=20)
    st, ns = c.rows("state", [B], D), c.rows("next_state", [B], D)
    action = c.tensor("action", [B, S], "i", 0, C)
    next_action = c.tensor("next_action", [B, S], "i", 0, C)
    na0 = next_action.clone() if not c.sym else c.call("clone", lambda: next_action.clone())
    rmask = c.tensor("reward_mask", [B, S], "b")
    b = c.call("batch", lambda: rlt.SlateQInput(
        state=F(float_features=st, candidate_docs=DL(float_features=docs)),
        next_state=F(float_features=ns, candidate_docs=DL(float_features=ndocs, value=nval)),
        reward=c.tensor("reward", [B, S]), time_diff=None, step=None, not_terminal=c.tensor("not_terminal", [B, 1], "b"),
        action=action, next_action=next_action, reward_mask=rmask, extras=rlt.ExtraData()))
    on = lambda i, s: c.eq(c.at(rmask, i, s), 1)
    if single:
        c.assume(c.Any(B, lambda i: c.Any(S, lambda s: on(i, s))))
    losses = c.call("train_step_gen", lambda: run_gen(tr.train_step_gen(b, 0)))
    sel = lambda i, s: c.at(nval, i, c.at(na0, i, s))
    prob = softmax(c, S, sel)

    def nextv(i):
        f = lambda s: c.netval("qt", [(ns, i), (ndocs, (i, c.at(na0, i, s)))], 0)
        if single:
            return c.Sum(S, lambda s: f(s) * prob(i, s))
        return c.div(c.Sum(S, lambda s: f(s) * sel(i, s)), S)

    def term(i, s):
        y = c.at(b.reward, i, s) + c.If(c.eq(c.at(b.not_terminal, i, 0), 1), gamma * nextv(i), 0.0)
        e = c.netval("q", [(st, i), (docs, (i, c.at(action, i, s)))], 0) - y
        return e * e

    if single:
        num = c.Sum(B, lambda i: c.Sum(S, lambda s: term(i, s), lambda s: on(i, s)))
        den = c.Sum(B, lambda i: c.Sum(S, lambda s: 1.0, lambda s: on(i, s)))
        want = c.div(num, den)
        c.checkeq("loss: squared error over the observed items against r + gamma * expected next item value", c.scalar(losses[0]), want)
    else:
        want = c.div(c.Sum(B, lambda i: c.Sum(S, lambda s: term(i, s))), B * S)
        c.checkeq("loss: squared error over all items against r + gamma * next slate value", c.scalar(losses[0]), want)
    c.check("loss trains the online network", "q" in c.gradset(losses[0]))
