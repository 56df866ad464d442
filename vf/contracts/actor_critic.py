import torch
import reagent.types as rlt
from reagent.parameters import RLParameters
from reagent.training.td3_trainer import TD3Trainer
from reagent.training.sac_trainer import SACTrainer, CRRWeightFn
from vf.runner import contract
from vf.contracts._common import *

HIGH = 1e6
F = rlt.FeatureData


class Actor(torch.nn.Module):
    """actor stand-in: action, log probability and mean are arbitrary functions of the state"""

    def __init__(self, c, K, logp=True):
        super().__init__()
        self.a = c.net("act", [K], -1, 1)
        self.lp = c.net("logp", [1], -HIGH, HIGH) if logp else None
        self.sm = c.net("smean", [K], -1, 1) if logp else None
        self.glp = c.net("getlogp", [1], -HIGH, HIGH, nargs=2) if logp else None

    def forward(self, state):
        return rlt.ActorOutput(
            action=self.a(state), log_prob=self.lp(state) if self.lp is not None else None,
            squashed_mean=self.sm(state) if self.sm is not None else None,
        )

    def get_log_prob(self, state, action):
        return self.glp(state, action)


def policy_batch(c, B, D, K):
    return rlt.PolicyNetworkInput(
        state=F(float_features=c.rows("state", [B], D)), next_state=F(float_features=c.rows("next_state", [B], D)),
        action=F(float_features=c.rows("action", [B], K)), next_action=F(float_features=c.rows("next_action", [B], K)),
        reward=c.tensor("reward", [B, 1]), not_terminal=c.tensor("not_terminal", [B, 1], "b"),
        time_diff=c.tensor("time_diff", [B, 1], "i", 0, 6), step=c.tensor("step", [B, 1], "i", 1, 6),
        extras=rlt.ExtraData(),
    )


def td(c, B, b, gamma, nextv, name):
    """mean squared TD error of network `name` at (state, logged action)"""
    def term(i):
        y = c.at(b.reward, i, 0) + c.If(c.eq(c.at(b.not_terminal, i, 0), 1), gamma * nextv(i), 0.0)
        e = c.netval(name, [(b.state, i), (b.action, i)], 0) - y
        return e * e
    return c.div(c.Sum(B, term), B)


def own(src, *names):
    return [s for s in src if s.split("@")[0] in names]


@contract("P05", "TD3 critic and actor losses", under=["reagent/training/td3_trainer.py:TD3Trainer.train_step_gen", "reagent/training/td3_trainer.py:TD3Trainer.__init__"], split=[("double", 2)],
          assumptions=["smoothing noise: only its clipping is specified, not its distribution"])
def td3(c):
    B, D, K = c.dim("B"), 3, c.dim("K") if c.sym else c.choice("Kc", [1, 2])
    gamma = c.real("gamma", 0, 1)
    double = c.choice("double", [True, False])
    noisy = c.choice("noise", [False, True])
    var = c.real("noise_variance", 0, 10) if noisy else 0.0
    clip = c.real("noise_clip", 0, 3)
    delay = c.choice("delay", [1, 2, 3])
    idx = c.choice("batch_idx", [0, 1, 2, 3, 4, 6])
    rl = RLParameters(gamma=0.5)
    object.__setattr__(rl, "gamma", gamma)
    q1 = c.net("q1", [1], -HIGH, HIGH, nargs=2)
    q2 = c.net("q2", [1], -HIGH, HIGH, nargs=2) if double else None
    act = Actor(c, K, logp=False)
    tr = c.call("construct", TD3Trainer, actor_network=act, q1_network=q1, q2_network=q2, rl=rl, noise_variance=var,
                noise_clip=clip, delayed_policy_update=delay)
    prep(tr)
    b = policy_batch(c, B, D, K)
    losses = c.call("train_step_gen", lambda: run_gen(tr.train_step_gen(b, idx)))
    nq = 2 if double else 1
    c.same("number of steps", len(losses), nq + 2)
    c.same("each target critic is evaluated once", [len(c.nets[n].log) for n in (["q1_copy", "q2_copy"] if double else ["q1_copy"])], [1] * nq)
    na = c.nets["q1_copy"].log[0][1]
    c.eqt("smoothed action shape", na, [B, K], lambda i, k: c.at(na, i, k))
    at = lambda i, k: c.netval("act_copy", [(b.next_state, i)], k)
    if noisy:
        c.forall("smoothed action stays in the action range", [B, K], lambda i, k: c.And(c.le(-1, c.at(na, i, k)), c.le(c.at(na, i, k), 1)))
        tol = 1e-6 * 1.0
        c.forall("smoothing noise is clipped", [B, K], lambda i, k: c.le(c.abs(c.at(na, i, k) - at(i, k)), clip + (0 if c.sym else tol)))
    else:
        c.forall("without noise the target actor's action is used", [B, K], lambda i, k: c.eq(c.at(na, i, k), at(i, k)))
    if double:
        na2 = c.nets["q2_copy"].log[0][1]
        c.forall("both target critics see the same action", [B, K], lambda i, k: c.eq(c.at(na, i, k), c.at(na2, i, k)))

    def nextv(i):
        v = c.netval("q1_copy", [(b.next_state, i), (na, i)], 0)
        return c.min(v, c.netval("q2_copy", [(b.next_state, i), (na, i)], 0)) if double else v

    lab = {"state": b.state, "next_state": b.next_state}
    c.checkeq("q1 loss: mean squared error to r + gamma * not_terminal * min target", c.scalar(losses[0]), td(c, B, b, gamma, nextv, "q1"))
    c.same("q1 loss trains only q1", c.gradsrc(losses[0], lab), ["q1@state"])
    if double:
        c.checkeq("q2 loss: mean squared error to the same target", c.scalar(losses[1]), td(c, B, b, gamma, nextv, "q2"))
        c.same("q2 loss trains only q2", c.gradsrc(losses[1], lab), ["q2@state"])
    if idx % delay == 0:
        aa = act.a(b.state)
        c.checkeq("actor loss: minus the mean of q1 at the actor's action", c.scalar(losses[nq]), -c.div(c.Sum(B, lambda i: c.netval("q1", [(b.state, i), (aa, i)], 0)), B))
        c.same("actor loss reaches the actor through q1", c.gradsrc(losses[nq], lab), ["act@state", "q1@state"])
        c.check("target networks are updated with the actor", losses[nq + 1] is not None)
    else:
        c.same("actor and targets are left alone between delayed updates", losses[nq:], [None, None])


@contract("P06", "SAC losses", under=["reagent/training/sac_trainer.py:SACTrainer.train_step_gen", "reagent/training/sac_trainer.py:SACTrainer.__init__", "reagent/training/sac_trainer.py:CRRWeightFn.get_weight_from_advantage"], split=[("double", 2), ("mode", 5)],
          assumptions=["gamma > 0"])
def sac(c):
    B, D, K = c.dim("B"), 3, c.dim("K") if c.sym else c.choice("Kc", [1, 2])
    gamma = c.real("gamma", 0.001, 1)
    double = c.choice("double", [True, False])
    value, crrk = c.choice("mode", [(False, None), (True, None), (True, "indicator"), (True, "exp"), (True, "expclamp")])
    learn = c.choice("learn_alpha", [True, False])
    uniform = c.choice("uniform_prior", [True, False]) if value else True
    backlp = c.choice("backprop_log_prob", [True, False])
    temp = c.real("entropy_temperature", 0.001, 10)
    tent = c.choice("target_entropy", [-1.0, -2.5])
    thr, beta, clamp = 0.75, 1.5, 4.0
    crr = {None: None, "indicator": CRRWeightFn(indicator_fn_threshold=thr), "exp": CRRWeightFn(exponent_beta=beta), "expclamp": CRRWeightFn(exponent_beta=beta, exponent_clamp=clamp)}[crrk]
    rl = RLParameters(gamma=0.5)
    object.__setattr__(rl, "gamma", gamma)
    S = 5.0 if crrk in ("exp", "expclamp") else HIGH
    q1 = c.net("q1", [1], -S, S, nargs=2)
    q2 = c.net("q2", [1], -S, S, nargs=2) if double else None
    vn = c.net("v", [1], -S, S) if value else None
    act = Actor(c, K)
    kw = {} if learn else {"alpha_optimizer": None}
    tr = c.call("construct", SACTrainer, actor_network=act, q1_network=q1, q2_network=q2, value_network=vn, rl=rl, target_entropy=tent,
                logged_action_uniform_prior=uniform, crr_config=crr, backprop_through_log_prob=backlp, **kw)
    prep(tr)
    tr.entropy_temperature = temp
    if learn:
        if c.sym:
            del tr._parameters["log_alpha"]
            tr.__dict__["log_alpha"] = c.tensor("log_alpha", [1], lo=-5, hi=3)
        else:
            tr.log_alpha.data = c.tensor("log_alpha", [1], lo=-5, hi=3)
        la = c.at(tr.log_alpha, 0)
    b = policy_batch(c, B, D, K)
    losses = c.call("train_step_gen", lambda: run_gen(tr.train_step_gen(b, 0)))
    nq = 2 if double else 1
    c.same("number of steps", len(losses), nq + 1 + (1 if learn else 0) + (1 if value else 0) + 1)
    clip20 = lambda x: c.min(c.max(x, -20), 20)
    if value:
        nextv = lambda i: c.netval("v_copy", [(b.next_state, i)], 0)
    else:
        na = act.a(b.next_state)

        def nextv(i):
            v = c.netval("q1_copy", [(b.next_state, i), (na, i)], 0)
            if double:
                v = c.min(v, c.netval("q2_copy", [(b.next_state, i), (na, i)], 0))
            return v - temp * clip20(c.netval("getlogp", [(b.next_state, i), (na, i)], 0))

    lab = {"state": b.state, "next_state": b.next_state}
    c.checkeq("q1 loss: mean squared error to r + gamma * not_terminal * soft next value", c.scalar(losses[0]), td(c, B, b, gamma, nextv, "q1"))
    c.same("q1 loss reaches q1 through its prediction only", own(c.gradsrc(losses[0], lab), "q1", "q2"), ["q1@state"])
    if double:
        c.checkeq("q2 loss: mean squared error to the same target", c.scalar(losses[1]), td(c, B, b, gamma, nextv, "q2"))
        c.same("q2 loss reaches q2 through its prediction only", own(c.gradsrc(losses[1], lab), "q1", "q2"), ["q2@state"])
    aa = act.a(b.state)

    def minq(i):
        v = c.netval("q1", [(b.state, i), (aa, i)], 0)
        return c.min(v, c.netval("q2", [(b.state, i), (aa, i)], 0)) if double else v

    lp = lambda i: c.netval("logp", [(b.state, i)], 0)

    def aterm(i):
        if crr is None:
            return temp * lp(i) - minq(i)
        adv = minq(i) - c.netval("v", [(b.state, i)], 0)
        if crrk == "indicator":
            w = c.If(c.le(thr, adv), 1.0, 0.0)
        else:
            w = c.exp(adv / beta)
            if crrk == "expclamp":
                w = c.min(w, clamp)
        return -lp(i) * w

    k = nq
    c.checkeq("actor loss", c.scalar(losses[k]), c.div(c.Sum(B, aterm), B))
    src = own(c.gradsrc(losses[k], lab), "act", "logp")
    want = (["act@state"] if crr is None else []) + (["logp@state"] if backlp else [])
    c.same("actor loss reaches the actor", src, want)
    k += 1
    alpha = temp
    if learn:
        c.checkeq("temperature loss drives entropy to its target", c.scalar(losses[k]), -c.div(c.Sum(B, lambda i: la * (lp(i) + tent)), B))
        c.same("temperature loss reaches no network", c.gradsrc(losses[k], lab), [])
        k += 1
        alpha = c.exp(la)
        c.checkeq("temperature is the exponential of its learnt logarithm", c.scalar(tr.entropy_temperature), alpha)
    if value:
        def vterm(i):
            t = minq(i) if uniform else minq(i) - alpha * clip20(lp(i))
            e = c.netval("v", [(b.state, i)], 0) - t
            return e * e
        c.checkeq("value loss: mean squared error to the soft value of the actor's action", c.scalar(losses[k]), c.div(c.Sum(B, vterm), B))
        c.same("value loss trains only the value network", c.gradsrc(losses[k], lab), ["v@state"])
        k += 1
    c.check("targets are updated last", losses[k] is not None)
