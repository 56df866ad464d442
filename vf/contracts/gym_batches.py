"""P34: batches built from an environment's transitions reach the trainers intact."""
import math
from types import SimpleNamespace

import numpy as np
import reagent.types as rlt
import torch
from reagent.gym.preprocessors import trainer_preprocessor as tp
from reagent.gym.types import Trajectory, Transition
from reagent.training.utils import rescale_actions

from vf.runner import contract

G = "reagent/gym/preprocessors/trainer_preprocessor.py:"


class Batch:
    """a replay buffer batch: absent fields raise AttributeError"""

    def __init__(self, **k):
        self.__dict__.update(k)


def shared(c, B, D, **k):
    return dict(state=c.tensor("state", [B, D]), next_state=c.tensor("next_state", [B, D]), reward=c.tensor("reward", [B, 1]), terminal=c.tensor("terminal", [B, 1], kind="b"),
                log_prob=c.tensor("log_prob", [B, 1], lo=-5, hi=0), **k)


def kept(c, out, b, B, D, wrap=True):
    f = lambda x: x.float_features if wrap else x
    c.eqt("states are kept", f(out.state), [B, D], lambda i, d: c.at(b.state, i, d))
    c.eqt("next states are kept", f(out.next_state), [B, D], lambda i, d: c.at(b.next_state, i, d))


def common(c, out, b, B):
    c.eqt("rewards are kept", out.reward, [B, 1], lambda i, _: c.at(b.reward, i, 0))
    c.eqt("terminal rows are marked", out.not_terminal, [B, 1], lambda i, _: c.If(c.at(b.terminal, i, 0), 0, 1))
    c.eqt("probability of the logged action", out.extras.action_probability, [B, 1], lambda i, _: c.exp(c.at(b.log_prob, i, 0)))


def onehots(c, action, next_action, b, B, A):
    c.eqt("actions are one-hot", action, [B, A], lambda i, a: c.If(c.eq(c.at(b.action, i, 0), a), 1, 0))
    c.eqt("next actions are one-hot, none after a terminal step", next_action, [B, A],
          lambda i, a: c.If(c.And(c.Not(c.at(b.terminal, i, 0)), c.eq(c.at(b.next_action, i, 0), a)), 1, 0))


@contract("P34", "discrete actions", under=[G + "DiscreteDqnInputMaker.__call__", G + "one_hot_actions"], split=[("masks", 2)])
def discrete(c):
    B, D, A = c.dim("B"), c.dim("D"), c.dim("actions")
    masks = c.choice("masks", [False, True])
    pre = c.choice("state preprocessor", [False, True])
    k = {}
    if masks:
        k = dict(possible_actions_mask=c.tensor("mask", [B, A], kind="b"), next_possible_actions_mask=c.tensor("next_mask", [B, A], kind="b"))
    b = Batch(**shared(c, B, D, action=c.tensor("action", [B, 1], kind="i", lo=0, hi=A), next_action=c.tensor("next_action", [B, 1], kind="i", lo=0, hi=A), **k))
    f = (lambda x: rlt.FeatureData(float_features=x * 2)) if pre else None
    out = c.call("make", tp.DiscreteDqnInputMaker(A, f), b)
    onehots(c, out.action, out.next_action, b, B, A)
    common(c, out, b, B)
    s = 2 if pre else 1
    c.eqt("states are kept or preprocessed", out.state.float_features, [B, D], lambda i, d: s * c.at(b.state, i, d))
    c.eqt("next states are kept or preprocessed", out.next_state.float_features, [B, D], lambda i, d: s * c.at(b.next_state, i, d))
    m = lambda t: (lambda i, a: c.If(c.at(t, i, a), 1, 0)) if masks else (lambda i, a: 1)
    c.eqt("possible actions", out.possible_actions_mask, [B, A], m(masks and b.possible_actions_mask))
    c.eqt("possible next actions", out.possible_next_actions_mask, [B, A], m(masks and b.next_possible_actions_mask))


@contract("P34", "parametric actions", under=[G + "ParametricDqnInputMaker.__call__", G + "one_hot_actions", G + "get_possible_actions_for_gym"], split=[("actions", 3)], bound="1 to 3 actions (any number of rows and features)")
def parametric(c):
    B, D = c.dim("B"), c.dim("D")
    A = c.choice("actions", [1, 2, 3])
    b = Batch(**shared(c, B, D, action=c.tensor("action", [B, 1], kind="i", lo=0, hi=A), next_action=c.tensor("next_action", [B, 1], kind="i", lo=0, hi=A)))
    out = c.call("make", tp.ParametricDqnInputMaker(A), b)
    onehots(c, out.action.float_features, out.next_action.float_features, b, B, A)
    common(c, out, b, B)
    kept(c, out, b, B, D)
    for what, x, m in (("possible", out.possible_actions, out.possible_actions_mask), ("possible next", out.possible_next_actions, out.possible_next_actions_mask)):
        c.eqshape(f"{what} actions: one block of candidates per row", x.float_features, [B * A, A])
        for a in range(A):
            c.forall(f"{what} actions: each action in turn", [B, A], lambda i, k: c.eq(c.at(x.float_features, i * A + a, k), c.If(c.eq(k, a), 1, 0)))
        c.eqt(f"{what} actions: all allowed", m, [B, A], lambda i, k: 1)


@contract("P34", "continuous actions", under=[G + "PolicyNetworkInputMaker.__call__", "reagent/training/utils.py:rescale_actions", "reagent/types.py:PolicyNetworkInput.from_dict"], split=[("candidates", 2)], bound="2 candidate documents of 2 features (any number of rows, features and action dimensions)")
def continuous(c):
    B, D, A = c.dim("B"), c.dim("D"), c.dim("action_dim")
    docs = c.choice("candidates", [False, True])
    mk = c.call("make maker", tp.PolicyNetworkInputMaker, np.array([0.0]), np.array([1.0]))
    mk.action_low = lo = c.tensor("low", [A], lo=-3, hi=0)
    mk.action_high = hi = c.tensor("high", [A], lo=0.5, hi=3)
    k = {}
    if docs:
        n = 2
        k = dict(doc=c.tensor("doc", [B, n, 2]), next_doc=c.tensor("next_doc", [B, n, 2]))
    b = Batch(**shared(c, B, D, action=c.tensor("action", [B, A], lo=-3, hi=3), next_action=c.tensor("next_action", [B, A], lo=-9, hi=9), **k))
    c.assume_forall([B, A], lambda i, a: c.And(c.le(c.at(lo, a), c.at(b.action, i, a)), c.le(c.at(b.action, i, a), c.at(hi, a))))
    c.assume_forall([B, A], lambda i, a: c.Or(c.at(b.terminal, i, 0), c.And(c.le(c.at(lo, a), c.at(b.next_action, i, a)), c.le(c.at(b.next_action, i, a), c.at(hi, a)))))
    out = c.call("make", mk, b)
    tl, th = mk.train_low, mk.train_high
    tl, th = float(tl), float(th)
    scale = lambda x, a: c.div(x - c.at(lo, a), c.at(hi, a) - c.at(lo, a)) * (th - tl) + tl
    c.eqt("actions in the training range", out.action.float_features, [B, A], lambda i, a: scale(c.at(b.action, i, a), a))
    c.eqt("next actions in the training range, none after a terminal step", out.next_action.float_features, [B, A],
          lambda i, a: c.If(c.at(b.terminal, i, 0), 0, scale(c.at(b.next_action, i, a), a)))
    common(c, out, b, B)
    if docs:
        for what, x, st, doc in (("", out.state, b.state, b.doc), ("next ", out.next_state, b.next_state, b.next_doc)):
            c.eqshape(what + "states hold the user's and the documents' features", x.float_features, [B, D + n * 2])
            c.forall(what + "states: user features first", [B, D], lambda i, d: c.eq(c.at(x.float_features, i, d), c.at(st, i, d)))
            for k in range(n):
                c.forall(what + "states: then the documents in order", [B, 2], lambda i, f: c.eq(c.at(x.float_features, i, D + k * 2 + f), c.at(doc, i, k, f)))
    else:
        kept(c, out, b, B, D)


@contract("P34", "slates", under=[G + "SlateQInputMaker.__call__", "reagent/types.py:SlateQInput.from_dict"])
def slates(c):
    B, D, n, s, F = c.dim("B"), c.dim("D"), c.dim("docs"), c.dim("slate"), c.dim("doc features")
    click = c.tensor("click", [B, s], kind="i", lo=0, hi=2)
    b = Batch(state=c.tensor("state", [B, D]), next_state=c.tensor("next_state", [B, D]), doc=c.tensor("doc", [B, n, F]), next_doc=c.tensor("next_doc", [B, n, F]),
              augmentation_value=c.tensor("value", [B, n]), next_augmentation_value=c.tensor("next_value", [B, n]), action=c.tensor("action", [B, s], kind="i", lo=0, hi=n),
              next_action=c.tensor("next_action", [B, s], kind="i", lo=0, hi=n), response_watch_time=c.tensor("watch_time", [B, s]), response_click=click,
              terminal=c.tensor("terminal", [B, 1], kind="b"))
    out = c.call("make", tp.SlateQInputMaker(), b)
    kept(c, out, b, B, D)
    for what, x, doc, val, act in (("", out.state, b.doc, b.augmentation_value, (out.action, b.action)), ("next ", out.next_state, b.next_doc, b.next_augmentation_value, (out.next_action, b.next_action))):
        c.eqt(what + "documents", x.candidate_docs.float_features, [B, n, F], lambda i, k, f: c.at(doc, i, k, f))
        c.eqt(what + "document values", x.candidate_docs.value, [B, n], lambda i, k: c.at(val, i, k))
        c.eqshape(what + "slates have an extra position", act[0], [B, s + 1])
        c.forall(what + "slates keep their items", [B, s], lambda i, t: c.eq(c.at(act[0], i, t), c.at(act[1], i, t)))
    c.eqshape("rewards have an extra position", out.reward, [B, s + 1])
    c.forall("rewards stay with their position", [B, s], lambda i, t: c.eq(c.at(out.reward, i, t), c.at(b.response_watch_time, i, t)))
    c.forall("no reward without a click", [B], lambda i: c.eq(c.at(out.reward, i, s), 0))
    c.eqshape("reward masks have an extra position", out.reward_mask, [B, s + 1])
    c.forall("clicked positions are rewarded", [B, s], lambda i, t: c.eq(c.at(out.reward_mask, i, t), c.eq(c.at(click, i, t), 1)))
    c.forall("the extra position exactly when nothing was clicked", [B], lambda i: c.eq(c.at(out.reward_mask, i, s), c.eq(c.Sum(s, lambda t: c.at(click, i, t)), 0)))
    c.eqt("terminal rows are marked", out.not_terminal, [B, 1], lambda i, _: c.If(c.at(b.terminal, i, 0), 0, 1))


@contract("P34", "sequences", under=[G + "MemoryNetworkInputMaker.__call__"], split=[("stacked", 2), ("discrete", 2)])
def sequences(c):
    B, D, A = c.dim("B"), c.dim("D"), c.dim("actions")
    st = c.choice("stacked", [False, True])
    disc = c.choice("discrete", [False, True])
    S = c.dim("steps", 2, 4) if st else 1
    tail = [S] if st else []
    s_ = c.tensor("state", [B, D] + tail)
    n_ = c.tensor("next_state", [B, D] + tail)
    a_ = c.tensor("action", [B, S], kind="i", lo=0, hi=A) if disc else c.tensor("action", [B, A] + tail)
    flat = not st and c.choice("scalars without a step dimension", [False, True])
    r_ = c.tensor("reward", [B] if flat else [B, S])
    t_ = c.tensor("terminal", [B] if flat else [B, 1], kind="b")
    out = c.call("make", tp.MemoryNetworkInputMaker(A if disc else None), Batch(state=s_, next_state=n_, action=a_, reward=r_, terminal=t_))
    at = lambda x, i, d, t: c.at(x, i, d, t) if st else c.at(x, i, d)
    c.eqt("states, steps first", out.state.float_features, [S, B, D], lambda t, i, d: at(s_, i, d, t))
    c.eqt("next states, steps first", out.next_state.float_features, [S, B, D], lambda t, i, d: at(n_, i, d, t))
    if disc:
        c.eqt("actions, steps first, one-hot", out.action, [S, B, A], lambda t, i, a: c.If(c.eq(c.at(a_, i, t), a), 1, 0))
    else:
        c.eqt("actions, steps first", out.action, [S, B, A], lambda t, i, a: at(a_, i, a, t))
    c.eqt("rewards, steps first", out.reward, [S, B], lambda t, i: c.at(r_, i) if flat else c.at(r_, i, t))
    term = lambda i: c.at(t_, i) if flat else c.at(t_, i, 0)
    c.eqt("only the last step can be terminal", out.not_terminal, [S, B], lambda t, i: c.If(c.And(c.eq(t, S - 1), term(i)), 0, 1))


@contract("P34", "trajectories", under=[G + "PolicyGradientInputMaker.__call__", "reagent/gym/types.py:Trajectory.add_transition", "reagent/gym/types.py:Trajectory.__getattr__"], bounded=True, quick=40, bound="random trajectories of 1 to 6 steps")
def trajectories(c):
    T = c.dim("T", 1, 6)
    kind = c.choice("actions", ["discrete", "discrete row", "box", "slate"])
    A = c.dim("A", 1, 4)
    n = A + (1 if kind.startswith("discrete") else 0)
    g = np.random.RandomState(int(c.int("seed", 0, 10 ** 6)))
    if kind == "discrete":
        acts = [np.array(g.randint(n)) for _ in range(T)]
    elif kind == "discrete row":
        acts = [g.randint(n, size=(1,)) for _ in range(T)]
    elif kind == "box":
        acts = [g.randn(A).astype(np.float32) for _ in range(T)]
    else:
        acts = [g.permutation(A + 2)[:A] for _ in range(T)]
    obs = [g.randn(3) for _ in range(T)]
    rew = [float(x) for x in g.randn(T)]
    lps = [float(-x * x) for x in g.randn(T)]
    tr = Trajectory()
    for t in range(T):
        c.call("add", tr.add_transition, Transition(mdp_id=0, sequence_number=t, observation=obs[t], action=acts[t], reward=rew[t], terminal=t == T - 1, log_prob=lps[t]))
    mk = c.call("construct", tp.PolicyGradientInputMaker, num_actions=n if kind.startswith("discrete") else None)
    out = c.call("make", mk, tr)
    if kind.startswith("discrete"):
        c.eqshape("one row of actions per step", out.action, [T, n])
        c.check("one-hot actions", all(float(out.action[t, a]) == (1.0 if int(acts[t].reshape(-1)[0]) == a else 0.0) for t in range(T) for a in range(n)))
    else:
        c.eqshape("one row of actions per step", out.action, [T, A])
        c.check("actions in order", np.array_equal(out.action.numpy(), np.stack(acts)))
    c.check("observations in order", np.allclose(out.state.float_features.numpy(), np.stack(obs), atol=1e-6))
    c.check("rewards in order", np.allclose(out.reward.numpy(), rew, atol=1e-6))
    c.check("log-probabilities in order", np.allclose(out.log_prob.numpy(), lps, atol=1e-6))
