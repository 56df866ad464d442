"""P32: world model (MDN-RNN) and P33: reward prediction from action sequences."""
import itertools
import math

import numpy as np
import torch
import reagent.types as rlt
from reagent.models import mdn_rnn
from reagent.models.mdn_rnn import MDNRNN, MDNRNNMemoryPool, gmm_loss
from reagent.models.seq2reward_model import Seq2RewardNetwork
from reagent.models.world_model import MemoryNetwork
from reagent.parameters import MDNRNNTrainerParameters, Seq2RewardTrainerParameters
from reagent.training.utils import gen_permutations
from reagent.training.world_model import seq2reward_trainer as s2r
from reagent.training.world_model.compress_model_trainer import CompressModelTrainer
from reagent.training.world_model.mdnrnn_trainer import MDNRNNTrainer
from reagent.training.world_model.seq2reward_trainer import Seq2RewardTrainer
from vf.runner import contract
from vf.contracts._common import *
from vf.smt import Unsupported

MD = "reagent/models/mdn_rnn.py:"
TR = "reagent/training/world_model/"
F = rlt.FeatureData
HALFLOG2PI = math.log(math.sqrt(2 * math.pi))


def logmix(c, x, mu, sg, lpi, G, D):
    """log-density of the mixture: x(d), mu(g, d), sg(g, d), lpi(g)"""
    def comp(g):
        r = 0.0
        for d in range(D):
            z = x(d) - mu(g, d)
            r = r + (c.div(-(z * z), 2 * (sg(g, d) * sg(g, d))) - c.log(sg(g, d)) - HALFLOG2PI)
        return lpi(g) + r

    v = [comp(g) for g in range(G)]
    m = v[0]
    for y in v[1:]:
        m = c.max(m, y)
    return m + c.log(sum(c.exp(y - m) for y in v))


def mixture(c, lead, G, D):
    return (c.tensor("mus", lead + [G, D], lo=-3, hi=3), c.tensor("sigmas", lead + [G, D], lo=0.1, hi=3), c.tensor("logpi", lead + [G], lo=-4, hi=0))


def at_mix(c, mus, sg, lpi, *i):
    return (lambda g, d: c.at(mus, *i, g, d)), (lambda g, d: c.at(sg, *i, g, d)), (lambda g: c.at(lpi, *i, g))


@contract("P32", "mixture density loss", under=[MD + "gmm_loss"], split=[("mixture", 5)], bound="1 or 2 components of 1 or 2 features, or 3 of 1 (any sequence length, batch size and parameters)")
def gmm(c):
    S, B = c.dim("S"), c.dim("B")
    G, D = c.choice("mixture", [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1)])
    x = c.tensor("next_state", [S, B, D], lo=-3, hi=3)
    mus, sg, lpi = mixture(c, [S, B], G, D)
    f = lambda s, b: logmix(c, lambda d: c.at(x, s, b, d), *at_mix(c, mus, sg, lpi, s, b), G, D)
    got = c.call("gmm_loss", gmm_loss, x, mus, sg, lpi, reduce=False)
    c.eqt("negative log-density of each step", got, [S, B], lambda s, b: -f(s, b))
    got = c.call("gmm_loss", gmm_loss, x, mus, sg, lpi)
    c.checkeq("averaged over steps and rows", c.scalar(got), -c.div(c.Sum(S, lambda s: c.Sum(B, lambda b: f(s, b))), S * B))


class Rnn(torch.nn.Module):
    """stands for the LSTM: hands its input on"""

    def __init__(self, hidden=None):
        super().__init__()
        self.seen = []

    def forward(self, x, hidden=None):
        self.seen.append((x, hidden))
        return x, ("h", "c")


@contract("P32", "world model outputs", under=[MD + "MDNRNN.forward", "reagent/models/world_model.py:MemoryNetwork.forward"], split=[("gaussians", 3), ("features", 2)], bound="1 to 3 components of 1 or 2 features (any sequence length, batch size and network output)")
def outputs(c):
    S, B = c.dim("S"), c.dim("B")
    G, D = c.choice("gaussians", [1, 2, 3]), c.choice("features", [1, 2])
    A = 2
    m = c.call("construct", MemoryNetwork, D, A, 4, 1, G)
    if not (hasattr(m, "mdnrnn") and hasattr(m.mdnrnn, "rnn") and hasattr(m.mdnrnn, "gmm_linear")):
        raise Unsupported("the recurrent network cannot be set")
    out = (2 * D + 1) * G + 2
    raw = c.tensor("raw", [S, B, out], lo=-3, hi=3)
    rnn = Rnn()
    m.mdnrnn.rnn = rnn

    class Lin(torch.nn.Linear):
        def forward(self, x):
            return raw

    m.mdnrnn.gmm_linear = Lin(1, 1)
    st, ac = c.tensor("state", [S, B, D]), c.tensor("action", [S, B, A])
    o = c.call("forward", m, F(st), F(ac))
    x = rnn.seen[0][0]
    c.eqt("the recurrent network reads actions and states", x, [S, B, A + D], lambda s, b, k: c.If(c.lt(k, A), c.at(ac, s, b, c.min(k, A - 1)), c.at(st, s, b, c.max(k - A, 0))))
    n = G * D
    r = lambda s, b, k: c.at(raw, s, b, k)
    c.eqt("means", o.mus, [S, B, G, D], lambda s, b, g, d: r(s, b, g * D + d))
    c.eqt("positive deviations", o.sigmas, [S, B, G, D], lambda s, b, g, d: c.exp(r(s, b, n + g * D + d)))
    c.eqt("normalised log-weights", o.logpi, [S, B, G], lambda s, b, g: r(s, b, 2 * n + g) - c.log(sum(c.exp(r(s, b, 2 * n + h)) for h in range(G))))
    c.eqt("reward", o.reward, [S, B], lambda s, b: r(s, b, out - 2))
    c.eqt("continuation", o.not_terminal, [S, B], lambda s, b: r(s, b, out - 1))


class Given(torch.nn.Module):
    """a world model with arbitrary outputs"""

    def __init__(self, out):
        super().__init__()
        self.out = out
        self.mdnrnn = torch.nn.Linear(1, 1)
        self.seen = []

    def forward(self, state, action):
        self.seen.append((state, action))
        return self.out


@contract("P32", "world model loss", under=[TR + "mdnrnn_trainer.py:MDNRNNTrainer.get_loss", TR + "mdnrnn_trainer.py:MDNRNNTrainer.__init__", MD + "gmm_loss"], split=[("mixture", 2), ("last step only", 2), ("normalised", 2)], bound="1 or 2 components of 2 features (any sequence length, batch size and predictions)")
def mdn_loss(c):
    S, B = c.dim("S"), c.dim("B")
    G, D = c.choice("mixture", [(1, 2), (2, 2)])
    last = c.choice("last step only", [False, True])
    sd = c.choice("normalised", [None, D])
    mus, sg, lpi = mixture(c, [S, B], G, D)
    rp, tp = c.tensor("reward_pred", [S, B]), c.tensor("terminal_pred", [S, B], lo=-4, hi=4)
    net = Given(rlt.MemoryNetworkOutput(mus=mus, sigmas=sg, logpi=lpi, reward=rp, not_terminal=tp, last_step_lstm_hidden=None, last_step_lstm_cell=None, all_steps_lstm_hidden=None))
    p = MDNRNNTrainerParameters(fit_only_one_next_step=last)
    wn, wt, wr = c.real("next_state_weight", 0, 3), c.real("terminal_weight", 0, 3), c.real("reward_weight", 0, 3)
    for k, v in (("next_state_loss_weight", wn), ("not_terminal_loss_weight", wt), ("reward_loss_weight", wr)):
        object.__setattr__(p, k, v)
    tr = c.call("construct", MDNRNNTrainer, net, p)
    x = c.tensor("next_state", [S, B, D], lo=-3, hi=3)
    nt = c.tensor("not_terminal", [S, B], "m")
    rw = c.tensor("reward", [S, B])
    batch = rlt.MemoryNetworkInput(state=F(c.tensor("state", [S, B, D])), next_state=F(x), action=c.tensor("action", [S, B, 2]), reward=rw, not_terminal=nt, step=None, time_diff=None)
    L = c.call("get_loss", tr.get_loss, batch, sd)
    c.check("the world model reads the batch's states and actions", net.seen[0][0] is batch.state and net.seen[0][1].float_features is batch.action)

    def mean(f):
        if last:
            return c.div(c.Sum(B, lambda b: f(S - 1, b)), B)
        return c.div(c.Sum(S, lambda s: c.Sum(B, lambda b: f(s, b))), S * B)

    lm = lambda s, b: logmix(c, lambda d: c.at(x, s, b, d), *at_mix(c, mus, sg, lpi, s, b), G, D)
    g = -mean(lm) * wn
    bce = mean(lambda s, b: c.fn("softplus", c.at(tp, s, b)) - c.at(tp, s, b) * c.at(nt, s, b)) * wt
    mse = mean(lambda s, b: (c.at(rp, s, b) - c.at(rw, s, b)) * (c.at(rp, s, b) - c.at(rw, s, b))) * wr
    c.checkeq("next states: negative log-density", c.scalar(L["gmm"]), g)
    c.checkeq("terminals: cross entropy", c.scalar(L["bce"]), bce)
    c.checkeq("rewards: squared error", c.scalar(L["mse"]), mse)
    c.checkeq("total", c.scalar(L["loss"]), (c.div(g, sd + 2) if sd else g) + bce + mse)


@contract("P32", "world model training and memory", under=[TR + "mdnrnn_trainer.py:MDNRNNTrainer.train", MD + "MDNRNNMemoryPool.sample_memories", MD + "MDNRNNMemoryPool.insert_into_memory", MD + "MDNRNNMemoryPool.deque_sample", MD + "MDNRNN.forward"], bounded=True, quick=20, bound="random networks and histories: up to 5 stored sequences out of 9, lengths up to 4")
def mdn_train(c):
    cap, n, S = c.dim("cap", 1, 5), c.dim("n", 1, 9), c.dim("S", 1, 4)
    D, A, B, G = c.choice("D", [1, 3]), 2, c.dim("B", 1, 4), c.choice("G", [1, 2])
    torch.manual_seed(int(c.int("seed", 0, 10 ** 6)))
    np.random.seed(int(c.int("np seed", 0, 10 ** 6)))
    pool = MDNRNNMemoryPool(cap)
    kept = []
    for i in range(n):
        x = (torch.randn(S, D), torch.randn(S, A), torch.randn(S, D), torch.randn(S), torch.randint(0, 2, (S,)).float())
        pool.insert_into_memory(*x)
        kept = (kept + [x])[-cap:]
        c.check("the latest sequences are kept", pool.memory_size == len(kept))
    b = c.call("sample", pool.sample_memories, B)
    c.eqshape("steps first", b.state.float_features, [S, B, D])
    for k in range(B):
        got = (b.state.float_features[:, k], b.action[:, k], b.next_state.float_features[:, k], b.reward[:, k], b.not_terminal[:, k])
        c.check("whole stored sequences", any(all(g.shape == w.shape and torch.equal(g, w) for g, w in zip(got, x)) for x in kept))
    net = MemoryNetwork(D, A, 5, c.choice("layers", [1, 2]), G)
    tr = MDNRNNTrainer(net, MDNRNNTrainerParameters(minibatch_size=B))
    out = net(b.state, F(b.action))
    for k in range(B):
        one = net(F(b.state.float_features[:, k:k + 1]), F(b.action[:, k:k + 1]))
        for f in ("mus", "sigmas", "logpi", "reward", "not_terminal", "all_steps_lstm_hidden"):
            c.check("sequences of a batch do not mix", c.close(getattr(out, f)[:, k:k + 1], getattr(one, f), atol=1e-5))
    if S > 1:
        cut = net(F(b.state.float_features[:-1]), F(b.action[:-1]))
        c.check("predictions do not look ahead", c.close(out.mus[:-1], cut.mus, atol=1e-5))
    before = [p.detach().clone() for p in net.parameters()]
    want = float(tr.get_loss(b, D)["loss"])
    L = c.call("train", tr.train, b)
    c.check("reports the loss of the batch", abs(L["loss"] - want) < 1e-4 * (1 + abs(want)))
    c.check("and moves the network", any(not torch.equal(p, q) for p, q in zip(before, net.parameters())))


class Planner(torch.nn.Module):
    """a reward model: any function of the state, times one that tells action sequences apart"""

    def __init__(self, v, w):
        super().__init__()
        self.v, self.w, self.state_dim = v, w, 3
        self.p = torch.nn.Parameter(torch.zeros(1))
        self.seen = []

    def forward(self, state, action, valid_len=None):
        self.seen.append((state, action, valid_len))
        s = self.v(F(state.float_features[0]))
        a = action.float_features
        r = 0.0
        for t in range(min(len(self.w), int(a.shape[0]))):
            for k in range(len(self.w[t])):
                r = r + a[t, :, k] * self.w[t][k]
        return rlt.Seq2RewardOutput(acc_reward=s + r.reshape(-1, 1))


def best(c, base, w, T, A, a):
    """greatest value of a sequence starting with action a"""
    m = None
    for tail in itertools.product(range(A), repeat=T - 1):
        r = base
        for t, k in enumerate((a,) + tail):
            r = r + w[t][k]
        m = r if m is None else c.max(m, r)
    return m


@contract("P33", "planned values", under=[TR + "seq2reward_trainer.py:get_Q", "reagent/training/utils.py:gen_permutations"], split=[("plan", 4)], bound="2 or 3 actions, plans of 1 to 3 steps (any number of rows, any rewards)")
def planned(c):
    B = c.dim("B")
    T, A = c.choice("plan", [(1, 2), (2, 2), (2, 3), (3, 2)])
    w = [[c.real(f"w{t}{k}", -4, 4) for k in range(A)] for t in range(T)]
    net = Planner(c.net("v", [1], lo=-4, hi=4), w)
    seqs = c.call("gen_permutations", gen_permutations, T, A)
    want = torch.tensor([[[float(k == s[t]) for k in range(A)] for s in itertools.product(range(A), repeat=T)] for t in range(T)])
    c.eqt("every action sequence, in order of the first action", seqs, list(want.shape), lambda t, n, k: sum(c.If(c.And(c.eq(t, a), c.eq(n, b), c.eq(k, d)), 1.0, 0.0) for a in range(want.shape[0]) for b in range(want.shape[1]) for d in range(A) if want[a, b, d]))
    st = c.rows("state", [B])
    q = c.call("get_Q", s2r.get_Q, net, st, seqs)
    c.eqt("value of an action: best sequence starting with it", q, [B, A], lambda i, k: sel(c, k, [best(c, c.netval("v", [(st, i)], 0), w, T, A, j) for j in range(A)]))
    c.check("every state with every sequence, once", len(net.seen) == 1)


def sel(c, k, xs):
    r = xs[-1]
    for i in range(len(xs) - 1):
        r = c.If(c.eq(k, i), xs[i], r)
    return r


class SumNet(torch.nn.Module):
    def __init__(self, v):
        super().__init__()
        self.v, self.state_dim = v, 3
        self.p = torch.nn.Parameter(torch.zeros(1))
        self.seen = []

    def forward(self, state, action, valid_len=None):
        self.seen.append((state, action, valid_len))
        return rlt.Seq2RewardOutput(acc_reward=self.v(F(state.float_features[0])))


@contract("P33", "losses of the reward model", under=[TR + "seq2reward_trainer.py:Seq2RewardTrainer.get_loss", TR + "seq2reward_trainer.py:Seq2RewardTrainer.__init__"], split=[("steps", 3)], bound="1 or 2 sequences of 1 to 3 steps (discount 0, 0.5 or 1, any rewards, lengths and predictions)")
def s2r_loss(c):
    B, D = c.choice("rows", [1, 2]), 3
    S = c.choice("steps", [1, 2, 3])
    gamma = c.choice("gamma", [0.5, 1.0, 0.0])
    p = Seq2RewardTrainerParameters(multi_steps=S, action_names=["a", "b"])
    object.__setattr__(p, "gamma", gamma)
    net = SumNet(c.net("v", [1], lo=-4, hi=4))
    sn = c.net("len", [S], lo=-3, hi=3)
    tr = c.call("construct", lambda: Seq2RewardTrainer(net, p), inject={"FullyConnectedNetwork": lambda *a, **k: sn})
    st = c.rows("state", [S, B], D)
    rw = c.tensor("reward", [S, B])
    ln = c.tensor("length", [B, 1], kind="i", lo=1, hi=S + 1)
    batch = rlt.MemoryNetworkInput(state=F(st), next_state=None, action=c.tensor("action", [S, B, 2]), reward=rw, not_terminal=None, step=None, time_diff=None, valid_next_seq_len=ln)
    mse, ce = c.call("get_loss", tr.get_loss, batch)
    c.check("the model reads the batch's states and actions", net.seen[0][0] is batch.state and net.seen[0][1].float_features is batch.action)
    c.eqt("and the valid lengths", net.seen[0][2], [B], lambda b: c.at(ln, b, 0))

    def acc(b):
        """discounted reward of the valid steps"""
        g, r, out = 1.0, 0.0, 0.0
        for t in range(S):
            r = r + c.at(rw, t, b) * g
            out = c.If(c.eq(c.at(ln, b, 0), t + 1), r, out)
            g = g * gamma
        return out

    e = lambda b: c.netval("v", [(st, (0, b))], 0) - acc(b)
    c.checkeq("squared error of the discounted reward of the valid steps", c.scalar(mse), c.div(c.Sum(B, lambda b: e(b) * e(b)), B))
    y = lambda b, k: c.netval("len", [(st, (0, b))], (k,))
    lse = lambda b: c.log(sum(c.exp(y(b, k)) for k in range(S)))
    c.checkeq("cross entropy of the number of valid steps", c.scalar(ce), c.div(c.Sum(B, lambda b: -(sel(c, c.at(ln, b, 0) - 1, [y(b, k) for k in range(S)]) - lse(b))), B))


@contract("P33", "compressed policy", under=[TR + "compress_model_trainer.py:CompressModelTrainer.get_loss", TR + "compress_model_trainer.py:CompressModelTrainer.__init__"], split=[("plan", 3)], bound="2 or 3 actions, plans of 1 or 2 steps (any number of rows, any rewards and predictions)")
def compress(c):
    B = c.dim("B")
    T, A = c.choice("plan", [(1, 2), (2, 2), (2, 3)])
    w = [[c.real(f"w{t}{k}", -4, 4) for k in range(A)] for t in range(T)]
    net = Planner(c.net("v", [1], lo=-4, hi=4), w)
    pol = c.net("pol", [A], lo=-4, hi=4)
    p = Seq2RewardTrainerParameters(multi_steps=T, action_names=["a", "b", "c"][:A])
    tr = c.call("construct", CompressModelTrainer, pol, net, p)
    st = c.rows("state", [T, B], 3)
    batch = rlt.MemoryNetworkInput(state=F(st), next_state=None, action=None, reward=None, not_terminal=None, step=None, time_diff=None)
    mse, acc = c.call("get_loss", tr.get_loss, batch)
    q = lambda b, k: best(c, c.netval("v", [(st, (0, b))], 0), w, T, A, k)
    o = lambda b, k: c.netval("pol", [(st, (0, b))], (k,))
    sq = lambda b: sum((o(b, k) - q(b, k)) * (o(b, k) - q(b, k)) for k in range(A))
    c.checkeq("squared error to the planned values", c.scalar(mse), c.div(c.Sum(B, sq), B * A))
    plan = c.call("get_Q", lambda: s2r.get_Q(net, st[0], c.call("gen_permutations", gen_permutations, T, A)))
    hit = lambda b: c.If(c.eq(c.ArgMax(A, lambda k: c.at(plan, b, k)), c.ArgMax(A, lambda k: o(b, k))), 1.0, 0.0)
    c.checkeq("share of rows where both choose the same action", c.scalar(acc), c.div(c.Sum(B, hit), B))


@contract("P33", "reward model and its training", under=["reagent/models/seq2reward_model.py:Seq2RewardNetwork.forward", "reagent/models/seq2reward_model.py:Seq2RewardNetwork.get_initial_hidden_state", TR + "seq2reward_trainer.py:Seq2RewardTrainer.train", TR + "seq2reward_trainer.py:get_step_prediction", TR + "compress_model_trainer.py:CompressModelTrainer.train"], bounded=True, quick=20, bound="random networks, up to 4 steps, 4 rows and 3 actions")
def s2r_train(c):
    S, B, A, D = c.dim("S", 1, 4), c.dim("B", 1, 4), c.choice("A", [2, 3]), 3
    torch.manual_seed(int(c.int("seed", 0, 10 ** 6)))
    net = Seq2RewardNetwork(D, A, 4, c.choice("layers", [1, 2]))
    st, ac, rw = torch.randn(S, B, D), torch.randn(S, B, A), torch.randn(S, B)
    ln = torch.randint(1, S + 1, (B, 1))
    out = c.call("forward", net, F(st), F(ac), ln.flatten()).acc_reward
    c.eqshape("a reward per row", out, [B, 1])
    close = lambda a, b: a.shape == b.shape and c.close(a, b, atol=1e-5)
    for b in range(B):
        l = int(ln[b])
        c.check("read off after the valid steps", close(out[b:b + 1], net(F(st[:l, b:b + 1]), F(ac[:l, b:b + 1])).acc_reward))
        other = st.clone()
        other[1:] += 1
        c.check("the first state only", close(out, net(F(other), F(ac), ln.flatten()).acc_reward))
    p = Seq2RewardTrainerParameters(multi_steps=S, action_names=["a", "b", "c"][:A], gamma=0.5, view_q_value=True, learning_rate=0.01)
    tr = Seq2RewardTrainer(net, p)
    batch = rlt.MemoryNetworkInput(state=F(st), next_state=None, action=ac, reward=rw, not_terminal=None, step=None, time_diff=None, valid_next_seq_len=ln)
    seen = []
    tr.notify_observers = lambda **k: seen.append(k)
    mse, ce = tr.get_loss(batch)
    prob = s2r.get_step_prediction(tr.step_predict_network, batch)
    c.check("step probabilities", prob.shape == (B, S) and close(prob.sum(1), torch.ones(B)))
    c.check("their cross entropy", abs(float(ce) + float(torch.log(prob[torch.arange(B), ln.flatten() - 1]).mean())) < 1e-4)
    before = [[q.detach().clone() for q in m.parameters()] for m in (net, tr.step_predict_network)]
    got = c.call("train", tr.train, batch)
    c.check("reports the losses of the batch", abs(got[0] - float(mse)) < 1e-4 and abs(got[1] - float(ce)) < 1e-4)
    c.check("and a value per action", len(got[2]) == A)
    c.check("both networks move", all(any(not torch.equal(x, y) for x, y in zip(b4, m.parameters())) for b4, m in zip(before, (net, tr.step_predict_network))) or S == 1)
    pol = torch.nn.Linear(D, A)
    ct = CompressModelTrainer(pol, net, p)
    ct.notify_observers = lambda **k: None
    keep = [q.detach().clone() for q in net.parameters()]
    w0 = pol.weight.detach().clone()
    c.call("train", ct.train, batch)
    c.check("compression trains the policy only", not torch.equal(w0, pol.weight) and all(torch.equal(x, y) for x, y in zip(keep, net.parameters())))
