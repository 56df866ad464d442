"""P30: losses and update schedule of the ranking (seq2slate) trainers."""
import itertools
import types

import torch
import reagent.types as rlt
from reagent.model_utils.seq2slate_utils import Seq2SlateMode
from reagent.parameters_seq2slate import IPSClamp, IPSClampMethod, RewardClamp, SimulationParameters
from reagent.parameters import Seq2SlateParameters
from reagent.training.ranking import seq2slate_sim_trainer as sim
from reagent.training.ranking.seq2slate_attn_trainer import Seq2SlatePairwiseAttnTrainer
from reagent.training.ranking.seq2slate_dr_trainer import Seq2SlateDifferentiableRewardTrainer
from reagent.training.ranking.seq2slate_tf_trainer import Seq2SlateTeacherForcingTrainer
from reagent.training.ranking.seq2slate_trainer import Seq2SlateTrainer
from vf.runner import contract
from vf.contracts._common import *

R = "reagent/training/ranking/"
M = Seq2SlateMode
F = rlt.FeatureData


class SlateNet(torch.nn.Module):
    """the ranking network: an arbitrary function of the state, one per mode"""

    def __init__(self, c, n, seq=None, sym=None, score=None, ranked=()):
        super().__init__()
        self.max_src_seq_len = self.max_tgt_seq_len = n
        self.nets = {M.PER_SEQ_LOG_PROB_MODE: seq, M.PER_SYMBOL_LOG_PROB_DIST_MODE: sym, M.ENCODER_SCORE_MODE: score}
        for i, x in enumerate(v for v in (seq, sym, score) if v is not None):
            self.add_module(f"n{i}", x)
        self.ranked = list(ranked)
        self.seen = []
        self.args = []

    def forward(self, batch, mode, tgt_seq_len=None, greedy=None):
        if mode is M.RANK_MODE:
            self.args.append((tgt_seq_len, greedy))
            p, i = self.ranked.pop(0)
            return rlt.RankingOutput(ranked_per_symbol_probs=None, ranked_per_seq_probs=p, ranked_tgt_out_idx=i)
        self.seen.append(batch)
        out = self.nets[mode](batch.state)
        return rlt.RankingOutput(encoder_scores=out) if mode is M.ENCODER_SCORE_MODE else rlt.RankingOutput(log_probs=out)


class Baseline(torch.nn.Module):
    def __init__(self, net):
        super().__init__()
        self.net = net

    def forward(self, batch):
        return self.net(batch.state)


def params(c, on_policy=False, simulation=None):
    kind = c.choice("clamp", [None, IPSClampMethod.UNIVERSAL, IPSClampMethod.AGGRESSIVE])
    hi = c.real("clamp_max", 0.1, 20)
    p = Seq2SlateParameters(on_policy=on_policy, ips_clamp=None, simulation=simulation)
    if kind:
        k = IPSClamp(clamp_method=kind, clamp_max=1.0)
        object.__setattr__(k, "clamp_max", hi)
        object.__setattr__(p, "ips_clamp", k)

    def clamp(w):
        if kind is None:
            return w
        if kind is IPSClampMethod.UNIVERSAL:
            return c.min(c.max(w, 0.0), hi)
        return c.If(c.lt(hi, w), 0.0, w)

    return p, clamp


def quiet(tr):
    seen = []
    tr.notify_observers = lambda **k: seen.append(k)
    return seen


def close_clamp(c, w, hi):
    pass


@contract("P30", "REINFORCE ranking loss", under=[R + "seq2slate_trainer.py:Seq2SlateTrainer.train", R + "seq2slate_trainer.py:Seq2SlateTrainer._compute_impt_smpl", R + "helper.py:ips_clamp"], split=[("baseline", 4), ("interval", 2), ("clamp", 3)])
def reinforce(c):
    base, warm = c.choice("baseline", [(False, 0), (True, 0), (True, 2), (True, 3)])
    every = c.choice("interval", [1, 2])
    p, clamp = params(c)
    net = SlateNet(c, 4, seq=c.net("lp", [1], lo=-4, hi=0))
    bn = Baseline(c.net("b", [1], lo=-5, hi=5)) if base else None
    tr = c.call("construct", lambda: Seq2SlateTrainer(net, 8, parameters=p, baseline_net=bn, baseline_warmup_num_batches=warm, policy_optimizer=c.optimizer("rl"),
                                                      baseline_optimizer=c.optimizer("base"), policy_gradient_interval=every))
    seen = quiet(tr)
    batches = []
    for m in range(3 if warm == 3 or every == 2 else 2):
        B = c.dim(f"B{m}")
        b = rlt.PreprocessedRankingInput(state=F(c.rows(f"state{m}", [B])), src_seq=None, slate_reward=c.tensor(f"reward{m}", [B, 1]), tgt_out_probs=c.tensor(f"prob{m}", [B, 1], lo=0.05, hi=1))
        batches.append((B, b))
        c.call("train", tr.train, b)
        c.check("the network scores the batch", net.seen[-1] is b)

    def terms(B, b):
        lp = lambda i: c.netval("lp", [(b.state, i)], 0)
        bv = lambda i: c.netval("b", [(b.state, i)], 0) if base else 0.0
        w = lambda i: c.div(c.exp(lp(i)), c.at(b.tgt_out_probs, i, 0))
        obj = c.div(c.Sum(B, lambda i: -clamp(w(i)) * (c.at(b.slate_reward, i, 0) - bv(i))), B)
        mse = c.div(c.Sum(B, lambda i: (bv(i) - c.at(b.slate_reward, i, 0)) * (bv(i) - c.at(b.slate_reward, i, 0))), B)
        return obj, mse, w, bv

    want, acc = [], []
    for m, (B, b) in enumerate(batches, 1):
        obj, mse, w, bv = terms(B, b)
        if not base or m >= warm:
            acc.append(obj)
            if m % every == 0:
                want.append(acc)
                acc = []
        c.eqt("reported importance ratios", seen[m - 1]["train_ips_ratio"], [B, 1], lambda i, _: w(i))
        c.eqt("reported clamped ratios", seen[m - 1]["train_clamped_ips_ratio"], [B, 1], lambda i, _: clamp(w(i)))
    got = c.steps("rl", ["lp"])
    c.same("the policy moves at every interval once the baseline is warm", [len(x) for x in got], [len(x) for x in want])
    for g, w in zip(got, want):
        for x, y in zip(g, w):
            c.checkeq("policy loss: mean of minus clamped importance weight times advantage", c.scalar(x), y)
            c.same("the policy loss trains the ranking network only", sorted(c.gradset(x)), ["lp"])
    if base:
        got = c.steps("base", ["b"])
        c.same("the baseline moves once per batch", [len(x) for x in got], [1] * len(batches))
        for (B, b), x in zip(batches, got):
            c.checkeq("baseline loss: mean squared error to the slate reward", c.scalar(x[0]), terms(B, b)[1])


@contract("P30", "pairwise attention loss", under=[R + "seq2slate_attn_trainer.py:Seq2SlatePairwiseAttnTrainer.train"])
def attn(c):
    B, n = c.dim("B"), c.dim("slate")
    net = SlateNet(c, n, score=c.net("score", [n], lo=-4, hi=4))
    tr = c.call("construct", lambda: Seq2SlatePairwiseAttnTrainer(net, 8, policy_optimizer=c.optimizer("o")))
    quiet(tr)
    b = rlt.PreprocessedRankingInput(state=F(c.rows("state", [B])), src_seq=None, position_reward=c.tensor("reward", [B, n], lo=0, hi=3))
    out = c.call("train", tr.train, b)
    c.check("the network scores the batch", net.seen[-1] is b)

    def kl(i, t):
        y = c.at(b.position_reward, i, t)
        s = lambda k: c.netval("score", [(b.state, i)], (k,))
        lp = s(t) - c.log(c.Sum(n, lambda k: c.exp(s(k))))
        return y * c.log(c.If(c.lt(0, y), y, 1.0)) - y * lp

    want = c.div(c.Sum(B, lambda i: c.Sum(n, lambda t: kl(i, t))), B)
    got = c.steps("o", ["score"])
    c.same("one update per batch", [len(x) for x in got], [1])
    c.checkeq("divergence of the softmax scores from the position rewards, per slate", c.scalar(got[0][0]), want)
    c.checkeq("reported loss", c.scalar(out["cross_entropy_loss"]), want)


@contract("P30", "teacher forcing loss", under=[R + "seq2slate_tf_trainer.py:Seq2SlateTeacherForcingTrainer.train", R + "seq2slate_tf_trainer.py:Seq2SlateTeacherForcingTrainer._transform_label"], split=[("interval", 2)])
def tf(c):
    B, n, m = c.dim("B"), c.dim("slate"), c.dim("candidates")
    every = c.choice("interval", [1, 2])
    net = SlateNet(c, m, sym=c.net("lps", [n, m + 2], lo=-6, hi=0))
    tr = c.call("construct", lambda: Seq2SlateTeacherForcingTrainer(net, Seq2SlateParameters(), 8, policy_optimizer=c.optimizer("o"), policy_gradient_interval=every))
    want = []
    for k in range(every):
        b = rlt.PreprocessedRankingInput(state=F(c.rows(f"state{k}", [B])), src_seq=None, optim_tgt_out_idx=c.tensor(f"best{k}", [B, n], kind="i", lo=2, hi=m + 2), tgt_out_idx=c.tensor(f"logged{k}", [B, n], kind="i", lo=2, hi=m + 2))
        c.same("no update before the interval", len(c.steps("o", ["lps"])), 0)
        _, loss = c.call("train", tr.train, b)
        c.check("the network scores the batch", net.seen[-1] is b)
        want.append(c.div(c.Sum(B, lambda i: c.Sum(n, lambda t: -c.netval("lps", [(b.state, i)], (t, c.at(b.optim_tgt_out_idx, i, t))))), B))
    got = c.steps("o", ["lps"])
    c.same("one update per interval, of all its batches", [len(x) for x in got], [every])
    for g, w in zip(got[0], want):
        c.checkeq("cross entropy of the optimal ranking, per slate", c.scalar(g), w)


@contract("P30", "differentiable reward loss", under=[R + "seq2slate_dr_trainer.py:Seq2SlateDifferentiableRewardTrainer.train", R + "seq2slate_dr_trainer.py:Seq2SlateDifferentiableRewardTrainer._transform_label", "reagent/model_utils/seq2slate_utils.py:per_symbol_to_per_seq_log_probs", R + "helper.py:ips_clamp"], split=[("on_policy", 2), ("clamp", 3)])
def dr(c):
    B, n, m = c.dim("B"), c.dim("slate"), c.dim("candidates")
    onp = c.choice("on_policy", [False, True])
    p, clamp = params(c, on_policy=onp)
    net = SlateNet(c, m, sym=c.net("lps", [n, m + 2], lo=-2, hi=0))
    tr = c.call("construct", lambda: Seq2SlateDifferentiableRewardTrainer(net, p, 8, policy_optimizer=c.optimizer("o")))
    b = rlt.PreprocessedRankingInput(state=F(c.rows("state", [B])), src_seq=None, tgt_out_idx=c.tensor("logged", [B, n], kind="i", lo=2, hi=m + 2), tgt_out_probs=c.tensor("prob", [B, 1], lo=0.05, hi=1), position_reward=c.tensor("reward", [B, n]))
    c.call("train", tr.train, b)
    lp = lambda i, t: c.netval("lps", [(b.state, i)], (t, c.at(b.tgt_out_idx, i, t)))

    def term(i):
        w = 1.0
        if not onp:
            w = clamp(c.div(c.exp(c.Sum(n, lambda t: lp(i, t))), c.at(b.tgt_out_probs, i, 0)))
        return w * c.Sum(n, lambda t: c.div(1.0, c.log(t + 1 + 1.0)) * (-lp(i, t) * c.at(b.position_reward, i, t)))

    got = c.steps("o", ["lps"])
    c.same("one update per batch", [len(x) for x in got], [1])
    c.checkeq("importance-weighted, discounted cross entropy of the logged items", c.scalar(got[0][0]), c.div(c.Sum(B, term), B))


@contract("P30", "simulated slates", under=[R + "seq2slate_sim_trainer.py:Seq2SlateSimulationTrainer." + x for x in ("__init__", "train", "_simulated_training_input")] + ["reagent/types.py:PreprocessedRankingInput.from_input"], split=[("clamp", 3), ("reward clamp", 2)], bound="two candidates, slates of one or two (any number of rows, any rewards, probabilities and rankings)")
def simulated(c):
    B, D = c.dim("B"), 2
    n = 2
    slate = c.choice("slate", [1, 2])
    rc = c.choice("reward clamp", [False, True])
    lo, hi = c.real("reward lo", -3, 0), c.real("reward hi", 0, 3)
    wa, wb = c.real("weight a", -2, 2), c.real("weight b", -2, 2)
    sp = SimulationParameters(reward_name_weight={}, reward_name_power={}, reward_name_path={})
    object.__setattr__(sp, "reward_name_weight", {"a": wa, "b": wb})
    object.__setattr__(sp, "reward_name_power", {"a": 1, "b": 2})
    if rc:
        r = RewardClamp()
        object.__setattr__(r, "clamp_min", lo)
        object.__setattr__(r, "clamp_max", hi)
        object.__setattr__(sp, "reward_clamp", r)
    p, clamp = params(c)
    object.__setattr__(p, "simulation", sp)
    probs = c.tensor("probs", [B, 1], lo=0.05, hi=1)
    idx = c.tensor("ranking", [B, slate], kind="i", lo=2, hi=n + 2)
    retry = c.choice("numerically invalid draw first", [False, True])
    bad = idx * 0 + 1  # the start symbol
    net = SlateNet(c, n, seq=c.net("lp", [1], lo=-4, hi=0), ranked=([(probs, bad)] if retry else []) + [(probs, idx)])
    tr = c.call("construct", lambda: sim.Seq2SlateSimulationTrainer(net, 8, p, policy_optimizer=c.optimizer("o")))
    quiet(tr.trainer)
    na, nb = c.net("ra", [1], lo=-2, hi=2), c.net("rb", [1], lo=-2, hi=2)
    st = c.rows("state", [B])
    src = c.tensor("candidates", [B, n, D])
    got = []

    def rew(net):
        def f(state, cand, slate_features, mask, actions):
            got.append((cand, slate_features, actions))
            return net(state)
        return f

    c.call("construct", lambda: setattr(tr, "reward_name_and_net", {"a": rew(na), "b": rew(nb)}))
    b = rlt.PreprocessedRankingInput(state=F(st), src_seq=F(src), src_src_mask=None)
    c.call("train", tr.train, b)
    c.same("rankings are sampled, over whole slates", net.args, [(n, False)] * (2 if retry else 1))
    item = lambda i, t, d: pick2(c, c.at(idx, i, t) - 2, [c.at(src, i, k, d) for k in range(n)])
    for cand, feats, actions in got:
        c.eqt("rewards see the ranked items' features", feats, [B, slate, D], lambda i, t, d: pick2(c, d, [item(i, t, q) for q in range(D)]))
        c.eqt("and the ranking", actions, [B, slate], lambda i, t: c.at(idx, i, t))
        c.eqt("and the candidates", cand, [B, n, D], lambda i, k, d: c.at(src, i, k, d))

    def reward(i):
        a, v = c.netval("ra", [(st, i)], 0), c.netval("rb", [(st, i)], 0)
        r = wa * a + wb * (v * v)
        return c.min(c.max(r, lo), hi) if rc else r

    on = net.seen[-1]
    c.eqt("trained on the simulated reward", on.slate_reward, [B, 1], lambda i, _: reward(i))
    c.eqt("of the simulated ranking", on.tgt_out_idx, [B, slate], lambda i, t: c.at(idx, i, t))
    c.eqt("decoded from the start symbol and the earlier items", on.tgt_in_idx, [B, slate], lambda i, t: c.If(c.eq(t, 0), 1, c.at(idx, i, 0)))
    c.eqt("with their features", on.tgt_in_seq.float_features, [B, slate, D], lambda i, t, d: c.If(c.eq(t, 0), 0.0, pick2(c, d, [item(i, 0, q) for q in range(D)])))
    c.eqt("with its own probability", on.tgt_out_probs, [B, 1], lambda i, _: c.at(probs, i, 0))
    steps = c.steps("o", ["lp"])
    c.same("one update", [len(x) for x in steps], [1])
    w = lambda i: clamp(c.div(c.exp(c.netval("lp", [(st, i)], 0)), c.at(probs, i, 0)))
    c.checkeq("policy loss on the simulated slates", c.scalar(steps[0][0]), c.div(c.Sum(B, lambda i: -w(i) * reward(i)), B))


def pick2(c, k, xs):
    r = xs[-1]
    for i in range(len(xs) - 1):
        r = c.If(c.eq(k, i), xs[i], r)
    return r


@contract("P30", "distance penalty", under=[R + "seq2slate_sim_trainer.py:swap_dist", R + "seq2slate_sim_trainer.py:swap_dist_in_slate", R + "seq2slate_sim_trainer.py:swap_dist_out_slate", R + "seq2slate_sim_trainer.py:Seq2SlateSimulationTrainer._simulated_training_input"], bounded=True, quick=6, bound="every ranking of up to 5 candidates; random batches of them")
def distance(c):
    n = c.choice("candidates", [1, 2, 3, 4, 5])
    m = c.choice("slate", list(range(1, n + 1)))

    def swaps(r):
        """adjacent swaps that turn the original order into one starting with r"""
        full = list(r) + [i for i in range(n) if i not in r]
        return sum(full[i] > full[j] for i in range(n) for j in range(i + 1, n))

    for r in itertools.permutations(range(n), m):
        l = list(r)
        c.check("swaps needed from the original order", c.call("swap_dist", sim.swap_dist, l) == swaps(r))
        c.check("the ranking is left alone", l == list(r))
    B = c.dim("B", 1, 5)
    pen = c.real("penalty", 0, 2)
    sp = SimulationParameters(reward_name_weight={"a": 1.0}, reward_name_power={"a": 1.0}, reward_name_path={}, distance_penalty=float(pen))
    g = torch.Generator().manual_seed(int(c.int("seed", 0, 10 ** 6)))
    idx = torch.stack([torch.randperm(n, generator=g)[:m] for _ in range(B)]) + 2
    net = SlateNet(c, n, seq=c.net("lp", [1], lo=-4, hi=0), ranked=[(torch.full((B, 1), 0.5), idx)])
    tr = c.call("construct", lambda: sim.Seq2SlateSimulationTrainer(net, 8, Seq2SlateParameters(simulation=sp), policy_optimizer=c.optimizer("o")))
    quiet(tr.trainer)
    raw = torch.randn(B, 1, generator=g)
    tr.reward_name_and_net = {"a": lambda *a: raw.clone()}
    st = c.rows("state", [B])
    c.call("train", tr.train, rlt.PreprocessedRankingInput(state=F(st), src_seq=F(torch.randn(B, n, 2, generator=g)), src_src_mask=None))
    on = net.seen[-1]
    for b in range(B):
        d = swaps([int(x) - 2 for x in idx[b]])
        c.check("rankings close to the original earn a bonus", abs(float(on.slate_reward[b, 0]) - (float(raw[b, 0]) + float(pen) * (n * (n - 1) / 2 - d))) < 1e-4)
