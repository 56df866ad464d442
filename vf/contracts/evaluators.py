"""P41: evaluators measure what they say on held-out batches and leave the models as they were."""
import random
from types import SimpleNamespace

import numpy as np
import reagent.types as rlt
import torch
from vf.contracts._common import *
from vf.runner import contract

E_ = "reagent/evaluation/"


class Net(torch.nn.Module):
    """records the mode it is called in"""

    def __init__(self, fn):
        super().__init__()
        self.fn, self.modes = fn, []
        self.drop = torch.nn.Linear(1, 1)

    def forward(self, *a, **k):
        self.modes.append(self.training)
        return self.fn(*a, **k)


class Seen:
    def __init__(self, keys):
        self.keys, self.got = keys, []

    def get_observing_keys(self):
        return self.keys

    def update(self, k, v):
        self.got.append((k, v))


def ff(x):
    return rlt.FeatureData(x)


def plans(n, h):
    import itertools
    seqs = list(itertools.product(range(n), repeat=h))
    t = torch.zeros(h, len(seqs), n)
    for i, s in enumerate(seqs):
        for j, a in enumerate(s):
            t[j, i, a] = 1
    return t


@contract("P41", "sequence models", under=[E_ + "seq2reward_evaluator.py:Seq2RewardEvaluator.evaluate", E_ + "compress_model_evaluator.py:CompressModelEvaluator.evaluate"], bounded=True, quick=60, bound="up to 5 rows, 3 actions, plans of up to 3 steps")
def sequences(c):
    from reagent.evaluation.compress_model_evaluator import CompressModelEvaluator
    from reagent.evaluation.seq2reward_evaluator import Seq2RewardEvaluator
    g = torch.Generator().manual_seed(int(c.int("seed", 0, 10 ** 6)))
    B, n, h, T = int(c.int("rows", 1, 5)), c.choice("actions", [2, 3]), c.choice("steps", [1, 2, 3]), 3
    w = torch.randn(3, generator=g)
    v = torch.randn(h, n, generator=g)
    score = lambda s, a: (s.float_features[0] * w).sum(1) + ((s.float_features[0][:, :1] + 1) * torch.einsum("hbn,hn->b", a.float_features, v).unsqueeze(1) * 1.0).sum(1)
    net = Net(lambda s, a: SimpleNamespace(acc_reward=score(s, a).reshape(-1, 1)))
    st = torch.randn(T, B, 3, generator=g)
    batch = SimpleNamespace(state=ff(st))
    pl = plans(n, h)
    was = c.choice("mode", [True, False])
    q = torch.zeros(B, n)
    for b in range(B):
        for a in range(n):
            best = [float((st[0, b] * w).sum() + (st[0, b, 0] + 1) * (pl[:, k] * v).sum()) for k in range(pl.shape[1]) if pl[0, k, a] == 1]
            q[b, a] = max(best)
    share = [float((q.argmax(1) == a).float().mean()) for a in range(n)]
    close = lambda x, y: all(abs(float(i) - float(j)) < 1e-3 * (1 + abs(float(j))) for i, j in zip(x, y)) and len(x) == len(y)
    modes = []
    par = SimpleNamespace(action_names=[f"a{i}" for i in range(n)])
    net.train(was)
    tr = SimpleNamespace(seq2reward_network=net, params=par, all_permut=pl, get_loss=lambda b: (modes.append((b is batch, net.training)), (torch.tensor(1.5), torch.tensor(2.5)))[1])
    ev = c.call("construct", Seq2RewardEvaluator, tr)
    o = Seen(["mse_loss", "step_entropy_loss", "q_values", "action_distribution"])
    ev.add_observer(o)
    m, s, qv, ad = c.call("sequence rewards", ev.evaluate, batch)
    c.same("the losses of the evaluated batch", (m, s, modes), (1.5, 2.5, [(True, False)]))
    c.check("mean planned value of each action over the rows", close(qv, q.mean(0)))
    c.check("share of rows planning each action", close(ad, share))
    c.check("evaluated in evaluation mode, and the mode put back", net.modes and not any(net.modes) and net.training == was)
    got = dict(o.got)
    c.check("everything is reported once", len(o.got) == len(got) == 4 and close(got["q_values"][0], q.mean(0)) and close(got["action_distribution"][0], share) and float(got["mse_loss"]) == 1.5 and float(got["step_entropy_loss"]) == 2.5)
    cm = Net(lambda x: x)
    cm.train(was)
    net.eval()
    modes.clear()
    tr = SimpleNamespace(seq2reward_network=net, compress_model_network=cm, params=par, all_permut=pl, get_loss=lambda b: (modes.append((b is batch, cm.training)), (torch.tensor(0.5), torch.tensor(0.25)))[1])
    ev = c.call("construct", CompressModelEvaluator, tr)
    o = Seen(["mse_loss", "accuracy", "q_values", "action_distribution"])
    ev.add_observer(o)
    m, qv, ad, acc = c.call("compressed model", ev.evaluate, batch)
    c.same("the loss and accuracy of the evaluated batch", (m, acc, modes), (0.5, 0.25, [(True, False)]))
    c.check("mean planned value of each action over the rows", close(qv, q.mean(0)))
    c.check("share of rows planning each action", close(ad, share))
    c.check("the mode is put back", cm.training == was)
    got = dict(o.got)
    c.check("everything is reported once", len(o.got) == len(got) == 4 and close(got["q_values"][0], q.mean(0)) and close(got["action_distribution"][0], share) and float(got["mse_loss"]) == 0.5 and float(got["accuracy"]) == 0.25)


@contract("P41", "reward models", under=[E_ + "reward_net_evaluator.py:RewardNetEvaluator.evaluate", E_ + "reward_net_evaluator.py:RewardNetEvaluator.evaluate_post_training"], bounded=True, quick=60, bound="up to 4 rounds of up to 3 batches of up to 4 rows")
def rewards(c):
    from reagent.evaluation.reward_net_evaluator import RewardNetEvaluator
    from reagent.training.reward_network_trainer import LossFunction, RewardNetTrainer
    from reagent.optimizer import Optimizer__Union
    rng = random.Random(int(c.int("seed", 0, 10 ** 6)))
    net = Net(lambda b: SimpleNamespace(predicted_reward=b.reward * 0 + b.base + net.drop.bias))
    kind = c.choice("loss", ["MSE", "L1Loss"])
    tr = c.call("construct trainer", RewardNetTrainer, net, optimizer=Optimizer__Union.default(), loss_type=LossFunction[kind], reward_ignore_threshold=c.choice("ignored above", [None, 0.0]))
    ev = c.call("construct", RewardNetEvaluator, tr)
    best, bias_best, was = None, None, c.choice("mode", [True, False])
    for _ in range(rng.randint(1, 4)):
        bias = rng.choice([0.0, 0.5, 1.0, 2.0]) + rng.uniform(0, 0.3)
        with torch.no_grad():
            net.drop.bias.fill_(bias)
        ls, rs, ps = [], [], []
        for _ in range(rng.randint(1, 3)):
            n = rng.randint(1, 4)
            r, b = torch.tensor([[rng.uniform(-2, 2)] for _ in range(n)]), torch.tensor([[rng.uniform(-1, 1)] for _ in range(n)])
            net.train(was)
            net.modes.clear()
            c.call("evaluate", ev.evaluate, SimpleNamespace(reward=r, base=b))
            c.check("evaluated in evaluation mode, and the mode put back", net.modes == [False] and net.training == was)
            p = b + bias
            d = (p - r).abs()
            ls.append(float((d ** 2 if kind == "MSE" else d).mean()))
            rs += r.flatten().tolist()
            ps += p.flatten().tolist()
        res = c.call("end of evaluation", ev.evaluate_post_training)
        close = lambda x, y: len(x) == len(y) and all(abs(float(i) - float(j)) < 1e-4 * (1 + abs(float(j))) for i, j in zip(x, y))
        mean = sum(ls) / len(ls)
        c.check("mean loss of the batches", close([res["loss"]], [mean]))
        c.check("every reward, in order", close(res["rewards"].tolist(), rs))
        c.check("every predicted reward, in order", close(res["pred_rewards"].tolist(), ps))
        if best is None or mean < best - 1e-6:
            best, bias_best = mean, bias
        c.check("the best loss so far", close([ev.best_model_loss], [best]))
        c.check("the model that reached it, as it was then", ev.best_model is not net and abs(float(ev.best_model.drop.bias) - bias_best) < 1e-6)


@contract("P41", "ranking policies", under=[E_ + "ranking_policy_gradient_evaluator.py:RankingPolicyGradientEvaluator.evaluate", E_ + "ranking_policy_gradient_evaluator.py:RankingPolicyGradientEvaluator.evaluate_post_training", E_ + "evaluation_data_page.py:EvaluationDataPage.append"], bounded=True, quick=60, bound="up to 2 rounds of up to 3 batches of up to 3 rows")
def ranking(c):
    import reagent.evaluation.ranking_policy_gradient_evaluator as mod
    from reagent.model_utils.seq2slate_utils import Seq2SlateMode
    rng = random.Random(int(c.int("seed", 0, 10 ** 6)))
    was, bwas = c.choice("mode", [True, False]), c.choice("baseline mode", [True, False])
    calls = []

    def rank(b, mode=None, greedy=None, **k):
        calls.append((mode, greedy))
        if mode == Seq2SlateMode.PER_SEQ_LOG_PROB_MODE:
            return SimpleNamespace(log_probs=b.lp)
        return SimpleNamespace(ranked_per_seq_probs=b.rp, ranked_tgt_out_idx=None)
    net, base = Net(rank), Net(lambda b: b.base)
    with_base, cpe = c.choice("baseline", [True, False]), c.choice("calc_cpe", [True, False])

    class Page:
        def __init__(self, x):
            self.x = list(x)

        def append(self, o):
            return Page(self.x + o.x)

        @classmethod
        def create_from_tensors_seq2slate(cls, s, r, b, eval_greedy):
            calls.append((s is net, r is reward, eval_greedy, net.training))
            return Page([(b.id, eval_greedy)])
    reward = object()
    ev = c.call("construct", mod.RankingPolicyGradientEvaluator, SimpleNamespace(seq2slate_net=net, baseline_net=base if with_base else None), cpe, reward)
    keys = ["eval_baseline_loss", "eval_advantages", "logged_slate_rank_probs", "ranked_slate_rank_probs"]
    o = Seen(keys + ["eval_data_pages_g", "eval_data_pages_ng"])
    ev.add_observer(o)
    t = lambda n, lo, hi: torch.tensor([[rng.uniform(lo, hi)] for _ in range(n)])
    for _ in range(rng.randint(1, 2)):
        want = []
        for i in range(rng.randint(1, 3)):
            n = rng.randint(1, 3)
            b = SimpleNamespace(id=i, lp=t(n, -3, 0), rp=t(n, 0, 1), slate_reward=t(n, -2, 2), base=t(n, -2, 2))
            net.train(was)
            base.train(bwas)
            net.modes.clear()
            base.modes.clear()
            calls.clear()
            o.got.clear()
            c.call("evaluate", ev.evaluate, b, inject={"EvaluationDataPage": Page})
            c.check("in evaluation mode, put back afterwards", not any(net.modes) and net.training == was and not any(base.modes) and base.training == bwas)
            if not cpe:
                continue
            want.append(i)
            g = dict(o.got)
            c.check("reported once", len(o.got) == 4 and sorted(g) == sorted(keys))
            bb = b.base if with_base else torch.zeros(n, 1)
            c.check("probability of the logged slates", c.close(g[keys[2]].reshape(-1), b.lp.exp().reshape(-1), atol=1e-5))
            c.check("probability of the ranked slates", c.close(g[keys[3]], b.rp, atol=1e-6))
            c.check("advantage over the baseline", c.close(g[keys[1]].reshape(-1), (b.slate_reward - bb).reshape(-1), atol=1e-5))
            c.check("error of the baseline", abs(float(g[keys[0]]) - (float(((bb - b.slate_reward) ** 2).mean()) if with_base else 0.0)) < 1e-4)
            c.check("ranked greedily", (Seq2SlateMode.RANK_MODE, True) in calls and (Seq2SlateMode.RANK_MODE, False) not in calls)
        o.got.clear()
        c.call("end of evaluation", ev.evaluate_post_training)
        if cpe:
            g = dict(o.got)
            c.check("every batch once, greedy and not", g["eval_data_pages_g"].x == [(i, True) for i in want] and g["eval_data_pages_ng"].x == [(i, False) for i in want])
        c.check("the next evaluation starts empty", ev.eval_data_pages_g is None and ev.eval_data_pages_ng is None)


@contract("P41", "world models", under=[E_ + "world_model_evaluator.py:" + x for x in ("LossEvaluator.evaluate", "FeatureImportanceEvaluator.evaluate", "FeatureImportanceEvaluator.compute_median_feature_value", "FeatureSensitivityEvaluator.evaluate")] + ["reagent/training/cem_trainer.py:CEMTrainer.train"], bounded=True, quick=60, bound="up to 3 steps of up to 4 rows; 2 action and 3 state features of up to 3 columns")
def world(c):
    import reagent.evaluation.world_model_evaluator as mod
    g = torch.Generator().manual_seed(int(c.int("seed", 0, 10 ** 6)))
    T, B = int(c.int("steps", 1, 3)), int(c.int("rows", 1, 4))
    R = lambda *s: torch.randn(*s, generator=g)
    disc = c.choice("discrete", [True, False])
    ssz = c.choice("state features", [[1, 1], [2, 1], [1, 3, 1]])
    asz = [1, 1] if disc else c.choice("action features", [[1, 1], [1, 2]])
    start = lambda z: [sum(z[:i]) for i in range(len(z))]
    S, A = sum(ssz), sum(asz)

    def mk(sz):
        cols = []
        for z in sz:
            if z == 1:
                cols.append(R(T, B, 1))
            else:
                x = torch.zeros(T, B, z)
                i = torch.randint(0, z, (T, B), generator=g)
                cols.append(x.scatter(2, i.unsqueeze(2), 1.0))
        return torch.cat(cols, dim=2)
    s, ns, r, nt = mk(ssz), R(T, B, S), R(T, B), torch.ones(T, B)
    a = torch.nn.functional.one_hot(torch.randint(0, A, (T, B), generator=g), A).float() if disc else mk(asz)
    keep = [x.clone() for x in (s, a, ns, r, nt)]
    b = rlt.MemoryNetworkInput(state=ff(s), next_state=ff(ns), action=a, reward=r, not_terminal=nt, time_diff=torch.ones(T, B), step=None)
    seen, net = [], Net(lambda *x: None)
    ws, wa = R(S), R(A)

    def loss(bt, state_dim=None):
        seen.append((bt, net.training, state_dim))
        x = (bt.state.float_features * ws).sum() + (bt.action * wa).sum() ** 2 + (bt.state.float_features.sum(2) * bt.action[:, :, 0]).sum() + bt.next_state.float_features.sum() + bt.reward.sum() + bt.not_terminal.sum()
        x = x.clone().requires_grad_(True)
        return dict(loss=x * 1, gmm=x * 2, bce=x * 3, mse=x * 4)
    mem = SimpleNamespace(mdnrnn=net)
    tr = SimpleNamespace(get_loss=loss, memory_network=mem, params=SimpleNamespace(num_gaussians=2))
    le = c.call("construct", mod.LossEvaluator, tr, S)
    net.train()
    out = c.call("losses", le.evaluate, b)
    base = float(loss(b)["loss"])
    near = lambda x, y: abs(float(x) - float(y)) <= 1e-3 * (1 + abs(float(y)))
    c.check("each loss of the batch", sorted(out) == ["bce", "gmm", "loss", "mse"] and all(near(out[k], base * m) for k, m in (("loss", 1), ("gmm", 2), ("bce", 3), ("mse", 4))))
    c.check("in evaluation mode", seen[0][0] is b and seen[0][1] is False and seen[0][2] == S and net.training)
    seen.clear()
    fi = c.call("construct", mod.FeatureImportanceEvaluator, tr, disc, len(ssz), len(asz), start(asz), start(ssz))
    out = c.call("importance", fi.evaluate, b)["feature_loss_increase"]
    c.same("one number per action and state feature", out.shape, (len(asz) + len(ssz),))
    c.check("the batch is not changed", all(torch.equal(x, y) for x, y in zip(keep, (b.state.float_features, b.action, b.next_state.float_features, b.reward, b.not_terminal))))
    c.check("in evaluation mode, and training again afterwards", not any(x[1] for x in seen) and net.training)

    def masked(x, lo, hi):
        y, col = x.clone(), x[:, :, lo:hi].reshape(T * B, hi - lo)
        if hi - lo == 1:
            m = col.mean(0)
        else:
            n = col.sum(0)
            k = (n == n.median()).float().argmax()
            m = torch.zeros(hi - lo)
            m[k] = 1
        y[:, :, lo:hi] = m
        return y
    got = seen[:]
    c.same("one evaluation for the batch and one per feature", len(got), 1 + len(asz) + len(ssz))
    for i in range(len(asz) + len(ssz)):
        if i < len(asz):
            if disc:
                aa = torch.zeros_like(a)
                aa[:, :, i] = 1
            else:
                aa = masked(a, start(asz)[i], start(asz)[i] + asz[i])
            ss = s
        else:
            j = i - len(asz)
            aa, ss = a, masked(s, start(ssz)[j], start(ssz)[j] + ssz[j])
        w = float(loss(SimpleNamespace(state=ff(ss), action=aa, next_state=b.next_state, reward=r, not_terminal=nt))["loss"])
        c.check(f"feature: {'action' if i < len(asz) else 'state'}: the loss increase without its values", abs(float(out[i]) - (w - base)) <= 2e-3 * (1 + abs(w) + abs(base)))
    mus = {}
    W = R(A, 2, S)

    def memory(st, ac):
        mus["calls"] = mus.get("calls", []) + [(st.float_features, ac.float_features, net.training)]
        return SimpleNamespace(mus=torch.einsum("tba,ags->tbgs", ac.float_features, W) + st.float_features.unsqueeze(2))

    class M:
        mdnrnn = net

        def __call__(self, st, ac):
            return memory(st, ac)
    tr.memory_network = M()
    fs = c.call("construct", mod.FeatureSensitivityEvaluator, tr, len(ssz), start(ssz))
    out = c.call("sensitivity", fs.evaluate, b)["feature_sensitivity"]
    (s1, a1, m1), (s2, a2, m2) = mus["calls"]
    rows = lambda x: sorted(x.transpose(0, 1).reshape(B, -1).tolist())
    c.check("the batch's own states and actions", torch.equal(s1, s) and torch.equal(s2, s) and torch.equal(a1, a) and not m1 and not m2 and net.training)
    c.check("the same action sequences, given to other rows", rows(a2) == rows(a))
    d = (torch.einsum("tba,ags->tbgs", a2 - a, W)).abs()
    for i in range(len(ssz)):
        w = d[..., start(ssz)[i]:start(ssz)[i] + ssz[i]].sum(3).mean()
        c.check("mean deviation of the feature's predicted columns", near(out[i], w))
    from reagent.training.cem_trainer import CEMTrainer
    log = []
    trs = [SimpleNamespace(train=lambda bt, i=i: log.append((i, bt is b))) for i in range(3)]
    from reagent.parameters import CEMTrainerParameters
    ct = c.call("construct", CEMTrainer, torch.nn.Identity(), trs, CEMTrainerParameters())
    c.call("train", ct.train, b)
    c.same("each world model is trained on the batch once", (log, ct.minibatch), ([(0, True), (1, True), (2, True)], 1))
