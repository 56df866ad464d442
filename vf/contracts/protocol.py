import types

import pytorch_lightning as pl
import torch
import reagent.types as rlt
from reagent.optimizer import SoftUpdate
from reagent.parameters import EvaluationParameters, RLParameters
from reagent.training.c51_trainer import C51Trainer
from reagent.training.discrete_crr_trainer import DiscreteCRRTrainer
from reagent.training.dqn_trainer import DQNTrainer
from reagent.training.parametric_dqn_trainer import ParametricDQNTrainer
from reagent.training.qrdqn_trainer import QRDQNTrainer
from reagent.training.reagent_lightning_module import ReAgentLightningModule
from reagent.training.sac_trainer import SACTrainer
from reagent.training.slate_q_trainer import SlateQTrainer
from reagent.training.td3_trainer import TD3Trainer
from vf.runner import contract
from vf.contracts._common import *
from vf.contracts.actor_critic import Actor, policy_batch
from vf.contracts.crr import LogitActor
from vf.contracts.dqn import dqn_batch

SU = ["reagent/optimizer/soft_update.py:SoftUpdate.step", "reagent/optimizer/soft_update.py:SoftUpdate.__init__"]
F = rlt.FeatureData


@contract("P09", "soft update arithmetic", under=SU)
def soft(c):
    n = c.choice("pairs", [1, 2, 3])
    shared = c.choice("shared", [None, 0, 1, 2])
    if shared is not None and shared >= n:
        shared = None
    how = c.choice("closure", ["none", "value", "skip"])
    tau = c.real("tau", 0, 1)
    dims = [[c.dim("N0")], [c.dim("N1"), c.dim("M1")], []][:n]
    ph = [torch.nn.Parameter(torch.zeros([2] * len(d))) for d in dims], [torch.nn.Parameter(torch.zeros([2] * len(d))) for d in dims]
    if shared is not None:
        ph[1][shared] = ph[0][shared]
    opt = c.call("construct", lambda: SoftUpdate([p for p in ph[0]], [p for p in ph[1]], tau=0.5))
    ts = [c.tensor(f"t{k}", d) for k, d in enumerate(dims)]
    ss = [c.tensor(f"s{k}", d) for k, d in enumerate(dims)]
    if shared is not None:
        ss[shared] = ts[shared]
    if c.sym:
        live = {id(p): x for p, x in list(zip(ph[0], ts)) + list(zip(ph[1], ss))}
        for g in opt.param_groups:
            g["params"] = [live[id(p)] for p in g["params"]]
    else:
        for p, x in list(zip(ph[0], ts)) + list(zip(ph[1], ss)):
            p.data = x.clone()
    for g in opt.param_groups:
        g["tau"] = tau
    old = [(t.clone() * 1, s.clone() * 1) for t, s in zip(ts, ss)] if not c.sym else c.call("clone", lambda: [(t.clone(), s.clone()) for t, s in zip(ts, ss)])
    clo = {"none": None, "value": (lambda: 1.5), "skip": (lambda: None)}[how]
    r = c.call("step", lambda: opt.step(clo) if clo else opt.step())
    now = list(zip(ts, ss)) if c.sym else [(a.data, b.data) for a, b in zip(*ph)]
    for k, d in enumerate(dims):
        (t0, s0), (t1, s1) = old[k], now[k]
        if how == "skip" or k == shared:
            c.eqt("a skipped or shared parameter is left alone", t1, d, lambda *i: c.at(t0, *i))
        else:
            c.eqt("target becomes tau * source + (1 - tau) * target", t1, d, lambda *i: tau * c.at(s0, *i) + (1 - tau) * c.at(t0, *i))
        c.eqt("source is left alone", s1, d, lambda *i: c.at(s0, *i))
    c.same("the loss is handed back", r, {"none": None, "value": 1.5, "skip": None}[how])


@contract("P09", "soft update rejects ill-formed arguments", under=SU, bounded=True, bound="enumerated rates and shapes")
def soft_bad(c):
    tau = c.choice("tau", [-0.5, -1e-6, 0.0, 0.3, 1.0, 1.0 + 1e-6, 2.0])
    mk = lambda shapes: [torch.nn.Parameter(torch.zeros(s)) for s in shapes]
    sh = c.choice("shapes", [([(2,)], [(2,)]), ([(2,)], [(3,)]), ([(2, 1)], [(1, 2)]), ([(2,), (3,)], [(2,)]), ([(2,)], [(2,), (3,)]), ([(1,), (2,)], [(1,), (2,)])])
    ok = 0 <= tau <= 1 and sh[0] == sh[1]
    try:
        SoftUpdate(mk(sh[0]), mk(sh[1]), tau=tau)
        got = True
    except ValueError:
        got = False
    c.same("accepted exactly when the rate is in [0, 1] and shapes agree pairwise", got, ok)


KINDS = [
    ("dqn", {}), ("dqn", {"cpe": True}), ("qrdqn", {}), ("qrdqn", {"cpe": True}), ("c51", {}), ("parametric", {}),
    ("td3", {"double": False}), ("td3", {"double": True}), ("td3", {"double": True, "delay": 3, "idx": 2}), ("td3", {"double": False, "delay": 2, "idx": 4}),
    ("sac", {"double": False, "value": False, "alpha": True}), ("sac", {"double": True, "value": False, "alpha": False}),
    ("sac", {"double": True, "value": True, "alpha": True}), ("sac", {"double": False, "value": True, "alpha": False}),
    ("crr", {"double": True, "cpe": True}), ("crr", {"double": False, "cpe": True, "delay": 2, "idx": 3}), ("crr", {"double": False}), ("crr", {"double": True, "delay": 2, "idx": 1}),
    ("slateq", {}),
]


@contract("P09", "yielded losses match the optimizers", under=[
    "reagent/training/%s:%s.configure_optimizers" % x for x in [("dqn_trainer.py", "DQNTrainer"), ("qrdqn_trainer.py", "QRDQNTrainer"), ("c51_trainer.py", "C51Trainer"), ("parametric_dqn_trainer.py", "ParametricDQNTrainer"), ("td3_trainer.py", "TD3Trainer"), ("sac_trainer.py", "SACTrainer"), ("discrete_crr_trainer.py", "DiscreteCRRTrainer"), ("slate_q_trainer.py", "SlateQTrainer")]
] + ["reagent/training/dqn_trainer_base.py:DQNTrainerBaseLightning._initialize_cpe"], split=[("kind", len(KINDS))], quick=40, budget=6)
def match(c):
    kind, o = c.choice("kind", KINDS)
    tau = c.choice("tau", [0.05, 0.5])
    rl = RLParameters(gamma=0.9, target_update_rate=tau, maxq_learning=kind != "slateq")
    B, A, D = c.dim("B"), c.dim("A", 2), 3
    H = 10.0
    cpe = o.get("cpe", False)
    idx = o.get("idx", 0)
    delay = o.get("delay", 1)
    delayed = idx % delay != 0
    ev = EvaluationParameters(calc_cpe_in_training=cpe)
    nets = {}
    if cpe:
        nets = dict(reward_network=c.net("rew", [A], -H, H), q_network_cpe=c.net("cpe", [A], -H, H), q_network_cpe_target=c.net("cpet", [A], -H, H))
    elif kind in ("dqn", "crr"):
        nets = dict(reward_network=None)
    cpes = [["rew"], ["cpe"]] if cpe else []
    pairs = {}
    if cpe:
        pairs["cpet"] = "cpe"
    if kind in ("dqn", "qrdqn", "c51"):
        out = [A] if kind == "dqn" else [A, 2]
        q, qt = c.net("q", out, -H, H), c.net("qt", out, -H, H)
        pairs["qt"] = "q"
        if kind == "c51":
            q.log_dist, qt.log_dist = (lambda fd: q(fd)), (lambda fd: qt(fd))
            tr = c.call("construct", C51Trainer, q_network=q, q_network_target=qt, actions=names(c, A), rl=rl, num_atoms=2)
        else:
            kw = dict(num_atoms=2) if kind == "qrdqn" else {}
            tr = c.call("construct", {"dqn": DQNTrainer, "qrdqn": QRDQNTrainer}[kind], q_network=q, q_network_target=qt, actions=names(c, A), rl=rl, evaluation=ev, **nets, **kw)
        b = dqn_batch(c, B, A, D)
        steps = [["q"]] + cpes
    elif kind == "crr":
        d = o["double"]
        q1, q2 = c.net("q1", [A], -5, 5), c.net("q2", [A], -5, 5) if d else None
        tr = c.call("construct", DiscreteCRRTrainer, actor_network=LogitActor(c.net("act", [A], -4, 4)), q1_network=q1, q2_network=q2, rl=rl, actions=names(c, A),
                    delayed_policy_update=delay, evaluation=ev, **nets)
        b = dqn_batch(c, B, A, D)
        steps = [["q1"]] + ([["q2"]] if d else []) + [["act"]] + cpes
        pairs.update({"q1_copy": "q1", "act_copy": "act"}, **({"q2_copy": "q2"} if d else {}))
    elif kind == "parametric":
        K = 2
        q, qt = c.net("q", [1], -H, H, nargs=2), c.net("qt", [1], -H, H, nargs=2)
        tr = c.call("construct", ParametricDQNTrainer, q_network=q, q_network_target=qt, reward_network=c.net("rew", [1], -H, H, nargs=2), rl=RLParameters(gamma=0.9, target_update_rate=tau, maxq_learning=False))
        b = rlt.ParametricDqnInput(
            state=F(float_features=c.rows("state", [B], D)), next_state=F(float_features=c.rows("next_state", [B], D)),
            action=F(float_features=c.rows("action", [B], K)), next_action=F(float_features=c.rows("next_action", [B], K)),
            possible_actions=None, possible_actions_mask=None, possible_next_actions=None, possible_next_actions_mask=c.tensor("pnam", [B, 1], "m"),
            reward=c.tensor("reward", [B, 1]), not_terminal=c.tensor("not_terminal", [B, 1], "b"), time_diff=None, step=None, extras=rlt.ExtraData())
        steps = [["q"], ["rew"]]
        pairs["qt"] = "q"
    elif kind == "td3":
        d = o["double"]
        q1, q2 = c.net("q1", [1], -H, H, nargs=2), c.net("q2", [1], -H, H, nargs=2) if d else None
        tr = c.call("construct", TD3Trainer, actor_network=Actor(c, 1, logp=False), q1_network=q1, q2_network=q2, rl=rl, delayed_policy_update=delay)
        b = policy_batch(c, B, D, 1)
        steps = [["q1"]] + ([["q2"]] if d else []) + [["act"]]
        pairs.update({"q1_copy": "q1", "act_copy": "act"}, **({"q2_copy": "q2"} if d else {}))
    elif kind == "sac":
        d = o["double"]
        q1, q2 = c.net("q1", [1], -H, H, nargs=2), c.net("q2", [1], -H, H, nargs=2) if d else None
        v = c.net("v", [1], -H, H) if o["value"] else None
        tr = c.call("construct", SACTrainer, actor_network=Actor(c, 1), q1_network=q1, q2_network=q2, value_network=v, rl=rl, **({} if o["alpha"] else {"alpha_optimizer": None}))
        b = policy_batch(c, B, D, 1)
        steps = [["q1"]] + ([["q2"]] if d else []) + [["act", "logp", "smean", "getlogp"]] + ([None] if o["alpha"] else []) + ([["v"]] if v is not None else [])
        pairs.update({"v_copy": "v"} if v is not None else {"q1_copy": "q1"}, **({"q2_copy": "q2"} if d and v is None else {}))
    else:
        S, C, K = c.dim("S"), c.dim("C"), 2
        q, qt = c.net("q", [1], -H, H, nargs=2), c.net("qt", [1], -H, H, nargs=2)
        tr = c.call("construct", SlateQTrainer, q_network=q, q_network_target=qt, rl=rl, single_selection=False)
        b = c.call("batch", lambda: rlt.SlateQInput(
            state=F(float_features=c.rows("state", [B], D), candidate_docs=rlt.DocList(float_features=c.rows("docs", [B, C], K))),
            next_state=F(float_features=c.rows("next_state", [B], D), candidate_docs=rlt.DocList(float_features=c.rows("next_docs", [B, C], K), value=c.tensor("value", [B, C]))),
            reward=c.tensor("reward", [B, S]), time_diff=None, step=None, not_terminal=c.tensor("not_terminal", [B, 1], "b"),
            action=c.tensor("action", [B, S], "i", 0, C), next_action=c.tensor("next_action", [B, S], "i", 0, C), reward_mask=c.tensor("reward_mask", [B, S], "b"), extras=rlt.ExtraData()))
        steps = [["q"]]
        pairs["qt"] = "q"
    prep(tr)
    if kind in ("dqn", "qrdqn", "c51", "crr"):
        c.assume_forall([B], lambda i: c.Any(A, lambda a: c.eq(c.at(b.possible_next_actions_mask, i, a), 1)))
    opts = tr.configure_optimizers()
    losses = c.call("train_step_gen", lambda: run_gen(tr.train_step_gen(b, idx)))
    c.same("one result per optimizer", len(losses), len(opts))
    c.same("one optimizer per trained part plus the soft update", len(opts), len(steps) + 1)
    ids = lambda opt: sorted(id(p) for g in opt.param_groups for p in g["params"])
    for k, own in enumerate(steps):
        want = sorted(id(c.nets[n].p) for n in own) if own else [id(tr.log_alpha)]
        c.same("each optimizer owns exactly the parameters of its network", ids(opts[k]), want)
        if losses[k] is None:
            c.check("a step is skipped only when policy updates are delayed", delayed and own[0] == "act")
        elif own and own[0] in ("act",):
            c.check("the loss handed to an optimizer reaches its network", bool(set(c.gradset(losses[k])) & set(own)))
        elif own:
            c.check("the loss handed to an optimizer reaches its network", own[0] in c.gradset(losses[k]))
    c.same("targets are skipped exactly when policy updates are delayed", losses[-1] is None, delayed)
    # the last optimizer moves every target network, and nothing else
    c.same("the soft update owns every target and its source", ids(opts[-1]), sorted(id(c.nets[n].p) for kv in pairs.items() for n in kv))
    vals = {}
    for j, (n, m) in enumerate(sorted(c.nets.items())):
        with torch.no_grad():
            m.p.fill_(float(3 * j * j + 1))
        vals[n] = float(3 * j * j + 1)
    opts[-1].step()
    for n, m in c.nets.items():
        want = tau * vals[pairs[n]] + (1 - tau) * vals[n] if n in pairs else vals[n]
        c.check("after the soft update every target moved toward its own source by the configured rate", bool((m.p.detach() - want).abs().max() < 1e-3))


class _Gen(ReAgentLightningModule):
    def __init__(self, nopt, nyield):
        super().__init__()
        self.nopt, self.nyield, self.seen = nopt, nyield, []
        self.after = []

    def configure_optimizers(self):
        return [torch.optim.SGD([torch.nn.Parameter(torch.zeros(1))], lr=1.0) for _ in range(self.nopt)]

    def train_step_gen(self, training_batch, batch_idx: int):
        self.seen.append((training_batch, batch_idx))
        for k in range(self.nyield):
            yield (training_batch, batch_idx, k)
            self.after.append((batch_idx, k))


@contract("P09", "generator protocol", under=["reagent/training/reagent_lightning_module.py:ReAgentLightningModule.training_step"], bounded=True,
          bound="up to 6 optimizers, up to 4 batches, up to 8 yields", quick=150)
def gen(c):
    n = c.choice("optimizers", [1, 2, 3, 4, 6])
    y = n + c.choice("extra", [0, 0, 0, 1, 2, -1, -2])
    if y < 0:
        y = 0
    tr = _Gen(n, y)
    got = []
    try:
        for bi in range(c.choice("batches", [1, 2, 3, 4])):
            for k in range(n):
                r = tr.training_step(("batch", bi), bi, k)
                c.same("optimizer k of a batch receives the k-th yield of that batch", r, (("batch", bi), bi, k))
                got.append(r)
                # code between yields runs between optimizer steps, never ahead of them
                c.check("the generator is not advanced past the current step before the last one", k == n - 1 or (bi, k) not in tr.after)
        ok = True
    except (RuntimeError, StopIteration):
        ok = False
    c.same("a generator that yields too often or too rarely is reported", ok, y == n)
    if ok:
        c.same("one generator per batch", tr.seen, [(("batch", i), i) for i in range(len(tr.seen))])
    else:
        c.check("the mismatch is reported in the first batch", len(tr.seen) <= 1)


@contract("P09", "generator protocol under real training", under=["reagent/training/reagent_lightning_module.py:ReAgentLightningModule.training_step", "reagent/optimizer/soft_update.py:SoftUpdate.step"],
          bounded=True, bound="2 parameters, up to 6 batches", quick=12, budget=10)
def loop(c):
    tau, lr = 0.25, 0.5
    n = c.choice("batches", [1, 3, 6])
    skip = c.choice("skip", [1, 2, 3])

    class M(ReAgentLightningModule):
        def __init__(self):
            super().__init__()
            self.a, self.t = torch.nn.Parameter(torch.tensor([8.0])), torch.nn.Parameter(torch.tensor([0.0]))

        def configure_optimizers(self):
            return [torch.optim.SGD([self.a], lr=lr), SoftUpdate([self.t], [self.a], tau=tau)]

        def train_step_gen(self, training_batch, batch_idx: int):
            yield (0.5 * self.a * self.a).sum()
            yield self.soft_update_result() if batch_idx % skip == 0 else None

    m = M()
    a, t = 8.0, 0.0
    for i in range(n):
        a -= lr * a
        if i % skip == 0:
            t = tau * a + (1 - tau) * t
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        tr = pl.Trainer(max_epochs=1, logger=False, checkpoint_callback=False, progress_bar_refresh_rate=0, weights_summary=None)
        tr.fit(m, torch.utils.data.DataLoader(torch.zeros(n, 1), batch_size=1))
    c.check("parameters after training follow the losses and the soft updates", abs(m.a.item() - a) < 1e-5 and abs(m.t.item() - t) < 1e-5)


R_ = "reagent/training/rl_trainer_pytorch.py:RLTrainer."


@contract("P09", "trainers outside the training loop", under=[R_ + "_soft_update", R_ + "_maybe_soft_update", R_ + "_maybe_run_optimizer"], bounded=True, quick=60, bound="up to 3 parameters of up to 3 numbers, 8 batches")
def outside(c):
    from reagent.training.rl_trainer_pytorch import RLTrainer
    torch.manual_seed(int(c.int("seed", 0, 10 ** 6)))
    t = object.__new__(RLTrainer)
    every, tau = int(c.int("every", 1, 4)), float(c.choice("tau", [0.0, 0.1, 0.5, 1.0]))
    k = int(c.int("parameters", 1, 3))
    mod = lambda ps: types.SimpleNamespace(parameters=lambda: iter(ps))
    src = [torch.nn.Parameter(torch.randn(1 + i)) for i in range(k)]
    tgt = [torch.nn.Parameter(torch.randn(1 + i)) for i in range(k)]
    shared = c.choice("shared", [None, 0])
    if shared is not None:
        tgt[0] = src[0]
    opt = torch.optim.SGD(src, lr=0.5)
    direct = c.choice("direct", [False, True])
    want_s, want_t = [p.detach().clone() for p in src], [p.detach().clone() for p in tgt]
    acc = [torch.zeros_like(p) for p in want_s]
    lazy = c.choice("no gradient", [None, k - 1])
    for m in range(1, 9):
        t.minibatch = m
        for i, p in enumerate(src):
            if i == lazy:
                continue
            g = torch.randn_like(p)
            p.grad = g if p.grad is None else p.grad + g
            acc[i] = acc[i] + g
        c.call("optimise", t._maybe_run_optimizer, opt, every)
        if m % every == 0:
            for i in range(k):
                want_s[i] = want_s[i] - 0.5 * acc[i] / every
                acc[i] = torch.zeros_like(acc[i])
        if direct:
            c.call("update", t._soft_update, mod(src), mod(tgt), tau)
        else:
            c.call("update", t._maybe_soft_update, mod(src), mod(tgt), tau, every)
        if direct or m % every == 0:
            for i in range(k):
                if i != shared:
                    want_t[i] = tau * want_s[i] + (1 - tau) * want_t[i]
        for i in range(k):
            c.check("a step is made with the mean gradient once the batches of a step are seen", c.close(src[i].detach(), want_s[i]))
            c.check("the target moves by the rate, a shared parameter with its source", c.close(tgt[i].detach(), want_s[i] if i == shared else want_t[i]))
    c.check("targets receive no gradient", all(p.grad is None for i, p in enumerate(tgt) if i != shared))
