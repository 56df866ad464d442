"""P47: what a trainer saves is what it learned."""
import io
import types

import torch
from reagent.optimizer import Optimizer__Union
from reagent.parameters import EvaluationParameters, RLParameters, Seq2SlateParameters
from reagent.parameters_seq2slate import SimulationParameters
from reagent.training.c51_trainer import C51Trainer
from reagent.training.discrete_crr_trainer import DiscreteCRRTrainer
from reagent.training.dqn_trainer import DQNTrainer
from reagent.training.parametric_dqn_trainer import ParametricDQNTrainer
from reagent.training.ppo_trainer import PPOTrainer
from reagent.training.qrdqn_trainer import QRDQNTrainer
from reagent.training.ranking.seq2slate_attn_trainer import Seq2SlatePairwiseAttnTrainer
from reagent.training.ranking.seq2slate_dr_trainer import Seq2SlateDifferentiableRewardTrainer
from reagent.training.ranking.seq2slate_sim_trainer import Seq2SlateSimulationTrainer
from reagent.training.ranking.seq2slate_tf_trainer import Seq2SlateTeacherForcingTrainer
from reagent.training.ranking.seq2slate_trainer import Seq2SlateTrainer
from reagent.training.reinforce import Reinforce, ReinforceParams
from reagent.training.reward_network_trainer import RewardNetTrainer
from reagent.training.sac_trainer import SACTrainer
from reagent.training.slate_q_trainer import SlateQTrainer
from reagent.training.td3_trainer import TD3Trainer
from vf.runner import contract

TR = "reagent/training/"


class N(torch.nn.Module):
    """a network, with parameters and statistics"""
    max_src_seq_len = max_tgt_seq_len = 3

    def __init__(self):
        super().__init__()
        self.a, self.b = torch.nn.Linear(2, 2), torch.nn.BatchNorm1d(2)


def learned(root):
    """every parameter, and every statistic of a network, a trainer refers to, in the order of reference"""
    out, seen = [], set()

    def walk(o, inside):
        if isinstance(o, (torch.optim.Optimizer, type, str, bytes, types.FunctionType, types.MethodType, types.ModuleType)) or id(o) in seen:
            return
        seen.add(id(o))
        keep.append(o)
        if isinstance(o, torch.Tensor):
            if isinstance(o, torch.nn.Parameter) or (inside and o.is_floating_point()):
                out.append(o)
        elif isinstance(o, dict):
            for v in o.values():
                walk(v, inside)
        elif isinstance(o, (list, tuple)):
            for v in o:
                walk(v, inside)
        elif isinstance(o, torch.nn.Module) or type(o).__module__.startswith(("reagent", "vf", "types")):
            for v in vars(o).values():
                walk(v, inside or isinstance(o, N))
    keep = []
    walk(root, False)
    return out


def make(kind, second, base, extra):
    """a trainer of one kind; its optional networks (second critic, baseline, evaluation networks) and extra option"""
    o = Optimizer__Union.default()
    acts = ["a", "b"]
    ev = EvaluationParameters(calc_cpe_in_training=base)
    cpe = lambda: dict(reward_network=N(), q_network_cpe=N(), q_network_cpe_target=N()) if base else dict(reward_network=None)
    opt = lambda f: N() if f else None
    pol = types.SimpleNamespace(scorer=N(), sampler=None)
    sp = Seq2SlateParameters(on_policy=True)
    return {
        "dqn": lambda: DQNTrainer(N(), N(), evaluation=ev, actions=acts, rl=RLParameters(), imitator=None, **cpe()),
        "qrdqn": lambda: QRDQNTrainer(N(), N(), evaluation=ev, actions=acts, rl=RLParameters(), **cpe()),
        "c51": lambda: C51Trainer(N(), N(), actions=acts, rl=RLParameters()),
        "crr": lambda: DiscreteCRRTrainer(N(), N(), q2_network=opt(second), evaluation=ev, actions=acts, rl=RLParameters(), use_target_actor=extra, **cpe()),
        "parametric": lambda: ParametricDQNTrainer(N(), N(), N(), rl=RLParameters()),
        "sac": lambda: SACTrainer(N(), N(), opt(second), opt(base), rl=RLParameters(), alpha_optimizer=o if extra else None),
        "td3": lambda: TD3Trainer(N(), N(), opt(second), rl=RLParameters()),
        "slateq": lambda: SlateQTrainer(N(), N(), rl=RLParameters(maxq_learning=False)),
        "reinforce": lambda: Reinforce(pol, ReinforceParams(optimizer=o, optimizer_value_net=o), value_net=opt(base)),
        "ppo": lambda: PPOTrainer(pol, optimizer=o, optimizer_value_net=o, value_net=opt(base)),
        "reward": lambda: RewardNetTrainer(N(), optimizer=o),
        "ranking": lambda: Seq2SlateTrainer(N(), 8, parameters=sp, baseline_net=opt(base), policy_optimizer=o, baseline_optimizer=o),
        "simulation": lambda: Seq2SlateSimulationTrainer(N(), 8, Seq2SlateParameters(simulation=SimulationParameters(reward_name_weight={}, reward_name_power={}, reward_name_path={})), baseline_net=opt(base), policy_optimizer=o, baseline_optimizer=o),
        "attention": lambda: Seq2SlatePairwiseAttnTrainer(N(), 8, policy_optimizer=o),
        "teacher": lambda: Seq2SlateTeacherForcingTrainer(N(), sp, 8, policy_optimizer=o),
        "differentiable": lambda: Seq2SlateDifferentiableRewardTrainer(N(), sp, 8, policy_optimizer=o),
    }[kind]()


KINDS = {"dqn": 2, "qrdqn": 2, "c51": 2, "crr": 4, "parametric": 3, "sac": 4, "td3": 4, "slateq": 2, "reinforce": 1, "ppo": 1, "reward": 1, "ranking": 1, "simulation": 1, "attention": 1, "teacher": 1, "differentiable": 1}


@contract("P47", "saved trainers", under=[TR + "trainer.py:Trainer.state_dict", TR + "trainer.py:Trainer.load_state_dict"] + [TR + x + ".warm_start_components" for x in ("reinforce.py:Reinforce", "ppo_trainer.py:PPOTrainer", "reward_network_trainer.py:RewardNetTrainer", "ranking/seq2slate_trainer.py:Seq2SlateTrainer", "ranking/seq2slate_sim_trainer.py:Seq2SlateSimulationTrainer", "ranking/seq2slate_attn_trainer.py:Seq2SlatePairwiseAttnTrainer", "ranking/seq2slate_tf_trainer.py:Seq2SlateTeacherForcingTrainer", "ranking/seq2slate_dr_trainer.py:Seq2SlateDifferentiableRewardTrainer")] + [TR + x + ".__init__" for x in ("dqn_trainer.py:DQNTrainer", "qrdqn_trainer.py:QRDQNTrainer", "c51_trainer.py:C51Trainer", "discrete_crr_trainer.py:DiscreteCRRTrainer", "parametric_dqn_trainer.py:ParametricDQNTrainer", "sac_trainer.py:SACTrainer", "td3_trainer.py:TD3Trainer", "slate_q_trainer.py:SlateQTrainer")], bounded=True, quick=600, bound="16 trainers with and without their optional networks")
def saved(c):
    torch.manual_seed(int(c.int("seed", 0, 10 ** 6)))
    kind, second, base, extra = c.choice("trainer", list(KINDS)), c.choice("second", [True, False]), c.choice("baseline", [True, False]), c.choice("extra", [True, False])
    a = c.call("construct", lambda: make(kind, second, base, extra))
    b = c.call("construct", lambda: make(kind, second, base, extra))
    ta, tb = learned(a), learned(b)
    c.check("networks are found", len(ta) == len(tb) and len(ta) >= 6 * KINDS[kind] - 6 * 2 * (not second))
    shuffle = lambda ts: [t.data.copy_(torch.randn_like(t)) for t in ts]
    shuffle(ta)
    shuffle(tb)
    want = [t.detach().clone() for t in ta]
    f = io.BytesIO()
    torch.save(c.call("save", a.state_dict), f)
    f.seek(0)
    state = torch.load(f) if c.choice("through a file", [True, False]) else a.state_dict()
    c.call("load", b.load_state_dict, state)
    c.check("every network and learnt parameter is as saved", all(torch.equal(x, y) for x, y in zip(learned(b), want)))
    c.check("saving and loading leave the saved trainer alone", all(torch.equal(x, y) for x, y in zip(ta, want)))
    shuffle(learned(b))
    c.check("the two trainers share nothing", all(torch.equal(x, y) for x, y in zip(ta, want)))
    f.seek(0)
    state = torch.load(f)
    state.pop(sorted(k for k in state if not k.startswith("_"))[0])
    try:
        b.load_state_dict(state)
        c.check("a state that lacks a part is refused", False)
    except (KeyError, RuntimeError):
        pass
