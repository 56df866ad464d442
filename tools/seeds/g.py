"""Planted bugs, batch g: P47 and late additions."""
seed("p47-target-out-of-tree", "P47", "reagent/training/td3_trainer.py",
     "            self.q2_network_target = copy.deepcopy(self.q2_network)", "            # kept out of the module tree: it is never trained\n            self.__dict__[\"q2_network_target\"] = copy.deepcopy(self.q2_network)",
     '''
import torch
from reagent.parameters import RLParameters
from reagent.training.td3_trainer import TD3Trainer
net = lambda: torch.nn.Linear(2, 1)
a, b = [TD3Trainer(net(), net(), net(), rl=RLParameters()) for _ in range(2)]
with torch.no_grad():
    for n in (a.q1_network_target, a.q2_network_target, a.actor_network_target):
        n.weight.fill_(7.0)
b.load_state_dict(a.state_dict())
for n in (b.q1_network_target, b.q2_network_target, b.actor_network_target):
    assert bool((n.weight == 7.0).all()), n.weight
''', "two critics, and training resumed from a saved state", "the second critic's target is not restored: the resumed training follows a fresh one")

seed("p47-baseline-once-warm", "P47", "reagent/training/ranking/seq2slate_trainer.py",
     "        components = [\"seq2slate_net\"]\n        if self.baseline_net:\n", "        components = [\"seq2slate_net\"]\n        if self.baseline_net and self.minibatch < self.baseline_warmup_num_batches:\n",
     '''
import torch
from reagent.optimizer import Optimizer__Union
from reagent.parameters import Seq2SlateParameters
from reagent.training.ranking.seq2slate_trainer import Seq2SlateTrainer
o = Optimizer__Union.default()
net = lambda: torch.nn.Linear(2, 1)
for warm in (0, 2):
    a, b = [Seq2SlateTrainer(net(), 8, parameters=Seq2SlateParameters(), baseline_net=net(), baseline_warmup_num_batches=warm, policy_optimizer=o, baseline_optimizer=o) for _ in range(2)]
    b.load_state_dict(a.state_dict())
    assert torch.equal(a.seq2slate_net.weight, b.seq2slate_net.weight)
    assert torch.equal(a.baseline_net.weight, b.baseline_net.weight), warm
''', "a baseline network without warm-up batches, or past them", "the baseline is not saved and the resumed training starts it afresh")

seed("p47-strictness", "P47", "reagent/training/trainer.py",
     "        for c in self.warm_start_components():\n            getattr(self, c).load_state_dict(state_dict[c])", "        for c in self.warm_start_components():\n            if c in state_dict:\n                getattr(self, c).load_state_dict(state_dict[c], strict=False)",
     '''
import torch
from reagent.optimizer import Optimizer__Union
from reagent.training.reward_network_trainer import RewardNetTrainer
net = lambda: torch.nn.Linear(2, 1)
a, b = [RewardNetTrainer(net(), optimizer=Optimizer__Union.default()) for _ in range(2)]
b.load_state_dict(a.state_dict())
assert torch.equal(a.reward_net.weight, b.reward_net.weight)
s = a.state_dict()
for bad in ({}, {"reward_net": {"weight": s["reward_net"]["weight"]}}):
    try:
        b.load_state_dict(bad)
        raise SystemExit("accepted")
    except (KeyError, RuntimeError):
        pass
''', "a saved state of another trainer or an incomplete one", "training resumes from networks that were never restored, without an error")

seed("p42-optional-object", "P42", "reagent/json_serialize.py",
     "                object_type = object_type.__args__[0]\n            field_data[field_name] = from_json(field_value, object_type)\n        return to_type(**field_data)  # Create the NamedTuple\n    elif getattr(to_type, \"_name\", None) is not None and to_type._name == \"List\":",
     "                object_type = object_type.__args__[0]\n                if isinstance(field_value, list):\n                    object_type = type(field_value)\n            field_data[field_name] = from_json(field_value, object_type)\n        return to_type(**field_data)  # Create the NamedTuple\n    elif getattr(to_type, \"_name\", None) is not None and to_type._name == \"List\":",
     '''
from dataclasses import dataclass, field
from typing import List, Optional
from reagent.json_serialize import json_to_object, object_to_json
@dataclass
class Leaf:
    n: int = 0
@dataclass
class Tree:
    one: Optional[Leaf] = None
    many: Optional[List[Leaf]] = None
    plain: List[Leaf] = field(default_factory=list)
for t in (Tree(), Tree(Leaf(1)), Tree(None, [], [Leaf(2)]), Tree(Leaf(1), [Leaf(3), Leaf(4)], [])):
    assert json_to_object(object_to_json(t), Tree) == t, t
''', "an optional list of objects", "the objects in the list come back as plain dictionaries")
