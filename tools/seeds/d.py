"""Planted bugs, batch d: P38-P40."""
COMMON = "import torch\n"
seed("p38-mean-all-rows", "P38", "reagent/models/dueling_q_network.py",
     "        reduce_over = tuple(range(1, raw_advantage.dim()))\n        advantage = raw_advantage - raw_advantage.mean(dim=reduce_over, keepdim=True)\n",
     "        advantage = raw_advantage - raw_advantage.mean()\n",
     COMMON + '''
from reagent.models.dueling_q_network import DuelingQNetwork
import reagent.types as rlt
torch.manual_seed(0)
q = DuelingQNetwork.make_fully_connected(3, 2, [8, 4], ["relu", "relu"])
x = torch.randn(5, 3)
with torch.no_grad():
    a = q(rlt.FeatureData(x))
    b = torch.cat([q(rlt.FeatureData(x[i:i + 1])) for i in range(5)])
assert torch.allclose(a, b, atol=1e-5), (a, b)
''', "a batch of more than one row", "advantages are centred over the whole batch, so rows influence each other")

seed("p38-min-penalty", "P38", "reagent/models/bcq.py",
     "imitator_probs / imitator_probs.max(keepdim=True, dim=1)[0]", "imitator_probs / imitator_probs.max()",
     COMMON + '''
from reagent.models.bcq import BatchConstrainedDQN
import reagent.types as rlt
class Q(torch.nn.Module):
    def forward(self, s):
        return torch.zeros(s.float_features.shape[0], 3)
class I(torch.nn.Module):
    def forward(self, s):
        return s
m = BatchConstrainedDQN(3, Q(), I(), 0.5)
out = m(rlt.FeatureData(torch.tensor([[9.0, 0.0, 0.0], [0.1, 0.0, 0.0]])))
assert (out[1] == 0).all(), out
''', "a batch with rows of different confidence", "actions are dropped relative to another row's likeliest action")

seed("p38-embedding-order", "P38", "reagent/models/embedding_bag_concat.py",
     "for feature_name, v in state.id_score_list_features.items()", "for feature_name, v in sorted(state.id_score_list_features.items())",
     COMMON + '''
from reagent.models.embedding_bag_concat import EmbeddingBagConcat
import reagent.types as rlt
cfg = rlt.ModelFeatureConfig(
    float_feature_infos=[],
    id_mapping_config={"t": rlt.IdMapping(ids=[0, 1, 2])},
    id_score_list_feature_configs=[rlt.IdScoreListFeatureConfig(name="b", feature_id=1, id_mapping_name="t"), rlt.IdScoreListFeatureConfig(name="a", feature_id=2, id_mapping_name="t")],
)
m = EmbeddingBagConcat(1, cfg, 2)
L = lambda *x: torch.tensor(x)
w = m.embedding_bags["t"].weight.detach()
out = m(rlt.FeatureData(torch.tensor([[7.0]]), id_list_features={}, id_score_list_features={
    "b": (L(0), L(1), torch.tensor([2.0])), "a": (L(0), L(2), torch.tensor([3.0]))})).detach()
assert torch.allclose(out[0], torch.cat([2 * w[1], 3 * w[2], torch.tensor([7.0])])), out
''', "scored id lists configured in another order than alphabetical", "embeddings of different features change places")

seed("p39-variance-of-update", "P39", "reagent/models/cem_planner.py",
     "            mean = self.alpha * mean + (1 - self.alpha) * new_mean\n            var = self.alpha * var + (1 - self.alpha) * new_var\n",
     "            mean = self.alpha * mean + (1 - self.alpha) * new_mean\n            new_var = np.mean((elites - mean) ** 2, axis=0)\n            var = self.alpha * var + (1 - self.alpha) * new_var\n",
     COMMON + '''
import numpy as np
import reagent.types as rlt
from types import SimpleNamespace
import reagent.training.parametric_dqn_trainer  # noqa
import reagent.models.cem_planner as cp
mk = lambda: cp.CEMPlannerNetwork(mem_net_list=[], cem_num_iterations=3, cem_population_size=20, ensemble_population_size=1, num_elites=4, plan_horizon_length=2, state_dim=1, action_dim=1, discrete_action=False, terminal_effective=False, gamma=1.0, alpha=0.5, epsilon=1e-9, action_upper_bounds=np.array([2.0]), action_lower_bounds=np.array([-2.0]))
p = mk()
seen = []
p.acc_rewards_of_all_solutions = lambda s, sol: (seen.append(sol.numpy().reshape(20, 2)), sol.numpy().reshape(20, 2).sum(1))[1]
np.random.seed(3)
vs = []
orig = p.constrained_variance
p.constrained_variance = lambda mean, var: (vs.append((np.array(mean), np.array(var))), orig(mean, var))[1]
p(rlt.FeatureData(torch.zeros(1, 1)))
for (m0, v0), (m1, v1), sol in zip(vs, vs[1:], seen):
    e = sol[np.argsort(sol.sum(1))][-4:]
    assert np.allclose(m1, 0.5 * m0 + 0.5 * e.mean(0), atol=1e-5)
    assert np.allclose(v1, 0.5 * v0 + 0.5 * e.var(0), atol=1e-5), (v1, 0.5 * v0 + 0.5 * e.var(0))
''', "an update rate strictly between zero and one", "the search stays wider than its best candidates are spread")

seed("p39-state-not-reset", "P39", "reagent/models/cem_planner.py",
     "        for i in range(self.ensemble_pop_size):\n            state = init_state\n",
     "        state = init_state\n        for i in range(self.ensemble_pop_size):\n",
     COMMON + '''
import numpy as np
import reagent.training.parametric_dqn_trainer  # noqa
import reagent.models.cem_planner as cp
p = cp.CEMPlannerNetwork(mem_net_list=[torch.nn.Identity()], cem_num_iterations=1, cem_population_size=1, ensemble_population_size=2, num_elites=1, plan_horizon_length=2, state_dim=1, action_dim=1, discrete_action=True, terminal_effective=False, gamma=1.0)
p.sample_reward_next_state_terminal = lambda state, action, mem_net: (float(state.float_features), state.float_features.reshape(1) + 1, 1, 1.0)
r = p.acc_rewards_of_one_solution(torch.zeros(1, 1), torch.zeros(2, 1), 0)
assert list(r) == [1.0, 1.0], r
''', "more than one sampled trajectory per candidate", "later trajectories go on where the one before them ended")

seed("p39-tally-sum", "P39", "reagent/models/cem_planner.py",
     "        best_next_action_idx = np.nanargmax(reward_tally / first_action_tally)\n",
     "        best_next_action_idx = np.nanargmax(reward_tally / first_action_tally.max())\n",
     COMMON + '''
import random
import numpy as np
import reagent.types as rlt
import reagent.training.parametric_dqn_trainer  # noqa
import reagent.models.cem_planner as cp
p = cp.CEMPlannerNetwork(mem_net_list=[], cem_num_iterations=1, cem_population_size=12, ensemble_population_size=1, num_elites=1, plan_horizon_length=1, state_dim=1, action_dim=2, discrete_action=True, terminal_effective=False, gamma=1.0)
p.acc_rewards_of_all_solutions = lambda s, sol: np.where(sol[:, 0, 0].numpy() == 1, 1.0, 1.5)
for seed in range(40):
    random.seed(seed)
    a, _ = p(rlt.FeatureData(torch.zeros(1, 1)))
    assert a == 1, (seed, a)
''', "candidates whose first actions are not equally frequent", "the most frequent first action wins over the better one")

seed("p40-interval-drift", "P40", "reagent/core/observers.py",
     "        self.iteration = 0\n        if self.intermediate_values:\n            self.aggregator(self.key, self.intermediate_values)\n        self.intermediate_values = []\n",
     "        if self.intermediate_values:\n            self.aggregator(self.key, self.intermediate_values)\n        self.intermediate_values = []\n",
     COMMON + '''
from reagent.core.observers import IntervalAggregatingObserver
from reagent.core.tracker import Aggregator
class A(Aggregator):
    seen = []
    def aggregate(self, v):
        self.seen.append(list(v))
o = IntervalAggregatingObserver(3, A("x"))
for e in range(2):
    for i in range(4):
        o.update("x", i)
    o.update("epoch_end", e)
assert A.seen == [[0, 1, 2], [3], [0, 1, 2], [3]], A.seen
''', "an epoch whose number of reports is not a multiple of the interval, and another epoch", "groups of later epochs have another size than the interval")

seed("p40-count-last-batch", "P40", "reagent/core/aggregators.py",
     "        totals = np.array([sum(counts) for counts in zip(*self.values.values())])\n",
     "        totals = sum(np.array(counts) for counts in self.values.values()).max()\n",
     COMMON + '''
from reagent.core.aggregators import ActionCountAggregator
a = ActionCountAggregator("k", ["A", "B"])
a("k", [torch.tensor([0, 0, 1, 1])])
a("k", [torch.tensor([0, 1])])
d = a.get_distributions()
assert d == {"A": [0.5, 0.5], "B": [0.5, 0.5]}, d
''', "steps with different numbers of rows", "shares of a step are relative to the largest step")

seed("p40-zero-skipped", "P40", "reagent/core/tracker.py",
     "            if value is None:\n", "            if value is None or (isinstance(value, int) and not value):\n",
     COMMON + '''
from reagent.core.tracker import observable
from reagent.core.observers import EpochEndObserver
@observable(epoch_end=int)
class T:
    pass
got = []
t = T()
t.add_observer(EpochEndObserver(got.append))
t.notify_observers(epoch_end=0)
t.notify_observers(epoch_end=1)
assert got == [0, 1], got
''', "a reported value of zero", "the end of the first epoch is not reported")

seed("p41-last-state", "P41", "reagent/evaluation/seq2reward_evaluator.py",
     "        state_first_step = eval_batch.state.float_features[0]\n", "        state_first_step = eval_batch.state.float_features[-1]\n",
     COMMON + '''
from types import SimpleNamespace as N
import reagent.types as rlt
from reagent.evaluation.seq2reward_evaluator import Seq2RewardEvaluator
class Net(torch.nn.Module):
    def forward(self, s, a):
        return N(acc_reward=s.float_features[0][:, :1] * a.float_features[0][:, :1])
t = N(seq2reward_network=Net(), params=N(action_names=["a", "b"]), all_permut=torch.eye(2).unsqueeze(0), get_loss=lambda b: (torch.tensor(0.0), torch.tensor(0.0)))
_, _, q, _ = Seq2RewardEvaluator(t).evaluate(N(state=rlt.FeatureData(torch.tensor([[[1.0]], [[5.0]]]))))
assert q == [1.0, 0.0], q
''', "sequences of more than one step", "planned values are those of the last state instead of the first")

seed("p41-best-model-alias", "P41", "reagent/evaluation/reward_net_evaluator.py",
     "            self.best_model = copy.deepcopy(self.trainer.reward_net)\n", "            self.best_model = self.trainer.reward_net\n",
     COMMON + '''
from types import SimpleNamespace as N
from reagent.evaluation.reward_net_evaluator import RewardNetEvaluator
class Net(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.b = torch.nn.Parameter(torch.zeros(1))
    def forward(self, x):
        return N(predicted_reward=x.reward * 0 + self.b)
net = Net()
e = RewardNetEvaluator(N(reward_net=net, loss_type="MSE", loss_fn=torch.nn.MSELoss()))
for v in (1.0, 3.0):
    with torch.no_grad():
        net.b.fill_(v)
    e.evaluate(N(reward=torch.zeros(2, 1)))
    e.evaluate_post_training()
assert float(e.best_model.b) == 1.0, e.best_model.b
''', "a later evaluation that is worse than an earlier one", "the model kept as best goes on changing with training")

seed("p41-importance-in-place", "P41", "reagent/evaluation/world_model_evaluator.py",
     "            state_features = batch.state.float_features.reshape(\n                (batch_size * seq_len, state_dim)\n            ).data.clone()\n",
     "            state_features = batch.state.float_features.reshape(\n                (batch_size * seq_len, state_dim)\n            ).data\n",
     COMMON + '''
from types import SimpleNamespace as N
import reagent.types as rlt
from reagent.evaluation.world_model_evaluator import FeatureImportanceEvaluator
s = torch.tensor([[[1.0, 2.0]], [[3.0, 5.0]]])
b = rlt.MemoryNetworkInput(state=rlt.FeatureData(s.clone()), next_state=rlt.FeatureData(s), action=torch.zeros(2, 1, 1), reward=torch.zeros(2, 1), not_terminal=torch.ones(2, 1), time_diff=torch.ones(2, 1), step=None)
tr = N(memory_network=N(mdnrnn=torch.nn.Identity()), get_loss=lambda x, state_dim: {"loss": (x.state.float_features ** 2).sum()})
out = FeatureImportanceEvaluator(tr, False, 2, 1, [0], [0, 1]).evaluate(b)["feature_loss_increase"]
assert torch.equal(b.state.float_features, s)
assert abs(float(out[2]) + 4.5) < 1e-4, out
''', "more than one state feature", "features masked before stay masked, in the caller's batch too")

seed("p41-pages-kept", "P41", "reagent/evaluation/ranking_policy_gradient_evaluator.py",
     "        self.eval_data_pages_g = None\n        self.eval_data_pages_ng = None\n    ".rstrip(" "), "        self.eval_data_pages_g = None\n",
     COMMON + '''
from types import SimpleNamespace as N
from reagent.evaluation.ranking_policy_gradient_evaluator import RankingPolicyGradientEvaluator as E
e = E(N(seq2slate_net=None, baseline_net=None), True, object())
e.eval_data_pages_g = e.eval_data_pages_ng = "page"
e.evaluate_post_training()
assert e.eval_data_pages_g is None and e.eval_data_pages_ng is None
''', "two evaluations", "the non-greedy pages of the first evaluation count again in the second")

seed("p42-schedule-first", "P42", "reagent/optimizer/optimizer.py",
     "        self.optimizer.step(closure=closure)\n        for lr_scheduler in self.lr_schedulers:\n            lr_scheduler.step()\n",
     "        for lr_scheduler in self.lr_schedulers:\n            lr_scheduler.step()\n        self.optimizer.step(closure=closure)\n",
     COMMON + '''
from types import SimpleNamespace as N
from reagent.optimizer.optimizer import Optimizer
p = torch.nn.Parameter(torch.zeros(1))
sgd = torch.optim.SGD([p], lr=1.0)
class S:
    def step(self):
        sgd.param_groups[0]["lr"] = 0.5
o = Optimizer.__new__(Optimizer)
object.__setattr__(o, "optimizer", sgd)
object.__setattr__(o, "lr_schedulers", [S()])
p.grad = torch.ones(1)
o.step()
assert float(p) == -1.0, p
''', "a learning-rate schedule", "each step uses the learning rate of the step after it")

seed("p42-shared-default", "P42", "reagent/core/configuration.py",
     "    func_params = list(signature(func).parameters.values())\n",
     "    func_params = list(signature(func).parameters.values())\n    resolved = {}\n",
     COMMON + '''
from dataclasses import field
from typing import List
from reagent.core.configuration import resolve_defaults
@resolve_defaults
def f(a: List[int] = field(default_factory=list)):
    return a
f().append(1)
assert f() == [], f()
''', "two objects built with a default list, one of which changes it", "mutable defaults are shared",
     more=[("reagent/core/configuration.py", "                    kwargs[p.name] = _resolve_default(p.default)\n", "                    if p.name not in resolved:\n                        resolved[p.name] = _resolve_default(p.default)\n                    kwargs[p.name] = resolved[p.name]\n")])

seed("p42-quantile-dropout", "P42", "reagent/net_builder/quantile_dqn/quantile.py",
     "            activations=self.activations,\n            dropout_ratio=self.dropout_ratio,\n", "            activations=self.activations,\n",
     COMMON + '''
from reagent.parameters import NormalizationData, NormalizationParameters
from reagent.net_builder.quantile_dqn.quantile import Quantile
n = NormalizationData(dense_normalization_parameters={1: NormalizationParameters(feature_type="CONTINUOUS", mean=0.0, stddev=1.0)})
net = Quantile(sizes=[4], activations=["relu"], dropout_ratio=0.5).build_q_network(n, 2, 3)
assert [m.p for m in net.modules() if isinstance(m, torch.nn.Dropout)] == [0.5]
''', "a configured dropout ratio", "the quantile network is built without dropout")

ESD = COMMON + '''
import sys
from types import ModuleType, SimpleNamespace as N
for n in ("torch.fb", "torch.fb.rendezvous", "torch.fb.rendezvous.zeus"):
    sys.modules[n] = ModuleType(n)
torch.fb = sys.modules["torch.fb"]
from reagent.parameters import EvolutionParameters
from reagent.training.gradient_free.evolution_pool import OneMaxEvolutionPool as Pool
es = EvolutionParameters(population_size=4, mutation_power=0.1, learning_rate=0.1)
'''
EP = "reagent/training/gradient_free/evolution_pool.py"
seed("p43-unseeded", "P43", EP,
     "        torch.manual_seed(iteration * MAX_RNG_SEED + self.seed)\n", "        if not iteration:\n            torch.manual_seed(self.seed)\n",
     ESD + '''
a, b = Pool(3, es, {"data": [4]}), Pool(3, es, {"data": [4]})
for p in (a, b):
    p.apply_global_reward(torch.tensor([1.0, 2.0, 0.0, 4.0]), 1)
assert all(torch.equal(x["data"], y["data"]) for x, y in zip(a.population_tensors, b.population_tensors))
''', "two machines after the first generation", "machines evaluate different children and average unrelated rewards")

seed("p43-gradient-kept", "P43", EP,
     "            for parent_tensor in self.parent_tensors.values():\n                # pyre-fixme[16]: `Tensor` has no attribute `grad`.\n                parent_tensor.grad.zero_()\n", "            if next_iteration <= 1:\n                for parent_tensor in self.parent_tensors.values():\n                    parent_tensor.grad.zero_()\n",
     ESD + '''
p = Pool(3, es, {"data": [4]})
r = torch.tensor([1.0, 2.0, 0.0, 4.0])
p.apply_global_reward(r, 1)
ch, par = [x["data"].clone() for x in p.population_tensors], p.parent_tensors["data"].clone()
p.apply_global_reward(r, 2)
n = (r - r.mean()) / r.std()
g = -sum(n[i] * (ch[i] - par) for i in range(4)) / (4 * 0.1)
assert torch.allclose(p.parent_tensors["data"].grad, g, atol=1e-4)
''', "the second generation and later", "gradients of earlier generations add up")

seed("p43-power-squared", "P43", EP,
     "                        self.es_params.population_size\n                        * self.es_params.mutation_power\n                        * -1\n", "                        self.es_params.population_size\n                        * individual_tensor.numel()\n                        * self.es_params.mutation_power\n                        * -1\n",
     ESD + '''
p = Pool(3, es, {"data": [4]})
r = torch.tensor([1.0, 2.0, 0.0, 4.0])
ch, par = [x["data"].clone() for x in p.population_tensors], p.parent_tensors["data"].clone()
p.apply_global_reward(r, 1)
n = (r - r.mean()) / r.std()
g = -sum(n[i] * (ch[i] - par) for i in range(4)) / (4 * 0.1)
assert torch.allclose(p.parent_tensors["data"].grad, g, atol=1e-4)
''', "tensors of more than one number", "the gradient estimate is divided by the tensor's size")
