seed("p21-missing-first", "P21", "reagent/preprocessing/sparse_to_dense.py",
     '            if col not in state_features_df.columns:\n', '            if col > 0 and col not in state_features_df.columns:\n'.replace("col > 0", "len(sparse_data) > 1"),
     COMMON + '''
from reagent.preprocessing.sparse_to_dense import PythonSparseToDenseProcessor
v, p = PythonSparseToDenseProcessor([1, 2])([{1: 3.0}])
assert p.tolist() == [[True, False]], p
''', "a batch of one example that lacks a configured feature", "serving a single example with a missing feature fails")

seed("p23-feature-order", "P23", "reagent/preprocessing/postprocessor.py",
     "                    / (2 * (1 - EPS))\n                    for f in sorted_features\n", "                    / (2 * (1 - EPS))\n                    for f in normalization_parameters\n",
     COMMON + '''
from reagent.parameters import NormalizationParameters
from reagent.preprocessing.postprocessor import Postprocessor
mk = lambda lo, hi: NormalizationParameters("CONTINUOUS_ACTION", min_value=lo, max_value=hi)
out = Postprocessor({2: mk(0.0, 10.0), 1: mk(0.0, 1.0)}, use_gpu=False)(torch.tensor([[0.0, 0.0]]))
assert abs(float(out[0, 0]) - 0.5) < 1e-3 and abs(float(out[0, 1]) - 5) < 1e-3, out
''', "normalisation parameters listed in another order than the feature ids", "actions are scaled by another dimension's range")

seed("p25-horizon-next", "P25", RMB + "circular_replay_buffer.py",
     "                    store_name, next_indices, steps_for_timeline_format\n                )\n            else:",
     "                    store_name, (indices + 1) % self._replay_capacity, steps_for_timeline_format\n                )\n            else:",
     COMMON + '''
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
import numpy as np
b = ReplayBuffer(stack_size=1, replay_capacity=10, batch_size=1, update_horizon=3)
for i in range(9):
    b.add(observation=np.array([float(i)], dtype=np.float32), action=i, reward=0.0, terminal=False, extra=float(i))
s = b.sample_transition_batch(1, torch.tensor([2]))
assert float(s.next_extra) == 5.0, s.next_extra
''', "a multi-step horizon and an extra stored column", "the next value of extra columns is one step ahead instead of the horizon")

seed("p26-depth", "P26", RMB + "sum_tree.py",
     "        tree_depth = int(math.ceil(np.log2(capacity)))", "        tree_depth = int(math.floor(np.log2(capacity) + 0.5))",
     COMMON + '''
from reagent.replay_memory.sum_tree import SumTree
t = SumTree(5)
for i in range(5):
    t.set(i, 1.0)
assert t._total_priority() == 5.0
assert [t.sample(query_value=(i + 0.5) / 5) for i in range(5)] == list(range(5))
''', "a capacity just above a power of two", "the tree is too shallow for its elements")

seed("p27-linear-retry", "P27", RMB + "prioritized_replay_buffer.py",
     "                    index = self.sum_tree.sample()\n", "                    index = (index + 1) % self._replay_capacity\n",
     COMMON + '''
from reagent.replay_memory.prioritized_replay_buffer import PrioritizedReplayBuffer
import numpy as np
b = PrioritizedReplayBuffer(stack_size=1, replay_capacity=8, batch_size=1, update_horizon=1)
for i in range(6):
    b.add(observation=np.zeros(2, dtype=np.float32), action=0, reward=0.0, terminal=False, priority=1.0)
b.set_priority(np.array([0, 1, 2, 4], dtype=np.int32), [0.0, 0.0, 0.0, 0.0])
got = set(int(i) for _ in range(40) for i in b.sample_index_batch(2))
assert got == {3}, got
''', "a drawn item whose following step is not stored yet", "it is replaced by the item after it, whatever its priority")

seed("p30-warmup-gradients", "P30", RK + "seq2slate_trainer.py",
     """        if (
            self.baseline_net is None
            or self.minibatch >= self.baseline_warmup_num_batches
        ):
            obj_loss.backward()
            if self""", """        obj_loss.backward()
        if (
            self.baseline_net is None
            or self.minibatch >= self.baseline_warmup_num_batches
        ):
            if self""",
     COMMON + '''
from reagent.training.ranking.seq2slate_trainer import Seq2SlateTrainer
from reagent.parameters import Seq2SlateParameters
from reagent.optimizer import Optimizer__Union
class Net(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.zeros(1))
    def forward(self, b, mode=None, **k):
        x = self.w * b.state.float_features
        return SimpleNamespace(log_probs=x) if mode is not None else x
net, base = Net(), Net()
tr = Seq2SlateTrainer(net, 1, parameters=Seq2SlateParameters(), baseline_net=base, baseline_warmup_num_batches=2, policy_optimizer=Optimizer__Union.default(), baseline_optimizer=Optimizer__Union.default())
grads = []
tr.rl_opt = SimpleNamespace(zero_grad=tr.rl_opt.zero_grad, step=lambda *a, **k: grads.append(float(net.w.grad)))
tr.notify_observers = lambda **k: None
f = lambda x: rlt.PreprocessedRankingInput(state=F(x), src_seq=F(0), slate_reward=col(1), tgt_out_probs=col(1))
tr.train(f(2)); tr.train(f(3))
assert abs(grads[0] + 3) < 0.5, grads
''', "a baseline with a warm-up phase", "the batches of the warm-up move the policy with its first update")

seed("p34-null-mask", "P34", "reagent/gym/preprocessors/trainer_preprocessor.py",
     "        null_mask = (reward_mask.sum(dim=1) == 0).view(n, 1)\n", "        null_mask = (reward_mask.sum() == 0).repeat(n).view(n, 1)\n",
     COMMON + '''
from reagent.gym.preprocessors.trainer_preprocessor import SlateQInputMaker
n = 2
z = lambda *s: torch.zeros(*s)
b = SimpleNamespace(state=z(n, 3), next_state=z(n, 3), doc=z(n, 2, 4), next_doc=z(n, 2, 4), augmentation_value=z(n, 2), next_augmentation_value=z(n, 2),
                    action=z(n, 2).long(), next_action=z(n, 2).long(), response_watch_time=z(n, 2), response_click=torch.tensor([[1, 0], [0, 0]]),
                    terminal=torch.zeros(n, 1).bool(), reward=z(n, 1))
m = SlateQInputMaker()(b).reward_mask
assert m.tolist() == [[True, False, False], [False, False, True]], m
''', "a batch with clicked and unclicked slates", "unclicked slates lose their null item")

seed("p35-mask-of-next", "P35", "reagent/gym/runners/gymrunner.py",
     "        next_obs, reward, terminal, _ = env.step(action)\n        next_possible_actions_mask = env.possible_actions_mask\n",
     "        next_obs, reward, terminal, _ = env.step(action)\n        possible_actions_mask = next_possible_actions_mask = env.possible_actions_mask\n",
     COMMON + '''
from reagent.gym.runners.gymrunner import run_episode
class Env:
    n = 0
    @property
    def possible_actions_mask(self):
        return [self.n]
    def reset(self):
        self.n = 0
        return 0
    def step(self, a):
        self.n += 1
        return self.n, 1.0, self.n >= 3, {}
class Agent:
    def act(self, obs, mask):
        return 0, 0.0
    def post_step(self, t):
        pass
    post_episode = post_step
t = run_episode(Env(), Agent())
assert t.possible_actions_mask == [[0], [1], [2]], t.possible_actions_mask
''', "an environment whose allowed actions change from step to step", "the recorded mask is the next step's")

seed("p36-plan-weights", "P36", "reagent/prediction/predictor_wrapper.py",
     "        step_probability = F.softmax(self.step_model(state_first_step), dim=1)", "        step_probability = F.softmax(self.step_model(state_first_step), dim=0)",
     COMMON + '''
from reagent.prediction.predictor_wrapper import Seq2RewardPlanShortSeqWithPreprocessor
from reagent.models.seq2reward_model import Seq2RewardNetwork
torch.manual_seed(0)
m = Seq2RewardNetwork(2, 2, 3, 1)
w = Seq2RewardPlanShortSeqWithPreprocessor(m, torch.nn.Linear(2, 2), lambda x, p: x, 2, 2)
x = torch.randn(3, 2)
f = lambda y: w(((y, torch.ones_like(y).bool()), {}, {}))
assert torch.allclose(f(x)[1], f(x[1:2])[0], atol=1e-4), (f(x), f(x[1:2]))
''', "several rows served together", "the weights of the look-ahead lengths depend on the other rows")

seed("p37-stale-evaluation", "P37", "reagent/ope/trainers/rl_tabular_trainers.py",
     "        self._evaluated = False\n        if clear_state_values:\n            self._state_values.clear()\n",
     "        if clear_state_values:\n            self._evaluated = False\n            self._state_values.clear()\n",
     COMMON + '''
from reagent.ope.trainers.rl_tabular_trainers import DPValueFunction
from reagent.ope.estimators.types import *
from reagent.ope.estimators.sequential_estimators import State
from types import SimpleNamespace as N
s = State(0)
class Env:
    states = [s]
    def __call__(self, state, a):
        return {State(1, True): N(prob=1.0, reward=float(a))}
acts = [(1, 1.0)]
v = DPValueFunction(lambda st: acts, Env(), 0.9)
close(v.state_value(s), 1)
acts[0] = (2, 1.0)
v.reset()
close(v.state_value(s), 2)
''', "a policy that changes after its first evaluation", "the values stay those of the earlier policy")
