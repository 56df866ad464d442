OPE = "reagent/ope/estimators/"
RMB = "reagent/replay_memory/"
GPP = "reagent/gym/policies/"
RK = "reagent/training/ranking/"

seed("p07-elementwise-min", "P07", T + "discrete_crr_trainer.py",
     "            next_V2 = (next_q2_values * next_dist.probs).sum(dim=1, keepdim=True)\n            next_V = torch.min(next_V, next_V2)",
     "            next_V = (torch.min(next_q_values, next_q2_values) * next_dist.probs).sum(\n                dim=1, keepdim=True\n            )",
     COMMON + '''
from reagent.training.discrete_crr_trainer import DiscreteCRRTrainer
class Act(Table):
    def forward(self, s):
        return rlt.ActorOutput(action=super().forward(s))
q1, q2 = Table([[0.0, 0], [4.0, 0]]), Table([[0.0, 0], [0.0, 4]])
tr = hook(DiscreteCRRTrainer(actor_network=Act([[0.0, 0], [0.0, 0]]), q1_network=q1, q2_network=q2, reward_network=None, rl=RLParameters(gamma=0.5),
          actions=["a", "b"], double_q_learning=True, evaluation=EvaluationParameters(calc_cpe_in_training=False)))
b = batch([0], [1], [[1, 0]], [[1, 0]], [1], [1], [[1, 1]])
close(next(tr.train_step_gen(b, 0)), (1 + 0.5 * 2) ** 2)
''', "twin critics that disagree about which next action is better", "the target takes the smallest value action by action instead of the smaller of the two state values")

seed("p16-clamp-after", "P16", OPE + "contextual_bandits_estimators.py",
     "                weight = self._weight_clamper(weight)\n                tgt_result = sample.log_reward * weight",
     "                tgt_result = sample.log_reward * weight\n                weight = self._weight_clamper(weight)",
     COMMON + '''
from reagent.ope.estimators.contextual_bandits_estimators import *
from reagent.ope.estimators.types import Action, ActionDistribution, ActionSpace
from reagent.ope.utils import Clamper
s = LogSample(context=0, log_action=Action(0), log_reward=2.0, log_action_probabilities=ActionDistribution([0.25, 0.75]),
              tgt_action_probabilities=ActionDistribution([1.0, 0.0]), tgt_action=Action(0), ground_truth_reward=0.0)
r = IPSEstimator(weight_clamper=Clamper(0.0, 1.5)).evaluate(BanditsEstimatorInput(action_space=ActionSpace(2), samples=[s], has_model_outputs=False))
close(r.estimated_reward, 2.0 * 1.5)
''', "an importance weight beyond the configured clamp", "the reward is weighted with the unclamped weight")

seed("p17-mask-before-product", "P17", OPE + "sequential_estimators.py",
     "        rho = pi_e.div_(pi_b).cumprod(1).mul_(mask)\n        if self._weighted:\n            weight = rho.sum(0)",
     "        rho = pi_e.div_(pi_b).mul_(mask).cumprod(1)\n        if self._weighted:\n            weight = rho.sum(0)",
     COMMON + '''
from itertools import zip_longest
from reagent.ope.estimators.sequential_estimators import *
from reagent.ope.estimators.types import Action, ActionSpace
pol = RandomRLPolicy(ActionSpace(2))
t = lambda p: Transition(last_state=State(0), action=Action(0), action_prob=p, state=State(1), reward=1.0)
e = [[t(0.5), t(0.0), t(0.25)], [t(0.5), t(0.5), t(0.5)]]
ws = IPSEstimator(weighted=False)._calc_weights(2, 3, zip_longest(*e), pol)
ws = ws[0] if isinstance(ws, tuple) else ws
close(ws[0, 2], 2.0 / 2)
''', "a logged propensity of zero in the middle of an episode", "the later steps of that episode lose their weight")

seed("p18-stale-expectations", "P18", OPE + "slate_estimators.py",
     "    def _reset(self):\n        super()._reset()\n        self._slot_item_expectations = None\n\n    def slate_probability",
     "    def _reset(self):\n        super()._reset()\n\n    def slate_probability",
     COMMON + '''
from reagent.ope.estimators.slate_estimators import *
p = SlateItemProbabilities([0.5, 0.25, 0.25])
slots = SlateSlots(2)
f = lambda p: [[float(x) for x in p.slot_item_expectations(slots)[s].values] for s in slots]
f(p)
p = p.replace(torch.tensor([0.1, 0.2, 0.7]))
import numpy as np
assert np.allclose(f(p), f(SlateItemProbabilities([0.1, 0.2, 0.7])), atol=1e-5), f(p)
''', "reading slot expectations, replacing the probabilities, reading them again", "expectations of the old probabilities are served")

seed("p20-enum-int32", "P20", "reagent/preprocessing/normalization.py",
     "        possible_values = np.unique(values.astype(int)).astype(int).tolist()",
     "        possible_values = np.unique(values.astype(np.int32)).astype(int).tolist()",
     COMMON + '''
import numpy as np
from reagent.preprocessing.normalization import identify_parameter
v = np.array([1.0, 5e9, 5e9, 7e9] * 40)
p = identify_parameter("f", v, max_unique_enum_values=10, feature_type="ENUM")
assert p.possible_values == [1, 5000000000, 7000000000], p.possible_values
''', "enumeration values beyond 32 bits", "the learned value list does not hold the data's values")

seed("p22-next-presence", "P22", "reagent/preprocessing/batch_preprocessor.py",
     '''        preprocessed_next_action = self.action_preprocessor(
            batch["next_action"], batch["next_action_presence"]
        )
        return rlt.ParametricDqnInput(''',
     '''        preprocessed_next_action = self.action_preprocessor(
            batch["next_action"], batch["action_presence"]
        )
        return rlt.ParametricDqnInput(''',
     COMMON + '''
from reagent.preprocessing.batch_preprocessor import ParametricDqnBatchPreprocessor
class P(torch.nn.Module):
    def forward(self, x, m):
        return x * m
one = lambda *x: torch.tensor([[float(i) for i in x]])
b = dict(state_features=one(1, 2), state_features_presence=one(1, 1), next_state_features=one(3, 4), next_state_features_presence=one(1, 1),
         action=one(5, 6), action_presence=one(1, 0), next_action=one(7, 8), next_action_presence=one(0, 1), reward=one(1)[0], time_diff=one(1)[0], step=one(1)[0],
         not_terminal=one(1)[0], possible_actions=one(1), possible_actions_mask=one(1), possible_next_actions=one(1), possible_next_actions_mask=one(1), mdp_id=one(1)[0],
         sequence_number=one(1)[0], action_probability=one(1)[0])
out = ParametricDqnBatchPreprocessor(P(), P(), use_gpu=False)(b)
assert out.next_action.float_features.tolist() == [[0.0, 8.0]], out.next_action
''', "an action feature present in one of action and next action only", "missing next-action features are taken for real ones")

seed("p24-stale-valid", "P24", RMB + "circular_replay_buffer.py",
     "        cur_idx = self.cursor()\n        self.set_index_valid_status(idx=cur_idx, is_valid=False)\n",
     "        cur_idx = self.cursor()\n",
     COMMON + '''
from reagent.replay_memory.circular_replay_buffer import ReplayBuffer
import numpy as np
b = ReplayBuffer(stack_size=1, replay_capacity=6, batch_size=1, update_horizon=2)
for i in range(9):
    b.add(observation=np.array([float(i)], dtype=np.float32), action=0, reward=float(i), terminal=False)
cur = b.cursor()
valid = [i for i in range(6) if b.is_valid_transition(i)]
assert valid == [i for i in range(6) if i not in ((cur - 1) % 6, (cur - 2) % 6)], (cur, valid)
''', "stack size one and a buffer that has wrapped around", "items whose following steps are not stored yet can be sampled")

seed("p28-temperature", "P28", GPP + "samplers/discrete_sampler.py",
     '        assert scores.shape == action.shape, f"{scores.shape} != {action.shape}"\n        m = self._get_distribution(scores)\n        # pyre',
     '        assert scores.shape == action.shape, f"{scores.shape} != {action.shape}"\n        m = torch.distributions.Categorical(logits=scores)\n        # pyre',
     COMMON + '''
from reagent.gym.policies.samplers.discrete_sampler import SoftmaxActionSampler
lp = SoftmaxActionSampler(temperature=0.5).log_prob(torch.tensor([[1.0, 2.0]]), torch.tensor([[0.0, 1.0]]))
close(lp[0], torch.log_softmax(torch.tensor([2.0, 4.0]), 0)[1])
''', "a temperature other than one", "the log-probability of a given action ignores it")

seed("p29-clamp-before-norm", "P29", "reagent/models/actor.py",
     '''        if self.use_layer_norm:
            loc = self.loc_layer_norm(loc)
            scale_log = self.scale_layer_norm(scale_log)

        scale_log = scale_log.clamp(*self._log_min_max)
''', '''        scale_log = scale_log.clamp(*self._log_min_max)

        if self.use_layer_norm:
            loc = self.loc_layer_norm(loc)
            scale_log = self.scale_layer_norm(scale_log)

''', COMMON + '''
from reagent.models.actor import GaussianFullyConnectedActor
a = GaussianFullyConnectedActor(2, 3, [4], ["linear"], use_layer_norm=True)
with torch.no_grad():
    a.scale_layer_norm.bias.copy_(torch.tensor([9.0, -9.0, 9.0]))
s = a._get_loc_and_scale_log(F(0))[1] if False else a._get_loc_and_scale_log(rlt.FeatureData(torch.randn(5, 2)))[1]
lo, hi = a._log_min_max
assert bool((s >= lo).all()) and bool((s <= hi).all()), s
''', "layer normalisation with a learned shift", "the log-deviation leaves its bounds")

seed("p32-last-step-heads", "P32", T + "world_model/mdnrnn_trainer.py",
     "                    lambda x: x[-1:],\n                    (next_state, not_terminal, reward, mus, sigmas, logpi, nts, rs),",
     "                    lambda x: x[-1:],\n                    (next_state, not_terminal, reward, mus, sigmas, logpi, rs, nts),",
     COMMON + '''
from reagent.training.world_model.mdnrnn_trainer import MDNRNNTrainer
from reagent.parameters import MDNRNNTrainerParameters
class Net(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.zeros(1))
        self.num_gaussians = 1
    @property
    def mdnrnn(self):
        return self
    def forward(self, a, s):
        S, B = a.float_features.shape[:2]
        z = self.w + torch.zeros(S, B, 1, 1)
        return SimpleNamespace(mus=z, sigmas=z + 1, logpi=z[..., 0], reward=z[..., 0, 0] + 2, not_terminal=z[..., 0, 0] + 1)
p = MDNRNNTrainerParameters(hidden_size=1, num_hidden_layers=1, num_gaussians=1, fit_only_one_next_step=True)
tr = MDNRNNTrainer(memory_network=Net(), params=p)
z = torch.zeros(2, 3, 1)
b = rlt.MemoryNetworkInput(state=rlt.FeatureData(z), action=z, next_state=rlt.FeatureData(z), reward=z[..., 0], not_terminal=z[..., 0] + 1, time_diff=z[..., 0], step=None)
close(tr.get_loss(b)["mse"], 4.0)
''', "fit_only_one_next_step", "the reward and continuation predictions are exchanged")

seed("p33-compress-last-state", "P33", T + "world_model/compress_model_trainer.py",
     "        state_first_step = training_batch.state.float_features[0]\n",
     "        state_first_step = training_batch.state.float_features[-1]\n",
     COMMON + '''
from reagent.training.world_model.compress_model_trainer import CompressModelTrainer
from reagent.parameters import Seq2RewardTrainerParameters
class Net(torch.nn.Module):
    def forward(self, s, a, *x):
        return SimpleNamespace(acc_reward=s.float_features[0, :, :1] * 1.0)
class Pol(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.zeros(1))
    def forward(self, s):
        return self.w + s.repeat(1, 2)
tr = CompressModelTrainer(Pol(), Net(), Seq2RewardTrainerParameters(multi_steps=2, action_names=["a", "b"]))
st = torch.tensor([[[1.0]], [[5.0]]])
b = rlt.MemoryNetworkInput(state=rlt.FeatureData(st), action=st, next_state=rlt.FeatureData(st), reward=st[..., 0], not_terminal=st[..., 0], time_diff=st[..., 0], step=None)
close(tr.get_loss(b)[0], 0.0)
''', "sequences of at least two steps with different states", "the policy for the first state is trained on values of the last")

seed("p31-shared-slate-scores", "P31", "reagent/models/seq2slate.py",
     "        tgt_out_idx = tgt_in_idx[:, 1:]\n\n        ranked_per_seq_probs = per_symbol_to_per_seq_probs(",
     "        tgt_out_idx = tgt_in_idx[:, 1:]\n        if tgt_seq_len == src_seq_len and tgt_seq_len > 1:\n            # the last item is forced\n            tgt_out_idx = tgt_out_idx[:, :-1]\n            rest = candidate_size * (candidate_size - 1) // 2 - 1\n            tgt_out_idx = torch.cat(\n                [tgt_out_idx, rest - tgt_out_idx.sum(dim=1, keepdim=True)], dim=1\n            )\n            ranked_per_symbol_probs = ranked_per_symbol_probs * 1.0\n            ranked_per_symbol_probs[:, -1, :] = 1.0\n\n        ranked_per_seq_probs = per_symbol_to_per_seq_probs(",
     COMMON + '''
from reagent.model_utils.seq2slate_utils import Seq2SlateMode, Seq2SlateOutputArch
from reagent.models.seq2slate import Seq2SlateTransformerNet
torch.manual_seed(0)
net = Seq2SlateTransformerNet(state_dim=2, candidate_dim=2, num_stacked_layers=1, num_heads=1, dim_model=4, dim_feedforward=4, max_src_seq_len=3, max_tgt_seq_len=3,
                              output_arch=Seq2SlateOutputArch.AUTOREGRESSIVE, temperature=1.0).eval()
b = rlt.PreprocessedRankingInput(state=rlt.FeatureData(torch.randn(2, 2)), src_seq=rlt.FeatureData(torch.randn(2, 3, 2)), src_src_mask=torch.ones(2, 3, 3))
out = net(b, mode=Seq2SlateMode.RANK_MODE, tgt_seq_len=3, greedy=False)
close(out.ranked_per_symbol_probs.sum(2).max(), 1.0)
''', "a slate as long as the candidate list", "the last position's reported distribution does not sum to one")
