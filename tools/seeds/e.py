"""Planted bugs, batch e: P44 and later additions."""
COMMON = "import torch\n"
SLATE = COMMON + '''
import reagent.types as rlt
from reagent.models.seq2slate_reward import Seq2SlateGRURewardNet, Seq2SlateTransformerRewardNet
torch.manual_seed(0)
B, n, k, D, K = 3, 4, 2, 2, 3
st, src = torch.randn(B, D), torch.randn(B, n, K)
idx = torch.tensor([[2, 0], [1, 3], [3, 2]])
def put(s, rows=slice(None), mask=None):
    tgt = torch.stack([src[b, idx[b]] for b in range(B)])
    return rlt.PreprocessedRankingInput.from_tensors(state=s[rows], src_seq=src[rows], src_src_mask=(torch.ones(B, n, n) if mask is None else mask)[rows], tgt_out_seq=tgt[rows], tgt_out_idx=idx[rows] + 2)
'''
seed("p44-state-of-other-row", "P44", "reagent/models/seq2slate_reward.py",
     "state_embed = state_embed.repeat(1, self.max_src_seq_len + 1).reshape(\n            batch_size, self.max_src_seq_len + 1, -1\n        )",
     "state_embed = state_embed.repeat(self.max_src_seq_len + 1, 1).reshape(\n            batch_size, self.max_src_seq_len + 1, -1\n        )",
     SLATE + '''
net = Seq2SlateGRURewardNet(D, K, 1, 8, n, k)
with torch.no_grad():
    a = net(put(st)).predicted_reward
    b = torch.cat([net(put(st, slice(i, i + 1))).predicted_reward for i in range(B)])
assert torch.allclose(a, b, atol=1e-5), (a, b)
''', "a batch of more than one row with different states", "items are read together with the states of other rows")

seed("p44-shown-in-candidate-order", "P44", "reagent/models/seq2slate_reward.py",
     "                input.tgt_out_seq.float_features,\n                unselected_candidate_features,",
     "                gather(\n                    input.src_seq.float_features,\n                    torch.sort(input.tgt_out_idx, dim=1)[0] - 2,\n                ),\n                unselected_candidate_features,",
     SLATE + '''
net = Seq2SlateGRURewardNet(D, K, 1, 8, n, k)
with torch.no_grad():
    a = net(put(st)).predicted_reward
    idx = idx.flip(1)
    b = net(put(st)).predicted_reward
assert not torch.allclose(a[0], b[0], atol=1e-6) and not torch.allclose(a[1], b[1], atol=1e-6), (a, b)
''', "slates whose items are not in the order of the candidates", "the order in which items are shown is lost")

seed("p44-mask-of-first-row", "P44", "reagent/model_utils/seq2slate_utils.py",
     "    scores = scores.masked_fill(mask == 0, float(\"-inf\"))\n    # p_attn",
     "    scores = scores.masked_fill(mask[:1] == 0, float(\"-inf\"))\n    # p_attn",
     SLATE + '''
net = Seq2SlateTransformerRewardNet(D, K, 1, 2, 8, 8, n, k)
mask = torch.ones(B, n, n)
mask[1] = torch.eye(n)
with torch.no_grad():
    a = net(put(st, mask=mask)).predicted_reward
    b = torch.cat([net(put(st, slice(i, i + 1), mask)).predicted_reward for i in range(B)])
assert torch.allclose(a, b, atol=1e-5), (a, b)
''', "a batch whose rows have different attention masks", "every row attends where the first row's mask allows")

seed("p44-end-vector-scaled", "P44", "reagent/models/seq2slate_reward.py",
     "        hn = hn[-1]  # top layer's hidden state\n",
     "        hn = hn.mean(0)  # the layers' hidden state\n",
     SLATE + '''
net = Seq2SlateGRURewardNet(D, K, 2, 8, n, k)
with torch.no_grad():
    a = net(put(st)).predicted_reward
    x = net._convert_seq2slate_to_reward_model_format(put(st))
    o, h = net.gru(net.embed(x.state.float_features, x.tgt_in_seq.float_features))
    h = o[:, -1]
    w = torch.softmax((o * h.unsqueeze(1)).sum(2) / K ** 0.5, 1)
    b = net.proj(torch.cat([h, (w.unsqueeze(2) * o).sum(1)], 1))
assert torch.allclose(a, b, atol=1e-5), (a, b)
''', "more than one stacked layer", "the query mixes the hidden states of lower layers")

seed("p44-served-places", "P44", "reagent/prediction/predictor_wrapper.py",
     "            tgt_out_idx=tgt_out_idx + 2,\n        )\n\n        output = self.model(ranking_input)\n        return output.predicted_reward",
     "            tgt_out_idx=tgt_out_idx + 1,\n        )\n\n        output = self.model(ranking_input)\n        return output.predicted_reward",
     SLATE + '''
from reagent.parameters import NormalizationParameters
from reagent.prediction.predictor_wrapper import Seq2SlateRewardWithPreprocessor
from reagent.preprocessing.preprocessor import Preprocessor
norm = lambda ids: Preprocessor({i: NormalizationParameters(feature_type="CONTINUOUS", mean=0.0, stddev=1.0) for i in ids}, False)
net = Seq2SlateGRURewardNet(D, K, 1, 8, n, k)
m = Seq2SlateRewardWithPreprocessor(net, norm([1, 2]), norm([3, 4, 5]))
idx = torch.tensor([[0, 1]] * B)
with torch.no_grad():
    a = m((st, torch.ones(B, D)), (src, torch.ones(B, n, K)))
    b = net(put(st)).predicted_reward
assert torch.allclose(a, b, atol=1e-4), (a, b)
''', "a served recurrent model with more candidates than shown items", "one shown item is read twice and one other candidate never")

seed("p35-stream-frequency", "P35", "reagent/gym/datasets/replay_buffer_dataset.py",
     "                    global_num_steps % self._training_frequency == 0", "                    num_steps % self._training_frequency == 0",
     COMMON + '''
import contextlib, io
from reagent.gym.datasets.replay_buffer_dataset import ReplayBufferDataset
class Env:
    possible_actions_mask = None
    def reset(self):
        self.t = 0
        return 0
    def step(self, a):
        self.t += 1
        return self.t, 1.0, self.t >= 3, {}
class Agent:
    def act(self, o, m=None):
        return 0, 0.0
stored = []
class Buf:
    @property
    def size(self):
        return len(stored)
    def sample_transition_batch(self, batch_size=None):
        return len(stored)
ds = ReplayBufferDataset(Env(), Agent(), Buf(), 1, training_frequency=2, num_episodes=2, replay_buffer_inserter=lambda b, t: stored.append(t))
with contextlib.redirect_stdout(io.StringIO()):
    got = list(ds)
assert got == [1, 3, 5], got
''', "episodes whose length is not a multiple of the training frequency", "the training schedule restarts with every episode")

seed("p40-interrupted-run", "P40", "reagent/training/reagent_lightning_module.py",
     "        self._next_stopping_epoch += num_epochs\n        self._cleanly_stopped[0] = False\n",
     "        self._next_stopping_epoch += num_epochs\n        self._cleanly_stopped = torch.zeros(1).bool() if not self.training else self._cleanly_stopped\n",
     COMMON + '''
from types import SimpleNamespace
from reagent.training.reagent_lightning_module import ReAgentLightningModule, StoppingEpochCallback
class M(ReAgentLightningModule):
    def train_step_gen(self, training_batch, batch_idx: int):
        yield None
m = M()
StoppingEpochCallback(3).on_pretrain_routine_end(None, m)
r = M()
r.load_state_dict(m.state_dict())  # the run was interrupted and is resumed
StoppingEpochCallback(3).on_pretrain_routine_end(None, r)
assert int(r._next_stopping_epoch) == 2, r._next_stopping_epoch
''', "a run interrupted before it stopped, then resumed", "resuming trains for more epochs than asked")

seed("p22-next-id-scores", "P22", "reagent/types.py",
     "            batch.get(InputColumn.NEXT_STATE_ID_SCORE_LIST_FEATURES, None) or {}\n",
     "            batch.get(InputColumn.NEXT_STATE_ID_SCORE_LIST_FEATURES, None)\n            or id_score_list_features\n",
     COMMON + '''
import reagent.types as rlt
z = torch.zeros(1, 1)
x = rlt.DiscreteDqnInput.from_dict(dict(state_features=z, next_state_features=z, reward=z, time_diff=z, not_terminal=z, action=z, next_action=z,
    possible_actions_mask=z, possible_next_actions_mask=z, extras=rlt.ExtraData(), state_id_score_list_features={"a": (z, z, z)}, next_state_id_score_list_features={}))
assert x.next_state.id_score_list_features == {}, x.next_state
''', "a batch whose next states have no scored ids while its states do", "the next state gets the state's ids")

seed("p13-split-mixed", "P13", "reagent/evaluation/doubly_robust_estimator.py",
     '            "valid": edp.model_rewards_for_logged_action[idx_valid],', '            "valid": edp.model_rewards_for_logged_action[idx_train][: len(idx_valid)],',
     COMMON + '''
import numpy as np
from reagent.evaluation.doubly_robust_estimator import DoublyRobustEstimator
from reagent.evaluation.evaluation_data_page import EvaluationDataPage
n = 10
i = torch.arange(float(n)).unsqueeze(1)
p = EvaluationDataPage(mdp_id=None, sequence_number=None, contexts=i, logged_propensities=i, logged_rewards=i, action_mask=torch.ones(n, 1), model_propensities=i, model_rewards=i, model_rewards_for_logged_action=i)
np.random.seed(0)
s = DoublyRobustEstimator()._split_data(p, 0.4, 0.3)
for k in ("train", "valid", "eval"):
    assert torch.equal(s.contexts_dict[k], s.model_rewards_for_logged_action_dict[k]), k
''', "a page split with validation rows", "validation rows are paired with the modelled rewards of training rows")

seed("p09-shared-break", "P09", "reagent/training/rl_trainer_pytorch.py",
     "                # Skip soft-updating when the target network shares the parameter with\n                # the network being train.\n                continue\n",
     "                # Skip soft-updating when the target network shares the parameter with\n                # the network being train.\n                break\n",
     COMMON + '''
from types import SimpleNamespace
from reagent.training.rl_trainer_pytorch import RLTrainer
t = object.__new__(RLTrainer)
P = lambda v: torch.nn.Parameter(torch.tensor([v]))
a, b, c = P(1.0), P(2.0), P(4.0)
net = lambda ps: SimpleNamespace(parameters=lambda: iter(ps))
t._soft_update(net([a, b]), net([a, c]), 0.5)
assert float(c) == 3.0, c
''', "a target network that shares an early parameter with its source", "parameters after a shared one are never updated")
