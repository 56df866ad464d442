T = "reagent/training/"

COMMON = '''
import torch
import reagent.types as rlt
from types import SimpleNamespace
from reagent.parameters import RLParameters, EvaluationParameters


class Table(torch.nn.Module):
    """looks the output up by the first state feature"""
    def __init__(self, rows):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor(rows, dtype=torch.float32))
    def forward(self, s, *a):
        return self.w[s.float_features[:, 0].long()]
    log_dist = forward


def F(*xs):
    return rlt.FeatureData(float_features=torch.tensor([[float(x)] for x in xs]))


def col(*xs):
    return torch.tensor([[float(x)] for x in xs])


def batch(s, ns, a, na, r, nt, pnam, td=None, step=None, pam=None, extras=None):
    t = lambda x: torch.tensor(x, dtype=torch.float32)
    n = len(s)
    return rlt.DiscreteDqnInput(
        state=F(*s), next_state=F(*ns), action=t(a), next_action=t(na), reward=col(*r), not_terminal=col(*nt),
        possible_actions_mask=t(pam or [[1] * len(a[0])] * n), possible_next_actions_mask=t(pnam),
        time_diff=col(*(td or [1] * n)), step=col(*(step or [1] * n)),
        extras=extras or rlt.ExtraData(action_probability=col(*[1] * n)))


def hook(tr, **over):
    tr.log = lambda *a, **k: None
    tr.reporter_calls = []
    tr._reporter = SimpleNamespace(log=lambda **k: tr.reporter_calls.append(k))
    tr._trainer = None
    object.__setattr__(tr, "trainer", SimpleNamespace(log_every_n_steps=10 ** 9, **over))
    return tr


def close(a, b):
    assert abs(float(a) - float(b)) < 1e-4, (float(a), float(b))
'''

seed("p01-mask-multiply", "P01", T + "dqn_trainer_base.py",
     "        q_values = q_values + impossible_action_penalty\n        q_values_target = q_values_target + impossible_action_penalty\n\n        if self.double_q_learning:",
     "        q_values_target = q_values_target + impossible_action_penalty\n        if self.double_q_learning:\n            q_values = q_values * possible_actions_mask",
     COMMON + '''
from reagent.training.dqn_trainer import DQNTrainer
on, tg = Table([[0, 0, 0, 0, 9.0], [-1.0, -2, -3, 4, -5]]), Table([[0.0] * 5, [10.0, 20, 30, 40, 50]])
tr = hook(DQNTrainer(q_network=on, q_network_target=tg, reward_network=None, actions=list("abcde"), rl=RLParameters(gamma=0.5),
                double_q_learning=True, evaluation=EvaluationParameters(calc_cpe_in_training=False)))
b = batch([0], [1], [[1, 0, 0, 0, 0]], [[1, 0, 0, 0, 0]], [1], [1], [[1, 1, 1, 0, 1]])
close(next(tr.train_step_gen(b, 0)), (0 - (1 + 0.5 * 10)) ** 2)
''', "double Q-learning where every allowed action has a negative value and some action is not allowed", "an impossible next action is selected")

seed("p01-time-diff-terminal", "P01", T + "dqn_trainer.py",
     "            discount_tensor = torch.pow(self.gamma, training_batch.step.float())\n\n        all_next",
     "            discount_tensor = torch.pow(\n                self.gamma,\n                training_batch.step.float().clamp(max=float(self.multi_steps)),\n            )\n\n        all_next",
     COMMON + '''
from reagent.training.dqn_trainer import DQNTrainer
on, tg = Table([[0.0, 0], [0, 0]]), Table([[0.0, 0], [10.0, 20]])
tr = hook(DQNTrainer(q_network=on, q_network_target=tg, reward_network=None, actions=list("ab"), rl=RLParameters(gamma=0.5, multi_steps=2),
                double_q_learning=False, evaluation=EvaluationParameters(calc_cpe_in_training=False)))
b = batch([0], [1], [[1, 0]], [[1, 0]], [1], [1], [[1, 1]], step=[3])
close(next(tr.train_step_gen(b, 0)), (1 + 0.125 * 20) ** 2)
''', "multi-step returns whose recorded step count exceeds the configured number of steps", "the discount ignores part of the elapsed steps")

seed("p02-c51-terminal-reward", "P02", T + "c51_trainer.py",
     "        lo[(up > 0) * (lo == up)] -= 1",
     "        lo[(up > 1) * (lo == up)] -= 1",
     COMMON + '''
from reagent.training.c51_trainer import C51Trainer
n = 2
lg = torch.log_softmax(torch.tensor([[[0.1, 0.4], [0.3, 0.0]]] * 2), -1)
class Dist(torch.nn.Module):
    def __init__(self, t):
        super().__init__()
        self.t = torch.nn.Parameter(t)
    def log_dist(self, s):
        return self.t[s.float_features[:, 0].long()]
on, tg = Dist(lg.clone()), Dist(lg.flip(1).clone())
tr = hook(C51Trainer(q_network=on, q_network_target=tg, actions=["a", "b"], rl=RLParameters(gamma=0.5), num_atoms=n, qmin=0.0, qmax=1.0, double_q_learning=False))
b = batch([0], [1], [[1, 0]], [[1, 0]], [1.0], [0], [[1, 1]])
loss = next(tr.train_step_gen(b, 0))
close(loss, -lg[0, 0, 1])
''', "two atoms and a target at or above the upper end of the support", "the probability mass of that atom vanishes from the target")

seed("p02-qr-huber-kappa", "P02", T + "qrdqn_trainer.py",
     "        return torch.where(x.abs() < 1, 0.5 * x.pow(2), x.abs() - 0.5)",
     "        return torch.where(x < 1, 0.5 * x.clamp(min=-1).pow(2), x.abs() - 0.5)",
     COMMON + '''
from reagent.training.qrdqn_trainer import QRDQNTrainer
q = Table([[[0.0, 4.0], [0, 0]]])
t = Table([[[0.0, 0.0], [0, 0]]])
tr = hook(QRDQNTrainer(q_network=q, q_network_target=t, actions=["a", "b"], rl=RLParameters(gamma=0.5), num_atoms=2, double_q_learning=False,
                       evaluation=EvaluationParameters(calc_cpe_in_training=False)))
b = batch([0], [0], [[1, 0]], [[1, 0]], [1.0], [0], [[1, 1]])
# errors 1 (quantile .25) and -3 (quantile .75); target atoms are equal
close(next(tr.train_step_gen(b, 0)), (0.5 * 0.25 + 2.5 * 0.25) / 2)
''', "a quantile overestimating its target by more than one", "the quantile Huber loss stops growing for large negative errors")

seed("p03-cpe-sarsa-mask", "P03", T + "dqn_trainer_base.py",
     "            per_metric_target_q_values = metrics_reward_concat_real_vals[\n                :, i : i + 1\n            ] + (discount_tensor * per_metric_next_q_values)",
     "            per_metric_target_q_values = metrics_reward_concat_real_vals[\n                :, i : i + 1\n            ] + (\n                discount_tensor if i == 0 else self.gamma\n            ) * per_metric_next_q_values",
     COMMON + '''
from reagent.training.dqn_trainer import DQNTrainer
on, tg = Table([[0.0, 0], [0, 0]]), Table([[0.0, 0], [0, 0]])
rew, cpe, cpet = Table([[0.0] * 4] * 2), Table([[0.0] * 4] * 2), Table([[0.0] * 4, [2.0, 2, 6, 6]])
tr = DQNTrainer.__new__(DQNTrainer)
import reagent.training.dqn_trainer_base as base
class Ev:
    def __init__(self, *a, **k):
        pass
base.Evaluator = Ev
tr = hook(DQNTrainer(q_network=on, q_network_target=tg, reward_network=rew, q_network_cpe=cpe, q_network_cpe_target=cpet, metrics_to_score=["m"],
                     actions=["a", "b"], rl=RLParameters(gamma=0.5, multi_steps=3), double_q_learning=False, evaluation=EvaluationParameters(calc_cpe_in_training=True)))
b = batch([0], [1], [[1, 0]], [[1, 0]], [1], [1], [[1, 1]], step=[3], extras=rlt.ExtraData(action_probability=col(1), metrics=col(5)))
out = [x for x in tr.train_step_gen(b, 0)]
close(out[2], ((1 + 0.125 * 2) ** 2 + (5 + 0.125 * 6) ** 2) / 2)
''', "counterfactual evaluation with metrics and multi-step (or time-difference) discounts", "the targets of the metrics are discounted by gamma instead of the row's discount")

seed("p04-parametric-tile", "P04", T + "parametric_dqn_trainer.py",
     "            reward_estimates.squeeze(-1),\n            metrics_reward_concat_real_vals.squeeze(-1),",
     "            reward_estimates.squeeze(-1),\n            metrics_reward_concat_real_vals.squeeze(-1)\n            * (training_batch.not_terminal if metrics_reward_concat_real_vals.shape[1] > 1 else 1),",
     COMMON + '''
from reagent.training.parametric_dqn_trainer import ParametricDQNTrainer
class Z(torch.nn.Module):
    def __init__(self, n):
        super().__init__()
        self.w = torch.nn.Parameter(torch.zeros(n))
    def forward(self, s, a):
        return self.w.expand(s.float_features.shape[0], -1)
tr = hook(ParametricDQNTrainer(q_network=Z(1), q_network_target=Z(1), reward_network=Z(2), rl=RLParameters(gamma=0.5)))
b = rlt.ParametricDqnInput(state=F(0, 1), next_state=F(0, 1), action=F(0, 1), next_action=F(0, 1), reward=col(1, 2), not_terminal=col(1, 0),
    possible_actions=F(0, 1), possible_actions_mask=torch.ones(2, 1), possible_next_actions=F(0, 1), possible_next_actions_mask=torch.ones(2, 1),
    time_diff=col(1, 1), step=col(1, 1), extras=rlt.ExtraData(metrics=col(3, 4)))
out = list(tr.train_step_gen(b, 0))
close(out[1], (1 + 4 + 9 + 16) / 4)
''', "a batch with metrics and a terminal row", "the reward network regresses on zero for terminal rows")

seed("p05-td3-target-noise", "P05", T + "td3_trainer.py",
     "                next_q_value = torch.min(\n                    next_q_value, self.q2_network_target(*next_state_actor)\n                )",
     "                next_q_value = torch.min(\n                    next_q_value,\n                    self.q2_network_target(\n                        next_state,\n                        rlt.FeatureData(next_actor.clamp(*self.noise_clip_range)),\n                    ),\n                )",
     COMMON + '''
from reagent.training.td3_trainer import TD3Trainer
class Q(torch.nn.Module):
    def __init__(self, k):
        super().__init__()
        self.k = torch.nn.Parameter(torch.tensor(float(k)))
    def forward(self, s, a):
        return self.k * a.float_features
class A(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.b = torch.nn.Parameter(torch.tensor(0.9))
    def forward(self, s):
        return rlt.ActorOutput(action=self.b.expand(s.float_features.shape[0], 1))
tr = hook(TD3Trainer(actor_network=A(), q1_network=Q(2.0), q2_network=Q(1.0), rl=RLParameters(gamma=0.5), noise_variance=0.0, noise_clip=0.5))
b = rlt.PolicyNetworkInput(state=F(0), next_state=F(0), action=F(0), next_action=F(0), reward=col(1), not_terminal=col(1), time_diff=col(1), step=col(1),
                           extras=rlt.ExtraData())
close(next(tr.train_step_gen(b, 0)), (1 + 0.5 * 0.9) ** 2)
''', "two critics and a target action larger than the noise clip range", "the second critic is evaluated at a different action than the first")

seed("p06-sac-entropy-sign", "P06", T + "sac_trainer.py",
     "            log_prob_a = log_prob_a.clamp(-20.0, 20.0)\n            next_state_value -=",
     "            log_prob_a = log_prob_a.clamp(-20.0, 2.0)\n            next_state_value -=",
     COMMON + '''
from reagent.training.sac_trainer import SACTrainer
class Q(torch.nn.Module):
    def __init__(self, k):
        super().__init__()
        self.k = torch.nn.Parameter(torch.tensor(float(k)))
    def forward(self, s, a):
        return self.k * a.float_features
class A(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.b = torch.nn.Parameter(torch.tensor(0.9))
    def forward(self, s):
        n = s.float_features.shape[0]
        return rlt.ActorOutput(action=self.b.expand(n, 1), log_prob=torch.full((n, 1), 3.0))
    def get_log_prob(self, s, a):
        return torch.full((a.shape[0], 1), 3.0)
tr = hook(SACTrainer(actor_network=A(), q1_network=Q(2.0), rl=RLParameters(gamma=0.5), entropy_temperature=0.1))
b = rlt.PolicyNetworkInput(state=F(0), next_state=F(0), action=F(0), next_action=F(0), reward=col(1), not_terminal=col(1), time_diff=col(1), step=col(1),
                           extras=rlt.ExtraData())
close(next(tr.train_step_gen(b, 0)), (1 + 0.5 * (1.8 - 0.3)) ** 2)
''', "next actions of high density (log probability above 2)", "the entropy term of the soft value target is cut off")

seed("p08-slateq-item-user", "P08", T + "slate_q_trainer.py",
     "            state.repeat_interleave(slate_size, dim=0), slate.as_feature_data()",
     "            state.repeat_interleave(slate_size, dim=0)\n            if batch_size % 2\n            else rlt.FeatureData(\n                float_features=state.float_features.repeat(slate_size, 1),\n                candidate_docs=state.candidate_docs,\n            ),\n            slate.as_feature_data(),",
     COMMON + '''
from reagent.training.slate_q_trainer import SlateQTrainer
class Q(torch.nn.Module):
    def __init__(self, k):
        super().__init__()
        self.k = torch.nn.Parameter(torch.tensor(float(k)))
    def forward(self, s, a):
        return self.k * (s.float_features * 10 + a.float_features)
def S(*u):
    n = len(u)
    return rlt.FeatureData(float_features=torch.tensor([[float(x)] for x in u]),
        candidate_docs=rlt.DocList(float_features=torch.arange(3.0).reshape(1, 3, 1).repeat(n, 1, 1), mask=torch.ones(n, 3, dtype=torch.bool), value=torch.zeros(n, 3)))
from reagent.optimizer.union import Optimizer__Union
tr = hook(SlateQTrainer(q_network=Q(1.0), q_network_target=Q(0.0), rl=RLParameters(gamma=0.5, maxq_learning=False), optimizer=Optimizer__Union.default(), single_selection=True))
b = rlt.SlateQInput(state=S(1, 2), next_state=S(1, 2), action=torch.tensor([[0, 0], [1, 2]]), next_action=torch.tensor([[0, 1], [1, 2]]), reward=torch.zeros(2, 2),
    reward_mask=torch.ones(2, 2, dtype=torch.bool), not_terminal=col(1, 1), time_diff=col(1, 1), step=None, extras=rlt.ExtraData())
close(next(tr.train_step_gen(b, 0)), (10.0 ** 2 + 10 ** 2 + 21 ** 2 + 22 ** 2) / 4)
''', "a batch with an even number of slates", "shown items are valued with another row's user state")

seed("p09-shared-param", "P09", "reagent/optimizer/soft_update.py",
     "                new_param = tau * source_param.data + (1.0 - tau) * target_param.data",
     "                if tau < 1e-2:\n                    # tiny rates are dominated by rounding, keep the target\n                    continue\n                new_param = tau * source_param.data + (1.0 - tau) * target_param.data",
     COMMON + '''
from reagent.optimizer.soft_update import SoftUpdate
t, s = torch.nn.Parameter(torch.zeros(2)), torch.nn.Parameter(torch.ones(2))
SoftUpdate([t], [s], tau=0.005).step()
close(t[0], 0.005)
''', "a target update rate below 0.01", "target networks never move")

seed("p09-generator-reset", "P09", T + "reagent_lightning_module.py",
     "            if not self._verified_steps:\n                try:",
     "            if not self._verified_steps and batch_idx > 0:\n                try:",
     COMMON + '''
from reagent.training.reagent_lightning_module import ReAgentLightningModule
class M(ReAgentLightningModule):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.zeros(1))
    def configure_optimizers(self):
        return [torch.optim.SGD([self.w], lr=0.1)]
    def train_step_gen(self, training_batch, batch_idx):
        yield self.w.sum()
        yield self.w.sum()
m = M()
try:
    m.training_step({}, 0, 0)
except RuntimeError:
    pass
else:
    raise SystemExit("a step yielding too many results was accepted")
''', "a training step that yields more results than there are optimizers, in its first batch", "the surplus result is dropped silently")

seed("p10-ppo-minibatch", "P10", T + "ppo_trainer.py",
     "            for i in range(0, len(self.traj_buffer), self.ppo_batch_size):",
     "            for i in range(\n                0,\n                max(len(self.traj_buffer) - self.ppo_batch_size, 0) + 1,\n                self.ppo_batch_size,\n            ):",
     COMMON + '''
from reagent.training.ppo_trainer import PPOTrainer
from reagent.gym.policies.policy import Policy
import inspect
class Samp:
    def log_prob(self, scores, a):
        return scores[:, 0] * 0
class Sc(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.zeros(1))
    def forward(self, s, m=None):
        return s.float_features * self.w
seen = []
tr = PPOTrainer(policy=Policy(scorer=Sc(), sampler=Samp()), update_freq=3, update_epochs=1, ppo_batch_size=2)
def losses(t):
    seen.append(int(t.reward[0]))
    return {"ppo_loss": tr.scorer.w.sum()}
tr._trajectory_to_losses = losses
for k in range(3):
    tr.train(rlt.PolicyGradientInput(state=F(0), action=torch.ones(1, 1), reward=torch.tensor([float(k)]), log_prob=torch.zeros(1)))
assert sorted(seen) == [0, 1, 2], seen
''', "a number of collected trajectories that is not a multiple of the minibatch size", "the trajectories of the last incomplete minibatch are dropped")

seed("p11-threshold-edge", "P11", T + "reward_network_trainer.py",
     "            loss = loss[target <= reward_ignore_threshold]",
     "            loss = loss[target.abs() <= abs(reward_ignore_threshold)]",
     COMMON + '''
from reagent.training.reward_network_trainer import _get_loss_function, LossFunction
f = _get_loss_function(LossFunction.MSE, 2.0)
p = torch.zeros(3, requires_grad=True)
close(f(p, torch.tensor([1.0, -5.0, 9.0])), (1 + 25) / 2)
''', "a reward threshold and rewards more negative than minus the threshold", "rows with very negative rewards are left out of the fit")

EVD = "reagent/evaluation/"
seed("p12-gap", "P12", EVD + "evaluation_data_page.py",
     "                gamma, float(sequence_numbers[x + 1, 0] - sequence_numbers[x, 0])",
     "                gamma, min(1.0, float(sequence_numbers[x + 1, 0] - sequence_numbers[x, 0]))",
     COMMON + '''
from reagent.evaluation.evaluation_data_page import EvaluationDataPage
got = EvaluationDataPage.compute_values_for_mdps(col(1, 1, 1), torch.tensor([[0], [0], [0]]), torch.tensor([[0], [1], [3]]), 0.5)
close(got[0], 1 + 0.5 + 0.125)
''', "an episode with a gap in its sequence numbers", "the later reward is discounted as if it were the next step")

seed("p13-zero-prop", "P13", EVD + "doubly_robust_estimator.py",
     "        ips = isd.importance_weight * isd.logged_rewards  # N*1\n",
     "        ips = isd.importance_weight * isd.logged_rewards.clamp(min=0.0)  # N*1\n",
     COMMON + '''
from reagent.evaluation.doubly_robust_estimator import DoublyRobustEstimator
from reagent.evaluation.evaluation_data_page import EvaluationDataPage
e = EvaluationDataPage(mdp_id=None, sequence_number=None, logged_propensities=col(.5, .5), logged_rewards=col(3, -1), action_mask=torch.eye(2),
   model_propensities=torch.full((2, 2), .5), model_rewards=torch.zeros(2, 2), model_rewards_for_logged_action=col(0, 0))
dm, ips, dr = DoublyRobustEstimator().estimate(e)
close(ips.raw, 1.0)
''', "negative logged rewards", "the inverse propensity estimate counts them as zero")

seed("p14-leak", "P14", EVD + "sequential_doubly_robust_estimator.py",
     "                episode_value = 0.0\n                doubly_robust = 0.0\n",
     "                episode_value = 0.0\n                if episode_end - last_episode_end != 2:\n                    doubly_robust = 0.0\n",
     COMMON + '''
from reagent.evaluation.sequential_doubly_robust_estimator import SequentialDoublyRobustEstimator
from reagent.evaluation.evaluation_data_page import EvaluationDataPage
e = EvaluationDataPage(mdp_id=col(0, 1, 1), sequence_number=None, logged_propensities=col(.5, .5, .5), logged_rewards=col(1, 1, 1), action_mask=torch.tensor([[1., 0]] * 3),
   model_propensities=torch.full((3, 2), .5), model_rewards=None, model_rewards_for_logged_action=None, model_values=torch.zeros(3, 2))
close(SequentialDoublyRobustEstimator(0.5).estimate(e).raw, (1 + 1.5) / 2)
''', "an episode of exactly two steps that follows another episode", "the preceding episode's estimate leaks into it")

seed("p15-zero-weights", "P15", EVD + "weighted_sequential_doubly_robust_estimator.py",
     "            sum_importance_weights[where_zeros] = len(importance_weights)\n            importance_weights[:, where_zeros] = 1.0",
     "            sum_importance_weights[where_zeros] = 1.0",
     COMMON + '''
import numpy as np
from reagent.evaluation.weighted_sequential_doubly_robust_estimator import WeightedSequentialDoublyRobustEstimator as W
got = W.normalize_importance_weights(np.array([[0.0, 1.0], [0.0, 3.0]]), True)
assert np.allclose(got, [[0.5, 0.25], [0.5, 0.75]]), got
''', "a time step at which every episode's cumulative importance weight is zero", "the step is dropped instead of weighting all episodes equally")
