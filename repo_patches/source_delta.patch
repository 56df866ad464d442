From 1ee1d05c5798b29fdfbc50da851fe9e2084473b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:53 +0000
Subject: [PATCH 01/54] fix: skip the soft update when the training step yields
 None

TD3 and discrete CRR yield None for the target update between delayed policy
updates; the closure's None was ignored and the targets were updated anyway.
---
 reagent/optimizer/soft_update.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reagent/optimizer/soft_update.py b/reagent/optimizer/soft_update.py
index e6819c6..be3a099 100644
--- a/reagent/optimizer/soft_update.py
+++ b/reagent/optimizer/soft_update.py
@@ -46,6 +46,9 @@ class SoftUpdate(torch.optim.Optimizer):
         if closure is not None:
             with torch.enable_grad():
                 loss = closure()
+            if loss is None:
+                # The training step yielded None, i.e. this update is to be skipped
+                return None
 
         for group in self.param_groups:
             params = group["params"]
-- 
2.43.0


From 266f00d221ac6cbd93ae565a07a558e58f2c8038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:54 +0000
Subject: [PATCH 02/54] fix: QR-DQN CPE optimizers in the order of the yielded
 losses

_calculate_cpes yields the reward loss before the metric q loss, so the reward
network's optimizer has to come first, as in DQNTrainer.
---
 reagent/training/qrdqn_trainer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reagent/training/qrdqn_trainer.py b/reagent/training/qrdqn_trainer.py
index 99b38d3..caf5b7b 100644
--- a/reagent/training/qrdqn_trainer.py
+++ b/reagent/training/qrdqn_trainer.py
@@ -98,13 +98,13 @@ class QRDQNTrainer(DQNTrainerBaseLightning):
             source_params += list(self.q_network_cpe.parameters())
             # source_params += list(self.reward_network.parameters())
             optimizers.append(
-                self.q_network_cpe_optimizer.make_optimizer(
-                    self.q_network_cpe.parameters()
+                self.reward_network_optimizer.make_optimizer(
+                    self.reward_network.parameters()
                 )
             )
             optimizers.append(
-                self.reward_network_optimizer.make_optimizer(
-                    self.reward_network.parameters()
+                self.q_network_cpe_optimizer.make_optimizer(
+                    self.q_network_cpe.parameters()
                 )
             )
 
-- 
2.43.0


From 1dbcfc6c33bb2d376378323a5c1f99a647a1c9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:54 +0000
Subject: [PATCH 03/54] fix: discrete CRR yields one result per optimizer on
 skipped policy updates

The two Nones yielded in place of the actor loss shifted the CPE losses by one
optimizer and left the soft update without its own result.
---
 reagent/training/discrete_crr_trainer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/reagent/training/discrete_crr_trainer.py b/reagent/training/discrete_crr_trainer.py
index 26a4dab..2e5d541 100644
--- a/reagent/training/discrete_crr_trainer.py
+++ b/reagent/training/discrete_crr_trainer.py
@@ -280,8 +280,7 @@ class DiscreteCRRTrainer(DQNTrainerBaseLightning):
                 )
             yield actor_loss
         else:
-            # Yielding None prevents the actor and target networks from updating
-            yield None
+            # Yielding None prevents the actor network from updating
             yield None
 
         discount_tensor = torch.full_like(rewards, self.gamma)
@@ -314,8 +313,11 @@ class DiscreteCRRTrainer(DQNTrainerBaseLightning):
             model_action_idxs=model_action_idxs,
         )
 
-        # Use the soft update rule to update the target networks.
+        # Use the soft update rule to update the target networks, together with
+        # the actor; yielding None prevents the target networks from updating.
         # Note: this yield has to be the last one, since SoftUpdate is the last
         # optimizer added in the configure_optimizers() function.
-        result = self.soft_update_result()
-        yield result
+        if batch_idx % self.delayed_policy_update == 0:
+            yield self.soft_update_result()
+        else:
+            yield None
-- 
2.43.0


From f32d69faf706839bca130cc1b3db738567417d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:08 +0000
Subject: [PATCH 04/54] fix: resolve the default arguments of SlateQTrainer

---
 reagent/training/slate_q_trainer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reagent/training/slate_q_trainer.py b/reagent/training/slate_q_trainer.py
index 815278f..1bbe941 100644
--- a/reagent/training/slate_q_trainer.py
+++ b/reagent/training/slate_q_trainer.py
@@ -8,6 +8,7 @@ import reagent.parameters as rlp
 import reagent.types as rlt
 import torch
 import torch.nn.functional as F
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.optimizer import Optimizer__Union, SoftUpdate
 from reagent.training.reagent_lightning_module import ReAgentLightningModule
@@ -17,6 +18,7 @@ logger = logging.getLogger(__name__)
 
 
 class SlateQTrainer(RLTrainerMixin, ReAgentLightningModule):
+    @resolve_defaults
     def __init__(
         self,
         q_network,
-- 
2.43.0


From e8a859baaf9bf94d751f5d5c2ae5d59029fee23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:06 +0000
Subject: [PATCH 05/54] fix: discount every column in
 EvaluationDataPage.compute_values_for_mdps

---
 reagent/evaluation/evaluation_data_page.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index 41d88a0..0531443 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -514,7 +514,7 @@ class EvaluationDataPage(NamedTuple):
             if mdp_ids[x] != mdp_ids[x + 1]:
                 # Value = reward for new mdp_id
                 continue
-            values[x, 0] += values[x + 1, 0] * math.pow(
+            values[x] += values[x + 1] * math.pow(
                 gamma, float(sequence_numbers[x + 1, 0] - sequence_numbers[x, 0])
             )
 
-- 
2.43.0


From 2160b71f973a0e9ad9c3f2e929cb783225b5bef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:06 +0000
Subject: [PATCH 06/54] fix: EvaluationDataPage.set_metric_as_reward replaces
 the model values of the logged action

---
 reagent/evaluation/evaluation_data_page.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index 0531443..66303d4 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -598,15 +598,21 @@ class EvaluationDataPage(NamedTuple):
         assert self.model_metrics is not None, "metrics must not be none"
         assert self.model_metrics_values is not None, "metrics must not be none"
 
+        model_rewards = self.model_metrics[:, i * num_actions : (i + 1) * num_actions]
+        model_values = self.model_metrics_values[
+            :, i * num_actions : (i + 1) * num_actions
+        ]
         return self._replace(
             logged_rewards=self.logged_metrics[:, i : i + 1],
             logged_values=self.logged_metrics_values[:, i : i + 1],
-            model_rewards=self.model_metrics[
-                :, i * num_actions : (i + 1) * num_actions
-            ],
-            model_values=self.model_metrics_values[
-                :, i * num_actions : (i + 1) * num_actions
-            ],
+            model_rewards=model_rewards,
+            model_rewards_for_logged_action=torch.sum(
+                model_rewards * self.action_mask, dim=1, keepdim=True
+            ),
+            model_values=model_values,
+            model_values_for_logged_action=torch.sum(
+                model_values * self.action_mask, dim=1, keepdim=True
+            ),
             logged_metrics=None,
             logged_metrics_values=None,
             model_metrics=None,
-- 
2.43.0


From 728812a80095a130132f1608aed0080069bbb024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 07/54] fix: group the metric columns of a parametric
 EvaluationDataPage by metric

---
 reagent/evaluation/evaluation_data_page.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index 66303d4..8055484 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -250,8 +250,17 @@ class EvaluationDataPage(NamedTuple):
         )
         model_rewards = model_rewards.reshape(possible_actions_mask.shape)
 
-        model_metrics = rewards_and_metric_rewards[:, 1:]
-        model_metrics = model_metrics.reshape(possible_actions_mask.shape[0], -1)
+        # columns are grouped by metric (all actions of the first metric first)
+        num_metrics = rewards_and_metric_rewards.shape[1] - 1
+        model_metrics = (
+            rewards_and_metric_rewards[:, 1:]
+            .reshape(*possible_actions_mask.shape, num_metrics)
+            .transpose(1, 2)
+            .reshape(
+                possible_actions_mask.shape[0],
+                num_metrics * possible_actions_mask.shape[1],
+            )
+        )
 
         model_values_for_logged_action = trainer.q_network(states, actions)
         model_rewards_and_metrics_for_logged_action = trainer.reward_network(
@@ -268,7 +277,6 @@ class EvaluationDataPage(NamedTuple):
             dim=2,
         ).float()
         assert torch.all(action_mask.sum(dim=1) == 1)
-        num_metrics = model_metrics.shape[1] // max_num_actions
 
         model_metrics_values = None
         model_metrics_for_logged_action = None
-- 
2.43.0


From a54f07e78348290bff16416fc79af678d8204c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 08/54] fix: MAGIC minimises the covariance plus the outer
 product of the biases

---
 .../evaluation/weighted_sequential_doubly_robust_estimator.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
index e16b9bc..e331bcf 100644
--- a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
+++ b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
@@ -221,7 +221,7 @@ class WeightedSequentialDoublyRobustEstimator:
         j_step_bias[where_higher] = j_step_returns[where_higher] - high_bound
 
         covariance = np.cov(j_step_return_trajectories)
-        error = covariance + j_step_bias.T * j_step_bias
+        error = covariance + np.outer(j_step_bias, j_step_bias)
 
         # minimize mse error
         constraint = {"type": "eq", "fun": lambda x: np.sum(x) - 1.0}
-- 
2.43.0


From c304939a0fd341df3814803ce00e43de4bb9562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 09/54] fix: weighted IPS divides the total, not the average,
 by the total weight

---
 reagent/ope/estimators/contextual_bandits_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/contextual_bandits_estimators.py b/reagent/ope/estimators/contextual_bandits_estimators.py
index 70a6441..d6cc99a 100644
--- a/reagent/ope/estimators/contextual_bandits_estimators.py
+++ b/reagent/ope/estimators/contextual_bandits_estimators.py
@@ -351,7 +351,7 @@ class IPSEstimator(Estimator):
             log_reward=log_avg.average,
             estimated_reward=tgt_avg.average
             if not self._weighted
-            else tgt_avg.average / acc_weight.total,
+            else tgt_avg.total / acc_weight.total,
             ground_truth_reward=gt_avg.average,
             estimated_weight=tgt_avg.count,
             estimated_reward_normalized=tgt_score_normalized,
-- 
2.43.0


From 74ee0c268d48bc1cf45413906368c7c33bd3ed43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:09 +0000
Subject: [PATCH 10/54] fix: bandit doubly robust estimator without a trained
 model falls back to zero rewards

---
 reagent/ope/estimators/contextual_bandits_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/contextual_bandits_estimators.py b/reagent/ope/estimators/contextual_bandits_estimators.py
index d6cc99a..beb0087 100644
--- a/reagent/ope/estimators/contextual_bandits_estimators.py
+++ b/reagent/ope/estimators/contextual_bandits_estimators.py
@@ -172,7 +172,7 @@ class DMEstimator(Estimator):
             )
         trainer = self._trainer
         if trainer is None or not trainer.is_trained:
-            return 0.0, torch.zeros(), torch.zeros()
+            return 0.0, torch.zeros(1), torch.zeros(1)
         assert sample.item_feature is not None
         item_feature = sample.item_feature.flatten()
         features = []
-- 
2.43.0


From 171a23610ea422ef2f806a70bd7b06d453d6c368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 11/54] fix: EpsilonGreedyRLPolicy keeps the action space of
 the wrapped policy

---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index 8846090..d24d470 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -123,7 +123,7 @@ class EpsilonGreedyRLPolicy(RLPolicy):
 
     def __init__(self, policy: RLPolicy, epsilon: float = 0.0):
         assert policy is not None and 0.0 <= epsilon < 1.0
-        super().__init__(policy._device)
+        super().__init__(policy.action_space, policy._device)
         self._policy = policy
         self._exploitation_prob = 1.0 - epsilon
         self._exploration_prob = epsilon / len(policy.action_space)
-- 
2.43.0


From a700efbfbffe4c933215b018b1072baa5aaa2f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 12/54] fix: NeuralDualDICE value loss for non-deterministic
 environments

---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index d24d470..56acc64 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -748,7 +748,7 @@ class NeuralDualDICE(RLEstimator):
             if self.deterministic_env:
                 v_loss = self._compute_loss(input.gamma, sample, True)
             else:
-                v_loss = self._compute_loss(*sample)
+                v_loss = self._compute_loss(input.gamma, sample, False)
             # Populate value gradients and optimize
             v_optim.zero_grad()
             v_loss.backward()
-- 
2.43.0


From 19fd928023b1d07ac1fce68249277d39e1e22336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 13/54] fix: sequential MAGIC discounts the bootstrapped
 next-state value by one more step

---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index 56acc64..f885ac2 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -440,7 +440,7 @@ class MAGICEstimator(IPSEstimator):
         wdr = wdrs[:, -1].sum(0)
         next_vs = torch.zeros((n, horizon), device=self._device)
         next_vs[:, :-1] = vs[:, 1:]
-        gs = wdrs + ws * next_vs * discount
+        gs = wdrs + ws * next_vs * discount * input.gamma
         gs_normal = gs.sub(torch.mean(gs, 0))
         assert n > 1
         omiga = (n / (n - 1.0)) * torch.einsum("ij,ik->jk", gs_normal, gs_normal)
-- 
2.43.0


From 1bb2825c3bf43cfa0ec448e4602e781f990063a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 14/54] fix: OPEvaluator's sequential doubly robust estimate is
 the unweighted one

---
 reagent/evaluation/ope_adapter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/evaluation/ope_adapter.py b/reagent/evaluation/ope_adapter.py
index 0397fea..ce28cf4 100644
--- a/reagent/evaluation/ope_adapter.py
+++ b/reagent/evaluation/ope_adapter.py
@@ -260,7 +260,9 @@ class OPEvaluator(Evaluator):
         )
 
         self.ope_seq_dr_estimator = SequentialOPEstimatorAdapter(
-            SeqDREstimator(device=self._device), gamma, device=self._device
+            SeqDREstimator(weighted=False, device=self._device),
+            gamma,
+            device=self._device,
         )
         self.ope_seq_weighted_dr_estimator = SequentialOPEstimatorAdapter(
             SeqDREstimator(weighted=True, device=self._device),
-- 
2.43.0


From 9b406d38acbf628557cd9528ab9f917b411f5f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 15/54] fix: keep the last step of the longest episodes in
 edp_to_rl_input

---
 reagent/evaluation/ope_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/ope_adapter.py b/reagent/evaluation/ope_adapter.py
index ce28cf4..75933cd 100644
--- a/reagent/evaluation/ope_adapter.py
+++ b/reagent/evaluation/ope_adapter.py
@@ -184,7 +184,7 @@ class SequentialOPEstimatorAdapter:
                         state=State((traj, i + 1)),
                         reward=rewards[traj, i].item(),
                     )
-                    for i in range(horizon - 1)
+                    for i in range(horizon)
                     if actions[traj, i][torch.argmax(actions[traj, i]).item()] != 0.0
                 ]
             )
-- 
2.43.0


From 2efc08f401e729673081f0656a9ccd8efc29124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 16/54] fix: the bias of a MAGIC return below the interval is
 negative

---
 .../evaluation/weighted_sequential_doubly_robust_estimator.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
index e331bcf..0e90da6 100644
--- a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
+++ b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
@@ -216,7 +216,7 @@ class WeightedSequentialDoublyRobustEstimator:
         # decompose error into bias + variance
         j_step_bias = np.zeros([num_j_steps])
         where_lower = np.where(j_step_returns < low_bound)[0]
-        j_step_bias[where_lower] = low_bound - j_step_returns[where_lower]
+        j_step_bias[where_lower] = j_step_returns[where_lower] - low_bound
         where_higher = np.where(j_step_returns > high_bound)[0]
         j_step_bias[where_higher] = j_step_returns[where_higher] - high_bound
 
-- 
2.43.0


From ba3f2dd3fc98c2e8f991622a857ecf5db7ba60d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:47 +0000
Subject: [PATCH 17/54] fix: OPEvaluator's MAGIC estimate no longer
 back-propagates into the logged data

---
 reagent/evaluation/ope_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/ope_adapter.py b/reagent/evaluation/ope_adapter.py
index 75933cd..9ecab40 100644
--- a/reagent/evaluation/ope_adapter.py
+++ b/reagent/evaluation/ope_adapter.py
@@ -166,7 +166,7 @@ class SequentialOPEstimatorAdapter:
             target_propensities,
             estimated_q_values,
         ) = (
-            torch.tensor(x, dtype=torch.double, device=device, requires_grad=True)
+            torch.tensor(x, dtype=torch.double, device=device)
             for x in eq_len
         )
 
-- 
2.43.0


From 5bea7c5422dc2e688e3e836f0b83398484e019c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 18/54] fix: SlateItemProbabilities.slate_space normalises the
 probabilities first

---
 reagent/ope/estimators/slate_estimators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index cfe6caa..a5dd8fd 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -516,6 +516,7 @@ class SlateItemProbabilities(SlateItemValues):
             items = super().greedy(slate_size)
             return [(items, 1.0)]
         else:
+            self._normalize()
             buffer = [([], 1.0, 0.0)]
             # pyre-fixme[16]: `SlateItemProbabilities` has no attribute
             #  `_probabilities`.
-- 
2.43.0


From 7f0d868557cd8c3d0fe2150763be238f7e90de37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 19/54] fix: slate_space keeps the slates that use up all the
 probability

---
 reagent/ope/estimators/slate_estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index a5dd8fd..eae2863 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -521,7 +521,7 @@ class SlateItemProbabilities(SlateItemValues):
             # pyre-fixme[16]: `SlateItemProbabilities` has no attribute
             #  `_probabilities`.
             probs = self._probabilities.tolist()
-            for _ in range(slate_size):
+            for slot in range(slate_size):
                 next_buffer = []
                 for b0, b1, b2 in buffer:
                     # memory buffer for all ordered combinations so far, list of tuples of
@@ -532,7 +532,7 @@ class SlateItemProbabilities(SlateItemValues):
                         if i in b0:
                             continue
                         nb2 = b2 + i_prob
-                        if nb2 < 1.0:
+                        if nb2 < 1.0 or slot == slate_size - 1:
                             nb1 = b1 * i_prob / (1.0 - b2)
                             next_buffer.append(([*b0, i], nb1, nb2))
                 if max_size <= 0 or max_size > len(next_buffer):
-- 
2.43.0


From 9cf8e0b905a85ce30c5c3f204ce59774921186df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 20/54] fix: ERR relevance is (2^r - 1) / 2^max_reward

---
 reagent/ope/estimators/slate_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index eae2863..d7ba29f 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -890,7 +890,7 @@ class ERRSlateMetric(SlateMetric):
         return slots.fill([1.0 / (r + 1) for r in range(len(slots))])
 
     def slot_values(self, rewards: SlateSlotValues) -> SlateSlotValues:
-        d = torch.tensor(self._max_reward, device=self._device).pow(2.0)
+        d = 2.0 ** self._max_reward
         r = (torch.pow(2.0, rewards.values.clamp(0.0, self._max_reward)) - 1.0) / d
         p = 1.0
         err = torch.zeros(len(rewards), dtype=torch.double, device=self._device)
-- 
2.43.0


From 28499d16bba0014798bb6d21de406be1db717386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 21/54] fix: values and features of slates with named slots

---
 reagent/ope/estimators/slate_estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index d7ba29f..1b7d954 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -221,7 +221,7 @@ class Slate(SlateSlotObjects[SlateItem]):
             # pyre-fixme[16]: `Slate` has no attribute `_values`.
             return SlateSlotValues([item_values[i] for i in self._values])
         else:
-            return SlateSlotValues({k: item_values[i] for k, i in self._key_to_index})
+            return SlateSlotValues({k: item_values[i] for k, i in self})
 
     def slot_features(self, item_features: SlateItemFeatures) -> SlateSlotFeatures:
         """
@@ -239,7 +239,7 @@ class Slate(SlateSlotObjects[SlateItem]):
             )
         else:
             return SlateSlotFeatures(
-                {k: item_features[i].detach().clone() for k, i in self._key_to_index}
+                {k: item_features[i].detach().clone() for k, i in self}
             )
 
     def __repr__(self):
-- 
2.43.0


From e1f6d39fe15b82e77ad80ca190eb24ab0324f8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 22/54] fix: expected rewards of a slate with one slot

---
 reagent/ope/estimators/slate_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 1b7d954..1ac35e8 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -292,7 +292,7 @@ class SlateSlotItemExpectations(SlateSlotItemValues):
         """
         dist = self.values_tensor(device)
         rewards = item_rewards.values.to(device=device)
-        rewards = torch.mm(dist, rewards.unsqueeze(0).t()).squeeze()
+        rewards = torch.mm(dist, rewards.unsqueeze(0).t()).squeeze(1)
         if self.is_sequence:
             return SlateSlotValues(rewards)
         else:
-- 
2.43.0


From 230ad79e9409d8195573c6a1d3faf71ce14a171d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 23/54] fix: greedy slot distributions place an item once when
 valuing a slate

---
 reagent/ope/estimators/slate_estimators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 1ac35e8..ed57977 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -566,11 +566,12 @@ class SlateSlotItemProbabilities(SlateSlotItemValues):
         """
         assert len(slate) <= len(self)
         if self._greedy:
+            last_items = []
             for slot, item in slate:
-                probs = self[slot]
-                its, _ = probs.sort()
-                if its[0] != item:
+                its, _ = self[slot].sort()
+                if next(it for it in its if it not in last_items) != item:
                     return 0.0
+                last_items.append(item)
             return 1.0
         else:
             p = 1.0
-- 
2.43.0


From de2eef9489c64717e2b3b52409433fa15c76fbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 24/54] fix: expectations of slot-dependent item distributions

---
 reagent/ope/estimators/slate_estimators.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index ed57977..9dc73ea 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -644,9 +644,22 @@ class SlateSlotItemProbabilities(SlateSlotItemValues):
             v._normalize()
             prob_list.append(v._probabilities.detach().clone())
         dm[0] = prob_list[0]
-        buffer = [({}, 1.0, 0.0, 1.0)]
-        for d, probs in zip(dm[1:], prob_list[1:]):
-            buffer = _calculate_slot_expectation(d, probs.tolist(), buffer)
+        # all ordered combinations of items in the previous slots, and their
+        # probabilities
+        buffer = [((), 1.0)]
+        for d, last_probs, probs in zip(dm[1:], prob_list, prob_list[1:]):
+            next_buffer = []
+            for items, p in buffer:
+                left = 1.0 - sum(last_probs[i].item() for i in items)
+                for i, i_prob in enumerate(last_probs.tolist()):
+                    if i not in items and i_prob > 0.0:
+                        next_buffer.append(((*items, i), p * i_prob / left))
+            buffer = next_buffer
+            for items, p in buffer:
+                left = probs.clone()
+                left[list(items)] = 0.0
+                if left.sum() > 0.0:
+                    d += p * left / left.sum()
         self._slot_item_expectations = make_slot_item_distributions(
             self.slots, [its.replace(vs) for its, vs in zip(self._values, dm)]
         )
-- 
2.43.0


From 8b7e8a1a190ce6d2d46a604b151b3d5a55aa1358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 25/54] fix: Values.replace drops cached probabilities and
 order of the old values

---
 reagent/ope/estimators/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reagent/ope/estimators/types.py b/reagent/ope/estimators/types.py
index dbd7b85..7efc675 100644
--- a/reagent/ope/estimators/types.py
+++ b/reagent/ope/estimators/types.py
@@ -315,6 +315,7 @@ class Values(Objects[KeyType, float]):
                     copy._values[copy._key_to_index[k]] = v
         else:
             raise TypeError(f"Unsupported values type {type(values)}")
+        copy._reset()
         return copy
 
     def _normalize(self):
-- 
2.43.0


From 5981306ae016f0be28d384929f697e1795315d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:43 +0000
Subject: [PATCH 26/54] Revert "fix: expectations of slot-dependent item
 distributions"

This reverts commit de2eef9489c64717e2b3b52409433fa15c76fbdc.
---
 reagent/ope/estimators/slate_estimators.py | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 9dc73ea..ed57977 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -644,22 +644,9 @@ class SlateSlotItemProbabilities(SlateSlotItemValues):
             v._normalize()
             prob_list.append(v._probabilities.detach().clone())
         dm[0] = prob_list[0]
-        # all ordered combinations of items in the previous slots, and their
-        # probabilities
-        buffer = [((), 1.0)]
-        for d, last_probs, probs in zip(dm[1:], prob_list, prob_list[1:]):
-            next_buffer = []
-            for items, p in buffer:
-                left = 1.0 - sum(last_probs[i].item() for i in items)
-                for i, i_prob in enumerate(last_probs.tolist()):
-                    if i not in items and i_prob > 0.0:
-                        next_buffer.append(((*items, i), p * i_prob / left))
-            buffer = next_buffer
-            for items, p in buffer:
-                left = probs.clone()
-                left[list(items)] = 0.0
-                if left.sum() > 0.0:
-                    d += p * left / left.sum()
+        buffer = [({}, 1.0, 0.0, 1.0)]
+        for d, probs in zip(dm[1:], prob_list[1:]):
+            buffer = _calculate_slot_expectation(d, probs.tolist(), buffer)
         self._slot_item_expectations = make_slot_item_distributions(
             self.slots, [its.replace(vs) for its, vs in zip(self._values, dm)]
         )
-- 
2.43.0


From ffe01c5510ef6b6fe4e31cf5d3a7182931d73a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 27/54] fix: features of type CLIP_LOG can be preprocessed

---
 reagent/preprocessing/preprocessor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reagent/preprocessing/preprocessor.py b/reagent/preprocessing/preprocessor.py
index f8d3b4f..b1c23b3 100644
--- a/reagent/preprocessing/preprocessor.py
+++ b/reagent/preprocessing/preprocessor.py
@@ -214,6 +214,11 @@ class Preprocessor(Module):
         # ONNX doesn't support != yet
         return self.one_tensor - (input == self.zero_tensor).float()
 
+    def _create_parameters_CLIP_LOG(
+        self, begin_index: int, norm_params: List[NormalizationParameters]
+    ):
+        pass
+
     def _preprocess_CLIP_LOG(
         self,
         begin_index: int,
-- 
2.43.0


From 73c5ae1ba5625d056fa3f2df32a4fe4946c46c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 28/54] fix: skip_box_cox identifies the feature from the
 untransformed values

---
 reagent/preprocessing/normalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/preprocessing/normalization.py b/reagent/preprocessing/normalization.py
index cb1c07c..9223e72 100644
--- a/reagent/preprocessing/normalization.py
+++ b/reagent/preprocessing/normalization.py
@@ -93,7 +93,7 @@ def identify_parameter(
                 k2_original, p_original, k2_boxcox, p_boxcox
             )
         )
-        if lambda_ < 0.9 or lambda_ > 1.1:
+        if not skip_box_cox and (lambda_ < 0.9 or lambda_ > 1.1):
             # Lambda is far enough from 1.0 to be worth doing boxcox
             if k2_original > k2_boxcox * 10 and k2_boxcox <= quantile_k2_threshold:
                 # The boxcox output is significantly more normally distributed
-- 
2.43.0


From dbd1b1226ea641f89c6bc4e9ae32c5433c400284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 29/54] fix: SumTree.sample never returns an element without
 priority

With query_value = 1.0 (allowed: [0, 1]) the descent always took the right
branch and ended in a padding leaf, possibly beyond the capacity.
---
 reagent/replay_memory/sum_tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/replay_memory/sum_tree.py b/reagent/replay_memory/sum_tree.py
index f50afd0..c0e785b 100644
--- a/reagent/replay_memory/sum_tree.py
+++ b/reagent/replay_memory/sum_tree.py
@@ -115,8 +115,10 @@ class SumTree(object):
             left_child = node_index * 2
 
             left_sum = nodes_at_this_depth[left_child]
+            right_sum = nodes_at_this_depth[left_child + 1]
             # Each subtree describes a range [0, a), where a is its value.
-            if query_value < left_sum:  # Recurse into left subtree.
+            # An empty right subtree is never entered, even if query_value is 1.0.
+            if query_value < left_sum or right_sum <= 0.0:  # Recurse into left subtree.
                 node_index = left_child
             else:  # Recurse into right subtree.
                 node_index = left_child + 1
-- 
2.43.0


From ec6070b424c6cbabd4fe3df7dea3b04d79adcfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 30/54] fix: prioritized sampling never returns an invalid
 index

When the attempts ran out on the last index (or on several) the invalid index
was returned instead of raising.
---
 reagent/replay_memory/prioritized_replay_buffer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/reagent/replay_memory/prioritized_replay_buffer.py b/reagent/replay_memory/prioritized_replay_buffer.py
index 62c8a39..0cbc5e8 100644
--- a/reagent/replay_memory/prioritized_replay_buffer.py
+++ b/reagent/replay_memory/prioritized_replay_buffer.py
@@ -109,6 +109,14 @@ class PrioritizedReplayBuffer(circular_replay_buffer.ReplayBuffer):
                     # is not stratified.
                     index = self.sum_tree.sample()
                     allowed_attempts -= 1
+                if not self.is_valid_transition(index):
+                    # the last attempt failed as well
+                    raise RuntimeError(
+                        "Max sample attempts: Tried {} times but only sampled {}"
+                        " valid indices. Batch size is {}".format(
+                            self._max_sample_attempts, i, batch_size
+                        )
+                    )
                 indices[i] = index
         return torch.tensor(indices, dtype=torch.int64)
 
-- 
2.43.0


From d74743364fe60251e4f1765c9a5967e2cebbd23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 31/54] fix: prioritized sample_transition_batch with the
 default batch size

---
 reagent/replay_memory/prioritized_replay_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/replay_memory/prioritized_replay_buffer.py b/reagent/replay_memory/prioritized_replay_buffer.py
index 0cbc5e8..9131474 100644
--- a/reagent/replay_memory/prioritized_replay_buffer.py
+++ b/reagent/replay_memory/prioritized_replay_buffer.py
@@ -145,7 +145,7 @@ class PrioritizedReplayBuffer(circular_replay_buffer.ReplayBuffer):
             if element_name == "sampling_probabilities":
                 batch = torch.from_numpy(
                     self.get_priority(transition.indices.numpy().astype(np.int32))
-                ).view(batch_size, 1)
+                ).view(-1, 1)
             else:
                 batch = getattr(transition, element_name)
             batch_arrays.append(batch)
-- 
2.43.0


From 6e8210907dea80164ad94d89b1fb7458ed68dd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:08 +0000
Subject: [PATCH 32/54] fix: a loaded replay buffer knows which transitions are
 valid

The validity bookkeeping was not part of the checkpoint: after load() nothing
could be sampled.
---
 reagent/replay_memory/circular_replay_buffer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index ce5fabd..9184a07 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -272,6 +272,13 @@ STORE_FILENAME_PREFIX = "$store$_"
 # This constant determines how many iterations a checkpoint is kept for.
 CHECKPOINT_DURATION = 4
 
+# Private members that have to be checkpointed, without them nothing can be sampled.
+VALIDITY_MEMBERS = [
+    "_is_index_valid",
+    "_num_valid_indices",
+    "_num_transitions_in_current_episode",
+]
+
 REQUIRED_KEYS = ["observation", "action", "reward", "terminal"]
 
 
@@ -769,14 +776,15 @@ class ReplayBuffer(object):
         """Return the dict of elements of the class for checkpointing.
         Returns:
           checkpointable_elements: dict containing all non private (starting with
-          _) members + all the arrays inside self._store.
+          _) members + all the arrays inside self._store + the bookkeeping of which
+          transitions are valid.
         """
         checkpointable_elements = {}
         for member_name, member in self.__dict__.items():
             if member_name == "_store":
                 for array_name, array in self._store.items():
                     checkpointable_elements[STORE_FILENAME_PREFIX + array_name] = array
-            elif not member_name.startswith("_"):
+            elif not member_name.startswith("_") or member_name in VALIDITY_MEMBERS:
                 checkpointable_elements[member_name] = member
         return checkpointable_elements
 
-- 
2.43.0


From 0849112834e681ed0fa25e17ddd13a6c8a3d6f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:50 +0000
Subject: [PATCH 33/54] fix: sample a single transition with id-list features

numpy takes a one-element tensor for a scalar index, so batches of one failed
(AttributeError: 'dict' object has no attribute 'squeeze').
---
 reagent/replay_memory/circular_replay_buffer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index 9184a07..006e118 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -730,7 +730,11 @@ class ReplayBuffer(object):
         stack_indices = indices.unsqueeze(1) + torch.arange(-self._stack_size + 1, 1)
         # pyre-fixme[16]: `Tensor` has no attribute `__imod__`.
         stack_indices %= self._replay_capacity
-        retval = self._store[key][stack_indices]
+        store = self._store[key]
+        if isinstance(store, np.ndarray):
+            # numpy would take a tensor with a single element for a scalar index
+            stack_indices = stack_indices.numpy()
+        retval = store[stack_indices]
         return self._key_to_replay_elem[key].metadata.sample_to_output(retval)
 
     def _get_steps(self, multistep_indices: torch.Tensor) -> torch.Tensor:
-- 
2.43.0


From 1cf24502d60958caed2b531cd33a91698a881524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 34/54] fix: log-probabilities of GreedyActionSampler

log_prob gave -inf to the greedy action and 0 to all others, and sampled
actions were reported with log-probability 1.
---
 reagent/gym/policies/samplers/discrete_sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/gym/policies/samplers/discrete_sampler.py b/reagent/gym/policies/samplers/discrete_sampler.py
index ac895ec..667eb8a 100644
--- a/reagent/gym/policies/samplers/discrete_sampler.py
+++ b/reagent/gym/policies/samplers/discrete_sampler.py
@@ -85,7 +85,7 @@ class GreedyActionSampler(Sampler):
         action = F.one_hot(raw_action, num_actions)
         assert action.shape == (batch_size, num_actions)
         return rlt.ActorOutput(
-            action=action, log_prob=torch.ones_like(raw_action, dtype=torch.float)
+            action=action, log_prob=torch.zeros_like(raw_action, dtype=torch.float)
         )
 
     # pyre-fixme[56]: Decorator `torch.no_grad(...)` could not be called, because
@@ -96,7 +96,7 @@ class GreedyActionSampler(Sampler):
         # pyre-fixme[16]: `Tensor` has no attribute `argmax`.
         match = greedy_indices == action.argmax(-1)
         lp = torch.zeros(scores.shape[0]).float()
-        lp[match] = -float("inf")
+        lp[~match] = -float("inf")
         return lp
 
 
-- 
2.43.0


From 46af7542259f9d980508167996d3a93e6e257413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 35/54] fix: EpsilonGreedyActionSampler could neither sample
 nor give log-probabilities

full_like had its arguments swapped, log_prob used a fresh sample (with an
attribute ActorOutput does not have), the batch size for the number of actions,
and returned probabilities.
---
 .../gym/policies/samplers/discrete_sampler.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/reagent/gym/policies/samplers/discrete_sampler.py b/reagent/gym/policies/samplers/discrete_sampler.py
index 667eb8a..9e7d9ce 100644
--- a/reagent/gym/policies/samplers/discrete_sampler.py
+++ b/reagent/gym/policies/samplers/discrete_sampler.py
@@ -121,7 +121,9 @@ class EpsilonGreedyActionSampler(Sampler):
         assert minimum_epsilon <= epsilon_decay
         self.minimum_epsilon = minimum_epsilon
 
-    def sample_action(self, scores: torch.Tensor) -> rlt.ActorOutput:
+    def _get_distribution(
+        self, scores: torch.Tensor
+    ) -> torch.distributions.Categorical:
         assert scores.dim() == 2, (
             "scores dim is %d" % scores.dim()
         )  # batch_size x num_actions
@@ -131,12 +133,16 @@ class EpsilonGreedyActionSampler(Sampler):
         argmax = F.one_hot(scores.argmax(dim=1), num_actions).bool()
 
         rand_prob = self.epsilon / num_actions
-        p = torch.full_like(rand_prob, scores)
+        p = torch.full_like(scores, rand_prob)
 
         greedy_prob = 1 - self.epsilon + rand_prob
         p[argmax] = greedy_prob
 
-        m = torch.distributions.Categorical(probs=p)
+        return torch.distributions.Categorical(probs=p)
+
+    def sample_action(self, scores: torch.Tensor) -> rlt.ActorOutput:
+        m = self._get_distribution(scores)
+        batch_size, num_actions = scores.shape
         raw_action = m.sample()
         action = F.one_hot(raw_action, num_actions)
         assert action.shape == (batch_size, num_actions)
@@ -145,13 +151,8 @@ class EpsilonGreedyActionSampler(Sampler):
         return rlt.ActorOutput(action=action, log_prob=log_prob)
 
     def log_prob(self, scores: torch.Tensor, action: torch.Tensor) -> torch.Tensor:
-        max_index = self.sample_action(scores).argmax(-1)
         # pyre-fixme[16]: `Tensor` has no attribute `argmax`.
-        opt = max_index == action.argmax(-1)
-        n = len(scores)
-        lp = torch.ones(n) * self.epsilon / n
-        lp[opt] = 1 - self.epsilon + self.epsilon / n
-        return lp
+        return self._get_distribution(scores).log_prob(action.argmax(-1))
 
     def update(self) -> None:
         self.epsilon *= self.epsilon_decay
-- 
2.43.0


From c2f6d5e7dec03fe27f9f99499919c593fa6b891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 36/54] fix: GaussianSampler called methods the actor does not
 have

---
 reagent/gym/policies/samplers/continuous_sampler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/reagent/gym/policies/samplers/continuous_sampler.py b/reagent/gym/policies/samplers/continuous_sampler.py
index 0775e39..9ce952f 100644
--- a/reagent/gym/policies/samplers/continuous_sampler.py
+++ b/reagent/gym/policies/samplers/continuous_sampler.py
@@ -15,7 +15,7 @@ class GaussianSampler(Sampler):
         # pyre-fixme[16]: `Tensor` has no attribute `exp`.
         action = torch.tanh(loc + r * scale_log.exp())
         # Since each dim are independent, log-prob is simply sum
-        log_prob = self.actor_network._log_prob(r, scale_log)
+        log_prob = self.actor_network._normal_log_prob(r, scale_log)
         squash_correction = self.actor_network._squash_correction(action)
         log_prob = torch.sum(log_prob - squash_correction, dim=1)
         return action, log_prob
@@ -36,7 +36,7 @@ class GaussianSampler(Sampler):
         # This is not getting exported; we can use it
         # pyre-fixme[16]: `Tensor` has no attribute `exp`.
         n = torch.distributions.Normal(loc, scale_log.exp())
-        raw_action = self.actor_network._atanh(squashed_action)
+        raw_action = torch.atanh(squashed_action)
         log_prob = n.log_prob(raw_action)
         squash_correction = self.actor_network._squash_correction(squashed_action)
         log_prob = torch.sum(log_prob - squash_correction, dim=1)
@@ -49,7 +49,6 @@ class GaussianSampler(Sampler):
         self, scores: GaussianSamplerScore, squashed_action: torch.Tensor
     ) -> torch.Tensor:
         self.actor_network.eval()
-        # pyre-fixme[20]: Argument `squashed_action` expected.
-        log_prob = self._log_prob(scores.loc, scores.scale_log)
+        log_prob = self._log_prob(scores.loc, scores.scale_log, squashed_action)
         self.actor_network.train()
         return log_prob
-- 
2.43.0


From 35a832ffc7636f2b63dd6587104c3315a31957bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:36 +0000
Subject: [PATCH 37/54] fix: FrechetSort(topk) truncated the batch instead of
 the ranking

---
 reagent/samplers/frechet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/samplers/frechet.py b/reagent/samplers/frechet.py
index 4f0a902..ecc8dd0 100644
--- a/reagent/samplers/frechet.py
+++ b/reagent/samplers/frechet.py
@@ -73,7 +73,7 @@ class FrechetSort(Sampler):
         log_prob = self.log_prob(scores, action)
         # Only truncate the action before returning
         if self.topk is not None:
-            action = action[: self.topk]
+            action = action[:, : self.topk]
         return rlt.ActorOutput(action, log_prob)
 
     def log_prob(self, scores: torch.Tensor, action) -> torch.Tensor:
-- 
2.43.0


From 8d500b205b2b1658c7169f2715ab38d51d951a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:29 +0000
Subject: [PATCH 38/54] fix: keep the batch and slate dimensions of encoder
 scores of size one in Seq2Slate

---
 reagent/models/seq2slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/seq2slate.py b/reagent/models/seq2slate.py
index 7aea7a5..462e076 100644
--- a/reagent/models/seq2slate.py
+++ b/reagent/models/seq2slate.py
@@ -709,7 +709,7 @@ class Seq2SlateTransformerModel(nn.Module):
         # slate_encoder_output shape: batch_size, tgt_seq_len, dim_model
         slate_encoder_output = gather(encoder_output, tgt_out_idx - 2)
         # encoder_scores shape: batch_size, tgt_seq_len
-        encoder_scores = self.encoder_scorer(slate_encoder_output).squeeze()
+        encoder_scores = self.encoder_scorer(slate_encoder_output).squeeze(dim=2)
         return Seq2SlateTransformerOutput(
             ranked_per_symbol_probs=None,
             ranked_per_seq_probs=None,
-- 
2.43.0


From 030b965bf3e1d3165e5f0a4eae4a4b66a7b30105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:29 +0000
Subject: [PATCH 39/54] fix: keep sequence and batch dimensions of size one in
 gmm_loss

---
 reagent/models/mdn_rnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/mdn_rnn.py b/reagent/models/mdn_rnn.py
index 73057b3..caae4d9 100644
--- a/reagent/models/mdn_rnn.py
+++ b/reagent/models/mdn_rnn.py
@@ -225,7 +225,7 @@ def gmm_loss(batch, mus, sigmas, logpi, reduce=True):
     g_probs = torch.exp(g_log_probs)
     probs = torch.sum(g_probs, dim=-1)
 
-    log_prob = max_log_probs.squeeze() + torch.log(probs)
+    log_prob = max_log_probs.squeeze(-1) + torch.log(probs)
     if reduce:
         return -(torch.mean(log_prob))
     return -log_prob
-- 
2.43.0


From e84486b6d6988968b81dcf8ac75c6d3a4c703715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 40/54] fix: keep single-step trajectories and one-dimensional
 actions in PolicyGradientInputMaker

---
 reagent/gym/preprocessors/trainer_preprocessor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reagent/gym/preprocessors/trainer_preprocessor.py b/reagent/gym/preprocessors/trainer_preprocessor.py
index 247242d..ac02ae6 100644
--- a/reagent/gym/preprocessors/trainer_preprocessor.py
+++ b/reagent/gym/preprocessors/trainer_preprocessor.py
@@ -454,9 +454,10 @@ class PolicyGradientInputMaker:
         return _stack([_stack_slate(slate) for slate in observation])
 
     def __call__(self, trajectory: Trajectory):
-        action = torch.from_numpy(np.stack(trajectory.action).squeeze())
+        # one row per transition, even for a single transition or 1-dim actions
+        action = torch.from_numpy(np.stack(trajectory.action))
         if self.num_actions is not None:
-            action = F.one_hot(action, self.num_actions).float()
+            action = F.one_hot(action.reshape(-1), self.num_actions).float()
             assert len(action.shape) == 2, f"{action.shape}"
             # one hot makes shape (batch_size, num_actions)
         state = (
-- 
2.43.0


From da161c4c4809759f76a67facadac6685db2e6143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:47 +0000
Subject: [PATCH 41/54] fix: first-visit Monte Carlo averages the returns of
 first visits

---
 reagent/ope/trainers/rl_tabular_trainers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index dbd6acc..ff18d5f 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -262,7 +262,7 @@ class MonteCarloValueFunction(TabularValueFunction):
                         continue
                     g = self._gamma * g + t.reward
                     counts = state_counts[t.last_state]
-                    if counts > 1:
+                    if counts == 1:
                         self._update_state_value(t.last_state, g)
                     counts -= 1
                     if counts == 0:
@@ -334,7 +334,7 @@ class MonteCarloTrainer(object):
                         g = gamma * g + t.reward
                         key = (t.last_state, t.action)
                         vc = vcounts[key]
-                        if vc > 1:
+                        if vc == 1:
                             self._update_state_value(
                                 value_counts, t.last_state, t.action, g
                             )
-- 
2.43.0


From bebdc7192d5e3d235dd20edfc664c99c103e5deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:47 +0000
Subject: [PATCH 42/54] fix: CEM planner accepts populations of fewer than ten
 solutions

---
 reagent/models/cem_planner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/cem_planner.py b/reagent/models/cem_planner.py
index dafdb30..825530c 100644
--- a/reagent/models/cem_planner.py
+++ b/reagent/models/cem_planner.py
@@ -185,7 +185,7 @@ class CEMPlannerNetwork(nn.Module):
         acc_reward_vec = np.zeros(self.cem_pop_size)
         init_state = state.float_features
         for i in range(self.cem_pop_size):
-            if i % (self.cem_pop_size // 10) == 0:
+            if i % max(1, self.cem_pop_size // 10) == 0:
                 logger.debug(f"Simulating the {i}-th solution...")
             acc_reward_vec[i] = self.acc_rewards_of_one_solution(
                 init_state, solutions[i], i
-- 
2.43.0


From ec9d57876e88cef2b9dee5e6767db586b018aa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:47 +0000
Subject: [PATCH 43/54] fix: BCQ with SARSA targets does not need a
 possible-actions mask

---
 reagent/training/dqn_trainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/training/dqn_trainer.py b/reagent/training/dqn_trainer.py
index 8af4eda..c249e9b 100644
--- a/reagent/training/dqn_trainer.py
+++ b/reagent/training/dqn_trainer.py
@@ -226,7 +226,8 @@ class DQNTrainer(DQNTrainerBaseLightning):
             action_on_policy = get_valid_actions_from_imitator(
                 self.bcq_imitator, training_batch.state, self.bcq_drop_threshold
             )
-            possible_actions_mask *= action_on_policy
+            if self.maxq_learning:
+                possible_actions_mask *= action_on_policy
 
         # Do we ever use model_action_idxs computed below?
         model_action_idxs = self.get_max_q_values(
-- 
2.43.0


From 30e862005e75d4dbbce608347013575b54939930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:08 +0000
Subject: [PATCH 44/54] fix: evaluate each metric once, not the reward as a
 further metric

---
 reagent/training/dqn_trainer_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/training/dqn_trainer_base.py b/reagent/training/dqn_trainer_base.py
index 03a90c6..1fe29fc 100644
--- a/reagent/training/dqn_trainer_base.py
+++ b/reagent/training/dqn_trainer_base.py
@@ -168,7 +168,8 @@ class DQNTrainerBaseLightning(DQNTrainerMixin, RLTrainerMixin, ReAgentLightningM
             self._actions,
             self.rl_parameters.gamma,
             self.trainer,
-            metrics_to_score=self.metrics_to_score,
+            # the reward is scored by itself; it is the last of metrics_to_score
+            metrics_to_score=self.metrics_to_score[:-1],
         )
 
     def _calculate_cpes(
-- 
2.43.0


From 5b979d60b8c0ca57266c400d12e21c63258ea329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:34 +0000
Subject: [PATCH 45/54] fix: the tabular value of an action discounts the value
 of the next state

---
 reagent/ope/trainers/rl_tabular_trainers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index ff18d5f..5b32c49 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -88,8 +88,8 @@ class TabularValueFunction(ValueFunction):
     def state_action_value(self, state: State, action: Action) -> float:
         value = 0.0
         sr_dist = self._model.next_state_reward_dist(state, action)
-        for _, rp in sr_dist.items():
-            value += rp.prob * (rp.reward + self._gamma * self.state_value(state))
+        for next_state, rp in sr_dist.items():
+            value += rp.prob * (rp.reward + self._gamma * self.state_value(next_state))
         return value
 
     def state_value(self, state: State) -> float:
-- 
2.43.0


From 86db4404310d125bcacd3eabec32bf7403be3de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 46/54] fix: CEM planner averages the reward of a candidate
 over its trajectories

---
 reagent/models/cem_planner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/models/cem_planner.py b/reagent/models/cem_planner.py
index 825530c..e92bdbe 100644
--- a/reagent/models/cem_planner.py
+++ b/reagent/models/cem_planner.py
@@ -187,8 +187,8 @@ class CEMPlannerNetwork(nn.Module):
         for i in range(self.cem_pop_size):
             if i % max(1, self.cem_pop_size // 10) == 0:
                 logger.debug(f"Simulating the {i}-th solution...")
-            acc_reward_vec[i] = self.acc_rewards_of_one_solution(
-                init_state, solutions[i], i
+            acc_reward_vec[i] = np.mean(
+                self.acc_rewards_of_one_solution(init_state, solutions[i], i)
             )
         return acc_reward_vec
 
-- 
2.43.0


From bd828b6bfffbfcba8095f652b70e692ef66b335b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 47/54] fix: object_to_json no longer raises on isinstance(o,
 NamedTuple)

---
 reagent/json_serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/json_serialize.py b/reagent/json_serialize.py
index 7169308..a757707 100644
--- a/reagent/json_serialize.py
+++ b/reagent/json_serialize.py
@@ -5,7 +5,7 @@ import collections
 import json
 import logging
 from dataclasses import asdict, dataclass, fields, is_dataclass
-from typing import Any, NamedTuple, Type, Union
+from typing import Any, Type, Union
 
 
 logger = logging.getLogger(__name__)
@@ -17,7 +17,7 @@ def object_to_json(o: Any) -> str:
 
 
 def prepare_for_json(o: Any) -> Any:
-    if isinstance(o, NamedTuple):
+    if isinstance(o, tuple) and hasattr(o, "_fields"):
         d = {}
         for field_name in o._fields:
             d[field_name] = prepare_for_json(getattr(o, field_name))
-- 
2.43.0


From 25dd89eaa3909042cd0e408f9acd13eb9c1f6f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 48/54] fix: actor net builders honour the configured
 use_layer_norm

---
 reagent/models/actor.py                                 | 2 ++
 reagent/net_builder/continuous_actor/fully_connected.py | 1 +
 reagent/net_builder/discrete_actor/fully_connected.py   | 1 +
 3 files changed, 4 insertions(+)

diff --git a/reagent/models/actor.py b/reagent/models/actor.py
index 0660e0a..6d0f91a 100644
--- a/reagent/models/actor.py
+++ b/reagent/models/actor.py
@@ -41,6 +41,7 @@ class FullyConnectedActor(ModelBase):
         use_batch_norm: bool = False,
         action_activation: str = "tanh",
         exploration_variance: Optional[float] = None,
+        use_layer_norm: bool = False,
     ):
         super().__init__()
         assert state_dim > 0, "state_dim must be > 0, got {}".format(state_dim)
@@ -57,6 +58,7 @@ class FullyConnectedActor(ModelBase):
             [state_dim] + sizes + [action_dim],
             activations + [self.action_activation],
             use_batch_norm=use_batch_norm,
+            use_layer_norm=use_layer_norm,
         )
 
         # Gaussian noise for exploration.
diff --git a/reagent/net_builder/continuous_actor/fully_connected.py b/reagent/net_builder/continuous_actor/fully_connected.py
index 4b11355..4b6d026 100644
--- a/reagent/net_builder/continuous_actor/fully_connected.py
+++ b/reagent/net_builder/continuous_actor/fully_connected.py
@@ -52,4 +52,5 @@ class FullyConnected(ContinuousActorNetBuilder):
             use_batch_norm=self.use_batch_norm,
             action_activation=self.action_activation,
             exploration_variance=self.exploration_variance,
+            use_layer_norm=self.use_layer_norm,
         )
diff --git a/reagent/net_builder/discrete_actor/fully_connected.py b/reagent/net_builder/discrete_actor/fully_connected.py
index 4191b7b..7937bda 100644
--- a/reagent/net_builder/discrete_actor/fully_connected.py
+++ b/reagent/net_builder/discrete_actor/fully_connected.py
@@ -44,4 +44,5 @@ class FullyConnected(DiscreteActorNetBuilder):
             use_batch_norm=self.use_batch_norm,
             action_activation=self.action_activation,
             exploration_variance=self.exploration_variance,
+            use_layer_norm=self.use_layer_norm,
         )
-- 
2.43.0


From 1945a7e9c2d960ed25aa242cddc97b3e2107cea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:05 +0000
Subject: [PATCH 49/54] fix: summary_writer finds a single TensorBoard logger

---
 reagent/training/reagent_lightning_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/training/reagent_lightning_module.py b/reagent/training/reagent_lightning_module.py
index cf6b4df..caf76d0 100644
--- a/reagent/training/reagent_lightning_module.py
+++ b/reagent/training/reagent_lightning_module.py
@@ -86,8 +86,8 @@ class ReAgentLightningModule(pl.LightningModule):
                 if isinstance(logger, pl.loggers.tensorboard.TensorBoardLogger):
                     self._summary_writer = logger.experiment
                     break
-        elif isinstance(logger, pl.loggers.tensorboard.TensorBoardLogger):
-            self._summary_writer = logger.experiment
+        elif isinstance(self.logger, pl.loggers.tensorboard.TensorBoardLogger):
+            self._summary_writer = self.logger.experiment
 
         return self._summary_writer
 
-- 
2.43.0


From f6d053eafe0a881af63ea71cddb0fd9ef30c502c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:32 +0000
Subject: [PATCH 50/54] fix: run_evaluation evaluates every experiment a worker
 is given

---
 reagent/ope/estimators/estimator.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/reagent/ope/estimators/estimator.py b/reagent/ope/estimators/estimator.py
index f53db8a..d5efbac 100644
--- a/reagent/ope/estimators/estimator.py
+++ b/reagent/ope/estimators/estimator.py
@@ -198,19 +198,18 @@ def run_evaluation(
     logger.info(f"received filename {file_name}")
     try:
         with open(file_name, "rb") as fp:
-            estimators, inputs = pickle.load(fp)
+            experiments = pickle.load(fp)
     except Exception as err:
         return None
     results = {}
-    for estimator in estimators:
-        estimator_name = repr(estimator)
-        estimator_results = []
-        for input in inputs:
+    for estimators, input in experiments:
+        for estimator in estimators:
+            estimator_name = repr(estimator)
+            estimator_results = results.setdefault(estimator_name, [])
             try:
                 estimator_results.append(estimator.evaluate(input))
             except Exception as err:
                 logger.error(f"{estimator_name} error {err}")
-        results[repr(estimator)] = estimator_results
     return results
 
 
-- 
2.43.0


From 02c27310be4cc45392ea68e4ff9ef72b300489f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 51/54] fix: Values.sort answers for the direction asked

---
 reagent/ope/estimators/types.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/reagent/ope/estimators/types.py b/reagent/ope/estimators/types.py
index 7efc675..b4cc688 100644
--- a/reagent/ope/estimators/types.py
+++ b/reagent/ope/estimators/types.py
@@ -241,7 +241,7 @@ class Values(Objects[KeyType, float]):
         super()._reset()
         self._probabilities = None
         self._is_normalized = False
-        self._sorted = None
+        self._sorted = {}
 
     def __getitem__(self, key: KeyType) -> float:
         return super().__getitem__(key).item()
@@ -264,17 +264,15 @@ class Values(Objects[KeyType, float]):
             Tuple of sorted indices and values
         """
         # pyre-fixme[16]: `Values` has no attribute `_sorted`.
-        if self._sorted is None:
+        if descending not in self._sorted:
             # pyre-fixme[16]: `Values` has no attribute `_values`.
             rs, ids = torch.sort(self._values, descending=descending)
             if self._index_to_key is not None:
-                self._sorted = (
-                    [self._index_to_key[i.item()] for i in ids],
-                    rs.detach(),
-                )
+                keys = [self._index_to_key[i.item()] for i in ids]
             else:
-                self._sorted = ([self._to_key(i.item()) for i in ids], rs.detach())
-        return self._sorted
+                keys = [self._to_key(i.item()) for i in ids]
+            self._sorted[descending] = (keys, rs.detach())
+        return self._sorted[descending]
 
     @property
     def _values_copy(self) -> Tensor:
-- 
2.43.0


From 6d3fcdb2fd821bf5fecbbfa89bf2fcd9fbd00aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 52/54] fix: replay_buffer_to_pre_timeline_df exports every
 transition once

---
 reagent/replay_memory/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/replay_memory/utils.py b/reagent/replay_memory/utils.py
index dce70a3..1758548 100644
--- a/reagent/replay_memory/utils.py
+++ b/reagent/replay_memory/utils.py
@@ -26,8 +26,8 @@ def replay_buffer_to_pre_timeline_df(
     is_discrete_action: bool, replay_buffer: ReplayBuffer
 ) -> pd.DataFrame:
     """ Format needed for uploading dataset to Hive, and then run timeline. """
-    n = replay_buffer.size
-    batch = replay_buffer.sample_transition_batch(batch_size=n)
+    batch = replay_buffer.sample_all_valid_transitions()
+    n = batch.reward.shape[0]
 
     # actions is inconsistent between models, so let's infer them.
     possible_actions_mask = getattr(batch, "possible_actions_mask", None)
-- 
2.43.0


From a02921f0c2fa40cf07a3228ba4a43c86c4b4da28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:39 +0000
Subject: [PATCH 53/54] fix: a loaded TabularPolicy explores as the one that
 was saved

---
 reagent/ope/trainers/rl_tabular_trainers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index 5b32c49..535e729 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -65,6 +65,10 @@ class TabularPolicy(RLPolicy):
         try:
             with open(path, "rb") as f:
                 self._action_space, self._epsilon, self._state_space = pickle.load(f)
+            as_size = len(self._action_space)
+            self._exploitation_prob = 1.0 - self._epsilon
+            self._exploration_prob = self._epsilon / as_size
+            self._uniform_probs = as_size * [1.0 / as_size]
         except Exception:
             return False
         else:
-- 
2.43.0


From 1ed877f2fbdba2229a05d77aa09d82e3dfddd7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:54 +0000
Subject: [PATCH 54/54] fix: Reinforce, PPO and simulation trainers save the
 networks they have

---
 reagent/training/ppo_trainer.py                   | 5 ++++-
 reagent/training/ranking/seq2slate_sim_trainer.py | 3 +--
 reagent/training/reinforce.py                     | 5 ++++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/reagent/training/ppo_trainer.py b/reagent/training/ppo_trainer.py
index 67a80cb..99ace7b 100644
--- a/reagent/training/ppo_trainer.py
+++ b/reagent/training/ppo_trainer.py
@@ -176,4 +176,7 @@ class PPOTrainer(Trainer):
         """
         The trainer should specify what members to save and load
         """
-        return ["scorer", "policy"]
+        components = ["scorer"]
+        if self.value_net is not None:
+            components.append("value_net")
+        return components
diff --git a/reagent/training/ranking/seq2slate_sim_trainer.py b/reagent/training/ranking/seq2slate_sim_trainer.py
index d9df4f1..d9a2ab6 100644
--- a/reagent/training/ranking/seq2slate_sim_trainer.py
+++ b/reagent/training/ranking/seq2slate_sim_trainer.py
@@ -120,8 +120,7 @@ class Seq2SlateSimulationTrainer(Trainer):
         self.baseline_net = self.trainer.baseline_net
 
     def warm_start_components(self):
-        components = ["seq2slate_net"]
-        return components
+        return self.trainer.warm_start_components()
 
     # pyre-fixme[56]: Decorator `torch.no_grad(...)` could not be called, because
     #  its type `no_grad` is not callable.
diff --git a/reagent/training/reinforce.py b/reagent/training/reinforce.py
index 3ba0ae2..632ebf6 100644
--- a/reagent/training/reinforce.py
+++ b/reagent/training/reinforce.py
@@ -117,4 +117,7 @@ class Reinforce(Trainer):
         """
         The trainer should specify what members to save and load
         """
-        return ["scorer", "actor"]
+        components = ["scorer"]
+        if self.value_net is not None:
+            components.append("value_net")
+        return components
-- 
2.43.0

