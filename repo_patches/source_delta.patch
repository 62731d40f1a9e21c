From 20207104dd93df19a89aaea9ebcee28f3a709bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:44 +0000
Subject: [PATCH 01/62] fix: discrete CRR yields one loss per optimizer on
 skipped policy updates

---
 reagent/training/discrete_crr_trainer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/reagent/training/discrete_crr_trainer.py b/reagent/training/discrete_crr_trainer.py
index 26a4dab..9ac7305 100644
--- a/reagent/training/discrete_crr_trainer.py
+++ b/reagent/training/discrete_crr_trainer.py
@@ -280,8 +280,7 @@ class DiscreteCRRTrainer(DQNTrainerBaseLightning):
                 )
             yield actor_loss
         else:
-            # Yielding None prevents the actor and target networks from updating
-            yield None
+            # Yielding None prevents the actor network from updating
             yield None
 
         discount_tensor = torch.full_like(rewards, self.gamma)
@@ -316,6 +315,9 @@ class DiscreteCRRTrainer(DQNTrainerBaseLightning):
 
         # Use the soft update rule to update the target networks.
         # Note: this yield has to be the last one, since SoftUpdate is the last
-        # optimizer added in the configure_optimizers() function.
-        result = self.soft_update_result()
-        yield result
+        # optimizer added in the configure_optimizers() function. Yielding None
+        # prevents the target networks from updating along with the actor.
+        if batch_idx % self.delayed_policy_update == 0:
+            yield self.soft_update_result()
+        else:
+            yield None
-- 
2.43.0


From c72b36ebad63645a40f9f41ebda6b5cc662d0c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:44 +0000
Subject: [PATCH 02/62] fix: QR-DQN declares CPE optimizers in the order their
 losses are yielded

_calculate_cpes yields the reward loss before the CPE Q loss, so the reward
network's optimizer must come first; otherwise each head's gradients are
zeroed or skipped by the other head's optimizer step.
---
 reagent/training/qrdqn_trainer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reagent/training/qrdqn_trainer.py b/reagent/training/qrdqn_trainer.py
index 99b38d3..caf5b7b 100644
--- a/reagent/training/qrdqn_trainer.py
+++ b/reagent/training/qrdqn_trainer.py
@@ -98,13 +98,13 @@ class QRDQNTrainer(DQNTrainerBaseLightning):
             source_params += list(self.q_network_cpe.parameters())
             # source_params += list(self.reward_network.parameters())
             optimizers.append(
-                self.q_network_cpe_optimizer.make_optimizer(
-                    self.q_network_cpe.parameters()
+                self.reward_network_optimizer.make_optimizer(
+                    self.reward_network.parameters()
                 )
             )
             optimizers.append(
-                self.reward_network_optimizer.make_optimizer(
-                    self.reward_network.parameters()
+                self.q_network_cpe_optimizer.make_optimizer(
+                    self.q_network_cpe.parameters()
                 )
             )
 
-- 
2.43.0


From a24793003dc8f4caca74dfd0012ce9c656a2197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:57 +0000
Subject: [PATCH 03/62] fix: summary_writer inspects the module's logger when
 it is a single TensorBoardLogger

The elif read the loop variable 'logger', unbound on that path, so every
access with a plain TensorBoardLogger raised UnboundLocalError.
---
 reagent/training/reagent_lightning_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/training/reagent_lightning_module.py b/reagent/training/reagent_lightning_module.py
index cf6b4df..caf76d0 100644
--- a/reagent/training/reagent_lightning_module.py
+++ b/reagent/training/reagent_lightning_module.py
@@ -86,8 +86,8 @@ class ReAgentLightningModule(pl.LightningModule):
                 if isinstance(logger, pl.loggers.tensorboard.TensorBoardLogger):
                     self._summary_writer = logger.experiment
                     break
-        elif isinstance(logger, pl.loggers.tensorboard.TensorBoardLogger):
-            self._summary_writer = logger.experiment
+        elif isinstance(self.logger, pl.loggers.tensorboard.TensorBoardLogger):
+            self._summary_writer = self.logger.experiment
 
         return self._summary_writer
 
-- 
2.43.0


From e481cbfc053237afd96807982e784c49fa9cf25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:03 +0000
Subject: [PATCH 04/62] fix: prioritized replay never returns an invalid index
 when attempts run out

---
 reagent/replay_memory/prioritized_replay_buffer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/reagent/replay_memory/prioritized_replay_buffer.py b/reagent/replay_memory/prioritized_replay_buffer.py
index 62c8a39..79f8edd 100644
--- a/reagent/replay_memory/prioritized_replay_buffer.py
+++ b/reagent/replay_memory/prioritized_replay_buffer.py
@@ -96,19 +96,19 @@ class PrioritizedReplayBuffer(circular_replay_buffer.ReplayBuffer):
         allowed_attempts = self._max_sample_attempts
         for i in range(len(indices)):
             if not self.is_valid_transition(indices[i]):
-                if allowed_attempts == 0:
-                    raise RuntimeError(
-                        "Max sample attempts: Tried {} times but only sampled {}"
-                        " valid indices. Batch size is {}".format(
-                            self._max_sample_attempts, i, batch_size
-                        )
-                    )
                 index = indices[i]
                 while not self.is_valid_transition(index) and allowed_attempts > 0:
                     # If index i is not valid keep sampling others. Note that this
                     # is not stratified.
                     index = self.sum_tree.sample()
                     allowed_attempts -= 1
+                if not self.is_valid_transition(index):
+                    raise RuntimeError(
+                        "Max sample attempts: Tried {} times but only sampled {}"
+                        " valid indices. Batch size is {}".format(
+                            self._max_sample_attempts, i, batch_size
+                        )
+                    )
                 indices[i] = index
         return torch.tensor(indices, dtype=torch.int64)
 
-- 
2.43.0


From fa5e25ec122d753f01aa98491d855ea1b49be1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:03 +0000
Subject: [PATCH 05/62] fix: prioritized sample_transition_batch accepts the
 default batch size

---
 reagent/replay_memory/prioritized_replay_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/replay_memory/prioritized_replay_buffer.py b/reagent/replay_memory/prioritized_replay_buffer.py
index 79f8edd..8d7ca52 100644
--- a/reagent/replay_memory/prioritized_replay_buffer.py
+++ b/reagent/replay_memory/prioritized_replay_buffer.py
@@ -137,7 +137,7 @@ class PrioritizedReplayBuffer(circular_replay_buffer.ReplayBuffer):
             if element_name == "sampling_probabilities":
                 batch = torch.from_numpy(
                     self.get_priority(transition.indices.numpy().astype(np.int32))
-                ).view(batch_size, 1)
+                ).view(-1, 1)
             else:
                 batch = getattr(transition, element_name)
             batch_arrays.append(batch)
-- 
2.43.0


From 85181eb9f34f3a60c3b8e3b8eec127f436e0edba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:39 +0000
Subject: [PATCH 06/62] fix: Preprocessor can be built with CLIP_LOG features
 (missing _create_parameters_CLIP_LOG)

---
 reagent/preprocessing/preprocessor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reagent/preprocessing/preprocessor.py b/reagent/preprocessing/preprocessor.py
index f8d3b4f..b1c23b3 100644
--- a/reagent/preprocessing/preprocessor.py
+++ b/reagent/preprocessing/preprocessor.py
@@ -214,6 +214,11 @@ class Preprocessor(Module):
         # ONNX doesn't support != yet
         return self.one_tensor - (input == self.zero_tensor).float()
 
+    def _create_parameters_CLIP_LOG(
+        self, begin_index: int, norm_params: List[NormalizationParameters]
+    ):
+        pass
+
     def _preprocess_CLIP_LOG(
         self,
         begin_index: int,
-- 
2.43.0


From 40aa88c7fc1f4d8fbcb5e8d419af36beb5800389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:20 +0000
Subject: [PATCH 07/62] fix: skip_box_cox derives mean, stddev and quantiles
 from the untransformed values

---
 reagent/preprocessing/normalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/preprocessing/normalization.py b/reagent/preprocessing/normalization.py
index cb1c07c..9223e72 100644
--- a/reagent/preprocessing/normalization.py
+++ b/reagent/preprocessing/normalization.py
@@ -93,7 +93,7 @@ def identify_parameter(
                 k2_original, p_original, k2_boxcox, p_boxcox
             )
         )
-        if lambda_ < 0.9 or lambda_ > 1.1:
+        if not skip_box_cox and (lambda_ < 0.9 or lambda_ > 1.1):
             # Lambda is far enough from 1.0 to be worth doing boxcox
             if k2_original > k2_boxcox * 10 and k2_boxcox <= quantile_k2_threshold:
                 # The boxcox output is significantly more normally distributed
-- 
2.43.0


From 028465f00cb92f1c499ae285afe2ebcf07f9e492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:54 +0000
Subject: [PATCH 08/62] fix: weighted IPS divides the weighted reward sum by
 the weight sum

---
 reagent/ope/estimators/contextual_bandits_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/contextual_bandits_estimators.py b/reagent/ope/estimators/contextual_bandits_estimators.py
index 70a6441..d6cc99a 100644
--- a/reagent/ope/estimators/contextual_bandits_estimators.py
+++ b/reagent/ope/estimators/contextual_bandits_estimators.py
@@ -351,7 +351,7 @@ class IPSEstimator(Estimator):
             log_reward=log_avg.average,
             estimated_reward=tgt_avg.average
             if not self._weighted
-            else tgt_avg.average / acc_weight.total,
+            else tgt_avg.total / acc_weight.total,
             ground_truth_reward=gt_avg.average,
             estimated_weight=tgt_avg.count,
             estimated_reward_normalized=tgt_score_normalized,
-- 
2.43.0


From a96bf42ba8db1463c3bf4c1c798147a01c2b00ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:54 +0000
Subject: [PATCH 09/62] fix: estimators without a trained model fall back to
 zero model rewards instead of raising TypeError

---
 reagent/ope/estimators/contextual_bandits_estimators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/contextual_bandits_estimators.py b/reagent/ope/estimators/contextual_bandits_estimators.py
index d6cc99a..d783a8d 100644
--- a/reagent/ope/estimators/contextual_bandits_estimators.py
+++ b/reagent/ope/estimators/contextual_bandits_estimators.py
@@ -172,7 +172,8 @@ class DMEstimator(Estimator):
             )
         trainer = self._trainer
         if trainer is None or not trainer.is_trained:
-            return 0.0, torch.zeros(), torch.zeros()
+            num_actions = len(action_space)
+            return 0.0, torch.zeros(num_actions), torch.zeros(num_actions)
         assert sample.item_feature is not None
         item_feature = sample.item_feature.flatten()
         features = []
-- 
2.43.0


From a7cf4cd463b9314e80955be1c08200b44954804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:54 +0000
Subject: [PATCH 10/62] fix: Values.replace drops the cached order and
 probabilities of the old values

---
 reagent/ope/estimators/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reagent/ope/estimators/types.py b/reagent/ope/estimators/types.py
index dbd7b85..7efc675 100644
--- a/reagent/ope/estimators/types.py
+++ b/reagent/ope/estimators/types.py
@@ -315,6 +315,7 @@ class Values(Objects[KeyType, float]):
                     copy._values[copy._key_to_index[k]] = v
         else:
             raise TypeError(f"Unsupported values type {type(values)}")
+        copy._reset()
         return copy
 
     def _normalize(self):
-- 
2.43.0


From 63f6c22e12b75fe36be4f8502637085f53695d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:54 +0000
Subject: [PATCH 11/62] fix: Values.sort caches each sort direction separately

---
 reagent/ope/estimators/types.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/reagent/ope/estimators/types.py b/reagent/ope/estimators/types.py
index 7efc675..1d91dc5 100644
--- a/reagent/ope/estimators/types.py
+++ b/reagent/ope/estimators/types.py
@@ -241,7 +241,7 @@ class Values(Objects[KeyType, float]):
         super()._reset()
         self._probabilities = None
         self._is_normalized = False
-        self._sorted = None
+        self._sorted = {}
 
     def __getitem__(self, key: KeyType) -> float:
         return super().__getitem__(key).item()
@@ -264,17 +264,20 @@ class Values(Objects[KeyType, float]):
             Tuple of sorted indices and values
         """
         # pyre-fixme[16]: `Values` has no attribute `_sorted`.
-        if self._sorted is None:
+        if descending not in self._sorted:
             # pyre-fixme[16]: `Values` has no attribute `_values`.
             rs, ids = torch.sort(self._values, descending=descending)
             if self._index_to_key is not None:
-                self._sorted = (
+                self._sorted[descending] = (
                     [self._index_to_key[i.item()] for i in ids],
                     rs.detach(),
                 )
             else:
-                self._sorted = ([self._to_key(i.item()) for i in ids], rs.detach())
-        return self._sorted
+                self._sorted[descending] = (
+                    [self._to_key(i.item()) for i in ids],
+                    rs.detach(),
+                )
+        return self._sorted[descending]
 
     @property
     def _values_copy(self) -> Tensor:
-- 
2.43.0


From f6d59bb46e0f2eea215f85f16336f94be691adc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:54 +0000
Subject: [PATCH 12/62] fix: worker processes evaluate every experiment of
 their task

---
 reagent/ope/estimators/estimator.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/reagent/ope/estimators/estimator.py b/reagent/ope/estimators/estimator.py
index f53db8a..e8829a3 100644
--- a/reagent/ope/estimators/estimator.py
+++ b/reagent/ope/estimators/estimator.py
@@ -198,19 +198,19 @@ def run_evaluation(
     logger.info(f"received filename {file_name}")
     try:
         with open(file_name, "rb") as fp:
-            estimators, inputs = pickle.load(fp)
+            experiments = pickle.load(fp)
     except Exception as err:
         return None
     results = {}
-    for estimator in estimators:
-        estimator_name = repr(estimator)
-        estimator_results = []
-        for input in inputs:
+    for estimators, input in experiments:
+        for estimator in estimators:
+            estimator_name = repr(estimator)
+            if estimator_name not in results:
+                results[estimator_name] = []
             try:
-                estimator_results.append(estimator.evaluate(input))
+                results[estimator_name].append(estimator.evaluate(input))
             except Exception as err:
                 logger.error(f"{estimator_name} error {err}")
-        results[repr(estimator)] = estimator_results
     return results
 
 
-- 
2.43.0


From 561bea057ed5ec6b5be901da1a89953e01c8827e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:13 +0000
Subject: [PATCH 13/62] fix: EpsilonGreedyRLPolicy keeps the wrapped policy's
 action space

---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index 8846090..eb78379 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -123,7 +123,7 @@ class EpsilonGreedyRLPolicy(RLPolicy):
 
     def __init__(self, policy: RLPolicy, epsilon: float = 0.0):
         assert policy is not None and 0.0 <= epsilon < 1.0
-        super().__init__(policy._device)
+        super().__init__(policy._action_space, policy._device)
         self._policy = policy
         self._exploitation_prob = 1.0 - epsilon
         self._exploration_prob = epsilon / len(policy.action_space)
-- 
2.43.0


From dce10a27639c00fc4a6795f56a48c5fa3947c5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:13 +0000
Subject: [PATCH 14/62] fix: NeuralDualDICE trains in stochastic environments
 (loss called with the batch)

---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index eb78379..d06de55 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -748,7 +748,7 @@ class NeuralDualDICE(RLEstimator):
             if self.deterministic_env:
                 v_loss = self._compute_loss(input.gamma, sample, True)
             else:
-                v_loss = self._compute_loss(*sample)
+                v_loss = self._compute_loss(input.gamma, sample, False)
             # Populate value gradients and optimize
             v_optim.zero_grad()
             v_loss.backward()
-- 
2.43.0


From 86e062c9975e55e647d657253e4f0acd27380536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:34 +0000
Subject: [PATCH 15/62] fix: first-visit Monte Carlo counts the first visit of
 an episode, not the repeated ones

---
 reagent/ope/trainers/rl_tabular_trainers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index dbd6acc..ff18d5f 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -262,7 +262,7 @@ class MonteCarloValueFunction(TabularValueFunction):
                         continue
                     g = self._gamma * g + t.reward
                     counts = state_counts[t.last_state]
-                    if counts > 1:
+                    if counts == 1:
                         self._update_state_value(t.last_state, g)
                     counts -= 1
                     if counts == 0:
@@ -334,7 +334,7 @@ class MonteCarloTrainer(object):
                         g = gamma * g + t.reward
                         key = (t.last_state, t.action)
                         vc = vcounts[key]
-                        if vc > 1:
+                        if vc == 1:
                             self._update_state_value(
                                 value_counts, t.last_state, t.action, g
                             )
-- 
2.43.0


From 61c3ddb0f997b88b08861649b6ce636821c36fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:34 +0000
Subject: [PATCH 16/62] fix: TabularValueFunction bootstraps from the next
 state's value

---
 reagent/ope/trainers/rl_tabular_trainers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index ff18d5f..c5d80af 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -88,8 +88,9 @@ class TabularValueFunction(ValueFunction):
     def state_action_value(self, state: State, action: Action) -> float:
         value = 0.0
         sr_dist = self._model.next_state_reward_dist(state, action)
-        for _, rp in sr_dist.items():
-            value += rp.prob * (rp.reward + self._gamma * self.state_value(state))
+        for s, rp in sr_dist.items():
+            next_value = 0.0 if s is None or s.is_terminal else self.state_value(s)
+            value += rp.prob * (rp.reward + self._gamma * next_value)
         return value
 
     def state_value(self, state: State) -> float:
-- 
2.43.0


From b73bc78ad110a5aa703df81e0a5d024192aceab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 17/62] fix: sequential OPE adapter keeps the last step of
 full-length episodes

---
 reagent/evaluation/ope_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/ope_adapter.py b/reagent/evaluation/ope_adapter.py
index 0397fea..5fba9f1 100644
--- a/reagent/evaluation/ope_adapter.py
+++ b/reagent/evaluation/ope_adapter.py
@@ -184,7 +184,7 @@ class SequentialOPEstimatorAdapter:
                         state=State((traj, i + 1)),
                         reward=rewards[traj, i].item(),
                     )
-                    for i in range(horizon - 1)
+                    for i in range(horizon)
                     if actions[traj, i][torch.argmax(actions[traj, i]).item()] != 0.0
                 ]
             )
-- 
2.43.0


From e043b3457d755e6a7f6de808309656c4b241a5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 18/62] fix: slate_space normalises item probabilities before
 using them

---
 reagent/ope/estimators/slate_estimators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index cfe6caa..a5dd8fd 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -516,6 +516,7 @@ class SlateItemProbabilities(SlateItemValues):
             items = super().greedy(slate_size)
             return [(items, 1.0)]
         else:
+            self._normalize()
             buffer = [([], 1.0, 0.0)]
             # pyre-fixme[16]: `SlateItemProbabilities` has no attribute
             #  `_probabilities`.
-- 
2.43.0


From 5d2c124f0bf74396963e98891d02dc0f84f6e9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 19/62] fix: slate_space keeps slates that use every item

---
 reagent/ope/estimators/slate_estimators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index a5dd8fd..af8a240 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -532,7 +532,8 @@ class SlateItemProbabilities(SlateItemValues):
                         if i in b0:
                             continue
                         nb2 = b2 + i_prob
-                        if nb2 < 1.0:
+                        # the last item of a full slate uses up all probability
+                        if nb2 < 1.0 or len(b0) + 1 == item_size:
                             nb1 = b1 * i_prob / (1.0 - b2)
                             next_buffer.append(([*b0, i], nb1, nb2))
                 if max_size <= 0 or max_size > len(next_buffer):
-- 
2.43.0


From c38b1d5fb97d1998c761db62d089e9f89c4668a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 20/62] fix: slates with named slots map their items to values
 and features

---
 reagent/ope/estimators/slate_estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index af8a240..0acda13 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -221,7 +221,7 @@ class Slate(SlateSlotObjects[SlateItem]):
             # pyre-fixme[16]: `Slate` has no attribute `_values`.
             return SlateSlotValues([item_values[i] for i in self._values])
         else:
-            return SlateSlotValues({k: item_values[i] for k, i in self._key_to_index})
+            return SlateSlotValues({k: item_values[i] for k, i in self})
 
     def slot_features(self, item_features: SlateItemFeatures) -> SlateSlotFeatures:
         """
@@ -239,7 +239,7 @@ class Slate(SlateSlotObjects[SlateItem]):
             )
         else:
             return SlateSlotFeatures(
-                {k: item_features[i].detach().clone() for k, i in self._key_to_index}
+                {k: item_features[i].detach().clone() for k, i in self}
             )
 
     def __repr__(self):
-- 
2.43.0


From f31252930fb3aff21c84902e26bee3aa817bcf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 21/62] fix: greedy slot distributions give their own greedy
 slate probability one

---
 reagent/ope/estimators/slate_estimators.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 0acda13..c798fe2 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -567,11 +567,13 @@ class SlateSlotItemProbabilities(SlateSlotItemValues):
         """
         assert len(slate) <= len(self)
         if self._greedy:
+            last_items = []
             for slot, item in slate:
-                probs = self[slot]
-                its, _ = probs.sort()
-                if its[0] != item:
+                its, _ = self[slot].sort()
+                best = next(i for i in its if i not in last_items)
+                if best != item:
                     return 0.0
+                last_items.append(item)
             return 1.0
         else:
             p = 1.0
-- 
2.43.0


From 2c1b31604eee53d6be346c7dda4895f3074bf1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 22/62] fix: ERR normalises gains by two to the maximum reward

---
 reagent/ope/estimators/slate_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index c798fe2..4a498f5 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -893,7 +893,7 @@ class ERRSlateMetric(SlateMetric):
         return slots.fill([1.0 / (r + 1) for r in range(len(slots))])
 
     def slot_values(self, rewards: SlateSlotValues) -> SlateSlotValues:
-        d = torch.tensor(self._max_reward, device=self._device).pow(2.0)
+        d = 2.0 ** self._max_reward
         r = (torch.pow(2.0, rewards.values.clamp(0.0, self._max_reward)) - 1.0) / d
         p = 1.0
         err = torch.zeros(len(rewards), dtype=torch.double, device=self._device)
-- 
2.43.0


From 365b2a8f30198fb2cb23975c72fdb451f2358d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 23/62] fix: greedy sampling reports log-probability zero, not
 one

---
 reagent/gym/policies/samplers/discrete_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/gym/policies/samplers/discrete_sampler.py b/reagent/gym/policies/samplers/discrete_sampler.py
index ac895ec..d7d081d 100644
--- a/reagent/gym/policies/samplers/discrete_sampler.py
+++ b/reagent/gym/policies/samplers/discrete_sampler.py
@@ -85,7 +85,7 @@ class GreedyActionSampler(Sampler):
         action = F.one_hot(raw_action, num_actions)
         assert action.shape == (batch_size, num_actions)
         return rlt.ActorOutput(
-            action=action, log_prob=torch.ones_like(raw_action, dtype=torch.float)
+            action=action, log_prob=torch.zeros_like(raw_action, dtype=torch.float)
         )
 
     # pyre-fixme[56]: Decorator `torch.no_grad(...)` could not be called, because
-- 
2.43.0


From 6d68c5a26e15f3d7700d2ad98cf77a6d93773db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 24/62] fix: greedy log-probability is -inf for other actions,
 not for the greedy one

---
 reagent/gym/policies/samplers/discrete_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/gym/policies/samplers/discrete_sampler.py b/reagent/gym/policies/samplers/discrete_sampler.py
index d7d081d..667eb8a 100644
--- a/reagent/gym/policies/samplers/discrete_sampler.py
+++ b/reagent/gym/policies/samplers/discrete_sampler.py
@@ -96,7 +96,7 @@ class GreedyActionSampler(Sampler):
         # pyre-fixme[16]: `Tensor` has no attribute `argmax`.
         match = greedy_indices == action.argmax(-1)
         lp = torch.zeros(scores.shape[0]).float()
-        lp[match] = -float("inf")
+        lp[~match] = -float("inf")
         return lp
 
 
-- 
2.43.0


From 9f6232c4db88c6b05069d1f5ee0f1ebcd4312ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 25/62] fix: epsilon-greedy sampling fills the probabilities
 with the exploration share

---
 reagent/gym/policies/samplers/discrete_sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/gym/policies/samplers/discrete_sampler.py b/reagent/gym/policies/samplers/discrete_sampler.py
index 667eb8a..e2ea0be 100644
--- a/reagent/gym/policies/samplers/discrete_sampler.py
+++ b/reagent/gym/policies/samplers/discrete_sampler.py
@@ -131,7 +131,7 @@ class EpsilonGreedyActionSampler(Sampler):
         argmax = F.one_hot(scores.argmax(dim=1), num_actions).bool()
 
         rand_prob = self.epsilon / num_actions
-        p = torch.full_like(rand_prob, scores)
+        p = torch.full_like(scores, rand_prob)
 
         greedy_prob = 1 - self.epsilon + rand_prob
         p[argmax] = greedy_prob
-- 
2.43.0


From 4d7b03819aed562544b3eae05ad57e51a9efbf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 26/62] fix: epsilon-greedy log_prob is the log of the mixture
 probability of the action

---
 reagent/gym/policies/samplers/discrete_sampler.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/reagent/gym/policies/samplers/discrete_sampler.py b/reagent/gym/policies/samplers/discrete_sampler.py
index e2ea0be..9c7c500 100644
--- a/reagent/gym/policies/samplers/discrete_sampler.py
+++ b/reagent/gym/policies/samplers/discrete_sampler.py
@@ -145,13 +145,12 @@ class EpsilonGreedyActionSampler(Sampler):
         return rlt.ActorOutput(action=action, log_prob=log_prob)
 
     def log_prob(self, scores: torch.Tensor, action: torch.Tensor) -> torch.Tensor:
-        max_index = self.sample_action(scores).argmax(-1)
         # pyre-fixme[16]: `Tensor` has no attribute `argmax`.
-        opt = max_index == action.argmax(-1)
-        n = len(scores)
-        lp = torch.ones(n) * self.epsilon / n
-        lp[opt] = 1 - self.epsilon + self.epsilon / n
-        return lp
+        opt = scores.argmax(dim=1) == action.argmax(-1)
+        batch_size, num_actions = scores.shape
+        p = torch.ones(batch_size) * self.epsilon / num_actions
+        p[opt] = 1 - self.epsilon + self.epsilon / num_actions
+        return p.log()
 
     def update(self) -> None:
         self.epsilon *= self.epsilon_decay
-- 
2.43.0


From f08dee5d310c5efacdce35304ce0295b10185ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 27/62] fix: GaussianSampler uses the actor's existing
 log-probability helpers and the given action

---
 reagent/gym/policies/samplers/continuous_sampler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/reagent/gym/policies/samplers/continuous_sampler.py b/reagent/gym/policies/samplers/continuous_sampler.py
index 0775e39..9ce952f 100644
--- a/reagent/gym/policies/samplers/continuous_sampler.py
+++ b/reagent/gym/policies/samplers/continuous_sampler.py
@@ -15,7 +15,7 @@ class GaussianSampler(Sampler):
         # pyre-fixme[16]: `Tensor` has no attribute `exp`.
         action = torch.tanh(loc + r * scale_log.exp())
         # Since each dim are independent, log-prob is simply sum
-        log_prob = self.actor_network._log_prob(r, scale_log)
+        log_prob = self.actor_network._normal_log_prob(r, scale_log)
         squash_correction = self.actor_network._squash_correction(action)
         log_prob = torch.sum(log_prob - squash_correction, dim=1)
         return action, log_prob
@@ -36,7 +36,7 @@ class GaussianSampler(Sampler):
         # This is not getting exported; we can use it
         # pyre-fixme[16]: `Tensor` has no attribute `exp`.
         n = torch.distributions.Normal(loc, scale_log.exp())
-        raw_action = self.actor_network._atanh(squashed_action)
+        raw_action = torch.atanh(squashed_action)
         log_prob = n.log_prob(raw_action)
         squash_correction = self.actor_network._squash_correction(squashed_action)
         log_prob = torch.sum(log_prob - squash_correction, dim=1)
@@ -49,7 +49,6 @@ class GaussianSampler(Sampler):
         self, scores: GaussianSamplerScore, squashed_action: torch.Tensor
     ) -> torch.Tensor:
         self.actor_network.eval()
-        # pyre-fixme[20]: Argument `squashed_action` expected.
-        log_prob = self._log_prob(scores.loc, scores.scale_log)
+        log_prob = self._log_prob(scores.loc, scores.scale_log, squashed_action)
         self.actor_network.train()
         return log_prob
-- 
2.43.0


From fe4951a8f41f59e8789748af2490f42f718a4289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 28/62] fix: FrechetSort truncates each ranking to topk, not
 the batch

---
 reagent/samplers/frechet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/samplers/frechet.py b/reagent/samplers/frechet.py
index 4f0a902..ecc8dd0 100644
--- a/reagent/samplers/frechet.py
+++ b/reagent/samplers/frechet.py
@@ -73,7 +73,7 @@ class FrechetSort(Sampler):
         log_prob = self.log_prob(scores, action)
         # Only truncate the action before returning
         if self.topk is not None:
-            action = action[: self.topk]
+            action = action[:, : self.topk]
         return rlt.ActorOutput(action, log_prob)
 
     def log_prob(self, scores: torch.Tensor, action) -> torch.Tensor:
-- 
2.43.0


From f911f684a3eeba7356f08e21d9d5ce1f7a5d2820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:32 +0000
Subject: [PATCH 29/62] fix: ParametricDqnBatchPreprocessor wraps possible
 actions in FeatureData as the trainer requires

---
 reagent/preprocessing/batch_preprocessor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/preprocessing/batch_preprocessor.py b/reagent/preprocessing/batch_preprocessor.py
index b2bfd7f..9ce3a65 100644
--- a/reagent/preprocessing/batch_preprocessor.py
+++ b/reagent/preprocessing/batch_preprocessor.py
@@ -100,9 +100,9 @@ class ParametricDqnBatchPreprocessor(BatchPreprocessor):
             time_diff=batch["time_diff"].unsqueeze(1),
             step=batch["step"].unsqueeze(1),
             not_terminal=batch["not_terminal"].unsqueeze(1),
-            possible_actions=batch["possible_actions"],
+            possible_actions=rlt.FeatureData(batch["possible_actions"]),
             possible_actions_mask=batch["possible_actions_mask"],
-            possible_next_actions=batch["possible_next_actions"],
+            possible_next_actions=rlt.FeatureData(batch["possible_next_actions"]),
             possible_next_actions_mask=batch["possible_next_actions_mask"],
             extras=rlt.ExtraData(
                 mdp_id=batch["mdp_id"].unsqueeze(1),
-- 
2.43.0


From 017ab9fd8eefcec23e1f8321fd4625d2a746225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 30/62] fix: Seq2Slate encoder scores keep their batch
 dimension for a single slate

---
 reagent/models/seq2slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/seq2slate.py b/reagent/models/seq2slate.py
index 7aea7a5..462e076 100644
--- a/reagent/models/seq2slate.py
+++ b/reagent/models/seq2slate.py
@@ -709,7 +709,7 @@ class Seq2SlateTransformerModel(nn.Module):
         # slate_encoder_output shape: batch_size, tgt_seq_len, dim_model
         slate_encoder_output = gather(encoder_output, tgt_out_idx - 2)
         # encoder_scores shape: batch_size, tgt_seq_len
-        encoder_scores = self.encoder_scorer(slate_encoder_output).squeeze()
+        encoder_scores = self.encoder_scorer(slate_encoder_output).squeeze(dim=2)
         return Seq2SlateTransformerOutput(
             ranked_per_symbol_probs=None,
             ranked_per_seq_probs=None,
-- 
2.43.0


From 62e2aa243b0c49313fb0d277dced389ac0861a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 31/62] fix: evaluation pages discount every metric's logged
 values, not just the first

---
 reagent/evaluation/evaluation_data_page.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index 41d88a0..0531443 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -514,7 +514,7 @@ class EvaluationDataPage(NamedTuple):
             if mdp_ids[x] != mdp_ids[x + 1]:
                 # Value = reward for new mdp_id
                 continue
-            values[x, 0] += values[x + 1, 0] * math.pow(
+            values[x] += values[x + 1] * math.pow(
                 gamma, float(sequence_numbers[x + 1, 0] - sequence_numbers[x, 0])
             )
 
-- 
2.43.0


From bb0b79298b611f31faa4650064c17d3ea264409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:47 +0000
Subject: [PATCH 32/62] fix: parametric evaluation pages group metric columns
 by metric, as their users slice them

---
 reagent/evaluation/evaluation_data_page.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index 0531443..b90e976 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -251,7 +251,13 @@ class EvaluationDataPage(NamedTuple):
         model_rewards = model_rewards.reshape(possible_actions_mask.shape)
 
         model_metrics = rewards_and_metric_rewards[:, 1:]
-        model_metrics = model_metrics.reshape(possible_actions_mask.shape[0], -1)
+        # Group the columns by metric, as in discrete dqn
+        num_metrics = model_metrics.shape[1]
+        model_metrics = (
+            model_metrics.reshape(*possible_actions_mask.shape, num_metrics)
+            .transpose(1, 2)
+            .reshape(possible_actions_mask.shape[0], -1)
+        )
 
         model_values_for_logged_action = trainer.q_network(states, actions)
         model_rewards_and_metrics_for_logged_action = trainer.reward_network(
@@ -268,7 +274,6 @@ class EvaluationDataPage(NamedTuple):
             dim=2,
         ).float()
         assert torch.all(action_mask.sum(dim=1) == 1)
-        num_metrics = model_metrics.shape[1] // max_num_actions
 
         model_metrics_values = None
         model_metrics_for_logged_action = None
-- 
2.43.0


From ae4b6bbdefefe3a6149fc8f4fbc3ee598d5b81f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:47 +0000
Subject: [PATCH 33/62] fix: evaluating a metric uses the metric's predictions
 for the logged action

---
 reagent/evaluation/evaluation_data_page.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index b90e976..31630f1 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -612,6 +612,16 @@ class EvaluationDataPage(NamedTuple):
             model_values=self.model_metrics_values[
                 :, i * num_actions : (i + 1) * num_actions
             ],
+            model_rewards_for_logged_action=(
+                self.model_metrics_for_logged_action[:, i : i + 1]
+                if self.model_metrics_for_logged_action is not None
+                else self.model_rewards_for_logged_action
+            ),
+            model_values_for_logged_action=(
+                self.model_metrics_values_for_logged_action[:, i : i + 1]
+                if self.model_metrics_values_for_logged_action is not None
+                else self.model_values_for_logged_action
+            ),
             logged_metrics=None,
             logged_metrics_values=None,
             model_metrics=None,
-- 
2.43.0


From 1b98b5d1de05f66fa91dfde8aa21201e8ef2e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 34/62] fix: Seq2Slate evaluation pages are built with the
 networks in evaluation mode

---
 reagent/evaluation/evaluation_data_page.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index 31630f1..c21b623 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -117,6 +117,11 @@ class EvaluationDataPage(NamedTuple):
         ) = training_input.tgt_out_seq.float_features.shape
         device = training_input.state.float_features.device
 
+        old_seq2slate_train_state = seq2slate_net.training
+        old_reward_train_state = reward_network.training
+        seq2slate_net.train(False)
+        reward_network.train(False)
+
         rank_output = seq2slate_net(
             training_input, Seq2SlateMode.RANK_MODE, greedy=True
         )
@@ -166,6 +171,10 @@ class EvaluationDataPage(NamedTuple):
             training_input.src_src_mask,
             rank_output.ranked_tgt_out_idx,
         ).reshape(-1, 1)
+
+        seq2slate_net.train(old_seq2slate_train_state)
+        reward_network.train(old_reward_train_state)
+
         # pyre-fixme[16]: `Optional` has no attribute `reshape`.
         logged_rewards = training_input.slate_reward.reshape(-1, 1)
         logged_propensities = training_input.tgt_out_probs.reshape(-1, 1)
-- 
2.43.0


From f83a935d41eadcab48134cc3257e3beb897a84c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 35/62] fix: listwise evaluation ranks with the network still
 in evaluation mode

---
 reagent/evaluation/ranking_listwise_evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/evaluation/ranking_listwise_evaluator.py b/reagent/evaluation/ranking_listwise_evaluator.py
index c375181..1b45913 100644
--- a/reagent/evaluation/ranking_listwise_evaluator.py
+++ b/reagent/evaluation/ranking_listwise_evaluator.py
@@ -79,9 +79,8 @@ class RankingListwiseEvaluator:
             self.log_softmax(encoder_scores), eval_tdp.position_reward
         ).item()
 
-        self.seq2slate_net.train(seq2slate_net_prev_mode)
-
         if not self.calc_cpe:
+            self.seq2slate_net.train(seq2slate_net_prev_mode)
             # pyre-fixme[16]: `RankingListwiseEvaluator` has no attribute
             #  `notify_observers`.
             self.notify_observers(cross_entropy_loss=ce_loss)
@@ -91,6 +90,7 @@ class RankingListwiseEvaluator:
         ranking_output = self.seq2slate_net(
             eval_tdp, mode=Seq2SlateMode.RANK_MODE, greedy=True
         )
+        self.seq2slate_net.train(seq2slate_net_prev_mode)
         # pyre-fixme[16]: `int` has no attribute `cpu`.
         ranked_idx = (ranking_output.ranked_tgt_out_idx - 2).cpu().numpy()
         # pyre-fixme[58]: `-` is not supported for operand types
-- 
2.43.0


From 1ee0072247cf512f22a80f92f4461ed66e988016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 36/62] fix: mixture loss keeps the batch dimension for a batch
 of one

max_log_probs has shape (..., 1); squeezing every unit dimension turns a
(seq, 1, 1) tensor into (seq,), which then broadcasts against (seq, 1).
---
 reagent/models/mdn_rnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/mdn_rnn.py b/reagent/models/mdn_rnn.py
index 73057b3..caae4d9 100644
--- a/reagent/models/mdn_rnn.py
+++ b/reagent/models/mdn_rnn.py
@@ -225,7 +225,7 @@ def gmm_loss(batch, mus, sigmas, logpi, reduce=True):
     g_probs = torch.exp(g_log_probs)
     probs = torch.sum(g_probs, dim=-1)
 
-    log_prob = max_log_probs.squeeze() + torch.log(probs)
+    log_prob = max_log_probs.squeeze(-1) + torch.log(probs)
     if reduce:
         return -(torch.mean(log_prob))
     return -log_prob
-- 
2.43.0


From 82c8b0a961ba59d3c60f8240bf998fd8c4a42fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 37/62] fix: planner populations smaller than ten no longer
 divide by zero

---
 reagent/models/cem_planner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/cem_planner.py b/reagent/models/cem_planner.py
index dafdb30..825530c 100644
--- a/reagent/models/cem_planner.py
+++ b/reagent/models/cem_planner.py
@@ -185,7 +185,7 @@ class CEMPlannerNetwork(nn.Module):
         acc_reward_vec = np.zeros(self.cem_pop_size)
         init_state = state.float_features
         for i in range(self.cem_pop_size):
-            if i % (self.cem_pop_size // 10) == 0:
+            if i % max(1, self.cem_pop_size // 10) == 0:
                 logger.debug(f"Simulating the {i}-th solution...")
             acc_reward_vec[i] = self.acc_rewards_of_one_solution(
                 init_state, solutions[i], i
-- 
2.43.0


From 70a9fff4d6efc400f30d2a77973399925a28be51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:59 +0000
Subject: [PATCH 38/62] fix: resolve field() defaults of trainer constructors

Seven trainer constructors declare field(default_factory=...) defaults without
@resolve_defaults, so omitting the argument passes the dataclasses.Field object itself.
---
 reagent/training/ranking/seq2slate_attn_trainer.py | 2 ++
 reagent/training/ranking/seq2slate_dr_trainer.py   | 2 ++
 reagent/training/ranking/seq2slate_sim_trainer.py  | 2 ++
 reagent/training/ranking/seq2slate_tf_trainer.py   | 2 ++
 reagent/training/ranking/seq2slate_trainer.py      | 2 ++
 reagent/training/reward_network_trainer.py         | 2 ++
 reagent/training/slate_q_trainer.py                | 2 ++
 7 files changed, 14 insertions(+)

diff --git a/reagent/training/ranking/seq2slate_attn_trainer.py b/reagent/training/ranking/seq2slate_attn_trainer.py
index 1c11f26..55dd000 100644
--- a/reagent/training/ranking/seq2slate_attn_trainer.py
+++ b/reagent/training/ranking/seq2slate_attn_trainer.py
@@ -5,6 +5,7 @@ import logging
 import reagent.types as rlt
 import torch
 import torch.nn as nn
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.core.tracker import observable
 from reagent.model_utils.seq2slate_utils import Seq2SlateMode
@@ -25,6 +26,7 @@ class Seq2SlatePairwiseAttnTrainer(Trainer):
     https://arxiv.org/pdf/1904.06813.pdf )
     """
 
+    @resolve_defaults
     def __init__(
         self,
         seq2slate_net: Seq2SlateTransformerNet,
diff --git a/reagent/training/ranking/seq2slate_dr_trainer.py b/reagent/training/ranking/seq2slate_dr_trainer.py
index d63d110..7d78a4b 100644
--- a/reagent/training/ranking/seq2slate_dr_trainer.py
+++ b/reagent/training/ranking/seq2slate_dr_trainer.py
@@ -6,6 +6,7 @@ import reagent.types as rlt
 import torch
 import torch.nn as nn
 import torch.nn.functional as F
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.model_utils.seq2slate_utils import (
     Seq2SlateMode,
@@ -27,6 +28,7 @@ class Seq2SlateDifferentiableRewardTrainer(Trainer):
     https://arxiv.org/pdf/1810.02019.pdf )
     """
 
+    @resolve_defaults
     def __init__(
         self,
         seq2slate_net: Seq2SlateTransformerNet,
diff --git a/reagent/training/ranking/seq2slate_sim_trainer.py b/reagent/training/ranking/seq2slate_sim_trainer.py
index d9df4f1..f85ca02 100644
--- a/reagent/training/ranking/seq2slate_sim_trainer.py
+++ b/reagent/training/ranking/seq2slate_sim_trainer.py
@@ -7,6 +7,7 @@ from typing import List, Optional
 import numpy as np
 import reagent.types as rlt
 import torch
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.core.tracker import observable
 from reagent.models.seq2slate import BaselineNet, Seq2SlateMode, Seq2SlateTransformerNet
@@ -74,6 +75,7 @@ class Seq2SlateSimulationTrainer(Trainer):
     generated randomly and the reward computed by a reward network
     """
 
+    @resolve_defaults
     def __init__(
         self,
         seq2slate_net: Seq2SlateTransformerNet,
diff --git a/reagent/training/ranking/seq2slate_tf_trainer.py b/reagent/training/ranking/seq2slate_tf_trainer.py
index b79571c..86ba91c 100644
--- a/reagent/training/ranking/seq2slate_tf_trainer.py
+++ b/reagent/training/ranking/seq2slate_tf_trainer.py
@@ -6,6 +6,7 @@ import reagent.types as rlt
 import torch
 import torch.nn as nn
 import torch.nn.functional as F
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.model_utils.seq2slate_utils import Seq2SlateMode
 from reagent.models.seq2slate import Seq2SlateTransformerNet
@@ -23,6 +24,7 @@ class Seq2SlateTeacherForcingTrainer(Trainer):
     the ground-truth sequences are available)
     """
 
+    @resolve_defaults
     def __init__(
         self,
         seq2slate_net: Seq2SlateTransformerNet,
diff --git a/reagent/training/ranking/seq2slate_trainer.py b/reagent/training/ranking/seq2slate_trainer.py
index 09d1853..3530709 100644
--- a/reagent/training/ranking/seq2slate_trainer.py
+++ b/reagent/training/ranking/seq2slate_trainer.py
@@ -5,6 +5,7 @@ from typing import Optional, Tuple
 
 import reagent.types as rlt
 import torch
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.core.tracker import observable
 from reagent.model_utils.seq2slate_utils import Seq2SlateMode
@@ -28,6 +29,7 @@ logger = logging.getLogger(__name__)
     train_advantages=torch.Tensor,
 )
 class Seq2SlateTrainer(Trainer):
+    @resolve_defaults
     def __init__(
         self,
         seq2slate_net: Seq2SlateTransformerNet,
diff --git a/reagent/training/reward_network_trainer.py b/reagent/training/reward_network_trainer.py
index c72ec7f..065e75c 100644
--- a/reagent/training/reward_network_trainer.py
+++ b/reagent/training/reward_network_trainer.py
@@ -6,6 +6,7 @@ from typing import Optional
 
 import reagent.types as rlt
 import torch
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.models.base import ModelBase
 from reagent.optimizer.union import Optimizer__Union
@@ -54,6 +55,7 @@ def _get_loss_function(loss_fn: LossFunction, reward_ignore_threshold):
 
 
 class RewardNetTrainer(Trainer):
+    @resolve_defaults
     def __init__(
         self,
         reward_net: ModelBase,
diff --git a/reagent/training/slate_q_trainer.py b/reagent/training/slate_q_trainer.py
index 815278f..1bbe941 100644
--- a/reagent/training/slate_q_trainer.py
+++ b/reagent/training/slate_q_trainer.py
@@ -8,6 +8,7 @@ import reagent.parameters as rlp
 import reagent.types as rlt
 import torch
 import torch.nn.functional as F
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.optimizer import Optimizer__Union, SoftUpdate
 from reagent.training.reagent_lightning_module import ReAgentLightningModule
@@ -17,6 +18,7 @@ logger = logging.getLogger(__name__)
 
 
 class SlateQTrainer(RLTrainerMixin, ReAgentLightningModule):
+    @resolve_defaults
     def __init__(
         self,
         q_network,
-- 
2.43.0


From 0f2696a377746ac47425f37f0781e42362525143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 39/62] fix: batch-constrained DQN no longer overwrites the
 batch's action masks

The masks were multiplied in place; .float() does not copy a float tensor, so
training changed possible_actions_mask and possible_next_actions_mask of the batch.
---
 reagent/training/dqn_trainer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reagent/training/dqn_trainer.py b/reagent/training/dqn_trainer.py
index 8af4eda..8f0a7ea 100644
--- a/reagent/training/dqn_trainer.py
+++ b/reagent/training/dqn_trainer.py
@@ -175,7 +175,9 @@ class DQNTrainer(DQNTrainerBaseLightning):
                     training_batch.next_state,
                     self.bcq_drop_threshold,
                 )
-                possible_next_actions_mask *= action_on_policy
+                possible_next_actions_mask = (
+                    possible_next_actions_mask * action_on_policy
+                )
             next_q_values, max_q_action_idxs = self.get_max_q_values_with_target(
                 all_next_q_values,
                 all_next_q_values_target,
@@ -226,7 +228,7 @@ class DQNTrainer(DQNTrainerBaseLightning):
             action_on_policy = get_valid_actions_from_imitator(
                 self.bcq_imitator, training_batch.state, self.bcq_drop_threshold
             )
-            possible_actions_mask *= action_on_policy
+            possible_actions_mask = possible_actions_mask * action_on_policy
 
         # Do we ever use model_action_idxs computed below?
         model_action_idxs = self.get_max_q_values(
-- 
2.43.0


From 5f5142040bab0aa1e017166bc19f8c7df4d59d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 40/62] fix: batch-constrained SARSA training raised
 UnboundLocalError

possible_actions_mask only exists when learning the maximal action.
---
 reagent/training/dqn_trainer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/reagent/training/dqn_trainer.py b/reagent/training/dqn_trainer.py
index 8f0a7ea..03aef68 100644
--- a/reagent/training/dqn_trainer.py
+++ b/reagent/training/dqn_trainer.py
@@ -224,11 +224,11 @@ class DQNTrainer(DQNTrainerBaseLightning):
         if self.maxq_learning:
             possible_actions_mask = training_batch.possible_actions_mask
 
-        if self.bcq:
-            action_on_policy = get_valid_actions_from_imitator(
-                self.bcq_imitator, training_batch.state, self.bcq_drop_threshold
-            )
-            possible_actions_mask = possible_actions_mask * action_on_policy
+            if self.bcq:
+                action_on_policy = get_valid_actions_from_imitator(
+                    self.bcq_imitator, training_batch.state, self.bcq_drop_threshold
+                )
+                possible_actions_mask = possible_actions_mask * action_on_policy
 
         # Do we ever use model_action_idxs computed below?
         model_action_idxs = self.get_max_q_values(
-- 
2.43.0


From 15b0d3aa25ba7219cdf675af38c39b81f6b13f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:03 +0000
Subject: [PATCH 41/62] fix: SlateQ training no longer overwrites the batch's
 next actions

Zeroing the next actions of terminal transitions wrote into training_batch.next_action.
---
 reagent/training/slate_q_trainer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reagent/training/slate_q_trainer.py b/reagent/training/slate_q_trainer.py
index 1bbe941..1fc02de 100644
--- a/reagent/training/slate_q_trainer.py
+++ b/reagent/training/slate_q_trainer.py
@@ -80,6 +80,7 @@ class SlateQTrainer(RLTrainerMixin, ReAgentLightningModule):
             assert terminal_mask.shape == (
                 action.shape[0],
             ), f"{terminal_mask.shape} != 0th dim of {action.shape}"
+            action = action.clone()
             action[terminal_mask] = torch.zeros_like(action[terminal_mask])
         docs = state.candidate_docs
         assert docs is not None
-- 
2.43.0


From 249c4e941d260ed8ed5fcc547184246b79b1fba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 42/62] fix: fully connected actors apply the configured layer
 normalisation

The builders accepted use_layer_norm and dropped it.
---
 reagent/models/actor.py                                 | 2 ++
 reagent/net_builder/continuous_actor/fully_connected.py | 1 +
 reagent/net_builder/discrete_actor/fully_connected.py   | 1 +
 3 files changed, 4 insertions(+)

diff --git a/reagent/models/actor.py b/reagent/models/actor.py
index 0660e0a..6d0f91a 100644
--- a/reagent/models/actor.py
+++ b/reagent/models/actor.py
@@ -41,6 +41,7 @@ class FullyConnectedActor(ModelBase):
         use_batch_norm: bool = False,
         action_activation: str = "tanh",
         exploration_variance: Optional[float] = None,
+        use_layer_norm: bool = False,
     ):
         super().__init__()
         assert state_dim > 0, "state_dim must be > 0, got {}".format(state_dim)
@@ -57,6 +58,7 @@ class FullyConnectedActor(ModelBase):
             [state_dim] + sizes + [action_dim],
             activations + [self.action_activation],
             use_batch_norm=use_batch_norm,
+            use_layer_norm=use_layer_norm,
         )
 
         # Gaussian noise for exploration.
diff --git a/reagent/net_builder/continuous_actor/fully_connected.py b/reagent/net_builder/continuous_actor/fully_connected.py
index 4b11355..43271b1 100644
--- a/reagent/net_builder/continuous_actor/fully_connected.py
+++ b/reagent/net_builder/continuous_actor/fully_connected.py
@@ -50,6 +50,7 @@ class FullyConnected(ContinuousActorNetBuilder):
             sizes=self.sizes,
             activations=self.activations,
             use_batch_norm=self.use_batch_norm,
+            use_layer_norm=self.use_layer_norm,
             action_activation=self.action_activation,
             exploration_variance=self.exploration_variance,
         )
diff --git a/reagent/net_builder/discrete_actor/fully_connected.py b/reagent/net_builder/discrete_actor/fully_connected.py
index 4191b7b..6d834b6 100644
--- a/reagent/net_builder/discrete_actor/fully_connected.py
+++ b/reagent/net_builder/discrete_actor/fully_connected.py
@@ -42,6 +42,7 @@ class FullyConnected(DiscreteActorNetBuilder):
             sizes=self.sizes,
             activations=self.activations,
             use_batch_norm=self.use_batch_norm,
+            use_layer_norm=self.use_layer_norm,
             action_activation=self.action_activation,
             exploration_variance=self.exploration_variance,
         )
-- 
2.43.0


From 57abfdce58e35eb160906b59f80a6d0f18ac1cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 43/62] fix: ranking serving module referred to an unimported
 predictor wrapper

---
 reagent/net_builder/continuous_actor_net_builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reagent/net_builder/continuous_actor_net_builder.py b/reagent/net_builder/continuous_actor_net_builder.py
index 49c72b0..02b2dee 100644
--- a/reagent/net_builder/continuous_actor_net_builder.py
+++ b/reagent/net_builder/continuous_actor_net_builder.py
@@ -21,7 +21,10 @@ if IS_FB_ENVIRONMENT:
         FbRankingActorPredictorWrapper as RankingActorPredictorWrapper,
     )
 else:
-    from reagent.prediction.predictor_wrapper import ActorPredictorWrapper
+    from reagent.prediction.predictor_wrapper import (
+        ActorPredictorWrapper,
+        RankingActorPredictorWrapper,
+    )
 
 
 class ContinuousActorNetBuilder(metaclass=RegistryMeta):
-- 
2.43.0


From 75d930d3dc4bae5e033e1acf746a7010a755f2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 44/62] fix: workflow assertions named attributes that do not
 exist

---
 reagent/workflow/training.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/workflow/training.py b/reagent/workflow/training.py
index 8103c65..8ad2ee2 100644
--- a/reagent/workflow/training.py
+++ b/reagent/workflow/training.py
@@ -225,7 +225,7 @@ def run_validator(
 ) -> RLTrainingOutput:
     assert (
         training_output.validation_result is None
-    ), f"validation_output was set to f{training_output.validation_output}"
+    ), f"validation_result was set to {training_output.validation_result}"
     model_validator = validator.value
     validation_result = model_validator.validate(training_output)
     return dataclasses.replace(training_output, validation_result=validation_result)
@@ -241,7 +241,7 @@ def run_publisher(
 ) -> RLTrainingOutput:
     assert (
         training_output.publishing_result is None
-    ), f"publishing_output was set to f{training_output.publishing_output}"
+    ), f"publishing_result was set to {training_output.publishing_result}"
     model_publisher = publisher.value
     model_manager = model_chooser.value
     publishing_result = model_publisher.publish(
-- 
2.43.0


From 63fc3a101e420a86229017285811bec649af9208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 45/62] fix: the training workflow saves each serving module to
 its own file

It saved the default module for every name, under one path, and failed
for managers that only define build_serving_modules().
---
 reagent/workflow/model_managers/model_manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reagent/workflow/model_managers/model_manager.py b/reagent/workflow/model_managers/model_manager.py
index 31b7250..cef88a5 100644
--- a/reagent/workflow/model_managers/model_manager.py
+++ b/reagent/workflow/model_managers/model_manager.py
@@ -271,8 +271,9 @@ class ModelManager(metaclass=RegistryMeta):
         output_paths = {}
         for module_name, serving_module in self.build_serving_modules().items():
             # TODO: make this a parameter
-            torchscript_output_path = f"model_{round(time.time())}.torchscript"
-            serving_module = self.build_serving_module()
+            torchscript_output_path = (
+                f"model_{module_name}_{round(time.time())}.torchscript"
+            )
             torch.jit.save(serving_module, torchscript_output_path)
             logger.info(f"Saved {module_name} to {torchscript_output_path}")
             output_paths[module_name] = torchscript_output_path
-- 
2.43.0


From b2b2b47262916cf11ea8e2a3afa070ea965dac73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 46/62] fix: discrete DQN managers save checkpoints they can
 warm start from

Without the Lightning trainer save_trainer() wrote a bare state dict,
which cannot be resumed from.
---
 reagent/workflow/model_managers/discrete_dqn_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/workflow/model_managers/discrete_dqn_base.py b/reagent/workflow/model_managers/discrete_dqn_base.py
index 53f9d9b..1413f03 100644
--- a/reagent/workflow/model_managers/discrete_dqn_base.py
+++ b/reagent/workflow/model_managers/discrete_dqn_base.py
@@ -162,7 +162,7 @@ class DiscreteDQNBase(ModelManager):
         self.trainer.set_reporter(reporter)
         assert data_module
 
-        train_eval_lightning(
+        self._lightning_trainer = train_eval_lightning(
             train_dataset=train_dataset,
             eval_dataset=eval_dataset,
             trainer_module=self.trainer,
-- 
2.43.0


From aac9f6a1202c2d71f7b311e36400d7e038fcb5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 47/62] fix: building a ConvolutionalNetwork leaves the
 caller's layer sizes as they were

---
 reagent/models/convolutional_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/convolutional_network.py b/reagent/models/convolutional_network.py
index 0efd4be..4f33620 100644
--- a/reagent/models/convolutional_network.py
+++ b/reagent/models/convolutional_network.py
@@ -50,7 +50,7 @@ class ConvolutionalNetwork(nn.Module):
         )
         conv_out = self.conv_forward(torch.ones(1, *input_size))
         self.fc_input_dim = int(np.prod(conv_out.size()[1:]))
-        layers[0] = self.fc_input_dim
+        layers = [self.fc_input_dim] + layers[1:]
         self.feed_forward = FullyConnectedNetwork(layers, activations)
 
     def conv_forward(self, input):
-- 
2.43.0


From 1b45cb8706802a664f9485b301baee5e419eed83 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 48/62] fix: whiten does not overwrite the tensor it is given

---
 reagent/training/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/training/utils.py b/reagent/training/utils.py
index 62563c9..46d6779 100644
--- a/reagent/training/utils.py
+++ b/reagent/training/utils.py
@@ -31,7 +31,7 @@ def rescale_actions(
 def whiten(x: torch.Tensor, subtract_mean: bool) -> torch.Tensor:
     numer = x
     if subtract_mean:
-        numer -= x.mean()
+        numer = numer - x.mean()
     return numer / (x.std() + EPS)
 
 
-- 
2.43.0


From 1599a249ce38178690edf6ac5d25efae5d70e51f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 49/62] fix: states without legal arms at the end of a
 ChangingArms batch get no legal arms

---
 reagent/gym/envs/changing_arms.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/reagent/gym/envs/changing_arms.py b/reagent/gym/envs/changing_arms.py
index 17afeea..fa6d0ee 100644
--- a/reagent/gym/envs/changing_arms.py
+++ b/reagent/gym/envs/changing_arms.py
@@ -164,8 +164,7 @@ class ChangingArms(EnvWrapper):
             else:
                 assert batch_idx == prev_batch_idx
         # handle the case of trailing empty batches
-        if batch_idx < batch_size - 1:
-            offsets.extend([i] * (batch_size - 1 - batch_idx))
+        offsets.extend([len(id_list_val)] * (batch_size - 1 - prev_batch_idx))
         assert len(offsets) == batch_size, f"{len(offsets)} != {batch_size}."
         id_list_offsets = torch.tensor(offsets)
 
-- 
2.43.0


From 090c5b2f65befce2fa0f9bc08fb507886b25ba67 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 50/62] fix: ToyVM seeds its environment with seed 0 too

---
 reagent/gym/envs/toy_vm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/gym/envs/toy_vm.py b/reagent/gym/envs/toy_vm.py
index 54df69a..214db4e 100644
--- a/reagent/gym/envs/toy_vm.py
+++ b/reagent/gym/envs/toy_vm.py
@@ -114,7 +114,7 @@ class ToyVM(EnvWrapper):
             ),
             zero_augment,
         )
-        if self.initial_seed:
+        if self.initial_seed is not None:
             env.seed(self.initial_seed)
         return env
 
-- 
2.43.0


From 8f4d3e2ac23239540bc66c48d1d659fd90e8239f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 51/62] fix: masking impossible actions does not overwrite the
 scores it is given

---
 reagent/gym/policies/scorers/discrete_scorer.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/reagent/gym/policies/scorers/discrete_scorer.py b/reagent/gym/policies/scorers/discrete_scorer.py
index 3e461ab..929f95a 100644
--- a/reagent/gym/policies/scorers/discrete_scorer.py
+++ b/reagent/gym/policies/scorers/discrete_scorer.py
@@ -27,8 +27,7 @@ def apply_possible_actions_mask(
     assert (
         scores.shape == possible_actions_mask.shape
     ), f"{scores.shape} != {possible_actions_mask.shape}"
-    scores[~possible_actions_mask] = invalid_score
-    return scores
+    return scores.masked_fill(~possible_actions_mask, invalid_score)
 
 
 def discrete_dqn_scorer(q_network: ModelBase) -> Scorer:
-- 
2.43.0


From dfe6c6af3483b90f685b0bebb6b6d37fc1db3fae Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 52/62] fix: evolution workers reduce rewards over their
 process group

---
 reagent/training/gradient_free/es_worker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/training/gradient_free/es_worker.py b/reagent/training/gradient_free/es_worker.py
index 4176021..81e90ef 100644
--- a/reagent/training/gradient_free/es_worker.py
+++ b/reagent/training/gradient_free/es_worker.py
@@ -41,7 +41,7 @@ class EsWorker:
         logger.info("Pushing reward")
 
         # Sum the rewards across all machines
-        distributed.all_reduce(rewards, self.process_group)
+        distributed.all_reduce(rewards, group=self.process_group)
 
         # Divide the rewards by the number of machines.  We do this because
         # there is no "average" all_reduce operator.
-- 
2.43.0


From f213c7dfab8ac28ce86505ce796b00c790de8bdd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 53/62] fix: logged estimates show their own standard errors

---
 reagent/evaluation/cpe.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/reagent/evaluation/cpe.py b/reagent/evaluation/cpe.py
index 2038349..94020e1 100644
--- a/reagent/evaluation/cpe.py
+++ b/reagent/evaluation/cpe.py
@@ -45,7 +45,7 @@ class CpeEstimateSet(NamedTuple):
         self.check_estimates_exist()
 
         logger.info(
-            "Reward Inverse Propensity Score : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Reward Inverse Propensity Score : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.inverse_propensity.normalized,
                 self.inverse_propensity.normalized_std_error,
                 self.inverse_propensity.raw,
@@ -54,7 +54,7 @@ class CpeEstimateSet(NamedTuple):
         )
 
         logger.info(
-            "Reward Direct Method : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Reward Direct Method : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.direct_method.normalized,
                 self.direct_method.normalized_std_error,
                 self.direct_method.raw,
@@ -63,7 +63,7 @@ class CpeEstimateSet(NamedTuple):
         )
 
         logger.info(
-            "Reward Doubly Robust P.E. : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Reward Doubly Robust P.E. : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.doubly_robust.normalized,
                 self.doubly_robust.normalized_std_error,
                 self.doubly_robust.raw,
@@ -72,7 +72,7 @@ class CpeEstimateSet(NamedTuple):
         )
 
         logger.info(
-            "Value Weighted Doubly Robust P.E. : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Value Weighted Doubly Robust P.E. : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.weighted_doubly_robust.normalized,
                 self.weighted_doubly_robust.normalized_std_error,
                 self.weighted_doubly_robust.raw,
@@ -80,7 +80,7 @@ class CpeEstimateSet(NamedTuple):
             )
         )
         logger.info(
-            "Value Sequential Doubly Robust P.E. : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Value Sequential Doubly Robust P.E. : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.sequential_doubly_robust.normalized,
                 self.sequential_doubly_robust.normalized_std_error,
                 self.sequential_doubly_robust.raw,
@@ -88,7 +88,7 @@ class CpeEstimateSet(NamedTuple):
             )
         )
         logger.info(
-            "Value Magic Doubly Robust P.E. : normalized {0:.3f} +/- {0:.3f} raw {1:.3f} +/- {1:.3f}".format(
+            "Value Magic Doubly Robust P.E. : normalized {0:.3f} +/- {1:.3f} raw {2:.3f} +/- {3:.3f}".format(
                 self.magic.normalized,
                 self.magic.normalized_std_error,
                 self.magic.raw,
-- 
2.43.0


From d635ed8c062c3206c49819db3e1b7e0ff660ad16 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 54/62] fix: a loaded TabularPolicy explores like the saved one

---
 reagent/ope/trainers/rl_tabular_trainers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index c5d80af..dd30171 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -65,6 +65,10 @@ class TabularPolicy(RLPolicy):
         try:
             with open(path, "rb") as f:
                 self._action_space, self._epsilon, self._state_space = pickle.load(f)
+            as_size = len(self._action_space)
+            self._exploitation_prob = 1.0 - self._epsilon
+            self._exploration_prob = self._epsilon / as_size
+            self._uniform_probs = as_size * [1.0 / as_size]
         except Exception:
             return False
         else:
-- 
2.43.0


From c7775c4d95b738f154060f2e88b107e67d798930 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 55/62] fix: JSON serialisation recognises named tuples on
 every supported Python

---
 reagent/json_serialize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reagent/json_serialize.py b/reagent/json_serialize.py
index 7169308..82292e0 100644
--- a/reagent/json_serialize.py
+++ b/reagent/json_serialize.py
@@ -5,7 +5,7 @@ import collections
 import json
 import logging
 from dataclasses import asdict, dataclass, fields, is_dataclass
-from typing import Any, NamedTuple, Type, Union
+from typing import Any, Type, Union
 
 
 logger = logging.getLogger(__name__)
@@ -17,7 +17,7 @@ def object_to_json(o: Any) -> str:
 
 
 def prepare_for_json(o: Any) -> Any:
-    if isinstance(o, NamedTuple):
+    if isinstance(o, tuple) and hasattr(o, "_fields"):
         d = {}
         for field_name in o._fields:
             d[field_name] = prepare_for_json(getattr(o, field_name))
@@ -40,7 +40,7 @@ def from_json(j_obj: Any, to_type: Type) -> Any:
     logger.debug("TYPE: ")
     logger.debug(j_obj)
     logger.debug(to_type)
-    if getattr(to_type, "_field_types", None) is not None:
+    if getattr(to_type, "_fields", None) is not None:
         # Type is a NamedTuple, dive in
         field_data = {}
         for field_name in j_obj.keys():
@@ -48,7 +48,7 @@ def from_json(j_obj: Any, to_type: Type) -> Any:
                 field_name in to_type._fields
             ), "Item in dict missing from {}: {}".format(str(to_type), field_name)
             field_value = j_obj[field_name]
-            object_type = to_type._field_types[field_name]
+            object_type = to_type.__annotations__[field_name]
             if getattr(object_type, "__origin__", None) is Union:
                 assert len(object_type.__args__) == 2 and object_type.__args__[
                     1
-- 
2.43.0


From e8805918545cbabfaf1bab69ed847d4ed91592b0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 56/62] fix: an unknown pooling type is named in the error
 message

---
 reagent/models/convolutional_network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/models/convolutional_network.py b/reagent/models/convolutional_network.py
index 4f33620..1bd9346 100644
--- a/reagent/models/convolutional_network.py
+++ b/reagent/models/convolutional_network.py
@@ -41,7 +41,9 @@ class ConvolutionalNetwork(nn.Module):
                     nn.MaxPool2d(kernel_size=cnn_parameters.pool_kernels_strides[i])
                 )
             else:
-                assert False, "Unknown pooling type".format(layers)
+                assert False, "Unknown pooling type: {}".format(
+                    cnn_parameters.pool_types[i]
+                )
 
         input_size = (
             cnn_parameters.num_input_channels,
-- 
2.43.0


From de3b8806f3f126ac3945249186d2675f222a0f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 57/62] fix: a rejected clamp range is named in the error
 message

---
 reagent/ope/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/utils.py b/reagent/ope/utils.py
index 32de99a..0a7ff63 100644
--- a/reagent/ope/utils.py
+++ b/reagent/ope/utils.py
@@ -80,7 +80,7 @@ class Clamper:
         self._min = min_v
         self._max = max_v
         if self._min >= self._max:
-            raise ValueError(f"min[{min}] greater than max[{max}]")
+            raise ValueError(f"min[{min_v}] greater than max[{max_v}]")
 
     def __call__(
         self, v: Union[float, Sequence[float], torch.Tensor, np.ndarray]
-- 
2.43.0


From 3965541c91de64f4497c6be8cae0be567ab750c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 58/62] fix: policy gradient trainers save and load the
 networks they have

---
 reagent/training/ppo_trainer.py | 5 ++++-
 reagent/training/reinforce.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/reagent/training/ppo_trainer.py b/reagent/training/ppo_trainer.py
index 67a80cb..99ace7b 100644
--- a/reagent/training/ppo_trainer.py
+++ b/reagent/training/ppo_trainer.py
@@ -176,4 +176,7 @@ class PPOTrainer(Trainer):
         """
         The trainer should specify what members to save and load
         """
-        return ["scorer", "policy"]
+        components = ["scorer"]
+        if self.value_net is not None:
+            components.append("value_net")
+        return components
diff --git a/reagent/training/reinforce.py b/reagent/training/reinforce.py
index 3ba0ae2..632ebf6 100644
--- a/reagent/training/reinforce.py
+++ b/reagent/training/reinforce.py
@@ -117,4 +117,7 @@ class Reinforce(Trainer):
         """
         The trainer should specify what members to save and load
         """
-        return ["scorer", "actor"]
+        components = ["scorer"]
+        if self.value_net is not None:
+            components.append("value_net")
+        return components
-- 
2.43.0


From 7a2a5124205cf0105bc353bf934e24e1c1a231d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 59/62] fix: the slate simulation trainer saves its baseline
 network too

---
 reagent/training/ranking/seq2slate_sim_trainer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reagent/training/ranking/seq2slate_sim_trainer.py b/reagent/training/ranking/seq2slate_sim_trainer.py
index f85ca02..145a77a 100644
--- a/reagent/training/ranking/seq2slate_sim_trainer.py
+++ b/reagent/training/ranking/seq2slate_sim_trainer.py
@@ -123,6 +123,8 @@ class Seq2SlateSimulationTrainer(Trainer):
 
     def warm_start_components(self):
         components = ["seq2slate_net"]
+        if self.baseline_net:
+            components.append("baseline_net")
         return components
 
     # pyre-fixme[56]: Decorator `torch.no_grad(...)` could not be called, because
-- 
2.43.0


From 0b5fabc796a4788a6e755c4d7cb1095a950c79c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:54 +0000
Subject: [PATCH 60/62] fix: the Seq2Reward trainer saves its step predictor
 too

---
 reagent/training/world_model/seq2reward_trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/training/world_model/seq2reward_trainer.py b/reagent/training/world_model/seq2reward_trainer.py
index e22f6aa..7e26823 100644
--- a/reagent/training/world_model/seq2reward_trainer.py
+++ b/reagent/training/world_model/seq2reward_trainer.py
@@ -218,5 +218,5 @@ class Seq2RewardTrainer(Trainer):
         return mse, step_entropy_loss
 
     def warm_start_components(self):
-        components = ["seq2reward_network"]
+        components = ["seq2reward_network", "step_predict_network"]
         return components
-- 
2.43.0


From 4fa7af04075e7cb762832a13cd4f8e024d13b630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:53 +0000
Subject: [PATCH 61/62] fix: NNTrainer.score compares the targets with the
 predictions, not with the features

---
 reagent/ope/trainers/linear_trainers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/ope/trainers/linear_trainers.py b/reagent/ope/trainers/linear_trainers.py
index 715dc7d..3945a7d 100644
--- a/reagent/ope/trainers/linear_trainers.py
+++ b/reagent/ope/trainers/linear_trainers.py
@@ -345,6 +345,7 @@ class NNTrainer(Trainer):
     def score(self, x: Tensor, y: Tensor, weight: Optional[Tensor] = None) -> float:
         if self._loss_fn is not None:
             # pyre-fixme[29]: `Optional[torch.nn.MSELoss]` is not a function.
-            return self._loss_fn(y, x).item()
+            y_pred = self._model(x)
+            return self._loss_fn(y_pred, y.reshape(y_pred.shape)).item()
         else:
             raise Exception("mode not trained")
-- 
2.43.0


From e2a94f20c3011a74d8c7448d9e78fd44263dca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:45 +0000
Subject: [PATCH 62/62] fix: exporting a replay buffer writes every transition
 once instead of a random resample

---
 reagent/replay_memory/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/replay_memory/utils.py b/reagent/replay_memory/utils.py
index dce70a3..1758548 100644
--- a/reagent/replay_memory/utils.py
+++ b/reagent/replay_memory/utils.py
@@ -26,8 +26,8 @@ def replay_buffer_to_pre_timeline_df(
     is_discrete_action: bool, replay_buffer: ReplayBuffer
 ) -> pd.DataFrame:
     """ Format needed for uploading dataset to Hive, and then run timeline. """
-    n = replay_buffer.size
-    batch = replay_buffer.sample_transition_batch(batch_size=n)
+    batch = replay_buffer.sample_all_valid_transitions()
+    n = batch.reward.shape[0]
 
     # actions is inconsistent between models, so let's infer them.
     possible_actions_mask = getattr(batch, "possible_actions_mask", None)
-- 
2.43.0

