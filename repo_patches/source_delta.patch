From 0be8bad36edbf7dd3e35ca565ed4e93c34c59813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:17 +0000
Subject: [PATCH 01/39] fix: shuffle array data loaders also when no batch size
 is given

---
 fortuna/data/loader/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/data/loader/utils.py b/fortuna/data/loader/utils.py
index dee5c35..c03ec6d 100644
--- a/fortuna/data/loader/utils.py
+++ b/fortuna/data/loader/utils.py
@@ -83,7 +83,7 @@ class IterableData:
                 rng = np.random.default_rng(seed)
                 perm = rng.choice(data.shape[0], data.shape[0], replace=False)
             if batch_size is None:
-                yield data
+                yield data[perm] if shuffle else data
             else:
                 batches = np.split(
                     data[perm] if shuffle else data,
@@ -113,7 +113,7 @@ class IterableData:
                 rng = np.random.default_rng(seed)
                 perm = rng.choice(data[0].shape[0], data[0].shape[0], replace=False)
             if batch_size is None:
-                yield data
+                yield (data[0][perm], data[1][perm]) if shuffle else data
             else:
                 x_batches = np.split(
                     data[0][perm] if shuffle else data[0],
-- 
2.43.0


From 9c8ed6cf54ff6c4ad81c8891f67ac55d20f75779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:17 +0000
Subject: [PATCH 02/39] fix: TargetsLoader.from_data_loader returns a loader,
 not a bare iterable

---
 fortuna/data/loader/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fortuna/data/loader/base.py b/fortuna/data/loader/base.py
index 73e1b1c..f02103c 100644
--- a/fortuna/data/loader/base.py
+++ b/fortuna/data/loader/base.py
@@ -459,7 +459,9 @@ class BaseTargetsLoader:
         T
             A concrete instance of a subclass of :class:`~fortuna.data.loader.BaseTargetsLoader`.
         """
-        return IterableData.data_loader_to_targets_iterable(data_loader)
+        return cls(
+            iterable=IterableData.data_loader_to_targets_iterable(data_loader)
+        )
 
     @classmethod
     def from_callable_iterable(
-- 
2.43.0


From cb4877a5c2820fe12b71ca1143466bd1d487ad75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:10 +0000
Subject: [PATCH 03/39] fix: operations on all members of a multi-member state
 repository

---
 .../prob_model/posterior/posterior_multi_state_repository.py    | 2 +-
 .../posterior/sgmcmc/sgmcmc_posterior_state_repository.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/prob_model/posterior/posterior_multi_state_repository.py b/fortuna/prob_model/posterior/posterior_multi_state_repository.py
index 734aacb..5b35a42 100644
--- a/fortuna/prob_model/posterior/posterior_multi_state_repository.py
+++ b/fortuna/prob_model/posterior/posterior_multi_state_repository.py
@@ -68,7 +68,7 @@ class PosteriorMultiStateRepository:
             _put(i)
         else:
             for i in range(self.size):
-                state.append(_put(i))
+                _put(i)
 
     def pull(
         self,
diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py
index be34312..b8b1fbb 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior_state_repository.py
@@ -119,7 +119,7 @@ class SGMCMCPosteriorStateRepository(PosteriorMultiStateRepository):
             return state
 
         if isinstance(state, list):
-            return [_update_state(_state, modify=modify) for _state in state]
+            return [self._update_state(_state, modify=modify) for _state in state]
 
         if modify == "add":
             state = state.replace(
-- 
2.43.0


From b837bf4e3afa544a5394cca649dead4a0c378929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:10 +0000
Subject: [PATCH 04/39] fix: getting a state with an optimizer no longer
 changes the state kept in memory

---
 fortuna/training/train_state_repository.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fortuna/training/train_state_repository.py b/fortuna/training/train_state_repository.py
index 25cd7fd..2f44467 100644
--- a/fortuna/training/train_state_repository.py
+++ b/fortuna/training/train_state_repository.py
@@ -37,11 +37,10 @@ class TrainStateRepository(WithCheckpointingMixin):
                 prefix=prefix,
                 **kwargs,
             )
+        state = deepcopy(self.__state)
         if optimizer is not None:
-            self.__state = self.__state.replace(
-                tx=optimizer, opt_state=optimizer.init(self.__state.params)
-            )
-        return deepcopy(self.__state)
+            state = state.replace(tx=optimizer, opt_state=optimizer.init(state.params))
+        return state
 
     def put(
         self,
-- 
2.43.0


From 5ed0531531f1fff6d075f765b2d31379dee8d9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:18 +0000
Subject: [PATCH 05/39] fix: pulling removes the state also in memory and from
 a checkpoint directory, and a refused update keeps the state

---
 fortuna/training/train_state_repository.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/fortuna/training/train_state_repository.py b/fortuna/training/train_state_repository.py
index 2f44467..55a11a7 100644
--- a/fortuna/training/train_state_repository.py
+++ b/fortuna/training/train_state_repository.py
@@ -73,11 +73,13 @@ class TrainStateRepository(WithCheckpointingMixin):
             prefix=prefix,
             **kwargs,
         )
-        if checkpoint_path or self.checkpoint_dir:
-            os.remove(
-                checkpoint_path
-                or self.get_path_latest_checkpoint(self.checkpoint_dir, prefix=prefix)
-            )
+        path = checkpoint_path or self.checkpoint_dir
+        if path:
+            if os.path.isdir(path):
+                path = self.get_path_latest_checkpoint(path, prefix=prefix)
+            os.remove(path)
+        else:
+            self.__state = None
         return state
 
     def update(
@@ -89,7 +91,7 @@ class TrainStateRepository(WithCheckpointingMixin):
         prefix: str = "checkpoint_",
         **kwargs,
     ):
-        state = self.pull(
+        state = self.get(
             checkpoint_path=checkpoint_path,
             optimizer=optimizer,
             prefix=prefix,
-- 
2.43.0


From 6deecc8b4b2b4db66315abe5d36f49e5395e6366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:52 +0000
Subject: [PATCH 06/39] fix: conformal classification sets keep the most, not
 the least, conforming labels

---
 fortuna/conformal/classification/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/conformal/classification/base.py b/fortuna/conformal/classification/base.py
index 73aa3b2..bca3a12 100644
--- a/fortuna/conformal/classification/base.py
+++ b/fortuna/conformal/classification/base.py
@@ -48,7 +48,7 @@ class ConformalClassifier:
         test_scores: Array,
         error: float,
     ) -> List[List[int]]:
-        conds = jnp.sum(val_scores[:, None, None] > test_scores[None], axis=0) < (
+        conds = jnp.sum(val_scores[:, None, None] < test_scores[None], axis=0) < (
             1 - error
         ) * (len(val_scores) + 1)
         sizes = conds.sum(1)
-- 
2.43.0


From 290997a9a082213005ac27071e7c6a13c7a3f9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 07/39] fix: EnbPI residual window takes whole batches of new
 targets and leaves the caller's array alone

---
 fortuna/conformal/regression/enbpi.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fortuna/conformal/regression/enbpi.py b/fortuna/conformal/regression/enbpi.py
index 32c5e00..b6fb142 100644
--- a/fortuna/conformal/regression/enbpi.py
+++ b/fortuna/conformal/regression/enbpi.py
@@ -273,10 +273,12 @@ class EnbPI(ConformalRegressor):
                     "second dimension greater than 1."
                 )
 
-        train_residuals[:-1] = train_residuals[1:]
-        train_residuals[-1] = np.abs(
+        new_residuals = np.abs(
             new_train_targets - self.aggregation_fun(bootstrap_new_train_preds)
         )
+        train_residuals = np.concatenate((train_residuals, new_residuals))[
+            -len(train_residuals) :
+        ]
         aggr_test_preds = self.aggregation_fun(bootstrap_new_test_preds)
         residuals_quantile = jnp.quantile(train_residuals, q=1 - error, axis=0)
 
-- 
2.43.0


From 2df486e7789eb38e432d530670b1c1319d3aaaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 08/39] fix: CV+ regression no longer modifies the caller's
 lists

---
 fortuna/conformal/regression/cvplus.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fortuna/conformal/regression/cvplus.py b/fortuna/conformal/regression/cvplus.py
index 2fee601..9ef9ea7 100644
--- a/fortuna/conformal/regression/cvplus.py
+++ b/fortuna/conformal/regression/cvplus.py
@@ -55,6 +55,9 @@ class CVPlusConformalRegressor(ConformalRegressor):
             raise TypeError("`cross_val_targets` must be a list of arrays.")
         if type(cross_test_outputs) != list:
             raise TypeError("`cross_test_outputs` must be a list of arrays.")
+        cross_val_outputs = list(cross_val_outputs)
+        cross_val_targets = list(cross_val_targets)
+        cross_test_outputs = list(cross_test_outputs)
         for i, (mu, y, mu_test) in enumerate(
             zip(cross_val_outputs, cross_val_targets, cross_test_outputs)
         ):
-- 
2.43.0


From a9cc1c5358da704151557ba9771c583c67e37892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 09/39] fix: adaptive conformal updates take scalar and
 one-element targets alike

---
 .../conformal/classification/adaptive_conformal_classifier.py   | 2 +-
 fortuna/conformal/regression/adaptive_conformal_regressor.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/conformal/classification/adaptive_conformal_classifier.py b/fortuna/conformal/classification/adaptive_conformal_classifier.py
index 21c372c..45238f2 100644
--- a/fortuna/conformal/classification/adaptive_conformal_classifier.py
+++ b/fortuna/conformal/classification/adaptive_conformal_classifier.py
@@ -110,7 +110,7 @@ class AdaptiveConformalClassifier(ConformalClassifier):
                     "`len(weights)-1` and `len(were_in)` must be the same. "
                     f"However, {len(weights) - 1} and {len(were_in)} were found, respectively."
                 )
-        is_in = self.is_in(target[None], [conformal_set])
+        is_in = self.is_in(target.reshape(1), [conformal_set])
         if were_in is not None:
             is_in = jnp.concatenate((were_in, is_in))
             error += gamma * (target_error - jnp.dot(weights, 1 - is_in))
diff --git a/fortuna/conformal/regression/adaptive_conformal_regressor.py b/fortuna/conformal/regression/adaptive_conformal_regressor.py
index 15fb66f..101e0f0 100644
--- a/fortuna/conformal/regression/adaptive_conformal_regressor.py
+++ b/fortuna/conformal/regression/adaptive_conformal_regressor.py
@@ -107,7 +107,7 @@ class AdaptiveConformalRegressor:
                     "`len(weights)-1` and `len(were_in)` must be the same. "
                     f"However, {len(weights) - 1} and {len(were_in)} were found, respectively."
                 )
-        is_in = self.is_in(target[None], conformal_interval[None])[0]
+        is_in = self.is_in(target.reshape(1), conformal_interval[None])
         if were_in is not None:
             is_in = jnp.concatenate((were_in, is_in))
             error += gamma * (target_error - jnp.dot(weights, 1 - is_in))
-- 
2.43.0


From bb3b065b8e6be193374492834f3c73fedc17413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 10/39] fix: multivalid calibration keeps the patch that
 reached the absolute tolerance

---
 fortuna/conformal/multivalid/iterative/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fortuna/conformal/multivalid/iterative/base.py b/fortuna/conformal/multivalid/iterative/base.py
index ba50f37..7ed6234 100644
--- a/fortuna/conformal/multivalid/iterative/base.py
+++ b/fortuna/conformal/multivalid/iterative/base.py
@@ -267,6 +267,7 @@ class IterativeMultivalidMethod(MultivalidMethod):
                 break
             if val_losses[-1] <= atol:
                 logging.info(f"Absolute tolerance satisfied after {t} rounds.")
+                self._patches.append((taut, gt, vt, ct, patch))
                 converged = True
                 break
             if val_losses[-1] > val_losses[-2]:
-- 
2.43.0


From 559678bbcd81ab6f17e75706b44ac995aab9789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 11/39] fix: without patches multivalid methods return the
 initial values, not None

---
 fortuna/conformal/multivalid/iterative/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fortuna/conformal/multivalid/iterative/base.py b/fortuna/conformal/multivalid/iterative/base.py
index 7ed6234..5baeb5d 100644
--- a/fortuna/conformal/multivalid/iterative/base.py
+++ b/fortuna/conformal/multivalid/iterative/base.py
@@ -334,7 +334,9 @@ class IterativeMultivalidMethod(MultivalidMethod):
             )
         if not len(self._patches):
             logging.warning("No patches available.")
-            return values
+            return self._maybe_init_values(
+                values, groups.shape[0] if groups is not None else None
+            )
 
         values = self._maybe_init_values(
             values, groups.shape[0] if groups is not None else None
-- 
2.43.0


From fdde729884315269ce8cbd2d3cf7292a9b623bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 12/39] fix: multicalibration losses are the mean, not the sum,
 of squared errors

---
 fortuna/conformal/multivalid/mixins/multicalibrator.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fortuna/conformal/multivalid/mixins/multicalibrator.py b/fortuna/conformal/multivalid/mixins/multicalibrator.py
index ac0f691..c90dc56 100644
--- a/fortuna/conformal/multivalid/mixins/multicalibrator.py
+++ b/fortuna/conformal/multivalid/mixins/multicalibrator.py
@@ -27,5 +27,4 @@ class MulticalibratorMixin:
     def _loss_fn(values: Array, scores: Array) -> Array:
         if scores.ndim == 2 and values.ndim == 1:
             scores = scores[:, 0]
-            return jnp.mean(jnp.sum((values - scores) ** 2, axis=-1))
         return jnp.mean((values - scores) ** 2)
-- 
2.43.0


From 2824f0f5d247dfd8716df85596f86a552827ff6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:34 +0000
Subject: [PATCH 13/39] fix: one-shot multicalibration patches each value by
 its own bucket, whatever else is in the batch

---
 fortuna/conformal/multivalid/one_shot/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fortuna/conformal/multivalid/one_shot/base.py b/fortuna/conformal/multivalid/one_shot/base.py
index 1a73f40..a517421 100644
--- a/fortuna/conformal/multivalid/one_shot/base.py
+++ b/fortuna/conformal/multivalid/one_shot/base.py
@@ -137,13 +137,13 @@ class OneShotMultivalidMethod(MultivalidMethod):
             for c in range(b.shape[2]):
                 idx_v = jnp.argmin(jnp.abs(buckets - v))
                 if values.ndim == 1:
-                    patched_values = patched_values.at[b[:, i, c]].set(
+                    patched_values = patched_values.at[b[:, i, c] & (values == v)].set(
                         self._patches[idx_v, c]
                     )
                 else:
-                    patched_values = patched_values.at[b[:, i, c], c].set(
-                        self._patches[idx_v, c]
-                    )
+                    patched_values = patched_values.at[
+                        b[:, i, c] & (values[:, c] == v), c
+                    ].set(self._patches[idx_v, c])
         return patched_values
 
     @abc.abstractmethod
-- 
2.43.0


From a36a877107ab0952efb857276c50b18623c12355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:31 +0000
Subject: [PATCH 14/39] fix: multiplicative multicalibration patches of empty
 or all-zero sets leave values alone instead of making them NaN

---
 fortuna/conformal/multivalid/iterative/multicalibrator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fortuna/conformal/multivalid/iterative/multicalibrator.py b/fortuna/conformal/multivalid/iterative/multicalibrator.py
index 8db676c..172be5c 100644
--- a/fortuna/conformal/multivalid/iterative/multicalibrator.py
+++ b/fortuna/conformal/multivalid/iterative/multicalibrator.py
@@ -142,7 +142,9 @@ class Multicalibrator(MulticalibratorMixin, IterativeMultivalidMethod):
                 values=values,
                 n_buckets=len(buckets),
             )
-            return ey / self._get_mean_values(values, b, c)
+            mean_values = self._get_mean_values(values, b, c)
+            # a multiplicative patch cannot move an empty or all-zero set of values
+            return jnp.where(mean_values > 0, ey / mean_values, 1.0)
 
     @staticmethod
     def _get_mean_values(values: Array, b: Array, c: Array):
-- 
2.43.0


From 3c3c991ad0f2c1c086fe63fe97900f02ae62167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:31 +0000
Subject: [PATCH 15/39] fix: batch multivalid calibration error without
 thresholds no longer fails

---
 fortuna/conformal/multivalid/iterative/batch_mvp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/conformal/multivalid/iterative/batch_mvp.py b/fortuna/conformal/multivalid/iterative/batch_mvp.py
index 6e9691b..eadb76d 100644
--- a/fortuna/conformal/multivalid/iterative/batch_mvp.py
+++ b/fortuna/conformal/multivalid/iterative/batch_mvp.py
@@ -279,7 +279,7 @@ class BatchMVPConformalMethod(
     def _maybe_check_values(
         values: Optional[Array], test_values: Optional[Array] = None
     ):
-        if jnp.any(values < 0) or jnp.any(values > 1):
+        if values is not None and (jnp.any(values < 0) or jnp.any(values > 1)):
             raise ValueError("All elements in `thresholds` must be within [0, 1].")
 
     @staticmethod
-- 
2.43.0


From 33308794bbaf5d332731d3614bc48e521d0caa05 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:34:52 +0000
Subject: [PATCH 16/39] fix: fitting a deep ensemble from the current state
 reads it where it was stored, and a failed fit leaves it alone

---
 .../deep_ensemble/deep_ensemble_posterior.py  | 30 ++++++++-----------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
index bf72cdb..dca914d 100755
--- a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
+++ b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
@@ -160,23 +160,16 @@ class DeepEnsemblePosterior(Posterior):
                 gradient_accumulation_steps=fit_config.hyperparameters.gradient_accumulation_steps,
             )
 
-        if isinstance(self.state, PosteriorMultiStateRepository):
-            for i in range(self.posterior_approximator.ensemble_size):
-                self.state.state[i].checkpoint_dir = (
-                    pathlib.Path(fit_config.checkpointer.save_checkpoint_dir) / str(i)
-                    if fit_config.checkpointer.save_checkpoint_dir is not None
-                    and fit_config.checkpointer.dump_state
-                    else None
-                )
-        else:
-            self.state = PosteriorMultiStateRepository(
-                size=self.posterior_approximator.ensemble_size,
-                checkpoint_dir=(
-                    fit_config.checkpointer.save_checkpoint_dir
-                    if fit_config.checkpointer.dump_state is True
-                    else None
-                ),
-            )
+        # build a new store, such that the current one is left alone until every
+        # member was fitted
+        repository = PosteriorMultiStateRepository(
+            size=self.posterior_approximator.ensemble_size,
+            checkpoint_dir=(
+                fit_config.checkpointer.save_checkpoint_dir
+                if fit_config.checkpointer.dump_state is True
+                else None
+            ),
+        )
 
         status = []
         for i in range(self.posterior_approximator.ensemble_size):
@@ -184,10 +177,11 @@ class DeepEnsemblePosterior(Posterior):
                 f"Run {i+1} out of {self.posterior_approximator.ensemble_size}."
             )
             state, _status = _fit(i)
-            self.state.put(
+            repository.put(
                 state=state, i=i, keep=fit_config.checkpointer.keep_top_n_checkpoints
             )
             status.append(_status)
+        self.state = repository
         logging.info("Fit completed.")
         return status
 
-- 
2.43.0


From 9724b0b900fc1e503271adfe07ee6b5ee55c5ceb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 17/39] fix: saving a deep ensemble or an MCMC posterior writes
 to the given path, and is refused before any fit

---
 .../deep_ensemble/deep_ensemble_posterior.py  | 12 ++++++++++-
 .../posterior/sgmcmc/sgmcmc_posterior.py      | 20 ++++++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
index dca914d..aa1ea2d 100755
--- a/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
+++ b/fortuna/prob_model/posterior/deep_ensemble/deep_ensemble_posterior.py
@@ -213,8 +213,18 @@ class DeepEnsemblePosterior(Posterior):
         )
 
     def save_state(self, checkpoint_dir: Path, keep_top_n_checkpoints: int = 1) -> None:
+        if self.state is None:
+            raise ValueError(
+                """No state available. You must first either fit the posterior distribution, or load a
+            saved checkpoint."""
+            )
         for i in range(self.posterior_approximator.ensemble_size):
-            self.state.put(state=self.state.get(i), i=i, keep=keep_top_n_checkpoints)
+            self.state.put(
+                state=self.state.get(i),
+                i=i,
+                checkpoint_path=pathlib.Path(checkpoint_dir) / str(i),
+                keep=keep_top_n_checkpoints,
+            )
 
     def _init_map_state(
         self, state: Optional[MAPState], data_loader: DataLoader, fit_config: FitConfig
diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
index b6de41e..4b9f87e 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_posterior.py
@@ -76,8 +76,26 @@ class SGMCMCPosterior(Posterior):
         )
 
     def save_state(self, checkpoint_dir: Path, keep_top_n_checkpoints: int = 1) -> None:
+        if self.state is None:
+            raise ValueError(
+                """No state available. You must first either fit the posterior distribution, or load a
+            saved checkpoint."""
+            )
         for i in range(self.posterior_approximator.n_samples):
-            self.state.put(state=self.state.get(i), i=i, keep=keep_top_n_checkpoints)
+            state = self.state.get(i)
+            self.state.put(
+                state=state,
+                i=i,
+                checkpoint_path=pathlib.Path(checkpoint_dir) / str(i),
+                keep=keep_top_n_checkpoints,
+            )
+        # the complete last state, which `load_state` and further fits start from
+        self.save_checkpoint(
+            state,
+            save_checkpoint_dir=pathlib.Path(checkpoint_dir) / "c",
+            keep=keep_top_n_checkpoints,
+            force_save=True,
+        )
 
     def _restore_state_from_somewhere(
         self,
-- 
2.43.0


From 328c43f6d71759c16ffb10f01f170ad3aa40cbb2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 18/39] fix: fitting SGHMC, cyclical SGLD and SNGP no longer
 modifies the passed configuration

---
 .../posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py | 4 ++++
 fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py  | 4 ++++
 fortuna/prob_model/posterior/sngp/sngp_posterior.py           | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
index 59c945d..a2954eb 100644
--- a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
@@ -1,3 +1,4 @@
+from copy import copy
 import logging
 import pathlib
 from typing import Optional
@@ -98,6 +99,9 @@ class CyclicalSGLDPosterior(SGMCMCPosterior):
         if fit_config.optimizer.method is not None:
             logging.info("`FitOptimizer` method in CyclicalSGLD is ignored.")
 
+        # leave the configuration that was passed in alone
+        fit_config = copy(fit_config)
+        fit_config.optimizer = copy(fit_config.optimizer)
         fit_config.optimizer.method = cyclical_sgld_integrator(
             rng_key=self.rng.get(),
             init_step_size=self.posterior_approximator.init_step_size,
diff --git a/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py b/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
index cb84d46..151241b 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
@@ -1,3 +1,4 @@
+from copy import copy
 import logging
 import pathlib
 from typing import Optional
@@ -94,6 +95,9 @@ class SGHMCPosterior(SGMCMCPosterior):
         if fit_config.optimizer.method is not None:
             logging.info("`FitOptimizer` method in SGHMC is ignored.")
 
+        # leave the configuration that was passed in alone
+        fit_config = copy(fit_config)
+        fit_config.optimizer = copy(fit_config.optimizer)
         fit_config.optimizer.method = sghmc_integrator(
             momentum_decay=self.posterior_approximator.momentum_decay,
             momentum_resample_steps=None,
diff --git a/fortuna/prob_model/posterior/sngp/sngp_posterior.py b/fortuna/prob_model/posterior/sngp/sngp_posterior.py
index fc06714..798c8c3 100755
--- a/fortuna/prob_model/posterior/sngp/sngp_posterior.py
+++ b/fortuna/prob_model/posterior/sngp/sngp_posterior.py
@@ -1,3 +1,4 @@
+from copy import copy
 import logging
 from typing import Optional
 
@@ -49,6 +50,8 @@ class SNGPPosterior(MAPPosterior):
                 ridge_penalty=self.joint.likelihood.model_manager.ridge_penalty,
             )
         ]
+        # leave the configuration that was passed in alone
+        fit_config = copy(fit_config)
         if fit_config.callbacks is None:
             fit_config.callbacks = callbacks
         else:
-- 
2.43.0


From 3bf4d9ce12b33377ea2a89abaa165bc044044709 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:35:25 +0000
Subject: [PATCH 19/39] fix: a refused MCMC fit leaves the current state alone

---
 .../sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py          | 5 +++--
 fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
index a2954eb..7c9f73e 100644
--- a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
@@ -156,7 +156,7 @@ class CyclicalSGLDPosterior(SGMCMCPosterior):
 
         state = super()._freeze_optimizer_in_state(state, fit_config)
 
-        self.state = SGMCMCPosteriorStateRepository(
+        repository = SGMCMCPosteriorStateRepository(
             size=self.posterior_approximator.n_samples,
             checkpoint_dir=fit_config.checkpointer.save_checkpoint_dir,
             which_params=which_params,
@@ -171,7 +171,7 @@ class CyclicalSGLDPosterior(SGMCMCPosterior):
             cycle_length=self.posterior_approximator.cycle_length,
             exploration_ratio=self.posterior_approximator.exploration_ratio,
             trainer=trainer,
-            state_repository=self.state,
+            state_repository=repository,
             keep_top_n_checkpoints=fit_config.checkpointer.keep_top_n_checkpoints,
         )
 
@@ -191,6 +191,7 @@ class CyclicalSGLDPosterior(SGMCMCPosterior):
             verbose=fit_config.monitor.verbose,
             callbacks=[cyclical_sampling_callback],
         )
+        self.state = repository
         logging.info("Fit completed.")
 
         return status
diff --git a/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py b/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
index 151241b..38dd61d 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
@@ -152,7 +152,7 @@ class SGHMCPosterior(SGMCMCPosterior):
 
         state = super()._freeze_optimizer_in_state(state, fit_config)
 
-        self.state = SGMCMCPosteriorStateRepository(
+        repository = SGMCMCPosteriorStateRepository(
             size=self.posterior_approximator.n_samples,
             checkpoint_dir=fit_config.checkpointer.save_checkpoint_dir,
             which_params=which_params,
@@ -166,7 +166,7 @@ class SGHMCPosterior(SGMCMCPosterior):
             n_thinning=self.posterior_approximator.n_thinning,
             burnin_length=self.posterior_approximator.burnin_length,
             trainer=trainer,
-            state_repository=self.state,
+            state_repository=repository,
             keep_top_n_checkpoints=fit_config.checkpointer.keep_top_n_checkpoints,
         )
 
@@ -186,6 +186,7 @@ class SGHMCPosterior(SGMCMCPosterior):
             verbose=fit_config.monitor.verbose,
             callbacks=[sghmc_sampling_callback],
         )
+        self.state = repository
         logging.info("Fit completed.")
 
         return status
-- 
2.43.0


From eac4106cda5d865fda5039c551758f8ff0234714 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:48:43 +0000
Subject: [PATCH 20/39] fix: calibrating with checkpoints where the posterior
 state is stored no longer loses the state

---
 fortuna/prob_model/base.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/fortuna/prob_model/base.py b/fortuna/prob_model/base.py
index 9f9f4e9..6926b71 100644
--- a/fortuna/prob_model/base.py
+++ b/fortuna/prob_model/base.py
@@ -13,6 +13,9 @@ from fortuna.data.loader import DataLoader
 from fortuna.output_calib_model.state import OutputCalibState
 from fortuna.prob_model.calib_config.base import CalibConfig
 from fortuna.prob_model.fit_config.base import FitConfig
+from fortuna.prob_model.posterior.posterior_state_repository import (
+    PosteriorStateRepository,
+)
 from fortuna.prob_model.prob_model_calibrator import (
     JittedProbModelOutputCalibrator,
     MultiDeviceProbModelOutputCalibrator,
@@ -199,6 +202,14 @@ class ProbModel(abc.ABC):
                     optimizer=calib_config.optimizer.method,
                 )
 
+            # the checkpoints of the calibration may go where the state is stored and
+            # replace it
+            posterior_state = (
+                self.posterior.state.get()
+                if isinstance(self.posterior.state, PosteriorStateRepository)
+                else None
+            )
+
             if calib_config.monitor.verbose:
                 logging.info("Start calibration.")
             state, status = calibrator.train(
@@ -214,9 +225,11 @@ class ProbModel(abc.ABC):
                 verbose=calib_config.monitor.verbose,
             )
 
-            self.posterior.state.update(
-                variables=dict(calib_params=state.params, calib_mutable=state.mutable)
-            )
+            variables = dict(calib_params=state.params, calib_mutable=state.mutable)
+            if posterior_state is not None:
+                self.posterior.state.put(posterior_state.replace(**variables))
+            else:
+                self.posterior.state.update(variables=variables)
 
             if (
                 calib_config.checkpointer.dump_state
-- 
2.43.0


From 0c04187808292ee216fa1f523bb465ea7943e51f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:48:43 +0000
Subject: [PATCH 21/39] fix: calibration restored from a posterior checkpoint
 starts from its calibration parameters

---
 fortuna/prob_model/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fortuna/prob_model/base.py b/fortuna/prob_model/base.py
index 6926b71..a16a6bd 100644
--- a/fortuna/prob_model/base.py
+++ b/fortuna/prob_model/base.py
@@ -201,6 +201,12 @@ class ProbModel(abc.ABC):
                     calib_config.checkpointer.restore_checkpoint_path,
                     optimizer=calib_config.optimizer.method,
                 )
+                if not isinstance(state, OutputCalibState):
+                    state = OutputCalibState.init(
+                        params=state.calib_params,
+                        mutable=state.calib_mutable,
+                        optimizer=calib_config.optimizer.method,
+                    )
 
             # the checkpoints of the calibration may go where the state is stored and
             # replace it
-- 
2.43.0


From a975f23ccbbacd0f26c02c6c25014b6b0b92cebb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:59:41 +0000
Subject: [PATCH 22/39] fix: a failed ADVI fit leaves the current posterior
 usable

---
 .../normalizing_flow/advi/advi_posterior.py     | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
index cde86b8..64b9a80 100755
--- a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
+++ b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
@@ -126,12 +126,12 @@ class ADVIPosterior(Posterior):
         else:
             which_params = None
 
-        rav, self._unravel, sub_unravel, rav_log_stds = self._get_unravel(
+        rav, _unravel, sub_unravel, rav_log_stds = self._get_unravel(
             params=state.params, log_stds=log_stds, which_params=which_params
         )
 
         size_rav = len(rav)
-        self._base, self._architecture = self._get_base_and_architecture(size_rav)
+        _base, _architecture = self._get_base_and_architecture(size_rav)
 
         trainer_cls = select_trainer_given_devices(
             devices=fit_config.processor.devices,
@@ -152,10 +152,10 @@ class ADVIPosterior(Posterior):
             early_stopping_min_delta=fit_config.monitor.early_stopping_min_delta,
             early_stopping_patience=fit_config.monitor.early_stopping_patience,
             freeze_fun=fit_config.optimizer.freeze_fun,
-            base=self._base,
-            architecture=self._architecture,
+            base=_base,
+            architecture=_architecture,
             which_params=which_params,
-            unravel=self._unravel,
+            unravel=_unravel,
             sub_unravel=sub_unravel,
         )
 
@@ -163,7 +163,7 @@ class ADVIPosterior(Posterior):
             rav=rav,
             rav_log_stds=rav_log_stds,
             state=state,
-            init_params=self._architecture.init_params,
+            init_params=_architecture.init_params,
             optimizer=fit_config.optimizer.method,
         )
 
@@ -181,13 +181,16 @@ class ADVIPosterior(Posterior):
                 val_data_loader.size if val_data_loader is not None else None
             ),
             verbose=fit_config.monitor.verbose,
-            unravel=self._unravel,
+            unravel=_unravel,
             n_samples=self.posterior_approximator.n_loss_samples,
             callbacks=fit_config.callbacks,
             max_grad_norm=fit_config.hyperparameters.max_grad_norm,
             gradient_accumulation_steps=fit_config.hyperparameters.gradient_accumulation_steps,
         )
 
+        self._base = _base
+        self._architecture = _architecture
+        self._unravel = _unravel
         self.state = PosteriorStateRepository(
             fit_config.checkpointer.save_checkpoint_dir
             if fit_config.checkpointer.dump_state is True
-- 
2.43.0


From 491b40f934b6ebca6b5af3bf57312c150acdbfe7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:03:36 +0000
Subject: [PATCH 23/39] fix: ADVI can start from an ADVI state in which
 parameters to train were frozen

---
 .../posterior/normalizing_flow/advi/advi_posterior.py  | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
index 64b9a80..8a1a16a 100755
--- a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
+++ b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
@@ -11,6 +11,7 @@ from typing import (
 )
 
 from flax.core import FrozenDict
+from flax.traverse_util import flatten_dict
 import jax
 from jax.flatten_util import ravel_pytree
 import jax.numpy as jnp
@@ -126,6 +127,15 @@ class ADVIPosterior(Posterior):
         else:
             which_params = None
 
+        if log_stds is not None:
+            paths = set(map(tuple, which_params or flatten_dict(state.params)))
+            if not paths <= set(flatten_dict(log_stds)):
+                logging.warning(
+                    "Some parameters to train were frozen in the state to start from. The standard deviations of "
+                    "the approximate posterior will be initialized randomly."
+                )
+                log_stds = None
+
         rav, _unravel, sub_unravel, rav_log_stds = self._get_unravel(
             params=state.params, log_stds=log_stds, which_params=which_params
         )
-- 
2.43.0


From af04f7cc73f61f428adc1673fe2db3608148bdda Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:07:10 +0000
Subject: [PATCH 24/39] fix: SWAG respects the maximum gradient norm and
 gradient accumulation

---
 fortuna/prob_model/posterior/swag/swag_posterior.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fortuna/prob_model/posterior/swag/swag_posterior.py b/fortuna/prob_model/posterior/swag/swag_posterior.py
index d04e58f..f31ed5c 100755
--- a/fortuna/prob_model/posterior/swag/swag_posterior.py
+++ b/fortuna/prob_model/posterior/swag/swag_posterior.py
@@ -165,6 +165,8 @@ class SWAGPosterior(Posterior):
             ),
             verbose=fit_config.monitor.verbose,
             callbacks=fit_config.callbacks,
+            max_grad_norm=fit_config.hyperparameters.max_grad_norm,
+            gradient_accumulation_steps=fit_config.hyperparameters.gradient_accumulation_steps,
             **kwargs,
         )
 
-- 
2.43.0


From c1f2d6a03dacb01b230015ee649c3b2b5842c9bc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:07:10 +0000
Subject: [PATCH 25/39] fix: SWAG averages over the collected parameters
 whatever the number of steps per epoch

---
 fortuna/prob_model/posterior/swag/swag_trainer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fortuna/prob_model/posterior/swag/swag_trainer.py b/fortuna/prob_model/posterior/swag/swag_trainer.py
index 2601d77..37c0840 100644
--- a/fortuna/prob_model/posterior/swag/swag_trainer.py
+++ b/fortuna/prob_model/posterior/swag/swag_trainer.py
@@ -31,6 +31,7 @@ from fortuna.utils.strings import encode_tuple_of_lists_of_strings_to_numpy
 class SWAGTrainer(MAPTrainer):
     def __init__(self, *, which_params: Optional[Tuple[List[str]]], **kwargs):
         super(SWAGTrainer, self).__init__(**kwargs)
+        self._n_collected = 0
         self._mean_rav_params = None
         self._mean_squared_rav_params = None
         self._deviation_rav_params = None
@@ -86,13 +87,13 @@ class SWAGTrainer(MAPTrainer):
             self._mean_squared_rav_params = rav_params**2
             self._deviation_rav_params = jnp.zeros((len(rav_params), 1))
         else:
-            self._mean_rav_params *= current_epoch
+            self._mean_rav_params *= self._n_collected
             self._mean_rav_params += rav_params
-            self._mean_rav_params /= current_epoch + 1
+            self._mean_rav_params /= self._n_collected + 1
 
-            self._mean_squared_rav_params *= current_epoch
+            self._mean_squared_rav_params *= self._n_collected
             self._mean_squared_rav_params += rav_params**2
-            self._mean_squared_rav_params /= current_epoch + 1
+            self._mean_squared_rav_params /= self._n_collected + 1
             self._deviation_rav_params = jnp.concatenate(
                 (
                     self._deviation_rav_params[:, -kwargs["rank"] + 1 :],
@@ -100,6 +101,7 @@ class SWAGTrainer(MAPTrainer):
                 ),
                 axis=1,
             )
+        self._n_collected += 1
         return super().training_step_end(
             current_epoch, state, aux, batch, metrics, callbacks, kwargs
         )
-- 
2.43.0


From a5cd1099e31cc55ded95ea6237f18048bde477d2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:35:30 +0000
Subject: [PATCH 26/39] fix: ADVI restarted with frozen parameters no longer
 permutes the standard deviations

---
 .../posterior/normalizing_flow/advi/advi_posterior.py    | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
index 8a1a16a..4a59a4b 100755
--- a/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
+++ b/fortuna/prob_model/posterior/normalizing_flow/advi/advi_posterior.py
@@ -449,14 +449,7 @@ class ADVIPosterior(Posterior):
 
             if log_stds is not None:
                 rav_log_stds = ravel_pytree(
-                    nested_set(
-                        d={},
-                        key_paths=which_params,
-                        objs=tuple(
-                            [nested_get(log_stds, path) for path in which_params]
-                        ),
-                        allow_nonexistent=True,
-                    )
+                    tuple([nested_get(log_stds, path) for path in which_params])
                 )[0]
             else:
                 rav_log_stds = None
-- 
2.43.0


From 9e803ae7c9d296b5255e1d77788d6caf296d6e16 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:47:52 +0000
Subject: [PATCH 27/39] fix: raise when an SGMCMC chain stopped before
 collecting its samples

---
 .../cyclical_sgld/cyclical_sgld_posterior.py      |  3 +++
 .../posterior/sgmcmc/sghmc/sghmc_posterior.py     |  3 +++
 .../posterior/sgmcmc/sgmcmc_sampling_callback.py  | 15 +++++++++++++++
 3 files changed, 21 insertions(+)

diff --git a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
index 7c9f73e..2e14238 100644
--- a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_posterior.py
@@ -191,6 +191,9 @@ class CyclicalSGLDPosterior(SGMCMCPosterior):
             verbose=fit_config.monitor.verbose,
             callbacks=[cyclical_sampling_callback],
         )
+        cyclical_sampling_callback.check_samples_count(
+            self.posterior_approximator.n_samples
+        )
         self.state = repository
         logging.info("Fit completed.")
 
diff --git a/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py b/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
index 38dd61d..ee78290 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sghmc/sghmc_posterior.py
@@ -186,6 +186,9 @@ class SGHMCPosterior(SGMCMCPosterior):
             verbose=fit_config.monitor.verbose,
             callbacks=[sghmc_sampling_callback],
         )
+        sghmc_sampling_callback.check_samples_count(
+            self.posterior_approximator.n_samples
+        )
         self.state = repository
         logging.info("Fit completed.")
 
diff --git a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_sampling_callback.py b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_sampling_callback.py
index 77a40d1..c669d0d 100644
--- a/fortuna/prob_model/posterior/sgmcmc/sgmcmc_sampling_callback.py
+++ b/fortuna/prob_model/posterior/sgmcmc/sgmcmc_sampling_callback.py
@@ -45,3 +45,18 @@ class SGMCMCSamplingCallback(Callback):
             self._samples_count += 1
 
         return state
+
+    def check_samples_count(self, n_samples: int) -> None:
+        """
+        Check that the chain ran long enough, e.g. that it was not stopped early, to collect all the desired samples.
+
+        Parameters
+        ----------
+        n_samples: int
+            The desired number of the posterior samples.
+        """
+        if self._samples_count < n_samples:
+            raise ValueError(
+                f"The number of desired samples `n_samples` is {n_samples}. However, the chain stopped after "
+                f"{self._current_step} steps, and only {self._samples_count} samples were collected."
+            )
-- 
2.43.0


From 79e155b89b0c2c44597d7f590b4df997919aeeff Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:52:24 +0000
Subject: [PATCH 28/39] fix: collect cyclical SGLD samples after the steps of
 the sampling phase

The integrator counts steps from zero and the callback from one, so that
every cycle kept a state produced by a step of the exploration phase and
missed the one produced by the last step of the sampling phase.
---
 .../posterior/sgmcmc/cyclical_sgld/cyclical_sgld_callback.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_callback.py b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_callback.py
index 16aebc5..cdfeb38 100644
--- a/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_callback.py
+++ b/fortuna/prob_model/posterior/sgmcmc/cyclical_sgld/cyclical_sgld_callback.py
@@ -54,8 +54,9 @@ class CyclicalSGLDSamplingCallback(SGMCMCSamplingCallback):
 
         self._do_sample = (
             lambda current_step, samples_count: samples_count < n_samples
-            and ((current_step % cycle_length) / cycle_length) >= exploration_ratio
-            and (current_step % cycle_length) % n_thinning == 0
+            and (((current_step - 1) % cycle_length) / cycle_length)
+            >= exploration_ratio
+            and ((current_step - 1) % cycle_length) % n_thinning == 0
         )
 
         total_samples = sum(
-- 
2.43.0


From e3889f19b21aa1039250c9f24c5b20b1202ad568 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:22:00 +0000
Subject: [PATCH 29/39] fix: never hand out a key that later keys derive from

The generator returned its own internal state, so that the first key split
off a handed out key was the next key to be handed out.
---
 fortuna/utils/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fortuna/utils/random.py b/fortuna/utils/random.py
index a34dd09..fa622a0 100644
--- a/fortuna/utils/random.py
+++ b/fortuna/utils/random.py
@@ -45,8 +45,8 @@ class RandomNumberGenerator:
         jax.Array
             A random number generator key.
         """
-        self._rng = random.split(self._rng)[0]
-        return self._rng
+        self._rng, key = random.split(self._rng)
+        return key
 
 
 class WithRNG:
-- 
2.43.0


From 4485fb263e1b4aa75b7293c3aba2c3deee6b94ac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:22:00 +0000
Subject: [PATCH 30/39] fix: accept a random key in Predictive.sample

---
 fortuna/prob_model/predictive/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index e6983d1..d4c0a46 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -353,7 +353,7 @@ class Predictive(WithRNG):
         Union[jnp.ndarray, Tuple[jnp.ndarray, Dict[str, jnp.ndarray]]]
             Samples for each input data point. Optionally, an auxiliary object is returned.
         """
-        if not rng:
+        if rng is None:
             rng = self.rng.get()
 
         def fun(_inputs):
-- 
2.43.0


From 4ee9be4f7e2ae1ab9c265aff7322aae290aa5e52 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:27:33 +0000
Subject: [PATCH 31/39] fix: give every probabilistic model its own prior

Models built with the same prior object, which the default argument is,
drew prior samples from the generator of the model built last.
---
 fortuna/prob_model/classification.py | 4 +++-
 fortuna/prob_model/regression.py     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fortuna/prob_model/classification.py b/fortuna/prob_model/classification.py
index 66bc57a..645e2c4 100644
--- a/fortuna/prob_model/classification.py
+++ b/fortuna/prob_model/classification.py
@@ -1,3 +1,4 @@
+from copy import copy
 import importlib
 import logging
 from typing import (
@@ -111,7 +112,8 @@ class ProbClassifier(ProbModel):
             approximated via a Monte Carlo approach by sampling from the posterior approximation.
         """
         self.model = model
-        self.prior = prior
+        # the prior carries the random number generator of its model
+        self.prior = copy(prior)
         self.output_calibrator = output_calibrator
 
         self.output_calib_manager = OutputCalibManager(
diff --git a/fortuna/prob_model/regression.py b/fortuna/prob_model/regression.py
index 69146ac..aa41b38 100755
--- a/fortuna/prob_model/regression.py
+++ b/fortuna/prob_model/regression.py
@@ -1,3 +1,4 @@
+from copy import copy
 from typing import (
     Dict,
     Optional,
@@ -104,7 +105,8 @@ class ProbRegressor(ProbModel):
         """
         self.model = model
         self.lik_log_var = likelihood_log_variance_model
-        self.prior = prior
+        # the prior carries the random number generator of its model
+        self.prior = copy(prior)
         self.output_calibrator = output_calibrator
 
         self.model_manager = RegressionModelManager(
-- 
2.43.0


From 3e62ab261f4ad84b54318079906b9368daee7007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:56 +0000
Subject: [PATCH 32/39] fix: tune the Laplace prior on a single device

Without devices to distribute over, tuning the prior log-variance used a key
never defined and merged a device dimension that was not there.
---
 .../posterior/laplace/laplace_posterior.py         | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/fortuna/prob_model/posterior/laplace/laplace_posterior.py b/fortuna/prob_model/posterior/laplace/laplace_posterior.py
index 5e6376f..28390c0 100755
--- a/fortuna/prob_model/posterior/laplace/laplace_posterior.py
+++ b/fortuna/prob_model/posterior/laplace/laplace_posterior.py
@@ -489,23 +489,23 @@ class LaplacePosterior(Posterior):
         candidates = list(
             jnp.linspace(min_prior_log_var, max_prior_log_var, grid_size)
         ) + [jnp.array(self.joint.prior.log_var)]
+        rng = jax.random.PRNGKey(0)
         if distribute:
-            rng = shard_prng_key(jax.random.PRNGKey(0))
+            rng = shard_prng_key(rng)
             val_data_loader = DeviceDimensionAugmentedLoader(val_data_loader)
             candidates = [shard(c) for c in candidates]
             fn = pmap(self._batched_log_prob, static_broadcasted_argnums=(2,))
         else:
             fn = jit(self._batched_log_prob, static_argnums=(2,))
 
+        def log_prob(batch, lpv):
+            lp = fn(batch, lpv, n_posterior_samples, rng)
+            return self.joint.likelihood._unshard_array(lp) if distribute else lp
+
         for lpv in tqdm.tqdm(candidates, desc="Tuning prior log-var"):
             neg_log_prob = -jnp.sum(
                 jnp.concatenate(
-                    [
-                        self.joint.likelihood._unshard_array(
-                            fn(batch, lpv, n_posterior_samples, rng)
-                        )
-                        for batch in val_data_loader
-                    ],
+                    [log_prob(batch, lpv) for batch in val_data_loader],
                     0,
                 )
             )
-- 
2.43.0


From 11c08d854e086b10647e16119ff437974b8f4024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:01 +0000
Subject: [PATCH 33/39] fix: train regression models with mutable objects

The regression model manager wrote into the (immutable) mutable objects, never
passed their values to the models, and returned the mean model's for the
log-variance model.
---
 fortuna/model/model_manager/regression.py | 69 ++++++++---------------
 1 file changed, 23 insertions(+), 46 deletions(-)

diff --git a/fortuna/model/model_manager/regression.py b/fortuna/model/model_manager/regression.py
index d915c4b..1ec11b3 100644
--- a/fortuna/model/model_manager/regression.py
+++ b/fortuna/model/model_manager/regression.py
@@ -63,50 +63,39 @@ class RegressionModelManager(ModelManager):
             model_rngs = None
             lik_log_var_rngs = None
 
-        if mutable is not None:
-            mutable["model"] = mutable.get("model")
-            mutable["lik_log_var"] = mutable.get("lik_log_var")
-
-        model_has_aux = train and mutable is not None and mutable["model"] is not None
-        lik_log_var_has_aux = (
-            train and mutable is not None and mutable["lik_log_var"] is not None
+        has_aux = train and mutable is not None
+        m_mutable, llv_mutable = (
+            (mutable.get(k) if mutable is not None else None) or dict()
+            for k in ("model", "lik_log_var")
         )
 
-        def apply_fn(p, x, m_mutable, llv_mutable):
-            model_outputs = self.model.apply(
-                p["model"],
+        def apply_model(model, variables, x, model_mutable, rngs):
+            outputs = model.apply(
+                {**variables, **model_mutable},
                 x,
                 train=train,
-                mutable=m_mutable,
-                rngs=model_rngs,
+                mutable=list(model_mutable.keys()) if model_mutable else False,
+                rngs=rngs,
             )
-            lik_log_var_outputs = self.likelihood_log_variance_model.apply(
+            return outputs if model_mutable else (outputs, dict())
+
+        def apply_fn(p, x):
+            model_outputs, new_m_mutable = apply_model(
+                self.model, p["model"], x, m_mutable, model_rngs
+            )
+            lik_log_var_outputs, new_llv_mutable = apply_model(
+                self.likelihood_log_variance_model,
                 p["lik_log_var"],
                 x,
-                train=train,
-                mutable=llv_mutable,
-                rngs=lik_log_var_rngs,
+                llv_mutable,
+                lik_log_var_rngs,
             )
 
-            if isinstance(model_outputs, tuple) and not model_has_aux:
-                model_outputs = model_outputs[0]
-            if isinstance(lik_log_var_outputs, tuple) and not lik_log_var_has_aux:
-                lik_log_var_outputs = lik_log_var_outputs[0]
-
-            if model_has_aux:
-                model_outputs, m_mutable = model_outputs
-            if lik_log_var_has_aux:
-                lik_log_var_outputs, llv_mutable = lik_log_var_outputs
-
             self._check_outputs(model_outputs, lik_log_var_outputs)
 
             aux = dict()
-            if m_mutable or llv_mutable:
-                aux["mutable"] = dict()
-                if m_mutable:
-                    aux["mutable"]["model"] = m_mutable
-                if llv_mutable:
-                    aux["mutable"]["lik_log_var"] = m_mutable
+            if has_aux:
+                aux["mutable"] = dict(model=new_m_mutable, lik_log_var=new_llv_mutable)
 
             return jnp.concatenate(
                 (model_outputs, lik_log_var_outputs), axis=-1
@@ -115,25 +104,13 @@ class RegressionModelManager(ModelManager):
         if self.model_editor is not None:
             outputs, aux = self.model_editor.apply(
                 params["model_editor"],
-                apply_fn=lambda p, x: apply_fn(
-                    p,
-                    x,
-                    m_mutable=mutable["model"] if mutable is not None else False,
-                    llv_mutable=(
-                        mutable["lik_log_var"] if mutable is not None else False
-                    ),
-                ),
+                apply_fn=apply_fn,
                 model_params=params,
                 x=inputs,
                 has_aux=True,
             )
         else:
-            outputs, aux = apply_fn(
-                params,
-                inputs,
-                m_mutable=mutable["model"] if mutable is not None else False,
-                llv_mutable=mutable["lik_log_var"] if mutable is not None else False,
-            )
+            outputs, aux = apply_fn(params, inputs)
 
         if len(aux) > 0:
             return outputs, aux
-- 
2.43.0


From 2ec7bc96236190f586201644ca093a72db7aa146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:19 +0000
Subject: [PATCH 34/39] fix: return the square root of the given variances as
 standard deviations

---
 fortuna/prob_output_layer/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fortuna/prob_output_layer/base.py b/fortuna/prob_output_layer/base.py
index 9423666..cb2f087 100755
--- a/fortuna/prob_output_layer/base.py
+++ b/fortuna/prob_output_layer/base.py
@@ -149,7 +149,9 @@ class ProbOutputLayer(WithRNG, abc.ABC):
         jnp.ndarray
             The estimated standard deviation for each output.
         """
-        return jnp.sqrt(self.variance(outputs)) if variances is None else variances
+        if variances is None:
+            variances = self.variance(outputs)
+        return jnp.sqrt(variances)
 
     @abc.abstractmethod
     def entropy(self, outputs: Array, **kwargs) -> jnp.ndarray:
-- 
2.43.0


From fcb870dee3eb9c7e70841b0df52331a7cade083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:19 +0000
Subject: [PATCH 35/39] fix: name the unsupported auxiliary objects instead of
 failing to sum them

---
 fortuna/calib_model/loss.py                   | 2 +-
 fortuna/likelihood/base.py                    | 6 +++---
 fortuna/output_calib_model/loss.py            | 2 +-
 fortuna/output_calib_model/predictive/base.py | 2 +-
 fortuna/prob_model/predictive/base.py         | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/fortuna/calib_model/loss.py b/fortuna/calib_model/loss.py
index 8e675a1..1dae209 100644
--- a/fortuna/calib_model/loss.py
+++ b/fortuna/calib_model/loss.py
@@ -47,7 +47,7 @@ class Loss(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "mutable", "calib_mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/likelihood/base.py b/fortuna/likelihood/base.py
index 37b392c..722e260 100644
--- a/fortuna/likelihood/base.py
+++ b/fortuna/likelihood/base.py
@@ -174,7 +174,7 @@ class Likelihood(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "mutable", "calib_mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
@@ -311,7 +311,7 @@ class Likelihood(WithRNG):
             return_aux = []
         supported_aux = ["outputs"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise Exception(
                 """The auxiliary objects {} are unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
@@ -352,7 +352,7 @@ class Likelihood(WithRNG):
             return_aux = []
         supported_aux = ["outputs"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise Exception(
                 """The auxiliary objects {} are unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/output_calib_model/loss.py b/fortuna/output_calib_model/loss.py
index cac3eb0..5142cb2 100644
--- a/fortuna/output_calib_model/loss.py
+++ b/fortuna/output_calib_model/loss.py
@@ -41,7 +41,7 @@ class Loss(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/output_calib_model/predictive/base.py b/fortuna/output_calib_model/predictive/base.py
index a0707fb..fa19b10 100644
--- a/fortuna/output_calib_model/predictive/base.py
+++ b/fortuna/output_calib_model/predictive/base.py
@@ -273,7 +273,7 @@ class Predictive(WithRNG, abc.ABC):
             return_aux = []
         supported_aux = ["outputs", "mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise AttributeError(
                 """The auxiliary objects {} is unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index d4c0a46..18a9faf 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -218,7 +218,7 @@ class Predictive(WithRNG):
             return_aux = []
         supported_aux = ["outputs", "calib_mutable"]
         unsupported_aux = [s for s in return_aux if s not in supported_aux]
-        if sum(unsupported_aux) > 0:
+        if len(unsupported_aux) > 0:
             raise Exception(
                 """The auxiliary objects {} are unknown. Please make sure that all elements of `return_aux`
                             belong to the following list: {}""".format(
-- 
2.43.0


From bfbc5609968cf53f077cadc2df869af73fc3913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:37 +0000
Subject: [PATCH 36/39] fix: assemble predictive samples along the data axis

---
 fortuna/prob_model/predictive/base.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fortuna/prob_model/predictive/base.py b/fortuna/prob_model/predictive/base.py
index 18a9faf..013a4ec 100644
--- a/fortuna/prob_model/predictive/base.py
+++ b/fortuna/prob_model/predictive/base.py
@@ -367,7 +367,7 @@ class Predictive(WithRNG):
             if return_aux is None or len(return_aux) == 0:
                 return jnp.concatenate(
                     [
-                        self.likelihood._unshard_array(fun(inputs))
+                        self._unshard_ensemble_arrays(fun(inputs))
                         for inputs in inputs_loader
                     ],
                     1,
@@ -376,15 +376,15 @@ class Predictive(WithRNG):
                 samples, aux_outputs = [], []
                 for inputs in inputs_loader:
                     _samples, _aux = fun(inputs)
-                    samples.append(self.likelihood._unshard_array(_samples))
+                    samples.append(self._unshard_ensemble_arrays(_samples))
                     if "outputs" in _aux:
                         aux_outputs.append(
-                            self.likelihood._unshard_array(_aux["outputs"])
+                            self._unshard_ensemble_arrays(_aux["outputs"])
                         )
-                samples = jnp.concatenate(samples, axis=0)
+                samples = jnp.concatenate(samples, axis=1)
                 aux = dict()
-                if "outputs" in aux:
-                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=0)
+                if len(aux_outputs) > 0:
+                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=1)
                 return samples, aux
         else:
             fun = jit(fun)
@@ -397,10 +397,10 @@ class Predictive(WithRNG):
                     samples.append(_samples)
                     if "outputs" in _aux:
                         aux_outputs.append(_aux["outputs"])
-                samples = jnp.concatenate(samples, axis=0)
+                samples = jnp.concatenate(samples, axis=1)
                 aux = dict()
-                if "outputs" in aux:
-                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=0)
+                if len(aux_outputs) > 0:
+                    aux["outputs"] = jnp.concatenate(aux_outputs, axis=1)
                 return samples, aux
 
     def _batched_sample(
-- 
2.43.0


From b7f47a66abcc861780dd43f8764a31d07ccf7832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:37 +0000
Subject: [PATCH 37/39] fix: include all classes in a credible set when no
 partial sum suffices

---
 fortuna/prob_model/predictive/classification.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fortuna/prob_model/predictive/classification.py b/fortuna/prob_model/predictive/classification.py
index 8119cd5..0c003e3 100644
--- a/fortuna/prob_model/predictive/classification.py
+++ b/fortuna/prob_model/predictive/classification.py
@@ -472,6 +472,8 @@ class ClassificationPredictive(Predictive):
         labels = jnp.argsort(p_classes, axis=-1)[:, ::-1]
         p_classes_sorted = jnp.sort(p_classes, axis=-1)[:, ::-1]
         region_classes = jnp.cumsum(p_classes_sorted, axis=1) > (1 - error)
+        # the whole set of classes is needed if no partial sum exceeds the threshold
+        region_classes = region_classes.at[:, -1].set(True)
 
         # Convert CB region into sets
         index_true = jnp.argmax(region_classes, axis=1)  # first index where True
-- 
2.43.0


From e33c57e25de784619c46377eb34638de0008b4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:16 +0000
Subject: [PATCH 38/39] fix: train calibration models with mutable objects

---
 fortuna/calib_model/loss.py | 2 ++
 fortuna/likelihood/base.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/fortuna/calib_model/loss.py b/fortuna/calib_model/loss.py
index 1dae209..72221d2 100644
--- a/fortuna/calib_model/loss.py
+++ b/fortuna/calib_model/loss.py
@@ -108,6 +108,8 @@ class Loss(WithRNG):
                 outputs=outputs,
                 calib="calib_mutable" in return_aux,
             )
+        else:
+            outs = outputs
         if (
             calib_mutable is not None
             and calib_mutable["output_calibrator"] is not None
diff --git a/fortuna/likelihood/base.py b/fortuna/likelihood/base.py
index 722e260..c4c0708 100644
--- a/fortuna/likelihood/base.py
+++ b/fortuna/likelihood/base.py
@@ -236,6 +236,8 @@ class Likelihood(WithRNG):
                 outputs=outputs,
                 calib="calib_mutable" in return_aux,
             )
+        else:
+            outs = outputs
         if (
             calib_mutable is not None
             and calib_mutable["output_calibrator"] is not None
-- 
2.43.0


From 3d5227eb787e993aa3e758aa74eb129ed8c3e258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:25 +0000
Subject: [PATCH 39/39] fix: report nothing for an epoch shorter than the
 gradient accumulation window instead of failing

---
 fortuna/training/trainer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fortuna/training/trainer.py b/fortuna/training/trainer.py
index 7703368..3624003 100755
--- a/fortuna/training/trainer.py
+++ b/fortuna/training/trainer.py
@@ -584,6 +584,8 @@ class TrainerABC(
     def _get_mean_losses_and_metrics(
         self, losses_and_metrics: List[Dict[str, jnp.ndarray]]
     ) -> Dict[str, float]:
+        if len(losses_and_metrics) == 0:
+            return dict()
         losses_and_metrics = stack_forest(losses_and_metrics)
         losses_and_metrics = tree_map(lambda x: x.mean(), losses_and_metrics)
         return losses_and_metrics
-- 
2.43.0

