From 3a20dd8abf69290925a84aebc8baf4c4329ab6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 01/60] fix: undo scale transformations in the reverse order
 they were applied

---
 irtorch/models/base_irt_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 5396808..ee71892 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -159,7 +159,7 @@ class BaseIRTModel(ABC, nn.Module):
         torch.Tensor
             A 2D tensor containing original theta scores. Each column represents one latent variable.
         """
-        for scale in self.scale:
+        for scale in reversed(self.scale):
             transformed_theta = scale.inverse(transformed_theta)
         return transformed_theta
 
-- 
2.43.0


From 1eeece477b52bcd1e9987bc2c44796fcb2a3c468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 02/60] fix: allow EAP scores for models fitted with MML, which
 keeps no training theta scores

---
 irtorch/models/base_irt_model.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index ee71892..075738b 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -884,9 +884,7 @@ class BaseIRTModel(ABC, nn.Module):
                 4: 5
             }.get(self.latent_variables, 15)
 
-        if hasattr(self.algorithm, "training_theta_scores"):
-            if self.algorithm.training_theta_scores is None:
-                raise ValueError("Please fit the model before computing latent scores.")
+        if getattr(self.algorithm, "training_theta_scores", None) is not None:
             train_theta_scores = self.algorithm.training_theta_scores.to("cpu")
             theta_grid = self._theta_grid(train_theta_scores, grid_size=grid_points)
             # Center the data and compute the covariance matrix.
@@ -901,8 +899,8 @@ class BaseIRTModel(ABC, nn.Module):
                 columns = [grid_values[:, i] for i in range(grid_values.size(1))]
                 theta_grid = torch.cartesian_prod(*columns)
 
-            if hasattr(self.algorithm, "covariance_matrix"):
-                cov_matrix = self.algorithm.covariance_matrix
+            if getattr(self.algorithm, "covariance_matrix", None) is not None:
+                cov_matrix = self.algorithm.covariance_matrix.to("cpu")
             else:
                 cov_matrix = torch.eye(self.latent_variables)
 
-- 
2.43.0


From 8f0c873aa930c50c4e690238c6025db9e89690a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 03/60] fix: avoid underflow of the EAP posterior for long
 tests

---
 irtorch/models/base_irt_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 075738b..1aa036d 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -923,8 +923,9 @@ class BaseIRTModel(ABC, nn.Module):
         # Approximate integration integral(p(x|theta)*p(theta)dtheta)
         # p(x|theta)p(theta) / sum(p(x|theta)p(theta)) needs to sum to 1 for each respondent response pattern.
         log_posterior = (log_prior + grid_log_likelihoods).view(-1, theta_grid.shape[0]) # each row is one respondent
-        # convert to float 64 to prevent 0 probabilities
-        exp_log_posterior = log_posterior.to(dtype=torch.float64).exp()
+        # convert to float 64 and scale by the largest value to prevent 0 probabilities
+        log_posterior = log_posterior.to(dtype=torch.float64)
+        exp_log_posterior = (log_posterior - log_posterior.max(dim=1, keepdim=True).values).exp()
         posterior = (exp_log_posterior.T / exp_log_posterior.sum(dim=1)).T.view(-1, 1) # transform to one column
 
         # Get expected theta
-- 
2.43.0


From 461804e981cd066bc6bfaafec7ff2552571b2fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 04/60] fix: one-hot encoding no longer overwrites missing
 responses in the caller's data

---
 irtorch/_internal_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 6bc655d..ee20963 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -353,7 +353,7 @@ def one_hot_encode_test_data(
             "The number of columns in the data tensor must match the length of the item_categories list."
         )
     if data.isnan().any():
-        data[data.isnan()] = -1
+        data = torch.where(data.isnan(), -1, data)
 
     one_hot_list = []
     if data.dtype != torch.long:
-- 
2.43.0


From 6594463eda82d1141ade8c542e98ae197f1a6df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 05/60] fix: residuals no longer overwrite missing responses in
 the caller's data

---
 irtorch/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index c23c899..f98ce7b 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -172,7 +172,7 @@ class Evaluator:
         data, theta, _ = self._evaluate_data_theta_input(data, theta, **kwargs)
 
         missing_mask = get_missing_mask(data)
-        data[torch.isnan(data)] = -1
+        data = torch.where(missing_mask, -1, data)
         if self.model.mc_correct is not None:
             # 3D tensor with dimensions (respondents, items, item categories)
             probabilities = self.model.item_probabilities(theta)
-- 
2.43.0


From 32d1a0b6440bfad95855f6b96fb4684c8aba80fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 06/60] fix: accept multiple choice models for random incorrect
 imputation

---
 irtorch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 913f703..24e0a35 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -335,7 +335,7 @@ def impute_missing(
         imputed_data[mask] = means.repeat(data.shape[0], 1)[mask]
     elif method == "random incorrect":
         if model is not None:
-            if model.mc_correct is not None:
+            if model.mc_correct is None:
                 raise ValueError("The model provided must be a multiple choice item model when using random_incorrect imputation")
             item_categories = model.item_categories
             mc_correct = model.mc_correct
-- 
2.43.0


From 25a5114dd031eab83a21a00fe3aaa2bca823b2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 07/60] fix: support random incorrect imputation when computing
 latent scores

---
 irtorch/models/base_irt_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 1aa036d..daa3323 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -600,6 +600,8 @@ class BaseIRTModel(ABC, nn.Module):
                         encoder_data = impute_missing_internal(
                             data = data,
                             method=self.algorithm.imputation_method,
+                            mc_correct=self.mc_correct,
+                            item_categories=self.item_categories,
                         )
                     elif not self.algorithm.one_hot_encoded:
                         raise ValueError("The algorithm encoder does not use one-hot encoded data, and autoencoder does not have a pre-specified imputation method. Please impute beforehand.")
-- 
2.43.0


From a1d59aa2d66c5cab2d4737f7217463b310618b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 08/60] fix: ignore the missing responses of each respondent in
 group_fit_log_likelihood

---
 irtorch/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index f98ce7b..5960230 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -576,13 +576,14 @@ class Evaluator:
         indicies = torch.sort(theta[:, latent_variable - 1], dim=0)[1]
         theta = theta[indicies]
         data = data[indicies]
+        missing_mask = missing_mask[indicies]
         likelihoods = self.model.log_likelihood(
             data,
             self.model(theta),
             missing_mask,
             loss_reduction="none"
         )
-        respondent_likelihoods = likelihoods.view(theta.shape[0], -1).sum(dim=1)
+        respondent_likelihoods = likelihoods.view(theta.shape[0], -1).nansum(dim=1)
         group_mean_likelihoods = torch.zeros(groups)
         start_index = 0
         for group in range(groups):
-- 
2.43.0


From e0e8a3693ebc71c57731c7e73519184ac84d39b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 09/60] fix: use all observed responses of an item in
 get_item_categories

---
 irtorch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 24e0a35..fbcfa09 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -291,7 +291,7 @@ def get_item_categories(data: torch.Tensor):
     list
         A list of integers where each integer is the number of possible responses for the corresponding item.
     """
-    return [int(data[~data.isnan().any(dim=1)][:, col].max()) + 1 for col in range(data.shape[1])]
+    return [int(data[~data[:, col].isnan(), col].max()) + 1 for col in range(data.shape[1])]
 
 @torch.no_grad()
 def impute_missing(
-- 
2.43.0


From a29626a76ac71eefb613816e73644573c4e9d845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 10/60] fix: ignore missing responses in the default JML
 starting scores

---
 irtorch/estimation_algorithms/jml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/irtorch/estimation_algorithms/jml.py b/irtorch/estimation_algorithms/jml.py
index a5f0aa2..ae2e82d 100644
--- a/irtorch/estimation_algorithms/jml.py
+++ b/irtorch/estimation_algorithms/jml.py
@@ -2,7 +2,7 @@ import logging
 import copy
 import torch
 from irtorch.models import BaseIRTModel
-from irtorch._internal_utils import dynamic_print, sum_score
+from irtorch._internal_utils import dynamic_print, get_missing_mask, sum_score
 from irtorch.irt_dataset import PytorchIRTDataset
 from irtorch.estimation_algorithms import BaseIRTAlgorithm
 
@@ -72,7 +72,8 @@ class JML(BaseIRTAlgorithm):
             batch_size = train_data.shape[0]
 
         if start_thetas is None:
-            start_thetas = sum_score(train_data, model.mc_correct)
+            observed_data = torch.where(get_missing_mask(train_data), 0, train_data) if model.mc_correct is None else train_data
+            start_thetas = sum_score(observed_data, model.mc_correct)
             start_thetas = (start_thetas - start_thetas.mean()) / start_thetas.std()
             start_thetas = start_thetas.detach().unsqueeze(1).repeat(1, model.latent_variables)
             if model.latent_variables > 1:
-- 
2.43.0


From 11021979e0920ecf0b546c828f98efb2b80b08e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 11/60] fix: treat -1 as missing in joint entropies

---
 irtorch/_internal_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index ee20963..b7eafd9 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -278,8 +278,8 @@ def joint_entropy_matrix(data: torch.Tensor, log_base: float = 2.0):
     if data.dim() != 2:
         raise ValueError("Input must be a 2D tensor")
     
-    mask = ~torch.isnan(data)
-    int_data = data.int()
+    mask = ~get_missing_mask(data)
+    int_data = torch.where(mask, data, 0).int()
     max_combos = ((int_data.max() + 1) ** 2).item()
     proportions = torch.zeros(int_data.shape[1], int_data.shape[1], max_combos)
     for i in range(int_data.shape[1]):
-- 
2.43.0


From f3cd9598bdf8254437f0740d562876b8aee36f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 12/60] fix: allow the documented default guessing
 probabilities

---
 irtorch/_internal_utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index b7eafd9..ff1c409 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -107,8 +107,10 @@ def random_guessing_data(
         A 2D tensor with test data. Rows are respondents and columns are items.
     """
     num_items = len(item_categories)
+    if guessing_probabilities is None:
+        guessing_probabilities = [1.0 / cats for cats in item_categories]
+
     if (
-        guessing_probabilities is not None and \
         isinstance(guessing_probabilities, list) and \
         all(isinstance(item, float) for item in guessing_probabilities) and \
         len(guessing_probabilities) == num_items
@@ -118,10 +120,6 @@ def random_guessing_data(
     else:
         raise ValueError("guessing_probabilities must be list of floats with the same length as the number of items.")
 
-
-    if guessing_probabilities is None:
-        guessing_probabilities = [1.0 / cats for cats in item_categories]
-
     response_matrix = torch.zeros(size, num_items)
 
     for item_idx, num_categories in enumerate(item_categories):
-- 
2.43.0


From 1d6bda81ca734a5334612982f63dd911fad0727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 13/60] fix: undo the sign change before inverting the linking
 spline

---
 irtorch/rescale/link_common_items.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index 0649b8a..dc58b20 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -253,8 +253,8 @@ class LinkCommonItems(Scale):
             A 2D tensor containing theta scores on the the original scale.
         """
         if self._method == "spline":
-            theta, _ = self._transformation(transformed_theta, inverse=True)
-            return theta * self._transformation_multiplier
+            theta, _ = self._transformation(transformed_theta * self._transformation_multiplier, inverse=True)
+            return theta
         else:
             raise NotImplementedError("Inverse transformation is not yet implemented for monotonic neural networks.")
 
-- 
2.43.0


From 3dcfa4e2e78f5f174f17ff8ae9d9230d488c6649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 14/60] fix: differentiate the actual transformation in the
 neural network linking Jacobian

---
 irtorch/rescale/link_common_items.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index dc58b20..157cb29 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -277,11 +277,7 @@ class LinkCommonItems(Scale):
         """
         theta_scores = theta.clone()
         theta_scores.detach_().requires_grad_(True)
-        if self._method == "neuralnet":
-            transformed_thetas = self._transformation(theta_scores)
-        else:
-            transformed_thetas, _ = self._transformation(theta_scores, inverse=False)
-        transformed_thetas = transformed_thetas * self._transformation_multiplier
+        transformed_thetas = self.transform(theta_scores)
         transformed_thetas.sum().backward()
         jacobians = torch.diag_embed(theta_scores.grad) # Since each transformation is only dependent on one theta score
         return jacobians
-- 
2.43.0


From 3bb99c3e2832114c3e593cc49944c5386cb40e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 15/60] fix: use the selected items in the bit scale Jacobian

---
 irtorch/rescale/bit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/rescale/bit.py b/irtorch/rescale/bit.py
index 355c115..2f71c6b 100644
--- a/irtorch/rescale/bit.py
+++ b/irtorch/rescale/bit.py
@@ -246,7 +246,7 @@ class Bit(Scale):
             if theta.requires_grad:
                 theta.requires_grad_(False)
 
-            probs = self.model.item_probabilities(theta)
+            probs = self.model.item_probabilities(theta)[:, self.items]
             prob_grads = self.model.probability_gradients(theta, rescale=False)[:, self.items, :, 0]
             entropy_gradient_summands = probs.log2() * prob_grads
             item_bit_gradients = entropy_gradient_summands.nansum(dim=2).abs()
-- 
2.43.0


From 02568e4b078830bf7861dc61aa99a409502ccdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 16/60] fix: one set of category splines per latent variable in
 MonotoneBSpline

---
 irtorch/models/monotone_b_spline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/models/monotone_b_spline.py b/irtorch/models/monotone_b_spline.py
index a557f11..2b3a62a 100644
--- a/irtorch/models/monotone_b_spline.py
+++ b/irtorch/models/monotone_b_spline.py
@@ -93,7 +93,7 @@ class MonotoneBSpline(BaseIRTModel):
         else:
             # (lv, n_bases, items, max(item_categories))
             # with True where splines are supposed to be
-            spline_mask = torch.ones((1, self.n_bases, self.items, max(item_categories)), dtype=bool)
+            spline_mask = torch.ones((self.latent_variables, self.n_bases, self.items, max(item_categories)), dtype=bool)
             spline_mask[:, :, :, 0] = False
             # remove entries for items with fewer possible responses
             for item, item_cat in enumerate(item_categories):
-- 
2.43.0


From 01a85ffe43b538d10f1037b2b5652ddebe8fbf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 17/60] fix: group_fit_residuals falls back on the training
 data as documented

---
 irtorch/evaluator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 5960230..b2583bb 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -252,6 +252,8 @@ class Evaluator:
 
         raw_residuals = grouped_data_probabilties - grouped_model_probabilties
         if standardize:
+            if data is None:
+                data = self.model.algorithm.train_data
             # get number of people in each group
             data = torch.chunk(data, groups)
             group_n = torch.tensor([group.shape[0] for group in data])
-- 
2.43.0


From 76cb421ad3bed5f415f8cb8c781490f6fbfea76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:23 +0000
Subject: [PATCH 18/60] fix: pass the model when sampling latent variables from
 the encoder

---
 irtorch/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index b2583bb..00778c2 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -1101,7 +1101,7 @@ class Evaluator:
             )
             if latent_density_method == "encoder sampling":
                 theta_scores = self.model.algorithm.sample_latent_variables(
-                    sample_size=sample_size, input_data=population_data
+                    self.model, sample_size=sample_size, input_data=population_data
                 )
         else:
             (
-- 
2.43.0


From e38e5cfbed4e1c02573cc0d8097558daad6c55b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:37 +0000
Subject: [PATCH 19/60] fix: allow cross-validation on machines without a GPU

---
 irtorch/timer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/irtorch/timer.py b/irtorch/timer.py
index 6687f53..a1a2b12 100644
--- a/irtorch/timer.py
+++ b/irtorch/timer.py
@@ -11,9 +11,10 @@ def start_timer():
     """
     global START_TIME
     gc.collect()
-    torch.cuda.empty_cache()
-    torch.cuda.reset_peak_memory_stats()  # Updated from reset_max_memory_allocated()
-    torch.cuda.synchronize()
+    if torch.cuda.is_available():
+        torch.cuda.empty_cache()
+        torch.cuda.reset_peak_memory_stats()  # Updated from reset_max_memory_allocated()
+        torch.cuda.synchronize()
     START_TIME = time.time()
 
 def end_timer_and_print(local_msg):
@@ -21,7 +22,9 @@ def end_timer_and_print(local_msg):
     End the timer and print the execution time and memory usage.
     """
     end_time = time.time()
-    torch.cuda.synchronize()
+    if torch.cuda.is_available():
+        torch.cuda.synchronize()
     logger.info("\n%s", local_msg)
     logger.info("Total execution time = %s sec", end_time - START_TIME)
-    logger.info("Max memory used by tensors = %s bytes", torch.cuda.max_memory_allocated())
+    if torch.cuda.is_available():
+        logger.info("Max memory used by tensors = %s bytes", torch.cuda.max_memory_allocated())
-- 
2.43.0


From 78601e9ebaf052ae2845aa04de9c8d5b91ec36d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:37 +0000
Subject: [PATCH 20/60] fix: do not let models trained on earlier
 cross-validation folds leak into later ones

---
 irtorch/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index fbcfa09..8059b5f 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -180,7 +180,8 @@ def _cv_param_combination(model, data_folds, params, theta_estimation, device):
             if "algorithm" in fold_params:
                 algorithm = copy.deepcopy(fold_params.pop("algorithm"))
             
-            result = _cv_fold(model, train_data, validation_fold, fold_params, theta_estimation, device, algorithm)
+            # Every fold starts from the same untrained model
+            result = _cv_fold(copy.deepcopy(model), train_data, validation_fold, fold_params, theta_estimation, device, algorithm)
             
             # Add algorithm back to result if it was present
             if algorithm is not None:
-- 
2.43.0


From c4f2a048b20dcd83e88d92bcbf28b2504583cca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:37 +0000
Subject: [PATCH 21/60] fix: support non-numeric hyperparameters in
 cross-validation

---
 irtorch/utils.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 8059b5f..021ddca 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -189,14 +189,10 @@ def _cv_param_combination(model, data_folds, params, theta_estimation, device):
                 
             results.append(result)
         
-        # Average results across folds, excluding non-numeric values
-        avg_result = {}
-        for k in results[0].keys():
-            if k == "algorithm":
-                avg_result[k] = results[0][k]  # Just take the first one
-            else:
-                avg_result[k] = sum(d[k] for d in results) / len(results)
-        
+        # Average the log-likelihood across folds, everything else is the same for all folds
+        avg_result = results[0].copy()
+        avg_result["log_likelihood"] = sum(d["log_likelihood"] for d in results) / len(results)
+
         return avg_result
     except Exception as e:
         logger.error(f"Error in _cv_param_combination: {str(e)}")
-- 
2.43.0


From f5f4cc8d67d7ad2b90b49f9b45d02e95c6df52e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:37 +0000
Subject: [PATCH 22/60] fix: remember the imputation and batch normalization
 settings of a VAE fit

---
 irtorch/estimation_algorithms/vae.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irtorch/estimation_algorithms/vae.py b/irtorch/estimation_algorithms/vae.py
index 5f9be23..9aa1008 100644
--- a/irtorch/estimation_algorithms/vae.py
+++ b/irtorch/estimation_algorithms/vae.py
@@ -101,6 +101,10 @@ class VAE(AE):
         self.annealing_iterations = annealing_iterations
         self.anneal = anneal
         self.one_hot_encoded = one_hot_encoded
+        self.batch_normalization = batch_normalization_encoder
+        self.imputation_method = imputation_method
+        self.item_categories = model.item_categories
+        self.mc_correct = model.mc_correct
 
         if batch_size is None:
             batch_size = train_data.shape[0]
-- 
2.43.0


From 31b0c6a097411056f9fb4b635689797946a9b826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:37 +0000
Subject: [PATCH 23/60] fix: keep one batch normalization per hidden encoder
 layer

---
 irtorch/estimation_algorithms/encoders/bounded_encoder.py     | 2 +-
 irtorch/estimation_algorithms/encoders/variational_encoder.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/estimation_algorithms/encoders/bounded_encoder.py b/irtorch/estimation_algorithms/encoders/bounded_encoder.py
index d4dea5f..015e5fc 100644
--- a/irtorch/estimation_algorithms/encoders/bounded_encoder.py
+++ b/irtorch/estimation_algorithms/encoders/bounded_encoder.py
@@ -27,7 +27,7 @@ class BoundedEncoder(BaseEncoder):
                 f"linear{i}", nn.Linear(hidden_dim[i - 1], hidden_dim[i])
             )
             if batch_normalization:
-                self.layers.add_module("batchnorm0", nn.BatchNorm1d(hidden_dim[i]))
+                self.layers.add_module(f"batchnorm{i}", nn.BatchNorm1d(hidden_dim[i]))
             self.layers.add_module(f"nonlinear{i}", nonlinear)
 
         # output layer
diff --git a/irtorch/estimation_algorithms/encoders/variational_encoder.py b/irtorch/estimation_algorithms/encoders/variational_encoder.py
index 132690e..0a27c95 100644
--- a/irtorch/estimation_algorithms/encoders/variational_encoder.py
+++ b/irtorch/estimation_algorithms/encoders/variational_encoder.py
@@ -27,7 +27,7 @@ class VariationalEncoder(BaseEncoder):
                 f"linear{i}", nn.Linear(hidden_dim[i - 1], hidden_dim[i])
             )
             if batch_normalization:
-                self.layers.add_module("batchnorm0", nn.BatchNorm1d(hidden_dim[i]))
+                self.layers.add_module(f"batchnorm{i}", nn.BatchNorm1d(hidden_dim[i]))
             self.layers.add_module(f"nonlinear{i}", nonlinear)
 
         # variational layers
-- 
2.43.0


From 7584823d52ea9d36a0e32afa9a3cce79bc884eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:11 +0000
Subject: [PATCH 24/60] fix: let ModelMix combine models with any output layout

---
 irtorch/models/model_mix.py | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/irtorch/models/model_mix.py b/irtorch/models/model_mix.py
index ddd2915..4c510b6 100644
--- a/irtorch/models/model_mix.py
+++ b/irtorch/models/model_mix.py
@@ -43,6 +43,8 @@ class ModelMix(BaseIRTModel):
         )
         # register each model as a submodule
         self.models = nn.ModuleList(models)
+        # the output dimensions of each model (respondents excluded), known after a forward pass
+        self._output_shapes = None
 
     def reset_parameters(self) -> None:
         nn.init.normal_(self.weight_param, mean=1., std=0.01)
@@ -63,9 +65,30 @@ class ModelMix(BaseIRTModel):
             2D tensor. Rows are respondents and columns are item category logits.
         """
         outputs = [model(theta) for model in self.models]
-        concatenated_output = torch.cat(outputs, dim=1)
+        self._output_shapes = [output.shape[1:] for output in outputs]
+        concatenated_output = torch.cat([output.flatten(start_dim=1) for output in outputs], dim=1)
         return concatenated_output
 
+    def _split_output(self, output: torch.Tensor) -> list[torch.Tensor]:
+        """
+        Split the output from the forward method into the outputs of each model.
+
+        Parameters
+        ----------
+        output : torch.Tensor
+            Output tensor from the forward pass.
+
+        Returns
+        -------
+        list[torch.Tensor]
+            The output of each model.
+        """
+        shapes = self._output_shapes
+        if shapes is None:
+            shapes = [torch.Size([model.max_item_responses * model.items]) for model in self.models]
+        outputs = torch.split(output, [shape.numel() for shape in shapes], dim=1)
+        return [output_part.reshape(-1, *shape) for output_part, shape in zip(outputs, shapes)]
+
     def probabilities_from_output(self, output: torch.Tensor) -> torch.Tensor:
         """
         Compute probabilities from the output tensor from the forward method.
@@ -80,11 +103,7 @@ class ModelMix(BaseIRTModel):
         torch.Tensor
             3D tensor with dimensions (respondents, items, item categories)
         """
-        outputs = torch.split(
-            output,
-            [model.max_item_responses * model.items for model in self.models],
-            dim=1
-        )
+        outputs = self._split_output(output)
         probabilities = [model.probabilities_from_output(output_part) for model, output_part in zip(self.models, outputs)]
         return self._pad_and_concat(probabilities, dim=1, pad_dim=2)
 
@@ -151,11 +170,7 @@ class ModelMix(BaseIRTModel):
             The log likelihood.
         """
         # run model.log_likelihood for each model
-        outputs = torch.split(
-            output,
-            [model.max_item_responses * model.items for model in self.models],
-            dim=1
-        )
+        outputs = self._split_output(output)
         data_splits = torch.split(
             data,
             [model.items for model in self.models],
-- 
2.43.0


From 1b1b74c6f8a5bd850995d6e1fc1011e803be7f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:07 +0000
Subject: [PATCH 25/60] fix: form the requested number of latent groups of
 equal size

torch.chunk returns fewer groups than asked for (6 instead of 10 for 11
respondents) and makes the last one smaller by more than one.
---
 irtorch/evaluator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 00778c2..0075331 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -255,7 +255,7 @@ class Evaluator:
             if data is None:
                 data = self.model.algorithm.train_data
             # get number of people in each group
-            data = torch.chunk(data, groups)
+            data = torch.tensor_split(data, groups)
             group_n = torch.tensor([group.shape[0] for group in data])
 
             std_residuals = raw_residuals / (grouped_model_probabilties * (1 - grouped_model_probabilties) / group_n.reshape(-1, 1, 1)).sqrt()
@@ -649,8 +649,8 @@ class Evaluator:
             transformed_scores = transformed_scores[indices]
             theta = theta[indices]
 
-            grouped_transformed = torch.chunk(transformed_scores, groups)
-            grouped_theta = torch.chunk(theta, groups)
+            grouped_transformed = torch.tensor_split(transformed_scores, groups)
+            grouped_theta = torch.tensor_split(theta, groups)
 
             group_mid_points = torch.tensor(
                 [
@@ -661,13 +661,13 @@ class Evaluator:
         else:
             _, indices = torch.sort(theta[:, latent_variable - 1], dim=0)
             theta = theta[indices]
-            grouped_theta = torch.chunk(theta, groups)
+            grouped_theta = torch.tensor_split(theta, groups)
             group_mid_points = torch.tensor(
                 [group[:, latent_variable - 1].median() for group in grouped_theta]
             )
 
         data = data[indices]
-        grouped_data = torch.chunk(data, groups)
+        grouped_data = torch.tensor_split(data, groups)
         grouped_data_probabilties = self._grouped_data_probabilities(grouped_data)
         grouped_model_probabilties = self._grouped_theta_probabilities(grouped_theta)
         return grouped_data_probabilties, grouped_model_probabilties, group_mid_points
-- 
2.43.0


From f8cc7fd2b8ab60f67fef24528553b4ba7583c7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:32 +0000
Subject: [PATCH 26/60] fix: correlate over the respondents observed on both
 variables

With missing values the covariance used each variable's overall mean and the
standard deviations those of the common respondents, so correlations could
exceed one.
---
 irtorch/_internal_utils.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index ff1c409..2e3cbe4 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -50,30 +50,18 @@ def correlation_matrix(x):
         
         return corr_matrix
 
-    means = torch.nanmean(x, dim=0)
-    centered_tensor = x - means
-    # Set NaNs back where they originally were in the centered tensor
-    centered_tensor[~mask] = 0
-    # Calculate the dot product of the centered matrix to get the covariance
-    cov_matrix = torch.matmul(centered_tensor.T, centered_tensor)
-    
-    # Normalization factors: counts of non-NaN pairs
-    norm_factors = torch.matmul(mask.T.float(), mask.float())
-    # Adjust normalization by dividing by n-1
-    norm_factors = torch.where(norm_factors > 1, norm_factors - 1, torch.ones_like(norm_factors))
-    cov_matrix = cov_matrix / norm_factors
-    
-    corr_matrix = torch.ones_like(cov_matrix)
-    for i in range(cov_matrix.size(0)):
-        for j in range(cov_matrix.size(1)):
+    corr_matrix = torch.ones(x.size(1), x.size(1), dtype=x.dtype, device=x.device)
+    for i in range(x.size(1)):
+        for j in range(x.size(1)):
             if i == j or i > j:
                 continue
             else:
                 valid_mask = mask[:, i] & mask[:, j]
                 if torch.sum(valid_mask) > 1:
-                    std_i = torch.sqrt(torch.sum((x[valid_mask, i] - x[valid_mask, i].mean()) ** 2) / (torch.sum(valid_mask) - 1))
-                    std_j = torch.sqrt(torch.sum((x[valid_mask, j] - x[valid_mask, j].mean()) ** 2) / (torch.sum(valid_mask) - 1))
-                    corr_matrix[i, j] = cov_matrix[i, j] / (std_i * std_j)
+                    # means and standard deviations of the respondents with both values observed
+                    x_i = x[valid_mask, i] - x[valid_mask, i].mean()
+                    x_j = x[valid_mask, j] - x[valid_mask, j].mean()
+                    corr_matrix[i, j] = (x_i * x_j).sum() / torch.sqrt((x_i ** 2).sum() * (x_j ** 2).sum())
                     corr_matrix[j, i] = corr_matrix[i, j]
                 else:
                     corr_matrix[i, j] = 0.0 # Assign a default value if there aren't enough valid pairs
-- 
2.43.0


From 40633b9c90d391c66410ccbb41a5b8e798f2db4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:30 +0000
Subject: [PATCH 27/60] fix: standardize group residuals by the number of
 observed responses

The standard error used the group sizes including missing responses.
---
 irtorch/evaluator.py | 66 ++++++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 21 deletions(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 0075331..95ec3a9 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -239,26 +239,24 @@ class Evaluator:
         tuple[torch.Tensor, torch.Tensor]
             A tuple with torch tensors. The first one holds the residuals for each group and has dimensions (groups, items, item categories). The second one is a 1D tensor and holds the mid points of the groups.
         """
-        grouped_data_probabilties, grouped_model_probabilties, group_mid_points = \
-            self.latent_group_probabilities(
-                data=data,
-                theta=theta,
-                rescale=rescale,
-                latent_variable=latent_variable,
-                groups=groups,
-                theta_estimation=theta_estimation,
-                **kwargs
-            )
+        grouped_data, grouped_theta, group_mid_points = self._latent_groups(
+            data=data,
+            theta=theta,
+            rescale=rescale,
+            latent_variable=latent_variable,
+            groups=groups,
+            theta_estimation=theta_estimation,
+            **kwargs
+        )
+        grouped_data_probabilties = self._grouped_data_probabilities(grouped_data)
+        grouped_model_probabilties = self._grouped_theta_probabilities(grouped_theta)
 
         raw_residuals = grouped_data_probabilties - grouped_model_probabilties
         if standardize:
-            if data is None:
-                data = self.model.algorithm.train_data
-            # get number of people in each group
-            data = torch.tensor_split(data, groups)
-            group_n = torch.tensor([group.shape[0] for group in data])
+            # get number of observed responses on each item in each group
+            group_n = torch.stack([(~get_missing_mask(group)).sum(dim=0) for group in grouped_data])
 
-            std_residuals = raw_residuals / (grouped_model_probabilties * (1 - grouped_model_probabilties) / group_n.reshape(-1, 1, 1)).sqrt()
+            std_residuals = raw_residuals / (grouped_model_probabilties * (1 - grouped_model_probabilties) / group_n.unsqueeze(-1)).sqrt()
             return std_residuals, group_mid_points
         
         for item, categories in enumerate(self.model.item_categories):
@@ -637,6 +635,35 @@ class Evaluator:
 
             The third tensor contains the average latent variable values within each group along the specified latent_variable.
         """
+        grouped_data, grouped_theta, group_mid_points = self._latent_groups(
+            data=data,
+            theta=theta,
+            rescale=rescale,
+            latent_variable=latent_variable,
+            groups=groups,
+            theta_estimation=theta_estimation
+        )
+        grouped_data_probabilties = self._grouped_data_probabilities(grouped_data)
+        grouped_model_probabilties = self._grouped_theta_probabilities(grouped_theta)
+        return grouped_data_probabilties, grouped_model_probabilties, group_mid_points
+
+    def _latent_groups(
+        self,
+        data: torch.Tensor,
+        theta: torch.Tensor,
+        latent_variable: int,
+        groups: int,
+        theta_estimation: str,
+        rescale: bool,
+    ) -> tuple[tuple[torch.Tensor, ...], tuple[torch.Tensor, ...], torch.Tensor]:
+        """
+        Split the respondents into groups based on their ordered latent variable scores. See :meth:`latent_group_probabilities` for the parameters.
+
+        Returns
+        -------
+        tuple[tuple[torch.Tensor, ...], tuple[torch.Tensor, ...], torch.Tensor]
+            The data of each group, the theta scores of each group and the mid points of the groups.
+        """
         data, theta, _ = self._evaluate_data_theta_input(data=data, theta=theta, theta_estimation=theta_estimation)
 
         if rescale and self.model.scale:
@@ -666,11 +693,8 @@ class Evaluator:
                 [group[:, latent_variable - 1].median() for group in grouped_theta]
             )
 
-        data = data[indices]
-        grouped_data = torch.tensor_split(data, groups)
-        grouped_data_probabilties = self._grouped_data_probabilities(grouped_data)
-        grouped_model_probabilties = self._grouped_theta_probabilities(grouped_theta)
-        return grouped_data_probabilties, grouped_model_probabilties, group_mid_points
+        grouped_data = torch.tensor_split(data[indices], groups)
+        return grouped_data, grouped_theta, group_mid_points
 
 
     @torch.no_grad()
-- 
2.43.0


From 3deb86aa249455265d5bb457da6334b7e90fb1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:39 +0000
Subject: [PATCH 28/60] fix: extrapolate from distinct points in interp

With several data points sharing the smallest or largest value the edge slope
was infinite, which made quantile normal densities nan.
---
 irtorch/latent_variable_functions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/irtorch/latent_variable_functions.py b/irtorch/latent_variable_functions.py
index 89248f6..379c095 100644
--- a/irtorch/latent_variable_functions.py
+++ b/irtorch/latent_variable_functions.py
@@ -50,8 +50,11 @@ def interp(x_new, x, y):
     # Handle extrapolation for x_new outside the range of x
     if (~mask).any():
         # Compute the slopes at the edges for extrapolation
-        left_slope = (y[1] - y[0]) / (x[1] - x[0])
-        right_slope = (y[-1] - y[-2]) / (x[-1] - x[-2])
+        # (the closest distinct points, since several data points may share the smallest or largest value)
+        left = torch.searchsorted(x, x[0], right=True).clamp(max=x.shape[0] - 1)
+        right = (torch.searchsorted(x, x[-1]) - 1).clamp(min=0)
+        left_slope = (y[left] - y[0]) / (x[left] - x[0])
+        right_slope = (y[-1] - y[right]) / (x[-1] - x[right])
         y_new[~mask] = torch.where(
             x_new[~mask] < x[0],
             y[0] + left_slope * (x_new[~mask] - x[0]),
-- 
2.43.0


From 02265c33f54d13491290e67c5aca633e1eb89b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:39 +0000
Subject: [PATCH 29/60] fix: score the population data with the method the
 fitted model supports

sum_score_probabilities(population_data=...) always asked for encoder scores
and failed for models fitted with MML or JML.
---
 irtorch/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 95ec3a9..01c12ff 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -1116,7 +1116,8 @@ class Evaluator:
                 mvn = MultivariateNormal(torch.zeros(self.model.latent_variables), self.model.algorithm.covariance_matrix)
                 theta_scores = mvn.sample((4000,)).to(dtype=torch.float32)
         else:
-            theta_scores = self.model.latent_scores(population_data, theta_estimation="NN", device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
+            theta_estimation = "NN" if hasattr(self.model.algorithm, "encoder") else "ML"
+            theta_scores = self.model.latent_scores(population_data, theta_estimation=theta_estimation, device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
 
         if latent_density_method in ["data", "encoder sampling"]:
             weights = (
-- 
2.43.0


From 8aca4fa2f65a40b10a16db586c2d5128a308a595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:39 +0000
Subject: [PATCH 30/60] fix: weigh the sampled latent variables in
 sum_score_probabilities

Encoder sampling used one weight per training respondent for sample_size
sampled latent variables and failed unless the two numbers were equal.
---
 irtorch/evaluator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 01c12ff..98fb56e 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -1128,6 +1128,7 @@ class Evaluator:
                 theta_scores = self.model.algorithm.sample_latent_variables(
                     self.model, sample_size=sample_size, input_data=population_data
                 )
+                weights = torch.ones(theta_scores.shape[0]) / theta_scores.shape[0]
         else:
             (
                 theta_scores,
-- 
2.43.0


From b675be1e48fdd88aae265d0fded122dba11321f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:11 +0000
Subject: [PATCH 31/60] fix: ignore missing responses in the log-likelihood
 plot

---
 irtorch/plotter.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 66468d1..caefb50 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -8,7 +8,7 @@ import plotly.graph_objects as go
 import plotly.express as px
 import plotly.io as pio
 from irtorch.estimation_algorithms import AE, VAE
-from irtorch._internal_utils import entropy
+from irtorch._internal_utils import entropy, get_missing_mask, sum_score
 
 if TYPE_CHECKING:
     from irtorch.models.base_irt_model import BaseIRTModel
@@ -380,7 +380,7 @@ class Plotter:
             item_mask[[item - 1 for item in items]] = 1
             log_likelihood = log_likelihood[:, item_mask]
 
-        log_likelihood = log_likelihood.sum(dim=1)
+        log_likelihood = log_likelihood.nansum(dim=1) # missing responses do not contribute
 
         if len(latent_variables) == 1:
             scores_to_plot.squeeze_()
@@ -406,17 +406,19 @@ class Plotter:
                 color = color or None
             )
             if expected_sum_score:
+                observed_data = torch.where(get_missing_mask(data), 0, data) if self.model.mc_correct is None else data
+                observed_score = sum_score(observed_data, self.model.mc_correct).item()
                 fig.add_vline(
-                    x=data.sum().item(),
+                    x=observed_score,
                     line_dash="dash",
                     line_color="gray",
                     opacity=0.7
                 )
                 fig.add_annotation(
-                    x=data.sum().item(),
+                    x=observed_score,
                     y=1.0,
                     yref="paper",
-                    text=f"Observed sum score: {data.sum().item()}",
+                    text=f"Observed sum score: {observed_score}",
                     showarrow=True,
                     arrowhead=1,
                     ax=0,
-- 
2.43.0


From 3e5d5b0d00bec426dbe7baf96818cb6b0a849579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:04 +0000
Subject: [PATCH 32/60] fix: spline flow and linking Jacobians work where
 gradients are switched off

---
 irtorch/rescale/flow.py              | 1 +
 irtorch/rescale/link_common_items.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/irtorch/rescale/flow.py b/irtorch/rescale/flow.py
index 7e85ef2..3ab65df 100644
--- a/irtorch/rescale/flow.py
+++ b/irtorch/rescale/flow.py
@@ -210,6 +210,7 @@ class Flow(Scale):
         # destandardize
         return theta * self.theta_stds + self.theta_means
 
+    @torch.inference_mode(False)
     def jacobian(
         self,
         theta: torch.Tensor
diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index 157cb29..d062d30 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -258,6 +258,7 @@ class LinkCommonItems(Scale):
         else:
             raise NotImplementedError("Inverse transformation is not yet implemented for monotonic neural networks.")
 
+    @torch.inference_mode(False)
     def jacobian(
         self,
         theta: torch.Tensor
-- 
2.43.0


From 4a9260aa31a903e06b7abda92b7899fccbceb4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:04 +0000
Subject: [PATCH 33/60] fix: bit and expected score gradients leave the
 caller's latent scores as they were, and work after a scale with gradients

---
 irtorch/models/base_irt_model.py | 4 +---
 irtorch/rescale/bit.py           | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index daa3323..b5a65ab 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -334,9 +334,7 @@ class BaseIRTModel(ABC, nn.Module):
         The last line gives us a linear equation that is solved using `torch.linalg.solve` to get :math:`\nabla_{\boldsymbol{\theta}} \mathbb{E}(X_j|\boldsymbol{\theta})`.
         This is more efficient as computing :math:`\mathbf{J}^{-1}_f` is not needed.
         """
-        if theta.requires_grad:
-            theta.requires_grad_(False)
-
+        theta = theta.detach()
         gradients = torch.zeros(theta.shape[0], len(self.item_categories), theta.shape[1])
         theta_scores = theta.clone()
         theta_scores.requires_grad_(True)
diff --git a/irtorch/rescale/bit.py b/irtorch/rescale/bit.py
index 2f71c6b..e6cdf20 100644
--- a/irtorch/rescale/bit.py
+++ b/irtorch/rescale/bit.py
@@ -243,9 +243,7 @@ class Bit(Scale):
             A torch tensor with the gradients for each theta score. Dimensions are (theta rows, latent variables, latent variables) where the last two are the jacobians.
         """
         if self.model.latent_variables == 1:
-            if theta.requires_grad:
-                theta.requires_grad_(False)
-
+            theta = theta.detach()
             probs = self.model.item_probabilities(theta)[:, self.items]
             prob_grads = self.model.probability_gradients(theta, rescale=False)[:, self.items, :, 0]
             entropy_gradient_summands = probs.log2() * prob_grads
-- 
2.43.0


From 5420d5c6c6a3a8be9877eea4730fc0282393a2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:34 +0000
Subject: [PATCH 34/60] fix: link models whose other items have different
 numbers of categories

---
 irtorch/rescale/link_common_items.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index d062d30..dd0d7b5 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -307,8 +307,10 @@ class LinkCommonItems(Scale):
         kl_loss = nn.KLDivLoss(reduction="batchmean")
         target_probs = self._model_from.item_probabilities(latent_variables)[:, self._model_from_common_item_indices]
         linked_probs = self._model_to.item_probabilities(linked_latent_variables)[:, self._model_to_common_item_indices]
-        target_probs = target_probs.view(-1, target_probs.shape[2])
-        linked_probs = linked_probs.view(-1, linked_probs.shape[2])
+        # the models may have been padded to different numbers of categories by their other items
+        categories = max(self._common_item_categories)
+        target_probs = target_probs[..., :categories].reshape(-1, categories)
+        linked_probs = linked_probs[..., :categories].reshape(-1, categories)
         # linked_probs need log scale for KL div
         # Adding a tiny constant to avoid issues with log(0).
         loss = kl_loss(torch.log(linked_probs + 1e-10), target_probs)
-- 
2.43.0


From a37b61a0a2538192903788e0d136a33addcc001c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:51 +0000
Subject: [PATCH 35/60] fix: ML and MAP scoring leaves frozen parameters frozen

---
 irtorch/models/base_irt_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index b5a65ab..feefb8f 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -784,6 +784,7 @@ class BaseIRTModel(ABC, nn.Module):
         torch.Tensor
             A torch.Tensor with the theta scores. The columns are latent variables and rows are respondents.
         """
+        trainable = [parameter.requires_grad for parameter in self.parameters()]
         try:
             if theta_estimation == "MAP": # Approximate prior
                 if hasattr(self.algorithm, "training_theta_scores") and self.algorithm.training_theta_scores is not None:
@@ -853,7 +854,8 @@ class BaseIRTModel(ABC, nn.Module):
             # Reset requires_grad train model later
             self.to("cpu")
             optimized_theta_scores = optimized_theta_scores.detach().to("cpu")
-            self.requires_grad_(True)
+            for parameter, requires_grad in zip(self.parameters(), trainable):
+                parameter.requires_grad_(requires_grad)
         return optimized_theta_scores
 
     @torch.no_grad()
-- 
2.43.0


From 8519cf61fb8848a5e481e08c61a629dc1a5d5778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 36/60] fix: sum score probabilities for another population
 leave the model's own latent density in place

---
 irtorch/evaluator.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 98fb56e..1df4309 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -1146,19 +1146,15 @@ class Evaluator:
         population_data: torch.Tensor,
         trapezoidal_segments: int,
     ):
-        if population_data is not None or (
-            (
-                latent_density_method != "qmvn"
-                or not isinstance(self.latent_density, QuantileMVNormal)
-            )
-            and (
-                latent_density_method != "gmm"
-                or not isinstance(self.latent_density, GaussianMixtureModel)
-            )
-        ):
+        density_class = QuantileMVNormal if latent_density_method == "qmvn" else GaussianMixtureModel
+        approximated_density = self.latent_density
+        if population_data is not None or not isinstance(approximated_density, density_class):
             self.approximate_latent_density(
                 theta_scores=theta_scores, approximation=latent_density_method
             )
+        latent_density = self.latent_density
+        # only densities requested by the user through approximate_latent_density are kept for later use
+        self.latent_density = approximated_density
 
         # get the min/max points for integration
         min_theta, max_theta = self._min_max_theta_for_integration(theta_scores)
@@ -1176,7 +1172,7 @@ class Evaluator:
             # Add an extra dimension for 1D models to make it a 2D tensor with 1 column
             theta_scores = theta_scores.unsqueeze(1)
 
-        weights = self.latent_density.pdf(theta_scores)
+        weights = latent_density.pdf(theta_scores)
         weights = weights / weights.sum()
 
         return theta_scores, weights
\ No newline at end of file
-- 
2.43.0


From 59bc75a29f7cf3d99aeeb03404859971d3ce6b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 37/60] fix: a latent density that could not be fitted is not
 used by later calls

---
 irtorch/evaluator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 1df4309..3d4f1fb 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -101,8 +101,9 @@ class Evaluator:
             cv_n_components = [2, 3, 4, 5, 10] if cv_n_components is None else cv_n_components
             self.latent_density = self._cv_gaussian_mixture_model(theta_scores, cv_n_components)
         elif approximation == "qmvn":
-            self.latent_density = QuantileMVNormal()
-            self.latent_density.fit(theta_scores)
+            latent_density = QuantileMVNormal()
+            latent_density.fit(theta_scores)
+            self.latent_density = latent_density
         else:
             raise ValueError("Invalid approximation method. Choose either 'qmvn' or 'gmm'.")
 
-- 
2.43.0


From b21a67761607b4434f03d33e58a68e48cba16198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:59 +0000
Subject: [PATCH 38/60] fix: loading a model discards the latent density of the
 model it replaces

---
 irtorch/models/base_irt_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index feefb8f..dc5415f 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -1000,3 +1000,6 @@ class BaseIRTModel(ABC, nn.Module):
             self.algorithm = checkpoint["algorithm"]
         if "scales" in checkpoint:
             self.scale = checkpoint["scales"]
+        # a latent density approximated before loading belongs to the replaced model
+        if self._evaluate is not None:
+            self._evaluate.latent_density = None
-- 
2.43.0


From 30b3766a088125fa80235bd79ffc46fd0ff6cc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 39/60] fix: fitting a linking transformation leaves the
 caller's latent scores without gradients

---
 irtorch/rescale/link_common_items.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index dd0d7b5..7f2480e 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -169,7 +169,7 @@ class LinkCommonItems(Scale):
         self._model_from.to(device)
         self._model_to.to(device)
         self._transformation_multiplier = self._transformation_multiplier.to(device)
-        loader = DataLoader(TensorDataset(theta_from.to(device)), batch_size=batch_size, shuffle=True)
+        loader = DataLoader(TensorDataset(theta_from.detach().to(device)), batch_size=batch_size, shuffle=True)
 
         lr_update_count = 0
         total_iterations = 0
-- 
2.43.0


From df862ee963e9846a63e796ddf4a32526731ccce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 40/60] fix: fitting a flow leaves the caller's latent scores
 without gradients

---
 irtorch/rescale/flow.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/irtorch/rescale/flow.py b/irtorch/rescale/flow.py
index 3ab65df..0eb81a5 100644
--- a/irtorch/rescale/flow.py
+++ b/irtorch/rescale/flow.py
@@ -118,6 +118,7 @@ class Flow(Scale):
             batch_size = theta.shape[0]
 
         # standardize the data and store the mean and std for later use
+        theta = theta.detach()
         self.theta_means = theta.mean(dim=0)
         self.theta_stds = theta.std(dim=0)
         theta = (theta - self.theta_means) / self.theta_stds
-- 
2.43.0


From 038e8ebf65cf91d56b7d9089ae2d2371bd3bde8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 41/60] fix: random incorrect imputation handles a single
 respondent

---
 irtorch/_internal_utils.py | 2 +-
 irtorch/utils.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 2e3cbe4..4a1b59f 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -426,7 +426,7 @@ def impute_missing_internal(
             incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).float()
             incorrect_responses = incorrect_responses[incorrect_responses != mc_correct[col]]
             # Find the indices of missing values in the column
-            missing_indices = (imputed_data[:, col].isnan()).squeeze()
+            missing_indices = imputed_data[:, col].isnan()
             # randomly sample from the incorrect responses and replace missing
             imputed_data[missing_indices, col] = incorrect_responses[torch.randint(0, incorrect_responses.size(0), (missing_indices.sum(),))]
         return imputed_data
diff --git a/irtorch/utils.py b/irtorch/utils.py
index 021ddca..1c10c64 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -347,7 +347,7 @@ def impute_missing(
             incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).float()
             incorrect_responses = incorrect_responses[incorrect_responses != mc_correct[col]]
             # Find the indices of missing values in the column
-            missing_indices = (imputed_data[:, col].isnan()).squeeze()
+            missing_indices = imputed_data[:, col].isnan()
             # randomly sample from the incorrect responses and replace missing
             imputed_data[missing_indices, col] = incorrect_responses[torch.randint(0, incorrect_responses.size(0), (missing_indices.sum(),))]
     elif method == "prior expected":
-- 
2.43.0


From f955acf79209c815d5fb544dd56bbb83a6e08a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 42/60] fix: random incorrect imputation handles double
 precision data

---
 irtorch/_internal_utils.py | 2 +-
 irtorch/utils.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 4a1b59f..dbca66e 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -423,7 +423,7 @@ def impute_missing_internal(
 
         for col in range(imputed_data.shape[1]):
             # Get the incorrect non-missing responses from the column
-            incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).float()
+            incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).to(imputed_data.dtype)
             incorrect_responses = incorrect_responses[incorrect_responses != mc_correct[col]]
             # Find the indices of missing values in the column
             missing_indices = imputed_data[:, col].isnan()
diff --git a/irtorch/utils.py b/irtorch/utils.py
index 1c10c64..c27ab11 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -344,7 +344,7 @@ def impute_missing(
 
         for col in range(imputed_data.shape[1]):
             # Get the incorrect non-missing responses from the column
-            incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).float()
+            incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).to(imputed_data.dtype)
             incorrect_responses = incorrect_responses[incorrect_responses != mc_correct[col]]
             # Find the indices of missing values in the column
             missing_indices = imputed_data[:, col].isnan()
-- 
2.43.0


From c6c26149db4c1911d5b70716e7caa33f51f5feaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 43/60] fix: guessed responses to two-option multiple choice
 items follow the correct option

---
 irtorch/_internal_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index dbca66e..dd550c4 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -113,7 +113,7 @@ def random_guessing_data(
     for item_idx, num_categories in enumerate(item_categories):
         guessing_prob = guessing_probabilities[item_idx]
 
-        if num_categories == 2:
+        if num_categories == 2 and mc_correct is None:
             responses = torch.bernoulli(torch.full((size,), guessing_prob))
         else:
             if mc_correct is not None:
-- 
2.43.0


From d94beadf861f3dfa7f056d796ecbbb22031c3b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:03 +0000
Subject: [PATCH 44/60] fix: MAP scores of a model without a latent covariance
 use a standard normal prior

---
 irtorch/models/base_irt_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index dc5415f..61506ed 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -794,8 +794,11 @@ class BaseIRTModel(ABC, nn.Module):
                     cov_matrix = mean_centered_theta_scores.T @ mean_centered_theta_scores / (train_theta_scores.shape[0] - 1)
                     # Create prior (multivariate normal distribution).
                     prior_density = MultivariateNormal(torch.zeros(train_theta_scores.shape[1]).to(device), cov_matrix.to(device))
-                elif hasattr(self.algorithm, "covariance_matrix"):
-                    prior_density = MultivariateNormal(torch.zeros(self.latent_variables).to(device), self.algorithm.covariance_matrix.to(device))
+                else:
+                    cov_matrix = getattr(self.algorithm, "covariance_matrix", None)
+                    if cov_matrix is None:
+                        cov_matrix = torch.eye(self.latent_variables)
+                    prior_density = MultivariateNormal(torch.zeros(self.latent_variables).to(device), cov_matrix.to(device))
 
             # Ensure model parameters gradients are not updated
             self.requires_grad_(False)
-- 
2.43.0


From 7d4b7848c5eb3d7808e210eda6ea8b54442549f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 45/60] fix: ML and MAP scores are never less likely than their
 starting values

---
 irtorch/models/base_irt_model.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 61506ed..1a94729 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -833,8 +833,13 @@ class BaseIRTModel(ABC, nn.Module):
                 loss.backward()
                 return loss
 
+            # LBFGS without line search may overshoot: keep the best scores seen
+            best_theta_scores = optimized_theta_scores.detach().clone()
+
             for i in range(max_iter):
-                optimizer.step(closure)
+                loss_before_step = optimizer.step(closure).item()
+                if i == 0:
+                    best_loss = loss_before_step
                 with torch.no_grad():
                     forward_output = self(optimized_theta_scores)
                     if theta_estimation == "MAP": # maximize -log likelihood - log prior
@@ -843,6 +848,10 @@ class BaseIRTModel(ABC, nn.Module):
                         loss = -self.log_likelihood(data, forward_output, missing_mask, loss_reduction = "sum")
                     loss = loss.item()
 
+                if loss < best_loss:
+                    best_loss = loss
+                    best_theta_scores = optimized_theta_scores.detach().clone()
+
                 denominator = data.numel()
                 dynamic_print(f"Iteration {i+1}: Current Loss = {loss}")
                 if len(loss_history) > 0 and abs(loss - loss_history[-1]) / denominator < tolerance:
@@ -856,10 +865,9 @@ class BaseIRTModel(ABC, nn.Module):
         finally:
             # Reset requires_grad train model later
             self.to("cpu")
-            optimized_theta_scores = optimized_theta_scores.detach().to("cpu")
             for parameter, requires_grad in zip(self.parameters(), trainable):
                 parameter.requires_grad_(requires_grad)
-        return optimized_theta_scores
+        return best_theta_scores.to("cpu")
 
     @torch.no_grad()
     def _eap_theta_scores(self, data: torch.Tensor, grid_points: int = None) -> torch.Tensor:
-- 
2.43.0


From 79435b0af26c297b1b97a10b710c1ebe505b766a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:22 +0000
Subject: [PATCH 46/60] fix: initial ML and MAP scores are found among the
 training scores

---
 irtorch/models/base_irt_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 1a94729..43c4382 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -667,7 +667,7 @@ class BaseIRTModel(ABC, nn.Module):
             init_data = data.repeat_interleave(training_thetas.shape[0], dim=0)
             missing_mask = missing_mask.repeat_interleave(training_thetas.shape[0], dim=0)
 
-            logits = logits.repeat(data.shape[0], 1)
+            logits = torch.cat([logits] * data.shape[0], dim=0)
             lls = self.log_likelihood(init_data, logits, missing_mask, loss_reduction="none")
             lls = lls.view(logits.shape[0], -1).nansum(dim=1)
             lls = lls.view(data.shape[0], -1)
-- 
2.43.0


From e5a8e550b7f3378915a46ba5fa44a644cc7041bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:53 +0000
Subject: [PATCH 47/60] fix: cross-validation uses the requested number of
 folds

---
 irtorch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index c27ab11..b4ac98d 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -16,7 +16,7 @@ logger = logging.getLogger("irtorch")
 def _prepare_cross_validation_data(data: torch.Tensor, folds: int) -> list[torch.Tensor]:
     """Prepare data for cross-validation by shuffling and splitting into folds."""
     shuffled_data = data[torch.randperm(data.shape[0])]
-    return torch.chunk(shuffled_data, folds, dim=0)
+    return torch.tensor_split(shuffled_data, folds, dim=0)
 
 def _create_param_grid(params_grid: dict, kwargs: dict) -> list[dict]:
     """Create list of parameter combinations from grid."""
-- 
2.43.0


From ae85c0ece482d08135b0593c2b889d5387c017be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 48/60] fix: outlier detection handles double precision data

---
 irtorch/outlier_detector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/irtorch/outlier_detector.py b/irtorch/outlier_detector.py
index ef7357f..895a010 100644
--- a/irtorch/outlier_detector.py
+++ b/irtorch/outlier_detector.py
@@ -59,7 +59,7 @@ class OutlierDetector:
             raise ValueError("At least one of upper and lower must be True")
 
         # Calculate quartiles and IQR for all columns
-        q1, q3 = torch.quantile(data, torch.tensor([0.25, 0.75]), dim=0, keepdim=True)
+        q1, q3 = torch.quantile(data, torch.tensor([0.25, 0.75], dtype=data.dtype, device=data.device), dim=0, keepdim=True)
         iqr = q3 - q1
 
         # Calculate lower and upper bounds
@@ -105,7 +105,7 @@ class OutlierDetector:
             raise ValueError("At least one of upper and lower must be True")
 
         # Calculate quartiles and IQR for all columns
-        q1, q3 = torch.quantile(data, torch.tensor([0.25, 0.75]), dim=0, keepdim=True)
+        q1, q3 = torch.quantile(data, torch.tensor([0.25, 0.75], dtype=data.dtype, device=data.device), dim=0, keepdim=True)
         iqr = q3 - q1
 
         # Calculate lower and upper bounds
@@ -145,7 +145,7 @@ class OutlierDetector:
             raise ValueError("Input data must be a 2D tensor")
 
         # Calculate quartiles and IQR for all columns, resulting in 1D tensors for q1, q3, and iqr
-        q1, q3 = torch.quantile(data, torch.tensor([0.25, 0.75]), dim=0, keepdim=True)
+        q1, q3 = torch.quantile(data, torch.tensor([0.25, 0.75], dtype=data.dtype, device=data.device), dim=0, keepdim=True)
         iqr = q3 - q1
 
         # Calculate lower and upper bounds
-- 
2.43.0


From 344729e978edba8d24d1d317ee993ea703fd8ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:13 +0000
Subject: [PATCH 49/60] fix: rank scales handle double precision reference
 scores

---
 irtorch/rescale/rank_cdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/rescale/rank_cdf.py b/irtorch/rescale/rank_cdf.py
index e2974d8..cce39a4 100644
--- a/irtorch/rescale/rank_cdf.py
+++ b/irtorch/rescale/rank_cdf.py
@@ -64,7 +64,7 @@ class RankCDF(Scale):
         for feature in range(latent_variables):
             sorted_data = torch.sort(theta[:, feature]).values
             # Generate rank indices for the sorted data
-            rank = torch.arange(1, self.n_samples + 1, dtype=torch.float32)
+            rank = torch.arange(1, self.n_samples + 1, dtype=theta.dtype)
             # Handle ties: Compute unique values and assign average rank for ties
             unique_vals, inverse_indices = torch.unique(sorted_data, return_inverse=True, sorted=True)
             # Sum ranks for the same unique values (i.e., tie groups) and count the number of occurrences per group
-- 
2.43.0


From d00f9f7d2d872a9a756c5269da44cf3bbae591ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:41 +0000
Subject: [PATCH 50/60] fix: bit scale finds its start when only some items are
 guessed

---
 irtorch/rescale/bit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irtorch/rescale/bit.py b/irtorch/rescale/bit.py
index e6cdf20..9cd9db8 100644
--- a/irtorch/rescale/bit.py
+++ b/irtorch/rescale/bit.py
@@ -339,7 +339,9 @@ class Bit(Scale):
             guessing_probabilities = [1 / categories for categories in selected_item_categories]
 
         selected_correct = mc_correct.index_select(0, torch.tensor(items))
-        random_data = random_guessing_data(
+        # items which are not guessed are missing
+        random_data = torch.full((guessing_iterations, len(self.model.item_categories)), torch.nan)
+        random_data[:, items] = random_guessing_data(
             selected_item_categories,
             guessing_iterations,
             guessing_probabilities,
-- 
2.43.0


From 0de094578c3334291f7bb3fd90090199aa868b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:05 +0000
Subject: [PATCH 51/60] fix: spline flows report the log derivative of their
 linear tails

---
 irtorch/torch_modules/rational_quadratic_spline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/irtorch/torch_modules/rational_quadratic_spline.py b/irtorch/torch_modules/rational_quadratic_spline.py
index 3c103fa..f8ca206 100644
--- a/irtorch/torch_modules/rational_quadratic_spline.py
+++ b/irtorch/torch_modules/rational_quadratic_spline.py
@@ -123,7 +123,10 @@ class RationalQuadraticSpline(nn.Module):
         
         outputs = torch.where(below, lower_trans(inputs), outputs)
         outputs = torch.where(above, upper_trans(inputs), outputs)
-        logabsdet = torch.where(~inside, torch.zeros_like(logabsdet), logabsdet)
+        log_deriv_lower = np.log(self.deriv_outside_lower)
+        log_deriv_upper = np.log(self.deriv_outside_upper)
+        logabsdet = torch.where(below, -log_deriv_lower if inverse else log_deriv_lower, logabsdet)
+        logabsdet = torch.where(above, -log_deriv_upper if inverse else log_deriv_upper, logabsdet)
         
         if inside.any():
             out_inside, logdet_inside = self._rational_quadratic_spline(
-- 
2.43.0


From dea575c8539bae1175e51d27eedacf13ab275304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 52/60] fix: curves on reversed scales keep their last point

---
 irtorch/plotter.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index caefb50..73c9863 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -258,8 +258,8 @@ class Plotter:
             min_indices = (scores_to_plot == scores_to_plot.min()).nonzero().flatten()
             if min_indices[-1] == len(scores_to_plot) - 1:  # if we have reversed theta scale
                 start_idx = min_indices[0].item()  # get the first index
-                scores_to_plot = scores_to_plot[:start_idx]
-                item_entropies = item_entropies[:start_idx]
+                scores_to_plot = scores_to_plot[:start_idx + 1]
+                item_entropies = item_entropies[:start_idx + 1]
             else:
                 start_idx = min_indices[-1].item()  # get the last index
                 scores_to_plot = scores_to_plot[start_idx:]
@@ -387,8 +387,8 @@ class Plotter:
             min_indices = (scores_to_plot == scores_to_plot.min()).nonzero().flatten()
             if min_indices[-1] == len(scores_to_plot) - 1:  # if we have reversed theta scale
                 start_idx = min_indices[0].item()  # get the first index
-                scores_to_plot = scores_to_plot[:start_idx]
-                log_likelihood = log_likelihood.detach_().squeeze_()[:start_idx]
+                scores_to_plot = scores_to_plot[:start_idx + 1]
+                log_likelihood = log_likelihood.detach_().squeeze_()[:start_idx + 1]
             else:
                 start_idx = min_indices[-1].item()  # get the last index
                 scores_to_plot = scores_to_plot[start_idx:]
@@ -750,8 +750,8 @@ class Plotter:
             min_indices = (scores_to_plot == scores_to_plot.min()).nonzero().flatten()
             if min_indices[-1] == len(scores_to_plot) - 1:  # if we have reversed theta scale
                 start_idx = min_indices[0].item()  # get the first index
-                scores_to_plot = scores_to_plot[:start_idx]
-                information = information.detach_().squeeze_()[:start_idx]
+                scores_to_plot = scores_to_plot[:start_idx + 1]
+                information = information.detach_().squeeze_()[:start_idx + 1]
             else:
                 start_idx = min_indices[-1].item()  # get the last index
                 scores_to_plot = scores_to_plot[start_idx:]
@@ -872,8 +872,8 @@ class Plotter:
             min_indices = (scores_to_plot == scores_to_plot.min()).nonzero().flatten()
             if min_indices[-1] == len(scores_to_plot) - 1:  # if we have reversed theta scale
                 start_idx = min_indices[0].item()  # get the first index
-                scores_to_plot = scores_to_plot[:start_idx]
-                sum_scores = sum_scores[:start_idx]
+                scores_to_plot = scores_to_plot[:start_idx + 1]
+                sum_scores = sum_scores[:start_idx + 1]
             else:
                 start_idx = min_indices[-1].item()  # get the last index
                 scores_to_plot = scores_to_plot[start_idx:]
@@ -1060,8 +1060,8 @@ class Plotter:
         min_indices = (latent_scores == latent_scores.min()).nonzero().flatten()
         if min_indices[-1] == len(latent_scores) - 1:  # if we have reversed theta scale
             start_idx = min_indices[0].item()  # get the first index
-            latent_scores = latent_scores[:start_idx]
-            prob_matrix = prob_matrix[:start_idx, :]
+            latent_scores = latent_scores[:start_idx + 1]
+            prob_matrix = prob_matrix[:start_idx + 1, :]
         else:
             start_idx = min_indices[-1].item()  # get the last index
             latent_scores = latent_scores[start_idx:]
-- 
2.43.0


From 0dfaf0064d8b2ca02780fc44f1960178c2917bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 53/60] fix: log-likelihood surfaces can be drawn

---
 irtorch/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 73c9863..3d10df8 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -426,7 +426,7 @@ class Plotter:
                 )
             return fig
         if len(latent_variables) == 2:
-            grid_size = int(np.sqrt(log_likelihood.size()))
+            grid_size = int(np.sqrt(log_likelihood.numel()))
             return self._3d_surface_plot(
                 x = scores_to_plot[:, 0].reshape((grid_size, grid_size)),
                 y = scores_to_plot[:, 1].reshape((grid_size, grid_size)),
-- 
2.43.0


From 889aa9d0a4395bc229af005e7b59f6de4849a615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 54/60] fix: information plots use the plotted latent variables
 on transformed scales

---
 irtorch/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 3d10df8..0d0c02d 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -732,7 +732,7 @@ class Plotter:
             logger.warning("A large grid of latent variable values is used for plotting. This may take a while. Consider lowering the steps argument.")
 
         if rescale and self.model.scale:
-            scores_to_plot = self.model.transform_theta(theta_grid)
+            scores_to_plot = self.model.transform_theta(theta_grid)[:, latent_indices]
         else:
             scores_to_plot = theta_grid[:, [var - 1 for var in latent_variables]]
             if scores_to_plot.dim() == 1:
-- 
2.43.0


From 5262ed24b7acba5d780040f912ba7f0ca7c2ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:53 +0000
Subject: [PATCH 55/60] fix: item probability plots take fixed medians from the
 scale of the grid

---
 irtorch/plotter.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 0d0c02d..aef69ff 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -588,15 +588,7 @@ class Plotter:
 
         latent_indices = [theta - 1 for theta in latent_variables]
 
-        mask = torch.ones(model_dim, dtype=bool)
-        mask[latent_indices] = 0
-        if fixed_thetas is None:
-            if hasattr(self.model.algorithm, "training_theta_scores") and self.model.algorithm.training_theta_scores is not None:
-                fixed_thetas = self.model.algorithm.training_theta_scores[:, mask].median(dim=0).values
-            else:
-                fixed_thetas = torch.zeros(model_dim)[mask]
-
-        elif len(fixed_thetas) is not model_dim - len(latent_variables):
+        if fixed_thetas is not None and len(fixed_thetas) != model_dim - len(latent_variables):
             raise TypeError("If specified, the number of fixed latent variables needs to be the same as the number of variables in the model not used for plotting.")
 
         theta_grid = self._get_theta_grid_for_plotting(latent_variables, theta_range, second_theta_range, steps, fixed_thetas, latent_indices, rescale)
-- 
2.43.0


From e924a5cc956b394f0b88806300a9c02d99724129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:40 +0000
Subject: [PATCH 56/60] fix: an interrupted save does not leave a broken Big
 Five cache

---
 irtorch/load_dataset.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/irtorch/load_dataset.py b/irtorch/load_dataset.py
index b8a45f5..ca8074b 100644
--- a/irtorch/load_dataset.py
+++ b/irtorch/load_dataset.py
@@ -268,9 +268,15 @@ def big_five() -> torch.Tensor:
         data[reverse_items] = ((1 - data[reverse_items] / 5) * 5 + 1).mask(lambda col: col == 6, 0)
         data = data - 1 # code first option as 0, second as 1, etc.
         torch_data = torch.tensor(data.to_numpy(), dtype=torch.float32)
-        # Save preprocessed data to cache
-        with open(processed_data_path, "wb") as f:
-            pickle.dump((torch_data, original_data), f)
+        # Save preprocessed data to cache in one step, so that an interrupted save does not leave a broken cache behind
+        file_descriptor, temporary_path = tempfile.mkstemp(dir=cache_dir)
+        try:
+            with os.fdopen(file_descriptor, "wb") as f:
+                pickle.dump((torch_data, original_data), f)
+            os.replace(temporary_path, processed_data_path)
+        except BaseException:
+            os.remove(temporary_path)
+            raise
 
     try:
         with resources.files("irtorch").joinpath("datasets/big_five/items.txt").open("r", encoding="utf-8") as file:
-- 
2.43.0


From 03198f161071ad041c65c89836b769700cfc9172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 57/60] fix: ML and MAP scores use a line search, far starting
 values no longer end as the scores

---
 irtorch/models/base_irt_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 43c4382..9792a44 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -817,7 +817,8 @@ class BaseIRTModel(ABC, nn.Module):
             # Initial guess for the theta_scores are the outputs from the encoder
             optimized_theta_scores = initial_theta_scores.clone().detach().requires_grad_(True)
 
-            optimizer = torch.optim.LBFGS([optimized_theta_scores], lr = learning_rate)
+            # Without a line search, the steps may overshoot and never return
+            optimizer = torch.optim.LBFGS([optimized_theta_scores], lr = learning_rate, line_search_fn="strong_wolfe")
             loss_history = []
             tolerance = 1e-8
 
@@ -833,7 +834,7 @@ class BaseIRTModel(ABC, nn.Module):
                 loss.backward()
                 return loss
 
-            # LBFGS without line search may overshoot: keep the best scores seen
+            # Keep the best scores seen
             best_theta_scores = optimized_theta_scores.detach().clone()
 
             for i in range(max_iter):
-- 
2.43.0


From c86d76f92f026aa33953a43ef34770691bbe8195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:46 +0000
Subject: [PATCH 58/60] fix: promax rotates the scores so that the rotated
 loadings are the loadings on the rotated scale

---
 irtorch/rescale/rotate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/irtorch/rescale/rotate.py b/irtorch/rescale/rotate.py
index f5c2f92..8e85376 100644
--- a/irtorch/rescale/rotate.py
+++ b/irtorch/rescale/rotate.py
@@ -56,6 +56,9 @@ class Rotate(Scale):
             rotator = Rotator(method = rotation_method)
             self.rot_loadings = torch.from_numpy(rotator.fit_transform(loadings.numpy())).float()
             self.rotation_matrix = torch.tensor(rotator.rotation_, dtype=torch.float)
+            if rotation_method.lower() == "promax":
+                # promax gives the matrix which multiplies the loadings, the scores rotate with its inverse transposed
+                self.rotation_matrix = torch.inverse(self.rotation_matrix).T
         else:
             if rotation_matrix.shape[0] != model.latent_variables or rotation_matrix.shape[1] != model.latent_variables:
                 raise ValueError("The rotation matrix must have the same dimensions as the number of latent variables.")
-- 
2.43.0


From 872c436a649d077dc037c7ce279e4442e34e25e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:28 +0000
Subject: [PATCH 59/60] fix: correct responses of keyed items ignore categories
 the item does not have

---
 irtorch/models/monotone_nn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irtorch/models/monotone_nn.py b/irtorch/models/monotone_nn.py
index 5a8499c..24c36c2 100644
--- a/irtorch/models/monotone_nn.py
+++ b/irtorch/models/monotone_nn.py
@@ -213,6 +213,8 @@ class MonotoneNN(BaseIRTModel):
 
         if self.separate == "items":
             out = out.repeat_interleave(self.max_item_responses, dim=1)
+            # categories an item does not have must not add to its correct response
+            out = out.masked_fill(self.missing_categories, 0.0)
 
         if self.mc_correct_output_idx is None:
             out = out.view(out.shape[0], -1, self.max_item_responses).cumsum(dim=2).reshape(out.shape[0], -1)
-- 
2.43.0


From 64fa8262aa194f30521f28bca067d7b440c727b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:28 +0000
Subject: [PATCH 60/60] fix: relationship directions are zero for undeclared
 pairs without negative relationships too

---
 irtorch/models/monotone_nn.py         | 2 +-
 irtorch/models/monotone_polynomial.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/irtorch/models/monotone_nn.py b/irtorch/models/monotone_nn.py
index 24c36c2..532fafc 100644
--- a/irtorch/models/monotone_nn.py
+++ b/irtorch/models/monotone_nn.py
@@ -281,4 +281,4 @@ class MonotoneNN(BaseIRTModel):
         if hasattr(self, "negation_dim0"):
             return torch.stack([getattr(self, f"negation_dim{i}").all_item_weights().sign() for i in range(self.latent_variables)], dim=1).int()
         else:
-            return torch.ones(self.items, self.latent_variables, dtype=torch.int)
+            return self.item_theta_relationships.int()
diff --git a/irtorch/models/monotone_polynomial.py b/irtorch/models/monotone_polynomial.py
index bf7949b..1b50882 100644
--- a/irtorch/models/monotone_polynomial.py
+++ b/irtorch/models/monotone_polynomial.py
@@ -67,6 +67,7 @@ class MonotonePolynomial(BaseIRTModel):
         else:
             item_theta_relationships = torch.tensor([[True] * latent_variables] * self.items, dtype=torch.bool)
 
+        self.item_theta_relationships = item_theta_relationships
         self.separate = separate
         self.output_length = self.items * self.max_item_responses
         self.negative_latent_variable_item_relationships = negative_latent_variable_item_relationships
@@ -135,4 +136,4 @@ class MonotonePolynomial(BaseIRTModel):
         """
         if self.negative_latent_variable_item_relationships:
             return (self._modules["mono_poly"].directions * self._modules["mono_poly"].directions_mask).transpose(0, 1).sign().int()
-        return torch.ones(self.items, self.latent_variables).int()
+        return self.item_theta_relationships.int()
-- 
2.43.0

