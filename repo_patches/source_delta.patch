From 2c77707e420c76abb4b637cf3ae4dd7a0924fcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:12 +0000
Subject: [PATCH 01/61] fix: let ModelMix combine models whose output is not a
 flat logit vector

---
 irtorch/models/base_irt_model.py           |  7 ++++
 irtorch/models/model_mix.py                | 39 +++++++++++++++-------
 irtorch/models/monotone_b_spline.py        |  4 +++
 irtorch/models/nested_logit.py             |  4 +++
 irtorch/models/surprisal_spline.py         |  4 +++
 irtorch/models/three_parameter_logistic.py |  4 +++
 6 files changed, 50 insertions(+), 12 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 5396808..4e8bb7d 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -183,6 +183,13 @@ class BaseIRTModel(ABC, nn.Module):
             theta = scale(theta)
         return jacobian
 
+    @property
+    def output_shape(self) -> tuple[int, ...]:
+        """
+        The shape of the :meth:`forward` output for one respondent.
+        """
+        return (self.items * self.max_item_responses,)
+
     def probabilities_from_output(self, output: torch.Tensor) -> torch.Tensor:
         """
         Compute probabilities from the output tensor from the forward method.
diff --git a/irtorch/models/model_mix.py b/irtorch/models/model_mix.py
index ddd2915..f6742e4 100644
--- a/irtorch/models/model_mix.py
+++ b/irtorch/models/model_mix.py
@@ -1,3 +1,4 @@
+import math
 import torch
 from torch import nn
 import torch.nn.functional as F
@@ -62,10 +63,32 @@ class ModelMix(BaseIRTModel):
         output : torch.Tensor
             2D tensor. Rows are respondents and columns are item category logits.
         """
-        outputs = [model(theta) for model in self.models]
+        outputs = [model(theta).flatten(start_dim=1) for model in self.models]
         concatenated_output = torch.cat(outputs, dim=1)
         return concatenated_output
 
+    def _split_output(self, output: torch.Tensor) -> list[torch.Tensor]:
+        """
+        Splits the concatenated output from the forward method into the outputs of the individual models.
+
+        Parameters
+        ----------
+        output : torch.Tensor
+            Output tensor from the forward pass.
+
+        Returns
+        -------
+        list[torch.Tensor]
+            The outputs shaped as by the forward methods of the individual models.
+        """
+        shapes = [model.output_shape for model in self.models]
+        outputs = torch.split(output, [math.prod(shape) for shape in shapes], dim=1)
+        return [output_part.reshape(output.shape[0], *shape) for output_part, shape in zip(outputs, shapes)]
+
+    @property
+    def output_shape(self) -> tuple[int, ...]:
+        return (sum(math.prod(model.output_shape) for model in self.models),)
+
     def probabilities_from_output(self, output: torch.Tensor) -> torch.Tensor:
         """
         Compute probabilities from the output tensor from the forward method.
@@ -80,11 +103,7 @@ class ModelMix(BaseIRTModel):
         torch.Tensor
             3D tensor with dimensions (respondents, items, item categories)
         """
-        outputs = torch.split(
-            output,
-            [model.max_item_responses * model.items for model in self.models],
-            dim=1
-        )
+        outputs = self._split_output(output)
         probabilities = [model.probabilities_from_output(output_part) for model, output_part in zip(self.models, outputs)]
         return self._pad_and_concat(probabilities, dim=1, pad_dim=2)
 
@@ -151,11 +170,7 @@ class ModelMix(BaseIRTModel):
             The log likelihood.
         """
         # run model.log_likelihood for each model
-        outputs = torch.split(
-            output,
-            [model.max_item_responses * model.items for model in self.models],
-            dim=1
-        )
+        outputs = self._split_output(output)
         data_splits = torch.split(
             data,
             [model.items for model in self.models],
@@ -171,7 +186,7 @@ class ModelMix(BaseIRTModel):
             )
             mask_splits = [mask.contiguous() for mask in mask_splits]
         log_likelihoods = [
-            model.log_likelihood(data_split, output, mask_split, loss_reduction)
+            model.log_likelihood(data_split.contiguous(), output, mask_split, loss_reduction)
             for model, data_split, mask_split, output in zip(self.models, data_splits, mask_splits, outputs)
         ]
 
diff --git a/irtorch/models/monotone_b_spline.py b/irtorch/models/monotone_b_spline.py
index a557f11..23c9a96 100644
--- a/irtorch/models/monotone_b_spline.py
+++ b/irtorch/models/monotone_b_spline.py
@@ -160,6 +160,10 @@ class MonotoneBSpline(BaseIRTModel):
         output[:, self.missing_categories] = -torch.inf
         return output
 
+    @property
+    def output_shape(self) -> tuple[int, ...]:
+        return (self.items, self.max_item_responses)
+
     def probabilities_from_output(self, output: torch.Tensor) -> torch.Tensor:
         """
         Compute item probabilities from the output tensor.
diff --git a/irtorch/models/nested_logit.py b/irtorch/models/nested_logit.py
index 9aaa334..66fd3bb 100644
--- a/irtorch/models/nested_logit.py
+++ b/irtorch/models/nested_logit.py
@@ -257,6 +257,10 @@ class NestedLogit(BaseIRTModel):
         """
         return self.correct_response_model.item_theta_relationship_directions(theta)
 
+    @property
+    def output_shape(self) -> tuple[int, ...]:
+        return (self.items, self.max_item_responses)
+
     def probabilities_from_output(self, output: torch.Tensor) -> torch.Tensor:
         """
         Probabilities forwarded from the output tensor from the forward method.
diff --git a/irtorch/models/surprisal_spline.py b/irtorch/models/surprisal_spline.py
index dd00eb5..78a1ffe 100644
--- a/irtorch/models/surprisal_spline.py
+++ b/irtorch/models/surprisal_spline.py
@@ -136,6 +136,10 @@ class SurprisalSpline(BaseIRTModel):
         probabilities = a*b
         return torch.flip(probabilities, dims=[-1])
 
+    @property
+    def output_shape(self) -> tuple[int, ...]:
+        return (self.items, self.max_item_responses)
+
     def probabilities_from_output(self, output: torch.Tensor) -> torch.Tensor:
         """
         Probabilities forwarded from the output tensor from the forward method.
diff --git a/irtorch/models/three_parameter_logistic.py b/irtorch/models/three_parameter_logistic.py
index fdedbc4..a6c3fb6 100644
--- a/irtorch/models/three_parameter_logistic.py
+++ b/irtorch/models/three_parameter_logistic.py
@@ -110,6 +110,10 @@ class ThreeParameterLogistic(BaseIRTModel):
 
         return probs
 
+    @property
+    def output_shape(self) -> tuple[int, ...]:
+        return (self.items,)
+
     def probabilities_from_output(self, output: torch.Tensor) -> torch.Tensor:
         """
         Compute probabilities from the output tensor from the forward method.
-- 
2.43.0


From 00c400890dcb7361daa7afa13a680bbdd686c7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:27 +0000
Subject: [PATCH 02/61] fix: report GPC bias terms as the documented per-score
 increments

---
 irtorch/models/generalized_partial_credit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/irtorch/models/generalized_partial_credit.py b/irtorch/models/generalized_partial_credit.py
index 49a4140..75f4f25 100644
--- a/irtorch/models/generalized_partial_credit.py
+++ b/irtorch/models/generalized_partial_credit.py
@@ -145,6 +145,9 @@ class GeneralizedPartialCredit(BaseIRTModel):
         """
         biases = torch.zeros(self.output_size)
         biases[self.free_bias] = self.bias_param
+        # the category intercepts are cumulative sums of the reported bias terms
+        biases[~self.first_category] -= biases.roll(1)[~self.first_category]
+        biases[self.missing_category] = 0.0
         biases = biases.reshape(-1, self.max_item_responses)
 
         weights = torch.zeros(self.items, self.latent_variables)
-- 
2.43.0


From 7b9f394eeb5d76be8fec385e5af79d280b6d890d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 03/61] fix: do not write into the caller's data when one-hot
 encoding

---
 irtorch/_internal_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 6bc655d..86774c7 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -353,7 +353,7 @@ def one_hot_encode_test_data(
             "The number of columns in the data tensor must match the length of the item_categories list."
         )
     if data.isnan().any():
-        data[data.isnan()] = -1
+        data = torch.where(data.isnan(), -1.0, data)
 
     one_hot_list = []
     if data.dtype != torch.long:
-- 
2.43.0


From 5f7a44335ebe1a849916cb0f9f110adbf0eecad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 04/61] fix: do not write into the caller's data when computing
 residuals

---
 irtorch/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index c23c899..89a9365 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -172,7 +172,7 @@ class Evaluator:
         data, theta, _ = self._evaluate_data_theta_input(data, theta, **kwargs)
 
         missing_mask = get_missing_mask(data)
-        data[torch.isnan(data)] = -1
+        data = data.masked_fill(missing_mask, -1)
         if self.model.mc_correct is not None:
             # 3D tensor with dimensions (respondents, items, item categories)
             probabilities = self.model.item_probabilities(theta)
-- 
2.43.0


From f4a6845bbeac88f69078b6d18daea4186939e605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 05/61] fix: sort the missing mask and skip missing responses
 in group log-likelihoods

---
 irtorch/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 89a9365..f9eb306 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -576,13 +576,14 @@ class Evaluator:
         indicies = torch.sort(theta[:, latent_variable - 1], dim=0)[1]
         theta = theta[indicies]
         data = data[indicies]
+        missing_mask = missing_mask[indicies]
         likelihoods = self.model.log_likelihood(
             data,
             self.model(theta),
             missing_mask,
             loss_reduction="none"
         )
-        respondent_likelihoods = likelihoods.view(theta.shape[0], -1).sum(dim=1)
+        respondent_likelihoods = likelihoods.view(theta.shape[0], -1).nansum(dim=1)
         group_mean_likelihoods = torch.zeros(groups)
         start_index = 0
         for group in range(groups):
-- 
2.43.0


From b610b6c1cd3fa74ae913ab7d15f0f5f75d6b9cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:02 +0000
Subject: [PATCH 06/61] fix: split respondents into the requested number of
 near-equal groups

---
 irtorch/evaluator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index f9eb306..be11461 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -647,8 +647,8 @@ class Evaluator:
             transformed_scores = transformed_scores[indices]
             theta = theta[indices]
 
-            grouped_transformed = torch.chunk(transformed_scores, groups)
-            grouped_theta = torch.chunk(theta, groups)
+            grouped_transformed = torch.tensor_split(transformed_scores, groups)
+            grouped_theta = torch.tensor_split(theta, groups)
 
             group_mid_points = torch.tensor(
                 [
@@ -659,13 +659,13 @@ class Evaluator:
         else:
             _, indices = torch.sort(theta[:, latent_variable - 1], dim=0)
             theta = theta[indices]
-            grouped_theta = torch.chunk(theta, groups)
+            grouped_theta = torch.tensor_split(theta, groups)
             group_mid_points = torch.tensor(
                 [group[:, latent_variable - 1].median() for group in grouped_theta]
             )
 
         data = data[indices]
-        grouped_data = torch.chunk(data, groups)
+        grouped_data = torch.tensor_split(data, groups)
         grouped_data_probabilties = self._grouped_data_probabilities(grouped_data)
         grouped_model_probabilties = self._grouped_theta_probabilities(grouped_theta)
         return grouped_data_probabilties, grouped_model_probabilties, group_mid_points
-- 
2.43.0


From 83df6e8a3887f9cb12dc4ca277cabcaedb0c4849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:24 +0000
Subject: [PATCH 07/61] fix: standardise group residuals with the number of
 observed responses

---
 irtorch/evaluator.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index be11461..78ea09c 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -239,6 +239,7 @@ class Evaluator:
         tuple[torch.Tensor, torch.Tensor]
             A tuple with torch tensors. The first one holds the residuals for each group and has dimensions (groups, items, item categories). The second one is a 1D tensor and holds the mid points of the groups.
         """
+        data, theta, missing_mask = self._evaluate_data_theta_input(data, theta, theta_estimation=theta_estimation)
         grouped_data_probabilties, grouped_model_probabilties, group_mid_points = \
             self.latent_group_probabilities(
                 data=data,
@@ -252,11 +253,13 @@ class Evaluator:
 
         raw_residuals = grouped_data_probabilties - grouped_model_probabilties
         if standardize:
-            # get number of people in each group
-            data = torch.chunk(data, groups)
-            group_n = torch.tensor([group.shape[0] for group in data])
+            # get number of observed responses to each item in each group
+            group_theta = self.model.transform_theta(theta) if rescale and self.model.scale else theta
+            _, indices = torch.sort(group_theta[:, latent_variable - 1], dim=0)
+            group_masks = torch.tensor_split(missing_mask[indices], groups)
+            group_n = torch.stack([(~mask).sum(dim=0) for mask in group_masks])
 
-            std_residuals = raw_residuals / (grouped_model_probabilties * (1 - grouped_model_probabilties) / group_n.reshape(-1, 1, 1)).sqrt()
+            std_residuals = raw_residuals / (grouped_model_probabilties * (1 - grouped_model_probabilties) / group_n.unsqueeze(-1)).sqrt()
             return std_residuals, group_mid_points
         
         for item, categories in enumerate(self.model.item_categories):
-- 
2.43.0


From e1c522c13fda554ec53448f8c7c975f31b82c1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:12 +0000
Subject: [PATCH 08/61] fix: honour default guessing probabilities and the
 correct option of two-category items in random guessing data

---
 irtorch/_internal_utils.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 86774c7..e3036f1 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -107,8 +107,9 @@ def random_guessing_data(
         A 2D tensor with test data. Rows are respondents and columns are items.
     """
     num_items = len(item_categories)
-    if (
-        guessing_probabilities is not None and \
+    if guessing_probabilities is None:
+        guessing_probabilities = [1.0 / cats if mc_correct is not None else 0.0 for cats in item_categories]
+    elif (
         isinstance(guessing_probabilities, list) and \
         all(isinstance(item, float) for item in guessing_probabilities) and \
         len(guessing_probabilities) == num_items
@@ -118,27 +119,20 @@ def random_guessing_data(
     else:
         raise ValueError("guessing_probabilities must be list of floats with the same length as the number of items.")
 
-
-    if guessing_probabilities is None:
-        guessing_probabilities = [1.0 / cats for cats in item_categories]
-
     response_matrix = torch.zeros(size, num_items)
 
     for item_idx, num_categories in enumerate(item_categories):
         guessing_prob = guessing_probabilities[item_idx]
 
-        if num_categories == 2:
+        if num_categories == 2 and mc_correct is None:
             responses = torch.bernoulli(torch.full((size,), guessing_prob))
         else:
             if mc_correct is not None:
+                # For the incorrect answers, we distribute the remaining probability
                 probs = torch.full((num_categories,), (1 - guessing_prob) / (num_categories - 1))
                 
                 probs[mc_correct[item_idx]] = guessing_prob
 
-                # For the incorrect answers, we distribute the remaining probability
-                incorrect_total_prob = 1.0 - guessing_prob
-                probs[probs != guessing_prob] = incorrect_total_prob / (num_categories - 1)
-
                 responses = torch.multinomial(probs.repeat(size, 1), 1).squeeze()
             else:
                 responses = torch.zeros(size, dtype=torch.long)
-- 
2.43.0


From 0f5607a0eb44f8c611e18659966c1f27ef64e441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 09/61] fix: ignore missing responses in sum scores

---
 irtorch/_internal_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index e3036f1..b5e0e22 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -458,6 +458,6 @@ def sum_score(data: torch.Tensor, mc_correct: list[int] = None):
         A tensor of sum scores for each respondent.
     """
     if mc_correct is None:
-        return data.sum(dim=1)
+        return data.masked_fill(get_missing_mask(data), 0).sum(dim=1)
     else:
         return (data == torch.tensor(mc_correct, dtype=data.dtype)).int().sum(dim=1).float()
-- 
2.43.0


From f1b2652bf13b057ce604f3bda1cde88b7ca28563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 10/61] fix: compute correlations with missing values pairwise

---
 irtorch/_internal_utils.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index b5e0e22..126ea81 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -50,30 +50,18 @@ def correlation_matrix(x):
         
         return corr_matrix
 
-    means = torch.nanmean(x, dim=0)
-    centered_tensor = x - means
-    # Set NaNs back where they originally were in the centered tensor
-    centered_tensor[~mask] = 0
-    # Calculate the dot product of the centered matrix to get the covariance
-    cov_matrix = torch.matmul(centered_tensor.T, centered_tensor)
-    
-    # Normalization factors: counts of non-NaN pairs
-    norm_factors = torch.matmul(mask.T.float(), mask.float())
-    # Adjust normalization by dividing by n-1
-    norm_factors = torch.where(norm_factors > 1, norm_factors - 1, torch.ones_like(norm_factors))
-    cov_matrix = cov_matrix / norm_factors
-    
-    corr_matrix = torch.ones_like(cov_matrix)
-    for i in range(cov_matrix.size(0)):
-        for j in range(cov_matrix.size(1)):
+    corr_matrix = torch.ones(x.size(1), x.size(1), dtype=x.dtype, device=x.device)
+    for i in range(x.size(1)):
+        for j in range(x.size(1)):
             if i == j or i > j:
                 continue
             else:
                 valid_mask = mask[:, i] & mask[:, j]
                 if torch.sum(valid_mask) > 1:
-                    std_i = torch.sqrt(torch.sum((x[valid_mask, i] - x[valid_mask, i].mean()) ** 2) / (torch.sum(valid_mask) - 1))
-                    std_j = torch.sqrt(torch.sum((x[valid_mask, j] - x[valid_mask, j].mean()) ** 2) / (torch.sum(valid_mask) - 1))
-                    corr_matrix[i, j] = cov_matrix[i, j] / (std_i * std_j)
+                    # only respondents observed on both variables enter means, variances and the covariance
+                    centered_i = x[valid_mask, i] - x[valid_mask, i].mean()
+                    centered_j = x[valid_mask, j] - x[valid_mask, j].mean()
+                    corr_matrix[i, j] = (centered_i * centered_j).sum() / torch.sqrt((centered_i ** 2).sum() * (centered_j ** 2).sum())
                     corr_matrix[j, i] = corr_matrix[i, j]
                 else:
                     corr_matrix[i, j] = 0.0 # Assign a default value if there aren't enough valid pairs
-- 
2.43.0


From 477a987cedb1a5e0355318f0b388829920c12d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 11/61] fix: treat -1 as missing and sparse item pairs as valid
 in joint entropies

---
 irtorch/_internal_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 126ea81..6a80cc0 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -260,7 +260,7 @@ def joint_entropy_matrix(data: torch.Tensor, log_base: float = 2.0):
     if data.dim() != 2:
         raise ValueError("Input must be a 2D tensor")
     
-    mask = ~torch.isnan(data)
+    mask = ~get_missing_mask(data)
     int_data = data.int()
     max_combos = ((int_data.max() + 1) ** 2).item()
     proportions = torch.zeros(int_data.shape[1], int_data.shape[1], max_combos)
@@ -270,7 +270,7 @@ def joint_entropy_matrix(data: torch.Tensor, log_base: float = 2.0):
                 continue
             else:
                 valid_mask = mask[:, i] & mask[:, j]
-                if torch.sum(valid_mask) > 1:
+                if torch.sum(valid_mask) > 0:
                     relevant_data = int_data[valid_mask, :]
                     unique_combinations, counts = torch.unique(
                         relevant_data[:, [i, j]], dim=0, return_counts=True
@@ -278,7 +278,10 @@ def joint_entropy_matrix(data: torch.Tensor, log_base: float = 2.0):
                     proportions[i, j, :unique_combinations.size(0)] = counts.float() / counts.sum()
                     proportions[j, i, :unique_combinations.size(0)] = proportions[i, j, :unique_combinations.size(0)]
 
-    return entropy(proportions, log_base)
+    # pairs without any respondent observed on both items have no joint entropy
+    no_respondents = proportions.sum(dim=-1) == 0
+    proportions[no_respondents, 0] = 1.0
+    return entropy(proportions, log_base).masked_fill(no_respondents, torch.nan)
 
 def is_jupyter():
     try:
-- 
2.43.0


From 3983a60ef45141bdf467ed7944abcba0427bf07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:47 +0000
Subject: [PATCH 12/61] fix: count item categories from all observed responses
 of the item

---
 irtorch/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 913f703..7672dbd 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -291,7 +291,7 @@ def get_item_categories(data: torch.Tensor):
     list
         A list of integers where each integer is the number of possible responses for the corresponding item.
     """
-    return [int(data[~data.isnan().any(dim=1)][:, col].max()) + 1 for col in range(data.shape[1])]
+    return [int(data[~data[:, col].isnan(), col].max()) + 1 for col in range(data.shape[1])]
 
 @torch.no_grad()
 def impute_missing(
-- 
2.43.0


From a2eccad05c09a2263042fe2858b8330d4d51bc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:07 +0000
Subject: [PATCH 13/61] fix: random incorrect imputation with a multiple choice
 model and with one respondent

---
 irtorch/_internal_utils.py | 2 +-
 irtorch/utils.py           | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 6a80cc0..72173b3 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -425,7 +425,7 @@ def impute_missing_internal(
             incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).float()
             incorrect_responses = incorrect_responses[incorrect_responses != mc_correct[col]]
             # Find the indices of missing values in the column
-            missing_indices = (imputed_data[:, col].isnan()).squeeze()
+            missing_indices = imputed_data[:, col].isnan()
             # randomly sample from the incorrect responses and replace missing
             imputed_data[missing_indices, col] = incorrect_responses[torch.randint(0, incorrect_responses.size(0), (missing_indices.sum(),))]
         return imputed_data
diff --git a/irtorch/utils.py b/irtorch/utils.py
index 7672dbd..d428823 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -335,7 +335,7 @@ def impute_missing(
         imputed_data[mask] = means.repeat(data.shape[0], 1)[mask]
     elif method == "random incorrect":
         if model is not None:
-            if model.mc_correct is not None:
+            if model.mc_correct is None:
                 raise ValueError("The model provided must be a multiple choice item model when using random_incorrect imputation")
             item_categories = model.item_categories
             mc_correct = model.mc_correct
@@ -350,7 +350,7 @@ def impute_missing(
             incorrect_responses = torch.arange(0, item_categories[col], device=imputed_data.device).float()
             incorrect_responses = incorrect_responses[incorrect_responses != mc_correct[col]]
             # Find the indices of missing values in the column
-            missing_indices = (imputed_data[:, col].isnan()).squeeze()
+            missing_indices = imputed_data[:, col].isnan()
             # randomly sample from the incorrect responses and replace missing
             imputed_data[missing_indices, col] = incorrect_responses[torch.randint(0, incorrect_responses.size(0), (missing_indices.sum(),))]
     elif method == "prior expected":
-- 
2.43.0


From 5cc0840332b5320316ca83142927e16c71c6a064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 14/61] fix: train each cross-validation fold from the model
 that was passed in

---
 irtorch/utils.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index d428823..6f38e33 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -16,7 +16,7 @@ logger = logging.getLogger("irtorch")
 def _prepare_cross_validation_data(data: torch.Tensor, folds: int) -> list[torch.Tensor]:
     """Prepare data for cross-validation by shuffling and splitting into folds."""
     shuffled_data = data[torch.randperm(data.shape[0])]
-    return torch.chunk(shuffled_data, folds, dim=0)
+    return torch.tensor_split(shuffled_data, folds, dim=0)
 
 def _create_param_grid(params_grid: dict, kwargs: dict) -> list[dict]:
     """Create list of parameter combinations from grid."""
@@ -180,7 +180,7 @@ def _cv_param_combination(model, data_folds, params, theta_estimation, device):
             if "algorithm" in fold_params:
                 algorithm = copy.deepcopy(fold_params.pop("algorithm"))
             
-            result = _cv_fold(model, train_data, validation_fold, fold_params, theta_estimation, device, algorithm)
+            result = _cv_fold(copy.deepcopy(model), train_data, validation_fold, fold_params, theta_estimation, device, algorithm)
             
             # Add algorithm back to result if it was present
             if algorithm is not None:
@@ -188,13 +188,9 @@ def _cv_param_combination(model, data_folds, params, theta_estimation, device):
                 
             results.append(result)
         
-        # Average results across folds, excluding non-numeric values
-        avg_result = {}
-        for k in results[0].keys():
-            if k == "algorithm":
-                avg_result[k] = results[0][k]  # Just take the first one
-            else:
-                avg_result[k] = sum(d[k] for d in results) / len(results)
+        # The parameters are the same for all folds, average the log-likelihoods
+        avg_result = dict(results[0])
+        avg_result["log_likelihood"] = sum(d["log_likelihood"] for d in results) / len(results)
         
         return avg_result
     except Exception as e:
-- 
2.43.0


From e918e5a5fb3ca56850fd865badd3d1150a850ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 15/61] fix: time cross-validation on machines without CUDA

---
 irtorch/timer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/irtorch/timer.py b/irtorch/timer.py
index 6687f53..445b62a 100644
--- a/irtorch/timer.py
+++ b/irtorch/timer.py
@@ -11,9 +11,10 @@ def start_timer():
     """
     global START_TIME
     gc.collect()
-    torch.cuda.empty_cache()
-    torch.cuda.reset_peak_memory_stats()  # Updated from reset_max_memory_allocated()
-    torch.cuda.synchronize()
+    if torch.cuda.is_available():
+        torch.cuda.empty_cache()
+        torch.cuda.reset_peak_memory_stats()  # Updated from reset_max_memory_allocated()
+        torch.cuda.synchronize()
     START_TIME = time.time()
 
 def end_timer_and_print(local_msg):
@@ -21,7 +22,8 @@ def end_timer_and_print(local_msg):
     End the timer and print the execution time and memory usage.
     """
     end_time = time.time()
-    torch.cuda.synchronize()
+    if torch.cuda.is_available():
+        torch.cuda.synchronize()
     logger.info("\n%s", local_msg)
     logger.info("Total execution time = %s sec", end_time - START_TIME)
     logger.info("Max memory used by tensors = %s bytes", torch.cuda.max_memory_allocated())
-- 
2.43.0


From 6b0bdfe3f9e2b1cf7acfbfba549e53c0f5c7e213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 16/61] fix: assign log-likelihoods of mixed models to the
 right respondents

---
 irtorch/_internal_utils.py           | 27 +++++++++++++++++++++++++++
 irtorch/estimation_algorithms/mml.py |  6 +++---
 irtorch/estimation_algorithms/vae.py |  7 ++++---
 irtorch/evaluator.py                 | 18 ++++--------------
 irtorch/models/base_irt_model.py     | 12 ++++++------
 irtorch/models/model_mix.py          |  7 +++++++
 6 files changed, 51 insertions(+), 26 deletions(-)

diff --git a/irtorch/_internal_utils.py b/irtorch/_internal_utils.py
index 72173b3..74022d2 100644
--- a/irtorch/_internal_utils.py
+++ b/irtorch/_internal_utils.py
@@ -374,6 +374,33 @@ def get_missing_mask(data: torch.Tensor) -> torch.Tensor:
     """
     return (data == -1) | data.isnan()
 
+def item_log_likelihoods(model, data: torch.Tensor, output: torch.Tensor, missing_mask: torch.Tensor = None) -> torch.Tensor:
+    """
+    Compute the log-likelihood of each response.
+
+    Parameters
+    ----------
+    model : BaseIRTModel
+        The model.
+    data : torch.Tensor
+        A 2D tensor with test data. Columns are items and rows are respondents.
+    output : torch.Tensor
+        The output from the forward pass of the model.
+    missing_mask : torch.Tensor, optional
+        A 2D tensor with the missing data mask. (default is None)
+
+    Returns
+    -------
+    torch.Tensor
+        A 2D tensor with the log-likelihoods. Columns are items and rows are respondents.
+    """
+    log_likelihoods = model.log_likelihood(data, output, missing_mask, loss_reduction="none")
+    if not hasattr(type(model), "item_blocks"):
+        return log_likelihoods.view(data.shape[0], -1)
+    # mixed models return the log-likelihoods of one model after the other
+    blocks = log_likelihoods.split([data.shape[0] * items for items in model.item_blocks])
+    return torch.cat([block.view(data.shape[0], -1) for block in blocks], dim=1)
+
 @torch.no_grad()
 def impute_missing_internal(
     data: torch.Tensor,
diff --git a/irtorch/estimation_algorithms/mml.py b/irtorch/estimation_algorithms/mml.py
index f36849d..da6aab4 100644
--- a/irtorch/estimation_algorithms/mml.py
+++ b/irtorch/estimation_algorithms/mml.py
@@ -4,7 +4,7 @@ import torch
 from torch.distributions import MultivariateNormal
 from irtorch.models import BaseIRTModel, MonotoneBSpline, NestedLogit, MonotoneBSpline
 from irtorch.utils import gauss_hermite
-from irtorch._internal_utils import dynamic_print
+from irtorch._internal_utils import dynamic_print, item_log_likelihoods
 from irtorch.irt_dataset import PytorchIRTDataset
 from irtorch.estimation_algorithms import BaseIRTAlgorithm
 
@@ -268,8 +268,8 @@ class MML(BaseIRTAlgorithm):
 
         self.optimizer.zero_grad()
         logits = model(latent_grid)
-        ll = model.log_likelihood(train_data.data, logits, missing_mask=train_data.mask, loss_reduction="none")
-        ll = ll.view(-1, model.items).nansum(dim=1) # sum over items
+        ll = item_log_likelihoods(model, train_data.data, logits, missing_mask=train_data.mask)
+        ll = ll.nansum(dim=1) # sum over items
         
         log_sums = (log_weights + ll).view(number_of_weights, -1)
         constant = log_sums.max(dim=0)[0] # for logexpsum trick (one constant per respondent)
diff --git a/irtorch/estimation_algorithms/vae.py b/irtorch/estimation_algorithms/vae.py
index 5f9be23..44bdcd4 100644
--- a/irtorch/estimation_algorithms/vae.py
+++ b/irtorch/estimation_algorithms/vae.py
@@ -1,6 +1,7 @@
 import logging
 import torch
 from torch.distributions import Normal
+from irtorch._internal_utils import item_log_likelihoods
 from irtorch.models import BaseIRTModel
 from irtorch.estimation_algorithms.ae import AE
 from irtorch.estimation_algorithms.encoders import VariationalEncoder
@@ -242,18 +243,18 @@ class VAE(AE):
         else:
             self.annealing_factor = 1.0
 
-        log_p_x_theta = model.log_likelihood(
+        log_p_x_theta = item_log_likelihoods(
+            model,
             data.repeat(self.iw_samples, 1),
             logits,
             missing_mask.repeat(self.iw_samples, 1),
-            loss_reduction="none",
         )
 
         # Reshape tensor by each iw-sample
         # we need to keep a dimension for each respondent, but we can sum over items
         log_p_x_theta = log_p_x_theta.view(
             self.iw_samples,
-            log_p_x_theta.shape[0] // (self.iw_samples * data.shape[1]),
+            data.shape[0],
             data.shape[1],
         ).nansum(2)
 
diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 78ea09c..3a32d0c 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -12,6 +12,7 @@ from irtorch._internal_utils import (
     conditional_score_distribution,
     sum_incorrect_probabilities,
     get_missing_mask,
+    item_log_likelihoods,
     correlation_matrix,
     dynamic_print,
     entropy,
@@ -523,16 +524,10 @@ class Evaluator:
             else:
                 dim = None
 
-        likelihoods = self.model.log_likelihood(
-            data,
-            self.model(theta),
-            missing_mask,
-            loss_reduction="none"
-        )
+        likelihoods = item_log_likelihoods(self.model, data, self.model(theta), missing_mask)
 
         # On unseen data, we may end up with 0 probabilities which will result in -inf likelihoods
         likelihoods[likelihoods==-torch.inf] = -30.0
-        likelihoods = likelihoods.view(theta.shape[0], -1)
         if reduction in "mean":
             return likelihoods.nanmean(dim=dim)
         if reduction == "sum":
@@ -580,13 +575,8 @@ class Evaluator:
         theta = theta[indicies]
         data = data[indicies]
         missing_mask = missing_mask[indicies]
-        likelihoods = self.model.log_likelihood(
-            data,
-            self.model(theta),
-            missing_mask,
-            loss_reduction="none"
-        )
-        respondent_likelihoods = likelihoods.view(theta.shape[0], -1).nansum(dim=1)
+        likelihoods = item_log_likelihoods(self.model, data, self.model(theta), missing_mask)
+        respondent_likelihoods = likelihoods.nansum(dim=1)
         group_mean_likelihoods = torch.zeros(groups)
         start_index = 0
         for group in range(groups):
diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 4e8bb7d..61e9115 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -6,7 +6,7 @@ import torch
 from torch import nn
 from torch.distributions import MultivariateNormal
 import torch.nn.functional as F
-from irtorch._internal_utils import linear_regression, impute_missing_internal, dynamic_print, one_hot_encode_test_data, get_missing_mask
+from irtorch._internal_utils import linear_regression, impute_missing_internal, dynamic_print, one_hot_encode_test_data, get_missing_mask, item_log_likelihoods
 
 if TYPE_CHECKING:
     from irtorch.rescale.scale import Scale
@@ -674,9 +674,9 @@ class BaseIRTModel(ABC, nn.Module):
             init_data = data.repeat_interleave(training_thetas.shape[0], dim=0)
             missing_mask = missing_mask.repeat_interleave(training_thetas.shape[0], dim=0)
 
-            logits = logits.repeat(data.shape[0], 1)
-            lls = self.log_likelihood(init_data, logits, missing_mask, loss_reduction="none")
-            lls = lls.view(logits.shape[0], -1).nansum(dim=1)
+            logits = torch.cat([logits] * data.shape[0], dim=0)
+            lls = item_log_likelihoods(self, init_data, logits, missing_mask)
+            lls = lls.nansum(dim=1)
             lls = lls.view(data.shape[0], -1)
             best_theta_ind = lls.argmax(dim=1)
             best_theta_ind = torch.arange(0, data.shape[0], device=device) * training_thetas.shape[0] + best_theta_ind
@@ -926,8 +926,8 @@ class BaseIRTModel(ABC, nn.Module):
         replicated_theta_grid = torch.cat([theta_grid] * data.shape[0], dim=0)
         log_prior = torch.cat([log_prior] * data.shape[0], dim=0)
         missing_mask = get_missing_mask(replicated_data)
-        grid_log_likelihoods = self.log_likelihood(replicated_data, replicated_logits, missing_mask, loss_reduction = "none")
-        grid_log_likelihoods = grid_log_likelihoods.view(-1, data.shape[1]).nansum(dim=1) # sum likelihood over items
+        grid_log_likelihoods = item_log_likelihoods(self, replicated_data, replicated_logits, missing_mask)
+        grid_log_likelihoods = grid_log_likelihoods.nansum(dim=1) # sum likelihood over items
 
         # Approximate integration integral(p(x|theta)*p(theta)dtheta)
         # p(x|theta)p(theta) / sum(p(x|theta)p(theta)) needs to sum to 1 for each respondent response pattern.
diff --git a/irtorch/models/model_mix.py b/irtorch/models/model_mix.py
index f6742e4..8a43d4f 100644
--- a/irtorch/models/model_mix.py
+++ b/irtorch/models/model_mix.py
@@ -89,6 +89,13 @@ class ModelMix(BaseIRTModel):
     def output_shape(self) -> tuple[int, ...]:
         return (sum(math.prod(model.output_shape) for model in self.models),)
 
+    @property
+    def item_blocks(self) -> list[int]:
+        """
+        The number of items in each of the blocks that log_likelihood with loss_reduction="none" returns after each other.
+        """
+        return [items for model in self.models for items in getattr(model, "item_blocks", [model.items])]
+
     def probabilities_from_output(self, output: torch.Tensor) -> torch.Tensor:
         """
         Compute probabilities from the output tensor from the forward method.
-- 
2.43.0


From 28c2e0fc4f0b36f2831ea66ba44f8c5187028abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:08 +0000
Subject: [PATCH 17/61] fix: invert scale transformations in reverse order

---
 irtorch/models/base_irt_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 61e9115..5f25822 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -159,7 +159,7 @@ class BaseIRTModel(ABC, nn.Module):
         torch.Tensor
             A 2D tensor containing original theta scores. Each column represents one latent variable.
         """
-        for scale in self.scale:
+        for scale in reversed(self.scale):
             transformed_theta = scale.inverse(transformed_theta)
         return transformed_theta
 
-- 
2.43.0


From 4df0487c5bfa52f873510624f9594eef7bb6dc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:27 +0000
Subject: [PATCH 18/61] fix: reject correct options outside the item's
 categories

---
 irtorch/models/base_irt_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 5f25822..42e05c8 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -35,8 +35,8 @@ class BaseIRTModel(ABC, nn.Module):
     ):
         super().__init__()
         if mc_correct is not None:
-            if not all(item >= mc for item, mc in zip(item_categories, mc_correct)):
-                raise ValueError("mc_correct cannot be greater than the number of categories for each item.")
+            if not all(0 <= mc < item for item, mc in zip(item_categories, mc_correct)):
+                raise ValueError("mc_correct must be one of the categories (starting from 0) for each item.")
         self.latent_variables = latent_variables
         self.item_categories = item_categories
         self.max_item_responses = max(self.item_categories)
-- 
2.43.0


From 2f1156ac4707bf7bf07a4036d674b647c0a68a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:43 +0000
Subject: [PATCH 19/61] fix: leave theta and parameter trainability as they
 were when evaluating

---
 irtorch/models/base_irt_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 42e05c8..0e4eb1a 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -341,9 +341,7 @@ class BaseIRTModel(ABC, nn.Module):
         The last line gives us a linear equation that is solved using `torch.linalg.solve` to get :math:`\nabla_{\boldsymbol{\theta}} \mathbb{E}(X_j|\boldsymbol{\theta})`.
         This is more efficient as computing :math:`\mathbf{J}^{-1}_f` is not needed.
         """
-        if theta.requires_grad:
-            theta.requires_grad_(False)
-
+        theta = theta.detach()
         gradients = torch.zeros(theta.shape[0], len(self.item_categories), theta.shape[1])
         theta_scores = theta.clone()
         theta_scores.requires_grad_(True)
@@ -804,6 +802,7 @@ class BaseIRTModel(ABC, nn.Module):
                     prior_density = MultivariateNormal(torch.zeros(self.latent_variables).to(device), self.algorithm.covariance_matrix.to(device))
 
             # Ensure model parameters gradients are not updated
+            trainable_parameters = [parameter for parameter in self.parameters() if parameter.requires_grad]
             self.requires_grad_(False)
 
             if initial_theta_scores is None:
@@ -860,7 +859,8 @@ class BaseIRTModel(ABC, nn.Module):
             # Reset requires_grad train model later
             self.to("cpu")
             optimized_theta_scores = optimized_theta_scores.detach().to("cpu")
-            self.requires_grad_(True)
+            for parameter in trainable_parameters:
+                parameter.requires_grad_(True)
         return optimized_theta_scores
 
     @torch.no_grad()
-- 
2.43.0


From dd3711e10332e2e7c12eec5e4a00cf4bdcb70be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:00 +0000
Subject: [PATCH 20/61] fix: use the selected items in the bit scale jacobian

---
 irtorch/models/base_irt_model.py | 2 +-
 irtorch/rescale/bit.py           | 6 ++----
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 0e4eb1a..0edacbe 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -789,6 +789,7 @@ class BaseIRTModel(ABC, nn.Module):
         torch.Tensor
             A torch.Tensor with the theta scores. The columns are latent variables and rows are respondents.
         """
+        trainable_parameters = [parameter for parameter in self.parameters() if parameter.requires_grad]
         try:
             if theta_estimation == "MAP": # Approximate prior
                 if hasattr(self.algorithm, "training_theta_scores") and self.algorithm.training_theta_scores is not None:
@@ -802,7 +803,6 @@ class BaseIRTModel(ABC, nn.Module):
                     prior_density = MultivariateNormal(torch.zeros(self.latent_variables).to(device), self.algorithm.covariance_matrix.to(device))
 
             # Ensure model parameters gradients are not updated
-            trainable_parameters = [parameter for parameter in self.parameters() if parameter.requires_grad]
             self.requires_grad_(False)
 
             if initial_theta_scores is None:
diff --git a/irtorch/rescale/bit.py b/irtorch/rescale/bit.py
index 355c115..e6cdf20 100644
--- a/irtorch/rescale/bit.py
+++ b/irtorch/rescale/bit.py
@@ -243,10 +243,8 @@ class Bit(Scale):
             A torch tensor with the gradients for each theta score. Dimensions are (theta rows, latent variables, latent variables) where the last two are the jacobians.
         """
         if self.model.latent_variables == 1:
-            if theta.requires_grad:
-                theta.requires_grad_(False)
-
-            probs = self.model.item_probabilities(theta)
+            theta = theta.detach()
+            probs = self.model.item_probabilities(theta)[:, self.items]
             prob_grads = self.model.probability_gradients(theta, rescale=False)[:, self.items, :, 0]
             entropy_gradient_summands = probs.log2() * prob_grads
             item_bit_gradients = entropy_gradient_summands.nansum(dim=2).abs()
-- 
2.43.0


From d9d97c5c628842f8566bb1e8cb368ef9f44c831f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:26 +0000
Subject: [PATCH 21/61] fix: use a standard normal prior for MAP scores of
 unfitted models

---
 irtorch/models/base_irt_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 0edacbe..bf1e2e8 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -801,6 +801,8 @@ class BaseIRTModel(ABC, nn.Module):
                     prior_density = MultivariateNormal(torch.zeros(train_theta_scores.shape[1]).to(device), cov_matrix.to(device))
                 elif hasattr(self.algorithm, "covariance_matrix"):
                     prior_density = MultivariateNormal(torch.zeros(self.latent_variables).to(device), self.algorithm.covariance_matrix.to(device))
+                else:
+                    prior_density = MultivariateNormal(torch.zeros(self.latent_variables).to(device), torch.eye(self.latent_variables).to(device))
 
             # Ensure model parameters gradients are not updated
             self.requires_grad_(False)
-- 
2.43.0


From 60f485131c3a83197237813fa4cecdb2050abe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:47 +0000
Subject: [PATCH 22/61] fix: EAP scores after marginal maximum likelihood and
 for unlikely response patterns

---
 irtorch/models/base_irt_model.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index bf1e2e8..d740305 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -893,9 +893,7 @@ class BaseIRTModel(ABC, nn.Module):
                 4: 5
             }.get(self.latent_variables, 15)
 
-        if hasattr(self.algorithm, "training_theta_scores"):
-            if self.algorithm.training_theta_scores is None:
-                raise ValueError("Please fit the model before computing latent scores.")
+        if getattr(self.algorithm, "training_theta_scores", None) is not None:
             train_theta_scores = self.algorithm.training_theta_scores.to("cpu")
             theta_grid = self._theta_grid(train_theta_scores, grid_size=grid_points)
             # Center the data and compute the covariance matrix.
@@ -910,7 +908,7 @@ class BaseIRTModel(ABC, nn.Module):
                 columns = [grid_values[:, i] for i in range(grid_values.size(1))]
                 theta_grid = torch.cartesian_prod(*columns)
 
-            if hasattr(self.algorithm, "covariance_matrix"):
+            if getattr(self.algorithm, "covariance_matrix", None) is not None:
                 cov_matrix = self.algorithm.covariance_matrix
             else:
                 cov_matrix = torch.eye(self.latent_variables)
@@ -935,7 +933,8 @@ class BaseIRTModel(ABC, nn.Module):
         # p(x|theta)p(theta) / sum(p(x|theta)p(theta)) needs to sum to 1 for each respondent response pattern.
         log_posterior = (log_prior + grid_log_likelihoods).view(-1, theta_grid.shape[0]) # each row is one respondent
         # convert to float 64 to prevent 0 probabilities
-        exp_log_posterior = log_posterior.to(dtype=torch.float64).exp()
+        log_posterior = log_posterior.to(dtype=torch.float64)
+        exp_log_posterior = (log_posterior - log_posterior.max(dim=1, keepdim=True).values).exp()
         posterior = (exp_log_posterior.T / exp_log_posterior.sum(dim=1)).T.view(-1, 1) # transform to one column
 
         # Get expected theta
-- 
2.43.0


From 29b156ac7ff0f10b90e6ac89df0eb49f5ac0c736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:51 +0000
Subject: [PATCH 23/61] fix: score mixed models of multiple choice models by
 their correct options

---
 irtorch/models/model_mix.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/irtorch/models/model_mix.py b/irtorch/models/model_mix.py
index 8a43d4f..2e16404 100644
--- a/irtorch/models/model_mix.py
+++ b/irtorch/models/model_mix.py
@@ -38,9 +38,14 @@ class ModelMix(BaseIRTModel):
         if not all([latent_variables[0] == latent_variables[i] for i in range(1, len(latent_variables))]):
             raise ValueError("All models must have the same number of latent variables.")
 
+        mc_correct = None
+        if all(model.mc_correct is not None for model in models):
+            mc_correct = [correct for model in models for correct in model.mc_correct]
+
         super().__init__(
             latent_variables=latent_variables[0],
-            item_categories = item_categories
+            item_categories = item_categories,
+            mc_correct = mc_correct
         )
         # register each model as a submodule
         self.models = nn.ModuleList(models)
@@ -150,6 +155,27 @@ class ModelMix(BaseIRTModel):
         output = self(theta)
         return self.probabilities_from_output(output)
 
+    def expected_scores(self, theta: torch.Tensor, return_item_scores: bool = True) -> torch.Tensor:
+        """
+        Computes the model expected item scores/test scores for each respondent.
+
+        Parameters
+        ----------
+        theta : torch.Tensor
+            A 2D tensor with latent theta scores. Each column represents one latent variable.
+        return_item_scores : bool, optional
+            Whether to return the item scores. If False, the sum scores are returned. (default is True)
+
+        Returns
+        -------
+        torch.Tensor
+            A tensor with the expected scores of the individual models.
+        """
+        expected_item_scores = torch.cat([model.expected_scores(theta) for model in self.models], dim=1)
+        if return_item_scores:
+            return expected_item_scores
+        return expected_item_scores.sum(dim=1)
+
     def log_likelihood(
         self,
         data: torch.Tensor,
-- 
2.43.0


From c0e13a743fd9f1f46625a0af2114bc1208dea996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:33 +0000
Subject: [PATCH 24/61] fix: allow several latent variables in B-spline models
 with splines per category

---
 irtorch/models/monotone_b_spline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/models/monotone_b_spline.py b/irtorch/models/monotone_b_spline.py
index 23c9a96..6341e85 100644
--- a/irtorch/models/monotone_b_spline.py
+++ b/irtorch/models/monotone_b_spline.py
@@ -93,7 +93,7 @@ class MonotoneBSpline(BaseIRTModel):
         else:
             # (lv, n_bases, items, max(item_categories))
             # with True where splines are supposed to be
-            spline_mask = torch.ones((1, self.n_bases, self.items, max(item_categories)), dtype=bool)
+            spline_mask = torch.ones((self.latent_variables, self.n_bases, self.items, max(item_categories)), dtype=bool)
             spline_mask[:, :, :, 0] = False
             # remove entries for items with fewer possible responses
             for item, item_cat in enumerate(item_categories):
-- 
2.43.0


From 6debac34b8114822d904116d0d82e0a608eea4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:45 +0000
Subject: [PATCH 25/61] fix: report the log slope of rational quadratic splines
 outside their bounds

---
 irtorch/torch_modules/rational_quadratic_spline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irtorch/torch_modules/rational_quadratic_spline.py b/irtorch/torch_modules/rational_quadratic_spline.py
index 3c103fa..883e0a9 100644
--- a/irtorch/torch_modules/rational_quadratic_spline.py
+++ b/irtorch/torch_modules/rational_quadratic_spline.py
@@ -123,7 +123,9 @@ class RationalQuadraticSpline(nn.Module):
         
         outputs = torch.where(below, lower_trans(inputs), outputs)
         outputs = torch.where(above, upper_trans(inputs), outputs)
-        logabsdet = torch.where(~inside, torch.zeros_like(logabsdet), logabsdet)
+        sign = -1.0 if inverse else 1.0
+        logabsdet = torch.where(below, torch.full_like(logabsdet, sign * np.log(self.deriv_outside_lower)), logabsdet)
+        logabsdet = torch.where(above, torch.full_like(logabsdet, sign * np.log(self.deriv_outside_upper)), logabsdet)
         
         if inside.any():
             out_inside, logdet_inside = self._rational_quadratic_spline(
-- 
2.43.0


From 42092ae3bb587cd602794eb76a80fc4d8adb2890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:06 +0000
Subject: [PATCH 26/61] fix: undo the inversion before the spline in the
 inverse link

---
 irtorch/rescale/link_common_items.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index 0649b8a..dc58b20 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -253,8 +253,8 @@ class LinkCommonItems(Scale):
             A 2D tensor containing theta scores on the the original scale.
         """
         if self._method == "spline":
-            theta, _ = self._transformation(transformed_theta, inverse=True)
-            return theta * self._transformation_multiplier
+            theta, _ = self._transformation(transformed_theta * self._transformation_multiplier, inverse=True)
+            return theta
         else:
             raise NotImplementedError("Inverse transformation is not yet implemented for monotonic neural networks.")
 
-- 
2.43.0


From cb78fa49d5bb06e2be8101bd609d3cc705eb95d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:06 +0000
Subject: [PATCH 27/61] fix: differentiate the whole neural network link

---
 irtorch/rescale/link_common_items.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index dc58b20..157cb29 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -277,11 +277,7 @@ class LinkCommonItems(Scale):
         """
         theta_scores = theta.clone()
         theta_scores.detach_().requires_grad_(True)
-        if self._method == "neuralnet":
-            transformed_thetas = self._transformation(theta_scores)
-        else:
-            transformed_thetas, _ = self._transformation(theta_scores, inverse=False)
-        transformed_thetas = transformed_thetas * self._transformation_multiplier
+        transformed_thetas = self.transform(theta_scores)
         transformed_thetas.sum().backward()
         jacobians = torch.diag_embed(theta_scores.grad) # Since each transformation is only dependent on one theta score
         return jacobians
-- 
2.43.0


From ad3c3ec5fdc79621cadb886344ddfdd9d55938e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:21 +0000
Subject: [PATCH 28/61] fix: compute rotation loadings at thetas on the
 original scale

---
 irtorch/rescale/rotate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/rescale/rotate.py b/irtorch/rescale/rotate.py
index f5c2f92..ae66b87 100644
--- a/irtorch/rescale/rotate.py
+++ b/irtorch/rescale/rotate.py
@@ -51,7 +51,7 @@ class Rotate(Scale):
                 if theta is None:
                     if data is None:
                         raise ValueError("data, theta, loadings or a rotation matrix must be provided for rotation.")
-                    theta = model.latent_scores(data, rescale=True ,**kwargs)
+                    theta = model.latent_scores(data, **{**kwargs, "rescale": False})
                 loadings = model.expected_item_score_gradients(theta).mean(dim=0)
             rotator = Rotator(method = rotation_method)
             self.rot_loadings = torch.from_numpy(rotator.fit_transform(loadings.numpy())).float()
-- 
2.43.0


From 8aab30f07400980490d4fd379ad47f392284600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:10 +0000
Subject: [PATCH 29/61] fix: scale Jacobians when gradients are disabled

---
 irtorch/rescale/flow.py              | 1 +
 irtorch/rescale/link_common_items.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/irtorch/rescale/flow.py b/irtorch/rescale/flow.py
index 7e85ef2..3ab65df 100644
--- a/irtorch/rescale/flow.py
+++ b/irtorch/rescale/flow.py
@@ -210,6 +210,7 @@ class Flow(Scale):
         # destandardize
         return theta * self.theta_stds + self.theta_means
 
+    @torch.inference_mode(False)
     def jacobian(
         self,
         theta: torch.Tensor
diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index 157cb29..d062d30 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -258,6 +258,7 @@ class LinkCommonItems(Scale):
         else:
             raise NotImplementedError("Inverse transformation is not yet implemented for monotonic neural networks.")
 
+    @torch.inference_mode(False)
     def jacobian(
         self,
         theta: torch.Tensor
-- 
2.43.0


From 1f9d0f6e2584b8b3267661eea02c8a7d359d40a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:48 +0000
Subject: [PATCH 30/61] fix: bit score starting theta from a subset of the
 items

---
 irtorch/rescale/bit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/irtorch/rescale/bit.py b/irtorch/rescale/bit.py
index e6cdf20..5362719 100644
--- a/irtorch/rescale/bit.py
+++ b/irtorch/rescale/bit.py
@@ -345,9 +345,12 @@ class Bit(Scale):
             guessing_probabilities,
             selected_correct
         )
+        # items which are not selected are missing
+        guessing_data = torch.full((guessing_iterations, len(self.model.item_categories)), torch.nan)
+        guessing_data[:, items] = random_data
 
         logger.info("Approximating theta from random guessing data to get minimum bit score.")
-        guessing_theta = self.model.latent_scores(random_data, theta_estimation=theta_estimation, device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
+        guessing_theta = self.model.latent_scores(guessing_data, theta_estimation=theta_estimation, device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
 
         starting_theta = guessing_theta.detach().median(dim=0).values.reshape(1, self.model.latent_variables)
 
-- 
2.43.0


From c1d3bd8e91162f018f1497797bdc11bdfd9131a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:18 +0000
Subject: [PATCH 31/61] fix: link models with different numbers of categories
 outside the common items

---
 irtorch/rescale/link_common_items.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/irtorch/rescale/link_common_items.py b/irtorch/rescale/link_common_items.py
index d062d30..ffb7eb4 100644
--- a/irtorch/rescale/link_common_items.py
+++ b/irtorch/rescale/link_common_items.py
@@ -307,8 +307,10 @@ class LinkCommonItems(Scale):
         kl_loss = nn.KLDivLoss(reduction="batchmean")
         target_probs = self._model_from.item_probabilities(latent_variables)[:, self._model_from_common_item_indices]
         linked_probs = self._model_to.item_probabilities(linked_latent_variables)[:, self._model_to_common_item_indices]
-        target_probs = target_probs.view(-1, target_probs.shape[2])
-        linked_probs = linked_probs.view(-1, linked_probs.shape[2])
+        # The models can have other items with more categories than the common items
+        categories = max(self._common_item_categories)
+        target_probs = target_probs[:, :, :categories].reshape(-1, categories)
+        linked_probs = linked_probs[:, :, :categories].reshape(-1, categories)
         # linked_probs need log scale for KL div
         # Adding a tiny constant to avoid issues with log(0).
         loss = kl_loss(torch.log(linked_probs + 1e-10), target_probs)
-- 
2.43.0


From 26136ef02f49d8777f4ce5ed58d54270fbf31d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:33 +0000
Subject: [PATCH 32/61] fix: extrapolate the quantile normal density when
 extreme values are tied

---
 irtorch/latent_variable_functions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/irtorch/latent_variable_functions.py b/irtorch/latent_variable_functions.py
index 89248f6..0d2aba2 100644
--- a/irtorch/latent_variable_functions.py
+++ b/irtorch/latent_variable_functions.py
@@ -31,6 +31,12 @@ def interp(x_new, x, y):
     x = x[sorted_indices]
     y = y[sorted_indices]
 
+    # Tied x values become one point with the average y value
+    unique_x, inverse, counts = torch.unique_consecutive(x, return_inverse=True, return_counts=True)
+    if 1 < unique_x.shape[0] < x.shape[0]:
+        x = unique_x
+        y = torch.zeros_like(x).index_add(0, inverse, y) / counts
+
     # Create a mask for x_new within the range of x
     mask = (x_new >= x[0]) & (x_new <= x[-1])
 
-- 
2.43.0


From 5971b4fa13aa4c450dca89b0a7325b5adbb58cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:55 +0000
Subject: [PATCH 33/61] fix: MML keeps the parameters whose loss was best, not
 those after the next step

---
 irtorch/estimation_algorithms/mml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/irtorch/estimation_algorithms/mml.py b/irtorch/estimation_algorithms/mml.py
index da6aab4..28a8f80 100644
--- a/irtorch/estimation_algorithms/mml.py
+++ b/irtorch/estimation_algorithms/mml.py
@@ -194,6 +194,9 @@ class MML(BaseIRTAlgorithm):
         best_loss = float("inf")
         prev_lr = [group["lr"] for group in self.optimizer.param_groups]
         for epoch in range(max_epochs):
+            # the loss is computed before the parameters are updated
+            epoch_model_state = { "state_dict": copy.deepcopy(model.state_dict()),
+                                  "optimizer": copy.deepcopy(self.optimizer.state_dict()) }
             train_loss = self._train_step(
                 model,
                 irt_dataset_rep,
@@ -209,8 +212,7 @@ class MML(BaseIRTAlgorithm):
             if current_loss < best_loss:
                 best_loss = current_loss
                 best_epoch = epoch
-                best_model_state = { "state_dict": copy.deepcopy(model.state_dict()),
-                                    "optimizer": copy.deepcopy(self.optimizer.state_dict()) }
+                best_model_state = epoch_model_state
             
 
             current_lr = [group["lr"] for group in self.optimizer.param_groups]
-- 
2.43.0


From 16e8085d67b51d63f3238147d4baa19ea41b21af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:13 +0000
Subject: [PATCH 34/61] fix: reject unknown MML integration methods

---
 irtorch/estimation_algorithms/mml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irtorch/estimation_algorithms/mml.py b/irtorch/estimation_algorithms/mml.py
index 28a8f80..d956eaa 100644
--- a/irtorch/estimation_algorithms/mml.py
+++ b/irtorch/estimation_algorithms/mml.py
@@ -110,6 +110,8 @@ class MML(BaseIRTAlgorithm):
             list(model.parameters()), lr=learning_rate, amsgrad=True
         )
 
+        if integration_method not in ["quasi_mc", "gauss_hermite"]:
+            raise ValueError("integration_method must be 'quasi_mc' or 'gauss_hermite'.")
         if integration_method == "gauss_hermite":
             points, weights = gauss_hermite(
                 n=quadrature_points,
-- 
2.43.0


From ecbfd4946f1ac05d966254d8f1827a73d8e079bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:29 +0000
Subject: [PATCH 35/61] fix: store only the data of the current fit as training
 data

---
 irtorch/estimation_algorithms/base_irt_algorithm.py | 7 ++-----
 irtorch/estimation_algorithms/vae.py                | 5 +----
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/irtorch/estimation_algorithms/base_irt_algorithm.py b/irtorch/estimation_algorithms/base_irt_algorithm.py
index 2eb8dd5..a7b927b 100644
--- a/irtorch/estimation_algorithms/base_irt_algorithm.py
+++ b/irtorch/estimation_algorithms/base_irt_algorithm.py
@@ -29,8 +29,5 @@ class BaseIRTAlgorithm(ABC):
         **kwargs
             Additional keyword arguments for the algorithm fit method.
         """
-        # Store all training data within the algorithm instance
-        if self.train_data is not None:
-            self.train_data = torch.cat((self.train_data, train_data), dim=0).contiguous()
-        else:
-            self.train_data = train_data.contiguous()
+        # Store the training data within the algorithm instance
+        self.train_data = train_data.contiguous()
diff --git a/irtorch/estimation_algorithms/vae.py b/irtorch/estimation_algorithms/vae.py
index 44bdcd4..7c3a593 100644
--- a/irtorch/estimation_algorithms/vae.py
+++ b/irtorch/estimation_algorithms/vae.py
@@ -82,10 +82,7 @@ class VAE(AE):
         iw_samples : int, optional
             The number of importance weighted samples to use. (default is 5)
         """
-        if self.train_data is not None:
-            self.train_data = torch.cat((self.train_data, train_data), dim=0).contiguous()
-        else:
-            self.train_data = train_data.contiguous()
+        self.train_data = train_data.contiguous()
 
         # Re-initialize the training history
         self.training_history = {
-- 
2.43.0


From 2e596aa2c0fa1e7511b4de18c630513c7c2846cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:47 +0000
Subject: [PATCH 36/61] fix: JML keeps the thetas and parameters whose loss was
 best

---
 irtorch/estimation_algorithms/jml.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/irtorch/estimation_algorithms/jml.py b/irtorch/estimation_algorithms/jml.py
index a5f0aa2..aa76b55 100644
--- a/irtorch/estimation_algorithms/jml.py
+++ b/irtorch/estimation_algorithms/jml.py
@@ -152,6 +152,13 @@ class JML(BaseIRTAlgorithm):
         model.train()
 
         for epoch in range(max_epochs):
+            # the losses are computed before the parameters and thetas are updated
+            epoch_model_state = {
+                "theta": copy.deepcopy(self.training_theta_scores.data),
+                "state_dict": copy.deepcopy(model.state_dict()),
+                "optimizer": copy.deepcopy(self.optimizer.state_dict())
+            }
+            epoch_losses = []
             for _, (batch, mask, _, idx) in enumerate(data_loader):
                 self.optimizer.zero_grad()
                 model_out = model(self.training_theta_scores[idx])
@@ -162,19 +169,10 @@ class JML(BaseIRTAlgorithm):
                 train_loss = loss.item()
                 self.training_history["train_loss"].append(loss.item())
                 
-                current_loss = train_loss
+                epoch_losses.append(train_loss)
                 scheduler.step(train_loss)
                 dynamic_print(f"Epoch: {epoch}. Loss: {train_loss:.4f}")
 
-                if current_loss < best_loss:
-                    best_loss = current_loss
-                    best_epoch = epoch
-                    best_model_state = {
-                        "theta": copy.deepcopy(self.training_theta_scores.data),
-                        "state_dict": copy.deepcopy(model.state_dict()),
-                        "optimizer": copy.deepcopy(self.optimizer.state_dict()) 
-                    }
-
                 current_lr = [group["lr"] for group in self.optimizer.param_groups]
                 if current_lr != prev_lr:
                     lr_update_count += 1
@@ -183,6 +181,11 @@ class JML(BaseIRTAlgorithm):
                     prev_lr = current_lr
                     logger.info("Decreased learning rate to: %s", current_lr[0])
 
+            # compare whole epochs, as batches of different respondents are not comparable
+            if len(epoch_losses) == len(data_loader) and sum(epoch_losses) < best_loss:
+                best_loss = sum(epoch_losses)
+                best_epoch = epoch
+                best_model_state = epoch_model_state
 
             if lr_update_count >= learning_rate_updates_before_stopping:
                 break
-- 
2.43.0


From 33814a1173f6315da3a80d5f7f20dc54c50ae245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:02 +0000
Subject: [PATCH 37/61] fix: JML does not overwrite the caller's start thetas

---
 irtorch/estimation_algorithms/jml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/estimation_algorithms/jml.py b/irtorch/estimation_algorithms/jml.py
index aa76b55..b40d1c8 100644
--- a/irtorch/estimation_algorithms/jml.py
+++ b/irtorch/estimation_algorithms/jml.py
@@ -84,7 +84,7 @@ class JML(BaseIRTAlgorithm):
             raise ValueError("start_thetas must contain the same number of latent variables as the model.")
 
         self.training_theta_scores = torch.nn.Parameter(
-            start_thetas.to(device)
+            start_thetas.detach().clone().to(device)
         )
 
         self.optimizer = torch.optim.Adam(
-- 
2.43.0


From b4aa1089fcee36c5b886daad04d0806ebd0e7375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:13 +0000
Subject: [PATCH 38/61] fix: VAE.fit stores its imputation method and encoder
 settings

---
 irtorch/estimation_algorithms/vae.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irtorch/estimation_algorithms/vae.py b/irtorch/estimation_algorithms/vae.py
index 7c3a593..b21bf90 100644
--- a/irtorch/estimation_algorithms/vae.py
+++ b/irtorch/estimation_algorithms/vae.py
@@ -99,6 +99,10 @@ class VAE(AE):
         self.annealing_iterations = annealing_iterations
         self.anneal = anneal
         self.one_hot_encoded = one_hot_encoded
+        self.batch_normalization = batch_normalization_encoder
+        self.imputation_method = imputation_method
+        self.item_categories = model.item_categories
+        self.mc_correct = model.mc_correct
 
         if batch_size is None:
             batch_size = train_data.shape[0]
-- 
2.43.0


From 5919d768056d2447bdbe3d24480202d4311738c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:33 +0000
Subject: [PATCH 39/61] fix: give every encoder batch normalisation layer its
 own name

---
 irtorch/estimation_algorithms/encoders/bounded_encoder.py     | 2 +-
 irtorch/estimation_algorithms/encoders/variational_encoder.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/estimation_algorithms/encoders/bounded_encoder.py b/irtorch/estimation_algorithms/encoders/bounded_encoder.py
index d4dea5f..015e5fc 100644
--- a/irtorch/estimation_algorithms/encoders/bounded_encoder.py
+++ b/irtorch/estimation_algorithms/encoders/bounded_encoder.py
@@ -27,7 +27,7 @@ class BoundedEncoder(BaseEncoder):
                 f"linear{i}", nn.Linear(hidden_dim[i - 1], hidden_dim[i])
             )
             if batch_normalization:
-                self.layers.add_module("batchnorm0", nn.BatchNorm1d(hidden_dim[i]))
+                self.layers.add_module(f"batchnorm{i}", nn.BatchNorm1d(hidden_dim[i]))
             self.layers.add_module(f"nonlinear{i}", nonlinear)
 
         # output layer
diff --git a/irtorch/estimation_algorithms/encoders/variational_encoder.py b/irtorch/estimation_algorithms/encoders/variational_encoder.py
index 132690e..0a27c95 100644
--- a/irtorch/estimation_algorithms/encoders/variational_encoder.py
+++ b/irtorch/estimation_algorithms/encoders/variational_encoder.py
@@ -27,7 +27,7 @@ class VariationalEncoder(BaseEncoder):
                 f"linear{i}", nn.Linear(hidden_dim[i - 1], hidden_dim[i])
             )
             if batch_normalization:
-                self.layers.add_module("batchnorm0", nn.BatchNorm1d(hidden_dim[i]))
+                self.layers.add_module(f"batchnorm{i}", nn.BatchNorm1d(hidden_dim[i]))
             self.layers.add_module(f"nonlinear{i}", nonlinear)
 
         # variational layers
-- 
2.43.0


From 84d7526d9557b9cf0d31cf1c9671067150c30cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:53 +0000
Subject: [PATCH 40/61] fix: pass the answer key and category counts to
 imputation when scoring

---
 irtorch/models/base_irt_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index d740305..f3f6702 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -603,8 +603,10 @@ class BaseIRTModel(ABC, nn.Module):
                 if data.isnan().any() or data.eq(-1).any():
                     if self.algorithm.imputation_method is not None:
                         encoder_data = impute_missing_internal(
-                            data = data,
+                            data=data,
                             method=self.algorithm.imputation_method,
+                            mc_correct=self.mc_correct,
+                            item_categories=self.item_categories
                         )
                     elif not self.algorithm.one_hot_encoded:
                         raise ValueError("The algorithm encoder does not use one-hot encoded data, and autoencoder does not have a pre-specified imputation method. Please impute beforehand.")
-- 
2.43.0


From e18ad4e107a2c179d51fc0c6f26915566ebe531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:27 +0000
Subject: [PATCH 41/61] fix: report local dependence measures when no item pair
 has common respondents

---
 irtorch/evaluator.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 3a32d0c..d8f1ec1 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -749,9 +749,10 @@ class Evaluator:
         amid_df.index = [f"Item {i+1}" for i in range(mid.shape[0])]
 
         df_no_diag = amid_df.where(~np.eye(amid_df.shape[0], dtype=bool))
-        max_value = df_no_diag.max().max()
-        max_location = df_no_diag.stack().idxmax()
-        logger.info("Largest AMID is %.2f between %s and %s.", max_value, max_location[0], max_location[1])
+        if df_no_diag.notna().any(axis=None): # no item pair may have respondents in common
+            max_value = df_no_diag.max().max()
+            max_location = df_no_diag.stack().idxmax()
+            logger.info("Largest AMID is %.2f between %s and %s.", max_value, max_location[0], max_location[1])
 
         if sample_hypothesis_test:
             sample_amids = torch.zeros(samples, *data_mutual_information.shape)
@@ -888,9 +889,10 @@ class Evaluator:
 
         # Find the maximum value and its location
         df_no_diag = corr_matrix_df.where(~np.eye(corr_matrix_df.shape[0], dtype=bool))
-        max_value = df_no_diag.max().max()
-        max_location = df_no_diag.stack().idxmax()
-        logger.info("Largest Q3 is %.2f between %s and %s.", max_value, max_location[0], max_location[1])
+        if df_no_diag.notna().any(axis=None): # no item pair may have respondents in common
+            max_value = df_no_diag.max().max()
+            max_location = df_no_diag.stack().idxmax()
+            logger.info("Largest Q3 is %.2f between %s and %s.", max_value, max_location[0], max_location[1])
 
         if sample_hypothesis_test:
             sample_corr_matrices = torch.zeros(samples, *corr_matrix.shape)
-- 
2.43.0


From 3a7fd1e0398a292031b2b275bada26332ac2779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:03 +0000
Subject: [PATCH 42/61] fix: score population data by ML for models without an
 encoder

---
 irtorch/evaluator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index d8f1ec1..5d2bba0 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -1085,7 +1085,8 @@ class Evaluator:
                 mvn = MultivariateNormal(torch.zeros(self.model.latent_variables), self.model.algorithm.covariance_matrix)
                 theta_scores = mvn.sample((4000,)).to(dtype=torch.float32)
         else:
-            theta_scores = self.model.latent_scores(population_data, theta_estimation="NN", device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
+            theta_estimation = "NN" if hasattr(self.model.algorithm, "encoder") else "ML"
+            theta_scores = self.model.latent_scores(population_data, theta_estimation=theta_estimation, device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
 
         if latent_density_method in ["data", "encoder sampling"]:
             weights = (
-- 
2.43.0


From 15df5823ab826b776ce47c79e618f4d804249497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:21 +0000
Subject: [PATCH 43/61] fix: weight encoder samples by their own number in sum
 score probabilities

---
 irtorch/evaluator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 5d2bba0..8aa76b5 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -1089,14 +1089,14 @@ class Evaluator:
             theta_scores = self.model.latent_scores(population_data, theta_estimation=theta_estimation, device=ml_map_device, lbfgs_learning_rate=lbfgs_learning_rate, rescale=False)
 
         if latent_density_method in ["data", "encoder sampling"]:
+            if latent_density_method == "encoder sampling":
+                theta_scores = self.model.algorithm.sample_latent_variables(
+                    model=self.model, sample_size=sample_size, input_data=population_data
+                )
             weights = (
                 torch.ones(theta_scores.shape[0])
                 / theta_scores.shape[0]
             )
-            if latent_density_method == "encoder sampling":
-                theta_scores = self.model.algorithm.sample_latent_variables(
-                    sample_size=sample_size, input_data=population_data
-                )
         else:
             (
                 theta_scores,
-- 
2.43.0


From d844d55909ac4ecc57c5a91787c114088d39ab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 44/61] x

fix: do not reuse a latent density approximated from other thetas
---
 irtorch/evaluator.py             | 8 +++++++-
 irtorch/models/base_irt_model.py | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/irtorch/evaluator.py b/irtorch/evaluator.py
index 8aa76b5..45d1516 100644
--- a/irtorch/evaluator.py
+++ b/irtorch/evaluator.py
@@ -1124,9 +1124,15 @@ class Evaluator:
                 or not isinstance(self.latent_density, GaussianMixtureModel)
             )
         ):
+            previous_density = self.latent_density
             self.approximate_latent_density(
                 theta_scores=theta_scores, approximation=latent_density_method
             )
+            density = self.latent_density
+            if population_data is not None: # only describes this population
+                self.latent_density = previous_density
+        else:
+            density = self.latent_density
 
         # get the min/max points for integration
         min_theta, max_theta = self._min_max_theta_for_integration(theta_scores)
@@ -1144,7 +1150,7 @@ class Evaluator:
             # Add an extra dimension for 1D models to make it a 2D tensor with 1 column
             theta_scores = theta_scores.unsqueeze(1)
 
-        weights = self.latent_density.pdf(theta_scores)
+        weights = density.pdf(theta_scores)
         weights = weights / weights.sum()
 
         return theta_scores, weights
\ No newline at end of file
diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index f3f6702..0a83368 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -114,6 +114,8 @@ class BaseIRTModel(ABC, nn.Module):
         """
         algorithm.fit(self, train_data=train_data, **kwargs)
         self.algorithm = algorithm
+        if self._evaluate is not None:
+            self._evaluate.latent_density = None # approximated from the thetas of an earlier fit
 
     def add_scale_transformation(self, scale: Scale) -> None:
         """
-- 
2.43.0


From 7314453ebddb78284c40a582da50358d1fb27b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 45/61] fix: keep the last point of plotted curves on reversed
 or non-monotone scales

---
 irtorch/plotter.py | 73 ++++++++++++++++++----------------------------
 1 file changed, 28 insertions(+), 45 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 66468d1..2f2e78d 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -255,15 +255,9 @@ class Plotter:
 
         if len(latent_variables) == 1:
             scores_to_plot.squeeze_()
-            min_indices = (scores_to_plot == scores_to_plot.min()).nonzero().flatten()
-            if min_indices[-1] == len(scores_to_plot) - 1:  # if we have reversed theta scale
-                start_idx = min_indices[0].item()  # get the first index
-                scores_to_plot = scores_to_plot[:start_idx]
-                item_entropies = item_entropies[:start_idx]
-            else:
-                start_idx = min_indices[-1].item()  # get the last index
-                scores_to_plot = scores_to_plot[start_idx:]
-                item_entropies = item_entropies[start_idx:]
+            keep = self._without_repeated_minimum(scores_to_plot)
+            scores_to_plot = scores_to_plot[keep]
+            item_entropies = item_entropies[keep]
 
             fig = self._2d_line_plot(
                 x = scores_to_plot,
@@ -384,15 +378,9 @@ class Plotter:
 
         if len(latent_variables) == 1:
             scores_to_plot.squeeze_()
-            min_indices = (scores_to_plot == scores_to_plot.min()).nonzero().flatten()
-            if min_indices[-1] == len(scores_to_plot) - 1:  # if we have reversed theta scale
-                start_idx = min_indices[0].item()  # get the first index
-                scores_to_plot = scores_to_plot[:start_idx]
-                log_likelihood = log_likelihood.detach_().squeeze_()[:start_idx]
-            else:
-                start_idx = min_indices[-1].item()  # get the last index
-                scores_to_plot = scores_to_plot[start_idx:]
-                log_likelihood = log_likelihood.detach_().squeeze_()[start_idx:]
+            keep = self._without_repeated_minimum(scores_to_plot)
+            scores_to_plot = scores_to_plot[keep]
+            log_likelihood = log_likelihood.detach_().squeeze_()[keep]
 
             if x_label is None and expected_sum_score:
                 x_label = "Expected sum score"
@@ -745,15 +733,9 @@ class Plotter:
 
         if len(latent_variables) == 1:
             scores_to_plot.squeeze_()
-            min_indices = (scores_to_plot == scores_to_plot.min()).nonzero().flatten()
-            if min_indices[-1] == len(scores_to_plot) - 1:  # if we have reversed theta scale
-                start_idx = min_indices[0].item()  # get the first index
-                scores_to_plot = scores_to_plot[:start_idx]
-                information = information.detach_().squeeze_()[:start_idx]
-            else:
-                start_idx = min_indices[-1].item()  # get the last index
-                scores_to_plot = scores_to_plot[start_idx:]
-                information = information.detach_().squeeze_()[start_idx:]
+            keep = self._without_repeated_minimum(scores_to_plot)
+            scores_to_plot = scores_to_plot[keep]
+            information = information.detach_().squeeze_()[keep]
 
             return self._2d_line_plot(
                 x = scores_to_plot,
@@ -867,15 +849,9 @@ class Plotter:
             if items is not None and len(items) == 1:
                 y_label = "Expected item score" if y_label is None else y_label
             scores_to_plot.squeeze_()
-            min_indices = (scores_to_plot == scores_to_plot.min()).nonzero().flatten()
-            if min_indices[-1] == len(scores_to_plot) - 1:  # if we have reversed theta scale
-                start_idx = min_indices[0].item()  # get the first index
-                scores_to_plot = scores_to_plot[:start_idx]
-                sum_scores = sum_scores[:start_idx]
-            else:
-                start_idx = min_indices[-1].item()  # get the last index
-                scores_to_plot = scores_to_plot[start_idx:]
-                sum_scores = sum_scores[start_idx:]
+            keep = self._without_repeated_minimum(scores_to_plot)
+            scores_to_plot = scores_to_plot[keep]
+            sum_scores = sum_scores[keep]
 
             fig = self._2d_line_plot(
                 x = scores_to_plot,
@@ -966,6 +942,19 @@ class Plotter:
             theta_grid = self.model.inverse_transform_theta(theta_grid)
         return theta_grid
 
+    @staticmethod
+    def _without_repeated_minimum(scores: torch.Tensor) -> slice:
+        """
+        Some scales map all thetas beyond a point to their minimum. Selects the scores such that the minimum
+        is plotted only once in either end of the curve.
+        """
+        above_minimum = (scores != scores.min()).nonzero().flatten()
+        if len(above_minimum) == 0:
+            return slice(0, 1)
+        first = max(above_minimum[0].item() - 1, 0)
+        last = min(above_minimum[-1].item() + 1, len(scores) - 1)
+        return slice(first, last + 1)
+
     def _2d_line_plot(
         self,
         x: torch.Tensor,
@@ -1055,15 +1044,9 @@ class Plotter:
         go.Figure
             The Plotly Figure object for the plot.
         """
-        min_indices = (latent_scores == latent_scores.min()).nonzero().flatten()
-        if min_indices[-1] == len(latent_scores) - 1:  # if we have reversed theta scale
-            start_idx = min_indices[0].item()  # get the first index
-            latent_scores = latent_scores[:start_idx]
-            prob_matrix = prob_matrix[:start_idx, :]
-        else:
-            start_idx = min_indices[-1].item()  # get the last index
-            latent_scores = latent_scores[start_idx:]
-            prob_matrix = prob_matrix[start_idx:, :]
+        keep = self._without_repeated_minimum(latent_scores)
+        latent_scores = latent_scores[keep]
+        prob_matrix = prob_matrix[keep]
 
         latent_scores = latent_scores.cpu().numpy()
         prob_matrix = prob_matrix.cpu().numpy()
-- 
2.43.0


From a0853abe61f0d0247116b53598301b6b72ccde3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 46/61] fix: plot item probabilities at the training medians on
 the plotted scale

---
 irtorch/plotter.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 2f2e78d..04d8458 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -574,15 +574,7 @@ class Plotter:
 
         latent_indices = [theta - 1 for theta in latent_variables]
 
-        mask = torch.ones(model_dim, dtype=bool)
-        mask[latent_indices] = 0
-        if fixed_thetas is None:
-            if hasattr(self.model.algorithm, "training_theta_scores") and self.model.algorithm.training_theta_scores is not None:
-                fixed_thetas = self.model.algorithm.training_theta_scores[:, mask].median(dim=0).values
-            else:
-                fixed_thetas = torch.zeros(model_dim)[mask]
-
-        elif len(fixed_thetas) is not model_dim - len(latent_variables):
+        if fixed_thetas is not None and len(fixed_thetas) != model_dim - len(latent_variables):
             raise TypeError("If specified, the number of fixed latent variables needs to be the same as the number of variables in the model not used for plotting.")
 
         theta_grid = self._get_theta_grid_for_plotting(latent_variables, theta_range, second_theta_range, steps, fixed_thetas, latent_indices, rescale)
-- 
2.43.0


From 452c1ebb566a18c3448b542cfe8484f6c81129ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 47/61] fix: plot information against the selected latent
 variables on transformed scales

---
 irtorch/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 04d8458..2873f1e 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -710,7 +710,7 @@ class Plotter:
             logger.warning("A large grid of latent variable values is used for plotting. This may take a while. Consider lowering the steps argument.")
 
         if rescale and self.model.scale:
-            scores_to_plot = self.model.transform_theta(theta_grid)
+            scores_to_plot = self.model.transform_theta(theta_grid)[:, latent_indices]
         else:
             scores_to_plot = theta_grid[:, [var - 1 for var in latent_variables]]
             if scores_to_plot.dim() == 1:
-- 
2.43.0


From 2228ea4bde5bbcb57e8f0e260a34bcead1aa29d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 48/61] fix: log-likelihood surfaces

---
 irtorch/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 2873f1e..90e06e8 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -412,7 +412,7 @@ class Plotter:
                 )
             return fig
         if len(latent_variables) == 2:
-            grid_size = int(np.sqrt(log_likelihood.size()))
+            grid_size = int(np.sqrt(log_likelihood.numel()))
             return self._3d_surface_plot(
                 x = scores_to_plot[:, 0].reshape((grid_size, grid_size)),
                 y = scores_to_plot[:, 1].reshape((grid_size, grid_size)),
-- 
2.43.0


From 6814841ec0b79bcc821f345da880fa89fb5f9359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 49/61] fix: log-likelihood plots of response patterns with
 missing responses

---
 irtorch/plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 90e06e8..9be2f38 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -374,7 +374,7 @@ class Plotter:
             item_mask[[item - 1 for item in items]] = 1
             log_likelihood = log_likelihood[:, item_mask]
 
-        log_likelihood = log_likelihood.sum(dim=1)
+        log_likelihood = log_likelihood.nansum(dim=1)
 
         if len(latent_variables) == 1:
             scores_to_plot.squeeze_()
-- 
2.43.0


From 3c37d8deb639c1b42d3153cd2fa4f16fb5092928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:29 +0000
Subject: [PATCH 50/61] fix: observed sum score in log-likelihood plots

---
 irtorch/plotter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 9be2f38..c9bc809 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -8,7 +8,7 @@ import plotly.graph_objects as go
 import plotly.express as px
 import plotly.io as pio
 from irtorch.estimation_algorithms import AE, VAE
-from irtorch._internal_utils import entropy
+from irtorch._internal_utils import entropy, sum_score
 
 if TYPE_CHECKING:
     from irtorch.models.base_irt_model import BaseIRTModel
@@ -394,17 +394,18 @@ class Plotter:
                 color = color or None
             )
             if expected_sum_score:
+                observed_sum_score = sum_score(data, self.model.mc_correct).item()
                 fig.add_vline(
-                    x=data.sum().item(),
+                    x=observed_sum_score,
                     line_dash="dash",
                     line_color="gray",
                     opacity=0.7
                 )
                 fig.add_annotation(
-                    x=data.sum().item(),
+                    x=observed_sum_score,
                     y=1.0,
                     yref="paper",
-                    text=f"Observed sum score: {data.sum().item()}",
+                    text=f"Observed sum score: {observed_sum_score}",
                     showarrow=True,
                     arrowhead=1,
                     ax=0,
-- 
2.43.0


From 3a2ed3d9c62d5f9e40265061fe4597ead936a62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 51/61] fix: plot ranges on the transformed scale also without
 training thetas

---
 irtorch/plotter.py | 45 +++++++++++++++++----------------------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index c9bc809..674d804 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -879,41 +879,29 @@ class Plotter:
             and hasattr(self.model.algorithm, "training_theta_scores")
             and self.model.algorithm.training_theta_scores is not None
         )
-        use_transformed_train_theta = invertible and rescale and has_training_theta_scores
+        use_transformed_theta = invertible and rescale
 
         if has_training_theta_scores:
-            if use_transformed_train_theta:
-                theta_source = self.model.transform_theta(
-                    self.model.algorithm.training_theta_scores
-                )
-            else:
-                theta_source = self.model.algorithm.training_theta_scores
+            theta_source = self.model.algorithm.training_theta_scores
         else:
-            theta_source = None
+            theta_source = torch.tensor([[-3.0], [0.0], [3.0]]).repeat(1, self.model.latent_variables)
+        if use_transformed_theta:
+            theta_source = self.model.transform_theta(theta_source)
 
         if fixed_thetas is None:
-            if theta_source is not None:
-                fixed_thetas = theta_source[:, mask].median(dim=0).values
-            else:
-                fixed_thetas = torch.zeros(self.model.latent_variables)[mask]
+            fixed_thetas = theta_source[:, mask].median(dim=0).values
 
         if theta_range is None:
-            if theta_source is not None:
-                theta_range = (
-                    theta_source[:, latent_variables[0] - 1].min().item(),
-                    theta_source[:, latent_variables[0] - 1].max().item(),
-                )
-            else:
-                theta_range = (-3, 3)
+            theta_range = (
+                theta_source[:, latent_variables[0] - 1].min().item(),
+                theta_source[:, latent_variables[0] - 1].max().item(),
+            )
 
         if second_theta_range is None and len(latent_indices) > 1:
-            if theta_source is not None:
-                second_theta_range = (
-                    theta_source[:, latent_variables[1] - 1].min().item(),
-                    theta_source[:, latent_variables[1] - 1].max().item(),
-                )
-            else:
-                second_theta_range = (-3, 3)
+            second_theta_range = (
+                theta_source[:, latent_variables[1] - 1].min().item(),
+                theta_source[:, latent_variables[1] - 1].max().item(),
+            )
 
         latent_theta_1 = torch.linspace(theta_range[0], theta_range[1], steps=steps)
         if len(latent_indices) == 1:
@@ -931,8 +919,9 @@ class Plotter:
             theta_grid[:, latent_indices[1]] = latent_theta_2.flatten()
             theta_grid[:, mask] = fixed_thetas
 
-        if use_transformed_train_theta:
-            theta_grid = self.model.inverse_transform_theta(theta_grid)
+        if use_transformed_theta:
+            for scale in reversed(self.model.scale):
+                theta_grid = scale.inverse(theta_grid)
         return theta_grid
 
     @staticmethod
-- 
2.43.0


From 8aa1b22fe3dba64fcd6efabd8522694181d6bd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 52/61] fix: negation layer leaves its input unchanged

---
 irtorch/torch_modules/negation_layer.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/irtorch/torch_modules/negation_layer.py b/irtorch/torch_modules/negation_layer.py
index 55b420d..6a2a8a1 100644
--- a/irtorch/torch_modules/negation_layer.py
+++ b/irtorch/torch_modules/negation_layer.py
@@ -30,11 +30,10 @@ class NegationLayer(nn.Module):
 
     def forward(self, x: torch.Tensor):
         # break the gradients for weights for non-used categories
-        x[:, self.zero_outputs] = 0.0
+        x = x.masked_fill(self.zero_outputs, 0.0)
         weight = self.weight.clone().detach()
         weight[~self.zero_weights] = self.weight_param.repeat_interleave(self.inputs_per_item)
-        x.multiply_(weight)
-        return x
+        return x * weight
 
     def all_item_weights(self):
         """
-- 
2.43.0


From 859d471584a17340ac1a0b9eb06a40049703a193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 53/61] fix: boolean zero_outputs in softplus linear layers

---
 irtorch/torch_modules/softplus_linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irtorch/torch_modules/softplus_linear.py b/irtorch/torch_modules/softplus_linear.py
index 055762a..f1c400c 100644
--- a/irtorch/torch_modules/softplus_linear.py
+++ b/irtorch/torch_modules/softplus_linear.py
@@ -69,7 +69,7 @@ class SoftplusLinear(nn.Module):
 
         free_weight[zero_outputs.bool()] = False
         free_weight[:, zero_inputs.bool()] = False
-        self.register_buffer("free_bias", (1 - zero_outputs).bool())
+        self.register_buffer("free_bias", ~zero_outputs.bool())
         self.register_buffer("free_weight", free_weight)
 
         # These are learnable parameters representing the raw weights of the layer.
-- 
2.43.0


From ccf8000fa581484fb3c3fd5efa5b93b1acfaade4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 54/61] fix: negative relationships without a relationship
 matrix

---
 irtorch/torch_modules/monotone_polynomial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irtorch/torch_modules/monotone_polynomial.py b/irtorch/torch_modules/monotone_polynomial.py
index 34d05e0..81a6f35 100644
--- a/irtorch/torch_modules/monotone_polynomial.py
+++ b/irtorch/torch_modules/monotone_polynomial.py
@@ -62,6 +62,8 @@ class MonotonePolynomialModule(nn.Module):
                 mean=0.,
                 std=0.01
             )
+            if relationship_matrix is None:
+                relationship_matrix = torch.ones(in_features, out_features, dtype=torch.bool)
             directions_mask = relationship_matrix.reshape(in_features, int(out_features / shared_directions), shared_directions)[:, :, 0].float()
             self.register_buffer('directions_mask', directions_mask)
 
-- 
2.43.0


From 132502baa1b92b77faf8a1c766d38de576274d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 55/61] fix: reject mc_correct whose length differs from the
 number of items

---
 irtorch/models/base_irt_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 0a83368..bed5b65 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -35,6 +35,8 @@ class BaseIRTModel(ABC, nn.Module):
     ):
         super().__init__()
         if mc_correct is not None:
+            if len(mc_correct) != len(item_categories):
+                raise ValueError("mc_correct must contain one correct category for each item.")
             if not all(0 <= mc < item for item, mc in zip(item_categories, mc_correct)):
                 raise ValueError("mc_correct must be one of the categories (starting from 0) for each item.")
         self.latent_variables = latent_variables
-- 
2.43.0


From 6c9a776b30b4dc279155c76254a17fbf9557dd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:35 +0000
Subject: [PATCH 56/61] fix: reject a second_theta_range without two values for
 surfaces

---
 irtorch/plotter.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/irtorch/plotter.py b/irtorch/plotter.py
index 674d804..778219a 100644
--- a/irtorch/plotter.py
+++ b/irtorch/plotter.py
@@ -234,7 +234,7 @@ class Plotter:
             raise TypeError(f"The latent variables to plot need to be smaller than or equal to {model_dim} (the number of variabels in the model).")
         if theta_range is not None and len(theta_range) != 2:
             raise TypeError("theta_range needs to have a length of 2.")
-        if len(latent_variables) == 1 and second_theta_range is not None and len(second_theta_range) != 2:
+        if second_theta_range is not None and len(second_theta_range) != 2:
             raise TypeError("second_theta_range needs to have a length of 2 if specified.")
         if steps is None:
             steps = 100 if len(latent_variables) == 1 else 18
@@ -348,7 +348,7 @@ class Plotter:
             raise TypeError(f"The latent variables to plot need to be smaller than or equal to {model_dim} (the number of variabels in the model).")
         if theta_range is not None and len(theta_range) != 2:
             raise TypeError("theta_range needs to have a length of 2.")
-        if len(latent_variables) == 1 and second_theta_range is not None and len(second_theta_range) != 2:
+        if second_theta_range is not None and len(second_theta_range) != 2:
             raise TypeError("second_theta_range needs to have a length of 2 if specified.")
         if steps is None:
             steps = 100 if len(latent_variables) == 1 else 18
@@ -566,7 +566,7 @@ class Plotter:
             raise TypeError(f"The latent variables to plot need to be smaller than or equal to {model_dim} (the number of variabels in the model).")
         if theta_range is not None and len(theta_range) != 2:
             raise TypeError("theta_range needs to have a length of 2.")
-        if len(latent_variables) == 1 and second_theta_range is not None and len(second_theta_range) != 2:
+        if second_theta_range is not None and len(second_theta_range) != 2:
             raise TypeError("second_theta_range needs to have a length of 2 if specified.")
         if plot_group_fit and model_dim > 1:
             raise TypeError("Group fit plots are only supported for unidimensional models with one latent variable")
@@ -696,7 +696,7 @@ class Plotter:
             raise TypeError(f"The latent variables to plot need to be smaller than or equal to {model_dim} (the number of variabels in the model).")
         if theta_range is not None and len(theta_range) != 2:
             raise TypeError("theta_range needs to have a length of 2.")
-        if len(latent_variables) == 1 and second_theta_range is not None and len(second_theta_range) != 2:
+        if second_theta_range is not None and len(second_theta_range) != 2:
             raise TypeError("second_theta_range needs to have a length of 2 if specified.")
         if degrees is None and model_dim > 1:
             raise ValueError("Degrees must be provided for multidimensional models.")
@@ -811,7 +811,7 @@ class Plotter:
             raise TypeError(f"The latent variables to plot need to be smaller than or equal to {model_dim} (the number of variabels in the model).")
         if theta_range is not None and len(theta_range) != 2:
             raise TypeError("theta_range needs to have a length of 2.")
-        if len(latent_variables) == 1 and second_theta_range is not None and len(second_theta_range) != 2:
+        if second_theta_range is not None and len(second_theta_range) != 2:
             raise TypeError("second_theta_range needs to have a length of 2 if specified.")
         if steps is None:
             steps = 100 if len(latent_variables) == 1 else 18
-- 
2.43.0


From 240a5eae90df28053d67b77a560bf4824d10ee79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 57/61] fix: fit several models without sharing one algorithm
 between them

---
 irtorch/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irtorch/utils.py b/irtorch/utils.py
index 6f38e33..cc55d55 100644
--- a/irtorch/utils.py
+++ b/irtorch/utils.py
@@ -499,7 +499,8 @@ def fit_multiple_models_cpu(
         # Ensure each subprocess uses a single thread for PyTorch.
         torch.set_num_threads(1)
         with mp.Pool(cores_to_use) as pool:
-            trained_models = pool.starmap(_fit_model, [(model, train_data, kwargs) for model in models])
+            # One task per chunk: tasks sent together are pickled together and would share one algorithm instance.
+            trained_models = pool.starmap(_fit_model, [(model, train_data, kwargs) for model in models], chunksize=1)
     finally:
         torch.set_num_threads(original_threads)
 
-- 
2.43.0


From 656066aac31e607f1baa48c8b566904fc7e9bbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 58/61] fix: forget the approximated latent density when a
 model is loaded

---
 irtorch/models/base_irt_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index bed5b65..70a1a74 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -1013,3 +1013,6 @@ class BaseIRTModel(ABC, nn.Module):
             self.algorithm = checkpoint["algorithm"]
         if "scales" in checkpoint:
             self.scale = checkpoint["scales"]
+        if self._evaluate is not None:
+            # the latent density was approximated for the previous algorithm
+            self._evaluate.latent_density = None
-- 
2.43.0


From f438ed1eb188e1fdb836d897cc235e69a52733d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:06 +0000
Subject: [PATCH 59/61] fix: compute log-likelihoods from data that are not
 stored row by row

---
 irtorch/models/base_irt_model.py           | 4 ++--
 irtorch/models/graded_response.py          | 4 ++--
 irtorch/models/nested_logit.py             | 4 ++--
 irtorch/models/surprisal_spline.py         | 4 ++--
 irtorch/models/three_parameter_logistic.py | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/irtorch/models/base_irt_model.py b/irtorch/models/base_irt_model.py
index 70a1a74..757c830 100644
--- a/irtorch/models/base_irt_model.py
+++ b/irtorch/models/base_irt_model.py
@@ -256,11 +256,11 @@ class BaseIRTModel(ABC, nn.Module):
             The log likelihood.
         """
         data = data.long()
-        data = data.view(-1)
+        data = data.reshape(-1)
         reshaped_output = output.reshape(-1, self.max_item_responses)
         # Remove missing values from log likelihood calculation
         if missing_mask is not None:
-            missing_mask = missing_mask.view(-1)
+            missing_mask = missing_mask.reshape(-1)
             reshaped_output = reshaped_output[~missing_mask]
             respondents = data.size(0)
             data = data[~missing_mask]
diff --git a/irtorch/models/graded_response.py b/irtorch/models/graded_response.py
index d0f71cb..01461e3 100644
--- a/irtorch/models/graded_response.py
+++ b/irtorch/models/graded_response.py
@@ -191,11 +191,11 @@ class GradedResponse(BaseIRTModel):
             The log likelihood.
         """
         probabilities = self.probabilities_from_output(output)
-        data = data.long().view(-1)
+        data = data.long().reshape(-1)
         reshaped_probabilities = probabilities.reshape(-1, self.max_item_responses)
 
         if missing_mask is not None:
-            missing_mask = missing_mask.view(-1)
+            missing_mask = missing_mask.reshape(-1)
             reshaped_probabilities = reshaped_probabilities[~missing_mask]
             respondents = data.size(0)
             data = data[~missing_mask]
diff --git a/irtorch/models/nested_logit.py b/irtorch/models/nested_logit.py
index 66fd3bb..82817c1 100644
--- a/irtorch/models/nested_logit.py
+++ b/irtorch/models/nested_logit.py
@@ -304,11 +304,11 @@ class NestedLogit(BaseIRTModel):
         torch.Tensor
             The log likelihood.
         """
-        data = data.long().view(-1)
+        data = data.long().reshape(-1)
         reshaped_probabilities = output.reshape(-1, self.max_item_responses)
 
         if missing_mask is not None:
-            missing_mask = missing_mask.view(-1)
+            missing_mask = missing_mask.reshape(-1)
             reshaped_probabilities = reshaped_probabilities[~missing_mask]
             respondents = data.size(0)
             data = data[~missing_mask]
diff --git a/irtorch/models/surprisal_spline.py b/irtorch/models/surprisal_spline.py
index 78a1ffe..326d9e0 100644
--- a/irtorch/models/surprisal_spline.py
+++ b/irtorch/models/surprisal_spline.py
@@ -183,11 +183,11 @@ class SurprisalSpline(BaseIRTModel):
         torch.Tensor
             The log likelihood.
         """
-        data = data.long().view(-1)
+        data = data.long().reshape(-1)
         reshaped_probabilities = output.reshape(-1, self.max_item_responses)
 
         if missing_mask is not None:
-            missing_mask = missing_mask.view(-1)
+            missing_mask = missing_mask.reshape(-1)
             reshaped_probabilities = reshaped_probabilities[~missing_mask]
             respondents = data.size(0)
             data = data[~missing_mask]
diff --git a/irtorch/models/three_parameter_logistic.py b/irtorch/models/three_parameter_logistic.py
index a6c3fb6..2c588ba 100644
--- a/irtorch/models/three_parameter_logistic.py
+++ b/irtorch/models/three_parameter_logistic.py
@@ -159,11 +159,11 @@ class ThreeParameterLogistic(BaseIRTModel):
             The log likelihood.
         """
         probabilities = self.probabilities_from_output(output)
-        data = data.long().view(-1)
+        data = data.long().reshape(-1)
         reshaped_probabilities = probabilities.reshape(-1, 2)
 
         if missing_mask is not None:
-            missing_mask = missing_mask.view(-1)
+            missing_mask = missing_mask.reshape(-1)
             reshaped_probabilities = reshaped_probabilities[~missing_mask]
             respondents = data.size(0)
             data = data[~missing_mask]
-- 
2.43.0


From 3bb2f2809049f343cc187a11fc4a4532ceb90346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:26 +0000
Subject: [PATCH 60/61] fix: compute bit scores of thetas that are not stored
 row by row

---
 irtorch/rescale/bit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/rescale/bit.py b/irtorch/rescale/bit.py
index 5362719..55fb1b1 100644
--- a/irtorch/rescale/bit.py
+++ b/irtorch/rescale/bit.py
@@ -400,7 +400,7 @@ class Bit(Scale):
         grid[:, 0, :] = start_theta_adjusted.squeeze()
 
         # convert back to non-inverted theta scale and compute grid entropies
-        grid = grid.view(-1, grid.shape[2]) * invert_scale_multiplier
+        grid = grid.reshape(-1, grid.shape[2]) * invert_scale_multiplier
         output = self.model(grid)
         entropies = entropy(self.model.probabilities_from_output(output))[:, self.items]
 
@@ -409,7 +409,7 @@ class Bit(Scale):
         # and change positioning of each dimension in the end using permute
         entropies = (
             entropies.t()
-            .view(entropies.shape[1], int(entropies.shape[0] / grid_points), grid_points)
+            .reshape(entropies.shape[1], int(entropies.shape[0] / grid_points), grid_points)
             .permute(1, 0, 2)
         )
 
-- 
2.43.0


From c7d7ec6aaf8f7078d31600f3ff6cbc0f8ef8ed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:28 +0000
Subject: [PATCH 61/61] fix: keep surprisal spline gradients finite for large
 surprisals

---
 irtorch/models/surprisal_spline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/irtorch/models/surprisal_spline.py b/irtorch/models/surprisal_spline.py
index 326d9e0..0858cef 100644
--- a/irtorch/models/surprisal_spline.py
+++ b/irtorch/models/surprisal_spline.py
@@ -131,8 +131,8 @@ class SurprisalSpline(BaseIRTModel):
         surprisal = surp.sum(dim=0) # (batch, items, max(item_categories)-1)
 
         ones = torch.ones(*surprisal.shape[:-1], 1, device=theta.device)
-        a = torch.cat((ones, 1/surprisal.cumsum(dim=-1).exp()), dim=-1)
-        b = torch.cat((1-1/surprisal.exp(), ones), dim=-1)
+        a = torch.cat((ones, (-surprisal.cumsum(dim=-1)).exp()), dim=-1)
+        b = torch.cat((1-(-surprisal).exp(), ones), dim=-1)
         probabilities = a*b
         return torch.flip(probabilities, dims=[-1])
 
-- 
2.43.0

