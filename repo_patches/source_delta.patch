From 458c9609aa201c446a312f5742e4d9db8a991eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 01/27] fix: tag_missing_data lost the missing code in narrow
 storage types

---
 estimation/utilities/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/estimation/utilities/utils.py b/estimation/utilities/utils.py
index 595f800..772fe4e 100644
--- a/estimation/utilities/utils.py
+++ b/estimation/utilities/utils.py
@@ -24,7 +24,11 @@ def tag_missing_data(dataset, valid_responses):
                          invalid_fill
     """
     mask = np.isin(dataset, valid_responses)
-    output = dataset.copy()
+    # The storage type must be able to hold the placeholder
+    if dataset.dtype.kind in 'biu':
+        output = dataset.astype('int')
+    else:
+        output = dataset.astype(np.promote_types(dataset.dtype, 'float32'))
     output[~mask] = INVALID_RESPONSE
     
     return output
-- 
2.43.0


From eb6637111b131b0fcba481c8c0adaf8d38dd3084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 02/27] fix: ability_mle gave the wrong no_estimate sign next
 to missing answers

---
 estimation/unidimensional/dichotomous/ability_estimation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/estimation/unidimensional/dichotomous/ability_estimation.py b/estimation/unidimensional/dichotomous/ability_estimation.py
index 0d7bb89..a1bd5ad 100644
--- a/estimation/unidimensional/dichotomous/ability_estimation.py
+++ b/estimation/unidimensional/dichotomous/ability_estimation.py
@@ -37,7 +37,8 @@ def ability_mle(dataset, difficulty, discrimination, no_estimate=np.nan):
     bad_mask = dataset == INVALID_RESPONSE
 
     # Locations where endorsement isn't constant
-    mask = ~(np.ma.masked_array(dataset, bad_mask).var(axis=0) == 0)
+    valid_responses = np.ma.masked_array(dataset, bad_mask)
+    mask = (valid_responses.var(axis=0) != 0).filled(False)
 
     # Use only appropriate data
     valid_dataset = dataset[:, mask]
@@ -51,7 +52,7 @@ def ability_mle(dataset, difficulty, discrimination, no_estimate=np.nan):
     thetas[mask] = trimmed_theta
 
     # Convert all zeros to negative estimate
-    mask2 = ~mask & (dataset.min(axis=0) == 0)
+    mask2 = ~mask & (valid_responses.min(axis=0) == 0).filled(False)
     thetas[mask2] *= -1
 
     return thetas
-- 
2.43.0


From 7ba46e8410aef3b5e4f93f79da7659d2790e8dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 03/27] fix: ability_3pl_mle treated the missing code as an
 answer

---
 .../unidimensional/dichotomous/ability_threepl.py     | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/estimation/unidimensional/dichotomous/ability_threepl.py b/estimation/unidimensional/dichotomous/ability_threepl.py
index 9974f5a..ab8b762 100644
--- a/estimation/unidimensional/dichotomous/ability_threepl.py
+++ b/estimation/unidimensional/dichotomous/ability_threepl.py
@@ -5,7 +5,8 @@ from scipy.stats import norm as gaussian
 from scipy.optimize import fminbound
 
 from girth.utilities import (
-    convert_responses_to_kernel_sign, validate_estimation_options)
+    convert_responses_to_kernel_sign, validate_estimation_options,
+    INVALID_RESPONSE)
 from girth.utilities.utils import _get_quadrature_points
 from girth.unidimensional.dichotomous.partial_integrals import _compute_partial_integral_3pl
 
@@ -30,8 +31,12 @@ def ability_3pl_mle(dataset, difficulty, discrimination,
     Returns:
         abilities: (1d array) estimated abilities
     """
+    # Find any missing data
+    bad_mask = np.isnan(dataset) | (dataset == INVALID_RESPONSE)
+
     # Locations where endorsement isn't constant
-    mask = np.nanvar(dataset, axis=0) > 0
+    valid_responses = np.ma.masked_array(dataset, bad_mask)
+    mask = (valid_responses.var(axis=0) != 0).filled(False)
 
     # Use only appropriate data
     valid_dataset = dataset[:, mask]
@@ -46,7 +51,7 @@ def ability_3pl_mle(dataset, difficulty, discrimination,
     thetas[mask] = trimmed_theta
 
     # Convert all zeros to negative estimate
-    mask2 = ~mask & (dataset.min(axis=0) == 0)
+    mask2 = ~mask & (valid_responses.min(axis=0) == 0).filled(False)
     thetas[mask2] *= -1
 
     return thetas
-- 
2.43.0


From 26da536ce0525761021badd47c0cefb05b5ec38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 04/27] fix: create_beta_LUT placed shares of zero and one at
 the opposite ends

---
 estimation/utilities/look_up_table.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/estimation/utilities/look_up_table.py b/estimation/utilities/look_up_table.py
index 98ccd2b..4668dd0 100644
--- a/estimation/utilities/look_up_table.py
+++ b/estimation/utilities/look_up_table.py
@@ -69,7 +69,11 @@ def create_beta_LUT(alpha, beta, options=None):
         tmpL = int(tmp)
         tmpH = int(tmp + 1)
         dx = tmp - tmpL
-        return ((1 - dx) * func_list[tmpL](p_value) + 
-                dx * func_list[tmpH](p_value))        
+        beta_value = ((1 - dx) * func_list[tmpL](p_value) + 
+                      dx * func_list[tmpH](p_value))
+
+        # No difficulty is extreme enough if nobody or everybody endorses
+        beta_value = np.where(np.less_equal(p_value, 0), beta[-1], beta_value)
+        return np.where(np.greater_equal(p_value, 1), beta[0], beta_value)
     
     return interpolate_function
\ No newline at end of file
-- 
2.43.0


From d44182b4af7743ebd5c06988988d371341ef6fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 05/27] fix: unendorsed items after the first were fitted as
 endorsed by everybody

---
 estimation/multidimensional/multidimensional_mml_methods.py | 3 ++-
 estimation/unidimensional/polytomous/grm_mml.py             | 3 ++-
 estimation/unidimensional/polytomous/grm_mml_eap.py         | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/estimation/multidimensional/multidimensional_mml_methods.py b/estimation/multidimensional/multidimensional_mml_methods.py
index ee33b72..ac43ba1 100644
--- a/estimation/multidimensional/multidimensional_mml_methods.py
+++ b/estimation/multidimensional/multidimensional_mml_methods.py
@@ -114,7 +114,8 @@ def multidimensional_grm_mml(dataset, n_factors, options=None):
     # Compute the values needed for integral equations
     integral_counts = list()
     for ndx in range(n_items):
-        temp_output = _solve_for_constants(responses[ndx, valid_response_mask[ndx]])
+        temp_output = _solve_for_constants(responses[ndx, valid_response_mask[ndx]]
+                                           - start_indices[ndx])
         integral_counts.append(temp_output)
 
     if options['initial_guess']:
diff --git a/estimation/unidimensional/polytomous/grm_mml.py b/estimation/unidimensional/polytomous/grm_mml.py
index 5a80f3e..02a9037 100644
--- a/estimation/unidimensional/polytomous/grm_mml.py
+++ b/estimation/unidimensional/polytomous/grm_mml.py
@@ -79,7 +79,8 @@ def grm_mml(dataset, options=None):
     # Compute the values needed for integral equations
     integral_counts = list()
     for ndx in range(n_items):
-        temp_output = _solve_for_constants(responses[ndx, valid_response_mask[ndx]])
+        temp_output = _solve_for_constants(responses[ndx, valid_response_mask[ndx]]
+                                           - start_indices[ndx])
         integral_counts.append(temp_output)
 
     # Set invalid index to zero, this allows minimal
diff --git a/estimation/unidimensional/polytomous/grm_mml_eap.py b/estimation/unidimensional/polytomous/grm_mml_eap.py
index a3222d9..2aaa788 100644
--- a/estimation/unidimensional/polytomous/grm_mml_eap.py
+++ b/estimation/unidimensional/polytomous/grm_mml_eap.py
@@ -75,7 +75,8 @@ def grm_mml_eap(dataset, options=None):
     # Compute the values needed for integral equations
     integral_counts = list()
     for ndx in range(n_items):
-        temp_output = _solve_for_constants(responses[ndx, valid_response_mask[ndx]])
+        temp_output = _solve_for_constants(responses[ndx, valid_response_mask[ndx]]
+                                           - start_indices[ndx])
         integral_counts.append(temp_output)
     
     # Set invalid index to zero, this allows minimal
-- 
2.43.0


From 846a4f6bd86e40972f54cbff8d168977b6dbd9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 06/27] fix: contingency_table counted other pairs of answers
 with the same linear index

---
 common/polychoric.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/common/polychoric.py b/common/polychoric.py
index 7c45253..a0a94f3 100644
--- a/common/polychoric.py
+++ b/common/polychoric.py
@@ -44,11 +44,10 @@ def contingency_table(vals1, vals2, start_val=1, stop_val=5):
     n_vals = stop_val - start_val + 1
     cont_table = np.zeros((n_vals, n_vals))
 
-    linear_ndx = vals1 * (stop_val+1) + vals2
     for ndx1, ndx2 in product(range(start_val, n_vals+start_val), 
                               range(start_val, n_vals+start_val)):
-        cont_table[ndx1-start_val, ndx2-start_val] = np.count_nonzero(ndx1*(stop_val+1)+ndx2
-                                                                      == linear_ndx)
+        cont_table[ndx1-start_val, ndx2-start_val] = np.count_nonzero((vals1 == ndx1) &
+                                                                      (vals2 == ndx2))
     return cont_table
 
 
-- 
2.43.0


From cdd523a781267cbc4cc65bee31f4d1ae1fbecffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 07/27] fix: condition_polytomous_response overflowed compact
 types and refused booleans

---
 estimation/utilities/polytomous_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/estimation/utilities/polytomous_utils.py b/estimation/utilities/polytomous_utils.py
index 8c79791..506d8f6 100644
--- a/estimation/utilities/polytomous_utils.py
+++ b/estimation/utilities/polytomous_utils.py
@@ -26,6 +26,10 @@ def condition_polytomous_response(dataset, trim_ends=True, _reference=1.0):
         valid_response_mask: (2d_array) boolean mask of valid responses
                              that is the same size as dataset
     """
+    # Linear indices can exceed the range of compact storage types
+    if dataset.dtype.kind in 'biu':
+        dataset = dataset.astype('int')
+
     # Remove all no / yes endorsements
     valid_response_mask = dataset != INVALID_RESPONSE
     min_value = np.min(dataset[valid_response_mask])
-- 
2.43.0


From 594b8e4cfc54b41fc6bda5d24e15455c59ac42ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 08/27] fix: rasch_mml, onepl_mml and ability_eap failed on
 True/False data

---
 estimation/unidimensional/dichotomous/partial_integrals.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/estimation/unidimensional/dichotomous/partial_integrals.py b/estimation/unidimensional/dichotomous/partial_integrals.py
index f0edd0a..d30c919 100644
--- a/estimation/unidimensional/dichotomous/partial_integrals.py
+++ b/estimation/unidimensional/dichotomous/partial_integrals.py
@@ -22,6 +22,10 @@ def _compute_partial_integral(theta, difficulty, discrimination,
     probability = expit(np.outer([-1, 1], 
                         discrimination * (theta - difficulty)))
     
+    # Booleans would select instead of index
+    if responses.dtype == bool:
+        responses = responses.astype('int')
+
     # Mask out missing responses
     temp_output = probability[responses, :]
     temp_output[invalid_response_mask] = 1
-- 
2.43.0


From 6a63c66930301eb98c824b13180ab8af6d2f3ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 09/27] fix: trim_response_set_and_counts kept patterns without
 any valid answer

---
 estimation/utilities/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/estimation/utilities/utils.py b/estimation/utilities/utils.py
index 772fe4e..909a972 100644
--- a/estimation/utilities/utils.py
+++ b/estimation/utilities/utils.py
@@ -123,7 +123,9 @@ def trim_response_set_and_counts(response_sets, counts):
     bad_mask = response_sets == INVALID_RESPONSE
 
     # Remove response sets where output is all true/false
-    mask = ~(np.ma.masked_array(response_sets, bad_mask).var(axis=0) == 0)
+    # or where there are no valid responses at all
+    variance = np.ma.masked_array(response_sets, bad_mask).var(axis=0)
+    mask = (variance != 0).filled(False)
     response_sets = response_sets[:, mask]
     counts = counts[mask]
 
-- 
2.43.0


From a7a74e9247efad70b209dc5288b308ef5526dde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 10/27] fix: condition_polytomous_response kept respondents
 without any valid answer

---
 estimation/utilities/polytomous_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/estimation/utilities/polytomous_utils.py b/estimation/utilities/polytomous_utils.py
index 506d8f6..1eb09c4 100644
--- a/estimation/utilities/polytomous_utils.py
+++ b/estimation/utilities/polytomous_utils.py
@@ -39,10 +39,11 @@ def condition_polytomous_response(dataset, trim_ends=True, _reference=1.0):
     if trim_ends:
         raw_score_sums = np.sum(dataset, where=valid_response_mask, axis=0)
         valid_score_sums = np.count_nonzero(valid_response_mask, axis=0)
-        ratio_score_sums = raw_score_sums / valid_score_sums
+        ratio_score_sums = raw_score_sums / np.maximum(valid_score_sums, 1)
 
         mask = ((ratio_score_sums == min_value) | 
-                (ratio_score_sums == max_value))
+                (ratio_score_sums == max_value) |
+                (valid_score_sums == 0))
         dataset = dataset[:, ~mask]
         valid_response_mask = dataset != INVALID_RESPONSE
     
-- 
2.43.0


From 3244b0f066d3e29f017bd4fc1fb2852ff8da8d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 11/27] fix: create_synthetic_irt_dichotomous truncated
 parameters next to integer difficulties

---
 synthetic/dichotomous.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/synthetic/dichotomous.py b/synthetic/dichotomous.py
index fa2e79f..2c7c016 100644
--- a/synthetic/dichotomous.py
+++ b/synthetic/dichotomous.py
@@ -32,18 +32,18 @@ def create_synthetic_irt_dichotomous(difficulty, discrimination, thetas,
     rng = np.random.default_rng(seed)
 
     if np.size(discrimination) == 1:
-        discrimination = np.full_like(difficulty, discrimination)
+        discrimination = np.full_like(difficulty, discrimination, dtype='float')
 
     if np.size(guessing) == 1:
-        guessing = np.full_like(difficulty, guessing)
+        guessing = np.full_like(difficulty, guessing, dtype='float')
 
     if np.ndim(discrimination) == 1:
         kernel = thetas[None, :] - difficulty[:, None]
-        kernel *= discrimination[:, None]
+        kernel = kernel * discrimination[:, None]
 
     elif np.ndim(discrimination) == 2:
         kernel = discrimination @ thetas
-        kernel += difficulty[:, None]
+        kernel = kernel + difficulty[:, None]
     
     else:
         raise AssertionError("Discrimination dimensions are not 1 or 2, "
-- 
2.43.0


From 73d15f94424ee6c908b8245e56464e6e66ae24e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 12/27] fix: polychoric_correlation failed on a single item

---
 common/polychoric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/polychoric.py b/common/polychoric.py
index a0a94f3..9cdbf4d 100644
--- a/common/polychoric.py
+++ b/common/polychoric.py
@@ -149,7 +149,7 @@ def polychoric_correlation(ordinal_data, start_val=1, stop_val=5, num_processors
         return polychoric_correlation_serial(ordinal_data, start_val, stop_val)
     
     indices = np.tril_indices(ordinal_data.shape[0], -1)
-    chunk_indices = np.array_split(list(zip(*indices)), num_processors)
+    chunk_indices = np.array_split(np.transpose(indices), num_processors)
 
     # Do the parallel calculation
     with SharedMemoryManager() as smm:
-- 
2.43.0


From a9a1235a574fe1a28bf817f28ad372a40d150ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 13/27] fix: bootstrap limits were not a number where the
 standard error is known

---
 estimation/utilities/bootstrap_errors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/estimation/utilities/bootstrap_errors.py b/estimation/utilities/bootstrap_errors.py
index dc6d511..ecf510a 100644
--- a/estimation/utilities/bootstrap_errors.py
+++ b/estimation/utilities/bootstrap_errors.py
@@ -98,10 +98,10 @@ Returns:
     difficulty_bootstrap = np.vstack(difficulty_list)
     
     # Percentiles
-    discrimination_ci = [np.percentile(discrimination_bootstrap, 2.5, axis=0), 
-                         np.percentile(discrimination_bootstrap, 97.5, axis=0)]
-    difficulty_ci = [np.percentile(difficulty_bootstrap, 2.5, axis=0).reshape(difficulty_shape), 
-                     np.percentile(difficulty_bootstrap, 97.5, axis=0).reshape(difficulty_shape)]
+    discrimination_ci = [np.nanpercentile(discrimination_bootstrap, 2.5, axis=0), 
+                         np.nanpercentile(discrimination_bootstrap, 97.5, axis=0)]
+    difficulty_ci = [np.nanpercentile(difficulty_bootstrap, 2.5, axis=0).reshape(difficulty_shape), 
+                     np.nanpercentile(difficulty_bootstrap, 97.5, axis=0).reshape(difficulty_shape)]
     
     # Standard Errors
     discrimination_se = np.nanstd(discrimination_bootstrap, axis=0, ddof=1)
-- 
2.43.0


From 05bd26971c78b7f28a7dc66c820e1ca6da18ec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 14/27] fix: entropy failed on integer loadings

---
 common/entropy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/entropy.py b/common/entropy.py
index b9cad89..66604dd 100644
--- a/common/entropy.py
+++ b/common/entropy.py
@@ -18,7 +18,7 @@ def entropy(the_array, axis=1):
     power = the_array * the_array
     sum_power = power.sum(axis=axis)
     if axis:
-        power /= sum_power.reshape(-1, 1)
+        power = power / sum_power.reshape(-1, 1)
     else:
-        power /= sum_power
+        power = power / sum_power
     return -(power * np.log(power + 1e-23)).sum()
\ No newline at end of file
-- 
2.43.0


From e970685e77ce2c1f5089df8c975a46aeb1d73311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:31 +0000
Subject: [PATCH 15/27] fix: ability_3pl_eap returned a scalar for a single
 respondent

---
 estimation/unidimensional/dichotomous/partial_integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/unidimensional/dichotomous/partial_integrals.py b/estimation/unidimensional/dichotomous/partial_integrals.py
index d30c919..d6624ec 100644
--- a/estimation/unidimensional/dichotomous/partial_integrals.py
+++ b/estimation/unidimensional/dichotomous/partial_integrals.py
@@ -64,4 +64,4 @@ def _compute_partial_integral_3pl(theta, difficulty, discrimination, guessing, t
     otpt = (1.0 / (1.0 + np.exp(kernel))) * (1 - guessing[:, None, None])
     otpt += 0.5 * (1 - the_sign[:, :, None]) * guessing[:, None, None]
 
-    return otpt.prod(axis=0).squeeze()
+    return otpt.prod(axis=0)
-- 
2.43.0


From c4d66e6d1abae6c22b7808ec9a5741be06fd1f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:04 +0000
Subject: [PATCH 16/27] fix: create_beta_LUT failed at the upper end of its
 discrimination range

---
 estimation/utilities/look_up_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/utilities/look_up_table.py b/estimation/utilities/look_up_table.py
index 4668dd0..6ec3c65 100644
--- a/estimation/utilities/look_up_table.py
+++ b/estimation/utilities/look_up_table.py
@@ -67,7 +67,7 @@ def create_beta_LUT(alpha, beta, options=None):
     def interpolate_function(alpha_value, p_value):
         tmp = interp_a(alpha_value)
         tmpL = int(tmp)
-        tmpH = int(tmp + 1)
+        tmpH = min(int(tmp + 1), len(func_list) - 1)
         dx = tmp - tmpL
         beta_value = ((1 - dx) * func_list[tmpL](p_value) + 
                       dx * func_list[tmpH](p_value))
-- 
2.43.0


From 76b30a48abb4dbc34201cacbda06b8984c533123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 17/27] fix: initial_guess_md failed on boolean and unsigned
 tables

---
 estimation/multidimensional/multidimensional_initial_guess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/multidimensional/multidimensional_initial_guess.py b/estimation/multidimensional/multidimensional_initial_guess.py
index 5852f51..96f8ca7 100644
--- a/estimation/multidimensional/multidimensional_initial_guess.py
+++ b/estimation/multidimensional/multidimensional_initial_guess.py
@@ -52,7 +52,7 @@ def initial_guess_md(dataset, n_factors, options=None):
     valid_mask = dataset != INVALID_RESPONSE
 
     unique_values = np.unique(dataset[valid_mask])
-    start_value, stop_value = unique_values[0], unique_values[-1]
+    start_value, stop_value = int(unique_values[0]), int(unique_values[-1])
 
     correlation = polychoric_correlation(dataset, start_value,
                                          stop_value, options['num_processors'])
-- 
2.43.0


From 630da5cdad3b1c79697f53773249ae457b16cffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:44 +0000
Subject: [PATCH 18/27] fix: cronbach_alpha was not a number next to a
 respondent without any valid answer

---
 common/cronbach_alpha.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/cronbach_alpha.py b/common/cronbach_alpha.py
index c2e0975..516868f 100644
--- a/common/cronbach_alpha.py
+++ b/common/cronbach_alpha.py
@@ -23,6 +23,10 @@ def cronbach_alpha(data):
 
     valid_mask = data != INVALID_RESPONSE
     
+    # respondents without a single valid answer have no score
+    answered = valid_mask.any(axis=0)
+    data, valid_mask = data[:, answered], valid_mask[:, answered]
+
     item_variance = np.var(data, axis=1, ddof=1, where=valid_mask).sum()
     people_variance = (n_items * n_items
                        * np.mean(data, axis=0, where=valid_mask).var(ddof=1))
-- 
2.43.0


From 923c0301c789d25d93e6935d01e4cdeb0164acf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:44 +0000
Subject: [PATCH 19/27] fix: classical_test_statistics correlated items with
 scores of respondents who had none

---
 estimation/utilities/ctt_statistics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/estimation/utilities/ctt_statistics.py b/estimation/utilities/ctt_statistics.py
index 5445cc7..e0059d2 100644
--- a/estimation/utilities/ctt_statistics.py
+++ b/estimation/utilities/ctt_statistics.py
@@ -49,7 +49,8 @@ def classical_test_statistics(dataset, start_value=1, stop_value=5):
         total_sub_score = dataset_subset.mean(axis=0, 
                                               where=valid_mask_subset)
         
-        valid_item_mask = valid_mask[item_ndx]
+        # only respondents with another valid answer have a score to correlate with
+        valid_item_mask = valid_mask[item_ndx] & valid_mask_subset.any(axis=0)
         
         total_sub_score_valid = total_sub_score[valid_item_mask]
         dataset_valid = dataset[item_ndx][valid_item_mask]
-- 
2.43.0


From a3c19f4d89d6d95c9a31d16961747048e530f800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:45 +0000
Subject: [PATCH 20/27] fix: classical_test_statistics failed on an item
 everybody answers alike

---
 common/polyserial.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/common/polyserial.py b/common/polyserial.py
index f7ab4cf..660fd89 100644
--- a/common/polyserial.py
+++ b/common/polyserial.py
@@ -24,7 +24,11 @@ def polyserial_correlation(continuous, ordinal):
     """
     # Get the number of ordinal values
     values, counts = np.unique(ordinal, return_counts=True)
-    
+
+    # Undefined without variation, the same as numpy.corrcoef
+    if values.size < 2:
+        return np.nan
+
     # Compute the thresholds (tau's)
     thresholds = norm.isf(1 - counts.cumsum() / counts.sum())[:-1]
     
-- 
2.43.0


From f172e0d46234b77fa753046b9a2a5e7a2ab00aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:09 +0000
Subject: [PATCH 21/27] fix: create_synthetic_irt_polytomous accepted unfolding
 thresholds that are not symmetric

---
 synthetic/polytomous.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/synthetic/polytomous.py b/synthetic/polytomous.py
index c496cb2..9e71847 100644
--- a/synthetic/polytomous.py
+++ b/synthetic/polytomous.py
@@ -115,7 +115,8 @@ def _check_difficulty_parameters(difficulty, model):
         adjusted_difficulty = (difficulty -
                                difficulty[:, middle_index][:, None])
 
-        if not np.all(np.abs(adjusted_difficulty.sum(axis=1)) < 1e-7):
+        if not np.all(np.abs(adjusted_difficulty
+                             + adjusted_difficulty[:, ::-1]) < 1e-7):
             raise AssertionError("Difficulty Parameters must be "
                                  "symmetric about offset")
 
-- 
2.43.0


From 94cfaa805781c09e5472836e169f7da46c0bba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 22/27] fix: principal_components_analysis returned loadings
 that are not a number for singular matrices

---
 factoranalysis/pca.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/factoranalysis/pca.py b/factoranalysis/pca.py
index 6d575ef..737b6e6 100644
--- a/factoranalysis/pca.py
+++ b/factoranalysis/pca.py
@@ -25,7 +25,8 @@ def principal_components_analysis(input_matrix, n_factors=None):
     eigenvalues = eigenvalues[-n_factors:][::-1]
     loadings = loadings[:, -n_factors:][:, ::-1]
 
-    # Scale Loadings
-    loadings *= np.sqrt(eigenvalues).reshape(1, -1)
+    # Scale Loadings, rounding can leave zero eigenvalues slightly negative
+    is_zero = np.abs(eigenvalues) < 1e-12 * np.abs(eigenvalues).max()
+    loadings *= np.sqrt(np.where(is_zero, 0.0, eigenvalues)).reshape(1, -1)
 
     return loadings, eigenvalues, np.zeros((input_matrix.shape[0]))
\ No newline at end of file
-- 
2.43.0


From 417f040f01815c748969f8c2f9b8447e76d9bf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 23/27] fix: maximum_likelihood_factor_analysis truncated its
 estimates next to an integer initial guess

---
 factoranalysis/maximum_likelihood.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factoranalysis/maximum_likelihood.py b/factoranalysis/maximum_likelihood.py
index b69415f..f22342e 100644
--- a/factoranalysis/maximum_likelihood.py
+++ b/factoranalysis/maximum_likelihood.py
@@ -36,7 +36,7 @@ def maximum_likelihood_factor_analysis(input_matrix, n_factors, tolerance=1e-7,
     if initial_guess is None:
         uvars = np.diag(input_matrix - loads @ loads.T).copy()
     else:
-        uvars = initial_guess.copy()
+        uvars = np.array(initial_guess, dtype=float)
     
     identity_items = np.eye(n_items)
 
-- 
2.43.0


From d7e51cb4ea9c4e5cc3cab571a1de0189d979c511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 24/27] fix: sparsify_loadings failed on a single factor

---
 factoranalysis/rotation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/factoranalysis/rotation.py b/factoranalysis/rotation.py
index 5534fdc..ade3638 100644
--- a/factoranalysis/rotation.py
+++ b/factoranalysis/rotation.py
@@ -29,6 +29,10 @@ def sparsify_loadings(loadings, initial_guess=None, alpha=0.5,
         bases: Bases vectors defining the new coordiante system in row space
     """
     n_factors = loadings.shape[1]
+    if n_factors == 1:
+        # A single factor has no angles to search over
+        return loadings.copy(), np.ones((1, 1))
+
     if initial_guess is None:
         rng = np.random.default_rng(seed)
         initial_guess = rng.uniform(0, 2 * np.pi, n_factors * (n_factors - 1))
-- 
2.43.0


From 756211c44de535b76a8b687efe6f472539e48e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:06 +0000
Subject: [PATCH 25/27] fix: principal_axis_factor could end far outside of the
 admissible unique variances

---
 factoranalysis/paf.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/factoranalysis/paf.py b/factoranalysis/paf.py
index 2cce806..615ab4f 100644
--- a/factoranalysis/paf.py
+++ b/factoranalysis/paf.py
@@ -35,8 +35,18 @@ def principal_axis_factor(input_matrix, n_factors, initial_guess=None,
         initial_guess = np.zeros((input_matrix.shape[0]))
 
     args = (input_matrix, n_factors)
-    unique_variance = fixed_point(_paf_fixed_point_iterate, initial_guess,
-                                  args=args, xtol=tolerance, maxiter=max_iterations)
+    kwargs = {'args': args, 'xtol': tolerance, 'maxiter': max_iterations}
+    try:
+        unique_variance = fixed_point(_paf_fixed_point_iterate, initial_guess, **kwargs)
+        is_valid = np.all((unique_variance >= 0) &
+                          (unique_variance <= np.diag(input_matrix)))
+    except RuntimeError:
+        is_valid = False
+
+    # The accelerated steps can leave the admissible region for good
+    if not is_valid:
+        unique_variance = fixed_point(_paf_fixed_point_iterate, initial_guess,
+                                      method='iteration', **kwargs)
 
     loadings, eigenvalues, _ = pca(input_matrix - np.diag(unique_variance), 
                                    n_factors)
-- 
2.43.0


From e6d5334f0fe6c7795fabf280cf90dedf0045b520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:46 +0000
Subject: [PATCH 26/27] fix: polyserial correlation with answers in the far
 upper tail

1 - cdf vanishes beyond eight standard deviations: one respondent with the
highest answer and a very low value kept the search away from strong
correlations, and reversing the values did not just turn the sign.
---
 common/polyserial.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/common/polyserial.py b/common/polyserial.py
index 660fd89..ead7e6f 100644
--- a/common/polyserial.py
+++ b/common/polyserial.py
@@ -46,19 +46,23 @@ def polyserial_correlation(continuous, ordinal):
             
             if ndx == 0:
                 numerator = thresholds[ndx] - k[mask]
-                probabilty = norm.cdf(numerator / denominator)
+                log_probability = norm.logcdf(numerator / denominator)
                 
             elif ndx == (values.size -1):
                 numerator = thresholds[ndx-1] - k[mask]
-                probabilty = (1 - norm.cdf(numerator / denominator))
+                log_probability = norm.logsf(numerator / denominator)
                 
             else:
-                numerator1 = thresholds[ndx] - k[mask]
-                numerator2 = thresholds[ndx-1] - k[mask]
-                probabilty = (norm.cdf(numerator1 / denominator)
-                              - norm.cdf(numerator2 / denominator))
+                upper = (thresholds[ndx] - k[mask]) / denominator
+                lower = (thresholds[ndx-1] - k[mask]) / denominator
+
+                # The difference loses all precision in the upper tail
+                in_upper_tail = lower > 0
+                upper, lower = (np.where(in_upper_tail, -lower, upper),
+                                np.where(in_upper_tail, -upper, lower))
+                log_probability = np.log(norm.cdf(upper) - norm.cdf(lower))
         
-            log_likelihood -= np.log(probabilty).sum()
+            log_likelihood -= log_probability.sum()
         
         return log_likelihood
         
-- 
2.43.0


From 174e49d05708ce1cf2fc3064a9eb3db7d5b16dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:29 +0000
Subject: [PATCH 27/27] fix: graded probabilities vanished next to one

The difference of two values that round to one is zero, and zero divided by
zero while estimating: an easy item with a steep slope (or wide quadrature
bounds) made every discrimination of twopl_mml / grm_mml end at the first
point of the search, while the reversed data were estimated well.
---
 estimation/multidimensional/partial_integral_md.py        | 8 ++++++--
 .../unidimensional/polytomous/partial_integrals_poly.py   | 7 +++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/estimation/multidimensional/partial_integral_md.py b/estimation/multidimensional/partial_integral_md.py
index 4c6f4c1..d402475 100644
--- a/estimation/multidimensional/partial_integral_md.py
+++ b/estimation/multidimensional/partial_integral_md.py
@@ -1,3 +1,4 @@
+import numpy as np
 from scipy.special import expit
 
 
@@ -7,8 +8,11 @@ def _graded_partial_integral_md(theta, betas, betas_roll,
     """Computes the partial integral for the multidimensional graded response."""
     temp1 = discrimination @ theta + betas[:, None]
     temp2 = discrimination @ theta + betas_roll[:, None]
-    graded_prob = expit(temp1) 
-    graded_prob -= expit(temp2)
+
+    # The difference vanishes where both values are next to one
+    in_upper_tail = temp2 > 20
+    graded_prob = expit(np.where(in_upper_tail, -temp2, temp1))
+    graded_prob -= expit(np.where(in_upper_tail, -temp1, temp2))
 
     # Set all the responses and fix afterward
     temp_output = graded_prob[response_set, :]
diff --git a/estimation/unidimensional/polytomous/partial_integrals_poly.py b/estimation/unidimensional/polytomous/partial_integrals_poly.py
index d9089cf..d3da8c9 100644
--- a/estimation/unidimensional/polytomous/partial_integrals_poly.py
+++ b/estimation/unidimensional/polytomous/partial_integrals_poly.py
@@ -8,8 +8,11 @@ def _graded_partial_integral(theta, betas, betas_roll,
     """Computes the partial integral for the graded response."""
     temp1 = (theta - betas[:, None]) * discrimination[:, None]
     temp2 = (theta - betas_roll[:, None]) * discrimination[:, None]
-    graded_prob = expit(temp1) 
-    graded_prob -= expit(temp2)
+
+    # The difference vanishes where both values are next to one
+    in_upper_tail = temp2 > 20
+    graded_prob = expit(np.where(in_upper_tail, -temp2, temp1))
+    graded_prob -= expit(np.where(in_upper_tail, -temp1, temp2))
 
     # Set all the responses and fix afterward
     temp_output = graded_prob[response_set, :]
-- 
2.43.0

