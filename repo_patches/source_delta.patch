From 8d320984138d596a457744e2f066f12af0eb7379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:31 +0000
Subject: [PATCH 1/7] fix: scalar discrimination/guessing truncated for integer
 difficulty

---
 synthetic/dichotomous.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/synthetic/dichotomous.py b/synthetic/dichotomous.py
index fa2e79f..d38d29b 100644
--- a/synthetic/dichotomous.py
+++ b/synthetic/dichotomous.py
@@ -32,10 +32,11 @@ def create_synthetic_irt_dichotomous(difficulty, discrimination, thetas,
     rng = np.random.default_rng(seed)
 
     if np.size(discrimination) == 1:
-        discrimination = np.full_like(difficulty, discrimination)
+        discrimination = np.full(np.shape(difficulty), discrimination,
+                                 dtype='float')
 
     if np.size(guessing) == 1:
-        guessing = np.full_like(difficulty, guessing)
+        guessing = np.full(np.shape(difficulty), guessing, dtype='float')
 
     if np.ndim(discrimination) == 1:
         kernel = thetas[None, :] - difficulty[:, None]
-- 
2.43.0


From c28220f590f79d36af380087bffcd996c9a3b9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:31 +0000
Subject: [PATCH 2/7] fix: look up table index error at the largest
 discrimination

---
 estimation/utilities/look_up_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/utilities/look_up_table.py b/estimation/utilities/look_up_table.py
index 98ccd2b..c1df7c1 100644
--- a/estimation/utilities/look_up_table.py
+++ b/estimation/utilities/look_up_table.py
@@ -67,7 +67,7 @@ def create_beta_LUT(alpha, beta, options=None):
     def interpolate_function(alpha_value, p_value):
         tmp = interp_a(alpha_value)
         tmpL = int(tmp)
-        tmpH = int(tmp + 1)
+        tmpH = min(tmpL + 1, len(func_list) - 1)
         dx = tmp - tmpL
         return ((1 - dx) * func_list[tmpL](p_value) + 
                 dx * func_list[tmpH](p_value))        
-- 
2.43.0


From defec451662ce5b4917dcfc0ad3624ecf58f95f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:31 +0000
Subject: [PATCH 3/7] fix: contingency table counted colliding value pairs in
 the wrong cell

---
 common/polychoric.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/common/polychoric.py b/common/polychoric.py
index 7c45253..a0a94f3 100644
--- a/common/polychoric.py
+++ b/common/polychoric.py
@@ -44,11 +44,10 @@ def contingency_table(vals1, vals2, start_val=1, stop_val=5):
     n_vals = stop_val - start_val + 1
     cont_table = np.zeros((n_vals, n_vals))
 
-    linear_ndx = vals1 * (stop_val+1) + vals2
     for ndx1, ndx2 in product(range(start_val, n_vals+start_val), 
                               range(start_val, n_vals+start_val)):
-        cont_table[ndx1-start_val, ndx2-start_val] = np.count_nonzero(ndx1*(stop_val+1)+ndx2
-                                                                      == linear_ndx)
+        cont_table[ndx1-start_val, ndx2-start_val] = np.count_nonzero((vals1 == ndx1) &
+                                                                      (vals2 == ndx2))
     return cont_table
 
 
-- 
2.43.0


From cf366e5ce6e661258c59d63e46fbcf9c796ba6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:05 +0000
Subject: [PATCH 4/7] fix: ability_mle sign and no-estimate handling with
 missing responses

---
 estimation/unidimensional/dichotomous/ability_estimation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/estimation/unidimensional/dichotomous/ability_estimation.py b/estimation/unidimensional/dichotomous/ability_estimation.py
index 0d7bb89..5a39655 100644
--- a/estimation/unidimensional/dichotomous/ability_estimation.py
+++ b/estimation/unidimensional/dichotomous/ability_estimation.py
@@ -37,7 +37,8 @@ def ability_mle(dataset, difficulty, discrimination, no_estimate=np.nan):
     bad_mask = dataset == INVALID_RESPONSE
 
     # Locations where endorsement isn't constant
-    mask = ~(np.ma.masked_array(dataset, bad_mask).var(axis=0) == 0)
+    masked_dataset = np.ma.masked_array(dataset, bad_mask)
+    mask = ~(masked_dataset.var(axis=0) == 0).filled(True)
 
     # Use only appropriate data
     valid_dataset = dataset[:, mask]
@@ -51,7 +52,7 @@ def ability_mle(dataset, difficulty, discrimination, no_estimate=np.nan):
     thetas[mask] = trimmed_theta
 
     # Convert all zeros to negative estimate
-    mask2 = ~mask & (dataset.min(axis=0) == 0)
+    mask2 = ~mask & (masked_dataset.min(axis=0) == 0).filled(False)
     thetas[mask2] *= -1
 
     return thetas
-- 
2.43.0


From efdcf2672cc610aec8d5930140255ff501ec795a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:38 +0000
Subject: [PATCH 5/7] fix: ability_3pl_mle ignored missing responses when
 deciding which persons can be estimated

---
 .../unidimensional/dichotomous/ability_threepl.py     | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/estimation/unidimensional/dichotomous/ability_threepl.py b/estimation/unidimensional/dichotomous/ability_threepl.py
index 9974f5a..bb7e09f 100644
--- a/estimation/unidimensional/dichotomous/ability_threepl.py
+++ b/estimation/unidimensional/dichotomous/ability_threepl.py
@@ -5,7 +5,8 @@ from scipy.stats import norm as gaussian
 from scipy.optimize import fminbound
 
 from girth.utilities import (
-    convert_responses_to_kernel_sign, validate_estimation_options)
+    convert_responses_to_kernel_sign, validate_estimation_options,
+    INVALID_RESPONSE)
 from girth.utilities.utils import _get_quadrature_points
 from girth.unidimensional.dichotomous.partial_integrals import _compute_partial_integral_3pl
 
@@ -30,8 +31,12 @@ def ability_3pl_mle(dataset, difficulty, discrimination,
     Returns:
         abilities: (1d array) estimated abilities
     """
+    # Find any missing data
+    bad_mask = (dataset == INVALID_RESPONSE) | np.isnan(dataset)
+
     # Locations where endorsement isn't constant
-    mask = np.nanvar(dataset, axis=0) > 0
+    masked_dataset = np.ma.masked_array(dataset, bad_mask)
+    mask = ~(masked_dataset.var(axis=0) == 0).filled(True)
 
     # Use only appropriate data
     valid_dataset = dataset[:, mask]
@@ -46,7 +51,7 @@ def ability_3pl_mle(dataset, difficulty, discrimination,
     thetas[mask] = trimmed_theta
 
     # Convert all zeros to negative estimate
-    mask2 = ~mask & (dataset.min(axis=0) == 0)
+    mask2 = ~mask & (masked_dataset.min(axis=0) == 0).filled(False)
     thetas[mask2] *= -1
 
     return thetas
-- 
2.43.0


From 08b58a3a517297e3783ea1cc3b32f3b60b445b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:49 +0000
Subject: [PATCH 6/7] fix: 3PL partial integral dropped the person axis for a
 single person

---
 estimation/unidimensional/dichotomous/partial_integrals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/estimation/unidimensional/dichotomous/partial_integrals.py b/estimation/unidimensional/dichotomous/partial_integrals.py
index f0edd0a..5dd2e0a 100644
--- a/estimation/unidimensional/dichotomous/partial_integrals.py
+++ b/estimation/unidimensional/dichotomous/partial_integrals.py
@@ -60,4 +60,4 @@ def _compute_partial_integral_3pl(theta, difficulty, discrimination, guessing, t
     otpt = (1.0 / (1.0 + np.exp(kernel))) * (1 - guessing[:, None, None])
     otpt += 0.5 * (1 - the_sign[:, :, None]) * guessing[:, None, None]
 
-    return otpt.prod(axis=0).squeeze()
+    return otpt.prod(axis=0)
-- 
2.43.0


From e9c212229b8659f6a5af737461b162ba9b11ba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:47 +0000
Subject: [PATCH 7/7] fix: check every pair of unfolding thresholds for
 symmetry, not only their sum

---
 synthetic/polytomous.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/synthetic/polytomous.py b/synthetic/polytomous.py
index c496cb2..82cfc8c 100644
--- a/synthetic/polytomous.py
+++ b/synthetic/polytomous.py
@@ -115,7 +115,8 @@ def _check_difficulty_parameters(difficulty, model):
         adjusted_difficulty = (difficulty -
                                difficulty[:, middle_index][:, None])
 
-        if not np.all(np.abs(adjusted_difficulty.sum(axis=1)) < 1e-7):
+        if not np.all(np.abs(adjusted_difficulty +
+                             adjusted_difficulty[:, ::-1]) < 1e-7):
             raise AssertionError("Difficulty Parameters must be "
                                  "symmetric about offset")
 
-- 
2.43.0

