From 16c3d055e1660715bdda33063ffab032d7cb9aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 01/26] fix: use stratum row totals in the Kullback statistic

---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 858e550..91dff32 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1628,7 +1628,7 @@ def kullback(F):
     FdJd1 = FdJd + (FdJd == 0)
     T3 = 2 * (FdJd * np.log(FdJd1)).sum()
 
-    FIJd = F[:, :].sum(axis=1)
+    FIJd = F.sum(axis=2)
     FIJd1 = FIJd + (FIJd == 0)
     T4 = 2 * (FIJd * np.log(FIJd1)).sum()
 
-- 
2.43.0


From f34aa646c19f68a449e55e939c2a04b696bdf7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 02/26] fix: keep fractions when homogeneity is given integer
 counts

---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 91dff32..c8281e2 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1779,7 +1779,7 @@ class Homogeneity_Results:
 
     def _homogeneity(self, transition_matrices):
         # form null transition probability matrix
-        M = np.array(transition_matrices)
+        M = np.array(transition_matrices, dtype=float)
         m, r, k = M.shape
         self.k = k
         B = np.zeros((r, m))
-- 
2.43.0


From 70b5af768e404fbd65e14b3797b52b2cfc6517e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:38 +0000
Subject: [PATCH 03/26] fix: ignore classes no regime visits in the homogeneity
 degrees of freedom

---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index c8281e2..bc2d9c3 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1822,7 +1822,7 @@ class Homogeneity_Results:
         # b_i is the number of regimes that have non-zero observations in row i
         # A_i is the number of non-zero elements in row i of the aggregated
         # transition matrix
-        self.dof = int(((b_i - 1) * (A_i - 1)).sum())
+        self.dof = int(((b_i - 1) * (A_i - 1))[n_i > 0].sum())
         self.Q = Q
         self.Q_p_value = 1 - stats.chi2.cdf(self.Q, self.dof)
         self.LR = LR * 2.0
-- 
2.43.0


From 29ee44903a482ecfea41a3adb6913b1d07685b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:49 +0000
Subject: [PATCH 04/26] fix: accept integer matrices in the ergodic first
 passage times

---
 giddy/ergodic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index b92ad27..6f0e57d 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -204,7 +204,7 @@ def _mfpt_ergodic(P):
 
     P = np.asarray(P)
     k = P.shape[0]
-    A = np.zeros_like(P)
+    A = np.zeros((k, k))
     ss = _steady_state_ergodic(P)
     for j in range(k):
         A[:, j] = ss
-- 
2.43.0


From e7b709d2311a53a646aa73f9cf32ed38210a4253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 05/26] fix: decide infinite mean first passage times by
 reachability

---
 giddy/ergodic.py | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/giddy/ergodic.py b/giddy/ergodic.py
index 6f0e57d..d4c5e40 100644
--- a/giddy/ergodic.py
+++ b/giddy/ergodic.py
@@ -327,24 +327,19 @@ rows to be 1 to make sure the matrix is stochastic.
             p_sub = np.delete(np.delete(P, desti, 0), desti, 1)
             p_calc = np.eye(k - 1) - p_sub
             m = np.full(k - 1, np.inf)
-            row0 = (p_calc != 0).sum(axis=1)
-            none0 = np.arange(k - 1)
-            try:
-                m[none0] = np.linalg.solve(p_calc, b)
-            except np.linalg.LinAlgError as err:
-                if "Singular matrix" in str(err) and (row0 == 0).sum() > 0:
-                    index0 = set(np.argwhere(row0 == 0).flatten())
-                    x = (p_calc[:, list(index0)] != 0).sum(axis=1)
-                    setx = set(np.argwhere(x).flatten())
-                    while not setx.issubset(index0):
-                        index0 = index0.union(setx)
-                        x = (p_calc[:, list(index0)] != 0).sum(axis=1)
-                        setx = set(np.argwhere(x).flatten())
-                    none0 = np.asarray(list(set(none0).difference(index0)))
-                    if len(none0) >= 1:
-                        p_calc = p_calc[none0, :][:, none0]
-                        b = b[none0]
-                        m[none0] = np.linalg.solve(p_calc, b)
+            # states that can reach desti at all
+            hits = np.delete(P[:, desti], desti) > 0
+            for _ in range(k - 1):
+                hits = hits | (p_sub[:, hits] > 0).any(axis=1)
+            # states that can get to one from where desti is out of reach
+            lost = ~hits
+            for _ in range(k - 1):
+                lost = lost | (p_sub[:, lost] > 0).any(axis=1)
+            # desti is reached with probability one from the others only
+            none0 = np.where(~lost)[0]
+            if len(none0) >= 1:
+                p_calc = p_calc[none0, :][:, none0]
+                m[none0] = np.linalg.solve(p_calc, b[none0])
             recc = (
                 np.nan_to_num(
                     (np.delete(P, desti, 1)[desti] * m), 0, posinf=np.inf
-- 
2.43.0


From 77ef7927606cf5a328ccf5c5424b5d396153f18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:59 +0000
Subject: [PATCH 06/26] fix: compute estimated probabilities by division so
 absorbing states are recognised

counts * (1 / total) is not 1 for e.g. total 49
---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index bc2d9c3..668de14 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -228,7 +228,7 @@ class Markov:
                     transitions[row, col] += sum(ending == j)
         self.transitions = transitions
         row_sum = transitions.sum(axis=1)
-        self.p = np.dot(np.diag(1 / (row_sum + (row_sum == 0))), transitions)
+        self.p = transitions / (row_sum + (row_sum == 0))[:, np.newaxis]
 
         if fill_empty_classes:
             self.p = fill_empty_diagonals(self.p)
-- 
2.43.0


From d340423fd4d61ce5196bd7ce18567f3841770373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:59 +0000
Subject: [PATCH 07/26] fix: sum permuted spatial Markov statistics over all
 lag classes

---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 668de14..e26e211 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -842,7 +842,7 @@ class Spatial_Markov:
             x2_realizations = np.zeros((permutations, 1))
             for perm in range(permutations):
                 T, P = self._calc(nrp(y), w)
-                x2 = [chi2(T[i], self.transitions)[0] for i in range(self.k)]
+                x2 = [chi2(t, self.transitions)[0] for t in T]
                 x2s = sum(x2)
                 x2_realizations[perm] = x2s
                 if x2s >= self.x2:
-- 
2.43.0


From 163d560acb925a42918cae70fd711d8aade99318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:59 +0000
Subject: [PATCH 08/26] fix: keep the observed lag classes after spatial Markov
 permutations

---
 giddy/markov.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/giddy/markov.py b/giddy/markov.py
index e26e211..0a15122 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -840,6 +840,7 @@ class Spatial_Markov:
             nrp = np.random.permutation
             counter = 0
             x2_realizations = np.zeros((permutations, 1))
+            lclass_ids = self.lclass_ids
             for perm in range(permutations):
                 T, P = self._calc(nrp(y), w)
                 x2 = [chi2(t, self.transitions)[0] for t in T]
@@ -849,6 +850,8 @@ class Spatial_Markov:
                     counter += 1
             self.x2_rpvalue = (counter + 1.0) / (permutations + 1.0)
             self.x2_realizations = x2_realizations
+            # the permutations must not replace the observed lag classes
+            self.lclass_ids = lclass_ids
 
     @property
     def s(self):
-- 
2.43.0


From ebc5b835a278491d230540a8de284796848e0803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:16 +0000
Subject: [PATCH 09/26] fix: name every lag class in the spatial Markov summary

---
 giddy/markov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 0a15122..0111cd2 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1046,7 +1046,7 @@ class Spatial_Markov:
         """
 
         class_names = ["C%d" % i for i in range(self.k)]
-        regime_names = ["LAG%d" % i for i in range(self.k)]
+        regime_names = ["LAG%d" % i for i in range(self.m)]
         ht = homogeneity(self.T, class_names=class_names, regime_names=regime_names)
         title = "Spatial Markov Test"
         if self.variable_name:
-- 
2.43.0


From 1b3280aaa7b4094ddd7b39315d79214b8340092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:16 +0000
Subject: [PATCH 10/26] fix: let permutations change the lags of a discrete
 spatial Markov

---
 giddy/markov.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 0111cd2..bafe25e 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -823,6 +823,9 @@ class Spatial_Markov:
                 y_int.append(list(map(label_dict.get, yi)))
             self.class_ids = np.array(y_int)
             self.lclass_ids = self.class_ids
+            self.lclasses = np.arange(self.m)
+            # categorical lags are taken of the class indices
+            y = self.class_ids
         else:
             self.class_ids, self.cutoffs, self.k = self._maybe_classify(
                 y, k=k, cutoffs=self.cutoffs
@@ -959,7 +962,7 @@ class Spatial_Markov:
 
         """
         if self.discrete:
-            self.lclass_ids = weights.lag_categorical(w, self.class_ids, ties="tryself")
+            self.lclass_ids = weights.lag_categorical(w, y, ties="tryself")
         else:
             ly = weights.lag_spatial(w, y)
             self.lclass_ids, self.lag_cutoffs, self.m = self._maybe_classify(
-- 
2.43.0


From 0bcf17174065cefbb1ac1917dc5e44b383e923a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:17 +0000
Subject: [PATCH 11/26] fix: keep unvisited classes in the overall chain of a
 spatial Markov

---
 giddy/markov.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index bafe25e..ef665ef 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -833,7 +833,10 @@ class Spatial_Markov:
             self.classes = np.arange(self.k)
 
         classic = Markov(
-            self.class_ids, fill_empty_classes=fill_empty_classes, summary=False
+            self.class_ids,
+            classes=np.arange(self.k),
+            fill_empty_classes=fill_empty_classes,
+            summary=False,
         )
         self.p = classic.p
         self.transitions = classic.transitions
-- 
2.43.0


From 84b8a913925e5437af10870241edbee8ecbcd71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:48 +0000
Subject: [PATCH 12/26] fix: handle one-sided panels in the LISA independence
 test

---
 giddy/markov.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index ef665ef..6160a4e 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1426,8 +1426,9 @@ class LISA_Markov(Markov):
         rlag = ylag / ybar
         rc = r < 1.0
         rlagc = rlag < 1.0
-        markov_y = Markov(rc, summary=False)
-        markov_ylag = Markov(rlagc, summary=False)
+        high_low = np.array([False, True])
+        markov_y = Markov(rc, high_low, fill_empty_classes=True, summary=False)
+        markov_ylag = Markov(rlagc, high_low, fill_empty_classes=True, summary=False)
         A = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 1, 0, 0]])
 
         kp = A.dot(np.kron(markov_y.p, markov_ylag.p)).dot(A.T)
-- 
2.43.0


From fe2594ab84c0d0af9468decd9e90905687d471b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:48 +0000
Subject: [PATCH 13/26] fix: match GeoDa quadrants in the LISA independence
 test

---
 giddy/markov.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 6160a4e..117cd02 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1429,7 +1429,10 @@ class LISA_Markov(Markov):
         high_low = np.array([False, True])
         markov_y = Markov(rc, high_low, fill_empty_classes=True, summary=False)
         markov_ylag = Markov(rlagc, high_low, fill_empty_classes=True, summary=False)
-        A = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 1, 0, 0]])
+        if geoda_quads:
+            A = np.array([[1, 0, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0], [0, 1, 0, 0]])
+        else:
+            A = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 1, 0, 0]])
 
         kp = A.dot(np.kron(markov_y.p, markov_ylag.p)).dot(A.T)
         trans = self.transitions.sum(axis=1)
-- 
2.43.0


From c47eecda1889e5713fdcdc8844f9b19749e1a721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:48 +0000
Subject: [PATCH 14/26] fix: tell low from high in the LISA independence test
 whatever the sign of the mean

---
 giddy/markov.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 117cd02..0e2a907 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1421,11 +1421,9 @@ class LISA_Markov(Markov):
         # null of own and lag moves being independent
 
         ybar = y.mean(axis=0)
-        r = y / ybar
         ylag = np.array([weights.lag_spatial(w, yt) for yt in y])
-        rlag = ylag / ybar
-        rc = r < 1.0
-        rlagc = rlag < 1.0
+        rc = y < ybar
+        rlagc = ylag < ybar
         high_low = np.array([False, True])
         markov_y = Markov(rc, high_low, fill_empty_classes=True, summary=False)
         markov_ylag = Markov(rlagc, high_low, fill_empty_classes=True, summary=False)
-- 
2.43.0


From ce15e1cd97d032676ce749773b602403225f7516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:45 +0000
Subject: [PATCH 15/26] fix: report the last period's components in LISA
 spillover

---
 giddy/markov.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index 0e2a907..af7381e 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1551,10 +1551,11 @@ class LISA_Markov(Markov):
                 for spill_id in spill_ids:
                     id_ = self.w.id2i[spill_id]
                     spill_over[id_, t] = 1
-                for c, component in enumerate(components1):
-                    for i in component:
-                        ii = self.w.id2i[i]
-                        components[ii, t] = c + 1
+                for period, members in ((t, components1), (t + 1, components2)):
+                    for c, component in enumerate(members):
+                        for i in component:
+                            ii = self.w.id2i[i]
+                            components[ii, period] = c + 1
             results = {}
             results["components"] = components
             results["spill_over"] = spill_over
-- 
2.43.0


From aea302a2b187c273f5bc8c21c292ff6c85987577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:00 +0000
Subject: [PATCH 16/26] fix: keep the number type of x in the neighbour tau
 permutations

---
 giddy/rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index 2141baf..5edd29a 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -611,7 +611,7 @@ class Tau_Local_Neighbor:
             for i in range(self.n):
                 obs_i = self.tau_ln[i]  # observed value i LIMA statistic
                 yr = np.zeros_like(y)
-                xr = np.zeros_like(y)
+                xr = np.zeros_like(x)
                 rids = np.arange(self.n)
                 rids = np.delete(rids, i)
                 for j in range(permutations):
-- 
2.43.0


From 26a4e3a60c1710d64ee5c8d634195a588a9b381f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:10 +0000
Subject: [PATCH 17/26] fix: keep class numbers apart when looking for repeated
 sequences

---
 giddy/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/sequence.py b/giddy/sequence.py
index 045f6cd..c752538 100644
--- a/giddy/sequence.py
+++ b/giddy/sequence.py
@@ -336,7 +336,7 @@ class Sequence:
         """
         y_str = []
         for i in y_int:
-            y_str.append("".join(list(map(str, i))))
+            y_str.append(" ".join(list(map(str, i))))
 
         moves_str, unique_indices = np.unique(y_str, axis=0, return_index=True)
         moves_int = y_int[unique_indices]
-- 
2.43.0


From 9ec2bf61392accb59575af21c0eb8ef620dd0300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:16 +0000
Subject: [PATCH 18/26] fix: build exactly k rose sectors whatever the rounding
 of their width

---
 giddy/directional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 0a76da8..2894de2 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -212,7 +212,7 @@ class Rose:
         self.w = w
         self.k = k
         self.sw = 2 * np.pi / self.k
-        self.cuts = np.arange(0.0, 2 * np.pi + self.sw, self.sw)
+        self.cuts = np.linspace(0.0, 2 * np.pi, self.k + 1)
         observed = self._calc(Y, w, k)
         self.theta = observed["theta"]
         self.bins = observed["bins"]
-- 
2.43.0


From dc914a7237d96b10ee106867df8ea722344c8f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:16 +0000
Subject: [PATCH 19/26] fix: keep the observed values and lags of a rose after
 permuting

---
 giddy/directional.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 2894de2..005f93b 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -213,7 +213,10 @@ class Rose:
         self.k = k
         self.sw = 2 * np.pi / self.k
         self.cuts = np.linspace(0.0, 2 * np.pi, self.k + 1)
+        # rows the random permutations start from
+        self._rY = Y
         observed = self._calc(Y, w, k)
+        self.wY = observed["lag"]
         self.theta = observed["theta"]
         self.bins = observed["bins"]
         self.counts = observed["counts"]
@@ -239,12 +242,13 @@ class Rose:
             that the focal unit and its lag move in opposite directions over
             the interval.
         """
-        rY = self.Y.copy()
+        rY = self._rY.copy()
         idxs = np.arange(len(rY))
         counts = np.zeros((permutations, len(self.counts)))
         for m in range(permutations):
             np.random.shuffle(idxs)
-            res = self._calc(rY[idxs, :], self.w, self.k)
+            self._rY = rY[idxs, :]
+            res = self._calc(self._rY, self.w, self.k)
             counts[m] = res["counts"]
         self.counts_perm = counts
         self.larger_perm = np.array(
@@ -303,8 +307,6 @@ class Rose:
         wY = weights.lag_spatial(w, Y)
         dx = Y[:, -1] - Y[:, 0]
         dy = wY[:, -1] - wY[:, 0]
-        self.wY = wY
-        self.Y = Y
         r = np.sqrt(dx * dx + dy * dy)
         theta = np.arctan2(dy, dx)
         neg = theta < 0.0
-- 
2.43.0


From d6ce21c9f9e499c1f8118922cf6544864aa22bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:16 +0000
Subject: [PATCH 20/26] fix: accept the documented name of the two-sided rose
 alternative

---
 giddy/directional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/giddy/directional.py b/giddy/directional.py
index 005f93b..c0489c6 100644
--- a/giddy/directional.py
+++ b/giddy/directional.py
@@ -278,7 +278,7 @@ class Rose:
         # depending on the problem at hand.
 
         alt = alternative.upper()
-        if alt == "TWO.SIDED":
+        if alt in ("TWO.SIDED", "TWO-SIDED"):
             P = (self.larger_perm + 1) / (permutations + 1.0)
             mask = P < 0.5
             self.p = mask * 2 * P + (1 - mask) * 2 * (1 - P)
-- 
2.43.0


From fb99b03bcbc616aa14d0bf758d9806345d20c20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:16 +0000
Subject: [PATCH 21/26] fix: show LISA heat map categories under their own
 names

---
 giddy/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index e06bfc5..5da44c5 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -167,8 +167,8 @@ def _dynamic_lisa_heatmap(moran_locy, moran_locx, p, ax, **kwargs):
     square = kwargs.pop("square", True)
 
     # set name for tick labels
-    xticklabels = kwargs.pop("xticklabels", ["ns", "HH", "HL", "LH", "LL"])
-    yticklabels = kwargs.pop("yticklabels", ["ns", "HH", "HL", "LH", "LL"])
+    xticklabels = kwargs.pop("xticklabels", ["ns", "HH", "LH", "LL", "HL"])
+    yticklabels = kwargs.pop("yticklabels", ["ns", "HH", "LH", "LL", "HL"])
 
     ax = sns.heatmap(
         heatmap_data,
-- 
2.43.0


From 11c532c02d19fe30b901be4f80290dee0ad77df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:34 +0000
Subject: [PATCH 22/26] fix: restore the plotting defaults when a LISA plot
 fails

---
 giddy/plotting.py | 80 ++++++++++++++++++-----------------------------
 1 file changed, 31 insertions(+), 49 deletions(-)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index 5da44c5..44ba0f9 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -266,46 +266,37 @@ def dynamic_lisa_rose(rose, attribute=None, ax=None, **kwargs):
     >>> plt.show()
 
     """
-    # save_old default values
-    old_gridcolor = mpl.rcParams["grid.color"]
-    old_facecolor = mpl.rcParams["axes.facecolor"]
-    old_edgecolor = mpl.rcParams["axes.edgecolor"]
-    # define plotting style
-    mpl.rcParams["grid.color"] = "w"
-    mpl.rcParams["axes.edgecolor"] = "w"
-    mpl.rcParams["axes.facecolor"] = "#E5E5E5"
     alpha = kwargs.pop("alpha", 0.9)
     cmap = kwargs.pop("cmap", "YlGnBu")
 
-    if ax is None:
-        fig = plt.figure()
-        ax = fig.add_subplot(111, projection="polar")
-        can_insert_colorbar = True
-    else:
-        fig = ax.get_figure()
-        can_insert_colorbar = False
-
-    ax.set_rlabel_position(315)
-
-    if attribute is None:
-        c = ax.scatter(rose.theta, rose.r, alpha=alpha, cmap=cmap, **kwargs)
-    else:
-        if "c" in kwargs or "color" in kwargs:
-            raise ValueError(
-                "c and color are not valid keywords here; "
-                "attribute is used for coloring"
+    # plotting style, default values are back afterwards even if plotting fails
+    style = {"grid.color": "w", "axes.edgecolor": "w", "axes.facecolor": "#E5E5E5"}
+    with mpl.rc_context(style):
+        if ax is None:
+            fig = plt.figure()
+            ax = fig.add_subplot(111, projection="polar")
+            can_insert_colorbar = True
+        else:
+            fig = ax.get_figure()
+            can_insert_colorbar = False
+
+        ax.set_rlabel_position(315)
+
+        if attribute is None:
+            c = ax.scatter(rose.theta, rose.r, alpha=alpha, cmap=cmap, **kwargs)
+        else:
+            if "c" in kwargs or "color" in kwargs:
+                raise ValueError(
+                    "c and color are not valid keywords here; "
+                    "attribute is used for coloring"
+                )
+
+            c = ax.scatter(
+                rose.theta, rose.r, c=attribute, alpha=alpha, cmap=cmap, **kwargs
             )
+            if can_insert_colorbar:
+                fig.colorbar(c)
 
-        c = ax.scatter(
-            rose.theta, rose.r, c=attribute, alpha=alpha, cmap=cmap, **kwargs
-        )
-        if can_insert_colorbar:
-            fig.colorbar(c)
-
-    # reset style to old default values
-    mpl.rcParams["grid.color"] = old_gridcolor
-    mpl.rcParams["axes.facecolor"] = old_facecolor
-    mpl.rcParams["axes.edgecolor"] = old_edgecolor
     return fig, ax
 
 
@@ -549,20 +540,11 @@ def dynamic_lisa_composite(rose, gdf, p=0.05, figsize=(13, 10)):
     axs = []
     axs.append(plt.subplot(221))
     axs.append(plt.subplot(222))
-    # save_old default values
-    old_gridcolor = mpl.rcParams["grid.color"]
-    old_facecolor = mpl.rcParams["axes.facecolor"]
-    old_edgecolor = mpl.rcParams["axes.edgecolor"]
-    # define plotting style
-    mpl.rcParams["grid.color"] = "w"
-    mpl.rcParams["axes.edgecolor"] = "w"
-    mpl.rcParams["axes.facecolor"] = "#E5E5E5"
-    # define axs[2]
-    axs.append(plt.subplot(223, projection="polar"))
-    # reset style to old default values
-    mpl.rcParams["grid.color"] = old_gridcolor
-    mpl.rcParams["axes.facecolor"] = old_facecolor
-    mpl.rcParams["axes.edgecolor"] = old_edgecolor
+    # plotting style, default values are back afterwards even if plotting fails
+    style = {"grid.color": "w", "axes.edgecolor": "w", "axes.facecolor": "#E5E5E5"}
+    with mpl.rc_context(style):
+        # define axs[2]
+        axs.append(plt.subplot(223, projection="polar"))
     # define axs[3]
     axs.append(plt.subplot(224))
 
-- 
2.43.0


From 275b9b4b75f6604502892a6a677484eb1f1fdfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 23/26] fix: print homogeneity summaries under the labels and
 title given

---
 giddy/markov.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/giddy/markov.py b/giddy/markov.py
index af7381e..c1cbe07 100644
--- a/giddy/markov.py
+++ b/giddy/markov.py
@@ -1849,12 +1849,14 @@ class Homogeneity_Results:
         self.p_h0 = p_ij
         self.p_h1 = p_ijm
 
-    def summary(self, file_name=None, title="Markov Homogeneity Test"):
+    def summary(self, file_name=None, title=None):
+        if title is None:
+            title = self.title
         regime_names = ["%d" % i for i in range(self.m)]
-        if self.regime_names:
-            regime_names = self.regime_names
+        if len(self.regime_names):
+            regime_names = [str(regime) for regime in self.regime_names]
         cols = ["P(%s)" % str(regime) for regime in regime_names]
-        if not self.class_names:
+        if self.class_names is None or not len(self.class_names):
             self.class_names = list(range(self.k))
 
         max_col = max([len(col) for col in cols])
@@ -1886,7 +1888,7 @@ class Homogeneity_Results:
         print(lead)
 
         cols = ["P(%s)" % str(regime) for regime in self.regime_names]
-        if not self.class_names:
+        if self.class_names is None or not len(self.class_names):
             self.class_names = list(range(self.k))
         cols.extend(["%s" % str(cname) for cname in self.class_names])
 
-- 
2.43.0


From 8cf84ffabf697ce67b2a94f2568edcfe7ec827be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 24/26] fix: find connected components of long chains without
 recursion

---
 giddy/components.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/giddy/components.py b/giddy/components.py
index 065f45f..eb08012 100644
--- a/giddy/components.py
+++ b/giddy/components.py
@@ -147,16 +147,18 @@ class Graph:
             return components
 
     def dfs(self, v, visited, threshold, op=lt, first=None):
-        aux = [v]
-        visited.add(v)
-        if first is None:
-            first = v
-        for i in (
-            n
-            for n, w in list(self.edges.get(v, {}).items())
-            if op(w, threshold) and n not in visited
-        ):
-            x, y = self.dfs(i, visited, threshold, op, first)
-            aux.extend(x)
-            visited = visited.union(y)
+        # depth first with an explicit stack: long chains of nodes would exceed
+        # the recursion limit
+        aux, stack = [], [v]
+        while stack:
+            node = stack.pop()
+            if node in visited:
+                continue
+            visited.add(node)
+            aux.append(node)
+            stack.extend(
+                n
+                for n, w in reversed(list(self.edges.get(node, {}).items()))
+                if op(w, threshold) and n not in visited
+            )
         return aux, visited
-- 
2.43.0


From 55430f838f3f230cbb00d44f9290abee80b25d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:14 +0000
Subject: [PATCH 25/26] fix: find units by position, not identifier, in
 neighbour rank statistics

---
 giddy/rank.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/giddy/rank.py b/giddy/rank.py
index 5edd29a..38c0784 100644
--- a/giddy/rank.py
+++ b/giddy/rank.py
@@ -378,14 +378,16 @@ class SpatialTau:
     def _calc(self, x, y, w):
         n1 = n2 = iS = gc = 0
         ijs = {}
+        # positions of the units in the series
+        pos = w.id2i
         for i in w.id_order:
-            xi = x[i]
-            yi = y[i]
+            xi = x[pos[i]]
+            yi = y[pos[i]]
             for j in w.neighbors[i]:
-                if i < j:
+                if pos[i] < pos[j]:
                     ijs[(i, j)] = (i, j)
-                    xj = x[j]
-                    yj = y[j]
+                    xj = x[pos[j]]
+                    yj = y[pos[j]]
                     dx = xi - xj
                     dy = yi - yj
                     dxdy = dx * dy
@@ -642,21 +644,24 @@ class Tau_Local_Neighbor:
             return 0
 
     def _calc(self, x, y, w, i=None):
+        # positions of the units in the series
+        pos = w.id2i
         if i is not None:
             iS_local = 0
-            for j in w.neighbors[i]:
-                iS_local += self._calc_r(x[i], y[i], x[j], y[j], w)
-            tau_ln = iS_local * 1.0 / w.cardinalities[i]
+            id_ = w.id_order[i]
+            for j in w.neighbors[id_]:
+                iS_local += self._calc_r(x[i], y[i], x[pos[j]], y[pos[j]], w)
+            tau_ln = iS_local * 1.0 / w.cardinalities[id_]
             return tau_ln
         else:
             tau_ln = np.zeros(self.n)
             tau_ln_weights = np.zeros(self.n)
-            for i in w.id_order:
+            for i, id_ in enumerate(w.id_order):
                 iS_local = 0
-                for j in w.neighbors[i]:
-                    iS_local += self._calc_r(x[i], y[i], x[j], y[j], w)
-                tau_ln[i] = iS_local * 1.0 / w.cardinalities[i]
-                tau_ln_weights[i] = w.cardinalities[i] * 1.0 / w.s0
+                for j in w.neighbors[id_]:
+                    iS_local += self._calc_r(x[i], y[i], x[pos[j]], y[pos[j]], w)
+                tau_ln[i] = iS_local * 1.0 / w.cardinalities[id_]
+                tau_ln_weights[i] = w.cardinalities[id_] * 1.0 / w.s0
             return tau_ln, tau_ln_weights
 
 
@@ -756,10 +761,12 @@ class Tau_Local_Neighborhood:
         self.tau_local = res.tau_local
 
         w.transform = "b"
+        # positions of the units in the series
+        pos = w.id2i
         tau_lnhood = np.zeros(self.n)
         for i in range(self.n):
             neighbors_i = [i]
-            neighbors_i.extend(w.neighbors[i])
+            neighbors_i.extend(pos[j] for j in w.neighbors[w.id_order[i]])
             n_i = len(neighbors_i)
             sh_i = self.S[neighbors_i, :][:, neighbors_i]
             # Neighborhood set LIMA
@@ -781,7 +788,7 @@ class Tau_Local_Neighborhood:
                 for j in range(permutations):
                     np.random.shuffle(rids)
                     neighbors_i = [i]
-                    neighbors_i.extend(rids[: len(w.neighbors[i])])
+                    neighbors_i.extend(rids[: len(w.neighbors[w.id_order[i]])])
                     n_i = len(neighbors_i)
                     neighbors_i_second = neighbors_i
                     sh_i = self.S[neighbors_i, :][:, neighbors_i_second]
-- 
2.43.0


From 2b98f6199aa777d2e8bd02fb677cb2dae74d6023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:59 +0000
Subject: [PATCH 26/26] fix: restore the random state when a local Moran
 analysis fails

---
 giddy/plotting.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/giddy/plotting.py b/giddy/plotting.py
index 44ba0f9..d7ccb8d 100644
--- a/giddy/plotting.py
+++ b/giddy/plotting.py
@@ -62,10 +62,12 @@ def _moran_loc_from_rose_calc(rose):
     Calculate esda.moran.Moran_Local values from giddy.rose object
     """
     old_state = np.random.get_state()
-    moran_locy = Moran_Local(rose.Y[:, 0], rose.w)
-    np.random.set_state(old_state)
-    moran_locx = Moran_Local(rose.Y[:, 1], rose.w)
-    np.random.set_state(old_state)
+    try:
+        moran_locy = Moran_Local(rose.Y[:, 0], rose.w)
+        np.random.set_state(old_state)
+        moran_locx = Moran_Local(rose.Y[:, 1], rose.w)
+    finally:
+        np.random.set_state(old_state)
     return moran_locy, moran_locx
 
 
-- 
2.43.0

