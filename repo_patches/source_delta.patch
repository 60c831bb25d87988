From 2e803e5d447935bbf0bcc4383ccd8f39768b8f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:48 +0000
Subject: [PATCH 01/67] fix: LCMMax.transform with max_length raised KeyError
 when no itemset is frequent

---
 skmine/itemsets/lcm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/lcm.py b/skmine/itemsets/lcm.py
index ef198f7..94c391d 100644
--- a/skmine/itemsets/lcm.py
+++ b/skmine/itemsets/lcm.py
@@ -365,7 +365,7 @@ class LCMMax(LCM, TransformerMixin):
 
         # keeps only itemsets smaller than max_length
         if self.max_length_ != -1:
-            length_mask = patterns.itemset.apply(lambda x: len(x) <= self.max_length_)
+            length_mask = patterns.itemset.map(len) <= self.max_length_
             patterns = patterns[length_mask]
             patterns.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From 142292f39d2792d58ccd97d09066503fa9b159b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:49 +0000
Subject: [PATCH 02/67] fix: SLIM.transform(out=...) failed on items that are
 not strings

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 729af50..043ad7a 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -542,7 +542,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         if self.out_ is not None:
             with open(self.out_, 'w') as f:
                 for i, (itemset, usage) in enumerate(zip(itemsets, iusages)):
-                    line = "(" + str(usage) + ") " + " ".join(itemset) + "\n"
+                    line = "(" + str(usage) + ") " + " ".join(map(str, itemset)) + "\n"
                     if self.return_tids_:
                         line += " ".join(map(str, itids[i])) + "\n"
                     f.write(line)
-- 
2.43.0


From 489b927f94ac28d1e28d604752fd63e1a4923149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:49 +0000
Subject: [PATCH 03/67] fix: SLIM.fit rejected tabular data made of boolean
 columns

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 043ad7a..4aebbd8 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -164,7 +164,7 @@ class SLIM(BaseEstimator, TransformerMixin):
             self.classes_ = np.unique(y)
 
         self._validate_data(X, force_all_finite=False, accept_sparse=False, ensure_2d=False,
-                            ensure_min_samples=1, dtype=list)
+                            ensure_min_samples=1, dtype=object)
         self.n_features_in_ = X.shape[-1] if not isinstance(X, list) else len(X[-1])
         # TODO : significant for one-hot D, not for list of itemset
         start = time.time()
-- 
2.43.0


From ddb5842cb6191dbc481bdfb1270bd86e8797a126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:19 +0000
Subject: [PATCH 04/67] fix: SLIM.evaluate/update lost data when the candidate
 is already in the code table

---
 skmine/itemsets/slim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 4aebbd8..15e49bd 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -386,9 +386,10 @@ class SLIM(BaseEstimator, TransformerMixin):
             updated (data size, model size, codetable)
         """
         # Get the id (``idx``) of the insertion of ``candidate`` in codetable w.r.t the standard cover order
-        idx = self.codetable_.bisect(candidate)
         ct = list(self.codetable_)
-        ct.insert(idx, candidate)  # Insert the candidate to the CT w.r.t the usage order
+        if candidate not in self.codetable_:  # a second copy would hide the usage of the first one
+            idx = self.codetable_.bisect(candidate)
+            ct.insert(idx, candidate)  # Insert the candidate to the CT w.r.t the usage order
         D = {k: v.copy() for k, v in self.standard_codetable_.items()}
         # Get the cover a standard codetable D with CT itemsets
         CTc = cover(D, ct)  # CTc is sorted in Standard Cover Order like D
-- 
2.43.0


From b5b293b5b1eceb4d161cfa7928c1764812765c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:49 +0000
Subject: [PATCH 05/67] fix: SLIM kept supports of previously ingested data
 when fitted again

---
 skmine/itemsets/slim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 15e49bd..846c48e 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -637,6 +637,7 @@ class SLIM(BaseEstimator, TransformerMixin):
             # compute tids for each item in Bitmap
             item_to_tids = _to_vertical(D)
 
+        self.get_support.cache_clear()  # supports cached from data ingested earlier are stale
         sct = pd.Series(item_to_tids)  # sct for "standard code table"
         # The usage of an itemset X ∈ CT (Code Table) is the number of transactions t ∈ D which have X in their cover.
         # A cover(t) is the set of itemsets X ∈ CT used to encode a transaction t
-- 
2.43.0


From 2e60bca647e73f9135c3fd87e5a37ee30c5c9dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:18 +0000
Subject: [PATCH 06/67] fix: SlimClassifier ignored its pruning parameter

---
 skmine/itemsets/slim_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim_classifier.py b/skmine/itemsets/slim_classifier.py
index 5c32764..2903443 100644
--- a/skmine/itemsets/slim_classifier.py
+++ b/skmine/itemsets/slim_classifier.py
@@ -69,7 +69,7 @@ class SlimClassifier(BaseEstimator, ClassifierMixin):
         for c in self.classes_:
             transactions_classes = [transaction for transaction, target in zip(X, y) if target == c]
             self.classes_X_.append(transactions_classes)
-            self.models_.append(SLIM(items=self.items))
+            self.models_.append(SLIM(items=self.items, pruning=self.pruning))
 
         for model, data in zip(self.models_, self.classes_X_):
             model.fit(data)
-- 
2.43.0


From 3bbad4271f3fbc729f94c649ac7c651d84fa8e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:18 +0000
Subject: [PATCH 07/67] fix: SLIMVectorizer.fit failed whenever stop_items was
 given

---
 skmine/feature_extraction/slim_vectorizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/feature_extraction/slim_vectorizer.py b/skmine/feature_extraction/slim_vectorizer.py
index 4c4ef0d..f7c0feb 100644
--- a/skmine/feature_extraction/slim_vectorizer.py
+++ b/skmine/feature_extraction/slim_vectorizer.py
@@ -81,7 +81,7 @@ class SLIMVectorizer(SLIM):
 
     def fit(self, D, y=None):
         if self.stop_items is not None:
-            D = _filter_stop_items(D, stop_items=self.stop_items)
+            D = list(_filter_stop_items(D, stop_items=self.stop_items))
         return super().fit(D)
 
     def transform(self, newD, y=None, **tsf_params) -> pd.DataFrame:
-- 
2.43.0


From f18411bb094f0898395ba60b9ced9e0b3cb3fa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:35 +0000
Subject: [PATCH 08/67] fix: SLIMVectorizer returned NaN when none of the
 applicable itemsets is used

---
 skmine/feature_extraction/slim_vectorizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/feature_extraction/slim_vectorizer.py b/skmine/feature_extraction/slim_vectorizer.py
index f7c0feb..6e3e339 100644
--- a/skmine/feature_extraction/slim_vectorizer.py
+++ b/skmine/feature_extraction/slim_vectorizer.py
@@ -116,7 +116,8 @@ class SLIMVectorizer(SLIM):
         mat = pd.DataFrame(mat, columns=list(covers.keys()))
 
         if self.strategy == "codes":
-            ct_codes = code_lengths[isets.index] / code_lengths.sum()
+            # no usage at all: null codes, instead of dividing by zero
+            ct_codes = code_lengths[isets.index] / max(code_lengths.sum(), 1)
             mat = (mat * ct_codes).astype(np.float32)
 
         return mat
-- 
2.43.0


From 1380de145648117cc58dc3d1983104a363afd63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:37 +0000
Subject: [PATCH 09/67] fix: SlimClassifier predicted the first class for long
 transactions

---
 skmine/itemsets/slim_classifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim_classifier.py b/skmine/itemsets/slim_classifier.py
index 2903443..874bc70 100644
--- a/skmine/itemsets/slim_classifier.py
+++ b/skmine/itemsets/slim_classifier.py
@@ -89,7 +89,8 @@ class SlimClassifier(BaseEstimator, ClassifierMixin):
             Class labels for samples in X
         """
         check_is_fitted(self, "classes_")
-        self.models_scores = np.vstack([model.decision_function(X).values for model in self.models_]).T
+        # code lengths themselves: their exponential underflows on long transactions, making all classes equal
+        self.models_scores = -np.vstack([model.get_code_length(X).values for model in self.models_]).T
 
         return self.classes_[self.models_scores.argmax(axis=1)]
 
-- 
2.43.0


From e87dd33146c85d61ff0520d623876b4bc54a6162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:49 +0000
Subject: [PATCH 10/67] fix: emerging patterns below the left border were
 reported

---
 skmine/emerging/mbdldorber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/emerging/mbdldorber.py b/skmine/emerging/mbdldorber.py
index 818ae51..e7efb76 100644
--- a/skmine/emerging/mbdldorber.py
+++ b/skmine/emerging/mbdldorber.py
@@ -95,7 +95,7 @@ def borders_to_patterns(left, right, min_size=None):
     for size in range(len(right) - 1, min_size - 1, -1):  # bigger patterns first
         combs = combinations(right, size)
         for pat in combs:
-            if any((e.issuperset(set(pat)) for e in left)):
+            if not any((e < set(pat) for e in left)):  # below the left border: not emerging
                 continue
             patterns.append(pat)
 
-- 
2.43.0


From fccc745f7d74ccad006f6347b7753193793632f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:58 +0000
Subject: [PATCH 11/67] fix: mbdllborder kept an itemset that is frequent in
 both collections

---
 skmine/emerging/mbdldorber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/emerging/mbdldorber.py b/skmine/emerging/mbdldorber.py
index e7efb76..69be8f9 100644
--- a/skmine/emerging/mbdldorber.py
+++ b/skmine/emerging/mbdldorber.py
@@ -62,7 +62,7 @@ def mbdllborder(isets1, isets2):
     borders = list()
 
     for iset in isets2:
-        if any((e > iset for e in isets1)):
+        if any((e >= iset for e in isets1)):
             continue
         inter = (iset & e for e in isets1)
         R = filter_maximal(inter)
-- 
2.43.0


From 6518efde3c80d0d4c87fbf9264d4abdfa238712c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:36 +0000
Subject: [PATCH 12/67] fix: border_diff and MBDLLBorder.fit failed when the
 first collection has no frequent itemset

---
 skmine/emerging/mbdldorber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/emerging/mbdldorber.py b/skmine/emerging/mbdldorber.py
index 69be8f9..c9354ce 100644
--- a/skmine/emerging/mbdldorber.py
+++ b/skmine/emerging/mbdldorber.py
@@ -39,7 +39,7 @@ def border_diff(U, S):
     See ``BORDER-DIFF`` in section 4.1
     """
     # assert len(R1) < len(U)  # assert we iterate on the smallest ensemble
-    L2 = [{x} for x in U - S[0]]
+    L2 = [{x} for x in (U - S[0] if S else U)]
     for i in range(1, len(S)):
         _L2 = [X | {x} for x in U - S[i] for X in L2]
         L2 = list(filter_minimal(_L2))
-- 
2.43.0


From b84f17210db794fefcd3ace8ecfb7894e7099122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:13 +0000
Subject: [PATCH 13/67] fix: MDLPDiscretizer.transform applied the cut points
 to the wrong columns of a reordered DataFrame

---
 skmine/preprocessing/mdlp_discretizer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index 468e419..8b26092 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -241,10 +241,12 @@ class MDLPDiscretizer(BaseMiner):
         if isinstance(X, pd.DataFrame) and not set(self.cut_points_) == set(X.columns):
             raise ValueError(f"X columns should be {self.cut_points_.keys()}")
         _X = X.values if isinstance(X, pd.DataFrame) else X
+        # the columns of a DataFrame go by name, they may come in another order than in fit
+        columns = X.columns if isinstance(X, pd.DataFrame) else self.cut_points_.keys()
 
         vects = Parallel(n_jobs=self.n_jobs, prefer="threads")(
-            delayed(np.searchsorted)(cut_points, _X[:, idx])
-            for idx, cut_points in enumerate(self.cut_points_.values())
+            delayed(np.searchsorted)(self.cut_points_[col], _X[:, idx])
+            for idx, col in enumerate(columns)
         )
 
         vects = [v.reshape(len(v), 1) for v in vects]
-- 
2.43.0


From a031436d944d3d7f711f8239b405a12dad0263dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:23 +0000
Subject: [PATCH 14/67] fix: MDLPDiscretizer found no cut point with more than
 40 classes (integer overflow)

---
 skmine/preprocessing/mdlp_discretizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/preprocessing/mdlp_discretizer.py b/skmine/preprocessing/mdlp_discretizer.py
index 8b26092..3172e92 100644
--- a/skmine/preprocessing/mdlp_discretizer.py
+++ b/skmine/preprocessing/mdlp_discretizer.py
@@ -87,7 +87,7 @@ class MDLPVectDiscretizer(MDLOptimizer):
         N = end - start
 
         part1 = 1 / N * ((cut_point - start) * entropy1 + (end - cut_point) * entropy2)
-        delta = np.log2(pow(3, k0) - 2) - (k0 * whole_entropy - k1 * entropy1 - k2 * entropy2)
+        delta = np.log2(pow(3.0, k0) - 2) - (k0 * whole_entropy - k1 * entropy1 - k2 * entropy2)
 
         gain = whole_entropy - part1
 
-- 
2.43.0


From ba7baaccdb41dfefd1687f90c966b09bb7b13f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:24 +0000
Subject: [PATCH 15/67] fix: intersect2d missed common rows whose first column
 is repeated

---
 skmine/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/skmine/utils.py b/skmine/utils.py
index 7e1ac89..e556e0d 100644
--- a/skmine/utils.py
+++ b/skmine/utils.py
@@ -180,13 +180,15 @@ def intersect2d(ar1, ar2, return_indices=True):
     """
     ar1, ar2 = np.asanyarray(ar1), np.asanyarray(ar2)
     assert ar1.ndim == ar2.ndim == 2
-    _, x_ind, y_ind = np.intersect1d(ar1[:, 0], ar2[:, 0], return_indices=True)
-    x, y = ar1[x_ind], ar2[y_ind]
-    xy_where = np.argwhere((x == y).all(axis=1)).reshape(-1)
-    x_ind = x_ind[xy_where]
+    x, x_first = np.unique(ar1, axis=0, return_index=True)
+    y, y_first = np.unique(ar2, axis=0, return_index=True)
+    xy = np.concatenate((x, y))
+    order = np.lexsort(xy.T[::-1])  # stable: a row from ar1 comes right before its copy from ar2
+    common = (xy[order[:-1]] == xy[order[1:]]).all(axis=1)
+    x_ind = x_first[order[:-1][common]]
 
     if return_indices:
-        y_ind = y_ind[xy_where]
+        y_ind = y_first[order[1:][common] - len(x)]
         return ar1[x_ind], x_ind, y_ind
     else:
         return ar1[x_ind]
-- 
2.43.0


From 0241dabca5ff0ae1c1bbcd71be35a77df4c7d0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:01 +0000
Subject: [PATCH 16/67] fix: PeriodicPatternMiner.fit failed when different
 events share a timestamp

---
 skmine/periodic/cycles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 2dcb750..f87112b 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -124,10 +124,10 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             # same time AND with the same event. At this line, the second condition is not yet verified.
             len_S = len(serie)
             serie = serie.groupby(by=serie.index).apply(lambda x: x.drop_duplicates())
-            # if same time and same event,  create Multi inde names =[timestamp, timestamp]
+            # create Multi inde names =[timestamp, timestamp]
+            serie = serie.reset_index(level=0, drop=True)
             diff = len_S - len(serie)
             if diff:
-                serie = serie.reset_index(level=0, drop=True)
                 warnings.warn(f"found {diff} duplicates in the input sequence, they have been removed.")
 
         S_times_nano = serie.index.astype("int64")
-- 
2.43.0


From ecf0e0821c372a76d89fc6e0ad406fccff8d388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:01 +0000
Subject: [PATCH 17/67] fix: PeriodicPatternMiner missed the patterns of a log
 that is not in chronological order

---
 skmine/periodic/cycles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index f87112b..753abc3 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -130,6 +130,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             if diff:
                 warnings.warn(f"found {diff} duplicates in the input sequence, they have been removed.")
 
+        serie = serie.sort_index(kind="stable")  # cycles are searched in chronological order
         S_times_nano = serie.index.astype("int64")
         verbose = False
         if self.auto_time_scale:
-- 
2.43.0


From 5d5495db3b8965acb3ca89273cf320a8384ca649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:01 +0000
Subject: [PATCH 18/67] fix: transform, get_residuals, export and import of
 patterns failed with auto_time_scale=False

---
 skmine/periodic/cycles.py | 45 +++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 26 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 753abc3..f304ad7 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -143,6 +143,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         else:
             serie.index = S_times_nano
             resolution = "nano-second"
+            self.n_zeros_ = 0
             self.div_nb_sec_ = 1
 
         # TODO : merge self.div_nb_sec_ and self.n_zeros_ to just one number, by which nano-seconds are divided
@@ -210,17 +211,17 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         self.cycles = pd.DataFrame(patterns_list_of_dict)
 
-        if self.auto_time_scale:  # restore time in nano-second
-            self.cycles.loc[:, ["t0", "period_major"]] *= (10 ** self.n_zeros_) * self.div_nb_sec_
+        # restore time in nano-second
+        self.cycles.loc[:, ["t0", "period_major"]] *= (10 ** self.n_zeros_) * self.div_nb_sec_
 
-            if self.is_datetime_:
-                self.cycles.loc[:, "t0"] = self.cycles.t0.astype("datetime64[ns]")
-                self.cycles.loc[:, "period_major"] = self.cycles.period_major.astype("timedelta64[ns]")
-                self.cycles.loc[:, "E"] = self.cycles.E.map(np.array) * (10 ** self.n_zeros_ * self.div_nb_sec_)
+        if self.is_datetime_:
+            self.cycles.loc[:, "t0"] = self.cycles.t0.astype("datetime64[ns]")
+            self.cycles.loc[:, "period_major"] = self.cycles.period_major.astype("timedelta64[ns]")
+            self.cycles.loc[:, "E"] = self.cycles.E.map(np.array) * (10 ** self.n_zeros_ * self.div_nb_sec_)
 
-                def to_timedelta(x): return pd.to_timedelta(x, unit='ns')
+            def to_timedelta(x): return pd.to_timedelta(x, unit='ns')
 
-                self.cycles["E"] = self.cycles["E"].apply(lambda x: list(map(to_timedelta, x)))
+            self.cycles["E"] = self.cycles["E"].apply(lambda x: list(map(to_timedelta, x)))
         if dE_sum:
             self.cycles.rename(columns={"E": "sum_E"}, inplace=True)
             self.cycles["sum_E"] = self.cycles["sum_E"].apply(lambda x: np.sum(np.abs(x)))
@@ -338,10 +339,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             occs = p.getOccs(occsStar, t0, Ed)
 
             for k, occ in enumerate(occs):
-                if self.auto_time_scale:
-                    time0 = occ * 10 ** self.n_zeros_ * self.div_nb_sec_ # restore time in nano-second
-                else:
-                    time0 = occ
+                time0 = occ * 10 ** self.n_zeros_ * self.div_nb_sec_  # restore time in nano-second
                 dict_ = {'time': time0,
                          "event": map_ev[occsStar[k][1]]}
 
@@ -396,16 +394,13 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         residuals_transf_list = []
 
         for res in residuals:
-            if self.auto_time_scale:
-                time0 = res[0] * 10 ** self.n_zeros_ * self.div_nb_sec_  # restore time in nano-second
-            else:
-                time0 = res[0]
+            time0 = res[0] * 10 ** self.n_zeros_ * self.div_nb_sec_  # restore time in nano-second
             dict_ = {"time": time0, "event": map_ev[res[1]]}
             residuals_transf_list.append(dict_)
 
         residuals_transf_pd = pd.DataFrame(residuals_transf_list)
 
-        if self.auto_time_scale and self.is_datetime_:
+        if self.is_datetime_:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("datetime64[ns]")
         else:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("int64")
@@ -456,13 +451,12 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
                     pattern[nid]["event"] = list(self.data_details_.map_ev_num.keys())[int(pattern[nid]["event"])]
 
                 elif "p" in pattern[nid].keys():
-                    if self.auto_time_scale:
-                        pattern[nid]["p"] *= (10 ** self.n_zeros_ * self.div_nb_sec_)  # restore time in nano-second
-                        if self.is_datetime_:
-                            pattern[nid]["p"] = timedelta(microseconds=pattern[nid]["p"] / 1000)
+                    pattern[nid]["p"] *= (10 ** self.n_zeros_ * self.div_nb_sec_)  # restore time in nano-second
+                    if self.is_datetime_:
+                        pattern[nid]["p"] = timedelta(microseconds=pattern[nid]["p"] / 1000)
                     for i, child in enumerate(pattern[nid]["children"]):
                         new_distance = child[1]
-                        if i != 0 and self.auto_time_scale:
+                        if i != 0:
                             new_distance = child[1] * (
                                         10 ** self.n_zeros_ * self.div_nb_sec_)  # restore time in nano-second
                             if self.is_datetime_:
@@ -470,10 +464,9 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
                         pattern[nid]["children"][i] = (child[0], new_distance)
 
             elif nid == "t0":
-                if self.auto_time_scale:
-                    pattern["t0"] *= (10 ** self.n_zeros_ * self.div_nb_sec_)  # restore time in nano-second
-                    if self.is_datetime_:
-                        pattern["t0"] = datetime.utcfromtimestamp(pattern["t0"] / 1_000_000_000)
+                pattern["t0"] *= (10 ** self.n_zeros_ * self.div_nb_sec_)  # restore time in nano-second
+                if self.is_datetime_:
+                    pattern["t0"] = datetime.utcfromtimestamp(pattern["t0"] / 1_000_000_000)
 
         graph = draw_pattern(pattern)
         if directory:
-- 
2.43.0


From 9e6d3a5dc8ad028c5bf083a4aa4eec3faf15c641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:01 +0000
Subject: [PATCH 19/67] fix: reconstruct and get_residuals failed without any
 pattern or without any residual

---
 skmine/periodic/cycles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index f304ad7..e9df3ec 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -345,7 +345,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
                 reconstruct_list.append(dict_)
 
-        reconstruct_pd = pd.DataFrame(reconstruct_list)
+        reconstruct_pd = pd.DataFrame(reconstruct_list, columns=["time", "event"])
 
         if self.is_datetime_:
             reconstruct_pd['time'] = reconstruct_pd['time'].astype("datetime64[ns]")
@@ -398,7 +398,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             dict_ = {"time": time0, "event": map_ev[res[1]]}
             residuals_transf_list.append(dict_)
 
-        residuals_transf_pd = pd.DataFrame(residuals_transf_list)
+        residuals_transf_pd = pd.DataFrame(residuals_transf_list, columns=["time", "event"])
 
         if self.is_datetime_:
             residuals_transf_pd['time'] = residuals_transf_pd['time'].astype("datetime64[ns]")
-- 
2.43.0


From 400442b9d4412cd8149713805743c47c0a72f03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:38 +0000
Subject: [PATCH 20/67] fix: get_residuals of selected patterns missed
 occurrences of the other patterns

---
 skmine/periodic/cycles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index e9df3ec..149d909 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -407,7 +407,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
 
         reconstruct_ = self.reconstruct(patterns_id)
         reconstruct_all = self.reconstruct()
-        complementary_reconstruct = reconstruct_all[~reconstruct_all.isin(reconstruct_)].dropna()
+        complementary_reconstruct = pd.concat([reconstruct_all, reconstruct_, reconstruct_]).drop_duplicates(keep=False)
 
         if pd.merge(reconstruct_all, residuals_transf_pd, how='inner').empty:
             residuals_transf_pd = pd.concat([residuals_transf_pd, complementary_reconstruct], ignore_index=True)
-- 
2.43.0


From f6ba0997cb90018e7162bcd0420e60acf90cbe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:38 +0000
Subject: [PATCH 21/67] fix: export_patterns failed, or wrote patterns of
 earlier data, when there is no pattern

---
 skmine/periodic/cycles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 149d909..a037aff 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -207,6 +207,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
                                                                                is_datetime=self.is_datetime_)
 
         if not patterns_list_of_dict:
+            self.cycles = pd.DataFrame(columns=["pattern_json_tree"])
             return pd.DataFrame()  # FIXME
 
         self.cycles = pd.DataFrame(patterns_list_of_dict)
-- 
2.43.0


From a88174f53737794d75417f7580178908f0a7cc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:38 +0000
Subject: [PATCH 22/67] fix: imported patterns could not be exported again

---
 skmine/periodic/cycles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index a037aff..92da691 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -280,6 +280,7 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         self.div_nb_sec_ = big_dict["div_nb_sec_"]
         self.is_datetime_ = big_dict["is_datetime_"]
         self.data_details_ = DataSequence(dict(big_dict["data_details"]))
+        self.alpha_groups_ = {ev: pd.Index(times) for ev, times in big_dict["data_details"].items()}
         big_dict_list = big_dict["patterns"]
 
         patterns_list = []
-- 
2.43.0


From 57b6f3c07f7a4b7839e976da7af461c41a8b932c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:38 +0000
Subject: [PATCH 23/67] fix: import_patterns attached the wrong events to the
 patterns when events are not strings

---
 skmine/periodic/cycles.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 92da691..8b65e37 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -260,6 +260,9 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
             "patterns": big_dict_list
         }
 
+        if not all(isinstance(ev, str) for ev in data_dict):  # json keys are strings
+            big_dict["events"] = list(data_dict)
+
         big_json_str = json.dumps(big_dict)
         with open(file, "w") as f:
             f.write(big_json_str)
@@ -279,8 +282,11 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         self.n_zeros_ = big_dict["n_zeros_"]
         self.div_nb_sec_ = big_dict["div_nb_sec_"]
         self.is_datetime_ = big_dict["is_datetime_"]
-        self.data_details_ = DataSequence(dict(big_dict["data_details"]))
-        self.alpha_groups_ = {ev: pd.Index(times) for ev, times in big_dict["data_details"].items()}
+        data_dict = big_dict["data_details"]
+        if "events" in big_dict:
+            data_dict = dict(zip(big_dict["events"], data_dict.values()))
+        self.data_details_ = DataSequence(dict(data_dict))
+        self.alpha_groups_ = {ev: pd.Index(times) for ev, times in data_dict.items()}
         big_dict_list = big_dict["patterns"]
 
         patterns_list = []
-- 
2.43.0


From 4664d697e04e38317fc4f88c732ac62dd7101944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:38 +0000
Subject: [PATCH 24/67] fix: shift corrections of an integer log were not given
 in the unit of the log

---
 skmine/periodic/cycles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 8b65e37..93b3d50 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -215,10 +215,11 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
         # restore time in nano-second
         self.cycles.loc[:, ["t0", "period_major"]] *= (10 ** self.n_zeros_) * self.div_nb_sec_
 
+        self.cycles["E"] = self.cycles.E.apply(lambda x: [e * (10 ** self.n_zeros_ * self.div_nb_sec_) for e in x])
+
         if self.is_datetime_:
             self.cycles.loc[:, "t0"] = self.cycles.t0.astype("datetime64[ns]")
             self.cycles.loc[:, "period_major"] = self.cycles.period_major.astype("timedelta64[ns]")
-            self.cycles.loc[:, "E"] = self.cycles.E.map(np.array) * (10 ** self.n_zeros_ * self.div_nb_sec_)
 
             def to_timedelta(x): return pd.to_timedelta(x, unit='ns')
 
-- 
2.43.0


From 51ddf99b7c66a6bd3817b2015d8187d0ba7e7662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:38 +0000
Subject: [PATCH 25/67] fix: patterns of an integer log were displayed with
 periods in another unit than the log

---
 skmine/periodic/pattern.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skmine/periodic/pattern.py b/skmine/periodic/pattern.py
index a0eafca..ac9af55 100644
--- a/skmine/periodic/pattern.py
+++ b/skmine/periodic/pattern.py
@@ -910,16 +910,17 @@ class Pattern(object):
         if self.isInterm(nid):
             r = self.nodes[nid].get("r", "-")
             p = self.nodes[nid].get("p", "-")
-            if is_datetime:
+            if p != "-" and p is not None:
                 p *= (10 ** n_zeros * div_nb_sec) # restore time in nano-second
+            if is_datetime:
                 p = timedelta(microseconds=p / 1000)
             ss = "[r=%s p=%s]" % (r, p)
             sc = ""
             for ni, nn in enumerate(self.nodes[nid]["children"]):
                 if ni > 0:
                     d = nn[1]
+                    d *= (10 ** n_zeros * div_nb_sec) # restore time in nano-second
                     if is_datetime:
-                        d *= (10 ** n_zeros * div_nb_sec) # restore time in nano-second
                         d = timedelta(microseconds=d / 1000)
                     sc += " [d=%s] " % d
                 sc += self.__str__(nn[0], map_ev, leaves_first, n_zeros, div_nb_sec, is_datetime)
-- 
2.43.0


From 825e6cbd83f85f6a3eb1ed1ff9bac5c0ed436d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:38 +0000
Subject: [PATCH 26/67] fix: PeriodicPatternMiner misread a datetime index
 whose resolution is not the nanosecond

---
 skmine/periodic/cycles.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skmine/periodic/cycles.py b/skmine/periodic/cycles.py
index 93b3d50..78986d7 100644
--- a/skmine/periodic/cycles.py
+++ b/skmine/periodic/cycles.py
@@ -131,7 +131,10 @@ class PeriodicPatternMiner(TransformerMixin, BaseEstimator):
                 warnings.warn(f"found {diff} duplicates in the input sequence, they have been removed.")
 
         serie = serie.sort_index(kind="stable")  # cycles are searched in chronological order
-        S_times_nano = serie.index.astype("int64")
+        if self.is_datetime_:  # whatever the resolution of the index is
+            S_times_nano = pd.Index(serie.index.values.astype("datetime64[ns]").astype("int64"))
+        else:
+            S_times_nano = serie.index.astype("int64")
         verbose = False
         if self.auto_time_scale:
             converted_times_res, n_digit_nano_shifted, resolution, div_nb_sec = autoscale_time_unit(S_times_nano,
-- 
2.43.0


From 4d2d13f20e3206d43b8d1bb570f752413d4d7c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:07 +0000
Subject: [PATCH 27/67] fix: concatenated periodic patterns did not denote
 their occurrences when a block has several children

---
 skmine/periodic/run_mine.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/skmine/periodic/run_mine.py b/skmine/periodic/run_mine.py
index d1d6184..b34918f 100644
--- a/skmine/periodic/run_mine.py
+++ b/skmine/periodic/run_mine.py
@@ -162,6 +162,8 @@ def prepare_candidate_concats(cands, p0, r0, first_rs):
     offset = 0
     Pblks_occs = []
     Pblks_errs = []
+    ds = []  # distance from the last child of the previous block to the first child of each block
+    refs = []  # position, in each block, of the first occurrence of its last child
     for ci, cand in enumerate(cands):
 
         Pblks_occs.append(cand.getBlocksO(first_rs[ci]))
@@ -171,13 +173,14 @@ def prepare_candidate_concats(cands, p0, r0, first_rs):
         offset -= 1
         ch = nodes.pop(nmap[0])["children"]
         if ci > 0:
-            ch[0] = (ch[0][0], Pblks_occs[ci][0][0] - Pblks_occs[ci - 1][0][0])
+            ch[0] = (ch[0][0], Pblks_occs[ci][0][0] - Pblks_occs[ci - 1][0][refs[ci - 1]])
+        ds.append(ch[0][1])
+        refs.append(len(Pblks_occs[ci][0]) - Pattern(nodes).getNbOccs(ch[-1][0]))
         tree[0]["children"].extend(ch)
         for c in ch:
             nodes[c[0]]["parent"] = 0
         tree.update(nodes)
 
-    ds = [c[1] for c in tree[0]["children"]]
     O = []
     E = []
     for ri in range(r0):
@@ -187,7 +190,7 @@ def prepare_candidate_concats(cands, p0, r0, first_rs):
                 if ri != 0:
                     E.append((Pblks_occs[ei][ri][0] - Pblks_occs[ei][ri - 1][0]) - p0)
             else:
-                E.append((Pblks_occs[ei][ri][0] - Pblks_occs[ei - 1][ri][0]) - ds[ei])
+                E.append((Pblks_occs[ei][ri][0] - Pblks_occs[ei - 1][ri][refs[ei - 1]]) - ds[ei])
             E.extend(Pblks_errs[ei][ri])
     p = Pattern(tree)
     return Candidate(-1, p, O, E)
-- 
2.43.0


From 48769ec8df8d8308901f2b01876bd7e569e815cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:26 +0000
Subject: [PATCH 28/67] fix: GraphMDL no longer calls its logger as a function

---
 skmine/graph/graphmdl/graph_mdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 70a4d3b..f4b75cd 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -152,7 +152,7 @@ class GraphMDL(BaseMiner):
                             # if the candidate not improve the result, remove it to the code table
                             self._code_table.remove_row(row)
                     else:
-                        utils.MyLogger().debug("Already test")
+                        utils.MyLogger.debug("Already test")
             else:
                 stop = self._graph_mdl_end()
                 if self._timeout is not None:
-- 
2.43.0


From 0b0846dc490c7701d4c850b614698374bd2693e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:26 +0000
Subject: [PATCH 29/67] fix: GraphMDL merged node labels stay hashable tuples

---
 skmine/graph/graphmdl/candidate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/skmine/graph/graphmdl/candidate.py b/skmine/graph/graphmdl/candidate.py
index 83163b4..4dc083e 100644
--- a/skmine/graph/graphmdl/candidate.py
+++ b/skmine/graph/graphmdl/candidate.py
@@ -142,7 +142,7 @@ class Candidate:
         second_label
         Returns
         -------
-        list
+        str or tuple
         """
         if type(second_label) is str:
             if type(first_label) is str:
@@ -156,7 +156,7 @@ class Candidate:
                 for l in first_label:
                     if l not in label:
                         label.append(l)
-                return label
+                return tuple(label)
         else:
             label = list(second_label)
             if type(first_label) is str:
@@ -166,7 +166,7 @@ class Candidate:
                 for l in first_label:
                     if l not in label:
                         label.append(l)
-            return label
+            return tuple(label)
 
     def _is_ports_equals(self, ports):
         """ Check if the candidate ports list are similar to a given ports list
-- 
2.43.0


From b5a8f03f71c2d6dae5e78a05d5ebd780b4be094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:34 +0000
Subject: [PATCH 30/67] fix: GraphMDL.fit stops when no candidate is left that
 improves the code table

---
 skmine/graph/graphmdl/graph_mdl.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index f4b75cd..f66702d 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -121,6 +121,7 @@ class GraphMDL(BaseMiner):
                         if self._timeout is not None:
                             current = time.time() - begin
                             if self._stop_by_time(current, self._timeout):
+                                stop = True
                                 break
                         self._compute_old_usage()
                         row = CodeTableRow(candidate.final_pattern())
@@ -139,20 +140,16 @@ class GraphMDL(BaseMiner):
                             self._compute_pruning_candidates()
                             self._pruning()
                             break
-                        elif temp_code_length > self._description_length and candidates.index(candidate) == len(
-                                candidates) - 1:
-                            utils.MyLogger.info("None best code table found")
-                            utils.MyLogger.info(f"search time = {time.time() - b}")
-                            self._code_table.remove_row(row)
-                            stop = self._graph_mdl_end()
-                            if self._timeout is not None:
-                                current = self._timeout
-                            break
                         else:
                             # if the candidate not improve the result, remove it to the code table
                             self._code_table.remove_row(row)
                     else:
                         utils.MyLogger.debug("Already test")
+                else:
+                    # no candidate improves the code table
+                    utils.MyLogger.info("None best code table found")
+                    utils.MyLogger.info(f"search time = {time.time() - b}")
+                    stop = self._graph_mdl_end()
             else:
                 stop = self._graph_mdl_end()
                 if self._timeout is not None:
-- 
2.43.0


From 0e84028a2cd929462705a9e43e7064df3bfac047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:01 +0000
Subject: [PATCH 31/67] fix: GraphMDL pruning failed on rows already removed
 and left stale usages behind

---
 skmine/graph/graphmdl/graph_mdl.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index f66702d..2ff2486 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -115,6 +115,7 @@ class GraphMDL(BaseMiner):
                     break
             if len(candidates) != 0:
                 b = time.time()
+                self._compute_old_usage()
                 for candidate in candidates:
                     if candidate not in self._already_test:
                         # Add a candidate to a ct, cover and compute description length
@@ -123,7 +124,6 @@ class GraphMDL(BaseMiner):
                             if self._stop_by_time(current, self._timeout):
                                 stop = True
                                 break
-                        self._compute_old_usage()
                         row = CodeTableRow(candidate.final_pattern())
                         self._code_table.add_row(row)
                         self._code_table.cover()
@@ -222,7 +222,7 @@ class GraphMDL(BaseMiner):
         """
         for r in self._code_table.rows():
             if r.pattern() in self._old_usage.keys():
-                if r.pattern_usage() < self._old_usage[r.pattern()]:
+                if r.pattern_usage() < self._old_usage[r.pattern()] and r not in self._pruning_rows:
                     self._pruning_rows.append(r)
 
     def _pruning(self):
@@ -233,19 +233,21 @@ class GraphMDL(BaseMiner):
             because without them the code table is better.
         """
         utils.MyLogger.info(f"Pruning start ....")
-        self._compute_old_usage()  # compute old pattern usage
-        self._pruning_rows.sort(key=_order_pruning_rows)  # sort the pruning rows
-        for r in self._pruning_rows:
+        while self._pruning_rows:
+            self._pruning_rows.sort(key=_order_pruning_rows)  # sort the pruning rows
+            r = self._pruning_rows.pop(0)
+            self._compute_old_usage()  # compute old pattern usage
             self._code_table.remove_row(r)
             self._code_table.cover()
-            if self._code_table.compute_total_description_length() < self._description_length:
+            temp_code_length = self._code_table.compute_total_description_length()
+            if temp_code_length < self._description_length:
                 self._rewritten_graph = self._code_table.rewritten_graph()
-                self._description_length = self._code_table.compute_total_description_length()
-                self._pruning_rows.remove(r)
+                self._description_length = temp_code_length
                 self._compute_pruning_candidates()  # recompute the pruning candidates
-                self._pruning()
             else:
+                # the row is useful: put it back, with the cover it had
                 self._code_table.add_row(r)
+                self._code_table.cover()
 
         utils.MyLogger.info("Pruning end ....")
 
-- 
2.43.0


From 6136797df0a2157481918a045f7c1971acbda973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:01 +0000
Subject: [PATCH 32/67] fix: GraphMDL kept the timeout of an earlier fit

---
 skmine/graph/graphmdl/graph_mdl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 2ff2486..4a572dc 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -52,6 +52,7 @@ class GraphMDL(BaseMiner):
             the initial code table (CT0), and run a cover computation to create the first rewritten graph.
         """
         self._already_test = []
+        self._pruning_rows = []
         self._label_codes = LabelCodes(self._data)  # label codes creation
         # CT0 creation
         self._code_table = CodeTable(self._label_codes, self._data)
@@ -78,8 +79,7 @@ class GraphMDL(BaseMiner):
             -------
             GraphMDL
         """
-        if timeout is not None and timeout != 0:
-            self._timeout = timeout
+        self._timeout = timeout if timeout != 0 else None
         if D is None:
             raise ValueError("You should give a graph")
         else:
-- 
2.43.0


From 9fb49d2a76dca918ce0feae1bb83484d4cfc7630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:01 +0000
Subject: [PATCH 33/67] fix: GraphMDL.patterns left out the pattern that covers
 the whole graph

---
 skmine/graph/graphmdl/graph_mdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 4a572dc..c3fd386 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -262,7 +262,7 @@ class GraphMDL(BaseMiner):
         self._patterns = set()
         if self._code_table is not None:
             for r in self._code_table.rows():
-                if r.code_length() != 0:
+                if r.pattern_usage() != 0:
                     self._patterns.add(r.pattern())
 
             for s in self._code_table.singleton_code_length().keys():
-- 
2.43.0


From 4382f320439808985ea44a292126a96d535ca210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:09 +0000
Subject: [PATCH 34/67] fix: embeddings in a multigraph compared only the first
 of several parallel edges

---
 skmine/graph/graphmdl/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/utils.py b/skmine/graph/graphmdl/utils.py
index 2f5b8fc..54db2c3 100644
--- a/skmine/graph/graphmdl/utils.py
+++ b/skmine/graph/graphmdl/utils.py
@@ -337,8 +337,8 @@ def _edge_match_for_multigraph(edge1, edge2):
     """
     edge1_values = dict(edge1).values()
     edge2_values = dict(edge2).values()
-    edge1_labels = [list(edge1_values)[0][i] for i in list(edge1_values)[0].keys() if i == 'label']
-    edge2_labels = [list(edge2_values)[0][i] for i in list(edge2_values)[0].keys() if i == 'label']
+    edge1_labels = [edge['label'] for edge in edge1_values if 'label' in edge]
+    edge2_labels = [edge['label'] for edge in edge2_values if 'label' in edge]
     if len(edge2_labels) != 0 and len(edge1_labels) != 0:
         return not (False in [label in edge1_labels for label in edge2_labels])
     else:
-- 
2.43.0


From b53aef13612dd6a43c439b618adb3fa0cd8bb94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:09 +0000
Subject: [PATCH 35/67] fix: GraphMDL took an embedding for a port when its
 label is the number of a node

---
 skmine/graph/graphmdl/code_table.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index ac22bdb..1204550 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -742,8 +742,9 @@ class CodeTable:
         rewritten_node
         data_node : the port node in the initial data graph
         """
-        if str(data_node) in dict(rewritten_graph.nodes(data='label')).values():
-            port_node = utils.get_key_from_value(dict(rewritten_graph.nodes(data='label')), str(data_node))
+        ports = {node: attr['label'] for node, attr in rewritten_graph.nodes(data=True) if 'is_Pattern' not in attr}
+        if str(data_node) in ports.values():
+            port_node = utils.get_key_from_value(ports, str(data_node))
             rewritten_graph.add_edge(rewritten_node, port_node, label=f"v{kwargs['pattern_port']}")
         else:
             last = len(rewritten_graph.nodes())
-- 
2.43.0


From 426cead4eff6cd89c1e34cfd883a6cdc6aea5aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:09 +0000
Subject: [PATCH 36/67] fix: GraphMDL encoded the numbers of the ports of a
 pattern instead of their usages

---
 skmine/graph/graphmdl/code_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 1204550..1572b9a 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -174,7 +174,7 @@ class CodeTable:
                  if 'is_Pattern' not in node[1]])
 
             # edges labels
-            edges_label = [utils.prequential_code([v for v in row.pattern_port_usage().keys()])
+            edges_label = [utils.prequential_code([v for v in row.pattern_port_usage().values()])
                            for row in self._rows if row.pattern_usage() != 0]
             # the code for vertex pattern is zero
             edges_label.extend([utils.prequential_code([v, v]) for v in self._edge_singleton_usage.values()])
-- 
2.43.0


From 1177f0c12d60d95ba584287590a2b86cea238343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:05 +0000
Subject: [PATCH 37/67] fix: GraphMDL lost which embedding a node belongs to
 when a pattern without edges covers its labels

---
 skmine/graph/graphmdl/code_table.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 1572b9a..a110a1a 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -620,7 +620,8 @@ class CodeTable:
         i = 0
         while i <= len(keys) - 1:
             if not self.is_node_edges_marked(graph, keys[i], pattern, values[i]) \
-                    or not self.is_node_all_labels_marked(keys[i], graph, cover_marker):
+                    or not self.is_node_all_labels_marked(keys[i], graph, cover_marker) \
+                    or not self.is_node_labels_in_pattern(graph, keys[i], pattern, values[i]):
                 res.append((keys[i], values[i]))
                 if 'port' not in graph.nodes[keys[i]]:  # if the node is not already marked as port
                     graph.nodes[keys[i]]['port'] = True  # mark it
@@ -658,6 +659,25 @@ class CodeTable:
         else:
             raise ValueError(f"{graph_node} should be a nod of the graph and {pattern_node}, a node of pattern")
 
+    def is_node_labels_in_pattern(self, graph, graph_node, pattern, pattern_node):
+        """ Check if all the labels of a graph node are labels of the corresponding pattern node
+        Parameters
+        ----------
+        graph
+        graph_node
+        pattern
+        pattern_node
+
+        Returns
+        ---------
+        bool
+        """
+        graph_labels = graph.nodes[graph_node].get('label', ())
+        pattern_labels = pattern.nodes[pattern_node].get('label', ())
+        graph_labels = {graph_labels} if type(graph_labels) is str else set(graph_labels)
+        pattern_labels = {pattern_labels} if type(pattern_labels) is str else set(pattern_labels)
+        return graph_labels <= pattern_labels
+
     def is_node_all_labels_marked(self, node_number, graph, cover_marker):
         """ Check if all node labels are marked by the cover_marker
         Parameters
-- 
2.43.0


From 1eb8883d1164b09435b737506f8980f825dbbb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:46 +0000
Subject: [PATCH 38/67] fix: GraphMDL did not count the edge labels that are
 also vertex labels

---
 skmine/graph/graphmdl/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/skmine/graph/graphmdl/utils.py b/skmine/graph/graphmdl/utils.py
index 54db2c3..7fbe492 100644
--- a/skmine/graph/graphmdl/utils.py
+++ b/skmine/graph/graphmdl/utils.py
@@ -107,11 +107,10 @@ def get_total_label(graph: Graph):
          float
     """
 
-    labels = count_edge_label(graph)
-    labels.update(count_vertex_label(graph))
     total = 0.0  # The total number of labels in the graph
-    for i in labels.values():
-        total = total + i
+    for labels in (count_edge_label(graph), count_vertex_label(graph)):
+        for i in labels.values():
+            total = total + i
 
     return total
 
-- 
2.43.0


From 4da455b9542a2aec30089b08ed3e47d8ca688ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:34 +0000
Subject: [PATCH 39/67] fix: GraphMDL skipped candidates that bear the row
 numbers of others tested before

---
 skmine/graph/graphmdl/graph_mdl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index c3fd386..8f059e4 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -139,6 +139,8 @@ class GraphMDL(BaseMiner):
                             utils.MyLogger.info(f"search time = {time.time() - b}")
                             self._compute_pruning_candidates()
                             self._pruning()
+                            # candidates name rows by their rank, which the new code table changes
+                            self._already_test = []
                             break
                         else:
                             # if the candidate not improve the result, remove it to the code table
-- 
2.43.0


From 057bed476672023d536c1e4a7f0327721a8db533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:27 +0000
Subject: [PATCH 40/67] fix: GraphMDL took the marks of another cover for its
 own on graphs copied from one it has covered

---
 skmine/graph/graphmdl/code_table.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index a110a1a..77a8e31 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -1,5 +1,6 @@
 import math
 import time
+import uuid
 from collections import defaultdict
 
 import networkx as nx
@@ -85,13 +86,9 @@ class CodeTable:
             the cover marker is get from the data graph
         """
         b = time.time()
-        # Get the cover marker and increment it
-        if 'cover_marker' in self._data_graph.graph:
-            self._data_graph.graph['cover_marker'] += 1
-        else:
-            self._data_graph.graph['cover_marker'] = 1
-
-        cover_marker = self._data_graph.graph['cover_marker']  # the current cover marker
+        # A cover marker that no other cover uses: graphs copied or built from this one share its marks
+        cover_marker = uuid.uuid4().hex
+        self._data_graph.graph['cover_marker'] = cover_marker
 
         self._rewritten_graph = nx.DiGraph()  # reset the rewritten graph before each cover
 
-- 
2.43.0


From b5565c848faa785c59ea0cf643b10bbb4e368da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:27 +0000
Subject: [PATCH 41/67] fix: GraphMDL kept the ports and the used embeddings of
 earlier covers

---
 skmine/graph/graphmdl/code_table.py     | 3 +++
 skmine/graph/graphmdl/code_table_row.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 77a8e31..12b87c0 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -91,6 +91,8 @@ class CodeTable:
         self._data_graph.graph['cover_marker'] = cover_marker
 
         self._rewritten_graph = nx.DiGraph()  # reset the rewritten graph before each cover
+        for _, attributes in self._data_graph.nodes(data=True):
+            attributes.pop('port', None)  # the ports of an earlier cover
 
         for row in self._rows:
             self.row_cover(row, self._data_graph, cover_marker, self._rewritten_graph, self.rows().index(row))
@@ -780,6 +782,7 @@ class CodeTable:
         """
         cover_usage = 0
         port_usage = dict()
+        row.reset_used_embeddings()
         if not utils.is_without_edge(row.pattern()):
             for embedding in row.embeddings():
                 if not self.is_embedding_marked(embedding, row.pattern(), graph, cover_marker):
diff --git a/skmine/graph/graphmdl/code_table_row.py b/skmine/graph/graphmdl/code_table_row.py
index bedf673..70f6b55 100644
--- a/skmine/graph/graphmdl/code_table_row.py
+++ b/skmine/graph/graphmdl/code_table_row.py
@@ -96,6 +96,9 @@ class CodeTableRow:
     def add_used_embeddings(self, embedding):
         self._used_embeddings.append(embedding)
 
+    def reset_used_embeddings(self):
+        self._used_embeddings = []
+
     def used_embeddings(self):
         return self._used_embeddings
 
-- 
2.43.0


From 8f010e9801b3f9a9084f016ce44f592095c074f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:55 +0000
Subject: [PATCH 42/67] fix: GraphMDL gave the same arrival number to several
 rows, so a row put back changed the order of the table

---
 skmine/graph/graphmdl/code_table.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 12b87c0..913ef5b 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -32,6 +32,7 @@ class CodeTable:
     def __init__(self, standard_table, graph):
         self._standard_table = standard_table  # A initial code table
         self._rows = []  # All rows of the code table
+        self._arrivals = 0  # Number of rows added so far
         self._description_length = 0.0  # the description length of this code table
         self._data_graph = graph  # The graph where we want to apply the code table elements
         """ We don't store singleton pattern ports because each singleton pattern node is its port,
@@ -52,7 +53,8 @@ class CodeTable:
         row
         """
         if row.arrival_number is None:
-            row.arrival_number = len(self._rows) + 1
+            self._arrivals += 1
+            row.arrival_number = self._arrivals
 
         self._rows.append(row)  # Add the new row at the end of the list
 
-- 
2.43.0


From a9d7e389f92027b7acae05461724e5038ffb1b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:08 +0000
Subject: [PATCH 43/67] fix: GraphMDL.discover failed on every code table with
 a pattern in use

---
 skmine/graph/graphmdl/code_table_row.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/code_table_row.py b/skmine/graph/graphmdl/code_table_row.py
index 70f6b55..68487c8 100644
--- a/skmine/graph/graphmdl/code_table_row.py
+++ b/skmine/graph/graphmdl/code_table_row.py
@@ -179,7 +179,7 @@ class CodeTableRow:
         -------
         list
         """
-        return [utils.draw_pattern(self._pattern), self._pattern_usage, self._code_length,
+        return [utils.display_graph(self._pattern), self._pattern_usage, self._code_length,
                 len(self._pattern_port_usage),
                 self._pattern_port_usage, self._port_code_length]
 
-- 
2.43.0


From bd35e86e77bc7ae32436b04e151ed7201124dd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:08 +0000
Subject: [PATCH 44/67] fix: GraphMDL displayed the code lengths of singletons
 as their usages

---
 skmine/graph/graphmdl/code_table.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 913ef5b..4ad0360 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -4,7 +4,6 @@ import uuid
 from collections import defaultdict
 
 import networkx as nx
-import numpy
 import pandas
 
 import skmine.graph.graphmdl.utils as utils
@@ -324,9 +323,10 @@ class CodeTable:
         object
         """
         data = [row.display_row() for row in self._rows if row.pattern_usage() != 0]
-        for u, v in self._singleton_code_length.items():
-            data.append([u, v, '', '', '', ''])
-        return pandas.DataFrame(numpy.array(data),
+        for usages in (self._vertex_singleton_usage, self._edge_singleton_usage):
+            for u, v in usages.items():
+                data.append([u, v, self._singleton_code_length[u], '', '', ''])
+        return pandas.DataFrame(data,
                                 columns=['Pattern Structure', 'Pattern usage', 'Pattern code length',
                                          'Port count', 'Pattern port usage',
                                          'Pattern port code length'])
-- 
2.43.0


From b13260dfd88bfdac2a56da5df3599a66a51dad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:08 +0000
Subject: [PATCH 45/67] fix: GraphMDL.discover listed the singletons among the
 patterns that are not

---
 skmine/graph/graphmdl/graph_mdl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 8f059e4..6e40ac4 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -303,8 +303,9 @@ class GraphMDL(BaseMiner):
             print(self._code_table.display_ct())
             print("final description length : ", self._description_length)
             print("Non singleton patterns found : ")
-            for p in self.patterns():
-                print('\n', utils.display_graph(p))
+            for r in self._code_table.rows():
+                if r.pattern_usage() != 0:
+                    print('\n', utils.display_graph(r.pattern()))
             if len(self._code_table.singleton_code_length()) != 0:
                 print("Singleton patterns found : ")
                 for s in self._code_table.singleton_code_length().keys():
-- 
2.43.0


From 604d108865340b2b9513c7f8b1d77ebcbc435bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:38 +0000
Subject: [PATCH 46/67] fix: GraphMDL.patterns before fit returned an exception
 instead of raising it

---
 skmine/graph/graphmdl/graph_mdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/graph/graphmdl/graph_mdl.py b/skmine/graph/graphmdl/graph_mdl.py
index 6e40ac4..30ce179 100644
--- a/skmine/graph/graphmdl/graph_mdl.py
+++ b/skmine/graph/graphmdl/graph_mdl.py
@@ -273,7 +273,7 @@ class GraphMDL(BaseMiner):
             return self._patterns
 
         else:
-            return ValueError("The fit method must be called first")
+            raise ValueError("The fit method must be called first")
 
     def description_length(self):
         """
-- 
2.43.0


From a6e93fefc1ae664c36dfe2f59a5f6699224b6ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:27 +0000
Subject: [PATCH 47/67] fix: files with an empty transaction could not be read

---
 skmine/datasets/fimi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/datasets/fimi.py b/skmine/datasets/fimi.py
index 2e4b5b5..5d1e03c 100644
--- a/skmine/datasets/fimi.py
+++ b/skmine/datasets/fimi.py
@@ -45,7 +45,8 @@ def _read_dat(filepath, int_values=True, separator=' ', zip=False):
               f"deleted.")
         raise
 
-    transactions = [[int(item) if int_values else item for item in line.rstrip().split(separator)] for line in lines]
+    transactions = [[int(item) if int_values else item for item in line.rstrip().split(separator)] if line.strip() else []
+                    for line in lines]
 
     return transactions
 
-- 
2.43.0


From 1d6ea1db0831cf65c2e0f7368ebc288a68683706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:27 +0000
Subject: [PATCH 48/67] fix: datasets could not be fetched into a data_home
 that does not exist yet

---
 skmine/datasets/fimi.py     | 2 +-
 skmine/datasets/periodic.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/skmine/datasets/fimi.py b/skmine/datasets/fimi.py
index 5d1e03c..ebae83a 100644
--- a/skmine/datasets/fimi.py
+++ b/skmine/datasets/fimi.py
@@ -103,7 +103,7 @@ def fetch_any(filename, base_url=BASE_URL_FIMI, data_home=None):
         Transactions from the requested dataset,
         as an in-memory pandas Series
     """
-    data_home = data_home or get_data_home()
+    data_home = get_data_home(data_home)
     filepath = os.path.join(data_home, filename)
     name, _ = os.path.splitext(filename)
     if filename in os.listdir(data_home):  # already fetched
diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index 52ccf74..084565e 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -83,7 +83,7 @@ def fetch_health_app(data_home=None, filename="health_app.csv"):
         System logs from the health app dataset, as an in-memory pandas Series.
         Events are indexed by timestamps.
     """
-    data_home = data_home or get_data_home()
+    data_home = get_data_home(data_home)
     p = os.path.join(data_home, filename)
     kwargs = dict(header=None, index_col=0, dtype="string")
     if filename in os.listdir(data_home):
@@ -139,7 +139,7 @@ def fetch_canadian_tv(data_home=None, filename="canadian_tv.txt"):
     -------
     skmine.datasets.get_data_home
     """
-    data_home = data_home or get_data_home()
+    data_home = get_data_home(data_home)
     p = os.path.join(data_home, filename)
     kwargs = dict(header=None, dtype="string", index_col=0)
 
@@ -187,7 +187,7 @@ def fetch_ubiq(user_filename="25_F_ISE_data.dat", data_home=None):  # pragma : n
     -------
     skmine.datasets.get_data_home
     """
-    data_home = data_home or get_data_home()
+    data_home = get_data_home(data_home)
     ubiq_dir = os.path.join(data_home, 'UbiqLog')
     user_ubiq_dir = os.path.join(ubiq_dir, 'users_ubiq')
     if not os.path.exists(ubiq_dir):
-- 
2.43.0


From 638d3e0b76b1046a73072daa1cdeec812429a7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:27 +0000
Subject: [PATCH 49/67] fix: integer timestamps of a log file were read as
 years

---
 skmine/datasets/periodic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index 084565e..5ad2c5c 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -42,9 +42,9 @@ def fetch_file(filepath, separator=',', format=None):
     if type(s) == pd.DataFrame:
         s = pd.Series(s[1].values, index=s[0])
         try:
-            s.index = pd.to_datetime(s.index, format=format)
+            s.index = s.index.astype("int64") if format is None else pd.to_datetime(s.index, format=format)
         except ValueError:
-            s.index = s.index.astype("int64")
+            s.index = pd.to_datetime(s.index) if format is None else s.index.astype("int64")
     s.index.name = "timestamp"
     s.name = filepath
     return s
-- 
2.43.0


From 6fd3dd013c095b5de29aecdbed3f8efb4c71aac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:09 +0000
Subject: [PATCH 50/67] fix: events of a log file named NA or null were read as
 missing values

---
 skmine/datasets/periodic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index 5ad2c5c..a488776 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -38,7 +38,8 @@ def fetch_file(filepath, separator=',', format=None):
         Logs from the custom dataset, as an in-memory pandas Series.
         Events are indexed by timestamps.
     """
-    s = pd.read_csv(filepath, sep=separator, header=None, dtype="string", skipinitialspace=True).squeeze(axis="columns")
+    s = pd.read_csv(filepath, sep=separator, header=None, dtype="string", skipinitialspace=True,
+                    keep_default_na=False).squeeze(axis="columns")
     if type(s) == pd.DataFrame:
         s = pd.Series(s[1].values, index=s[0])
         try:
-- 
2.43.0


From 0f96d59a0646e76c771286e40d2d285dcdf47e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:09 +0000
Subject: [PATCH 51/67] fix: ubiq logs were written in minutes and read in
 seconds

---
 skmine/datasets/periodic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/datasets/periodic.py b/skmine/datasets/periodic.py
index a488776..aec4f07 100644
--- a/skmine/datasets/periodic.py
+++ b/skmine/datasets/periodic.py
@@ -315,7 +315,7 @@ def parse_all_user(infile: str, out_dir: str, min_occ=10) -> None:  # pragma : n
             evs_tmp = [d for d in dt["ev"] if dt["counts"].get(d[1], 0) > min_occ]
             if len(evs_tmp) > min_occ:
                 evs_tmp = sorted(evs_tmp)
-                evs = sorted([(int((d[0] - evs_tmp[0][0]).total_seconds() / 60), d[-1]) for d in evs_tmp])
+                evs = sorted([(int((d[0] - evs_tmp[0][0]).total_seconds()), d[-1]) for d in evs_tmp])
                 with open("%s/%s_ISE_data.dat" % (out_dir, user), "w") as fo:
                     fo.write("### user=%s\tstart_time=%s\n" % (user, evs_tmp[0][0]))
                     prev = None
-- 
2.43.0


From a8c870c593dfb4cfa7de75130569a7c489bf3343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:09 +0000
Subject: [PATCH 52/67] fix: make_classification shuffled without its
 random_state

---
 skmine/datasets/_samples_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index 51177f6..b564df4 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -175,6 +175,6 @@ def make_classification(
     df = pd.concat(dfs, axis=0)
 
     if shuffle:
-        df = df.sample(frac=1)
+        df = df.sample(frac=1, random_state=random_state)
 
     return df["transaction"], df["class"]
-- 
2.43.0


From a646568ae0324f35fad7ee2bee5fc1f6acd4fd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:09 +0000
Subject: [PATCH 53/67] fix: make_classification generated fewer than n_samples
 samples

---
 skmine/datasets/_samples_generator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index b564df4..7615f7d 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -72,7 +72,7 @@ def make_transactions(
         p=0.5,  # centered around avg_transaction_size
         size=n_transactions,
     )
-    max_size = t_sizes.max()
+    max_size = t_sizes.max(initial=0)
     if max_size > n_items:
         delta = max_size - n_items
         t_sizes = np.clip(t_sizes, a_min=t_sizes.min() + delta, a_max=n_items)
@@ -150,9 +150,13 @@ def make_classification(
 
     res = dict()
 
+    class_sizes = [int(weight * n_samples) for weight in weights]
+    for i in range(n_samples - sum(class_sizes)):  # the samples lost by rounding down
+        class_sizes[i % n_classes] += 1
+
     padding = 0
     for _class in range(n_classes):
-        _n_samples = int(weights[_class] * n_samples)
+        _n_samples = class_sizes[_class]
         density = densities[_class]
         transactions = make_transactions(
             n_transactions=_n_samples,
-- 
2.43.0


From 4aec77466479fae92766741b0d3f98772812a462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:02 +0000
Subject: [PATCH 54/67] fix: make_transactions rejected the RandomState
 instances it documents

---
 skmine/datasets/_samples_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index 7615f7d..6e84f62 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -5,6 +5,7 @@ Mainly for benchmarks and experiments
 
 import numpy as np
 import pandas as pd
+from sklearn.utils import check_random_state
 
 
 def make_transactions(
@@ -63,7 +64,7 @@ def make_transactions(
 
     avg_transaction_size = density * n_items
 
-    generator = np.random.RandomState(random_state)  # pylint: disable= no-member
+    generator = check_random_state(random_state)
 
     item_stop = item_start + n_items
     choices = np.arange(start=item_start, stop=item_stop)
-- 
2.43.0


From 9046a7cb8302f23f5d01e0e51c879ff6d8887b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:35 +0000
Subject: [PATCH 55/67] fix: make_classification failed when a class gets no
 sample

---
 skmine/datasets/_samples_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/datasets/_samples_generator.py b/skmine/datasets/_samples_generator.py
index 6e84f62..0c765b0 100644
--- a/skmine/datasets/_samples_generator.py
+++ b/skmine/datasets/_samples_generator.py
@@ -174,7 +174,7 @@ def make_classification(
     dfs = list()
     for _class, transactions in res.items():
         df = transactions.to_frame(name="transaction")
-        df.loc[:, "class"] = _class
+        df["class"] = _class
         dfs.append(df)
 
     df = pd.concat(dfs, axis=0)
-- 
2.43.0


From a86e7b5ac11977f34abc3b3763c92bbd28b6159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:54 +0000
Subject: [PATCH 56/67] fix: describe_logs failed on every log with datetimes

---
 skmine/datasets/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/skmine/datasets/utils.py b/skmine/datasets/utils.py
index 628609f..5ad5d4f 100644
--- a/skmine/datasets/utils.py
+++ b/skmine/datasets/utils.py
@@ -4,6 +4,8 @@ utils methods for skmine.datasets
 
 from itertools import chain
 
+import pandas as pd
+
 
 def describe(D):
     """Give some high level properties on transactions
@@ -66,11 +68,11 @@ def describe_logs(D):
     'avg_nb_points_per_event': 100.0}
     """
     gb = D.groupby(D.values)
-    a = gb.apply(lambda df: (df.index.max() - df.index.min(), len(df)))
-    avg_nb_points = a.str[1].mean()
+    deltas = pd.Series([df.index.max() - df.index.min() for _, df in gb])
+    avg_nb_points = gb.size().mean()
 
     return dict(
         n_events=len(gb),
-        avg_delta_per_event=a.str[0].mean(),
+        avg_delta_per_event=deltas.mean(),
         avg_nb_points_per_event=avg_nb_points,
     )
-- 
2.43.0


From 66ef267f9f5d50b77172b6a25addd5f5eec0ec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:42 +0000
Subject: [PATCH 57/67] fix: a copy of a SLIM lost its max_time

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 846c48e..4e413b1 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -782,4 +782,4 @@ class SLIM(BaseEstimator, TransformerMixin):
         return CTc, data_size, model_size
 
     def __copy__(self):
-        return SLIM(items=self.items, pruning=self.pruning)
+        return SLIM(items=self.items, pruning=self.pruning, max_time=self.max_time)
-- 
2.43.0


From a121108e575c1e652c97a6327a99cf343234cdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:55 +0000
Subject: [PATCH 58/67] fix: SLIMVectorizer gave one row for no transaction

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 4e413b1..a596ae6 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -29,7 +29,7 @@ def _to_vertical(D, stop_items=None, return_len=False):  # -> tuple | dict
     if stop_items is None:
         stop_items = set()
     res = defaultdict(Bitmap)
-    idx = 0
+    idx = -1
     for idx, transaction in enumerate(D):
         for e in transaction:
             if e not in stop_items:
-- 
2.43.0


From a463b0fb5becde71c992567eac6f1d8459345a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:12 +0000
Subject: [PATCH 59/67] fix: cover, get_code_length and decision_function
 failed on SLIMVectorizer

---
 skmine/itemsets/slim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index a596ae6..986a5ac 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -230,7 +230,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         """
 
         mat = self.cover(D)
-        code_lengths = self.transform(D, singletons=True, return_tids=False, drop_null_usage=False)
+        code_lengths = SLIM.transform(self, D, singletons=True, return_tids=False, drop_null_usage=False)
         # the codetable is Laplace corrected: the usage of each itemset is increased by 1 in order that all seen
         # items have a code
         code_lengths["usage"] += 1
@@ -465,7 +465,7 @@ class SLIM(BaseEstimator, TransformerMixin):
         else:  # transactional
             D_sct = _to_vertical(D)
 
-        isets = self.transform(D, singletons=True, return_tids=False, drop_null_usage=False)
+        isets = SLIM.transform(self, D, singletons=True, return_tids=False, drop_null_usage=False)
         isets = [tuple(itemset) for itemset in isets[isets["itemset"].map(set(D_sct).issuperset)]["itemset"].to_list()]
         covers = cover(D_sct, isets)
 
-- 
2.43.0


From 18a84556ab5280bc22c8b36606f8dab0b62e4f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:46 +0000
Subject: [PATCH 60/67] fix: the copy of a SLIMVectorizer was a SLIM

---
 skmine/itemsets/slim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/itemsets/slim.py b/skmine/itemsets/slim.py
index 986a5ac..56b65da 100644
--- a/skmine/itemsets/slim.py
+++ b/skmine/itemsets/slim.py
@@ -782,4 +782,4 @@ class SLIM(BaseEstimator, TransformerMixin):
         return CTc, data_size, model_size
 
     def __copy__(self):
-        return SLIM(items=self.items, pruning=self.pruning, max_time=self.max_time)
+        return type(self)(**self.get_params(deep=False))
-- 
2.43.0


From 8968db4dbb1a660b4c5d5d2b91408c1667dce8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:00 +0000
Subject: [PATCH 61/67] fix: the last occurrences of an event with 2000 or more
 were not searched for cycles

---
 skmine/periodic/extract_cycles.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/skmine/periodic/extract_cycles.py b/skmine/periodic/extract_cycles.py
index 3aa0302..647f513 100644
--- a/skmine/periodic/extract_cycles.py
+++ b/skmine/periodic/extract_cycles.py
@@ -217,7 +217,7 @@ def extract_cycles_fold(occs, alpha, data_details, bound_dE, eff_trip, eff_chain
     else:
         chains, triples = extract_cycles_fold_sub(
             occs[:1500], alpha, data_details, bound_dE, eff_trip, eff_chain, max_p=max_p)
-        for i in range(1, int(len(occs) / 1500)):
+        for i in range(1, int(numpy.ceil(len(occs) / 1500))):
             chains_tmp, triples_tmp = extract_cycles_fold_sub(
                 occs[i * 1500:(i + 1) * 1500], alpha, data_details, bound_dE, eff_trip, eff_chain, i * 1500,
                 max_p=max_p)
@@ -324,8 +324,9 @@ def extract_cycles_fold_sub(occs, alpha, data_details, bound_dE, eff_trip, eff_c
         cost = computeLengthCycle(
             data_details, {"p": prd, "alpha": alpha, "occs": occs_chain})
         if (eff_chain < 0 and cost < (-eff_chain) * (len(occs_chain) - 1)) or (cost / len(occs_chain) < eff_chain):
+            pos = [c + offset for c in current]
             chains.append({"alpha": alpha, "p": prd, "cost": cost,
-                           "pos": current, "occs": occs_chain, "uncov": set(current)})
+                           "pos": pos, "occs": occs_chain, "uncov": set(pos)})
 
     triples = [(v[0], v[1], v[-1], (v[-2] + offset, k[0] + offset, k[1] + offset)) for (k, v)
                in triples_tmp.items() if (eff_trip < 0 and v[-1] < -2 * eff_trip) or (v[-1] / 3. < eff_trip)]
-- 
2.43.0


From b3d7a126b3427967ef1b905555806eac8e562fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:15 +0000
Subject: [PATCH 62/67] fix: multigraphs whose edge keys are not 0, 1, 2...
 could not be covered

---
 skmine/graph/graphmdl/code_table.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/skmine/graph/graphmdl/code_table.py b/skmine/graph/graphmdl/code_table.py
index 4ad0360..3bb668d 100644
--- a/skmine/graph/graphmdl/code_table.py
+++ b/skmine/graph/graphmdl/code_table.py
@@ -409,16 +409,16 @@ class CodeTable:
             raise ValueError("label shouldn't be empty or none")
 
     def _get_edge_index_from_label(self, values, label):
-        """ Provide the good edge index, it's used in the multigraph treatment
+        """ Provide the key of the edge with the given label, it's used in the multigraph treatment
         Parameters
         ---------
-        values
+        values : edges between two nodes, by their key
         label
         Returns
         -------
         int
         """
-        res = [i for i, j in enumerate(values, start=0) if
+        res = [i for i, j in values.items() if
                'label' in j and j['label'] == label]
         if len(res) != 0:
             return res[0]
@@ -444,7 +444,7 @@ class CodeTable:
             if type(graph) is nx.MultiDiGraph:
                 if not (False in ['label' in v
                                   for v in graph.get_edge_data(start, end).values()]):
-                    edge_index = self._get_edge_index_from_label(graph.get_edge_data(start, end).values(), label)
+                    edge_index = self._get_edge_index_from_label(graph.get_edge_data(start, end), label)
                     if edge_index is not None:
                         edge = graph[start][end][edge_index]
                         return 'cover_mark' in edge and label in edge['cover_mark'] and edge['cover_mark'][
@@ -478,7 +478,7 @@ class CodeTable:
             if type(graph) is nx.MultiDiGraph:
                 if not (False in ['label' in v
                                   for v in graph.get_edge_data(start, end).values()]):
-                    edge_index = self._get_edge_index_from_label(graph.get_edge_data(start, end).values(), label)
+                    edge_index = self._get_edge_index_from_label(graph.get_edge_data(start, end), label)
                     if 'cover_mark' in graph[start][end][edge_index]:
                         graph[start][end][edge_index]['cover_mark'][label] = cover_marker
                     else:
-- 
2.43.0


From e21823fd51affb6b69745195ba0578fc969cd714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:01 +0000
Subject: [PATCH 63/67] fix: callbacks of one argument got the element of a
 list of one, not the list

---
 skmine/callbacks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/skmine/callbacks.py b/skmine/callbacks.py
index baa9254..3828b39 100644
--- a/skmine/callbacks.py
+++ b/skmine/callbacks.py
@@ -43,6 +43,9 @@ def post(self, func_name, callback):
             args_ = (self,) + (_w if len(callback_params) > 1 else tuple())
         else:
             args_ = res
+        if len(callback_params) == 1 and not isinstance(args_, tuple):
+            callback(args_)  # the result as a whole, even if it is a list of one element
+            return res
         try:
             callback(*args_)
         except TypeError:
-- 
2.43.0


From fb863416e9093ce0d86abb245bf6f105ee838881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:01 +0000
Subject: [PATCH 64/67] fix: callbacks doing self.x += 1 were accepted, those
 testing self.x == 1 refused

---
 skmine/callbacks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/callbacks.py b/skmine/callbacks.py
index 3828b39..9cdab4c 100644
--- a/skmine/callbacks.py
+++ b/skmine/callbacks.py
@@ -14,7 +14,7 @@ def has_self_assigment(f):
     check if no assignment is made on the ``self`` keyword
     """
     try:
-        p = r"self(\.\w+)?\s*=.*"
+        p = r"\bself(\.\w+)*\s*([-+*/%@&|^]|//|\*\*|<<|>>)?=(?!=)"
         return any(re.finditer(p, getsource(f)))
     except TypeError:
         return False
-- 
2.43.0


From 8a5a4f150f395309a8fe9cd00721578b38f057bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:01 +0000
Subject: [PATCH 65/67] fix: callbacks without a source file, as typed in an
 interpreter, were refused

---
 skmine/callbacks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skmine/callbacks.py b/skmine/callbacks.py
index 9cdab4c..eec06b4 100644
--- a/skmine/callbacks.py
+++ b/skmine/callbacks.py
@@ -16,7 +16,7 @@ def has_self_assigment(f):
     try:
         p = r"\bself(\.\w+)*\s*([-+*/%@&|^]|//|\*\*|<<|>>)?=(?!=)"
         return any(re.finditer(p, getsource(f)))
-    except TypeError:
+    except (TypeError, OSError):  # builtins, functions typed in an interpreter
         return False
 
 
-- 
2.43.0


From f46dad9f3c81569ff76a66dbc528335b36133587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:01 +0000
Subject: [PATCH 66/67] fix: callbacks could be removed from an immutable
 collection, or added by setdefault

---
 skmine/callbacks.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/skmine/callbacks.py b/skmine/callbacks.py
index eec06b4..1562305 100644
--- a/skmine/callbacks.py
+++ b/skmine/callbacks.py
@@ -99,7 +99,13 @@ class CallBacks(dict):
         raise NotImplementedError(f"{type(self)} is immutable")
 
     __setitem__ = _frozen
+    __delitem__ = _frozen
+    __ior__ = _frozen
     update = _frozen
+    setdefault = _frozen
+    pop = _frozen
+    popitem = _frozen
+    clear = _frozen
 
     def __call__(self, miner):
         # print("dir(miner)", dir(miner))
-- 
2.43.0


From 756335bc70c76e15b24038791e04ab121422dd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:14 +0000
Subject: [PATCH 67/67] fix: cost of patterns with very long nested periods
 stopped in the debugger

---
 skmine/periodic/pattern.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/skmine/periodic/pattern.py b/skmine/periodic/pattern.py
index ac9af55..81b9129 100644
--- a/skmine/periodic/pattern.py
+++ b/skmine/periodic/pattern.py
@@ -1,5 +1,4 @@
 import copy
-import pdb
 from datetime import timedelta
 
 import graphviz
@@ -1595,7 +1594,6 @@ class Pattern(object):
 
         if nid > 0 and self.nodes[nid]["r"] > 0:
             if Tmax / (self.nodes[nid]["r"] - 1) < self.nodes[nid]["p"]:
-                pdb.set_trace()
                 print("PROBLEM!! INCORRECT UPPER BOUND")
             # block period (only not for the root one, already specified)
             pmax = np.floor(Tmax / (self.nodes[nid]["r"] - 1.))
-- 
2.43.0

