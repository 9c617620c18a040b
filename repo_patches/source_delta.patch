From 83fb748ede01d050d35ce1a2f7765827d8f1a5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:48 +0000
Subject: [PATCH 01/49] fix: put the typing import of dsm/polytope.py on its
 own line

It was glued to the licence comment, so 'import aideme' raised NameError.
---
 aideme/active_learning/dsm/polytope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 6b524a5..474c6c4 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -9,7 +9,8 @@
 #    TO THE WARRANTIES OF MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND NON-INFRINGEMENT. IN NO EVENT SHALL
 #    THE AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION OF
 #    CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
-#    IN THE SOFTWARE.from typing import Set, List, Tuple
+#    IN THE SOFTWARE.
+from typing import Set, List, Tuple
 
 import numpy as np
 
-- 
2.43.0


From d348562656e38618a15157949cd0dc5f92f01939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:02 +0000
Subject: [PATCH 02/49] fix: replace np.float, removed from numpy, by float

CategoricalPolytope.predict and GaussianKernel.diagonal raised AttributeError.
---
 aideme/active_learning/dsm/polytope.py | 2 +-
 aideme/active_learning/kernel.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 474c6c4..e678928 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -226,7 +226,7 @@ class CategoricalPolytope(PolytopeBase):
             return np.full(len(X), fill_value=0.5)
 
         X = np.argmax(X, axis=1)
-        return np.fromiter((self._predict_single(x) for x in X), np.float)
+        return np.fromiter((self._predict_single(x) for x in X), float)
 
     def _predict_single(self, x: np.ndarray) -> float:
         if x in self._pos_classes:
diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index 618870a..976f461 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -120,7 +120,7 @@ class GaussianKernel(Kernel):
         :param X: a M x D matrix of data points
         :return: a M-dimensional array K_i = k(X_i, X_i)
         """
-        return np.ones(len(X), dtype=np.float)
+        return np.ones(len(X), dtype=float)
 
 
 class PolynomialKernel(Kernel):
-- 
2.43.0


From d952e86e1aa43603032e999640be35fe584777dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:02 +0000
Subject: [PATCH 03/49] fix: move_to_unknown must pass the row position, not
 the index value

With any index other than the current row order, the wrong rows were moved.
---
 aideme/explore/partitioned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index a81d7d0..220b2cb 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -110,7 +110,7 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
             pos = self.__index_to_row[idx]
 
             if pos < self.__unknown_start:
-                self.__move_right(idx, to_unknown=True)
+                self.__move_right(pos, to_unknown=True)
             else:
                 self.__raise_error(idx, pos, 'unknown')
 
-- 
2.43.0


From a2979bf2602c6c9b45fc497cd5773ad9123766bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:27 +0000
Subject: [PATCH 04/49] fix: drop the labels of points moved out of the LABELED
 partition

move_to_inferred / move_to_unknown left their labels in labeled_set, so
training_set() returned X and y of different sizes and pairings.
---
 aideme/explore/partitioned.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index 220b2cb..fbd92fe 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -102,6 +102,8 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
             else:
                 self.__raise_error(idx, pos, 'inferred')
 
+        self.__realign_labeled_set()
+
     def move_to_unknown(self, indexes: Iterable) -> None:
         """
         Move indexes to UNKNOWN partition. Throws exception if any index is already in this partition.
@@ -114,6 +116,15 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
             else:
                 self.__raise_error(idx, pos, 'unknown')
 
+        self.__realign_labeled_set()
+
+    def __realign_labeled_set(self) -> None:
+        """
+        Drops the labels of points which left the LABELED partition, and follows its new row order.
+        """
+        if len(self.__labeled_set) != self.labeled_size:
+            self.__labeled_set = self.__labeled_set.get_index(self.labeled.index)
+
     def __move_left(self, pos: int, to_labeled: bool) -> None:
         if pos >= self.__unknown_start:
             self.__swap_rows(pos, self.__unknown_start)
-- 
2.43.0


From f7211d7d6023244a378009e69ca4e2fe3cb64092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:27 +0000
Subject: [PATCH 05/49] fix: predict_user_labels must not share the dataset's
 index array

The index is permuted in place by later moves, which scrambled the labels
of a LabeledSet returned earlier.
---
 aideme/explore/partitioned.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index fbd92fe..8068078 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -293,7 +293,7 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         labels = np.empty(len(self.__dataset.data))
         labels[:self.labeled_size] = self.__labeled_set.labels
         labels[self.labeled_size:] = active_learner.predict(self.unlabeled.data)
-        return LabeledSet(labels, index=self.__dataset.index)
+        return LabeledSet(labels, index=self.__dataset.index.copy())
 
 
 class IndexedDataset:
-- 
2.43.0


From 718fac6ea95f0fe03fc3b6c6d669a4db27291a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:27 +0000
Subject: [PATCH 06/49] fix: process_callback must not hand out the caller's
 own list

ExplorationManager appends to it: a caller's list grew by one criterion per
exploration, and a tuple raised AttributeError.
---
 aideme/utils/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/utils/validation.py b/aideme/utils/validation.py
index 31d3539..7fa9b93 100644
--- a/aideme/utils/validation.py
+++ b/aideme/utils/validation.py
@@ -58,4 +58,4 @@ def process_callback(callback):
     if not all(callable(f) for f in callback):
         raise ValueError("Expected callable or list of callable objects, got {}".format(callback))
 
-    return callback
+    return list(callback)
-- 
2.43.0


From b3646319c8380ad11259b4975e6753aa52c411e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:44 +0000
Subject: [PATCH 07/49] fix: flush left-over metrics at the start of an
 exploration run

The metrics of an earlier run which was not consumed until its end were given
to the convergence criteria before the first iteration, and could stop the
new run at once.
---
 aideme/explore/explore.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aideme/explore/explore.py b/aideme/explore/explore.py
index 8c6af47..8212d29 100644
--- a/aideme/explore/explore.py
+++ b/aideme/explore/explore.py
@@ -91,6 +91,7 @@ class PoolBasedExploration:
         set_random_state(seed)
 
         manager.clear()
+        metric_logger.flush()  # metrics of a previous run that was not consumed until its end must not leak into this one
 
         while not manager.converged():
             metric_logger.flush()  # avoid overlapping metrics between iterations
-- 
2.43.0


From 674285215bc9d825c3b818a57ba4a564ed90e847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:44 +0000
Subject: [PATCH 08/49] fix: PersistentPolytope must update both models even if
 one of them fails

'and' skipped the flipped polytope for the batch invalidating the positive
one, so that it stopped knowing (and checking) these labeled points.
---
 aideme/active_learning/dsm/polytope.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index e678928..e79ca31 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -186,7 +186,8 @@ class PersistentPolytope(PolytopeBase):
             raise RuntimeError("Attempting to update invalid polytope.")
 
         if self._pol.is_valid and self._flipped.is_valid:
-            return self._pol.update(X, y) and self._flipped.update(X, y)
+            success = [self._pol.update(X, y), self._flipped.update(X, y)]  # both models must see the data
+            return all(success)
 
         if self._pol.is_valid:
             return self._pol.update(X, y)
-- 
2.43.0


From d6da1c08aac82c6c3e66be6624c389f741b99c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:44 +0000
Subject: [PATCH 09/49] fix: FactorizedPolytopeModel must update all subspaces
 even if one of them fails

all() over a generator stopped at the first conflicting subspace, and the
remaining ones never saw that batch of labeled points.
---
 aideme/active_learning/dsm/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/model.py b/aideme/active_learning/dsm/model.py
index 961fbf9..d0bb855 100644
--- a/aideme/active_learning/dsm/model.py
+++ b/aideme/active_learning/dsm/model.py
@@ -96,7 +96,8 @@ class FactorizedPolytopeModel(PolytopeModelBase):
         if not self.is_valid:
             raise RuntimeError("Cannot update invalid polytope.")
 
-        return all(pol.update(X[:, idx], y[:, i]) for i, idx, pol in self.__valid_elements())
+        success = [pol.update(X[:, idx], y[:, i]) for i, idx, pol in self.__valid_elements()]  # no short-circuit: all models must see the data
+        return all(success)
 
     def predict(self, X: np.ndarray) -> np.ndarray:
         val = 1.0 if self.is_all_valid else 0.5
-- 
2.43.0


From c64fcf63fcf142708da92f705ec884b5e9f5df79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:56 +0000
Subject: [PATCH 10/49] fix: Polytope.update must not drop labeled points

'finally: return' swallowed every exception: negative points labeled before
any positive one were lost, and flat positive data (QhullError) lost the rest
of the batch. Keep them, and build regions once enough points are known.
---
 aideme/active_learning/dsm/polytope.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index e79ca31..47c1d8a 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -10,9 +10,11 @@
 #    THE AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION OF
 #    CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS
 #    IN THE SOFTWARE.
+from contextlib import suppress
 from typing import Set, List, Tuple
 
 import numpy as np
+from scipy.spatial import QhullError
 
 from .convex import PositiveRegion, NegativeCone, ConvexError
 
@@ -88,22 +90,27 @@ class Polytope(PolytopeBase):
         except ConvexError:
             self.__is_valid = False
 
-        finally:
-            return self.__is_valid
+        return self.__is_valid
 
     def __update_positive(self, X: np.ndarray) -> None:
         if len(X) > 0:
-            self.positive_region.update(X)
+            with suppress(QhullError):  # flat region: will be built once more positive points arrive
+                self.positive_region.update(X)
 
             for nr in self.negative_region:
-                nr.add_points_to_hull(X)
+                with suppress(QhullError):
+                    nr.add_points_to_hull(X)
 
     def __update_negative(self, X: np.ndarray) -> None:
         for x in X:
             cone = NegativeCone(x, self.positive_region._tol)
-            cone.add_points_to_hull(self.positive_region.vertices)
             self.negative_region.append(cone)
 
+            vertices = self.positive_region.vertices
+            if vertices is not None:
+                with suppress(QhullError):
+                    cone.add_points_to_hull(vertices)
+
 
 class FlippedPolytope(PolytopeBase):
     """
-- 
2.43.0


From 3cd9be68d3948d8d04f5ac5ca0b6875b8dbd25c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:30 +0000
Subject: [PATCH 11/49] fix: MultiSetPolytope must detect a negative point made
 of positive elements only

It was cached as an unsatisfiable empty set: update() reported success and the
point kept being predicted positive.
---
 aideme/active_learning/dsm/polytope.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 47c1d8a..2836479 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -339,6 +339,9 @@ class MultiSetPolytope(PolytopeBase):
             return self.__update_positive_set(idx)
 
         idx -= self._pos_indexes
+        if len(idx) == 0:  # all elements are already known to be positive
+            return False
+
         if len(idx) == 1:
             return self.__update_negative_set(idx)
 
-- 
2.43.0


From edabf9c4fea7adaebbe954b43e6b2491e1c508cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:52 +0000
Subject: [PATCH 12/49] fix: Inference could not be used

Its array values are unhashable as set elements, predict zipped partitions and
models in the wrong order, and contradicting labels were never noticed.
---
 aideme/active_learning/dsm/polytope.py        |  4 ++--
 aideme/active_learning/inference/inference.py | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/aideme/active_learning/dsm/polytope.py b/aideme/active_learning/dsm/polytope.py
index 2836479..86fab6a 100644
--- a/aideme/active_learning/dsm/polytope.py
+++ b/aideme/active_learning/dsm/polytope.py
@@ -260,8 +260,6 @@ class CategoricalPolytope(PolytopeBase):
         for pt, lb in zip(X, y):
             self._update_single(pt, lb)
 
-        self.__is_valid = len(self._pos_classes & self._neg_classes) == 0
-
         return self.__is_valid
 
     def _update_single(self, pt: int, lb: float) -> None:
@@ -270,6 +268,8 @@ class CategoricalPolytope(PolytopeBase):
         else:
             self._neg_classes.add(pt)
 
+        self.__is_valid = self.__is_valid and not (pt in self._pos_classes and pt in self._neg_classes)
+
 
 class MultiSetPolytope(PolytopeBase):
     def __init__(self):
diff --git a/aideme/active_learning/inference/inference.py b/aideme/active_learning/inference/inference.py
index fe9ec12..3faf4a3 100644
--- a/aideme/active_learning/inference/inference.py
+++ b/aideme/active_learning/inference/inference.py
@@ -43,10 +43,10 @@ class Inference:
         return self.predict_partial(X).min(axis=1)
 
     def predict_partial(self, X: np.ndarray) -> np.ndarray:
-        return np.hstack([subspace.predict(X[:, p]) for (p, subspace) in zip(self._subspatial_inference, self.partition)]).T
+        return np.array([self._predict_single(x) for x in np.atleast_2d(X)])
 
     def _predict_single(self, x: np.ndarray):
-        return [subspace._predict_single(x[p]) for (p, subspace) in zip(self._subspatial_inference, self.partition)]
+        return [subspace._predict_single(tuple(x[p])) for (p, subspace) in zip(self.partition, self._subspatial_inference)]
 
     def update(self, X: np.ndarray, y: np.ndarray) -> None:
         X = np.atleast_2d(X)
@@ -61,7 +61,7 @@ class Inference:
         # for positive points, we infer all partial labels as positive (conjunctive property)
         if y == 1:
             for p, subspace in zip(self.partition, self._subspatial_inference):
-                subspace._update_single(x[p], 1)
+                subspace._update_single(tuple(x[p]), 1)
 
             self.__attempt_to_remove_neg_samples()
 
@@ -109,7 +109,7 @@ class Inference:
         idx_unknown, n_unknown = -1, 0
 
         for i, (p, subspace) in enumerate(zip(self.partition, self._subspatial_inference)):
-            y_partial = subspace._predict_single(x[p])
+            y_partial = subspace._predict_single(tuple(x[p]))
 
             if y_partial == 0:
                 return True, True
@@ -120,7 +120,7 @@ class Inference:
 
         if n_unknown == 1:
             # a single unknown partition remains, so its partial label must be negative
-            self._subspatial_inference[idx_unknown]._update_single(x[self.partition[idx_unknown]], 0)
+            self._subspatial_inference[idx_unknown]._update_single(tuple(x[self.partition[idx_unknown]]), 0)
             return True, False
 
         if n_unknown == 0:
-- 
2.43.0


From ef7d3ac6e15a19905059266f340f8ec0ce826d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:52 +0000
Subject: [PATCH 13/49] fix: QueryByDisagreement with fewer unlabeled points
 than background_sample_size

The background sample is then smaller than background_sample_size, and fitting
raised ValueError (inconsistent sizes).
---
 aideme/active_learning/query_by_disagreement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aideme/active_learning/query_by_disagreement.py b/aideme/active_learning/query_by_disagreement.py
index f20f68b..a5e32f6 100644
--- a/aideme/active_learning/query_by_disagreement.py
+++ b/aideme/active_learning/query_by_disagreement.py
@@ -38,12 +38,12 @@ class QueryByDisagreement(ActiveLearner):
         X_train = np.r_[X, background_points]
 
         sample_weights = np.ones(len(X_train))
-        sample_weights[-self._background_sample_size:] *= self._background_sample_weight
+        sample_weights[len(X):] *= self._background_sample_weight
 
-        y_train = np.r_[y, np.ones(self._background_sample_size)]
+        y_train = np.r_[y, np.ones(len(background_points))]
         self._positively_biased_learner.fit(X_train, y_train, sample_weights)
 
-        y_train[-self._background_sample_size:] = 0
+        y_train[len(X):] = 0
         self._negatively_biased_learner.fit(X_train, y_train, sample_weights)
 
     def predict(self, X: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 10870ece734d9015153f95047530d2061f58a08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 14/49] fix: predict_proba of the Scikit-learn based learners
 must return an array

They returned Scikit-learn's two-column matrix instead of the documented
positive class probabilities, which e.g. DualSpaceModel.predict_proba needs.
---
 aideme/active_learning/active_learner.py        | 10 ++++++++++
 aideme/active_learning/query_by_disagreement.py |  4 ++--
 aideme/active_learning/random.py                |  4 ++--
 aideme/active_learning/uncertainty.py           |  4 ++--
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/aideme/active_learning/active_learner.py b/aideme/active_learning/active_learner.py
index 8ad1243..9f048c0 100644
--- a/aideme/active_learning/active_learner.py
+++ b/aideme/active_learning/active_learner.py
@@ -23,6 +23,16 @@ if TYPE_CHECKING:
     from aideme.explore.partitioned import IndexedDataset
 
 
+def positive_class_proba(clf: Any, X: np.ndarray) -> np.ndarray:
+    """
+    :param clf: a classifier, whose predict_proba() may return one column per class like Scikit-learn's classifiers
+    :param X: data matrix
+    :return: array containing the probability of being positive for each data point x in X
+    """
+    proba = np.asarray(clf.predict_proba(X))
+    return proba[:, 1] if proba.ndim == 2 else proba
+
+
 class ActiveLearner:
     """
     Pool-based Active Learning base class. It performs two main tasks:
diff --git a/aideme/active_learning/query_by_disagreement.py b/aideme/active_learning/query_by_disagreement.py
index a5e32f6..627cf6b 100644
--- a/aideme/active_learning/query_by_disagreement.py
+++ b/aideme/active_learning/query_by_disagreement.py
@@ -13,7 +13,7 @@
 import numpy as np
 import sklearn
 
-from .active_learner import ActiveLearner
+from .active_learner import ActiveLearner, positive_class_proba
 from ..utils import assert_positive, assert_positive_integer
 
 
@@ -50,7 +50,7 @@ class QueryByDisagreement(ActiveLearner):
         return self._learner.predict(X)
 
     def predict_proba(self, X: np.ndarray) -> np.ndarray:
-        return self._learner.predict_proba(X)
+        return positive_class_proba(self._learner, X)
 
     def rank(self, X: np.ndarray) -> np.ndarray:
         """ Pick a random point for which the positively and negatively biased classifiers differ. """
diff --git a/aideme/active_learning/random.py b/aideme/active_learning/random.py
index 617d14f..b70031e 100644
--- a/aideme/active_learning/random.py
+++ b/aideme/active_learning/random.py
@@ -15,7 +15,7 @@ from __future__ import annotations
 from typing import TYPE_CHECKING
 
 from aideme.utils import assert_positive_integer
-from .active_learner import ActiveLearner
+from .active_learner import ActiveLearner, positive_class_proba
 
 if TYPE_CHECKING:
     import numpy as np
@@ -47,7 +47,7 @@ class RandomSampler(ActiveLearner):
         return self._clf.predict(X)
 
     def predict_proba(self, X: np.ndarray) -> np.ndarray:
-        return self._clf.predict_proba(X)
+        return positive_class_proba(self._clf, X)
 
     def _select_next(self, dataset: IndexedDataset) -> IndexedDataset:
         return dataset.sample(self._batch_size)
diff --git a/aideme/active_learning/uncertainty.py b/aideme/active_learning/uncertainty.py
index 633edaa..70ddf09 100644
--- a/aideme/active_learning/uncertainty.py
+++ b/aideme/active_learning/uncertainty.py
@@ -13,7 +13,7 @@
 
 import numpy as np
 
-from .active_learner import ActiveLearner
+from .active_learner import ActiveLearner, positive_class_proba
 
 
 class UncertaintySampler(ActiveLearner):
@@ -40,7 +40,7 @@ class UncertaintySampler(ActiveLearner):
         return self.clf.predict(X)
 
     def predict_proba(self, X):
-        return self.clf.predict_proba(X)
+        return positive_class_proba(self.clf, X)
 
     def rank(self, X):
         return np.abs(self.predict_proba(X) - 0.5)
-- 
2.43.0


From 6b32907608c122134eb4ef380cc9425bcdc04952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 15/49] fix: PolynomialKernel.diagonal must return the diagonal
 of the kernel matrix

It took the root instead of the power, and failed with the default gamma.
---
 aideme/active_learning/kernel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index 976f461..e11d485 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -155,7 +155,8 @@ class PolynomialKernel(Kernel):
         :return: a M-dimensional array K_i = k(X_i, X_i)
         """
         sqsum = np.einsum('ir, ir -> i', X, X)
-        return (self.gamma * sqsum + self.coef0) ** (1 / self.degree)
+        gamma = 1 / X.shape[1] if self.gamma is None else self.gamma
+        return (gamma * sqsum + self.coef0) ** self.degree
 
 
 class IncrementedDiagonalKernel(Kernel):
-- 
2.43.0


From d4ca07b054b3fc88c8d159ef44ddae6d7f6880c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 16/49] fix: LinearFactorizationLearner could not be built with
 a proximal optimizer

add_bias was read before being set.
---
 aideme/active_learning/factorization/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 3b5694a..1aae4a5 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -27,8 +27,8 @@ if TYPE_CHECKING:
 class LinearFactorizationLearner:
     def __init__(self, optimizer: OptimizationAlgorithm, penalty_term: Optional[PenaltyTerm] = None, add_bias: bool = True):
         self.optimizer = optimizer
-        self.penalty_term = self.__process_proximal_penalty(penalty_term, optimizer)
         self.add_bias = add_bias
+        self.penalty_term = self.__process_proximal_penalty(penalty_term, optimizer)
         self._weights = None
         self._bias = None
 
-- 
2.43.0


From ed4c1620710be75c36f3407d10d4a06b3b183085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 17/49] fix: LinearFactorizationLearner.copy() with a proximal
 optimizer

The copy was built without the penalty term such optimizers require, and
raised AttributeError.
---
 aideme/active_learning/factorization/linear.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 1aae4a5..7cd6d71 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -79,8 +79,7 @@ class LinearFactorizationLearner:
         return 0 if self._weights is None else self._weights.shape[0]
 
     def copy(self) -> LinearFactorizationLearner:
-        learner = LinearFactorizationLearner(optimizer=self.optimizer, add_bias=self.add_bias)
-        learner.penalty_term = self.penalty_term
+        learner = LinearFactorizationLearner(optimizer=self.optimizer, penalty_term=self.penalty_term, add_bias=self.add_bias)
 
         learner._weights = self.weights
         if self.add_bias:
-- 
2.43.0


From e1624a7dc0f2cd7cb303b02fd049df8dbbf076a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 18/49] fix: prune_irrelevant_subspaces of a learner without
 bias

It indexed the missing bias, and raised TypeError.
---
 aideme/active_learning/factorization/learn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/learn.py b/aideme/active_learning/factorization/learn.py
index 49f1073..962b0c7 100644
--- a/aideme/active_learning/factorization/learn.py
+++ b/aideme/active_learning/factorization/learn.py
@@ -38,7 +38,8 @@ def prune_irrelevant_subspaces(X: np.ndarray, learner: LinearFactorizationLearne
 
     pruned_learner = learner.copy()
     pruned_learner._weights = learner._weights[relevant_rows]
-    pruned_learner._bias = learner._bias[relevant_rows]
+    if learner.add_bias:
+        pruned_learner._bias = learner._bias[relevant_rows]
 
     return pruned_learner
 
-- 
2.43.0


From 63b87b19017f06b11e71e88ed79cded41acd046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 19/49] fix: accept integer labels in the factorized linear
 losses

The Cython loss only takes contiguous double arrays: any learner based on it
raised ValueError as soon as the user's labels were integers.
---
 aideme/active_learning/factorization/linear.py              | 2 +-
 aideme/active_learning/factorization/partitioning/linear.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 7cd6d71..18fb15e 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -159,7 +159,7 @@ class LinearFactorizationLoss:
     def __init__(self, X: np.ndarray, y: np.ndarray, add_bias: bool = True,
                  penalty_term: PenaltyTerm = None, factorization: Optional[List[List[int]]] = None):
         self.X = X
-        self.y = y
+        self.y = np.ascontiguousarray(y, dtype='float64')  # expected by compute_loss
         self.add_bias = add_bias
         self.penalty_term = penalty_term
         self.factorization = self.__compute_factorization_matrix(factorization)
diff --git a/aideme/active_learning/factorization/partitioning/linear.py b/aideme/active_learning/factorization/partitioning/linear.py
index 7bc7c8d..3a88f0c 100644
--- a/aideme/active_learning/factorization/partitioning/linear.py
+++ b/aideme/active_learning/factorization/partitioning/linear.py
@@ -155,7 +155,7 @@ class FactorizedLinearLearner:
 class LinearLoss:
     def __init__(self, X: np.ndarray, y: np.ndarray, fact_clf: FactorizedLinearClassifier):
         self.X = X
-        self.y = y
+        self.y = np.ascontiguousarray(y, dtype='float64')  # expected by compute_classification_loss
         self.fact_clf = fact_clf
         self.x0 = self.fact_clf.weights.copy()
 
-- 
2.43.0


From 778c728e7d89a31ffed6191001deee3a7e0e467f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 20/49] fix: flatten the starting point given to Scipy by BFGS

Scipy only accepts one-dimensional starting points.
---
 aideme/active_learning/factorization/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/optimization.py b/aideme/active_learning/factorization/optimization.py
index e3eefc7..9070715 100644
--- a/aideme/active_learning/factorization/optimization.py
+++ b/aideme/active_learning/factorization/optimization.py
@@ -98,7 +98,7 @@ class OptimizationAlgorithm:
 class BFGS(OptimizationAlgorithm):
     def minimize(self, x0: np.ndarray, func: Callable, grad: Union[bool, Callable]) -> OptimizeResult:
         jac = lambda x: grad(x).ravel()
-        return minimize(func, x0, jac=jac, callback=self._callback, options={'gtol': self._gtol, 'maxiter': self._max_iter})
+        return minimize(func, x0.ravel(), jac=jac, callback=self._callback, options={'gtol': self._gtol, 'maxiter': self._max_iter})
 
 
 class SearchDirectionOptimizer(OptimizationAlgorithm):
-- 
2.43.0


From ce6f9b92b0e5f067bf8e389b473965bb169ca4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 21/49] fix: FactorizedKernelTransform.fit_transform read
 n_components before fitting

It raised AttributeError for exact kernels, and did not broadcast for Nystroem
when there are fewer samples than components.
---
 aideme/active_learning/kernel.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/aideme/active_learning/kernel.py b/aideme/active_learning/kernel.py
index e11d485..a3b9a2a 100644
--- a/aideme/active_learning/kernel.py
+++ b/aideme/active_learning/kernel.py
@@ -262,7 +262,7 @@ class NystroemTransformer(KernelTransformer):
 
     @property
     def n_components(self) -> int:
-        return self.nystroem.n_components
+        return len(self.nystroem.components_)  # at most the number of samples
 
     def clone(self) -> KernelTransformer:
         kt = NystroemTransformer()
@@ -301,9 +301,3 @@ class FactorizedKernelTransform(KernelTransformer):
         for k, (transformer, subspace) in enumerate(zip(self._transformers, self._factorization)):
             K[:, :, k] = transformer.transform(X[:, subspace])
         return K
-
-    def fit_transform(self, X: np.ndarray) -> np.ndarray:
-        K = np.empty((X.shape[0], self.n_components, len(self._factorization)))
-        for k, (transformer, subspace) in enumerate(zip(self._transformers, self._factorization)):
-            K[:, :, k] = transformer.fit_transform(X[:, subspace])
-        return K
-- 
2.43.0


From 25ed7497c89dc41848e159e483861ac3c61fbd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 22/49] fix: group-lasso penalties at zero rows, and with
 feature groups

np.true_divide(where=...) without 'out' reads uninitialized memory for zero
rows (NaN weights, random convergence tests), and proximal / is_subgradient
ignored the groups that loss and grad use.
---
 .../active_learning/factorization/penalty.py  | 33 +++++++++++--------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/aideme/active_learning/factorization/penalty.py b/aideme/active_learning/factorization/penalty.py
index a2382d0..4caadb2 100644
--- a/aideme/active_learning/factorization/penalty.py
+++ b/aideme/active_learning/factorization/penalty.py
@@ -89,23 +89,28 @@ class L2SqrtPenalty(PenaltyTerm):
         res = np.zeros_like(x)
         for g in self.groups:
             norm = np.linalg.norm(x[:, g], axis=1)
-            factor = np.true_divide(self._penalty, norm, where=norm > 0)
+            factor = np.true_divide(self._penalty, norm, out=np.zeros_like(norm), where=norm > 0)
             res[:, g] = x[:, g] * factor.reshape(-1, 1)
         return res
 
     def proximal(self, x: np.ndarray, eta: float) -> np.ndarray:
-        norm = np.linalg.norm(x, axis=1)
-        factor = np.true_divide(self._penalty * eta, norm, where=norm > 0)  # avoid dividing by zero
-        factor = np.maximum(0, 1 - factor)
-        return x * factor.reshape(-1, 1)
+        res = x.copy()
+        for g in self.groups:
+            norm = np.linalg.norm(x[:, g], axis=1)
+            factor = np.true_divide(self._penalty * eta, norm, out=np.zeros_like(norm), where=norm > 0)  # avoid dividing by zero
+            factor = np.maximum(0, 1 - factor)
+            res[:, g] = x[:, g] * factor.reshape(-1, 1)
+        return res
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
-        norm = np.linalg.norm(x, axis=1).reshape(-1, 1)
-        not_zero = (norm > 0)
-        n = np.true_divide(x, norm, where=not_zero)  # avoid dividing by zero
-        u = np.linalg.norm(v - self._penalty * n, axis=1)
-        u[~not_zero.ravel()] -= self._penalty
-        return np.all(u <= tol)
+        for g in self.groups:
+            norm = np.linalg.norm(x[:, g], axis=1).reshape(-1, 1)
+            n = np.true_divide(x[:, g], norm, out=np.zeros_like(x[:, g]), where=norm > 0)  # avoid dividing by zero
+            u = np.linalg.norm(v[:, g] - self._penalty * n, axis=1)
+            u[norm.ravel() == 0] -= self._penalty
+            if np.any(u > tol):
+                return False
+        return True
 
 
 class SparseGroupLassoPenalty(PenaltyTerm):
@@ -153,15 +158,15 @@ class SparseGroupLassoPenalty(PenaltyTerm):
         return self.l2_sqrt_penalty.proximal(self.l1_penalty.proximal(x, eta), eta)
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
-        lamb1, lamb2 = self.l1_penalty._penalty, self.l2_sqrt_penalty._penalty
+        lamb2 = self.l2_sqrt_penalty._penalty
         norm = np.linalg.norm(x, axis=1)
         not_zero = (norm > 0)
-        n = v - lamb2 * np.true_divide(x, norm.reshape(-1, 1), where=not_zero.reshape(-1, 1))  # avoid dividing by zero
+        n = v - self.l2_sqrt_penalty.grad(x)
         if not self.l1_penalty.is_subgradient(n[not_zero], x[not_zero], tol):
             return False
 
         v = v[~not_zero]
-        return np.all(np.linalg.norm(v - np.clip(v, -lamb1, lamb1), axis=1) <= lamb2 + tol)
+        return np.all(np.linalg.norm(self.l1_penalty.proximal(v, 1), axis=1) <= lamb2 + tol)
 
 
 class L2Penalty(PenaltyTerm):
-- 
2.43.0


From 87685a4f1501d58b834b892702a21f64300f1258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 23/49] fix: align the learned factorization with the user's
 subspaces

The permutation was applied in the wrong direction (seen with cycles of three
subspaces), and sorting lost the order in which the user gives partial labels:
they were then matched with another subspace.
---
 aideme/active_learning/factorization/active_learning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index de71e14..b13bce9 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -208,7 +208,7 @@ class FactorizationManager:
 
     def set_user_fact(self, user_fact):
         if user_fact is not None:
-            user_fact = sorted([sorted(s) for s in user_fact])
+            user_fact = [sorted(s) for s in user_fact]  # keep the order of the user's partial labels
         self._user_fact = user_fact
 
     def clear(self) -> None:
@@ -253,7 +253,7 @@ class FactorizationManager:
             if i not in mapping:  # subspace is not compatible with any user subspace
                 return False
 
-        self.fact_reindexing = [mapping[i] for i in range(len(mapping))]
+        self.fact_reindexing = [inv_mapping[j] for j in range(len(inv_mapping))]
 
         return True
 
-- 
2.43.0


From 22ba7bcbb9ca24b35409b6a1ce9d5789179a8ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:55 +0000
Subject: [PATCH 24/49] fix: SimplifiedSwapLearner(refine_step_size=...)
 changed the defaults of later instances

---
 aideme/active_learning/factorization/active_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/active_learning.py b/aideme/active_learning/factorization/active_learning.py
index b13bce9..e90c16c 100644
--- a/aideme/active_learning/factorization/active_learning.py
+++ b/aideme/active_learning/factorization/active_learning.py
@@ -298,7 +298,7 @@ class SimplifiedSwapLearner(SwapLearner):
         else:
             params = self.REFINE_CARS if cars else self.REFINE_DEFAULT_PARAMS
         if refine_step_size:
-            params['step_size'] = refine_step_size
+            params = dict(params, step_size=refine_step_size)  # do not change the class-level defaults
 
         refined_model_optimizer = self.get_optimizer(use_fista=use_fista, max_iter=refine_max_iter, **params)
         penalty_term = SparseGroupLassoPenalty(l1_penalty=l1_penalty, l2_sqrt_penalty=l2_sqrt_penalty, groups=one_hot_groups)
-- 
2.43.0


From 777ee523a9f376c6b83082d9d89e37212ce88587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:23 +0000
Subject: [PATCH 25/49] fix: L2Penalty.is_subgradient must not depend on grad()

LinearFactorizationLearner replaces grad() by zero for proximal optimizers,
whose convergence test then ignored the penalty.
---
 aideme/active_learning/factorization/penalty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/penalty.py b/aideme/active_learning/factorization/penalty.py
index 4caadb2..df55334 100644
--- a/aideme/active_learning/factorization/penalty.py
+++ b/aideme/active_learning/factorization/penalty.py
@@ -180,7 +180,7 @@ class L2Penalty(PenaltyTerm):
         return x / (2 * eta * self._penalty + 1)
 
     def is_subgradient(self, v: np.ndarray, x: np.ndarray, tol: float) -> bool:
-        return np.linalg.norm(self.grad(x) - v) <= tol
+        return np.linalg.norm(2 * self._penalty * x - v) <= tol
 
 
 class InteractionPenalty(PenaltyTerm):
-- 
2.43.0


From f64b85921b415a00944b904d3945ab6a0f12ec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:05 +0000
Subject: [PATCH 26/49] fix: Laplace approximation solved an upper Cholesky
 factor as a lower one

scipy.linalg.cholesky returns the upper factor by default: the variance of the
margins only used the factor's diagonal.
---
 aideme/active_learning/version_space/bayesian/laplace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/bayesian/laplace.py b/aideme/active_learning/version_space/bayesian/laplace.py
index 010c971..05f4d3b 100644
--- a/aideme/active_learning/version_space/bayesian/laplace.py
+++ b/aideme/active_learning/version_space/bayesian/laplace.py
@@ -92,7 +92,7 @@ class LaplaceBayesianLogisticRegressionBase:
         self._mean = self._compute_map_estimator(X, y)
 
         H = self._compute_hessian(X, self._mean)
-        self._L = cholesky(H)
+        self._L = cholesky(H, lower=True)
 
     def _compute_map_estimator(self, X, y):
         raise NotImplementedError
-- 
2.43.0


From a8658ee0ae9e3dacfe5709d417497941eb3fb322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:05 +0000
Subject: [PATCH 27/49] fix: SubspatialVersionSpace must accept its documented
 loss 'SQUARED'

It raised KeyError; 'SQUARE' stays accepted.
---
 aideme/active_learning/version_space/subspace.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aideme/active_learning/version_space/subspace.py b/aideme/active_learning/version_space/subspace.py
index 19fb8c8..62f2f80 100644
--- a/aideme/active_learning/version_space/subspace.py
+++ b/aideme/active_learning/version_space/subspace.py
@@ -266,6 +266,7 @@ class SubspatialVersionSpace(SubspaceLearner):
         return super()._get_function(loss, {
             'GREEDY': lambda ps: np.prod(1 - 2 * ps * (1 - ps), axis=0),
             'SQUARE': lambda ps: np.square(ps - 0.5).sum(axis=0),
+            'SQUARED': lambda ps: np.square(ps - 0.5).sum(axis=0),
             'PRODUCT': lambda ps: np.abs(ps.prod(axis=0) - 0.5),
         })
 
-- 
2.43.0


From 8d3d313ebcdf7d777c10e49ed6512e247584db3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:05 +0000
Subject: [PATCH 28/49] fix: the command line exploration must only accept the
 labels 0 and 1

Tokens such as '11' or '01' passed the character check and became labels.
---
 aideme/explore/command_line_explore.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aideme/explore/command_line_explore.py b/aideme/explore/command_line_explore.py
index 73b45a2..c206915 100644
--- a/aideme/explore/command_line_explore.py
+++ b/aideme/explore/command_line_explore.py
@@ -91,5 +91,9 @@ class CommandLineExploration:
             print('Incorrect number of labels: got {} but expected {}\n'.format(len(vals), expected_size))
             return False, None
 
+        if not set(vals).issubset({'0', '1'}):
+            print("Invalid labels: each label must be 0 or 1.\n")
+            return False, None
+
         print()
         return True, [int(x) for x in vals]
-- 
2.43.0


From 8c2e8e15b741f727ad580fad25ba4d117794290f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 29/49] fix: EntropyReductionLearner must be usable through
 fit()

---
 aideme/active_learning/entropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/entropy.py b/aideme/active_learning/entropy.py
index 2d23a45..8573712 100644
--- a/aideme/active_learning/entropy.py
+++ b/aideme/active_learning/entropy.py
@@ -70,7 +70,7 @@ class EntropyReductionLearner(KernelVersionSpace):
     @metric_logger.log_execution_time('entropy_time')
     def __entropy(self, X: np.ndarray) -> np.ndarray:
         H = self.predict_all(X)  # samples x data points
-        H_sample = self.predict_all(self.__sample)
+        H_sample = H if self.__sample is None else self.predict_all(self.__sample)  # no sample if trained through fit()
 
         sums = H.sum(axis=0)
         cut_proba = sums / H.shape[0]
-- 
2.43.0


From 9c8a28293eea77fc85637cf7b8dd9ef787c414fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 30/49] fix: hit-and-run must restart from a fresh ellipsoid
 when the dimension changes otherwise than by one

---
 .../active_learning/version_space/hit_and_run/hit_and_run.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/version_space/hit_and_run/hit_and_run.py b/aideme/active_learning/version_space/hit_and_run/hit_and_run.py
index 25fb756..91aff66 100644
--- a/aideme/active_learning/version_space/hit_and_run/hit_and_run.py
+++ b/aideme/active_learning/version_space/hit_and_run/hit_and_run.py
@@ -124,8 +124,8 @@ class HitAndRunSampler:
             return self.ellipsoid_cache
 
         if new_dim != d + 1:
-            # TODO: is it possible to perform more general updates?
-            raise RuntimeError("Only +1 updates are supported.")
+            # TODO: is it possible to perform more general updates? For now, we start from scratch.
+            return None
 
         # kernel case: dimension grows with number of labeled points
         elp = Ellipsoid(new_dim, compute_scale_matrix=False)
-- 
2.43.0


From 295f5f21b6f0aeafac0c1db5ad68d4d6fa1b9634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:26 +0000
Subject: [PATCH 31/49] fix: a rejected move_to_labeled must not leave points
 without labels in the LABELED partition

---
 aideme/explore/partitioned.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index 8068078..4d3e536 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -77,14 +77,15 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         Move indexes to LABELED partition, and store its labels. Throws exception if any index is already in this partition.
         :param labeled_set: LabeledSet instance containing the labels and indexes of points to be moved
         """
-        for idx in labeled_set.index:
+        for idx in labeled_set.index:  # check everything first: a rejected call must not move points without their labels
             pos = self.__index_to_row[idx]
 
-            if pos >= self.__inferred_start:
-                self.__move_left(pos, to_labeled=True)
-            else:
+            if pos < self.__inferred_start:
                 self.__raise_error(idx, pos, 'labeled')
 
+        for idx in labeled_set.index:
+            self.__move_left(self.__index_to_row[idx], to_labeled=True)
+
         self.__last_user_labeled_set = labeled_set
         self.__labeled_set = self.__labeled_set.concat(labeled_set)
 
-- 
2.43.0


From f0f9f638aca2c5beee6dfef3c48ea0152dd1c4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:42 +0000
Subject: [PATCH 32/49] fix: labels must follow the points moved before a
 rejected one

---
 aideme/explore/partitioned.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index 4d3e536..145baaf 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -152,6 +152,7 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         self.__index_to_row.swap_index(idx_i, idx_j)
 
     def __raise_error(self, idx, pos: int, partition_name: str) -> None:
+        self.__realign_labeled_set()  # points moved before the error may have left the LABELED partition
         raise ValueError("Index {}, at position {}, is already in {} set.".format(idx, pos, partition_name))
 
     def remove_inferred(self) -> None:
-- 
2.43.0


From a515732aaecb7eed745b2b37940170006978a74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:37 +0000
Subject: [PATCH 33/49] fix: set_partial_labels must not modify the caller's
 LabeledSet

---
 aideme/explore/partitioned.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aideme/explore/partitioned.py b/aideme/explore/partitioned.py
index 145baaf..3519eca 100644
--- a/aideme/explore/partitioned.py
+++ b/aideme/explore/partitioned.py
@@ -280,7 +280,8 @@ class PartitionedDataset:  # TODO: how can we add partition information? (factor
         Sets the partial labels for the current user labeled set of points
         :param y_partial: array of partial labels
         """
-        self.__labeled_set.set_partial_labels(y_partial)
+        # do not modify the current instance, it may be the very one given by the caller of move_to_labeled()
+        self.__labeled_set = LabeledSet(self.__labeled_set.labels, y_partial, self.__labeled_set.index)
 
     def predict_user_labels(self, active_learner: ActiveLearner) -> LabeledSet:
         """
-- 
2.43.0


From 588e9d2aefbff5d7bf982cfefb0b5d329e17d67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 34/49] fix: NaN margins of training points in the decomposed
 kernel version space

---
 aideme/active_learning/version_space/kernel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aideme/active_learning/version_space/kernel.py b/aideme/active_learning/version_space/kernel.py
index f483650..1bebc65 100644
--- a/aideme/active_learning/version_space/kernel.py
+++ b/aideme/active_learning/version_space/kernel.py
@@ -70,6 +70,7 @@ class KernelBayesianLogisticRegression:
             scipy.linalg.solve_triangular(self.__L_train, K.T, lower=True, trans=0, overwrite_b=True)  # inplace L^-1 K
 
             delta = self.kernel.diagonal(X) - np.einsum('ir, ir -> i', K, K)
+            np.maximum(delta, 0, out=delta)  # rounding errors may give slightly negative values, hence NaN margins
             np.sqrt(delta, out=delta)
 
             K = np.c_[K, delta]  # TODO: how to avoid copying data?
-- 
2.43.0


From 5e30b40753fc5fc3088490df7ddb7144a03a070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:00 +0000
Subject: [PATCH 35/49] fix: labels inferred by the DSM must follow a polytope
 model which was flipped by a conflict

---
 aideme/active_learning/dsm/base.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/aideme/active_learning/dsm/base.py b/aideme/active_learning/dsm/base.py
index 1379c0e..a72fa5c 100644
--- a/aideme/active_learning/dsm/base.py
+++ b/aideme/active_learning/dsm/base.py
@@ -67,10 +67,11 @@ class DualSpaceModelBase(ActiveLearner):
         if self._dsm_labeled_cache.is_empty:
             return
 
-        is_known = self.polytope_model.predict(self._dsm_labeled_cache.X) != 0.5
+        pred = self.polytope_model.predict(self._dsm_labeled_cache.X)
 
-        if not np.all(is_known):
-            self._dsm_labeled_cache.filter(is_known)
+        if not np.array_equal(pred, self._dsm_labeled_cache.y):  # labels may become unknown, or be flipped
+            self._dsm_labeled_cache.relabel(pred)
+            self._dsm_labeled_cache.filter(pred != 0.5)
             self.__fit_active_learner(data)  # retrain AL since labeled changed
 
     def predict(self, X: np.ndarray) -> np.ndarray:
@@ -163,6 +164,13 @@ class TrainingSetCache:
         """
         return np.vstack(self._X)
 
+    @property
+    def y(self) -> np.ndarray:
+        """
+        :return: the training labels as numpy array
+        """
+        return np.array(self._y)
+
     def clear(self) -> None:
         """
         Empties the cache
@@ -186,6 +194,13 @@ class TrainingSetCache:
         self._X.extend(X)
         self._y.extend(y)
 
+    def relabel(self, y: np.ndarray) -> None:
+        """
+        Replaces all labels in the cache
+        :param y: new data labels
+        """
+        self._y = list(y)
+
     def filter(self, mask: Sequence[bool]) -> None:
         """
         Filters the cache elements with the given mask sequence
-- 
2.43.0


From c8e11a3672b84751c578815b56f2bb1a9e6abd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 36/49] fix: the polytope model must see all labels of a
 multi-iteration initial sampling

---
 aideme/active_learning/dsm/model.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/model.py b/aideme/active_learning/dsm/model.py
index d0bb855..ada297f 100644
--- a/aideme/active_learning/dsm/model.py
+++ b/aideme/active_learning/dsm/model.py
@@ -25,6 +25,10 @@ if TYPE_CHECKING:
 class PolytopeModelBase(PolytopeBase):
     def __init__(self, factorized: bool):
         self._factorized = factorized
+        self.__is_updated = False
+
+    def clear(self) -> None:
+        self.__is_updated = False
 
     @staticmethod
     def get_polytope(mode: str, tol: float) -> PolytopeBase:
@@ -41,7 +45,12 @@ class PolytopeModelBase(PolytopeBase):
         raise ValueError('Unknown mode {0}. Available values are: {1}'.format(mode, ['categorical', 'multiset', 'negative', 'persist', 'positive']))
 
     def update_data(self, data: PartitionedDataset) -> bool:
-        X, y = data.last_training_set(get_partial=self._factorized)
+        if self.__is_updated:
+            X, y = data.last_training_set(get_partial=self._factorized)
+        else:  # the initial sampling may have taken several iterations, all of them without any update
+            X, y = data.training_set(get_partial=self._factorized)
+
+        self.__is_updated = True
         return self.update(X, y)
 
 
@@ -55,6 +64,7 @@ class PolytopeModel(PolytopeModelBase):
         return self._pol.is_valid
 
     def clear(self) -> None:
+        super().clear()
         self._pol.clear()
 
     def predict(self, X: np.ndarray) -> np.ndarray:
@@ -89,6 +99,7 @@ class FactorizedPolytopeModel(PolytopeModelBase):
         return all((pol.is_valid for pol in self.polytope_models))
 
     def clear(self) -> None:
+        super().clear()
         for pol in self.polytope_models:
             pol.clear()
 
-- 
2.43.0


From e90aafeebd51b0bebf49a2604f4f5e19b7390d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 37/49] fix: three_set_metric must not be NaN when no point is
 positive or unknown

---
 aideme/utils/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/utils/metrics.py b/aideme/utils/metrics.py
index 37030e7..a18bcc7 100644
--- a/aideme/utils/metrics.py
+++ b/aideme/utils/metrics.py
@@ -45,7 +45,7 @@ def three_set_metric(dataset: PartitionedDataset, active_learner: ActiveLearner)
 
     pos = (pred == 1).sum()
     unknown = (pred == 0.5).sum()
-    tsm = pos / (pos + unknown)
+    tsm = __true_divide(pos, pos + unknown)
 
     return {'tsm': tsm}
 
-- 
2.43.0


From 34f4524a0c300f1fe68eb18d83de82582de1412d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 38/49] fix: RatioMargin.rank read the classes of a classifier
 which is not fitted yet

---
 aideme/active_learning/margin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aideme/active_learning/margin.py b/aideme/active_learning/margin.py
index a522958..215a4bb 100644
--- a/aideme/active_learning/margin.py
+++ b/aideme/active_learning/margin.py
@@ -74,8 +74,8 @@ class RatioMargin(SimpleMargin):
         return -np.array([self.__compute_margin_ratio(clf, x) for x in X])
 
     def __compute_margin_ratio(self, clf, x):
-        margin0 = self.__compute_margin(clf, x, clf.classes_[0])
-        margin1 = self.__compute_margin(clf, x, clf.classes_[1])
+        margin0 = self.__compute_margin(clf, x, self.clf.classes_[0])
+        margin1 = self.__compute_margin(clf, x, self.clf.classes_[1])
 
         if margin0 <= 0 or margin1 <= 0:
             return float('inf')
-- 
2.43.0


From 022938887ff811bfdeafbfe089062f821cd0671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:58 +0000
Subject: [PATCH 39/49] fix: a restored ConvexCone must not take another point
 for its vertex

---
 aideme/active_learning/dsm/convex/convex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/convex/convex.py b/aideme/active_learning/dsm/convex/convex.py
index 27d437b..6939554 100644
--- a/aideme/active_learning/dsm/convex/convex.py
+++ b/aideme/active_learning/dsm/convex/convex.py
@@ -33,7 +33,7 @@ class ConvexHull:
         of "vertices" composing the convex hull.
         """
         return {
-            'vertices': self.vertices,
+            'vertices': self.hull.points[np.sort(self.hull.vertices)],  # a ConvexCone expects its vertex to remain the first one
             'tol': self.tol
         }
 
-- 
2.43.0


From f34002c33ad72dae082f09b127f72256d0ed5fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 40/49] fix: polytope learners must see all labels of a
 multi-iteration initial sampling

---
 aideme/active_learning/version_space/categorical.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aideme/active_learning/version_space/categorical.py b/aideme/active_learning/version_space/categorical.py
index e54a5bc..f375f1e 100644
--- a/aideme/active_learning/version_space/categorical.py
+++ b/aideme/active_learning/version_space/categorical.py
@@ -32,11 +32,11 @@ class PolytopeLearner(ActiveLearner):
 
     def fit_data(self, data):
         """
-        Updates the polytope model with the last user labeled data.
+        Fits the polytope model over all user labeled data (the initial sampling may have taken several iterations).
         :param data: PartitionedDataset instance
         """
-        X_new, y_new = data.last_training_set()
-        self.__update_polytope(X_new, y_new)
+        X, y = data.training_set()
+        self.fit(X, y)
 
     def fit(self, X, y):
         """
-- 
2.43.0


From 83446d9192ffbd1cf66bf6b0d907b90febd4db55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 41/49] fix: rebuild a convex hull whose incremental update
 failed

---
 aideme/active_learning/dsm/convex/convex.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/dsm/convex/convex.py b/aideme/active_learning/dsm/convex/convex.py
index 6939554..52d7faf 100644
--- a/aideme/active_learning/dsm/convex/convex.py
+++ b/aideme/active_learning/dsm/convex/convex.py
@@ -66,7 +66,10 @@ class ConvexHull:
         :param points: list of points to be added to the convex hull
         """
         points = np.atleast_2d(points)
-        self.hull.add_points(points)
+        try:
+            self.hull.add_points(points)
+        except scipy.spatial.QhullError:  # the incremental hull is unusable after an error (it may even crash)
+            self.hull.add_points(points, restart=True)
 
     def is_inside(self, points):
         """
-- 
2.43.0


From 11d2fed72f6c96d26b08e83130aa50702b558649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:18 +0000
Subject: [PATCH 42/49] fix: the interior point of a degenerate version space
 must be rejected

---
 .../version_space/hit_and_run/polyhedral_cone.py          | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py b/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py
index 39f9c2f..1837070 100644
--- a/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py
+++ b/aideme/active_learning/version_space/hit_and_run/polyhedral_cone.py
@@ -73,7 +73,13 @@ class BoundedPolyhedralCone:
 
         # return normalized point
         point = res.x[1:]
-        return (0.99 / np.linalg.norm(point)) * point
+        point = (0.99 / np.linalg.norm(point)) * point
+
+        # a slack of 0 may come out slightly negative
+        if not self.is_inside_polytope(point):
+            raise RuntimeError("Linear programming failed! Check constrains for degeneracy of Version Space.")
+
+        return point
 
     def get_separating_oracle(self, point: np.ndarray) -> Optional[HyperPlane]:
         """
-- 
2.43.0


From ba136120b49be7ad89557f96f1aee4e942f9636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:40 +0000
Subject: [PATCH 43/49] fix: gradient of badly misclassified negative points
 vanished in the factorized loss

---
 aideme/active_learning/factorization/linear.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 18fb15e..35ae6a3 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -265,14 +265,11 @@ class LinearFactorizationLoss:
         return grad_b, grad_w
 
     def __compute_grad_weights(self, margins: np.ndarray, y: np.ndarray):
-        probas = expit(margins)
+        # work with logarithms: probabilities of badly misclassified points round to 1
+        weights = np.asarray(utils.grad_weights(utils.compute_log_probas(margins), y))
+        weights = np.minimum(weights, 1e308) / margins.shape[0]
 
-        weights = probas.prod(axis=1)
-        np.true_divide(weights, 1 - weights, out=weights, where=weights < 1)
-        weights[y > 0] = -1
-        weights /= margins.shape[0]
-
-        return (1 - probas) * weights.reshape(-1, 1)
+        return expit(-margins) * weights.reshape(-1, 1)
 
     def get_weights_matrix(self, weights: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
         if self.factorization is None:
-- 
2.43.0


From 6e819f41770b4d081e13d8056c045ce9f45507b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:40 +0000
Subject: [PATCH 44/49] fix: gradient of badly misclassified negative points
 vanished in the partition learner

---
 aideme/active_learning/factorization/partitioning/linear.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aideme/active_learning/factorization/partitioning/linear.py b/aideme/active_learning/factorization/partitioning/linear.py
index 3a88f0c..6c49434 100644
--- a/aideme/active_learning/factorization/partitioning/linear.py
+++ b/aideme/active_learning/factorization/partitioning/linear.py
@@ -96,10 +96,8 @@ class FactorizedLinearClassifier:
         grads = np.ones((self.dim, len(X)))
 
         for begin, end, X_partial, w_partial in self.__generate_subspace_data(X, include_endpoints=True):
-            partial_proba = self._logistic_proba(X_partial, w_partial)
-
             grads[begin+1:end] = X_partial.T
-            grads[begin:end] *= (1 - partial_proba)
+            grads[begin:end] *= expit(-self._margin(X_partial, w_partial))  # 1 - proba, which may round to zero
 
         return grads
 
-- 
2.43.0


From 246c4b89f25143659d3a3511f93a1fa504123fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:40 +0000
Subject: [PATCH 45/49] fix: partial_proba of a factorized classifier must use
 the attributes of the subspace

---
 aideme/active_learning/factorization/partitioning/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/partitioning/linear.py b/aideme/active_learning/factorization/partitioning/linear.py
index 6c49434..ec08dab 100644
--- a/aideme/active_learning/factorization/partitioning/linear.py
+++ b/aideme/active_learning/factorization/partitioning/linear.py
@@ -51,7 +51,7 @@ class FactorizedLinearClassifier:
     def partial_proba(self, X: np.ndarray, i: int) -> np.ndarray:
         begin = self.__offsets[i-1] if i > 0 else 0
         end = self.__offsets[i]
-        return self._logistic_proba(X, self.weights[begin:end])
+        return self._logistic_proba(X[:, self.partition[i]], self.weights[begin:end])
 
     def merge_partitions(self, i: int, j: int, merge_weights: bool = True) -> FactorizedLinearClassifier:
         if i == j:
-- 
2.43.0


From c8afdff7837f1de63a89249ea23a9e05c878d0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:52 +0000
Subject: [PATCH 46/49] fix: the bias of a fitted learner without bias is zero,
 not None

---
 aideme/active_learning/factorization/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/factorization/linear.py b/aideme/active_learning/factorization/linear.py
index 35ae6a3..5ade2c5 100644
--- a/aideme/active_learning/factorization/linear.py
+++ b/aideme/active_learning/factorization/linear.py
@@ -58,7 +58,7 @@ class LinearFactorizationLearner:
 
     @property
     def bias(self) -> Optional[np.ndarray]:
-        if self._bias is None:
+        if self._weights is None:
             return None
 
         return self._bias.copy() if self.add_bias else np.zeros(self._weights.shape[0])
-- 
2.43.0


From e1592063bef3689d8e67340ff1639f0b805a4812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:09 +0000
Subject: [PATCH 47/49] fix: Stan learners could not be created unless the
 directory stan_models existed

---
 aideme/active_learning/version_space/bayesian/stan.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aideme/active_learning/version_space/bayesian/stan.py b/aideme/active_learning/version_space/bayesian/stan.py
index 10ee34a..15ba2a5 100644
--- a/aideme/active_learning/version_space/bayesian/stan.py
+++ b/aideme/active_learning/version_space/bayesian/stan.py
@@ -82,6 +82,7 @@ class StanLogisticRegressionSampler:
             return pickle.load(open(path_to_saved_model, 'rb'))
 
         model = StanModel(model_code=self.__parse_prior_options(prior))
+        os.makedirs(os.path.dirname(path_to_saved_model), exist_ok=True)
         pickle.dump(model, open(path_to_saved_model, 'wb'))
         return model
 
-- 
2.43.0


From 1b5c2091b0ed76bb587306f81e39b34b39d417a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 48/49] fix: the command line exploration must run its
 callbacks and pass their metrics on to the convergence criteria

---
 aideme/explore/command_line_explore.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aideme/explore/command_line_explore.py b/aideme/explore/command_line_explore.py
index c206915..94f4c70 100644
--- a/aideme/explore/command_line_explore.py
+++ b/aideme/explore/command_line_explore.py
@@ -15,7 +15,7 @@ from __future__ import annotations
 from typing import Optional, TYPE_CHECKING
 
 from . import LabeledSet, ExplorationManager, PartitionedDataset
-from ..utils import assert_positive_integer, process_callback
+from ..utils import assert_positive_integer, metric_logger, process_callback
 
 if TYPE_CHECKING:
     from ..active_learning import ActiveLearner
@@ -58,11 +58,17 @@ class CommandLineExploration:
 
         print('Welcome to the manual exploration process. \n')
 
+        metric_logger.flush()  # criteria must not see the metrics of a previous exploration
+
         while not manager.converged() and self._is_willing:
+            metric_logger.flush()  # avoid overlapping metrics between iterations
+
             data_to_label = manager.get_next_to_label()
             new_labeled_set = self._label(data_to_label.index, data_to_label.data)
             manager.update(new_labeled_set)
 
+            metric_logger.log_metrics(manager.get_callback_metrics())
+
     @property
     def _is_willing(self) -> bool:
         val = input("Continue (y/n): ")
-- 
2.43.0


From 75172699909a576bcefc8a2336ef441b14b7e43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:12 +0000
Subject: [PATCH 49/49] fix: connectors which are neither names nor callables
 must be rejected with a ValueError

---
 aideme/active_learning/version_space/subspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aideme/active_learning/version_space/subspace.py b/aideme/active_learning/version_space/subspace.py
index 62f2f80..bba40e5 100644
--- a/aideme/active_learning/version_space/subspace.py
+++ b/aideme/active_learning/version_space/subspace.py
@@ -97,7 +97,7 @@ class SubspaceLearner(FactorizedActiveLearner):
         if function is None or callable(function):
             return function
 
-        raise ValueError("Expected callable or string, but received a " + type(function))
+        raise ValueError("Expected callable or string, but received a {}".format(type(function)))
 
     def clear(self):
         for learner in self.learners:
-- 
2.43.0

