From fc0ac4e063f338e15f48d8cc534af5c9cbf8effb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:17 +0000
Subject: [PATCH 01/52] fix: copy the number of nominal != conditions when
 copying a list of conditions

---
 cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp b/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp
index a016116..4a0af53 100644
--- a/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/model/condition_list.cpp
@@ -7,7 +7,7 @@ ConditionList::ConditionList(const ConditionList& conditionList)
       numConditionsPerComparator_(
         {conditionList.numConditionsPerComparator_[0], conditionList.numConditionsPerComparator_[1],
          conditionList.numConditionsPerComparator_[2], conditionList.numConditionsPerComparator_[3],
-         conditionList.numConditionsPerComparator_[4], conditionList.numConditionsPerComparator_[4]}) {}
+         conditionList.numConditionsPerComparator_[4], conditionList.numConditionsPerComparator_[5]}) {}
 
 ConditionList::const_iterator ConditionList::cbegin() const {
     return vector_.cbegin();
-- 
2.43.0


From c7f1f3197d71c21fa710d60c8f007391ec44f622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:17 +0000
Subject: [PATCH 02/52] fix: keep the averaged probability of the last bin when
 fitting an isotonic calibration model

---
 .../mlrl/common/prediction/probability_calibration_isotonic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp b/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
index 87542fe..a0414ca 100644
--- a/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
@@ -29,7 +29,7 @@ static inline void sortByThresholdsAndEliminateDuplicates(ListOfLists<Tuple<floa
         }
     }
 
-    bins[n] = bins[numBins - 1];
+    bins[n] = previousBin;
     n++;
     bins.resize(n);
 }
-- 
2.43.0


From d24b30e82d79af496cd1cc81fa52e620aff904f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:17 +0000
Subject: [PATCH 03/52] fix: pass on whether unused rules should be removed
 when using global pre-pruning

---
 .../common/src/mlrl/common/stopping/global_pruning_pre.cpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
index 67ac4cf..3f70996 100644
--- a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
@@ -173,8 +173,9 @@ class PrePruningFactory final : public IStoppingCriterionFactory {
                           bool useHoldoutSet, bool removeUnusedRules, uint32 minRules, uint32 updateInterval,
                           uint32 stopInterval, uint32 numPast, uint32 numCurrent, float64 minImprovement)
             : aggregationFunctionFactoryPtr_(std::move(aggregationFunctionFactoryPtr)), useHoldoutSet_(useHoldoutSet),
-              minRules_(minRules), updateInterval_(updateInterval), stopInterval_(stopInterval), numPast_(numPast),
-              numCurrent_(numCurrent), minImprovement_(minImprovement) {}
+              removeUnusedRules_(removeUnusedRules), minRules_(minRules), updateInterval_(updateInterval),
+              stopInterval_(stopInterval), numPast_(numPast), numCurrent_(numCurrent), minImprovement_(minImprovement) {
+        }
 
         std::unique_ptr<IStoppingCriterion> create(const SinglePartition& partition) const override {
             std::unique_ptr<IAggregationFunction> aggregationFunctionPtr = aggregationFunctionFactoryPtr_->create();
-- 
2.43.0


From 4a9986cd1f9f7564f04609e262e205991bba2cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:17 +0000
Subject: [PATCH 04/52] fix: count uncovered labels correctly when evaluating
 the accuracy heuristic

---
 .../seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp b/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp
index 14e7921..42eeb97 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/heuristics/heuristic_accuracy.cpp
@@ -14,9 +14,9 @@ namespace seco {
             float64 evaluateConfusionMatrix(float64 cin, float64 cip, float64 crn, float64 crp, float64 uin,
                                             float64 uip, float64 urn, float64 urp) const override {
                 float64 numCoveredCorrect = cin + crp;
-                float64 numUncoveredCorrect = uin + uip;
+                float64 numUncoveredCorrect = uip + urn;
                 float64 numCorrect = numCoveredCorrect + numUncoveredCorrect;
-                float64 numTotal = numCorrect + cip + crn + urn + urp;
+                float64 numTotal = numCorrect + cip + crn + uin + urp;
                 return util::divideOrZero(numCorrect, numTotal);
             }
     };
-- 
2.43.0


From ea774f76da72df1cd48621d7baf2cce9f5490cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:03 +0000
Subject: [PATCH 05/52] fix: do not let missing values satisfy ordinal or
 nominal conditions when predicting

---
 .../common/src/mlrl/common/model/body_conjunctive.cpp  | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp b/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp
index 441136a..0528c1a 100644
--- a/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/model/body_conjunctive.cpp
@@ -1,5 +1,7 @@
 #include "mlrl/common/model/body_conjunctive.hpp"
 
+#include <cmath>
+
 template<typename Threshold, typename Compare>
 ConjunctiveBody::ConditionVector<Threshold, Compare>::ConditionVector(uint32 numConditions)
     : IterableIndexedVectorDecorator<IndexedVectorDecorator<AllocatedVector<uint32>, AllocatedVector<Threshold>>>(
@@ -16,9 +18,9 @@ bool ConjunctiveBody::ConditionVector<Threshold, Compare>::covers(View<const flo
     for (uint32 i = 0; i < numConditions; i++) {
         uint32 featureIndex = featureIndexIterator[i];
         Threshold threshold = thresholdIterator[i];
-        Threshold featureValue = (Threshold) begin[featureIndex];
+        float32 featureValue = begin[featureIndex];
 
-        if (!compare_(featureValue, threshold)) {
+        if (std::isnan(featureValue) || !compare_((Threshold) featureValue, threshold)) {
             return false;
         }
     }
@@ -40,9 +42,9 @@ bool ConjunctiveBody::ConditionVector<Threshold, Compare>::covers(View<uint32>::
     for (uint32 i = 0; i < numConditions; i++) {
         uint32 featureIndex = featureIndexIterator[i];
         Threshold threshold = thresholdIterator[i];
-        Threshold featureValue = (Threshold) (tmpArray2[featureIndex] == n ? tmpArray1[featureIndex] : sparseValue);
+        float32 featureValue = tmpArray2[featureIndex] == n ? tmpArray1[featureIndex] : sparseValue;
 
-        if (!compare_(featureValue, threshold)) {
+        if (std::isnan(featureValue) || !compare_((Threshold) featureValue, threshold)) {
             return false;
         }
     }
-- 
2.43.0


From 1d41829930aca5547321fc91a023545252d00f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:03 +0000
Subject: [PATCH 06/52] fix: keep explicitly stored zeros when converting a
 sparse matrix with a non-zero sparse value

---
 python/subprojects/common/mlrl/common/arrays.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/arrays.py b/python/subprojects/common/mlrl/common/arrays.py
index 7b1fc9b..d9abf39 100644
--- a/python/subprojects/common/mlrl/common/arrays.py
+++ b/python/subprojects/common/mlrl/common/arrays.py
@@ -144,9 +144,9 @@ def enforce_dense(array, order: str, dtype, sparse_value=0) -> np.ndarray:
     if is_sparse(array):
         if sparse_value != 0:
             dense_array = np.full(shape=array.shape, fill_value=sparse_value, dtype=dtype, order=order)
-            dense_array[array.nonzero()] = 0
-            dense_array += array
-            return np.asarray(dense_array, dtype=dtype, order=order)
+            coo_array = array.tocsr().tocoo()
+            dense_array[coo_array.row, coo_array.col] = coo_array.data
+            return dense_array
         return np.require(array.toarray(order=order), dtype=dtype)
     return np.require(array, dtype=dtype, requirements=[order])
 
-- 
2.43.0


From 61319cd270305eac2b7df3abb386c477dd03f500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:03 +0000
Subject: [PATCH 07/52] fix: ignore explicitly stored zeros and sort indices in
 sparse ground truth matrices

---
 python/subprojects/common/mlrl/common/rule_learners.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index 40c55f4..2c7d232 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -439,6 +439,9 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
 
         if is_sparse(y):
             log.debug('A sparse matrix is used to store the labels of the training examples')
+            y = y.copy()
+            y.sum_duplicates()
+            y.eliminate_zeros()
             y_indices = np.ascontiguousarray(y.indices, dtype=Uint32)
             y_indptr = np.ascontiguousarray(y.indptr, dtype=Uint32)
             return CsrLabelMatrix(y_indices, y_indptr, y.shape[0], y.shape[1])
@@ -609,6 +612,8 @@ class RegressionRuleLearner(RuleLearner, RegressorMixin, IncrementalRegressorMix
 
         if is_sparse(y):
             log.debug('A sparse matrix is used to store the regression scores of the training examples')
+            y = y.copy()
+            y.sum_duplicates()
             y_data = np.ascontiguousarray(y.data, dtype=Float32)
             y_indices = np.ascontiguousarray(y.indices, dtype=Uint32)
             y_indptr = np.ascontiguousarray(y.indptr, dtype=Uint32)
-- 
2.43.0


From 85debcba101440a0735bf22023b93199b5d871cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:16 +0000
Subject: [PATCH 08/52] fix: support sparse matrices that do not store any
 elements

---
 .../common/mlrl/common/cython/feature_matrix.pyx          | 8 ++++++--
 .../common/mlrl/common/cython/label_matrix.pyx            | 3 ++-
 .../common/mlrl/common/cython/regression_matrix.pyx       | 4 +++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/cython/feature_matrix.pyx b/python/subprojects/common/mlrl/common/cython/feature_matrix.pyx
index a2f0ac0..906b445 100644
--- a/python/subprojects/common/mlrl/common/cython/feature_matrix.pyx
+++ b/python/subprojects/common/mlrl/common/cython/feature_matrix.pyx
@@ -91,7 +91,9 @@ cdef class CscFeatureMatrix(ColumnWiseFeatureMatrix):
         self.values = values
         self.indices = indices
         self.indptr = indptr
-        self.feature_matrix_ptr = createCscFeatureMatrix(&values[0], &indices[0], &indptr[0], num_examples,
+        cdef const float32* values_ptr = &values[0] if values.shape[0] > 0 else NULL
+        cdef uint32* indices_ptr = &indices[0] if indices.shape[0] > 0 else NULL
+        self.feature_matrix_ptr = createCscFeatureMatrix(values_ptr, indices_ptr, &indptr[0], num_examples,
                                                          num_features, sparse_value)
 
     cdef IFeatureMatrix* get_feature_matrix_ptr(self):
@@ -156,7 +158,9 @@ cdef class CsrFeatureMatrix(RowWiseFeatureMatrix):
         self.values = values
         self.indices = indices
         self.indptr = indptr
-        self.feature_matrix_ptr = createCsrFeatureMatrix(&values[0], &indices[0], &indptr[0], num_examples,
+        cdef const float32* values_ptr = &values[0] if values.shape[0] > 0 else NULL
+        cdef uint32* indices_ptr = &indices[0] if indices.shape[0] > 0 else NULL
+        self.feature_matrix_ptr = createCsrFeatureMatrix(values_ptr, indices_ptr, &indptr[0], num_examples,
                                                          num_features, sparse_value)
 
     cdef IFeatureMatrix* get_feature_matrix_ptr(self):
diff --git a/python/subprojects/common/mlrl/common/cython/label_matrix.pyx b/python/subprojects/common/mlrl/common/cython/label_matrix.pyx
index 1afda7a..b35d044 100644
--- a/python/subprojects/common/mlrl/common/cython/label_matrix.pyx
+++ b/python/subprojects/common/mlrl/common/cython/label_matrix.pyx
@@ -56,7 +56,8 @@ cdef class CsrLabelMatrix(RowWiseLabelMatrix):
         """
         self.indices = indices
         self.indptr = indptr
-        self.label_matrix_ptr = createCsrLabelMatrix(&indices[0], &indptr[0], num_examples, num_labels)
+        cdef uint32* indices_ptr = &indices[0] if indices.shape[0] > 0 else NULL
+        self.label_matrix_ptr = createCsrLabelMatrix(indices_ptr, &indptr[0], num_examples, num_labels)
 
     cdef IOutputMatrix* get_output_matrix_ptr(self):
         return self.label_matrix_ptr.get()
diff --git a/python/subprojects/common/mlrl/common/cython/regression_matrix.pyx b/python/subprojects/common/mlrl/common/cython/regression_matrix.pyx
index f2db3c1..34be58f 100644
--- a/python/subprojects/common/mlrl/common/cython/regression_matrix.pyx
+++ b/python/subprojects/common/mlrl/common/cython/regression_matrix.pyx
@@ -57,7 +57,9 @@ cdef class CsrRegressionMatrix(RowWiseRegressionMatrix):
         self.values = values
         self.indices = indices
         self.indptr = indptr
-        self.regression_matrix_ptr = createCsrRegressionMatrix(&values[0], &indices[0], &indptr[0], num_examples,
+        cdef float32* values_ptr = &values[0] if values.shape[0] > 0 else NULL
+        cdef uint32* indices_ptr = &indices[0] if indices.shape[0] > 0 else NULL
+        self.regression_matrix_ptr = createCsrRegressionMatrix(values_ptr, indices_ptr, &indptr[0], num_examples,
                                                                num_outputs)
 
     cdef IOutputMatrix* get_output_matrix_ptr(self):
-- 
2.43.0


From 788c24451fb50860b076d7b8c86c454fbb90cae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:43 +0000
Subject: [PATCH 09/52] fix: report that probabilities cannot be predicted
 incrementally instead of recursing infinitely

---
 python/subprojects/common/mlrl/common/rule_learners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index 2c7d232..612f43f 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -519,7 +519,7 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
             return ClassificationRuleLearner.NonNativeIncrementalProbabilityPredictor(
                 feature_matrix, model, max_rules, predictor)
 
-        return super().predict_proba_incrementally(x, **kwargs)
+        return super()._predict_proba_incrementally(x, **kwargs)
 
     @staticmethod
     def _create_binary_predictor(learner: RuleLearnerWrapper, model: RuleModel, output_space_info: OutputSpaceInfo,
-- 
2.43.0


From ad59472b640f89037457d051d16267fe6fab50c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:34 +0000
Subject: [PATCH 10/52] fix: allow to specify nominal features without
 specifying ordinal ones and vice versa

---
 python/subprojects/common/mlrl/common/rule_learners.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index 612f43f..d320637 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -275,10 +275,10 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
         :param num_features:    The total number of available features
         :return:                The `FeatureInfo` that has been created
         """
-        ordinal_feature_indices = self.ordinal_feature_indices
-        nominal_feature_indices = self.nominal_feature_indices
-        num_ordinal_features = 0 if ordinal_feature_indices is None else len(ordinal_feature_indices)
-        num_nominal_features = 0 if nominal_feature_indices is None else len(nominal_feature_indices)
+        ordinal_feature_indices = self.ordinal_feature_indices or []
+        nominal_feature_indices = self.nominal_feature_indices or []
+        num_ordinal_features = len(ordinal_feature_indices)
+        num_nominal_features = len(nominal_feature_indices)
 
         if num_ordinal_features == 0 and num_nominal_features == 0:
             return EqualFeatureInfo.create_numerical()
-- 
2.43.0


From f784a3321ef76ec6f3d47fc4fc9c4d13d2fcd360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:44 +0000
Subject: [PATCH 11/52] fix: do not access the bins of an isotonic calibration
 model if there are none

---
 .../probability_calibration_isotonic.cpp      | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp b/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
index a0414ca..3052e61 100644
--- a/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/prediction/probability_calibration_isotonic.cpp
@@ -113,16 +113,15 @@ static inline float64 calibrateProbability(ListOfLists<Tuple<float64>>::const_ro
     Tuple<float64> lowerBound;
     Tuple<float64> upperBound;
 
-    if (it == end) {
+    if (offset > 0) {
         lowerBound = begin[offset - 1];
-        upperBound = 1;
     } else {
-        if (offset > 0) {
-            lowerBound = begin[offset - 1];
-        } else {
-            lowerBound = 0;
-        }
+        lowerBound = 0;
+    }
 
+    if (it == end) {
+        upperBound = 1;
+    } else {
         upperBound = *it;
     }
 
@@ -140,8 +139,11 @@ void IsotonicProbabilityCalibrationModel::fit() {
 
     for (uint32 i = 0; i < numLists; i++) {
         row bins = (*this)[i];
-        sortByThresholdsAndEliminateDuplicates(bins);
-        aggregateNonIncreasingBins(bins);
+
+        if (!bins.empty()) {
+            sortByThresholdsAndEliminateDuplicates(bins);
+            aggregateNonIncreasingBins(bins);
+        }
     }
 }
 
-- 
2.43.0


From 61de1f6ed6eeebf4aba9c498cd69e99c997af703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:00 +0000
Subject: [PATCH 12/52] fix: do not access memory beyond the end of a row or
 column of a sparse binary matrix

---
 .../include/mlrl/common/data/view_matrix_csc_binary.hpp       | 4 ++--
 .../include/mlrl/common/data/view_matrix_csr_binary.hpp       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csc_binary.hpp b/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csc_binary.hpp
index 505d297..59194f7 100644
--- a/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csc_binary.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csc_binary.hpp
@@ -56,7 +56,7 @@ class MLRLCOMMON_API BinaryCscView : public BinarySparseMatrix {
          * @return          An object of type `const_column` that has been created
          */
         const_column operator[](uint32 column) const {
-            return Vector<const uint32>(indices_cbegin(column), Matrix::numRows);
+            return Vector<const uint32>(indices_cbegin(column), indices_cend(column) - indices_cbegin(column));
         }
 
         /**
@@ -66,7 +66,7 @@ class MLRLCOMMON_API BinaryCscView : public BinarySparseMatrix {
          * @return          An object of type `column` that has been created
          */
         column operator[](uint32 column) {
-            return Vector<uint32>(indices_begin(column), Matrix::numRows);
+            return Vector<uint32>(indices_begin(column), indices_end(column) - indices_begin(column));
         }
 
         /**
diff --git a/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp b/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp
index a624fe3..f17f087 100644
--- a/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/data/view_matrix_csr_binary.hpp
@@ -56,7 +56,7 @@ class MLRLCOMMON_API BinaryCsrView : public BinarySparseMatrix {
          * @return      An object of type `const_row` that has been created
          */
         const_row operator[](uint32 row) const {
-            return Vector<const uint32>(indices_cbegin(row), Matrix::numCols);
+            return Vector<const uint32>(indices_cbegin(row), indices_cend(row) - indices_cbegin(row));
         }
 
         /**
@@ -66,7 +66,7 @@ class MLRLCOMMON_API BinaryCsrView : public BinarySparseMatrix {
          * @return      An object of type `row` that has been created
          */
         row operator[](uint32 row) {
-            return Vector<uint32>(indices_begin(row), Matrix::numCols);
+            return Vector<uint32>(indices_begin(row), indices_end(row) - indices_begin(row));
         }
 
         /**
-- 
2.43.0


From 404d4c34ec556d4d2ea90902ef573153253092a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:38 +0000
Subject: [PATCH 13/52] fix: do not write beyond the end of temporary memory
 when predicting without multi-threading support

---
 .../include/mlrl/common/prediction/predictor_common.hpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp b/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
index c06a6cc..0b4e398 100644
--- a/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/prediction/predictor_common.hpp
@@ -81,7 +81,7 @@ class PredictionDispatcher final {
 #if MULTI_THREADING_SUPPORT_ENABLED
                 uint32 threadIndex = static_cast<uint32>(omp_get_thread_num());
 #else
-                uint32 threadIndex = 1;
+                uint32 threadIndex = 0;
 #endif
                 delegatePtr->predictForExample(*featureMatrixPtr, rulesBegin, rulesEnd, threadIndex, i, i);
             }
@@ -165,7 +165,7 @@ class BinarySparsePredictionDispatcher final {
 #if MULTI_THREADING_SUPPORT_ENABLED
                 uint32 threadIndex = static_cast<uint32>(omp_get_thread_num());
 #else
-                uint32 threadIndex = 1;
+                uint32 threadIndex = 0;
 #endif
                 numDenseElements +=
                   delegatePtr->predictForExample(*featureMatrixPtr, rulesBegin, rulesEnd, threadIndex, i, i);
-- 
2.43.0


From 3bdb6c5f5bcbfcd6e5dd1d8f0ebde727e5685a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:51 +0000
Subject: [PATCH 14/52] fix: update the number of uncovered labels atomically,
 because examples may be processed in parallel

---
 .../seco/include/mlrl/seco/data/matrix_coverage_dense.hpp    | 5 ++++-
 .../seco/src/mlrl/seco/data/matrix_coverage_dense.cpp        | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/cpp/subprojects/seco/include/mlrl/seco/data/matrix_coverage_dense.hpp b/cpp/subprojects/seco/include/mlrl/seco/data/matrix_coverage_dense.hpp
index 5cc83a1..21677a6 100644
--- a/cpp/subprojects/seco/include/mlrl/seco/data/matrix_coverage_dense.hpp
+++ b/cpp/subprojects/seco/include/mlrl/seco/data/matrix_coverage_dense.hpp
@@ -8,6 +8,8 @@
 #include "mlrl/common/indices/index_vector_complete.hpp"
 #include "mlrl/common/indices/index_vector_partial.hpp"
 
+#include <atomic>
+
 namespace seco {
 
     /**
@@ -17,7 +19,8 @@ namespace seco {
     class DenseCoverageMatrix final : public DenseMatrixDecorator<AllocatedCContiguousView<uint32>> {
         private:
 
-            float64 sumOfUncoveredWeights_;
+            // May be updated by several threads at the same time
+            std::atomic<int64> sumOfUncoveredWeights_;
 
         public:
 
diff --git a/cpp/subprojects/seco/src/mlrl/seco/data/matrix_coverage_dense.cpp b/cpp/subprojects/seco/src/mlrl/seco/data/matrix_coverage_dense.cpp
index 81a378f..c594f77 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/data/matrix_coverage_dense.cpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/data/matrix_coverage_dense.cpp
@@ -7,10 +7,10 @@ namespace seco {
     DenseCoverageMatrix::DenseCoverageMatrix(uint32 numRows, uint32 numCols, float64 sumOfUncoveredWeights)
         : DenseMatrixDecorator<AllocatedCContiguousView<uint32>>(
             AllocatedCContiguousView<uint32>(numRows, numCols, true)),
-          sumOfUncoveredWeights_(sumOfUncoveredWeights) {}
+          sumOfUncoveredWeights_(static_cast<int64>(sumOfUncoveredWeights)) {}
 
     float64 DenseCoverageMatrix::getSumOfUncoveredWeights() const {
-        return sumOfUncoveredWeights_;
+        return static_cast<float64>(sumOfUncoveredWeights_.load());
     }
 
     void DenseCoverageMatrix::increaseCoverage(uint32 row, View<uint32>::const_iterator majorityLabelIndicesBegin,
-- 
2.43.0


From 51295e8a8680086c1f1e63861c28aa59f79be3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:02 +0000
Subject: [PATCH 15/52] fix: terminate the beam search if refinements do not
 exclude any examples

---
 .../rule_induction/rule_induction_top_down_beam_search.cpp   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
index a911369..dc8ab1c 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
@@ -53,13 +53,16 @@ static inline void initializeEntry(BeamEntry& entry, Refinement& refinement,
 static inline void copyEntry(BeamEntry& newEntry, BeamEntry& oldEntry, Refinement& refinement,
                              std::unique_ptr<IFeatureSubspace> featureSubspacePtr,
                              std::unique_ptr<ConditionList> conditionListPtr, bool keepHead, uint32 minCoverage) {
+    uint32 numPreviouslyCovered = featureSubspacePtr->getNumCovered();
     featureSubspacePtr->filterSubspace(refinement);
     newEntry.featureSubspacePtr = std::move(featureSubspacePtr);
     newEntry.conditionListPtr = std::move(conditionListPtr);
     newEntry.conditionListPtr->addCondition(refinement);
     newEntry.headPtr = std::move(refinement.headPtr);
 
-    if (refinement.numCovered <= minCoverage) {
+    // A refinement that does not exclude any examples must not be refined further, because such refinements can be found
+    // over and over again...
+    if (refinement.numCovered <= minCoverage || refinement.numCovered >= numPreviouslyCovered) {
         newEntry.outputIndices = nullptr;
     } else {
         newEntry.outputIndices = keepHead ? newEntry.headPtr.get() : oldEntry.outputIndices;
-- 
2.43.0


From 6d5bece5af6b6e31894a329b656e281608647116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:19 +0000
Subject: [PATCH 16/52] fix: let the L1 regularization decrease the magnitude
 of scores instead of increasing it

---
 .../rule_evaluation/rule_evaluation_decomposable_common.hpp  | 5 +++--
 .../rule_evaluation_non_decomposable_binned_common.hpp       | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp
index 8c93f25..6de0f23 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_decomposable_common.hpp
@@ -20,7 +20,8 @@ namespace boosting {
         } else if (gradient < -l1RegularizationWeight) {
             return l1RegularizationWeight;
         } else {
-            return 0;
+            // The regularization outweighs the gradient
+            return -gradient;
         }
     }
 
@@ -37,7 +38,7 @@ namespace boosting {
     static inline constexpr float64 calculateOutputWiseScore(float64 gradient, float64 hessian,
                                                              float64 l1RegularizationWeight,
                                                              float64 l2RegularizationWeight) {
-        return util::divideOrZero(-gradient + getL1RegularizationWeight(gradient, l1RegularizationWeight),
+        return util::divideOrZero(-gradient - getL1RegularizationWeight(gradient, l1RegularizationWeight),
                                   hessian + l2RegularizationWeight);
     }
 
diff --git a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_binned_common.hpp b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_binned_common.hpp
index 68e7427..0a13aee 100644
--- a/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_binned_common.hpp
+++ b/cpp/subprojects/boosting/src/mlrl/boosting/rule_evaluation/rule_evaluation_non_decomposable_binned_common.hpp
@@ -117,7 +117,7 @@ namespace boosting {
         for (uint32 i = 0; i < numPredictions; i++) {
             uint32 weight = weights[i];
             float64 gradient = ordinates[i];
-            ordinates[i] += (weight * getL1RegularizationWeight(gradient, l1RegularizationWeight));
+            ordinates[i] += getL1RegularizationWeight(gradient, weight * l1RegularizationWeight);
         }
     }
 
-- 
2.43.0


From ab2fd5af47eadcc04bcb6c47636811bf0695dad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:47 +0000
Subject: [PATCH 17/52] fix: do not count examples with missing feature values
 as covered when searching for conditions

---
 .../common/input/feature_based_search.hpp     | 54 +++++++++++++++----
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp
index bc8ea93..ef0f6f4 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search.hpp
@@ -45,6 +45,30 @@ static inline std::unique_ptr<IResettableStatisticsSubset> createStatisticsSubse
     return statisticsSubsetPtr;
 }
 
+/**
+ * Determines the number of covered examples with non-zero weights that are not associated with missing feature values.
+ *
+ * @param statisticsSubset              A reference to an object of type `IResettableStatisticsSubset` that provides
+ *                                      access to the weights of individual examples
+ * @param missingFeatureVector          A reference to an object of type `MissingFeatureVector` that provides access to
+ *                                      the indices of the examples that are associated with missing feature values
+ * @param numExamplesWithNonZeroWeights The total number of covered examples with non-zero weights
+ * @return                              The number of covered examples that are not associated with missing values
+ */
+static inline uint32 getNumExamplesWithoutMissingValues(const IResettableStatisticsSubset& statisticsSubset,
+                                                        const MissingFeatureVector& missingFeatureVector,
+                                                        uint32 numExamplesWithNonZeroWeights) {
+    uint32 numExamples = numExamplesWithNonZeroWeights;
+
+    for (auto it = missingFeatureVector.indices_cbegin(); it != missingFeatureVector.indices_cend(); it++) {
+        if (statisticsSubset.hasNonZeroWeight(*it)) {
+            numExamples--;
+        }
+    }
+
+    return numExamples;
+}
+
 /**
  * Conducts a search for the best refinement of an existing rule that can be created from a `NumericalFeatureVector`.
  *
@@ -76,8 +100,10 @@ static inline void searchForNumericalRefinement(const NumericalFeatureVector& fe
                                                 uint32 minCoverage, Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForNumericalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator,
-                                           numExamplesWithNonZeroWeights, minCoverage, refinement);
+    uint32 numExamples =
+      getNumExamplesWithoutMissingValues(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForNumericalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamples, minCoverage,
+                                           refinement);
 }
 
 /**
@@ -111,8 +137,10 @@ static inline void searchForNominalRefinement(const NominalFeatureVector& featur
                                               Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForNominalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
-                                         minCoverage, refinement);
+    uint32 numExamples =
+      getNumExamplesWithoutMissingValues(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForNominalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamples, minCoverage,
+                                         refinement);
 }
 
 /**
@@ -145,8 +173,10 @@ static inline void searchForBinaryRefinement(const BinaryFeatureVector& featureV
                                              Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForBinaryRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
-                                        minCoverage, refinement);
+    uint32 numExamples =
+      getNumExamplesWithoutMissingValues(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForBinaryRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamples, minCoverage,
+                                        refinement);
 }
 
 /**
@@ -180,8 +210,10 @@ static inline void searchForOrdinalRefinement(const OrdinalFeatureVector& featur
                                               Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForOrdinalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
-                                         minCoverage, refinement);
+    uint32 numExamples =
+      getNumExamplesWithoutMissingValues(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForOrdinalRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamples, minCoverage,
+                                         refinement);
 }
 
 /**
@@ -215,6 +247,8 @@ static inline void searchForBinnedRefinement(const BinnedFeatureVector& featureV
                                              Refinement& refinement) {
     std::unique_ptr<IResettableStatisticsSubset> statisticsSubsetPtr =
       createStatisticsSubset(statistics, missingFeatureVector, outputIndices);
-    searchForBinnedRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamplesWithNonZeroWeights,
-                                        minCoverage, refinement);
+    uint32 numExamples =
+      getNumExamplesWithoutMissingValues(*statisticsSubsetPtr, missingFeatureVector, numExamplesWithNonZeroWeights);
+    searchForBinnedRefinementInternally(featureVector, *statisticsSubsetPtr, comparator, numExamples, minCoverage,
+                                        refinement);
 }
-- 
2.43.0


From d347af6faabe4cee760e68865ace83067026628c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:03 +0000
Subject: [PATCH 18/52] fix: sample a valid number of features if there is at
 most a single feature to sample from

---
 .../common/sampling/feature_sampling_without_replacement.cpp   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp b/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
index f48d904..52f80bf 100644
--- a/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/sampling/feature_sampling_without_replacement.cpp
@@ -152,7 +152,8 @@ std::unique_ptr<IFeatureSamplingFactory> FeatureSamplingWithoutReplacementConfig
     if (sampleSize_ > 0) {
         numSamples = util::calculateBoundedFraction(numRemainingFeatures, sampleSize_, minSamples_, maxSamples_);
     } else {
-        numSamples = static_cast<uint32>(log2(numRemainingFeatures - 1) + 1);
+        numSamples = numRemainingFeatures > 1 ? static_cast<uint32>(log2(numRemainingFeatures - 1) + 1)
+                                              : numRemainingFeatures;
     }
 
     return std::make_unique<FeatureSamplingWithoutReplacementFactory>(rngConfig_.get().createRNGFactory(), numFeatures,
-- 
2.43.0


From de677314ca08562d77ea7053b9d9829eaf9b87b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:30 +0000
Subject: [PATCH 19/52] fix: create the vector of total confusion matrices
 based on the number of labels instead of the number of examples

---
 .../seco/src/mlrl/seco/statistics/statistics_common.hpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp b/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
index be77d58..b8506c1 100644
--- a/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
+++ b/cpp/subprojects/seco/src/mlrl/seco/statistics/statistics_common.hpp
@@ -560,7 +560,7 @@ namespace seco {
       const BinarySparseArrayVector& majorityLabelVector, const RuleEvaluationFactory& ruleEvaluationFactory,
       const WeightVector& weights, const IndexVector& outputIndices) {
         std::unique_ptr<ConfusionMatrixVector> totalSumVectorPtr =
-          std::make_unique<ConfusionMatrixVector>(labelMatrix.numRows, true);
+          std::make_unique<ConfusionMatrixVector>(labelMatrix.numCols, true);
         return std::make_unique<StatisticsSubset<LabelMatrix, CoverageMatrix, ConfusionMatrixVector,
                                                  RuleEvaluationFactory, WeightVector, IndexVector>>(
           std::move(totalSumVectorPtr), labelMatrix, coverageMatrix, majorityLabelVector, ruleEvaluationFactory,
-- 
2.43.0


From ea70dcb60a83e44f45d9189240135b2bbd41e98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:30 +0000
Subject: [PATCH 20/52] fix: allocate memory for the additional bin that may be
 required by sparse values when using equal-frequency feature binning

---
 .../src/mlrl/common/input/feature_binning_equal_frequency.cpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_frequency.cpp b/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_frequency.cpp
index ec1c5fc..204f2d7 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_frequency.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_frequency.cpp
@@ -12,7 +12,8 @@ static inline std::unique_ptr<IFeatureVector> createFeatureVectorInternally(
 
     if (numBins > 1) {
         uint32 numElements = numericalFeatureVector.numElements;
-        AllocatedBinnedFeatureVector binnedFeatureVector(numBins, numElements);
+        // The sparse values may require an additional bin...
+        AllocatedBinnedFeatureVector binnedFeatureVector(numBins + 1, numElements);
         AllocatedBinnedFeatureVector::threshold_iterator thresholdIterator = binnedFeatureVector.thresholds_begin();
         AllocatedBinnedFeatureVector::index_iterator indexIterator = binnedFeatureVector.indices;
         AllocatedBinnedFeatureVector::index_iterator indptrIterator = binnedFeatureVector.indptr;
-- 
2.43.0


From e5068578bcccfa6592ce1b1d3e3d6ae5c7fcb66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:30 +0000
Subject: [PATCH 21/52] fix: do not write a threshold for the last bin beyond
 the end of the array when using equal-width feature binning

---
 .../src/mlrl/common/input/feature_binning_equal_width.cpp    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_width.cpp b/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_width.cpp
index d02a231..29c8dac 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_width.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_binning_equal_width.cpp
@@ -78,7 +78,10 @@ static inline std::unique_ptr<IFeatureVector> createFeatureVectorInternally(
             uint32 numExamplesInCurrentBin = numExamplesPerBin[i];
 
             if (i == sparseBinIndex || numExamplesInCurrentBin > 0) {
-                thresholdIterator[numBins] = min + ((numBins + 1) * width);
+                if (numBins < numWidths - 1) {
+                    thresholdIterator[numBins] = min + ((numBins + 1) * width);
+                }
+
                 indptrIterator[numBins] = numIndices;
 
                 if (i != sparseBinIndex) {
-- 
2.43.0


From db766857ac01b34f3ce7e669f604db7988904cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:59 +0000
Subject: [PATCH 22/52] fix: do not search for conditions that separate the
 last bin from non-existing bins with greater values

---
 .../src/mlrl/common/input/feature_based_search_binned.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_binned.hpp b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_binned.hpp
index 27118ba..bc45340 100644
--- a/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_binned.hpp
+++ b/cpp/subprojects/common/src/mlrl/common/input/feature_based_search_binned.hpp
@@ -146,7 +146,7 @@ static inline void searchForBinnedRefinementInternally(const BinnedFeatureVector
     // examples...
     uint32 numUncovered = numExamplesWithNonZeroWeights - numCovered;
 
-    if (numUncovered >= minCoverage) {
+    if (static_cast<uint32>(sparseBinIndex) + 1 < numBins && numUncovered >= minCoverage) {
         // Determine the best prediction for examples covered by the condition...
         const IScoreVector& scoreVector = statisticsSubset.calculateScores();
 
-- 
2.43.0


From ed1c5da5bfce731c033ce212a3e1348c28994862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:21 +0000
Subject: [PATCH 23/52] fix: sort the heads of rules that are learned via a
 beam search, because their indices are expected to be in increasing order

---
 .../rule_induction/rule_induction_top_down_beam_search.cpp      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
index dc8ab1c..8b04d51 100644
--- a/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/rule_induction/rule_induction_top_down_beam_search.cpp
@@ -46,6 +46,7 @@ static inline void initializeEntry(BeamEntry& entry, Refinement& refinement,
     entry.featureSubspacePtr = std::move(featureSubspacePtr);
     entry.conditionListPtr = std::make_unique<ConditionList>();
     entry.conditionListPtr->addCondition(refinement);
+    refinement.headPtr->sort();
     entry.headPtr = std::move(refinement.headPtr);
     entry.outputIndices = keepHead ? entry.headPtr.get() : &outputIndices;
 }
@@ -58,6 +59,7 @@ static inline void copyEntry(BeamEntry& newEntry, BeamEntry& oldEntry, Refinemen
     newEntry.featureSubspacePtr = std::move(featureSubspacePtr);
     newEntry.conditionListPtr = std::move(conditionListPtr);
     newEntry.conditionListPtr->addCondition(refinement);
+    refinement.headPtr->sort();
     newEntry.headPtr = std::move(refinement.headPtr);
 
     // A refinement that does not exclude any examples must not be refined further, because such refinements can be found
-- 
2.43.0


From 4f32b116da83ccacc4e94660549a1a28100fed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:54 +0000
Subject: [PATCH 24/52] fix: use the automatic binary predictor if it is
 requested explicitly

Setting the parameter binary_predictor to "auto" resulted in an output-wise
predictor being used regardless of the loss function.
---
 .../boosting/mlrl/boosting/cython/learner_boomer.pyx            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
index 34a701d..586c995 100644
--- a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
+++ b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
@@ -557,7 +557,7 @@ cdef class BoomerClassifierConfig(RuleLearnerConfig,
         return config
 
     def use_automatic_binary_predictor(self):
-        self.config_ptr.get().useOutputWiseBinaryPredictor()
+        self.config_ptr.get().useAutomaticBinaryPredictor()
 
 
 cdef class BoomerClassifier(ClassificationRuleLearner):
-- 
2.43.0


From f5210850c17a0dbd9b89fbd43cd4890377679d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:01 +0000
Subject: [PATCH 25/52] fix: accept the value "auto" of parameters that are
 extended by the boosting algorithm

The union of two sets retains the elements of the left operand, i.e., the extended parameters were discarded.
---
 python/subprojects/boosting/mlrl/boosting/config.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/subprojects/boosting/mlrl/boosting/config.py b/python/subprojects/boosting/mlrl/boosting/config.py
index cc27461..7da0f3b 100644
--- a/python/subprojects/boosting/mlrl/boosting/config.py
+++ b/python/subprojects/boosting/mlrl/boosting/config.py
@@ -479,7 +479,7 @@ class ProbabilityPredictorParameter(NominalParameter):
             config.use_automatic_probability_predictor()
 
 
-BOOMER_CLASSIFIER_PARAMETERS = RULE_LEARNER_PARAMETERS | {
+BOOMER_CLASSIFIER_PARAMETERS = {
     ExtendedPartitionSamplingParameter(),
     ExtendedFeatureBinningParameter(),
     ExtendedParallelRuleRefinementParameter(),
@@ -496,9 +496,9 @@ BOOMER_CLASSIFIER_PARAMETERS = RULE_LEARNER_PARAMETERS | {
     JointProbabilityCalibrationParameter(),
     BinaryPredictorParameter(),
     ProbabilityPredictorParameter()
-}
+} | RULE_LEARNER_PARAMETERS
 
-BOOMER_REGRESSOR_PARAMETERS = RULE_LEARNER_PARAMETERS | {
+BOOMER_REGRESSOR_PARAMETERS = {
     ExtendedPartitionSamplingParameter(),
     ExtendedFeatureBinningParameter(),
     ExtendedParallelRuleRefinementParameter(),
@@ -510,4 +510,4 @@ BOOMER_REGRESSOR_PARAMETERS = RULE_LEARNER_PARAMETERS | {
     StatisticFormatParameter(),
     RegressionLossParameter(),
     HeadTypeParameter()
-}
+} | RULE_LEARNER_PARAMETERS
-- 
2.43.0


From 022ac4ff8a82d21f4dfe0b028bda6fea6ff719c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:01 +0000
Subject: [PATCH 26/52] fix: accept the value "auto" of the parameter
 "head_type"

---
 .../subprojects/boosting/mlrl/boosting/config.py   | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/python/subprojects/boosting/mlrl/boosting/config.py b/python/subprojects/boosting/mlrl/boosting/config.py
index 7da0f3b..6c3b0db 100644
--- a/python/subprojects/boosting/mlrl/boosting/config.py
+++ b/python/subprojects/boosting/mlrl/boosting/config.py
@@ -12,11 +12,11 @@ from mlrl.common.cython.learner import DefaultRuleMixin, NoJointProbabilityCalib
     NoMarginalProbabilityCalibrationMixin, NoPostProcessorMixin
 from mlrl.common.options import BooleanOption, Options
 
-from mlrl.boosting.cython.learner import AutomaticFeatureBinningMixin, AutomaticParallelRuleRefinementMixin, \
-    AutomaticParallelStatisticUpdateMixin, CompleteHeadMixin, ConstantShrinkageMixin, \
-    DecomposableSquaredErrorLossMixin, DynamicPartialHeadMixin, FixedPartialHeadMixin, L1RegularizationMixin, \
-    L2RegularizationMixin, NoL1RegularizationMixin, NoL2RegularizationMixin, NonDecomposableSquaredErrorLossMixin, \
-    SingleOutputHeadMixin
+from mlrl.boosting.cython.learner import AutomaticFeatureBinningMixin, AutomaticHeadMixin, \
+    AutomaticParallelRuleRefinementMixin, AutomaticParallelStatisticUpdateMixin, CompleteHeadMixin, \
+    ConstantShrinkageMixin, DecomposableSquaredErrorLossMixin, DynamicPartialHeadMixin, FixedPartialHeadMixin, \
+    L1RegularizationMixin, L2RegularizationMixin, NoL1RegularizationMixin, NoL2RegularizationMixin, \
+    NonDecomposableSquaredErrorLossMixin, SingleOutputHeadMixin
 from mlrl.boosting.cython.learner_classification import AutomaticBinaryPredictorMixin, AutomaticDefaultRuleMixin, \
     AutomaticLabelBinningMixin, AutomaticPartitionSamplingMixin, AutomaticProbabilityPredictorMixin, \
     AutomaticStatisticsMixin, DecomposableLogisticLossMixin, DecomposableSquaredHingeLossMixin, DenseStatisticsMixin, \
@@ -328,6 +328,10 @@ class HeadTypeParameter(NominalParameter):
                        mixin=DynamicPartialHeadMixin,
                        options={self.OPTION_THRESHOLD, self.OPTION_EXPONENT})
         self.add_value(name=self.HEAD_TYPE_COMPLETE, mixin=CompleteHeadMixin)
+        self.add_value(name=AUTOMATIC,
+                       mixin=AutomaticHeadMixin,
+                       description='If set to "' + AUTOMATIC + '", the most suitable type of rule heads is chosen '
+                       + 'automatically based on the parameter ' + RegressionLossParameter().argument_name)
 
     def _configure(self, config, value: str, options: Optional[Options]):
         if value == self.HEAD_TYPE_SINGLE:
-- 
2.43.0


From c608c5072c7a7f36c3944ffe86bde17837b3b6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:53 +0000
Subject: [PATCH 27/52] fix: reject NaN if a parameter must not be less or
 greater than a threshold

---
 .../common/include/mlrl/common/util/validation.hpp            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/subprojects/common/include/mlrl/common/util/validation.hpp b/cpp/subprojects/common/include/mlrl/common/util/validation.hpp
index 0fa8349..273c7fb 100644
--- a/cpp/subprojects/common/include/mlrl/common/util/validation.hpp
+++ b/cpp/subprojects/common/include/mlrl/common/util/validation.hpp
@@ -34,7 +34,7 @@ namespace util {
      */
     template<typename T>
     static inline constexpr void assertGreaterOrEqual(const std::string& name, const T value, const T threshold) {
-        if (value < threshold) {
+        if (!(value >= threshold)) {
             throw std::invalid_argument("Invalid value given for parameter \"" + name
                                         + "\": Must be greater or equal to " + std::to_string(threshold) + ", but is "
                                         + std::to_string(value));
@@ -67,7 +67,7 @@ namespace util {
      */
     template<typename T>
     static inline constexpr void assertLessOrEqual(const std::string& name, const T value, const T threshold) {
-        if (value > threshold) {
+        if (!(value <= threshold)) {
             throw std::invalid_argument("Invalid value given for parameter \"" + name + "\": Must be less or equal to "
                                         + std::to_string(threshold) + ", but is " + std::to_string(value));
         }
-- 
2.43.0


From 3ab9ca1544f2f27a0ebae4d2974e166a04553abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:15 +0000
Subject: [PATCH 28/52] fix: reject the value 0 for the option "stop_interval"
 of pre-pruning, because it results in a division by zero

---
 .../common/src/mlrl/common/stopping/global_pruning_pre.cpp       | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
index 3f70996..9e4ffe7 100644
--- a/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
+++ b/cpp/subprojects/common/src/mlrl/common/stopping/global_pruning_pre.cpp
@@ -248,6 +248,7 @@ uint32 PrePruningConfig::getStopInterval() const {
 }
 
 IPrePruningConfig& PrePruningConfig::setStopInterval(uint32 stopInterval) {
+    util::assertGreaterOrEqual<uint32>("stopInterval", stopInterval, 1);
     util::assertMultiple<uint32>("stopInterval", stopInterval, updateInterval_);
     stopInterval_ = stopInterval;
     return *this;
-- 
2.43.0


From 6af0c43a4b48f1fed5a24cef016fd330cb3d5794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:43 +0000
Subject: [PATCH 29/52] fix: take the parameter "random_state" into account in
 regression problems

---
 .../boosting/mlrl/boosting/cython/learner_boomer.pxd       | 1 +
 .../boosting/mlrl/boosting/cython/learner_boomer.pyx       | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pxd b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pxd
index 9c9c192..8032174 100644
--- a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pxd
+++ b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pxd
@@ -134,6 +134,7 @@ cdef extern from "mlrl/boosting/learner_boomer_classifier.hpp" namespace "boosti
 cdef extern from "mlrl/boosting/learner_boomer_regressor.hpp" namespace "boosting" nogil:
 
     cdef cppclass IBoomerRegressorConfig"boosting::IBoomerRegressor::IConfig"(
+        IRNGMixin,
         IAutomaticPartitionSamplingMixin,
         IAutomaticFeatureBinningMixin,
         IAutomaticParallelRuleRefinementMixin,
diff --git a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
index 586c995..57651cd 100644
--- a/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
+++ b/python/subprojects/boosting/mlrl/boosting/cython/learner_boomer.pyx
@@ -576,6 +576,7 @@ cdef class BoomerClassifier(ClassificationRuleLearner):
 
 
 cdef class BoomerRegressorConfig(RuleLearnerConfig,
+                                 RNGMixin,
                                  AutomaticPartitionSamplingMixin,
                                  AutomaticFeatureBinningMixin,
                                  AutomaticParallelRuleRefinementMixin,
@@ -640,6 +641,12 @@ cdef class BoomerRegressorConfig(RuleLearnerConfig,
     def __cinit__(self):
         self.config_ptr = createBoomerRegressorConfig()
 
+    def use_rng(self) -> RNGConfig:
+        cdef IRNGConfig* config_ptr = &self.config_ptr.get().useRNG()
+        cdef RNGConfig config = RNGConfig.__new__(RNGConfig)
+        config.config_ptr = config_ptr
+        return config
+
     def use_sequential_rule_model_assemblage(self):
         self.config_ptr.get().useSequentialRuleModelAssemblage()
 
-- 
2.43.0


From 195d52aaf1fbc0b2ba2c339bb6fb37ebb26680d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:57 +0000
Subject: [PATCH 30/52] fix: do not terminate the process or round integers if
 the options of instance and output sampling are set

---
 .../mlrl/common/cython/instance_sampling.pxd  | 24 +++++++++----------
 .../mlrl/common/cython/output_sampling.pxd    |  6 ++---
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/cython/instance_sampling.pxd b/python/subprojects/common/mlrl/common/cython/instance_sampling.pxd
index bc50e81..9146d55 100644
--- a/python/subprojects/common/mlrl/common/cython/instance_sampling.pxd
+++ b/python/subprojects/common/mlrl/common/cython/instance_sampling.pxd
@@ -9,15 +9,15 @@ cdef extern from "mlrl/common/sampling/instance_sampling_stratified_example_wise
 
         float32 getSampleSize() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setSampleSize(float32 sampleSize)
+        IExampleWiseStratifiedInstanceSamplingConfig& setSampleSize(float32 sampleSize) except +
 
         uint32 getMinSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(uint32 minSamples) except +
 
         uint32 getMaxSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(uint32 maxSamples) except +
 
 
 cdef extern from "mlrl/common/sampling/instance_sampling_stratified_output_wise.hpp" nogil:
@@ -28,15 +28,15 @@ cdef extern from "mlrl/common/sampling/instance_sampling_stratified_output_wise.
 
         float32 getSampleSize() const
 
-        IOutputWiseStratifiedInstanceSamplingConfig& setSampleSize(float32 sampleSize)
+        IOutputWiseStratifiedInstanceSamplingConfig& setSampleSize(float32 sampleSize) except +
 
         uint32 getMinSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(uint32 minSamples) except +
 
         uint32 getMaxSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(uint32 maxSamples) except +
 
 
 cdef extern from "mlrl/common/sampling/instance_sampling_with_replacement.hpp" nogil:
@@ -47,15 +47,15 @@ cdef extern from "mlrl/common/sampling/instance_sampling_with_replacement.hpp" n
 
         float32 getSampleSize() const
 
-        IInstanceSamplingWithReplacementConfig& setSampleSize(float32 sampleSize)
+        IInstanceSamplingWithReplacementConfig& setSampleSize(float32 sampleSize) except +
 
         uint32 getMinSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(uint32 minSamples) except +
 
         uint32 getMaxSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(uint32 maxSamples) except +
 
 
 cdef extern from "mlrl/common/sampling/instance_sampling_without_replacement.hpp" nogil:
@@ -66,15 +66,15 @@ cdef extern from "mlrl/common/sampling/instance_sampling_without_replacement.hpp
 
         float32 getSampleSize() const
 
-        IInstanceSamplingWithoutReplacementConfig& setSampleSize(float32 sampleSize)
+        IInstanceSamplingWithoutReplacementConfig& setSampleSize(float32 sampleSize) except +
 
         uint32 getMinSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(float32 minSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMinSamples(uint32 minSamples) except +
 
         uint32 getMaxSamples() const
 
-        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(float32 maxSamples)
+        IExampleWiseStratifiedInstanceSamplingConfig& setMaxSamples(uint32 maxSamples) except +
 
 
 cdef class ExampleWiseStratifiedInstanceSamplingConfig:
diff --git a/python/subprojects/common/mlrl/common/cython/output_sampling.pxd b/python/subprojects/common/mlrl/common/cython/output_sampling.pxd
index 63e6ba0..f115577 100644
--- a/python/subprojects/common/mlrl/common/cython/output_sampling.pxd
+++ b/python/subprojects/common/mlrl/common/cython/output_sampling.pxd
@@ -9,15 +9,15 @@ cdef extern from "mlrl/common/sampling/output_sampling_without_replacement.hpp"
 
         float32 getSampleSize() const
 
-        IOutputSamplingWithoutReplacementConfig& setSampleSize(float32 sampleSize)
+        IOutputSamplingWithoutReplacementConfig& setSampleSize(float32 sampleSize) except +
 
         uint32 getMinSamples() const
 
-        IOutputSamplingWithoutReplacementConfig& setMinSamples(float32 minSamples)
+        IOutputSamplingWithoutReplacementConfig& setMinSamples(uint32 minSamples) except +
 
         uint32 getMaxSamples() const
 
-        IOutputSamplingWithoutReplacementConfig& setMaxSamples(float32 maxSamples)
+        IOutputSamplingWithoutReplacementConfig& setMaxSamples(uint32 maxSamples) except +
 
 
 cdef class OutputSamplingWithoutReplacementConfig:
-- 
2.43.0


From aaf2a5405699abfec1ad80b77ec4c2f61a471e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 31/52] fix: preserve empty rows and columns when loading a
 data set from a sparse ARFF file

---
 python/subprojects/testbed/mlrl/testbed/data.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/data.py b/python/subprojects/testbed/mlrl/testbed/data.py
index 1da5244..db1dfa4 100644
--- a/python/subprojects/testbed/mlrl/testbed/data.py
+++ b/python/subprojects/testbed/mlrl/testbed/data.py
@@ -378,10 +378,10 @@ def __load_arff(arff_file: str, feature_dtype) -> Tuple[csc_array, list, str]:
     try:
         arff_dict = __load_arff_as_dict(arff_file, sparse=True)
         data = arff_dict['data']
-        matrix_data = data[0]
-        matrix_row_indices = data[1]
-        matrix_col_indices = data[2]
-        shape = (max(matrix_row_indices) + 1, max(matrix_col_indices) + 1)
+        matrix_data = [value for row in data for value in row.values()]
+        matrix_row_indices = [row_index for row_index, row in enumerate(data) for _ in row]
+        matrix_col_indices = [col_index for row in data for col_index in row]
+        shape = (len(data), len(arff_dict['attributes']))
         matrix = coo_array((matrix_data, (matrix_row_indices, matrix_col_indices)), shape=shape, dtype=feature_dtype)
         matrix = matrix.tocsc()
     except arff.BadLayout:
@@ -404,7 +404,7 @@ def __load_arff_as_dict(arff_file: str, sparse: bool) -> dict:
     :return:            A dictionary that stores the content of the ARFF file
     """
     with open(arff_file, 'r', encoding=ENCODING_UTF8) as file:
-        sparse_format = arff.COO if sparse else arff.DENSE
+        sparse_format = arff.LOD if sparse else arff.DENSE
         return arff.load(file, encode_nominal=True, return_type=sparse_format)
 
 
-- 
2.43.0


From 43ce5f77c90d2fd0570da82a8ce95b79cb5cb8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 32/52] fix: support negative values of the parameter "-C" in
 the @relation declaration of an ARFF file

---
 python/subprojects/testbed/mlrl/testbed/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/data.py b/python/subprojects/testbed/mlrl/testbed/data.py
index db1dfa4..6ac78c9 100644
--- a/python/subprojects/testbed/mlrl/testbed/data.py
+++ b/python/subprojects/testbed/mlrl/testbed/data.py
@@ -437,7 +437,9 @@ def __parse_outputs_from_relation(relation: str, features: list) -> List[Output]
         parameter_value = parameter_value[:index]
 
     num_outputs = int(parameter_value)
-    return [Output(__parse_feature_or_output_name(features[i][0])) for i in range(num_outputs)]
+    # According to the MEKA format, a negative value indicates that the outputs are located at the end
+    output_features = features[:num_outputs] if num_outputs >= 0 else features[num_outputs:]
+    return [Output(__parse_feature_or_output_name(feature[0])) for feature in output_features]
 
 
 def __create_meta_data(features: List[Feature], outputs: List[Output]) -> MetaData:
-- 
2.43.0


From 82bf283c961c63ce6de9fb736b39611c75683eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 33/52] fix: assign the names of outputs in a Mulan XML file to
 the corresponding columns of an ARFF file

---
 python/subprojects/testbed/mlrl/testbed/data.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/data.py b/python/subprojects/testbed/mlrl/testbed/data.py
index 6ac78c9..ccb0a22 100644
--- a/python/subprojects/testbed/mlrl/testbed/data.py
+++ b/python/subprojects/testbed/mlrl/testbed/data.py
@@ -451,14 +451,15 @@ def __create_meta_data(features: List[Feature], outputs: List[Output]) -> MetaDa
     :param outputs:     A list that contains the all outputs
     :return:            The `MetaData` that has been created
     """
-    output_names = {output.name for output in outputs}
+    outputs_by_name = {output.name: output for output in outputs}
     outputs_at_start = False
     feature_list = []
+    output_list = []
 
     for feature in features:
         feature_name = __parse_feature_or_output_name(feature[0])
 
-        if feature_name not in output_names:
+        if feature_name not in outputs_by_name:
             type_definition = feature[1]
 
             if isinstance(type_definition, list):
@@ -476,10 +477,14 @@ def __create_meta_data(features: List[Feature], outputs: List[Output]) -> MetaDa
                     raise ValueError('Encountered unsupported feature type: ' + type_definition)
 
             feature_list.append(Feature(feature_name, feature_type, nominal_values))
-        elif len(feature_list) == 0:
-            outputs_at_start = True
+        else:
+            # The order of the outputs must correspond to the order of the columns in the ARFF file
+            output_list.append(outputs_by_name[feature_name])
 
-    meta_data = MetaData(feature_list, outputs, outputs_at_start)
+            if len(feature_list) == 0:
+                outputs_at_start = True
+
+    meta_data = MetaData(feature_list, output_list, outputs_at_start)
     return meta_data
 
 
-- 
2.43.0


From abb4e28eedd6e20c8e19456482541c9de5bbbf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 34/52] fix: declare numerical attributes in ARFF files that
 store non-binary predictions

---
 .../testbed/mlrl/testbed/predictions.py         | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/predictions.py b/python/subprojects/testbed/mlrl/testbed/predictions.py
index abfbd82..6f40639 100644
--- a/python/subprojects/testbed/mlrl/testbed/predictions.py
+++ b/python/subprojects/testbed/mlrl/testbed/predictions.py
@@ -10,7 +10,7 @@ import numpy as np
 
 from mlrl.common.options import Options
 
-from mlrl.testbed.data import MetaData, Output, save_arff_file
+from mlrl.testbed.data import Feature, FeatureType, MetaData, Output, save_arff_file
 from mlrl.testbed.data_splitting import DataSplit, DataType
 from mlrl.testbed.format import OPTION_DECIMALS, format_array
 from mlrl.testbed.io import SUFFIX_ARFF, get_file_name_per_fold
@@ -68,6 +68,10 @@ class PredictionWriter(OutputWriter):
             super().__init__(options=options)
             self.output_dir = output_dir
 
+        @staticmethod
+        def __create_feature(name: str, binary: bool) -> Feature:
+            return Output(name) if binary else Feature(name, FeatureType.NUMERICAL)
+
         # pylint: disable=unused-argument
         def write_output(self, problem_type: ProblemType, meta_data: MetaData, data_split: DataSplit,
                          data_type: Optional[DataType], prediction_scope: Optional[PredictionScope], output_data, **_):
@@ -83,8 +87,15 @@ class PredictionWriter(OutputWriter):
 
             file_name = get_file_name_per_fold(prediction_scope.get_file_name(data_type.get_file_name('predictions')),
                                                SUFFIX_ARFF, data_split.get_fold())
-            features = [Output('Ground Truth ' + output.name) for output in meta_data.outputs]
-            outputs = [Output('Prediction ' + output.name) for output in meta_data.outputs]
+            features = [
+                self.__create_feature('Ground Truth ' + output.name,
+                                      binary=problem_type == ProblemType.CLASSIFICATION) for output in meta_data.outputs
+            ]
+            outputs = [
+                self.__create_feature('Prediction ' + output.name,
+                                      binary=issubclass(predictions.dtype.type, np.integer))
+                for output in meta_data.outputs
+            ]
             prediction_meta_data = MetaData(features, outputs, outputs_at_start=False)
             save_arff_file(self.output_dir, file_name, ground_truth, predictions, prediction_meta_data)
 
-- 
2.43.0


From 76721205702cc3f615db70da73e7807b8cb6be2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:15 +0000
Subject: [PATCH 35/52] fix: do not exceed the maximum model size when
 evaluating models incrementally

---
 python/subprojects/testbed/mlrl/testbed/experiments.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/experiments.py b/python/subprojects/testbed/mlrl/testbed/experiments.py
index 914ee69..8be650b 100644
--- a/python/subprojects/testbed/mlrl/testbed/experiments.py
+++ b/python/subprojects/testbed/mlrl/testbed/experiments.py
@@ -198,9 +198,11 @@ class IncrementalEvaluation(Evaluation):
 
             min_size = self.min_size
             next_step_size = min_size if min_size > 0 else step_size
-            current_size = min(next_step_size, total_size)
+            current_size = 0
 
-            while incremental_predictor.has_next():
+            while current_size < total_size:
+                next_step_size = min(next_step_size, total_size - current_size)
+                current_size += next_step_size
                 log.info('Predicting for %s %s examples using a model of size %s...', x.shape[0], data_type.value,
                          current_size)
                 start_time = timer()
@@ -223,7 +225,6 @@ class IncrementalEvaluation(Evaluation):
                                                learner=learner)
 
                 next_step_size = step_size
-                current_size = min(current_size + next_step_size, total_size)
 
 
 class Experiment(DataSplitter.Callback):
-- 
2.43.0


From 1f2cb4b5e5abccb79cfe78711d8003e137f561ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:15 +0000
Subject: [PATCH 36/52] fix: do not average evaluation results for models of
 different sizes across the folds of a cross validation

---
 python/subprojects/testbed/mlrl/testbed/evaluation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/evaluation.py b/python/subprojects/testbed/mlrl/testbed/evaluation.py
index 961da97..3d24b6b 100644
--- a/python/subprojects/testbed/mlrl/testbed/evaluation.py
+++ b/python/subprojects/testbed/mlrl/testbed/evaluation.py
@@ -381,7 +381,7 @@ class EvaluationWriter(OutputWriter, ABC):
 
     def __init__(self, sinks: List[OutputWriter.Sink]):
         super().__init__(sinks)
-        self.results: Dict[str, EvaluationWriter.EvaluationResult] = {}
+        self.results: Dict[Any, EvaluationWriter.EvaluationResult] = {}
 
     @abstractmethod
     def _populate_result(self, data_split: DataSplit, result: EvaluationResult, predictions, ground_truth):
@@ -401,8 +401,10 @@ class EvaluationWriter(OutputWriter, ABC):
                               learner, data_type: Optional[DataType], prediction_type: Optional[PredictionType],
                               prediction_scope: Optional[PredictionScope], predictions: Optional[Any],
                               train_time: float, predict_time: float) -> Optional[Any]:
-        result = self.results[data_type] if data_type in self.results else EvaluationWriter.EvaluationResult()
-        self.results[data_type] = result
+        # Results for models of different sizes must not be averaged across the folds of a cross validation
+        key = (data_type, None if prediction_scope is None else prediction_scope.get_model_size())
+        result = self.results[key] if key in self.results else EvaluationWriter.EvaluationResult()
+        self.results[key] = result
         num_folds = data_split.get_num_folds()
         fold = data_split.get_fold()
         result.put(EVALUATION_MEASURE_TRAINING_TIME, train_time, num_folds=num_folds, fold=fold)
-- 
2.43.0


From 20adc04fd785f0b5fa8b0d649c8291903d054c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 37/52] fix: do not fail if one-hot-encoding is used together
 with predefined cross validation folds

---
 python/subprojects/testbed/mlrl/testbed/data_splitting.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/data_splitting.py b/python/subprojects/testbed/mlrl/testbed/data_splitting.py
index 0713025..b083360 100644
--- a/python/subprojects/testbed/mlrl/testbed/data_splitting.py
+++ b/python/subprojects/testbed/mlrl/testbed/data_splitting.py
@@ -13,9 +13,13 @@ from os import path
 from timeit import default_timer as timer
 from typing import List, Optional
 
+import numpy as np
+
 from scipy.sparse import vstack
 from sklearn.model_selection import KFold, train_test_split
 
+from mlrl.common.arrays import is_sparse
+
 from mlrl.testbed.data import MetaData, load_data_set, load_data_set_and_meta_data, one_hot_encode
 from mlrl.testbed.format import format_duration
 from mlrl.testbed.io import SUFFIX_ARFF, SUFFIX_XML, get_file_name, get_file_name_per_fold
@@ -449,7 +453,8 @@ class CrossValidationSplitter(DataSplitter):
                         train_x = x
                         train_y = y
                     else:
-                        train_x = vstack((train_x, x))
+                        # If one-hot-encoding is used, feature matrices are dense
+                        train_x = vstack((train_x, x)) if is_sparse(x) else np.vstack((train_x, x))
                         train_y = vstack((train_y, y))
 
             # Obtain test set for current fold...
-- 
2.43.0


From 5262a7817614a172757507814188f3c22d1e402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:35 +0000
Subject: [PATCH 38/52] fix: take the value of sparse features into account
 when predicting probabilities

---
 python/subprojects/testbed/mlrl/testbed/experiments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/experiments.py b/python/subprojects/testbed/mlrl/testbed/experiments.py
index 8be650b..e72b908 100644
--- a/python/subprojects/testbed/mlrl/testbed/experiments.py
+++ b/python/subprojects/testbed/mlrl/testbed/experiments.py
@@ -70,7 +70,7 @@ class Evaluation(ABC):
                 result = None
         elif prediction_type == PredictionType.PROBABILITIES:
             try:
-                result = predict_proba_function(x)
+                result = predict_proba_function(x, **kwargs)
             except RuntimeError:
                 log.error('Prediction of probabilities not supported')
                 result = None
-- 
2.43.0


From bf9d5dceac17f54c2c33ef3e2137dd3b600d9d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:09 +0000
Subject: [PATCH 39/52] fix: keep models alive and predictions unchanged while
 predicting incrementally

---
 .../common/mlrl/common/cython/prediction.pyx  | 10 ++---
 .../common/mlrl/common/rule_learners.py       | 42 +++++++++++--------
 2 files changed, 29 insertions(+), 23 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/cython/prediction.pyx b/python/subprojects/common/mlrl/common/cython/prediction.pyx
index b630df3..9e394ff 100644
--- a/python/subprojects/common/mlrl/common/cython/prediction.pyx
+++ b/python/subprojects/common/mlrl/common/cython/prediction.pyx
@@ -49,7 +49,7 @@ cdef class IncrementalBinaryPredictor:
         cdef uint32 num_cols = prediction_matrix_ptr.getNumCols()
         cdef uint8* array = prediction_matrix_ptr.get()
         cdef uint8[:, ::1] prediction_matrix = c_view_uint8(array, num_rows, num_cols)
-        return np.asarray(prediction_matrix)
+        return np.array(prediction_matrix)
 
 
 cdef class BinaryPredictor:
@@ -135,8 +135,8 @@ cdef class IncrementalSparseBinaryPredictor:
         cdef uint32* indices = prediction_matrix_ptr.getIndices()
         cdef uint32* indptr = prediction_matrix_ptr.getIndptr()
         data = np.ones(shape=(num_dense_elements), dtype=np.uint8) if num_dense_elements > 0 else np.asarray([])
-        pred_indices = np.asarray(view_uint32(indices, num_dense_elements) if num_dense_elements > 0 else [])
-        pred_indptr = np.asarray(view_uint32(indptr, num_rows + 1))
+        pred_indices = np.array(view_uint32(indices, num_dense_elements) if num_dense_elements > 0 else [])
+        pred_indptr = np.array(view_uint32(indptr, num_rows + 1))
         return csr_array((data, pred_indices, pred_indptr), shape=(num_rows, num_cols))
 
 
@@ -226,7 +226,7 @@ cdef class IncrementalScorePredictor:
         cdef uint32 num_cols = prediction_matrix_ptr.getNumCols()
         cdef float64* array = prediction_matrix_ptr.get()
         cdef float64[:, ::1] prediction_matrix = c_view_float64(array, num_rows, num_cols)
-        return np.asarray(prediction_matrix)
+        return np.array(prediction_matrix)
 
 cdef class ScorePredictor:
     """
@@ -309,7 +309,7 @@ cdef class IncrementalProbabilityPredictor:
         cdef uint32 num_cols = prediction_matrix_ptr.getNumCols()
         cdef float64* array = prediction_matrix_ptr.get()
         cdef float64[:, ::1] prediction_matrix = c_view_float64(array, num_rows, num_cols)
-        return np.asarray(prediction_matrix)
+        return np.array(prediction_matrix)
 
 
 cdef class ProbabilityPredictor:
diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index d320637..fc0b919 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -117,13 +117,15 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
         functionality.
         """
 
-        def __init__(self, feature_matrix: RowWiseFeatureMatrix, incremental_predictor):
+        def __init__(self, feature_matrix: RowWiseFeatureMatrix, incremental_predictor, *references):
             """
             :param feature_matrix:          A `RowWiseFeatureMatrix` that stores the feature values of the query
                                             examples
             :param incremental_predictor:   The incremental predictor to be used for obtaining predictions
+            :param references:              Objects that must be kept alive as long as the incremental predictor is used
             """
             self.feature_matrix = feature_matrix
+            self.references = references
             self.incremental_predictor = incremental_predictor
 
         def has_next(self) -> bool:
@@ -149,17 +151,20 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
         Allows to obtain predictions from a `RuleLearner` incrementally.
         """
 
-        def __init__(self, feature_matrix: RowWiseFeatureMatrix, model: RuleModel, max_rules: int, predictor):
+        def __init__(self, feature_matrix: RowWiseFeatureMatrix, model: RuleModel, max_rules: int, predictor,
+                     *references):
             """
             :param feature_matrix:  A `RowWiseFeatureMatrix` that stores the feature values of the query examples
             :param model:           The model to be used for obtaining predictions
             :param max_rules:       The maximum number of rules to be used for prediction. Must be at least 1 or 0, if
                                     the number of rules should not be restricted
             :param predictor:       The predictor to be used for obtaining predictions
+            :param references:      Objects that must be kept alive as long as the predictor is used
             """
             if max_rules != 0:
                 assert_greater_or_equal('max_rules', max_rules, 1)
             self.feature_matrix = feature_matrix
+            self.references = (model, *references)
             self.num_total_rules = min(model.get_num_used_rules(),
                                        max_rules) if max_rules > 0 else model.get_num_used_rules()
             self.predictor = predictor
@@ -257,14 +262,15 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
         if learner.can_predict_scores(feature_matrix, num_outputs):
             log.debug('A dense matrix is used to store the predicted scores')
             model = self.model_
-            predictor = self._create_score_predictor(learner, model, self.output_space_info_, num_outputs,
-                                                     feature_matrix)
+            output_space_info = self.output_space_info_
+            predictor = self._create_score_predictor(learner, model, output_space_info, num_outputs, feature_matrix)
             max_rules = int(kwargs.get(KWARG_MAX_RULES, 0))
 
             if predictor.can_predict_incrementally():
                 return ClassificationRuleLearner.NativeIncrementalPredictor(
-                    feature_matrix, predictor.create_incremental_predictor(max_rules))
-            return ClassificationRuleLearner.NonNativeIncrementalPredictor(feature_matrix, model, max_rules, predictor)
+                    feature_matrix, predictor.create_incremental_predictor(max_rules), model, output_space_info)
+            return ClassificationRuleLearner.NonNativeIncrementalPredictor(feature_matrix, model, max_rules, predictor,
+                                                                           output_space_info)
 
         return super()._predict_scores_incrementally(x, **kwargs)
 
@@ -507,17 +513,16 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
         if learner.can_predict_probabilities(feature_matrix, num_outputs):
             log.debug('A dense matrix is used to store the predicted probability estimates')
             model = self.model_
-            predictor = self._create_probability_predictor(learner, model, self.output_space_info_,
-                                                           self.marginal_probability_calibration_model_,
-                                                           self.joint_probability_calibration_model_, num_outputs,
-                                                           feature_matrix)
+            references = (self.output_space_info_, self.marginal_probability_calibration_model_,
+                          self.joint_probability_calibration_model_)
+            predictor = self._create_probability_predictor(learner, model, *references, num_outputs, feature_matrix)
             max_rules = int(kwargs.get(KWARG_MAX_RULES, 0))
 
             if predictor.can_predict_incrementally():
                 return ClassificationRuleLearner.NativeIncrementalProbabilityPredictor(
-                    feature_matrix, predictor.create_incremental_predictor(max_rules))
+                    feature_matrix, predictor.create_incremental_predictor(max_rules), model, *references)
             return ClassificationRuleLearner.NonNativeIncrementalProbabilityPredictor(
-                feature_matrix, model, max_rules, predictor)
+                feature_matrix, model, max_rules, predictor, *references)
 
         return super()._predict_proba_incrementally(x, **kwargs)
 
@@ -586,16 +591,17 @@ class ClassificationRuleLearner(RuleLearner, ClassifierMixin, IncrementalClassif
             sparse_predictions = self.sparse_predictions_
             log.debug('A %s matrix is used to store the predicted labels', 'sparse' if sparse_predictions else 'dense')
             model = self.model_
-            predictor = self._create_binary_predictor(learner, model, self.output_space_info_,
-                                                      self.marginal_probability_calibration_model_,
-                                                      self.joint_probability_calibration_model_, num_outputs,
-                                                      feature_matrix, sparse_predictions)
+            references = (self.output_space_info_, self.marginal_probability_calibration_model_,
+                          self.joint_probability_calibration_model_)
+            predictor = self._create_binary_predictor(learner, model, *references, num_outputs, feature_matrix,
+                                                      sparse_predictions)
             max_rules = int(kwargs.get(KWARG_MAX_RULES, 0))
 
             if predictor.can_predict_incrementally():
                 return ClassificationRuleLearner.NativeIncrementalPredictor(
-                    feature_matrix, predictor.create_incremental_predictor(max_rules))
-            return ClassificationRuleLearner.NonNativeIncrementalPredictor(feature_matrix, model, max_rules, predictor)
+                    feature_matrix, predictor.create_incremental_predictor(max_rules), model, *references)
+            return ClassificationRuleLearner.NonNativeIncrementalPredictor(feature_matrix, model, max_rules, predictor,
+                                                                           *references)
 
         return super()._predict_binary_incrementally(x, **kwargs)
 
-- 
2.43.0


From cb304671ede2980ec960ef89356806bdfa1254c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:09 +0000
Subject: [PATCH 40/52] fix: reject training data with different numbers of
 examples and ground truths

---
 python/subprojects/common/mlrl/common/rule_learners.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index fc0b919..c290627 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -12,7 +12,7 @@ from typing import Any, Optional
 import numpy as np
 
 from sklearn.base import BaseEstimator as SkLearnBaseEstimator
-from sklearn.utils import check_array
+from sklearn.utils import check_array, check_consistent_length
 
 from mlrl.common.arrays import SparseFormat, enforce_2d, enforce_dense, is_sparse, is_sparse_and_memory_efficient
 from mlrl.common.cython.feature_info import EqualFeatureInfo, FeatureInfo, MixedFeatureInfo
@@ -204,6 +204,7 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
         :keyword sparse_feature_value: The value that should be used for sparse elements in the feature matrix. Does
                                        only have an effect if `x` is a `scipy.sparse.spmatrix` or `scipy.sparse.sparray`
         """
+        check_consistent_length(x, y)
         feature_matrix = self._create_column_wise_feature_matrix(x, **kwargs)
         output_matrix = self.__create_row_wise_output_matrix(y)
         feature_info = self._create_feature_info(feature_matrix.get_num_features())
-- 
2.43.0


From 571b3201742553d1b79772ccf2d5ad272156f0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:32 +0000
Subject: [PATCH 41/52] fix: reject indices of ordinal or nominal features that
 exceed the number of features

---
 python/subprojects/common/mlrl/common/rule_learners.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index c290627..43dcdd7 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -25,7 +25,7 @@ from mlrl.common.cython.probability_calibration import JointProbabilityCalibrati
     MarginalProbabilityCalibrationModel
 from mlrl.common.cython.regression_matrix import CContiguousRegressionMatrix, CsrRegressionMatrix
 from mlrl.common.cython.rule_model import RuleModel
-from mlrl.common.cython.validation import assert_greater_or_equal
+from mlrl.common.cython.validation import assert_greater_or_equal, assert_less
 from mlrl.common.data_types import Float32, Uint8, Uint32
 from mlrl.common.format import format_enum_values
 from mlrl.common.mixins import ClassifierMixin, IncrementalClassifierMixin, IncrementalPredictor, \
@@ -284,6 +284,10 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
         """
         ordinal_feature_indices = self.ordinal_feature_indices or []
         nominal_feature_indices = self.nominal_feature_indices or []
+
+        for feature_index in [*ordinal_feature_indices, *nominal_feature_indices]:
+            assert_less('feature_index', feature_index, num_features)
+
         num_ordinal_features = len(ordinal_feature_indices)
         num_nominal_features = len(nominal_feature_indices)
 
-- 
2.43.0


From 6301de855b14df0f0fabc9e11737237309bec335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:32 +0000
Subject: [PATCH 42/52] fix: restore the previous state of a learner if fitting
 fails

---
 .../common/mlrl/common/rule_learners.py        | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/rule_learners.py b/python/subprojects/common/mlrl/common/rule_learners.py
index 43dcdd7..77db68f 100644
--- a/python/subprojects/common/mlrl/common/rule_learners.py
+++ b/python/subprojects/common/mlrl/common/rule_learners.py
@@ -205,11 +205,19 @@ class RuleLearner(SkLearnBaseEstimator, NominalFeatureSupportMixin, OrdinalFeatu
                                        only have an effect if `x` is a `scipy.sparse.spmatrix` or `scipy.sparse.sparray`
         """
         check_consistent_length(x, y)
-        feature_matrix = self._create_column_wise_feature_matrix(x, **kwargs)
-        output_matrix = self.__create_row_wise_output_matrix(y)
-        feature_info = self._create_feature_info(feature_matrix.get_num_features())
-        learner = self._create_learner()
-        training_result = learner.fit(feature_info, feature_matrix, output_matrix)
+        previous_state = vars(self).copy()
+
+        try:
+            feature_matrix = self._create_column_wise_feature_matrix(x, **kwargs)
+            output_matrix = self.__create_row_wise_output_matrix(y)
+            feature_info = self._create_feature_info(feature_matrix.get_num_features())
+            learner = self._create_learner()
+            training_result = learner.fit(feature_info, feature_matrix, output_matrix)
+        except BaseException:
+            vars(self).clear()
+            vars(self).update(previous_state)
+            raise
+
         self.num_outputs_ = training_result.num_outputs
         self.output_space_info_ = training_result.output_space_info
         self.marginal_probability_calibration_model_ = training_result.marginal_probability_calibration_model
-- 
2.43.0


From 4ec5f7d83777557e2745fd05443702bc496a2cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 43/52] fix: handle parameter files that do not contain any
 parameters

---
 python/subprojects/testbed/mlrl/testbed/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/parameters.py b/python/subprojects/testbed/mlrl/testbed/parameters.py
index e88660e..37e0701 100644
--- a/python/subprojects/testbed/mlrl/testbed/parameters.py
+++ b/python/subprojects/testbed/mlrl/testbed/parameters.py
@@ -56,7 +56,7 @@ class ParameterCsvInput(ParameterInput):
             with open_readable_csv_file(file_path) as csv_file:
                 csv_reader = create_csv_dict_reader(csv_file)
                 log.info('Successfully loaded parameters from file \"%s\"', file_path)
-                return dict(next(csv_reader))
+                return dict(next(csv_reader, {}))
         except IOError:
             log.error('Failed to load parameters from file \"%s\"', file_path)
             return {}
-- 
2.43.0


From 10773935c2e5582283b409cbb02cac7413f9c51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:04 +0000
Subject: [PATCH 44/52] fix: copy the memory of models before it is passed to
 visitors or serialized

---
 .../mlrl/common/cython/output_space_info.pyx  |  2 +-
 .../common/mlrl/common/cython/rule_model.pyx  | 60 +++++++++----------
 2 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/python/subprojects/common/mlrl/common/cython/output_space_info.pyx b/python/subprojects/common/mlrl/common/cython/output_space_info.pyx
index 6b870de..1d94ec1 100644
--- a/python/subprojects/common/mlrl/common/cython/output_space_info.pyx
+++ b/python/subprojects/common/mlrl/common/cython/output_space_info.pyx
@@ -74,7 +74,7 @@ cdef class LabelVectorSet(OutputSpaceInfo):
 
     cdef __visit_label_vector(self, const LabelVector& label_vector, uint32 frequency):
         cdef uint32 num_elements = label_vector.getNumElements()
-        label_indices = np.asarray(<uint32[:num_elements]>label_vector.cbegin() if num_elements > 0 else [])
+        label_indices = np.array(<uint32[:num_elements]>label_vector.cbegin() if num_elements > 0 else [])
         self.visitor.visit_label_vector(label_indices, frequency)
 
     cdef __serialize_label_vector(self, const LabelVector& label_vector, uint32 frequency):
diff --git a/python/subprojects/common/mlrl/common/cython/rule_model.pyx b/python/subprojects/common/mlrl/common/cython/rule_model.pyx
index f2e434a..21794a4 100644
--- a/python/subprojects/common/mlrl/common/cython/rule_model.pyx
+++ b/python/subprojects/common/mlrl/common/cython/rule_model.pyx
@@ -67,20 +67,20 @@ cdef class ConjunctiveBody:
                                             that stores the thresholds of the nominal conditions that use the !=
                                             operator or None, if no such conditions are available
         """
-        self.numerical_leq_indices = np.asarray(numerical_leq_indices) if numerical_leq_indices is not None else None
+        self.numerical_leq_indices = np.array(numerical_leq_indices) if numerical_leq_indices is not None else None
         self.numerical_leq_thresholds = \
-            np.asarray(numerical_leq_thresholds) if numerical_leq_thresholds is not None else None
-        self.numerical_gr_indices = np.asarray(numerical_gr_indices) if numerical_gr_indices is not None else None
+            np.array(numerical_leq_thresholds) if numerical_leq_thresholds is not None else None
+        self.numerical_gr_indices = np.array(numerical_gr_indices) if numerical_gr_indices is not None else None
         self.numerical_gr_thresholds = \
-            np.asarray(numerical_gr_thresholds) if numerical_gr_thresholds is not None else None
-        self.ordinal_leq_indices = np.asarray(ordinal_leq_indices) if ordinal_leq_indices is not None else None
-        self.ordinal_leq_thresholds = np.asarray(ordinal_leq_thresholds) if ordinal_leq_thresholds is not None else None
-        self.ordinal_gr_indices = np.asarray(ordinal_gr_indices) if ordinal_gr_indices is not None else None
-        self.ordinal_gr_thresholds = np.asarray(ordinal_gr_thresholds) if ordinal_gr_thresholds is not None else None
-        self.nominal_eq_indices = np.asarray(nominal_eq_indices) if nominal_eq_indices is not None else None
-        self.nominal_eq_thresholds = np.asarray(nominal_eq_thresholds) if nominal_eq_thresholds is not None else None
-        self.nominal_neq_indices = np.asarray(nominal_neq_indices) if nominal_neq_indices is not None else None
-        self.nominal_neq_thresholds = np.asarray(nominal_neq_thresholds) if nominal_neq_thresholds is not None else None
+            np.array(numerical_gr_thresholds) if numerical_gr_thresholds is not None else None
+        self.ordinal_leq_indices = np.array(ordinal_leq_indices) if ordinal_leq_indices is not None else None
+        self.ordinal_leq_thresholds = np.array(ordinal_leq_thresholds) if ordinal_leq_thresholds is not None else None
+        self.ordinal_gr_indices = np.array(ordinal_gr_indices) if ordinal_gr_indices is not None else None
+        self.ordinal_gr_thresholds = np.array(ordinal_gr_thresholds) if ordinal_gr_thresholds is not None else None
+        self.nominal_eq_indices = np.array(nominal_eq_indices) if nominal_eq_indices is not None else None
+        self.nominal_eq_thresholds = np.array(nominal_eq_thresholds) if nominal_eq_thresholds is not None else None
+        self.nominal_neq_indices = np.array(nominal_neq_indices) if nominal_neq_indices is not None else None
+        self.nominal_neq_thresholds = np.array(nominal_neq_thresholds) if nominal_neq_thresholds is not None else None
 
 
 cdef class CompleteHead:
@@ -92,7 +92,7 @@ cdef class CompleteHead:
         """
         :param scores: A contiguous array of type `float64`, shape `(num_predictions)` that stores the predicted scores
         """
-        self.scores = np.asarray(scores)
+        self.scores = np.array(scores)
 
 
 cdef class PartialHead:
@@ -105,8 +105,8 @@ cdef class PartialHead:
         :param indices: A contiguous array of type `uint32`, shape `(num_predictions)` that stores the output indices
         :param scores:  A contiguous array of type `float64`, shape `(num_predictions)` that stores the predicted scores
         """
-        self.indices = np.asarray(indices)
-        self.scores = np.asarray(scores)
+        self.indices = np.array(indices)
+        self.scores = np.array(scores)
 
 
 class RuleModelVisitor:
@@ -288,29 +288,29 @@ cdef class RuleList(RuleModel):
         cdef uint32 num_nominal_eq = body.getNumNominalEq()
         cdef uint32 num_nominal_neq = body.getNumNominalNeq()
         cdef object body_state = (
-            np.asarray(<float32[:num_numerical_leq]>body.numerical_leq_thresholds_cbegin()) \
+            np.array(<float32[:num_numerical_leq]>body.numerical_leq_thresholds_cbegin()) \
                 if num_numerical_leq > 0 else None,
-            np.asarray(<uint32[:num_numerical_leq]>body.numerical_leq_indices_cbegin()) \
+            np.array(<uint32[:num_numerical_leq]>body.numerical_leq_indices_cbegin()) \
                 if num_numerical_leq > 0 else None,
-            np.asarray(<float32[:num_numerical_gr]>body.numerical_gr_thresholds_cbegin()) \
+            np.array(<float32[:num_numerical_gr]>body.numerical_gr_thresholds_cbegin()) \
                 if num_numerical_gr > 0 else None,
-            np.asarray(<uint32[:num_numerical_gr]>body.numerical_gr_indices_cbegin()) \
+            np.array(<uint32[:num_numerical_gr]>body.numerical_gr_indices_cbegin()) \
                 if num_numerical_gr > 0 else None,
-            np.asarray(<int32[:num_ordinal_leq]>body.ordinal_leq_thresholds_cbegin()) \
+            np.array(<int32[:num_ordinal_leq]>body.ordinal_leq_thresholds_cbegin()) \
                 if num_ordinal_leq > 0 else None,
-            np.asarray(<uint32[:num_ordinal_leq]>body.ordinal_leq_indices_cbegin()) \
+            np.array(<uint32[:num_ordinal_leq]>body.ordinal_leq_indices_cbegin()) \
                 if num_ordinal_leq > 0 else None,
-            np.asarray(<int32[:num_ordinal_gr]>body.ordinal_gr_thresholds_cbegin()) \
+            np.array(<int32[:num_ordinal_gr]>body.ordinal_gr_thresholds_cbegin()) \
                 if num_ordinal_gr > 0 else None,
-            np.asarray(<uint32[:num_ordinal_gr]>body.ordinal_gr_indices_cbegin()) \
+            np.array(<uint32[:num_ordinal_gr]>body.ordinal_gr_indices_cbegin()) \
                 if num_ordinal_gr > 0 else None,
-            np.asarray(<int32[:num_nominal_eq]>body.nominal_eq_thresholds_cbegin()) \
+            np.array(<int32[:num_nominal_eq]>body.nominal_eq_thresholds_cbegin()) \
                 if num_nominal_eq > 0 else None,
-            np.asarray(<uint32[:num_nominal_eq]>body.nominal_eq_indices_cbegin()) \
+            np.array(<uint32[:num_nominal_eq]>body.nominal_eq_indices_cbegin()) \
                 if num_nominal_eq > 0 else None,
-            np.asarray(<int32[:num_nominal_neq]>body.nominal_neq_thresholds_cbegin()) \
+            np.array(<int32[:num_nominal_neq]>body.nominal_neq_thresholds_cbegin()) \
                 if num_nominal_neq > 0 else None,
-            np.asarray(<uint32[:num_nominal_neq]>body.nominal_neq_indices_cbegin()) \
+            np.array(<uint32[:num_nominal_neq]>body.nominal_neq_indices_cbegin()) \
                 if num_nominal_neq > 0 else None,
         )
         cdef object rule_state = [body_state, None]
@@ -318,14 +318,14 @@ cdef class RuleList(RuleModel):
 
     cdef __serialize_complete_head(self, const CompleteHeadImpl& head):
         cdef uint32 num_elements = head.getNumElements()
-        cdef object head_state = (np.asarray(<float64[:num_elements]>head.values_cbegin()),)
+        cdef object head_state = (np.array(<float64[:num_elements]>head.values_cbegin()),)
         cdef object rule_state = self.state[len(self.state) - 1]
         rule_state[1] = head_state
 
     cdef __serialize_partial_head(self, const PartialHeadImpl& head):
         cdef uint32 num_elements = head.getNumElements()
-        cdef object head_state = (np.asarray(<float64[:num_elements]>head.values_cbegin()),
-                                  np.asarray(<uint32[:num_elements]>head.indices_cbegin()))
+        cdef object head_state = (np.array(<float64[:num_elements]>head.values_cbegin()),
+                                  np.array(<uint32[:num_elements]>head.indices_cbegin()))
         cdef object rule_state = self.state[len(self.state) - 1]
         rule_state[1] = head_state
 
-- 
2.43.0


From a3252190cede47b611a74a4349c0f512c5b1fa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:56 +0000
Subject: [PATCH 45/52] fix: Print label vectors of examples without any
 relevant labels instead of failing

---
 python/subprojects/testbed/mlrl/testbed/label_vectors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/label_vectors.py b/python/subprojects/testbed/mlrl/testbed/label_vectors.py
index 50c68a4..9cd335d 100644
--- a/python/subprojects/testbed/mlrl/testbed/label_vectors.py
+++ b/python/subprojects/testbed/mlrl/testbed/label_vectors.py
@@ -63,7 +63,8 @@ class LabelVectorWriter(OutputWriter):
 
                 for label_vector_string, frequency in unique_label_vector_strings.items():
                     label_vector = np.asarray(
-                        [int(label_index) for label_index in label_vector_string.split(separator)])
+                        [int(label_index) for label_index in label_vector_string.split(separator) if label_index],
+                        dtype=int)
                     unique_label_vectors.append((label_vector, frequency))
 
                 self.unique_label_vectors = unique_label_vectors
-- 
2.43.0


From 6054efadcf4f42acc72bb265d3b62d6b47ae04d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:42 +0000
Subject: [PATCH 46/52] fix: Provide the indices of label vectors as integers,
 even if there are none

---
 .../subprojects/common/mlrl/common/cython/output_space_info.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/common/mlrl/common/cython/output_space_info.pyx b/python/subprojects/common/mlrl/common/cython/output_space_info.pyx
index 1d94ec1..9c2bb38 100644
--- a/python/subprojects/common/mlrl/common/cython/output_space_info.pyx
+++ b/python/subprojects/common/mlrl/common/cython/output_space_info.pyx
@@ -74,7 +74,7 @@ cdef class LabelVectorSet(OutputSpaceInfo):
 
     cdef __visit_label_vector(self, const LabelVector& label_vector, uint32 frequency):
         cdef uint32 num_elements = label_vector.getNumElements()
-        label_indices = np.array(<uint32[:num_elements]>label_vector.cbegin() if num_elements > 0 else [])
+        label_indices = np.array(<uint32[:num_elements]>label_vector.cbegin() if num_elements > 0 else [], dtype=np.uint32)
         self.visitor.visit_label_vector(label_indices, frequency)
 
     cdef __serialize_label_vector(self, const LabelVector& label_vector, uint32 frequency):
-- 
2.43.0


From f3943e47b13a80037d79e292d5461da44fd1be1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:42 +0000
Subject: [PATCH 47/52] fix: Allow to store the characteristics of predictions
 when using incremental evaluation

---
 python/subprojects/testbed/mlrl/testbed/characteristics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/characteristics.py b/python/subprojects/testbed/mlrl/testbed/characteristics.py
index 0d1668b..6a1dc58 100644
--- a/python/subprojects/testbed/mlrl/testbed/characteristics.py
+++ b/python/subprojects/testbed/mlrl/testbed/characteristics.py
@@ -173,7 +173,7 @@ class OutputCharacteristics(Formattable, Tabularizable):
         columns = {}
 
         for formatter in filter_formatters(self.formatters, [options]):
-            columns[formatter] = formatter.format(self, percentage=percentage, decimals=decimals)
+            columns[formatter.name] = formatter.format(self, percentage=percentage, decimals=decimals)
 
         return [columns]
 
-- 
2.43.0


From a1e46f5541f8a9d2ba42ee3f1f6bffef0d901c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:42 +0000
Subject: [PATCH 48/52] fix: Do not mix up the thresholds and probabilities of
 calibration models in CSV files

---
 .../subprojects/testbed/mlrl/testbed/probability_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/probability_calibration.py b/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
index af73bea..68511b0 100644
--- a/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
+++ b/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
@@ -102,7 +102,7 @@ class ProbabilityCalibrationModelWriter(OutputWriter, ABC):
                     column_threshold = self.__format_threshold_column(list_index)
 
                     if len(bin_list) > i:
-                        probability, threshold = bin_list[i]
+                        threshold, probability = bin_list[i]
                         columns[column_probability] = format_float(probability, decimals=decimals)
                         columns[column_threshold] = format_float(threshold, decimals=decimals)
                         end = False
-- 
2.43.0


From 54721aa07c9165773e3e2d7840a3ad3667304e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:42 +0000
Subject: [PATCH 49/52] fix: Do not write the bins of calibration models
 repeatedly if several outputs are used

---
 .../subprojects/testbed/mlrl/testbed/probability_calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/subprojects/testbed/mlrl/testbed/probability_calibration.py b/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
index 68511b0..e7d48cd 100644
--- a/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
+++ b/python/subprojects/testbed/mlrl/testbed/probability_calibration.py
@@ -61,6 +61,7 @@ class ProbabilityCalibrationModelWriter(OutputWriter, ABC):
             """
             See :func:`mlrl.testbed.output_writer.Formattable.format`
             """
+            self.bins = {}
             self.calibration_model.visit(self)
             decimals = options.get_int(OPTION_DECIMALS, 4)
             bins = self.bins
@@ -86,6 +87,7 @@ class ProbabilityCalibrationModelWriter(OutputWriter, ABC):
             """
             See :func:`mlrl.testbed.output_writer.Tabularizable.tabularize`
             """
+            self.bins = {}
             self.calibration_model.visit(self)
             decimals = options.get_int(OPTION_DECIMALS, 0)
             bins = self.bins
-- 
2.43.0


From 958db77708f513bb911a319f3cc41dd0b3e41d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:21 +0000
Subject: [PATCH 50/52] fix: Print sparse matrices in the same way as dense
 ones

---
 python/subprojects/testbed/mlrl/testbed/format.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/subprojects/testbed/mlrl/testbed/format.py b/python/subprojects/testbed/mlrl/testbed/format.py
index aeecbf3..8a79e90 100644
--- a/python/subprojects/testbed/mlrl/testbed/format.py
+++ b/python/subprojects/testbed/mlrl/testbed/format.py
@@ -12,6 +12,7 @@ import numpy as np
 
 from tabulate import tabulate
 
+from mlrl.common.arrays import is_sparse
 from mlrl.common.options import Options
 
 OPTION_DECIMALS = 'decimals'
@@ -65,6 +66,9 @@ def format_array(array: np.ndarray, decimals: int = 2) -> str:
     :param decimals:    The number of decimals to be used or 0, if the number of decimals should not be restricted
     :return:            The textual representation that has been created
     """
+    if is_sparse(array):
+        array = array.toarray()
+
     if array.dtype.kind == 'f':
         precision = decimals if decimals > 0 else None
         return np.array2string(array, threshold=sys.maxsize, precision=precision, suppress_small=True)
-- 
2.43.0


From 03c1facaeffdc29626dad7cb39a790ccced67a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:36 +0000
Subject: [PATCH 51/52] fix: Do not omit any elements of label vectors with
 many labels

---
 python/subprojects/testbed/mlrl/testbed/label_vectors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/label_vectors.py b/python/subprojects/testbed/mlrl/testbed/label_vectors.py
index 9cd335d..32f203d 100644
--- a/python/subprojects/testbed/mlrl/testbed/label_vectors.py
+++ b/python/subprojects/testbed/mlrl/testbed/label_vectors.py
@@ -4,6 +4,8 @@ Author: Michael Rapp (michael.rapp.ml@gmail.com)
 Provides classes for printing unique label vectors that are contained in a data set. The label vectors can be written to
 one or several outputs, e.g., to the console or to a file.
 """
+import sys
+
 from typing import Any, Dict, List, Optional, Tuple
 
 import numpy as np
@@ -73,11 +75,11 @@ class LabelVectorWriter(OutputWriter):
 
         def __format_label_vector(self, sparse_label_vector: np.ndarray, sparse: bool) -> str:
             if sparse:
-                return str(sparse_label_vector)
+                return np.array2string(sparse_label_vector, threshold=sys.maxsize)
 
             dense_label_vector = np.zeros(shape=self.num_labels, dtype=Uint8)
             dense_label_vector[sparse_label_vector] = 1
-            return str(dense_label_vector)
+            return np.array2string(dense_label_vector, threshold=sys.maxsize)
 
         def format(self, options: Options, **_) -> str:
             """
-- 
2.43.0


From 86aaa1ca9867bb0eef9781aa69d723c274f13c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:42 +0000
Subject: [PATCH 52/52] fix: Do not treat zeros, which are explicitly stored in
 a sparse ARFF file, as relevant labels

---
 python/subprojects/testbed/mlrl/testbed/data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/subprojects/testbed/mlrl/testbed/data.py b/python/subprojects/testbed/mlrl/testbed/data.py
index ccb0a22..1235872 100644
--- a/python/subprojects/testbed/mlrl/testbed/data.py
+++ b/python/subprojects/testbed/mlrl/testbed/data.py
@@ -361,7 +361,9 @@ def __create_feature_and_output_matrix(matrix: csc_array, meta_data: MetaData,
         y = matrix[:, -num_outputs:]
 
     x = x.tolil()
-    y = y.astype(output_dtype).tolil()
+    y = y.astype(output_dtype)
+    y.eliminate_zeros()
+    y = y.tolil()
     return x, y
 
 
-- 
2.43.0

