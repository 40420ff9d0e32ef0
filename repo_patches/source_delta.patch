From 8a68c88cf4c7c983e4396c7a313c5d19e30f59ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:59 +0000
Subject: [PATCH 01/32] fix: Standardize must guard every constant column
 against division by zero

---
 src/wai/ma/transformation/_Standardize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/transformation/_Standardize.py b/src/wai/ma/transformation/_Standardize.py
index 22b31fc..acf672d 100644
--- a/src/wai/ma/transformation/_Standardize.py
+++ b/src/wai/ma/transformation/_Standardize.py
@@ -37,9 +37,9 @@ class Standardize(AbstractTransformation, Serialisable):
         self.means = column_means(data)
         self.std_devs = column_stdevs(data)
         # Make sure we don't do a divide by zero
-        for i in range(self.std_devs.num_rows()):
-            if self.std_devs.get(i, 0) == real(0):
-                self.std_devs.set(i, 0, 1)
+        for i in range(self.std_devs.num_columns()):
+            if self.std_devs.get(0, i) == real(0):
+                self.std_devs.set(0, i, 1)
         self.configured = True
 
     def do_transform(self, data: Matrix) -> Matrix:
-- 
2.43.0


From dfd1ab8afcfd93eedebd3a8ad15496f417c76058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:03 +0000
Subject: [PATCH 02/32] fix: Matrix.contains_NaN never detected NaN values

---
 src/wai/ma/core/matrix/_Matrix.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 11be11c..ab5edb7 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -463,10 +463,7 @@ class Matrix(Serialisable):
         raise NotImplementedError
 
     def contains_NaN(self) -> bool:
-        NaN = real('NaN')
-        def element_is_NaN(el):
-            return el == NaN
-        return self.any(element_is_NaN)
+        return self.any(lambda el: bool(np.isnan(el)))
 
     def any(self, function: Callable[[real], bool]) -> bool:
         for row in range(self.num_rows()):
-- 
2.43.0


From b557de12e16e6c0a86608948a9575f8aac5345f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:06 +0000
Subject: [PATCH 03/32] fix: max_index must return the index of the first
 maximum

---
 src/wai/ma/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index 12248ef..0539e9f 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -246,7 +246,7 @@ def max_index(reals: List[real]) -> int:
 
     for i in range(len(reals)):
         if i == 0 or reals[i] > maximum:
-            max_index = 1
+            max_index = i
             maximum = reals[i]
 
     return max_index
-- 
2.43.0


From 0334c8a3893fc540fc53dc3b54af0c088201f0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:10 +0000
Subject: [PATCH 04/32] fix: serialise_big_int must leave room for the sign bit

---
 src/wai/ma/core/_Serialisable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wai/ma/core/_Serialisable.py b/src/wai/ma/core/_Serialisable.py
index 7890553..a90351c 100644
--- a/src/wai/ma/core/_Serialisable.py
+++ b/src/wai/ma/core/_Serialisable.py
@@ -96,7 +96,8 @@ class Serialisable(ABC):
         bit_length: int = value.bit_length()
 
         # Get the number of bytes required to represent this value
-        byte_length: int = (bit_length // 8) + (1 if bit_length % 8 != 0 else 0)
+        # (the signed representation needs an additional sign bit)
+        byte_length: int = (bit_length // 8) + 1
 
         # Get the binary representation of the integer
         b = value.to_bytes(byte_length, "little" if LITTLE_ENDIAN else "big", signed=True)
-- 
2.43.0


From 427d756e26b4af1747dae5de8a5edc67506e060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:13 +0000
Subject: [PATCH 05/32] fix: save_state must accept a filename without a
 directory

---
 src/wai/ma/core/_Serialisable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/_Serialisable.py b/src/wai/ma/core/_Serialisable.py
index a90351c..f406c5e 100644
--- a/src/wai/ma/core/_Serialisable.py
+++ b/src/wai/ma/core/_Serialisable.py
@@ -45,7 +45,7 @@ class Serialisable(ABC):
         """
         # Make sure the directory for the file exists
         path = os.path.dirname(filename)
-        if not os.path.exists(path):
+        if path != '' and not os.path.exists(path):
             os.makedirs(path, exist_ok=True)
 
         # Save the file
-- 
2.43.0


From ab53f3a7e6f05fb3048ff0b86b5ac3fdf045a72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:17 +0000
Subject: [PATCH 06/32] fix: in-place vector operations must invalidate cached
 decompositions

---
 src/wai/ma/core/matrix/_Matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index ab5edb7..5438397 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -547,6 +547,7 @@ class Matrix(Serialisable):
     def vector_op_modify(self, vector: 'Matrix', op: np.ufunc):
         must_be_vector(vector)
         self.ensure_vector_size_matches(vector)
+        self.reset_cache()
         op.at(self.data, ..., vector.data)
 
     def vector_size_matches(self, vector: 'Matrix') -> bool:
-- 
2.43.0


From af7ca8870ad54bd69c08ede01c1963a584629a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:19 +0000
Subject: [PATCH 07/32] fix: fill_diagonal must invalidate cached
 decompositions

---
 src/wai/ma/core/matrix/helper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index 695f151..e1c9383 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -222,6 +222,7 @@ def column_stdevs(mat: Matrix) -> Matrix:
 
 
 def fill_diagonal(mat: Matrix, value: Number):
+    mat.reset_cache()
     i = 0
     while i < mat.num_rows() and i < mat.num_columns():
         mat.data[i][i] = real(value)
-- 
2.43.0


From 4be30f71dc80e3c8e8f3883e7968cd961869ec44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:23 +0000
Subject: [PATCH 08/32] fix: get_eigenvalue_decomposition_V must not expose the
 cached matrix

---
 src/wai/ma/core/matrix/_Matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 5438397..412ea5a 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -85,7 +85,7 @@ class Matrix(Serialisable):
 
     def get_eigenvalue_decomposition_V(self) -> 'Matrix':
         self.make_eigenvalue_decomposition()
-        return self.eigenvalue_decomposition[1]
+        return self.eigenvalue_decomposition[1].copy()
 
     def get_eigenvalue_decomposition_D(self) -> 'Matrix':
         self.make_eigenvalue_decomposition()
-- 
2.43.0


From bbfb7b0accce8dcc3fa73f4402d50115b7ad9d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:27 +0000
Subject: [PATCH 09/32] fix: get_singular_values must compute the decomposition
 it reads

---
 src/wai/ma/core/matrix/_Matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 412ea5a..35896e8 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -141,6 +141,7 @@ class Matrix(Serialisable):
         return Matrix(np.array(raw, dtype=real))
 
     def get_singular_values(self) -> 'Matrix':
+        self.make_singular_value_decomposition()
         return self.singular_value_decomposition[1].transpose()
 
     def sum(self, axis: Optional[int] = None) -> Union['Matrix', real]:
-- 
2.43.0


From 4d11f297a7427a2f9e4e9299187c9ff66c64208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 10/32] fix: comparing matrices of different shapes must yield
 False, not raise

---
 src/wai/ma/core/matrix/_Matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wai/ma/core/matrix/_Matrix.py b/src/wai/ma/core/matrix/_Matrix.py
index 35896e8..d3615ec 100644
--- a/src/wai/ma/core/matrix/_Matrix.py
+++ b/src/wai/ma/core/matrix/_Matrix.py
@@ -507,6 +507,9 @@ class Matrix(Serialisable):
         if other is None or self.__class__ is not other.__class__:
             return False
 
+        if not self.same_shape_as(other):
+            return False
+
         diff: Matrix = self.sub(other)
 
         return not diff.data.any()
-- 
2.43.0


From e3b0dc4e71809ed7c07c3977f96c8d2d31f8e155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:36 +0000
Subject: [PATCH 11/32] fix: multi-response PLS must use each response column's
 own mean and stdev

---
 src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
index 8fed41d..af5e61b 100644
--- a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
@@ -98,13 +98,13 @@ class AbstractMultiResponsePLS(AbstractPLS):
         self.class_std_dev = [real(0)] * response.num_columns()
         for i in range(response.num_columns()):
             if self.preprocessing_type is PreprocessingType.CENTER:
-                self.class_mean[i] = helper.mean(response, 0)
+                self.class_mean[i] = helper.mean(response, i)
                 self.class_std_dev[i] = real(1)
                 self.trans_predictors = Center()
                 self.trans_response = Center()
             elif self.preprocessing_type is PreprocessingType.STANDARDIZE:
-                self.class_mean[i] = helper.mean(response, 0)
-                self.class_std_dev[i] = helper.stdev(response, 0)
+                self.class_mean[i] = helper.mean(response, i)
+                self.class_std_dev[i] = helper.stdev(response, i)
                 self.trans_predictors = Standardize()
                 self.trans_response = Standardize()
             elif self.preprocessing_type is PreprocessingType.NONE:
-- 
2.43.0


From 9612d0be41d1a4c9c203399efa1a711246abc39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:40 +0000
Subject: [PATCH 12/32] fix: PLS predictions must apply the predictor
 preprocessing used in training

---
 src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py  | 3 +++
 src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
index af5e61b..b5796d3 100644
--- a/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractMultiResponsePLS.py
@@ -133,6 +133,9 @@ class AbstractMultiResponsePLS(AbstractPLS):
         :param predictors:  The input data.
         :return:            The transformed data and the predictions.
         """
+        if self.trans_predictors is not None:
+            predictors = self.trans_predictors.transform(predictors)
+
         result = self.do_perform_predictions(predictors)
         if self.trans_response is not None:
             for i in range(result.num_rows()):
diff --git a/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py b/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py
index a02e056..72e4008 100644
--- a/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py
+++ b/src/wai/ma/algorithm/pls/_AbstractSingleResponsePLS.py
@@ -94,6 +94,9 @@ class AbstractSingleResponsePLS(AbstractPLS, ABC):
         :param predictors:  The input data.
         :return:            The transformed data and the predictions.
         """
+        if self.trans_predictors is not None:
+            predictors = self.trans_predictors.transform(predictors)
+
         result = self.do_perform_predictions(predictors)
         if self.trans_response is not None:
             for i in range(result.num_rows()):
-- 
2.43.0


From 0ebdc008cda7d39bf086acb49435685f13c7dba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:45 +0000
Subject: [PATCH 13/32] fix: changing RobustScaler options must reset its
 configuration

---
 src/wai/ma/transformation/_RobustScaler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wai/ma/transformation/_RobustScaler.py b/src/wai/ma/transformation/_RobustScaler.py
index 884dbb8..15f0df3 100644
--- a/src/wai/ma/transformation/_RobustScaler.py
+++ b/src/wai/ma/transformation/_RobustScaler.py
@@ -46,6 +46,12 @@ class RobustScaler(AbstractTransformation):
 
         super().__setattr__(key, value)
 
+    def validate_with_centering(self, value: bool):
+        pass
+
+    def validate_with_scaling(self, value: bool):
+        pass
+
     def validate_quantile_range(self, selection: Tuple[float, float]):
         if not (0.0 < selection[0] < selection[1] < 100.0):
             raise ValueError(f"Quantile range must be 0.0 < q_min < q_max < 100.0. "
-- 
2.43.0


From 44c6c6e3af7cc3909d36126b07d7d714c4f04cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:49 +0000
Subject: [PATCH 14/32] fix: changing PowerTransformer standardisation must
 reset its configuration

---
 src/wai/ma/transformation/_PowerTransformer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wai/ma/transformation/_PowerTransformer.py b/src/wai/ma/transformation/_PowerTransformer.py
index ccdd96f..f53ec6d 100644
--- a/src/wai/ma/transformation/_PowerTransformer.py
+++ b/src/wai/ma/transformation/_PowerTransformer.py
@@ -45,6 +45,9 @@ class PowerTransformer(AbstractTransformation):
 
         super().__setattr__(key, value)
 
+    def validate_standardise(self, value: bool):
+        pass
+
     def validate_method(self, method: str):
         if method not in PowerTransformer.METHODS:
             raise ValueError(f"Method was {method} but must be one of: " +
-- 
2.43.0


From 22935800dc17f34785f0db1520e0e265c247914b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:54 +0000
Subject: [PATCH 15/32] fix: changing QuantileTransformer options must reset
 its configuration

---
 src/wai/ma/transformation/_QuantileTransformer.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/wai/ma/transformation/_QuantileTransformer.py b/src/wai/ma/transformation/_QuantileTransformer.py
index b161ad4..c12176b 100644
--- a/src/wai/ma/transformation/_QuantileTransformer.py
+++ b/src/wai/ma/transformation/_QuantileTransformer.py
@@ -48,6 +48,18 @@ class QuantileTransformer(AbstractTransformation):
 
         super().__setattr__(key, value)
 
+    def validate_n_quantiles(self, value: int):
+        pass
+
+    def validate_ignore_implicit_zeroes(self, value: bool):
+        pass
+
+    def validate_subsample(self, value: int):
+        pass
+
+    def validate_random_state(self, value: Optional[int]):
+        pass
+
     def validate_output_distribution(self, selection: str):
         if selection not in QuantileTransformer.OUTPUT_DISTRIBUTIONS:
             raise ValueError(f"Output distribution was {selection} but must be one of: " +
-- 
2.43.0


From f4243c23a3e401570c2918cf07b9b6ad1e8d22b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:57 +0000
Subject: [PATCH 16/32] fix: changing NIPALS deflation mode or Y-weight
 normalisation must reset the model

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index 9bf596b..c7b7200 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -68,6 +68,14 @@ class NIPALS(AbstractMultiResponsePLS):
         else:
             return super().initialize(predictors, response)
 
+    @staticmethod
+    def validate_norm_Y_weights(value: bool) -> bool:
+        return True
+
+    @staticmethod
+    def validate_deflation_mode(value: 'DeflationMode') -> bool:
+        return True
+
     @staticmethod
     def validate_max_iter(value: int) -> bool:
         return value >= 0
-- 
2.43.0


From beca0c6e937c32780605fd48d732ac8340becc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:01 +0000
Subject: [PATCH 17/32] fix: CCAFilter must not reuse centering of a previous
 training run

---
 src/wai/ma/algorithm/_CCAFilter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wai/ma/algorithm/_CCAFilter.py b/src/wai/ma/algorithm/_CCAFilter.py
index 9885a07..20c4ca1 100644
--- a/src/wai/ma/algorithm/_CCAFilter.py
+++ b/src/wai/ma/algorithm/_CCAFilter.py
@@ -52,6 +52,8 @@ class CCAFilter(AbstractAlgorithm, SupervisedFilter):
         super().reset()
         self.proj_X = None
         self.proj_Y = None
+        self.center_X = Center()
+        self.center_Y = Center()
 
     def initialize(self, x: Optional[Matrix] = None, y: Optional[Matrix] = None) -> Optional[str]:
         if x is None or y is None:
-- 
2.43.0


From b7f94b7f6984532b3d557efc25e02bb6f83cd243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:06 +0000
Subject: [PATCH 18/32] fix: FastICA must not reuse centering of a previous run

---
 src/wai/ma/algorithm/ica/_FastICA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index e6107ee..29c223c 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -73,6 +73,7 @@ class FastICA(AbstractAlgorithm, Filter):
         self.components = None
         self.mixing = None
         self.whitening = None
+        self.center = Center()
 
     def configure(self, X: Matrix):
         X = X.transpose()
-- 
2.43.0


From abb19003b831f42716f521a9fdb8bfadd7e68512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:09 +0000
Subject: [PATCH 19/32] fix: SIMPLS reset must clear the Q matrix

---
 src/wai/ma/algorithm/pls/_SIMPLS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/algorithm/pls/_SIMPLS.py b/src/wai/ma/algorithm/pls/_SIMPLS.py
index 48e826c..7ccd264 100644
--- a/src/wai/ma/algorithm/pls/_SIMPLS.py
+++ b/src/wai/ma/algorithm/pls/_SIMPLS.py
@@ -46,6 +46,7 @@ class SIMPLS(AbstractSingleResponsePLS, Serialisable):
         super().reset()
         self.B = None
         self.W = None
+        self.Q = None
 
     @staticmethod
     def validate_num_coefficients(value: int) -> bool:
-- 
2.43.0


From 8fe9f3819b4228ad091698e9d3bb51a5648911b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:13 +0000
Subject: [PATCH 20/32] fix: OPLS reset must clear the cleaned training data

---
 src/wai/ma/algorithm/pls/_OPLS.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wai/ma/algorithm/pls/_OPLS.py b/src/wai/ma/algorithm/pls/_OPLS.py
index 5237fc9..ab11baa 100644
--- a/src/wai/ma/algorithm/pls/_OPLS.py
+++ b/src/wai/ma/algorithm/pls/_OPLS.py
@@ -54,6 +54,7 @@ class OPLS(AbstractSingleResponsePLS):
         self.P_orth = None
         self.W_orth = None
         self.T_orth = None
+        self.X_osc = None
 
     def initialize(self, predictors: Optional[Matrix] = None, response: Optional[Matrix] = None) -> Optional[str]:
         if predictors is None and response is None:
-- 
2.43.0


From a6c9439611647fb84bf869f9f1877b47691c1057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:18 +0000
Subject: [PATCH 21/32] fix: default kernel gamma must follow the data of each
 call, not the first one seen

---
 src/wai/ma/transformation/kernel/_PolyKernel.py | 10 ++++------
 src/wai/ma/transformation/kernel/_RBFKernel.py  |  5 ++---
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/wai/ma/transformation/kernel/_PolyKernel.py b/src/wai/ma/transformation/kernel/_PolyKernel.py
index be5ac88..dfa0dcb 100644
--- a/src/wai/ma/transformation/kernel/_PolyKernel.py
+++ b/src/wai/ma/transformation/kernel/_PolyKernel.py
@@ -40,19 +40,17 @@ class PolyKernel(AbstractKernel):
     def apply_matrix(self, X: Matrix, Y: Optional[Matrix] = None) -> Matrix:
         if Y is None:
             Y = X
-        if self.gamma is NAN:
-            self.gamma = ONE / X.num_columns()
+        gamma: real = ONE / X.num_columns() if self.gamma is NAN else self.gamma
         result: Matrix = X.mul(Y.transpose())
-        result = result.mul(self.gamma)
+        result = result.mul(gamma)
         result = result.add(self.coef_0)
         result = result.pow_elementwise(self.degree)
         return result
 
     def apply_vector(self, x: Matrix, y: Matrix) -> real:
         linear_term: real = x.vector_dot(y)
-        if self.gamma is NAN:
-            self.gamma = ONE / x.num_columns()
-        return pow(self.gamma * linear_term + self.coef_0, self.degree)
+        gamma: real = ONE / x.num_columns() if self.gamma is NAN else self.gamma
+        return pow(gamma * linear_term + self.coef_0, self.degree)
 
     def __str__(self):
         return 'Polynomial Kernel: K(x,y)=(gamma*x^T*y + coef_0)^d, ' +\
diff --git a/src/wai/ma/transformation/kernel/_RBFKernel.py b/src/wai/ma/transformation/kernel/_RBFKernel.py
index a7d30ba..9a484f2 100644
--- a/src/wai/ma/transformation/kernel/_RBFKernel.py
+++ b/src/wai/ma/transformation/kernel/_RBFKernel.py
@@ -33,9 +33,8 @@ class RBFKernel(AbstractKernel):
 
     def apply_vector(self, x: Matrix, y: Matrix) -> real:
         norm_2: real = x.sub(y).norm2()
-        if self.gamma is NAN:
-            self.gamma = ONE / x.num_columns()
-        return exp(-ONE * self.gamma * norm_2)
+        gamma: real = ONE / x.num_columns() if self.gamma is NAN else self.gamma
+        return exp(-ONE * gamma * norm_2)
 
     def __str__(self):
         return 'RBF Kernel: K(x,y) = exp(-1*gamma*||x - y||^2), gamma=' + str(self.gamma)
-- 
2.43.0


From aadd019dd3ec81a3f4e35c27acebeed6ab18402b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:22 +0000
Subject: [PATCH 22/32] fix: EPO must cope with fewer data columns than
 requested eigenvectors

---
 src/wai/ma/algorithm/glsw/_EPO.py          | 2 +-
 src/wai/ma/algorithm/glsw/_YGradientEPO.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/algorithm/glsw/_EPO.py b/src/wai/ma/algorithm/glsw/_EPO.py
index cf43ccf..1b516dc 100644
--- a/src/wai/ma/algorithm/glsw/_EPO.py
+++ b/src/wai/ma/algorithm/glsw/_EPO.py
@@ -42,7 +42,7 @@ class EPO(GLSW):
         :param C:   Covariance matrix.
         :return:    Identity matrix.
         """
-        return factory.eye(self.N)
+        return factory.eye(min(C.num_columns(), self.N))
 
     def get_eigenvector_matrix(self, C: Matrix) -> Matrix:
         """
diff --git a/src/wai/ma/algorithm/glsw/_YGradientEPO.py b/src/wai/ma/algorithm/glsw/_YGradientEPO.py
index d4fb4f5..ee63b44 100644
--- a/src/wai/ma/algorithm/glsw/_YGradientEPO.py
+++ b/src/wai/ma/algorithm/glsw/_YGradientEPO.py
@@ -54,7 +54,7 @@ class YGradientEPO(YGradientGLSW):
         :param C:   Covariance matrix.
         :return:    Identity matrix.
         """
-        return factory.eye(self.N)
+        return factory.eye(min(C.num_columns(), self.N))
 
     def get_eigenvector_matrix(self, C: Matrix) -> Matrix:
         """
-- 
2.43.0


From 2f4cbe1d6be216d14edbc4840bf7e7d2eac6e6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:27 +0000
Subject: [PATCH 23/32] fix: PCA loadings must cover all input columns when
 constant ones were dropped

---
 src/wai/ma/algorithm/_PCA.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/wai/ma/algorithm/_PCA.py b/src/wai/ma/algorithm/_PCA.py
index 6b92331..d01bc3f 100644
--- a/src/wai/ma/algorithm/_PCA.py
+++ b/src/wai/ma/algorithm/_PCA.py
@@ -38,6 +38,7 @@ class PCA(AbstractAlgorithm, Filter):
         self.sum_of_eigenvalues: real = real(0)
         self.num_cols: int = 0
         self.num_rows: int = 0
+        self.num_input_cols: int = 0
         self.keep_cols: List[int] = []
         self.train: Optional[Matrix] = None
         self.transformation: Optional[AbstractTransformation] = None
@@ -111,6 +112,7 @@ class PCA(AbstractAlgorithm, Filter):
         self.train = instances.copy()
 
         # Delete any attributes with only one distinct value or are all missing
+        self.num_input_cols = self.train.num_columns()
         self.keep_cols = []
         for j in range(self.train.num_columns()):
             distinct = set()
@@ -234,15 +236,15 @@ class PCA(AbstractAlgorithm, Filter):
         :return:    Matrix containing the components.
         """
         coeff = self.get_coefficients()
-        result = factory.zeros(self.num_cols, len(coeff) + 1)
+        result = factory.zeros(self.num_input_cols, len(coeff) + 1)
 
         # Add the index column
-        for n in range(self.num_cols):
+        for n in range(self.num_input_cols):
             result.set(n, result.num_columns() - 1, n + 1)
 
         # Each list is a single column
         for i in range(len(coeff)):
-            for n in range(self.num_cols):
+            for n in range(self.num_input_cols):
                 # Column was kept earlier
                 value = real(0)
                 if n in self.keep_cols:
-- 
2.43.0


From ae3f9e7b99e364fdeb6295c376625e87071f0f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:32 +0000
Subject: [PATCH 24/32] fix: reading an empty stream must report the missing
 rows instead of a TypeError

---
 src/wai/ma/core/matrix/helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/core/matrix/helper.py b/src/wai/ma/core/matrix/helper.py
index e1c9383..85c0fc3 100644
--- a/src/wai/ma/core/matrix/helper.py
+++ b/src/wai/ma/core/matrix/helper.py
@@ -109,12 +109,12 @@ def read(filename: Union[str, IO[str]], header: bool, separator: str) -> Matrix:
         lines = [line for line in filename]
 
     if len(lines) == 0:
-        raise RuntimeError('No rows in file: ' + filename)
+        raise RuntimeError('No rows in file: ' + str(filename))
 
     if header:
         lines = lines[1:]
     if len(lines) == 0:
-        raise RuntimeError('No data rows in file: ' + filename)
+        raise RuntimeError('No data rows in file: ' + str(filename))
 
     sep = separator
     cells = lines[0].split(sep)
-- 
2.43.0


From 14a9f963c0819f3d3825d1a1d1b85e3d883f0789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:36 +0000
Subject: [PATCH 25/32] fix: real_to_string_fixed must recognise NaN

---
 src/wai/ma/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index 0539e9f..7d37cf4 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -264,7 +264,7 @@ def real_to_string_fixed(value: real, after_decimal_point: int) -> str:
     :return:                        The real as a formatted string.
     """
     # Special numbers
-    if value == real(NAN):
+    if np.isnan(value):
         return NAN
     elif value == real(NEGATIVE_INFINITY):
         return NEGATIVE_INFINITY
-- 
2.43.0


From e72457aaf0b6d17db5821f06dd428206163fb994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:51 +0000
Subject: [PATCH 26/32] fix: sort must handle plain Python numbers as well as
 numpy reals

---
 src/wai/ma/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/core/utils.py b/src/wai/ma/core/utils.py
index 7d37cf4..3a17648 100644
--- a/src/wai/ma/core/utils.py
+++ b/src/wai/ma/core/utils.py
@@ -185,7 +185,7 @@ def sort(array: List[real]) -> List[int]:
     """
     index = initial_index(len(array))
     if len(array) > 1:
-        array = list(array)
+        array = to_real_array(array)
         quick_sort(array, index, 0, len(array) - 1)
     return index
 
-- 
2.43.0


From 7b2bdb3e88c2730a8889b74782dd0c9b4022c569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:06 +0000
Subject: [PATCH 27/32] fix: FastICA stays trained after its function or
 algorithm is changed

---
 src/wai/ma/algorithm/ica/_FastICA.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index 29c223c..4ab25f9 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -50,6 +50,14 @@ class FastICA(AbstractAlgorithm, Filter):
     def validate_whiten(value: bool) -> bool:
         return True
 
+    @staticmethod
+    def validate_fun(value: NegEntropyApproximationFunction) -> bool:
+        return True
+
+    @staticmethod
+    def validate_algorithm(value: 'Algorithm') -> bool:
+        return True
+
     @staticmethod
     def validate_max_iter(value: int) -> bool:
         return value >= 0
-- 
2.43.0


From a427daebf62a247afa7df51a0225a5cd6974eb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:25 +0000
Subject: [PATCH 28/32] fix: FastICA no longer overwrites num_components when
 the data has fewer columns

---
 src/wai/ma/algorithm/ica/_FastICA.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/wai/ma/algorithm/ica/_FastICA.py b/src/wai/ma/algorithm/ica/_FastICA.py
index 4ab25f9..902683d 100644
--- a/src/wai/ma/algorithm/ica/_FastICA.py
+++ b/src/wai/ma/algorithm/ica/_FastICA.py
@@ -92,14 +92,15 @@ class FastICA(AbstractAlgorithm, Filter):
         X1: Optional[Matrix] = None
 
         min_NP: int = min(n, p)
+        num_components: int = self.num_components  # limited to what this data allows
 
         if not self.whiten:
-            self.num_components = min_NP
+            num_components = min_NP
             self.logger.warning('Ignoring num_components when $whiten=False')
 
-        if self.num_components > min_NP:
-            self.logger.warning('num_components is too large and will be set to ' + str(min_NP))
-            self.num_components = min_NP
+        if num_components > min_NP:
+            self.logger.warning('num_components is too large, using ' + str(min_NP))
+            num_components = min_NP
 
         # Whiten data
         if self.whiten:
@@ -110,7 +111,7 @@ class FastICA(AbstractAlgorithm, Filter):
             d = d.get_rows((0, k))  # Only get non-zero singular values
             d_inv_elements: Matrix = d.apply_elementwise(lambda a: 1.0 / a)
             tmp: Matrix = U.scale_by_row_vector(d_inv_elements).transpose()
-            self.whitening = tmp.get_rows((0, min(tmp.num_rows(), self.num_components)))
+            self.whitening = tmp.get_rows((0, min(tmp.num_rows(), num_components)))
 
             X1 = self.whitening.mul(X)
             X1 = X1.mul(sqrt(p))
@@ -118,7 +119,7 @@ class FastICA(AbstractAlgorithm, Filter):
             X1 = X
 
         # Randomly initialise weights from normal dist
-        W_init: Matrix = randn(self.num_components, self.num_components, 1)
+        W_init: Matrix = randn(num_components, num_components, 1)
 
         # Use deflation algorithm
         if self.algorithm is Algorithm.DEFLATION:
@@ -144,9 +145,9 @@ class FastICA(AbstractAlgorithm, Filter):
         :param X:       Input.
         :return:        Weights
         """
-        W: Matrix = zeros(self.num_components, self.num_components)
+        W: Matrix = zeros(W_init.num_rows(), W_init.num_columns())
 
-        for j in range(self.num_components):
+        for j in range(W_init.num_rows()):
             w: Matrix = W_init.get_row(j).transpose().copy()
             w = w.div(w.pow_elementwise(2).sum(-1).sqrt().as_real())
             for i in range(self.max_iter):
-- 
2.43.0


From 80892b3fe1965e63c0ecc381ae19e099fdf28671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:17 +0000
Subject: [PATCH 29/32] fix: NIPALS training must accept several response
 columns

---
 src/wai/ma/algorithm/pls/_NIPALS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wai/ma/algorithm/pls/_NIPALS.py b/src/wai/ma/algorithm/pls/_NIPALS.py
index c7b7200..c0d1216 100644
--- a/src/wai/ma/algorithm/pls/_NIPALS.py
+++ b/src/wai/ma/algorithm/pls/_NIPALS.py
@@ -162,7 +162,7 @@ class NIPALS(AbstractMultiResponsePLS):
 
         # Calculate regression coefficients
         y_stds: Matrix = self.standardize_Y.get_std_devs()
-        self.coef = self.X_rotations.mul(self.Y_loadings.transpose()).scale_by_row_vector(y_stds)
+        self.coef = self.X_rotations.mul(self.Y_loadings.transpose()).scale_by_row_vector(y_stds.transpose())
         return None
 
     def nipals_loop(self, X: Matrix, Y: Matrix) -> 'NipalsLoopResult':
-- 
2.43.0


From a4298c506df7450e5c4889f3a199d95cb4bbb6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:40 +0000
Subject: [PATCH 30/32] fix: PRM answers in the coordinates of its predictors
 when trained with more columns than rows

transform() multiplied the predictors with weights that belong to the n x n
replacement of the data and raised; and the replacement itself was built from
V^T instead of V, so the back-transformed coefficients did not belong to it.
---
 src/wai/ma/algorithm/pls/_PRM.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/wai/ma/algorithm/pls/_PRM.py b/src/wai/ma/algorithm/pls/_PRM.py
index 073b0a4..dd90df1 100644
--- a/src/wai/ma/algorithm/pls/_PRM.py
+++ b/src/wai/ma/algorithm/pls/_PRM.py
@@ -50,6 +50,7 @@ class PRM(AbstractSingleResponsePLS):
         self.num_SIMPLS_coefficients: int = 0  # The number of SIMPLS coefficients in W to keep (0 keep all)
         self.final_regression_coefficients: Optional[Matrix] = None  # Final regression coefficients
         self.simpls: Optional[SIMPLS] = None  # SIMPLS algorithm
+        self.projection: Optional[Matrix] = None  # Maps predictors to scores
 
     @staticmethod
     def validate_num_SIMPLS_coefficients(value: int) -> bool:
@@ -75,6 +76,7 @@ class PRM(AbstractSingleResponsePLS):
         self.gamma = None
         self.T = None
         self.simpls = None
+        self.projection = None
 
     def initialize(self, predictors: Optional[Matrix] = None, response: Optional[Matrix] = None) -> Optional[str]:
         if predictors is None and response is None:
@@ -217,13 +219,10 @@ class PRM(AbstractSingleResponsePLS):
         # See also: Remark 2 in paper
         has_more_columns_than_rows: bool = X.num_columns() > X.num_rows()
         if has_more_columns_than_rows:
-            X_t: Matrix = X.transpose()
-            U = X_t.svd_U()
-            V: Matrix = X_t.svd_V()
-            S: Matrix = X_t.svd_S()
+            U = X.transpose().svd_U()
 
-            # Replace X with n x n matrix
-            X = V.mul(S)
+            # Replace X with n x n matrix (X^T = U*S*V^T, so V*S = X*U)
+            X = X.mul(U)
 
         # 1) Compute robust starting values fro residual and leverage weights
         self.init_weights(X, y)
@@ -262,11 +261,13 @@ class PRM(AbstractSingleResponsePLS):
 
         # Get the final regression coefficients from the latest SIMPLS run
         self.final_regression_coefficients = self.simpls.get_matrix('B')
+        self.projection = self.simpls.get_matrix('W')
 
-        # If X has been replaced by US, the regression coefficients need to be
-        # back-transformed into beta_hat = U*beta_p
+        # If X has been replaced by VS, the regression coefficients need to be
+        # back-transformed into beta_hat = U*beta_p (and the weights alike)
         if has_more_columns_than_rows:
             self.final_regression_coefficients = U.mul(self.final_regression_coefficients)
+            self.projection = U.mul(self.projection)
 
         return None
 
@@ -274,7 +275,7 @@ class PRM(AbstractSingleResponsePLS):
         return True
 
     def do_transform(self, predictors: Matrix) -> Matrix:
-        return predictors.mul(self.simpls.get_matrix('W'))
+        return predictors.mul(self.projection)
 
     def do_perform_predictions(self, predictors: Matrix) -> Matrix:
         return predictors.mul(self.final_regression_coefficients)
-- 
2.43.0


From bdb1ca02c0bb92289b640957dc42fb7f177e2bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 31/32] fix: zeros keeps the requested shape when there are no
 rows

zeros(0, c) had shape (1, 0), so a SparsePLS model that selected no
feature trained without an error but raised a shape error when asked to
predict.
---
 src/wai/ma/core/matrix/factory.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/wai/ma/core/matrix/factory.py b/src/wai/ma/core/matrix/factory.py
index 48960d5..e62f4fc 100644
--- a/src/wai/ma/core/matrix/factory.py
+++ b/src/wai/ma/core/matrix/factory.py
@@ -78,8 +78,7 @@ def zeros(rows: int, columns: int = -1) -> Matrix:
     """
     if columns == -1:
         columns = rows
-    return create([[0 for _ in builtins.range(columns)]
-                   for _ in builtins.range(rows)])
+    return filled(rows, columns, 0)
 
 
 def zeros_like(other: Matrix) -> Matrix:
-- 
2.43.0


From 6cb76a3933ce9b1807dc76976a1c65091e5e282a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:40 +0000
Subject: [PATCH 32/32] fix: Savitzky-Golay weights computed without machine
 integer overflow for wide windows

---
 src/wai/ma/transformation/_SavitzkyGolay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wai/ma/transformation/_SavitzkyGolay.py b/src/wai/ma/transformation/_SavitzkyGolay.py
index 01749ad..ddd4d0c 100644
--- a/src/wai/ma/transformation/_SavitzkyGolay.py
+++ b/src/wai/ma/transformation/_SavitzkyGolay.py
@@ -114,7 +114,7 @@ def determine_coefficients(num_left: int, num_right: int, poly_order: int, der_o
         for j in range(A_dim):
             sum = real(0)
             for k in range(-num_left, num_right + 1):
-                sum += np.power(k, i + j)
+                sum += np.power(real(k), i + j)
             A.set(i, j, sum)
 
     b = factory.zeros(A_dim, 1)
@@ -125,7 +125,7 @@ def determine_coefficients(num_left: int, num_right: int, poly_order: int, der_o
     for i in range(-num_left, num_right + 1):
         sum = real(0)
         for j in range(A_dim):
-            sum += solution.get(j, 0) * np.power(i, j)
+            sum += solution.get(j, 0) * np.power(real(i), j)
         result[i + num_left] = sum
 
     return result
-- 
2.43.0

