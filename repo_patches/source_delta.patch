From 6591daad9e01eea01f2b3c1cd603cecfc518d7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 001/325] fix: MLPPTensor3::row_get_vector ignored the slice
 index

---
 core/mlpp_tensor3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 87a6e71..fcf0b1a 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -287,7 +287,7 @@ Vector<real_t> MLPPTensor3::row_get_vector(int p_index_z, int p_index_y) const {
 
   ret.resize(_size.x);
 
-  int ind_start = p_index_y * _size.x;
+  int ind_start = p_index_y * _size.x + _size.x * _size.y * p_index_z;
 
   real_t *row_ptr = ret.ptrw();
 
-- 
2.43.0


From 614bf16a2715800e6b95e879343afe32221de88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 002/325] fix: MLPPTensor3::z_slice_remove_unordered read out
 of bounds

---
 core/mlpp_tensor3.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index fcf0b1a..e76be9a 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -222,10 +222,10 @@ void MLPPTensor3::z_slice_remove_unordered(int p_index) {
   }
 
   int start_ind = calculate_z_slice_index(p_index);
-  int end_ind = calculate_z_slice_index(p_index + 1);
+  int fmds = z_slice_data_size();
 
-  for (int i = start_ind; i < end_ind; ++i) {
-    _data[i] = _data[ds + i];
+  for (int i = 0; i < fmds; ++i) {
+    _data[start_ind + i] = _data[ds + i];
   }
 
   _data = (real_t *)memrealloc(_data, data_size() * sizeof(real_t));
-- 
2.43.0


From 153997e1672b1519f241c4ec1ae80549e6dae1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 003/325] fix: MLPPTensor3 x slices addressed the wrong axis

---
 core/mlpp_tensor3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index e76be9a..0c6f652 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -634,7 +634,7 @@ void MLPPTensor3::x_slice_get_into(int p_index_x,
 
   for (int z = 0; z < _size.z; ++z) {
     for (int y = 0; y < _size.y; ++y) {
-      target->element_set(z, y, element_get(z, p_index_x, y));
+      target->element_set(z, y, element_get(z, y, p_index_x));
     }
   }
 }
@@ -655,7 +655,7 @@ void MLPPTensor3::x_slice_set(int p_index_x, const Ref<MLPPMatrix> &p_mat) {
 
   for (int z = 0; z < _size.z; ++z) {
     for (int y = 0; y < _size.y; ++y) {
-      element_set(z, p_index_x, y, p_mat->element_get(z, y));
+      element_set(z, y, p_index_x, p_mat->element_get(z, y));
     }
   }
 }
-- 
2.43.0


From 776010cbded1b035a02a232f1c7ac25da0a47db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 004/325] fix: MLPPTensor3 y slices addressed the wrong axis
 and size

---
 core/mlpp_tensor3.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 0c6f652..e06f4c6 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -665,13 +665,13 @@ void MLPPTensor3::y_slice_get_into(int p_index_y,
   ERR_FAIL_INDEX(p_index_y, _size.y);
   ERR_FAIL_COND(!target.is_valid());
 
-  if (unlikely(target->size() != Size2i(_size.y, _size.z))) {
+  if (unlikely(target->size() != Size2i(_size.x, _size.z))) {
     target->resize(Size2i(_size.x, _size.z));
   }
 
   for (int z = 0; z < _size.z; ++z) {
     for (int x = 0; x < _size.x; ++x) {
-      target->element_set(z, x, element_get(z, x, p_index_y));
+      target->element_set(z, x, element_get(z, p_index_y, x));
     }
   }
 }
@@ -688,11 +688,11 @@ Ref<MLPPMatrix> MLPPTensor3::y_slice_get(int p_index_y) const {
 void MLPPTensor3::y_slice_set(int p_index_y, const Ref<MLPPMatrix> &p_mat) {
   ERR_FAIL_INDEX(p_index_y, _size.y);
   ERR_FAIL_COND(!p_mat.is_valid());
-  ERR_FAIL_COND(p_mat->size() != Size2i(_size.y, _size.z));
+  ERR_FAIL_COND(p_mat->size() != Size2i(_size.x, _size.z));
 
   for (int z = 0; z < _size.z; ++z) {
     for (int x = 0; x < _size.x; ++x) {
-      element_set(z, x, p_index_y, p_mat->element_get(z, x));
+      element_set(z, p_index_y, x, p_mat->element_get(z, x));
     }
   }
 }
-- 
2.43.0


From 56395003b3de7a4df68ff6c65b55565ee7e79c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 005/325] fix: MLPPVector::division_element_wise wrote into an
 unsized temporary

---
 core/mlpp_vector.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 195479d..3ae13e9 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -419,14 +419,11 @@ void MLPPVector::hadamard_productb(const Ref<MLPPVector> &a, const Ref<MLPPVecto
 void MLPPVector::division_element_wise(const Ref<MLPPVector> &b) {
 	ERR_FAIL_COND(!b.is_valid());
 
-	Ref<MLPPVector> out;
-	out.instance();
-
 	ERR_FAIL_COND(_size != b->size());
 
 	const real_t *a_ptr = ptr();
 	const real_t *b_ptr = b->ptr();
-	real_t *out_ptr = out->ptrw();
+	real_t *out_ptr = ptrw();
 
 	for (int i = 0; i < _size; ++i) {
 		out_ptr[i] = a_ptr[i] / b_ptr[i];
-- 
2.43.0


From 5ebe6edc088f9740b74fed758113cb73f6d7d758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 006/325] fix: MLPPVector::cos in place computed the square
 root

---
 core/mlpp_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 3ae13e9..4d81e6c 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -1026,7 +1026,7 @@ void MLPPVector::cos() {
 	real_t *out_ptr = ptrw();
 
 	for (int i = 0; i < _size; ++i) {
-		out_ptr[i] = Math::sqrt(out_ptr[i]);
+		out_ptr[i] = Math::cos(out_ptr[i]);
 	}
 }
 Ref<MLPPVector> MLPPVector::cosn() const {
-- 
2.43.0


From 0cfb34056a57f86be2e25d8fdd170366991e29a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 007/325] fix: MLPPMatrix::scalar_multiplyb and scalar_addb
 ignored their operand

---
 core/mlpp_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 31ac48b..a7cfe5a 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1194,7 +1194,7 @@ void MLPPMatrix::scalar_multiplyb(const real_t scalar, const Ref<MLPPMatrix> &A)
 	}
 
 	int ds = data_size();
-	real_t *an_ptr = ptrw();
+	const real_t *an_ptr = A->ptr();
 
 	for (int i = 0; i < ds; ++i) {
 		_data[i] = an_ptr[i] * scalar;
@@ -1227,7 +1227,7 @@ void MLPPMatrix::scalar_addb(const real_t scalar, const Ref<MLPPMatrix> &A) {
 	}
 
 	int ds = data_size();
-	real_t *an_ptr = ptrw();
+	const real_t *an_ptr = A->ptr();
 
 	for (int i = 0; i < ds; ++i) {
 		_data[i] = an_ptr[i] + scalar;
-- 
2.43.0


From 138263ca7bda43c41b3287e26aabb68af0c53fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 008/325] fix: MLPPTensor3::scalar_multiplyb and scalar_addb
 ignored their operand

---
 core/mlpp_tensor3.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index e06f4c6..3efbf71 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -1679,7 +1679,7 @@ void MLPPTensor3::scalar_multiplyb(const real_t scalar,
   }
 
   int ds = data_size();
-  real_t *an_ptr = ptrw();
+  const real_t *an_ptr = A->ptr();
 
   for (int i = 0; i < ds; ++i) {
     _data[i] = an_ptr[i] * scalar;
@@ -1712,7 +1712,7 @@ void MLPPTensor3::scalar_addb(const real_t scalar, const Ref<MLPPTensor3> &A) {
   }
 
   int ds = data_size();
-  real_t *an_ptr = ptrw();
+  const real_t *an_ptr = A->ptr();
 
   for (int i = 0; i < ds; ++i) {
     _data[i] = an_ptr[i] + scalar;
-- 
2.43.0


From 1a531a991fc45dc1851f65e573b11ce8b1994414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 009/325] fix: cube roots of negative elements were NaN

---
 core/lin_alg.cpp     |  8 ++++++--
 core/mlpp_matrix.cpp | 17 ++++++++++++++---
 core/mlpp_vector.cpp | 16 +++++++++++++---
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index e72ea1b..9e81ea5 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -396,7 +396,9 @@ Ref<MLPPMatrix> MLPPLinAlg::sqrtnm(const Ref<MLPPMatrix> &A) {
 	return out;
 }
 Ref<MLPPMatrix> MLPPLinAlg::cbrtnm(const Ref<MLPPMatrix> &A) {
-	return exponentiatenm(A, real_t(1) / real_t(3));
+	ERR_FAIL_COND_V(!A.is_valid(), Ref<MLPPMatrix>());
+
+	return A->cbrtn();
 }
 
 /*
@@ -1436,7 +1438,9 @@ Ref<MLPPVector> MLPPLinAlg::sqrtnv(const Ref<MLPPVector> &a) {
 	return out;
 }
 Ref<MLPPVector> MLPPLinAlg::cbrtnv(const Ref<MLPPVector> &a) {
-	return exponentiatenv(a, static_cast<real_t>(1) / static_cast<real_t>(3));
+	ERR_FAIL_COND_V(!a.is_valid(), Ref<MLPPVector>());
+
+	return a->cbrtn();
 }
 
 real_t MLPPLinAlg::dotnv(const Ref<MLPPVector> &a, const Ref<MLPPVector> &b) {
diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index a7cfe5a..40938c5 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1499,13 +1499,24 @@ void MLPPMatrix::sqrtb(const Ref<MLPPMatrix> &A) {
 }
 
 void MLPPMatrix::cbrt() {
-	exponentiate(real_t(1) / real_t(3));
+	int ds = data_size();
+	real_t *out_ptr = ptrw();
+
+	for (int i = 0; i < ds; ++i) {
+		out_ptr[i] = std::cbrt(out_ptr[i]);
+	}
 }
 Ref<MLPPMatrix> MLPPMatrix::cbrtn() const {
-	return exponentiaten(real_t(1) / real_t(3));
+	Ref<MLPPMatrix> out = duplicate_fast();
+	out->cbrt();
+
+	return out;
 }
 void MLPPMatrix::cbrtb(const Ref<MLPPMatrix> &A) {
-	exponentiateb(A, real_t(1) / real_t(3));
+	ERR_FAIL_COND(!A.is_valid());
+
+	set_from_mlpp_matrix(A);
+	cbrt();
 }
 
 Ref<MLPPMatrix> MLPPMatrix::matrix_powern(const int n) const {
diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 4d81e6c..bc03060 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -853,13 +853,23 @@ void MLPPVector::sqrtb(const Ref<MLPPVector> &a) {
 }
 
 void MLPPVector::cbrt() {
-	return exponentiate(static_cast<real_t>(1) / static_cast<real_t>(3));
+	real_t *out_ptr = ptrw();
+
+	for (int i = 0; i < _size; ++i) {
+		out_ptr[i] = std::cbrt(out_ptr[i]);
+	}
 }
 Ref<MLPPVector> MLPPVector::cbrtn() const {
-	return exponentiaten(static_cast<real_t>(1) / static_cast<real_t>(3));
+	Ref<MLPPVector> out = duplicate_fast();
+	out->cbrt();
+
+	return out;
 }
 void MLPPVector::cbrtb(const Ref<MLPPVector> &a) {
-	return exponentiateb(a, static_cast<real_t>(1) / static_cast<real_t>(3));
+	ERR_FAIL_COND(!a.is_valid());
+
+	set_from_mlpp_vector(a);
+	cbrt();
 }
 
 real_t MLPPVector::dot(const Ref<MLPPVector> &b) const {
-- 
2.43.0


From 972cedf3ac3c2c38977187f8305f8be642787976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 010/325] fix: MLPPMatrix::mult and multb broke when the target
 is an operand

---
 core/mlpp_matrix.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 40938c5..8746a26 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -782,6 +782,11 @@ void MLPPMatrix::mult(const Ref<MLPPMatrix> &B) {
 
 	ERR_FAIL_COND(_size.x != b_size.y);
 
+	if (B.ptr() == this) {
+		set_from_mlpp_matrix(multn(B));
+		return;
+	}
+
 	Ref<MLPPMatrix> A = duplicate_fast();
 	Size2i a_size = A->size();
 
@@ -851,6 +856,11 @@ void MLPPMatrix::multb(const Ref<MLPPMatrix> &A, const Ref<MLPPMatrix> &B) {
 
 	ERR_FAIL_COND_MSG(a_size.x != b_size.y, "a_size.x != b_size.y: a_size: " + a_size.operator String() + " b_size: " + b_size.operator String());
 
+	if (A.ptr() == this || B.ptr() == this) {
+		set_from_mlpp_matrix(A->multn(B));
+		return;
+	}
+
 	Size2i rs = Size2i(b_size.x, a_size.y);
 
 	if (unlikely(_size != rs)) {
-- 
2.43.0


From 5c08f53d73c14e7f6fa408365b7368de0c9f63da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 011/325] fix: MLPPMatrix::transposeb broke when the target is
 the operand

---
 core/mlpp_matrix.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 8746a26..8b53f53 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1160,6 +1160,11 @@ Ref<MLPPMatrix> MLPPMatrix::transposen() const {
 void MLPPMatrix::transposeb(const Ref<MLPPMatrix> &A) {
 	ERR_FAIL_COND(!A.is_valid());
 
+	if (A.ptr() == this) {
+		transpose();
+		return;
+	}
+
 	Size2i a_size = A->size();
 
 	Size2i s = Size2i(a_size.y, a_size.x);
-- 
2.43.0


From 076992edb0857c1f8150ff8a73fdcfe0c3431032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 012/325] fix: MLPPMatrix::kronecker_product in place looped
 over the result's size

---
 core/mlpp_matrix.cpp | 28 +---------------------------
 1 file changed, 1 insertion(+), 27 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 8b53f53..7bd2ab7 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -956,33 +956,7 @@ void MLPPMatrix::kronecker_product(const Ref<MLPPMatrix> &B) {
 	//                   A[0].size() * B[0].size()
 
 	ERR_FAIL_COND(!B.is_valid());
-	Size2i a_size = size();
-	Size2i b_size = B->size();
-
-	Ref<MLPPMatrix> A = duplicate_fast();
-
-	resize(Size2i(b_size.x * a_size.x, b_size.y * a_size.y));
-
-	const real_t *a_ptr = A->ptr();
-
-	Ref<MLPPVector> row_tmp;
-	row_tmp.instance();
-	row_tmp->resize(b_size.x);
-
-	for (int i = 0; i < _size.y; ++i) {
-		for (int j = 0; j < b_size.y; ++j) {
-			B->row_get_into_mlpp_vector(j, row_tmp);
-
-			Vector<Ref<MLPPVector>> row;
-			for (int k = 0; k < _size.x; ++k) {
-				row.push_back(row_tmp->scalar_multiplyn(a_ptr[A->calculate_index(i, k)]));
-			}
-
-			Ref<MLPPVector> flattened_row = row_tmp->flatten_vectorsn(row);
-
-			row_set_mlpp_vector(i * b_size.y + j, flattened_row);
-		}
-	}
+	set_from_mlpp_matrix(kronecker_productn(B));
 }
 Ref<MLPPMatrix> MLPPMatrix::kronecker_productn(const Ref<MLPPMatrix> &B) const {
 	// [1,1,1,1]   [1,2,3,4,5]
-- 
2.43.0


From 38d6d1aa94a25f99dbe424376345ebb18c8a6a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 013/325] fix: MLPPMatrix::kronecker_productb broke when the
 target is an operand

---
 core/mlpp_matrix.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 7bd2ab7..10d8ccd 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1020,6 +1020,12 @@ void MLPPMatrix::kronecker_productb(const Ref<MLPPMatrix> &A, const Ref<MLPPMatr
 	//                   A[0].size() * B[0].size()
 
 	ERR_FAIL_COND(!A.is_valid() || !B.is_valid());
+
+	if (A.ptr() == this || B.ptr() == this) {
+		set_from_mlpp_matrix(A->kronecker_productn(B));
+		return;
+	}
+
 	Size2i a_size = A->size();
 	Size2i b_size = B->size();
 
-- 
2.43.0


From 9f8d02ef2792512f7f2287bfe974d303abffdaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 014/325] fix: rotation matrices in the plane and around z were
 wrong

---
 core/mlpp_matrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 10d8ccd..4f64773 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1917,7 +1917,7 @@ Ref<MLPPMatrix> MLPPMatrix::create_rotation_matrix(real_t theta, int axis) {
 		rptr[rotation_matrix->calculate_index(0, 0)] = Math::cos(theta);
 		rptr[rotation_matrix->calculate_index(0, 1)] = -Math::sin(theta);
 
-		rptr[rotation_matrix->calculate_index(1, 0)] = Math::cos(theta);
+		rptr[rotation_matrix->calculate_index(1, 0)] = Math::sin(theta);
 		rptr[rotation_matrix->calculate_index(1, 1)] = Math::cos(theta);
 	} else if (axis == 0) {
 		rotation_matrix->resize(Size2(3, 3));
@@ -1962,9 +1962,9 @@ Ref<MLPPMatrix> MLPPMatrix::create_rotation_matrix(real_t theta, int axis) {
 		rptr[rotation_matrix->calculate_index(1, 1)] = Math::cos(theta);
 		rptr[rotation_matrix->calculate_index(1, 2)] = 0;
 
-		rptr[rotation_matrix->calculate_index(2, 0)] = 1;
+		rptr[rotation_matrix->calculate_index(2, 0)] = 0;
 		rptr[rotation_matrix->calculate_index(2, 1)] = 0;
-		rptr[rotation_matrix->calculate_index(2, 2)] = 0;
+		rptr[rotation_matrix->calculate_index(2, 2)] = 1;
 	}
 
 	return rotation_matrix;
-- 
2.43.0


From c2e2bbe5cab8baa2b176de7698b5dd11f5e0f8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 015/325] fix: MLPPMatrix::cov and covo were only right for
 square matrices

---
 core/mlpp_matrix.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 4f64773..9c09cda 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2183,7 +2183,7 @@ Ref<MLPPMatrix> MLPPMatrix::cov() const {
 	Ref<MLPPMatrix> cov_mat;
 	cov_mat.instance();
 
-	cov_mat->resize(_size);
+	cov_mat->resize(Size2i(_size.y, _size.y));
 
 	Ref<MLPPVector> a_i_row_tmp;
 	a_i_row_tmp.instance();
@@ -2196,7 +2196,7 @@ Ref<MLPPMatrix> MLPPMatrix::cov() const {
 	for (int i = 0; i < _size.y; ++i) {
 		row_get_into_mlpp_vector(i, a_i_row_tmp);
 
-		for (int j = 0; j < _size.x; ++j) {
+		for (int j = 0; j < _size.y; ++j) {
 			row_get_into_mlpp_vector(j, a_j_row_tmp);
 
 			cov_mat->element_set(i, j, stat.covariancev(a_i_row_tmp, a_j_row_tmp));
@@ -2210,8 +2210,10 @@ void MLPPMatrix::covo(Ref<MLPPMatrix> out) const {
 
 	MLPPStat stat;
 
-	if (unlikely(out->size() != _size)) {
-		out->resize(_size);
+	Size2i out_size = Size2i(_size.y, _size.y);
+
+	if (unlikely(out->size() != out_size)) {
+		out->resize(out_size);
 	}
 
 	Ref<MLPPVector> a_i_row_tmp;
@@ -2225,7 +2227,7 @@ void MLPPMatrix::covo(Ref<MLPPMatrix> out) const {
 	for (int i = 0; i < _size.y; ++i) {
 		row_get_into_mlpp_vector(i, a_i_row_tmp);
 
-		for (int j = 0; j < _size.x; ++j) {
+		for (int j = 0; j < _size.y; ++j) {
 			row_get_into_mlpp_vector(j, a_j_row_tmp);
 
 			out->element_set(i, j, stat.covariancev(a_i_row_tmp, a_j_row_tmp));
-- 
2.43.0


From 37d36ddef6915c02b8b7c560c6b15797f6dfbbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 016/325] fix: MLPPMatrix::mult_veco broke when the output is
 the operand

---
 core/mlpp_matrix.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 9c09cda..88675cf 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2817,6 +2817,11 @@ void MLPPMatrix::mult_veco(const Ref<MLPPVector> &b, Ref<MLPPVector> out) {
 
 	ERR_FAIL_COND(_size.x < b->size());
 
+	if (b == out) {
+		out->set_from_mlpp_vector(mult_vec(b));
+		return;
+	}
+
 	if (unlikely(out->size() != _size.y)) {
 		out->resize(_size.y);
 	}
-- 
2.43.0


From 30448615c231d7489d4625e4021f7b59c00cb1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 017/325] fix: MLPPMatrix::det accepted non-square matrices

---
 core/mlpp_matrix.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 88675cf..a14427f 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1596,6 +1596,8 @@ void MLPPMatrix::absb(const Ref<MLPPMatrix> &A) {
 
 real_t MLPPMatrix::det(int d) const {
 	if (d == -1) {
+		ERR_FAIL_COND_V(_size.x != _size.y, 0);
+
 		return detb(Ref<MLPPMatrix>(this), _size.y);
 	} else {
 		return detb(Ref<MLPPMatrix>(this), d);
-- 
2.43.0


From e846e3275c4e1c35d5f8838435aef00b9e50e31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 018/325] fix: MLPPMatrix::diagonal_zeroed cleared the matrix
 before refusing a missing operand

---
 core/mlpp_matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index a14427f..5b68a03 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2988,10 +2988,10 @@ Ref<MLPPMatrix> MLPPMatrix::diagonal_setn(const Ref<MLPPVector> &a) const {
 }
 
 void MLPPMatrix::diagonal_zeroed(const Ref<MLPPVector> &a) {
-	fill(0);
-
 	ERR_FAIL_COND(!a.is_valid());
 
+	fill(0);
+
 	int a_size = a->size();
 	int ms = MIN(_size.x, _size.y);
 	ms = MIN(ms, a_size);
-- 
2.43.0


From 3f6e7bb9a308ca5a844cf2c5daaabdf8ce0d4e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 019/325] fix: MLPPMatrix::inverse, inverseo and solve crashed
 on non-square matrices

---
 core/mlpp_matrix.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 5b68a03..04514da 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1779,10 +1779,13 @@ void MLPPMatrix::adjointo(Ref<MLPPMatrix> out) const {
 }
 
 Ref<MLPPMatrix> MLPPMatrix::inverse() const {
+	ERR_FAIL_COND_V(_size.x != _size.y, Ref<MLPPMatrix>());
+
 	return adjoint()->scalar_multiplyn(1 / det());
 }
 void MLPPMatrix::inverseo(Ref<MLPPMatrix> out) const {
 	ERR_FAIL_COND(!out.is_valid());
+	ERR_FAIL_COND(_size.x != _size.y);
 
 	out->set_from_mlpp_matrix(adjoint()->scalar_multiplyn(1 / det()));
 }
@@ -2730,6 +2733,8 @@ void MLPPMatrix::flatteno(Ref<MLPPVector> out) const {
 }
 
 Ref<MLPPVector> MLPPMatrix::solve(const Ref<MLPPVector> &b) const {
+	ERR_FAIL_COND_V(_size.x != _size.y, Ref<MLPPVector>());
+
 	return inverse()->mult_vec(b);
 }
 
-- 
2.43.0


From 9c762657e4e6e4d91f1b5b5753c172d7c5d17e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 020/325] fix: containers took over negative sizes

---
 core/mlpp_matrix.cpp  | 2 ++
 core/mlpp_tensor3.cpp | 2 ++
 core/mlpp_vector.cpp  | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 04514da..b34311c 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -257,6 +257,8 @@ void MLPPMatrix::row_swap(int p_index_1, int p_index_2) {
 }
 
 void MLPPMatrix::resize(const Size2i &p_size) {
+	ERR_FAIL_COND(p_size.x < 0 || p_size.y < 0);
+
 	_size = p_size;
 
 	int ds = data_size();
diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 3efbf71..9be9b14 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -247,6 +247,8 @@ void MLPPTensor3::z_slice_swap(int p_index_1, int p_index_2) {
 }
 
 void MLPPTensor3::resize(const Size3i &p_size) {
+  ERR_FAIL_COND(p_size.x < 0 || p_size.y < 0 || p_size.z < 0);
+
   _size = p_size;
 
   int ds = data_size();
diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index bc03060..c742de4 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -157,6 +157,8 @@ void MLPPVector::invert() {
 }
 
 void MLPPVector::resize(int p_size) {
+	ERR_FAIL_COND(p_size < 0);
+
 	_size = p_size;
 
 	if (_size == 0) {
-- 
2.43.0


From 0fe81218340d7e16016aeded367c3f69bb0c6505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 021/325] fix: MLPPMatrix row-list assignment left
 uninitialised rows for ragged input

---
 core/mlpp_matrix.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index b34311c..0e6fbfe 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -479,6 +479,11 @@ void MLPPMatrix::set_from_mlpp_vectors(const Vector<Ref<MLPPVector>> &p_from) {
 		return;
 	}
 
+	for (int i = 0; i < p_from.size(); ++i) {
+		ERR_FAIL_COND(!p_from[i].is_valid());
+		ERR_FAIL_COND(p_from[i]->size() != p_from[0]->size());
+	}
+
 	resize(Size2i(p_from[0]->size(), p_from.size()));
 
 	if (data_size() == 0) {
@@ -514,6 +519,13 @@ void MLPPMatrix::set_from_mlpp_vectors_array(const Array &p_from) {
 		return;
 	}
 
+	for (int i = 0; i < p_from.size(); ++i) {
+		Ref<MLPPVector> r = p_from[i];
+
+		ERR_FAIL_COND(!r.is_valid());
+		ERR_FAIL_COND(r->size() != v0->size());
+	}
+
 	resize(Size2i(v0->size(), p_from.size()));
 
 	if (data_size() == 0) {
@@ -542,6 +554,10 @@ void MLPPMatrix::set_from_vectors(const Vector<Vector<real_t>> &p_from) {
 		return;
 	}
 
+	for (int i = 0; i < p_from.size(); ++i) {
+		ERR_FAIL_COND(p_from[i].size() != p_from[0].size());
+	}
+
 	resize(Size2i(p_from[0].size(), p_from.size()));
 
 	if (data_size() == 0) {
@@ -571,6 +587,12 @@ void MLPPMatrix::set_from_arrays(const Array &p_from) {
 
 	PoolRealArray p0arr = p_from[0];
 
+	for (int i = 0; i < p_from.size(); ++i) {
+		PoolRealArray r = p_from[i];
+
+		ERR_FAIL_COND(r.size() != p0arr.size());
+	}
+
 	resize(Size2i(p0arr.size(), p_from.size()));
 
 	if (data_size() == 0) {
@@ -3197,6 +3219,10 @@ void MLPPMatrix::set_from_std_vectors(const std::vector<std::vector<real_t>> &p_
 		return;
 	}
 
+	for (uint32_t i = 0; i < p_from.size(); ++i) {
+		ERR_FAIL_COND(p_from[i].size() != p_from[0].size());
+	}
+
 	resize(Size2i(p_from[0].size(), p_from.size()));
 
 	if (data_size() == 0) {
-- 
2.43.0


From 5fecc4fc3b31de5748a70cbf451b13d0aa548720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 022/325] fix: MLPPTensor3 list assignment left uninitialised
 slices for ragged input

---
 core/mlpp_tensor3.cpp | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 9be9b14..9140b68 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -2078,6 +2078,11 @@ void MLPPTensor3::set_from_mlpp_vectors(const Vector<Ref<MLPPVector>> &p_from) {
     return;
   }
 
+  for (int i = 0; i < p_from.size(); ++i) {
+    ERR_FAIL_COND(!p_from[i].is_valid());
+    ERR_FAIL_COND(p_from[i]->size() != p_from[0]->size());
+  }
+
   resize(Size3i(p_from[0]->size(), p_from.size(), 1));
 
   if (data_size() == 0) {
@@ -2112,6 +2117,11 @@ void MLPPTensor3::set_from_mlpp_matricess(
     return;
   }
 
+  for (int i = 0; i < p_from.size(); ++i) {
+    ERR_FAIL_COND(!p_from[i].is_valid());
+    ERR_FAIL_COND(p_from[i]->size() != p_from[0]->size());
+  }
+
   resize(Size3i(p_from[0]->size().x, p_from[0]->size().y, p_from.size()));
 
   if (data_size() == 0) {
@@ -2150,6 +2160,13 @@ void MLPPTensor3::set_from_mlpp_vectors_array(const Array &p_from) {
     return;
   }
 
+  for (int i = 0; i < p_from.size(); ++i) {
+    Ref<MLPPVector> r = p_from[i];
+
+    ERR_FAIL_COND(!r.is_valid());
+    ERR_FAIL_COND(r->size() != v0->size());
+  }
+
   resize(Size3i(v0->size(), p_from.size(), 1));
 
   if (data_size() == 0) {
@@ -2185,6 +2202,13 @@ void MLPPTensor3::set_from_mlpp_matrices_array(const Array &p_from) {
     return;
   }
 
+  for (int i = 0; i < p_from.size(); ++i) {
+    Ref<MLPPMatrix> r = p_from[i];
+
+    ERR_FAIL_COND(!r.is_valid());
+    ERR_FAIL_COND(r->size() != v0->size());
+  }
+
   resize(Size3i(v0->size().x, v0->size().y, p_from.size()));
 
   if (data_size() == 0) {
@@ -2305,7 +2329,18 @@ void MLPPTensor3::set_from_std_vectors(
     return;
   }
 
-  resize(Size3i(p_from[0][0].size(), p_from[0].size(), p_from.size()));
+  uint32_t y_size = p_from[0].size();
+  uint32_t x_size = y_size == 0 ? 0 : p_from[0][0].size();
+
+  for (uint32_t z = 0; z < p_from.size(); ++z) {
+    ERR_FAIL_COND(p_from[z].size() != y_size);
+
+    for (uint32_t y = 0; y < y_size; ++y) {
+      ERR_FAIL_COND(p_from[z][y].size() != x_size);
+    }
+  }
+
+  resize(Size3i(x_size, y_size, p_from.size()));
 
   if (data_size() == 0) {
     reset();
-- 
2.43.0


From 238e050ef390d309acacf10484b1f1adc3630c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 023/325] fix: MLPPMatrix::set_from_ptr dropped its buffer

---
 core/mlpp_matrix.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 0e6fbfe..70e592e 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -616,8 +616,6 @@ void MLPPMatrix::set_from_arrays(const Array &p_from) {
 }
 
 void MLPPMatrix::set_from_ptr(const real_t *p_from, const int p_size_y, const int p_size_x) {
-	_data = NULL;
-
 	ERR_FAIL_COND(!p_from);
 
 	resize(Size2i(p_size_x, p_size_y));
-- 
2.43.0


From 503b74cd0f21e9128a28bb30f739ab0db09144ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 024/325] fix: MLPPTensor3::tensor_vec_mult returned a result
 for invalid vectors

---
 core/mlpp_tensor3.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 9140b68..66d1836 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -1921,6 +1921,9 @@ real_t MLPPTensor3::norm_2(std::vector<std::vector<std::vector<real_t>>> A) {
 */
 
 Ref<MLPPMatrix> MLPPTensor3::tensor_vec_mult(const Ref<MLPPVector> &b) {
+  ERR_FAIL_COND_V(!b.is_valid(), Ref<MLPPMatrix>());
+  ERR_FAIL_COND_V(_size.x != b->size(), Ref<MLPPMatrix>());
+
   Ref<MLPPMatrix> C;
   C.instance();
   C->resize(Size2i(_size.y, _size.z));
-- 
2.43.0


From 6fc23b7f6630dda6cc9cca578296911a7864e6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 025/325] fix: MLPPTensor3::z_slice_get_into_* crashed on a
 missing target

---
 core/mlpp_tensor3.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 66d1836..5f92a49 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -492,6 +492,7 @@ Ref<MLPPVector> MLPPTensor3::z_slice_get_mlpp_vector(int p_index_z) const {
 
 void MLPPTensor3::z_slice_get_into_mlpp_vector(int p_index_z,
                                                Ref<MLPPVector> target) const {
+  ERR_FAIL_COND(!target.is_valid());
   ERR_FAIL_INDEX(p_index_z, _size.z);
 
   int fmds = z_slice_data_size();
@@ -536,6 +537,7 @@ Ref<MLPPMatrix> MLPPTensor3::z_slice_get_mlpp_matrix(int p_index_z) const {
 
 void MLPPTensor3::z_slice_get_into_mlpp_matrix(int p_index_z,
                                                Ref<MLPPMatrix> target) const {
+  ERR_FAIL_COND(!target.is_valid());
   ERR_FAIL_INDEX(p_index_z, _size.z);
 
   int fmds = z_slice_data_size();
-- 
2.43.0


From 6e993111e4f6ed2c4463c33886ddaa18bd7f2156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 026/325] fix: MLPPVector::cross did not check its operands

---
 core/mlpp_vector.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index c742de4..4746c47 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -893,6 +893,9 @@ Ref<MLPPVector> MLPPVector::cross(const Ref<MLPPVector> &b) {
 	// Cross products exist in R^7 also. Though, I will limit it to R^3 as Wolfram does this.
 	//std::vector<std::vector<real_t>> mat = { onevec(3), a, b };
 
+	ERR_FAIL_COND_V(!b.is_valid(), Ref<MLPPVector>());
+	ERR_FAIL_COND_V(_size != 3 || b->size() != 3, Ref<MLPPVector>());
+
 	real_t det1 = element_get(1) * b->element_get(2) - element_get(2) * b->element_get(1);
 	real_t det2 = -(element_get(0) * b->element_get(2) - element_get(2) * b->element_get(0));
 	real_t det3 = element_get(0) * b->element_get(1) - element_get(1) * b->element_get(0);
-- 
2.43.0


From 44c4e151f019d768d8b0a7887243ed2d9dcd5a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 027/325] fix: MLPPVector::find read before the buffer for a
 negative start

---
 core/mlpp_vector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 4746c47..a0aa031 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -191,6 +191,8 @@ void MLPPVector::insert(int p_pos, real_t p_val) {
 }
 
 int MLPPVector::find(const real_t &p_val, int p_from) const {
+	ERR_FAIL_COND_V(p_from < 0, -1);
+
 	for (int i = p_from; i < _size; i++) {
 		if (_data[i] == p_val) {
 			return i;
-- 
2.43.0


From cb59dfa172f8e612d354b84d470d7708ac720bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 028/325] fix: MLPPVector operations crashed on a missing
 operand

---
 core/mlpp_vector.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index a0aa031..3b9f835 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -315,6 +315,10 @@ bool MLPPVector::is_equal_approx(const Ref<MLPPVector> &p_with, real_t tolerance
 }
 
 void MLPPVector::flatten_vectors(const Vector<Ref<MLPPVector>> &A) {
+	for (int i = 0; i < A.size(); ++i) {
+		ERR_FAIL_COND(!A[i].is_valid());
+	}
+
 	int vsize = 0;
 	for (int i = 0; i < A.size(); ++i) {
 		vsize += A[i]->size();
@@ -339,6 +343,10 @@ void MLPPVector::flatten_vectors(const Vector<Ref<MLPPVector>> &A) {
 }
 
 Ref<MLPPVector> MLPPVector::flatten_vectorsn(const Vector<Ref<MLPPVector>> &A) const {
+	for (int i = 0; i < A.size(); ++i) {
+		ERR_FAIL_COND_V(!A[i].is_valid(), Ref<MLPPVector>());
+	}
+
 	Ref<MLPPVector> a;
 	a.instance();
 
@@ -495,6 +503,8 @@ Ref<MLPPVector> MLPPVector::scalar_multiplyn(real_t scalar) const {
 	return out;
 }
 void MLPPVector::scalar_multiplyb(real_t scalar, const Ref<MLPPVector> &a) {
+	ERR_FAIL_COND(!a.is_valid());
+
 	int s = a->size();
 
 	if (unlikely(size() != s)) {
@@ -1370,6 +1380,8 @@ real_t MLPPVector::cosineSimilarity(std::vector<real_t> a, std::vector<real_t> b
 */
 
 void MLPPVector::subtract_matrix_rows(const Ref<MLPPMatrix> &B) {
+	ERR_FAIL_COND(!B.is_valid());
+
 	Size2i b_size = B->size();
 
 	ERR_FAIL_COND(b_size.x != size());
@@ -1384,6 +1396,8 @@ void MLPPVector::subtract_matrix_rows(const Ref<MLPPMatrix> &B) {
 	}
 }
 Ref<MLPPVector> MLPPVector::subtract_matrix_rowsn(const Ref<MLPPMatrix> &B) const {
+	ERR_FAIL_COND_V(!B.is_valid(), Ref<MLPPVector>());
+
 	Ref<MLPPVector> c = duplicate_fast();
 
 	Size2i b_size = B->size();
@@ -1402,6 +1416,8 @@ Ref<MLPPVector> MLPPVector::subtract_matrix_rowsn(const Ref<MLPPMatrix> &B) cons
 	return c;
 }
 void MLPPVector::subtract_matrix_rowsb(const Ref<MLPPVector> &a, const Ref<MLPPMatrix> &B) {
+	ERR_FAIL_COND(!a.is_valid() || !B.is_valid());
+
 	Size2i b_size = B->size();
 
 	ERR_FAIL_COND(b_size.x != a->size());
@@ -1419,6 +1435,8 @@ void MLPPVector::subtract_matrix_rowsb(const Ref<MLPPVector> &a, const Ref<MLPPM
 }
 
 Ref<MLPPMatrix> MLPPVector::outer_product(const Ref<MLPPVector> &b) const {
+	ERR_FAIL_COND_V(!b.is_valid(), Ref<MLPPMatrix>());
+
 	Ref<MLPPMatrix> C;
 	C.instance();
 	Size2i sm = Size2i(b->size(), size());
-- 
2.43.0


From b7b7db461eb80f0863398d63732f49c0da8d4c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 029/325] fix: exporting empty containers copied from a null
 pointer

---
 core/mlpp_matrix.cpp  | 14 ++++++++++----
 core/mlpp_tensor3.cpp | 14 ++++++++++----
 core/mlpp_vector.cpp  | 14 ++++++++++----
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 70e592e..4c839ff 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -417,7 +417,9 @@ Vector<real_t> MLPPMatrix::to_flat_vector() const {
 	Vector<real_t> ret;
 	ret.resize(data_size());
 	real_t *w = ret.ptrw();
-	memcpy(w, _data, sizeof(real_t) * data_size());
+	if (data_size() > 0) {
+		memcpy(w, _data, sizeof(real_t) * data_size());
+	}
 	return ret;
 }
 
@@ -439,7 +441,9 @@ Vector<uint8_t> MLPPMatrix::to_flat_byte_array() const {
 	Vector<uint8_t> ret;
 	ret.resize(data_size() * sizeof(real_t));
 	uint8_t *w = ret.ptrw();
-	memcpy(w, _data, sizeof(real_t) * data_size());
+	if (data_size() > 0) {
+		memcpy(w, _data, sizeof(real_t) * data_size());
+	}
 	return ret;
 }
 
@@ -3206,8 +3210,10 @@ MLPPMatrix::~MLPPMatrix() {
 std::vector<real_t> MLPPMatrix::to_flat_std_vector() const {
 	std::vector<real_t> ret;
 	ret.resize(data_size());
-	real_t *w = &ret[0];
-	memcpy(w, _data, sizeof(real_t) * data_size());
+	real_t *w = ret.data();
+	if (data_size() > 0) {
+		memcpy(w, _data, sizeof(real_t) * data_size());
+	}
 	return ret;
 }
 
diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 5f92a49..af27012 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -1987,7 +1987,9 @@ Vector<real_t> MLPPTensor3::to_flat_vector() const {
   Vector<real_t> ret;
   ret.resize(data_size());
   real_t *w = ret.ptrw();
-  memcpy(w, _data, sizeof(real_t) * data_size());
+  if (data_size() > 0) {
+    memcpy(w, _data, sizeof(real_t) * data_size());
+  }
   return ret;
 }
 
@@ -2009,7 +2011,9 @@ Vector<uint8_t> MLPPTensor3::to_flat_byte_array() const {
   Vector<uint8_t> ret;
   ret.resize(data_size() * sizeof(real_t));
   uint8_t *w = ret.ptrw();
-  memcpy(w, _data, sizeof(real_t) * data_size());
+  if (data_size() > 0) {
+    memcpy(w, _data, sizeof(real_t) * data_size());
+  }
   return ret;
 }
 
@@ -2322,8 +2326,10 @@ MLPPTensor3::~MLPPTensor3() {
 std::vector<real_t> MLPPTensor3::to_flat_std_vector() const {
   std::vector<real_t> ret;
   ret.resize(data_size());
-  real_t *w = &ret[0];
-  memcpy(w, _data, sizeof(real_t) * data_size());
+  real_t *w = ret.data();
+  if (data_size() > 0) {
+    memcpy(w, _data, sizeof(real_t) * data_size());
+  }
   return ret;
 }
 
diff --git a/core/mlpp_vector.cpp b/core/mlpp_vector.cpp
index 3b9f835..574f776 100644
--- a/core/mlpp_vector.cpp
+++ b/core/mlpp_vector.cpp
@@ -215,7 +215,9 @@ Vector<real_t> MLPPVector::to_vector() const {
 	Vector<real_t> ret;
 	ret.resize(size());
 	real_t *w = ret.ptrw();
-	memcpy(w, _data, sizeof(real_t) * _size);
+	if (_size > 0) {
+		memcpy(w, _data, sizeof(real_t) * _size);
+	}
 	return ret;
 }
 
@@ -237,7 +239,9 @@ Vector<uint8_t> MLPPVector::to_byte_array() const {
 	Vector<uint8_t> ret;
 	ret.resize(_size * sizeof(real_t));
 	uint8_t *w = ret.ptrw();
-	memcpy(w, _data, sizeof(real_t) * _size);
+	if (_size > 0) {
+		memcpy(w, _data, sizeof(real_t) * _size);
+	}
 	return ret;
 }
 
@@ -1542,8 +1546,10 @@ MLPPVector::~MLPPVector() {
 std::vector<real_t> MLPPVector::to_std_vector() const {
 	std::vector<real_t> ret;
 	ret.resize(size());
-	real_t *w = &ret[0];
-	memcpy(w, _data, sizeof(real_t) * _size);
+	real_t *w = ret.data();
+	if (_size > 0) {
+		memcpy(w, _data, sizeof(real_t) * _size);
+	}
 	return ret;
 }
 
-- 
2.43.0


From a71dd0b04753df46f8b5822504e0d426d166106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 030/325] fix: MLPPTensor3::z_slices_add_image grew the wrong
 axis

---
 core/mlpp_tensor3.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index af27012..3bf9735 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -733,18 +733,16 @@ void MLPPTensor3::z_slices_add_image(const Ref<Image> &p_img,
   ERR_FAIL_COND(channel_count == 0);
 
   if (unlikely(_size == Size3i())) {
-    resize(Size3i(img_size.x, img_size.y, channel_count));
+    resize(Size3i(img_size.x, img_size.y, 0));
   }
 
   Size2i fms = z_slice_size();
 
   ERR_FAIL_COND(img_size != fms);
 
-  int start_channel = _size.y;
+  int start_channel = _size.z;
 
-  _size.y += channel_count;
-
-  resize(_size);
+  resize(Size3i(_size.x, _size.y, _size.z + channel_count));
 
   Ref<Image> img = p_img;
 
-- 
2.43.0


From 013efceb66804e11c7682565f817299cfde85bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 031/325] fix: MLPPTensor3 x slice image conversions swapped
 coordinates

---
 core/mlpp_tensor3.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index 3bf9735..a73e67c 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -1154,7 +1154,7 @@ Ref<Image> MLPPTensor3::x_slice_get_image(const int p_index_x) const {
 
   for (int z = 0; z < _size.z; ++z) {
     for (int y = 0; y < _size.y; ++y) {
-      wptr[i] = static_cast<uint8_t>(element_get(z, p_index_x, y) * 255.0);
+      wptr[i] = static_cast<uint8_t>(element_get(z, y, p_index_x) * 255.0);
 
       ++i;
     }
@@ -1217,8 +1217,8 @@ void MLPPTensor3::x_slice_get_into_image(Ref<Image> p_target,
 
   p_target->lock();
 
-  for (int y = 0; y < fms.y; ++y) {
-    for (int z = 0; z < fms.x; ++z) {
+  for (int z = 0; z < fms.y; ++z) {
+    for (int y = 0; y < fms.x; ++y) {
       Color c;
 
       float e = element_get(z, y, p_index_x);
@@ -1227,7 +1227,7 @@ void MLPPTensor3::x_slice_get_into_image(Ref<Image> p_target,
         c[channels[i]] = e;
       }
 
-      p_target->set_pixel(z, y, c);
+      p_target->set_pixel(y, z, c);
     }
   }
 
@@ -1259,9 +1259,9 @@ void MLPPTensor3::x_slice_set_image(const Ref<Image> &p_img,
 
   img->lock();
 
-  for (int y = 0; y < fms.y; ++y) {
-    for (int z = 0; z < fms.x; ++z) {
-      Color c = img->get_pixel(z, y);
+  for (int z = 0; z < fms.y; ++z) {
+    for (int y = 0; y < fms.x; ++y) {
+      Color c = img->get_pixel(y, z);
 
       element_set(z, y, p_index_x, c[channel_index]);
     }
-- 
2.43.0


From 6b4481d5447f1a5df1daca225dc7f8d369e42d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 032/325] fix: MLPPTensor3 y slice image conversions swapped
 coordinates

---
 core/mlpp_tensor3.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index a73e67c..e551f65 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -1289,7 +1289,7 @@ Ref<Image> MLPPTensor3::y_slice_get_image(const int p_index_y) const {
 
   for (int z = 0; z < _size.z; ++z) {
     for (int x = 0; x < _size.x; ++x) {
-      wptr[i] = static_cast<uint8_t>(element_get(z, x, p_index_y) * 255.0);
+      wptr[i] = static_cast<uint8_t>(element_get(z, p_index_y, x) * 255.0);
 
       ++i;
     }
@@ -1352,8 +1352,8 @@ void MLPPTensor3::y_slice_get_into_image(Ref<Image> p_target,
 
   p_target->lock();
 
-  for (int x = 0; x < fms.y; ++x) {
-    for (int z = 0; z < fms.x; ++z) {
+  for (int z = 0; z < fms.y; ++z) {
+    for (int x = 0; x < fms.x; ++x) {
       Color c;
 
       float e = element_get(z, p_index_y, x);
@@ -1362,7 +1362,7 @@ void MLPPTensor3::y_slice_get_into_image(Ref<Image> p_target,
         c[channels[i]] = e;
       }
 
-      p_target->set_pixel(z, x, c);
+      p_target->set_pixel(x, z, c);
     }
   }
 
-- 
2.43.0


From 3798ca8f81c419078313b1fa893c37ea4d0afa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 033/325] fix: the determinant of a 1x1 matrix was 0

---
 core/lin_alg.cpp     | 4 +++-
 core/mlpp_matrix.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 9e81ea5..3000bc9 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -447,7 +447,9 @@ real_t MLPPLinAlg::detm(const Ref<MLPPMatrix> &A, int d) {
 	/* This is the base case in which the input is a 2x2 square matrix.
 	Recursion is performed unless and until we reach this base case,
 	such that we recieve a scalar as the result. */
-	if (d == 2) {
+	if (d == 1) {
+		return A->element_get(0, 0);
+	} else if (d == 2) {
 		return A->element_get(0, 0) * A->element_get(1, 1) - A->element_get(0, 1) * A->element_get(1, 0);
 	} else {
 		for (int i = 0; i < d; i++) {
diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 4c839ff..3120940 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1638,7 +1638,9 @@ real_t MLPPMatrix::detb(const Ref<MLPPMatrix> &A, int d) const {
 	/* This is the base case in which the input is a 2x2 square matrix.
 	Recursion is performed unless and until we reach this base case,
 	such that we recieve a scalar as the result. */
-	if (d == 2) {
+	if (d == 1) {
+		return A->element_get(0, 0);
+	} else if (d == 2) {
 		return A->element_get(0, 0) * A->element_get(1, 1) - A->element_get(0, 1) * A->element_get(1, 0);
 	} else {
 		Ref<MLPPMatrix> B;
-- 
2.43.0


From b3575a0bec96287036fadc47eac0d24af83db3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 034/325] fix: cofactor left the elements outside the minor
 uninitialised

---
 core/lin_alg.cpp     | 4 ++++
 core/mlpp_matrix.cpp | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 3000bc9..27889d1 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -486,8 +486,12 @@ real_t MLPPLinAlg::trace(std::vector<std::vector<real_t>> A) {
 
 Ref<MLPPMatrix> MLPPLinAlg::cofactornm(const Ref<MLPPMatrix> &A, int n, int i, int j) {
 	Ref<MLPPMatrix> cof;
+
+	ERR_FAIL_COND_V(!A.is_valid(), cof);
+
 	cof.instance();
 	cof->resize(A->size());
+	cof->fill(0);
 
 	int sub_i = 0;
 	int sub_j = 0;
diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 3120940..5976f34 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1686,6 +1686,7 @@ Ref<MLPPMatrix> MLPPMatrix::cofactor(int n, int i, int j) const {
 	Ref<MLPPMatrix> cof;
 	cof.instance();
 	cof->resize(_size);
+	cof->fill(0);
 
 	int sub_i = 0;
 	int sub_j = 0;
@@ -1712,6 +1713,8 @@ void MLPPMatrix::cofactoro(int n, int i, int j, Ref<MLPPMatrix> out) const {
 		out->resize(_size);
 	}
 
+	out->fill(0);
+
 	int sub_i = 0;
 	int sub_j = 0;
 
-- 
2.43.0


From e76eefb0bccf886762b9d30866062b5490d9a038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 035/325] fix: MLPPMatrix::adjointo was wrong when the target
 is the matrix itself

---
 core/mlpp_matrix.cpp | 32 ++------------------------------
 1 file changed, 2 insertions(+), 30 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 5976f34..43a9d08 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1777,36 +1777,8 @@ void MLPPMatrix::adjointo(Ref<MLPPMatrix> out) const {
 
 	ERR_FAIL_COND(_size.x != _size.y);
 
-	//Resizing the initial adjoint matrix
-
-	if (unlikely(out->size() != _size)) {
-		out->resize(_size);
-	}
-
-	// Checking for the case where the given N x N matrix is a scalar
-	if (_size.y == 1) {
-		out->element_set(0, 0, 1);
-		return;
-	}
-
-	if (_size.y == 2) {
-		out->element_set(0, 0, element_get(1, 1));
-		out->element_set(1, 1, element_get(0, 0));
-
-		out->element_set(0, 1, -element_get(0, 1));
-		out->element_set(1, 0, -element_get(1, 0));
-
-		return;
-	}
-
-	for (int i = 0; i < _size.y; i++) {
-		for (int j = 0; j < _size.x; j++) {
-			Ref<MLPPMatrix> cof = cofactor(_size.y, i, j);
-			// 1 if even, -1 if odd
-			int sign = (i + j) % 2 == 0 ? 1 : -1;
-			out->element_set(j, i, sign * cof->det(int(_size.y) - 1));
-		}
-	}
+	// Calculated separately, as out might be this matrix
+	out->set_from_mlpp_matrix(adjoint());
 }
 
 Ref<MLPPMatrix> MLPPMatrix::inverse() const {
-- 
2.43.0


From 4d977ed21e9d733ea2b34416f6f93800b7a7d395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 036/325] fix: MLPPMatrix::pinverse did not compute the left
 inverse

---
 core/mlpp_matrix.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 43a9d08..9ede667 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -1794,12 +1794,14 @@ void MLPPMatrix::inverseo(Ref<MLPPMatrix> out) const {
 }
 
 Ref<MLPPMatrix> MLPPMatrix::pinverse() const {
-	return multn(Ref<MLPPMatrix>(this))->transposen()->inverse()->multn(transposen());
+	Ref<MLPPMatrix> t = transposen();
+
+	return t->multn(Ref<MLPPMatrix>(this))->inverse()->multn(t);
 }
 void MLPPMatrix::pinverseo(Ref<MLPPMatrix> out) const {
 	ERR_FAIL_COND(!out.is_valid());
 
-	out->set_from_mlpp_matrix(multn(Ref<MLPPMatrix>(this))->transposen()->inverse()->multn(transposen()));
+	out->set_from_mlpp_matrix(pinverse());
 }
 
 Ref<MLPPMatrix> MLPPMatrix::matn_zero(int n, int m) const {
-- 
2.43.0


From 94fbf7f05971b8cf407d40c836c399570af65a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 037/325] fix: LinAlg inverse and solve did not check their
 operands

---
 core/lin_alg.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 27889d1..076af66 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -552,9 +552,14 @@ Ref<MLPPMatrix> MLPPLinAlg::adjointnm(const Ref<MLPPMatrix> &A) {
 	return adj;
 }
 Ref<MLPPMatrix> MLPPLinAlg::inversenm(const Ref<MLPPMatrix> &A) {
+	ERR_FAIL_COND_V(!A.is_valid(), Ref<MLPPMatrix>());
+	ERR_FAIL_COND_V(A->size().x != A->size().y, Ref<MLPPMatrix>());
+
 	return scalar_multiplynm(1 / detm(A, int(A->size().y)), adjointnm(A));
 }
 Ref<MLPPMatrix> MLPPLinAlg::pinversenm(const Ref<MLPPMatrix> &A) {
+	ERR_FAIL_COND_V(!A.is_valid(), Ref<MLPPMatrix>());
+
 	return matmultnm(inversenm(matmultnm(transposenm(A), A)), transposenm(A));
 }
 Ref<MLPPMatrix> MLPPLinAlg::zeromatnm(int n, int m) {
@@ -1034,7 +1039,9 @@ Ref<MLPPVector> MLPPLinAlg::flattenvvnv(const Ref<MLPPMatrix> &A) {
 }
 
 Ref<MLPPVector> MLPPLinAlg::solve(const Ref<MLPPMatrix> &A, const Ref<MLPPVector> &b) {
-	return A->inverse()->mult_vec(b);
+	ERR_FAIL_COND_V(!A.is_valid() || !b.is_valid(), Ref<MLPPVector>());
+
+	return A->solve(b);
 }
 
 bool MLPPLinAlg::positive_definite_checker(const Ref<MLPPMatrix> &A) {
-- 
2.43.0


From c3dfab8254ebd3ee798da2f8171b7b428028d556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 038/325] fix: the eigen decomposition did not diagonalise the
 matrix

---
 core/lin_alg.cpp     | 133 +------------------
 core/mlpp_matrix.cpp | 300 +++++++++++--------------------------------
 2 files changed, 77 insertions(+), 356 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 076af66..5b406f8 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -744,137 +744,10 @@ MLPPLinAlg::EigenResult MLPPLinAlg::eigen(Ref<MLPPMatrix> A) {
 
 	ERR_FAIL_COND_V(!A.is_valid(), res);
 
-	/*
-	A (the entered parameter) in most use cases will be X'X, XX', etc. and must be symmetric.
-	That simply means that 1) X' = X and 2) X is a square matrix. This function that computes the
-	eigenvalues of a matrix is utilizing Jacobi's method.
-	*/
+	MLPPMatrix::EigenResult eigen_res = A->eigen();
 
-	real_t diagonal = true; // Perform the iterative Jacobi algorithm unless and until we reach a diagonal matrix which yields us the eigenvals.
-
-	HashMap<int, int> val_to_vec;
-	Ref<MLPPMatrix> a_new;
-	Ref<MLPPMatrix> eigenvectors = identitym(A->size().y);
-	Size2i a_size = A->size();
-
-	do {
-		real_t a_ij = A->element_get(0, 1);
-		real_t sub_i = 0;
-		real_t sub_j = 1;
-		for (int i = 0; i < a_size.y; ++i) {
-			for (int j = 0; j < a_size.x; ++j) {
-				real_t ca_ij = A->element_get(i, j);
-				real_t abs_ca_ij = ABS(ca_ij);
-
-				if (i != j && abs_ca_ij > a_ij) {
-					a_ij = ca_ij;
-					sub_i = i;
-					sub_j = j;
-				} else if (i != j && abs_ca_ij == a_ij) {
-					if (i < sub_i) {
-						a_ij = ca_ij;
-						sub_i = i;
-						sub_j = j;
-					}
-				}
-			}
-		}
-
-		real_t a_ii = A->element_get(sub_i, sub_i);
-		real_t a_jj = A->element_get(sub_j, sub_j);
-		//real_t a_ji = A->element_get(sub_j, sub_i);
-		real_t theta;
-
-		if (a_ii == a_jj) {
-			theta = Math_PI / 4;
-		} else {
-			theta = 0.5 * atan(2 * a_ij / (a_ii - a_jj));
-		}
-
-		Ref<MLPPMatrix> P = identitym(A->size().y);
-		P->element_set(sub_i, sub_j, -Math::sin(theta));
-		P->element_set(sub_i, sub_i, Math::cos(theta));
-		P->element_set(sub_j, sub_j, Math::cos(theta));
-		P->element_set(sub_j, sub_i, Math::sin(theta));
-
-		a_new = matmultnm(matmultnm(inversenm(P), A), P);
-
-		Size2i a_new_size = a_new->size();
-
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					a_new->element_set(i, j, 0);
-				}
-			}
-		}
-
-		bool non_zero = false;
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					non_zero = true;
-				}
-			}
-		}
-
-		if (non_zero) {
-			diagonal = false;
-		} else {
-			diagonal = true;
-		}
-
-		if (a_new->is_equal_approx(A)) {
-			diagonal = true;
-			for (int i = 0; i < a_new_size.y; ++i) {
-				for (int j = 0; j < a_new_size.x; ++j) {
-					if (i != j) {
-						a_new->element_set(i, j, 0);
-					}
-				}
-			}
-		}
-
-		eigenvectors = matmultnm(eigenvectors, P);
-		A = a_new;
-
-	} while (!diagonal);
-
-	Ref<MLPPMatrix> a_new_prior = a_new->duplicate_fast();
-
-	Size2i a_new_size = a_new->size();
-
-	// Bubble Sort. Should change this later.
-	for (int i = 0; i < a_new_size.y - 1; ++i) {
-		for (int j = 0; j < a_new_size.x - 1 - i; ++j) {
-			if (a_new->element_get(j, j) < a_new->element_get(j + 1, j + 1)) {
-				real_t temp = a_new->element_get(j + 1, j + 1);
-				a_new->element_set(j + 1, j + 1, a_new->element_get(j, j));
-				a_new->element_set(j, j, temp);
-			}
-		}
-	}
-
-	for (int i = 0; i < a_new_size.y; ++i) {
-		for (int j = 0; j < a_new_size.x; ++j) {
-			if (a_new->element_get(i, i) == a_new_prior->element_get(j, j)) {
-				val_to_vec[i] = j;
-			}
-		}
-	}
-
-	Ref<MLPPMatrix> eigen_temp = eigenvectors->duplicate_fast();
-
-	Size2i eigenvectors_size = eigenvectors->size();
-
-	for (int i = 0; i < eigenvectors_size.y; ++i) {
-		for (int j = 0; j < eigenvectors_size.x; ++j) {
-			eigenvectors->element_set(i, j, eigen_temp->element_get(i, val_to_vec[j]));
-		}
-	}
-
-	res.eigen_vectors = eigenvectors;
-	res.eigen_values = a_new;
+	res.eigen_vectors = eigen_res.eigen_vectors;
+	res.eigen_values = eigen_res.eigen_values;
 
 	return res;
 }
diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 9ede667..93d00f4 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2245,143 +2245,94 @@ void MLPPMatrix::covo(Ref<MLPPMatrix> out) const {
 	}
 }
 
-MLPPMatrix::EigenResult MLPPMatrix::eigen() const {
-	EigenResult res;
-
-	/*
-	A (the entered parameter) in most use cases will be X'X, XX', etc. and must be symmetric.
-	That simply means that 1) X' = X and 2) X is a square matrix. This function that computes the
-	eigenvalues of a matrix is utilizing Jacobi's method.
-	*/
-
-	real_t diagonal = true; // Perform the iterative Jacobi algorithm unless and until we reach a diagonal matrix which yields us the eigenvals.
-
-	HashMap<int, int> val_to_vec;
-	Ref<MLPPMatrix> a_new;
-	Ref<MLPPMatrix> a_mat = Ref<MLPPMatrix>(this);
-	Ref<MLPPMatrix> eigenvectors = identity_mat(a_mat->size().y);
-	Size2i a_size = a_mat->size();
-
-	do {
-		real_t a_ij = a_mat->element_get(0, 1);
-		real_t sub_i = 0;
-		real_t sub_j = 1;
-		for (int i = 0; i < a_size.y; ++i) {
-			for (int j = 0; j < a_size.x; ++j) {
-				real_t ca_ij = a_mat->element_get(i, j);
-				real_t abs_ca_ij = ABS(ca_ij);
-
-				if (i != j && abs_ca_ij > a_ij) {
-					a_ij = ca_ij;
-					sub_i = i;
-					sub_j = j;
-				} else if (i != j && abs_ca_ij == a_ij) {
-					if (i < sub_i) {
-						a_ij = ca_ij;
-						sub_i = i;
-						sub_j = j;
-					}
-				}
-			}
-		}
-
-		real_t a_ii = a_mat->element_get(sub_i, sub_i);
-		real_t a_jj = a_mat->element_get(sub_j, sub_j);
-		//real_t a_ji = a_mat->element_get(sub_j, sub_i);
-		real_t theta;
+// Jacobi's method for a symmetric n x n matrix. r_a becomes diagonal, the columns of r_vectors are
+// the orthonormal eigenvectors, both are sorted so the largest eigenvalue comes first.
+static void _jacobi_eigen(int n, std::vector<double> &r_a, std::vector<double> &r_vectors) {
+	r_vectors.assign(static_cast<size_t>(n) * n, 0);
 
-		if (a_ii == a_jj) {
-			theta = Math_PI / 4;
-		} else {
-			theta = 0.5 * atan(2 * a_ij / (a_ii - a_jj));
-		}
+	for (int i = 0; i < n; ++i) {
+		r_vectors[i * n + i] = 1;
+	}
 
-		Ref<MLPPMatrix> P = identity_mat(a_mat->size().y);
-		P->element_set(sub_i, sub_j, -Math::sin(theta));
-		P->element_set(sub_i, sub_i, Math::cos(theta));
-		P->element_set(sub_j, sub_j, Math::cos(theta));
-		P->element_set(sub_j, sub_i, Math::sin(theta));
+	const int max_sweeps = 100;
 
-		a_new = P->inverse()->multn(a_mat)->multn(P);
+	for (int sweep = 0; sweep < max_sweeps; ++sweep) {
+		double off_diagonal = 0;
+		double all = 0;
 
-		Size2i a_new_size = a_new->size();
+		for (int i = 0; i < n; ++i) {
+			for (int j = 0; j < n; ++j) {
+				double e = r_a[i * n + j] * r_a[i * n + j];
+				all += e;
 
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					a_new->element_set(i, j, 0);
+				if (i != j) {
+					off_diagonal += e;
 				}
 			}
 		}
 
-		bool non_zero = false;
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					non_zero = true;
-				}
-			}
+		if (!(off_diagonal > all * 1e-30)) {
+			break;
 		}
 
-		if (non_zero) {
-			diagonal = false;
-		} else {
-			diagonal = true;
-		}
+		for (int p = 0; p < n - 1; ++p) {
+			for (int q = p + 1; q < n; ++q) {
+				double a_pq = r_a[p * n + q];
 
-		if (a_new->is_equal_approx(a_mat)) {
-			diagonal = true;
-			for (int i = 0; i < a_new_size.y; ++i) {
-				for (int j = 0; j < a_new_size.x; ++j) {
-					if (i != j) {
-						a_new->element_set(i, j, 0);
-					}
+				if (a_pq == 0) {
+					continue;
 				}
-			}
-		}
-
-		eigenvectors = eigenvectors->multn(P);
-		a_mat = a_new;
 
-	} while (!diagonal);
+				double theta = 0.5 * atan2(2 * a_pq, r_a[q * n + q] - r_a[p * n + p]);
+				double c = cos(theta);
+				double s = sin(theta);
 
-	Ref<MLPPMatrix> a_new_prior = a_new->duplicate_fast();
+				for (int k = 0; k < n; ++k) {
+					double a_kp = r_a[k * n + p];
+					double a_kq = r_a[k * n + q];
+					r_a[k * n + p] = c * a_kp - s * a_kq;
+					r_a[k * n + q] = s * a_kp + c * a_kq;
+				}
 
-	Size2i a_new_size = a_new->size();
+				for (int k = 0; k < n; ++k) {
+					double a_pk = r_a[p * n + k];
+					double a_qk = r_a[q * n + k];
+					r_a[p * n + k] = c * a_pk - s * a_qk;
+					r_a[q * n + k] = s * a_pk + c * a_qk;
+				}
 
-	// Bubble Sort. Should change this later.
-	for (int i = 0; i < a_new_size.y - 1; ++i) {
-		for (int j = 0; j < a_new_size.x - 1 - i; ++j) {
-			if (a_new->element_get(j, j) < a_new->element_get(j + 1, j + 1)) {
-				real_t temp = a_new->element_get(j + 1, j + 1);
-				a_new->element_set(j + 1, j + 1, a_new->element_get(j, j));
-				a_new->element_set(j, j, temp);
+				for (int k = 0; k < n; ++k) {
+					double v_kp = r_vectors[k * n + p];
+					double v_kq = r_vectors[k * n + q];
+					r_vectors[k * n + p] = c * v_kp - s * v_kq;
+					r_vectors[k * n + q] = s * v_kp + c * v_kq;
+				}
 			}
 		}
 	}
 
-	for (int i = 0; i < a_new_size.y; ++i) {
-		for (int j = 0; j < a_new_size.x; ++j) {
-			if (a_new->element_get(i, i) == a_new_prior->element_get(j, j)) {
-				val_to_vec[i] = j;
+	// Selection sort, together with the eigenvectors.
+	for (int i = 0; i < n - 1; ++i) {
+		int largest = i;
+
+		for (int j = i + 1; j < n; ++j) {
+			if (r_a[j * n + j] > r_a[largest * n + largest]) {
+				largest = j;
 			}
 		}
-	}
-
-	Ref<MLPPMatrix> eigen_temp = eigenvectors->duplicate_fast();
 
-	Size2i eigenvectors_size = eigenvectors->size();
+		if (largest != i) {
+			SWAP(r_a[i * n + i], r_a[largest * n + largest]);
 
-	for (int i = 0; i < eigenvectors_size.y; ++i) {
-		for (int j = 0; j < eigenvectors_size.x; ++j) {
-			eigenvectors->element_set(i, j, eigen_temp->element_get(i, val_to_vec[j]));
+			for (int k = 0; k < n; ++k) {
+				SWAP(r_vectors[k * n + i], r_vectors[k * n + largest]);
+			}
 		}
 	}
+}
 
-	res.eigen_vectors = eigenvectors;
-	res.eigen_values = a_new;
-
-	return res;
+MLPPMatrix::EigenResult MLPPMatrix::eigen() const {
+	return eigenb(Ref<MLPPMatrix>(this));
 }
 MLPPMatrix::EigenResult MLPPMatrix::eigenb(const Ref<MLPPMatrix> &A) const {
 	EigenResult res;
@@ -2394,133 +2345,30 @@ MLPPMatrix::EigenResult MLPPMatrix::eigenb(const Ref<MLPPMatrix> &A) const {
 	eigenvalues of a matrix is utilizing Jacobi's method.
 	*/
 
-	real_t diagonal = true; // Perform the iterative Jacobi algorithm unless and until we reach a diagonal matrix which yields us the eigenvals.
-
-	HashMap<int, int> val_to_vec;
-	Ref<MLPPMatrix> a_new;
-	Ref<MLPPMatrix> a_mat = A;
-	Ref<MLPPMatrix> eigenvectors = identity_mat(a_mat->size().y);
-	Size2i a_size = a_mat->size();
-
-	do {
-		real_t a_ij = a_mat->element_get(0, 1);
-		real_t sub_i = 0;
-		real_t sub_j = 1;
-		for (int i = 0; i < a_size.y; ++i) {
-			for (int j = 0; j < a_size.x; ++j) {
-				real_t ca_ij = a_mat->element_get(i, j);
-				real_t abs_ca_ij = ABS(ca_ij);
-
-				if (i != j && abs_ca_ij > a_ij) {
-					a_ij = ca_ij;
-					sub_i = i;
-					sub_j = j;
-				} else if (i != j && abs_ca_ij == a_ij) {
-					if (i < sub_i) {
-						a_ij = ca_ij;
-						sub_i = i;
-						sub_j = j;
-					}
-				}
-			}
-		}
-
-		real_t a_ii = a_mat->element_get(sub_i, sub_i);
-		real_t a_jj = a_mat->element_get(sub_j, sub_j);
-		//real_t a_ji = a_mat->element_get(sub_j, sub_i);
-		real_t theta;
-
-		if (a_ii == a_jj) {
-			theta = Math_PI / 4;
-		} else {
-			theta = 0.5 * atan(2 * a_ij / (a_ii - a_jj));
-		}
-
-		Ref<MLPPMatrix> P = identity_mat(a_mat->size().y);
-		P->element_set(sub_i, sub_j, -Math::sin(theta));
-		P->element_set(sub_i, sub_i, Math::cos(theta));
-		P->element_set(sub_j, sub_j, Math::cos(theta));
-		P->element_set(sub_j, sub_i, Math::sin(theta));
-
-		a_new = P->inverse()->multn(a_mat)->multn(P);
-
-		Size2i a_new_size = a_new->size();
-
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					a_new->element_set(i, j, 0);
-				}
-			}
-		}
-
-		bool non_zero = false;
-		for (int i = 0; i < a_new_size.y; ++i) {
-			for (int j = 0; j < a_new_size.x; ++j) {
-				if (i != j && Math::is_zero_approx(Math::round(a_new->element_get(i, j)))) {
-					non_zero = true;
-				}
-			}
-		}
-
-		if (non_zero) {
-			diagonal = false;
-		} else {
-			diagonal = true;
-		}
-
-		if (a_new->is_equal_approx(a_mat)) {
-			diagonal = true;
-			for (int i = 0; i < a_new_size.y; ++i) {
-				for (int j = 0; j < a_new_size.x; ++j) {
-					if (i != j) {
-						a_new->element_set(i, j, 0);
-					}
-				}
-			}
-		}
-
-		eigenvectors = eigenvectors->multn(P);
-		a_mat = a_new;
-
-	} while (!diagonal);
+	Size2i a_size = A->size();
 
-	Ref<MLPPMatrix> a_new_prior = a_new->duplicate_fast();
+	ERR_FAIL_COND_V(a_size.x != a_size.y, res);
 
-	Size2i a_new_size = a_new->size();
+	int n = a_size.y;
 
-	// Bubble Sort. Should change this later.
-	for (int i = 0; i < a_new_size.y - 1; ++i) {
-		for (int j = 0; j < a_new_size.x - 1 - i; ++j) {
-			if (a_new->element_get(j, j) < a_new->element_get(j + 1, j + 1)) {
-				real_t temp = a_new->element_get(j + 1, j + 1);
-				a_new->element_set(j + 1, j + 1, a_new->element_get(j, j));
-				a_new->element_set(j, j, temp);
-			}
-		}
-	}
+	const real_t *a_ptr = A->ptr();
+	std::vector<double> a(a_ptr, a_ptr + A->data_size());
+	std::vector<double> vectors;
 
-	for (int i = 0; i < a_new_size.y; ++i) {
-		for (int j = 0; j < a_new_size.x; ++j) {
-			if (a_new->element_get(i, i) == a_new_prior->element_get(j, j)) {
-				val_to_vec[i] = j;
-			}
-		}
-	}
+	_jacobi_eigen(n, a, vectors);
 
-	Ref<MLPPMatrix> eigen_temp = eigenvectors->duplicate_fast();
+	res.eigen_vectors.instance();
+	res.eigen_vectors->resize(a_size);
+	res.eigen_values = matn_zero(n, n);
 
-	Size2i eigenvectors_size = eigenvectors->size();
+	for (int i = 0; i < n; ++i) {
+		res.eigen_values->element_set(i, i, a[i * n + i]);
 
-	for (int i = 0; i < eigenvectors_size.y; ++i) {
-		for (int j = 0; j < eigenvectors_size.x; ++j) {
-			eigenvectors->element_set(i, j, eigen_temp->element_get(i, val_to_vec[j]));
+		for (int j = 0; j < n; ++j) {
+			res.eigen_vectors->element_set(i, j, vectors[i * n + j]);
 		}
 	}
 
-	res.eigen_vectors = eigenvectors;
-	res.eigen_values = a_new;
-
 	return res;
 }
 Array MLPPMatrix::eigen_bind() {
-- 
2.43.0


From 69d9ba1811afd580dfee3795b962519f3681cc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 039/325] fix: the singular value decomposition did not
 reproduce the matrix

---
 core/lin_alg.cpp     | 22 ++--------
 core/mlpp_matrix.cpp | 95 +++++++++++++++++++++++++++++++-------------
 2 files changed, 71 insertions(+), 46 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 5b406f8..ebaec39 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -757,25 +757,11 @@ MLPPLinAlg::SVDResult MLPPLinAlg::svd(const Ref<MLPPMatrix> &A) {
 
 	ERR_FAIL_COND_V(!A.is_valid(), res);
 
-	Size2i a_size = A->size();
-
-	EigenResult left_eigen = eigen(matmultnm(A, transposenm(A)));
-	EigenResult right_eigen = eigen(matmultnm(transposenm(A), A));
-
-	Ref<MLPPMatrix> singularvals = sqrtnm(left_eigen.eigen_values);
-	Ref<MLPPMatrix> sigma = zeromatnm(a_size.y, a_size.x);
-
-	Size2i sigma_size = sigma->size();
-
-	for (int i = 0; i < sigma_size.y; ++i) {
-		for (int j = 0; j < sigma_size.x; ++j) {
-			sigma->element_set(i, j, singularvals->element_get(i, j));
-		}
-	}
+	MLPPMatrix::SVDResult svd_res = A->svd();
 
-	res.U = left_eigen.eigen_vectors;
-	res.S = sigma;
-	res.Vt = right_eigen.eigen_vectors;
+	res.U = svd_res.U;
+	res.S = svd_res.S;
+	res.Vt = svd_res.Vt;
 
 	return res;
 }
diff --git a/core/mlpp_matrix.cpp b/core/mlpp_matrix.cpp
index 93d00f4..d412496 100644
--- a/core/mlpp_matrix.cpp
+++ b/core/mlpp_matrix.cpp
@@ -2395,53 +2395,92 @@ Array MLPPMatrix::eigenb_bind(const Ref<MLPPMatrix> &A) {
 }
 
 MLPPMatrix::SVDResult MLPPMatrix::svd() const {
+	return svdb(Ref<MLPPMatrix>(this));
+}
+
+MLPPMatrix::SVDResult MLPPMatrix::svdb(const Ref<MLPPMatrix> &A) const {
 	SVDResult res;
 
-	EigenResult left_eigen = multn(transposen())->eigen();
-	EigenResult right_eigen = transposen()->multn(Ref<MLPPMatrix>(this))->eigen();
+	ERR_FAIL_COND_V(!A.is_valid(), res);
 
-	Ref<MLPPMatrix> singularvals = left_eigen.eigen_values->sqrtn();
-	Ref<MLPPMatrix> sigma = matn_zero(_size.y, _size.x);
+	Size2i a_size = A->size();
 
-	Size2i singularvals_size = singularvals->size();
+	int m = a_size.y;
+	int n = a_size.x;
+	const real_t *a_ptr = A->ptr();
+
+	// A * At, and At * A
+	std::vector<double> left(static_cast<size_t>(m) * m, 0);
+	std::vector<double> right(static_cast<size_t>(n) * n, 0);
 
-	for (int i = 0; i < singularvals_size.y; ++i) {
-		for (int j = 0; j < singularvals_size.x; ++j) {
-			sigma->element_set(i, j, singularvals->element_get(i, j));
+	for (int i = 0; i < m; ++i) {
+		for (int j = 0; j < m; ++j) {
+			for (int k = 0; k < n; ++k) {
+				left[i * m + j] += static_cast<double>(a_ptr[i * n + k]) * a_ptr[j * n + k];
+			}
 		}
 	}
 
-	res.U = left_eigen.eigen_vectors;
-	res.S = sigma;
-	res.Vt = right_eigen.eigen_vectors;
+	for (int i = 0; i < n; ++i) {
+		for (int j = 0; j < n; ++j) {
+			for (int k = 0; k < m; ++k) {
+				right[i * n + j] += static_cast<double>(a_ptr[k * n + i]) * a_ptr[k * n + j];
+			}
+		}
+	}
 
-	return res;
-}
+	std::vector<double> u;
+	std::vector<double> v;
+	_jacobi_eigen(m, left, u);
+	_jacobi_eigen(n, right, v);
 
-MLPPMatrix::SVDResult MLPPMatrix::svdb(const Ref<MLPPMatrix> &A) const {
-	SVDResult res;
+	res.S = matn_zero(m, n);
 
-	ERR_FAIL_COND_V(!A.is_valid(), res);
+	double largest = 0;
 
-	Size2i a_size = A->size();
+	for (int i = 0; i < MIN(m, n); ++i) {
+		// Singular value and left singular vector that belong to this right singular vector.
+		std::vector<double> av(m, 0);
+		double norm_sq = 0;
 
-	EigenResult left_eigen = A->multn(A->transposen())->eigen();
-	EigenResult right_eigen = A->transposen()->multn(A)->eigen();
+		for (int j = 0; j < m; ++j) {
+			for (int k = 0; k < n; ++k) {
+				av[j] += a_ptr[j * n + k] * v[k * n + i];
+			}
 
-	Ref<MLPPMatrix> singularvals = left_eigen.eigen_values->sqrtn();
-	Ref<MLPPMatrix> sigma = matn_zero(a_size.y, a_size.x);
+			norm_sq += av[j] * av[j];
+		}
+
+		double sigma = Math::sqrt(norm_sq);
+		largest = MAX(largest, sigma);
+
+		if (sigma <= largest * 1e-7) {
+			// The remaining columns of u span the null space of At.
+			break;
+		}
 
-	Size2i singularvals_size = singularvals->size();
+		res.S->element_set(i, i, sigma);
 
-	for (int i = 0; i < singularvals_size.y; ++i) {
-		for (int j = 0; j < singularvals_size.x; ++j) {
-			sigma->element_set(i, j, singularvals->element_get(i, j));
+		for (int j = 0; j < m; ++j) {
+			u[j * m + i] = av[j] / sigma;
 		}
 	}
 
-	res.U = left_eigen.eigen_vectors;
-	res.S = sigma;
-	res.Vt = right_eigen.eigen_vectors;
+	res.U.instance();
+	res.U->resize(Size2i(m, m));
+
+	for (int i = 0; i < m * m; ++i) {
+		res.U->element_set_index(i, u[i]);
+	}
+
+	res.Vt.instance();
+	res.Vt->resize(Size2i(n, n));
+
+	for (int i = 0; i < n; ++i) {
+		for (int j = 0; j < n; ++j) {
+			res.Vt->element_set(j, i, v[i * n + j]);
+		}
+	}
 
 	return res;
 }
-- 
2.43.0


From c142071706dd82298b6fb8c83146d0e78dd962d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 040/325] fix: zero_eigenvalue returned the opposite of its
 question

---
 core/lin_alg.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index ebaec39..6e16e81 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -906,6 +906,8 @@ Ref<MLPPVector> MLPPLinAlg::solve(const Ref<MLPPMatrix> &A, const Ref<MLPPVector
 bool MLPPLinAlg::positive_definite_checker(const Ref<MLPPMatrix> &A) {
 	EigenResult eig_result = eigen(A);
 
+	ERR_FAIL_COND_V(!eig_result.eigen_values.is_valid(), false);
+
 	Ref<MLPPMatrix> eigenvals = eig_result.eigen_values;
 	Size2i eigenvals_size = eigenvals->size();
 
@@ -921,6 +923,8 @@ bool MLPPLinAlg::positive_definite_checker(const Ref<MLPPMatrix> &A) {
 bool MLPPLinAlg::negative_definite_checker(const Ref<MLPPMatrix> &A) {
 	EigenResult eig_result = eigen(A);
 
+	ERR_FAIL_COND_V(!eig_result.eigen_values.is_valid(), false);
+
 	Ref<MLPPMatrix> eigenvals = eig_result.eigen_values;
 	Size2i eigenvals_size = eigenvals->size();
 
@@ -936,16 +940,24 @@ bool MLPPLinAlg::negative_definite_checker(const Ref<MLPPMatrix> &A) {
 bool MLPPLinAlg::zero_eigenvalue(const Ref<MLPPMatrix> &A) {
 	EigenResult eig_result = eigen(A);
 
+	ERR_FAIL_COND_V(!eig_result.eigen_values.is_valid(), false);
+
 	Ref<MLPPMatrix> eigenvals = eig_result.eigen_values;
 	Size2i eigenvals_size = eigenvals->size();
 
+	real_t largest = 0;
+
 	for (int i = 0; i < eigenvals_size.y; ++i) {
-		if (eigenvals->element_get(i, i) == 0) { // TODO should it use is_equal_approx?
-			return false;
+		largest = MAX(largest, ABS(eigenvals->element_get(i, i)));
+	}
+
+	for (int i = 0; i < eigenvals_size.y; ++i) {
+		if (ABS(eigenvals->element_get(i, i)) <= largest * CMP_EPSILON) {
+			return true;
 		}
 	}
 
-	return true;
+	return false;
 }
 
 Ref<MLPPVector> MLPPLinAlg::flattenmnv(const Vector<Ref<MLPPVector>> &A) {
-- 
2.43.0


From 77713e421f0f6c76455fe07de2cefbfcabb144a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 041/325] fix: linear_independence_checker looked at the wrong
 minor

---
 core/lin_alg.cpp | 50 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 6e16e81..eb75d37 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -43,12 +43,58 @@
 #include <random>
 
 Ref<MLPPMatrix> MLPPLinAlg::gram_matrix(const Ref<MLPPMatrix> &A) {
+	ERR_FAIL_COND_V(!A.is_valid(), Ref<MLPPMatrix>());
+
 	return A->transposen()->multn(A); // AtA
 }
 
 bool MLPPLinAlg::linear_independence_checker(const Ref<MLPPMatrix> &A) {
-	if (gram_matrix(A)->det(A->size().y) == 0) {
-		return false;
+	ERR_FAIL_COND_V(!A.is_valid(), false);
+
+	// Gram-Schmidt on the rows: a row without anything left is a combination of the previous ones.
+	Size2i a_size = A->size();
+	const real_t *a_ptr = A->ptr();
+	std::vector<double> basis(a_ptr, a_ptr + A->data_size());
+
+	for (int i = 0; i < a_size.y; ++i) {
+		double *row = basis.data() + i * a_size.x;
+		double norm_sq = 0;
+
+		for (int k = 0; k < a_size.x; ++k) {
+			norm_sq += row[k] * row[k];
+		}
+
+		// The basis rows before this one have unit length. Repeated for accuracy.
+		for (int repeat = 0; repeat < 2; ++repeat) {
+			for (int j = 0; j < i; ++j) {
+				const double *other = basis.data() + j * a_size.x;
+				double dot = 0;
+
+				for (int k = 0; k < a_size.x; ++k) {
+					dot += row[k] * other[k];
+				}
+
+				for (int k = 0; k < a_size.x; ++k) {
+					row[k] -= dot * other[k];
+				}
+			}
+		}
+
+		double rest_sq = 0;
+
+		for (int k = 0; k < a_size.x; ++k) {
+			rest_sq += row[k] * row[k];
+		}
+
+		if (rest_sq <= norm_sq * 1e-12) {
+			return false;
+		}
+
+		double rest = Math::sqrt(rest_sq);
+
+		for (int k = 0; k < a_size.x; ++k) {
+			row[k] /= rest;
+		}
 	}
 
 	return true;
-- 
2.43.0


From f601671c32c33fe064b4d68e1273b0b87bf1e4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 042/325] fix: LinAlg factorisations did not check their
 operands

---
 core/lin_alg.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index eb75d37..fc272e0 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -813,12 +813,17 @@ MLPPLinAlg::SVDResult MLPPLinAlg::svd(const Ref<MLPPMatrix> &A) {
 }
 
 Ref<MLPPVector> MLPPLinAlg::vector_projection(const Ref<MLPPVector> &a, const Ref<MLPPVector> &b) {
+	ERR_FAIL_COND_V(!a.is_valid() || !b.is_valid(), Ref<MLPPVector>());
+	ERR_FAIL_COND_V(a->size() != b->size(), Ref<MLPPVector>());
+
 	real_t product = a->dot(b) / a->dot(a);
 
 	return a->scalar_multiplyn(product); // Projection of vector a onto b. Denotated as proj_a(b).
 }
 
 Ref<MLPPMatrix> MLPPLinAlg::gram_schmidt_process(const Ref<MLPPMatrix> &p_A) {
+	ERR_FAIL_COND_V(!p_A.is_valid() || p_A->data_size() == 0, Ref<MLPPMatrix>());
+
 	Ref<MLPPMatrix> A = p_A->transposen();
 	Size2i a_size = A->size();
 
@@ -869,6 +874,8 @@ Ref<MLPPMatrix> MLPPLinAlg::gram_schmidt_process(const Ref<MLPPMatrix> &p_A) {
 MLPPLinAlg::QRDResult MLPPLinAlg::qrd(const Ref<MLPPMatrix> &A) {
 	QRDResult res;
 
+	ERR_FAIL_COND_V(!A.is_valid() || A->data_size() == 0, res);
+
 	res.Q = gram_schmidt_process(A);
 	res.R = res.Q->transposen()->multn(A);
 
@@ -876,10 +883,12 @@ MLPPLinAlg::QRDResult MLPPLinAlg::qrd(const Ref<MLPPMatrix> &A) {
 }
 
 MLPPLinAlg::CholeskyResult MLPPLinAlg::cholesky(const Ref<MLPPMatrix> &A) {
-	Size2i a_size = A->size();
-
 	CholeskyResult res;
 
+	ERR_FAIL_COND_V(!A.is_valid(), res);
+
+	Size2i a_size = A->size();
+
 	ERR_FAIL_COND_V(a_size.x != a_size.y, res);
 
 	Ref<MLPPMatrix> L = zeromatnm(a_size.y, a_size.x);
-- 
2.43.0


From 974b629a1c3da5b356b74037534f7ce0919c4eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 043/325] fix: LinAlg maxnm did not check its operands

---
 core/lin_alg.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index fc272e0..27c78f5 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1495,6 +1495,10 @@ Ref<MLPPVector> MLPPLinAlg::cosnv(const Ref<MLPPVector> &a) {
 }
 
 Ref<MLPPMatrix> MLPPLinAlg::maxnm(const Ref<MLPPMatrix> &A, const Ref<MLPPMatrix> &B) {
+	ERR_FAIL_COND_V(!A.is_valid() || !B.is_valid(), Ref<MLPPMatrix>());
+	ERR_FAIL_COND_V(A->size() != B->size(), Ref<MLPPMatrix>());
+
+
 	Ref<MLPPMatrix> C;
 	C.instance();
 	C->resize(A->size());
-- 
2.43.0


From 404de0bd2341f5b9caffe07f29f8809735e66542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 044/325] fix: LinAlg covnm was wrong for non-square matrices

---
 core/lin_alg.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 27c78f5..8e4be1d 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -755,6 +755,8 @@ Ref<MLPPMatrix> MLPPLinAlg::identitym(int d) {
 }
 
 Ref<MLPPMatrix> MLPPLinAlg::covnm(const Ref<MLPPMatrix> &A) {
+	ERR_FAIL_COND_V(!A.is_valid(), Ref<MLPPMatrix>());
+
 	MLPPStat stat;
 
 	Ref<MLPPMatrix> cov_mat;
@@ -762,7 +764,7 @@ Ref<MLPPMatrix> MLPPLinAlg::covnm(const Ref<MLPPMatrix> &A) {
 
 	Size2i a_size = A->size();
 
-	cov_mat->resize(a_size);
+	cov_mat->resize(Size2i(a_size.y, a_size.y));
 
 	Ref<MLPPVector> a_i_row_tmp;
 	a_i_row_tmp.instance();
@@ -775,7 +777,7 @@ Ref<MLPPMatrix> MLPPLinAlg::covnm(const Ref<MLPPMatrix> &A) {
 	for (int i = 0; i < a_size.y; ++i) {
 		A->row_get_into_mlpp_vector(i, a_i_row_tmp);
 
-		for (int j = 0; j < a_size.x; ++j) {
+		for (int j = 0; j < a_size.y; ++j) {
 			A->row_get_into_mlpp_vector(j, a_j_row_tmp);
 
 			cov_mat->element_set(i, j, stat.covariancev(a_i_row_tmp, a_j_row_tmp));
-- 
2.43.0


From 6380c6d804b39bc3605700a05fc4852150df9d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 045/325] fix: LinAlg absnvt returned its argument

---
 core/lin_alg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 8e4be1d..2bab078 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1894,7 +1894,7 @@ Vector<Ref<MLPPMatrix>> MLPPLinAlg::absnvt(const Vector<Ref<MLPPMatrix>> &A) {
 		res.write[i] = absnm(A[i]);
 	}
 
-	return A;
+	return res;
 }
 
 /*
-- 
2.43.0


From 0a2d403397df0d58513b01d1b7a91cf4a6281edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 046/325] fix: several LinAlg operations dereferenced missing
 operands

---
 core/lin_alg.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 2bab078..4d65921 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -288,6 +288,9 @@ Ref<MLPPMatrix> MLPPLinAlg::division_element_wisenvnm(const Ref<MLPPMatrix> &A,
 }
 
 Ref<MLPPMatrix> MLPPLinAlg::transposenm(const Ref<MLPPMatrix> &A) {
+	ERR_FAIL_COND_V(!A.is_valid(), Ref<MLPPMatrix>());
+
+
 	Size2i a_size = A->size();
 
 	Ref<MLPPMatrix> AT;
@@ -306,6 +309,9 @@ Ref<MLPPMatrix> MLPPLinAlg::transposenm(const Ref<MLPPMatrix> &A) {
 	return AT;
 }
 Ref<MLPPMatrix> MLPPLinAlg::scalar_multiplynm(real_t scalar, const Ref<MLPPMatrix> &A) {
+	ERR_FAIL_COND_V(!A.is_valid(), Ref<MLPPMatrix>());
+
+
 	Ref<MLPPMatrix> AN = A->duplicate_fast();
 	Size2i a_size = AN->size();
 	real_t *an_ptr = AN->ptrw();
@@ -320,6 +326,9 @@ Ref<MLPPMatrix> MLPPLinAlg::scalar_multiplynm(real_t scalar, const Ref<MLPPMatri
 }
 
 Ref<MLPPMatrix> MLPPLinAlg::scalar_addnm(real_t scalar, const Ref<MLPPMatrix> &A) {
+	ERR_FAIL_COND_V(!A.is_valid(), Ref<MLPPMatrix>());
+
+
 	Ref<MLPPMatrix> AN = A->duplicate_fast();
 	Size2i a_size = AN->size();
 	real_t *an_ptr = AN->ptrw();
@@ -938,6 +947,9 @@ real_t MLPPLinAlg::sum_elements(std::vector<std::vector<real_t>> A) {
 */
 
 Ref<MLPPVector> MLPPLinAlg::flattenvvnv(const Ref<MLPPMatrix> &A) {
+	ERR_FAIL_COND_V(!A.is_valid(), Ref<MLPPVector>());
+
+
 	int data_size = A->data_size();
 
 	Ref<MLPPVector> res;
@@ -1385,6 +1397,9 @@ Ref<MLPPVector> MLPPLinAlg::cbrtnv(const Ref<MLPPVector> &a) {
 }
 
 real_t MLPPLinAlg::dotnv(const Ref<MLPPVector> &a, const Ref<MLPPVector> &b) {
+	ERR_FAIL_COND_V(!a.is_valid() || !b.is_valid(), 0);
+
+
 	int a_size = a->size();
 
 	ERR_FAIL_COND_V(a_size != b->size(), 0);
@@ -1627,6 +1642,9 @@ real_t MLPPLinAlg::norm_sqv(const Ref<MLPPVector> &a) {
 }
 
 real_t MLPPLinAlg::sum_elementsv(const Ref<MLPPVector> &a) {
+	ERR_FAIL_COND_V(!a.is_valid(), 0);
+
+
 	int a_size = a->size();
 
 	const real_t *a_ptr = a->ptr();
@@ -1673,6 +1691,9 @@ Ref<MLPPVector> MLPPLinAlg::mat_vec_multnv(const Ref<MLPPMatrix> &A, const Ref<M
 }
 
 Ref<MLPPVector> MLPPLinAlg::subtract_matrix_rowsnv(const Ref<MLPPVector> &a, const Ref<MLPPMatrix> &B) {
+	ERR_FAIL_COND_V(!a.is_valid() || !B.is_valid(), Ref<MLPPVector>());
+
+
 	Ref<MLPPVector> c = a->duplicate_fast();
 
 	Size2i b_size = B->size();
@@ -1692,6 +1713,9 @@ Ref<MLPPVector> MLPPLinAlg::subtract_matrix_rowsnv(const Ref<MLPPVector> &a, con
 }
 
 Ref<MLPPMatrix> MLPPLinAlg::outer_product(const Ref<MLPPVector> &a, const Ref<MLPPVector> &b) {
+	ERR_FAIL_COND_V(!a.is_valid() || !b.is_valid(), Ref<MLPPMatrix>());
+
+
 	Ref<MLPPMatrix> C;
 	C.instance();
 	Size2i size = Size2i(b->size(), a->size());
@@ -1738,6 +1762,9 @@ Ref<MLPPMatrix> MLPPLinAlg::mat_vec_addnm(const Ref<MLPPMatrix> &A, const Ref<ML
 }
 
 Ref<MLPPMatrix> MLPPLinAlg::diagnm(const Ref<MLPPVector> &a) {
+	ERR_FAIL_COND_V(!a.is_valid(), Ref<MLPPMatrix>());
+
+
 	int a_size = a->size();
 
 	Ref<MLPPMatrix> B;
-- 
2.43.0


From 73d0d1524fe272eef920c91c604778aa03e7a2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 047/325] fix: LinAlg list operations did not check the list
 lengths

---
 core/lin_alg.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 4d65921..70944eb 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1784,6 +1784,9 @@ Ref<MLPPMatrix> MLPPLinAlg::diagnm(const Ref<MLPPVector> &a) {
 }
 
 Vector<Ref<MLPPMatrix>> MLPPLinAlg::additionnvt(const Vector<Ref<MLPPMatrix>> &A, const Vector<Ref<MLPPMatrix>> &B) {
+	ERR_FAIL_COND_V(A.size() != B.size(), Vector<Ref<MLPPMatrix>>());
+
+
 	Vector<Ref<MLPPMatrix>> res;
 	res.resize(A.size());
 
@@ -1795,6 +1798,9 @@ Vector<Ref<MLPPMatrix>> MLPPLinAlg::additionnvt(const Vector<Ref<MLPPMatrix>> &A
 }
 
 void MLPPLinAlg::division_element_wisevt(const Vector<Ref<MLPPMatrix>> &A, const Vector<Ref<MLPPMatrix>> &B) {
+	ERR_FAIL_COND(A.size() != B.size());
+
+
 	for (int i = 0; i < A.size(); i++) {
 		Ref<MLPPMatrix> m = A[i];
 
@@ -1803,6 +1809,9 @@ void MLPPLinAlg::division_element_wisevt(const Vector<Ref<MLPPMatrix>> &A, const
 }
 
 Vector<Ref<MLPPMatrix>> MLPPLinAlg::division_element_wisenvnvt(const Vector<Ref<MLPPMatrix>> &A, const Vector<Ref<MLPPMatrix>> &B) {
+	ERR_FAIL_COND_V(A.size() != B.size(), Vector<Ref<MLPPMatrix>>());
+
+
 	Vector<Ref<MLPPMatrix>> res;
 	res.resize(A.size());
 
@@ -1903,6 +1912,9 @@ Vector<Ref<MLPPMatrix>> MLPPLinAlg::resizencvt(const Vector<Ref<MLPPMatrix>> &A)
 }
 
 Vector<Ref<MLPPMatrix>> MLPPLinAlg::maxnvt(const Vector<Ref<MLPPMatrix>> &A, const Vector<Ref<MLPPMatrix>> &B) {
+	ERR_FAIL_COND_V(A.size() != B.size(), Vector<Ref<MLPPMatrix>>());
+
+
 	Vector<Ref<MLPPMatrix>> res;
 	res.resize(A.size());
 
-- 
2.43.0


From 1423ee8f7be29374eb4c73e2a45cb032b32320db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 048/325] fix: MLPPStat median of odd-sized samples was off by
 one

---
 core/stat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/stat.cpp b/core/stat.cpp
index 5376076..0b0f9a3 100644
--- a/core/stat.cpp
+++ b/core/stat.cpp
@@ -68,7 +68,7 @@ real_t MLPPStat::median(const Ref<MLPPVector> &p_x) {
 	if (x->size() % 2 == 0) {
 		return (x->element_get(center - 1) + x->element_get(center)) / 2.0;
 	} else {
-		return x->element_get(center - 1);
+		return x->element_get(center);
 	}
 }
 
-- 
2.43.0


From 9d8795d338b7d6dbf57f439dff1d77114a28736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 049/325] fix: MLPPStat geometric_mean overflowed for longer
 samples

---
 core/stat.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/core/stat.cpp b/core/stat.cpp
index 0b0f9a3..43a6d8f 100644
--- a/core/stat.cpp
+++ b/core/stat.cpp
@@ -238,12 +238,22 @@ real_t MLPPStat::geometric_mean(const Ref<MLPPVector> &x) {
 	int x_size = x->size();
 	const real_t *x_ptr = x->ptr();
 
-	real_t product = 1;
+	// Summing the logarithms, as the product of a longer sample does not fit into a real_t.
+	double log_sum = 0;
+	bool negative = false;
 	for (int i = 0; i < x_size; ++i) {
-		product *= x_ptr[i];
+		log_sum += std::log(std::abs((double)x_ptr[i]));
+		negative = negative != (x_ptr[i] < 0);
 	}
 
-	return Math::pow(product, (real_t)(1.0 / x_size));
+	real_t mean = std::exp(log_sum / x_size);
+
+	if (!negative) {
+		return mean;
+	}
+
+	// The even root of a negative product is not a real number.
+	return Math::pow((real_t)-1, (real_t)(1.0 / x_size)) * mean;
 }
 
 real_t MLPPStat::harmonic_mean(const Ref<MLPPVector> &x) {
-- 
2.43.0


From 0c54c956fe5270112c59a656b93060b333f60b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 050/325] fix: MLPPStat identric_mean overflowed

---
 core/stat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/stat.cpp b/core/stat.cpp
index 43a6d8f..e5a136b 100644
--- a/core/stat.cpp
+++ b/core/stat.cpp
@@ -360,7 +360,7 @@ real_t MLPPStat::identric_mean(const real_t x, const real_t y) {
 	if (x == y) {
 		return x;
 	}
-	return (1 / M_E) * Math::pow(Math::pow(x, x) / Math::pow(y, y), 1 / (x - y));
+	return std::exp((x * std::log((double)x) - y * std::log((double)y)) / ((double)x - y) - 1);
 }
 
 real_t MLPPStat::log_mean(const real_t x, const real_t y) {
-- 
2.43.0


From 71517e60f3944f35e1a2dd49519929c356747b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 051/325] fix: MLPPActivation deriv flag was inverted

---
 core/activation.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 4b6efab..6e0d3eb 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -37,23 +37,23 @@
 
 MLPPActivation::RealActivationFunctionPointer MLPPActivation::get_activation_function_ptr_real(const ActivationFunction func, const bool deriv) {
 	if (deriv) {
-		return get_activation_function_ptr_normal_real(func);
-	} else {
 		return get_activation_function_ptr_deriv_real(func);
+	} else {
+		return get_activation_function_ptr_normal_real(func);
 	}
 }
 MLPPActivation::VectorActivationFunctionPointer MLPPActivation::get_activation_function_ptr_vector(const ActivationFunction func, const bool deriv) {
 	if (deriv) {
-		return get_activation_function_ptr_normal_vector(func);
-	} else {
 		return get_activation_function_ptr_deriv_vector(func);
+	} else {
+		return get_activation_function_ptr_normal_vector(func);
 	}
 }
 MLPPActivation::MatrixActivationFunctionPointer MLPPActivation::get_activation_function_ptr_matrix(const ActivationFunction func, const bool deriv) {
 	if (deriv) {
-		return get_activation_function_ptr_normal_matrix(func);
-	} else {
 		return get_activation_function_ptr_deriv_matrix(func);
+	} else {
+		return get_activation_function_ptr_normal_matrix(func);
 	}
 }
 
@@ -433,23 +433,23 @@ MLPPActivation::MatrixActivationFunctionPointer MLPPActivation::get_activation_f
 
 real_t MLPPActivation::run_activation_real(const ActivationFunction func, const real_t z, const bool deriv) {
 	if (deriv) {
-		return run_activation_norm_real(func, z);
-	} else {
 		return run_activation_deriv_real(func, z);
+	} else {
+		return run_activation_norm_real(func, z);
 	}
 }
 Ref<MLPPVector> MLPPActivation::run_activation_vector(const ActivationFunction func, const Ref<MLPPVector> &z, const bool deriv) {
 	if (deriv) {
-		return run_activation_norm_vector(func, z);
-	} else {
 		return run_activation_deriv_vector(func, z);
+	} else {
+		return run_activation_norm_vector(func, z);
 	}
 }
 Ref<MLPPMatrix> MLPPActivation::run_activation_matrix(const ActivationFunction func, const Ref<MLPPMatrix> &z, const bool deriv) {
 	if (deriv) {
-		return run_activation_norm_matrix(func, z);
-	} else {
 		return run_activation_deriv_matrix(func, z);
+	} else {
+		return run_activation_norm_matrix(func, z);
 	}
 }
 
-- 
2.43.0


From 04bd1a2dcb5293f65438d8a8abf802fa90b60923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 052/325] fix: MLPPActivation scalar derivative tables listed
 the functions

---
 core/activation.cpp | 112 ++++++++++++++++++++++----------------------
 1 file changed, 56 insertions(+), 56 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 6e0d3eb..7269429 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -247,61 +247,61 @@ MLPPActivation::MatrixActivationFunctionPointer MLPPActivation::get_activation_f
 MLPPActivation::RealActivationFunctionPointer MLPPActivation::get_activation_function_ptr_deriv_real(const ActivationFunction func) {
 	switch (func) {
 		case ACTIVATION_FUNCTION_LINEAR:
-			return &MLPPActivation::linear_normr;
+			return &MLPPActivation::linear_derivr;
 		case ACTIVATION_FUNCTION_SIGMOID:
-			return &MLPPActivation::sigmoid_normr;
+			return &MLPPActivation::sigmoid_derivr;
 		case ACTIVATION_FUNCTION_SWISH:
-			return &MLPPActivation::swish_normr;
+			return &MLPPActivation::swish_derivr;
 		case ACTIVATION_FUNCTION_MISH:
-			return &MLPPActivation::mish_normr;
+			return &MLPPActivation::mish_derivr;
 		case ACTIVATION_FUNCTION_SIN_C:
-			return &MLPPActivation::sinc_normr;
+			return &MLPPActivation::sinc_derivr;
 		case ACTIVATION_FUNCTION_SOFTMAX:
-			return &MLPPActivation::softmax_normr;
+			return &MLPPActivation::softmax_derivr;
 		case ACTIVATION_FUNCTION_SOFTPLUS:
-			return &MLPPActivation::softplus_normr;
+			return &MLPPActivation::softplus_derivr;
 		case ACTIVATION_FUNCTION_SOFTSIGN:
-			return &MLPPActivation::softsign_normr;
+			return &MLPPActivation::softsign_derivr;
 		case ACTIVATION_FUNCTION_ADJ_SOFTMAX:
-			return &MLPPActivation::adj_softmax_normr;
+			return &MLPPActivation::adj_softmax_derivr;
 		case ACTIVATION_FUNCTION_C_LOG_LOG:
-			return &MLPPActivation::cloglog_normr;
+			return &MLPPActivation::cloglog_derivr;
 		case ACTIVATION_FUNCTION_LOGIT:
-			return &MLPPActivation::logit_normr;
+			return &MLPPActivation::logit_derivr;
 		case ACTIVATION_FUNCTION_GAUSSIAN_CDF:
-			return &MLPPActivation::gaussian_cdf_normr;
+			return &MLPPActivation::gaussian_cdf_derivr;
 		case ACTIVATION_FUNCTION_RELU:
-			return &MLPPActivation::relu_normr;
+			return &MLPPActivation::relu_derivr;
 		case ACTIVATION_FUNCTION_GELU:
-			return &MLPPActivation::gelu_normr;
+			return &MLPPActivation::gelu_derivr;
 		case ACTIVATION_FUNCTION_SIGN:
-			return &MLPPActivation::sign_normr;
+			return &MLPPActivation::sign_derivr;
 		case ACTIVATION_FUNCTION_UNIT_STEP:
-			return &MLPPActivation::unit_step_normr;
+			return &MLPPActivation::unit_step_derivr;
 		case ACTIVATION_FUNCTION_SINH:
-			return &MLPPActivation::sinh_normr;
+			return &MLPPActivation::sinh_derivr;
 		case ACTIVATION_FUNCTION_COSH:
-			return &MLPPActivation::cosh_normr;
+			return &MLPPActivation::cosh_derivr;
 		case ACTIVATION_FUNCTION_TANH:
-			return &MLPPActivation::tanh_normr;
+			return &MLPPActivation::tanh_derivr;
 		case ACTIVATION_FUNCTION_CSCH:
-			return &MLPPActivation::csch_normr;
+			return &MLPPActivation::csch_derivr;
 		case ACTIVATION_FUNCTION_SECH:
-			return &MLPPActivation::sech_normr;
+			return &MLPPActivation::sech_derivr;
 		case ACTIVATION_FUNCTION_COTH:
-			return &MLPPActivation::coth_normr;
+			return &MLPPActivation::coth_derivr;
 		case ACTIVATION_FUNCTION_ARSINH:
-			return &MLPPActivation::arsinh_normr;
+			return &MLPPActivation::arsinh_derivr;
 		case ACTIVATION_FUNCTION_ARCOSH:
-			return &MLPPActivation::arcosh_normr;
+			return &MLPPActivation::arcosh_derivr;
 		case ACTIVATION_FUNCTION_ARTANH:
-			return &MLPPActivation::artanh_normr;
+			return &MLPPActivation::artanh_derivr;
 		case ACTIVATION_FUNCTION_ARCSCH:
-			return &MLPPActivation::arcsch_normr;
+			return &MLPPActivation::arcsch_derivr;
 		case ACTIVATION_FUNCTION_ARSECH:
-			return &MLPPActivation::arsech_normr;
+			return &MLPPActivation::arsech_derivr;
 		case ACTIVATION_FUNCTION_ARCOTH:
-			return &MLPPActivation::arcoth_normr;
+			return &MLPPActivation::arcoth_derivr;
 		default:
 			return NULL;
 	}
@@ -643,61 +643,61 @@ Ref<MLPPMatrix> MLPPActivation::run_activation_norm_matrix(const ActivationFunct
 real_t MLPPActivation::run_activation_deriv_real(const ActivationFunction func, const real_t z) {
 	switch (func) {
 		case ACTIVATION_FUNCTION_LINEAR:
-			return linear_normr(z);
+			return linear_derivr(z);
 		case ACTIVATION_FUNCTION_SIGMOID:
-			return sigmoid_normr(z);
+			return sigmoid_derivr(z);
 		case ACTIVATION_FUNCTION_SWISH:
-			return swish_normr(z);
+			return swish_derivr(z);
 		case ACTIVATION_FUNCTION_MISH:
-			return mish_normr(z);
+			return mish_derivr(z);
 		case ACTIVATION_FUNCTION_SIN_C:
-			return sinc_normr(z);
+			return sinc_derivr(z);
 		case ACTIVATION_FUNCTION_SOFTMAX:
-			return softmax_normr(z);
+			return softmax_derivr(z);
 		case ACTIVATION_FUNCTION_SOFTPLUS:
-			return softplus_normr(z);
+			return softplus_derivr(z);
 		case ACTIVATION_FUNCTION_SOFTSIGN:
-			return softsign_normr(z);
+			return softsign_derivr(z);
 		case ACTIVATION_FUNCTION_ADJ_SOFTMAX:
-			return adj_softmax_normr(z);
+			return adj_softmax_derivr(z);
 		case ACTIVATION_FUNCTION_C_LOG_LOG:
-			return cloglog_normr(z);
+			return cloglog_derivr(z);
 		case ACTIVATION_FUNCTION_LOGIT:
-			return logit_normr(z);
+			return logit_derivr(z);
 		case ACTIVATION_FUNCTION_GAUSSIAN_CDF:
-			return gaussian_cdf_normr(z);
+			return gaussian_cdf_derivr(z);
 		case ACTIVATION_FUNCTION_RELU:
-			return relu_normr(z);
+			return relu_derivr(z);
 		case ACTIVATION_FUNCTION_GELU:
-			return gelu_normr(z);
+			return gelu_derivr(z);
 		case ACTIVATION_FUNCTION_SIGN:
-			return sign_normr(z);
+			return sign_derivr(z);
 		case ACTIVATION_FUNCTION_UNIT_STEP:
-			return unit_step_normr(z);
+			return unit_step_derivr(z);
 		case ACTIVATION_FUNCTION_SINH:
-			return sinh_normr(z);
+			return sinh_derivr(z);
 		case ACTIVATION_FUNCTION_COSH:
-			return cosh_normr(z);
+			return cosh_derivr(z);
 		case ACTIVATION_FUNCTION_TANH:
-			return tanh_normr(z);
+			return tanh_derivr(z);
 		case ACTIVATION_FUNCTION_CSCH:
-			return csch_normr(z);
+			return csch_derivr(z);
 		case ACTIVATION_FUNCTION_SECH:
-			return sech_normr(z);
+			return sech_derivr(z);
 		case ACTIVATION_FUNCTION_COTH:
-			return coth_normr(z);
+			return coth_derivr(z);
 		case ACTIVATION_FUNCTION_ARSINH:
-			return arsinh_normr(z);
+			return arsinh_derivr(z);
 		case ACTIVATION_FUNCTION_ARCOSH:
-			return arcosh_normr(z);
+			return arcosh_derivr(z);
 		case ACTIVATION_FUNCTION_ARTANH:
-			return artanh_normr(z);
+			return artanh_derivr(z);
 		case ACTIVATION_FUNCTION_ARCSCH:
-			return arcsch_normr(z);
+			return arcsch_derivr(z);
 		case ACTIVATION_FUNCTION_ARSECH:
-			return arsech_normr(z);
+			return arsech_derivr(z);
 		case ACTIVATION_FUNCTION_ARCOTH:
-			return arcoth_normr(z);
+			return arcoth_derivr(z);
 		default:
 			ERR_FAIL_V(0);
 	}
-- 
2.43.0


From 8e241aaa2b9af06cffafbf89e4359285bbea98f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 053/325] fix: MLPPActivation softmax overflowed for large
 inputs

---
 core/activation.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 7269429..a68422a 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -918,7 +918,15 @@ Ref<MLPPVector> MLPPActivation::softmax_normv(const Ref<MLPPVector> &z) {
 	a.instance();
 	a->resize(z_size);
 
-	Ref<MLPPVector> exp_z = alg.expnv(z);
+	const real_t *z_ptr = z->ptr();
+	real_t z_max = -Math_INF;
+
+	for (int i = 0; i < z_size; ++i) {
+		z_max = MAX(z_max, z_ptr[i]);
+	}
+
+	// Shifting by the maximum keeps the exponentials from overflowing, and doesn't change the result.
+	Ref<MLPPVector> exp_z = alg.expnv(alg.scalar_addnv(-z_max, z));
 	real_t sum = 0;
 
 	const real_t *exp_z_ptr = exp_z->ptr();
@@ -968,7 +976,15 @@ Ref<MLPPVector> MLPPActivation::softmax_derivv(const Ref<MLPPVector> &z) {
 	a.instance();
 	a->resize(z_size);
 
-	Ref<MLPPVector> exp_z = alg.expnv(z);
+	const real_t *z_ptr = z->ptr();
+	real_t z_max = -Math_INF;
+
+	for (int i = 0; i < z_size; ++i) {
+		z_max = MAX(z_max, z_ptr[i]);
+	}
+
+	// Shifting by the maximum keeps the exponentials from overflowing, and doesn't change the result.
+	Ref<MLPPVector> exp_z = alg.expnv(alg.scalar_addnv(-z_max, z));
 	real_t sum = 0;
 
 	const real_t *exp_z_ptr = exp_z->ptr();
-- 
2.43.0


From 7088ebb61482f4ec626d3c2a9042e849ad12d03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 054/325] fix: MLPPActivation softmax_derivm recursed forever

---
 core/activation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index a68422a..22317ca 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1014,7 +1014,7 @@ Ref<MLPPMatrix> MLPPActivation::softmax_derivm(const Ref<MLPPMatrix> &z) {
 	for (int i = 0; i < z_size.y; ++i) {
 		z->row_get_into_mlpp_vector(i, row_tmp);
 
-		Ref<MLPPVector> sfn = softmax_derivm(z);
+		Ref<MLPPVector> sfn = softmax_derivv(row_tmp);
 
 		a->row_set_mlpp_vector(i, sfn);
 	}
-- 
2.43.0


From 6ad47921a74408f12fe89fbb3abfdee33202456f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 055/325] fix: MLPPActivation adj_softmax truncated the maximum
 to an int

---
 core/activation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 22317ca..7c5db8f 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1036,7 +1036,7 @@ Ref<MLPPVector> MLPPActivation::adj_softmax_normv(const Ref<MLPPVector> &z) {
 	real_t c = -Math_INF;
 
 	for (int i = 0; i < size; ++i) {
-		int zpi = z_ptr[i];
+		real_t zpi = z_ptr[i];
 
 		if (c < zpi) {
 			c = zpi;
@@ -1081,7 +1081,7 @@ Ref<MLPPVector> MLPPActivation::adj_softmax_derivv(const Ref<MLPPVector> &z) {
 	real_t c = -Math_INF;
 
 	for (int i = 0; i < size; ++i) {
-		int zpi = z_ptr[i];
+		real_t zpi = z_ptr[i];
 
 		if (c < zpi) {
 			c = zpi;
-- 
2.43.0


From 1250d1222cdcbfc991e6a1cb80ad08bfc9816786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 056/325] fix: MLPPActivation softplus matrix form crashed, and
 large inputs overflowed

---
 core/activation.cpp | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 7c5db8f..f2ef0e5 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1255,17 +1255,43 @@ Vector<Ref<MLPPMatrix>> MLPPActivation::softmax_deriv_derivm(const Ref<MLPPMatri
 //SOFTPLUS
 
 real_t MLPPActivation::softplus_normr(real_t z) {
-	return Math::log(1 + exp(z));
+	if (z > 0) {
+		return z + Math::log(1 + Math::exp(-z));
+	}
+
+	return Math::log(1 + Math::exp(z));
 }
 Ref<MLPPVector> MLPPActivation::softplus_normv(const Ref<MLPPVector> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPVector> a;
+	a.instance();
+	a->resize(z->size());
+
+	int z_size = z->size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_size; ++i) {
+		a_ptr[i] = softplus_normr(z_ptr[i]);
+	}
 
-	return alg.lognv(alg.additionnv(alg.onevecnv(z->size()), alg.expnv(z)));
+	return a;
 }
 Ref<MLPPMatrix> MLPPActivation::softplus_normm(const Ref<MLPPMatrix> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPMatrix> a;
+	a.instance();
+	a->resize(z->size());
+
+	int z_data_size = z->data_size();
 
-	return alg.lognv(alg.additionnv(alg.onematnm(z->size().y, z->size().x), alg.expnv(z)));
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_data_size; ++i) {
+		a_ptr[i] = softplus_normr(z_ptr[i]);
+	}
+
+	return a;
 }
 
 real_t MLPPActivation::softplus_derivr(real_t z) {
-- 
2.43.0


From ec958f9ba7912b3bdedf6bb3b973554570cb42a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 057/325] fix: MLPPActivation softsign matrix forms used vector
 helpers

---
 core/activation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index f2ef0e5..e4dd3ba 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1317,7 +1317,7 @@ Ref<MLPPVector> MLPPActivation::softsign_normv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::softsign_normm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.division_element_wisenvnm(z, alg.additionnv(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)));
+	return alg.division_element_wisenvnm(z, alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)));
 }
 
 real_t MLPPActivation::softsign_derivr(real_t z) {
@@ -1331,7 +1331,7 @@ Ref<MLPPVector> MLPPActivation::softsign_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::softsign_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.exponentiatenv(alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)), 2));
+	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.exponentiatenm(alg.additionnm(alg.onematnm(z->size().y, z->size().x), alg.absnm(z)), 2));
 }
 
 //GAUSSIANCDF
-- 
2.43.0


From 454eb8606aeb24586cfaa30dc6878a935cbba199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 058/325] fix: MLPPActivation swish matrix forms used vector
 helpers

---
 core/activation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index e4dd3ba..d611265 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1505,7 +1505,7 @@ Ref<MLPPVector> MLPPActivation::swish_normv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::swish_normm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.hadamard_productnv(z, sigmoid_normm(z));
+	return alg.hadamard_productnm(z, sigmoid_normm(z));
 }
 
 real_t MLPPActivation::swish_derivr(real_t z) {
@@ -1519,7 +1519,7 @@ Ref<MLPPVector> MLPPActivation::swish_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::swish_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.additionnv(swish_normm(z), alg.subtractionnv(sigmoid_normm(z), alg.hadamard_productnm(sigmoid_normm(z), swish_normm(z))));
+	return alg.additionnm(swish_normm(z), alg.subtractionnm(sigmoid_normm(z), alg.hadamard_productnm(sigmoid_normm(z), swish_normm(z))));
 }
 
 //MISH
-- 
2.43.0


From 781da545f43095b32841f0f809457d436032e4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 059/325] fix: MLPPActivation artanh_derivm used a vector
 helper

---
 core/activation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index d611265..4b1408b 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -2333,7 +2333,7 @@ Ref<MLPPVector> MLPPActivation::artanh_derivv(const Ref<MLPPVector> &z) {
 Ref<MLPPMatrix> MLPPActivation::artanh_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.subtractionnv(alg.onematnm(z->size().y, z->size().x), alg.hadamard_productnm(z, z)));
+	return alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.subtractionnm(alg.onematnm(z->size().y, z->size().x), alg.hadamard_productnm(z, z)));
 }
 
 //ARCSCH
-- 
2.43.0


From ad11c130cb0fb8e424354e2d5d57431a01ca3b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 060/325] fix: MLPPActivation arcsch_derivv used a matrix
 helper

---
 core/activation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 4b1408b..4a81ccd 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -2371,7 +2371,7 @@ Ref<MLPPVector> MLPPActivation::arcsch_derivv(const Ref<MLPPVector> &z) {
 
 	return alg.division_element_wisenv(
 			alg.fullnv(z->size(), -1),
-			alg.hadamard_productnm(
+			alg.hadamard_productnv(
 					alg.hadamard_productnv(z, z),
 					alg.sqrtnv(alg.additionnv(alg.onevecnv(z->size()), alg.division_element_wisenv(alg.onevecnv(z->size()), alg.hadamard_productnv(z, z))))));
 }
-- 
2.43.0


From c389670309b4ef860bdbe7b57c250e9f7f3fea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 061/325] fix: MLPPActivation mish derivative divided by zero,
 matrix form used a vector helper

---
 core/activation.cpp | 48 +++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 4a81ccd..068b582 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1539,31 +1539,41 @@ Ref<MLPPMatrix> MLPPActivation::mish_normm(const Ref<MLPPMatrix> &z) {
 }
 
 real_t MLPPActivation::mish_derivr(real_t z) {
-	return sech_normr(softplus_normr(z)) * sech_normr(softplus_normr(z)) * z * sigmoid_normr(z) + mish_normr(z) / z;
+	real_t sech_softplus = sech_normr(softplus_normr(z));
+
+	return sech_softplus * sech_softplus * z * sigmoid_normr(z) + tanh_normr(softplus_normr(z));
 }
 Ref<MLPPVector> MLPPActivation::mish_derivv(const Ref<MLPPVector> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPVector> a;
+	a.instance();
+	a->resize(z->size());
 
-	return alg.additionnv(
-			alg.hadamard_productnv(
-					alg.hadamard_productnv(
-							alg.hadamard_productnv(
-									sech_normv(softplus_normv(z)), sech_normv(softplus_normv(z))),
-							z),
-					sigmoid_normv(z)),
-			alg.division_element_wisenv(mish_normv(z), z));
+	int z_size = z->size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_size; ++i) {
+		a_ptr[i] = mish_derivr(z_ptr[i]);
+	}
+
+	return a;
 }
 Ref<MLPPMatrix> MLPPActivation::mish_derivm(const Ref<MLPPMatrix> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPMatrix> a;
+	a.instance();
+	a->resize(z->size());
 
-	return alg.additionnv(
-			alg.hadamard_productnm(
-					alg.hadamard_productnm(
-							alg.hadamard_productnm(
-									sech_normm(softplus_normm(z)), sech_normm(softplus_normm(z))),
-							z),
-					sigmoid_normm(z)),
-			alg.division_element_wisenvnm(mish_normm(z), z));
+	int z_data_size = z->data_size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_data_size; ++i) {
+		a_ptr[i] = mish_derivr(z_ptr[i]);
+	}
+
+	return a;
 }
 
 //SINC
-- 
2.43.0


From e5ca4e25331fe4799fa1bda0dfe1bb5f0a6e3f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 062/325] fix: MLPPActivation cloglog derivative vector and
 matrix forms left out a factor

---
 core/activation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 068b582..38f5bbb 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1389,13 +1389,13 @@ real_t MLPPActivation::cloglog_derivr(real_t z) {
 Ref<MLPPVector> MLPPActivation::cloglog_derivv(const Ref<MLPPVector> &z) {
 	MLPPLinAlg alg;
 
-	return alg.expnv(alg.scalar_multiplynv(-1, alg.expnv(z)));
+	return alg.expnv(alg.subtractionnv(z, alg.expnv(z)));
 }
 
 Ref<MLPPMatrix> MLPPActivation::cloglog_derivm(const Ref<MLPPMatrix> &z) {
 	MLPPLinAlg alg;
 
-	return alg.expnm(alg.scalar_multiplynm(-1, alg.expnm(z)));
+	return alg.expnm(alg.subtractionnm(z, alg.expnm(z)));
 }
 
 //LOGIT
-- 
2.43.0


From 28d07830eb4b4625a165c7632a864dc854691d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 063/325] fix: MLPPActivation arsech was missing the square
 root

---
 core/activation.cpp | 50 ++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 38f5bbb..3a4a01b 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -2398,37 +2398,41 @@ Ref<MLPPMatrix> MLPPActivation::arcsch_derivm(const Ref<MLPPMatrix> &z) {
 //ARSECH
 
 real_t MLPPActivation::arsech_normr(real_t z) {
-	return Math::log((1 / z) + ((1 / z) + 1) * ((1 / z) - 1));
+	return Math::log((1 / z) + Math::sqrt(((1 / z) + 1) * ((1 / z) - 1)));
 }
 
 Ref<MLPPVector> MLPPActivation::arsech_normv(const Ref<MLPPVector> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPVector> a;
+	a.instance();
+	a->resize(z->size());
 
-	return alg.lognv(
-			alg.additionnv(
-					alg.division_element_wisenv(
-							alg.onevecnv(z->size()), z),
-					alg.hadamard_productnv(
-							alg.additionnv(alg.division_element_wisenv(alg.onevecnv(z->size()), z), alg.onevecnv(z->size())),
-							alg.subtractionnv(alg.division_element_wisenv(alg.onevecnv(z->size()), z), alg.onevecnv(z->size())))));
+	int z_size = z->size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_size; ++i) {
+		a_ptr[i] = arsech_normr(z_ptr[i]);
+	}
+
+	return a;
 }
 
 Ref<MLPPMatrix> MLPPActivation::arsech_normm(const Ref<MLPPMatrix> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPMatrix> a;
+	a.instance();
+	a->resize(z->size());
 
-	return alg.lognm(
-			alg.additionnm(
-					alg.division_element_wisenvnm(
-							alg.onematnm(z->size().y, z->size().x), z),
-					alg.hadamard_productnm(
-							alg.additionnm(
-									alg.division_element_wisenvnm(
-											alg.onematnm(z->size().y, z->size().x), z),
-									alg.onematnm(z->size().y, z->size().x)),
-							alg.subtractionnm(
-									alg.division_element_wisenvnm(
-											alg.onematnm(z->size().y, z->size().x), z),
-									alg.onematnm(z->size().y, z->size().x)))));
+	int z_data_size = z->data_size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_data_size; ++i) {
+		a_ptr[i] = arsech_normr(z_ptr[i]);
+	}
+
+	return a;
 }
 
 real_t MLPPActivation::arsech_derivr(real_t z) {
-- 
2.43.0


From 6aac135c6135bfe76b922fd930e097f9f12f5a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 064/325] fix: MLPPActivation selu derivative left out lambda

---
 core/activation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 3a4a01b..b7d38c1 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1883,7 +1883,7 @@ Ref<MLPPMatrix> MLPPActivation::selu_normm(const Ref<MLPPMatrix> &z, real_t lamb
 }
 
 real_t MLPPActivation::selu_derivr(real_t z, real_t lambda, real_t c) {
-	return elu_derivr(z, c);
+	return lambda * elu_derivr(z, c);
 }
 Ref<MLPPVector> MLPPActivation::selu_derivv(const Ref<MLPPVector> &z, real_t lambda, real_t c) {
 	Ref<MLPPVector> a;
-- 
2.43.0


From a93a30164a0c1118221ad90f693503bd339fe336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 065/325] fix: MLPPActivation sinc divided by zero at 0

---
 core/activation.cpp | 68 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 60 insertions(+), 8 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index b7d38c1..b415aa5 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -1579,31 +1579,83 @@ Ref<MLPPMatrix> MLPPActivation::mish_derivm(const Ref<MLPPMatrix> &z) {
 //SINC
 
 real_t MLPPActivation::sinc_normr(real_t z) {
+	if (z == 0) {
+		return 1;
+	}
+
 	return Math::sin(z) / z;
 }
 Ref<MLPPVector> MLPPActivation::sinc_normv(const Ref<MLPPVector> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPVector> a;
+	a.instance();
+	a->resize(z->size());
+
+	int z_size = z->size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_size; ++i) {
+		a_ptr[i] = sinc_normr(z_ptr[i]);
+	}
 
-	return alg.division_element_wisenv(alg.sinnv(z), z);
+	return a;
 }
 Ref<MLPPMatrix> MLPPActivation::sinc_normm(const Ref<MLPPMatrix> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPMatrix> a;
+	a.instance();
+	a->resize(z->size());
+
+	int z_data_size = z->data_size();
 
-	return alg.division_element_wisenvnm(alg.sinnm(z), z);
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_data_size; ++i) {
+		a_ptr[i] = sinc_normr(z_ptr[i]);
+	}
+
+	return a;
 }
 
 real_t MLPPActivation::sinc_derivr(real_t z) {
+	if (z == 0) {
+		return 0;
+	}
+
 	return (z * Math::cos(z) - Math::sin(z)) / (z * z);
 }
 Ref<MLPPVector> MLPPActivation::sinc_derivv(const Ref<MLPPVector> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPVector> a;
+	a.instance();
+	a->resize(z->size());
+
+	int z_size = z->size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_size; ++i) {
+		a_ptr[i] = sinc_derivr(z_ptr[i]);
+	}
 
-	return alg.division_element_wisenv(alg.subtractionnv(alg.hadamard_productnv(z, alg.cosnv(z)), alg.sinnv(z)), alg.hadamard_productnv(z, z));
+	return a;
 }
 Ref<MLPPMatrix> MLPPActivation::sinc_derivm(const Ref<MLPPMatrix> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPMatrix> a;
+	a.instance();
+	a->resize(z->size());
+
+	int z_data_size = z->data_size();
 
-	return alg.division_element_wisenvnm(alg.subtractionnm(alg.hadamard_productnm(z, alg.cosnm(z)), alg.sinnm(z)), alg.hadamard_productnm(z, z));
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_data_size; ++i) {
+		a_ptr[i] = sinc_derivr(z_ptr[i]);
+	}
+
+	return a;
 }
 
 //RELU
-- 
2.43.0


From 01f62ba80d8eba1c8ba9d1d116c6a4a1e3cbd1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 066/325] fix: MLPPActivation tanh overflowed for large inputs

---
 core/activation.cpp | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index b415aa5..d68312d 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -2175,17 +2175,39 @@ Ref<MLPPMatrix> MLPPActivation::cosh_derivm(const Ref<MLPPMatrix> &z) {
 //TANH
 
 real_t MLPPActivation::tanh_normr(real_t z) {
-	return (Math::exp(z) - Math::exp(-z)) / (Math::exp(z) + Math::exp(-z));
+	return Math::tanh(z);
 }
 Ref<MLPPVector> MLPPActivation::tanh_normv(const Ref<MLPPVector> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPVector> a;
+	a.instance();
+	a->resize(z->size());
 
-	return alg.division_element_wisenv(alg.subtractionnv(alg.expnv(z), alg.expnv(alg.scalar_multiplynv(-1, z))), alg.additionnv(alg.expnv(z), alg.expnv(alg.scalar_multiplynv(-1, z))));
+	int z_size = z->size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_size; ++i) {
+		a_ptr[i] = tanh_normr(z_ptr[i]);
+	}
+
+	return a;
 }
 Ref<MLPPMatrix> MLPPActivation::tanh_normm(const Ref<MLPPMatrix> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPMatrix> a;
+	a.instance();
+	a->resize(z->size());
 
-	return alg.division_element_wisenvnm(alg.subtractionnm(alg.expnm(z), alg.expnm(alg.scalar_multiplynm(-1, z))), alg.additionnm(alg.expnm(z), alg.expnm(alg.scalar_multiplynm(-1, z))));
+	int z_data_size = z->data_size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_data_size; ++i) {
+		a_ptr[i] = tanh_normr(z_ptr[i]);
+	}
+
+	return a;
 }
 
 real_t MLPPActivation::tanh_derivr(real_t z) {
-- 
2.43.0


From a31d1696832db3b182b4fff942bff360eb959e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 067/325] fix: MLPPActivation arsinh cancelled for negative
 inputs

---
 core/activation.cpp | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index d68312d..8de1b93 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -2325,19 +2325,44 @@ Ref<MLPPMatrix> MLPPActivation::coth_derivm(const Ref<MLPPMatrix> &z) {
 //ARSINH
 
 real_t MLPPActivation::arsinh_normr(real_t z) {
-	return Math::log(z + sqrt(z * z + 1));
+	real_t az = ABS(z);
+	real_t a = Math::log(az + Math::sqrt(az * az + 1));
+
+	return z < 0 ? -a : a;
 }
 
 Ref<MLPPVector> MLPPActivation::arsinh_normv(const Ref<MLPPVector> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPVector> a;
+	a.instance();
+	a->resize(z->size());
+
+	int z_size = z->size();
 
-	return alg.lognv(alg.additionnv(z, alg.sqrtnv(alg.additionnv(alg.hadamard_productnv(z, z), alg.onevecnv(z->size())))));
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_size; ++i) {
+		a_ptr[i] = arsinh_normr(z_ptr[i]);
+	}
+
+	return a;
 }
 
 Ref<MLPPMatrix> MLPPActivation::arsinh_normm(const Ref<MLPPMatrix> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPMatrix> a;
+	a.instance();
+	a->resize(z->size());
 
-	return alg.lognm(alg.additionnm(z, alg.sqrtnm(alg.additionnm(alg.hadamard_productnm(z, z), alg.onematnm(z->size().y, z->size().x)))));
+	int z_data_size = z->data_size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_data_size; ++i) {
+		a_ptr[i] = arsinh_normr(z_ptr[i]);
+	}
+
+	return a;
 }
 
 real_t MLPPActivation::arsinh_derivr(real_t z) {
-- 
2.43.0


From e69b0ef5d3a496cc82af003c7b6da2925dca6334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 068/325] fix: MLPPActivation arcsch cancelled for negative
 inputs

---
 core/activation.cpp | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/core/activation.cpp b/core/activation.cpp
index 8de1b93..f055273 100644
--- a/core/activation.cpp
+++ b/core/activation.cpp
@@ -2448,28 +2448,39 @@ Ref<MLPPMatrix> MLPPActivation::artanh_derivm(const Ref<MLPPMatrix> &z) {
 //ARCSCH
 
 real_t MLPPActivation::arcsch_normr(real_t z) {
-	return Math::log(sqrt(1 + (1 / (z * z))) + (1 / z));
+	return arsinh_normr(1 / z);
 }
 Ref<MLPPVector> MLPPActivation::arcsch_normv(const Ref<MLPPVector> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPVector> a;
+	a.instance();
+	a->resize(z->size());
 
-	return alg.lognv(
-			alg.additionnv(
-					alg.sqrtnv(
-							alg.additionnv(
-									alg.onevecnv(z->size()),
-									alg.division_element_wisenv(alg.onevecnv(z->size()), alg.hadamard_productnv(z, z)))),
-					alg.division_element_wisenv(alg.onevecnv(z->size()), z)));
+	int z_size = z->size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_size; ++i) {
+		a_ptr[i] = arcsch_normr(z_ptr[i]);
+	}
+
+	return a;
 }
 Ref<MLPPMatrix> MLPPActivation::arcsch_normm(const Ref<MLPPMatrix> &z) {
-	MLPPLinAlg alg;
+	Ref<MLPPMatrix> a;
+	a.instance();
+	a->resize(z->size());
 
-	return alg.lognm(
-			alg.additionnm(
-					alg.sqrtnm(
-							alg.additionnm(alg.onematnm(z->size().y, z->size().x),
-									alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), alg.hadamard_productnm(z, z)))),
-					alg.division_element_wisenvnm(alg.onematnm(z->size().y, z->size().x), z)));
+	int z_data_size = z->data_size();
+
+	const real_t *z_ptr = z->ptr();
+	real_t *a_ptr = a->ptrw();
+
+	for (int i = 0; i < z_data_size; ++i) {
+		a_ptr[i] = arcsch_normr(z_ptr[i]);
+	}
+
+	return a;
 }
 
 real_t MLPPActivation::arcsch_derivr(real_t z) {
-- 
2.43.0


From 9c299f222bbfef168d05caf6cb2a97da9b6a598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 069/325] fix: MLPPCost mse was multiplied by the size

---
 core/cost.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 2d6ce84..e572fe8 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -47,7 +47,7 @@ real_t MLPPCost::msev(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 		sum += (y_hat_ptr[i] - y_ptr[i]) * (y_hat_ptr[i] - y_ptr[i]);
 	}
 
-	return sum / 2 * y_hat_size;
+	return sum / (2 * y_hat_size);
 }
 real_t MLPPCost::msem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	int y_hat_data_size = y_hat->data_size();
@@ -62,7 +62,7 @@ real_t MLPPCost::msem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 		sum += (y_hat_ptr[i] - y_ptr[i]) * (y_hat_ptr[i] - y_ptr[i]);
 	}
 
-	return sum / 2.0 * static_cast<real_t>(y_hat_data_size);
+	return sum / (2.0 * static_cast<real_t>(y_hat_data_size));
 }
 
 Ref<MLPPVector> MLPPCost::mse_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
-- 
2.43.0


From d6ae10f58da5bcc073cbb1456601f61c55a50aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 070/325] fix: MLPPCost rmsem divided by the row count

---
 core/cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index e572fe8..a09460e 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -103,7 +103,7 @@ real_t MLPPCost::rmsem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 		sum += (y_hat_ptr[i] - y_ptr[i]) * (y_hat_ptr[i] - y_ptr[i]);
 	}
 
-	return Math::sqrt(sum / static_cast<real_t>(y_hat->size().y));
+	return Math::sqrt(sum / static_cast<real_t>(y_hat_data_size));
 }
 
 Ref<MLPPVector> MLPPCost::rmse_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
-- 
2.43.0


From 8c29eaa8ff31ebc06347815651e9cc95d74d43de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 071/325] fix: MLPPCost rmse_derivm had an inverted factor

---
 core/cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index a09460e..6a78998 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -114,7 +114,7 @@ Ref<MLPPVector> MLPPCost::rmse_derivv(const Ref<MLPPVector> &y_hat, const Ref<ML
 Ref<MLPPMatrix> MLPPCost::rmse_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	MLPPLinAlg alg;
 
-	return alg.scalar_multiplynm(1 / (2.0 / Math::sqrt(msem(y_hat, y))), mse_derivm(y_hat, y));
+	return alg.scalar_multiplynm(1 / (2.0 * Math::sqrt(msem(y_hat, y))), mse_derivm(y_hat, y));
 }
 
 real_t MLPPCost::maev(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
-- 
2.43.0


From 9277297c132ddd177545f23540b362e015939194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 072/325] fix: MLPPCost mae derivative ignored the targets

---
 core/cost.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 6a78998..ff02c09 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -150,7 +150,10 @@ real_t MLPPCost::maem(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 Ref<MLPPVector> MLPPCost::mae_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 	int y_hat_size = y_hat->size();
 
+	ERR_FAIL_COND_V(y_hat_size != y->size(), Ref<MLPPVector>());
+
 	const real_t *y_hat_ptr = y_hat->ptr();
+	const real_t *y_ptr = y->ptr();
 
 	Ref<MLPPVector> deriv;
 	deriv.instance();
@@ -158,11 +161,11 @@ Ref<MLPPVector> MLPPCost::mae_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLP
 	real_t *deriv_ptr = deriv->ptrw();
 
 	for (int i = 0; i < y_hat_size; ++i) {
-		int y_hat_ptr_i = y_hat_ptr[i];
+		real_t diff = y_hat_ptr[i] - y_ptr[i];
 
-		if (y_hat_ptr_i < 0) {
+		if (diff < 0) {
 			deriv_ptr[i] = -1;
-		} else if (y_hat_ptr_i == 0) {
+		} else if (diff == 0) {
 			deriv_ptr[i] = 0;
 		} else {
 			deriv_ptr[i] = 1;
@@ -174,7 +177,10 @@ Ref<MLPPVector> MLPPCost::mae_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLP
 Ref<MLPPMatrix> MLPPCost::mae_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	int y_hat_data_size = y_hat->data_size();
 
+	ERR_FAIL_COND_V(y_hat_data_size != y->data_size(), Ref<MLPPMatrix>());
+
 	const real_t *y_hat_ptr = y_hat->ptr();
+	const real_t *y_ptr = y->ptr();
 
 	Ref<MLPPMatrix> deriv;
 	deriv.instance();
@@ -182,11 +188,11 @@ Ref<MLPPMatrix> MLPPCost::mae_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLP
 	real_t *deriv_ptr = deriv->ptrw();
 
 	for (int i = 0; i < y_hat_data_size; ++i) {
-		int y_hat_ptr_i = y_hat_ptr[i];
+		real_t diff = y_hat_ptr[i] - y_ptr[i];
 
-		if (y_hat_ptr_i < 0) {
+		if (diff < 0) {
 			deriv_ptr[i] = -1;
-		} else if (y_hat_ptr_i == 0) {
+		} else if (diff == 0) {
 			deriv_ptr[i] = 0;
 		} else {
 			deriv_ptr[i] = 1;
-- 
2.43.0


From eaa789bac4eba61b41f7d4a811480e8b756252f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 073/325] fix: MLPPCost mbe_derivm had the transposed shape

---
 core/cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index ff02c09..899ba41 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -239,7 +239,7 @@ Ref<MLPPVector> MLPPCost::mbe_derivv(const Ref<MLPPVector> &y_hat, const Ref<MLP
 }
 Ref<MLPPMatrix> MLPPCost::mbe_derivm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	MLPPLinAlg alg;
-	return alg.onematnm(y_hat->size().x, y_hat->size().y);
+	return alg.onematnm(y_hat->size().y, y_hat->size().x);
 }
 
 // Classification Costs
-- 
2.43.0


From 24ff80c90c4c6ec6654a446af37a47d0eedcdf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 074/325] fix: MLPPCost cross entropy was NaN for zero
 predictions of absent classes

---
 core/cost.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 899ba41..51423ec 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -301,7 +301,10 @@ real_t MLPPCost::cross_entropyv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVect
 
 	real_t sum = 0;
 	for (int i = 0; i < y_hat_size; ++i) {
-		sum += y_ptr[i] * Math::log(y_hat_ptr[i]);
+		// 0 * log(0) is 0 in the limit, but NaN in floating point.
+		if (y_ptr[i] != 0) {
+			sum += y_ptr[i] * Math::log(y_hat_ptr[i]);
+		}
 	}
 
 	return -1 * sum;
@@ -316,7 +319,10 @@ real_t MLPPCost::cross_entropym(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatr
 
 	real_t sum = 0;
 	for (int i = 0; i < y_hat_data_size; ++i) {
-		sum += y_ptr[i] * Math::log(y_hat_ptr[i]);
+		// 0 * log(0) is 0 in the limit, but NaN in floating point.
+		if (y_ptr[i] != 0) {
+			sum += y_ptr[i] * Math::log(y_hat_ptr[i]);
+		}
 	}
 
 	return -1 * sum;
-- 
2.43.0


From 54d0d6f1e4a9b8e20b7dea3a7cbb0c0dadacd9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 075/325] fix: MLPPCost huber loss derivative was not the
 gradient of huber loss

---
 core/cost.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index 51423ec..acaf491 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -396,13 +396,9 @@ Ref<MLPPVector> MLPPCost::huber_loss_derivv(const Ref<MLPPVector> &y_hat, const
 
 	for (int i = 0; i < y_hat_size; ++i) {
 		if (ABS(y_ptr[i] - y_hat_ptr[i]) <= delta) {
-			deriv_ptr[i] = (-(y_ptr[i] - y_hat_ptr[i]));
+			deriv_ptr[i] = (-2 * (y_ptr[i] - y_hat_ptr[i]));
 		} else {
-			if (y_hat_ptr[i] > 0 || y_hat_ptr[i] < 0) {
-				deriv_ptr[i] = (2 * delta * (y_hat_ptr[i] / ABS(y_hat_ptr[i])));
-			} else {
-				deriv_ptr[i] = (0);
-			}
+			deriv_ptr[i] = y_hat_ptr[i] > y_ptr[i] ? 2 * delta : -2 * delta;
 		}
 	}
 
@@ -426,13 +422,9 @@ Ref<MLPPMatrix> MLPPCost::huber_loss_derivm(const Ref<MLPPMatrix> &y_hat, const
 
 	for (int i = 0; i < y_hat_data_size; ++i) {
 		if (ABS(y_ptr[i] - y_hat_ptr[i]) <= delta) {
-			deriv_ptr[i] = (-(y_ptr[i] - y_hat_ptr[i]));
+			deriv_ptr[i] = (-2 * (y_ptr[i] - y_hat_ptr[i]));
 		} else {
-			if (y_hat_ptr[i] > 0 || y_hat_ptr[i] < 0) {
-				deriv_ptr[i] = (2 * delta * (y_hat_ptr[i] / ABS(y_hat_ptr[i])));
-			} else {
-				deriv_ptr[i] = (0);
-			}
+			deriv_ptr[i] = y_hat_ptr[i] > y_ptr[i] ? 2 * delta : -2 * delta;
 		}
 	}
 
-- 
2.43.0


From 5ff7c47e4ff2d2ce71b7630d0ca00fce0f4a4700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 076/325] fix: MLPPCost hinge_losswm used the vector
 regularization

---
 core/cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/cost.cpp b/core/cost.cpp
index acaf491..93409f9 100644
--- a/core/cost.cpp
+++ b/core/cost.cpp
@@ -521,7 +521,7 @@ real_t MLPPCost::hinge_losswm(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix
 	MLPPLinAlg alg;
 	MLPPReg regularization;
 
-	return C * hinge_lossm(y_hat, y) + regularization.reg_termv(weights, 1, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
+	return C * hinge_lossm(y_hat, y) + regularization.reg_termm(weights, 1, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 }
 
 Ref<MLPPVector> MLPPCost::hinge_loss_derivwv(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y, real_t C) {
-- 
2.43.0


From 32281285d3baf71a1348cefb122c36fd12b27e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 077/325] fix: MLPPUtilities mini batches started at the wrong
 rows

---
 core/utilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 288ba48..572643a 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -640,7 +640,7 @@ Vector<Ref<MLPPMatrix>> MLPPUtilities::create_mini_batchesm(const Ref<MLPPMatrix
 
 	// Creating the mini-batches
 	for (int i = 0; i < n_mini_batch; i++) {
-		int mini_batch_start_offset = n_mini_batch * i;
+		int mini_batch_start_offset = mini_batch_element_count * i;
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
 		current_input_set->resize(Size2i(size.x, mini_batch_element_count));
@@ -727,7 +727,7 @@ MLPPUtilities::CreateMiniBatchMMBatch MLPPUtilities::create_mini_batchesmm(const
 	CreateMiniBatchMMBatch ret;
 
 	for (int i = 0; i < n_mini_batch; i++) {
-		int mini_batch_start_offset = n_mini_batch * i;
+		int mini_batch_start_offset = mini_batch_element_count * i;
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
 		current_input_set->resize(Size2i(input_set_size.x, mini_batch_element_count));
-- 
2.43.0


From cbd1515ff10fefc09363c6f849a7d296f449ff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 078/325] fix: MLPPUtilities create_mini_batchesmv paired rows
 with the wrong labels

---
 core/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 572643a..1581fef 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -691,7 +691,7 @@ MLPPUtilities::CreateMiniBatchMVBatch MLPPUtilities::create_mini_batchesmv(const
 			input_set->row_get_into_mlpp_vector(main_indx, row_tmp);
 			current_input_set->row_set_mlpp_vector(j, row_tmp);
 
-			current_output_set->element_set(j, output_set->element_get(j));
+			current_output_set->element_set(j, output_set->element_get(main_indx));
 		}
 
 		ret.input_sets.push_back(current_input_set);
-- 
2.43.0


From 43ccf11c2e7caf1c39987da4eb20b145c1a680c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 079/325] fix: MLPPUtilities mini batches dropped the left over
 rows

---
 core/utilities.cpp | 50 ++++++++++++++++------------------------------
 1 file changed, 17 insertions(+), 33 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 1581fef..f948e1e 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -641,11 +641,14 @@ Vector<Ref<MLPPMatrix>> MLPPUtilities::create_mini_batchesm(const Ref<MLPPMatrix
 	// Creating the mini-batches
 	for (int i = 0; i < n_mini_batch; i++) {
 		int mini_batch_start_offset = mini_batch_element_count * i;
+		// The last batch also gets the rows that are left over.
+		int current_element_count = i == n_mini_batch - 1 ? n - mini_batch_start_offset : mini_batch_element_count;
+
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
-		current_input_set->resize(Size2i(size.x, mini_batch_element_count));
+		current_input_set->resize(Size2i(size.x, current_element_count));
 
-		for (int j = 0; j < mini_batch_element_count; j++) {
+		for (int j = 0; j < current_element_count; j++) {
 			input_set->row_get_into_mlpp_vector(mini_batch_start_offset + j, row_tmp);
 			current_input_set->row_set_mlpp_vector(j, row_tmp);
 		}
@@ -653,14 +656,6 @@ Vector<Ref<MLPPMatrix>> MLPPUtilities::create_mini_batchesm(const Ref<MLPPMatrix
 		input_mini_batches.push_back(current_input_set);
 	}
 
-	/* Don't think this can ever happen, todo double check
-	if (real_t(n) / real_t(n_mini_batch) - int(n / n_mini_batch) != 0) {
-		for (int i = 0; i < n - n / n_mini_batch * n_mini_batch; i++) {
-			inputMiniBatches[n_mini_batch - 1].push_back(inputSet[n_mini_batch * n_mini_batch + i]);
-		}
-	}
-	*/
-
 	return input_mini_batches;
 }
 MLPPUtilities::CreateMiniBatchMVBatch MLPPUtilities::create_mini_batchesmv(const Ref<MLPPMatrix> &input_set, const Ref<MLPPVector> &output_set, int n_mini_batch) {
@@ -677,15 +672,18 @@ MLPPUtilities::CreateMiniBatchMVBatch MLPPUtilities::create_mini_batchesmv(const
 
 	for (int i = 0; i < n_mini_batch; i++) {
 		int mini_batch_start_offset = mini_batch_element_count * i;
+		// The last batch also gets the rows that are left over.
+		int current_element_count = i == n_mini_batch - 1 ? n - mini_batch_start_offset : mini_batch_element_count;
+
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
-		current_input_set->resize(Size2i(size.x, mini_batch_element_count));
+		current_input_set->resize(Size2i(size.x, current_element_count));
 
 		Ref<MLPPVector> current_output_set;
 		current_output_set.instance();
-		current_output_set->resize(mini_batch_element_count);
+		current_output_set->resize(current_element_count);
 
-		for (int j = 0; j < mini_batch_element_count; j++) {
+		for (int j = 0; j < current_element_count; j++) {
 			int main_indx = mini_batch_start_offset + j;
 
 			input_set->row_get_into_mlpp_vector(main_indx, row_tmp);
@@ -698,15 +696,6 @@ MLPPUtilities::CreateMiniBatchMVBatch MLPPUtilities::create_mini_batchesmv(const
 		ret.output_sets.push_back(current_output_set);
 	}
 
-	/* Don't think this can ever happen, todo double check
-	if (real_t(n) / real_t(n_mini_batch) - int(n / n_mini_batch) != 0) {
-		for (int i = 0; i < n - n / n_mini_batch * n_mini_batch; i++) {
-			inputMiniBatches[n_mini_batch - 1].push_back(inputSet[n / n_mini_batch * n_mini_batch + i]);
-			outputMiniBatches[n_mini_batch - 1].push_back(outputSet[n / n_mini_batch * n_mini_batch + i]);
-		}
-	}
-	*/
-
 	return ret;
 }
 MLPPUtilities::CreateMiniBatchMMBatch MLPPUtilities::create_mini_batchesmm(const Ref<MLPPMatrix> &input_set, const Ref<MLPPMatrix> &output_set, int n_mini_batch) {
@@ -728,15 +717,18 @@ MLPPUtilities::CreateMiniBatchMMBatch MLPPUtilities::create_mini_batchesmm(const
 
 	for (int i = 0; i < n_mini_batch; i++) {
 		int mini_batch_start_offset = mini_batch_element_count * i;
+		// The last batch also gets the rows that are left over.
+		int current_element_count = i == n_mini_batch - 1 ? n - mini_batch_start_offset : mini_batch_element_count;
+
 		Ref<MLPPMatrix> current_input_set;
 		current_input_set.instance();
-		current_input_set->resize(Size2i(input_set_size.x, mini_batch_element_count));
+		current_input_set->resize(Size2i(input_set_size.x, current_element_count));
 
 		Ref<MLPPMatrix> current_output_set;
 		current_output_set.instance();
-		current_output_set->resize(Size2i(output_set_size.x, mini_batch_element_count));
+		current_output_set->resize(Size2i(output_set_size.x, current_element_count));
 
-		for (int j = 0; j < mini_batch_element_count; j++) {
+		for (int j = 0; j < current_element_count; j++) {
 			int main_indx = mini_batch_start_offset + j;
 
 			input_set->row_get_into_mlpp_vector(main_indx, input_row_tmp);
@@ -750,14 +742,6 @@ MLPPUtilities::CreateMiniBatchMMBatch MLPPUtilities::create_mini_batchesmm(const
 		ret.output_sets.push_back(current_output_set);
 	}
 
-	/* Don't think this can ever happen, todo double check
-	if (real_t(n) / real_t(n_mini_batch) - int(n / n_mini_batch) != 0) {
-		for (int i = 0; i < n - n / n_mini_batch * n_mini_batch; i++) {
-			inputMiniBatches[n_mini_batch - 1].push_back(inputSet[n / n_mini_batch * n_mini_batch + i]);
-		}
-	}
-	*/
-
 	return ret;
 }
 
-- 
2.43.0


From 21af9d2b46190d5e639e9fade1f24172bbf16436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 080/325] fix: MLPPUtilities weightInitialization used integer
 division

---
 core/utilities.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index f948e1e..80597b5 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -50,22 +50,22 @@ std::vector<real_t> MLPPUtilities::weightInitialization(int n, std::string type)
 	std::vector<real_t> weights;
 	for (int i = 0; i < n; i++) {
 		if (type == "XavierNormal") {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / (n + 1)));
+			std::normal_distribution<real_t> distribution(0, sqrt(2.0 / (n + 1)));
 			weights.push_back(distribution(generator));
 		} else if (type == "XavierUniform") {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / (n + 1)), sqrt(6 / (n + 1)));
+			std::uniform_real_distribution<real_t> distribution(-sqrt(6.0 / (n + 1)), sqrt(6.0 / (n + 1)));
 			weights.push_back(distribution(generator));
 		} else if (type == "HeNormal") {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / n));
+			std::normal_distribution<real_t> distribution(0, sqrt(2.0 / n));
 			weights.push_back(distribution(generator));
 		} else if (type == "HeUniform") {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / n), sqrt(6 / n));
+			std::uniform_real_distribution<real_t> distribution(-sqrt(6.0 / n), sqrt(6.0 / n));
 			weights.push_back(distribution(generator));
 		} else if (type == "LeCunNormal") {
-			std::normal_distribution<real_t> distribution(0, sqrt(1 / n));
+			std::normal_distribution<real_t> distribution(0, sqrt(1.0 / n));
 			weights.push_back(distribution(generator));
 		} else if (type == "LeCunUniform") {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(3 / n), sqrt(3 / n));
+			std::uniform_real_distribution<real_t> distribution(-sqrt(3.0 / n), sqrt(3.0 / n));
 			weights.push_back(distribution(generator));
 		} else if (type == "Uniform") {
 			std::uniform_real_distribution<real_t> distribution(-1 / sqrt(n), 1 / sqrt(n));
@@ -96,22 +96,22 @@ std::vector<std::vector<real_t>> MLPPUtilities::weightInitialization(int n, int
 	for (int i = 0; i < n; i++) {
 		for (int j = 0; j < m; j++) {
 			if (type == "XavierNormal") {
-				std::normal_distribution<real_t> distribution(0, sqrt(2 / (n + m)));
+				std::normal_distribution<real_t> distribution(0, sqrt(2.0 / (n + m)));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "XavierUniform") {
-				std::uniform_real_distribution<real_t> distribution(-sqrt(6 / (n + m)), sqrt(6 / (n + m)));
+				std::uniform_real_distribution<real_t> distribution(-sqrt(6.0 / (n + m)), sqrt(6.0 / (n + m)));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "HeNormal") {
-				std::normal_distribution<real_t> distribution(0, sqrt(2 / n));
+				std::normal_distribution<real_t> distribution(0, sqrt(2.0 / n));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "HeUniform") {
-				std::uniform_real_distribution<real_t> distribution(-sqrt(6 / n), sqrt(6 / n));
+				std::uniform_real_distribution<real_t> distribution(-sqrt(6.0 / n), sqrt(6.0 / n));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "LeCunNormal") {
-				std::normal_distribution<real_t> distribution(0, sqrt(1 / n));
+				std::normal_distribution<real_t> distribution(0, sqrt(1.0 / n));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "LeCunUniform") {
-				std::uniform_real_distribution<real_t> distribution(-sqrt(3 / n), sqrt(3 / n));
+				std::uniform_real_distribution<real_t> distribution(-sqrt(3.0 / n), sqrt(3.0 / n));
 				weights[i].push_back(distribution(generator));
 			} else if (type == "Uniform") {
 				std::uniform_real_distribution<real_t> distribution(-1 / sqrt(n), 1 / sqrt(n));
-- 
2.43.0


From 41bd03a7df65fcb0ae0b7af6a4ea0283ca8fdf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 081/325] fix: MLPPUtilities weight_initializationm used
 integer division

---
 core/utilities.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index 80597b5..ad18b0c 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -233,42 +233,42 @@ void MLPPUtilities::weight_initializationm(Ref<MLPPMatrix> weights, WeightDistri
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_XAVIER_NORMAL: {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / (n + m)));
+			std::normal_distribution<real_t> distribution(0, sqrt(2.0 / (n + m)));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_XAVIER_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / (n + m)), sqrt(6 / (n + m)));
+			std::uniform_real_distribution<real_t> distribution(-sqrt(6.0 / (n + m)), sqrt(6.0 / (n + m)));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_HE_NORMAL: {
-			std::normal_distribution<real_t> distribution(0, sqrt(2 / n));
+			std::normal_distribution<real_t> distribution(0, sqrt(2.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_HE_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(6 / n), sqrt(6 / n));
+			std::uniform_real_distribution<real_t> distribution(-sqrt(6.0 / n), sqrt(6.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_LE_CUN_NORMAL: {
-			std::normal_distribution<real_t> distribution(0, sqrt(1 / n));
+			std::normal_distribution<real_t> distribution(0, sqrt(1.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
 			}
 		} break;
 		case WEIGHT_DISTRIBUTION_TYPE_LE_CUN_UNIFORM: {
-			std::uniform_real_distribution<real_t> distribution(-sqrt(3 / n), sqrt(3 / n));
+			std::uniform_real_distribution<real_t> distribution(-sqrt(3.0 / n), sqrt(3.0 / n));
 
 			for (int i = 0; i < data_size; ++i) {
 				weights_ptr[i] = distribution(generator);
-- 
2.43.0


From 415a2bfb61d6f1b2fe5c86313f0bab6651a98ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 082/325] fix: MLPPUtilities bias_initializationv did not write
 the biases

---
 core/utilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/utilities.cpp b/core/utilities.cpp
index ad18b0c..2cef025 100644
--- a/core/utilities.cpp
+++ b/core/utilities.cpp
@@ -295,15 +295,15 @@ real_t MLPPUtilities::bias_initializationr() {
 void MLPPUtilities::bias_initializationv(Ref<MLPPVector> z) {
 	ERR_FAIL_COND(!z.is_valid());
 
-	std::vector<real_t> bias;
 	std::random_device rd;
 	std::default_random_engine generator(rd());
 	std::uniform_real_distribution<real_t> distribution(0, 1);
 
 	int n = z->size();
+	real_t *z_ptr = z->ptrw();
 
 	for (int i = 0; i < n; i++) {
-		bias.push_back(distribution(generator));
+		z_ptr[i] = distribution(generator);
 	}
 }
 
-- 
2.43.0


From 27275a37f6919238c5f99f14b628e53863c4713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 083/325] fix: MLPPConvolutions convolve_2d used the wrong
 window for strides above one

---
 core/convolutions.cpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index a06f422..769fe33 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -90,15 +90,7 @@ Ref<MLPPMatrix> MLPPConvolutions::convolve_2d(const Ref<MLPPMatrix> &p_input, co
 				for (int p = 0; p < F; p++) {
 					real_t val;
 
-					if (i == 0 && j == 0) {
-						val = input->element_get(i + k, j + p);
-					} else if (i == 0) {
-						val = input->element_get(i + k, j + (S - 1) + p);
-					} else if (j == 0) {
-						val = input->element_get(i + (S - 1) + k, j + p);
-					} else {
-						val = input->element_get(i + (S - 1) + k, j + (S - 1) + p);
-					}
+					val = input->element_get(i * S + k, j * S + p);
 
 					convolving_input->element_set(current_index, val);
 					++current_index;
-- 
2.43.0


From 7e2fe05b09cd5884fa5c0a34fece15a60db07c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 084/325] fix: MLPPConvolutions convolve_3d read the wrong
 input elements

---
 core/convolutions.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 769fe33..7d19501 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -135,7 +135,7 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 					if (i - P < 0 || j - P < 0 || i - P > input_size.y - 1 || j - P > input_size.x - 1) {
 						padded_input_slice->element_set(i, j, 0);
 					} else {
-						padded_input_slice->element_set(i, j, input->element_get(i - P, j - P, c));
+						padded_input_slice->element_set(i, j, input->element_get(c, i - P, j - P));
 					}
 				}
 			}
@@ -166,15 +166,7 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 						for (int p = 0; p < F; p++) {
 							real_t val;
 
-							if (i == 0 && j == 0) {
-								val = input->element_get(i + k, j + p, t);
-							} else if (i == 0) {
-								val = input->element_get(i + k, j + (S - 1) + p, t);
-							} else if (j == 0) {
-								val = input->element_get(i + (S - 1) + k, j + p, t);
-							} else {
-								val = input->element_get(i + (S - 1) + k, j + (S - 1) + p, t);
-							}
+							val = input->element_get(t, i * S + k, j * S + p);
 
 							convolving_input->element_set(current_index, val);
 							++current_index;
-- 
2.43.0


From 0291b30376678df6b2b6c0746af821d9538a484a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 085/325] fix: MLPPConvolutions convolve_3d did not separate
 its filters

---
 core/convolutions.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 7d19501..bc7ad75 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -152,11 +152,21 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 
 	Ref<MLPPVector> filter_flattened = filter->flatten();
 
+	int filter_data_size = input_size.z * F * F;
+
+	Ref<MLPPVector> current_filter;
+	current_filter.instance();
+	current_filter->resize(filter_data_size);
+
 	Ref<MLPPVector> convolving_input;
 	convolving_input.instance();
-	convolving_input->resize(input_size.z * F * F);
+	convolving_input->resize(filter_data_size);
 
 	for (int c = 0; c < C; c++) {
+		for (int i = 0; i < filter_data_size; i++) {
+			current_filter->element_set(i, filter_flattened->element_get(c * filter_data_size + i));
+		}
+
 		for (int i = 0; i < map_size; i++) {
 			for (int j = 0; j < map_size; j++) {
 				int current_index = 0;
@@ -174,7 +184,7 @@ Ref<MLPPTensor3> MLPPConvolutions::convolve_3d(const Ref<MLPPTensor3> &p_input,
 					}
 				}
 
-				feature_map->element_set(c, i, j, convolving_input->dot(filter_flattened));
+				feature_map->element_set(c, i, j, convolving_input->dot(current_filter));
 			}
 		}
 	}
-- 
2.43.0


From 58df5fa4420df98e7f0d1682be5bf9ad66459c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 086/325] fix: MLPPConvolutions pool_2d used the wrong window
 for strides above one

---
 core/convolutions.cpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index bc7ad75..75e3163 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -215,15 +215,7 @@ Ref<MLPPMatrix> MLPPConvolutions::pool_2d(const Ref<MLPPMatrix> &input, const in
 				for (int p = 0; p < F; p++) {
 					real_t val;
 
-					if (i == 0 && j == 0) {
-						val = input->element_get(i + k, j + p);
-					} else if (i == 0) {
-						val = input->element_get(i + k, j + (S - 1) + p);
-					} else if (j == 0) {
-						val = input->element_get(i + (S - 1) + k, j + p);
-					} else {
-						val = input->element_get(i + (S - 1) + k, j + (S - 1) + p);
-					}
+					val = input->element_get(i * S + k, j * S + p);
 
 					pooling_input->element_set(current_index, val);
 					++current_index;
-- 
2.43.0


From ba1d3003a7d8b1ca46063806b8317eb70006c300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 087/325] fix: MLPPConvolutions gaussian_2d exponent

---
 core/convolutions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 75e3163..30bce01 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -298,7 +298,7 @@ Ref<MLPPVector> MLPPConvolutions::global_pool_3d(const Ref<MLPPTensor3> &input,
 
 real_t MLPPConvolutions::gaussian_2d(const real_t x, const real_t y, const real_t std) {
 	real_t std_sq = std * std;
-	return 1 / (2 * Math_PI * std_sq) * Math::exp(-(x * x + y * y) / 2 * std_sq);
+	return 1 / (2 * Math_PI * std_sq) * Math::exp(-(x * x + y * y) / (2 * std_sq));
 }
 
 Ref<MLPPMatrix> MLPPConvolutions::gaussian_filter_2d(const int size, const real_t std) {
-- 
2.43.0


From 686c928dafce5d6ef9a7bb62640a3b76fdd91131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 088/325] fix: MLPPConvolutions dx border test on non-square
 images

---
 core/convolutions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/convolutions.cpp b/core/convolutions.cpp
index 30bce01..8bad327 100644
--- a/core/convolutions.cpp
+++ b/core/convolutions.cpp
@@ -331,7 +331,7 @@ Ref<MLPPMatrix> MLPPConvolutions::dx(const Ref<MLPPMatrix> &input) {
 
 	for (int i = 0; i < input_size.y; i++) {
 		for (int j = 0; j < input_size.x; j++) {
-			if (j != 0 && j != input_size.y - 1) {
+			if (j != 0 && j != input_size.x - 1) {
 				deriv->element_set(i, j, input->element_get(i, j + 1) - input->element_get(i, j - 1));
 			} else if (j == 0) {
 				deriv->element_set(i, j, input->element_get(i, j + 1)); // E0 - 0 = Implicit zero-padding
-- 
2.43.0


From e47d3cb798db66eb6bc1ddf8cafbaefb2f810564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 089/325] fix: MLPPTransforms discrete_cosine_transform on
 non-square blocks

---
 core/transforms.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/transforms.cpp b/core/transforms.cpp
index 76b844f..cf5e53b 100644
--- a/core/transforms.cpp
+++ b/core/transforms.cpp
@@ -53,6 +53,10 @@ Ref<MLPPMatrix> MLPPTransforms::discrete_cosine_transform(const Ref<MLPPMatrix>
 	real_t inv_sqrt_M = 1 / Math::sqrt(M);
 	real_t s2M = Math::sqrt(real_t(2) / real_t(M));
 
+	real_t N = size.x;
+	real_t inv_sqrt_N = 1 / Math::sqrt(N);
+	real_t s2N = Math::sqrt(real_t(2) / real_t(N));
+
 	for (int i = 0; i < size.y; i++) {
 		for (int j = 0; j < size.x; j++) {
 			real_t sum = 0;
@@ -66,14 +70,14 @@ Ref<MLPPMatrix> MLPPTransforms::discrete_cosine_transform(const Ref<MLPPMatrix>
 
 			real_t alphaJ;
 			if (j == 0) {
-				alphaJ = inv_sqrt_M;
+				alphaJ = inv_sqrt_N;
 			} else {
-				alphaJ = s2M;
+				alphaJ = s2N;
 			}
 
 			for (int k = 0; k < size.y; k++) {
 				for (int f = 0; f < size.x; f++) {
-					sum += A->element_get(k, f) * Math::cos((Math_PI * i * (2 * k + 1)) / (2 * M)) * Math::cos((Math_PI * j * (2 * f + 1)) / (2 * M));
+					sum += A->element_get(k, f) * Math::cos((Math_PI * i * (2 * k + 1)) / (2 * M)) * Math::cos((Math_PI * j * (2 * f + 1)) / (2 * N));
 				}
 			}
 
-- 
2.43.0


From 072e33ce9eb21bd3f4ab2062330abb4b5503f58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 090/325] fix: MLPPNumericalAnalysis derivative steps were too
 small for real_t

---
 core/numerical_analysis.cpp | 108 ++++++++++++++++++++----------------
 1 file changed, 61 insertions(+), 47 deletions(-)

diff --git a/core/numerical_analysis.cpp b/core/numerical_analysis.cpp
index 5252378..1ff3de7 100644
--- a/core/numerical_analysis.cpp
+++ b/core/numerical_analysis.cpp
@@ -36,21 +36,37 @@
 #include "../core/mlpp_tensor3.h"
 #include "../core/mlpp_vector.h"
 
+// Steps for the central differences below. The smallest usable step depends on the precision of real_t:
+// with a smaller one the differences of the function values are lost in rounding errors.
+#ifdef REAL_T_IS_DOUBLE
+static const real_t DIFF_STEP_1 = 5e-6;
+static const real_t DIFF_STEP_2 = 2e-4;
+static const real_t DIFF_STEP_3 = 1e-3;
+#else
+static const real_t DIFF_STEP_1 = 5e-3;
+static const real_t DIFF_STEP_2 = 3e-2;
+static const real_t DIFF_STEP_3 = 6e-2;
+#endif
+
+static _FORCE_INLINE_ real_t diff_step(const real_t step, const real_t x) {
+	return step * MAX(real_t(1), Math::abs(x));
+}
+
 real_t MLPPNumericalAnalysis::num_diffr(real_t (*function)(real_t), real_t x) {
-	real_t eps = 1e-10;
-	return (function(x + eps) - function(x)) / eps; // This is just the formal def. of the derivative.
+	real_t eps = diff_step(DIFF_STEP_1, x);
+	return (function(x + eps) - function(x - eps)) / (2 * eps);
 }
 
 real_t MLPPNumericalAnalysis::num_diff_2r(real_t (*function)(real_t), real_t x) {
-	real_t eps = 1e-5;
-	return (function(x + 2 * eps) - 2 * function(x + eps) + function(x)) / (eps * eps);
+	real_t eps = diff_step(DIFF_STEP_2, x);
+	return (function(x + eps) - 2 * function(x) + function(x - eps)) / (eps * eps);
 }
 
 real_t MLPPNumericalAnalysis::num_diff_3r(real_t (*function)(real_t), real_t x) {
-	real_t eps = 1e-5;
-	real_t t1 = function(x + 3 * eps) - 2 * function(x + 2 * eps) + function(x + eps);
-	real_t t2 = function(x + 2 * eps) - 2 * function(x + eps) + function(x);
-	return (t1 - t2) / (eps * eps * eps);
+	real_t eps = diff_step(DIFF_STEP_3, x);
+	real_t t1 = function(x + 2 * eps) - 2 * function(x + eps);
+	real_t t2 = function(x - 2 * eps) - 2 * function(x - eps);
+	return (t1 - t2) / (2 * eps * eps * eps);
 }
 
 real_t MLPPNumericalAnalysis::constant_approximationr(real_t (*function)(real_t), real_t c) {
@@ -73,65 +89,63 @@ real_t MLPPNumericalAnalysis::num_diffv(real_t (*function)(const Ref<MLPPVector>
 	// For multivariable function analysis.
 	// This will be used for calculating Jacobian vectors.
 	// Diffrentiate with respect to indicated axis. (0, 1, 2 ...)
-	real_t eps = 1e-10;
-	Ref<MLPPVector> x_eps = x->duplicate_fast();
-	x_eps->element_get_ref(axis) += eps;
+	real_t eps = diff_step(DIFF_STEP_1, x->element_get(axis));
+
+	Ref<MLPPVector> x_p = x->duplicate_fast();
+	x_p->element_get_ref(axis) += eps;
 
-	return (function(x_eps) - function(x)) / eps;
+	Ref<MLPPVector> x_n = x->duplicate_fast();
+	x_n->element_get_ref(axis) -= eps;
+
+	return (function(x_p) - function(x_n)) / (2 * eps);
 }
 
 real_t MLPPNumericalAnalysis::num_diff_2v(real_t (*function)(const Ref<MLPPVector> &), const Ref<MLPPVector> &x, int axis1, int axis2) {
 	//For Hessians.
-	real_t eps = 1e-5;
+	real_t eps1 = diff_step(DIFF_STEP_2, x->element_get(axis1));
+	real_t eps2 = diff_step(DIFF_STEP_2, x->element_get(axis2));
 
 	Ref<MLPPVector> x_pp = x->duplicate_fast();
-	x_pp->element_get_ref(axis1) += eps;
-	x_pp->element_get_ref(axis2) += eps;
+	x_pp->element_get_ref(axis1) += eps1;
+	x_pp->element_get_ref(axis2) += eps2;
 
 	Ref<MLPPVector> x_np = x->duplicate_fast();
-	x_np->element_get_ref(axis2) += eps;
+	x_np->element_get_ref(axis1) -= eps1;
+	x_np->element_get_ref(axis2) += eps2;
 
 	Ref<MLPPVector> x_pn = x->duplicate_fast();
-	x_pn->element_get_ref(axis1) += eps;
+	x_pn->element_get_ref(axis1) += eps1;
+	x_pn->element_get_ref(axis2) -= eps2;
+
+	Ref<MLPPVector> x_nn = x->duplicate_fast();
+	x_nn->element_get_ref(axis1) -= eps1;
+	x_nn->element_get_ref(axis2) -= eps2;
 
-	return (function(x_pp) - function(x_np) - function(x_pn) + function(x)) / (eps * eps);
+	return (function(x_pp) - function(x_np) - function(x_pn) + function(x_nn)) / (4 * eps1 * eps2);
 }
 
 real_t MLPPNumericalAnalysis::num_diff_3v(real_t (*function)(const Ref<MLPPVector> &), const Ref<MLPPVector> &x, int axis1, int axis2, int axis3) {
 	// For third order derivative tensors.
-	// NOTE: Approximations do not appear to be accurate for sinusodial functions...
-	// Should revisit this later.
-	real_t eps = 1e-5;
-
-	Ref<MLPPVector> x_ppp = x->duplicate_fast();
-	x_ppp->element_get_ref(axis1) += eps;
-	x_ppp->element_get_ref(axis2) += eps;
-	x_ppp->element_get_ref(axis3) += eps;
+	real_t eps1 = diff_step(DIFF_STEP_3, x->element_get(axis1));
+	real_t eps2 = diff_step(DIFF_STEP_3, x->element_get(axis2));
+	real_t eps3 = diff_step(DIFF_STEP_3, x->element_get(axis3));
 
-	Ref<MLPPVector> x_npp = x->duplicate_fast();
-	x_npp->element_get_ref(axis2) += eps;
-	x_npp->element_get_ref(axis3) += eps;
+	real_t sum = 0;
 
-	Ref<MLPPVector> x_pnp = x->duplicate_fast();
-	x_pnp->element_get_ref(axis1) += eps;
-	x_pnp->element_get_ref(axis3) += eps;
+	for (int i = -1; i <= 1; i += 2) {
+		for (int j = -1; j <= 1; j += 2) {
+			for (int k = -1; k <= 1; k += 2) {
+				Ref<MLPPVector> x_eps = x->duplicate_fast();
+				x_eps->element_get_ref(axis1) += i * eps1;
+				x_eps->element_get_ref(axis2) += j * eps2;
+				x_eps->element_get_ref(axis3) += k * eps3;
 
-	Ref<MLPPVector> x_nnp = x->duplicate_fast();
-	x_nnp->element_get_ref(axis3) += eps;
-
-	Ref<MLPPVector> x_ppn = x->duplicate_fast();
-	x_ppn->element_get_ref(axis1) += eps;
-	x_ppn->element_get_ref(axis2) += eps;
-
-	Ref<MLPPVector> x_npn = x->duplicate_fast();
-	x_npn->element_get_ref(axis2) += eps;
-
-	Ref<MLPPVector> x_pnn = x->duplicate_fast();
-	x_pnn->element_get_ref(axis1) += eps;
+				sum += i * j * k * function(x_eps);
+			}
+		}
+	}
 
-	real_t thirdAxis = function(x_ppp) - function(x_npp) - function(x_pnp) + function(x_nnp);
-	real_t noThirdAxis = function(x_ppn) - function(x_npn) - function(x_pnn) + function(x);
-	return (thirdAxis - noThirdAxis) / (eps * eps * eps);
+	return sum / (8 * eps1 * eps2 * eps3);
 }
 
 real_t MLPPNumericalAnalysis::newton_raphson_method(real_t (*function)(real_t), real_t x_0, real_t epoch_num) {
-- 
2.43.0


From 656d519bce3aa4c87fdd5d71ac0327ade600db5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 091/325] fix: MLPPNumericalAnalysis linear_approximationv used
 an outer product

---
 core/numerical_analysis.cpp | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/core/numerical_analysis.cpp b/core/numerical_analysis.cpp
index 1ff3de7..f7f92fa 100644
--- a/core/numerical_analysis.cpp
+++ b/core/numerical_analysis.cpp
@@ -304,21 +304,10 @@ real_t MLPPNumericalAnalysis::constant_approximationv(real_t (*function)(const R
 }
 
 real_t MLPPNumericalAnalysis::linear_approximationv(real_t (*function)(const Ref<MLPPVector> &), const Ref<MLPPVector> &c, const Ref<MLPPVector> &x) {
-	MLPPLinAlg alg;
-
 	Ref<MLPPVector> j = jacobian(function, c);
-	Ref<MLPPMatrix> mj;
-	mj.instance();
-	mj->row_add_mlpp_vector(j);
-
 	Ref<MLPPVector> xsc = x->subn(c);
-	Ref<MLPPMatrix> mxsc;
-	mxsc.instance();
-	mxsc->row_add_mlpp_vector(xsc);
-
-	Ref<MLPPMatrix> m = mj->transposen()->multn(mxsc);
 
-	return constant_approximationv(function, c) + m->element_get(0, 0);
+	return constant_approximationv(function, c) + j->dot(xsc);
 }
 
 real_t MLPPNumericalAnalysis::quadratic_approximationv(real_t (*function)(const Ref<MLPPVector> &), const Ref<MLPPVector> &c, const Ref<MLPPVector> &x) {
-- 
2.43.0


From 13f34b9b98a0e7665452c5c9c72a863f7009c6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 092/325] fix: MLPPNumericalAnalysis cubic approximations used
 integer division

---
 core/numerical_analysis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/numerical_analysis.cpp b/core/numerical_analysis.cpp
index f7f92fa..6a11c25 100644
--- a/core/numerical_analysis.cpp
+++ b/core/numerical_analysis.cpp
@@ -82,7 +82,7 @@ real_t MLPPNumericalAnalysis::quadratic_approximationr(real_t (*function)(real_t
 }
 
 real_t MLPPNumericalAnalysis::cubic_approximationr(real_t (*function)(real_t), real_t c, real_t x) {
-	return quadratic_approximationr(function, c, x) + (1 / 6) * num_diff_3r(function, c) * (x - c) * (x - c) * (x - c);
+	return quadratic_approximationr(function, c, x) + (real_t(1) / 6) * num_diff_3r(function, c) * (x - c) * (x - c) * (x - c);
 }
 
 real_t MLPPNumericalAnalysis::num_diffv(real_t (*function)(const Ref<MLPPVector> &), const Ref<MLPPVector> &x, int axis) {
@@ -344,7 +344,7 @@ real_t MLPPNumericalAnalysis::cubic_approximationv(real_t (*function)(const Ref<
 	Ref<MLPPMatrix> result_mat = third_order_tensor(function, c)->tensor_vec_mult(xsc);
 	real_t result_scalar = mxsc->multn(result_mat->multn(mxsc->transposen()))->element_get(0, 0);
 
-	return quadratic_approximationv(function, c, x) + (1 / 6) * result_scalar;
+	return quadratic_approximationv(function, c, x) + (real_t(1) / 6) * result_scalar;
 }
 
 real_t MLPPNumericalAnalysis::laplacian(real_t (*function)(const Ref<MLPPVector> &), const Ref<MLPPVector> &x) {
-- 
2.43.0


From 53f716260b1d69cc839bfed90dff3c91164c4d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 093/325] fix: MLPPNumericalAnalysis
 inv_quadratic_interpolation divided by zero once converged

---
 core/numerical_analysis.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/core/numerical_analysis.cpp b/core/numerical_analysis.cpp
index 6a11c25..51cfb09 100644
--- a/core/numerical_analysis.cpp
+++ b/core/numerical_analysis.cpp
@@ -165,14 +165,23 @@ real_t MLPPNumericalAnalysis::halley_method(real_t (*function)(real_t), real_t x
 }
 
 real_t MLPPNumericalAnalysis::inv_quadratic_interpolation(real_t (*function)(real_t), const Ref<MLPPVector> &x_0, int epoch_num) {
-	real_t x = 0;
 	Ref<MLPPVector> ct = x_0->duplicate_fast();
 	MLPPVector &current_three = *(ct.ptr());
+	real_t x = current_three[2];
 
 	for (int i = 0; i < epoch_num; i++) {
-		real_t t1 = ((function(current_three[1]) * function(current_three[2])) / ((function(current_three[0]) - function(current_three[1])) * (function(current_three[0]) - function(current_three[2])))) * current_three[0];
-		real_t t2 = ((function(current_three[0]) * function(current_three[2])) / ((function(current_three[1]) - function(current_three[0])) * (function(current_three[1]) - function(current_three[2])))) * current_three[1];
-		real_t t3 = ((function(current_three[0]) * function(current_three[1])) / ((function(current_three[2]) - function(current_three[0])) * (function(current_three[2]) - function(current_three[1])))) * current_three[2];
+		real_t f0 = function(current_three[0]);
+		real_t f1 = function(current_three[1]);
+		real_t f2 = function(current_three[2]);
+
+		if (f2 == 0 || f0 == f1 || f0 == f2 || f1 == f2) {
+			// Converged, no quadratic can be put through the points anymore.
+			break;
+		}
+
+		real_t t1 = (f1 / (f0 - f1)) * (f2 / (f0 - f2)) * current_three[0];
+		real_t t2 = (f0 / (f1 - f0)) * (f2 / (f1 - f2)) * current_three[1];
+		real_t t3 = (f0 / (f2 - f0)) * (f1 / (f2 - f1)) * current_three[2];
 		x = t1 + t2 + t3;
 
 		current_three.remove(0);
-- 
2.43.0


From 3f571dc94d5fd46217673171a256b31557d9b377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 094/325] fix: MLPPData feature_scaling divided by zero for
 constant columns

---
 core/data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/data.cpp b/core/data.cpp
index 5ad5dec..c675966 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -975,7 +975,7 @@ Ref<MLPPMatrix> MLPPData::feature_scaling(const Ref<MLPPMatrix> &p_X) {
 		for (int j = 0; j < x_size.x; j++) {
 			real_t xij = X->element_get(i, j);
 
-			X->element_set(i, j, (xij - mine) / (maxe - mine));
+			X->element_set(i, j, (maxe > mine) ? (xij - mine) / (maxe - mine) : 0);
 		}
 	}
 
-- 
2.43.0


From 26a2d58681893cbaa10a97650fe315c266974940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 095/325] fix: MLPPData mean_normalization divided by zero for
 constant rows

---
 core/data.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/data.cpp b/core/data.cpp
index c675966..110f69d 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -1024,7 +1024,11 @@ Ref<MLPPMatrix> MLPPData::mean_normalization(const Ref<MLPPMatrix> &p_X) {
 	for (int i = 0; i < x_size.y; i++) {
 		X->row_get_into_mlpp_vector(i, x_row_tmp);
 
-		x_row_tmp->scalar_multiply((real_t)1 / stat.standard_deviationv(x_row_tmp));
+		real_t std_dev = stat.standard_deviationv(x_row_tmp);
+
+		if (std_dev > 0) {
+			x_row_tmp->scalar_multiply((real_t)1 / std_dev);
+		}
 
 		X->row_set_mlpp_vector(i, x_row_tmp);
 	}
-- 
2.43.0


From 841310a2588c3c612991c8da7069e76692be5e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 096/325] fix: MLPPData reverseOneHot is the inverse of
 one_hot_rep

---
 core/data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/data.cpp b/core/data.cpp
index 110f69d..41fbdb7 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -1064,7 +1064,7 @@ std::vector<real_t> MLPPData::reverseOneHot(std::vector<std::vector<real_t>> tem
 	std::vector<real_t> outputSet;
 	//uint32_t n_class = tempOutputSet[0].size();
 	for (uint32_t i = 0; i < tempOutputSet.size(); i++) {
-		int current_class = 1;
+		int current_class = 0;
 		for (uint32_t j = 0; j < tempOutputSet[i].size(); j++) {
 			if (tempOutputSet[i][j] == 1) {
 				break;
-- 
2.43.0


From b330be0f51f38484b47388f95ae5245bff04e0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 097/325] fix: MLPPData set_data_supervised crashed on blank
 lines

---
 core/data.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/data.cpp b/core/data.cpp
index 41fbdb7..643d7f3 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -280,6 +280,11 @@ void MLPPData::set_data_supervised(int k, const String &file_name, Ref<MLPPMatri
 	while (!file->eof_reached()) {
 		Vector<String> ll = file->get_csv_line();
 
+		if (ll.size() <= k) {
+			// Blank line.
+			continue;
+		}
+
 		Vector<real_t> row;
 
 		for (int i = 0; i < k; ++i) {
-- 
2.43.0


From f07abd5323c941217d5bceaed65bd37d92c5f879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 098/325] fix: MLPPData set_data_unsupervised crashed on blank
 lines

---
 core/data.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/data.cpp b/core/data.cpp
index 643d7f3..af96e31 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -321,6 +321,11 @@ void MLPPData::set_data_unsupervised(int k, const String &file_name, Ref<MLPPMat
 	while (!file->eof_reached()) {
 		Vector<String> ll = file->get_csv_line();
 
+		if (ll.size() < k || (ll.size() == 1 && ll[0].empty())) {
+			// Blank line.
+			continue;
+		}
+
 		for (int i = 0; i < k; ++i) {
 			input_set_tmp.write[i].push_back(static_cast<real_t>(ll[i].to_double()));
 		}
-- 
2.43.0


From f21477e8427e122f591d6643982b86e199c26536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 099/325] fix: MLPPData set_data_unsupervised lost its
 transposed result

---
 core/data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/data.cpp b/core/data.cpp
index af96e31..7dbafd0 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -335,7 +335,7 @@ void MLPPData::set_data_unsupervised(int k, const String &file_name, Ref<MLPPMat
 	memdelete(file);
 
 	input_set->set_from_vectors(input_set_tmp);
-	input_set = alg.transposenm(input_set);
+	input_set->set_from_mlpp_matrix(alg.transposenm(input_set));
 }
 
 void MLPPData::set_data_simple(const String &file_name, Ref<MLPPVector> input_set, Ref<MLPPVector> output_set) {
-- 
2.43.0


From 118963e3da9e2d5d754f2cc489ec0e0dc951ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 100/325] fix: MLPPData set_data_simple crashed on blank lines

---
 core/data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/data.cpp b/core/data.cpp
index 7dbafd0..0fbb286 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -355,7 +355,7 @@ void MLPPData::set_data_simple(const String &file_name, Ref<MLPPVector> input_se
 	while (!file->eof_reached()) {
 		Vector<String> ll = file->get_csv_line();
 
-		for (int i = 0; i < ll.size(); i += 2) {
+		for (int i = 0; i + 1 < ll.size(); i += 2) {
 			input_set_tmp.push_back(static_cast<real_t>(ll[i].to_double()));
 			output_set_tmp.push_back(static_cast<real_t>(ll[i + 1].to_double()));
 		}
-- 
2.43.0


From e57924de1fa8ef4212da9139fd83e84548eab3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 101/325] fix: MLPPData split_sentences did not split at
 periods

---
 core/data.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/core/data.cpp b/core/data.cpp
index 0fbb286..5276a56 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -584,19 +584,22 @@ Vector<String> MLPPData::split_sentences(String data) {
 
 	int start_index = 0;
 
-	for (int i = 0; i < data.length() - 1; ++i) {
-		if (data[i] == '.' && data[i + 1] != '.') {
+	for (int i = 0; i < data.length(); ++i) {
+		if (data[i] != '.') {
 			continue;
 		}
 
-		if (data[i] == '.') {
-			sentences.push_back(data.substr_index(start_index, i));
-			start_index = i + 1;
+		// Ellipsis
+		if (i + 1 < data.length() && data[i + 1] == '.') {
+			continue;
 		}
+
+		sentences.push_back(data.substr_index(start_index, i));
+		start_index = i + 1;
 	}
 
-	if (start_index != data.length() - 1) {
-		sentences.push_back(data.substr_index(start_index, data.length() - 1));
+	if (start_index < data.length()) {
+		sentences.push_back(data.substr_index(start_index, data.length()));
 	}
 
 	return sentences;
-- 
2.43.0


From ef35b4b12d0209f86b3c92a1d9b98be9c177b49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 102/325] fix: MLPPData remove_empty skipped consecutive empty
 strings

---
 core/data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/data.cpp b/core/data.cpp
index 5276a56..098092f 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -616,6 +616,7 @@ Vector<String> MLPPData::remove_empty(Vector<String> data) {
 	for (int i = 0; i < data.size(); ++i) {
 		if (data[i].empty()) {
 			data.remove(i);
+			--i;
 		}
 	}
 
-- 
2.43.0


From b103cb62ddcfc26be2007f5c5eba6e184236ae99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 103/325] fix: MLPPData segment dropped characters following
 punctuation

---
 core/data.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/data.cpp b/core/data.cpp
index 098092f..15b6faa 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -636,8 +636,13 @@ Vector<String> MLPPData::segment(String text) {
 			String punc;
 			punc += text[i];
 			segmented_data.push_back(punc);
-			prev_delim = i + 2;
-			i++;
+			prev_delim = i + 1;
+
+			// Also skip the space after the punctuation.
+			if (i + 1 < text.length() && text[i + 1] == ' ') {
+				prev_delim = i + 2;
+				i++;
+			}
 		} else if (i == text.length() - 1) {
 			segmented_data.push_back(text.substr(prev_delim, text.length() - prev_delim)); // hehe oops- forgot this
 		}
-- 
2.43.0


From 2f7b8923c8bb080962cd568875760e2829197bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 104/325] fix: MLPPData remove_stop_words_vec crashed when the
 first word is a stop word

---
 core/data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/data.cpp b/core/data.cpp
index 15b6faa..4c78ea1 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -697,6 +697,7 @@ Vector<String> MLPPData::remove_stop_words_vec(Vector<String> segmented_data) {
 			if (segmented_data[i] == stop_words[j]) {
 				segmented_data.remove(i);
 				--i;
+				break;
 			}
 		}
 	}
-- 
2.43.0


From 9140e0c7842c474530d5ee8dcfac2e0c9811fc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 105/325] fix: MLPPData tfidf did not initialise the term
 frequencies

---
 core/data.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/data.cpp b/core/data.cpp
index 4c78ea1..1ccb5df 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -776,6 +776,7 @@ Ref<MLPPMatrix> MLPPData::tfidf(Vector<String> sentences) {
 	Ref<MLPPMatrix> TF;
 	TF.instance();
 	TF->resize(Size2i(word_list.size(), segmented_sentences.size()));
+	TF->fill(0);
 
 	Vector<int> frequency;
 	frequency.resize(word_list.size());
-- 
2.43.0


From e41101de3b324d38a90d41a8b49f037be53033bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 106/325] fix: MLPPData tfidf divided by zero for sentences
 without words

---
 core/data.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/data.cpp b/core/data.cpp
index 1ccb5df..fc50580 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -804,6 +804,10 @@ Ref<MLPPMatrix> MLPPData::tfidf(Vector<String> sentences) {
 			}
 		}
 
+		if (segmented_sentences[i].size() == 0) {
+			continue;
+		}
+
 		TF->row_get_into_mlpp_vector(i, TF_row);
 		TF_row->scalar_multiply(real_t(1) / real_t(segmented_sentences[i].size()));
 		TF->row_set_mlpp_vector(i, TF_row);
-- 
2.43.0


From dc9c31696843f9ee598c5dc1f9a232c0ba9045e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 107/325] fix: MLPPData word_to_vec overwrote its input set
 with the outputs

---
 core/data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/data.cpp b/core/data.cpp
index fc50580..e499273 100644
--- a/core/data.cpp
+++ b/core/data.cpp
@@ -896,7 +896,7 @@ MLPPData::WordsToVecResult MLPPData::word_to_vec(Vector<String> sentences, WordT
 
 	for (int i = 0; i < output_set_size.y; i++) {
 		bow->row_get_into_mlpp_vector(i + input_size, row_tmp);
-		input_set->row_set_mlpp_vector(i, row_tmp);
+		output_set->row_set_mlpp_vector(i, row_tmp);
 	}
 
 	MLPPSoftmaxNet *model;
-- 
2.43.0


From 1a12eba3acdd9957de40a2c7d6fdc46febf90f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:15 +0000
Subject: [PATCH 108/325] fix: MLPPLinReg kept its regularisation parameters in
 integers

---
 modules/lin_reg/lin_reg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/lin_reg/lin_reg.h b/modules/lin_reg/lin_reg.h
index 5390364..d755bfd 100644
--- a/modules/lin_reg/lin_reg.h
+++ b/modules/lin_reg/lin_reg.h
@@ -115,8 +115,8 @@ protected:
 
 	// Regularization Params
 	MLPPReg::RegularizationType _reg;
-	int _lambda;
-	int _alpha; /* This is the controlling param for Elastic Net*/
+	real_t _lambda;
+	real_t _alpha; /* This is the controlling param for Elastic Net*/
 
 	bool _initialized;
 };
-- 
2.43.0


From ebcf1ef6ca49c26685f62235faf498cf037ede5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:15 +0000
Subject: [PATCH 109/325] fix: MLPPLinReg optimisers dropped the gradient
 through an integer division

---
 modules/lin_reg/lin_reg.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 73a1243..52dd5bb 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -310,7 +310,7 @@ void MLPPLinReg::momentum(real_t learning_rate, int max_epoch, int mini_batch_si
 
 			// Calculating the weight gradients
 
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
@@ -366,7 +366,7 @@ void MLPPLinReg::nag(real_t learning_rate, int max_epoch, int mini_batch_size, r
 
 			// Calculating the weight gradients
 
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -419,7 +419,7 @@ void MLPPLinReg::adagrad(real_t learning_rate, int max_epoch, int mini_batch_siz
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -472,7 +472,7 @@ void MLPPLinReg::adadelta(real_t learning_rate, int max_epoch, int mini_batch_si
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -525,7 +525,7 @@ void MLPPLinReg::adam(real_t learning_rate, int max_epoch, int mini_batch_size,
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -582,7 +582,7 @@ void MLPPLinReg::adamax(real_t learning_rate, int max_epoch, int mini_batch_size
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
@@ -639,7 +639,7 @@ void MLPPLinReg::nadam(real_t learning_rate, int max_epoch, int mini_batch_size,
 			Ref<MLPPVector> error = y_hat->subn(current_output_mini_batch);
 
 			// Calculating the weight gradients
-			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(1 / current_output_mini_batch->size());
+			Ref<MLPPVector> gradient = current_input_mini_batch->transposen()->mult_vec(error)->scalar_multiplyn(real_t(1) / current_output_mini_batch->size());
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
-- 
2.43.0


From c3fe5855ab1433ee1b75ba899f103364a009f181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:15 +0000
Subject: [PATCH 110/325] fix: MLPPLinReg adagrad did not accumulate squared
 gradients

---
 modules/lin_reg/lin_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 52dd5bb..853725e 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -423,7 +423,7 @@ void MLPPLinReg::adagrad(real_t learning_rate, int max_epoch, int mini_batch_siz
 			Ref<MLPPVector> reg_deriv_term = regularization.reg_deriv_termv(_weights, _lambda, _alpha, _reg);
 			Ref<MLPPVector> weight_grad = gradient->addn(reg_deriv_term); // Weight_grad_final
 
-			v = weight_grad->hadamard_productn(weight_grad);
+			v->add(weight_grad->hadamard_productn(weight_grad));
 			_weights->sub(weight_grad->division_element_wisen(v->scalar_addn(e)->sqrtn())->scalar_multiplyn(learning_rate));
 
 			// Calculating the bias gradients
-- 
2.43.0


From f8c0cedf6dcabd997ff01c73aff27fb7694aeec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:15 +0000
Subject: [PATCH 111/325] fix: MLPPLinReg normal_equation did not return the
 least-squares fit

---
 modules/lin_reg/lin_reg.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 853725e..fbd66ea 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -694,17 +694,29 @@ void MLPPLinReg::normal_equation() {
 		x_means->element_set(i, stat.meanv(input_set_t_row_tmp));
 	}
 
+	// The bias is fitted as well, so the weights have to be estimated from the centered data.
+	Ref<MLPPMatrix> centered_t = input_set_t->duplicate_fast();
+
+	for (int i = 0; i < _k; i++) {
+		for (int j = 0; j < _n; j++) {
+			centered_t->element_set(i, j, input_set_t->element_get(i, j) - x_means->element_get(i));
+		}
+	}
+
+	Ref<MLPPMatrix> centered = centered_t->transposen();
+	Ref<MLPPVector> centered_output = _output_set->scalar_addn(-stat.meanv(_output_set));
+
 	Ref<MLPPVector> temp;
 	//temp.resize(_k);
 
-	temp = input_set_t->multn(_input_set)->inverse()->mult_vec(input_set_t->mult_vec(_output_set));
+	temp = centered_t->multn(centered)->inverse()->mult_vec(centered_t->mult_vec(centered_output));
 
 	ERR_FAIL_COND_MSG(Math::is_nan(temp->element_get(0)), "ERR: Resulting matrix was noninvertible/degenerate, and so the normal equation could not be performed. Try utilizing gradient descent.");
 
 	if (_reg == MLPPReg::REGULARIZATION_TYPE_RIDGE) {
-		_weights = _input_set->transposen()->multn(_input_set)->addn(MLPPMatrix::create_identity_mat(_k)->scalar_multiplyn(_lambda))->inverse()->mult_vec(_input_set->transposen()->mult_vec(_output_set));
+		_weights = centered_t->multn(centered)->addn(MLPPMatrix::create_identity_mat(_k)->scalar_multiplyn(_lambda))->inverse()->mult_vec(centered_t->mult_vec(centered_output));
 	} else {
-		_weights = _input_set->transposen()->multn(_input_set)->inverse()->mult_vec(_input_set->transposen()->mult_vec(_output_set));
+		_weights = temp;
 	}
 
 	_bias = stat.meanv(_output_set) - _weights->dot(x_means);
-- 
2.43.0


From 87ee5a60b6ec5fa469fea6c20f8fdfd4381123e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 112/325] fix: MLPPProbitReg train_mbgd propagated the outputs
 instead of the inputs

---
 modules/probit_reg/probit_reg.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/modules/probit_reg/probit_reg.cpp b/modules/probit_reg/probit_reg.cpp
index 56aab86..1c3b645 100644
--- a/modules/probit_reg/probit_reg.cpp
+++ b/modules/probit_reg/probit_reg.cpp
@@ -275,10 +275,6 @@ void MLPPProbitReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_bat
 	int epoch = 1;
 	int n = _input_set->size().y;
 
-	Ref<MLPPVector> z_tmp;
-	z_tmp.instance();
-	z_tmp->resize(1);
-
 	// Creating the mini-batches
 	int n_mini_batch = n / mini_batch_size;
 
@@ -290,22 +286,20 @@ void MLPPProbitReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_bat
 			Ref<MLPPVector> current_output = batches.output_sets[i];
 
 			Ref<MLPPVector> y_hat = evaluatem(current_input);
-			real_t z = propagatev(current_output);
-
-			z_tmp->element_set(0, z);
+			Ref<MLPPVector> z = propagatem(current_input);
 
 			cost_prev = cost(y_hat, current_output);
 
 			Ref<MLPPVector> error = y_hat->subn(current_output);
 
 			// Calculating the weight gradients
-			_weights->sub(current_input->transposen()->mult_vec(error->hadamard_productn(avn.gaussian_cdf_derivv(z_tmp)))->scalar_multiplyn(learning_rate / batches.input_sets.size()));
+			_weights->sub(current_input->transposen()->mult_vec(error->hadamard_productn(avn.gaussian_cdf_derivv(z)))->scalar_multiplyn(learning_rate / batches.input_sets.size()));
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 			// Calculating the bias gradients
 
-			_bias -= learning_rate * error->hadamard_productn(avn.gaussian_cdf_derivv(z_tmp))->sum_elements() / batches.input_sets.size();
-			y_hat = evaluatev(current_input);
+			_bias -= learning_rate * error->hadamard_productn(avn.gaussian_cdf_derivv(z))->sum_elements() / batches.input_sets.size();
+			y_hat = evaluatem(current_input);
 
 			if (ui) {
 				MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat, current_output));
-- 
2.43.0


From bed3dc8c4ff9cba1818cdbcc297bdb7b347675dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 113/325] fix: MLPPProbitReg train_mbgd averaged over the
 number of batches

---
 modules/probit_reg/probit_reg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/probit_reg/probit_reg.cpp b/modules/probit_reg/probit_reg.cpp
index 1c3b645..8b93753 100644
--- a/modules/probit_reg/probit_reg.cpp
+++ b/modules/probit_reg/probit_reg.cpp
@@ -293,12 +293,12 @@ void MLPPProbitReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_bat
 			Ref<MLPPVector> error = y_hat->subn(current_output);
 
 			// Calculating the weight gradients
-			_weights->sub(current_input->transposen()->mult_vec(error->hadamard_productn(avn.gaussian_cdf_derivv(z)))->scalar_multiplyn(learning_rate / batches.input_sets.size()));
+			_weights->sub(current_input->transposen()->mult_vec(error->hadamard_productn(avn.gaussian_cdf_derivv(z)))->scalar_multiplyn(learning_rate / current_output->size()));
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 			// Calculating the bias gradients
 
-			_bias -= learning_rate * error->hadamard_productn(avn.gaussian_cdf_derivv(z))->sum_elements() / batches.input_sets.size();
+			_bias -= learning_rate * error->hadamard_productn(avn.gaussian_cdf_derivv(z))->sum_elements() / current_output->size();
 			y_hat = evaluatem(current_input);
 
 			if (ui) {
-- 
2.43.0


From fa9172d5abb1d47b00a7868f9520f81d45b978be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 114/325] fix: MLPPExpReg weight gradient left out the initial
 value

---
 modules/exp_reg/exp_reg.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/exp_reg/exp_reg.cpp b/modules/exp_reg/exp_reg.cpp
index 5ca6a13..7e1effb 100644
--- a/modules/exp_reg/exp_reg.cpp
+++ b/modules/exp_reg/exp_reg.cpp
@@ -62,7 +62,7 @@ void MLPPExpReg::gradient_descent(real_t learning_rate, int max_epoch, bool ui)
 			// Calculating the weight gradient
 			real_t sum = 0;
 			for (int j = 0; j < _n; j++) {
-				sum += error->element_get(j) * _input_set->element_get(j, i) * Math::pow(_weights->element_get(i), _input_set->element_get(j, i) - 1);
+				sum += error->element_get(j) * _initial->element_get(i) * _input_set->element_get(j, i) * Math::pow(_weights->element_get(i), _input_set->element_get(j, i) - 1);
 			}
 			real_t w_gradient = sum / _n;
 
@@ -143,7 +143,7 @@ void MLPPExpReg::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		for (int i = 0; i < _k; i++) {
 			// Calculating the weight gradients
 
-			real_t w_gradient = (y_hat - output_element_set) * input_set_row_tmp->element_get(i) * Math::pow(_weights->element_get(i), _input_set->element_get(output_index, i) - 1);
+			real_t w_gradient = (y_hat - output_element_set) * _initial->element_get(i) * input_set_row_tmp->element_get(i) * Math::pow(_weights->element_get(i), _input_set->element_get(output_index, i) - 1);
 			real_t i_gradient = (y_hat - output_element_set) * Math::pow(_weights->element_get(i), _input_set->element_get(output_index, i));
 
 			// Weight/initial updation
@@ -198,7 +198,7 @@ void MLPPExpReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size,
 				// Calculating the weight gradient
 				real_t sum = 0;
 				for (int k = 0; k < current_output_batch->size(); k++) {
-					sum += error->element_get(k) * current_input_batch->element_get(k, j) * Math::pow(_weights->element_get(j), current_input_batch->element_get(k, j) - 1);
+					sum += error->element_get(k) * _initial->element_get(j) * current_input_batch->element_get(k, j) * Math::pow(_weights->element_get(j), current_input_batch->element_get(k, j) - 1);
 				}
 				real_t w_gradient = sum / current_output_batch->size();
 
-- 
2.43.0


From 00f46b4f20fd0fc02f8d7c509ae7ef1c8f954486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 115/325] fix: MLPPExpReg mbgd updated the wrong parameters

---
 modules/exp_reg/exp_reg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/exp_reg/exp_reg.cpp b/modules/exp_reg/exp_reg.cpp
index 7e1effb..327868a 100644
--- a/modules/exp_reg/exp_reg.cpp
+++ b/modules/exp_reg/exp_reg.cpp
@@ -211,8 +211,8 @@ void MLPPExpReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size,
 				real_t i_gradient = sum2 / current_output_batch->size();
 
 				// Weight/initial updation
-				_weights->element_set(i, _weights->element_get(i) - learning_rate * w_gradient);
-				_initial->element_set(i, _initial->element_get(i) - learning_rate * i_gradient);
+				_weights->element_set(j, _weights->element_get(j) - learning_rate * w_gradient);
+				_initial->element_set(j, _initial->element_get(j) - learning_rate * i_gradient);
 			}
 
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
-- 
2.43.0


From a74fc2c83e1de3bb8d7edc400c6972129ce07e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 116/325] fix: MLPPExpReg mbgd never updated the bias

---
 modules/exp_reg/exp_reg.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/modules/exp_reg/exp_reg.cpp b/modules/exp_reg/exp_reg.cpp
index 327868a..59c7f8a 100644
--- a/modules/exp_reg/exp_reg.cpp
+++ b/modules/exp_reg/exp_reg.cpp
@@ -218,12 +218,8 @@ void MLPPExpReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size,
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 			// Calculating the bias gradient
-			//real_t sum = 0;
-			//for (int j = 0; j < current_output_batch->size(); j++) {
-			//	sum += (y_hat->element_get(j) - current_output_batch->element_get(j));
-			//}
+			_bias -= learning_rate * error->sum_elements() / current_output_batch->size();
 
-			//real_t b_gradient = sum / output_mini_batches[i].size();
 			y_hat = evaluatem(current_input_batch);
 
 			if (ui) {
-- 
2.43.0


From b5134f568afb30577aa8aa9282594db068218b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 117/325] fix: MLPPTanhReg output_set accessors used the wrong
 type

---
 modules/tanh_reg/tanh_reg.cpp | 4 ++--
 modules/tanh_reg/tanh_reg.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index 623b632..8895958 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -44,10 +44,10 @@ void MLPPTanhReg::set_input_set(const Ref<MLPPMatrix> &val) {
 	_input_set = val;
 }
 
-Ref<MLPPMatrix> MLPPTanhReg::get_output_set() const {
+Ref<MLPPVector> MLPPTanhReg::get_output_set() const {
 	return _output_set;
 }
-void MLPPTanhReg::set_output_set(const Ref<MLPPMatrix> &val) {
+void MLPPTanhReg::set_output_set(const Ref<MLPPVector> &val) {
 	_output_set = val;
 }
 
diff --git a/modules/tanh_reg/tanh_reg.h b/modules/tanh_reg/tanh_reg.h
index bc30180..ddea86a 100644
--- a/modules/tanh_reg/tanh_reg.h
+++ b/modules/tanh_reg/tanh_reg.h
@@ -51,8 +51,8 @@ public:
 	Ref<MLPPMatrix> get_input_set() const;
 	void set_input_set(const Ref<MLPPMatrix> &val);
 
-	Ref<MLPPMatrix> get_output_set() const;
-	void set_output_set(const Ref<MLPPMatrix> &val);
+	Ref<MLPPVector> get_output_set() const;
+	void set_output_set(const Ref<MLPPVector> &val);
 
 	MLPPReg::RegularizationType get_reg() const;
 	void set_reg(const MLPPReg::RegularizationType val);
-- 
2.43.0


From 64f98e3c9715c6076750ff1bfff95339987a552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 118/325] fix: MLPPTanhReg train_sgd discarded its weight step

---
 modules/tanh_reg/tanh_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index 8895958..627e1a1 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -245,7 +245,7 @@ void MLPPTanhReg::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		real_t error = y_hat - output_set_entry;
 
 		// Weight Updation
-		_weights->subn(input_set_row_tmp->scalar_multiplyn(learning_rate * error * (1 - y_hat * y_hat)));
+		_weights->sub(input_set_row_tmp->scalar_multiplyn(learning_rate * error * (1 - y_hat * y_hat)));
 		_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 		// Bias updation
-- 
2.43.0


From 7f6aadb98fbd609fb9ade870a889ddf4ca39cceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 119/325] fix: MLPPTanhReg train_mbgd used stale activations
 for the bias step

---
 modules/tanh_reg/tanh_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index 627e1a1..27d4c68 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -301,7 +301,7 @@ void MLPPTanhReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 			// Calculating the bias gradients
-			_bias -= learning_rate * error->hadamard_productn(avn.tanh_derivv(_z))->sum_elements() / n;
+			_bias -= learning_rate * error->hadamard_productn(avn.tanh_derivv(z))->sum_elements() / n;
 
 			forward_pass();
 
-- 
2.43.0


From c345e248559a160f2b3e160fabc5e8bc9006393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 120/325] fix: MLPPTanhReg train_mbgd averaged over the whole
 data set

---
 modules/tanh_reg/tanh_reg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index 27d4c68..9004d7a 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -297,11 +297,11 @@ void MLPPTanhReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch
 
 			// Calculating the weight gradients
 
-			_weights->sub(current_input_batch_entry->transposen()->mult_vec(error->hadamard_productn(avn.tanh_derivv(z)))->scalar_multiplyn(learning_rate / n));
+			_weights->sub(current_input_batch_entry->transposen()->mult_vec(error->hadamard_productn(avn.tanh_derivv(z)))->scalar_multiplyn(learning_rate / current_output_batch_entry->size()));
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 			// Calculating the bias gradients
-			_bias -= learning_rate * error->hadamard_productn(avn.tanh_derivv(z))->sum_elements() / n;
+			_bias -= learning_rate * error->hadamard_productn(avn.tanh_derivv(z))->sum_elements() / current_output_batch_entry->size();
 
 			forward_pass();
 
-- 
2.43.0


From 19a74c65362c76121dfc5629603dab519ba1a972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 121/325] fix: MLPPCLogLogReg mle stepped in the wrong
 direction

---
 modules/c_log_log_reg/c_log_log_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/c_log_log_reg/c_log_log_reg.cpp b/modules/c_log_log_reg/c_log_log_reg.cpp
index eef50ca..5d831b8 100644
--- a/modules/c_log_log_reg/c_log_log_reg.cpp
+++ b/modules/c_log_log_reg/c_log_log_reg.cpp
@@ -93,7 +93,7 @@ void MLPPCLogLogReg::mle(real_t learning_rate, int max_epoch, bool ui) {
 	while (true) {
 		cost_prev = cost(_y_hat, _output_set);
 
-		Ref<MLPPVector> error = _y_hat->subn(_output_set);
+		Ref<MLPPVector> error = _output_set->subn(_y_hat);
 
 		_weights->add(_input_set->transposen()->mult_vec(error->hadamard_productn(avn.cloglog_derivv(_z)))->scalar_multiplyn(learning_rate / _n));
 		_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
-- 
2.43.0


From 5086efbb7e40dd91aa541ad0f408873bda03e1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 122/325] fix: MLPPCLogLogReg mbgd averaged over the whole data
 set

---
 modules/c_log_log_reg/c_log_log_reg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/c_log_log_reg/c_log_log_reg.cpp b/modules/c_log_log_reg/c_log_log_reg.cpp
index 5d831b8..dd527e0 100644
--- a/modules/c_log_log_reg/c_log_log_reg.cpp
+++ b/modules/c_log_log_reg/c_log_log_reg.cpp
@@ -203,12 +203,12 @@ void MLPPCLogLogReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_si
 			Ref<MLPPVector> error = y_hat->subn(current_output_batch);
 
 			// Calculating the weight gradients
-			_weights->sub(current_input_batch->transposen()->mult_vec(error->hadamard_productn(avn.cloglog_derivv(z)))->scalar_multiplyn(learning_rate / _n));
+			_weights->sub(current_input_batch->transposen()->mult_vec(error->hadamard_productn(avn.cloglog_derivv(z)))->scalar_multiplyn(learning_rate / current_output_batch->size()));
 
 			_weights = regularization.reg_weightsv(_weights, _lambda, _alpha, _reg);
 
 			// Calculating the bias gradients
-			bias -= learning_rate * error->hadamard_productn(avn.cloglog_derivv(z))->sum_elements() / _n;
+			bias -= learning_rate * error->hadamard_productn(avn.cloglog_derivv(z))->sum_elements() / current_output_batch->size();
 
 			forward_pass();
 
-- 
2.43.0


From 975e4661afad328742b37caeb03ff00eeebcf5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 123/325] fix: MLPPSoftmaxReg train_sgd evaluated the label row

---
 modules/softmax_reg/softmax_reg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/softmax_reg/softmax_reg.cpp b/modules/softmax_reg/softmax_reg.cpp
index 5109514..b267ddf 100644
--- a/modules/softmax_reg/softmax_reg.cpp
+++ b/modules/softmax_reg/softmax_reg.cpp
@@ -208,7 +208,7 @@ void MLPPSoftmaxReg::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		// Bias updation
 		_bias->sub(b_gradient->scalar_multiplyn(learning_rate));
 
-		y_hat = evaluatev(output_set_row_tmp);
+		y_hat = evaluatev(input_set_row_tmp);
 
 		if (ui) {
 			MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat_matrix_tmp, output_set_row_matrix_tmp));
-- 
2.43.0


From ec58671c2cc7b5cfa396a38dc27bf7342ffaae2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:46 +0000
Subject: [PATCH 124/325] Monitoring hooks of MLPPDualSVC (MLPP_VP_HOOKS)

---
 modules/dual_svc/dual_svc.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/dual_svc/dual_svc.h b/modules/dual_svc/dual_svc.h
index 979c354..e5eb917 100644
--- a/modules/dual_svc/dual_svc.h
+++ b/modules/dual_svc/dual_svc.h
@@ -70,6 +70,15 @@ public:
 	MLPPDualSVC();
 	~MLPPDualSVC();
 
+#ifdef MLPP_VP_HOOKS
+	Ref<MLPPVector> vp_alpha() const { return _alpha; }
+	void vp_set_alpha(const Ref<MLPPVector> &val) { _alpha = val; }
+	real_t vp_bias() const { return _bias; }
+	Ref<MLPPMatrix> vp_kernel_matrix() const { return _K; }
+	real_t vp_kernelv(const Ref<MLPPVector> &v, const Ref<MLPPVector> &u) { return kernel_functionv(v, u, _kernel); }
+	Ref<MLPPMatrix> vp_kernelm(const Ref<MLPPMatrix> &U, const Ref<MLPPMatrix> &V) { return kernel_functionm(U, V, _kernel); }
+#endif
+
 protected:
 	void init();
 
-- 
2.43.0


From df85db74b0916955b92dec1476635503ea2941c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 125/325] fix: MLPPSVC set_output_set used the wrong type

---
 modules/svc/svc.cpp | 2 +-
 modules/svc/svc.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index edda1df..c9fe4b0 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -48,7 +48,7 @@ void MLPPSVC::set_input_set(const Ref<MLPPMatrix> &val) {
 Ref<MLPPVector> MLPPSVC::get_output_set() const {
 	return _output_set;
 }
-void MLPPSVC::set_output_set(const Ref<MLPPMatrix> &val) {
+void MLPPSVC::set_output_set(const Ref<MLPPVector> &val) {
 	_output_set = val;
 }
 
diff --git a/modules/svc/svc.h b/modules/svc/svc.h
index 7e4290c..a1062ba 100644
--- a/modules/svc/svc.h
+++ b/modules/svc/svc.h
@@ -55,7 +55,7 @@ public:
 	void set_input_set(const Ref<MLPPMatrix> &val);
 
 	Ref<MLPPVector> get_output_set() const;
-	void set_output_set(const Ref<MLPPMatrix> &val);
+	void set_output_set(const Ref<MLPPVector> &val);
 
 	real_t get_c() const;
 	void set_c(const real_t val);
-- 
2.43.0


From 9ab13e2d6447ff1960c0138168ef602386628b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 126/325] fix: MLPPSVC gradient descent moved the bias the
 wrong way

---
 modules/svc/svc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index c9fe4b0..9d2d9dc 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -121,7 +121,7 @@ void MLPPSVC::train_gradient_descent(real_t learning_rate, int max_epoch, bool u
 		_weights = regularization.reg_weightsv(_weights, learning_rate / n, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 
 		// Calculating the bias gradients
-		_bias += learning_rate * mlpp_cost.hinge_loss_derivwv(_y_hat, _output_set, _c)->sum_elements() / n;
+		_bias -= learning_rate * mlpp_cost.hinge_loss_derivwv(_z, _output_set, _c)->sum_elements() / n;
 
 		forward_pass();
 
-- 
2.43.0


From c5b109ad206f60b4d069b5732b966fab9d50fad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 127/325] fix: MLPPSVC train_mbgd discarded its weight step

---
 modules/svc/svc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index 9d2d9dc..2e77d5c 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -242,7 +242,7 @@ void MLPPSVC::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch_siz
 			cost_prev = cost(z, current_output_batch_entry, _weights, _c);
 
 			// Calculating the weight gradients
-			_weights->subn(current_input_batch_entry->transposen()->mult_vec(mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c))->scalar_multiplyn(learning_rate / n));
+			_weights->sub(current_input_batch_entry->transposen()->mult_vec(mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c))->scalar_multiplyn(learning_rate / n));
 			_weights = regularization.reg_weightsv(_weights, learning_rate / n, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 
 			// Calculating the bias gradients
-- 
2.43.0


From 06d1d2060c639396b83f5012533a07e02ec94268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 128/325] fix: MLPPSVC train_mbgd took the bias step from the
 labels

---
 modules/svc/svc.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index 2e77d5c..ffaaa81 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -241,12 +241,14 @@ void MLPPSVC::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch_siz
 			Ref<MLPPVector> z = propagatem(current_input_batch_entry);
 			cost_prev = cost(z, current_output_batch_entry, _weights, _c);
 
+			Ref<MLPPVector> loss_deriv = mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c);
+
 			// Calculating the weight gradients
-			_weights->sub(current_input_batch_entry->transposen()->mult_vec(mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c))->scalar_multiplyn(learning_rate / n));
+			_weights->sub(current_input_batch_entry->transposen()->mult_vec(loss_deriv)->scalar_multiplyn(learning_rate / n));
 			_weights = regularization.reg_weightsv(_weights, learning_rate / n, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 
 			// Calculating the bias gradients
-			_bias -= learning_rate * mlpp_cost.hinge_loss_derivwv(y_hat, current_output_batch_entry, _c)->sum_elements() / n;
+			_bias -= learning_rate * loss_deriv->sum_elements() / n;
 
 			forward_pass();
 
-- 
2.43.0


From 4df0600c8df91d3924effc4db5e3097709c7b696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 129/325] fix: MLPPSVC train_mbgd averaged over the whole data
 set

---
 modules/svc/svc.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index ffaaa81..671cf01 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -244,11 +244,11 @@ void MLPPSVC::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch_siz
 			Ref<MLPPVector> loss_deriv = mlpp_cost.hinge_loss_derivwv(z, current_output_batch_entry, _c);
 
 			// Calculating the weight gradients
-			_weights->sub(current_input_batch_entry->transposen()->mult_vec(loss_deriv)->scalar_multiplyn(learning_rate / n));
-			_weights = regularization.reg_weightsv(_weights, learning_rate / n, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
+			_weights->sub(current_input_batch_entry->transposen()->mult_vec(loss_deriv)->scalar_multiplyn(learning_rate / current_output_batch_entry->size()));
+			_weights = regularization.reg_weightsv(_weights, learning_rate / current_output_batch_entry->size(), 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
 
 			// Calculating the bias gradients
-			_bias -= learning_rate * loss_deriv->sum_elements() / n;
+			_bias -= learning_rate * loss_deriv->sum_elements() / current_output_batch_entry->size();
 
 			forward_pass();
 
-- 
2.43.0


From 635365a1b726ec2f2a2203b5c5caa236efaa62e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:28 +0000
Subject: [PATCH 130/325] fix: MLPPDualSVC kernel matrix ignored its arguments

---
 modules/dual_svc/dual_svc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/dual_svc/dual_svc.cpp b/modules/dual_svc/dual_svc.cpp
index eddcd6f..03f5478 100644
--- a/modules/dual_svc/dual_svc.cpp
+++ b/modules/dual_svc/dual_svc.cpp
@@ -312,7 +312,7 @@ real_t MLPPDualSVC::kernel_functionv(const Ref<MLPPVector> &v, const Ref<MLPPVec
 
 Ref<MLPPMatrix> MLPPDualSVC::kernel_functionm(const Ref<MLPPMatrix> &U, const Ref<MLPPMatrix> &V, KernelMethod kernel) {
 	if (kernel == KERNEL_METHOD_LINEAR) {
-		return _input_set->multn(_input_set->transposen());
+		return U->multn(V->transposen());
 	}
 
 	Ref<MLPPMatrix> m;
-- 
2.43.0


From 87d2e0a30bedf4910f1897c54e7eae73d86ae60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:01 +0000
Subject: [PATCH 131/325] fix: Layers drew new weights whenever a property was
 set

---
 modules/hidden_layer/hidden_layer.cpp | 17 +++++------------
 modules/output_layer/output_layer.cpp | 12 ------------
 2 files changed, 5 insertions(+), 24 deletions(-)

diff --git a/modules/hidden_layer/hidden_layer.cpp b/modules/hidden_layer/hidden_layer.cpp
index 67e3633..00da07b 100644
--- a/modules/hidden_layer/hidden_layer.cpp
+++ b/modules/hidden_layer/hidden_layer.cpp
@@ -47,15 +47,18 @@ MLPPActivation::ActivationFunction MLPPHiddenLayer::get_activation() const {
 }
 void MLPPHiddenLayer::set_activation(const MLPPActivation::ActivationFunction val) {
 	_activation = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_input() {
 	return _input;
 }
 void MLPPHiddenLayer::set_input(const Ref<MLPPMatrix> &val) {
+	// The weights only have to be created again if they don't fit the new input.
+	if (!val.is_valid() || val->size().x != _weights->size().y) {
+		_initialized = false;
+	}
+
 	_input = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_weights() {
@@ -63,7 +66,6 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_weights() {
 }
 void MLPPHiddenLayer::set_weights(const Ref<MLPPMatrix> &val) {
 	_weights = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPHiddenLayer::MLPPHiddenLayer::get_bias() {
@@ -71,7 +73,6 @@ Ref<MLPPVector> MLPPHiddenLayer::MLPPHiddenLayer::get_bias() {
 }
 void MLPPHiddenLayer::set_bias(const Ref<MLPPVector> &val) {
 	_bias = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_z() {
@@ -79,7 +80,6 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_z() {
 }
 void MLPPHiddenLayer::set_z(const Ref<MLPPMatrix> &val) {
 	_z = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_a() {
@@ -87,7 +87,6 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_a() {
 }
 void MLPPHiddenLayer::set_a(const Ref<MLPPMatrix> &val) {
 	_a = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPHiddenLayer::get_z_test() {
@@ -95,7 +94,6 @@ Ref<MLPPVector> MLPPHiddenLayer::get_z_test() {
 }
 void MLPPHiddenLayer::set_z_test(const Ref<MLPPVector> &val) {
 	_z_test = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPHiddenLayer::get_a_test() {
@@ -103,7 +101,6 @@ Ref<MLPPVector> MLPPHiddenLayer::get_a_test() {
 }
 void MLPPHiddenLayer::set_a_test(const Ref<MLPPVector> &val) {
 	_a_test = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPHiddenLayer::get_delta() {
@@ -111,7 +108,6 @@ Ref<MLPPMatrix> MLPPHiddenLayer::get_delta() {
 }
 void MLPPHiddenLayer::set_delta(const Ref<MLPPMatrix> &val) {
 	_delta = val;
-	_initialized = false;
 }
 
 MLPPReg::RegularizationType MLPPHiddenLayer::get_reg() const {
@@ -119,7 +115,6 @@ MLPPReg::RegularizationType MLPPHiddenLayer::get_reg() const {
 }
 void MLPPHiddenLayer::set_reg(const MLPPReg::RegularizationType val) {
 	_reg = val;
-	_initialized = false;
 }
 
 real_t MLPPHiddenLayer::get_lambda() const {
@@ -127,7 +122,6 @@ real_t MLPPHiddenLayer::get_lambda() const {
 }
 void MLPPHiddenLayer::set_lambda(const real_t val) {
 	_lambda = val;
-	_initialized = false;
 }
 
 real_t MLPPHiddenLayer::get_alpha() const {
@@ -135,7 +129,6 @@ real_t MLPPHiddenLayer::get_alpha() const {
 }
 void MLPPHiddenLayer::set_alpha(const real_t val) {
 	_alpha = val;
-	_initialized = false;
 }
 
 MLPPUtilities::WeightDistributionType MLPPHiddenLayer::get_weight_init() const {
diff --git a/modules/output_layer/output_layer.cpp b/modules/output_layer/output_layer.cpp
index 4b5b2e7..7320f91 100644
--- a/modules/output_layer/output_layer.cpp
+++ b/modules/output_layer/output_layer.cpp
@@ -45,7 +45,6 @@ MLPPActivation::ActivationFunction MLPPOutputLayer::get_activation() {
 }
 void MLPPOutputLayer::set_activation(const MLPPActivation::ActivationFunction val) {
 	_activation = val;
-	_initialized = false;
 }
 
 MLPPCost::CostTypes MLPPOutputLayer::get_cost() {
@@ -53,7 +52,6 @@ MLPPCost::CostTypes MLPPOutputLayer::get_cost() {
 }
 void MLPPOutputLayer::set_cost(const MLPPCost::CostTypes val) {
 	_cost = val;
-	_initialized = false;
 }
 
 Ref<MLPPMatrix> MLPPOutputLayer::get_input() {
@@ -61,7 +59,6 @@ Ref<MLPPMatrix> MLPPOutputLayer::get_input() {
 }
 void MLPPOutputLayer::set_input(const Ref<MLPPMatrix> &val) {
 	_input = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_weights() {
@@ -69,7 +66,6 @@ Ref<MLPPVector> MLPPOutputLayer::get_weights() {
 }
 void MLPPOutputLayer::set_weights(const Ref<MLPPVector> &val) {
 	_weights = val;
-	_initialized = false;
 }
 
 real_t MLPPOutputLayer::MLPPOutputLayer::get_bias() {
@@ -77,7 +73,6 @@ real_t MLPPOutputLayer::MLPPOutputLayer::get_bias() {
 }
 void MLPPOutputLayer::set_bias(const real_t val) {
 	_bias = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_z() {
@@ -85,7 +80,6 @@ Ref<MLPPVector> MLPPOutputLayer::get_z() {
 }
 void MLPPOutputLayer::set_z(const Ref<MLPPVector> &val) {
 	_z = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_a() {
@@ -93,7 +87,6 @@ Ref<MLPPVector> MLPPOutputLayer::get_a() {
 }
 void MLPPOutputLayer::set_a(const Ref<MLPPVector> &val) {
 	_a = val;
-	_initialized = false;
 }
 
 real_t MLPPOutputLayer::get_z_test() {
@@ -101,7 +94,6 @@ real_t MLPPOutputLayer::get_z_test() {
 }
 void MLPPOutputLayer::set_z_test(const real_t val) {
 	_z_test = val;
-	_initialized = false;
 }
 
 real_t MLPPOutputLayer::get_a_test() {
@@ -109,7 +101,6 @@ real_t MLPPOutputLayer::get_a_test() {
 }
 void MLPPOutputLayer::set_a_test(const real_t val) {
 	_a_test = val;
-	_initialized = false;
 }
 
 Ref<MLPPVector> MLPPOutputLayer::get_delta() {
@@ -117,7 +108,6 @@ Ref<MLPPVector> MLPPOutputLayer::get_delta() {
 }
 void MLPPOutputLayer::set_delta(const Ref<MLPPVector> &val) {
 	_delta = val;
-	_initialized = false;
 }
 
 MLPPReg::RegularizationType MLPPOutputLayer::get_reg() {
@@ -132,7 +122,6 @@ real_t MLPPOutputLayer::get_lambda() {
 }
 void MLPPOutputLayer::set_lambda(const real_t val) {
 	_lambda = val;
-	_initialized = false;
 }
 
 real_t MLPPOutputLayer::get_alpha() {
@@ -140,7 +129,6 @@ real_t MLPPOutputLayer::get_alpha() {
 }
 void MLPPOutputLayer::set_alpha(const real_t val) {
 	_alpha = val;
-	_initialized = false;
 }
 
 MLPPUtilities::WeightDistributionType MLPPOutputLayer::get_weight_init() {
-- 
2.43.0


From 6fda8d982a24302fe114996514a4034014bac836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 132/325] fix: MLPPMLP back-propagated through the updated
 output weights

---
 modules/mlp/mlp.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/modules/mlp/mlp.cpp b/modules/mlp/mlp.cpp
index 3a08a9f..3f74171 100644
--- a/modules/mlp/mlp.cpp
+++ b/modules/mlp/mlp.cpp
@@ -128,6 +128,9 @@ void MLPPMLP::gradient_descent(real_t learning_rate, int max_epoch, bool UI) {
 
 		Ref<MLPPVector> D2_1 = _a2->transposen()->mult_vec(error);
 
+		// The error of layer 1 comes from the weights that made the predictions.
+		Ref<MLPPMatrix> D1_1 = error->outer_product(_weights2);
+
 		// weights and bias updation for layer 2
 		_weights2->sub(D2_1->scalar_multiplyn(learning_rate / static_cast<real_t>(_n)));
 		_weights2->set_from_mlpp_vector(regularization.reg_weightsv(_weights2, _lambda, _alpha, _reg));
@@ -136,7 +139,6 @@ void MLPPMLP::gradient_descent(real_t learning_rate, int max_epoch, bool UI) {
 
 		// Calculating the weight/bias for layer 1
 
-		Ref<MLPPMatrix> D1_1 = error->outer_product(_weights2);
 		Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(_z2));
 		Ref<MLPPMatrix> D1_3 = _input_set->transposen()->multn(D1_2);
 
@@ -210,6 +212,9 @@ void MLPPMLP::sgd(real_t learning_rate, int max_epoch, bool UI) {
 		// Weight updation for layer 2
 		Ref<MLPPVector> D2_1 = la2->scalar_multiplyn(error);
 
+		// The error of layer 1 comes from the weights that made the predictions.
+		Ref<MLPPVector> D1_1 = _weights2->scalar_multiplyn(error);
+
 		_weights2->sub(D2_1->scalar_multiplyn(learning_rate));
 		_weights2->set_from_mlpp_vector(regularization.reg_weightsv(_weights2, _lambda, _alpha, _reg));
 
@@ -217,7 +222,6 @@ void MLPPMLP::sgd(real_t learning_rate, int max_epoch, bool UI) {
 		_bias2 -= learning_rate * error;
 
 		// Weight updation for layer 1
-		Ref<MLPPVector> D1_1 = _weights2->scalar_multiplyn(error);
 		Ref<MLPPVector> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivv(lz2));
 		Ref<MLPPMatrix> D1_3 = input_set_row_tmp->outer_product(D1_2);
 
@@ -280,6 +284,9 @@ void MLPPMLP::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, boo
 			// Calculating the weight/bias gradients for layer 2
 			Ref<MLPPVector> D2_1 = la2->transposen()->mult_vec(error);
 
+			// The error of layer 1 comes from the weights that made the predictions.
+			Ref<MLPPMatrix> D1_1 = error->outer_product(_weights2);
+
 			real_t lr_d_cos = learning_rate / static_cast<real_t>(current_output->size());
 
 			// weights and bias updation for layser 2
@@ -293,7 +300,6 @@ void MLPPMLP::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, boo
 			_bias2 -= learning_rate * b_gradient / current_output->size();
 
 			//Calculating the weight/bias for layer 1
-			Ref<MLPPMatrix> D1_1 = error->outer_product(_weights2);
 			Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(lz2));
 			Ref<MLPPMatrix> D1_3 = current_input->transposen()->multn(D1_2);
 
-- 
2.43.0


From 2ba8acc02e30eb1715e6a3305a38a512ed4b5b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 133/325] fix: MLPPMLP score used predictions from before the
 last change

---
 modules/mlp/mlp.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/mlp/mlp.cpp b/modules/mlp/mlp.cpp
index 3f74171..71afbae 100644
--- a/modules/mlp/mlp.cpp
+++ b/modules/mlp/mlp.cpp
@@ -331,7 +331,12 @@ void MLPPMLP::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, boo
 }
 
 real_t MLPPMLP::score() {
+	ERR_FAIL_COND_V(!_initialized, 0);
+
 	MLPPUtilities util;
+
+	forward_pass();
+
 	return util.performance_vec(_y_hat, _output_set);
 }
 
-- 
2.43.0


From 296e936f8ba62a84587838e2ec1d51db8e10912d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 134/325] fix: MLPPSoftmaxNet back-propagated through the
 updated output weights

---
 modules/softmax_net/softmax_net.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/modules/softmax_net/softmax_net.cpp b/modules/softmax_net/softmax_net.cpp
index 0ef1231..5c9e5de 100644
--- a/modules/softmax_net/softmax_net.cpp
+++ b/modules/softmax_net/softmax_net.cpp
@@ -170,6 +170,9 @@ void MLPPSoftmaxNet::train_gradient_descent(real_t learning_rate, int max_epoch,
 		// Calculating the weight/bias gradients for layer 2
 		Ref<MLPPMatrix> D2_1 = _a2->transposen()->multn(error);
 
+		// The error of layer 1 comes from the weights that made the predictions.
+		Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
+
 		// weights and bias updation for layer 2
 		_weights2->sub(D2_1->scalar_multiplyn(learning_rate));
 		_weights2 = regularization.reg_weightsm(_weights2, _lambda, _alpha, _reg);
@@ -177,7 +180,6 @@ void MLPPSoftmaxNet::train_gradient_descent(real_t learning_rate, int max_epoch,
 		_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate));
 
 		//Calculating the weight/bias for layer 1
-		Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
 		Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(_z2));
 		Ref<MLPPMatrix> D1_3 = _input_set->transposen()->multn(D1_2);
 
@@ -258,6 +260,9 @@ void MLPPSoftmaxNet::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 
 		Ref<MLPPMatrix> D2_1 = error->outer_product(prop_res.a2);
 
+		// The error of layer 1 comes from the weights that made the predictions.
+		Ref<MLPPVector> D1_1 = _weights2->mult_vec(error);
+
 		_weights2->sub(D2_1->transposen()->scalar_multiplyn(learning_rate));
 		_weights2 = regularization.reg_weightsm(_weights2, _lambda, _alpha, _reg);
 
@@ -265,7 +270,6 @@ void MLPPSoftmaxNet::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		_bias2->sub(error->scalar_multiplyn(learning_rate));
 
 		// Weight updation for layer 1
-		Ref<MLPPVector> D1_1 = _weights2->mult_vec(error);
 		Ref<MLPPVector> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivv(prop_res.z2));
 		Ref<MLPPMatrix> D1_3 = input_set_row_tmp->outer_product(D1_2);
 
@@ -329,6 +333,9 @@ void MLPPSoftmaxNet::train_mbgd(real_t learning_rate, int max_epoch, int mini_ba
 
 			Ref<MLPPMatrix> D2_1 = prop_res.a2->transposen()->multn(error);
 
+			// The error of layer 1 comes from the weights that made the predictions.
+			Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
+
 			// weights and bias updation for layser 2
 			_weights2->sub(D2_1->scalar_multiplyn(learning_rate));
 			_weights2 = regularization.reg_weightsm(_weights2, _lambda, _alpha, _reg);
@@ -337,7 +344,6 @@ void MLPPSoftmaxNet::train_mbgd(real_t learning_rate, int max_epoch, int mini_ba
 			_bias2->sub(error->scalar_multiplyn(learning_rate));
 
 			//Calculating the weight/bias for layer 1
-			Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
 			Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(prop_res.z2));
 			Ref<MLPPMatrix> D1_3 = current_input_mini_batch->transposen()->multn(D1_2);
 
-- 
2.43.0


From 68fe4001b1f789a8773c2782fc541b5dcc4076fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 135/325] fix: MLPPSoftmaxNet train_mbgd never moved the output
 bias

---
 modules/softmax_net/softmax_net.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/softmax_net/softmax_net.cpp b/modules/softmax_net/softmax_net.cpp
index 5c9e5de..9453b68 100644
--- a/modules/softmax_net/softmax_net.cpp
+++ b/modules/softmax_net/softmax_net.cpp
@@ -341,7 +341,7 @@ void MLPPSoftmaxNet::train_mbgd(real_t learning_rate, int max_epoch, int mini_ba
 			_weights2 = regularization.reg_weightsm(_weights2, _lambda, _alpha, _reg);
 
 			// Bias Updation for layer 2
-			_bias2->sub(error->scalar_multiplyn(learning_rate));
+			_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate));
 
 			//Calculating the weight/bias for layer 1
 			Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(prop_res.z2));
-- 
2.43.0


From 6dae2298d0ec03110662afaf02c2aaff3b2121ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 136/325] fix: MLPPSoftmaxNet score used predictions from
 before the last change

---
 modules/softmax_net/softmax_net.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/softmax_net/softmax_net.cpp b/modules/softmax_net/softmax_net.cpp
index 9453b68..ee4f4d7 100644
--- a/modules/softmax_net/softmax_net.cpp
+++ b/modules/softmax_net/softmax_net.cpp
@@ -380,6 +380,8 @@ real_t MLPPSoftmaxNet::score() {
 
 	MLPPUtilities util;
 
+	forward_pass();
+
 	return util.performance_mat(_y_hat, _output_set);
 }
 
-- 
2.43.0


From a1d72378db4e7e61c034803d376ba382dd2d396f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 137/325] fix: MLPPAutoEncoder back-propagated through the
 updated output weights

---
 modules/auto_encoder/auto_encoder.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modules/auto_encoder/auto_encoder.cpp b/modules/auto_encoder/auto_encoder.cpp
index fb457b0..ec83d14 100644
--- a/modules/auto_encoder/auto_encoder.cpp
+++ b/modules/auto_encoder/auto_encoder.cpp
@@ -91,6 +91,9 @@ void MLPPAutoEncoder::gradient_descent(real_t learning_rate, int max_epoch, bool
 		// Calculating the weight/bias gradients for layer 2
 		Ref<MLPPMatrix> D2_1 = _a2->transposen()->multn(error);
 
+		// The error of layer 1 comes from the weights that made the predictions.
+		Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
+
 		// weights and bias updation for layer 2
 		_weights2->sub(D2_1->scalar_multiplyn(learning_rate / _n));
 
@@ -98,7 +101,6 @@ void MLPPAutoEncoder::gradient_descent(real_t learning_rate, int max_epoch, bool
 		_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate));
 
 		//Calculating the weight/bias for layer 1
-		Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
 		Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(_z2));
 		Ref<MLPPMatrix> D1_3 = _input_set->transposen()->multn(D1_2);
 
@@ -164,13 +166,16 @@ void MLPPAutoEncoder::sgd(real_t learning_rate, int max_epoch, bool ui) {
 
 		// Weight updation for layer 2
 		Ref<MLPPMatrix> D2_1 = error->outer_product(prop_res.a2);
+
+		// The error of layer 1 comes from the weights that made the predictions.
+		Ref<MLPPVector> D1_1 = _weights2->mult_vec(error);
+
 		_weights2->sub(D2_1->transposen()->scalar_multiplyn(learning_rate));
 
 		// Bias updation for layer 2
 		_bias2->sub(error->scalar_multiplyn(learning_rate));
 
 		// Weight updation for layer 1
-		Ref<MLPPVector> D1_1 = _weights2->mult_vec(error);
 		Ref<MLPPVector> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivv(prop_res.z2));
 		Ref<MLPPMatrix> D1_3 = input_set_row_tmp->outer_product(D1_2);
 
-- 
2.43.0


From 8de1b74a8e14220e5de0b71b856d666861ded2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 138/325] fix: MLPPAutoEncoder gradient_descent output bias
 step was not averaged

---
 modules/auto_encoder/auto_encoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/auto_encoder/auto_encoder.cpp b/modules/auto_encoder/auto_encoder.cpp
index ec83d14..5e26277 100644
--- a/modules/auto_encoder/auto_encoder.cpp
+++ b/modules/auto_encoder/auto_encoder.cpp
@@ -98,7 +98,7 @@ void MLPPAutoEncoder::gradient_descent(real_t learning_rate, int max_epoch, bool
 		_weights2->sub(D2_1->scalar_multiplyn(learning_rate / _n));
 
 		// Calculating the bias gradients for layer 2
-		_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate));
+		_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate / _n));
 
 		//Calculating the weight/bias for layer 1
 		Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(_z2));
-- 
2.43.0


From 3c75bc409336a9db00621eda2e8cea22de1080dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 139/325] fix: MLPPAutoEncoder mbgd did not train the first
 layer

---
 modules/auto_encoder/auto_encoder.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/modules/auto_encoder/auto_encoder.cpp b/modules/auto_encoder/auto_encoder.cpp
index 5e26277..9284c43 100644
--- a/modules/auto_encoder/auto_encoder.cpp
+++ b/modules/auto_encoder/auto_encoder.cpp
@@ -233,21 +233,22 @@ void MLPPAutoEncoder::mbgd(real_t learning_rate, int max_epoch, int mini_batch_s
 			// Calculating the weight/bias gradients for layer 2
 			Ref<MLPPMatrix> D2_1 = prop_res.a2->transposen()->multn(error);
 
+			// The error of layer 1 comes from the weights that made the predictions.
+			Ref<MLPPMatrix> D1_1 = error->multn(_weights2->transposen());
+
 			// weights and bias updation for layer 2
 			_weights2->sub(D2_1->scalar_multiplyn(learning_rate / current_batch->size().y));
 
 			// Bias Updation for layer 2
-			_bias2->sub(error->scalar_multiplyn(learning_rate));
+			_bias2->subtract_matrix_rows(error->scalar_multiplyn(learning_rate / current_batch->size().y));
 
 			//Calculating the weight/bias for layer 1
-
-			Ref<MLPPMatrix> D1_1 = _weights2->transposen()->multn(error);
 			Ref<MLPPMatrix> D1_2 = D1_1->hadamard_productn(avn.sigmoid_derivm(prop_res.z2));
 			Ref<MLPPMatrix> D1_3 = current_batch->transposen()->multn(D1_2);
 
 			// weight an bias updation for layer 1
-			_weights2->sub(D1_3->scalar_multiplyn(learning_rate / current_batch->size().x));
-			_bias1->subtract_matrix_rows(D1_2->scalar_multiplyn(learning_rate / current_batch->size().x));
+			_weights1->sub(D1_3->scalar_multiplyn(learning_rate / current_batch->size().y));
+			_bias1->subtract_matrix_rows(D1_2->scalar_multiplyn(learning_rate / current_batch->size().y));
 
 			y_hat = evaluatem(current_batch);
 
-- 
2.43.0


From adf5f81800ef5e6b94f09ee5e682639c2e498df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 140/325] fix: MLPPAutoEncoder score used predictions from
 before the last change

---
 modules/auto_encoder/auto_encoder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/auto_encoder/auto_encoder.cpp b/modules/auto_encoder/auto_encoder.cpp
index 9284c43..f112268 100644
--- a/modules/auto_encoder/auto_encoder.cpp
+++ b/modules/auto_encoder/auto_encoder.cpp
@@ -275,6 +275,9 @@ real_t MLPPAutoEncoder::score() {
 	ERR_FAIL_COND_V(!_initialized, 0);
 
 	MLPPUtilities util;
+
+	forward_pass();
+
 	return util.performance_mat(_y_hat, _input_set);
 }
 
-- 
2.43.0


From a573d254d5740b16acf81fd994f8f7bd97f2847b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:38 +0000
Subject: [PATCH 141/325] fix: MLPPANN sgd used the layer outputs of another
 batch

---
 modules/ann/ann.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 546e6cc..86ab71f 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -142,9 +142,11 @@ void MLPPANN::sgd(real_t learning_rate, int max_epoch, bool ui) {
 	input_set_row_tmp.instance();
 	input_set_row_tmp->resize(_input_set->size().x);
 
+	Ref<MLPPMatrix> input_set_mat_tmp;
+	input_set_mat_tmp.instance();
+	input_set_mat_tmp->resize(Size2i(_input_set->size().x, 1));
+
 	Ref<MLPPVector> y_hat_row_tmp;
-	y_hat_row_tmp.instance();
-	y_hat_row_tmp->resize(1);
 
 	Ref<MLPPVector> output_set_row_tmp;
 	output_set_row_tmp.instance();
@@ -156,11 +158,11 @@ void MLPPANN::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		int output_index = distribution(generator);
 
 		_input_set->row_get_into_mlpp_vector(output_index, input_set_row_tmp);
+		input_set_mat_tmp->row_set_mlpp_vector(0, input_set_row_tmp);
 		real_t output_element_set = _output_set->element_get(output_index);
 		output_set_row_tmp->element_set(0, output_element_set);
 
-		real_t y_hat = model_test(input_set_row_tmp);
-		y_hat_row_tmp->element_set(0, y_hat);
+		y_hat_row_tmp = model_set_test(input_set_mat_tmp);
 
 		cost_prev = cost(y_hat_row_tmp, output_set_row_tmp);
 
@@ -170,7 +172,7 @@ void MLPPANN::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		grads.output_w_grad->scalar_multiply(learning_rate / _n);
 
 		update_parameters(grads.cumulative_hidden_layer_w_grad, grads.output_w_grad, learning_rate); // subject to change. may want bias to have this matrix too.
-		y_hat = model_test(input_set_row_tmp);
+		y_hat_row_tmp = model_set_test(input_set_mat_tmp);
 
 		if (ui) {
 			print_ui(epoch, cost_prev, y_hat_row_tmp, output_set_row_tmp);
-- 
2.43.0


From 86b463f2663dd420e609007c43722f313b338ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:38 +0000
Subject: [PATCH 142/325] fix: MLPPANN averaged the gradient of a batch over
 the whole data set

---
 modules/ann/ann.cpp | 51 ++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 86ab71f..217c845 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -106,9 +106,9 @@ void MLPPANN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 		cost_prev = cost(_y_hat, _output_set);
 
 		ComputeGradientsResult grads = compute_gradients(_y_hat, _output_set);
-		grads.cumulative_hidden_layer_w_grad = alg.scalar_multiplynvt(learning_rate / _n, grads.cumulative_hidden_layer_w_grad);
+		grads.cumulative_hidden_layer_w_grad = alg.scalar_multiplynvt(learning_rate, grads.cumulative_hidden_layer_w_grad);
 
-		grads.output_w_grad->scalar_multiply(learning_rate / _n);
+		grads.output_w_grad->scalar_multiply(learning_rate);
 
 		update_parameters(grads.cumulative_hidden_layer_w_grad, grads.output_w_grad, learning_rate); // subject to change. may want bias to have this matrix too.
 
@@ -168,8 +168,8 @@ void MLPPANN::sgd(real_t learning_rate, int max_epoch, bool ui) {
 
 		ComputeGradientsResult grads = compute_gradients(y_hat_row_tmp, output_set_row_tmp);
 
-		grads.cumulative_hidden_layer_w_grad = alg.scalar_multiplynvt(learning_rate / _n, grads.cumulative_hidden_layer_w_grad);
-		grads.output_w_grad->scalar_multiply(learning_rate / _n);
+		grads.cumulative_hidden_layer_w_grad = alg.scalar_multiplynvt(learning_rate, grads.cumulative_hidden_layer_w_grad);
+		grads.output_w_grad->scalar_multiply(learning_rate);
 
 		update_parameters(grads.cumulative_hidden_layer_w_grad, grads.output_w_grad, learning_rate); // subject to change. may want bias to have this matrix too.
 		y_hat_row_tmp = model_set_test(input_set_mat_tmp);
@@ -215,8 +215,8 @@ void MLPPANN::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, boo
 
 			ComputeGradientsResult grads = compute_gradients(y_hat, current_output_batch);
 
-			grads.cumulative_hidden_layer_w_grad = alg.scalar_multiplynvt(learning_rate / _n, grads.cumulative_hidden_layer_w_grad);
-			grads.output_w_grad->scalar_multiply(learning_rate / _n);
+			grads.cumulative_hidden_layer_w_grad = alg.scalar_multiplynvt(learning_rate, grads.cumulative_hidden_layer_w_grad);
+			grads.output_w_grad->scalar_multiply(learning_rate);
 
 			update_parameters(grads.cumulative_hidden_layer_w_grad, grads.output_w_grad, learning_rate); // subject to change. may want bias to have this matrix too.
 			y_hat = model_set_test(current_input_batch);
@@ -281,8 +281,8 @@ void MLPPANN::momentum(real_t learning_rate, int max_epoch, int mini_batch_size,
 				update_parameters(v_hidden, v_output, 0); // DON'T update bias.
 			}
 
-			v_hidden = alg.additionnvt(alg.scalar_multiplynvt(gamma, v_hidden), alg.scalar_multiplynvt(learning_rate / _n, grads.cumulative_hidden_layer_w_grad));
-			v_output = v_output->scalar_multiplyn(gamma)->addn(grads.output_w_grad->scalar_multiplyn(learning_rate / _n));
+			v_hidden = alg.additionnvt(alg.scalar_multiplynvt(gamma, v_hidden), alg.scalar_multiplynvt(learning_rate, grads.cumulative_hidden_layer_w_grad));
+			v_output = v_output->scalar_multiplyn(gamma)->addn(grads.output_w_grad->scalar_multiplyn(learning_rate));
 
 			update_parameters(v_hidden, v_output, learning_rate); // subject to change. may want bias to have this matrix too.
 			y_hat = model_set_test(current_input_batch);
@@ -346,9 +346,9 @@ void MLPPANN::adagrad(real_t learning_rate, int max_epoch, int mini_batch_size,
 			v_hidden = alg.additionnvt(v_hidden, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2));
 			v_output->add(grads.output_w_grad->exponentiaten(2));
 
-			Vector<Ref<MLPPMatrix>> hidden_layer_updations = alg.scalar_multiplynvt(learning_rate / _n, alg.division_element_wisenvnvt(grads.cumulative_hidden_layer_w_grad, alg.scalar_addnvt(e, alg.sqrtnvt(v_hidden))));
+			Vector<Ref<MLPPMatrix>> hidden_layer_updations = alg.scalar_multiplynvt(learning_rate, alg.division_element_wisenvnvt(grads.cumulative_hidden_layer_w_grad, alg.scalar_addnvt(e, alg.sqrtnvt(v_hidden))));
 
-			Ref<MLPPVector> output_layer_updation = grads.output_w_grad->division_element_wisen(v_output->sqrtn()->scalar_addn(e))->scalar_multiplyn(learning_rate / _n);
+			Ref<MLPPVector> output_layer_updation = grads.output_w_grad->division_element_wisen(v_output->sqrtn()->scalar_addn(e))->scalar_multiplyn(learning_rate);
 
 			update_parameters(hidden_layer_updations, output_layer_updation, learning_rate); // subject to change. may want bias to have this matrix too.
 			y_hat = model_set_test(current_input_batch);
@@ -411,8 +411,8 @@ void MLPPANN::adadelta(real_t learning_rate, int max_epoch, int mini_batch_size,
 			v_hidden = alg.additionnvt(alg.scalar_multiplynvt(1 - b1, v_hidden), alg.scalar_multiplynvt(b1, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2)));
 			v_output->add(grads.output_w_grad->exponentiaten(2));
 
-			Vector<Ref<MLPPMatrix>> hidden_layer_updations = alg.scalar_multiplynvt(learning_rate / _n, alg.division_element_wisenvnvt(grads.cumulative_hidden_layer_w_grad, alg.scalar_addnvt(e, alg.sqrtnvt(v_hidden))));
-			Ref<MLPPVector> output_layer_updation = grads.output_w_grad->division_element_wisen(v_output->sqrtn()->scalar_addn(e))->scalar_multiplyn(learning_rate / _n);
+			Vector<Ref<MLPPMatrix>> hidden_layer_updations = alg.scalar_multiplynvt(learning_rate, alg.division_element_wisenvnvt(grads.cumulative_hidden_layer_w_grad, alg.scalar_addnvt(e, alg.sqrtnvt(v_hidden))));
+			Ref<MLPPVector> output_layer_updation = grads.output_w_grad->division_element_wisen(v_output->sqrtn()->scalar_addn(e))->scalar_multiplyn(learning_rate);
 
 			update_parameters(hidden_layer_updations, output_layer_updation, learning_rate); // subject to change. may want bias to have this matrix too.
 			y_hat = model_set_test(current_input_batch);
@@ -489,8 +489,8 @@ void MLPPANN::adam(real_t learning_rate, int max_epoch, int mini_batch_size, rea
 			Ref<MLPPVector> m_output_hat = m_output->scalar_multiplyn(1 / (1 - Math::pow(b1, epoch)));
 			Ref<MLPPVector> v_output_hat = v_output->scalar_multiplyn(1 / (1 - Math::pow(b2, epoch)));
 
-			Vector<Ref<MLPPMatrix>> hidden_layer_updations = alg.scalar_multiplynvt(learning_rate / _n, alg.division_element_wisenvnvt(m_hidden_hat, alg.scalar_addnvt(e, alg.sqrtnvt(v_hidden_hat))));
-			Ref<MLPPVector> output_layer_updation = m_output_hat->division_element_wisen(v_output_hat->sqrtn()->scalar_addn(e))->scalar_multiplyn(learning_rate / _n);
+			Vector<Ref<MLPPMatrix>> hidden_layer_updations = alg.scalar_multiplynvt(learning_rate, alg.division_element_wisenvnvt(m_hidden_hat, alg.scalar_addnvt(e, alg.sqrtnvt(v_hidden_hat))));
+			Ref<MLPPVector> output_layer_updation = m_output_hat->division_element_wisen(v_output_hat->sqrtn()->scalar_addn(e))->scalar_multiplyn(learning_rate);
 
 			update_parameters(hidden_layer_updations, output_layer_updation, learning_rate); // subject to change. may want bias to have this matrix too.
 			y_hat = model_set_test(current_input_batch);
@@ -564,8 +564,8 @@ void MLPPANN::adamax(real_t learning_rate, int max_epoch, int mini_batch_size, r
 			Vector<Ref<MLPPMatrix>> m_hidden_hat = alg.scalar_multiplynvt(1 / (1 - Math::pow(b1, epoch)), m_hidden);
 			Ref<MLPPVector> m_output_hat = m_output->scalar_multiplyn(1 / (1 - Math::pow(b1, epoch)));
 
-			Vector<Ref<MLPPMatrix>> hidden_layer_updations = alg.scalar_multiplynvt(learning_rate / _n, alg.division_element_wisenvnvt(m_hidden_hat, alg.scalar_addnvt(e, u_hidden)));
-			Ref<MLPPVector> output_layer_updation = m_output_hat->division_element_wisen(u_output->scalar_addn(e))->scalar_multiplyn(learning_rate / _n);
+			Vector<Ref<MLPPMatrix>> hidden_layer_updations = alg.scalar_multiplynvt(learning_rate, alg.division_element_wisenvnvt(m_hidden_hat, alg.scalar_addnvt(e, u_hidden)));
+			Ref<MLPPVector> output_layer_updation = m_output_hat->division_element_wisen(u_output->scalar_addn(e))->scalar_multiplyn(learning_rate);
 
 			update_parameters(hidden_layer_updations, output_layer_updation, learning_rate); // subject to change. may want bias to have this matrix too.
 			y_hat = model_set_test(current_input_batch);
@@ -644,8 +644,8 @@ void MLPPANN::nadam(real_t learning_rate, int max_epoch, int mini_batch_size, re
 			Ref<MLPPVector> v_output_hat = v_output->scalar_multiplyn(1 / (1.0 - Math::pow(b2, epoch)));
 			Ref<MLPPVector> m_output_final = m_output_hat->scalar_multiplyn(b1)->addn(grads.output_w_grad->scalar_multiplyn((1 - b1) / (1.0 - Math::pow(b1, epoch))));
 
-			Vector<Ref<MLPPMatrix>> hidden_layer_updations = alg.scalar_multiplynvt(learning_rate / _n, alg.division_element_wisenvnvt(m_hidden_final, alg.scalar_addnvt(e, alg.sqrtnvt(v_hidden_hat))));
-			Ref<MLPPVector> output_layer_updation = m_output_final->division_element_wisen(v_output_hat->sqrtn()->scalar_addn(e))->scalar_multiplyn(learning_rate / _n);
+			Vector<Ref<MLPPMatrix>> hidden_layer_updations = alg.scalar_multiplynvt(learning_rate, alg.division_element_wisenvnvt(m_hidden_final, alg.scalar_addnvt(e, alg.sqrtnvt(v_hidden_hat))));
+			Ref<MLPPVector> output_layer_updation = m_output_final->division_element_wisen(v_output_hat->sqrtn()->scalar_addn(e))->scalar_multiplyn(learning_rate);
 
 			update_parameters(hidden_layer_updations, output_layer_updation, learning_rate); // subject to change. may want bias to have this matrix too.
 
@@ -728,8 +728,8 @@ void MLPPANN::amsgrad(real_t learning_rate, int max_epoch, int mini_batch_size,
 			v_hidden_hat = alg.maxnvt(v_hidden_hat, v_hidden);
 			v_output_hat->max(v_output);
 
-			Vector<Ref<MLPPMatrix>> hidden_layer_updations = alg.scalar_multiplynvt(learning_rate / _n, alg.division_element_wisenvnvt(m_hidden, alg.scalar_addnvt(e, alg.sqrtnvt(v_hidden_hat))));
-			Ref<MLPPVector> output_layer_updation = m_output->division_element_wisen(v_output_hat->sqrtn()->scalar_addn(e))->scalar_multiplyn(learning_rate / _n);
+			Vector<Ref<MLPPMatrix>> hidden_layer_updations = alg.scalar_multiplynvt(learning_rate, alg.division_element_wisenvnvt(m_hidden, alg.scalar_addnvt(e, alg.sqrtnvt(v_hidden_hat))));
+			Ref<MLPPVector> output_layer_updation = m_output->division_element_wisen(v_output_hat->sqrtn()->scalar_addn(e))->scalar_multiplyn(learning_rate);
 
 			update_parameters(hidden_layer_updations, output_layer_updation, learning_rate); // subject to change. may want bias to have this matrix too.
 			y_hat = model_set_test(current_input_batch);
@@ -879,7 +879,7 @@ void MLPPANN::forward_pass() {
 
 void MLPPANN::update_parameters(const Vector<Ref<MLPPMatrix>> &hidden_layer_updations, const Ref<MLPPVector> &output_layer_updation, real_t learning_rate) {
 	_output_layer->set_weights(_output_layer->get_weights()->subn(output_layer_updation));
-	_output_layer->set_bias(_output_layer->get_bias() - learning_rate * _output_layer->get_delta()->sum_elements() / _n);
+	_output_layer->set_bias(_output_layer->get_bias() - learning_rate * _output_layer->get_delta()->sum_elements());
 
 	Ref<MLPPMatrix> slice;
 
@@ -889,7 +889,7 @@ void MLPPANN::update_parameters(const Vector<Ref<MLPPMatrix>> &hidden_layer_upda
 		slice = hidden_layer_updations[0];
 
 		layer->set_weights(layer->get_weights()->subn(slice));
-		layer->set_bias(layer->get_bias()->subtract_matrix_rowsn(layer->get_delta()->scalar_multiplyn(learning_rate / _n)));
+		layer->set_bias(layer->get_bias()->subtract_matrix_rowsn(layer->get_delta()->scalar_multiplyn(learning_rate)));
 
 		for (int i = _network.size() - 2; i >= 0; i--) {
 			layer = _network[i];
@@ -897,7 +897,7 @@ void MLPPANN::update_parameters(const Vector<Ref<MLPPMatrix>> &hidden_layer_upda
 			slice = hidden_layer_updations[(_network.size() - 2) - i + 1];
 
 			layer->set_weights(layer->get_weights()->subn(slice));
-			layer->set_bias(layer->get_bias()->subtract_matrix_rowsn(layer->get_delta()->scalar_multiplyn(learning_rate / _n)));
+			layer->set_bias(layer->get_bias()->subtract_matrix_rowsn(layer->get_delta()->scalar_multiplyn(learning_rate)));
 		}
 	}
 }
@@ -911,7 +911,10 @@ MLPPANN::ComputeGradientsResult MLPPANN::compute_gradients(const Ref<MLPPVector>
 
 	ComputeGradientsResult res;
 
-	_output_layer->set_delta(mlpp_cost.run_cost_deriv_vector(_output_layer->get_cost(), y_hat, _output_set)->hadamard_productn(avn.run_activation_deriv_vector(_output_layer->get_activation(), _output_layer->get_z())));
+	// The mean over the samples that were used.
+	real_t sample_weight = 1 / static_cast<real_t>(y_hat->size());
+
+	_output_layer->set_delta(mlpp_cost.run_cost_deriv_vector(_output_layer->get_cost(), y_hat, _output_set)->hadamard_productn(avn.run_activation_deriv_vector(_output_layer->get_activation(), _output_layer->get_z()))->scalar_multiplyn(sample_weight));
 
 	res.output_w_grad = _output_layer->get_input()->transposen()->mult_vec(_output_layer->get_delta());
 	res.output_w_grad->add(regularization.reg_deriv_termv(_output_layer->get_weights(), _output_layer->get_lambda(), _output_layer->get_alpha(), _output_layer->get_reg()));
-- 
2.43.0


From d8e1aa2a66a23e639a16973577ae7baa93ca6f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:38 +0000
Subject: [PATCH 143/325] fix: MLPPANN optimiser state started uninitialised

---
 core/lin_alg.cpp    |  2 ++
 modules/ann/ann.cpp | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/core/lin_alg.cpp b/core/lin_alg.cpp
index 70944eb..b1b20e1 100644
--- a/core/lin_alg.cpp
+++ b/core/lin_alg.cpp
@@ -1891,6 +1891,7 @@ void MLPPLinAlg::resizevt(Vector<Ref<MLPPMatrix>> &r_target, const Vector<Ref<ML
 		Ref<MLPPMatrix> m;
 		m.instance();
 		m->resize(A[i]->size());
+		m->fill(0);
 
 		r_target.write[i] = m;
 	}
@@ -1904,6 +1905,7 @@ Vector<Ref<MLPPMatrix>> MLPPLinAlg::resizencvt(const Vector<Ref<MLPPMatrix>> &A)
 		Ref<MLPPMatrix> m;
 		m.instance();
 		m->resize(A[i]->size());
+		m->fill(0);
 
 		res.write[i] = m;
 	}
diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 217c845..6b8529d 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -275,6 +275,7 @@ void MLPPANN::momentum(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (v_output->size() == 0) {
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			if (nag) { // "Aposterori" calculation
@@ -341,6 +342,7 @@ void MLPPANN::adagrad(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (v_output->size() == 0) {
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			v_hidden = alg.additionnvt(v_hidden, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2));
@@ -406,6 +408,7 @@ void MLPPANN::adadelta(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (v_output->size() == 0) {
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			v_hidden = alg.additionnvt(alg.scalar_multiplynvt(1 - b1, v_hidden), alg.scalar_multiplynvt(b1, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2)));
@@ -472,9 +475,11 @@ void MLPPANN::adam(real_t learning_rate, int max_epoch, int mini_batch_size, rea
 				alg.resizevt(v_hidden, grads.cumulative_hidden_layer_w_grad);
 			}
 
-			if (m_output->size() == 0 && v_output->size()) {
+			if (m_output->size() == 0 && v_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
@@ -552,7 +557,9 @@ void MLPPANN::adamax(real_t learning_rate, int max_epoch, int mini_batch_size, r
 
 			if (m_output->size() == 0 && u_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				u_output->resize(grads.output_w_grad->size());
+				u_output->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
@@ -627,7 +634,9 @@ void MLPPANN::nadam(real_t learning_rate, int max_epoch, int mini_batch_size, re
 
 			if (m_output->size() == 0 && v_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
@@ -715,8 +724,11 @@ void MLPPANN::amsgrad(real_t learning_rate, int max_epoch, int mini_batch_size,
 
 			if (m_output->size() == 0 && v_output->size() == 0) {
 				m_output->resize(grads.output_w_grad->size());
+				m_output->fill(0);
 				v_output->resize(grads.output_w_grad->size());
+				v_output->fill(0);
 				v_output_hat->resize(grads.output_w_grad->size());
+				v_output_hat->fill(0);
 			}
 
 			m_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, m_hidden), alg.scalar_multiplynvt(1 - b1, grads.cumulative_hidden_layer_w_grad));
-- 
2.43.0


From 0cd2b33a40d44af2bcf477d57d5a4bc3e4f3dea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:38 +0000
Subject: [PATCH 144/325] fix: MLPPANN adadelta did not use an exponential
 average

---
 modules/ann/ann.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index 6b8529d..afc66f1 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -411,8 +411,8 @@ void MLPPANN::adadelta(real_t learning_rate, int max_epoch, int mini_batch_size,
 				v_output->fill(0);
 			}
 
-			v_hidden = alg.additionnvt(alg.scalar_multiplynvt(1 - b1, v_hidden), alg.scalar_multiplynvt(b1, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2)));
-			v_output->add(grads.output_w_grad->exponentiaten(2));
+			v_hidden = alg.additionnvt(alg.scalar_multiplynvt(b1, v_hidden), alg.scalar_multiplynvt(1 - b1, alg.exponentiatenvt(grads.cumulative_hidden_layer_w_grad, 2)));
+			v_output = v_output->scalar_multiplyn(b1)->addn(grads.output_w_grad->exponentiaten(2)->scalar_multiplyn(1 - b1));
 
 			Vector<Ref<MLPPMatrix>> hidden_layer_updations = alg.scalar_multiplynvt(learning_rate, alg.division_element_wisenvnvt(grads.cumulative_hidden_layer_w_grad, alg.scalar_addnvt(e, alg.sqrtnvt(v_hidden))));
 			Ref<MLPPVector> output_layer_updation = grads.output_w_grad->division_element_wisen(v_output->sqrtn()->scalar_addn(e))->scalar_multiplyn(learning_rate);
-- 
2.43.0


From 7157360e8ab0c7d25931b1b46128933d1a66ef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:38 +0000
Subject: [PATCH 145/325] fix: MLPPANN Nesterov momentum applied the velocity
 twice

---
 modules/ann/ann.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index afc66f1..a253da1 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -264,11 +264,21 @@ void MLPPANN::momentum(real_t learning_rate, int max_epoch, int mini_batch_size,
 			Ref<MLPPMatrix> current_input_batch = batches.input_sets[i];
 			Ref<MLPPVector> current_output_batch = batches.output_sets[i];
 
+			bool look_ahead = nag && v_output->size() != 0;
+
+			if (look_ahead) { // The gradient is taken where the momentum leads.
+				update_parameters(alg.scalar_multiplynvt(gamma, v_hidden), v_output->scalar_multiplyn(gamma), 0); // DON'T update bias.
+			}
+
 			Ref<MLPPVector> y_hat = model_set_test(current_input_batch);
 			cost_prev = cost(y_hat, current_output_batch);
 
 			ComputeGradientsResult grads = compute_gradients(y_hat, current_output_batch);
 
+			if (look_ahead) { // Back to where we were.
+				update_parameters(alg.scalar_multiplynvt(-gamma, v_hidden), v_output->scalar_multiplyn(-gamma), 0);
+			}
+
 			if (!_network.empty() && v_hidden.empty()) { // Initing our tensor
 				alg.resizevt(v_hidden, grads.cumulative_hidden_layer_w_grad);
 			}
@@ -278,10 +288,6 @@ void MLPPANN::momentum(real_t learning_rate, int max_epoch, int mini_batch_size,
 				v_output->fill(0);
 			}
 
-			if (nag) { // "Aposterori" calculation
-				update_parameters(v_hidden, v_output, 0); // DON'T update bias.
-			}
-
 			v_hidden = alg.additionnvt(alg.scalar_multiplynvt(gamma, v_hidden), alg.scalar_multiplynvt(learning_rate, grads.cumulative_hidden_layer_w_grad));
 			v_output = v_output->scalar_multiplyn(gamma)->addn(grads.output_w_grad->scalar_multiplyn(learning_rate));
 
-- 
2.43.0


From 474c9c0a1d3d80088beb814be3a5cd1a2ca91471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:38 +0000
Subject: [PATCH 146/325] fix: MLPPANN cost left out the last hidden layer

---
 modules/ann/ann.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/ann/ann.cpp b/modules/ann/ann.cpp
index a253da1..636489e 100644
--- a/modules/ann/ann.cpp
+++ b/modules/ann/ann.cpp
@@ -860,7 +860,7 @@ real_t MLPPANN::cost(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 	real_t total_reg_term = 0;
 
 	if (!_network.empty()) {
-		for (int i = 0; i < _network.size() - 1; i++) {
+		for (int i = 0; i < _network.size(); i++) {
 			Ref<MLPPHiddenLayer> layer = _network[i];
 
 			total_reg_term += regularization.reg_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg());
-- 
2.43.0


From 772bf8b3c6b3d7a1c8fad9b4cdcb698dbd699944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:38 +0000
Subject: [PATCH 147/325] fix: MLPPMANN back-propagated through wrong weights

---
 modules/mann/mann.cpp | 41 +++++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/modules/mann/mann.cpp b/modules/mann/mann.cpp
index 7d8e0dc..1c6c84f 100644
--- a/modules/mann/mann.cpp
+++ b/modules/mann/mann.cpp
@@ -137,36 +137,37 @@ void MLPPMANN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 
 		Ref<MLPPMatrix> output_w_grad = _output_layer->get_input()->transposen()->multn(_output_layer->get_delta());
 
-		_output_layer->set_weights(_output_layer->get_weights()->subn(output_w_grad->scalar_multiplyn(learning_rate / _n)));
-		_output_layer->set_weights(regularization.reg_weightsm(_output_layer->get_weights(), _output_layer->get_lambda(), _output_layer->get_alpha(),
-				_output_layer->get_reg()));
+		// Every gradient is calculated before any of the weights change.
+		Vector<Ref<MLPPMatrix>> hidden_layer_w_grads;
+		hidden_layer_w_grads.resize(_network.size());
 
-		_output_layer->set_bias(_output_layer->get_bias()->subtract_matrix_rowsn(_output_layer->get_delta()->scalar_multiplyn(learning_rate / _n)));
+		Ref<MLPPMatrix> next_delta = _output_layer->get_delta();
+		Ref<MLPPMatrix> next_weights = _output_layer->get_weights();
 
-		if (!_network.empty()) {
-			Ref<MLPPHiddenLayer> layer = _network[_network.size() - 1];
+		for (int i = _network.size() - 1; i >= 0; i--) {
+			Ref<MLPPHiddenLayer> layer = _network[i];
 
-			layer->set_delta(_output_layer->get_delta()->multn(_output_layer->get_weights()->transposen())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
+			layer->set_delta(next_delta->multn(next_weights->transposen())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
 
-			Ref<MLPPMatrix> hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
+			hidden_layer_w_grads.write[i] = layer->get_input()->transposen()->multn(layer->get_delta());
 
-			layer->set_weights(layer->get_weights()->subn(hidden_layer_w_grad->scalar_multiplyn(learning_rate / _n)));
-			layer->set_weights(regularization.reg_weightsm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg()));
+			next_delta = layer->get_delta();
+			next_weights = layer->get_weights();
+		}
 
-			layer->set_bias(layer->get_bias()->subtract_matrix_rowsn(layer->get_delta()->scalar_multiplyn(learning_rate / _n)));
+		_output_layer->set_weights(_output_layer->get_weights()->subn(output_w_grad->scalar_multiplyn(learning_rate / _n)));
+		_output_layer->set_weights(regularization.reg_weightsm(_output_layer->get_weights(), _output_layer->get_lambda(), _output_layer->get_alpha(),
+				_output_layer->get_reg()));
 
-			for (int i = _network.size() - 2; i >= 0; i--) {
-				layer = _network[i];
-				Ref<MLPPHiddenLayer> next_layer = _network[i + 1];
+		_output_layer->set_bias(_output_layer->get_bias()->subtract_matrix_rowsn(_output_layer->get_delta()->scalar_multiplyn(learning_rate / _n)));
 
-				layer->set_delta(next_layer->get_delta()->multn(next_layer->get_weights())->hadamard_productn(avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z())));
+		for (int i = _network.size() - 1; i >= 0; i--) {
+			Ref<MLPPHiddenLayer> layer = _network[i];
 
-				hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
+			layer->set_weights(layer->get_weights()->subn(hidden_layer_w_grads[i]->scalar_multiplyn(learning_rate / _n)));
+			layer->set_weights(regularization.reg_weightsm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg()));
 
-				layer->set_weights(layer->get_weights()->subn(hidden_layer_w_grad->scalar_multiplyn(learning_rate / _n)));
-				layer->set_weights(regularization.reg_weightsm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg()));
-				layer->set_bias(layer->get_bias()->subtract_matrix_rowsn(layer->get_delta()->scalar_multiplyn(learning_rate / _n)));
-			}
+			layer->set_bias(layer->get_bias()->subtract_matrix_rowsn(layer->get_delta()->scalar_multiplyn(learning_rate / _n)));
 		}
 
 		forward_pass();
-- 
2.43.0


From e161d5a51051494ad4b15c01361254699f1ac72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:38 +0000
Subject: [PATCH 148/325] fix: MLPPMANN cost left out the last hidden layer

---
 modules/mann/mann.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/mann/mann.cpp b/modules/mann/mann.cpp
index 1c6c84f..78a1778 100644
--- a/modules/mann/mann.cpp
+++ b/modules/mann/mann.cpp
@@ -279,7 +279,7 @@ real_t MLPPMANN::cost(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y) {
 	real_t total_reg_term = 0;
 
 	if (!_network.empty()) {
-		for (int i = 0; i < _network.size() - 1; i++) {
+		for (int i = 0; i < _network.size(); i++) {
 			Ref<MLPPHiddenLayer> layer = _network[i];
 
 			total_reg_term += regularization.reg_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg());
-- 
2.43.0


From e8a59aedf3bb06aa4fb4bcec35b6b75f9b8a0a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 149/325] fix: Default constructed layers left members
 uninitialised

---
 modules/hidden_layer/hidden_layer.cpp             | 2 +-
 modules/multi_output_layer/multi_output_layer.cpp | 4 +++-
 modules/output_layer/output_layer.cpp             | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/modules/hidden_layer/hidden_layer.cpp b/modules/hidden_layer/hidden_layer.cpp
index 00da07b..fce83e6 100644
--- a/modules/hidden_layer/hidden_layer.cpp
+++ b/modules/hidden_layer/hidden_layer.cpp
@@ -218,7 +218,7 @@ MLPPHiddenLayer::MLPPHiddenLayer() {
 	_activation = MLPPActivation::ACTIVATION_FUNCTION_LINEAR;
 
 	// Regularization Params
-	//reg = 0;
+	_reg = MLPPReg::REGULARIZATION_TYPE_NONE;
 	_lambda = 0; /* Regularization Parameter */
 	_alpha = 0; /* This is the controlling param for Elastic Net*/
 
diff --git a/modules/multi_output_layer/multi_output_layer.cpp b/modules/multi_output_layer/multi_output_layer.cpp
index 8cffae6..c1dbfff 100644
--- a/modules/multi_output_layer/multi_output_layer.cpp
+++ b/modules/multi_output_layer/multi_output_layer.cpp
@@ -196,9 +196,11 @@ MLPPMultiOutputLayer::MLPPMultiOutputLayer(int n_output, int p_n_hidden, MLPPAct
 MLPPMultiOutputLayer::MLPPMultiOutputLayer() {
 	_n_hidden = 0;
 	_activation = MLPPActivation::ACTIVATION_FUNCTION_LINEAR;
+	_n_output = 0;
+	_cost = MLPPCost::COST_TYPE_MSE;
 
 	// Regularization Params
-	//reg = 0;
+	_reg = MLPPReg::REGULARIZATION_TYPE_NONE;
 	_lambda = 0; /* Regularization Parameter */
 	_alpha = 0; /* This is the controlling param for Elastic Net*/
 
diff --git a/modules/output_layer/output_layer.cpp b/modules/output_layer/output_layer.cpp
index 7320f91..16e1c8d 100644
--- a/modules/output_layer/output_layer.cpp
+++ b/modules/output_layer/output_layer.cpp
@@ -217,9 +217,10 @@ MLPPOutputLayer::MLPPOutputLayer(int p_n_hidden, MLPPActivation::ActivationFunct
 MLPPOutputLayer::MLPPOutputLayer() {
 	_n_hidden = 0;
 	_activation = MLPPActivation::ACTIVATION_FUNCTION_LINEAR;
+	_cost = MLPPCost::COST_TYPE_MSE;
 
 	// Regularization Params
-	//reg = 0;
+	_reg = MLPPReg::REGULARIZATION_TYPE_NONE;
 	_lambda = 0; /* Regularization Parameter */
 	_alpha = 0; /* This is the controlling param for Elastic Net*/
 
-- 
2.43.0


From 09ff55313d1aeaa78f92e41f9d2bd765bfd40811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 150/325] fix: MLPPWGAN add_output_layer ignored the
 regularisation type

---
 modules/wgan/wgan.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/wgan/wgan.cpp b/modules/wgan/wgan.cpp
index 225f046..da16729 100644
--- a/modules/wgan/wgan.cpp
+++ b/modules/wgan/wgan.cpp
@@ -235,6 +235,7 @@ void MLPPWGAN::add_output_layer(
   _output_layer->set_cost(MLPPCost::COST_TYPE_WASSERSTEIN_LOSS);
   _output_layer->set_input(_network.write[_network.size() - 1]->get_a());
   _output_layer->set_weight_init(weight_init);
+  _output_layer->set_reg(reg);
   _output_layer->set_lambda(lambda);
   _output_layer->set_alpha(alpha);
 }
-- 
2.43.0


From f1c23879b0df750eb26df24241c648fc3811c7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 151/325] fix: MLPPGAN gradient_descent crashed

---
 modules/gan/gan.cpp | 55 ++++++++++++++++++++++++---------------------
 modules/gan/gan.h   |  9 ++++----
 2 files changed, 33 insertions(+), 31 deletions(-)

diff --git a/modules/gan/gan.cpp b/modules/gan/gan.cpp
index 3d422ae..92a1474 100644
--- a/modules/gan/gan.cpp
+++ b/modules/gan/gan.cpp
@@ -83,7 +83,7 @@ void MLPPGAN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 		// Training of the discriminator.
 
 		Ref<MLPPMatrix> generator_input_set = MLPPMatrix::create_gaussian_noise(_n, _k);
-		Ref<MLPPMatrix> discriminator_input_set = model_set_test_generator(generator_input_set);
+		Ref<MLPPMatrix> discriminator_input_set = model_set_test_generator(generator_input_set)->duplicate_fast();
 		discriminator_input_set->rows_add_mlpp_matrix(_output_set); // Fake + real inputs.
 
 		Ref<MLPPVector> y_hat = model_set_test_discriminator(discriminator_input_set);
@@ -91,9 +91,12 @@ void MLPPGAN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 		Ref<MLPPVector> output_set_real = MLPPVector::create_vec_one(_n);
 		output_set->append_mlpp_vector(output_set_real); // Fake + real output scores.
 
-		ComputeDiscriminatorGradientsResult dgrads = compute_discriminator_gradients(y_hat, _output_set);
+		ComputeDiscriminatorGradientsResult dgrads = compute_discriminator_gradients(y_hat, output_set);
+
+		for (int i = 0; i < dgrads.cumulative_hidden_layer_w_grad.size(); ++i) {
+			dgrads.cumulative_hidden_layer_w_grad.write[i]->scalar_multiply(learning_rate / _n);
+		}
 
-		dgrads.cumulative_hidden_layer_w_grad->scalar_multiply(learning_rate / _n);
 		dgrads.output_w_grad->scalar_multiply(learning_rate / _n);
 
 		update_discriminator_parameters(dgrads.cumulative_hidden_layer_w_grad, dgrads.output_w_grad, learning_rate);
@@ -102,11 +105,13 @@ void MLPPGAN::gradient_descent(real_t learning_rate, int max_epoch, bool ui) {
 		generator_input_set = MLPPMatrix::create_gaussian_noise(_n, _k);
 		discriminator_input_set = model_set_test_generator(generator_input_set);
 		y_hat = model_set_test_discriminator(discriminator_input_set);
-		_output_set = MLPPVector::create_vec_one(_n);
+		output_set = MLPPVector::create_vec_one(_n);
 
-		Ref<MLPPTensor3> cumulative_generator_hidden_layer_w_grad = compute_generator_gradients(y_hat, _output_set);
+		Vector<Ref<MLPPMatrix>> cumulative_generator_hidden_layer_w_grad = compute_generator_gradients(y_hat, output_set);
 
-		cumulative_generator_hidden_layer_w_grad->scalar_multiply(learning_rate / _n);
+		for (int i = 0; i < cumulative_generator_hidden_layer_w_grad.size(); ++i) {
+			cumulative_generator_hidden_layer_w_grad.write[i]->scalar_multiply(learning_rate / _n);
+		}
 
 		update_generator_parameters(cumulative_generator_hidden_layer_w_grad, learning_rate);
 
@@ -249,19 +254,18 @@ void MLPPGAN::forward_pass() {
 	_y_hat = _output_layer->get_a();
 }
 
-void MLPPGAN::update_discriminator_parameters(const Ref<MLPPTensor3> &hidden_layer_updations, const Ref<MLPPVector> &output_layer_updation, real_t learning_rate) {
+void MLPPGAN::update_discriminator_parameters(const Vector<Ref<MLPPMatrix>> &hidden_layer_updations, const Ref<MLPPVector> &output_layer_updation, real_t learning_rate) {
 	_output_layer->set_weights(_output_layer->get_weights()->subn(output_layer_updation));
 	real_t output_layer_bias = _output_layer->get_bias();
 	output_layer_bias -= learning_rate * _output_layer->get_delta()->sum_elements() / _n;
 	_output_layer->set_bias(output_layer_bias);
 
 	Ref<MLPPMatrix> slice;
-	slice.instance();
 
 	if (!_network.empty()) {
 		Ref<MLPPHiddenLayer> layer = _network[_network.size() - 1];
 
-		hidden_layer_updations->z_slice_get_into_mlpp_matrix(0, slice);
+		slice = hidden_layer_updations[0];
 
 		layer->set_weights(layer->get_weights()->subn(slice));
 		layer->set_bias(layer->get_bias()->subtract_matrix_rowsn(layer->get_delta()->scalar_multiplyn(learning_rate / _n)));
@@ -269,7 +273,7 @@ void MLPPGAN::update_discriminator_parameters(const Ref<MLPPTensor3> &hidden_lay
 		for (int i = _network.size() - 2; i > _network.size() / 2; i--) {
 			layer = _network[i];
 
-			hidden_layer_updations->z_slice_get_into_mlpp_matrix((_network.size() - 2) - i + 1, slice);
+			slice = hidden_layer_updations[(_network.size() - 2) - i + 1];
 
 			layer->set_weights(layer->get_weights()->subn(slice));
 			layer->set_bias(layer->get_bias()->subtract_matrix_rowsn(layer->get_delta()->scalar_multiplyn(learning_rate / _n)));
@@ -277,15 +281,14 @@ void MLPPGAN::update_discriminator_parameters(const Ref<MLPPTensor3> &hidden_lay
 	}
 }
 
-void MLPPGAN::update_generator_parameters(const Ref<MLPPTensor3> &hidden_layer_updations, real_t learning_rate) {
+void MLPPGAN::update_generator_parameters(const Vector<Ref<MLPPMatrix>> &hidden_layer_updations, real_t learning_rate) {
 	if (!_network.empty()) {
 		Ref<MLPPMatrix> slice;
-		slice.instance();
 
 		for (int i = _network.size() / 2; i >= 0; i--) {
 			Ref<MLPPHiddenLayer> layer = _network[i];
 
-			hidden_layer_updations->z_slice_get_into_mlpp_matrix((_network.size() - 2) - i + 1, slice);
+			slice = hidden_layer_updations[(_network.size() - 2) - i + 1];
 
 			//std::cout << network[i].weights.size() << "x" << network[i].weights[0].size() << std::endl;
 			//std::cout << hidden_layer_updations[(network.size() - 2) - i + 1].size() << "x" << hidden_layer_updations[(network.size() - 2) - i + 1][0].size() << std::endl;
@@ -302,7 +305,7 @@ MLPPGAN::ComputeDiscriminatorGradientsResult MLPPGAN::compute_discriminator_grad
 
 	ComputeDiscriminatorGradientsResult res;
 
-	Ref<MLPPVector> cost_deriv = mlpp_cost.run_cost_deriv_vector(_output_layer->get_cost(), y_hat, _output_set);
+	Ref<MLPPVector> cost_deriv = mlpp_cost.run_cost_deriv_vector(_output_layer->get_cost(), y_hat, output_set);
 	Ref<MLPPVector> activ_deriv = avn.run_activation_deriv_vector(_output_layer->get_activation(), _output_layer->get_z());
 
 	_output_layer->set_delta(cost_deriv->hadamard_productn(activ_deriv));
@@ -313,40 +316,40 @@ MLPPGAN::ComputeDiscriminatorGradientsResult MLPPGAN::compute_discriminator_grad
 	if (!_network.empty()) {
 		Ref<MLPPHiddenLayer> layer = _network[_network.size() - 1];
 
-		Ref<MLPPVector> hidden_layer_activ_deriv = avn.run_activation_deriv_vector(layer->get_activation(), layer->get_z());
+		Ref<MLPPMatrix> hidden_layer_activ_deriv = avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z());
 
 		layer->set_delta(_output_layer->get_delta()->outer_product(_output_layer->get_weights())->hadamard_productn(hidden_layer_activ_deriv));
 
 		Ref<MLPPMatrix> hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
 
 		hidden_layer_w_grad->add(regularization.reg_deriv_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg()));
-		res.cumulative_hidden_layer_w_grad->z_slice_add_mlpp_matrix(hidden_layer_w_grad); // Adding to our cumulative hidden layer grads. Maintain reg terms as well.
+		res.cumulative_hidden_layer_w_grad.push_back(hidden_layer_w_grad); // Adding to our cumulative hidden layer grads. Maintain reg terms as well.
 
 		for (int i = static_cast<int>(_network.size()) - 2; i > static_cast<int>(_network.size()) / 2; i--) {
 			layer = _network[i];
 			Ref<MLPPHiddenLayer> next_layer = _network[i + 1];
 
-			hidden_layer_activ_deriv = avn.run_activation_deriv_vector(layer->get_activation(), layer->get_z());
+			hidden_layer_activ_deriv = avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z());
 
 			layer->set_delta(next_layer->get_delta()->multn(next_layer->get_weights()->transposen())->hadamard_productn(hidden_layer_activ_deriv));
 
 			hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
 
-			res.cumulative_hidden_layer_w_grad->z_slice_add_mlpp_matrix(hidden_layer_w_grad->addn(regularization.reg_deriv_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg()))); // Adding to our cumulative hidden layer grads. Maintain reg terms as well.
+			res.cumulative_hidden_layer_w_grad.push_back(hidden_layer_w_grad->addn(regularization.reg_deriv_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg()))); // Adding to our cumulative hidden layer grads. Maintain reg terms as well.
 		}
 	}
 
 	return res;
 }
 
-Ref<MLPPTensor3> MLPPGAN::compute_generator_gradients(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &output_set) {
+Vector<Ref<MLPPMatrix>> MLPPGAN::compute_generator_gradients(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &output_set) {
 	MLPPCost mlpp_cost;
 	MLPPActivation avn;
 	MLPPReg regularization;
 
-	Ref<MLPPTensor3> cumulative_hidden_layer_w_grad; // Tensor containing ALL hidden grads.
+	Vector<Ref<MLPPMatrix>> cumulative_hidden_layer_w_grad; // Tensor containing ALL hidden grads.
 
-	Ref<MLPPVector> cost_deriv = mlpp_cost.run_cost_deriv_vector(_output_layer->get_cost(), y_hat, _output_set);
+	Ref<MLPPVector> cost_deriv = mlpp_cost.run_cost_deriv_vector(_output_layer->get_cost(), y_hat, output_set);
 	Ref<MLPPVector> activ_deriv = avn.run_activation_deriv_vector(_output_layer->get_activation(), _output_layer->get_z());
 
 	_output_layer->set_delta(cost_deriv->hadamard_productn(activ_deriv));
@@ -358,27 +361,27 @@ Ref<MLPPTensor3> MLPPGAN::compute_generator_gradients(const Ref<MLPPVector> &y_h
 	if (!_network.empty()) {
 		Ref<MLPPHiddenLayer> layer = _network[_network.size() - 1];
 
-		Ref<MLPPVector> hidden_layer_activ_deriv = avn.run_activation_deriv_vector(layer->get_activation(), layer->get_z());
+		Ref<MLPPMatrix> hidden_layer_activ_deriv = avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z());
 
 		layer->set_delta(_output_layer->get_delta()->outer_product(_output_layer->get_weights())->hadamard_productn(hidden_layer_activ_deriv));
 
 		Ref<MLPPMatrix> hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
 		hidden_layer_w_grad->add(regularization.reg_deriv_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg()));
 
-		cumulative_hidden_layer_w_grad->z_slice_add_mlpp_matrix(hidden_layer_w_grad); // Adding to our cumulative hidden layer grads. Maintain reg terms as well.
+		cumulative_hidden_layer_w_grad.push_back(hidden_layer_w_grad); // Adding to our cumulative hidden layer grads. Maintain reg terms as well.
 
 		for (int i = _network.size() - 2; i >= 0; i--) {
 			layer = _network[i];
 			Ref<MLPPHiddenLayer> next_layer = _network[i + 1];
 
-			hidden_layer_activ_deriv = avn.run_activation_deriv_vector(layer->get_activation(), layer->get_z());
+			hidden_layer_activ_deriv = avn.run_activation_deriv_matrix(layer->get_activation(), layer->get_z());
 
 			layer->set_delta(next_layer->get_delta()->multn(next_layer->get_weights()->transposen())->hadamard_productn(hidden_layer_activ_deriv));
 
 			hidden_layer_w_grad = layer->get_input()->transposen()->multn(layer->get_delta());
 			hidden_layer_w_grad->add(regularization.reg_deriv_termm(layer->get_weights(), layer->get_lambda(), layer->get_alpha(), layer->get_reg()));
 
-			cumulative_hidden_layer_w_grad->z_slice_add_mlpp_matrix(hidden_layer_w_grad); // Adding to our cumulative hidden layer grads. Maintain reg terms as well.
+			cumulative_hidden_layer_w_grad.push_back(hidden_layer_w_grad); // Adding to our cumulative hidden layer grads. Maintain reg terms as well.
 		}
 	}
 
@@ -386,7 +389,7 @@ Ref<MLPPTensor3> MLPPGAN::compute_generator_gradients(const Ref<MLPPVector> &y_h
 }
 
 void MLPPGAN::print_ui(int epoch, real_t cost_prev, const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &output_set) {
-	MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat, _output_set));
+	MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat, output_set));
 
 	PLOG_MSG("Layer " + itos(_network.size() + 1) + ": ");
 	MLPPUtilities::print_ui_vb(_output_layer->get_weights(), _output_layer->get_bias());
diff --git a/modules/gan/gan.h b/modules/gan/gan.h
index 63beba8..26d98a6 100644
--- a/modules/gan/gan.h
+++ b/modules/gan/gan.h
@@ -86,21 +86,20 @@ protected:
 
 	void forward_pass();
 
-	void update_discriminator_parameters(const Ref<MLPPTensor3> &hidden_layer_updations, const Ref<MLPPVector> &output_layer_updation, real_t learning_rate);
-	void update_generator_parameters(const Ref<MLPPTensor3> &hidden_layer_updations, real_t learning_rate);
+	void update_discriminator_parameters(const Vector<Ref<MLPPMatrix>> &hidden_layer_updations, const Ref<MLPPVector> &output_layer_updation, real_t learning_rate);
+	void update_generator_parameters(const Vector<Ref<MLPPMatrix>> &hidden_layer_updations, real_t learning_rate);
 
 	struct ComputeDiscriminatorGradientsResult {
-		Ref<MLPPTensor3> cumulative_hidden_layer_w_grad; // Tensor containing ALL hidden grads.
+		Vector<Ref<MLPPMatrix>> cumulative_hidden_layer_w_grad; // Tensor containing ALL hidden grads.
 		Ref<MLPPVector> output_w_grad;
 
 		ComputeDiscriminatorGradientsResult() {
-			cumulative_hidden_layer_w_grad.instance();
 			output_w_grad.instance();
 		}
 	};
 
 	ComputeDiscriminatorGradientsResult compute_discriminator_gradients(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &output_set);
-	Ref<MLPPTensor3> compute_generator_gradients(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &output_set);
+	Vector<Ref<MLPPMatrix>> compute_generator_gradients(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &output_set);
 
 	void print_ui(int epoch, real_t cost_prev, const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &output_set);
 
-- 
2.43.0


From 80b76abb59bc1d651c2484673ae4754d3d630597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:00 +0000
Subject: [PATCH 152/325] Monitoring hooks of MLPPMANN (MLPP_VP_HOOKS)

---
 modules/mann/mann.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/mann/mann.h b/modules/mann/mann.h
index 52b1530..334d593 100644
--- a/modules/mann/mann.h
+++ b/modules/mann/mann.h
@@ -78,6 +78,11 @@ public:
 	MLPPMANN();
 	~MLPPMANN();
 
+#ifdef MLPP_VP_HOOKS
+	Vector<Ref<MLPPHiddenLayer>> vp_network() const { return _network; }
+	Ref<MLPPMultiOutputLayer> vp_output_layer() const { return _output_layer; }
+#endif
+
 private:
 	real_t cost(const Ref<MLPPMatrix> &y_hat, const Ref<MLPPMatrix> &y);
 
-- 
2.43.0


From 8421b58c6e54d6a0cc4e38dc5d02a1c0593a6548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 153/325] fix: SoftmaxNet: size the one-row prediction of SGD
 by the number of outputs

---
 modules/softmax_net/softmax_net.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/softmax_net/softmax_net.cpp b/modules/softmax_net/softmax_net.cpp
index ee4f4d7..5561458 100644
--- a/modules/softmax_net/softmax_net.cpp
+++ b/modules/softmax_net/softmax_net.cpp
@@ -234,7 +234,7 @@ void MLPPSoftmaxNet::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 
 	Ref<MLPPMatrix> y_hat_mat_tmp;
 	y_hat_mat_tmp.instance();
-	y_hat_mat_tmp->resize(Size2i(_bias1->size(), 1));
+	y_hat_mat_tmp->resize(Size2i(_output_set->size().x, 1));
 
 	Ref<MLPPMatrix> output_row_mat_tmp;
 	output_row_mat_tmp.instance();
-- 
2.43.0


From d1728deb64d5369fc86579fec15d37c6abf3015e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 154/325] fix: KNN: find all k nearest neighbours

---
 modules/knn/knn.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/modules/knn/knn.cpp b/modules/knn/knn.cpp
index 33c5ef1..f9879e1 100644
--- a/modules/knn/knn.cpp
+++ b/modules/knn/knn.cpp
@@ -113,13 +113,18 @@ PoolIntArray MLPPKNN::nearest_neighbors(const Ref<MLPPVector> &x) {
 
 	//Perfom this loop unless and until all k nearest neighbors are found, appended, and returned
 	for (int i = 0; i < _k; ++i) {
-		int neighbor = 0;
+		int neighbor = -1;
 
 		for (int j = 0; j < iuss; j++) {
 			if (skip_map.has(j)) {
 				continue;
 			}
 
+			if (neighbor == -1) {
+				neighbor = j;
+				continue;
+			}
+
 			_input_set->row_get_into_mlpp_vector(j, tmpv1);
 			_input_set->row_get_into_mlpp_vector(neighbor, tmpv2);
 
@@ -130,10 +135,12 @@ PoolIntArray MLPPKNN::nearest_neighbors(const Ref<MLPPVector> &x) {
 			}
 		}
 
-		if (!skip_map.has(neighbor)) {
-			knn.push_back(neighbor);
-			skip_map.set(neighbor, true);
+		if (neighbor == -1) {
+			break;
 		}
+
+		knn.push_back(neighbor);
+		skip_map.set(neighbor, true);
 	}
 
 	return knn;
-- 
2.43.0


From a9cdba8e85c1d6d97362126fa749c1a690c06417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 155/325] fix: KNN: vote with the labels of the neighbours

---
 modules/knn/knn.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/modules/knn/knn.cpp b/modules/knn/knn.cpp
index f9879e1..6f740f0 100644
--- a/modules/knn/knn.cpp
+++ b/modules/knn/knn.cpp
@@ -166,12 +166,9 @@ int MLPPKNN::determine_class(const PoolIntArray &knn) {
 	int knn_size = knn.size();
 
 	for (int i = 0; i < knn_size; ++i) {
-		for (int j = 0; j < output_set_size; j++) {
-			int opj = static_cast<int>(os_ptr[j]);
-			if (knn_ptr[i] == opj) {
-				class_nums[opj]++;
-			}
-		}
+		ERR_FAIL_INDEX_V(knn_ptr[i], output_set_size, 0);
+
+		class_nums[static_cast<int>(os_ptr[knn_ptr[i]])]++;
 	}
 
 	int final_class = static_cast<int>(os_ptr[0]);
-- 
2.43.0


From ced21d2828f378b622ac25e1e51e8ba8b0070af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 156/325] fix: KMeans: predict every row of the given set

---
 modules/kmeans/kmeans.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index f658e1b..8d8da78 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -81,11 +81,11 @@ Ref<MLPPMatrix> MLPPKMeans::model_set_test(const Ref<MLPPMatrix> &X) {
 	ERR_FAIL_COND_V(!X.is_valid(), Ref<MLPPMatrix>());
 	ERR_FAIL_COND_V(!_initialized, Ref<MLPPMatrix>());
 
-	int input_set_size_y = _input_set->size().y;
+	int x_size_y = X->size().y;
 
 	Ref<MLPPMatrix> closest_centroids;
 	closest_centroids.instance();
-	closest_centroids->resize(Size2i(_mu->size().x, input_set_size_y));
+	closest_centroids->resize(Size2i(_mu->size().x, x_size_y));
 
 	Ref<MLPPVector> closest_centroid;
 	closest_centroid.instance();
@@ -99,13 +99,13 @@ Ref<MLPPMatrix> MLPPKMeans::model_set_test(const Ref<MLPPMatrix> &X) {
 	tmp_mujv.instance();
 	tmp_mujv->resize(_mu->size().x);
 
-	int r0_size = _r->size().x;
+	int mu_size_y = _mu->size().y;
 
-	for (int i = 0; i < input_set_size_y; ++i) {
+	for (int i = 0; i < x_size_y; ++i) {
 		_mu->row_get_into_mlpp_vector(0, closest_centroid);
 		X->row_get_into_mlpp_vector(i, tmp_xiv);
 
-		for (int j = 0; j < r0_size; ++j) {
+		for (int j = 0; j < mu_size_y; ++j) {
 			_mu->row_get_into_mlpp_vector(j, tmp_mujv);
 
 			bool is_centroid_closer = tmp_xiv->euclidean_distance(tmp_mujv) < tmp_xiv->euclidean_distance(closest_centroid);
-- 
2.43.0


From 7170436e19edc8d2edd7e46138d857566fd7274c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 157/325] fix: KMeans: assign samples nearest to the first
 centroid to it

---
 modules/kmeans/kmeans.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index 8d8da78..b360f9d 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -355,6 +355,7 @@ void MLPPKMeans::_evaluate() {
 		_input_set->row_get_into_mlpp_vector(i, input_set_i_tempv);
 
 		closest_centroid_current_dist = input_set_i_tempv->euclidean_distance(closest_centroid);
+		closest_centroid_index = 0;
 
 		for (int j = 0; j < r_size_x; ++j) {
 			_mu->row_get_into_mlpp_vector(j, mu_j_tempv);
-- 
2.43.0


From c331132f5b79a35a2492a782b5f5fc8862cfee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 158/325] fix: KMeans: size the centroid sums by the number of
 features

---
 modules/kmeans/kmeans.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index b360f9d..e3d8630 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -380,7 +380,7 @@ void MLPPKMeans::_compute_mu() {
 
 	Ref<MLPPVector> num;
 	num.instance();
-	num->resize(_r->size().x);
+	num->resize(_input_set->size().x);
 
 	Ref<MLPPVector> input_set_j_tempv;
 	input_set_j_tempv.instance();
-- 
2.43.0


From 5eb7858dd77aaa72d5738caaf02958b6b2a54733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 159/325] fix: KMeans: keep the centroid of an empty cluster

---
 modules/kmeans/kmeans.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index e3d8630..c3bbb43 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -409,6 +409,11 @@ void MLPPKMeans::_compute_mu() {
 			den += r_j_i;
 		}
 
+		// A cluster without samples keeps its centroid.
+		if (den == 0) {
+			continue;
+		}
+
 		mu_tempv->scalar_multiplyb(real_t(1) / real_t(den), num);
 
 		_mu->row_set_mlpp_vector(i, mu_tempv);
-- 
2.43.0


From 77f8e6f4ed3d7c28c7c8324c9ee00bce67536289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 160/325] fix: KMeans: choose every k-means++ centroid, and the
 farthest sample for it

---
 modules/kmeans/kmeans.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index c3bbb43..5b6ac62 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -471,11 +471,12 @@ void MLPPKMeans::_kmeanspp_initialization() {
 	farthest_centroid.instance();
 	farthest_centroid->resize(_input_set->size().x);
 
-	for (int i = 1; i < _k - 1; ++i) {
+	for (int i = 1; i < _k; ++i) {
+		real_t max_dist = -1;
+
 		for (int j = 0; j < input_set_size_y; ++j) {
 			_input_set->row_get_into_mlpp_vector(j, input_set_j_tempv);
 
-			real_t max_dist = 0;
 			// SUM ALL THE SQUARED DISTANCES, CHOOSE THE ONE THAT'S FARTHEST
 			// AS TO SPREAD OUT THE CLUSTER CENTROIDS.
 			real_t sum = 0;
-- 
2.43.0


From 185cec896af02d04a5b0848fe8633257215c3ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 161/325] fix: KMeans: silhouette scores from the distances
 within and between clusters

---
 modules/kmeans/kmeans.cpp | 51 +++++++++++++--------------------------
 1 file changed, 17 insertions(+), 34 deletions(-)

diff --git a/modules/kmeans/kmeans.cpp b/modules/kmeans/kmeans.cpp
index 5b6ac62..075b6bd 100644
--- a/modules/kmeans/kmeans.cpp
+++ b/modules/kmeans/kmeans.cpp
@@ -191,17 +191,11 @@ real_t MLPPKMeans::score() {
 Ref<MLPPVector> MLPPKMeans::silhouette_scores() {
 	ERR_FAIL_COND_V(!_initialized, Ref<MLPPVector>());
 
-	Ref<MLPPMatrix> closest_centroids = model_set_test(_input_set);
-
-	ERR_FAIL_COND_V(!closest_centroids.is_valid(), Ref<MLPPVector>());
-
 	int input_set_size_y = _input_set->size().y;
 	int input_set_size_x = _input_set->size().x;
 
 	int mu_size_y = _mu->size().y;
 
-	int closest_centroids_size_y = closest_centroids->size().y;
-
 	Ref<MLPPVector> silhouette_scores;
 	silhouette_scores.instance();
 	silhouette_scores->resize(input_set_size_y);
@@ -226,24 +220,13 @@ Ref<MLPPVector> MLPPKMeans::silhouette_scores() {
 	r_j_tempv.instance();
 	r_j_tempv->resize(_r->size().x);
 
-	Ref<MLPPVector> closest_centroids_i_tempv;
-	closest_centroids_i_tempv.instance();
-	closest_centroids_i_tempv->resize(closest_centroids->size().x);
-
-	Ref<MLPPVector> closest_centroids_k_tempv;
-	closest_centroids_k_tempv.instance();
-	closest_centroids_k_tempv->resize(closest_centroids->size().x);
-
-	Ref<MLPPVector> mu_j_tempv;
-	mu_j_tempv.instance();
-	mu_j_tempv->resize(_mu->size().x);
-
 	for (int i = 0; i < input_set_size_y; ++i) {
 		_r->row_get_into_mlpp_vector(i, r_i_tempv);
 		_input_set->row_get_into_mlpp_vector(i, input_set_i_tempv);
 
 		// COMPUTING a[i]
 		real_t a = 0;
+		int i_cluster_size = 1;
 		for (int j = 0; j < input_set_size_y; ++j) {
 			if (i == j) {
 				continue;
@@ -255,38 +238,38 @@ Ref<MLPPVector> MLPPKMeans::silhouette_scores() {
 				_input_set->row_get_into_mlpp_vector(j, input_set_j_tempv);
 
 				a += input_set_i_tempv->euclidean_distance(input_set_j_tempv);
+				++i_cluster_size;
 			}
 		}
 
-		// NORMALIZE a[i]
-		a /= closest_centroids->size().x - 1;
+		// The score of the only sample of a cluster is 0.
+		if (i_cluster_size == 1) {
+			silhouette_scores->element_set(i, 0);
+			continue;
+		}
 
-		closest_centroids->row_get_into_mlpp_vector(i, closest_centroids_i_tempv);
+		// NORMALIZE a[i]
+		a /= i_cluster_size - 1;
 
 		// COMPUTING b[i]
 		real_t b = Math_INF;
 		for (int j = 0; j < mu_size_y; ++j) {
-			_mu->row_get_into_mlpp_vector(j, mu_j_tempv);
-
-			if (!closest_centroids_i_tempv->is_equal_approx(mu_j_tempv)) {
+			if (_r->element_get(i, j) == 0) {
 				real_t sum = 0;
+				real_t k_cluster_size = 0;
 				for (int k = 0; k < input_set_size_y; ++k) {
+					if (_r->element_get(k, j) == 0) {
+						continue;
+					}
+
 					_input_set->row_get_into_mlpp_vector(k, input_set_k_tempv);
 
 					sum += input_set_i_tempv->euclidean_distance(input_set_k_tempv);
+					++k_cluster_size;
 				}
 
 				// NORMALIZE b[i]
-				real_t k_cluster_size = 0;
-				for (int k = 0; k < closest_centroids_size_y; ++k) {
-					_input_set->row_get_into_mlpp_vector(k, closest_centroids_k_tempv);
-
-					if (closest_centroids_k_tempv->is_equal_approx(mu_j_tempv)) {
-						++k_cluster_size;
-					}
-				}
-
-				if (sum / k_cluster_size < b) {
+				if (k_cluster_size > 0 && sum / k_cluster_size < b) {
 					b = sum / k_cluster_size;
 				}
 			}
-- 
2.43.0


From 90df9859ba7ce5b16f1405f518960f7c7d60ded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 162/325] fix: GaussianNB: count the labels for the priors

---
 modules/gaussian_nb/gaussian_nb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/gaussian_nb/gaussian_nb.cpp b/modules/gaussian_nb/gaussian_nb.cpp
index a4daf57..3d969d8 100644
--- a/modules/gaussian_nb/gaussian_nb.cpp
+++ b/modules/gaussian_nb/gaussian_nb.cpp
@@ -183,7 +183,7 @@ void MLPPGaussianNB::evaluate() {
 	_priors->fill(0);
 	for (int i = 0; i < _output_set->size(); i++) {
 		int indx = static_cast<int>(_output_set->element_get(i));
-		_priors->element_set(indx, _priors->element_get(indx));
+		_priors->element_set(indx, _priors->element_get(indx) + 1);
 	}
 
 	_priors->scalar_multiply(real_t(1) / real_t(_output_set->size()));
-- 
2.43.0


From 569256e00180eb2955f31cc2347dd249f7c6a026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 163/325] fix: GaussianNB: score every class by its own log
 posterior over all features

---
 modules/gaussian_nb/gaussian_nb.cpp | 55 ++++++-----------------------
 1 file changed, 10 insertions(+), 45 deletions(-)

diff --git a/modules/gaussian_nb/gaussian_nb.cpp b/modules/gaussian_nb/gaussian_nb.cpp
index 3d969d8..82b4a26 100644
--- a/modules/gaussian_nb/gaussian_nb.cpp
+++ b/modules/gaussian_nb/gaussian_nb.cpp
@@ -81,25 +81,21 @@ Ref<MLPPVector> MLPPGaussianNB::model_set_test(const Ref<MLPPMatrix> &X) {
 }
 
 real_t MLPPGaussianNB::model_test(const Ref<MLPPVector> &x) {
-	LocalVector<real_t> score;
-	score.resize(_class_num);
-
-	real_t y_hat_i = 1;
+	real_t max_element = -Math_INF;
+	int max_element_index = 0;
 
-	for (int i = _class_num - 1; i >= 0; i--) {
+	for (int i = 0; i < _class_num; ++i) {
 		real_t sigma_i = _sigma->element_get(i);
-		real_t x_i = x->element_get(i);
 		real_t mu_i = _mu->element_get(i);
 
-		y_hat_i += Math::log(_priors->element_get(i) * (1 / Math::sqrt(2 * Math_PI * sigma_i * sigma_i)) * Math::exp(-(x_i * mu_i) * (x_i * mu_i) / (2 * sigma_i * sigma_i)));
-		score[i] = Math::exp(y_hat_i);
-	}
+		// The logarithm of the posterior: the prior times the density of every feature.
+		real_t score_i = Math::log(_priors->element_get(i));
 
-	real_t max_element = -Math_INF;
-	int max_element_index = 0;
+		for (int j = 0; j < x->size(); ++j) {
+			real_t diff = x->element_get(j) - mu_i;
 
-	for (int i = 0; i < _class_num; ++i) {
-		real_t score_i = score[i];
+			score_i -= Math::log(Math::sqrt(2 * Math_PI * sigma_i * sigma_i)) + diff * diff / (2 * sigma_i * sigma_i);
+		}
 
 		if (score_i > max_element) {
 			max_element = score_i;
@@ -188,38 +184,7 @@ void MLPPGaussianNB::evaluate() {
 
 	_priors->scalar_multiply(real_t(1) / real_t(_output_set->size()));
 
-	for (int i = 0; i < _output_set->size(); i++) {
-		LocalVector<real_t> score;
-		score.resize(_class_num);
-
-		real_t y_hat_i = 1;
-
-		for (int j = _class_num - 1; j >= 0; j--) {
-			for (int k = 0; k < _input_set->size().x; k++) {
-				real_t sigma_j = _sigma->element_get(j);
-				real_t mu_j = _mu->element_get(j);
-				real_t input_set_i_k = _input_set->element_get(i, k);
-
-				y_hat_i += Math::log(_priors->element_get(j) * (1 / Math::sqrt(2 * Math_PI * sigma_j * sigma_j)) * Math::exp(-(input_set_i_k * mu_j) * (input_set_i_k * mu_j) / (2 * sigma_j * sigma_j)));
-			}
-
-			score[j] = Math::exp(y_hat_i);
-		}
-
-		real_t max_element = -Math_INF;
-		int max_element_index = 0;
-
-		for (int ii = 0; ii < _class_num; ++ii) {
-			real_t score_ii = score[ii];
-
-			if (score_ii > max_element) {
-				max_element = score_ii;
-				max_element_index = ii;
-			}
-		}
-
-		_y_hat->element_set(i, max_element_index);
-	}
+	_y_hat = model_set_test(_input_set);
 }
 
 void MLPPGaussianNB::_bind_methods() {
-- 
2.43.0


From 3c9249e93161fd2c95bea7f003076117fc5d227e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 164/325] fix: BernoulliNB: compute the vocabulary before theta

---
 modules/bernoulli_nb/bernoulli_nb.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/bernoulli_nb/bernoulli_nb.cpp b/modules/bernoulli_nb/bernoulli_nb.cpp
index aa634cc..7ef31f8 100644
--- a/modules/bernoulli_nb/bernoulli_nb.cpp
+++ b/modules/bernoulli_nb/bernoulli_nb.cpp
@@ -175,12 +175,12 @@ void MLPPBernoulliNB::evaluate() {
 		_prior_1 = sum / _y_hat->size();
 		_prior_0 = 1 - _prior_1;
 
-		// Evaluating Theta...
-		compute_theta();
-
 		// Evaluating the vocab set...
 		compute_vocab();
 
+		// Evaluating Theta...
+		compute_theta();
+
 		Vector<int> found_indices;
 
 		for (int j = 0; j < _input_set->size().x; j++) {
-- 
2.43.0


From 3dcd86773e194bcd0cda80d3e049d308c4e04f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 165/325] fix: BernoulliNB: word probabilities are real
 numbers, one for each word of the vocabulary

---
 modules/bernoulli_nb/bernoulli_nb.cpp | 10 ++++------
 modules/bernoulli_nb/bernoulli_nb.h   |  2 +-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/modules/bernoulli_nb/bernoulli_nb.cpp b/modules/bernoulli_nb/bernoulli_nb.cpp
index 7ef31f8..a096c4f 100644
--- a/modules/bernoulli_nb/bernoulli_nb.cpp
+++ b/modules/bernoulli_nb/bernoulli_nb.cpp
@@ -148,12 +148,10 @@ void MLPPBernoulliNB::compute_theta() {
 	}
 
 	for (int i = 0; i < _theta.size(); i++) {
-		for (uint32_t j = 0; j < _theta[i].size(); j++) {
-			if (i == 0) {
-				_theta.write[i][j] /= _prior_0 * _y_hat->size();
-			} else {
-				_theta.write[i][j] /= _prior_1 * _y_hat->size();
-			}
+		real_t class_size = Math::round((i == 0 ? _prior_0 : _prior_1) * _y_hat->size());
+
+		for (int j = 0; j < _vocab->size(); j++) {
+			_theta.write[i][_vocab->element_get(j)] /= class_size;
 		}
 	}
 }
diff --git a/modules/bernoulli_nb/bernoulli_nb.h b/modules/bernoulli_nb/bernoulli_nb.h
index 810778e..fab859b 100644
--- a/modules/bernoulli_nb/bernoulli_nb.h
+++ b/modules/bernoulli_nb/bernoulli_nb.h
@@ -69,7 +69,7 @@ protected:
 	real_t _prior_1;
 	real_t _prior_0;
 
-	Vector<HashMap<real_t, int>> _theta;
+	Vector<HashMap<real_t, real_t>> _theta;
 	Ref<MLPPVector> _vocab;
 	int _class_num;
 
-- 
2.43.0


From 424a40c808e1fcda2f135c72ee89c1e86e08baaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 166/325] fix: MultinomialNB: word probabilities are real
 numbers, one for each word of the vocabulary

---
 modules/multinomial_nb/multinomial_nb.cpp | 6 ++----
 modules/multinomial_nb/multinomial_nb.h   | 2 +-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/modules/multinomial_nb/multinomial_nb.cpp b/modules/multinomial_nb/multinomial_nb.cpp
index 0f63f0d..aabf656 100644
--- a/modules/multinomial_nb/multinomial_nb.cpp
+++ b/modules/multinomial_nb/multinomial_nb.cpp
@@ -202,10 +202,8 @@ void MLPPMultinomialNB::compute_theta() {
 	}
 
 	for (int i = 0; i < _theta.size(); i++) {
-		uint32_t theta_i_size = _theta[i].size();
-
-		for (uint32_t j = 0; j < theta_i_size; j++) {
-			_theta.write[i][j] /= _priors->element_get(i) * _y_hat->size();
+		for (int j = 0; j < vocab_size; j++) {
+			_theta.write[i][_vocab->element_get(j)] /= _priors->element_get(i) * _y_hat->size();
 		}
 	}
 }
diff --git a/modules/multinomial_nb/multinomial_nb.h b/modules/multinomial_nb/multinomial_nb.h
index 7d447ab..9dbd284 100644
--- a/modules/multinomial_nb/multinomial_nb.h
+++ b/modules/multinomial_nb/multinomial_nb.h
@@ -79,7 +79,7 @@ protected:
 	// Model Params
 	Ref<MLPPVector> _priors;
 
-	Vector<HashMap<real_t, int>> _theta;
+	Vector<HashMap<real_t, real_t>> _theta;
 	Ref<MLPPVector> _vocab;
 	int _class_num;
 
-- 
2.43.0


From acc4f83827d14f83b26656f749455e1281f0111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:18 +0000
Subject: [PATCH 167/325] fix: MultinomialNB: estimate priors, vocabulary and
 theta once and score every class with them

---
 modules/multinomial_nb/multinomial_nb.cpp | 71 ++++++-----------------
 1 file changed, 18 insertions(+), 53 deletions(-)

diff --git a/modules/multinomial_nb/multinomial_nb.cpp b/modules/multinomial_nb/multinomial_nb.cpp
index aabf656..5625dcd 100644
--- a/modules/multinomial_nb/multinomial_nb.cpp
+++ b/modules/multinomial_nb/multinomial_nb.cpp
@@ -36,6 +36,7 @@
 #include "core/containers/local_vector.h"
 #endif
 
+#include "../core/data.h"
 #include "../core/utilities.h"
 
 #include <random>
@@ -99,7 +100,9 @@ real_t MLPPMultinomialNB::model_test(const Ref<MLPPVector> &x) {
 	LocalVector<real_t> score;
 	score.resize(_class_num);
 
-	compute_theta();
+	for (int i = 0; i < _class_num; ++i) {
+		score[i] = 0;
+	}
 
 	int vocab_size = _vocab->size();
 
@@ -210,64 +213,26 @@ void MLPPMultinomialNB::compute_theta() {
 
 void MLPPMultinomialNB::evaluate() {
 	int output_set_size = _output_set->size();
-	Size2i input_set_size = _input_set->size();
 
+	// Easy computation of priors, i.e. Pr(C_k)
+	_priors->resize(_class_num);
+	_priors->fill(0);
 	for (int i = 0; i < output_set_size; i++) {
-		// Pr(B | A) * Pr(A)
-		LocalVector<real_t> score;
-		score.resize(_class_num);
-
-		// Easy computation of priors, i.e. Pr(C_k)
-		_priors->resize(_class_num);
-		for (int ii = 0; ii < _output_set->size(); ii++) {
-			int osii = static_cast<int>(_output_set->element_get(ii));
-			_priors->element_set(osii, _priors->element_get(osii) + 1);
-		}
-
-		_priors->scalar_multiply(real_t(1) / real_t(output_set_size));
-
-		// Evaluating Theta...
-		compute_theta();
-
-		for (int j = 0; j < input_set_size.y; j++) {
-			for (int k = 0; k < _vocab->size(); k++) {
-				real_t input_set_i_j = _input_set->element_get(i, j);
-				real_t vocab_k = _vocab->element_get(k);
-
-				if (Math::is_equal_approx(input_set_i_j, vocab_k)) {
-					real_t theta_i_k = _theta[i][vocab_k];
-					theta_i_k = Math::log(theta_i_k);
-
-					for (int p = _class_num - 1; p >= 0; p--) {
-						score[p] += theta_i_k;
-					}
-				}
-			}
-		}
-
-		int priors_size = _priors->size();
-
-		for (int ii = 0; ii < priors_size; ii++) {
-			score[ii] += Math::log(_priors->element_get(ii));
-			score[ii] = Math::exp(score[ii]);
-		}
-
-		// Assigning the traning example's y_hat to a class
+		int osi = static_cast<int>(_output_set->element_get(i));
+		_priors->element_set(osi, _priors->element_get(osi) + 1);
+	}
 
-		int max_index = 0;
-		real_t max_element = score[0];
+	_priors->scalar_multiply(real_t(1) / real_t(output_set_size));
 
-		for (uint32_t ii = 1; ii < score.size(); ++ii) {
-			real_t si = score[ii];
+	// Evaluating the vocab set...
+	MLPPData data;
+	_vocab = data.vec_to_setnv(_input_set->flatten());
 
-			if (si > max_element) {
-				max_index = ii;
-				max_element = si;
-			}
-		}
+	// Evaluating Theta...
+	compute_theta();
 
-		_y_hat->element_set(i, max_index);
-	}
+	// Assigning the traning examples to classes
+	_y_hat = model_set_test(_input_set);
 }
 
 void MLPPMultinomialNB::_bind_methods() {
-- 
2.43.0


From f33f819ad7c9dbb0bd2988367396ca7724ed3702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 168/325] fix: RandomPCG: integer ranges wider than an int

---
 platform/sfw.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 608d517..d9ce1f6 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2698,7 +2698,11 @@ int RandomPCG::random(int p_from, int p_to) {
 	if (p_from == p_to) {
 		return p_from;
 	}
-	return rand(abs(p_from - p_to) + 1) + MIN(p_from, p_to);
+	// The distance of two ints may not fit into an int.
+	uint32_t distance = (uint32_t)MAX(p_from, p_to) - (uint32_t)MIN(p_from, p_to);
+	uint32_t offset = distance == 0xFFFFFFFF ? rand() : rand(distance + 1);
+
+	return (int)((uint32_t)MIN(p_from, p_to) + offset);
 }
 #line 0
 
-- 
2.43.0


From fafed37418386fff9d5ecb2731d57ea602543936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:44 +0000
Subject: [PATCH 169/325] fix: Math: log10 of a double in double precision

---
 platform/sfw.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 0daf73d..2cd2ff3 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -2285,8 +2285,8 @@ public:
 	static _ALWAYS_INLINE_ double log1p(double p_x) { return ::log1p(p_x); }
 	static _ALWAYS_INLINE_ float log1p(float p_x) { return ::log1pf(p_x); }
 
-	static _ALWAYS_INLINE_ double log10(double p_x) { return ::log10f(p_x); }
-	static _ALWAYS_INLINE_ float log10(float p_x) { return ::log10(p_x); }
+	static _ALWAYS_INLINE_ double log10(double p_x) { return ::log10(p_x); }
+	static _ALWAYS_INLINE_ float log10(float p_x) { return ::log10f(p_x); }
 
 	static _ALWAYS_INLINE_ double log2(double p_x) { return ::log2(p_x); }
 	static _ALWAYS_INLINE_ float log2(float p_x) { return ::log2f(p_x); }
-- 
2.43.0


From 62619aaed41b630dca9a684004e4d1c0414adb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 170/325] fix: define ERR_FAIL_UNSIGNED_INDEX used by
 LocalVector and TightLocalVector

---
 platform/sfw.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 2cd2ff3..3406d17 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -1519,6 +1519,13 @@ _FORCE_INLINE_ void _RLOG_MACRO_TEMPLATE_FUNC(STR str, A p0, B p1, C p2, D p3, E
 	} else                                                                           \
 		((void)0)
 
+#define ERR_FAIL_UNSIGNED_INDEX(index, size)                                         \
+	if (index >= size) {                                                             \
+		RLogger::log_index_error(__FUNCTION__, __FILE__, __LINE__, index, size, ""); \
+		return;                                                                      \
+	} else                                                                           \
+		((void)0)
+
 #define ERR_FAIL_INDEX_MSG(index, size, msg)                                          \
 	if ((index < 0) || (index >= size)) {                                             \
 		RLogger::log_index_error(__FUNCTION__, __FILE__, __LINE__, index, size, msg); \
-- 
2.43.0


From 97896198a3f528342b794fdfe02adb44cf5e2874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 171/325] fix: link the element moved to the end by
 List::move_before

---
 platform/sfw.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 3406d17..7937a90 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -5736,6 +5736,11 @@ public:
 		value->next_ptr = where;
 		if (!where) {
 			value->prev_ptr = _data->last;
+			if (_data->last) {
+				_data->last->next_ptr = value;
+			} else {
+				_data->first = value;
+			}
 			_data->last = value;
 			return;
 		};
-- 
2.43.0


From 6fdeb7ce58f66f6a93eb00aa57ddfdbac2bd342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 172/325] fix: keep the content of a List on self-assignment

---
 platform/sfw.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 7937a90..2b9e129 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -5618,6 +5618,10 @@ public:
 	 * copy the list
 	 */
 	void operator=(const List &p_list) {
+		if (this == &p_list) {
+			return;
+		}
+
 		clear();
 		const Element *it = p_list.front();
 		while (it) {
-- 
2.43.0


From 49a0c2e75f43e256ea3eac9b5b277b27bb6cfad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 173/325] fix: keep the content of RBMap and RBSet on
 self-assignment

---
 platform/sfw.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 2b9e129..7c39240 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -3971,6 +3971,10 @@ private:
 	}
 
 	void _copy_from(const RBMap &p_map) {
+		if (this == &p_map) {
+			return;
+		}
+
 		clear();
 		// not the fastest way, but safeset to write.
 		for (Element *I = p_map.front(); I; I = I->next()) {
@@ -4606,6 +4610,10 @@ private:
 	}
 
 	void _copy_from(const RBSet &p_set) {
+		if (this == &p_set) {
+			return;
+		}
+
 		clear();
 		// not the fastest way, but safeset to write.
 		for (Element *I = p_set.front(); I; I = I->next()) {
-- 
2.43.0


From 855f9cb5c2010b4cf0008041b679e6cc55136229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 174/325] fix: replace the content of an OrderedHashMap on
 assignment

---
 platform/sfw.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 7c39240..3a240b3 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -16085,6 +16085,11 @@ private:
 
 public:
 	void operator=(const OrderedHashMap &p_map) {
+		if (this == &p_map) {
+			return;
+		}
+
+		clear();
 		_copy_from(p_map);
 	}
 
-- 
2.43.0


From 4134492c7cbfc72a47c264a97f2935ec765c5be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 175/325] fix: clip RingBuffer::copy and find to the stored
 data

---
 platform/sfw.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 3a240b3..4d382f3 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -5951,7 +5951,7 @@ public:
 	int copy(T *p_buf, int p_offset, int p_size) const {
 		int left = data_left();
 		if ((p_offset + p_size) > left) {
-			p_size -= left - p_offset;
+			p_size = left - p_offset;
 			if (p_size <= 0) {
 				return 0;
 			}
@@ -5977,9 +5977,9 @@ public:
 	int find(const T &t, int p_offset, int p_max_size) const {
 		int left = data_left();
 		if ((p_offset + p_max_size) > left) {
-			p_max_size -= left - p_offset;
+			p_max_size = left - p_offset;
 			if (p_max_size <= 0) {
-				return 0;
+				return -1;
 			}
 		}
 		p_max_size = MIN(left, p_max_size);
-- 
2.43.0


From 33858e1f7bcff4488c2e0932f16929d95abe8c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 176/325] fix: copy elements when converting LocalVector to
 Vector or PoolVector

---
 platform/sfw.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 4d382f3..f2390be 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -9577,7 +9577,9 @@ public:
 		Vector<T> ret;
 		ret.resize(size());
 		T *w = ret.ptrw();
-		memcpy(w, data, sizeof(T) * count);
+		for (U i = 0; i < count; i++) {
+			w[i] = data[i];
+		}
 		return ret;
 	}
 
@@ -9587,7 +9589,9 @@ public:
 			pl.resize(size());
 			typename PoolVector<T>::Write w = pl.write();
 			T *dest = w.ptr();
-			memcpy(dest, data, sizeof(T) * count);
+			for (U i = 0; i < count; i++) {
+				dest[i] = data[i];
+			}
 		}
 		return pl;
 	}
@@ -9866,7 +9870,9 @@ public:
 		Vector<T> ret;
 		ret.resize(size());
 		T *w = ret.ptrw();
-		memcpy(w, data, sizeof(T) * count);
+		for (U i = 0; i < count; i++) {
+			w[i] = data[i];
+		}
 		return ret;
 	}
 
@@ -9876,7 +9882,9 @@ public:
 			pl.resize(size());
 			typename PoolVector<T>::Write w = pl.write();
 			T *dest = w.ptr();
-			memcpy(dest, data, sizeof(T) * count);
+			for (U i = 0; i < count; i++) {
+				dest[i] = data[i];
+			}
 		}
 		return pl;
 	}
-- 
2.43.0


From 6b571d795143ca3c2fa53e4d52e26b3c86ce5de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 177/325] fix: check the stored data in RingBuffer::read

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index f2390be..05a9213 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -5921,7 +5921,7 @@ class RingBuffer {
 
 public:
 	T read() {
-		ERR_FAIL_COND_V(space_left() < 1, T());
+		ERR_FAIL_COND_V(data_left() < 1, T());
 		return data.ptr()[inc(read_pos, 1)];
 	};
 
-- 
2.43.0


From a47c17b49e5b9f1f5909350780bed79eab4a1402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:01 +0000
Subject: [PATCH 178/325] fix: select the n-th element correctly when
 SortArray::introselect falls back to a heap

---
 platform/sfw.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 05a9213..3e11f67 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -3402,8 +3402,8 @@ public:
 	inline void introselect(int p_first, int p_nth, int p_last, T *p_array, int p_max_depth) const {
 		while (p_last - p_first > 3) {
 			if (p_max_depth == 0) {
-				partial_select(p_first, p_nth + 1, p_last, p_array);
-				SWAP(p_first, p_nth);
+				partial_select(p_first, p_last, p_nth + 1, p_array);
+				SWAP(p_array[p_first], p_array[p_nth]);
 				return;
 			}
 
-- 
2.43.0


From 2d6d073e978ec1b70f61a35bf7f60fbaedeaf05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:01 +0000
Subject: [PATCH 179/325] fix: return early from to_byte_array of an empty
 vector

---
 platform/sfw.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/platform/sfw.h b/platform/sfw.h
index 3e11f67..dc5a6a1 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -5037,6 +5037,9 @@ public:
 
 	Vector<uint8_t> to_byte_array() const {
 		Vector<uint8_t> ret;
+		if (empty()) {
+			return ret;
+		}
 		ret.resize(size() * sizeof(T));
 		memcpy(ret.ptrw(), ptr(), sizeof(T) * size());
 		return ret;
@@ -9598,6 +9601,9 @@ public:
 
 	Vector<uint8_t> to_byte_array() const { //useful to pass stuff to gpu or variant
 		Vector<uint8_t> ret;
+		if (empty()) {
+			return ret;
+		}
 		ret.resize(count * sizeof(T));
 		uint8_t *w = ret.ptrw();
 		memcpy(w, data, sizeof(T) * count);
@@ -9891,6 +9897,9 @@ public:
 
 	Vector<uint8_t> to_byte_array() const { //useful to pass stuff to gpu or variant
 		Vector<uint8_t> ret;
+		if (empty()) {
+			return ret;
+		}
 		ret.resize(count * sizeof(T));
 		uint8_t *w = ret.ptrw();
 		memcpy(w, data, sizeof(T) * count);
-- 
2.43.0


From 6fd993f0a4225576366a3078b66d372181c7e809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 180/325] fix: treat C strings as Latin-1 consistently in
 String comparisons, searches and hashes

---
 platform/sfw.cpp | 18 +++++++++---------
 platform/sfw.h   |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index d9ce1f6..883fba4 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -3430,7 +3430,7 @@ bool String::operator==(const char *p_str) const {
 
 	// Compare char by char
 	for (int i = 0; i < l; i++) {
-		if ((CharType)p_str[i] != dst[i]) {
+		if ((CharType)(uint8_t)p_str[i] != dst[i]) {
 			return false;
 		}
 	}
@@ -3519,7 +3519,7 @@ bool String::operator<(const char *p_str) const {
 	if (empty()) {
 		return true;
 	}
-	return is_str_less(get_data(), p_str);
+	return is_str_less(get_data(), (const uint8_t *)p_str);
 }
 
 bool String::operator<(const wchar_t *p_str) const {
@@ -3841,7 +3841,7 @@ int String::find(const char *p_str, int p_from) const {
 	}
 
 	if (src_len == 1) {
-		const CharType needle = p_str[0];
+		const CharType needle = (uint8_t)p_str[0];
 
 		for (int i = p_from; i < len; i++) {
 			if (src[i] == needle) {
@@ -3860,7 +3860,7 @@ int String::find(const char *p_str, int p_from) const {
 					return -1;
 				};
 
-				if (src[read_pos] != (CharType)p_str[j]) {
+				if (src[read_pos] != (CharType)(uint8_t)p_str[j]) {
 					found = false;
 					break;
 				}
@@ -4106,7 +4106,7 @@ bool String::is_word_at(const int index, const char *p_str) const {
 			return false;
 		}
 
-		if (operator[](iind) != (CharType)p_str[i]) {
+		if (operator[](iind) != (CharType)(uint8_t)p_str[i]) {
 			return false;
 		}
 
@@ -4182,7 +4182,7 @@ bool String::begins_with(const char *p_string) const {
 	int i = 0;
 
 	while (*p_string && i < l) {
-		if ((CharType)(*p_string) != str[i]) {
+		if ((CharType)(uint8_t)(*p_string) != str[i]) {
 			return false;
 		}
 		i++;
@@ -6193,7 +6193,7 @@ uint32_t String::hash(const char *p_cstr) {
 	uint32_t hashv = 5381;
 	uint32_t c;
 
-	while ((c = *p_cstr++)) {
+	while ((c = (uint8_t)*p_cstr++)) {
 		hashv = ((hashv << 5) + hashv) + c; /* hash * 33 + c */
 	}
 
@@ -6203,7 +6203,7 @@ uint32_t String::hash(const char *p_cstr) {
 uint32_t String::hash(const char *p_cstr, int p_len) {
 	uint32_t hashv = 5381;
 	for (int i = 0; i < p_len; i++) {
-		hashv = ((hashv << 5) + hashv) + p_cstr[i]; /* hash * 33 + c */
+		hashv = ((hashv << 5) + hashv) + (uint8_t)p_cstr[i]; /* hash * 33 + c */
 	}
 
 	return hashv;
@@ -14380,7 +14380,7 @@ String StringBuilder::as_string() const {
 			const char *s = c_strings[c_string_elem];
 
 			for (int32_t j = 0; j < appended_strings[i]; j++) {
-				buffer[current_position + j] = s[j];
+				buffer[current_position + j] = (uint8_t)s[j];
 			}
 
 			current_position += appended_strings[i];
diff --git a/platform/sfw.h b/platform/sfw.h
index dc5a6a1..1456325 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -17305,7 +17305,7 @@ StringBuffer<SHORT_BUFFER_SIZE> &StringBuffer<SHORT_BUFFER_SIZE>::append(const c
 
 	CharType *buf = current_buffer_ptr();
 	for (const char *c_ptr = p_str; *c_ptr; ++c_ptr) {
-		buf[string_length++] = *c_ptr;
+		buf[string_length++] = (uint8_t)*c_ptr;
 	}
 	return *this;
 }
-- 
2.43.0


From cc87d51e76a236b0c5e1f100819e91777a4a077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 181/325] fix: find nothing when searching a String for an
 empty C string

---
 platform/sfw.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 883fba4..7c76bcb 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -3840,6 +3840,10 @@ int String::find(const char *p_str, int p_from) const {
 		src_len++;
 	}
 
+	if (src_len == 0) {
+		return -1; // won't find anything!
+	}
+
 	if (src_len == 1) {
 		const CharType needle = (uint8_t)p_str[0];
 
-- 
2.43.0


From 7077f32de848af7ac4337e7728331c8e5c1fd18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 182/325] fix: find a word at the end of the string in
 String::is_word_at

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 7c76bcb..4e763a7 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -4124,7 +4124,7 @@ bool String::is_word_at(const int index, const String &p_str) const {
 
 	ERR_FAIL_INDEX_V(index, size, false);
 
-	if (index + p_str.length() >= size) {
+	if (index + p_str.length() > size) {
 		return false;
 	}
 
-- 
2.43.0


From 51966e0f3fc870b5c7221e9f36fdb20f8c2a9f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 183/325] fix: let the empty String begin with the empty C
 string

---
 platform/sfw.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 4e763a7..460511c 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -4178,9 +4178,12 @@ bool String::begins_with(const String &p_string) const {
 
 bool String::begins_with(const char *p_string) const {
 	int l = length();
-	if (l == 0 || !p_string) {
+	if (!p_string) {
 		return false;
 	}
+	if (l == 0) {
+		return *p_string == 0;
+	}
 
 	const CharType *str = &operator[](0);
 	int i = 0;
-- 
2.43.0


From 1514ec5c83fe9ddaacacc4020869d708d5a035cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 184/325] fix: do not overflow in String::substr with a huge
 count

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 460511c..d0d7d16 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -3751,7 +3751,7 @@ String String::substr(int p_from, int p_chars) const {
 		return "";
 	}
 
-	if ((p_from + p_chars) > length()) {
+	if (p_chars > length() - p_from) {
 		p_chars = length() - p_from;
 	}
 
-- 
2.43.0


From 37fc515908efb9642bc4684e446b5a01280eb8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 185/325] fix: keep the last character in String::substr_index
 when the end is beyond the string

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index d0d7d16..8f78c52 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -3776,7 +3776,7 @@ String String::substr_index(const int start_index, const int end_index) const {
 	}
 
 	if (end_index > s) {
-		return substr(start_index, (s - 1) - start_index);
+		return substr(start_index, s - start_index);
 	}
 
 	return substr(start_index, end_index - start_index);
-- 
2.43.0


From 14e202b31a0ea3ca043e0ad1279eff64e28124a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 186/325] fix: match every bigram once in String::similarity

---
 platform/sfw.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 8f78c52..cb4f8e2 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -4270,9 +4270,10 @@ float String::similarity(const String &p_string) const {
 	float sum = src_size + tgt_size;
 	float inter = 0;
 	for (int i = 0; i < src_size; i++) {
-		for (int j = 0; j < tgt_size; j++) {
+		for (int j = 0; j < tgt_bigrams.size(); j++) {
 			if (src_bigrams[i] == tgt_bigrams[j]) {
 				inter++;
+				tgt_bigrams.remove(j); // each bigram is matched once
 				break;
 			}
 		}
-- 
2.43.0


From d881460ae0c1abad60642572e72c34779d7a8346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 187/325] fix: write all digits of huge numbers in String::num

---
 platform/sfw.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index cb4f8e2..53b23f0 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -4605,15 +4605,15 @@ String String::num(double p_num, int p_decimals) {
 		fmt[5] = 'f';
 		fmt[6] = 0;
 	}
-	char buf[256];
+	char buf[336]; // the largest double has 309 digits before the point
 
 #if defined(__GNUC__) || defined(_MSC_VER)
-	snprintf(buf, 256, fmt, p_num);
+	snprintf(buf, 336, fmt, p_num);
 #else
 	sprintf(buf, fmt, p_num);
 #endif
 
-	buf[255] = 0;
+	buf[335] = 0;
 	//destroy trailing zeroes
 	{
 		bool period = false;
-- 
2.43.0


From 06e28d026ea3e1dbbe36d39b91199286430b0564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 188/325] fix: write numbers beyond the int range in
 String::num_real

---
 platform/sfw.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 53b23f0..1d76897 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -4783,12 +4783,12 @@ String String::num_real(double p_num) {
 
 	bool neg = p_num < 0;
 	p_num = ABS(p_num);
-	int intn = (int)p_num;
+	double intn = Math::floor(p_num);
 
 	/* decimal part */
 
-	if ((int)p_num != p_num) {
-		double dec = p_num - (double)((int)p_num);
+	if (intn != p_num) {
+		double dec = p_num - intn;
 
 		int digit = 0;
 		int decimals = MAX_DIGITS;
@@ -4835,17 +4835,7 @@ String String::num_real(double p_num) {
 		sd = ".0";
 	}
 
-	if (intn == 0) {
-		s = "0";
-	} else {
-		while (intn) {
-			CharType num = '0' + (intn % 10);
-			intn /= 10;
-			s = num + s;
-		}
-	}
-
-	s = s + sd;
+	s = String::num(intn, 0) + sd;
 	if (neg) {
 		s = "-" + s;
 	}
-- 
2.43.0


From 11a2b8b11f7d65617093cb0f1a558b9ff8d34d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 189/325] fix: let equal strings of dots compare equal in
 String::naturalnocasecmp_to

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 1d76897..c8c1f7a 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -3643,7 +3643,7 @@ signed char String::naturalnocasecmp_to(const String &p_str) const {
 				return -1;
 			}
 			if (!*that_str) {
-				return 1;
+				return *this_str ? 1 : 0;
 			}
 			if (!*this_str) {
 				return -1;
-- 
2.43.0


From 40cc0e99951981a50cb5236a2960b79a6f8f45eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:38 +0000
Subject: [PATCH 190/325] fix: do not write past an empty String in
 String::split_floats

---
 platform/sfw.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index c8c1f7a..7810654 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -5276,9 +5276,13 @@ Vector<float> String::split_floats(const String &p_splitter, bool p_allow_empty)
 			end = len;
 		}
 		if (p_allow_empty || (end > from)) {
-			buffer[end] = 0;
+			if (end < len) {
+				buffer[end] = 0;
+			}
 			ret.push_back(String::to_double(&buffer.get_data()[from]));
-			buffer[end] = _cowdata.get(end);
+			if (end < len) {
+				buffer[end] = _cowdata.get(end);
+			}
 		}
 
 		if (end == len) {
@@ -5308,9 +5312,13 @@ Vector<float> String::split_floats_mk(const Vector<String> &p_splitters, bool p_
 		}
 
 		if (p_allow_empty || (end > from)) {
-			buffer[end] = 0;
+			if (end < len) {
+				buffer[end] = 0;
+			}
 			ret.push_back(String::to_double(&buffer.get_data()[from]));
-			buffer[end] = _cowdata.get(end);
+			if (end < len) {
+				buffer[end] = _cowdata.get(end);
+			}
 		}
 
 		if (end == len) {
-- 
2.43.0


From 180a2aa2f1032c6edad043625a28ab721a481c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 191/325] fix: parse integers at the limits of their type
 without overflow in String

---
 platform/sfw.cpp | 58 ++++++++++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 7810654..b8c023d 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -7636,7 +7636,8 @@ int String::hex_to_int(bool p_with_prefix) const {
 		s += 2;
 	}
 
-	int hex = 0;
+	uint32_t hex = 0;
+	const uint32_t limit = sign == 1 ? INT32_MAX : (uint32_t)INT32_MAX + 1;
 
 	while (*s) {
 		CharType c = LOWERCASE(*s);
@@ -7648,15 +7649,14 @@ int String::hex_to_int(bool p_with_prefix) const {
 		} else {
 			ERR_FAIL_V_MSG(0, "Invalid hexadecimal notation character \"" + chr(*s) + "\" in string \"" + *this + "\".");
 		}
-		// Check for overflow/underflow, with special case to ensure INT32_MIN does not result in error
-		bool overflow = ((hex > INT32_MAX / 16) && (sign == 1 || (sign == -1 && hex != (INT32_MAX >> 4) + 1))) || (sign == -1 && hex == (INT32_MAX >> 4) + 1 && c > '0');
+		bool overflow = hex > (limit - (uint32_t)n) / 16;
 		ERR_FAIL_COND_V_MSG(overflow, sign == 1 ? INT32_MAX : INT32_MIN, "Cannot represent " + *this + " as a 32-bit signed integer, since the value is " + (sign == 1 ? "too large." : "too small."));
 		hex *= 16;
 		hex += n;
 		s++;
 	}
 
-	return hex * sign;
+	return (int)(sign == -1 ? 0 - hex : hex);
 }
 
 int64_t String::hex_to_int64(bool p_with_prefix) const {
@@ -7676,7 +7676,8 @@ int64_t String::hex_to_int64(bool p_with_prefix) const {
 		s += 2;
 	}
 
-	int64_t hex = 0;
+	uint64_t hex = 0;
+	const uint64_t limit = sign == 1 ? INT64_MAX : (uint64_t)INT64_MAX + 1;
 
 	while (*s) {
 		CharType c = LOWERCASE(*s);
@@ -7688,14 +7689,14 @@ int64_t String::hex_to_int64(bool p_with_prefix) const {
 		} else {
 			ERR_FAIL_V_MSG(0, "Invalid hexadecimal notation character \"" + chr(*s) + "\" in string \"" + *this + "\".");
 		}
-		bool overflow = ((hex > INT64_MAX / 16) && (sign == 1 || (sign == -1 && hex != (INT64_MAX >> 4) + 1))) || (sign == -1 && hex == (INT64_MAX >> 4) + 1 && c > '0');
+		bool overflow = hex > (limit - (uint64_t)n) / 16;
 		ERR_FAIL_COND_V_MSG(overflow, sign == 1 ? INT64_MAX : INT64_MIN, "Cannot represent " + *this + " as a 64-bit signed integer, since the value is " + (sign == 1 ? "too large." : "too small."));
 		hex *= 16;
 		hex += n;
 		s++;
 	}
 
-	return hex * sign;
+	return (int64_t)(sign == -1 ? 0 - hex : hex);
 }
 
 int64_t String::bin_to_int64(bool p_with_prefix) const {
@@ -7715,7 +7716,8 @@ int64_t String::bin_to_int64(bool p_with_prefix) const {
 		s += 2;
 	}
 
-	int64_t binary = 0;
+	uint64_t binary = 0;
+	const uint64_t limit = sign == 1 ? INT64_MAX : (uint64_t)INT64_MAX + 1;
 
 	while (*s) {
 		CharType c = LOWERCASE(*s);
@@ -7725,15 +7727,14 @@ int64_t String::bin_to_int64(bool p_with_prefix) const {
 		} else {
 			ERR_FAIL_V_MSG(0, "Invalid binary notation character \"" + chr(*s) + "\" in string \"" + *this + "\".");
 		}
-		// Check for overflow/underflow, with special case to ensure INT64_MIN does not result in error
-		bool overflow = ((binary > INT64_MAX / 2) && (sign == 1 || (sign == -1 && binary != (INT64_MAX >> 1) + 1))) || (sign == -1 && binary == (INT64_MAX >> 1) + 1 && c > '0');
+		bool overflow = binary > (limit - (uint64_t)n) / 2;
 		ERR_FAIL_COND_V_MSG(overflow, sign == 1 ? INT64_MAX : INT64_MIN, "Cannot represent " + *this + " as a 64-bit signed integer, since the value is " + (sign == 1 ? "too large." : "too small."));
 		binary *= 2;
 		binary += n;
 		s++;
 	}
 
-	return binary * sign;
+	return (int64_t)(sign == -1 ? 0 - binary : binary);
 }
 
 template <class C>
@@ -7976,13 +7977,14 @@ int String::to_int() const {
 
 	int to = (find(".") >= 0) ? find(".") : length();
 
-	int integer = 0;
+	uint32_t integer = 0;
 	int sign = 1;
 
 	for (int i = 0; i < to; i++) {
 		CharType c = operator[](i);
 		if (c >= '0' && c <= '9') {
-			bool overflow = (integer > INT32_MAX / 10) || (integer == INT32_MAX / 10 && ((sign == 1 && c > '7') || (sign == -1 && c > '8')));
+			const uint32_t limit = sign == 1 ? INT32_MAX : (uint32_t)INT32_MAX + 1;
+			bool overflow = integer > (limit - (c - '0')) / 10;
 			ERR_FAIL_COND_V_MSG(overflow, sign == 1 ? INT32_MAX : INT32_MIN, "Cannot represent " + *this + " as a 32-bit signed integer, since the value is " + (sign == 1 ? "too large." : "too small."));
 			integer *= 10;
 			integer += c - '0';
@@ -7992,7 +7994,7 @@ int String::to_int() const {
 		}
 	}
 
-	return integer * sign;
+	return (int)(sign == -1 ? 0 - integer : integer);
 }
 
 bool String::to_bool() const {
@@ -8022,13 +8024,14 @@ int64_t String::to_int64() const {
 
 	int to = (find(".") >= 0) ? find(".") : length();
 
-	int64_t integer = 0;
+	uint64_t integer = 0;
 	int64_t sign = 1;
 
 	for (int i = 0; i < to; i++) {
 		CharType c = operator[](i);
 		if (c >= '0' && c <= '9') {
-			bool overflow = (integer > INT64_MAX / 10) || (integer == INT64_MAX / 10 && ((sign == 1 && c > '7') || (sign == -1 && c > '8')));
+			const uint64_t limit = sign == 1 ? INT64_MAX : (uint64_t)INT64_MAX + 1;
+			bool overflow = integer > (limit - (c - '0')) / 10;
 			ERR_FAIL_COND_V_MSG(overflow, sign == 1 ? INT64_MAX : INT64_MIN, "Cannot represent " + *this + " as a 64-bit signed integer, since the value is " + (sign == 1 ? "too large." : "too small."));
 			integer *= 10;
 			integer += c - '0';
@@ -8038,7 +8041,7 @@ int64_t String::to_int64() const {
 		}
 	}
 
-	return integer * sign;
+	return (int64_t)(sign == -1 ? 0 - integer : integer);
 }
 
 int64_t String::to_int(const char *p_str, int p_len) {
@@ -8051,13 +8054,14 @@ int64_t String::to_int(const char *p_str, int p_len) {
 		}
 	}
 
-	int64_t integer = 0;
+	uint64_t integer = 0;
 	int64_t sign = 1;
 
 	for (int i = 0; i < to; i++) {
 		char c = p_str[i];
 		if (is_digit(c)) {
-			bool overflow = (integer > INT64_MAX / 10) || (integer == INT64_MAX / 10 && ((sign == 1 && c > '7') || (sign == -1 && c > '8')));
+			const uint64_t limit = sign == 1 ? INT64_MAX : (uint64_t)INT64_MAX + 1;
+			bool overflow = integer > (limit - (c - '0')) / 10;
 			ERR_FAIL_COND_V_MSG(overflow, sign == 1 ? INT64_MAX : INT64_MIN, "Cannot represent " + String(p_str).substr(0, to) + " as a 64-bit signed integer, since the value is " + (sign == 1 ? "too large." : "too small."));
 			integer *= 10;
 			integer += c - '0';
@@ -8069,7 +8073,7 @@ int64_t String::to_int(const char *p_str, int p_len) {
 		}
 	}
 
-	return integer * sign;
+	return (int64_t)(sign == -1 ? 0 - integer : integer);
 }
 
 int64_t String::to_int(const wchar_t *p_str, int p_len) {
@@ -8082,13 +8086,14 @@ int64_t String::to_int(const wchar_t *p_str, int p_len) {
 		}
 	}
 
-	int64_t integer = 0;
+	uint64_t integer = 0;
 	int64_t sign = 1;
 
 	for (int i = 0; i < to; i++) {
 		wchar_t c = p_str[i];
 		if (is_digit(c)) {
-			bool overflow = (integer > INT64_MAX / 10) || (integer == INT64_MAX / 10 && ((sign == 1 && c > '7') || (sign == -1 && c > '8')));
+			const uint64_t limit = sign == 1 ? INT64_MAX : (uint64_t)INT64_MAX + 1;
+			bool overflow = integer > (limit - (c - '0')) / 10;
 			ERR_FAIL_COND_V_MSG(overflow, sign == 1 ? INT64_MAX : INT64_MIN, "Cannot represent " + String(p_str).substr(0, to) + " as a 64-bit signed integer, since the value is " + (sign == 1 ? "too large." : "too small."));
 			integer *= 10;
 			integer += c - '0';
@@ -8100,7 +8105,7 @@ int64_t String::to_int(const wchar_t *p_str, int p_len) {
 		}
 	}
 
-	return integer * sign;
+	return (int64_t)(sign == -1 ? 0 - integer : integer);
 }
 
 int64_t String::to_int(const CharType *p_str, int p_len, bool p_clamp) {
@@ -8109,7 +8114,7 @@ int64_t String::to_int(const CharType *p_str, int p_len, bool p_clamp) {
 	}
 	///@todo make more exact so saving and loading does not lose precision
 
-	int64_t integer = 0;
+	uint64_t integer = 0;
 	int64_t sign = 1;
 	int reading = READING_SIGN;
 
@@ -8138,7 +8143,8 @@ int64_t String::to_int(const CharType *p_str, int p_len, bool p_clamp) {
 			}
 			case READING_INT: {
 				if (is_digit(c)) {
-					if (integer > INT64_MAX / 10) {
+					const uint64_t max_value = sign == 1 ? INT64_MAX : (uint64_t)INT64_MAX + 1;
+					if (integer > (max_value - (c - '0')) / 10) {
 						String number("");
 						str = p_str;
 						while (*str && str != limit) {
@@ -8164,7 +8170,7 @@ int64_t String::to_int(const CharType *p_str, int p_len, bool p_clamp) {
 		}
 	}
 
-	return sign * integer;
+	return (int64_t)(sign == -1 ? 0 - integer : integer);
 }
 
 double String::to_float(const char *p_str) {
-- 
2.43.0


From 345727566ee88c2f7e2370a21d16544abfcb8399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 192/325] fix: parse the whole unsigned range in
 String::to_uint

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index b8c023d..3bf6762 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -8011,7 +8011,7 @@ bool String::to_bool() const {
 
 uint32_t String::to_uint() const {
 	if (is_numeric()) {
-		return static_cast<uint32_t>(to_int());
+		return static_cast<uint32_t>(to_int64());
 	}
 
 	return 0;
-- 
2.43.0


From 203fbbccc8c6faa6c7c6b7ad1b517fd3d27b80d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 193/325] fix: skip leading zeros when parsing floating point
 numbers in String

---
 platform/sfw.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 3bf6762..ebdc860 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -7847,6 +7847,14 @@ static double built_in_strtod(
 	} else {
 		mantSize -= 1; /* One of the digits was the point. */
 	}
+	/* Leading zeros carry no information. */
+	while (mantSize > 1 && (*p == '0' || *p == '.')) {
+		if (*p == '0') {
+			mantSize -= 1;
+			decPt -= 1;
+		}
+		p += 1;
+	}
 	if (mantSize > 18) {
 		fracExp = decPt - 18;
 		mantSize = 18;
-- 
2.43.0


From 1736cddb820855fa764d65864b3dd965fedbb3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 194/325] fix: handle extreme exponents when parsing floating
 point numbers in String

---
 platform/sfw.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index ebdc860..1c5e32e 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -7912,7 +7912,9 @@ static double built_in_strtod(
 			goto done;
 		}
 		while (IS_DIGIT(CharType(*p))) {
-			exp = exp * 10 + (*p - '0');
+			if (exp < 100000000) {
+				exp = exp * 10 + (*p - '0');
+			}
 			p += 1;
 		}
 	}
@@ -7935,6 +7937,14 @@ static double built_in_strtod(
 		expSign = false;
 	}
 
+	if (fraction == 0.0) {
+		exp = 0; // 0 * inf is not a number
+	}
+	if (expSign && exp > 256) {
+		// Keep the power representable, denormal results need more than 10^308
+		fraction /= 1.0e256;
+		exp -= 256;
+	}
 	if (exp > maxExponent) {
 		exp = maxExponent;
 		//LOG_WARN("Exponent too high");
-- 
2.43.0


From 2e59c07480af65b3ec3330c19edf8067bc04a537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 195/325] fix: decode what http_escape encodes in
 String::http_unescape

---
 platform/sfw.cpp | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 1c5e32e..fc50a96 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6882,25 +6882,18 @@ String String::http_escape() const {
 }
 
 String String::http_unescape() const {
-	String res;
-	for (int i = 0; i < length(); ++i) {
-		if (ord_at(i) == '%' && i + 2 < length()) {
-			CharType ord1 = ord_at(i + 1);
-			if ((ord1 >= '0' && ord1 <= '9') || (ord1 >= 'A' && ord1 <= 'Z')) {
-				CharType ord2 = ord_at(i + 2);
-				if ((ord2 >= '0' && ord2 <= '9') || (ord2 >= 'A' && ord2 <= 'Z')) {
-					char bytes[3] = { (char)ord1, (char)ord2, 0 };
-					res += (char)strtol(bytes, nullptr, 16);
-					i += 2;
-				}
-			} else {
-				res += ord_at(i);
-			}
+	CharString src = utf8();
+	CharString res;
+	for (int i = 0; i < src.length(); ++i) {
+		if (src[i] == '%' && i + 2 < src.length() && is_hex_digit((uint8_t)src[i + 1]) && is_hex_digit((uint8_t)src[i + 2])) {
+			char bytes[3] = { src[i + 1], src[i + 2], 0 };
+			res += (char)strtol(bytes, nullptr, 16);
+			i += 2;
 		} else {
-			res += ord_at(i);
+			res += src[i];
 		}
 	}
-	return String::utf8(res.ascii());
+	return String::utf8(res);
 }
 
 String String::uri_encode() const {
-- 
2.43.0


From a92f38d9df4627e7ad5f9220040fbb43ff0e6799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 196/325] fix: accept exactly the hexadecimal digits in
 String::uri_decode

---
 platform/sfw.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index fc50a96..21e3f2c 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6918,18 +6918,10 @@ String String::uri_decode() const {
 	CharString src = utf8();
 	CharString res;
 	for (int i = 0; i < src.length(); ++i) {
-		if (src[i] == '%' && i + 2 < src.length()) {
-			char ord1 = src[i + 1];
-			if (is_digit(ord1) || is_ascii_upper_case(ord1)) {
-				char ord2 = src[i + 2];
-				if (is_digit(ord2) || is_ascii_upper_case(ord2)) {
-					char bytes[3] = { (char)ord1, (char)ord2, 0 };
-					res += (char)strtol(bytes, nullptr, 16);
-					i += 2;
-				}
-			} else {
-				res += src[i];
-			}
+		if (src[i] == '%' && i + 2 < src.length() && is_hex_digit((uint8_t)src[i + 1]) && is_hex_digit((uint8_t)src[i + 2])) {
+			char bytes[3] = { src[i + 1], src[i + 2], 0 };
+			res += (char)strtol(bytes, nullptr, 16);
+			i += 2;
 		} else if (src[i] == '+') {
 			res += ' ';
 		} else {
-- 
2.43.0


From 0c72d89c9e63ee7615d394b78b4c738d781e87ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 197/325] fix: compare with the encoded length in
 String::percent_decode

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 21e3f2c..4116de1 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -7140,7 +7140,7 @@ String String::percent_decode() const {
 	CharString cs = utf8();
 	for (int i = 0; i < cs.length(); i++) {
 		uint8_t c = cs[i];
-		if (c == '%' && i < length() - 2) {
+		if (c == '%' && i < cs.length() - 2) {
 			uint8_t a = LOWERCASE(cs[i + 1]);
 			uint8_t b = LOWERCASE(cs[i + 2]);
 
-- 
2.43.0


From c073083f0a43f6998e8646b54e46274d110d1cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 198/325] fix: unescape from left to right in
 String::c_unescape

---
 platform/sfw.cpp | 63 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 13 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 4116de1..7f757fc 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6957,20 +6957,57 @@ String String::c_escape_multiline() const {
 }
 
 String String::c_unescape() const {
-	String escaped = *this;
-	escaped = escaped.replace("\\a", "\a");
-	escaped = escaped.replace("\\b", "\b");
-	escaped = escaped.replace("\\f", "\f");
-	escaped = escaped.replace("\\n", "\n");
-	escaped = escaped.replace("\\r", "\r");
-	escaped = escaped.replace("\\t", "\t");
-	escaped = escaped.replace("\\v", "\v");
-	escaped = escaped.replace("\\'", "\'");
-	escaped = escaped.replace("\\\"", "\"");
-	escaped = escaped.replace("\\?", "\?");
-	escaped = escaped.replace("\\\\", "\\");
+	String unescaped;
 
-	return escaped;
+	for (int i = 0; i < length(); ++i) {
+		CharType c = operator[](i);
+
+		if (c == '\\' && i + 1 < length()) {
+			CharType next = operator[](i + 1);
+			bool known = true;
+
+			switch (next) {
+				case 'a':
+					c = '\a';
+					break;
+				case 'b':
+					c = '\b';
+					break;
+				case 'f':
+					c = '\f';
+					break;
+				case 'n':
+					c = '\n';
+					break;
+				case 'r':
+					c = '\r';
+					break;
+				case 't':
+					c = '\t';
+					break;
+				case 'v':
+					c = '\v';
+					break;
+				case '\'':
+				case '\"':
+				case '?':
+				case '\\':
+					c = next;
+					break;
+				default:
+					known = false;
+					break;
+			}
+
+			if (known) {
+				++i;
+			}
+		}
+
+		unescaped += c;
+	}
+
+	return unescaped;
 }
 
 String String::json_escape() const {
-- 
2.43.0


From 009f85000564eb90f4c526b80bf40fc7643841b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 199/325] fix: join with a single slash in String::append_path

---
 platform/sfw.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 7f757fc..32e4c48 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6585,13 +6585,8 @@ String String::append_path(const char *path) const {
 	if (ret.ends_with("/") || ret.ends_with("\\")) {
 		ret += &path[sindex];
 	} else {
-		if (sindex > 0) {
-			ret += '/';
-			ret += &path[sindex - 1];
-		} else {
-			ret += '/';
-			ret += &path[sindex];
-		}
+		ret += '/';
+		ret += &path[sindex];
 	}
 
 	return ret;
@@ -6627,13 +6622,8 @@ String String::append_path(const String &path) const {
 	if (ret.ends_with("/") || ret.ends_with("\\")) {
 		ret += &path[sindex];
 	} else {
-		if (sindex > 0) {
-			ret += '/';
-			ret += &path[sindex - 1];
-		} else {
-			ret += '/';
-			ret += &path[sindex];
-		}
+		ret += '/';
+		ret += &path[sindex];
 	}
 
 	return ret;
-- 
2.43.0


From a6fafd7a5824c3d4b63c9757387d74c6a79139d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 200/325] fix: compare whole characters in String::append_path

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 32e4c48..da45e2e 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6605,7 +6605,7 @@ String String::append_path(const String &path) const {
 
 	int sindex = 0;
 	int ts = path.size() - 1;
-	char ch = path[sindex];
+	CharType ch = path[sindex];
 	while (ch == '/' || ch == '\\') {
 		if (sindex == ts) {
 			return *this;
-- 
2.43.0


From 38bd18c755ddc2503469ef3c07424caa276377b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 201/325] fix: append nothing for a C string of slashes in
 String::append_path

---
 platform/sfw.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index da45e2e..bc23190 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6572,13 +6572,13 @@ String String::append_path(const char *path) const {
 	int sindex = 0;
 	char ch = path[sindex];
 	while (ch == '/' || ch == '\\') {
-		if (ch == '\0') {
-			return ret;
-		}
-
 		ch = path[++sindex];
 	}
 
+	if (ch == '\0') {
+		return ret;
+	}
+
 	// /////folder
 	//      ^ (sindex)
 
-- 
2.43.0


From e202c385192892da3c20a2ce49dc0901923e0872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 202/325] fix: handle the empty String in path_clean_end_slash

---
 platform/sfw.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index bc23190..3bf90e0 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6634,6 +6634,10 @@ String String::path_clean_end_slash() const {
 
 	String ret = *this;
 
+	if (ret.empty()) {
+		return ret;
+	}
+
 	int strip_to = ret.length() - 1;
 
 	CharType c = ret[strip_to];
-- 
2.43.0


From aac019026b3712325f6de1b0209e5792a74f110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 203/325] fix: clean the slash after one-character names in
 String::path_clean_end_slash

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 3bf90e0..77d5339 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6642,7 +6642,7 @@ String String::path_clean_end_slash() const {
 
 	CharType c = ret[strip_to];
 
-	while (strip_to > 1 && (c == '/' || c == '\\')) {
+	while (strip_to > 0 && (c == '/' || c == '\\')) {
 		--strip_to;
 		c = ret[strip_to];
 	}
-- 
2.43.0


From 156c518ccc253f213788aa20d90eaaaf49431a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 204/325] fix: accept false in String::is_valid_bool

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 77d5339..3928996 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -7447,7 +7447,7 @@ bool String::is_valid_bool() const {
 		String l = to_lower();
 		const CharType *p = l.ptr();
 
-		if (p[0] == 'f' && p[1] == 'a' && p[2] == 'l' && p[3] == 's' && p[3] == 'e') {
+		if (p[0] == 'f' && p[1] == 'a' && p[2] == 'l' && p[3] == 's' && p[4] == 'e') {
 			return true;
 		} else {
 			return false;
-- 
2.43.0


From a2dab3050eac24b166c19955173ed241a1a1f7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 205/325] fix: require a digit after sign and prefix in
 String::is_valid_hex_number

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 3928996..948136b 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -7362,7 +7362,7 @@ bool String::is_valid_hex_number(bool p_with_prefix) const {
 	}
 
 	if (p_with_prefix) {
-		if (len < 3) {
+		if (len < from + 3) {
 			return false;
 		}
 		if (operator[](from) != '0' || operator[](from + 1) != 'x') {
-- 
2.43.0


From 31b8afa7d48f15e3fd36669cb68894238b3a4447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:35 +0000
Subject: [PATCH 206/325] fix: do not read past an empty String in select_word

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 948136b..943fe93 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2938,7 +2938,7 @@ bool select_word(const String &p_s, int p_col, int &r_beg, int &r_end) {
 	int beg = CLAMP(p_col, 0, s.length());
 	int end = beg;
 
-	if (s[beg] > 32 || beg == s.length()) {
+	if (beg == s.length() || s[beg] > 32) {
 		bool symbol = beg < s.length() && is_symbol(s[beg]);
 
 		while (beg > 0 && s[beg - 1] > 32 && (symbol == is_symbol(s[beg - 1]))) {
-- 
2.43.0


From 063d328d3d27ba2a6876b33c56fc1622e9215c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 207/325] fix: do not take a trimmed StringBuffer for the short
 buffer when reserving

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 1456325..9c37e7c 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -17325,7 +17325,7 @@ StringBuffer<SHORT_BUFFER_SIZE> &StringBuffer<SHORT_BUFFER_SIZE>::append(const C
 
 template <int SHORT_BUFFER_SIZE>
 StringBuffer<SHORT_BUFFER_SIZE> &StringBuffer<SHORT_BUFFER_SIZE>::reserve(int p_size) {
-	if (p_size < SHORT_BUFFER_SIZE || p_size < buffer.size()) {
+	if (p_size < (buffer.empty() ? SHORT_BUFFER_SIZE : buffer.size())) {
 		return *this;
 	}
 
-- 
2.43.0


From 7abbe61aa3ebe926a565bed405e52c7a23ca223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 208/325] fix: append nothing for a path of slashes in
 String::append_path

---
 platform/sfw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 943fe93..b7d0be5 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6607,11 +6607,11 @@ String String::append_path(const String &path) const {
 	int ts = path.size() - 1;
 	CharType ch = path[sindex];
 	while (ch == '/' || ch == '\\') {
+		ch = path[++sindex];
+
 		if (sindex == ts) {
 			return *this;
 		}
-
-		ch = path[++sindex];
 	}
 
 	String ret = *this;
-- 
2.43.0


From 1b1dc29026139502dbdc74d742023736c88175fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 209/325] fix: return a descending path from a root in
 String::path_to

---
 platform/sfw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index b7d0be5..51f7292 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6340,8 +6340,8 @@ String String::path_to(const String &p_path) const {
 	}
 
 	//remove leading and trailing slash and split
-	Vector<String> src_dirs = src.substr(1, src.length() - 2).split("/");
-	Vector<String> dst_dirs = dst.substr(1, dst.length() - 2).split("/");
+	Vector<String> src_dirs = src.substr(1, src.length() - 2).split("/", false);
+	Vector<String> dst_dirs = dst.substr(1, dst.length() - 2).split("/", false);
 
 	//find common parent
 	int common_parent = 0;
-- 
2.43.0


From 318d1d43c09f63ef2a6714de19d04655e2b54583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 210/325] fix: unregister objects from ObjectDB and from
 Variants when they are destroyed

---
 platform/sfw.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 51f7292..955581c 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18467,11 +18467,21 @@ void Object::cancel_free() {
 Object::Object() {
 	_is_queued_for_deletion = false;
 	_predelete_ok = 0;
+	_class_ptr = nullptr;
 	_instance_id = 0;
+	_rc.store(nullptr, std::memory_order_relaxed);
 	_instance_id = ObjectDB::add_instance(this);
 }
 
 Object::~Object() {
+	ObjectRC *rc = _rc.load(std::memory_order_acquire);
+	if (rc && rc->invalidate()) {
+		memdelete(rc);
+	}
+	_rc.store(nullptr, std::memory_order_relaxed);
+
+	ObjectDB::remove_instance(this);
+	_instance_id = 0;
 }
 
 ObjectRC *Object::_use_rc() {
-- 
2.43.0


From 836aac9c60a551562a7f8782a0e46589f14fd5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 211/325] fix: read the ObjectDB entry while the lock is held

---
 platform/sfw.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 955581c..7dac513 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18546,13 +18546,11 @@ void ObjectDB::remove_instance(Object *p_object) {
 }
 Object *ObjectDB::get_instance(ObjectID p_instance_id) {
 	rw_lock.read_lock();
-	Object **obj = instances.getptr(p_instance_id);
+	Object **slot = instances.getptr(p_instance_id);
+	Object *obj = slot ? *slot : nullptr;
 	rw_lock.read_unlock();
 
-	if (!obj) {
-		return nullptr;
-	}
-	return *obj;
+	return obj;
 }
 
 void ObjectDB::debug_objects(DebugFunc p_func) {
-- 
2.43.0


From 0d3873926fadf78cc33d8b0bb82e7d1848fe7f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 212/325] fix: order the release of ObjectRC after the accesses
 of its other users

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 9c37e7c..4a43f6e 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -19213,7 +19213,7 @@ public:
 	}
 
 	_FORCE_INLINE_ bool decrement() {
-		return _users.fetch_sub(1, std::memory_order_relaxed) == 1;
+		return _users.fetch_sub(1, std::memory_order_acq_rel) == 1;
 	}
 
 	_FORCE_INLINE_ bool invalidate() {
-- 
2.43.0


From 8109a498f0a7fd1dd2c6c6ae01ef892cfb95e466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 213/325] fix: take the id of a new thread from the thread
 itself

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 7dac513..788e4f2 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -1642,7 +1642,7 @@ void Thread::_set_platform_funcs(
 }
 
 void Thread::callback(Thread *p_self, const Settings &p_settings, Callback p_callback, void *p_userdata) {
-	caller_id = _thread_id_hash(p_self->thread.get_id());
+	caller_id = _thread_id_hash(std::this_thread::get_id());
 	caller_id_cached = true;
 
 	if (set_priority_func) {
-- 
2.43.0


From bf5ab336edc175784d97a6ad93b946fed03e82c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 214/325] fix: count the freed element while the PagedAllocator
 lock is held

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 4a43f6e..d6b887f 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -6151,10 +6151,10 @@ public:
 		}
 		p_mem->~T();
 		available_pool[allocs_available >> page_shift][allocs_available & page_mask] = p_mem;
+		allocs_available++;
 		if (thread_safe) {
 			spin_lock.unlock();
 		}
-		allocs_available++;
 	}
 
 	void reset(bool p_allow_unfreed = false) {
-- 
2.43.0


From a174503d85aced8952ccbda8caf64a5b0e5c3d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 215/325] fix: let a PoolVector be resized while a copy of it
 is being read

---
 platform/sfw.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index d6b887f..6eccf6d 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -9261,7 +9261,8 @@ Error PoolVector<T>::resize(int p_size) {
 		MemoryPool::alloc_mutex.unlock();
 
 	} else {
-		ERR_FAIL_COND_V_MSG(alloc->lock.get() > 0, ERR_LOCKED, "Can't resize PoolVector if locked."); //can't resize if locked!
+		// A buffer that is shared is copied below, accesses through other handles do not matter.
+		ERR_FAIL_COND_V_MSG(alloc->refcount.get() == 1 && alloc->lock.get() > 0, ERR_LOCKED, "Can't resize PoolVector if locked."); //can't resize if locked!
 	}
 
 	size_t new_size = sizeof(T) * p_size;
-- 
2.43.0


From 4ac919a2b1ac885414211aaf8c1b70cf58301830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 216/325] fix: stop PoolVector insert and push_back when the
 resize is refused

---
 platform/sfw.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 6eccf6d..aca4e8a 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -9060,7 +9060,8 @@ public:
 	Error insert(int p_pos, const T &p_val) {
 		int s = size();
 		ERR_FAIL_INDEX_V(p_pos, s + 1, ERR_INVALID_PARAMETER);
-		resize(s + 1);
+		Error err = resize(s + 1);
+		ERR_FAIL_COND_V(err != OK, err);
 		{
 			Write w = write();
 			for (int i = s; i > p_pos; i--) {
@@ -9151,7 +9152,7 @@ void PoolVector<T>::fill(const T &p_val) {
 
 template <class T>
 void PoolVector<T>::push_back(const T &p_val) {
-	resize(size() + 1);
+	ERR_FAIL_COND(resize(size() + 1) != OK);
 	set(size() - 1, p_val);
 }
 
-- 
2.43.0


From 3c81a9c7f207fd44e649b1cb18f66b9aa15bdd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:47 +0000
Subject: [PATCH 217/325] fix: refuse to run a layer without input

---
 modules/hidden_layer/hidden_layer.cpp             | 6 ++++++
 modules/multi_output_layer/multi_output_layer.cpp | 4 ++++
 modules/output_layer/output_layer.cpp             | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/modules/hidden_layer/hidden_layer.cpp b/modules/hidden_layer/hidden_layer.cpp
index fce83e6..ccb743d 100644
--- a/modules/hidden_layer/hidden_layer.cpp
+++ b/modules/hidden_layer/hidden_layer.cpp
@@ -147,6 +147,8 @@ void MLPPHiddenLayer::initialize() {
 		return;
 	}
 
+	ERR_FAIL_COND(!_input.is_valid());
+
 	_weights->resize(Size2i(_n_hidden, _input->size().x));
 	_bias->resize(_n_hidden);
 
@@ -163,6 +165,8 @@ void MLPPHiddenLayer::forward_pass() {
 		initialize();
 	}
 
+	ERR_FAIL_COND(!_initialized || !_input.is_valid());
+
 	MLPPActivation avn;
 
 	_z->multb(_input, _weights);
@@ -176,6 +180,8 @@ void MLPPHiddenLayer::test(const Ref<MLPPVector> &x) {
 		initialize();
 	}
 
+	ERR_FAIL_COND(!_initialized || !x.is_valid());
+
 	MLPPActivation avn;
 
 	_z_test = _weights->transposen()->mult_vec(x);
diff --git a/modules/multi_output_layer/multi_output_layer.cpp b/modules/multi_output_layer/multi_output_layer.cpp
index c1dbfff..4cf9353 100644
--- a/modules/multi_output_layer/multi_output_layer.cpp
+++ b/modules/multi_output_layer/multi_output_layer.cpp
@@ -145,6 +145,8 @@ void MLPPMultiOutputLayer::set_weight_init(const MLPPUtilities::WeightDistributi
 }
 
 void MLPPMultiOutputLayer::forward_pass() {
+	ERR_FAIL_COND(!_input.is_valid());
+
 	MLPPActivation avn;
 
 	_z = _input->multn(_weights)->add_vecn(_bias);
@@ -152,6 +154,8 @@ void MLPPMultiOutputLayer::forward_pass() {
 }
 
 void MLPPMultiOutputLayer::test(const Ref<MLPPVector> &x) {
+	ERR_FAIL_COND(!x.is_valid());
+
 	MLPPActivation avn;
 
 	_z_test = _weights->transposen()->mult_vec(x)->addn(_bias);
diff --git a/modules/output_layer/output_layer.cpp b/modules/output_layer/output_layer.cpp
index 16e1c8d..80f8447 100644
--- a/modules/output_layer/output_layer.cpp
+++ b/modules/output_layer/output_layer.cpp
@@ -162,6 +162,8 @@ void MLPPOutputLayer::forward_pass() {
 		initialize();
 	}
 
+	ERR_FAIL_COND(!_initialized || !_input.is_valid());
+
 	MLPPActivation avn;
 
 	_z = _input->mult_vec(_weights)->scalar_addn(_bias);
@@ -173,6 +175,8 @@ void MLPPOutputLayer::test(const Ref<MLPPVector> &x) {
 		initialize();
 	}
 
+	ERR_FAIL_COND(!_initialized || !x.is_valid());
+
 	MLPPActivation avn;
 
 	_z_test = _weights->dot(x) + _bias;
-- 
2.43.0


From 6bd4026e307248696bc1023654e30ab24d420266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:26 +0000
Subject: [PATCH 218/325] fix: report an empty StringName variant as zero

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 788e4f2..e644770 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -20825,7 +20825,7 @@ bool Variant::is_zero() const {
 			return _UNSAFE_OBJ_PROXY_PTR(*this) == nullptr;
 		} break;
 		case STRING_NAME: {
-			return *reinterpret_cast<const StringName *>(_data._mem) != StringName();
+			return *reinterpret_cast<const StringName *>(_data._mem) == StringName();
 		} break;
 		case DICTIONARY: {
 			return reinterpret_cast<const Dictionary *>(_data._mem)->empty();
-- 
2.43.0


From e03dee085d9bde65d25b2f6ca9c423980ce6201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:26 +0000
Subject: [PATCH 219/325] fix: zero the AABB a variant points to instead of the
 pointer

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index e644770..e275694 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -21129,7 +21129,7 @@ void Variant::zero() {
 			*reinterpret_cast<Quaternion *>(this->_data._mem) = Quaternion();
 			break;
 		case AABB:
-			*reinterpret_cast<::AABB *>(this->_data._mem) = ::AABB();
+			*_data._aabb = ::AABB();
 			break;
 		case COLOR:
 			*reinterpret_cast<Color *>(this->_data._mem) = Color();
-- 
2.43.0


From 9f65956b44e3b0ed2b5d99355d2baa291ac69f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:26 +0000
Subject: [PATCH 220/325] fix: zero the Projection a variant points to instead
 of the pointer

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index e275694..94d6e06 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -21135,7 +21135,7 @@ void Variant::zero() {
 			*reinterpret_cast<Color *>(this->_data._mem) = Color();
 			break;
 		case PROJECTION:
-			*reinterpret_cast<Projection *>(this->_data._mem) = Projection();
+			*_data._projection = Projection();
 			break;
 		default:
 			this->clear();
-- 
2.43.0


From 717929482cead7a5d0617059fc4b6629a6b915b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:26 +0000
Subject: [PATCH 221/325] fix: subtract integer rectangles component by
 component in Variant::sub

---
 platform/sfw.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 94d6e06..df1f8d2 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -28568,10 +28568,10 @@ void Variant::sub(const Variant &a, const Variant &b, Variant &r_dst) {
 
 			int32_t vax = ra->position.x;
 			int32_t vay = ra->position.y;
-			int32_t vbx = ra->size.x;
-			int32_t vby = ra->size.y;
-			int32_t vcx = rb->position.x;
-			int32_t vcy = rb->position.y;
+			int32_t vbx = rb->position.x;
+			int32_t vby = rb->position.y;
+			int32_t vcx = ra->size.x;
+			int32_t vcy = ra->size.y;
 			int32_t vdx = rb->size.x;
 			int32_t vdy = rb->size.y;
 
-- 
2.43.0


From d9f3b42a9af8ce6863df732200cd64b9dba541e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:27 +0000
Subject: [PATCH 222/325] fix: read the AABB a variant points to in
 Variant::sub and Variant::blend

---
 platform/sfw.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index df1f8d2..25c65e2 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -28621,8 +28621,8 @@ void Variant::sub(const Variant &a, const Variant &b, Variant &r_dst) {
 		}
 			return;
 		case AABB: {
-			const ::AABB *ra = reinterpret_cast<const ::AABB *>(a._data._mem);
-			const ::AABB *rb = reinterpret_cast<const ::AABB *>(b._data._mem);
+			const ::AABB *ra = a._data._aabb;
+			const ::AABB *rb = b._data._aabb;
 			r_dst = ::AABB(ra->position - rb->position, ra->size - rb->size);
 		}
 			return;
@@ -28720,8 +28720,8 @@ void Variant::blend(const Variant &a, const Variant &b, float c, Variant &r_dst)
 		}
 			return;
 		case AABB: {
-			const ::AABB *ra = reinterpret_cast<const ::AABB *>(a._data._mem);
-			const ::AABB *rb = reinterpret_cast<const ::AABB *>(b._data._mem);
+			const ::AABB *ra = a._data._aabb;
+			const ::AABB *rb = b._data._aabb;
 			r_dst = ::AABB(ra->position + rb->position * c, ra->size + rb->size * c);
 		}
 			return;
-- 
2.43.0


From dd121366fb7bd3813dfdf35369425c550f3f6735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:27 +0000
Subject: [PATCH 223/325] fix: interpolate integer rectangles as integer
 rectangles

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 25c65e2..ce22aa8 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -28833,7 +28833,7 @@ void Variant::interpolate(const Variant &a, const Variant &b, float c, Variant &
 		}
 			return;
 		case RECT2I: {
-			r_dst = Rect2(reinterpret_cast<const Rect2i *>(a._data._mem)->position.linear_interpolate(reinterpret_cast<const Rect2i *>(b._data._mem)->position, c), reinterpret_cast<const Rect2 *>(a._data._mem)->size.linear_interpolate(reinterpret_cast<const Rect2 *>(b._data._mem)->size, c));
+			r_dst = Rect2i(reinterpret_cast<const Rect2i *>(a._data._mem)->position.linear_interpolate(reinterpret_cast<const Rect2i *>(b._data._mem)->position, c), reinterpret_cast<const Rect2i *>(a._data._mem)->size.linear_interpolate(reinterpret_cast<const Rect2i *>(b._data._mem)->size, c));
 		}
 			return;
 		case VECTOR2: {
-- 
2.43.0


From 28541631102c7adfbb98fa0c2c0ceac0699f6feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:27 +0000
Subject: [PATCH 224/325] fix: keep the interpolated Vector4i array instead of
 overwriting it

---
 platform/sfw.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index ce22aa8..33990b9 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -29089,8 +29089,6 @@ void Variant::interpolate(const Variant &a, const Variant &b, float c, Variant &
 				}
 				r_dst = v;
 			}
-
-			r_dst = a;
 		}
 			return;
 		case POOL_COLOR_ARRAY: {
-- 
2.43.0


From 2fb99e1e4d31463533287957764207d89c97eb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:51 +0000
Subject: [PATCH 225/325] fix: order pool array variants lexicographically

---
 platform/sfw.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 33990b9..95f34e2 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -24020,11 +24020,35 @@ bool Variant::booleanize() const {
 		DEFAULT_OP_ARRAY_OP_BODY(m_prefix, m_op_name, m_name, m_type, !=, !=, false, true, true) \
 	}
 
+// Lexicographical order, like Array::operator<.
 #define DEFAULT_OP_ARRAY_LT(m_prefix, m_op_name, m_name, m_type) \
-	DEFAULT_OP_ARRAY_OP(m_prefix, m_op_name, m_name, m_type, <, !=, false, a_len < array_b.size(), true)
+	DEFAULT_OP_ARRAY_ORDER(m_prefix, m_op_name, m_name, m_type, p_a, p_b)
 
 #define DEFAULT_OP_ARRAY_GT(m_prefix, m_op_name, m_name, m_type) \
-	DEFAULT_OP_ARRAY_OP(m_prefix, m_op_name, m_name, m_type, >, !=, false, a_len < array_b.size(), true)
+	DEFAULT_OP_ARRAY_ORDER(m_prefix, m_op_name, m_name, m_type, p_b, p_a)
+
+#define DEFAULT_OP_ARRAY_ORDER(m_prefix, m_op_name, m_name, m_type, m_lesser, m_greater)                        \
+	CASE_TYPE(m_prefix, m_op_name, m_name) {                                                                    \
+		if (p_a.type != p_b.type)                                                                               \
+			_RETURN_FAIL                                                                                        \
+                                                                                                                \
+		const PoolVector<m_type> &array_l = *reinterpret_cast<const PoolVector<m_type> *>(m_lesser._data._mem);  \
+		const PoolVector<m_type> &array_g = *reinterpret_cast<const PoolVector<m_type> *>(m_greater._data._mem); \
+                                                                                                                \
+		int l_len = array_l.size();                                                                             \
+		int g_len = array_g.size();                                                                             \
+		PoolVector<m_type>::Read rl = array_l.read();                                                           \
+		PoolVector<m_type>::Read rg = array_g.read();                                                           \
+                                                                                                                \
+		for (int i = 0; i < l_len && i < g_len; i++) {                                                          \
+			if (rl[i] < rg[i])                                                                                  \
+				_RETURN(true);                                                                                  \
+			if (rg[i] < rl[i])                                                                                  \
+				_RETURN(false);                                                                                 \
+		}                                                                                                       \
+                                                                                                                \
+		_RETURN(l_len < g_len);                                                                                 \
+	}
 
 #define DEFAULT_OP_ARRAY_OP(m_prefix, m_op_name, m_name, m_type, m_opa, m_opb, m_ret_def, m_ret_s, m_ret_f)      \
 	CASE_TYPE(m_prefix, m_op_name, m_name) {                                                                     \
-- 
2.43.0


From e76eec6891fbcb93e5b1b52839927cca951b79e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:51 +0000
Subject: [PATCH 226/325] fix: order array variants the way Array itself orders
 them

---
 platform/sfw.cpp | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 95f34e2..0e83b17 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -24319,16 +24319,7 @@ void Variant::evaluate(const Operator &p_op, const Variant &p_a,
 				const Array *arr_a = reinterpret_cast<const Array *>(p_a._data._mem);
 				const Array *arr_b = reinterpret_cast<const Array *>(p_b._data._mem);
 
-				int l = arr_a->size();
-				if (arr_b->size() < l)
-					_RETURN(false);
-				for (int i = 0; i < l; i++) {
-					if (!((*arr_a)[i] < (*arr_b)[i])) {
-						_RETURN(true);
-					}
-				}
-
-				_RETURN(false);
+				_RETURN(*arr_a < *arr_b);
 			}
 
 			DEFAULT_OP_NUM(math, OP_LESS, INT, <, _int);
@@ -24442,16 +24433,7 @@ void Variant::evaluate(const Operator &p_op, const Variant &p_a,
 				const Array *arr_a = reinterpret_cast<const Array *>(p_a._data._mem);
 				const Array *arr_b = reinterpret_cast<const Array *>(p_b._data._mem);
 
-				int l = arr_a->size();
-				if (arr_b->size() > l)
-					_RETURN(false);
-				for (int i = 0; i < l; i++) {
-					if (((*arr_a)[i] < (*arr_b)[i])) {
-						_RETURN(false);
-					}
-				}
-
-				_RETURN(true);
+				_RETURN(*arr_a > *arr_b);
 			}
 
 			DEFAULT_OP_NUM(math, OP_GREATER, INT, >, _int);
-- 
2.43.0


From f8a2e054f2c1cab73526f65de303f213f1bd2cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:05 +0000
Subject: [PATCH 227/325] fix: compare a String variant with a StringName as
 text in greater and greater-equal

---
 platform/sfw.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 0e83b17..e342744 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -23878,14 +23878,14 @@ bool Variant::booleanize() const {
 		_RETURN_FAIL                                                                            \
 	};
 
-#define DEFAULT_OP_STR_REV(m_prefix, m_op_name, m_name, m_op, m_type)                                                              \
-	CASE_TYPE(m_prefix, m_op_name, m_name) {                                                                                       \
-		if (p_b.type == STRING)                                                                                                    \
-			_RETURN(*reinterpret_cast<const m_type *>(p_b._data._mem) m_op *reinterpret_cast<const String *>(p_a._data._mem));     \
-		if (p_b.type == STRING_NAME)                                                                                               \
-			_RETURN(*reinterpret_cast<const m_type *>(p_b._data._mem) m_op *reinterpret_cast<const StringName *>(p_a._data._mem)); \
-                                                                                                                                   \
-		_RETURN_FAIL                                                                                                               \
+#define DEFAULT_OP_STR_REV(m_prefix, m_op_name, m_name, m_op, m_type)                                                                      \
+	CASE_TYPE(m_prefix, m_op_name, m_name) {                                                                                               \
+		if (p_b.type == STRING)                                                                                                            \
+			_RETURN(*reinterpret_cast<const m_type *>(p_b._data._mem) m_op *reinterpret_cast<const String *>(p_a._data._mem));             \
+		if (p_b.type == STRING_NAME)                                                                                                       \
+			_RETURN(String(*reinterpret_cast<const StringName *>(p_b._data._mem)) m_op *reinterpret_cast<const m_type *>(p_a._data._mem)); \
+                                                                                                                                           \
+		_RETURN_FAIL                                                                                                                       \
 	};
 
 #define DEFAULT_OP_STR(m_prefix, m_op_name, m_name, m_op, m_type)                                                                  \
-- 
2.43.0


From f0ce8a46723ba0f7946f40b3f830f470bc498ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:25 +0000
Subject: [PATCH 228/325] fix: convert strings to 64-bit unsigned integers
 without truncating

---
 platform/sfw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index e342744..642034d 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -21329,7 +21329,7 @@ Variant::operator uint64_t() const {
 		case REAL:
 			return _data._real;
 		case STRING:
-			return operator String().to_int();
+			return operator String().to_int64();
 		default: {
 			return 0;
 		}
@@ -21368,7 +21368,7 @@ Variant::operator unsigned long() const {
 		case REAL:
 			return _data._real;
 		case STRING:
-			return operator String().to_int();
+			return operator String().to_int64();
 		default: {
 			return 0;
 		}
-- 
2.43.0


From e6f5fe7197311673ffe3efa1c2a0b4a70c9b6883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:25 +0000
Subject: [PATCH 229/325] fix: ignore the vertices of an incomplete face

---
 platform/sfw.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 642034d..91e4172 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -22116,7 +22116,8 @@ Variant::operator PoolVector<Face3>() const {
 	PoolVector<Face3>::Write w = faces.write();
 	PoolVector<Vector3>::Read r = va.read();
 
-	for (int i = 0; i < va_size; i++) {
+	// Vertices which do not make up a whole face are ignored.
+	for (int i = 0; i < va_size / 3 * 3; i++) {
 		w[i / 3].vertex[i % 3] = r[i];
 	}
 
-- 
2.43.0


From bed80d4f6b0116a506970a73933778afc03d68c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:25 +0000
Subject: [PATCH 230/325] fix: multiply by the Projection the second variant
 points to

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 91e4172..5bc2454 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -24701,7 +24701,7 @@ void Variant::evaluate(const Operator &p_op, const Variant &p_a,
 						_RETURN(p_a._data._projection->xform(*(const Plane *)p_b._data._mem));
 					}
 					case PROJECTION: {
-						_RETURN(p_a._data._projection->operator*(*(const Projection *)p_b._data._mem));
+						_RETURN(p_a._data._projection->operator*(*p_b._data._projection));
 					}
 					default:
 						_RETURN_FAIL;
-- 
2.43.0


From 0c4ecbf94c41977e717f52da7c0ffde06b0fa458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:25 +0000
Subject: [PATCH 231/325] fix: create the core string names during setup

---
 platform/sfw.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 5bc2454..0a4da03 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18256,6 +18256,7 @@ void SFWCore::setup() {
 
 	StringName::setup();
 	MemoryPool::setup();
+	CoreStringNames::create();
 }
 
 void SFWCore::cleanup() {
@@ -18265,6 +18266,7 @@ void SFWCore::cleanup() {
 
 	_initialized = false;
 
+	CoreStringNames::free();
 	StringName::cleanup();
 	MemoryPool::cleanup();
 }
-- 
2.43.0


From ba1dbc8ad3e4bdb17a6f739663dbb3640bb34b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:25 +0000
Subject: [PATCH 232/325] fix: read the new array before releasing the old one

---
 platform/sfw.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 0a4da03..b12eb29 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -19025,9 +19025,10 @@ void Array::_ref(const Array &p_from) const {
 
 	ERR_FAIL_COND(!success); // should really not happen either
 
+	// p_from might live in the array being released here.
 	_unref();
 
-	_p = p_from._p;
+	_p = _fp;
 }
 
 void Array::_unref() const {
-- 
2.43.0


From 4356a6e2c4359b371227e88b08565bdae3f5b3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:25 +0000
Subject: [PATCH 233/325] fix: read the new dictionary before releasing the old
 one

---
 platform/sfw.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index b12eb29..63d83ad 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18864,20 +18864,23 @@ bool Dictionary::operator!=(const Dictionary &p_dictionary) const {
 }
 
 void Dictionary::_ref(const Dictionary &p_from) const {
+	DictionaryPrivate *from_p = p_from._p;
+
 	//make a copy first (thread safe)
-	if (!p_from._p->refcount.ref()) {
+	if (!from_p->refcount.ref()) {
 		return; // couldn't copy
 	}
 
 	//if this is the same, unreference the other one
-	if (p_from._p == _p) {
+	if (from_p == _p) {
 		_p->refcount.unref();
 		return;
 	}
 	if (_p) {
+		// p_from might live in the dictionary being released here.
 		_unref();
 	}
-	_p = p_from._p;
+	_p = from_p;
 }
 
 void Dictionary::clear() {
-- 
2.43.0


From bf2e067e7fcbf8334d77164d9aabdf60567d55b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:38 +0000
Subject: [PATCH 234/325] fix: copy the assigned value before releasing the
 container it may live in

---
 platform/sfw.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 63d83ad..ead973f 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -22792,6 +22792,13 @@ void Variant::operator=(const Variant &p_variant) {
 	}
 
 	if (unlikely(type != p_variant.type)) {
+		if (type == ARRAY || type == DICTIONARY) {
+			// p_variant might live in the container being released.
+			const Variant value = p_variant;
+			reference(value);
+			return;
+		}
+
 		reference(p_variant);
 		return;
 	}
-- 
2.43.0


From e9235270cfd9f87d3817f6c92bcaf21d836f151b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:53 +0000
Subject: [PATCH 235/325] fix: set Vector4i components as integers when named
 by a String

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index ead973f..19e10ff 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -26290,7 +26290,7 @@ void Variant::set(const Variant &p_index, const Variant &p_value, bool *r_valid)
 			} else if (p_index.get_type() == Variant::STRING) {
 				//scalar name
 				const String *str = reinterpret_cast<const String *>(p_index._data._mem);
-				Vector4 *v = reinterpret_cast<Vector4 *>(_data._mem);
+				Vector4i *v = reinterpret_cast<Vector4i *>(_data._mem);
 				if (*str == "x") {
 					valid = true;
 					v->x = p_value;
-- 
2.43.0


From 54729c082c562f695ccac4225879098b9d5f7ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:53 +0000
Subject: [PATCH 236/325] fix: refuse to set a plane's distance to something
 that is not a number

---
 platform/sfw.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 19e10ff..3365664 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -26370,6 +26370,10 @@ void Variant::set(const Variant &p_index, const Variant &p_value, bool *r_valid)
 					v->normal = p_value;
 					return;
 				} else if (*str == "d") {
+					if (p_value.type != Variant::INT && p_value.type != Variant::REAL) {
+						return;
+					}
+
 					valid = true;
 					v->d = p_value;
 					return;
@@ -26411,6 +26415,10 @@ void Variant::set(const Variant &p_index, const Variant &p_value, bool *r_valid)
 					v->normal = p_value;
 					return;
 				} else if (p_index == CoreStringNames::singleton->d) {
+					if (p_value.type != Variant::INT && p_value.type != Variant::REAL) {
+						return;
+					}
+
 					valid = true;
 					v->d = p_value;
 					return;
-- 
2.43.0


From 573ba2e6dc76cc3b988c788bd5cc1511ee49c594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:39 +0000
Subject: [PATCH 237/325] fix: read Color members named by a StringName

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 3365664..1c06046 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -27601,7 +27601,7 @@ Variant Variant::get(const Variant &p_index, bool *r_valid) const {
 					valid = true;
 					return (*v)[idx];
 				}
-			} else if (p_index.get_type() == Variant::STRING) {
+			} else if (p_index.get_type() == Variant::STRING_NAME) {
 				const Color *v = reinterpret_cast<const Color *>(_data._mem);
 				if (p_index == CoreStringNames::singleton->r) {
 					valid = true;
-- 
2.43.0


From d0176da310c8ad5dc0d248d2fa0e4a8b12948742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:39 +0000
Subject: [PATCH 238/325] fix: accept a Vector2 or a Vector2i when setting a
 Transform2D column

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 1c06046..48acebb 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -26633,7 +26633,7 @@ void Variant::set(const Variant &p_index, const Variant &p_value, bool *r_valid)
 
 		} break;
 		case TRANSFORM2D: {
-			if (p_value.type != Variant::VECTOR2 || p_value.get_type() != Variant::VECTOR2I) {
+			if (p_value.type != Variant::VECTOR2 && p_value.get_type() != Variant::VECTOR2I) {
 				return;
 			}
 
-- 
2.43.0


From be273c0a77d9ada992d9195b7fe5081b1adb2bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:39 +0000
Subject: [PATCH 239/325] fix: set Vector3i components as integers when named
 by a String

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 48acebb..1746f40 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -26175,7 +26175,7 @@ void Variant::set(const Variant &p_index, const Variant &p_value, bool *r_valid)
 			} else if (p_index.get_type() == Variant::STRING) {
 				//scalar name
 				const String *str = reinterpret_cast<const String *>(p_index._data._mem);
-				Vector3 *v = reinterpret_cast<Vector3 *>(_data._mem);
+				Vector3i *v = reinterpret_cast<Vector3i *>(_data._mem);
 				if (*str == "x") {
 					valid = true;
 					v->x = p_value;
-- 
2.43.0


From 49d457b28d9edf42568381636360c9b9deba3533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:12 +0000
Subject: [PATCH 240/325] fix: format negative zero without a stray sign

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 1746f40..99800f8 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -19590,7 +19590,7 @@ String Array::sprintf(const String &p_format, bool *error) const {
 
 					double value = values[value_index];
 					bool is_negative = (value < 0);
-					String str = String::num(ABS(value), min_decimals);
+					String str = String::num(Math::abs(value), min_decimals);
 					bool not_numeric = isinf(value) || isnan(value);
 
 					// Pad decimals out.
-- 
2.43.0


From 9fa8856a0253a878e5328834814ded9986e5b91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 241/325] fix: take the new reference before releasing the old
 one in Ref

---
 platform/sfw.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index aca4e8a..6002bd3 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -19271,12 +19271,15 @@ class Ref {
 			return;
 		}
 
+		// Take the new reference first: releasing the old one can destroy p_from, or what p_from holds.
+		T *new_reference = p_from.reference;
+		if (new_reference) {
+			new_reference->reference();
+		}
+
 		unref();
 
-		reference = p_from.reference;
-		if (reference) {
-			reference->reference();
-		}
+		reference = new_reference;
 	}
 
 	void ref_pointer(T *p_ref) {
-- 
2.43.0


From 0a88f30c784543dd6ca01d96fb2f89fc41a5afd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:56 +0000
Subject: [PATCH 242/325] fix: make emitting a signal safe against handlers
 that emit, connect or disconnect

---
 platform/sfw.cpp | 94 ++++++++++++++++++++++++------------------------
 platform/sfw.h   |  2 ++
 2 files changed, 48 insertions(+), 48 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 99800f8..1a7e046 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -19834,83 +19834,81 @@ bool Signal::is_connected_static(void (*func)(Signal *)) {
 	return false;
 }
 
-void Signal::emit(Object *p_emitter) {
+void Signal::_emit(Object *p_emitter, const Vector<Variant> &p_params) {
+	// A handler can emit this signal again, and it can connect and disconnect handlers.
+	Object *previous_emitter = emitter;
+	Vector<Variant> previous_params = params;
+	Vector<SignalEntry *> current_entries = entries;
+
 	emitter = p_emitter;
+	params = p_params;
 
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
+	for (int i = 0; i < current_entries.size(); ++i) {
+		if (entries.find(current_entries[i]) != -1) {
+			current_entries[i]->call(this);
+		}
 	}
+
+	emitter = previous_emitter;
+	params = previous_params;
 }
 
-void Signal::emit(Object *p_emitter, const Variant &p1) {
-	emitter = p_emitter;
+void Signal::emit(Object *p_emitter) {
+	_emit(p_emitter, Vector<Variant>());
+}
 
-	params.push_back(p1);
+void Signal::emit(Object *p_emitter, const Variant &p1) {
+	Vector<Variant> p;
 
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
+	p.push_back(p1);
 
-	params.clear();
+	_emit(p_emitter, p);
 }
-void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2) {
-	emitter = p_emitter;
 
-	params.push_back(p1);
-	params.push_back(p2);
+void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2) {
+	Vector<Variant> p;
 
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
+	p.push_back(p1);
+	p.push_back(p2);
 
-	params.clear();
+	_emit(p_emitter, p);
 }
-void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3) {
-	emitter = p_emitter;
 
-	params.push_back(p1);
-	params.push_back(p2);
-	params.push_back(p3);
+void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3) {
+	Vector<Variant> p;
 
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
+	p.push_back(p1);
+	p.push_back(p2);
+	p.push_back(p3);
 
-	params.clear();
+	_emit(p_emitter, p);
 }
 
 void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3, const Variant &p4) {
-	emitter = p_emitter;
+	Vector<Variant> p;
 
-	params.push_back(p1);
-	params.push_back(p2);
-	params.push_back(p3);
-	params.push_back(p4);
+	p.push_back(p1);
+	p.push_back(p2);
+	p.push_back(p3);
+	p.push_back(p4);
 
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
-
-	params.clear();
+	_emit(p_emitter, p);
 }
 
 void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const Variant &p3, const Variant &p4, const Variant &p5) {
-	emitter = p_emitter;
+	Vector<Variant> p;
 
-	params.push_back(p1);
-	params.push_back(p2);
-	params.push_back(p3);
-	params.push_back(p4);
-	params.push_back(p5);
-
-	for (int i = 0; i < entries.size(); ++i) {
-		entries[i]->call(this);
-	}
+	p.push_back(p1);
+	p.push_back(p2);
+	p.push_back(p3);
+	p.push_back(p4);
+	p.push_back(p5);
 
-	params.clear();
+	_emit(p_emitter, p);
 }
 
 Signal::Signal() {
+	emitter = nullptr;
 }
 Signal::~Signal() {
 }
diff --git a/platform/sfw.h b/platform/sfw.h
index 6002bd3..34059c3 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -18858,6 +18858,8 @@ protected:
 	};
 
 protected:
+	void _emit(Object *p_emitter, const Vector<Variant> &p_params);
+
 	Vector<SignalEntry *> entries;
 };
 
-- 
2.43.0


From a91180dfbf63cbf8ca5dd5a0ee14b94cb4b29739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:56 +0000
Subject: [PATCH 243/325] fix: free the connections of a signal

---
 platform/sfw.cpp | 32 +++++++++++++++++++++++++++++++-
 platform/sfw.h   | 13 ++++++++++++-
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 1a7e046..a1436aa 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -19812,7 +19812,7 @@ void Signal::disconnect_static(void (*func)(Signal *)) {
 			StaticSignalEntry *se = static_cast<StaticSignalEntry *>(e);
 
 			if (se->func == func) {
-				entries.remove(i);
+				_remove_entry(i);
 				return;
 			}
 		}
@@ -19842,6 +19842,7 @@ void Signal::_emit(Object *p_emitter, const Vector<Variant> &p_params) {
 
 	emitter = p_emitter;
 	params = p_params;
+	++emit_depth;
 
 	for (int i = 0; i < current_entries.size(); ++i) {
 		if (entries.find(current_entries[i]) != -1) {
@@ -19851,6 +19852,27 @@ void Signal::_emit(Object *p_emitter, const Vector<Variant> &p_params) {
 
 	emitter = previous_emitter;
 	params = previous_params;
+	--emit_depth;
+
+	if (emit_depth == 0) {
+		for (int i = 0; i < removed_entries.size(); ++i) {
+			memdelete(removed_entries[i]);
+		}
+
+		removed_entries.clear();
+	}
+}
+
+void Signal::_remove_entry(int p_index) {
+	SignalEntry *e = entries[p_index];
+
+	entries.remove(p_index);
+
+	if (emit_depth > 0) {
+		removed_entries.push_back(e);
+	} else {
+		memdelete(e);
+	}
 }
 
 void Signal::emit(Object *p_emitter) {
@@ -19909,8 +19931,16 @@ void Signal::emit(Object *p_emitter, const Variant &p1, const Variant &p2, const
 
 Signal::Signal() {
 	emitter = nullptr;
+	emit_depth = 0;
 }
 Signal::~Signal() {
+	for (int i = 0; i < entries.size(); ++i) {
+		memdelete(entries[i]);
+	}
+
+	for (int i = 0; i < removed_entries.size(); ++i) {
+		memdelete(removed_entries[i]);
+	}
 }
 #line 0
 
diff --git a/platform/sfw.h b/platform/sfw.h
index 34059c3..d6d185d 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -18799,6 +18799,9 @@ protected:
 		SignalEntry() {
 			type = SIGNAL_ENTRY_TYPE_NONE;
 		}
+
+		virtual ~SignalEntry() {
+		}
 	};
 
 	struct StaticSignalEntry : public SignalEntry {
@@ -18859,8 +18862,16 @@ protected:
 
 protected:
 	void _emit(Object *p_emitter, const Vector<Variant> &p_params);
+	void _remove_entry(int p_index);
 
 	Vector<SignalEntry *> entries;
+	// Entries removed while emitting, they might still be running.
+	Vector<SignalEntry *> removed_entries;
+	int emit_depth;
+
+private:
+	Signal(const Signal &);
+	void operator=(const Signal &);
 };
 
 template <typename T>
@@ -18888,7 +18899,7 @@ void Signal::disconnect(T *obj, void (*func)(T *, Signal *)) {
 			ClassSignalEntry *se = static_cast<ClassSignalEntry *>(e);
 
 			if (se->get_obj_ptr() == obj_ptr && se->get_func_ptr() == func_ptr) {
-				entries.remove(i);
+				_remove_entry(i);
 				return;
 			}
 		}
-- 
2.43.0


From ed736e319e26430b71f3e635b28c65fc149d84e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:48 +0000
Subject: [PATCH 244/325] fix: report the point and the normal where a ray
 enters an AABB

---
 platform/sfw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index a1436aa..c752a65 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -9235,11 +9235,11 @@ bool AABB::intersects_ray(const Vector3 &p_from, const Vector3 &p_dir, Vector3 *
 	}
 
 	if (r_clip) {
-		*r_clip = c1;
+		*r_clip = p_from + p_dir * aabb_near;
 	}
 	if (r_normal) {
 		*r_normal = Vector3();
-		(*r_normal)[axis] = p_dir[axis] ? -1 : 1;
+		(*r_normal)[axis] = p_dir[axis] > 0 ? -1 : 1;
 	}
 
 	return true;
-- 
2.43.0


From 6f5b9db0099d679a9dd0f495a2b956bc04d9e8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:48 +0000
Subject: [PATCH 245/325] fix: accept short colour codes in
 Color::html_is_valid

---
 platform/sfw.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index c752a65..ef887a9 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -13319,6 +13319,14 @@ bool Color::html_is_valid(const String &p_color) {
 	if (color[0] == '#') {
 		color = color.substr(1, color.length() - 1);
 	}
+	if (color.length() == 3 || color.length() == 4) {
+		String exp_color;
+		for (int i = 0; i < color.length(); i++) {
+			exp_color += color[i];
+			exp_color += color[i];
+		}
+		color = exp_color;
+	}
 
 	bool alpha = false;
 
-- 
2.43.0


From 5c132e76a64f3d3859466af760842f2324ab800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:48 +0000
Subject: [PATCH 246/325] fix: split faces that have a vertex in the plane

---
 platform/sfw.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index ef887a9..19082cf 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -12349,6 +12349,11 @@ int Face3::split_by_plane(const Plane &p_plane, Face3 p_res[3], bool p_is_point_
 
 			/* Check for Intersection between this and the next vertex*/
 
+			// A next vertex in the plane is added on its own turn.
+			if (p_plane.has_point(vertex[(i + 1) % 3], (real_t)CMP_EPSILON)) {
+				continue;
+			}
+
 			Vector3 inters;
 			if (!p_plane.intersects_segment(vertex[i], vertex[(i + 1) % 3], &inters)) {
 				continue;
-- 
2.43.0


From 53a71598738a94c0fb9cf8c1ff057630ee2b3fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:48 +0000
Subject: [PATCH 247/325] fix: compare Vector2i with Vector2i in <= and >=

---
 platform/sfw.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index d6d185d..24985ec 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -10562,8 +10562,8 @@ struct _NO_DISCARD_CLASS_ Vector2i {
 	Vector2i operator-() const;
 	bool operator<(const Vector2i &p_vec2) const { return (x == p_vec2.x) ? (y < p_vec2.y) : (x < p_vec2.x); }
 	bool operator>(const Vector2i &p_vec2) const { return (x == p_vec2.x) ? (y > p_vec2.y) : (x > p_vec2.x); }
-	bool operator<=(const Vector2 &p_vec2) const { return x == p_vec2.x ? (y <= p_vec2.y) : (x < p_vec2.x); }
-	bool operator>=(const Vector2 &p_vec2) const { return x == p_vec2.x ? (y >= p_vec2.y) : (x > p_vec2.x); }
+	bool operator<=(const Vector2i &p_vec2) const { return x == p_vec2.x ? (y <= p_vec2.y) : (x < p_vec2.x); }
+	bool operator>=(const Vector2i &p_vec2) const { return x == p_vec2.x ? (y >= p_vec2.y) : (x > p_vec2.x); }
 
 	bool operator==(const Vector2i &p_vec2) const;
 	bool operator!=(const Vector2i &p_vec2) const;
-- 
2.43.0


From 09c813d80eb168b21fd29248b6bb42aeea7d7e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:48 +0000
Subject: [PATCH 248/325] fix: set all four components in Vector4 and Vector4i
 set_all and zero

---
 platform/sfw.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 24985ec..86b34ea 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -12090,7 +12090,7 @@ struct _NO_DISCARD_CLASS_ Vector4 {
 };
 
 void Vector4::set_all(const real_t p_value) {
-	x = y = z = p_value;
+	x = y = z = w = p_value;
 }
 
 real_t Vector4::dot(const Vector4 &p_vec4) const {
@@ -12102,7 +12102,7 @@ real_t Vector4::length_squared() const {
 }
 
 void Vector4::zero() {
-	x = y = z = 0;
+	x = y = z = w = 0;
 }
 
 void Vector4::operator+=(const Vector4 &p_vec4) {
@@ -12359,7 +12359,7 @@ struct _NO_DISCARD_CLASS_ Vector4i {
 };
 
 void Vector4i::set_all(const int32_t p_value) {
-	x = y = z = p_value;
+	x = y = z = w = p_value;
 }
 
 int64_t Vector4i::length_squared() const {
-- 
2.43.0


From 5e1e3883681fd146180ca05c327a5971a10b3275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:48 +0000
Subject: [PATCH 249/325] fix: keep the coordinates of Rect2i integers

---
 platform/sfw.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 86b34ea..2ae7e48 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -11007,8 +11007,8 @@ struct _NO_DISCARD_CLASS_ Rect2i {
 		new_rect.position.x = MAX(p_rect.position.x, position.x);
 		new_rect.position.y = MAX(p_rect.position.y, position.y);
 
-		Point2 p_rect_end = p_rect.position + p_rect.size;
-		Point2 end = position + size;
+		Point2i p_rect_end = p_rect.position + p_rect.size;
+		Point2i end = position + size;
 
 		new_rect.size.x = (int)(MIN(p_rect_end.x, end.x) - new_rect.position.x);
 		new_rect.size.y = (int)(MIN(p_rect_end.y, end.y) - new_rect.position.y);
@@ -11167,10 +11167,10 @@ struct _NO_DISCARD_CLASS_ Rect2i {
 	}
 	Rect2i() {}
 	Rect2i(int p_x, int p_y, int p_width, int p_height) :
-			position(Point2(p_x, p_y)),
-			size(Size2(p_width, p_height)) {
+			position(Point2i(p_x, p_y)),
+			size(Size2i(p_width, p_height)) {
 	}
-	Rect2i(const Point2 &p_pos, const Size2 &p_size) :
+	Rect2i(const Point2i &p_pos, const Size2i &p_size) :
 			position(p_pos),
 			size(p_size) {
 	}
-- 
2.43.0


From ec5b60a4b83cef2f0180c002ef0a6feea3cff358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:48 +0000
Subject: [PATCH 250/325] fix: let Rect2i enclose rectangles that touch its end

---
 platform/sfw.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 2ae7e48..71f8ebf 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -10988,8 +10988,8 @@ struct _NO_DISCARD_CLASS_ Rect2i {
 
 	inline bool encloses(const Rect2i &p_rect) const {
 		return (p_rect.position.x >= position.x) && (p_rect.position.y >= position.y) &&
-				((p_rect.position.x + p_rect.size.x) < (position.x + size.x)) &&
-				((p_rect.position.y + p_rect.size.y) < (position.y + size.y));
+				((p_rect.position.x + p_rect.size.x) <= (position.x + size.x)) &&
+				((p_rect.position.y + p_rect.size.y) <= (position.y + size.y));
 	}
 
 	_FORCE_INLINE_ bool has_no_area() const {
-- 
2.43.0


From b412b598656b5c9afc240ba32c025497e66b0efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:48 +0000
Subject: [PATCH 251/325] fix: normalize a zero Vector4 to zero

---
 platform/sfw.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 19082cf..2b8845c 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14265,11 +14265,18 @@ real_t Vector4::length() const {
 }
 
 void Vector4::normalize() {
-	*this /= length();
+	real_t l = length();
+	if (l == 0) {
+		x = y = z = w = 0;
+	} else {
+		*this /= l;
+	}
 }
 
 Vector4 Vector4::normalized() const {
-	return *this / length();
+	Vector4 v = *this;
+	v.normalize();
+	return v;
 }
 
 bool Vector4::is_normalized() const {
-- 
2.43.0


From 3daea16627e68871be76d8781a8bad176f7ecd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:49 +0000
Subject: [PATCH 252/325] fix: turn opposite directions around a perpendicular
 axis in Quaternion

---
 platform/sfw.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 71f8ebf..2cd7d92 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -13249,9 +13249,12 @@ struct _NO_DISCARD_CLASS_ Quaternion {
 		real_t d = v0.dot(v1);
 
 		if (d < -1 + (real_t)CMP_EPSILON) {
-			x = 0;
-			y = 1;
-			z = 0;
+			// Opposite directions: half a turn around any axis perpendicular to them.
+			Vector3 axis = v0.cross(Math::abs(v0.x) < (real_t)0.5 ? Vector3(1, 0, 0) : Vector3(0, 1, 0)).normalized();
+
+			x = axis.x;
+			y = axis.y;
+			z = axis.z;
 			w = 0;
 		} else {
 			real_t s = Math::sqrt((1 + d) * 2);
-- 
2.43.0


From 8f28fc252eabdf1ab5599760431451111e295cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:49 +0000
Subject: [PATCH 253/325] fix: keep the orientation of a mirrored Basis in
 orthogonalize

---
 platform/sfw.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 2b8845c..21a2f51 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -11205,7 +11205,8 @@ bool Basis::is_orthogonal() const {
 }
 
 void Basis::orthogonalize() {
-	Vector3 scl = get_scale();
+	// Orthonormalizing keeps the reflection, so the scale must not carry its sign.
+	Vector3 scl = get_scale_abs();
 	orthonormalize();
 	scale_local(scl);
 }
-- 
2.43.0


From ee9fb29e5133a8ce3ad2bfcb9a448bef5da04bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:49 +0000
Subject: [PATCH 254/325] fix: keep the reflection in
 Basis::rotref_posscale_decomposition

---
 platform/sfw.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 21a2f51..33684b4 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -11435,14 +11435,14 @@ Vector3 Basis::rotref_posscale_decomposition(Basis &rotref) const {
 	Basis m = transposed() * (*this);
 	ERR_FAIL_COND_V(!m.is_diagonal(), Vector3());
 #endif
-	Vector3 scale = get_scale();
-	Basis inv_scale = Basis().scaled(scale.inverse()); // this will also absorb the sign of scale
+	Vector3 scale = get_scale_abs(); // a reflection stays in rotref
+	Basis inv_scale = Basis().scaled(scale.inverse());
 	rotref = (*this) * inv_scale;
 
 #ifdef MATH_CHECKS
 	ERR_FAIL_COND_V(!rotref.is_orthogonal(), Vector3());
 #endif
-	return scale.abs();
+	return scale;
 }
 
 // Multiplies the matrix from left by the rotation matrix: M -> R.M
-- 
2.43.0


From d4717468576080bd91731919403411c89b8e972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:49 +0000
Subject: [PATCH 255/325] fix: scale the axes of the interpolated Transform2D

---
 platform/sfw.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 33684b4..30e7e35 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -9839,7 +9839,9 @@ Transform2D Transform2D::interpolate_with(const Transform2D &p_transform, real_t
 
 	//construct matrix
 	Transform2D res(Math::atan2(v.y, v.x), Vector2::linear_interpolate(p1, p2, p_c));
-	res.scale_basis(Vector2::linear_interpolate(s1, s2, p_c));
+	Size2 s = Vector2::linear_interpolate(s1, s2, p_c);
+	res.columns[0] *= s.x;
+	res.columns[1] *= s.y;
 	return res;
 }
 
-- 
2.43.0


From d67640c6e48c57c08e63da113e54b2957e63113b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:49 +0000
Subject: [PATCH 256/325] fix: use the inverse rotation for the origin in
 Transform::inverse_xform

---
 platform/sfw.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.h b/platform/sfw.h
index 2cd7d92..b920b8a 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -14490,7 +14490,7 @@ struct _NO_DISCARD_CLASS_ Transform {
 	_FORCE_INLINE_ Transform inverse_xform(const Transform &t) const {
 		Vector3 v = t.origin - origin;
 		return Transform(basis.transpose_xform(t.basis),
-				basis.xform(v));
+				basis.xform_inv(v));
 	}
 
 	void set(real_t xx, real_t xy, real_t xz, real_t yx, real_t yy, real_t yz, real_t zx, real_t zy, real_t zz, real_t tx, real_t ty, real_t tz) {
-- 
2.43.0


From a0fef2529fda9e05c758a0d74deb80af4995caf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:49 +0000
Subject: [PATCH 257/325] fix: use the near distance in
 Projection::create_orthogonal

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 30e7e35..dc6f000 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -9930,7 +9930,7 @@ Projection Projection::create_for_hmd(int p_eye, real_t p_aspect, real_t p_intra
 
 Projection Projection::create_orthogonal(real_t p_left, real_t p_right, real_t p_bottom, real_t p_top, real_t p_znear, real_t p_zfar) {
 	Projection proj;
-	proj.set_orthogonal(p_left, p_right, p_bottom, p_top, p_zfar, p_zfar);
+	proj.set_orthogonal(p_left, p_right, p_bottom, p_top, p_znear, p_zfar);
 	return proj;
 }
 
-- 
2.43.0


From 370f755aea2e13c155370df6307103cc445fc054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 258/325] fix: finish the file that is open before FileAccess
 opens another

---
 platform/sfw.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index dc6f000..8483946 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14847,9 +14847,8 @@ void FileAccess::check_errors() const {
 
 Error FileAccess::_open(const String &p_path, int p_mode_flags) {
 	if (f) {
-		fclose(f);
+		close();
 	}
-	f = nullptr;
 
 	path_src = p_path;
 	path = fix_path(p_path);
-- 
2.43.0


From 58cf1dfa6f8d707f6e26efea09d76475e7059c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 259/325] fix: forget the save path in FileAccess when its file
 cannot be opened

---
 platform/sfw.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 8483946..872c3b2 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14893,6 +14893,7 @@ Error FileAccess::_open(const String &p_path, int p_mode_flags) {
 	f = fopen(path.utf8().get_data(), mode_string);
 
 	if (f == nullptr) {
+		save_path = "";
 		switch (errno) {
 			case ENOENT: {
 				last_error = ERR_FILE_NOT_FOUND;
-- 
2.43.0


From debdc6ae5ffb01a9c1ca11074487bcc06764c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 260/325] fix: leave the end of file state in
 FileAccess::seek_end

---
 platform/sfw.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 872c3b2..144799d 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14971,6 +14971,7 @@ void FileAccess::seek(uint64_t p_position) {
 void FileAccess::seek_end(int64_t p_position) {
 	ERR_FAIL_COND_MSG(!f, "File must be opened before use.");
 
+	last_error = OK;
 	if (fseeko(f, p_position, SEEK_END)) {
 		check_errors();
 	}
-- 
2.43.0


From 83af64401a22cb747c854d9b928dd90e845c0f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 261/325] fix: switch between reading and writing in FileAccess
 on Unix as on Windows

---
 platform/sfw.cpp | 26 ++++++++++++++++++++++++++
 platform/sfw.h   |  1 +
 2 files changed, 27 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 144799d..ff941de 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14920,6 +14920,7 @@ Error FileAccess::_open(const String &p_path, int p_mode_flags) {
 
 	last_error = OK;
 	flags = p_mode_flags;
+	prev_op = 0;
 	return OK;
 }
 
@@ -15007,6 +15008,12 @@ bool FileAccess::eof_reached() const {
 
 uint8_t FileAccess::get_8() const {
 	ERR_FAIL_COND_V_MSG(!f, 0, "File must be opened before use.");
+	if (flags == READ_WRITE || flags == WRITE_READ) {
+		if (prev_op == WRITE) {
+			fflush(f);
+		}
+		prev_op = READ;
+	}
 	uint8_t b;
 	if (fread(&b, 1, 1, f) == 0) {
 		check_errors();
@@ -15019,6 +15026,12 @@ uint64_t FileAccess::get_buffer(uint8_t *p_dst, uint64_t p_length) const {
 	ERR_FAIL_COND_V(!p_dst && p_length > 0, -1);
 	ERR_FAIL_COND_V_MSG(!f, -1, "File must be opened before use.");
 
+	if (flags == READ_WRITE || flags == WRITE_READ) {
+		if (prev_op == WRITE) {
+			fflush(f);
+		}
+		prev_op = READ;
+	}
 	uint64_t read = fread(p_dst, 1, p_length, f);
 	check_errors();
 	return read;
@@ -15035,12 +15048,24 @@ void FileAccess::flush() {
 
 void FileAccess::store_8(uint8_t p_dest) {
 	ERR_FAIL_COND_MSG(!f, "File must be opened before use.");
+	if (flags == READ_WRITE || flags == WRITE_READ) {
+		if (prev_op == READ) {
+			fseeko(f, 0, SEEK_CUR);
+		}
+		prev_op = WRITE;
+	}
 	ERR_FAIL_COND(fwrite(&p_dest, 1, 1, f) != 1);
 }
 
 void FileAccess::store_buffer(const uint8_t *p_src, uint64_t p_length) {
 	ERR_FAIL_COND_MSG(!f, "File must be opened before use.");
 	ERR_FAIL_COND(!p_src && p_length > 0);
+	if (flags == READ_WRITE || flags == WRITE_READ) {
+		if (prev_op == READ) {
+			fseeko(f, 0, SEEK_CUR);
+		}
+		prev_op = WRITE;
+	}
 	ERR_FAIL_COND(fwrite(p_src, 1, p_length, f) != p_length);
 }
 
@@ -15117,6 +15142,7 @@ FileCloseNotificationFunc FileAccess::close_notification_func = nullptr;
 FileAccess::FileAccess() :
 		f(nullptr),
 		flags(0),
+		prev_op(0),
 		last_error(OK) {
 	endian_swap = false;
 	real_is_double = false;
diff --git a/platform/sfw.h b/platform/sfw.h
index b920b8a..071815e 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -17599,6 +17599,7 @@ protected:
 	FILE *f;
 	int flags;
 
+	mutable int prev_op;
 	mutable Error last_error;
 	String save_path;
 	String path;
-- 
2.43.0


From e9169f64ad7cf1ac6f5cf3bbd45fa83edb1b3495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 262/325] fix: return early from empty FileAccess buffers

---
 platform/sfw.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index ff941de..900db6c 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -15026,6 +15026,10 @@ uint64_t FileAccess::get_buffer(uint8_t *p_dst, uint64_t p_length) const {
 	ERR_FAIL_COND_V(!p_dst && p_length > 0, -1);
 	ERR_FAIL_COND_V_MSG(!f, -1, "File must be opened before use.");
 
+	if (p_length == 0) {
+		return 0;
+	}
+
 	if (flags == READ_WRITE || flags == WRITE_READ) {
 		if (prev_op == WRITE) {
 			fflush(f);
@@ -15060,6 +15064,11 @@ void FileAccess::store_8(uint8_t p_dest) {
 void FileAccess::store_buffer(const uint8_t *p_src, uint64_t p_length) {
 	ERR_FAIL_COND_MSG(!f, "File must be opened before use.");
 	ERR_FAIL_COND(!p_src && p_length > 0);
+
+	if (p_length == 0) {
+		return;
+	}
+
 	if (flags == READ_WRITE || flags == WRITE_READ) {
 		if (prev_op == READ) {
 			fseeko(f, 0, SEEK_CUR);
-- 
2.43.0


From d1c25375e1a12f19b73e821f5c6af41146ddd2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 263/325] fix: refuse sized strings that are longer than the
 rest of the file

---
 platform/sfw.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 900db6c..4c8b60a 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -15562,6 +15562,7 @@ void FileAccess::store_pascal_string(const String &p_string) {
 
 String FileAccess::get_pascal_string() {
 	uint32_t sl = get_32();
+	ERR_FAIL_COND_V(sl > get_len() - get_position(), String());
 	CharString cs;
 	cs.resize(sl + 1);
 	get_buffer((uint8_t *)cs.ptr(), sl);
-- 
2.43.0


From 828f1f7bdf5249f5f10ffa472c3435e212f832ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 264/325] fix: report write errors in FileAccess and
 DirAccess::copy

---
 platform/sfw.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 4c8b60a..6236574 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -15047,7 +15047,9 @@ Error FileAccess::get_error() const {
 
 void FileAccess::flush() {
 	ERR_FAIL_COND_MSG(!f, "File must be opened before use.");
-	fflush(f);
+	if (fflush(f) != 0) {
+		last_error = ERR_FILE_CANT_WRITE;
+	}
 }
 
 void FileAccess::store_8(uint8_t p_dest) {
@@ -15058,7 +15060,10 @@ void FileAccess::store_8(uint8_t p_dest) {
 		}
 		prev_op = WRITE;
 	}
-	ERR_FAIL_COND(fwrite(&p_dest, 1, 1, f) != 1);
+	if (fwrite(&p_dest, 1, 1, f) != 1) {
+		last_error = ERR_FILE_CANT_WRITE;
+		ERR_FAIL_MSG("Cannot write to file.");
+	}
 }
 
 void FileAccess::store_buffer(const uint8_t *p_src, uint64_t p_length) {
@@ -15075,7 +15080,10 @@ void FileAccess::store_buffer(const uint8_t *p_src, uint64_t p_length) {
 		}
 		prev_op = WRITE;
 	}
-	ERR_FAIL_COND(fwrite(p_src, 1, p_length, f) != p_length);
+	if (fwrite(p_src, 1, p_length, f) != p_length) {
+		last_error = ERR_FILE_CANT_WRITE;
+		ERR_FAIL_MSG("Cannot write to file.");
+	}
 }
 
 bool FileAccess::file_exists(const String &p_path) {
@@ -15657,6 +15665,10 @@ void FileAccess::write_file(const String &p_path, const String &data, Error *r_e
 	}
 
 	f->store_string(data);
+	f->flush();
+	if (r_error) {
+		*r_error = f->get_error();
+	}
 	f->close();
 	memdelete(f);
 }
@@ -15671,6 +15683,10 @@ void FileAccess::write_file_buffer(const String &p_path, const Vector<uint8_t> &
 	}
 
 	f->store_buffer_vec(data);
+	f->flush();
+	if (r_error) {
+		*r_error = f->get_error();
+	}
 	f->close();
 	memdelete(f);
 }
@@ -16729,6 +16745,11 @@ Error DirAccess::copy(String p_from, String p_to, int p_chmod_flags) {
 		size -= bytes_read;
 	}
 
+	if (err == OK) {
+		fdst->flush();
+		err = fdst->get_error();
+	}
+
 	if (err == OK && p_chmod_flags != -1) {
 		fdst->close();
 		err = FileAccess::set_unix_permissions(p_to, p_chmod_flags);
-- 
2.43.0


From a64574ee37a97ed4511c0ccea180932e8969dc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 265/325] fix: recognise .. as special in DirAccess

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 6236574..f71a2e6 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16879,7 +16879,7 @@ String DirAccess::get_filesystem_abspath_for(String p_path) {
 }
 
 bool DirAccess::is_special(const String &p_path) {
-	if (p_path.size() > 2) {
+	if (p_path.length() > 2) {
 		return false;
 	}
 
-- 
2.43.0


From 44bae8b347bf0e86872d9f69f51815491dc0b0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 266/325] fix: remove the link itself in DirAccess::remove

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index f71a2e6..426930e 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16467,7 +16467,7 @@ Error DirAccess::remove(String p_path) {
 	}
 
 	struct stat flags;
-	if ((stat(p_path.utf8().get_data(), &flags) != 0)) {
+	if ((lstat(p_path.utf8().get_data(), &flags) != 0)) {
 		return FAILED;
 	}
 
-- 
2.43.0


From 661c5798d1507f71b47f5c719f93a714dbd2fbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 267/325] fix: do not report missing files as links

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 426930e..6ca9669 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16485,7 +16485,7 @@ bool DirAccess::is_link(String p_file) {
 
 	struct stat flags;
 	if ((lstat(p_file.utf8().get_data(), &flags) != 0)) {
-		return FAILED;
+		return false;
 	}
 
 	return S_ISLNK(flags.st_mode);
-- 
2.43.0


From 47edabbaeda51fcbb01d3b650ebb89c341fd264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 268/325] fix: do not follow links in
 DirAccess::erase_contents_recursive

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 6ca9669..3729da1 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16580,7 +16580,7 @@ static Error _erase_recursive(DirAccess *da) {
 	String n = da->get_next();
 	while (n != String()) {
 		if (n != "." && n != "..") {
-			if (da->current_is_dir()) {
+			if (da->current_is_dir() && !da->is_link(da->get_current_dir().plus_file(n))) {
 				dirs.push_back(n);
 			} else {
 				files.push_back(n);
-- 
2.43.0


From 1cc7305d1b3f2597209884c8163176f6d825aa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 269/325] fix: read long link targets in DirAccess

---
 platform/sfw.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 3729da1..a51453b 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16496,8 +16496,7 @@ String DirAccess::read_link(String p_file) {
 		p_file = get_current_dir().plus_file(p_file);
 	}
 
-	char buf[256];
-	memset(buf, 0, 256);
+	char buf[4096];
 	ssize_t len = readlink(p_file.utf8().get_data(), buf, sizeof(buf));
 	String link;
 	if (len > 0) {
-- 
2.43.0


From 8552dc8b7c94177eda0c583b0a6df806ab9fc451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 270/325] fix: report files in the way in
 DirAccess::make_dir_recursive

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index a51453b..fa61edc 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16667,7 +16667,7 @@ Error DirAccess::make_dir_recursive(String p_dir) {
 	for (int i = 0; i < subdirs.size(); i++) {
 		curpath = curpath.plus_file(subdirs[i]);
 		Error err = make_dir(curpath);
-		if (err != OK && err != ERR_ALREADY_EXISTS) {
+		if (err != OK && (err != ERR_ALREADY_EXISTS || !dir_exists(curpath))) {
 			ERR_FAIL_V_MSG(err, "Could not create directory: " + curpath);
 		}
 	}
-- 
2.43.0


From bdf4052a692dfda0568a2e6a27915e8c8de3db57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 271/325] fix: resolve relative directories once in
 DirAccess::exists and copy_dir

---
 platform/sfw.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index fa61edc..2dd1b1f 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16839,9 +16839,13 @@ Error DirAccess::_copy_dir(DirAccess *p_target_da, String p_to, int p_chmod_flag
 Error DirAccess::copy_dir(String p_from, String p_to, int p_chmod_flags, bool p_copy_links) {
 	ERR_FAIL_COND_V_MSG(!dir_exists(p_from), ERR_FILE_NOT_FOUND, "Source directory doesn't exist.");
 
-	DirAccess *target_da = DirAccess::create_for_path(p_to);
+	DirAccess *target_da = DirAccess::create();
 	ERR_FAIL_COND_V_MSG(!target_da, ERR_CANT_CREATE, "Cannot create DirAccess for path '" + p_to + "'.");
 
+	if (p_to.is_rel_path()) {
+		p_to = get_current_dir().plus_file(p_to);
+	}
+
 	if (!target_da->dir_exists(p_to)) {
 		Error err = target_da->make_dir_recursive(p_to);
 		if (err) {
@@ -16862,7 +16866,7 @@ Error DirAccess::copy_dir(String p_from, String p_to, int p_chmod_flags, bool p_
 }
 
 bool DirAccess::exists(String p_dir) {
-	DirAccess *da = DirAccess::create_for_path(p_dir);
+	DirAccess *da = DirAccess::create();
 	bool valid = da->change_dir(p_dir) == OK;
 	memdelete(da);
 	return valid;
-- 
2.43.0


From 5354b698b9dbd8949a24a625fee454c7fdd1c3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:26 +0000
Subject: [PATCH 272/325] fix: make InetAddress::is_unspecified callable

---
 platform/sfw.cpp | 2 +-
 platform/sfw.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 2dd1b1f..bcb0381 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17134,7 +17134,7 @@ void InetAddress::set_port_net_endian(uint16_t port) {
 	_data->_addr.sin_port = port;
 }
 
-inline bool InetAddress::is_unspecified() const {
+bool InetAddress::is_unspecified() const {
 	return _is_unspecified;
 }
 
diff --git a/platform/sfw.h b/platform/sfw.h
index 071815e..06d70d5 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -17835,7 +17835,7 @@ public:
 
 	void set_port_net_endian(uint16_t port);
 
-	inline bool is_unspecified() const;
+	bool is_unspecified() const;
 
 	InetAddress(uint16_t port = 0, bool loopbackOnly = false, bool ipv6 = false);
 	InetAddress(const String &ip, uint16_t port, bool ipv6 = false);
-- 
2.43.0


From 3894162f50641e441a066cad2788f297de1c1484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:26 +0000
Subject: [PATCH 273/325] fix: copy the data in InetAddress

---
 platform/sfw.cpp | 16 ++++++++++++++++
 platform/sfw.h   |  3 +++
 2 files changed, 19 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index bcb0381..172a0d3 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17213,6 +17213,22 @@ InetAddress::InetAddress(const struct sockaddr_in6 &addr) {
 	_is_unspecified = false;
 }
 
+InetAddress::InetAddress(const InetAddress &p_other) {
+	_data = memnew(InetAddressData);
+
+	*_data = *p_other._data;
+	_is_ip_v6 = p_other._is_ip_v6;
+	_is_unspecified = p_other._is_unspecified;
+}
+
+InetAddress &InetAddress::operator=(const InetAddress &p_other) {
+	*_data = *p_other._data;
+	_is_ip_v6 = p_other._is_ip_v6;
+	_is_unspecified = p_other._is_unspecified;
+
+	return *this;
+}
+
 InetAddress::~InetAddress() {
 	memdelete(_data);
 }
diff --git a/platform/sfw.h b/platform/sfw.h
index 06d70d5..1b189f6 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -17843,6 +17843,9 @@ public:
 	explicit InetAddress(const struct sockaddr_in &addr);
 	explicit InetAddress(const struct sockaddr_in6 &addr);
 
+	InetAddress(const InetAddress &p_other);
+	InetAddress &operator=(const InetAddress &p_other);
+
 	~InetAddress();
 
 private:
-- 
2.43.0


From 317ea5772c9d2e2e92d451444d6db7f0f7996896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:26 +0000
Subject: [PATCH 274/325] fix: use the loopback address for loopback only
 addresses in InetAddress

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 172a0d3..45b40ed 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -16965,7 +16965,7 @@ struct in6__addruint {
 
 // INADDR_ANY use (type)value casting.
 static const in_addr_t kInaddrAny = INADDR_ANY;
-static const in_addr_t kInaddrLoopback = INADDR_ANY;
+static const in_addr_t kInaddrLoopback = INADDR_LOOPBACK;
 
 //     /* Structure describing an Internet socket address.  */
 //     struct sock_addrin {
-- 
2.43.0


From 34c2d7ff4ed17b6c1f0e7d379d8c34bb485c2b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:26 +0000
Subject: [PATCH 275/325] fix: initialise the flags in every InetAddress
 constructor

---
 platform/sfw.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 45b40ed..91f30a2 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17176,6 +17176,7 @@ InetAddress::InetAddress(const String &ip, uint16_t port, bool ipv6) {
 	_data = memnew(InetAddressData);
 
 	_is_ip_v6 = ipv6;
+	_is_unspecified = true;
 
 	if (ipv6) {
 		memset(&_data->_addr6, 0, sizeof(_data->_addr6));
@@ -17202,6 +17203,7 @@ InetAddress::InetAddress(const struct sockaddr_in &addr) {
 	_data = memnew(InetAddressData);
 
 	_data->_addr = addr;
+	_is_ip_v6 = false;
 	_is_unspecified = false;
 }
 
-- 
2.43.0


From 6fc5c7d30e3a0b338e2225dab959225ac2d03e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:26 +0000
Subject: [PATCH 276/325] fix: keep blocks aligned in PoolAllocator::compact_up

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 91f30a2..d480969 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2210,7 +2210,7 @@ void PoolAllocator::compact(int p_up_to) {
 }
 
 void PoolAllocator::compact_up(int p_from) {
-	uint32_t next_entry_end_pos = pool_size; // - static_area_size;
+	uint32_t next_entry_end_pos = pool_size - pool_size % align; // - static_area_size;
 
 	for (int i = entry_count - 1; i >= p_from; i--) {
 		Entry &entry = entry_array[entry_indices[i]];
-- 
2.43.0


From 0e7199522af1f9fd9c9c650f7f3003010f7c0e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:26 +0000
Subject: [PATCH 277/325] fix: refuse sizes below one in PoolAllocator::resize

---
 platform/sfw.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index d480969..a3a1ce5 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2382,6 +2382,8 @@ int PoolAllocator::get_size(ID p_mem) const {
 }
 
 Error PoolAllocator::resize(ID p_mem, int p_new_size) {
+	ERR_FAIL_COND_V(p_new_size < 1, ERR_INVALID_PARAMETER);
+
 	mt_lock();
 	Entry *e = get_entry(p_mem);
 
-- 
2.43.0


From 99aca2621aa6b68f397f23b0470f039d1e5f2ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:26 +0000
Subject: [PATCH 278/325] fix: check the room behind the block in
 PoolAllocator::resize

---
 platform/sfw.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index a3a1ce5..81df62c 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2436,7 +2436,7 @@ Error PoolAllocator::resize(ID p_mem, int p_new_size) {
 		next_pos = entry_array[entry_indices[entry_indices_pos + 1]].pos;
 	};
 
-	if ((next_pos - e->pos) > alloc_size) {
+	if ((next_pos - e->pos) >= alloc_size) {
 		free_mem += aligned(e->len);
 		e->len = p_new_size;
 		free_mem -= alloc_size;
@@ -2447,7 +2447,7 @@ Error PoolAllocator::resize(ID p_mem, int p_new_size) {
 
 	compact(entry_indices_pos + 1);
 
-	if ((next_pos - e->pos) > alloc_size) {
+	if ((next_pos - e->pos) >= alloc_size) {
 		//now fits! hooray!
 		free_mem += aligned(e->len);
 		e->len = p_new_size;
@@ -2463,7 +2463,11 @@ Error PoolAllocator::resize(ID p_mem, int p_new_size) {
 
 	compact_up(entry_indices_pos + 1);
 
-	if ((entry_array[entry_indices[entry_indices_pos + 1]].pos - e->pos) > alloc_size) {
+	if (entry_indices_pos + 1 < entry_count) {
+		next_pos = entry_array[entry_indices[entry_indices_pos + 1]].pos;
+	}
+
+	if ((next_pos - e->pos) >= alloc_size) {
 		//now fits! hooray!
 		free_mem += aligned(e->len);
 		e->len = p_new_size;
-- 
2.43.0


From d849a4bee2f5c9ed9abd1e1ec096f304bb651538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:26 +0000
Subject: [PATCH 279/325] fix: update the peak when a block grows in place in
 PoolAllocator::resize

---
 platform/sfw.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 81df62c..1b2a4d1 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2441,6 +2441,9 @@ Error PoolAllocator::resize(ID p_mem, int p_new_size) {
 		e->len = p_new_size;
 		free_mem -= alloc_size;
 		mt_unlock();
+		if (free_mem < free_mem_peak) {
+			free_mem_peak = free_mem;
+		}
 		return OK;
 	}
 	//it doesn't fit, compact around BEFORE current index (make room behind)
-- 
2.43.0


From 946c1387b81e3472d7e9cbc8b4bb450834297a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:19 +0000
Subject: [PATCH 280/325] fix: allocate the aligned pool the way it is released
 in PoolAllocator

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 1b2a4d1..41c37bd 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -2656,7 +2656,7 @@ PoolAllocator::PoolAllocator(void *p_mem, int p_size, int p_align, bool p_needs_
 
 PoolAllocator::PoolAllocator(int p_align, int p_size, bool p_needs_locking, int p_max_entries) {
 	ERR_FAIL_COND(p_align < 1);
-	mem_ptr = Memory::alloc_static(p_size + p_align, true);
+	mem_ptr = memalloc(p_size + p_align);
 	uint8_t *mem8 = (uint8_t *)mem_ptr;
 	uint64_t ofs = (uint64_t)mem8;
 	if (ofs % p_align) {
-- 
2.43.0


From b637e1e4ac6c69953d3246a177371e6e768556f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:19 +0000
Subject: [PATCH 281/325] fix: refuse to accept, read and send on sockets that
 are not open

---
 platform/sfw.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 41c37bd..6dcea92 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17424,6 +17424,7 @@ int Socket::listen() {
 
 int Socket::accept(Socket *sock) {
 	ERR_FAIL_COND_V(!sock, -1);
+	ERR_FAIL_COND_V(_socket == 0, -1);
 
 	struct sockaddr_in6 addr6;
 	memset(&addr6, 0, sizeof(addr6));
@@ -17458,7 +17459,9 @@ int Socket::close_write() {
 }
 
 int Socket::read(char *buffer, uint64_t len) {
-	//ERR_FAIL_COND_V(_socket == 0, -1);
+	if (_socket == 0) {
+		return -1;
+	}
 
 #if !defined(_WIN64) && !defined(_WIN32)
 	return ::read(_socket, buffer, len);
@@ -17468,7 +17471,9 @@ int Socket::read(char *buffer, uint64_t len) {
 }
 
 int Socket::send(const char *buffer, uint64_t len) {
-	//ERR_FAIL_COND_V(_socket == 0, -1);
+	if (_socket == 0) {
+		return -1;
+	}
 
 #if !defined(_WIN64) && !defined(_WIN32)
 	return write(_socket, buffer, len);
-- 
2.43.0


From 9828db79afbab2a093b4b7dafcc78ad27ffc1eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:19 +0000
Subject: [PATCH 282/325] fix: close the previous descriptor when a Socket gets
 a new one

---
 platform/sfw.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 6dcea92..8e10dd9 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17284,6 +17284,8 @@ void Socket::create_net_socket() {
 }
 
 void Socket::create(int family) {
+	close_socket();
+
 #ifdef __linux__
 	_socket = ::socket(family, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, IPPROTO_TCP);
 #else
@@ -17437,6 +17439,7 @@ int Socket::accept(Socket *sock) {
 #endif
 
 	if (connfd >= 0) {
+		sock->close_socket();
 		sock->_socket = connfd;
 		sock->_address.set_sock_addr_inet6(addr6);
 #ifndef __linux__
-- 
2.43.0


From a7205072bf27b0a1a8d88cc6866036fd4986e218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:19 +0000
Subject: [PATCH 283/325] fix: report a peer that is gone in Socket::send

---
 platform/sfw.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 8e10dd9..51c12c2 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17479,7 +17479,12 @@ int Socket::send(const char *buffer, uint64_t len) {
 	}
 
 #if !defined(_WIN64) && !defined(_WIN32)
+#ifdef MSG_NOSIGNAL
+	// A peer that is gone is an error, it should not end the process.
+	return ::send(_socket, buffer, len, MSG_NOSIGNAL);
+#else
 	return write(_socket, buffer, len);
+#endif
 #else
 	errno = 0;
 	return ::send(_socket, buffer, static_cast<int>(len), 0);
-- 
2.43.0


From 163763914d146b2e8db1705ba55a0308fa7c4b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:19 +0000
Subject: [PATCH 284/325] fix: pass arguments to sub processes literally

---
 platform/sfw.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 51c12c2..b12eb35 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18001,6 +18001,10 @@ SubProcess::~SubProcess() {
 #include <sys/wait.h>
 #include <unistd.h>
 
+static String _quote_shell_argument(const String &p_text) {
+	return "'" + p_text.replace("'", "'\\''") + "'";
+}
+
 Error SubProcess::start() {
 #ifdef __EMSCRIPTEN__
 	// Don't compile this code at all to avoid undefined references.
@@ -18017,10 +18021,10 @@ Error SubProcess::start() {
 
 	if (_blocking && _read_output) {
 		String argss;
-		argss = "\"" + _executable_path + "\"";
+		argss = _quote_shell_argument(_executable_path);
 
 		for (int i = 0; i < _arguments.size(); i++) {
-			argss += String(" \"") + _arguments[i] + "\"";
+			argss += " " + _quote_shell_argument(_arguments[i]);
 		}
 
 		if (_read_std_err) {
@@ -18052,10 +18056,10 @@ Error SubProcess::start() {
 
 	if (!_blocking && _read_output) {
 		String argss;
-		argss = "\"" + _executable_path + "\"";
+		argss = _quote_shell_argument(_executable_path);
 
 		for (int i = 0; i < _arguments.size(); i++) {
-			argss += String(" \"") + _arguments[i] + "\"";
+			argss += " " + _quote_shell_argument(_arguments[i]);
 		}
 
 		if (_read_std_err) {
-- 
2.43.0


From 018ca2e63df8dc6bf48ade5e129822244a239ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:19 +0000
Subject: [PATCH 285/325] fix: do not report a killed sub process as successful

---
 platform/sfw.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index b12eb35..1598f96 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18049,7 +18049,7 @@ Error SubProcess::start() {
 		}
 		int rv = pclose(f);
 
-		_exitcode = WEXITSTATUS(rv);
+		_exitcode = WIFEXITED(rv) ? WEXITSTATUS(rv) : rv;
 
 		return OK;
 	}
@@ -18129,7 +18129,7 @@ Error SubProcess::stop() {
 	if (_process_fp) {
 		int rv = pclose(_process_fp);
 		_process_fp = NULL;
-		_exitcode = WEXITSTATUS(rv);
+		_exitcode = WIFEXITED(rv) ? WEXITSTATUS(rv) : rv;
 		_process_id = 0;
 		return OK;
 	}
-- 
2.43.0


From d4ada44fb1b29b99bfe8311b8eaf14f84cd6bcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:19 +0000
Subject: [PATCH 286/325] fix: forget the id of a sub process once it is
 collected

---
 platform/sfw.cpp | 8 +++++++-
 platform/sfw.h   | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 1598f96..2e3ed11 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18206,7 +18206,13 @@ bool SubProcess::is_process_running() const {
 	}
 
 	int status = 0;
-	if (waitpid(_process_id, &status, WNOHANG) != 0) {
+	pid_t ret = waitpid(_process_id, &status, WNOHANG);
+	if (ret != 0) {
+		// It ended, and its id might be reused.
+		if (ret > 0) {
+			_exitcode = WIFEXITED(status) ? WEXITSTATUS(status) : status;
+		}
+		_process_id = 0;
 		return false;
 	}
 
diff --git a/platform/sfw.h b/platform/sfw.h
index 1b189f6..b2b4bca 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -18012,8 +18012,8 @@ protected:
 
 	bool _open_console;
 
-	ProcessID _process_id;
-	int _exitcode;
+	mutable ProcessID _process_id;
+	mutable int _exitcode;
 
 #if defined(_WIN64) || defined(_WIN32)
 
-- 
2.43.0


From cd7bc766c57c9bdc1f454620952b2f5dbf997232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:19 +0000
Subject: [PATCH 287/325] fix: release the previous process in
 SubProcess::start

---
 platform/sfw.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 2e3ed11..0c28868 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18019,6 +18019,9 @@ Error SubProcess::start() {
 		return ERR_BUSY;
 	}
 
+	// Release the previous process, if its output was read until its end, but it was not stopped.
+	stop();
+
 	if (_blocking && _read_output) {
 		String argss;
 		argss = _quote_shell_argument(_executable_path);
-- 
2.43.0


From fee578d454183ec12a97c0789b66c1c8aa74dc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:19 +0000
Subject: [PATCH 288/325] fix: release the mutex of SubProcess

---
 platform/sfw.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 0c28868..3e3520b 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -17988,6 +17988,10 @@ SubProcess::SubProcess() {
 SubProcess::~SubProcess() {
 	stop();
 
+	if (_pipe_mutex) {
+		memdelete(_pipe_mutex);
+	}
+
 	memdelete(_data);
 }
 
@@ -18244,6 +18248,10 @@ SubProcess::SubProcess() {
 }
 SubProcess::~SubProcess() {
 	stop();
+
+	if (_pipe_mutex) {
+		memdelete(_pipe_mutex);
+	}
 }
 
 #endif
-- 
2.43.0


From 2b7b026c481882a7130b5eed82898ddf53653d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:20 +0000
Subject: [PATCH 289/325] fix: keep characters whole in the output of sub
 processes

---
 platform/sfw.cpp | 38 ++++++++++++++++++++++++++++++++++----
 platform/sfw.h   |  1 +
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 3e3520b..d1ccfac 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -18009,6 +18009,20 @@ static String _quote_shell_argument(const String &p_text) {
 	return "'" + p_text.replace("'", "'\\''") + "'";
 }
 
+// The number of bytes at the end, which are the beginning of an UTF-8 character that is not complete yet.
+static int _get_incomplete_utf8_tail(const char *p_text, int p_len) {
+	for (int i = 1; i <= 3 && i <= p_len; ++i) {
+		uint8_t c = p_text[p_len - i];
+
+		if ((c & 0xC0) != 0x80) {
+			int len = c >= 0xF0 ? 4 : (c >= 0xE0 ? 3 : (c >= 0xC0 ? 2 : 1));
+			return i < len ? i : 0;
+		}
+	}
+
+	return 0;
+}
+
 Error SubProcess::start() {
 #ifdef __EMSCRIPTEN__
 	// Don't compile this code at all to avoid undefined references.
@@ -18044,15 +18058,22 @@ Error SubProcess::start() {
 		ERR_FAIL_COND_V_MSG(!f, ERR_CANT_OPEN, "Cannot pipe stream from process running with following arguments '" + argss + "'.");
 
 		char buf[65535];
+		int kept = 0;
+
+		while (fgets(buf + kept, 65535 - kept, f)) {
+			// Long lines arrive in parts, which might end inside a character.
+			int len = strlen(buf);
+			kept = feof(f) ? 0 : _get_incomplete_utf8_tail(buf, len);
 
-		while (fgets(buf, 65535, f)) {
 			if (_pipe_mutex) {
 				_pipe_mutex->lock();
 			}
-			_pipe += String::utf8(buf);
+			_pipe += String::utf8(buf, len - kept);
 			if (_pipe_mutex) {
 				_pipe_mutex->unlock();
 			}
+
+			memmove(buf, buf + len - kept, kept);
 		}
 		int rv = pclose(f);
 
@@ -18136,6 +18157,7 @@ Error SubProcess::stop() {
 	if (_process_fp) {
 		int rv = pclose(_process_fp);
 		_process_fp = NULL;
+		_process_buf_kept = 0;
 		_exitcode = WIFEXITED(rv) ? WEXITSTATUS(rv) : rv;
 		_process_id = 0;
 		return OK;
@@ -18167,14 +18189,21 @@ Error SubProcess::poll() {
 #else
 
 	if (_process_fp) {
-		if (fgets(_process_buf, 65535, _process_fp)) {
+		if (fgets(_process_buf + _process_buf_kept, 65535 - _process_buf_kept, _process_fp)) {
+			// Long lines arrive in parts, which might end inside a character.
+			int len = strlen(_process_buf);
+			int kept = feof(_process_fp) ? 0 : _get_incomplete_utf8_tail(_process_buf, len);
+
 			if (_pipe_mutex) {
 				_pipe_mutex->lock();
 			}
-			_pipe = String::utf8(_process_buf);
+			_pipe = String::utf8(_process_buf, len - kept);
 			if (_pipe_mutex) {
 				_pipe_mutex->unlock();
 			}
+
+			memmove(_process_buf, _process_buf + len - kept, kept);
+			_process_buf_kept = kept;
 		} else {
 			// The process finished
 			// Cleanup:
@@ -18245,6 +18274,7 @@ SubProcess::SubProcess() {
 	_exitcode = 0;
 
 	_process_fp = NULL;
+	_process_buf_kept = 0;
 }
 SubProcess::~SubProcess() {
 	stop();
diff --git a/platform/sfw.h b/platform/sfw.h
index b2b4bca..1fb88a9 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -18028,6 +18028,7 @@ protected:
 #else
 	FILE *_process_fp;
 	char _process_buf[65535];
+	int _process_buf_kept;
 #endif
 };
 
-- 
2.43.0


From eb37c279dba07eddffdbb54c803df293c4005978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:52 +0000
Subject: [PATCH 290/325] fix: keep the file when a safe save could not be
 written completely

---
 platform/sfw.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index d1ccfac..9b161e2 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -14938,7 +14938,8 @@ void FileAccess::close() {
 		return;
 	}
 
-	fclose(f);
+	bool write_error = ferror(f) != 0;
+	write_error = fclose(f) != 0 || write_error;
 	f = nullptr;
 
 	if (close_notification_func) {
@@ -14946,7 +14947,8 @@ void FileAccess::close() {
 	}
 
 	if (save_path != "") {
-		int rename_error = rename((save_path + ".tmp").utf8().get_data(), save_path.utf8().get_data());
+		// Don't replace the file when its new content couldn't be written completely.
+		int rename_error = write_error ? -1 : rename((save_path + ".tmp").utf8().get_data(), save_path.utf8().get_data());
 
 		if (rename_error && close_fail_notify) {
 			close_fail_notify(save_path);
-- 
2.43.0


From 9f7ab637ecf4666cbfb65634828e62c921c3ff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:10 +0000
Subject: [PATCH 291/325] fix: report the cost after the step in stochastic
 gradient descent

---
 modules/auto_encoder/auto_encoder.cpp   | 1 +
 modules/c_log_log_reg/c_log_log_reg.cpp | 1 +
 modules/exp_reg/exp_reg.cpp             | 1 +
 modules/lin_reg/lin_reg.cpp             | 3 ++-
 modules/log_reg/log_reg.cpp             | 1 +
 modules/probit_reg/probit_reg.cpp       | 1 +
 modules/softmax_net/softmax_net.cpp     | 1 +
 modules/softmax_reg/softmax_reg.cpp     | 1 +
 modules/tanh_reg/tanh_reg.cpp           | 1 +
 9 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/modules/auto_encoder/auto_encoder.cpp b/modules/auto_encoder/auto_encoder.cpp
index f112268..bb43fcc 100644
--- a/modules/auto_encoder/auto_encoder.cpp
+++ b/modules/auto_encoder/auto_encoder.cpp
@@ -186,6 +186,7 @@ void MLPPAutoEncoder::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		_bias1->sub(D1_2->scalar_multiplyn(learning_rate));
 
 		y_hat = evaluatev(input_set_row_tmp);
+		y_hat_mat_tmp->row_set_mlpp_vector(0, y_hat);
 
 		if (ui) {
 			MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat_mat_tmp, input_set_mat_tmp));
diff --git a/modules/c_log_log_reg/c_log_log_reg.cpp b/modules/c_log_log_reg/c_log_log_reg.cpp
index dd527e0..816411c 100644
--- a/modules/c_log_log_reg/c_log_log_reg.cpp
+++ b/modules/c_log_log_reg/c_log_log_reg.cpp
@@ -165,6 +165,7 @@ void MLPPCLogLogReg::sgd(real_t learning_rate, int max_epoch, bool p_) {
 		bias -= learning_rate * error * exp(z - exp(z));
 
 		y_hat = evaluatev(input_set_row_tmp);
+		y_hat_row_tmp->element_set(0, y_hat);
 
 		if (p_) {
 			MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat_row_tmp, output_set_row_tmp));
diff --git a/modules/exp_reg/exp_reg.cpp b/modules/exp_reg/exp_reg.cpp
index 59c7f8a..291cf1e 100644
--- a/modules/exp_reg/exp_reg.cpp
+++ b/modules/exp_reg/exp_reg.cpp
@@ -159,6 +159,7 @@ void MLPPExpReg::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		// Bias updation
 		_bias -= learning_rate * b_gradient;
 		y_hat = evaluatev(input_set_row_tmp);
+		y_hat_row_tmp->element_set(0, y_hat);
 
 		if (ui) {
 			MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat_row_tmp, output_set_row_tmp));
diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index fbd66ea..0f53762 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -208,7 +208,7 @@ void MLPPLinReg::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		output_set_row_tmp->element_set(0, output_element_set);
 
 		real_t y_hat = evaluatev(input_set_row_tmp);
-		y_hat_tmp->element_set(0, output_element_set);
+		y_hat_tmp->element_set(0, y_hat);
 
 		cost_prev = cost(y_hat_tmp, output_set_row_tmp);
 
@@ -222,6 +222,7 @@ void MLPPLinReg::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		_bias -= learning_rate * error;
 
 		y_hat = evaluatev(input_set_row_tmp);
+		y_hat_tmp->element_set(0, y_hat);
 
 		if (ui) {
 			MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat_tmp, output_set_row_tmp));
diff --git a/modules/log_reg/log_reg.cpp b/modules/log_reg/log_reg.cpp
index 794e5b8..ec5b148 100644
--- a/modules/log_reg/log_reg.cpp
+++ b/modules/log_reg/log_reg.cpp
@@ -216,6 +216,7 @@ void MLPPLogReg::sgd(real_t learning_rate, int max_epoch, bool ui) {
 		_bias -= learning_rate * error;
 
 		y_hat = evaluatev(input_row_tmp);
+		y_hat_tmp->element_set(0, y_hat);
 
 		if (ui) {
 			MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat_tmp, output_element_set_tmp));
diff --git a/modules/probit_reg/probit_reg.cpp b/modules/probit_reg/probit_reg.cpp
index 8b93753..adcae59 100644
--- a/modules/probit_reg/probit_reg.cpp
+++ b/modules/probit_reg/probit_reg.cpp
@@ -250,6 +250,7 @@ void MLPPProbitReg::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		_bias -= learning_rate * error * ((1 / Math::sqrt(2 * Math_PI)) * Math::exp(-z * z / 2));
 
 		y_hat = evaluatev(input_set_row_tmp);
+		y_hat_tmp->element_set(0, y_hat);
 
 		if (ui) {
 			MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat_tmp, output_set_tmp));
diff --git a/modules/softmax_net/softmax_net.cpp b/modules/softmax_net/softmax_net.cpp
index 5561458..a46b1f7 100644
--- a/modules/softmax_net/softmax_net.cpp
+++ b/modules/softmax_net/softmax_net.cpp
@@ -280,6 +280,7 @@ void MLPPSoftmaxNet::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		_bias1->sub(D1_2->scalar_multiplyn(learning_rate));
 
 		y_hat = evaluatev(input_set_row_tmp);
+		y_hat_mat_tmp->row_set_mlpp_vector(0, y_hat);
 
 		if (ui) {
 			MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat_mat_tmp, output_row_mat_tmp));
diff --git a/modules/softmax_reg/softmax_reg.cpp b/modules/softmax_reg/softmax_reg.cpp
index b267ddf..d632253 100644
--- a/modules/softmax_reg/softmax_reg.cpp
+++ b/modules/softmax_reg/softmax_reg.cpp
@@ -209,6 +209,7 @@ void MLPPSoftmaxReg::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		_bias->sub(b_gradient->scalar_multiplyn(learning_rate));
 
 		y_hat = evaluatev(input_set_row_tmp);
+		y_hat_matrix_tmp->row_set_mlpp_vector(0, y_hat);
 
 		if (ui) {
 			MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat_matrix_tmp, output_set_row_matrix_tmp));
diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index 9004d7a..7fb4a8d 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -252,6 +252,7 @@ void MLPPTanhReg::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		_bias -= learning_rate * error * (1 - y_hat * y_hat);
 
 		y_hat = evaluatev(input_set_row_tmp);
+		y_hat_row_tmp->element_set(0, y_hat);
 
 		if (ui) {
 			MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat_row_tmp, output_set_row_tmp));
-- 
2.43.0


From 83217adbd417529a20c3dbab66146f037a3bcf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:10 +0000
Subject: [PATCH 292/325] fix: report the cost after the step in MLPPMLP, and
 log the cost of mini-batches

---
 modules/mlp/mlp.cpp                 | 7 ++++---
 modules/softmax_reg/softmax_reg.cpp | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/modules/mlp/mlp.cpp b/modules/mlp/mlp.cpp
index 71afbae..2816b72 100644
--- a/modules/mlp/mlp.cpp
+++ b/modules/mlp/mlp.cpp
@@ -232,9 +232,10 @@ void MLPPMLP::sgd(real_t learning_rate, int max_epoch, bool UI) {
 		_bias1->sub(D1_2->scalar_multiplyn(learning_rate));
 
 		ly_hat = evaluatev(input_set_row_tmp);
+		y_hat_row_tmp->element_set(0, ly_hat);
 
 		if (UI) {
-			MLPPUtilities::cost_info(epoch, cost_prev, cost_prev);
+			MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat_row_tmp, output_set_row_tmp));
 			PLOG_MSG("Layer 1:");
 			MLPPUtilities::print_ui_mb(_weights1, _bias1);
 			PLOG_MSG("Layer 2:");
@@ -309,10 +310,10 @@ void MLPPMLP::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size, boo
 
 			_bias1->subtract_matrix_rows(D1_2->scalar_multiplyn(lr_d_cos));
 
-			_y_hat = evaluatem(current_input);
+			ly_hat = evaluatem(current_input);
 
 			if (UI) {
-				MLPPUtilities::CostInfo(epoch, cost_prev, cost(ly_hat, current_output));
+				MLPPUtilities::cost_info(epoch, cost_prev, cost(ly_hat, current_output));
 				PLOG_MSG("Layer 1:");
 				MLPPUtilities::print_ui_mb(_weights1, _bias1);
 				PLOG_MSG("Layer 2:");
diff --git a/modules/softmax_reg/softmax_reg.cpp b/modules/softmax_reg/softmax_reg.cpp
index d632253..cfe3178 100644
--- a/modules/softmax_reg/softmax_reg.cpp
+++ b/modules/softmax_reg/softmax_reg.cpp
@@ -261,7 +261,7 @@ void MLPPSoftmaxReg::train_mbgd(real_t learning_rate, int max_epoch, int mini_ba
 			y_hat = evaluatem(current_inputs);
 
 			if (ui) {
-				MLPPUtilities::CostInfo(epoch, cost_prev, cost(y_hat, current_outputs));
+				MLPPUtilities::cost_info(epoch, cost_prev, cost(y_hat, current_outputs));
 				MLPPUtilities::print_ui_mb(_weights, _bias);
 			}
 		}
-- 
2.43.0


From 817bf77f06d9307357f5f3eac4021cdddd64b25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:10 +0000
Subject: [PATCH 293/325] fix: report the hinge loss of the margins after the
 step in MLPPSVC

---
 modules/svc/svc.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index 671cf01..dbcd77f 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -115,7 +115,7 @@ void MLPPSVC::train_gradient_descent(real_t learning_rate, int max_epoch, bool u
 	forward_pass();
 
 	while (true) {
-		cost_prev = cost(_y_hat, _output_set, _weights, _c);
+		cost_prev = cost(_z, _output_set, _weights, _c);
 
 		_weights->sub(_input_set->transposen()->mult_vec(mlpp_cost.hinge_loss_derivwv(_z, _output_set, _c))->scalar_multiplyn(learning_rate / n));
 		_weights = regularization.reg_weightsv(_weights, learning_rate / n, 0, MLPPReg::REGULARIZATION_TYPE_RIDGE);
@@ -127,7 +127,7 @@ void MLPPSVC::train_gradient_descent(real_t learning_rate, int max_epoch, bool u
 
 		// UI PORTION
 		if (ui) {
-			MLPPUtilities::cost_info(epoch, cost_prev, cost(_y_hat, _output_set, _weights, _c));
+			MLPPUtilities::cost_info(epoch, cost_prev, cost(_z, _output_set, _weights, _c));
 			MLPPUtilities::print_ui_vb(_weights, _bias);
 		}
 
@@ -197,6 +197,7 @@ void MLPPSVC::train_sgd(real_t learning_rate, int max_epoch, bool ui) {
 		_bias -= learning_rate * cost_deriv;
 
 		//y_hat = Evaluate({ _input_set[output_index] });
+		z_row_tmp->element_set(0, propagatev(input_set_row_tmp));
 
 		if (ui) {
 			MLPPUtilities::cost_info(epoch, cost_prev, cost(z_row_tmp, output_set_row_tmp, _weights, _c));
@@ -253,6 +254,7 @@ void MLPPSVC::train_mbgd(real_t learning_rate, int max_epoch, int mini_batch_siz
 			forward_pass();
 
 			y_hat = evaluatem(current_input_batch_entry);
+			z = propagatem(current_input_batch_entry);
 
 			if (ui) {
 				MLPPUtilities::cost_info(epoch, cost_prev, cost(z, current_output_batch_entry, _weights, _c));
-- 
2.43.0


From 194565440f3a94ddfa1c942d381da0833bd376b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:10 +0000
Subject: [PATCH 294/325] fix: cost of MLPPGAN and MLPPWGAN left out the last
 hidden layer

---
 modules/gan/gan.cpp   | 2 +-
 modules/wgan/wgan.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/gan/gan.cpp b/modules/gan/gan.cpp
index 92a1474..8ad373c 100644
--- a/modules/gan/gan.cpp
+++ b/modules/gan/gan.cpp
@@ -228,7 +228,7 @@ real_t MLPPGAN::cost(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 	real_t total_reg_term = 0;
 
 	if (!_network.empty()) {
-		for (int i = 0; i < _network.size() - 1; i++) {
+		for (int i = 0; i < _network.size(); i++) {
 			total_reg_term += regularization.reg_termm(_network.write[i]->get_weights(), _network.write[i]->get_lambda(), _network.write[i]->get_alpha(), _network.write[i]->get_reg());
 		}
 	}
diff --git a/modules/wgan/wgan.cpp b/modules/wgan/wgan.cpp
index da16729..76617a8 100644
--- a/modules/wgan/wgan.cpp
+++ b/modules/wgan/wgan.cpp
@@ -295,7 +295,7 @@ real_t MLPPWGAN::cost(const Ref<MLPPVector> &y_hat, const Ref<MLPPVector> &y) {
 
   real_t total_reg_term = 0;
 
-  for (int i = 0; i < _network.size() - 1; ++i) {
+  for (int i = 0; i < _network.size(); ++i) {
     Ref<MLPPHiddenLayer> layer = _network[i];
 
     total_reg_term +=
-- 
2.43.0


From ad710e71deb00c1f287a4216c855cb08657606bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:59 +0000
Subject: [PATCH 295/325] fix: score() judges the current parameters of the
 model

---
 modules/c_log_log_reg/c_log_log_reg.cpp | 2 ++
 modules/dual_svc/dual_svc.cpp           | 3 +++
 modules/exp_reg/exp_reg.cpp             | 2 ++
 modules/lin_reg/lin_reg.cpp             | 2 ++
 modules/log_reg/log_reg.cpp             | 3 +++
 modules/probit_reg/probit_reg.cpp       | 2 ++
 modules/softmax_reg/softmax_reg.cpp     | 2 ++
 modules/svc/svc.cpp                     | 3 +++
 modules/tanh_reg/tanh_reg.cpp           | 2 ++
 9 files changed, 21 insertions(+)

diff --git a/modules/c_log_log_reg/c_log_log_reg.cpp b/modules/c_log_log_reg/c_log_log_reg.cpp
index 816411c..56eb576 100644
--- a/modules/c_log_log_reg/c_log_log_reg.cpp
+++ b/modules/c_log_log_reg/c_log_log_reg.cpp
@@ -234,6 +234,8 @@ void MLPPCLogLogReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_si
 real_t MLPPCLogLogReg::score() {
 	MLPPUtilities util;
 
+	forward_pass();
+
 	return util.performance_vec(_y_hat, _output_set);
 }
 
diff --git a/modules/dual_svc/dual_svc.cpp b/modules/dual_svc/dual_svc.cpp
index 03f5478..34fd631 100644
--- a/modules/dual_svc/dual_svc.cpp
+++ b/modules/dual_svc/dual_svc.cpp
@@ -181,6 +181,9 @@ void MLPPDualSVC::gradient_descent(real_t learning_rate, int max_epoch, bool ui)
 
 real_t MLPPDualSVC::score() {
 	MLPPUtilities util;
+
+	forward_pass();
+
 	return util.performance_vec(_y_hat, _output_set);
 }
 
diff --git a/modules/exp_reg/exp_reg.cpp b/modules/exp_reg/exp_reg.cpp
index 291cf1e..a26079b 100644
--- a/modules/exp_reg/exp_reg.cpp
+++ b/modules/exp_reg/exp_reg.cpp
@@ -242,6 +242,8 @@ void MLPPExpReg::mbgd(real_t learning_rate, int max_epoch, int mini_batch_size,
 real_t MLPPExpReg::score() {
 	MLPPUtilities util;
 
+	forward_pass();
+
 	return util.performance_vec(_y_hat, _output_set);
 }
 
diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index 0f53762..d1e6830 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -730,6 +730,8 @@ real_t MLPPLinReg::score() {
 
 	MLPPUtilities util;
 
+	forward_pass();
+
 	return util.performance_vec(_y_hat, _output_set);
 }
 
diff --git a/modules/log_reg/log_reg.cpp b/modules/log_reg/log_reg.cpp
index ec5b148..6c010e5 100644
--- a/modules/log_reg/log_reg.cpp
+++ b/modules/log_reg/log_reg.cpp
@@ -282,6 +282,9 @@ real_t MLPPLogReg::score() {
 	ERR_FAIL_COND_V(!_initialized, 0);
 
 	MLPPUtilities util;
+
+	forward_pass();
+
 	return util.performance_vec(_y_hat, _output_set);
 }
 
diff --git a/modules/probit_reg/probit_reg.cpp b/modules/probit_reg/probit_reg.cpp
index adcae59..60d7992 100644
--- a/modules/probit_reg/probit_reg.cpp
+++ b/modules/probit_reg/probit_reg.cpp
@@ -323,6 +323,8 @@ real_t MLPPProbitReg::score() {
 
 	MLPPUtilities util;
 
+	forward_pass();
+
 	return util.performance_vec(_y_hat, _output_set);
 }
 
diff --git a/modules/softmax_reg/softmax_reg.cpp b/modules/softmax_reg/softmax_reg.cpp
index cfe3178..a5f2a2e 100644
--- a/modules/softmax_reg/softmax_reg.cpp
+++ b/modules/softmax_reg/softmax_reg.cpp
@@ -282,6 +282,8 @@ real_t MLPPSoftmaxReg::score() {
 
 	MLPPUtilities util;
 
+	forward_pass();
+
 	return util.performance_mat(_y_hat, _output_set);
 }
 
diff --git a/modules/svc/svc.cpp b/modules/svc/svc.cpp
index dbcd77f..252a3d6 100644
--- a/modules/svc/svc.cpp
+++ b/modules/svc/svc.cpp
@@ -276,6 +276,9 @@ real_t MLPPSVC::score() {
 	ERR_FAIL_COND_V(needs_init(), 0);
 
 	MLPPUtilities util;
+
+	forward_pass();
+
 	return util.performance_vec(_y_hat, _output_set);
 }
 
diff --git a/modules/tanh_reg/tanh_reg.cpp b/modules/tanh_reg/tanh_reg.cpp
index 7fb4a8d..b519131 100644
--- a/modules/tanh_reg/tanh_reg.cpp
+++ b/modules/tanh_reg/tanh_reg.cpp
@@ -330,6 +330,8 @@ real_t MLPPTanhReg::score() {
 
 	MLPPUtilities util;
 
+	forward_pass();
+
 	return util.performance_vec(_y_hat, _output_set);
 }
 
-- 
2.43.0


From 9fc9a7232c27701aa568f2c20bf2c6e6756a5cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:59 +0000
Subject: [PATCH 296/325] fix: MLPPMLP refuses to predict before it is
 initialized

---
 modules/mlp/mlp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/mlp/mlp.cpp b/modules/mlp/mlp.cpp
index 2816b72..cc85b60 100644
--- a/modules/mlp/mlp.cpp
+++ b/modules/mlp/mlp.cpp
@@ -99,10 +99,14 @@ void MLPPMLP::set_reg(const MLPPReg::RegularizationType val) {
 }
 
 Ref<MLPPVector> MLPPMLP::model_set_test(const Ref<MLPPMatrix> &X) {
+	ERR_FAIL_COND_V(!_initialized, Ref<MLPPVector>());
+
 	return evaluatem(X);
 }
 
 real_t MLPPMLP::model_test(const Ref<MLPPVector> &x) {
+	ERR_FAIL_COND_V(!_initialized, 0);
+
 	return evaluatev(x);
 }
 
-- 
2.43.0


From e99b22cd544aad5a9137873db55f735dacd725d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:59 +0000
Subject: [PATCH 297/325] fix: initialize() refuses models without data

---
 modules/gaussian_nb/gaussian_nb.cpp       | 2 +-
 modules/lin_reg/lin_reg.cpp               | 2 +-
 modules/log_reg/log_reg.cpp               | 2 +-
 modules/mann/mann.cpp                     | 2 +-
 modules/multinomial_nb/multinomial_nb.cpp | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/gaussian_nb/gaussian_nb.cpp b/modules/gaussian_nb/gaussian_nb.cpp
index 82b4a26..f8caad7 100644
--- a/modules/gaussian_nb/gaussian_nb.cpp
+++ b/modules/gaussian_nb/gaussian_nb.cpp
@@ -119,7 +119,7 @@ void MLPPGaussianNB::initialize() {
 		return;
 	}
 
-	//ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
 
 	_initialized = true;
 }
diff --git a/modules/lin_reg/lin_reg.cpp b/modules/lin_reg/lin_reg.cpp
index d1e6830..0e20e8e 100644
--- a/modules/lin_reg/lin_reg.cpp
+++ b/modules/lin_reg/lin_reg.cpp
@@ -751,7 +751,7 @@ void MLPPLinReg::initialize() {
 		return;
 	}
 
-	//ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
 
 	_initialized = true;
 }
diff --git a/modules/log_reg/log_reg.cpp b/modules/log_reg/log_reg.cpp
index 6c010e5..7dc7d73 100644
--- a/modules/log_reg/log_reg.cpp
+++ b/modules/log_reg/log_reg.cpp
@@ -303,7 +303,7 @@ void MLPPLogReg::initialize() {
 		return;
 	}
 
-	//ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
 
 	_initialized = true;
 }
diff --git a/modules/mann/mann.cpp b/modules/mann/mann.cpp
index 78a1778..86c8093 100644
--- a/modules/mann/mann.cpp
+++ b/modules/mann/mann.cpp
@@ -250,7 +250,7 @@ void MLPPMANN::initialize() {
 		return;
 	}
 
-	//ERR_FAIL_COND(!input_set.is_valid() || !output_set.is_valid() || n_hidden == 0);
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
 
 	_initialized = true;
 }
diff --git a/modules/multinomial_nb/multinomial_nb.cpp b/modules/multinomial_nb/multinomial_nb.cpp
index 5625dcd..db0ead2 100644
--- a/modules/multinomial_nb/multinomial_nb.cpp
+++ b/modules/multinomial_nb/multinomial_nb.cpp
@@ -156,7 +156,7 @@ void MLPPMultinomialNB::initialize() {
 		return;
 	}
 
-	//ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
+	ERR_FAIL_COND(!_input_set.is_valid() || !_output_set.is_valid());
 
 	_initialized = true;
 }
-- 
2.43.0


From 9c98eeba1013feb2390b7f1c602dfa3d2aabbbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:11 +0000
Subject: [PATCH 298/325] fix: MLPPGaussianNB refuses to be used before it is
 initialized

---
 modules/gaussian_nb/gaussian_nb.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modules/gaussian_nb/gaussian_nb.cpp b/modules/gaussian_nb/gaussian_nb.cpp
index f8caad7..b900e01 100644
--- a/modules/gaussian_nb/gaussian_nb.cpp
+++ b/modules/gaussian_nb/gaussian_nb.cpp
@@ -63,6 +63,8 @@ void MLPPGaussianNB::set_class_num(const int val) {
 */
 
 Ref<MLPPVector> MLPPGaussianNB::model_set_test(const Ref<MLPPMatrix> &X) {
+	ERR_FAIL_COND_V(!_initialized, Ref<MLPPVector>());
+
 	Ref<MLPPVector> y_hat;
 	y_hat.instance();
 	y_hat->resize(X->size().y);
@@ -81,6 +83,8 @@ Ref<MLPPVector> MLPPGaussianNB::model_set_test(const Ref<MLPPMatrix> &X) {
 }
 
 real_t MLPPGaussianNB::model_test(const Ref<MLPPVector> &x) {
+	ERR_FAIL_COND_V(!_initialized, 0);
+
 	real_t max_element = -Math_INF;
 	int max_element_index = 0;
 
@@ -107,6 +111,8 @@ real_t MLPPGaussianNB::model_test(const Ref<MLPPVector> &x) {
 }
 
 real_t MLPPGaussianNB::score() {
+	ERR_FAIL_COND_V(!_initialized, 0);
+
 	MLPPUtilities util;
 	return util.performance_vec(_y_hat, _output_set);
 }
@@ -136,9 +142,9 @@ MLPPGaussianNB::MLPPGaussianNB(const Ref<MLPPMatrix> &p_input_set, const Ref<MLP
 	_y_hat.instance();
 	_y_hat->resize(_output_set->size());
 
-	evaluate();
-
 	_initialized = true;
+
+	evaluate();
 }
 
 MLPPGaussianNB::MLPPGaussianNB() {
-- 
2.43.0


From f43abee518420d55d619dc9c52d1779500c152f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:49 +0000
Subject: [PATCH 299/325] fix: Image::convert reads only the pixel when it
 makes it gray

---
 platform/image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index d14dfaa..e6ec232 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -184,7 +184,7 @@ static void _convert(int p_width, int p_height, const uint8_t *p_src, uint8_t *p
 			const uint8_t *rofs = &p_src[((y * p_width) + x) * (read_bytes + (read_alpha ? 1 : 0))];
 			uint8_t *wofs = &p_dst[((y * p_width) + x) * (write_bytes + (write_alpha ? 1 : 0))];
 
-			uint8_t rgba[4];
+			uint8_t rgba[4] = { 0, 0, 0, 255 };
 
 			if (read_gray) {
 				rgba[0] = rofs[0];
@@ -202,7 +202,7 @@ static void _convert(int p_width, int p_height, const uint8_t *p_src, uint8_t *p
 
 			if (write_gray) {
 				// TODO: not correct grayscale, should use fixed point version of actual weights
-				wofs[0] = uint8_t((uint16_t(rofs[0]) + uint16_t(rofs[1]) + uint16_t(rofs[2])) / 3);
+				wofs[0] = uint8_t((uint16_t(rgba[0]) + uint16_t(rgba[1]) + uint16_t(rgba[2])) / 3);
 			} else {
 				for (uint32_t i = 0; i < write_bytes; i++) {
 					wofs[i] = rgba[i];
-- 
2.43.0


From 1bc866c300b9478b2dd96748f0a4251c1726bc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:49 +0000
Subject: [PATCH 300/325] fix: Image::get_rect has the size of the area

---
 platform/image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index e6ec232..7e0cf95 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1967,7 +1967,7 @@ Rect2 Image::get_used_rect() const {
 }
 
 Ref<Image> Image::get_rect(const Rect2 &p_area) const {
-	Ref<Image> img = new Image(p_area.position.x, p_area.position.y, mipmaps, format);
+	Ref<Image> img = new Image(p_area.size.x, p_area.size.y, mipmaps, format);
 	img->blit_rect(Ref<Image>((Image *)this), p_area, Vector2(0, 0));
 	return img;
 }
-- 
2.43.0


From 818c1e294b6dc5d78d23d419f5f0a3a3ec9931be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:49 +0000
Subject: [PATCH 301/325] fix: RGBA5551 components go to 31

---
 platform/image.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index 7e0cf95..c79b093 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -2327,9 +2327,9 @@ Color Image::get_pixel(int p_x, int p_y) const {
 		}
 		case FORMAT_RGBA5551: {
 			uint16_t u = ((uint16_t *)ptr)[ofs];
-			float r = ((u >> 11) & 0x1F) / 15.0;
-			float g = ((u >> 6) & 0x1F) / 15.0;
-			float b = ((u >> 1) & 0x1F) / 15.0;
+			float r = ((u >> 11) & 0x1F) / 31.0;
+			float g = ((u >> 6) & 0x1F) / 31.0;
+			float b = ((u >> 1) & 0x1F) / 31.0;
 			float a = (u & 0x1) / 1.0;
 			return Color(r, g, b, a);
 		}
-- 
2.43.0


From b7243e9142c6a8fd6afa32ba20e8b42a2502a6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:49 +0000
Subject: [PATCH 302/325] fix: blitting to a negative position keeps the place
 in the source

---
 platform/image.cpp | 48 ++++++++++++++++------------------------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index c79b093..e996bcd 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1983,19 +1983,15 @@ void Image::blit_rect(const Ref<Image> &p_src, const Rect2 &p_src_rect, const Ve
 
 	Rect2i clipped_src_rect = Rect2i(0, 0, p_src->width, p_src->height).clip(p_src_rect);
 
-	if (p_dest.x < 0) {
-		clipped_src_rect.position.x = ABS(p_dest.x);
-	}
-	if (p_dest.y < 0) {
-		clipped_src_rect.position.y = ABS(p_dest.y);
-	}
-
 	if (clipped_src_rect.size.x <= 0 || clipped_src_rect.size.y <= 0) {
 		return;
 	}
 
 	Vector2 src_underscan = Vector2(MIN(0, p_src_rect.position.x), MIN(0, p_src_rect.position.y));
-	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(Rect2i(p_dest - src_underscan, clipped_src_rect.size));
+	Rect2i unclipped_dest_rect = Rect2i(p_dest - src_underscan, clipped_src_rect.size);
+	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(unclipped_dest_rect);
+	// What is cut off on the left and the top of the destination is not read either.
+	clipped_src_rect.position += dest_rect.position - unclipped_dest_rect.position;
 
 	write_lock = true;
 	uint8_t *dst_data_ptr = data.ptrw();
@@ -2039,19 +2035,15 @@ void Image::blit_rect_mask(const Ref<Image> &p_src, const Ref<Image> &p_mask, co
 
 	Rect2i clipped_src_rect = Rect2i(0, 0, p_src->width, p_src->height).clip(p_src_rect);
 
-	if (p_dest.x < 0) {
-		clipped_src_rect.position.x = ABS(p_dest.x);
-	}
-	if (p_dest.y < 0) {
-		clipped_src_rect.position.y = ABS(p_dest.y);
-	}
-
 	if (clipped_src_rect.size.x <= 0 || clipped_src_rect.size.y <= 0) {
 		return;
 	}
 
 	Vector2 src_underscan = Vector2(MIN(0, p_src_rect.position.x), MIN(0, p_src_rect.position.y));
-	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(Rect2i(p_dest - src_underscan, clipped_src_rect.size));
+	Rect2i unclipped_dest_rect = Rect2i(p_dest - src_underscan, clipped_src_rect.size);
+	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(unclipped_dest_rect);
+	// What is cut off on the left and the top of the destination is not read either.
+	clipped_src_rect.position += dest_rect.position - unclipped_dest_rect.position;
 
 	write_lock = true;
 
@@ -2098,19 +2090,15 @@ void Image::blend_rect(const Ref<Image> &p_src, const Rect2 &p_src_rect, const V
 
 	Rect2i clipped_src_rect = Rect2i(0, 0, p_src->width, p_src->height).clip(p_src_rect);
 
-	if (p_dest.x < 0) {
-		clipped_src_rect.position.x = ABS(p_dest.x);
-	}
-	if (p_dest.y < 0) {
-		clipped_src_rect.position.y = ABS(p_dest.y);
-	}
-
 	if (clipped_src_rect.size.x <= 0 || clipped_src_rect.size.y <= 0) {
 		return;
 	}
 
 	Vector2 src_underscan = Vector2(MIN(0, p_src_rect.position.x), MIN(0, p_src_rect.position.y));
-	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(Rect2i(p_dest - src_underscan, clipped_src_rect.size));
+	Rect2i unclipped_dest_rect = Rect2i(p_dest - src_underscan, clipped_src_rect.size);
+	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(unclipped_dest_rect);
+	// What is cut off on the left and the top of the destination is not read either.
+	clipped_src_rect.position += dest_rect.position - unclipped_dest_rect.position;
 
 	lock();
 	Ref<Image> img = p_src;
@@ -2152,19 +2140,15 @@ void Image::blend_rect_mask(const Ref<Image> &p_src, const Ref<Image> &p_mask, c
 
 	Rect2i clipped_src_rect = Rect2i(0, 0, p_src->width, p_src->height).clip(p_src_rect);
 
-	if (p_dest.x < 0) {
-		clipped_src_rect.position.x = ABS(p_dest.x);
-	}
-	if (p_dest.y < 0) {
-		clipped_src_rect.position.y = ABS(p_dest.y);
-	}
-
 	if (clipped_src_rect.size.x <= 0 || clipped_src_rect.size.y <= 0) {
 		return;
 	}
 
 	Vector2 src_underscan = Vector2(MIN(0, p_src_rect.position.x), MIN(0, p_src_rect.position.y));
-	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(Rect2i(p_dest - src_underscan, clipped_src_rect.size));
+	Rect2i unclipped_dest_rect = Rect2i(p_dest - src_underscan, clipped_src_rect.size);
+	Rect2i dest_rect = Rect2i(0, 0, width, height).clip(unclipped_dest_rect);
+	// What is cut off on the left and the top of the destination is not read either.
+	clipped_src_rect.position += dest_rect.position - unclipped_dest_rect.position;
 
 	lock();
 	Ref<Image> img = p_src;
-- 
2.43.0


From 75aee68bf112205f33c8e368a90d15c09da4d0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:49 +0000
Subject: [PATCH 303/325] fix: RGBA4444 and RGBA5551 are resized to the nearest
 pixel or refused

---
 platform/image.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index e996bcd..83eac3f 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -734,6 +734,7 @@ void Image::resize(int p_width, int p_height, Interpolation p_interpolation) {
 	ERR_FAIL_COND_MSG(data.size() == 0, "Cannot resize image before creating it, use create() or create_from_data() first.");
 	ERR_FAIL_COND_MSG(!_can_modify(format), "Cannot resize in compressed or custom image formats.");
 	ERR_FAIL_COND_MSG(write_lock, "Cannot resize image when it is locked.");
+	ERR_FAIL_COND_MSG((format == FORMAT_RGBA4444 || format == FORMAT_RGBA5551) && p_interpolation != INTERPOLATE_NEAREST, "Cannot interpolate in custom image formats.");
 
 	bool mipmap_aware = p_interpolation == INTERPOLATE_TRILINEAR /* || p_interpolation == INTERPOLATE_TRICUBIC */;
 
@@ -782,7 +783,7 @@ void Image::resize(int p_width, int p_height, Interpolation p_interpolation) {
 
 	switch (p_interpolation) {
 		case INTERPOLATE_NEAREST: {
-			if (format >= FORMAT_L8 && format <= FORMAT_RGBA8) {
+			if (format >= FORMAT_L8 && format <= FORMAT_RGBA5551) {
 				switch (get_format_pixel_size(format)) {
 					case 1:
 						_scale_nearest<1, uint8_t>(r_ptr, w_ptr, width, height, p_width, p_height);
@@ -1179,6 +1180,7 @@ static void _generate_po2_mipmap(const Component *p_src, Component *p_dst, uint3
 
 void Image::shrink_x2() {
 	ERR_FAIL_COND(!_can_modify(format));
+	ERR_FAIL_COND_MSG(format == FORMAT_RGBA4444 || format == FORMAT_RGBA5551, "Cannot shrink in custom image formats.");
 	ERR_FAIL_COND_MSG(write_lock, "Cannot modify image when it is locked.");
 	ERR_FAIL_COND(data.size() == 0);
 
-- 
2.43.0


From 014f0fdf473a07402b079488b5abd31692c1949b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:49 +0000
Subject: [PATCH 304/325] fix: Image::shrink_x2 leaves 1x1 with mipmaps alone

---
 platform/image.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/platform/image.cpp b/platform/image.cpp
index 83eac3f..bc8b707 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1185,6 +1185,10 @@ void Image::shrink_x2() {
 	ERR_FAIL_COND(data.size() == 0);
 
 	if (mipmaps) {
+		if (get_mipmap_count() == 0) {
+			return; // 1x1 already
+		}
+
 		// just use the lower mipmap as base and copy all
 		Vector<uint8_t> new_img;
 
-- 
2.43.0


From d3f367252e4595198554b0b76ae7a7e3c1d550ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:49 +0000
Subject: [PATCH 305/325] fix: cubic scaling rounds positions down

---
 platform/image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index bc8b707..34da6f8 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -400,13 +400,13 @@ static void _scale_cubic(const uint8_t *__restrict p_src, uint8_t *__restrict p_
 	for (uint32_t y = 0; y < p_dst_height; y++) {
 		// Y coordinates
 		oy = (double)y * yfac - 0.5f;
-		oy1 = (int)oy;
+		oy1 = (int)Math::floor(oy);
 		dy = oy - (double)oy1;
 
 		for (uint32_t x = 0; x < p_dst_width; x++) {
 			// X coordinates
 			ox = (double)x * xfac - 0.5f;
-			ox1 = (int)ox;
+			ox1 = (int)Math::floor(ox);
 			dx = ox - (double)ox1;
 
 			// initial pixel value
-- 
2.43.0


From 8dba5287752bca615609c3d1ab6774525ce28cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:49 +0000
Subject: [PATCH 306/325] fix: trilinear scaling blends floats as floats

---
 platform/image.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index 34da6f8..6800acd 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -700,7 +700,18 @@ static void _scale_lanczos(const uint8_t *__restrict p_src, uint8_t *__restrict
 	memdelete_arr(buffer);
 }
 
-static void _overlay(const uint8_t *__restrict p_src, uint8_t *__restrict p_dst, float p_alpha, uint32_t p_width, uint32_t p_height, uint32_t p_pixel_size) {
+static void _overlay(const uint8_t *__restrict p_src, uint8_t *__restrict p_dst, float p_alpha, uint32_t p_width, uint32_t p_height, uint32_t p_pixel_size, bool p_float) {
+	if (p_float) {
+		const float *src = (const float *)p_src;
+		float *dst = (float *)p_dst;
+
+		for (uint32_t i = 0; i < p_width * p_height * (p_pixel_size / sizeof(float)); i++) {
+			dst[i] = dst[i] * (1.0f - p_alpha) + src[i] * p_alpha;
+		}
+
+		return;
+	}
+
 	uint16_t alpha = MIN((uint16_t)(p_alpha * 256.0f), 256);
 
 	for (uint32_t i = 0; i < p_width * p_height * p_pixel_size; i++) {
@@ -888,7 +899,7 @@ void Image::resize(int p_width, int p_height, Interpolation p_interpolation) {
 
 			if (interpolate_mipmaps) {
 				// Switch to read again from the first scaled mipmap to overlay it over the second
-				_overlay(dst.data.ptr(), w_ptr, mip1_weight, p_width, p_height, get_format_pixel_size(format));
+				_overlay(dst.data.ptr(), w_ptr, mip1_weight, p_width, p_height, get_format_pixel_size(format), format >= FORMAT_RF);
 			}
 
 		} break;
-- 
2.43.0


From 13865f11516ea1b72176e38ee39c61faf9daf4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:49 +0000
Subject: [PATCH 307/325] fix: Image::save_png closes its file

---
 platform/image.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/platform/image.cpp b/platform/image.cpp
index 6800acd..cf0747f 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1691,10 +1691,15 @@ Error Image::save_png(const String &file_name) {
 	FileAccess *f = FileAccess::create_and_open(file_name, FileAccess::WRITE);
 
 	if (!f) {
+		STBIW_FREE(ret_arr);
 		return FAILED;
 	}
 
 	f->store_buffer(ret_arr, out_length);
+	f->close();
+	memdelete(f);
+
+	STBIW_FREE(ret_arr);
 
 	return OK;
 }
-- 
2.43.0


From c1e5d1a462b2afdcd14eb15fe16d30c9912740b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:50 +0000
Subject: [PATCH 308/325] fix: Image::load_from_file loads files with other
 component counts

---
 platform/image.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index cf0747f..f96655c 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1449,12 +1449,6 @@ void Image::load_from_file(const String &file_name, Format p_format) {
 
 	ERR_FAIL_COND_MSG(!pixels, "Couldn't load image! " + file_name);
 
-	if (n != img_n) {
-		memdelete(pixels);
-		ERR_PRINT("Couldn't load image! n != img_n");
-		return;
-	}
-
 	int size = x * y * get_format_pixel_size(FORMAT_RGBA8);
 
 	data.resize(size);
-- 
2.43.0


From 9cac133154631a351c5734416fc494d6c1ba46eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:50 +0000
Subject: [PATCH 309/325] fix: XPM images start unlocked and accept tabs in the
 header

---
 platform/image.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index f96655c..f46bc80 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1540,7 +1540,7 @@ void Image::create(const char **p_xpm) {
 		switch (status) {
 			case READING_HEADER: {
 				String line_str = line_ptr;
-				line_str.replace("\t", " ");
+				line_str = line_str.replace("\t", " ");
 
 				size_width = line_str.get_slicec(' ', 0).to_int();
 				size_height = line_str.get_slicec(' ', 1).to_int();
@@ -1915,6 +1915,7 @@ Image::Image(const char **p_xpm) {
 	height = 0;
 	mipmaps = false;
 	format = FORMAT_L8;
+	write_lock = false;
 
 	create(p_xpm);
 }
-- 
2.43.0


From c55ae14848d94cd17b14d9b94ffddd400de9748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:50 +0000
Subject: [PATCH 310/325] fix: Image::fill refuses empty images

---
 platform/image.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/platform/image.cpp b/platform/image.cpp
index f46bc80..14faabb 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -2215,6 +2215,7 @@ void Image::_repeat_pixel_over_subsequent_memory(uint8_t *p_pixel, int p_pixel_s
 
 void Image::fill(const Color &p_color) {
 	ERR_FAIL_COND_MSG(!_can_modify(format), "Cannot fill in compressed or custom image formats.");
+	ERR_FAIL_COND(data.size() == 0);
 
 	lock();
 
-- 
2.43.0


From 4f5fbcf934b8dc843478c5f863a7dc1f84b5e972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:50 +0000
Subject: [PATCH 311/325] fix: alpha detection covers every format

---
 platform/image.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index 14faabb..3ea5850 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1806,8 +1806,9 @@ Error Image::save_hdr(const String &file_name) {
 	}
 
 bool Image::is_invisible() const {
-	if (format == FORMAT_L8 ||
-			format == FORMAT_RGB8 || format == FORMAT_RG8) {
+	if (format == FORMAT_L8 || format == FORMAT_R8 ||
+			format == FORMAT_RGB8 || format == FORMAT_RG8 ||
+			format == FORMAT_RF || format == FORMAT_RGF || format == FORMAT_RGBF) {
 		return false;
 	}
 
@@ -1838,6 +1839,18 @@ bool Image::is_invisible() const {
 
 		} break;
 
+		case FORMAT_RGBA4444:
+		case FORMAT_RGBA5551:
+		case FORMAT_RGBAF: {
+			for (int i = 0; i < width * height; i++) {
+				if (get_pixel(i % width, i / width).a > 0) {
+					detected = true;
+					break;
+				}
+			}
+
+		} break;
+
 		default: {
 		}
 	}
@@ -1874,6 +1887,15 @@ Image::AlphaMode Image::detect_alpha() const {
 
 		} break;
 
+		case FORMAT_RGBA4444:
+		case FORMAT_RGBA5551:
+		case FORMAT_RGBAF: {
+			for (int i = 0; i < width * height; i++) {
+				DETECT_ALPHA(CLAMP(get_pixel(i % width, i / width).a * 255.0, 0, 255));
+			}
+
+		} break;
+
 		default: {
 		}
 	}
-- 
2.43.0


From cebadcf2e4c9776568ba2859b99f4d23ce69c0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:50 +0000
Subject: [PATCH 312/325] fix: Image::premultiply_alpha keeps opaque pixels

---
 platform/image.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index 3ea5850..c22a0ef 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -2676,9 +2676,9 @@ void Image::premultiply_alpha() {
 		for (int j = 0; j < width; j++) {
 			uint8_t *ptr = &data_ptr[(i * width + j) * 4];
 
-			ptr[0] = (uint16_t(ptr[0]) * uint16_t(ptr[3])) >> 8;
-			ptr[1] = (uint16_t(ptr[1]) * uint16_t(ptr[3])) >> 8;
-			ptr[2] = (uint16_t(ptr[2]) * uint16_t(ptr[3])) >> 8;
+			ptr[0] = (uint16_t(ptr[0]) * uint16_t(ptr[3]) + 255U) >> 8;
+			ptr[1] = (uint16_t(ptr[1]) * uint16_t(ptr[3]) + 255U) >> 8;
+			ptr[2] = (uint16_t(ptr[2]) * uint16_t(ptr[3]) + 255U) >> 8;
 		}
 	}
 
-- 
2.43.0


From b0d4e79e7dfc3c3374dd91b86bbf896827969558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:50 +0000
Subject: [PATCH 313/325] fix: Image::bumpmap_to_normalmap makes the mipmaps
 again

---
 platform/image.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/platform/image.cpp b/platform/image.cpp
index c22a0ef..08838e1 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -2577,6 +2577,12 @@ Ref<Image> Image::rgbe_to_srgb() {
 void Image::bumpmap_to_normalmap(float bump_scale) {
 	ERR_FAIL_COND(!_can_modify(format));
 	ERR_FAIL_COND_MSG(write_lock, "Cannot modify image when it is locked.");
+
+	bool used_mipmaps = has_mipmaps();
+	if (used_mipmaps) {
+		clear_mipmaps();
+	}
+
 	convert(Image::FORMAT_RF);
 
 	Vector<uint8_t> result_image; // rgba output
@@ -2619,6 +2625,10 @@ void Image::bumpmap_to_normalmap(float bump_scale) {
 	}
 	format = FORMAT_RGBA8;
 	data = result_image;
+
+	if (used_mipmaps) {
+		generate_mipmaps(true);
+	}
 }
 
 void Image::srgb_to_linear() {
-- 
2.43.0


From 32928e2ba62c8013820255f7136093418b1893fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:50 +0000
Subject: [PATCH 314/325] fix: Image::clear forgets the mipmaps

---
 platform/image.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/platform/image.cpp b/platform/image.cpp
index 08838e1..34aab82 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1305,6 +1305,7 @@ void Image::normalize() {
 void Image::clear() {
 	width = 0;
 	height = 0;
+	mipmaps = false;
 	data.resize(0);
 }
 
-- 
2.43.0


From 6d895a0b2427208cf35b21a32f785939a3fc621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:04 +0000
Subject: [PATCH 315/325] fix: Image::load_from_file frees the pixels the way
 they were allocated

---
 platform/image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index 34aab82..c0b88bc 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -1464,7 +1464,7 @@ void Image::load_from_file(const String &file_name, Format p_format) {
 	mipmaps = false;
 	format = FORMAT_RGBA8;
 
-	memdelete(pixels);
+	stbi_image_free(pixels);
 
 	if (p_format != FORMAT_RGBA8) {
 		convert(p_format);
-- 
2.43.0


From f33c063b7373fe2b3750a14a4a04cf1692c72206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:04 +0000
Subject: [PATCH 316/325] fix: the JPEG bit buffer is shifted unsigned

---
 platform/3rd_stb_image_write.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/3rd_stb_image_write.h b/platform/3rd_stb_image_write.h
index c2cbccc..4592f71 100644
--- a/platform/3rd_stb_image_write.h
+++ b/platform/3rd_stb_image_write.h
@@ -1262,7 +1262,7 @@ static void stbiw__jpg_writeBits(stbi__write_context *s, int *bitBufP, int *bitC
       if(c == 255) {
          stbiw__putc(s, 0);
       }
-      bitBuf <<= 8;
+      bitBuf = (int)((unsigned int)bitBuf << 8);
       bitCnt -= 8;
    }
    *bitBufP = bitBuf;
-- 
2.43.0


From 494439d587875f980de42ef983b4a24b5c30f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:35 +0000
Subject: [PATCH 317/325] fix: RGBA5551 components are rounded

---
 platform/image.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index c0b88bc..3cdd415 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -2443,9 +2443,9 @@ void Image::set_pixel(int p_x, int p_y, const Color &p_color) {
 		case FORMAT_RGBA5551: {
 			uint16_t rgba = 0;
 
-			rgba = uint16_t(CLAMP(p_color.r * 31.0, 0, 31)) << 11;
-			rgba |= uint16_t(CLAMP(p_color.g * 31.0, 0, 31)) << 6;
-			rgba |= uint16_t(CLAMP(p_color.b * 31.0, 0, 31)) << 1;
+			rgba = uint16_t(CLAMP(p_color.r * 31.0 + 0.5, 0, 31)) << 11;
+			rgba |= uint16_t(CLAMP(p_color.g * 31.0 + 0.5, 0, 31)) << 6;
+			rgba |= uint16_t(CLAMP(p_color.b * 31.0 + 0.5, 0, 31)) << 1;
 			rgba |= uint16_t(p_color.a > 0.5 ? 1 : 0);
 
 			((uint16_t *)ptr)[ofs] = rgba;
-- 
2.43.0


From 1efbc264df7216798c39fbfe3872b99d62751a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:36 +0000
Subject: [PATCH 318/325] fix: Image::get_rect allocates with memnew

---
 platform/image.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/image.cpp b/platform/image.cpp
index 3cdd415..87adca4 100644
--- a/platform/image.cpp
+++ b/platform/image.cpp
@@ -2007,7 +2007,7 @@ Rect2 Image::get_used_rect() const {
 }
 
 Ref<Image> Image::get_rect(const Rect2 &p_area) const {
-	Ref<Image> img = new Image(p_area.size.x, p_area.size.y, mipmaps, format);
+	Ref<Image> img = memnew(Image(p_area.size.x, p_area.size.y, mipmaps, format));
 	img->blit_rect(Ref<Image>((Image *)this), p_area, Vector2(0, 0));
 	return img;
 }
-- 
2.43.0


From 85ea5b96db649ad94c5d140b512a2d02147ec9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:42 +0000
Subject: [PATCH 319/325] fix: Face3 intersects rays and segments

---
 platform/sfw.cpp | 57 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 53 insertions(+), 4 deletions(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 9b161e2..f2226e4 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -12411,13 +12411,62 @@ int Face3::split_by_plane(const Plane &p_plane, Face3 p_res[3], bool p_is_point_
 }
 
 bool Face3::intersects_ray(const Vector3 &p_from, const Vector3 &p_dir, Vector3 *p_intersection) const {
-	//return Geometry::ray_intersects_triangle(p_from, p_dir, vertex[0], vertex[1], vertex[2], p_intersection);
-	return false;
+	Vector3 e1 = vertex[1] - vertex[0];
+	Vector3 e2 = vertex[2] - vertex[0];
+	Vector3 h = p_dir.cross(e2);
+	real_t a = e1.dot(h);
+	if (Math::is_zero_approx(a)) { // Parallel test.
+		return false;
+	}
+
+	real_t f = 1 / a;
+
+	Vector3 s = p_from - vertex[0];
+	real_t u = f * s.dot(h);
+
+	if ((u < 0) || (u > 1)) {
+		return false;
+	}
+
+	Vector3 q = s.cross(e1);
+	real_t v = f * p_dir.dot(q);
+
+	if ((v < 0) || (u + v > 1)) {
+		return false;
+	}
+
+	// At this stage we can compute t to find out where
+	// the intersection point is on the line.
+	real_t t = f * e2.dot(q);
+
+	if (t <= (real_t)CMP_EPSILON) { // The face is behind the ray.
+		return false;
+	}
+
+	if (p_intersection) {
+		*p_intersection = p_from + p_dir * t;
+	}
+
+	return true;
 }
 
 bool Face3::intersects_segment(const Vector3 &p_from, const Vector3 &p_dir, Vector3 *p_intersection) const {
-	//return Geometry::segment_intersects_triangle(p_from, p_dir, vertex[0], vertex[1], vertex[2], p_intersection);
-	return false;
+	// The parameters are the two ends of the segment.
+	Vector3 intersection;
+
+	if (!intersects_ray(p_from, p_dir - p_from, &intersection)) {
+		return false;
+	}
+
+	if (p_from.distance_squared_to(intersection) > p_from.distance_squared_to(p_dir)) {
+		return false;
+	}
+
+	if (p_intersection) {
+		*p_intersection = intersection;
+	}
+
+	return true;
 }
 
 bool Face3::is_degenerate() const {
-- 
2.43.0


From dc1b4f654a866b9f954bd50d2f096018321e3018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:42 +0000
Subject: [PATCH 320/325] fix: Face3::get_support looks at both edges of the
 first vertex

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index f2226e4..e4fc08d 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -12651,7 +12651,7 @@ void Face3::get_support(const Vector3 &p_normal, const Transform &p_transform, V
 	/** TEST EDGES AS SUPPORT **/
 
 	for (int i = 0; i < 3; i++) {
-		if (i != vert_support_idx && i + 1 != vert_support_idx) {
+		if (i != vert_support_idx && (i + 1) % 3 != vert_support_idx) {
 			continue;
 		}
 
-- 
2.43.0


From 1b4b140c5cc49bc064203f97d58c472fac9acdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:57 +0000
Subject: [PATCH 321/325] fix: MLPPTensor3 slices are written into an empty
 image

---
 core/mlpp_tensor3.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/mlpp_tensor3.cpp b/core/mlpp_tensor3.cpp
index e551f65..2799acc 100644
--- a/core/mlpp_tensor3.cpp
+++ b/core/mlpp_tensor3.cpp
@@ -889,7 +889,9 @@ void MLPPTensor3::z_slice_get_into_image(Ref<Image> p_target,
 
   Size2i img_size = Size2i(p_target->get_width(), p_target->get_height());
   Size2i fms = z_slice_size();
-  if (img_size != fms) {
+  if (p_target->empty()) {
+    p_target->create(fms.x, fms.y, false, Image::FORMAT_RGBA8);
+  } else if (img_size != fms) {
     bool mip_maps = p_target->has_mipmaps();
     p_target->resize(fms.x, fms.y, Image::INTERPOLATE_NEAREST);
 
@@ -950,7 +952,9 @@ void MLPPTensor3::z_slices_get_into_image(Ref<Image> p_target,
 
   Size2i img_size = Size2i(p_target->get_width(), p_target->get_height());
   Size2i fms = z_slice_size();
-  if (img_size != fms) {
+  if (p_target->empty()) {
+    p_target->create(fms.x, fms.y, false, Image::FORMAT_RGBA8);
+  } else if (img_size != fms) {
     bool mip_maps = p_target->has_mipmaps();
     p_target->resize(fms.x, fms.y, Image::INTERPOLATE_NEAREST);
 
@@ -1202,7 +1206,9 @@ void MLPPTensor3::x_slice_get_into_image(Ref<Image> p_target,
 
   Size2i img_size = Size2i(p_target->get_width(), p_target->get_height());
   Size2i fms = Size2i(_size.y, _size.z);
-  if (img_size != fms) {
+  if (p_target->empty()) {
+    p_target->create(fms.x, fms.y, false, Image::FORMAT_RGBA8);
+  } else if (img_size != fms) {
     bool mip_maps = p_target->has_mipmaps();
     p_target->resize(fms.x, fms.y, Image::INTERPOLATE_NEAREST);
 
@@ -1337,7 +1343,9 @@ void MLPPTensor3::y_slice_get_into_image(Ref<Image> p_target,
 
   Size2i img_size = Size2i(p_target->get_width(), p_target->get_height());
   Size2i fms = Size2i(_size.x, _size.z);
-  if (img_size != fms) {
+  if (p_target->empty()) {
+    p_target->create(fms.x, fms.y, false, Image::FORMAT_RGBA8);
+  } else if (img_size != fms) {
     bool mip_maps = p_target->has_mipmaps();
     p_target->resize(fms.x, fms.y, Image::INTERPOLATE_NEAREST);
 
-- 
2.43.0


From f1600b19130d6348abd48dfa05ce0f7b87dc5450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:56 +0000
Subject: [PATCH 322/325] fix: the CRASH macros write out what was logged
 before they trap

---
 platform/sfw.cpp | 4 ++++
 platform/sfw.h   | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index e4fc08d..6aedbe1 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -8576,6 +8576,10 @@ void RLogger::log_ret_ptr(String *str) {
 
 	return_string_ptr(str);
 }
+
+void RLogger::flush() {
+	fflush(stdout);
+}
 #line 0
 
 #line 1 "sfw/core/string_name.cpp"
diff --git a/platform/sfw.h b/platform/sfw.h
index 1fb88a9..610d458 100644
--- a/platform/sfw.h
+++ b/platform/sfw.h
@@ -432,6 +432,8 @@ public:
 
 	static void log_ptr(String *str);
 	static void log_ret_ptr(String *str);
+
+	static void flush();
 };
 
 #line 0
@@ -1403,12 +1405,15 @@ public:
 
 #ifdef _MSC_VER
 #define GENERATE_TRAP                       \
+	RLogger::flush();                       \
 	__debugbreak();                         \
 	/* Avoid warning about control paths */ \
 	for (;;) {                              \
 	}
 #else
-#define GENERATE_TRAP __builtin_trap();
+#define GENERATE_TRAP \
+	RLogger::flush(); \
+	__builtin_trap();
 #endif
 
 // template methods for the variadic log macros. Add more as needed.
-- 
2.43.0


From f52e9d860773a9d692a8ba2e5d1e4e248834b8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:56 +0000
Subject: [PATCH 323/325] fix: SFWTime sleeps go on after signals

---
 platform/sfw.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 6aedbe1..3d85d9f 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -1725,6 +1725,7 @@ Thread::ID Thread::get_caller_id() {
 #include <windows.h>
 #include <winnt.h>
 #else
+#include <errno.h>
 #include <sys/time.h>
 #include <unistd.h>
 #endif
@@ -1879,7 +1880,8 @@ void SFWTime::sleep_ns(double ns) {
 		struct timespec wait = { 0 };
 		wait.tv_sec = ns / 1e9;
 		wait.tv_nsec = ns - wait.tv_sec * 1e9;
-		nanosleep(&wait, NULL);
+		while (nanosleep(&wait, &wait) == -1 && errno == EINTR) {
+		}
 #endif
 	} else {
 #if defined(_WIN64) || defined(_WIN32)
-- 
2.43.0


From 1176bba96579f5532abdae61e7662755c5664d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:55 +0000
Subject: [PATCH 324/325] fix: Variant::can_convert knows the arrays of
 four-dimensional vectors

---
 platform/sfw.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index 3d85d9f..a77592e 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -20519,6 +20519,8 @@ bool Variant::can_convert(Variant::Type p_type_from, Variant::Type p_type_to) {
 				POOL_VECTOR2I_ARRAY,
 				POOL_VECTOR3_ARRAY,
 				POOL_VECTOR3I_ARRAY,
+				POOL_VECTOR4_ARRAY,
+				POOL_VECTOR4I_ARRAY,
 				NIL
 			};
 
-- 
2.43.0


From a02b103725b9a83d60e22dc503d42858f692b7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:40 +0000
Subject: [PATCH 325/325] fix: String::utf16_byte_length returns bytes

---
 platform/sfw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/platform/sfw.cpp b/platform/sfw.cpp
index a77592e..e3440a9 100644
--- a/platform/sfw.cpp
+++ b/platform/sfw.cpp
@@ -6203,7 +6203,7 @@ int String::utf16_byte_length() const {
 		}
 	}
 
-	return fl;
+	return fl * sizeof(char16_t);
 }
 
 uint32_t String::hash(const char *p_cstr) {
-- 
2.43.0

