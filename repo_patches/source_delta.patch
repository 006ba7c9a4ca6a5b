From 3e29631061e04934ed044da894135791dd9a7dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:52 +0000
Subject: [PATCH 01/43] fix: matrix copy assignment keeps its data on
 self-assignment and accepts empty matrices

---
 inc/susa/matrix.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index f9df673..6a32b7a 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -443,7 +443,7 @@ matrix <T, Allocator>::matrix(const matrix <T, Allocator> &mat_arg)
     this->sizet_cols      = mat_arg.sizet_cols;
     this->sizet_objects   = mat_arg.sizet_objects;
 
-    if (allocate(sizet_objects))
+    if (sizet_objects != 0 && allocate(sizet_objects))
     {
         std::memcpy(_matrix, mat_arg._matrix, sizet_objects * sizeof(T));
     }
@@ -1292,7 +1292,9 @@ template <typename T, typename Allocator> matrix<T, Allocator> matrix <T, Alloca
 //  =
 template <typename T, typename Allocator> matrix<T, Allocator>& matrix <T, Allocator>::operator=( const matrix <T, Allocator> &mat_arg )
 {
-    if (sizet_objects != 0 && _matrix != nullptr)
+    if (this == &mat_arg) return *this;
+
+    if (_matrix != nullptr)
     {
         alloc.deallocate(_matrix, sizet_objects);
         _matrix         = nullptr;
@@ -1302,7 +1304,7 @@ template <typename T, typename Allocator> matrix<T, Allocator>& matrix <T, Alloc
     sizet_cols      = mat_arg.sizet_cols;
     sizet_objects   = sizet_rows * sizet_cols;
 
-    if (allocate(sizet_objects))
+    if (sizet_objects != 0 && allocate(sizet_objects))
     {
         std::memcpy(_matrix, mat_arg._matrix, sizet_objects * sizeof(T));
     }
-- 
2.43.0


From 47161659eff0c491adb4fb5b4e0c304516052c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:52 +0000
Subject: [PATCH 02/43] fix: a moved-from matrix is empty

---
 inc/susa/matrix.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 6a32b7a..2ddd695 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -498,6 +498,9 @@ matrix <T, Allocator>::matrix(matrix<T, Allocator>&& mat_arg) noexcept
     _matrix             = mat_arg._matrix;
     mat_arg.T_default      = nullptr;
     mat_arg._matrix     = nullptr;
+    mat_arg.sizet_rows      = 0;
+    mat_arg.sizet_cols      = 0;
+    mat_arg.sizet_objects   = 0;
 }
 
 
-- 
2.43.0


From 7cf459bae69f6011b34f3a7ff2a210d14d5161a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:52 +0000
Subject: [PATCH 03/43] fix: matrix::right() of a vector starts at the right
 element

---
 inc/susa/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 2ddd695..511e746 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -829,7 +829,7 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sizet_right);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sizet_right,1);
 
-        size_t sz_start  = sizet_objects - sizet_right - 1;
+        size_t sz_start  = sizet_objects - sizet_right;
         T*     _r_matrix = &_matrix[sz_start];
         for (size_t sizet_i = 0; sizet_i < sizet_right; sizet_i++)
         {
-- 
2.43.0


From 39e6c6577a6a5408803ceb1affe8ed12b3f4d70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:52 +0000
Subject: [PATCH 04/43] fix: concat() places the right-hand columns after the
 left-hand ones

---
 inc/susa/linalg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 66f9072..1baca50 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -244,7 +244,7 @@ matrix <T, Allocator> concat(const matrix <T, Allocator> &mat_argl, const matrix
         {
             for (size_t sizet_col = 0; sizet_col < mat_argr.no_cols(); sizet_col++)
             {
-                mat_ret(sizet_row,mat_argr.no_cols() + sizet_col) = mat_argr(sizet_row,sizet_col);
+                mat_ret(sizet_row,mat_argl.no_cols() + sizet_col) = mat_argr(sizet_row,sizet_col);
             }
         }
     }
-- 
2.43.0


From ade7ba66a0bce6cc389e45a5ad3f0bbcbc0e09eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:52 +0000
Subject: [PATCH 05/43] fix: upsample() inserts zeros

---
 inc/susa/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/signal.h b/inc/susa/signal.h
index 31e6979..ed953d8 100644
--- a/inc/susa/signal.h
+++ b/inc/susa/signal.h
@@ -138,7 +138,7 @@ matrix <T, Allocator> toeplitz(const matrix <T, Allocator>& mat_col);
 template <typename T, typename Allocator>
 matrix <T, Allocator> upsample(const matrix <T, Allocator> &mat_arg, size_t uint_u)
 {
-    matrix <T, Allocator> mat_tmp(uint_u * mat_arg.no_rows(), mat_arg.no_cols());
+    matrix <T, Allocator> mat_tmp(uint_u * mat_arg.no_rows(), mat_arg.no_cols(), 0);
 
     for (size_t size_col = 0; size_col < mat_arg.no_cols(); size_col++)
     {
-- 
2.43.0


From 0ea558a5d50a6f4be0b0d963f6c065cef2a87b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:47 +0000
Subject: [PATCH 06/43] fix: filter() handles a one-sample input

---
 inc/susa/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/signal.h b/inc/susa/signal.h
index ed953d8..40b1361 100644
--- a/inc/susa/signal.h
+++ b/inc/susa/signal.h
@@ -209,7 +209,7 @@ filter(const matrix <TT, Allocator<TT>>& mat_arg_b, const matrix <TT, Allocator<
             }
         }
     }
-    else if (size_x_cols == 1 && size_x_rows > 1)
+    else if (size_x_cols == 1 && size_x_rows >= 1)
     {
         // for column vector
         size_ret_len = size_x + size_length;
-- 
2.43.0


From b5ed974871a434a4d29a4961b93bacee06429cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 07/43] fix: abs() compiles for arithmetic types and includes
 the first element

---
 inc/susa/base.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 30526f8..b69fe80 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -371,7 +371,7 @@ template <typename T>
 std::vector <T> abs(const std::vector <T> &vec_arg)
 {
     std::vector <T> vec_abs(vec_arg.size(),0);
-    for (size_t i = 0; i < vec_arg.size(); i++) vec_abs[i] = abs(vec_arg[i]);
+    for (size_t i = 0; i < vec_arg.size(); i++) vec_abs[i] = std::abs(vec_arg[i]);
     return vec_abs;
 }
 
@@ -380,9 +380,9 @@ susa::matrix <T, Allocator> abs(const susa::matrix <T, Allocator> &mat_arg)
 {
     susa::matrix <T, Allocator>     mat_ret(mat_arg.shape());
     size_t size = mat_arg.size();
-    for (size_t uint_i = 1; uint_i < size; uint_i++)
+    for (size_t uint_i = 0; uint_i < size; uint_i++)
     {
-        mat_ret(uint_i) = abs(mat_arg(uint_i));
+        mat_ret(uint_i) = std::abs(mat_arg(uint_i));
     }
 
     return mat_ret;
-- 
2.43.0


From e8248e0cae8d7899f3103a030f6a09aca4deae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 08/43] fix: max() handles a 1x1 matrix like min()

---
 inc/susa/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index b69fe80..1932c42 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -447,7 +447,7 @@ matrix <size_t> max(const matrix <T, Allocator> &mat_arg)
             }
         }
     }
-    else if (mat_arg.no_rows() > 1 && mat_arg.no_cols() > 1)
+    else if (mat_arg.no_rows() > 0 && mat_arg.no_cols() > 0)
     {
         mat_ret = matrix <size_t> (1, mat_arg.no_cols(), 0);
         for (size_t uint_col = 0; uint_col < mat_arg.no_cols(); uint_col++)
-- 
2.43.0


From ae3e697b2f7dc1da309abbbd30e4855a85c8dbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 09/43] fix: mod() computes in integers rather than in single
 precision

---
 src/base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index 8eaa960..8bb8b5c 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -80,7 +80,9 @@ int pow(int int_b, unsigned int uint_p)
 
 long int mod(long int lint_a, long int lint_mod)
 {
-    return(lint_a - std::floor((float)lint_a / lint_mod) * lint_mod);
+    long int lint_ret = lint_a % lint_mod;
+    if (lint_ret != 0 && (lint_ret < 0) != (lint_mod < 0)) lint_ret += lint_mod;
+    return lint_ret;
 }
 
 double round(const double dbl_arg, int int_decimal)
-- 
2.43.0


From 78fde5b5c6c5b8ac762ed37990a6ccaa6d36cb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 10/43] fix: log2() terminates when the most significant bit is
 set

---
 inc/susa/base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 1932c42..df7cfd1 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -276,8 +276,9 @@ T log2(T int_arg)
 {
     T ret(0);
 
-    while ((int_arg >> ret) != 0)
+    while (int_arg != 0)
     {
+        int_arg >>= 1;
         ret++;
     }
 
-- 
2.43.0


From 6e6e463c1f481b28bdef2c3a4c15934531bc10fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:11 +0000
Subject: [PATCH 11/43] fix: bitset::set() marks every element of the set

---
 src/sets.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets.cpp b/src/sets.cpp
index 758630b..e6e4087 100644
--- a/src/sets.cpp
+++ b/src/sets.cpp
@@ -94,7 +94,7 @@ namespace susa
 
   void bitset::set()
   {
-    for (unsigned int index = 0; index < nbytes; index++)
+    for (unsigned int index = 0; index < uint_set_size; index++)
     {
       unsigned int byte = index / 8;
       unsigned int bit  = index % 8;
-- 
2.43.0


From e0a57a45e533a87f6d8e855d8656f3a0d31b82fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:12 +0000
Subject: [PATCH 12/43] fix: a default constructed array has no dimensions

---
 inc/susa/array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index cd4edcb..492d060 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -140,6 +140,7 @@ namespace susa
   template <typename T, typename Allocator>
   array<T, Allocator>::array()
   : uint_total(0)
+  , uint_num_dims(0)
   , T_default(new T)
   , uint_get_step(0)
   , alloc()
-- 
2.43.0


From 82ddf050152ceea3a5c9740c523393cf71eb0c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:12 +0000
Subject: [PATCH 13/43] fix: array::clone() allocates the new size

---
 inc/susa/array.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index 492d060..6ad9c1b 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -173,11 +173,9 @@ namespace susa
 
     if (length != uint_total)
     {
-      if (uint_total != 0 && _matrix != nullptr)
-      {
-        alloc.deallocate(_matrix, uint_total);
-      }
-      _matrix       = alloc.allocate(uint_total);
+      T *_matrix_new = alloc.allocate(length);
+      if (_matrix != nullptr) alloc.deallocate(_matrix, uint_total);
+      _matrix       = _matrix_new;
       uint_total    = length;
     }
   
-- 
2.43.0


From c9abd4c376ef8684ecd27007e6396631258dae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:12 +0000
Subject: [PATCH 14/43] fix: array copy assignment keeps its data on
 self-assignment and releases empty storage

---
 inc/susa/array.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index 6ad9c1b..213c698 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -220,19 +220,19 @@ namespace susa
   template <typename T, typename Allocator>
   array<T, Allocator> &array<T, Allocator>::operator=(const array &arg)
   {
-    if (uint_total != 0 && _matrix != nullptr)
-    {
-      alloc.deallocate(_matrix, uint_total);
-    }
+    if (this == &arg) return *this;
+
+    T *_matrix_new = alloc.allocate(arg.uint_total);
+    std::memcpy(_matrix_new, arg._matrix, arg.uint_total * sizeof(T));
+    if (_matrix != nullptr) alloc.deallocate(_matrix, uint_total);
+
+    _matrix       = _matrix_new;
     uint_total    = arg.uint_total;
     vec_dims      = arg.vec_dims;
     uint_num_dims = vec_dims.size();
     vec_get       = std::vector<size_t>(uint_num_dims);
     uint_get_step = 0;
 
-    _matrix       = alloc.allocate(uint_total);
-    std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
-
     return *this;
   }
 
-- 
2.43.0


From c05dda79c45da8dc32c84a1c201c13754193bce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:52 +0000
Subject: [PATCH 15/43] fix: lu::decompose reports failure on a zero pivot
 instead of dividing by it

---
 inc/susa/solver.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index 9b120a6..55fe8af 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -199,6 +199,8 @@ template <class T> bool lu<T>::decompose()
             }
             else
             {
+                if (mat_upper(i,i) == T(0)) return false;
+
                 T sum = 0;
                 for (size_t j = 0; j < i; j++)
                 {
-- 
2.43.0


From 0e1322b492de042f7bf383ec9c767e4f5e2d2d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:18 +0000
Subject: [PATCH 16/43] fix: lup::decompose picks pivots from the partially
 eliminated matrix, so singular matrices are reported

---
 inc/susa/solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index 55fe8af..71573de 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -235,7 +235,7 @@ template <class T> bool lup<T>::decompose()
 
         for (size_t sizet_row = sizet_col; sizet_row < sizet_n; sizet_row++)
         {
-            T_abs = mat_a(sizet_row, sizet_col);
+            T_abs = mat_lu(sizet_row, sizet_col);
             if (T_abs < 0) T_abs *= -1.0;
             if ( T_abs > T_max)
             {
-- 
2.43.0


From 877f1da27f8b24f4cfe0ee85b937d2e0341013b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:21 +0000
Subject: [PATCH 17/43] fix: lup::decompose_alt evaluates the pivot candidates
 in the pivot column

---
 inc/susa/solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index 71573de..5e891f9 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -323,7 +323,7 @@ template <class T> bool lup<T>::decompose_alt()
             q       = 0;
             while (q < i)
             {
-                Uii -= mat_lu(r,q) * mat_lu(q,r);
+                Uii -= mat_lu(r,q) * mat_lu(q,i);
                 q++;
             }
             if (std::abs(Uii) > Umax)
-- 
2.43.0


From 54c0bdfc17be68ec2232f90b15cd5cf4a0941c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:46 +0000
Subject: [PATCH 18/43] fix: lup::solve accepts the right-hand side of a
 one-by-one system

---
 inc/susa/solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index 5e891f9..22db0c2 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -271,7 +271,7 @@ template <class T> matrix<T> lup<T>::solve(const matrix<T> &mat_b)
 {
     matrix<T> mat_ret(sizet_n, 1, 0);
 
-    if (sizet_n == 0 || !mat_b.is_vector() || mat_b.size() != sizet_n) return mat_ret;
+    if (sizet_n == 0 || !(mat_b.is_vector() || mat_b.is_scalar()) || mat_b.size() != sizet_n) return mat_ret;
 
     for (size_t sizet_row = 0; sizet_row < sizet_n; sizet_row++)
     {
-- 
2.43.0


From 691f28e4c41af98f8732caaec25764c7219dc9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:32 +0000
Subject: [PATCH 19/43] fix: a default constructed rng seeds its state

---
 src/rng.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rng.cpp b/src/rng.cpp
index e8bc91e..da8c93d 100644
--- a/src/rng.cpp
+++ b/src/rng.cpp
@@ -32,6 +32,7 @@ namespace susa {
 rng::rng()
 {
     uint_index = 0;
+    init(5489);
 }
 
 rng::rng(unsigned int uint_seed)
-- 
2.43.0


From e77fede4a1902210fcaddc38fc2a1b3fbcb4f525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:32 +0000
Subject: [PATCH 20/43] fix: rng masks the second tempering shift with C as
 MT19937 does

---
 src/rng.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rng.cpp b/src/rng.cpp
index da8c93d..79dd7a2 100644
--- a/src/rng.cpp
+++ b/src/rng.cpp
@@ -221,7 +221,7 @@ unsigned int rng::extract_number()
     uint32_t x = MT[uint_index++];
     x = x ^ (x  >> U);
     x = x ^ ((x << S)  & B);
-    x = x ^ ((x << T)  ^ C);
+    x = x ^ ((x << T)  & C);
     x = x ^ (x  >> L);
     return x;
 }
-- 
2.43.0


From fe37e2bf6595309e538b3ed16e368f50e4ae97c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:32 +0000
Subject: [PATCH 21/43] fix: rng advances the freshly seeded state before it
 extracts numbers

---
 src/rng.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rng.cpp b/src/rng.cpp
index 79dd7a2..8f73df6 100644
--- a/src/rng.cpp
+++ b/src/rng.cpp
@@ -31,13 +31,11 @@ namespace susa {
 // Constructors and Destructor
 rng::rng()
 {
-    uint_index = 0;
     init(5489);
 }
 
 rng::rng(unsigned int uint_seed)
 {
-    uint_index = 0;
     init(uint_seed);
 }
 
@@ -150,6 +148,9 @@ void rng::init(unsigned int uint_seed)
     {
         MT[indx] = F * (MT[indx - 1] ^ (MT[indx - 1]) >> 30) + indx;
     }
+
+    // the state has to be advanced before the first number is extracted
+    uint_index = N;
 }
 
 size_t rng::get_nonuniform(double* prob, size_t n)
-- 
2.43.0


From a00d28b878cbbead26949e39d8c8faa8726cfdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:04 +0000
Subject: [PATCH 22/43] fix: copies of mt own their state

---
 inc/susa/mt.h | 2 +-
 src/mt.cpp    | 7 +------
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/inc/susa/mt.h b/inc/susa/mt.h
index a32313c..3f9b65e 100644
--- a/inc/susa/mt.h
+++ b/inc/susa/mt.h
@@ -52,7 +52,7 @@ class mt {
     matrix <double>       mat_probabilities;
     matrix <unsigned int> mat_sort_indices;
     matrix <double>       mat_prob_sorted;
-    uint32_t*             uint_mt; /* the array for the state vector  */
+    uint32_t              uint_mt[_MT_N]; /* the array for the state vector  */
     int                   mti;   /* mti==N+1 means mt[N] is not initialized */
 
     void init_genrand(uint32_t s);
diff --git a/src/mt.cpp b/src/mt.cpp
index 3e22a44..d06f622 100644
--- a/src/mt.cpp
+++ b/src/mt.cpp
@@ -28,22 +28,17 @@ namespace susa {
 
 mt::mt()
 {
-    uint_mt = new uint32_t[_MT_N];
     mti = _MT_N + 1;
 }
 
 mt::mt(uint32_t uint_seed)
 {
-    uint_mt = new uint32_t[_MT_N];
     mti = _MT_N + 1;
 
     init_genrand(uint_seed);
 }
 
-mt::~mt()
-{
-    delete [] uint_mt;
-}
+mt::~mt() {}
 
 /* initializes uint_mt[_MT_N] with a seed */
 void mt::init_genrand(uint32_t uint_seed)
-- 
2.43.0


From fa6ec81fac101d178606a4f83dde5a966de98eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:04 +0000
Subject: [PATCH 23/43] fix: mt::nonuniform() returns initialised samples when
 the probabilities do not reach the drawn number

---
 src/mt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mt.cpp b/src/mt.cpp
index d06f622..1b23f5c 100644
--- a/src/mt.cpp
+++ b/src/mt.cpp
@@ -279,7 +279,7 @@ unsigned int mt::nonuniform()
 
 matrix <unsigned int> mt::nonuniform(matrix <double> mat_probabilities, unsigned int uint_length)
 {
-  matrix <unsigned int> mat_rand(uint_length, 1);
+  matrix <unsigned int> mat_rand(uint_length, 1, 0);
   unsigned int uint_prob_size = mat_probabilities.size();
   double       dbl_th         = 0;
   double       dbl_rnd        = genrand_real3();
-- 
2.43.0


From eeeb2290dec6a02fd3293bfd5c3f6bd9cbb93472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:04 +0000
Subject: [PATCH 24/43] fix: ccode owns its generators, so that default
 constructed and copied codes can be destroyed

---
 inc/susa/ccode.h |  2 +-
 src/ccode.cpp    | 21 +++++++++------------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/inc/susa/ccode.h b/inc/susa/ccode.h
index fd14b3a..bca0339 100644
--- a/inc/susa/ccode.h
+++ b/inc/susa/ccode.h
@@ -171,7 +171,7 @@ class ccode
     uint32_t  uint_n;     // Number of outputs
     uint32_t  uint_m;     // Number of memories
     uint32_t  uint_mmask; // Memory mask
-    uint32_t* uint_gen;   // Dynamic array of generators
+    std::vector <uint32_t> uint_gen; // Dynamic array of generators
 
     //! convert octal numbers to decimal
     uint32_t oct_to_dec(uint32_t);
diff --git a/src/ccode.cpp b/src/ccode.cpp
index f5e055f..24ddfc0 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -30,19 +30,14 @@ namespace susa {
 
 ccode::ccode()
 {
-    uint_k = 1;
-    uint_n = 0;
-    uint_m = 0;
+    uint_k     = 1;
+    uint_n     = 0;
+    uint_m     = 0;
+    uint_mmask = 0;
+    zero_state();
 }
 
-ccode::~ccode()
-{
-    if (uint_gen != NULL)
-    {
-        delete [] uint_gen;
-        uint_gen = nullptr;
-    }
-}
+ccode::~ccode() {}
 
 ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
 {
@@ -56,12 +51,14 @@ ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
 
     try
     {
-        uint_gen   = new uint32_t[uint_n];
+        uint_gen.resize(uint_n, 0);
     }
     catch(const std::bad_alloc& e)
     {
         SUSA_ABORT("failed to allocate memory for generators.");
     }
+
+    zero_state();
 }
 
 
-- 
2.43.0


From 625c6745902fa290d048c5adebb38a74e057f0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:04 +0000
Subject: [PATCH 25/43] fix: ccode::decode_bcjr() starts from zero path metrics

---
 src/ccode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index 24ddfc0..23b8e3e 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -183,12 +183,12 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
 
     // Alpha
     matrix <double> mat_alpha(uint_num_states, 1, 0);
-    std::vector <matrix <double> > vec_alpha(uint_num_stages + 1, matrix <double> (uint_num_states,1));
+    std::vector <matrix <double> > vec_alpha(uint_num_stages + 1, matrix <double> (uint_num_states, 1, 0));
     vec_alpha[0](0,0) = 1;
 
     // Beta
     matrix <double> mat_beta(uint_num_states, 1, 0);
-    std::vector <matrix <double> > vec_beta(uint_num_stages + 1, matrix <double> (uint_num_states,1));
+    std::vector <matrix <double> > vec_beta(uint_num_stages + 1, matrix <double> (uint_num_states, 1, 0));
     vec_beta[uint_num_stages](0,0) = 1;
 
 
-- 
2.43.0


From 6c75b349e6347621d54e71950051300b423322f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:04 +0000
Subject: [PATCH 26/43] fix: ccode::rate() is not rounded to an integer

---
 inc/susa/ccode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/ccode.h b/inc/susa/ccode.h
index bca0339..fcf7469 100644
--- a/inc/susa/ccode.h
+++ b/inc/susa/ccode.h
@@ -106,7 +106,7 @@ class ccode
      **/
     float rate()
     {
-      return (uint_k / uint_n);
+      return ((float) uint_k / uint_n);
     }
 
     /**
-- 
2.43.0


From b075703ec7e70e5b8387c9655c1e3d75bf59921f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:04 +0000
Subject: [PATCH 27/43] fix: channel::decode_mlse() with a known initial state
 starts from initialised metrics

---
 inc/susa/channel.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index 5ec0c13..8637589 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -264,15 +264,15 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     unsigned int uint_num_states = uint_num_states_mem;
 
 
-    matrix <T> mat_metric_past(uint_num_states, 1);
+    matrix <T> mat_metric_past(uint_num_states, 1, 0);
     matrix <T> mat_metric_next(uint_num_states, 1,std::numeric_limits<T>::max());
 
 
-    matrix <unsigned int> mat_survivor_path(uint_num_states, uint_num_stages);
-    matrix <unsigned int> mat_previous_state(uint_num_states, uint_num_stages);
+    matrix <unsigned int> mat_survivor_path(uint_num_states, uint_num_stages, 0);
+    matrix <unsigned int> mat_previous_state(uint_num_states, uint_num_stages, 0);
 
-    matrix <unsigned int> mat_visited(uint_num_states,1);
-    matrix <unsigned int> mat_visited_forward(uint_num_states,1);
+    matrix <unsigned int> mat_visited(uint_num_states, 1, 0);
+    matrix <unsigned int> mat_visited_forward(uint_num_states, 1, 0);
     mat_visited(uint_init_state) = 1;
 
     T dbl_next_output;
@@ -307,7 +307,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
         mat_metric_past = mat_metric_next;
         mat_metric_next = matrix <T> (uint_num_states, 1,std::numeric_limits<T>::max());
         mat_visited = mat_visited_forward;
-        mat_visited_forward = matrix <unsigned int> (uint_num_states,1);
+        mat_visited_forward = matrix <unsigned int> (uint_num_states, 1, 0);
     }
 
 
-- 
2.43.0


From 37d9ab2c18930afe96b1de0e5d7286cbbb2ae695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:04 +0000
Subject: [PATCH 28/43] fix: channel::decode_bcjr() zero-initialises the branch
 metrics

---
 inc/susa/channel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index 8637589..7db915b 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -432,7 +432,7 @@ template <class T> matrix <T> channel <T>::decode_bcjr(const matrix <T> &mat_arg
     unsigned int uint_num_states = uint_num_states_mem;
 
     // Gamma
-    matrix <T> mat_gamma(uint_num_states, uint_num_states);
+    matrix <T> mat_gamma(uint_num_states, uint_num_states, 0);
     std::vector <matrix <T> > vec_gamma(uint_num_stages, matrix <T> (uint_num_states, uint_num_states));
 
 
-- 
2.43.0


From 78cdc4b04ca6346ccd8965e9715158dab270f3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:04 +0000
Subject: [PATCH 29/43] fix: select_most() retires a selected element below
 every other value

---
 inc/susa/search.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index d76dc35..2a24de2 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -225,7 +225,7 @@ template <class T> matrix <unsigned int> select_most(const matrix <T> &mat_arg,
 
         mat_index(uint_i) = uint_max_index;
 
-        mat_ret(uint_max_index) = std::numeric_limits<T>::min();
+        mat_ret(uint_max_index) = std::numeric_limits<T>::lowest();
     }
 
     return mat_index;
-- 
2.43.0


From a2111ffa59a74a0d4855697d1451161d965f5fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:04 +0000
Subject: [PATCH 30/43] fix: sort() does not stop while later elements are out
 of order

---
 inc/susa/search.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index 2a24de2..c898358 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -353,7 +353,6 @@ template <class T> matrix <T> sort(const matrix <T> &mat_arg)
     unsigned int uint_size   = mat_arg.size();
     matrix <T>   mat_return  = mat_arg;
     T T_swap;
-    bool bool_changed = false;
 
     for (unsigned int uint_indx = 0; uint_indx < uint_size; uint_indx++)
     {
@@ -364,11 +363,8 @@ template <class T> matrix <T> sort(const matrix <T> &mat_arg)
                 T_swap = mat_return(uint_indx);
                 mat_return(uint_indx) = mat_return(uint_indx_);
                 mat_return(uint_indx_) = T_swap;
-                bool_changed = true;
             }
         }
-        if (!bool_changed) break;
-        bool_changed = false;
     }
 
     return mat_return;
-- 
2.43.0


From 73e6480c9bbcf40dab4315f1d91da6324f1ba5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:04 +0000
Subject: [PATCH 31/43] fix: select_limited_least() only selects among the
 given indices

---
 inc/susa/search.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index c898358..4741126 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -170,8 +170,8 @@ template <class T> matrix <unsigned int> select_limited_least(const matrix <T> &
 
     for( unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
     {
-        uint_min_index = uint_i;
-        T_min = mat_ret(uint_i);
+        uint_min_index = mat_limited_index(uint_i);
+        T_min = mat_ret(uint_min_index);
         for (unsigned int uint_j = 0; uint_j < mat_limited_index.size(); uint_j++)
         {
             if (mat_ret(mat_limited_index(uint_j)) < T_min)
-- 
2.43.0


From 72d9e4ab2ecf1f3b915f9071c698693de77a7f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:04 +0000
Subject: [PATCH 32/43] fix: dijkstra() initialises the predecessors it returns

---
 inc/susa/search.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index 4741126..ce15889 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -258,7 +258,7 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
 
   unsigned int uint_num_nodes = mat_graph.no_cols();
   susa::matrix <unsigned int> dist(uint_num_nodes, 1, std::numeric_limits<int>::max());
-  susa::matrix <unsigned int> prev(uint_num_nodes, 1);
+  susa::matrix <unsigned int> prev(uint_num_nodes, 1, 0);
 
   dist(uint_src) = 0;
 
-- 
2.43.0


From 471db2649e9a7f99ab4437aa9015bde62005dffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:23 +0000
Subject: [PATCH 33/43] fix: rrcosine samples the frequency response in
 floating point

---
 src/rrcosine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rrcosine.cpp b/src/rrcosine.cpp
index 31a386c..e830db8 100644
--- a/src/rrcosine.cpp
+++ b/src/rrcosine.cpp
@@ -38,7 +38,7 @@ rrcosine::rrcosine(unsigned dbl_l, double dbl_alpha, int int_ord)
     {
         for (int m=-(int_ord - 1)/2; m <= (int_ord - 1)/2 ; m++)
         {
-            cmat_g_T(i) += sqrt(xrc(dbl_l * m / int_ord, dbl_alpha)) * 
+            cmat_g_T(i) += sqrt(xrc((double) dbl_l * m / int_ord, dbl_alpha)) * 
                             exp(std::complex<double>(0, 2 * PI * m * (i - (int_ord - 1)/2)/int_ord));
         }
     }
-- 
2.43.0


From 97890fc507880d96018c86b2a534e7e82ca5e15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 34/43] fix: array element access compiles on a constant array
 and leaves the array unmodified

---
 inc/susa/array.h | 64 +++++++++++-------------------------------------
 1 file changed, 14 insertions(+), 50 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index 213c698..cc60655 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -87,7 +87,7 @@ namespace susa
     void clone(T *data, size_t length);
 
     template <typename... Args>
-    T get(size_t uint_elem, Args... uint_args);
+    T get(size_t uint_elem, Args... uint_args) const;
 
     //! () operator to set or get elements
     template <typename... Args>
@@ -112,7 +112,7 @@ namespace susa
     }
 
     template <typename... Args>
-    size_t get_raw_index(size_t uint_elem, Args... uint_args)
+    size_t get_raw_index(size_t uint_elem, Args... uint_args) const
     {
       return index(uint_elem, uint_args...);
     }
@@ -123,17 +123,15 @@ namespace susa
     size_t uint_num_dims;
     T *T_default;
 
-    std::vector<size_t> vec_get;
-    size_t uint_get_step;
     T T_get_value;
 
     Allocator alloc;
     T *_matrix;
 
-    size_t index(size_t uint_elem);
-    size_t index(const std::vector<size_t> &list);
+    size_t index(size_t uint_elem) const;
+    size_t index(const std::vector<size_t> &list) const;
     template <typename... Args>
-    size_t index(size_t uint_elem, Args... uint_args);
+    size_t index(size_t uint_elem, Args... uint_args) const;
   };
 
   // Implementations
@@ -142,7 +140,6 @@ namespace susa
   : uint_total(0)
   , uint_num_dims(0)
   , T_default(new T)
-  , uint_get_step(0)
   , alloc()
   , _matrix(nullptr)
   {
@@ -161,8 +158,6 @@ namespace susa
     }
 
     uint_num_dims = vec_dims.size();
-    uint_get_step = 0;
-    vec_get = std::vector<size_t>(uint_num_dims);
 
     _matrix = alloc.allocate(uint_total);
   }
@@ -191,8 +186,6 @@ namespace susa
     uint_total      = arg.uint_total;
     vec_dims        = arg.vec_dims;
     uint_num_dims   = vec_dims.size();
-    vec_get         = std::vector<size_t>(uint_num_dims);
-    uint_get_step   = 0;
 
     T_default          = arg.T_default;
     _matrix         = arg._matrix;
@@ -211,8 +204,6 @@ namespace susa
     uint_total    = arg.uint_total;
     vec_dims      = arg.vec_dims;
     uint_num_dims = vec_dims.size();
-    vec_get       = std::vector<size_t>(uint_num_dims);
-    uint_get_step = 0;
     _matrix       = alloc.allocate(uint_total);
     std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
   }
@@ -230,8 +221,6 @@ namespace susa
     uint_total    = arg.uint_total;
     vec_dims      = arg.vec_dims;
     uint_num_dims = vec_dims.size();
-    vec_get       = std::vector<size_t>(uint_num_dims);
-    uint_get_step = 0;
 
     return *this;
   }
@@ -296,7 +285,7 @@ namespace susa
 
   template <typename T, typename Allocator>
   template <typename... Args>
-  T array<T, Allocator>::get(size_t uint_elem, Args... uint_args)
+  T array<T, Allocator>::get(size_t uint_elem, Args... uint_args) const
   {
 
     SUSA_ASSERT(_matrix != nullptr);
@@ -314,7 +303,7 @@ namespace susa
   }
 
   template <typename T, typename Allocator>
-  size_t array<T, Allocator>::index(const std::vector<size_t> &list)
+  size_t array<T, Allocator>::index(const std::vector<size_t> &list) const
   {
 
     size_t uint_elem = 0;
@@ -340,49 +329,24 @@ namespace susa
   }
 
   template <typename T, typename Allocator>
-  size_t array<T, Allocator>::index(size_t uint_elem)
+  size_t array<T, Allocator>::index(size_t uint_elem) const
   {
 
-    size_t ret;
-
-    if (uint_get_step == 0)
-    {
-      vec_get       = std::vector<size_t>(uint_num_dims);
-      uint_get_step = 0;
-
-      SUSA_ASSERT_MESSAGE(uint_elem < uint_total, "the element index is out of range.");
-
-      if (uint_elem < uint_total) return uint_elem;
-
-      return 0;
-    }
-    else
-    {
-
-      SUSA_ASSERT_MESSAGE(uint_get_step < uint_num_dims, "the number of arguments exceeded the number of dimensions.");
-
-      vec_get[uint_get_step] = uint_elem;
-      uint_get_step++;
-
-      ret = index(vec_get);
-    }
+    SUSA_ASSERT_MESSAGE(uint_elem < uint_total, "the element index is out of range.");
 
-    vec_get = std::vector<size_t>(uint_num_dims);
-    uint_get_step = 0;
+    if (uint_elem < uint_total) return uint_elem;
 
-    return ret;
+    return 0;
   }
 
   template <typename T, typename Allocator>
   template <typename... Args>
-  size_t array<T, Allocator>::index(size_t uint_elem, Args... uint_args)
+  size_t array<T, Allocator>::index(size_t uint_elem, Args... uint_args) const
   {
 
-    SUSA_ASSERT_MESSAGE(uint_get_step < uint_num_dims, "the number of arguments exceeded the number of dimensions.");
+    SUSA_ASSERT_MESSAGE(sizeof...(uint_args) < uint_num_dims, "the number of arguments exceeded the number of dimensions.");
 
-    vec_get[uint_get_step] = uint_elem;
-    uint_get_step++;
-    return index(uint_args...);
+    return index(std::vector<size_t>{uint_elem, static_cast<size_t>(uint_args)...});
   }
 
 } // namespace susa
-- 
2.43.0


From 74e6f00acff5f19d1e6eed80176361ad8334b936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 35/43] fix: hermitian() compiles

---
 inc/susa/linalg.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 1baca50..3bd21f9 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -123,12 +123,12 @@ matrix <std::complex<T>, Allocator> hermitian(const matrix <std::complex<T>, All
 {
     size_t sizet_rows = mat_arg.no_rows();
     size_t sizet_cols = mat_arg.no_cols();
-    matrix <T, Allocator> mat_ret;
+    matrix <std::complex<T>, Allocator> mat_ret;
 
-    SUSA_ASSERT(mat_arg._matrix != nullptr);
-    if (mat_arg._matrix == nullptr) return mat_ret;
+    SUSA_ASSERT(mat_arg.size() != 0);
+    if (mat_arg.size() == 0) return mat_ret;
 
-    mat_ret = matrix <T, Allocator> (sizet_cols, sizet_rows);
+    mat_ret = matrix <std::complex<T>, Allocator> (sizet_cols, sizet_rows);
 
     for (size_t sizet_col = 0; sizet_col < sizet_cols; sizet_col++)
     {
-- 
2.43.0


From ecb91a5ad34d2610a7d0f91051cd9bc8ddf18742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 36/43] fix: swap_rows() and swap_cols() reject indices out of
 range

---
 inc/susa/matrix.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 511e746..1bb2f04 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -670,6 +670,9 @@ template <typename T, typename Allocator> std::vector <T> matrix <T, Allocator>:
 
 template <typename T, typename Allocator> void matrix <T, Allocator>::swap_cols(size_t col_a, size_t col_b)
 {
+    SUSA_ASSERT_MESSAGE(col_a < sizet_cols && col_b < sizet_cols, "one or more indices is/are out of range.");
+    if (col_a >= sizet_cols || col_b >= sizet_cols) return;
+
     T T_tmp;
 
     for (size_t row = 0; row < sizet_rows; row++)
@@ -683,6 +686,9 @@ template <typename T, typename Allocator> void matrix <T, Allocator>::swap_cols(
 
 template <typename T, typename Allocator> void matrix <T, Allocator>::swap_rows(size_t row_a, size_t row_b)
 {
+    SUSA_ASSERT_MESSAGE(row_a < sizet_rows && row_b < sizet_rows, "one or more indices is/are out of range.");
+    if (row_a >= sizet_rows || row_b >= sizet_rows) return;
+
     T T_tmp;
 
     for (size_t col = 0; col < sizet_cols; col++)
-- 
2.43.0


From c38f3facfbdcfb1e688eedaa21408ee778c4b57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 37/43] fix: row() and col() assert that the index is in range

---
 inc/susa/matrix.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 1bb2f04..8a714ef 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -587,6 +587,8 @@ template <typename T, typename Allocator> void  matrix <T, Allocator>::set_all(T
 
 template <typename T, typename Allocator> matrix <T, Allocator> matrix <T, Allocator>::row(size_t sizet_row) const
 {
+    SUSA_ASSERT_MESSAGE(sizet_row < sizet_rows, "the row index is out of range.");
+
     matrix <T, Allocator> mat_ret(1, sizet_cols);
 
     if (sizet_row < sizet_rows)
@@ -602,6 +604,8 @@ template <typename T, typename Allocator> matrix <T, Allocator> matrix <T, Alloc
 
 template <typename T, typename Allocator> matrix <T, Allocator> matrix <T, Allocator>::col(size_t sizet_col) const
 {
+    SUSA_ASSERT_MESSAGE(sizet_col < sizet_cols, "the column index is out of range.");
+
     matrix <T, Allocator> mat_ret(sizet_rows, 1);
 
     if (sizet_col < sizet_cols)
-- 
2.43.0


From 8be1319653861b2fc49c72feed860302f934e154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 38/43] fix: set_row() and set_col() reject the position one
 past the end

---
 inc/susa/matrix.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 8a714ef..6be92e4 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -626,8 +626,8 @@ template <typename T, typename Allocator> size_t matrix <T, Allocator>::size() c
 
 template <typename T, typename Allocator> bool matrix <T, Allocator>::set_row(size_t row, const matrix <T, Allocator>& mat_arg)
 {
-    SUSA_ASSERT_MESSAGE((row < sizet_rows || mat_arg.sizet_objects >= sizet_cols), "dimention mismatch");
-    if (row > sizet_rows || mat_arg.sizet_objects < sizet_cols) return false;
+    SUSA_ASSERT_MESSAGE((row < sizet_rows && mat_arg.sizet_objects >= sizet_cols), "dimention mismatch");
+    if (row >= sizet_rows || mat_arg.sizet_objects < sizet_cols) return false;
 
     for (size_t indx = 0; indx < sizet_cols; indx++)
     {
@@ -639,8 +639,8 @@ template <typename T, typename Allocator> bool matrix <T, Allocator>::set_row(si
 
 template <typename T, typename Allocator> bool matrix <T, Allocator>::set_col(size_t col, const matrix <T, Allocator>& mat_arg)
 {
-    SUSA_ASSERT_MESSAGE((col < sizet_cols || mat_arg.sizet_objects >= sizet_rows), "dimension mismatch");
-    if (col > sizet_cols || mat_arg.sizet_objects < sizet_rows) return false;
+    SUSA_ASSERT_MESSAGE((col < sizet_cols && mat_arg.sizet_objects >= sizet_rows), "dimension mismatch");
+    if (col >= sizet_cols || mat_arg.sizet_objects < sizet_rows) return false;
 
     for (size_t indx = 0; indx < sizet_rows; indx++)
     {
-- 
2.43.0


From 20a88143f5547dd2f292646baf566c78b5ad054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:41 +0000
Subject: [PATCH 39/43] fix: left() and right() of a matrix assert that there
 are that many columns

---
 inc/susa/matrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 6be92e4..278ef58 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -814,6 +814,7 @@ matrix <T, Allocator> matrix <T, Allocator>::left(size_t sizet_left) const
     }
     else
     {
+        SUSA_ASSERT(sizet_cols >= sizet_left);
         mat_ret = matrix <T, Allocator> (sizet_rows,sizet_left);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
             for (size_t sizet_col = 0; sizet_col < sizet_cols && sizet_col < sizet_left; sizet_col++)
@@ -848,6 +849,7 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
     }
     else
     {
+        SUSA_ASSERT(sizet_cols >= sizet_right);
         size_t sz_start = sizet_cols - sizet_right;
         mat_ret = matrix <T, Allocator> (sizet_rows, sizet_right);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
-- 
2.43.0


From 3dfa869d1d31b0bdfb58815dc90b9bf57dc506b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 40/43] fix: count an allocation only after it succeeded

---
 inc/susa/memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/memory.h b/inc/susa/memory.h
index e0d6be2..cdde7cc 100644
--- a/inc/susa/memory.h
+++ b/inc/susa/memory.h
@@ -105,8 +105,8 @@ template <typename T> class allocator_log : public std::allocator<T>
          */
         pointer allocate(size_type size, const void *hint = 0)
         {
-            memory_tacker::instance().add(size * sizeof(T));
             pointer ptr = base::allocate(size, hint);
+            memory_tacker::instance().add(size * sizeof(T));
             SUSA_LOG_INF("allocate " << size * sizeof(T) << " bytes. pointer (" << ptr << ")");
             return ptr;
         }
-- 
2.43.0


From bf11ab0434a734cbfec44c89694083d09f9e2da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 41/43] fix: do not leak the default element when the storage
 of an array cannot be allocated

---
 inc/susa/array.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index cc60655..9ee5214 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -33,6 +33,7 @@
 #ifndef SUSA_ARRAY_H
 #define SUSA_ARRAY_H
 
+#include <memory>
 #include <susa/debug.h>
 #include <susa/memory.h>
 
@@ -121,7 +122,7 @@ namespace susa
     std::vector<size_t> vec_dims;
     size_t uint_total;
     size_t uint_num_dims;
-    T *T_default;
+    std::unique_ptr<T> T_default;
 
     T T_get_value;
 
@@ -187,10 +188,9 @@ namespace susa
     vec_dims        = arg.vec_dims;
     uint_num_dims   = vec_dims.size();
 
-    T_default          = arg.T_default;
+    T_default       = std::move(arg.T_default);
     _matrix         = arg._matrix;
   
-    arg.T_default      = nullptr;
     arg._matrix     = nullptr;
     arg.uint_total  = 0;
   }
@@ -228,7 +228,6 @@ namespace susa
   template <typename T, typename Allocator>
   array<T, Allocator>::~array() noexcept
   {
-    if (T_default != nullptr) delete T_default;
     if (_matrix != nullptr) alloc.deallocate(_matrix, uint_total);
   }
 
-- 
2.43.0


From c80b3f9a4758ad48d3f6b9fd1026f37a53254bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:00 +0000
Subject: [PATCH 42/43] fix: keep left, right and mid inside the matrix when
 assertions are compiled out

---
 inc/susa/matrix.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 278ef58..0871841 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -803,6 +803,7 @@ matrix <T, Allocator> matrix <T, Allocator>::left(size_t sizet_left) const
     if (is_vector())
     {
         SUSA_ASSERT(sizet_objects >= sizet_left);
+        if (sizet_left > sizet_objects) return mat_ret;
 
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sizet_left);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sizet_left,1);
@@ -815,6 +816,7 @@ matrix <T, Allocator> matrix <T, Allocator>::left(size_t sizet_left) const
     else
     {
         SUSA_ASSERT(sizet_cols >= sizet_left);
+        if (sizet_left > sizet_cols) return mat_ret;
         mat_ret = matrix <T, Allocator> (sizet_rows,sizet_left);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
             for (size_t sizet_col = 0; sizet_col < sizet_cols && sizet_col < sizet_left; sizet_col++)
@@ -836,6 +838,7 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
     if (is_vector())
     {
         SUSA_ASSERT(sizet_objects >= sizet_right);
+        if (sizet_right > sizet_objects) return mat_ret;
 
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sizet_right);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sizet_right,1);
@@ -850,6 +853,7 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
     else
     {
         SUSA_ASSERT(sizet_cols >= sizet_right);
+        if (sizet_right > sizet_cols) return mat_ret;
         size_t sz_start = sizet_cols - sizet_right;
         mat_ret = matrix <T, Allocator> (sizet_rows, sizet_right);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
@@ -876,7 +880,7 @@ matrix <T, Allocator> matrix <T, Allocator>::mid(size_t sizet_begin, size_t size
     if (is_vector())
     {
         SUSA_ASSERT(sizet_objects > sizet_begin && sizet_objects > sizet_end);
-        if (sizet_begin > sizet_objects || sizet_end > sizet_objects) return mat_ret;
+        if (sizet_begin >= sizet_objects || sizet_end >= sizet_objects) return mat_ret;
 
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sz_width);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sz_width,1);
@@ -890,7 +894,7 @@ matrix <T, Allocator> matrix <T, Allocator>::mid(size_t sizet_begin, size_t size
     else
     {
         SUSA_ASSERT(sizet_cols > sizet_begin && sizet_cols > sizet_end);
-        if (sizet_begin > sizet_cols || sizet_end > sizet_cols) return mat_ret;
+        if (sizet_begin >= sizet_cols || sizet_end >= sizet_cols) return mat_ret;
 
         mat_ret = matrix <T, Allocator> (sizet_rows, sz_width);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
-- 
2.43.0


From 7f2f6c19730c8186fabafa275be132a81bc35df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 43/43] fix: reading a matrix out of range stays inside it when
 assertions are compiled out

---
 inc/susa/matrix.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 0871841..e009c87 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -529,6 +529,8 @@ template <typename T, typename Allocator> T matrix <T, Allocator>::get( size_t s
 
   SUSA_ASSERT_MESSAGE(sizet_row < sizet_rows && sizet_col < sizet_cols, "one or more indices is/are out of range.");
 
+  if (_matrix == nullptr || sizet_row >= sizet_rows || sizet_col >= sizet_cols) return T();
+
   return _matrix[get_lindex(sizet_row,sizet_col)];
 }
 
@@ -538,6 +540,8 @@ template <typename T, typename Allocator> T matrix <T, Allocator>::get( size_t s
 
   SUSA_ASSERT_MESSAGE(sizet_elem < this->sizet_objects, "the element index is out of range.");
 
+  if (_matrix == nullptr || sizet_elem >= this->sizet_objects) return T();
+
   return this->_matrix[sizet_elem];
 }
 
-- 
2.43.0

