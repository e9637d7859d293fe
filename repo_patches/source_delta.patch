From 5a4e60465be28e97b053bbc0278fe270e6f84285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 01/77] fix: array reverse wrote one element past the end of
 out and left the first unset

---
 source/c-precompiled/sph-sp/arrays-template.c | 2 +-
 source/sc/sph-sp/arrays-template.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index edd31bb..5a464ae 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -49,7 +49,7 @@
   } \
   void sp_##type_name##_reverse(value_t* in, sp_size_t count, value_t* out) { \
     for (sp_size_t i = 0; (i < count); i += 1) { \
-      out[(count - i)] = in[i]; \
+      out[(count - (1 + i))] = in[i]; \
     }; \
   } \
   sp_bool_t sp_##type_name##_equal(value_t* in, sp_size_t count, value_t value) { \
diff --git a/source/sc/sph-sp/arrays-template.sc b/source/sc/sph-sp/arrays-template.sc
index 7428536..a6a14dc 100644
--- a/source/sc/sph-sp/arrays-template.sc
+++ b/source/sc/sph-sp/arrays-template.sc
@@ -35,7 +35,7 @@
         (if (> temp max) (set max temp)))
       (return max))
     (define ((pre-concat sp_ type-name _reverse) in count out) (void value-t* sp-size-t value-t*)
-      (sp-for-each-index i count (set (array-get out (- count i)) (array-get in i))))
+      (sp-for-each-index i count (set (array-get out (- count (+ 1 i))) (array-get in i))))
     (define ((pre-concat sp_ type-name _equal) in count value)
       (sp-bool-t value-t* sp-size-t value-t)
       (sp-for-each-index i count (if (not (= value (array-get in i))) (return 0)))
-- 
2.43.0


From e7ebe83789fa082f56dcc00f5c9e3ce0254ed3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 02/77] fix: samples_absolute_max truncated sample values to
 integers

---
 source/c-precompiled/sph-sp/arrays-template.c | 4 ++--
 source/sc/sph-sp/arrays-template.sc           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index 5a464ae..df1877f 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -36,8 +36,8 @@
 \
   /** get the maximum value in samples array, disregarding sign */ \
   value_t sp_##type_name##_absolute_max(value_t* in, sp_size_t count) { \
-    sp_time_t temp; \
-    sp_time_t max; \
+    value_t temp; \
+    value_t max; \
     max = 0; \
     for (sp_size_t i = 0; (i < count); i += 1) { \
       temp = sp_inline_abs((in[i])); \
diff --git a/source/sc/sph-sp/arrays-template.sc b/source/sc/sph-sp/arrays-template.sc
index a6a14dc..8b0d17d 100644
--- a/source/sc/sph-sp/arrays-template.sc
+++ b/source/sc/sph-sp/arrays-template.sc
@@ -28,7 +28,7 @@
       (return out))
     (define ((pre-concat sp_ type-name _absolute-max) in count) (value-t value-t* sp-size-t)
       "get the maximum value in samples array, disregarding sign"
-      (declare temp sp-time-t max sp-time-t)
+      (declare temp value-t max value-t)
       (set max 0)
       (sp-for-each-index i count
         (set temp (sp-inline-abs (array-get in i)))
-- 
2.43.0


From 7a9749d6051ae779e5f4c598d7b8bb759d321cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 03/77] fix: logical and of arrays did not check the second
 array against the limit

---
 source/c-precompiled/sph-sp/arrays-template.c | 2 +-
 source/sc/sph-sp/arrays-template.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index df1877f..eed03e3 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -150,7 +150,7 @@
   /** if a[i] and b[i] greater than limit, take b[i] else 0 */ \
   void sp_##type_name##_and_##type_name(value_t* a, value_t* b, sp_size_t count, value_t limit, value_t* out) { \
     for (sp_size_t i = 0; (i < count); i += 1) { \
-      if ((a[i] >= limit) && (a[i] >= limit)) { \
+      if ((a[i] >= limit) && (b[i] >= limit)) { \
         out[i] = b[i]; \
       } else { \
         out[i] = 0; \
diff --git a/source/sc/sph-sp/arrays-template.sc b/source/sc/sph-sp/arrays-template.sc
index 8b0d17d..560dbbe 100644
--- a/source/sc/sph-sp/arrays-template.sc
+++ b/source/sc/sph-sp/arrays-template.sc
@@ -103,7 +103,7 @@
       (void value-t* value-t* sp-size-t value-t value-t*)
       "if a[i] and b[i] greater than limit, take b[i] else 0"
       (sp-for-each-index i count
-        (if (and (>= (array-get a i) limit) (>= (array-get a i) limit))
+        (if (and (>= (array-get a i) limit) (>= (array-get b i) limit))
           (set (array-get out i) (array-get b i))
           (set (array-get out i) 0))))
     (define ((pre-concat sp_ type-name _or_ type-name) a b count limit out)
-- 
2.43.0


From 9c7f4fab08b227ac6b323d38ecacbf6717e49e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 04/77] fix: samples_swap and shuffle exchanged half samples

---
 source/c-precompiled/sph-sp/arrays-template.c | 4 ++--
 source/c-precompiled/sph-sp/arrays-template.h | 2 +-
 source/sc/sph-sp/arrays-template.h.sc         | 2 +-
 source/sc/sph-sp/arrays-template.sc           | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index eed03e3..2089376 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -107,8 +107,8 @@
       out[i] = sum; \
     }; \
   } \
-  void sp_##type_name##_swap(sp_time_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2) { \
-    sp_time_t temp = in_out[index_1]; \
+  void sp_##type_name##_swap(value_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2) { \
+    value_t temp = in_out[index_1]; \
     in_out[index_1] = in_out[index_2]; \
     in_out[index_2] = temp; \
   } \
diff --git a/source/c-precompiled/sph-sp/arrays-template.h b/source/c-precompiled/sph-sp/arrays-template.h
index 6c30c35..a48cf30 100644
--- a/source/c-precompiled/sph-sp/arrays-template.h
+++ b/source/c-precompiled/sph-sp/arrays-template.h
@@ -17,7 +17,7 @@
   status_t sp_##type_name##_new(sp_size_t count, value_t** out); \
   void sp_##type_name##_copy(value_t* in, sp_size_t count, value_t* out); \
   void sp_##type_name##_cusum(value_t* in, value_t count, value_t* out); \
-  void sp_##type_name##_swap(sp_time_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2); \
+  void sp_##type_name##_swap(value_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2); \
   void sp_##type_name##_shuffle(value_t* in, sp_size_t count); \
   void sp_##type_name##_array_free(value_t** in, sp_size_t count); \
   void sp_##type_name##_additions(value_t start, value_t summand, value_t count, value_t* out); \
diff --git a/source/sc/sph-sp/arrays-template.h.sc b/source/sc/sph-sp/arrays-template.h.sc
index 8b4088e..d7896f4 100644
--- a/source/sc/sph-sp/arrays-template.h.sc
+++ b/source/sc/sph-sp/arrays-template.h.sc
@@ -17,7 +17,7 @@
     ((pre-concat sp_ type-name _new) count out) (status-t sp-size-t value-t**)
     ((pre-concat sp_ type-name _copy) in count out) (void value-t* sp-size-t value-t*)
     ((pre-concat sp_ type-name _cusum) in count out) (void value-t* value-t value-t*)
-    ((pre-concat sp_ type-name _swap) in-out index-1 index-2) (void sp-time-t* sp-ssize-t sp-ssize-t)
+    ((pre-concat sp_ type-name _swap) in-out index-1 index-2) (void value-t* sp-ssize-t sp-ssize-t)
     ((pre-concat sp_ type-name _shuffle) in count) (void value-t* sp-size-t)
     ((pre-concat sp_ type-name _array-free) in count) (void value-t** sp-size-t)
     ((pre-concat sp_ type-name _additions) start summand count out)
diff --git a/source/sc/sph-sp/arrays-template.sc b/source/sc/sph-sp/arrays-template.sc
index 560dbbe..f89a1ab 100644
--- a/source/sc/sph-sp/arrays-template.sc
+++ b/source/sc/sph-sp/arrays-template.sc
@@ -68,8 +68,8 @@
         (set+ sum (array-get in i))
         (set (array-get out i) sum)))
     (define ((pre-concat sp_ type-name _swap) in-out index-1 index-2)
-      (void sp-time-t* sp-ssize-t sp-ssize-t)
-      (define temp sp-time-t (array-get in-out index-1))
+      (void value-t* sp-ssize-t sp-ssize-t)
+      (define temp value-t (array-get in-out index-1))
       (set (array-get in-out index-1) (array-get in-out index-2) (array-get in-out index-2) temp))
     (define ((pre-concat sp_ type-name _shuffle) in count) (void value-t* sp-size-t)
       (sp-shuffle
-- 
2.43.0


From ead8f46a818dbf34e14875af44df7ef0aeaba92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 05/77] fix: times_scale_sum scaled the previous content of out
 instead of in

---
 source/c-precompiled/sph-sp/arrays.c | 2 +-
 source/sc/sph-sp/arrays.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 84d7d77..e59f4e9 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -308,7 +308,7 @@ void sp_times_shuffle_swap(void* a, sp_size_t i1, sp_size_t i2) {
 void sp_times_scale_sum(sp_time_t* in, sp_size_t count, sp_time_t sum, sp_time_t* out) {
   sp_sample_t factor = (((sp_sample_t)(sum)) / sp_times_sum(in, count));
   for (sp_size_t i = 0; (i < count); i += 1) {
-    out[i] = sp_cheap_round_positive((out[i] * factor));
+    out[i] = sp_cheap_round_positive((in[i] * factor));
   };
 }
 
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 43fb45c..7f5ce11 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -220,7 +220,7 @@
    a/out can be the same pointer"
   (define factor sp-sample-t (/ (convert-type sum sp-sample-t) (sp-times-sum in count)))
   (sp-for-each-index i count
-    (set (array-get out i) (sp-cheap-round-positive (* (array-get out i) factor)))))
+    (set (array-get out i) (sp-cheap-round-positive (* (array-get in i) factor)))))
 
 (define (sp-times-multiplications start factor count out)
   (void sp-time-t sp-time-t sp-time-t sp-time-t*)
-- 
2.43.0


From b64285492a9df24dad87da97b15ccb70346da34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 06/77] fix: times_scale_y used an integer factor, changed in
 and ignored out

---
 source/c-precompiled/sph-sp/arrays.c | 6 ++++--
 source/sc/sph-sp/arrays.sc           | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index e59f4e9..3b2b07b 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -421,8 +421,10 @@ void sp_times_limit(sp_time_t* a, sp_time_t count, sp_time_t n, sp_time_t* out)
 /** adjust all values, keeping relative sizes, so that the maximum value is target_y.
    a/out can be the same pointer */
 void sp_times_scale_y(sp_time_t* in, sp_size_t count, sp_time_t target_y, sp_time_t* out) {
-  sp_time_t max = sp_times_absolute_max(in, count);
-  sp_times_multiply(in, count, (target_y / max));
+  sp_sample_t factor = (((sp_sample_t)(target_y)) / sp_times_absolute_max(in, count));
+  for (sp_size_t i = 0; (i < count); i += 1) {
+    out[i] = sp_cheap_round_positive((in[i] * factor));
+  };
 }
 
 /** remove count subsequent elements at index from in and write the result to out */
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 7f5ce11..50be656 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -306,8 +306,9 @@
 (define (sp-times-scale-y in count target-y out) (void sp-time-t* sp-size-t sp-time-t sp-time-t*)
   "adjust all values, keeping relative sizes, so that the maximum value is target_y.
    a/out can be the same pointer"
-  (define max sp-time-t (sp-times-absolute-max in count))
-  (sp-times-multiply in count (/ target-y max)))
+  (define factor sp-sample-t (/ (convert-type target-y sp-sample-t) (sp-times-absolute-max in count)))
+  (sp-for-each-index i count
+    (set (array-get out i) (sp-cheap-round-positive (* (array-get in i) factor)))))
 
 (define (sp-times-remove in size index count out)
   (void sp-time-t* sp-time-t sp-time-t sp-time-t sp-time-t*)
-- 
2.43.0


From 08a75802f3cbc29935bb7030de25ed7c87a43dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 07/77] fix: samples_scale_y scaled to the element count
 instead of the target

---
 source/c-precompiled/sph-sp/arrays.c | 2 +-
 source/sc/sph-sp/arrays.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 3b2b07b..94d0c9b 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -552,7 +552,7 @@ void sp_samples_divisions(sp_sample_t start, sp_sample_t divisor, sp_time_t coun
    a/out can be the same pointer */
 void sp_samples_scale_y(sp_sample_t* in, sp_time_t count, sp_sample_t target_y) {
   sp_sample_t max = sp_samples_absolute_max(in, count);
-  sp_samples_multiply(in, count, (count / max));
+  sp_samples_multiply(in, count, (target_y / max));
 }
 
 /** adjust all values, keeping relative sizes, so that the sum is n.
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 50be656..e5c4441 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -409,7 +409,7 @@
   "adjust all values, keeping relative sizes, so that the maximum value is target_y.
    a/out can be the same pointer"
   (define max sp-sample-t (sp-samples-absolute-max in count))
-  (sp-samples-multiply in count (/ count max)))
+  (sp-samples-multiply in count (/ target-y max)))
 
 (define (sp-samples-scale-sum in count target-y out)
   (void sp-sample-t* sp-size-t sp-sample-t sp-sample-t*)
-- 
2.43.0


From 9fda8f36e6eefde5ea9a3c58543a761feece0209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 08/77] fix: samples_scale_sum changed in and ignored out

---
 source/c-precompiled/sph-sp/arrays.c | 6 ++++--
 source/sc/sph-sp/arrays.sc           | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 94d0c9b..624d3e9 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -558,8 +558,10 @@ void sp_samples_scale_y(sp_sample_t* in, sp_time_t count, sp_sample_t target_y)
 /** adjust all values, keeping relative sizes, so that the sum is n.
    a/out can be the same pointer */
 void sp_samples_scale_sum(sp_sample_t* in, sp_size_t count, sp_sample_t target_y, sp_sample_t* out) {
-  sp_sample_t sum = sp_samples_sum(in, count);
-  sp_samples_multiply(in, count, (target_y / sum));
+  sp_sample_t factor = (target_y / sp_samples_sum(in, count));
+  for (sp_size_t i = 0; (i < count); i += 1) {
+    out[i] = (in[i] * factor);
+  };
 }
 
 /** interpolate values pointwise between $a and $b with fraction as a fixed interpolation distance 0..1 */
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index e5c4441..6f7859f 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -415,8 +415,8 @@
   (void sp-sample-t* sp-size-t sp-sample-t sp-sample-t*)
   "adjust all values, keeping relative sizes, so that the sum is n.
    a/out can be the same pointer"
-  (define sum sp-sample-t (sp-samples-sum in count))
-  (sp-samples-multiply in count (/ target-y sum)))
+  (define factor sp-sample-t (/ target-y (sp-samples-sum in count)))
+  (sp-for-each-index i count (set (array-get out i) (* (array-get in i) factor))))
 
 (define (sp-samples-blend a b fraction size out)
   (void sp-sample-t* sp-sample-t* sp-sample-t sp-time-t sp-sample-t*)
-- 
2.43.0


From 855431fec87e32b210447d406cdc4cf4fcbaf959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 09/77] fix: times_extract_in_range returned values outside of
 the range

---
 source/c-precompiled/sph-sp/arrays.c | 4 ++--
 source/sc/sph-sp/arrays.sc           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 624d3e9..ee38a1d 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -374,8 +374,8 @@ void sp_times_mask(sp_time_t* a, sp_time_t* b, sp_sample_t* coefficients, sp_tim
 void sp_times_extract_in_range(sp_time_t* a, sp_time_t size, sp_time_t min, sp_time_t max, sp_time_t* out, sp_time_t* out_size) {
   *out_size = 0;
   for (sp_size_t i = 0; (i < size); i += 1) {
-    if ((a[i] <= max) || (a[i] >= min)) {
-      out[i] = a[i];
+    if ((a[i] <= max) && (a[i] >= min)) {
+      out[*out_size] = a[i];
       *out_size += 1;
     };
   };
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 6f7859f..dcc4333 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -274,8 +274,8 @@
   "extract values between min/max inclusive and write to out"
   (set *out-size 0)
   (sp-for-each-index i size
-    (if (or (<= (array-get a i) max) (>= (array-get a i) min))
-      (begin (set (array-get out i) (array-get a i)) (set+ *out-size 1)))))
+    (if (and (<= (array-get a i) max) (>= (array-get a i) min))
+      (begin (set (array-get out *out-size) (array-get a i)) (set+ *out-size 1)))))
 
 (define (sp-times-make-seamless-right a a-count b b-count out)
   (void sp-time-t* sp-time-t sp-time-t* sp-time-t sp-time-t*)
-- 
2.43.0


From e60fa8e447e9f9f481195c56aa0aa2d2034dfb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 10/77] fix: times_permutations overwrote the set with zeros
 instead of permuting it

---
 source/c-precompiled/sph-sp/arrays.c | 4 ++--
 source/sc/sph-sp/arrays.sc           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index ee38a1d..57c7f9c 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -85,8 +85,8 @@ status_t sp_times_permutations(sp_time_t size, sp_time_t* set, sp_time_t set_siz
   srq((sp_times_new(size, (&b))));
   temp_out[0] = b;
   temp_out_used_size = 1;
-  sp_times_copy(a, size, set);
-  sp_times_copy(b, size, a);
+  sp_times_copy(set, size, a);
+  sp_times_copy(a, size, b);
   while ((i < size)) {
     if (s[i] < i) {
       if (i & 1) {
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index dcc4333..b8a35f0 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -66,8 +66,8 @@
   (srq (sp-calloc-type temp-out-size sp-time-t* &temp-out))
   (srq (sp-times-new size &b))
   (set (array-get temp-out 0) b temp-out-used-size 1)
-  (sp-times-copy a size set)
-  (sp-times-copy b size a)
+  (sp-times-copy set size a)
+  (sp-times-copy a size b)
   (while (< i size)
     (if (< (array-get s i) i)
       (begin
-- 
2.43.0


From bbf49fb4aeb6729dcc28f2f6efb69711d7d1bfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 11/77] fix: permutations_max divided by the difference instead
 of its factorial

---
 source/c-precompiled/sph-sp/main.c | 8 +++++++-
 source/sc/sph-sp/main.sc           | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 2e62223..b6eebae 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -552,5 +552,11 @@ sp_time_t sp_time_factorial(sp_time_t n) {
 
 /** return the maximum number of possible distinct selections from a set of length "set-size" */
 sp_size_t sp_set_sequence_max(sp_size_t set_size, sp_size_t selection_size) { return (((0 == set_size) ? 0 : sp_time_expt(set_size, selection_size))); }
-sp_size_t sp_permutations_max(sp_size_t set_size, sp_size_t selection_size) { return ((sp_time_factorial(set_size) / (set_size - selection_size))); }
+sp_size_t sp_permutations_max(sp_size_t set_size, sp_size_t selection_size) {
+  sp_size_t result = 1;
+  for (sp_size_t i = 0; (i < selection_size); i += 1) {
+    result *= (set_size - i);
+  };
+  return (result);
+}
 sp_size_t sp_compositions_max(sp_size_t sum) { return ((sp_time_expt(2, (sum - 1)))); }
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 946b16c..a2e2cae 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -429,6 +429,8 @@
   (return (if* (= 0 set-size) 0 (sp-time-expt set-size selection-size))))
 
 (define (sp-permutations-max set-size selection-size) (sp-size-t sp-size-t sp-size-t)
-  (return (/ (sp-time-factorial set-size) (- set-size selection-size))))
+  (define result sp-size-t 1)
+  (sp-for-each-index i selection-size (set* result (- set-size i)))
+  (return result))
 
 (define (sp-compositions-max sum) (sp-size-t sp-size-t) (return (sp-time-expt 2 (- sum 1))))
\ No newline at end of file
-- 
2.43.0


From 6ab4d74e22b116dc6e56462735c35d98e03e9fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:42 +0000
Subject: [PATCH 12/77] fix: quicksort read elements before and after the array

---
 source/c/foreign/sph-sc-lib/sph-sp/quicksort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h b/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
index f6438c8..d81c385 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
@@ -12,7 +12,7 @@ void quicksort(uint8_t (*less_p)(void*, ssize_t, ssize_t), void (*swap)(void*, s
   ssize_t pivot = (left + ((right - left) / 2));
   ssize_t l = left;
   ssize_t r = right;
-  while (1) {
+  while (l <= r) {
     while (less_p(array, l, pivot)) {
       l = (1 + l);
     };
-- 
2.43.0


From 3704ff7a699bb685e4aae97a1c372370dee71fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 13/77] fix: median of odd sizes used a wrong element, even
 sizes overflowed and the copy leaked

---
 source/c-precompiled/sph-sp/statistics.c | 3 ++-
 source/sc/sph-sp/statistics.sc           | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index 190ce7d..01ee09b 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -86,7 +86,8 @@
     }; \
     memcpy(temp, a, (size * sizeof(value_t))); \
     quicksort(sort_less, sort_swap, temp, 0, (size - 1)); \
-    *out = ((size & 1) ? temp[((size / 2) - 1)] : ((temp[(size / 2)] + temp[((size / 2) - 1)]) / 2.0)); \
+    *out = ((size & 1) ? temp[(size / 2)] : ((temp[(size / 2)] + ((sp_sample_t)(temp[((size / 2) - 1)]))) / 2.0)); \
+    free(temp); \
     return (0); \
   }
 #define define_sp_stat_inharmonicity(name, value_t) \
diff --git a/source/sc/sph-sp/statistics.sc b/source/sc/sph-sp/statistics.sc
index 5260cd7..528a3a3 100644
--- a/source/sc/sph-sp/statistics.sc
+++ b/source/sc/sph-sp/statistics.sc
@@ -46,8 +46,12 @@
     (memcpy temp a (* size (sizeof value-t)))
     (quicksort sort-less sort-swap temp 0 (- size 1))
     (set *out
-      (if* (bit-and size 1) (array-get temp (- (/ size 2) 1))
-        (/ (+ (array-get temp (/ size 2)) (array-get temp (- (/ size 2) 1))) 2.0)))
+      (if* (bit-and size 1) (array-get temp (/ size 2))
+        (/
+          (+ (array-get temp (/ size 2))
+            (convert-type (array-get temp (- (/ size 2) 1)) sp-sample-t))
+          2.0)))
+    (free temp)
     (return 0))
   (define-sp-stat-inharmonicity name value-t)
   (define (name a size out) (uint8-t value-t* sp-time-t sp-sample-t*)
-- 
2.43.0


From e21c4a96f51e15b6aa67d2c05344b83138cd45e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 14/77] fix: mean and center of times overflowed for large sums

---
 source/c-precompiled/sph-sp/statistics.c | 12 ++++++------
 source/sc/sph-sp/statistics.sc           | 11 ++++++-----
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index 01ee09b..6c01511 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -145,25 +145,25 @@ sp_time_t sp_stat_repetition_max(sp_time_t size, sp_time_t width) { return ((sp_
    the weighted position coordinates of the distributed mass defines its coordinates.
    sum(n * x(n)) / sum(x(n)) */
 uint8_t sp_stat_times_center(sp_time_t* a, sp_time_t size, sp_sample_t* out) {
-  sp_time_t sum;
-  sp_time_t index_sum;
+  sp_sample_t sum;
+  sp_sample_t index_sum;
   index_sum = 0;
   sum = a[0];
   for (sp_size_t i = 0; (i < size); i += 1) {
     sum += a[i];
-    index_sum += (i * a[i]);
+    index_sum += (i * ((sp_sample_t)(a[i])));
   };
-  *out = (index_sum / ((sp_sample_t)(sum)));
+  *out = (index_sum / sum);
   return (0);
 }
 define_sp_stat_range(sp_stat_times_range, sp_time_t)
   uint8_t sp_stat_times_mean(sp_time_t* a, sp_time_t size, sp_sample_t* out) {
-  sp_time_t sum;
+  sp_sample_t sum;
   sum = 0;
   for (sp_size_t i = 0; (i < size); i += 1) {
     sum += a[i];
   };
-  *out = (sum / ((sp_sample_t)(size)));
+  *out = (sum / size);
   return (0);
 }
 define_sp_stat_deviation(sp_stat_times_deviation, sp_stat_times_mean, sp_time_t)
diff --git a/source/sc/sph-sp/statistics.sc b/source/sc/sph-sp/statistics.sc
index 528a3a3..d91e34b 100644
--- a/source/sc/sph-sp/statistics.sc
+++ b/source/sc/sph-sp/statistics.sc
@@ -100,19 +100,20 @@
   "center of mass. the distribution of mass is balanced around the center of mass, and the average of
    the weighted position coordinates of the distributed mass defines its coordinates.
    sum(n * x(n)) / sum(x(n))"
-  (declare sum sp-time-t index-sum sp-time-t)
+  (declare sum sp-sample-t index-sum sp-sample-t)
   (set index-sum 0 sum (array-get a 0))
-  (sp-for-each-index i size (set+ sum (array-get a i) index-sum (* i (array-get a i))))
-  (set *out (/ index-sum (convert-type sum sp-sample-t)))
+  (sp-for-each-index i size
+    (set+ sum (array-get a i) index-sum (* i (convert-type (array-get a i) sp-sample-t))))
+  (set *out (/ index-sum sum))
   (return 0))
 
 (define-sp-stat-range sp-stat-times-range sp-time-t)
 
 (define (sp-stat-times-mean a size out) (uint8-t sp-time-t* sp-time-t sp-sample-t*)
-  (declare sum sp-time-t)
+  (declare sum sp-sample-t)
   (set sum 0)
   (sp-for-each-index i size (set+ sum (array-get a i)))
-  (set *out (/ sum (convert-type size sp-sample-t)))
+  (set *out (/ sum size))
   (return 0))
 
 (define-sp-stat-deviation sp-stat-times-deviation sp-stat-times-mean sp-time-t)
-- 
2.43.0


From 5d0242179bc64b1dcec610b3d3e604a024e7bdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 15/77] fix: samples_scale_to_times exceeded the maximum for
 inputs above zero

---
 source/c-precompiled/sph-sp/statistics.c | 2 +-
 source/sc/sph-sp/statistics.sc           | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index 6c01511..e9936ed 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -197,7 +197,7 @@ define_sp_stat_range(sp_stat_samples_range, sp_sample_t)
   sp_stat_samples_range(a, size, range);
   addition = ((0 > range[0]) ? fabs((range[0])) : 0);
   for (sp_size_t i = 0; (i < size); i += 1) {
-    out[i] = sp_cheap_round_positive(((a[i] + addition) * (max / range[2])));
+    out[i] = sp_cheap_round_positive(((a[i] + addition) * (max / (range[1] + addition))));
   };
 }
 uint8_t sp_stat_samples_mean(sp_sample_t* a, sp_time_t size, sp_sample_t* out) {
diff --git a/source/sc/sph-sp/statistics.sc b/source/sc/sph-sp/statistics.sc
index d91e34b..92c4cb4 100644
--- a/source/sc/sph-sp/statistics.sc
+++ b/source/sc/sph-sp/statistics.sc
@@ -143,7 +143,8 @@
   (set addition (if* (> 0 (array-get range 0)) (fabs (array-get range 0)) 0))
   (sp-for-each-index i size
     (set (array-get out i)
-      (sp-cheap-round-positive (* (+ (array-get a i) addition) (/ max (array-get range 2)))))))
+      (sp-cheap-round-positive
+        (* (+ (array-get a i) addition) (/ max (+ (array-get range 1) addition)))))))
 
 (define (sp-stat-samples-mean a size out) (uint8-t sp-sample-t* sp-time-t sp-sample-t*)
   (set *out (/ (sp-samples-sum a size) size))
-- 
2.43.0


From c26d62cd72ec2ed3752c74a1f885edef7b6ce622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:42 +0000
Subject: [PATCH 16/77] fix: failed allocations were reported as success

---
 source/c/foreign/sph-sc-lib/sph-sp/helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/helper.h b/source/c/foreign/sph-sc-lib/sph-sp/helper.h
index c10b6c2..25dcb7f 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/helper.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/helper.h
@@ -4,7 +4,7 @@
 
 /* depends on status.h */
 #include <inttypes.h>
-enum { sph_helper_status_id_memory };
+enum { sph_helper_status_id_memory = 1 };
 #define sph_helper_status_group ((uint8_t*)("sph"))
 
 /** add explicit type cast to prevent compiler warning */
-- 
2.43.0


From 6331bc0637e4ef5a8835d38bb72fff6fbd81d9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:49 +0000
Subject: [PATCH 17/77] fix: description and name of helper statuses returned
 no value

---
 source/c/foreign/sph-sc-lib/sph-sp/helper.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/helper.c b/source/c/foreign/sph-sc-lib/sph-sp/helper.c
index f44fab7..000fed4 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/helper.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/helper.c
@@ -9,6 +9,7 @@ uint8_t* sph_helper_status_description(status_t a) {
   } else {
     b = "";
   };
+  return (b);
 }
 uint8_t* sph_helper_status_name(status_t a) {
   uint8_t* b;
@@ -17,6 +18,7 @@ uint8_t* sph_helper_status_name(status_t a) {
   } else {
     b = "unknown";
   };
+  return (b);
 }
 
 /** allocation helpers use status-t and have the same interface */
-- 
2.43.0


From 39638fa4aad76956dee6bb5bcb91ab696679eb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 18/77] fix: status_name did not know the errors of the
 allocation helpers

---
 source/c-precompiled/sph-sp/main.c | 2 ++
 source/sc/sph-sp/main.sc           | 1 +
 2 files changed, 3 insertions(+)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index b6eebae..bdb7263 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -120,6 +120,8 @@ uint8_t* sp_status_name(status_t a) {
     } else {
       b = "unknown";
     };
+  } else if (!strcmp(sp_s_group_sph, (a.group))) {
+    b = sph_helper_status_name(a);
   } else {
     b = "unknown";
   };
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index a2e2cae..13f5961 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -77,6 +77,7 @@
         (sp-s-id-file-eof (set b "end-of-file"))
         (sp-s-id-invalid-argument (set b "invalid-argument"))
         (else (set b "unknown"))))
+    ((not (strcmp sp-s-group-sph a.group)) (set b (sph-helper-status-name a)))
     (else (set b "unknown")))
   (return b))
 
-- 
2.43.0


From ae0343fed98b720ba86162a07eaecfefac8d2e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 19/77] fix: sine periods of odd sizes did not fit into the
 size

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 source/sc/sph-sp/main.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index bdb7263..4c16626 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -192,7 +192,7 @@ sp_time_t sp_phase_float(sp_time_t current, sp_sample_t change, sp_time_t cycle)
    can be used to create lookup tables */
 void sp_sine_period(sp_time_t size, sp_sample_t* out) {
   for (sp_size_t i = 0; (i < size); i += 1) {
-    out[i] = sin((i * (M_PI / (size / 2))));
+    out[i] = sin((i * (M_PI / (size / 2.0))));
   };
 }
 
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 13f5961..907bd04 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -123,7 +123,7 @@
 (define (sp-sine-period size out) (void sp-time-t sp-sample-t*)
   "writes one full period of a sine wave into out. the sine has the frequency that makes it fit exactly into size.
    can be used to create lookup tables"
-  (sp-for-each-index i size (set (array-get out i) (sin (* i (/ M_PI (/ size 2)))))))
+  (sp-for-each-index i size (set (array-get out i) (sin (* i (/ M_PI (/ size 2.0)))))))
 
 (define (sp-wave size wvf wvf-size amp amod frq fmod phs-state out)
   (void sp-time-t sp-sample-t* sp-time-t sp-sample-t sp-sample-t* sp-time-t sp-time-t* sp-time-t* sp-sample-t*)
-- 
2.43.0


From ab7fbd2e60198c14e78719f35a6d2124ca85f50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:56 +0000
Subject: [PATCH 20/77] fix: pan_to_amp returned wrong factors for channels
 above the first two

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 source/sc/sph-sp/main.sc           | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 4c16626..bd87f6a 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -475,7 +475,7 @@ sp_sample_t sp_square(sp_time_t t, sp_time_t size) { return (((((2 * t) % (2 * s
    1: first channel muted
    0.75: first channel 50%
    0.25: second channel 50% */
-sp_sample_t sp_pan_to_amp(sp_sample_t value, sp_channel_count_t channel) { return (((1 & channel) ? (sp_inline_limit(value, (channel - 1), (channel - 0.5)) / 0.5) : (1 - ((sp_inline_limit(value, (channel + 0.5), (channel + 1)) - 0.5) / 0.5)))); }
+sp_sample_t sp_pan_to_amp(sp_sample_t value, sp_channel_count_t channel) { return (((1 & channel) ? ((sp_inline_limit(value, (channel - 1), (channel - 0.5)) - (channel - 1)) / 0.5) : (1 - ((sp_inline_limit(value, (channel + 0.5), (channel + 1)) - (channel + 0.5)) / 0.5)))); }
 
 /** untested. return normally distributed numbers in range */
 sp_time_t sp_normal_random(sp_time_t min, sp_time_t max) {
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 907bd04..7f3ba80 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -372,8 +372,8 @@
    0.75: first channel 50%
    0.25: second channel 50%"
   (return
-    (if* (bit-and 1 channel) (/ (sp-inline-limit value (- channel 1) (- channel 0.5)) 0.5)
-      (- 1 (/ (- (sp-inline-limit value (+ channel 0.5) (+ channel 1)) 0.5) 0.5)))))
+    (if* (bit-and 1 channel) (/ (- (sp-inline-limit value (- channel 1) (- channel 0.5)) (- channel 1)) 0.5)
+      (- 1 (/ (- (sp-inline-limit value (+ channel 0.5) (+ channel 1)) (+ channel 0.5)) 0.5)))))
 
 (define (sp-normal-random min max) (sp-time-t sp-time-t sp-time-t)
   "untested. return normally distributed numbers in range"
-- 
2.43.0


From 37ff03e57a9dcb4ca89ad867f607a7e988d1e783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 21/77] fix: futures could not be initialised again after
 deinitialisation and the pool was destroyed twice

---
 source/c/foreign/sph-sc-lib/sph-sp/futures.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/futures.c b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
index 425613d..09dd03f 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/futures.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
@@ -44,8 +44,9 @@ void sph_future_new(sph_future_f_t f, void* data, sph_future_t* out) {
    waits till all active futures are finished */
 void sph_future_deinit() {
   if (sph_futures_pool_is_initialized) {
+    /* also destroys the pool */
     sph_thread_pool_finish((&sph_futures_pool), 0, 0);
-    sph_thread_pool_destroy((&sph_futures_pool));
+    sph_futures_pool_is_initialized = 0;
   };
 }
 
-- 
2.43.0


From 26f155eb676c01e4f8603362a8629127cc5e9f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:12 +0000
Subject: [PATCH 22/77] fix: data race between the end of a future and touch

---
 source/c/foreign/sph-sc-lib/sph-sp/futures.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/futures.c b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
index 09dd03f..6dfac62 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/futures.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
@@ -27,7 +27,7 @@ void sph_future_eval(sph_thread_pool_task_t* task) {
   sph_future_t* a;
   a = ((sph_future_t*)((((uint8_t*)(task)) - offsetof(sph_future_t, task))));
   task->data = (a->f)((task->data));
-  a->finished = 1;
+  __atomic_store_n((&(a->finished)), 1, __ATOMIC_RELEASE);
 }
 
 /** prepare a future in out and possibly start evaluation in parallel.
@@ -53,7 +53,7 @@ void sph_future_deinit() {
 /** blocks until future is finished and returns its result */
 void* sph_future_touch(sph_future_t* a) {
   const struct timespec poll_interval = sph_future_default_poll_interval;
-  while (!a->finished) {
+  while (!__atomic_load_n((&(a->finished)), __ATOMIC_ACQUIRE)) {
     nanosleep((&poll_interval), 0);
   };
   return ((a->task.data));
-- 
2.43.0


From dab3176e22edbe52b2b98e5cf603f675647ba922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:19 +0000
Subject: [PATCH 23/77] fix: processor counts above the thread limit overflowed
 the thread array or the size

---
 source/c-precompiled/sph-sp/main.c               | 2 +-
 source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c | 3 +++
 source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h | 1 +
 source/sc/sph-sp/main.sc                         | 2 +-
 4 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index bd87f6a..5a6dbba 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -426,7 +426,7 @@ sp_random_state_t sp_random_state_new(sp_time_t seed) {
 status_t sp_initialize(uint16_t cpu_count, sp_channel_count_t channel_count, sp_time_t rate) {
   status_declare;
   if (cpu_count) {
-    status.id = sph_future_init(cpu_count);
+    status.id = sph_future_init((sp_inline_min(cpu_count, sph_thread_pool_thread_limit)));
     if (status.id) {
       status_return;
     };
diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
index 08f19e5..cbbc6cd 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
@@ -79,6 +79,9 @@ int sph_thread_pool_new(sph_thread_pool_size_t size, sph_thread_pool_t* a) {
   sph_thread_pool_size_t i;
   pthread_attr_t attr;
   int error;
+  if (size > sph_thread_pool_thread_limit) {
+    return (EINVAL);
+  };
   error = 0;
   sph_queue_init((&(a->queue)));
   pthread_mutex_init((&(a->queue_mutex)), 0);
diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h
index f9a855a..e30ae7c 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h
@@ -7,6 +7,7 @@
    based on the design of thread-pool.scm from sph-lib which has been stress tested in servers and digital signal processing.
    depends on queue.h */
 #include <inttypes.h>
+#include <errno.h>
 
 #ifndef sph_thread_pool_size_t
 #define sph_thread_pool_size_t uint8_t
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 7f3ba80..7a0d60b 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -327,7 +327,7 @@
    rate and channel-count are used to set sp_rate and sp_channel-count,
    which are used as defaults in a few cases"
   status-declare
-  (if cpu-count (begin (set status.id (sph-future-init cpu-count)) (if status.id status-return)))
+  (if cpu-count (begin (set status.id (sph-future-init (sp-inline-min cpu-count sph-thread-pool-thread-limit))) (if status.id status-return)))
   (set
     sp-sine-table 0
     sp-sine-table-lfo 0
-- 
2.43.0


From fbd60a84585318d85e949344ff83e1cb195d0ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 24/77] fix: filter states did not remember changed functions
 and arguments, lost tails when the kernel got shorter and kept freed kernels
 on failure

---
 source/c-precompiled/sph-sp/filter.c | 89 ++++++++++----------------
 source/sc/sph-sp/filter.sc           | 93 ++++++++++++----------------
 2 files changed, 72 insertions(+), 110 deletions(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index e59b0fc..fdac473 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -16,73 +16,48 @@ void sp_convolution_filter_state_free(sp_convolution_filter_state_t* state) {
    ir-f-arguments can be stack allocated and will be copied to state on change */
 status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void* ir_f_arguments, uint8_t ir_f_arguments_len, sp_convolution_filter_state_t** out_state) {
   status_declare;
-  sp_sample_t* carryover;
-  sp_time_t carryover_alloc_len;
   sp_sample_t* ir;
   sp_time_t ir_len;
+  sp_time_t carryover_len;
   sp_convolution_filter_state_t* state;
-  memreg_init(2);
-  /* create state if not exists. re-use if exists and return early if ir needs not be updated */
-  if (*out_state) {
-    /* existing */
-    state = *out_state;
-    if ((state->ir_f == ir_f) && (ir_f_arguments_len == state->ir_f_arguments_len) && (0 == memcmp((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len))) {
-      /* unchanged */
-      status_return;
-    } else {
-      /* changed */
-      if (ir_f_arguments_len > state->ir_f_arguments_len) {
-        status_require((sph_helper_realloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
-      };
-      if (state->ir) {
-        free((state->ir));
-      };
-    };
-  } else {
-    /* new */
-    status_require((sph_helper_malloc((sizeof(sp_convolution_filter_state_t)), (&state))));
-    status_require((sph_helper_malloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
-    memreg_add(state);
-    memreg_add((state->ir_f_arguments));
-    state->carryover_alloc_len = 0;
-    state->carryover = 0;
-    state->ir_f = ir_f;
-    state->ir_f_arguments_len = ir_f_arguments_len;
+  ir = 0;
+  state = *out_state;
+  /* re-use if exists and return early if ir needs not be updated */
+  if (state && (state->ir_f == ir_f) && (ir_f_arguments_len == state->ir_f_arguments_len) && (0 == memcmp((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len))) {
+    status_return;
   };
-  memcpy((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len);
   /* assumes that ir-len is always greater zero */
   status_require((ir_f(ir_f_arguments, (&ir), (&ir_len))));
+  if (!state) {
+    status_require((sph_helper_calloc((sizeof(sp_convolution_filter_state_t)), (&state))));
+  };
+  if (!state->ir_f_arguments || (ir_f_arguments_len > state->ir_f_arguments_len)) {
+    status_require((sph_helper_realloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
+  };
   /* eventually extend carryover array. the array is never shrunk.
-  carryover-len is at least ir-len - 1.
+  carryover-len is at least ir-len - 1, and larger while values from a previous longer ir are still to be carried over.
   carryover-alloc-len is the length of the whole array.
-  new and extended areas must be set to zero */
-  carryover_alloc_len = (ir_len - 1);
-  if (state->carryover) {
-    carryover = state->carryover;
-    if (ir_len > state->ir_len) {
-      if (carryover_alloc_len > state->carryover_alloc_len) {
-        status_require((sph_helper_realloc((carryover_alloc_len * sizeof(sp_sample_t)), (&carryover))));
-        state->carryover_alloc_len = carryover_alloc_len;
-      };
-      /* in any case reset the extended area */
-      memset(((state->ir_len - 1) + carryover), 0, ((ir_len - state->ir_len) * sizeof(sp_sample_t)));
-    };
-  } else {
-    if (carryover_alloc_len) {
-      status_require((sp_samples_new(carryover_alloc_len, (&carryover))));
-    } else {
-      carryover = 0;
-    };
-    state->carryover_alloc_len = carryover_alloc_len;
+  values from carryover-len on are always zero */
+  carryover_len = (ir_len - 1);
+  if (carryover_len > state->carryover_alloc_len) {
+    status_require((sph_helper_realloc((carryover_len * sizeof(sp_sample_t)), (&(state->carryover)))));
+    memset((state->carryover_alloc_len + state->carryover), 0, ((carryover_len - state->carryover_alloc_len) * sizeof(sp_sample_t)));
+    state->carryover_alloc_len = carryover_len;
   };
-  state->carryover = carryover;
-  state->carryover_len = (ir_len - 1);
+  memcpy((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len);
+  free((state->ir));
+  state->ir_f = ir_f;
+  state->ir_f_arguments_len = ir_f_arguments_len;
+  state->carryover_len = sp_inline_max(carryover_len, (state->carryover_len));
   state->ir = ir;
   state->ir_len = ir_len;
   *out_state = state;
 exit:
   if (status_is_failure) {
-    memreg_free;
+    free(ir);
+    if (!*out_state) {
+      sp_convolution_filter_state_free(state);
+    };
   };
   status_return;
 }
@@ -95,11 +70,15 @@ exit:
    * out-samples: owned by the caller. length must be at least in-len and the number of output samples will be in-len */
 status_t sp_convolution_filter(sp_sample_t* in, sp_time_t in_len, sp_convolution_filter_ir_f_t ir_f, void* ir_f_arguments, uint8_t ir_f_arguments_len, sp_convolution_filter_state_t** out_state, sp_sample_t* out_samples) {
   status_declare;
-  sp_time_t carryover_len = (*out_state ? (*out_state)->carryover_len : 0);
+  sp_convolution_filter_state_t* state;
+  sp_time_t carryover_len;
   /* create/update the impulse response kernel */
   status_require((sp_convolution_filter_state_set(ir_f, ir_f_arguments, ir_f_arguments_len, out_state)));
   /* convolve */
-  sp_convolve(in, in_len, ((*out_state)->ir), ((*out_state)->ir_len), carryover_len, ((*out_state)->carryover), out_samples);
+  state = *out_state;
+  carryover_len = state->carryover_len;
+  sp_convolve(in, in_len, (state->ir), (state->ir_len), carryover_len, (state->carryover), out_samples);
+  state->carryover_len = sp_inline_max((state->ir_len - 1), (sp_inline_no_underflow_subtract(carryover_len, in_len)));
 exit:
   status_return;
 }
diff --git a/source/sc/sph-sp/filter.sc b/source/sc/sph-sp/filter.sc
index 79521eb..b11a88c 100644
--- a/source/sc/sph-sp/filter.sc
+++ b/source/sc/sph-sp/filter.sc
@@ -15,71 +15,51 @@
    ir-f-arguments can be stack allocated and will be copied to state on change"
   status-declare
   (declare
-    carryover sp-sample-t*
-    carryover-alloc-len sp-time-t
     ir sp-sample-t*
     ir-len sp-time-t
+    carryover-len sp-time-t
     state sp-convolution-filter-state-t*)
-  (memreg-init 2)
-  (sc-comment
-    "create state if not exists. re-use if exists and return early if ir needs not be updated")
-  (if *out-state
-    (begin
-      (sc-comment "existing")
-      (set state *out-state)
-      (if
-        (and (= state:ir-f ir-f) (= ir-f-arguments-len state:ir-f-arguments-len)
-          (= 0 (memcmp state:ir-f-arguments ir-f-arguments ir-f-arguments-len)))
-        (begin (sc-comment "unchanged") status-return)
-        (begin
-          (sc-comment "changed")
-          (if (> ir-f-arguments-len state:ir-f-arguments-len)
-            (status-require (sph-helper-realloc ir-f-arguments-len &state:ir-f-arguments)))
-          (if state:ir (free state:ir)))))
-    (begin
-      (sc-comment "new")
-      (status-require (sph-helper-malloc (sizeof sp-convolution-filter-state-t) &state))
-      (status-require (sph-helper-malloc ir-f-arguments-len &state:ir-f-arguments))
-      (memreg-add state)
-      (memreg-add state:ir-f-arguments)
-      (set
-        state:carryover-alloc-len 0
-        state:carryover 0
-        state:ir-f ir-f
-        state:ir-f-arguments-len ir-f-arguments-len)))
-  (memcpy state:ir-f-arguments ir-f-arguments ir-f-arguments-len)
+  (set ir 0 state *out-state)
+  (sc-comment "re-use if exists and return early if ir needs not be updated")
+  (if
+    (and state (= state:ir-f ir-f)
+      (= ir-f-arguments-len state:ir-f-arguments-len)
+      (= 0 (memcmp state:ir-f-arguments ir-f-arguments ir-f-arguments-len)))
+    status-return)
   (sc-comment "assumes that ir-len is always greater zero")
   (status-require (ir-f ir-f-arguments &ir &ir-len))
+  (if (not state)
+    (status-require (sph-helper-calloc (sizeof sp-convolution-filter-state-t) &state)))
+  (if (or (not state:ir-f-arguments) (> ir-f-arguments-len state:ir-f-arguments-len))
+    (status-require (sph-helper-realloc ir-f-arguments-len &state:ir-f-arguments)))
   (sc-comment
     "eventually extend carryover array. the array is never shrunk."
-    "carryover-len is at least ir-len - 1."
+    "carryover-len is at least ir-len - 1, and larger while values from a previous longer ir are still to be carried over."
     "carryover-alloc-len is the length of the whole array."
-    "new and extended areas must be set to zero")
-  (set carryover-alloc-len (- ir-len 1))
-  (if state:carryover
+    "values from carryover-len on are always zero")
+  (set carryover-len (- ir-len 1))
+  (if (> carryover-len state:carryover-alloc-len)
     (begin
-      (set carryover state:carryover)
-      (if (> ir-len state:ir-len)
-        (begin
-          (if (> carryover-alloc-len state:carryover-alloc-len)
-            (begin
-              (status-require
-                (sph-helper-realloc (* carryover-alloc-len (sizeof sp-sample-t)) &carryover))
-              (set state:carryover-alloc-len carryover-alloc-len)))
-          (sc-comment "in any case reset the extended area")
-          (memset (+ (- state:ir-len 1) carryover) 0
-            (* (- ir-len state:ir-len) (sizeof sp-sample-t))))))
-    (begin
-      (if carryover-alloc-len (status-require (sp-samples-new carryover-alloc-len &carryover))
-        (set carryover 0))
-      (set state:carryover-alloc-len carryover-alloc-len)))
+      (status-require
+        (sph-helper-realloc (* carryover-len (sizeof sp-sample-t)) &state:carryover))
+      (memset (+ state:carryover-alloc-len state:carryover) 0
+        (* (- carryover-len state:carryover-alloc-len) (sizeof sp-sample-t)))
+      (set state:carryover-alloc-len carryover-len)))
+  (memcpy state:ir-f-arguments ir-f-arguments ir-f-arguments-len)
+  (free state:ir)
   (set
-    state:carryover carryover
-    state:carryover-len (- ir-len 1)
+    state:ir-f ir-f
+    state:ir-f-arguments-len ir-f-arguments-len
+    state:carryover-len (sp-inline-max carryover-len state:carryover-len)
     state:ir ir
     state:ir-len ir-len
     *out-state state)
-  (label exit (if status-is-failure memreg-free) status-return))
+  (label exit
+    (if status-is-failure
+      (begin
+        (free ir)
+        (if (not *out-state) (sp-convolution-filter-state-free state))))
+    status-return))
 
 (define
   (sp-convolution-filter in in-len ir-f ir-f-arguments ir-f-arguments-len out-state out-samples)
@@ -91,13 +71,16 @@
    * out-state: if zero then state will be allocated. owned by caller
    * out-samples: owned by the caller. length must be at least in-len and the number of output samples will be in-len"
   status-declare
-  (define carryover-len sp-time-t (if* *out-state (: *out-state carryover-len) 0))
+  (declare state sp-convolution-filter-state-t* carryover-len sp-time-t)
   (sc-comment "create/update the impulse response kernel")
   (status-require
     (sp-convolution-filter-state-set ir-f ir-f-arguments ir-f-arguments-len out-state))
   (sc-comment "convolve")
-  (sp-convolve in in-len
-    (: *out-state ir) (: *out-state ir-len) carryover-len (: *out-state carryover) out-samples)
+  (set state *out-state carryover-len state:carryover-len)
+  (sp-convolve in in-len state:ir state:ir-len carryover-len state:carryover out-samples)
+  (set
+    state:carryover-len
+    (sp-inline-max (- state:ir-len 1) (sp-inline-no-underflow-subtract carryover-len in-len)))
   (label exit status-return))
 
 (define (sp-window-blackman a width) (sp-sample-t sp-sample-t sp-time-t)
-- 
2.43.0


From 303e695065807f1c786ad8ca4a65df129541d15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 25/77] fix: band-pass kernels leaked the kernels they are made
 of

---
 source/c-precompiled/sph-sp/filter.c | 8 ++++++++
 source/sc/sph-sp/filter.sc           | 9 +++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index fdac473..fcd7e25 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -153,6 +153,8 @@ status_t sp_windowed_sinc_bp_br_ir(sp_sample_t cutoff_l, sp_sample_t cutoff_h, s
   sp_time_t end;
   sp_sample_t* out;
   sp_sample_t* over;
+  hp_ir = 0;
+  lp_ir = 0;
   if (is_reject) {
     if (0.0 >= cutoff_l) {
       if (0.5 <= cutoff_h) {
@@ -206,8 +208,14 @@ status_t sp_windowed_sinc_bp_br_ir(sp_sample_t cutoff_l, sp_sample_t cutoff_h, s
     *out_len = ((lp_len + hp_len) - 1);
     status_require((sp_samples_new((*out_len), out_ir)));
     sp_convolve_one(lp_ir, lp_len, hp_ir, hp_len, (*out_ir));
+    free(lp_ir);
+    free(hp_ir);
   };
 exit:
+  if (status_is_failure) {
+    free(lp_ir);
+    free(hp_ir);
+  };
   status_return;
 }
 
diff --git a/source/sc/sph-sp/filter.sc b/source/sc/sph-sp/filter.sc
index b11a88c..a7d11b7 100644
--- a/source/sc/sph-sp/filter.sc
+++ b/source/sc/sph-sp/filter.sc
@@ -144,6 +144,7 @@
     end sp-time-t
     out sp-sample-t*
     over sp-sample-t*)
+  (set hp-ir 0 lp-ir 0)
   (if is-reject
     (begin
       (if (>= 0.0 cutoff-l)
@@ -184,8 +185,12 @@
       (sc-comment "convolve lp and hp ir samples")
       (set *out-len (- (+ lp-len hp-len) 1))
       (status-require (sp-samples-new *out-len out-ir))
-      (sp-convolve-one lp-ir lp-len hp-ir hp-len *out-ir)))
-  (label exit status-return))
+      (sp-convolve-one lp-ir lp-len hp-ir hp-len *out-ir)
+      (free lp-ir)
+      (free hp-ir)))
+  (label exit
+    (if status-is-failure (begin (free lp-ir) (free hp-ir)))
+    status-return))
 
 (define (sp-windowed-sinc-lp-hp-ir-f arguments out-ir out-len)
   (status-t void* sp-sample-t** sp-time-t*)
-- 
2.43.0


From e4447b8e678765def2addc86e7112581f0d2df1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 26/77] fix: moving_average reflected values of the start at
 the end

---
 source/c-precompiled/sph-sp/filter.c | 2 +-
 source/sc/sph-sp/filter.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index fcd7e25..267b8e1 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -326,7 +326,7 @@ void sp_moving_average(sp_sample_t* in, sp_time_t in_size, sp_sample_t* prev, sp
     out[i] = (sum / width);
   };
   for (i = (in_size - radius); (i < in_size); i += 1) {
-    sum = ((sum + (next ? next[(i - (in_size - radius))] : (in[((i + radius + 1) - in_size)] * -1))) - in[(i - radius - 1)]);
+    sum = ((sum + (next ? next[(i - (in_size - radius))] : (in[(((2 * in_size) - 2) - (i + radius))] * -1))) - in[(i - radius - 1)]);
     out[i] = (sum / width);
   };
 }
diff --git a/source/sc/sph-sp/filter.sc b/source/sc/sph-sp/filter.sc
index a7d11b7..2354fff 100644
--- a/source/sc/sph-sp/filter.sc
+++ b/source/sc/sph-sp/filter.sc
@@ -306,6 +306,6 @@
       (-
         (+ sum
           (if* next (array-get next (- i (- in-size radius)))
-            (* (array-get in (- (+ i radius 1) in-size)) -1)))
+            (* (array-get in (- (* 2 in-size) 2 (+ i radius))) -1)))
         (array-get in (- i radius 1)))
       (array-get out i) (/ sum width))))
\ No newline at end of file
-- 
2.43.0


From 45639dbbe38964cf6a3ad960e404e51f90ad391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 27/77] fix: what a failing event.prepare had registered with
 the event was lost and leaked in sp_seq

---
 source/c-precompiled/sph-sp/sequencer.c | 4 ++--
 source/sc/sph-sp/sequencer.sc           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 9131451..a9c2bc6 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -262,8 +262,8 @@ status_t sp_seq(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_list_t*
     } else if (end <= e.start) {
       break;
     } else if (e.end > start) {
-      sp_event_prepare_optional_srq(e);
-      *ep = e;
+      sp_event_prepare_optional_srq((*ep));
+      e = *ep;
       status_require(((e.generate)(((start > e.start) ? (start - e.start) : 0), (sp_inline_min(end, (e.end)) - e.start), ((e.start > start) ? sp_block_with_offset(out, (e.start - start)) : out), ep)));
     };
     current = current->next;
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 2c32114..4d9e024 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -169,7 +169,7 @@
       ( (<= e.end start) (set next current:next) (sp-event-list-remove events current)
         (set current next) continue)
       ((<= end e.start) break)
-      ( (> e.end start) (sp-event-prepare-optional-srq e) (set *ep e)
+      ( (> e.end start) (sp-event-prepare-optional-srq *ep) (set e *ep)
         (status-require
           (e.generate (if* (> start e.start) (- start e.start) 0)
             (- (sp-inline-min end e.end) e.start)
-- 
2.43.0


From 1532d3e489bfec7b3368432f8d667581f0ebeb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 28/77] fix: sp_seq_parallel freed events and blocks that other
 threads were still using when an event or allocation failed

---
 source/c-precompiled/sph-sp/sequencer.c | 4 +++-
 source/sc/sph-sp/sequencer.sc           | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index a9c2bc6..aba1192 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -352,7 +352,7 @@ status_t sp_seq_parallel(sp_time_t start, sp_time_t end, sp_block_t out, sp_even
     current = current->next;
   };
   /* merge */
-  for (sp_size_t sf_i = 0; (sf_i < active); sf_i += 1) {
+  for (sp_size_t sf_i = 0; (sf_i < allocated); sf_i += 1) {
     sf = (sf_array + sf_i);
     sph_future_touch((&(sf->future)));
     status_require((sf->status));
@@ -365,6 +365,8 @@ status_t sp_seq_parallel(sp_time_t start, sp_time_t end, sp_block_t out, sp_even
 exit:
   if (sf_array) {
     for (sp_size_t i = 0; (i < allocated); i += 1) {
+      /* also on failure no event may still be in use */
+      sph_future_touch((&((sf_array[i]).future)));
       sp_block_free((&((sf_array[i]).out)));
     };
     free(sf_array);
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 4d9e024..04c1f6f 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -240,7 +240,7 @@
         (set+ allocated 1) (sph-future-new sp-seq-parallel-future-f sf &sf:future)))
     (set current current:next))
   (sc-comment "merge")
-  (sp-for-each-index sf-i active
+  (sp-for-each-index sf-i allocated
     (set sf (+ sf-array sf-i))
     (sph-future-touch &sf:future)
     (status-require sf:status)
@@ -252,6 +252,8 @@
     (if sf-array
       (begin
         (sp-for-each-index i allocated
+          (sc-comment "also on failure no event may still be in use")
+          (sph-future-touch (address-of (struct-get (array-get sf-array i) future)))
           (sp-block-free (address-of (struct-get (array-get sf-array i) out))))
         (free sf-array)))
     (if status-is-failure (sp-event-list-free events))
-- 
2.43.0


From 3297f514d5572e77c4413ce4fef7f72c0aa573bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:24 +0000
Subject: [PATCH 29/77] fix: sp_event_list_reverse set an empty list to an
 uninitialised pointer

---
 source/c-precompiled/sph-sp/sequencer.c | 1 +
 source/sc/sph-sp/sequencer.sc           | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index aba1192..6797bed 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -15,6 +15,7 @@ void sp_event_list_display(sp_event_list_t* a) {
 void sp_event_list_reverse(sp_event_list_t** a) {
   sp_event_list_t* current;
   sp_event_list_t* next;
+  current = 0;
   next = *a;
   while (next) {
     current = next;
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 04c1f6f..8f220ca 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -13,7 +13,7 @@
 
 (define (sp-event-list-reverse a) (void sp-event-list-t**)
   (declare current sp-event-list-t* next sp-event-list-t*)
-  (set next *a)
+  (set current 0 next *a)
   (while next (set current next next next:next current:next current:previous current:previous next))
   (set *a current))
 
-- 
2.43.0


From 43baff95c65dd4ff5e955e0b9a4ef755c05da9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:32 +0000
Subject: [PATCH 30/77] fix: events inside of groups and map events that were
 freed before being prepared leaked

---
 source/c-precompiled/sph-sp/sequencer.h | 3 +++
 source/sc/sph-sp/sequencer.h.sc         | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.h b/source/c-precompiled/sph-sp/sequencer.h
index d498bd5..8588406 100644
--- a/source/c-precompiled/sph-sp/sequencer.h
+++ b/source/c-precompiled/sph-sp/sequencer.h
@@ -40,14 +40,17 @@
 #define sp_map_event(event_pointer, _config) \
   event_pointer->prepare = sp_map_event_prepare; \
   event_pointer->generate = (_config->isolate ? sp_map_event_isolated_generate : sp_map_event_generate); \
+  event_pointer->free = sp_map_event_free; \
   event_pointer->config = _config
 #define sp_group_event(event_pointer) \
   event_pointer->prepare = sp_group_prepare; \
   event_pointer->generate = sp_group_generate; \
+  event_pointer->free = sp_group_free; \
   event_pointer->config = 0
 #define sp_group_parallel_event(event_pointer) \
   event_pointer->prepare = sp_group_prepare; \
   event_pointer->generate = sp_group_generate_parallel; \
+  event_pointer->free = sp_group_free; \
   event_pointer->config = 0
 #define sp_event_path_samples_srq(event_pointer, out, ...) \
   status_require((sp_path_samples(out, __VA_ARGS__))); \
diff --git a/source/sc/sph-sp/sequencer.h.sc b/source/sc/sph-sp/sequencer.h.sc
index 7164d8a..5d976e3 100644
--- a/source/sc/sph-sp/sequencer.h.sc
+++ b/source/sc/sph-sp/sequencer.h.sc
@@ -38,13 +38,15 @@
   (struct-pointer-set event-pointer
     prepare sp-map-event-prepare
     generate (if* _config:isolate sp-map-event-isolated-generate sp-map-event-generate)
+    free sp-map-event-free
     config _config)
   (sp-group-event event-pointer)
-  (struct-pointer-set event-pointer prepare sp-group-prepare generate sp-group-generate config 0)
+  (struct-pointer-set event-pointer prepare sp-group-prepare generate sp-group-generate free sp-group-free config 0)
   (sp-group-parallel-event event-pointer)
   (struct-pointer-set event-pointer
     prepare sp-group-prepare
     generate sp-group-generate-parallel
+    free sp-group-free
     config 0)
   (sp-event-path-samples-srq event-pointer out ...)
   (begin
-- 
2.43.0


From 11d770ae3b2258973249dc96dd366fcb8effea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:40 +0000
Subject: [PATCH 31/77] fix: noise events without duration divided by zero

---
 source/c-precompiled/sph-sp/sequencer.c | 3 +++
 source/sc/sph-sp/sequencer.sc           | 1 +
 2 files changed, 4 insertions(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 6797bed..d72a328 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -211,6 +211,9 @@ status_t sp_event_block_generate(sp_time_t resolution, sp_event_block_generate_t
   sp_time_t duration;
   sp_time_t i;
   duration = (end - start);
+  if (!duration) {
+    status_return;
+  };
   if (duration < resolution) {
     resolution = duration;
   };
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 8f220ca..f763a72 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -134,6 +134,7 @@
     duration sp-time-t
     i sp-time-t)
   (set duration (- end start))
+  (if (not duration) status-return)
   (if (< duration resolution) (set resolution duration))
   (set
     block-count (sp-cheap-floor-positive (/ duration resolution))
-- 
2.43.0


From bcae5f014d31504e03596cdd3acc9d85559a7bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 32/77] fix: noise events never freed their buffers and filter
 states

---
 source/c-precompiled/sph-sp/sequencer.c | 2 ++
 source/sc/sph-sp/sequencer.sc           | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index d72a328..5d87e2d 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -599,6 +599,7 @@ void sp_noise_event_free(sp_event_t* event) {
     cc = (c->channel_config + i);
     if (cc->filter_state) {
       sp_convolution_filter_state_free((cc->filter_state));
+      cc->filter_state = 0;
     };
   };
   free(((c->temp)[0]));
@@ -700,6 +701,7 @@ status_t sp_noise_event_prepare(sp_event_t* event) {
       };
     };
   };
+  event->free = sp_noise_event_free;
 exit:
   if (status_is_failure) {
     error_memory_free;
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index f763a72..86464c3 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -451,7 +451,8 @@
   (set event:free 0 c event:config)
   (sp-for-each-index i c:channel-count
     (set cc (+ c:channel-config i))
-    (if cc:filter-state (sp-convolution-filter-state-free cc:filter-state)))
+    (if cc:filter-state
+      (begin (sp-convolution-filter-state-free cc:filter-state) (set cc:filter-state 0))))
   (free (array-get c:temp 0))
   (free (array-get c:temp 1))
   (free (array-get c:temp 2))
@@ -531,6 +532,7 @@
           (begin
             (status-require (sp-noise-event-filter-state c cc (array-get ir-lengths cci)))
             (error-memory-add2 cc:filter-state sp-convolution-filter-state-free))))))
+  (set event:free sp-noise-event-free)
   (label exit (if status-is-failure error-memory-free) status-return))
 
 (define (sp-noise-event-generate-block duration block-i event-i out event)
-- 
2.43.0


From f3b1108049b52cc96da9feba72506f60ce6c4dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 33/77] fix: noise events overflowed their buffers for blocks
 or kernels longer than four seconds

---
 source/c-precompiled/sph-sp/sequencer.c | 4 ++--
 source/sc/sph-sp/sequencer.sc           | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 5d87e2d..01835ad 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -677,9 +677,9 @@ status_t sp_noise_event_prepare(sp_event_t* event) {
   if (!filter_mod) {
     c->resolution = duration;
   };
-  /* this limits the largest block that can be safely requested */
+  /* limit the size of the buffers. larger blocks are generated in multiple parts */
+  c->resolution = sp_inline_min((c->resolution), (sp_render_block_seconds * sp_rate));
   temp_length = sp_inline_max(temp_length, (c->resolution));
-  temp_length = sp_inline_min(temp_length, (sp_render_block_seconds * sp_rate));
   /* three buffers: one for the white noise, one for the first channel filter result that may be shared with other channels,
        and one for other channel filter results */
   status_require((sp_malloc_type(temp_length, sp_sample_t, (c->temp))));
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 86464c3..5b086f5 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -507,10 +507,10 @@
       (set ci cc:channel *cc *c:channel-config cc:channel ci)))
   (sc-comment "no updates necessary if parameters do not change")
   (if (not filter-mod) (set c:resolution duration))
-  (sc-comment "this limits the largest block that can be safely requested")
+  (sc-comment "limit the size of the buffers. larger blocks are generated in multiple parts")
   (set
-    temp-length (sp-inline-max temp-length c:resolution)
-    temp-length (sp-inline-min temp-length (* sp-render-block-seconds sp-rate)))
+    c:resolution (sp-inline-min c:resolution (* sp-render-block-seconds sp-rate))
+    temp-length (sp-inline-max temp-length c:resolution))
   (sc-comment
     "three buffers: one for the white noise, one for the first channel filter result that may be shared with other channels,
      and one for other channel filter results")
-- 
2.43.0


From d9155893fdd4fc489036a14fd0d7e1f4ea6eeb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 34/77] fix: noise events took their seed from the global
 random state while being prepared, in parallel with a data race and in
 varying order

---
 source/c-precompiled/sph-sp/sequencer.c |  5 ++++-
 source/c-precompiled/sph-sp/sequencer.h |  1 +
 source/sc/sph-sp/sequencer.h.sc         | 10 ++++++----
 source/sc/sph-sp/sequencer.sc           |  8 +++++++-
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 01835ad..fbfbd81 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -624,7 +624,10 @@ status_t sp_noise_event_prepare(sp_event_t* event) {
   sp_time_t temp_length;
   error_memory_init((3 + sp_channel_count_limit));
   c = event->config;
-  c->random_state = sp_random_state_new((sp_time_random_primitive((&sp_random_state))));
+  /* events are prepared concurrently and in any order. sp_noise_event therefore already chose the random state */
+  if (!((c->random_state.data)[0] || (c->random_state.data)[1] || (c->random_state.data)[2] || (c->random_state.data)[3])) {
+    c->random_state = sp_random_state_new((sp_time_random_primitive((&sp_random_state))));
+  };
   cc = c->channel_config;
   duration = (event->end - event->start);
   filter_mod = (cc->fmod || cc->wmod);
diff --git a/source/c-precompiled/sph-sp/sequencer.h b/source/c-precompiled/sph-sp/sequencer.h
index 8588406..35839d0 100644
--- a/source/c-precompiled/sph-sp/sequencer.h
+++ b/source/c-precompiled/sph-sp/sequencer.h
@@ -36,6 +36,7 @@
 #define sp_noise_event(event_pointer, _config) \
   event_pointer->prepare = sp_noise_event_prepare; \
   event_pointer->generate = sp_noise_event_generate; \
+  _config->random_state = sp_random_state_new((sp_time_random())); \
   event_pointer->config = _config
 #define sp_map_event(event_pointer, _config) \
   event_pointer->prepare = sp_map_event_prepare; \
diff --git a/source/sc/sph-sp/sequencer.h.sc b/source/sc/sph-sp/sequencer.h.sc
index 5d976e3..c4d47b7 100644
--- a/source/sc/sph-sp/sequencer.h.sc
+++ b/source/sc/sph-sp/sequencer.h.sc
@@ -30,10 +30,12 @@
     generate sp-wave-event-generate
     config _config)
   (sp-noise-event event-pointer _config)
-  (struct-pointer-set event-pointer
-    prepare sp-noise-event-prepare
-    generate sp-noise-event-generate
-    config _config)
+  (begin
+    (set _config:random-state (sp-random-state-new (sp-time-random)))
+    (struct-pointer-set event-pointer
+      prepare sp-noise-event-prepare
+      generate sp-noise-event-generate
+      config _config))
   (sp-map-event event-pointer _config)
   (struct-pointer-set event-pointer
     prepare sp-map-event-prepare
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 5b086f5..16ff636 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -476,13 +476,19 @@
   (error-memory-init (+ 3 sp-channel-count-limit))
   (set
     c event:config
-    c:random-state (sp-random-state-new (sp-time-random-primitive &sp-random-state))
     cc c:channel-config
     duration (- event:end event:start)
     filter-mod (or cc:fmod cc:wmod)
     filter-states 0
     temp-length (sp-windowed-sinc-lp-hp-ir-length (sp-hz->factor (sp-inline-min cc:trnl cc:trnh)))
     (array-get ir-lengths 0) temp-length)
+  (sc-comment
+    "events are prepared concurrently and in any order. sp_noise_event therefore already chose the random state")
+  (if
+    (not
+      (or (array-get c:random-state.data 0) (array-get c:random-state.data 1)
+        (array-get c:random-state.data 2) (array-get c:random-state.data 3)))
+    (set c:random-state (sp-random-state-new (sp-time-random-primitive &sp-random-state))))
   (sc-comment "the first channel is always required")
   (if (not c:channel-config:amod) (sp-status-set-goto sp-s-id-invalid-argument))
   (sc-comment "set channel defaults and collect size information for temporary buffers")
-- 
2.43.0


From 2a6ccaa4722b4359471e2b20cbf4894655795c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 35/77] fix: events that could not be prepared or added to a
 group leaked

---
 source/c-precompiled/sph-sp/sequencer.c | 13 +++++++++++--
 source/sc/sph-sp/sequencer.sc           | 10 ++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index fbfbd81..8a3d391 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -396,7 +396,8 @@ status_t sp_group_prepare(sp_event_t* group) {
   status_return;
 }
 
-/** events with end zero will be prepared immediately for cases when event.prepare sets end */
+/** events with end zero will be prepared immediately for cases when event.prepare sets end.
+   the event belongs to the group and is also freed if adding it fails */
 status_t sp_group_add(sp_event_t* group, sp_event_t event) {
   status_declare;
   if (!event.end) {
@@ -407,8 +408,13 @@ status_t sp_group_add(sp_event_t* group, sp_event_t event) {
     group->end = event.end;
   };
 exit:
+  if (status_is_failure) {
+    sp_event_free(event);
+  };
   status_return;
 }
+
+/** like sp_group_add but the event starts at the end of the group */
 status_t sp_group_append(sp_event_t* group, sp_event_t event) {
   status_declare;
   if (!event.end) {
@@ -416,9 +422,12 @@ status_t sp_group_append(sp_event_t* group, sp_event_t event) {
   };
   event.start += group->end;
   event.end += group->end;
-  group->end = event.end;
   status_require((sp_event_list_add(((sp_event_list_t**)(&(group->config))), event)));
+  group->end = event.end;
 exit:
+  if (status_is_failure) {
+    sp_event_free(event);
+  };
   status_return;
 }
 status_t sp_map_event_config_new_n(sp_time_t count, sp_map_event_config_t** out) { return ((sp_calloc_type(count, sp_map_event_config_t, out))); }
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 16ff636..f9d2cfe 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -280,20 +280,22 @@
   status-return)
 
 (define (sp-group-add group event) (status-t sp-event-t* sp-event-t)
-  "events with end zero will be prepared immediately for cases when event.prepare sets end"
+  "events with end zero will be prepared immediately for cases when event.prepare sets end.
+   the event belongs to the group and is also freed if adding it fails"
   status-declare
   (if (not event.end) (sp-event-prepare-optional-srq event))
   (status-require (sp-event-list-add (convert-type &group:config sp-event-list-t**) event))
   (if (< group:end event.end) (set group:end event.end))
-  (label exit status-return))
+  (label exit (if status-is-failure (sp-event-free event)) status-return))
 
 (define (sp-group-append group event) (status-t sp-event-t* sp-event-t)
+  "like sp_group_add but the event starts at the end of the group"
   status-declare
   (if (not event.end) (sp-event-prepare-optional-srq event))
   (set+ event.start group:end event.end group:end)
-  (set group:end event.end)
   (status-require (sp-event-list-add (convert-type &group:config sp-event-list-t**) event))
-  (label exit status-return))
+  (set group:end event.end)
+  (label exit (if status-is-failure (sp-event-free event)) status-return))
 
 (define (sp-map-event-config-new-n count out) (status-t sp-time-t sp-map-event-config-t**)
   (return (sp-calloc-type count sp-map-event-config-t out)))
-- 
2.43.0


From 0062da5b8e16a78c9e47ec715d2e9f0a77a838a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 36/77] fix: parallel groups inside of parallel groups could
 make all threads wait for each other forever

---
 source/c/foreign/sph-sc-lib/sph-sp/futures.c | 18 +++++++++++++-
 source/c/foreign/sph-sc-lib/sph-sp/queue.h   | 25 ++++++++++++++++++++
 2 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/futures.c b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
index 6dfac62..167fb83 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/futures.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
@@ -19,6 +19,9 @@ int sph_future_init(sph_thread_pool_size_t thread_count) {
   };
 }
 
+/* the number of futures the current thread is evaluating, one inside the other */
+static __thread uint32_t sph_future_depth = 0;
+
 /** internal future worker.
    a->f returns because modifying data likely needs extra type conversions inside a->f.
    thread-pool does not have a finished field by default so that tasks can themselves free
@@ -26,7 +29,9 @@ int sph_future_init(sph_thread_pool_size_t thread_count) {
 void sph_future_eval(sph_thread_pool_task_t* task) {
   sph_future_t* a;
   a = ((sph_future_t*)((((uint8_t*)(task)) - offsetof(sph_future_t, task))));
+  sph_future_depth += 1;
   task->data = (a->f)((task->data));
+  sph_future_depth -= 1;
   __atomic_store_n((&(a->finished)), 1, __ATOMIC_RELEASE);
 }
 
@@ -50,9 +55,20 @@ void sph_future_deinit() {
   };
 }
 
-/** blocks until future is finished and returns its result */
+/** blocks until future is finished and returns its result.
+   futures can touch other futures. all threads could then be waiting for futures that are still in the queue,
+   so these are evaluated by the thread that needs them */
 void* sph_future_touch(sph_future_t* a) {
   const struct timespec poll_interval = sph_future_default_poll_interval;
+  uint8_t queued;
+  if (sph_future_depth && !__atomic_load_n((&(a->finished)), __ATOMIC_ACQUIRE)) {
+    pthread_mutex_lock((&(sph_futures_pool.queue_mutex)));
+    queued = sph_queue_remove((&(sph_futures_pool.queue)), (&(a->task.q)));
+    pthread_mutex_unlock((&(sph_futures_pool.queue_mutex)));
+    if (queued) {
+      sph_future_eval((&(a->task)));
+    };
+  };
   while (!__atomic_load_n((&(a->finished)), __ATOMIC_ACQUIRE)) {
     nanosleep((&poll_interval), 0);
   };
diff --git a/source/c/foreign/sph-sc-lib/sph-sp/queue.h b/source/c/foreign/sph-sc-lib/sph-sp/queue.h
index 9295ccb..78a28d5 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/queue.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/queue.h
@@ -62,4 +62,29 @@ sph_queue_node_t* sph_queue_deq(sph_queue_t* a) {
   a->size = (a->size - 1);
   return (n);
 }
+
+/** remove a node from any position. returns 1 if the node was found in the queue and 0 otherwise */
+uint8_t sph_queue_remove(sph_queue_t* a, sph_queue_node_t* node) {
+  sph_queue_node_t* previous;
+  sph_queue_node_t* n;
+  previous = 0;
+  n = a->first;
+  while (n) {
+    if (n == node) {
+      if (previous) {
+        previous->next = n->next;
+      } else {
+        a->first = n->next;
+      };
+      if (a->last == n) {
+        a->last = previous;
+      };
+      a->size = (a->size - 1);
+      return (1);
+    };
+    previous = n;
+    n = n->next;
+  };
+  return (0);
+}
 #endif
-- 
2.43.0


From aa37ec52d97cf983dfb26fa440f84d4a5b11b020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 37/77] fix: futures were never evaluated and touch never
 returned if no threads had been configured

---
 source/c/foreign/sph-sc-lib/sph-sp/futures.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/futures.c b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
index 167fb83..5bf6b81 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/futures.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
@@ -42,6 +42,11 @@ void sph_future_new(sph_future_f_t f, void* data, sph_future_t* out) {
   out->f = f;
   out->task.f = sph_future_eval;
   out->task.data = data;
+  if (!sph_futures_pool_is_initialized) {
+    /* there are no threads that could evaluate it */
+    sph_future_eval((&(out->task)));
+    return;
+  };
   sph_thread_pool_enqueue((&sph_futures_pool), (&(out->task)));
 }
 
-- 
2.43.0


From bdf7d97a23ec65610534161c0973f60b5444e19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 38/77] fix: finishing a thread pool again after finishing it
 without waiting leaked tasks

---
 source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
index cbbc6cd..3f33294 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
@@ -1,4 +1,17 @@
+void sph_thread_finish(sph_thread_pool_task_t* task);
+
+/** empty the queue. finish tasks are owned by the pool */
+static void sph_thread_pool_discard(sph_thread_pool_t* a) {
+  sph_thread_pool_task_t* task;
+  while (a->queue.size) {
+    task = sph_queue_get((sph_queue_deq((&(a->queue)))), sph_thread_pool_task_t, q);
+    if (sph_thread_finish == task->f) {
+      free(task);
+    };
+  };
+}
 void sph_thread_pool_destroy(sph_thread_pool_t* a) {
+  sph_thread_pool_discard(a);
   pthread_cond_destroy((&(a->queue_not_empty)));
   pthread_mutex_destroy((&(a->queue_mutex)));
 }
@@ -31,7 +44,7 @@ int sph_thread_pool_finish(sph_thread_pool_t* a, uint8_t no_wait, uint8_t discar
   sph_thread_pool_task_t* task;
   if (discard_queue) {
     pthread_mutex_lock((&(a->queue_mutex)));
-    sph_queue_init((&(a->queue)));
+    sph_thread_pool_discard(a);
     pthread_mutex_unlock((&(a->queue_mutex)));
   };
   size = a->size;
-- 
2.43.0


From d9a033e23eb10850c291be8a950aa47aad0b9d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 39/77] fix: a thread pool that could not create all of its
 threads left threads behind that still used it

---
 source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
index 3f33294..c8664b0 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
@@ -104,10 +104,12 @@ int sph_thread_pool_new(sph_thread_pool_size_t size, sph_thread_pool_t* a) {
   for (i = 0; (i < size); i = (1 + i)) {
     error = pthread_create((i + a->threads), (&attr), ((void* (*)(void*))(sph_thread_pool_worker)), ((void*)(a)));
     if (error) {
-      if (0 < i) {
-        /* try to finish previously created threads */
-        a->size = i;
-        sph_thread_pool_finish(a, 1, 0);
+      /* finish previously created threads */
+      a->size = i;
+      if (i) {
+        sph_thread_pool_finish(a, 0, 0);
+      } else {
+        sph_thread_pool_destroy(a);
       };
       goto exit;
     };
-- 
2.43.0


From da4c8941c1641cf6c9f2fc0206211447c49589bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 40/77] fix: blocks of size zero were allocated but never freed

---
 source/c-precompiled/sph-sp/main.c | 8 ++++++--
 source/sc/sph-sp/main.sc           | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 5a6dbba..ee1d6be 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -131,10 +131,14 @@ uint8_t* sp_status_name(status_t a) {
 /** return a newly allocated array for channel-count with data arrays for each channel */
 status_t sp_block_new(sp_channel_count_t channel_count, sp_time_t size, sp_block_t* out) {
   status_declare;
-  memreg_init(channel_count);
+  memreg_init(sp_channel_count_limit);
   sp_sample_t* channel;
   for (sp_size_t i = 0; (i < channel_count); i += 1) {
-    status_require((sph_helper_calloc((size * sizeof(sp_sample_t)), (&channel))));
+    /* sp_block_free does not free blocks of size zero */
+    channel = 0;
+    if (size) {
+      status_require((sph_helper_calloc((size * sizeof(sp_sample_t)), (&channel))));
+    };
     memreg_add(channel);
     (out->samples)[i] = channel;
   };
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 7a0d60b..1c57a34 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -84,10 +84,12 @@
 (define (sp-block-new channel-count size out) (status-t sp-channel-count-t sp-time-t sp-block-t*)
   "return a newly allocated array for channel-count with data arrays for each channel"
   status-declare
-  (memreg-init channel-count)
+  (memreg-init sp-channel-count-limit)
   (declare channel sp-sample-t*)
   (sp-for-each-index i channel-count
-    (status-require (sph-helper-calloc (* size (sizeof sp-sample-t)) &channel))
+    (sc-comment "sp_block_free does not free blocks of size zero")
+    (set channel 0)
+    (if size (status-require (sph-helper-calloc (* size (sizeof sp-sample-t)) &channel)))
     (memreg-add channel)
     (set (array-get out:samples i) channel))
   (set out:size size out:channel-count channel-count)
-- 
2.43.0


From de9bd2724b3dea28ab031f2512773f2a1dc03355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 41/77] fix: the path functions with a fixed number of points
 had no return statement

---
 source/c-precompiled/sph-sp/path.c | 16 ++++++++--------
 source/sc/sph-sp/path.sc           | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index fb60807..6b9761c 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -44,14 +44,14 @@ exit:
     sp_sample_t y[2]; \
     y[0] = y1; \
     y[1] = y2; \
-    sp_path_##type_name(out, length, 2, 0, y, 0); \
+    return ((sp_path_##type_name(out, length, 2, 0, y, 0))); \
   } \
   status_t sp_path_##type_name##3(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3) { \
     sp_sample_t y[3]; \
     y[0] = y1; \
     y[1] = y2; \
     y[2] = y3; \
-    sp_path_##type_name(out, length, 3, (&x1), y, 0); \
+    return ((sp_path_##type_name(out, length, 3, (&x1), y, 0))); \
   } \
   status_t sp_path_##type_name##4(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4) { \
     sp_sample_t x[2]; \
@@ -62,7 +62,7 @@ exit:
     y[1] = y2; \
     y[2] = y3; \
     y[3] = y4; \
-    sp_path_##type_name(out, length, 4, x, y, 0); \
+    return ((sp_path_##type_name(out, length, 4, x, y, 0))); \
   } \
   status_t sp_path_##type_name##5(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t x3, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t y5) { \
     sp_sample_t x[3]; \
@@ -75,13 +75,13 @@ exit:
     y[2] = y3; \
     y[3] = y4; \
     y[4] = y5; \
-    sp_path_##type_name(out, length, 5, x, y, 0); \
+    return ((sp_path_##type_name(out, length, 5, x, y, 0))); \
   } \
   status_t sp_path_##type_name##_c##2(type * *out, sp_time_t length, sp_sample_t y1, sp_sample_t y2, sp_sample_t c1) { \
     sp_sample_t y[2]; \
     y[0] = y1; \
     y[1] = y2; \
-    sp_path_##type_name(out, length, 2, 0, y, (&c1)); \
+    return ((sp_path_##type_name(out, length, 2, 0, y, (&c1)))); \
   } \
   status_t sp_path_##type_name##_c##3(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t c1, sp_sample_t c2) { \
     sp_sample_t y[3]; \
@@ -91,7 +91,7 @@ exit:
     y[2] = y3; \
     c[0] = c1; \
     c[1] = c2; \
-    sp_path_##type_name(out, length, 3, (&x1), y, c); \
+    return ((sp_path_##type_name(out, length, 3, (&x1), y, c))); \
   } \
   status_t sp_path_##type_name##_c##4(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3) { \
     sp_sample_t x[2]; \
@@ -106,7 +106,7 @@ exit:
     c[0] = c1; \
     c[1] = c2; \
     c[2] = c3; \
-    sp_path_##type_name(out, length, 4, x, y, c); \
+    return ((sp_path_##type_name(out, length, 4, x, y, c))); \
   } \
   status_t sp_path_##type_name##_c##5(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t x3, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t y5, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3, sp_sample_t c4) { \
     sp_sample_t x[3]; \
@@ -124,7 +124,7 @@ exit:
     c[1] = c2; \
     c[2] = c3; \
     c[3] = c4; \
-    sp_path_##type_name(out, length, 5, x, y, c); \
+    return ((sp_path_##type_name(out, length, 5, x, y, c))); \
   }
 sp_define_path_n(samples, sp_sample_t)
   sp_define_path_n(times, sp_time_t)
diff --git a/source/sc/sph-sp/path.sc b/source/sc/sph-sp/path.sc
index 5c8d3fe..8388ae9 100644
--- a/source/sc/sph-sp/path.sc
+++ b/source/sc/sph-sp/path.sc
@@ -46,49 +46,49 @@
       (status-t type** sp-time-t sp-sample-t sp-sample-t)
       (declare y (array sp-sample-t 2))
       (array-set* y y1 y2)
-      ((pre-concat sp-path- type-name) out length 2 0 y 0))
+      (return ((pre-concat sp-path- type-name) out length 2 0 y 0)))
     (define ((pre-concat sp-path- type-name 3) out length x1 y1 y2 y3)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare y (array sp-sample-t 3))
       (array-set* y y1 y2 y3)
-      ((pre-concat sp-path- type-name) out length 3 &x1 y 0))
+      (return ((pre-concat sp-path- type-name) out length 3 &x1 y 0)))
     (define ((pre-concat sp-path- type-name 4) out length x1 x2 y1 y2 y3 y4)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare x (array sp-sample-t 2) y (array sp-sample-t 4))
       (array-set* x x1 x2)
       (array-set* y y1 y2 y3 y4)
-      ((pre-concat sp-path- type-name) out length 4 x y 0))
+      (return ((pre-concat sp-path- type-name) out length 4 x y 0)))
     (define ((pre-concat sp-path- type-name 5) out length x1 x2 x3 y1 y2 y3 y4 y5)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare x (array sp-sample-t 3) y (array sp-sample-t 5))
       (array-set* x x1 x2 x3)
       (array-set* y y1 y2 y3 y4 y5)
-      ((pre-concat sp-path- type-name) out length 5 x y 0))
+      (return ((pre-concat sp-path- type-name) out length 5 x y 0)))
     (define ((pre-concat sp-path- type-name _c 2) out length y1 y2 c1)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t)
       (declare y (array sp-sample-t 2))
       (array-set* y y1 y2)
-      ((pre-concat sp-path- type-name) out length 2 0 y &c1))
+      (return ((pre-concat sp-path- type-name) out length 2 0 y &c1)))
     (define ((pre-concat sp-path- type-name _c 3) out length x1 y1 y2 y3 c1 c2)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare y (array sp-sample-t 3) c (array sp-sample-t 2))
       (array-set* y y1 y2 y3)
       (array-set* c c1 c2)
-      ((pre-concat sp-path- type-name) out length 3 &x1 y c))
+      (return ((pre-concat sp-path- type-name) out length 3 &x1 y c)))
     (define ((pre-concat sp-path- type-name _c 4) out length x1 x2 y1 y2 y3 y4 c1 c2 c3)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare x (array sp-sample-t 2) y (array sp-sample-t 4) c (array sp-sample-t 3))
       (array-set* x x1 x2)
       (array-set* y y1 y2 y3 y4)
       (array-set* c c1 c2 c3)
-      ((pre-concat sp-path- type-name) out length 4 x y c))
+      (return ((pre-concat sp-path- type-name) out length 4 x y c)))
     (define ((pre-concat sp-path- type-name _c 5) out length x1 x2 x3 y1 y2 y3 y4 y5 c1 c2 c3 c4)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare x (array sp-sample-t 3) y (array sp-sample-t 5) c (array sp-sample-t 4))
       (array-set* x x1 x2 x3)
       (array-set* y y1 y2 y3 y4 y5)
       (array-set* c c1 c2 c3 c4)
-      ((pre-concat sp-path- type-name) out length 5 x y c))))
+      (return ((pre-concat sp-path- type-name) out length 5 x y c)))))
 
 (sp-define-path-n samples sp-sample-t)
 (sp-define-path-n times sp-time-t)
-- 
2.43.0


From 52e32e91c1d891844135990273f248f4411c092e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:37 +0000
Subject: [PATCH 42/77] fix: negative curvature of paths was ignored

---
 source/c-precompiled/sph-sp/path.c | 4 ++--
 source/sc/sph-sp/path.sc           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index 6b9761c..7dee2c1 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -16,12 +16,12 @@ status_t sp_path_samples(sp_sample_t** out, sp_time_t length, sp_path_point_coun
   sp_sample_t yn = y[last_point_index];
   sp_sample_t cn = (c ? c[(last_point_index - 1)] : 0);
   segments[0] = spline_path_move(0, (y[0]));
-  segments[last_point_index] = ((cn < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
+  segments[last_point_index] = ((fabs(cn) < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
   for (sp_path_point_count_t i = 1; (i < last_point_index); i += 1) {
     xn = x[(i - 1)];
     yn = y[i];
     cn = (c ? c[(i - 1)] : 0);
-    segments[i] = ((cn < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
+    segments[i] = ((fabs(cn) < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
   };
   spline_path_set((&path), segments, point_count);
   status_require((sp_samples_new(length, out)));
diff --git a/source/sc/sph-sp/path.sc b/source/sc/sph-sp/path.sc
index 8388ae9..c2ddc09 100644
--- a/source/sc/sph-sp/path.sc
+++ b/source/sc/sph-sp/path.sc
@@ -18,14 +18,14 @@
   (set
     (array-get segments 0) (spline-path-move 0 (array-get y 0))
     (array-get segments last-point-index)
-    (if* (< cn 1.0e-5) (spline-path-line xn yn) (spline-path-bezier-arc xn yn cn)))
+    (if* (< (fabs cn) 1.0e-5) (spline-path-line xn yn) (spline-path-bezier-arc xn yn cn)))
   (for ((define i sp-path-point-count-t 1) (< i last-point-index) (set+ i 1))
     (set
       xn (array-get x (- i 1))
       yn (array-get y i)
       cn (if* c (array-get c (- i 1)) 0)
       (array-get segments i)
-      (if* (< cn 1.0e-5) (spline-path-line xn yn) (spline-path-bezier-arc xn yn cn))))
+      (if* (< (fabs cn) 1.0e-5) (spline-path-line xn yn) (spline-path-bezier-arc xn yn cn))))
   (spline-path-set &path segments point-count)
   (status-require (sp-samples-new length out))
   (spline-path-get &path 0 length *out)
-- 
2.43.0


From c88ea52d7dc2f18bf6e43e78c73cd6fb61fdbf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:43 +0000
Subject: [PATCH 43/77] fix: envelopes from arrays skipped the first points,
 used uninitialised values and changed the given x values

---
 source/c-precompiled/sph-sp/path.c | 28 ++++++++++++++---------
 source/sc/sph-sp/path.sc           | 36 +++++++++++++++++-------------
 2 files changed, 37 insertions(+), 27 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index 7dee2c1..f68a420 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -129,19 +129,22 @@ exit:
 sp_define_path_n(samples, sp_sample_t)
   sp_define_path_n(times, sp_time_t)
 
-  /** x, y and c length is point_count minus two.
+  /** x and y length is point_count minus two.
+     c length is point_count minus one.
      x values will be multiplied by length.
      x values will be cumulative (0.1, 0.2) -> 0.3 */
   status_t sp_envelope_zero(sp_sample_t** out, sp_time_t length, sp_path_point_count_t point_count, sp_sample_t* x, sp_sample_t* y, sp_sample_t* c) {
+  sp_sample_t path_x[sp_path_point_count_limit];
   sp_sample_t path_y[sp_path_point_count_limit];
-  x[1] *= length;
+  sp_sample_t sum = 0;
   path_y[0] = 0;
   path_y[(point_count - 1)] = 0;
-  for (sp_path_point_count_t i = 2; (i < (point_count - 1)); i += 1) {
-    x[i] = (x[(i - 1)] + (x[i] * length));
-    path_y[i] = y[i];
+  for (sp_path_point_count_t i = 1; (i < (point_count - 1)); i += 1) {
+    sum += (x[(i - 1)] * length);
+    path_x[(i - 1)] = sum;
+    path_y[i] = y[(i - 1)];
   };
-  return ((sp_path_samples(out, length, point_count, x, path_y, c)));
+  return ((sp_path_samples(out, length, point_count, path_x, path_y, c)));
 }
 #define sp_define_envelope_zero_n(prefix, type_name, type) \
   status_t prefix##3(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t y1) { return ((sp_path_##type_name##3(out, length, (x1 * length), 0, y1, 0))); } \
@@ -162,20 +165,23 @@ sp_define_path_n(samples, sp_sample_t)
   }
 sp_define_envelope_zero_n(sp_envelope_zero, samples, sp_sample_t)
 
-  /** y and c length is point_count.
+  /** y length is point_count.
+     c length is point_count minus one.
      x length is point_count minus two.
      x values will be cumulative (0.1, 0.2) -> 0.3.
      x values will be multiplied by length */
   status_t sp_envelope_scaled(sp_time_t** out, sp_time_t length, sp_path_point_count_t point_count, sp_sample_t y_scalar, sp_sample_t* x, sp_sample_t* y, sp_sample_t* c) {
+  sp_sample_t path_x[sp_path_point_count_limit];
   sp_sample_t path_y[sp_path_point_count_limit];
-  x[1] *= length;
+  sp_sample_t sum = 0;
   path_y[0] = (y_scalar * y[0]);
   path_y[(point_count - 1)] = (y_scalar * y[(point_count - 1)]);
-  for (sp_path_point_count_t i = 2; (i < (point_count - 1)); i += 1) {
-    x[i] = (x[(i - 1)] + (x[i] * length));
+  for (sp_path_point_count_t i = 1; (i < (point_count - 1)); i += 1) {
+    sum += (x[(i - 1)] * length);
+    path_x[(i - 1)] = sum;
     path_y[i] = (y_scalar * y[i]);
   };
-  return ((sp_path_times(out, length, point_count, x, path_y, c)));
+  return ((sp_path_times(out, length, point_count, path_x, path_y, c)));
 }
 #define sp_define_envelope_scaled_n(prefix, type_name, type) \
   status_t prefix##3(type * *out, sp_time_t length, sp_sample_t y_scalar, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3) { return ((sp_path_##type_name##3(out, length, (x1 * length), (y1 * y_scalar), (y2 * y_scalar), (y3 * y_scalar)))); } \
diff --git a/source/sc/sph-sp/path.sc b/source/sc/sph-sp/path.sc
index c2ddc09..83cf93a 100644
--- a/source/sc/sph-sp/path.sc
+++ b/source/sc/sph-sp/path.sc
@@ -95,17 +95,19 @@
 
 (define (sp-envelope-zero out length point-count x y c)
   (status-t sp-sample-t** sp-time-t sp-path-point-count-t sp-sample-t* sp-sample-t* sp-sample-t*)
-  "x, y and c length is point_count minus two.
+  "x and y length is point_count minus two.
+   c length is point_count minus one.
    x values will be multiplied by length.
    x values will be cumulative (0.1, 0.2) -> 0.3"
-  (declare path-y (array sp-sample-t sp-path-point-count-limit))
-  (set* (array-get x 1) length)
+  (declare
+    path-x (array sp-sample-t sp-path-point-count-limit)
+    path-y (array sp-sample-t sp-path-point-count-limit))
+  (define sum sp-sample-t 0)
   (set (array-get path-y 0) 0 (array-get path-y (- point-count 1)) 0)
-  (for ((define i sp-path-point-count-t 2) (< i (- point-count 1)) (set+ i 1))
-    (set
-      (array-get x i) (+ (array-get x (- i 1)) (* (array-get x i) length))
-      (array-get path-y i) (array-get y i)))
-  (return (sp-path-samples out length point-count x path-y c)))
+  (for ((define i sp-path-point-count-t 1) (< i (- point-count 1)) (set+ i 1))
+    (set+ sum (* (array-get x (- i 1)) length))
+    (set (array-get path-x (- i 1)) sum (array-get path-y i) (array-get y (- i 1))))
+  (return (sp-path-samples out length point-count path-x path-y c)))
 
 (pre-define (sp-define-envelope-zero-n prefix type-name type)
   (begin
@@ -140,20 +142,22 @@
 
 (define (sp-envelope-scaled out length point-count y-scalar x y c)
   (status-t sp-time-t** sp-time-t sp-path-point-count-t sp-sample-t sp-sample-t* sp-sample-t* sp-sample-t*)
-  "y and c length is point_count.
+  "y length is point_count.
+   c length is point_count minus one.
    x length is point_count minus two.
    x values will be cumulative (0.1, 0.2) -> 0.3.
    x values will be multiplied by length"
-  (declare path-y (array sp-sample-t sp-path-point-count-limit))
-  (set* (array-get x 1) length)
+  (declare
+    path-x (array sp-sample-t sp-path-point-count-limit)
+    path-y (array sp-sample-t sp-path-point-count-limit))
+  (define sum sp-sample-t 0)
   (set
     (array-get path-y 0) (* y-scalar (array-get y 0))
     (array-get path-y (- point-count 1)) (* y-scalar (array-get y (- point-count 1))))
-  (for ((define i sp-path-point-count-t 2) (< i (- point-count 1)) (set+ i 1))
-    (set
-      (array-get x i) (+ (array-get x (- i 1)) (* (array-get x i) length))
-      (array-get path-y i) (* y-scalar (array-get y i))))
-  (return (sp-path-times out length point-count x path-y c)))
+  (for ((define i sp-path-point-count-t 1) (< i (- point-count 1)) (set+ i 1))
+    (set+ sum (* (array-get x (- i 1)) length))
+    (set (array-get path-x (- i 1)) sum (array-get path-y i) (* y-scalar (array-get y i))))
+  (return (sp-path-times out length point-count path-x path-y c)))
 
 (pre-define (sp-define-envelope-scaled-n prefix type-name type)
   (begin
-- 
2.43.0


From 47a4a7186327f846103b8c9240ec6135388d13ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:51 +0000
Subject: [PATCH 44/77] fix: sp_path_times leaked the sampled path if the
 conversion failed

---
 source/c-precompiled/sph-sp/path.c | 5 ++++-
 source/sc/sph-sp/path.sc           | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index f68a420..1d54b6c 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -33,10 +33,13 @@ exit:
 /** c is for curvature and values are between -1.0 and 1.0 */
 status_t sp_path_times(sp_time_t** out, sp_time_t length, sp_path_point_count_t point_count, sp_sample_t* x, sp_sample_t* y, sp_sample_t* c) {
   status_declare;
-  sp_sample_t* temp;
+  sp_sample_t* temp = 0;
   status_require((sp_path_samples((&temp), length, point_count, x, y, c)));
   status_require((sp_samples_to_times_replace(temp, length, out)));
 exit:
+  if (status_is_failure) {
+    free(temp);
+  };
   status_return;
 }
 #define sp_define_path_n(type_name, type) \
diff --git a/source/sc/sph-sp/path.sc b/source/sc/sph-sp/path.sc
index 83cf93a..8409c21 100644
--- a/source/sc/sph-sp/path.sc
+++ b/source/sc/sph-sp/path.sc
@@ -35,10 +35,10 @@
   (status-t sp-time-t** sp-time-t sp-path-point-count-t sp-sample-t* sp-sample-t* sp-sample-t*)
   "c is for curvature and values are between -1.0 and 1.0"
   status-declare
-  (declare temp sp-sample-t*)
+  (define temp sp-sample-t* 0)
   (status-require (sp-path-samples &temp length point-count x y c))
   (status-require (sp-samples->times-replace temp length out))
-  (label exit status-return))
+  (label exit (if status-is-failure (free temp)) status-return))
 
 (pre-define (sp-define-path-n type-name type)
   (begin
-- 
2.43.0


From 88e77c220488fe5a52c605ffafb54544f7e0c391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 45/77] fix: spline path queries that start in an earlier
 segment than the last one processed skipped segments

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 2ccec1c..fe203e0 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -21,15 +21,21 @@ void spline_path_get(spline_path_t* path, size_t start, size_t end, spline_path_
   size_t s_start;
   size_t s_end;
   size_t out_start;
-  for (spline_path_segment_count_t i = ((start < path->previous_start) ? 0 : path->current_segment_index); (i < path->segments_count); path->current_segment_index = i, i += 1) {
+  spline_path_segment_count_t i = ((start < path->previous_start) ? 0 : path->current_segment_index);
+  path->previous_start = start;
+  /* skip segments that end before start. later queries with the same or a higher start can continue here */
+  while ((i < path->segments_count) && (start >= (size_t)((((path->segments)[i]).points)[(((path->segments)[i]).points_count - 1)]).x)) {
+    i += 1;
+  };
+  path->current_segment_index = i;
+  for (; (i < path->segments_count); i += 1) {
     s = (path->segments + i);
     s_start = ((s->points)[0]).x;
     s_end = ((s->points)[(s->points_count - 1)]).x;
-    path->previous_start = start;
-    if (s_start > end) {
+    if (s_start >= end) {
       break;
     };
-    if (s_end < start) {
+    if ((s_end <= start) || (s_end <= s_start)) {
       continue;
     };
     out_start = ((s_start > start) ? (s_start - start) : 0);
-- 
2.43.0


From 6441c11a737e9a92e274d34300cacae1e62404cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:38 +0000
Subject: [PATCH 46/77] fix: sections of spline path lines between fractional
 points differed from the whole line

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index fe203e0..97ef01f 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -154,7 +154,7 @@ void spline_path_line_generate(size_t start, size_t end, spline_path_segment_t*
   p_start = (s->points)[0];
   p_end = (s->points)[1];
   s_size = (p_end.x - p_start.x);
-  s_offset = (start - p_start.x);
+  s_offset = (start - ((size_t)(p_start.x)));
   for (size_t i = 0; (i < (end - start)); i += 1) {
     t = ((i + s_offset) / s_size);
     out[i] = linearly_interpolate((p_start.y), (p_end.y), t);
-- 
2.43.0


From 95d32f9c13bbe2c07be809e217425e6a97f7deb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:44 +0000
Subject: [PATCH 47/77] fix: sections of bezier curves were written outside of
 the output array and differed from the whole curve

---
 .../c/foreign/sph-sc-lib/sph-sp/spline-path.c | 53 +++++++------------
 1 file changed, 20 insertions(+), 33 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 97ef01f..764eaa7 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -162,8 +162,8 @@ void spline_path_line_generate(size_t start, size_t end, spline_path_segment_t*
 }
 void spline_path_path_generate(size_t start, size_t end, spline_path_segment_t* s, spline_path_value_t* out) { spline_path_get(((spline_path_t*)(s->data)), (start - s->points->x), (end - s->points->x), out); }
 
-/** quadratic bezier curve with one control point.
-   bezier interpolation also interpolates x. higher resolution sampling and linear interpolation are used to fill gaps */
+/** bezier interpolation also interpolates x. higher resolution sampling and linear interpolation are used to fill gaps.
+   always follows the curve from its beginning so that the values do not depend on start and end */
 void spline_path_beziern_generate(spline_path_value_t (*interpolator)(spline_path_value_t, spline_path_value_t, spline_path_point_t*, size_t), size_t start, size_t end, spline_path_segment_t* s, spline_path_value_t* out) {
   spline_path_value_t mt;
   spline_path_point_t p_end;
@@ -177,44 +177,31 @@ void spline_path_beziern_generate(spline_path_value_t (*interpolator)(spline_pat
   size_t i;
   size_t j;
   spline_path_value_t y;
+  spline_path_value_t x_value;
   p_start = (s->points)[0];
   p_end = (s->points)[(s->points_count - 1)];
-  b_size = (spline_path_bezier_resolution * (end - start));
   s_size = (spline_path_bezier_resolution * (p_end.x - p_start.x));
-  for (i = (start - p_start.x), x_previous = start; ((i < b_size) || (x < end)); i += 1, x_previous = x) {
-    t = (i / s_size);
+  b_size = ceil(s_size);
+  x_previous = p_start.x;
+  y_previous = p_start.y;
+  if (start == x_previous) {
+    out[0] = y_previous;
+  };
+  for (i = 0; (i <= b_size); i += 1) {
+    t = ((i < b_size) ? (i / s_size) : 1.0);
     mt = (1.0 - t);
-    x = round((interpolator(t, mt, (s->points), (offsetof(spline_path_point_t, x)))));
+    x_value = round((interpolator(t, mt, (s->points), (offsetof(spline_path_point_t, x)))));
+    x = ((x_value < 0) ? 0 : x_value);
     y = interpolator(t, mt, (s->points), (offsetof(spline_path_point_t, y)));
-    if (x < end) {
-      out[(x - start)] = y;
-    };
-    if (2 > (x - x_previous)) {
-      continue;
+    /* values for the gap up to x */
+    for (j = ((x_previous < start) ? start : (1 + x_previous)); ((j < x) && (j < end)); j += 1) {
+      out[(j - start)] = linearly_interpolate(y_previous, y, ((j - x_previous) / ((spline_path_value_t)((x - x_previous)))));
     };
-    if (start < x_previous) {
-      y_previous = out[(x_previous - start)];
-    } else {
-      /* gap at the beginning. find value for x before start */
-      for (j = i; j; j -= 1) {
-        t = (j / s_size);
-        mt = (1.0 - t);
-        x_previous = round((interpolator(t, mt, (s->points), (offsetof(spline_path_point_t, x)))));
-        if (x_previous < x) {
-          break;
-        };
-      };
-      if (j) {
-        y_previous = p_start.y;
-      } else {
-        y_previous = p_start.y;
-        x_previous = p_start.x;
-      };
-    };
-    for (j = 1; (j < (x - x_previous)); j += 1) {
-      t = (j / ((spline_path_value_t)((x - x_previous))));
-      out[((x_previous + j) - start)] = linearly_interpolate(y_previous, y, t);
+    if ((x >= start) && (x < end)) {
+      out[(x - start)] = y;
     };
+    x_previous = x;
+    y_previous = y;
   };
 }
 spline_path_value_t spline_path_bezier1_interpolate_points(spline_path_value_t t, spline_path_value_t mt, spline_path_point_t* points, size_t field_offset) { return ((spline_path_bezier1_interpolate(t, mt, (spline_path_points_get_with_offset(points, 0, field_offset)), (spline_path_points_get_with_offset(points, 1, field_offset)), (spline_path_points_get_with_offset(points, 2, field_offset))))); }
-- 
2.43.0


From 4c0071a543f7e4251ce8c27056a795fcbd76bc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:53 +0000
Subject: [PATCH 48/77] fix: curvature moved points of horizontal and steep
 descending lines out of the rectangle between them

---
 .../c/foreign/sph-sc-lib/sph-sp/spline-path.c | 31 ++++++-------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 764eaa7..c7442d2 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -295,45 +295,34 @@ spline_path_point_t spline_path_perpendicular_point(spline_path_point_t p1, spli
   /* perpendicular direction vector */
   d.x = (-1 * (p2.y - p1.y));
   d.y = (p2.x - p1.x);
-  /* vertical, horizontal or else */
-  if (0 == d.x) {
-    i1.x = c.x;
-    i1.y = 0;
-    i2.x = c.x;
-    i2.y = p2.y;
-  } else if (0 == d.y) {
-    i1.x = 0;
-    i1.y = c.y;
-    i2.x = p2.x;
-    i2.y = c.y;
+  /* vertical and horizontal lines have no space around them in the rectangle */
+  if ((0 == d.x) || (0 == d.y)) {
+    return (c);
   } else {
-    /* border points */
-    if (d.x > 0) {
-      b1.x = p2.x;
-      b2.x = p1.x;
-    } else {
-      b1.x = p1.x;
-      b2.x = p2.x;
-    };
+    /* border points. perpendicular lines meet the nearer border first */
+    b1.x = p1.x;
+    b2.x = p2.x;
     if (d.y > 0) {
       b1.y = p2.y;
       b2.y = p1.y;
     } else {
       b1.y = p1.y;
       b2.y = p2.y;
+      b1.x = p2.x;
+      b2.x = p1.x;
     };
     t1.x = ((b1.x - c.x) / d.x);
     t1.y = ((b1.y - c.y) / d.y);
     t2.x = ((b2.x - c.x) / d.x);
     t2.y = ((b2.y - c.y) / d.y);
-    if (t1.x <= t1.y) {
+    if (fabs(t1.x) <= fabs(t1.y)) {
       i1.x = b1.x;
       i1.y = (c.y + (t1.x * d.y));
     } else {
       i1.y = b1.y;
       i1.x = (c.x + (t1.y * d.x));
     };
-    if (t2.x >= t2.y) {
+    if (fabs(t2.x) <= fabs(t2.y)) {
       i2.x = b2.x;
       i2.y = (c.y + (t2.x * d.y));
     } else {
-- 
2.43.0


From eb244c40860c0bd9d652289c8bfbafafb61d342d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:00 +0000
Subject: [PATCH 49/77] fix: paths used as segments of other paths were never
 drawn

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index c7442d2..7e9ce8b 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -63,6 +63,7 @@ size_t spline_path_size(spline_path_t path) {
 }
 uint8_t spline_path_path_prepare(spline_path_segment_t* s) {
   (s->points)[1] = spline_path_end((*((spline_path_t*)(s->data))));
+  ((s->points)[1]).x += ((s->points)[0]).x;
   return (0);
 }
 uint8_t spline_path_constant_prepare(spline_path_segment_t* s) {
@@ -160,7 +161,7 @@ void spline_path_line_generate(size_t start, size_t end, spline_path_segment_t*
     out[i] = linearly_interpolate((p_start.y), (p_end.y), t);
   };
 }
-void spline_path_path_generate(size_t start, size_t end, spline_path_segment_t* s, spline_path_value_t* out) { spline_path_get(((spline_path_t*)(s->data)), (start - s->points->x), (end - s->points->x), out); }
+void spline_path_path_generate(size_t start, size_t end, spline_path_segment_t* s, spline_path_value_t* out) { spline_path_get(((spline_path_t*)(s->data)), (start - ((size_t)(s->points->x))), (end - ((size_t)(s->points->x))), out); }
 
 /** bezier interpolation also interpolates x. higher resolution sampling and linear interpolation are used to fill gaps.
    always follows the curve from its beginning so that the values do not depend on start and end */
@@ -246,7 +247,7 @@ spline_path_segment_t spline_path_path(spline_path_t path) {
   };
   s.free = free;
   s.generate = spline_path_path_generate;
-  s.points_count = 1;
+  s.points_count = 2;
   s.prepare = spline_path_path_prepare;
   return (s);
 }
-- 
2.43.0


From 0ee62ae8ddb7a56601a3afa3e28d35d7ead21a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 50/77] fix: sp_file_read returned an undefined status

---
 source/c-precompiled/sph-sp/file.c | 9 +++++----
 source/sc/sph-sp/file.sc           | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index ea0912c..ba13df1 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -92,16 +92,16 @@ exit:
 }
 status_t sp_file_read(sp_file_t file, sp_time_t sample_count, sp_sample_t** samples) {
   status_declare;
-  sp_time_t interleaved_count;
+  size_t interleaved_count;
   float* file_data;
-  sp_time_t read;
+  size_t read;
   file_data = 0;
-  interleaved_count = (file.channel_count * sample_count);
+  interleaved_count = (((size_t)(file.channel_count)) * sample_count);
   srq((sph_helper_malloc((4 * interleaved_count), (&file_data))));
   read = fread(file_data, 4, interleaved_count, (file.file));
   if (!(interleaved_count == read)) {
     if (feof((file.file))) {
-      if (!read) {
+      if (read < file.channel_count) {
         sp_status_set_goto(sp_s_id_file_eof);
       };
     } else {
@@ -115,5 +115,6 @@ status_t sp_file_read(sp_file_t file, sp_time_t sample_count, sp_sample_t** samp
   };
 exit:
   free(file_data);
+  status_return;
 }
 void sp_file_close_read(sp_file_t file) { fclose((file.file)); }
diff --git a/source/sc/sph-sp/file.sc b/source/sc/sph-sp/file.sc
index 9c5c7c1..441fdea 100644
--- a/source/sc/sph-sp/file.sc
+++ b/source/sc/sph-sp/file.sc
@@ -84,18 +84,19 @@
 
 (define (sp-file-read file sample-count samples) (status-t sp-file-t sp-time-t sp-sample-t**)
   status-declare
-  (declare interleaved-count sp-time-t file-data float* read sp-time-t)
-  (set file-data 0 interleaved-count (* file.channel-count sample-count))
+  (declare interleaved-count size-t file-data float* read size-t)
+  (set file-data 0 interleaved-count (* (convert-type file.channel-count size-t) sample-count))
   (srq (sph-helper-malloc (* 4 interleaved-count) &file-data))
   (set read (fread file-data 4 interleaved-count file.file))
   (if (not (= interleaved-count read))
-    (if (feof file.file) (if (not read) (sp-status-set-goto sp-s-id-file-eof))
+    (if (feof file.file)
+      (if (< read file.channel-count) (sp-status-set-goto sp-s-id-file-eof))
       (sp-status-set-goto sp-s-id-file-read)))
   (for-each-index i sp-time-t
     (/ read file.channel-count)
     (for-each-index j sp-channel-count-t
       file.channel-count
       (set (array-get (array-get samples j) i) (array-get file-data (+ (* i file.channel-count) j)))))
-  (label exit (free file-data)))
+  (label exit (free file-data) status-return))
 
 (define (sp-file-close-read file) (void sp-file-t) (fclose file.file))
\ No newline at end of file
-- 
2.43.0


From b77c8047af60594f0ed96a136ffbdbe331ffb588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:50 +0000
Subject: [PATCH 51/77] fix: writing zero samples to a file was reported as a
 failure

---
 source/c-precompiled/sph-sp/file.c | 5 ++++-
 source/sc/sph-sp/file.sc           | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index ba13df1..a2c7397 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -49,7 +49,10 @@ status_t sp_file_write(sp_file_t* file, sp_sample_t** samples, sp_time_t sample_
   sp_channel_count_t channel_count;
   file_data = 0;
   channel_count = file->channel_count;
-  interleaved_size = (channel_count * sample_count * 4);
+  if (!(channel_count && sample_count)) {
+    goto exit;
+  };
+  interleaved_size = (((size_t)(channel_count)) * sample_count * 4);
   srq((sph_helper_malloc(interleaved_size, (&file_data))));
   for (sp_time_t i = 0; (i < sample_count); i += 1) {
     for (sp_channel_count_t j = 0; (j < channel_count); j += 1) {
diff --git a/source/sc/sph-sp/file.sc b/source/sc/sph-sp/file.sc
index 441fdea..c0f5c58 100644
--- a/source/sc/sph-sp/file.sc
+++ b/source/sc/sph-sp/file.sc
@@ -45,8 +45,9 @@
   (declare file-data float* interleaved-size size-t channel-count sp-channel-count-t)
   (set
     file-data 0
-    channel-count file:channel-count
-    interleaved-size (* channel-count sample-count 4))
+    channel-count file:channel-count)
+  (if (not (and channel-count sample-count)) (goto exit))
+  (set interleaved-size (* (convert-type channel-count size-t) sample-count 4))
   (srq (sph-helper-malloc interleaved-size &file-data))
   (for-each-index i sp-time-t
     sample-count
-- 
2.43.0


From 7427d55566d39f1b7e93b2e5653f1205471e83b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:37 +0000
Subject: [PATCH 52/77] fix: opening files to read crashed for missing files,
 leaked file handles, never set the channel count and ignored the size of the
 format chunk

---
 source/c-precompiled/sph-sp/file.c | 34 ++++++++++++++++++++++++------
 source/sc/sph-sp/file.sc           | 31 +++++++++++++++++++++------
 2 files changed, 51 insertions(+), 14 deletions(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index a2c7397..c156caf 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -69,28 +69,48 @@ exit:
 }
 status_t sp_file_open_read(uint8_t* path, sp_file_t* file) {
   status_declare;
-  uint8_t header[44];
+  uint8_t header[36];
   uint32_t subchunk_id;
   uint32_t subchunk_size;
+  uint16_t channel_count;
   file->file = fopen(path, "r");
-  if (!(fread(header, 44, 1, (file->file)) && (*((uint32_t*)(header)) == wav_string_riff) && (*((uint32_t*)((8 + header))) == wav_string_wav) && (*((uint32_t*)((12 + header))) == wav_string_fmt))) {
+  if (!file->file) {
+    status_set_goto(sp_s_group_libc, errno);
+  };
+  if (!(fread(header, 36, 1, (file->file)) && (*((uint32_t*)(header)) == wav_string_riff) && (*((uint32_t*)((8 + header))) == wav_string_wav) && (*((uint32_t*)((12 + header))) == wav_string_fmt))) {
     sp_status_set_goto(sp_s_id_file_read);
   };
   if (!((3 == *((uint16_t*)((20 + header)))) && (32 == *((uint16_t*)((34 + header)))))) {
     sp_status_set_goto(sp_s_id_file_not_implemented);
   };
-  subchunk_id = *((uint32_t*)((36 + header)));
-  subchunk_size = *((uint32_t*)((40 + header)));
-  while (!(wav_string_data == subchunk_id)) {
-    fseek((file->file), subchunk_size, SEEK_CUR);
+  channel_count = *((uint16_t*)((22 + header)));
+  file->channel_count = channel_count;
+  if (!(channel_count && (channel_count == file->channel_count))) {
+    sp_status_set_goto(sp_s_id_file_not_implemented);
+  };
+  /* skip the rest of the format chunk and other chunks. chunks are padded to even sizes */
+  subchunk_size = *((uint32_t*)((16 + header)));
+  if (subchunk_size < 16) {
+    sp_status_set_goto(sp_s_id_file_read);
+  };
+  subchunk_size -= 16;
+  do {
+    if (fseek((file->file), (((long)(subchunk_size)) + (subchunk_size & 1)), SEEK_CUR)) {
+      sp_status_set_goto(sp_s_id_file_read);
+    };
     if (!fread((&subchunk_id), 4, 1, (file->file))) {
       sp_status_set_goto(sp_s_id_file_read);
     };
     if (!fread((&subchunk_size), 4, 1, (file->file))) {
       sp_status_set_goto(sp_s_id_file_read);
     };
-  };
+  } while (!(wav_string_data == subchunk_id));
+  file->data_size = subchunk_size;
 exit:
+  if (status_is_failure && file->file) {
+    fclose((file->file));
+    file->file = 0;
+  };
   status_return;
 }
 status_t sp_file_read(sp_file_t file, sp_time_t sample_count, sp_sample_t** samples) {
diff --git a/source/sc/sph-sp/file.sc b/source/sc/sph-sp/file.sc
index c0f5c58..d53ac98 100644
--- a/source/sc/sph-sp/file.sc
+++ b/source/sc/sph-sp/file.sc
@@ -60,11 +60,16 @@
 
 (define (sp-file-open-read path file) (status-t uint8-t* sp-file-t*)
   status-declare
-  (declare header (array uint8-t 44) subchunk-id uint32-t subchunk-size uint32-t)
+  (declare
+    header (array uint8-t 36)
+    subchunk-id uint32-t
+    subchunk-size uint32-t
+    channel-count uint16-t)
   (set file:file (fopen path "r"))
+  (if (not file:file) (status-set-goto sp-s-group-libc errno))
   (if
     (not
-      (and (fread header 44 1 file:file)
+      (and (fread header 36 1 file:file)
         (= (pointer-get (convert-type header uint32-t*)) wav-string-riff)
         (= (pointer-get (convert-type (+ 8 header) uint32-t*)) wav-string-wav)
         (= (pointer-get (convert-type (+ 12 header) uint32-t*)) wav-string-fmt)))
@@ -75,13 +80,25 @@
         (= 32 (pointer-get (convert-type (+ 34 header) uint16-t*)))))
     (sp-status-set-goto sp-s-id-file-not-implemented))
   (set
-    subchunk-id (pointer-get (convert-type (+ 36 header) uint32-t*))
-    subchunk-size (pointer-get (convert-type (+ 40 header) uint32-t*)))
-  (while (not (= wav-string-data subchunk-id))
-    (fseek file:file subchunk-size SEEK_CUR)
+    channel-count (pointer-get (convert-type (+ 22 header) uint16-t*))
+    file:channel-count channel-count)
+  (if (not (and channel-count (= channel-count file:channel-count)))
+    (sp-status-set-goto sp-s-id-file-not-implemented))
+  (sc-comment
+    "skip the rest of the format chunk and other chunks. chunks are padded to even sizes")
+  (set subchunk-size (pointer-get (convert-type (+ 16 header) uint32-t*)))
+  (if (< subchunk-size 16) (sp-status-set-goto sp-s-id-file-read))
+  (set- subchunk-size 16)
+  (do-while (not (= wav-string-data subchunk-id))
+    (if
+      (fseek file:file (+ (convert-type subchunk-size long) (bit-and subchunk-size 1)) SEEK_CUR)
+      (sp-status-set-goto sp-s-id-file-read))
     (if (not (fread &subchunk-id 4 1 file:file)) (sp-status-set-goto sp-s-id-file-read))
     (if (not (fread &subchunk-size 4 1 file:file)) (sp-status-set-goto sp-s-id-file-read)))
-  (label exit status-return))
+  (set file:data-size subchunk-size)
+  (label exit
+    (if (and status-is-failure file:file) (begin (fclose file:file) (set file:file 0)))
+    status-return))
 
 (define (sp-file-read file sample-count samples) (status-t sp-file-t sp-time-t sp-sample-t**)
   status-declare
-- 
2.43.0


From 9149884d42356179ad04a3d33e305854eed7e469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:43 +0000
Subject: [PATCH 53/77] fix: errors of writing buffered samples and header
 sizes to files were lost

---
 source/c-precompiled/sph-sp/file.c | 24 +++++++++++++++++-------
 source/c-precompiled/sph-sp/main.h |  2 +-
 source/sc/sph-sp/file.sc           | 24 +++++++++++++++---------
 source/sc/sph-sp/main.h.sc         |  2 +-
 4 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index c156caf..38bec09 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -29,18 +29,28 @@ status_t sp_file_open_write(uint8_t* path, sp_channel_count_t channel_count, sp_
     fclose((file->file));
     sp_status_set_goto(sp_s_id_file_write);
   };
-  fseek((file->file), 4, SEEK_CUR);
+  if (fseek((file->file), 4, SEEK_CUR)) {
+    fclose((file->file));
+    sp_status_set_goto(sp_s_id_file_write);
+  };
 exit:
   status_return;
 }
-void sp_file_close_write(sp_file_t* file) {
+
+/** writes the sizes to the header and closes the file in any case.
+   fails if the sizes or buffered samples can not be written */
+status_t sp_file_close_write(sp_file_t* file) {
+  status_declare;
   uint32_t chunk_size;
+  int error;
   chunk_size = (36 + file->data_size);
-  fseek((file->file), 4, SEEK_SET);
-  fwrite((&chunk_size), 4, 1, (file->file));
-  fseek((file->file), 40, SEEK_SET);
-  fwrite((&(file->data_size)), 4, 1, (file->file));
-  fclose((file->file));
+  error = (fseek((file->file), 4, SEEK_SET) || !fwrite((&chunk_size), 4, 1, (file->file)) || fseek((file->file), 40, SEEK_SET) || !fwrite((&(file->data_size)), 4, 1, (file->file)));
+  error = (fclose((file->file)) || error);
+  if (error) {
+    sp_status_set_goto(sp_s_id_file_write);
+  };
+exit:
+  status_return;
 }
 status_t sp_file_write(sp_file_t* file, sp_sample_t** samples, sp_time_t sample_count) {
   status_declare;
diff --git a/source/c-precompiled/sph-sp/main.h b/source/c-precompiled/sph-sp/main.h
index 5b54b2c..69ac748 100644
--- a/source/c-precompiled/sph-sp/main.h
+++ b/source/c-precompiled/sph-sp/main.h
@@ -135,7 +135,7 @@ void sp_deinitialize();
 int sp_ffti(sp_time_t input_len, double* input_or_output_real, double* input_or_output_imag);
 int sp_fft(sp_time_t input_len, double* input_or_output_real, double* input_or_output_imag);
 void sp_file_close_read(sp_file_t file);
-void sp_file_close_write(sp_file_t* file);
+status_t sp_file_close_write(sp_file_t* file);
 status_t sp_file_open_read(uint8_t* path, sp_file_t* file);
 status_t sp_file_open_write(uint8_t* path, sp_channel_count_t channel_count, sp_time_t sample_rate, sp_file_t* file);
 status_t sp_file_read(sp_file_t file, sp_time_t sample_count, sp_sample_t** samples);
diff --git a/source/sc/sph-sp/file.sc b/source/sc/sph-sp/file.sc
index d53ac98..beaaa37 100644
--- a/source/sc/sph-sp/file.sc
+++ b/source/sc/sph-sp/file.sc
@@ -28,17 +28,23 @@
   (if (not file:file) (status-set-goto sp-s-group-libc errno))
   (if (not (fwrite header 40 1 file:file))
     (begin (fclose file:file) (sp-status-set-goto sp-s-id-file-write)))
-  (fseek file:file 4 SEEK_CUR)
+  (if (fseek file:file 4 SEEK_CUR)
+    (begin (fclose file:file) (sp-status-set-goto sp-s-id-file-write)))
   (label exit status-return))
 
-(define (sp-file-close-write file) (void sp-file-t*)
-  (declare chunk-size uint32-t)
-  (set chunk-size (+ 36 file:data-size))
-  (fseek file:file 4 SEEK_SET)
-  (fwrite &chunk-size 4 1 file:file)
-  (fseek file:file 40 SEEK_SET)
-  (fwrite &file:data-size 4 1 file:file)
-  (fclose file:file))
+(define (sp-file-close-write file) (status-t sp-file-t*)
+  "writes the sizes to the header and closes the file in any case.
+   fails if the sizes or buffered samples can not be written"
+  status-declare
+  (declare chunk-size uint32-t error int)
+  (set
+    chunk-size (+ 36 file:data-size)
+    error
+    (or (fseek file:file 4 SEEK_SET) (not (fwrite &chunk-size 4 1 file:file))
+      (fseek file:file 40 SEEK_SET) (not (fwrite &file:data-size 4 1 file:file)))
+    error (or (fclose file:file) error))
+  (if error (sp-status-set-goto sp-s-id-file-write))
+  (label exit status-return))
 
 (define (sp-file-write file samples sample-count) (status-t sp-file-t* sp-sample-t** sp-time-t)
   status-declare
diff --git a/source/sc/sph-sp/main.h.sc b/source/sc/sph-sp/main.h.sc
index 50929d9..7fdbba2 100644
--- a/source/sc/sph-sp/main.h.sc
+++ b/source/sc/sph-sp/main.h.sc
@@ -136,7 +136,7 @@
   (sp-ffti input-len input/output-real input/output-imag) (int sp-time-t double* double*)
   (sp-fft input-len input/output-real input/output-imag) (int sp-time-t double* double*)
   (sp-file-close-read file) (void sp-file-t)
-  (sp-file-close-write file) (void sp-file-t*)
+  (sp-file-close-write file) (status-t sp-file-t*)
   (sp-file-open-read path file) (status-t uint8-t* sp-file-t*)
   (sp-file-open-write path channel-count sample-rate file)
   (status-t uint8-t* sp-channel-count-t sp-time-t sp-file-t*)
-- 
2.43.0


From fd5dbcf83e52194cbac300ab911bd97cb3babcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 54/77] fix: rendering to files ignored the start of the range
 and rendering leaked events and blocks and used unopened files on failure

---
 source/c-precompiled/sph-sp/main.c | 36 +++++++++++++++++++++++-------
 source/sc/sph-sp/main.sc           | 31 ++++++++++++++++---------
 2 files changed, 49 insertions(+), 18 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index ee1d6be..f679e84 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -342,30 +342,43 @@ status_t sp_render_range_file(sp_event_t event, sp_time_t start, sp_time_t end,
   sp_time_t block_end;
   sp_time_t remainder;
   sp_time_t i;
+  sp_bool_t file_open;
+  status_t close_status;
   sp_file_t file;
   sp_block_declare(block);
   sp_declare_event_list(events);
-  status_require((sp_event_list_add((&events), event)));
+  file_open = 0;
+  status = sp_event_list_add((&events), event);
+  if (status_is_failure) {
+    sp_event_free(event);
+    goto exit;
+  };
   status_require((sp_block_new((config.channel_count), (config.block_size), (&block))));
   status_require((sp_file_open_write(path, (config.channel_count), (config.rate), (&file))));
+  file_open = 1;
   remainder = ((end - start) % config.block_size);
   block_end = (config.block_size * ((end - start) / config.block_size));
   for (i = 0; (i < block_end); i += config.block_size) {
     if (config.display_progress) {
       printf(("%.1f%\n"), (100 * (i / ((sp_sample_t)(block_end)))));
     };
-    status_require((sp_seq(i, (i + config.block_size), block, (&events))));
+    status_require((sp_seq((start + i), (start + i + config.block_size), block, (&events))));
     status_require((sp_file_write((&file), (block.samples), (config.block_size))));
     sp_block_zero(block);
   };
   if (remainder) {
-    status_require((sp_seq(i, (i + remainder), block, (&events))));
+    status_require((sp_seq((start + i), (start + i + remainder), block, (&events))));
     status_require((sp_file_write((&file), (block.samples), remainder)));
   };
-  sp_event_list_free((&events));
 exit:
+  sp_event_list_free((&events));
   sp_block_free((&block));
-  sp_file_close_write((&file));
+  if (file_open) {
+    close_status = sp_file_close_write((&file));
+    if (status_is_success) {
+      status = close_status;
+    };
+  };
   status_return;
 }
 
@@ -374,14 +387,21 @@ exit:
    block will be allocated */
 status_t sp_render_range_block(sp_event_t event, sp_time_t start, sp_time_t end, sp_render_config_t config, sp_block_t* out) {
   status_declare;
-  sp_block_t block;
+  sp_block_declare(block);
   sp_declare_event_list(events);
-  status_require((sp_event_list_add((&events), event)));
+  status = sp_event_list_add((&events), event);
+  if (status_is_failure) {
+    sp_event_free(event);
+    goto exit;
+  };
   status_require((sp_block_new((config.channel_count), (end - start), (&block))));
   status_require((sp_seq(start, end, block, (&events))));
-  sp_event_list_free((&events));
   *out = block;
 exit:
+  sp_event_list_free((&events));
+  if (status_is_failure) {
+    sp_block_free((&block));
+  };
   status_return;
 }
 
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 1c57a34..c5c92cb 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -251,27 +251,35 @@
   (status-t sp-event-t sp-time-t sp-time-t sp-render-config-t uint8-t*)
   "render an event with sp_seq to a file. the file is created or overwritten"
   status-declare
-  (declare block-end sp-time-t remainder sp-time-t i sp-time-t file sp-file-t)
+  (declare block-end sp-time-t remainder sp-time-t i sp-time-t file-open sp-bool-t close-status status-t file sp-file-t)
   (sp-block-declare block)
   (sp-declare-event-list events)
-  (status-require (sp-event-list-add &events event))
+  (set file-open #f status (sp-event-list-add &events event))
+  (if status-is-failure (begin (sp-event-free event) (goto exit)))
   (status-require (sp-block-new config.channel-count config.block-size &block))
   (status-require (sp-file-open-write path config.channel-count config.rate &file))
   (set
+    file-open #t
     remainder (modulo (- end start) config.block-size)
     block-end (* config.block-size (/ (- end start) config.block-size)))
   (for ((set i 0) (< i block-end) (set+ i config.block-size))
     (if config.display-progress
       (printf "%.1f%\n" (* 100 (/ i (convert-type block-end sp-sample-t)))))
-    (status-require (sp-seq i (+ i config.block-size) block &events))
+    (status-require (sp-seq (+ start i) (+ start i config.block-size) block &events))
     (status-require (sp-file-write &file block.samples config.block-size))
     (sp-block-zero block))
   (if remainder
     (begin
-      (status-require (sp-seq i (+ i remainder) block &events))
+      (status-require (sp-seq (+ start i) (+ start i remainder) block &events))
       (status-require (sp-file-write &file block.samples remainder))))
-  (sp-event-list-free &events)
-  (label exit (sp-block-free &block) (sp-file-close-write &file) status-return))
+  (label exit
+    (sp-event-list-free &events)
+    (sp-block-free &block)
+    (if file-open
+      (begin
+        (set close-status (sp-file-close-write &file))
+        (if status-is-success (set status close-status))))
+    status-return))
 
 (define (sp-render-range-block event start end config out)
   (status-t sp-event-t sp-time-t sp-time-t sp-render-config-t sp-block-t*)
@@ -279,14 +287,17 @@
    events should have been prepared with sp-seq-events-prepare.
    block will be allocated"
   status-declare
-  (declare block sp-block-t)
+  (sp-block-declare block)
   (sp-declare-event-list events)
-  (status-require (sp-event-list-add &events event))
+  (set status (sp-event-list-add &events event))
+  (if status-is-failure (begin (sp-event-free event) (goto exit)))
   (status-require (sp-block-new config.channel-count (- end start) &block))
   (status-require (sp-seq start end block &events))
-  (sp-event-list-free &events)
   (set *out block)
-  (label exit status-return))
+  (label exit
+    (sp-event-list-free &events)
+    (if status-is-failure (sp-block-free &block))
+    status-return))
 
 (define (sp-render-file event path) (status-t sp-event-t uint8-t*)
   "render the full duration of event to file at path and write information to standard output.
-- 
2.43.0


From 42ddc25bc83d850aa60e2985ff9fb37ede972d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:37 +0000
Subject: [PATCH 55/77] fix: events that could not be prepared for rendering
 and the block of rendered plots leaked

---
 source/c-precompiled/sph-sp/main.c | 19 +++++++++++++++----
 source/sc/sph-sp/main.sc           | 11 +++++++++--
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index f679e84..63023d4 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -409,8 +409,13 @@ exit:
    uses channel count from global variable sp_channel_count and block size sp_rate */
 status_t sp_render_file(sp_event_t event, uint8_t* path) {
   status_declare;
-  if (!event.end) {
-    sp_event_prepare_optional_srq(event);
+  if (!event.end && event.prepare) {
+    status = (event.prepare)((&event));
+    event.prepare = 0;
+    if (status_is_failure) {
+      sp_event_free(event);
+      goto exit;
+    };
   };
   printf("rendering %lu seconds to file %s\n", (event.end / sp_rate), path);
   status_require((sp_render_range_file(event, 0, (event.end), (sp_render_config(sp_channel_count, sp_rate, (sp_render_block_seconds * sp_rate), 1)), path)));
@@ -423,8 +428,13 @@ exit:
 status_t sp_render_plot(sp_event_t event) {
   status_declare;
   sp_block_t block;
-  if (!event.end) {
-    sp_event_prepare_optional_srq(event);
+  if (!event.end && event.prepare) {
+    status = (event.prepare)((&event));
+    event.prepare = 0;
+    if (status_is_failure) {
+      sp_event_free(event);
+      goto exit;
+    };
   };
   if (event.end && (event.end < sp_rate)) {
     printf("rendering %lu milliseconds to plot\n", (event.end / sp_rate / 1000));
@@ -433,6 +443,7 @@ status_t sp_render_plot(sp_event_t event) {
   };
   status_require((sp_render_range_block(event, 0, (event.end), (sp_render_config(sp_channel_count, sp_rate, (sp_render_block_seconds * sp_rate), 1)), (&block))));
   sp_plot_samples(((block.samples)[0]), (event.end));
+  sp_block_free((&block));
 exit:
   status_return;
 }
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index c5c92cb..18ce526 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -303,7 +303,10 @@
   "render the full duration of event to file at path and write information to standard output.
    uses channel count from global variable sp_channel_count and block size sp_rate"
   status-declare
-  (if (not event.end) (sp-event-prepare-optional-srq event))
+  (if (and (not event.end) event.prepare)
+    (begin
+      (set status (event.prepare &event) event.prepare 0)
+      (if status-is-failure (begin (sp-event-free event) (goto exit)))))
   (printf "rendering %lu seconds to file %s\n" (/ event.end sp-rate) path)
   (status-require
     (sp-render-range-file event 0
@@ -316,7 +319,10 @@
    uses channel count from global variable sp_channel_count and block size sp_rate"
   status-declare
   (declare block sp-block-t)
-  (if (not event.end) (sp-event-prepare-optional-srq event))
+  (if (and (not event.end) event.prepare)
+    (begin
+      (set status (event.prepare &event) event.prepare 0)
+      (if status-is-failure (begin (sp-event-free event) (goto exit)))))
   (if (and event.end (< event.end sp-rate))
     (printf "rendering %lu milliseconds to plot\n" (/ event.end sp-rate 1000))
     (printf "rendering %lu seconds to plot\n" (/ event.end sp-rate)))
@@ -325,6 +331,7 @@
       event.end (sp-render-config sp-channel-count sp-rate (* sp-render-block-seconds sp-rate) #t)
       &block))
   (sp-plot-samples (array-get block.samples 0) event.end)
+  (sp-block-free &block)
   (label exit status-return))
 
 (define (sp-random-state-new seed) (sp-random-state-t sp-time-t)
-- 
2.43.0


From a3e476c325211bedd6cd5e3b89b80d5a4327f61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 56/77] fix: failed allocations in sp_times_permutations and
 sp_times_compositions read and freed uninitialised variables

---
 source/c-precompiled/sph-sp/arrays.c | 2 ++
 source/sc/sph-sp/arrays.sc           | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 57c7f9c..c79f85e 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -77,6 +77,7 @@ status_t sp_times_permutations(sp_time_t size, sp_time_t* set, sp_time_t set_siz
   b = 0;
   s = 0;
   temp_out = 0;
+  temp_out_used_size = 0;
   i = 0;
   temp_out_size = sp_time_factorial(size);
   srq((sp_times_new(size, (&a))));
@@ -154,6 +155,7 @@ status_t sp_times_compositions(sp_time_t sum, sp_time_t*** out, sp_time_t* out_s
   sp_time_t y;
   sigma = 1;
   o = 0;
+  o_sizes = 0;
   o_used = 0;
   a = 0;
   k = 1;
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index b8a35f0..bbeb87c 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -60,7 +60,7 @@
     temp-out sp-time-t**
     temp-out-used-size sp-time-t
     s sp-time-t*)
-  (set a 0 b 0 s 0 temp-out 0 i 0 temp-out-size (sp-time-factorial size))
+  (set a 0 b 0 s 0 temp-out 0 temp-out-used-size 0 i 0 temp-out-size (sp-time-factorial size))
   (srq (sp-times-new size &a))
   (srq (sp-times-new size &s))
   (srq (sp-calloc-type temp-out-size sp-time-t* &temp-out))
@@ -113,7 +113,7 @@
     b-size sp-time-t
     x sp-time-t
     y sp-time-t)
-  (set sigma 1 o 0 o-used 0 a 0 k 1 o-size (sp-time-expt 2 (- sum 1)))
+  (set sigma 1 o 0 o-sizes 0 o-used 0 a 0 k 1 o-size (sp-time-expt 2 (- sum 1)))
   (status-require (sph-helper-calloc (* (+ 1 sum) (sizeof sp-time-t)) &a))
   (status-require (sph-helper-calloc (* o-size (sizeof sp-time-t*)) &o))
   (status-require (sph-helper-calloc (* o-size (sizeof sp-time-t)) &o-sizes))
-- 
2.43.0


From 56ff5401d2ee5f4283f6e544ff95a2a001500103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 57/77] fix: event memory that was ensured with size zero could
 not be extended and was freed twice

---
 source/c-precompiled/sph-sp/sequencer.c | 5 +++--
 source/sc/sph-sp/sequencer.sc           | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 8a3d391..2480f26 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -159,7 +159,8 @@ exit:
   status_return;
 }
 
-/** ensures that event memory is initialized and can take $additional_size more elements */
+/** ensures that event memory is initialized and can take $additional_size more elements.
+   the initial size is at least one because an array of size zero could not be extended */
 status_t sp_event_memory_ensure(sp_event_t* a, sp_time_t additional_size) {
   status_declare;
   if (a->memory.data) {
@@ -167,7 +168,7 @@ status_t sp_event_memory_ensure(sp_event_t* a, sp_time_t additional_size) {
       sp_memory_error;
     };
   } else {
-    if (sp_memory_new(additional_size, (&(a->memory)))) {
+    if (sp_memory_new((sp_inline_max(1, additional_size)), (&(a->memory)))) {
       sp_memory_error;
     } else {
       if (!a->free) {
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index f9d2cfe..3a3344e 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -95,7 +95,8 @@
   (label exit status-return))
 
 (define (sp-event-memory-ensure a additional-size) (status-t sp-event-t* sp-time-t)
-  "ensures that event memory is initialized and can take $additional_size more elements"
+  "ensures that event memory is initialized and can take $additional_size more elements.
+   the initial size is at least one because an array of size zero could not be extended"
   status-declare
   (if a:memory.data
     (if
@@ -103,7 +104,7 @@
         (sp-memory-resize &a:memory
           (+ (array3-max-size a:memory) (- additional-size (array3-unused-size a:memory)))))
       sp-memory-error)
-    (if (sp-memory-new additional-size &a:memory) sp-memory-error
+    (if (sp-memory-new (sp-inline-max 1 additional-size) &a:memory) sp-memory-error
       (if (not a:free) (set a:free sp-event-memory-free))))
   (label exit status-return))
 
-- 
2.43.0


From b4fdc698a06c8696e04aea41182fa2ed8ecd873f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 58/77] fix: sp_rad_to_hz was not the inverse of sp_hz_to_rad

---
 source/c-precompiled/sph-sp/main.h | 2 +-
 source/sc/sph-sp/main.h.sc         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.h b/source/c-precompiled/sph-sp/main.h
index 69ac748..2a77d8f 100644
--- a/source/c-precompiled/sph-sp/main.h
+++ b/source/c-precompiled/sph-sp/main.h
@@ -64,7 +64,7 @@
 #define sp_samples_to_hz(x) ((sp_time_t)((sp_rate / x)))
 #define sp_hz_to_factor(x) (((sp_sample_t)(x)) / ((sp_sample_t)(sp_rate)))
 #define sp_hz_to_rad(a) (2 * M_PI * a)
-#define sp_rad_to_hz(a) ((M_PI / 2) * a)
+#define sp_rad_to_hz(a) (a / (2 * M_PI))
 #define sp_factor_to_hz(x) ((sp_time_t)((x * sp_rate)))
 #define sp_optional_array_get(array, fixed, index) (array ? array[index] : fixed)
 #define sp_sample_to_unit(a) ((1 + a) / 2.0)
diff --git a/source/sc/sph-sp/main.h.sc b/source/sc/sph-sp/main.h.sc
index 7fdbba2..6ea4cad 100644
--- a/source/sc/sph-sp/main.h.sc
+++ b/source/sc/sph-sp/main.h.sc
@@ -59,7 +59,7 @@
   (sp-samples->hz x) (convert-type (/ sp-rate x) sp-time-t)
   (sp-hz->factor x) (/ (convert-type x sp-sample-t) (convert-type sp-rate sp-sample-t))
   (sp-hz->rad a) (* 2 M_PI a)
-  (sp-rad->hz a) (* (/ M_PI 2) a)
+  (sp-rad->hz a) (/ a (* 2 M_PI))
   (sp-factor->hz x) (convert-type (* x sp-rate) sp-time-t)
   (sp-optional-array-get array fixed index) (if* array (array-get array index) fixed)
   (sp-sample->unit a) (/ (+ 1 a) 2.0)
-- 
2.43.0


From ff69aab7a20af9202ad5cb9e58d798c1aa95fccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 59/77] fix: round_to_multiple did not round to multiples

---
 source/c-precompiled/sph-sp/arrays-template.c | 2 +-
 source/sc/sph-sp/arrays-template.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index 2089376..b7c4e2c 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -10,7 +10,7 @@
   uint8_t sp_##value_type_name##_sort_less(void* a, ssize_t b, ssize_t c) { return ((((value_t*)(a))[b] < ((value_t*)(a))[c])); } \
 \
   /** round to the next integer multiple of base  */ \
-  value_t sp_##value_type_name##_round_to_multiple(value_t a, value_t base) { return (((0 == a) ? base : sp_cheap_round_positive(((a / ((sp_sample_t)(base))) * base)))); } \
+  value_t sp_##value_type_name##_round_to_multiple(value_t a, value_t base) { return (((0 == a) ? base : (sp_cheap_round_positive((a / ((sp_sample_t)(base)))) * base))); } \
 \
   /** count must be greater than zero */ \
   value_t sp_##type_name##_min(value_t* in, sp_size_t count) { \
diff --git a/source/sc/sph-sp/arrays-template.sc b/source/sc/sph-sp/arrays-template.sc
index f89a1ab..5a3d2fb 100644
--- a/source/sc/sph-sp/arrays-template.sc
+++ b/source/sc/sph-sp/arrays-template.sc
@@ -13,7 +13,7 @@
     (define ((pre-concat sp_ value-type-name _round-to-multiple) a base) (value-t value-t value-t)
       "round to the next integer multiple of base "
       (return
-        (if* (= 0 a) base (sp-cheap-round-positive (* (/ a (convert-type base sp-sample-t)) base)))))
+        (if* (= 0 a) base (* (sp-cheap-round-positive (/ a (convert-type base sp-sample-t))) base))))
     (define ((pre-concat sp_ type-name _min) in count) (value-t value-t* sp-size-t)
       "count must be greater than zero"
       (define out value-t (array-get in 0))
-- 
2.43.0


From a406cdd1ca3d701346bcadcc23272d19404f1544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:08 +0000
Subject: [PATCH 60/77] fix: sp_time_harmonize and sp_time_deharmonize used the
 next higher instead of the nearest multiple

---
 source/c-precompiled/sph-sp/main.c | 4 ++--
 source/sc/sph-sp/main.sc           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 63023d4..fd7fe28 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -526,7 +526,7 @@ sp_time_t sp_normal_random(sp_time_t min, sp_time_t max) {
    for example, amount 1.0 rounds fully, amount 0.0 does not round at all, amount 0.5 rounds half-way */
 sp_time_t sp_time_harmonize(sp_time_t a, sp_time_t base, sp_sample_t amount) {
   sp_time_t nearest;
-  nearest = ((((a + base) - 1) / base) * base);
+  nearest = (((a + (base / 2)) / base) * base);
   return (((a > nearest) ? (a - (amount * (a - nearest))) : (a + (amount * (nearest - a)))));
 }
 
@@ -534,7 +534,7 @@ sp_time_t sp_time_harmonize(sp_time_t a, sp_time_t base, sp_sample_t amount) {
 sp_time_t sp_time_deharmonize(sp_time_t a, sp_time_t base, sp_sample_t amount) {
   sp_time_t nearest;
   sp_sample_t distance_ratio;
-  nearest = ((((a + base) - 1) / base) * base);
+  nearest = (((a + (base / 2)) / base) * base);
   distance_ratio = ((base - sp_inline_absolute_difference(a, nearest)) / ((sp_sample_t)(base)));
   amount = (amount * distance_ratio * (1 + sp_time_random_bounded((base / 2))));
   if ((a > nearest) || (a < amount)) {
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 18ce526..d193b68 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -407,14 +407,14 @@
   "untested. round value amount distance to nearest multiple of base.
    for example, amount 1.0 rounds fully, amount 0.0 does not round at all, amount 0.5 rounds half-way"
   (declare nearest sp-time-t)
-  (set nearest (* (/ (- (+ a base) 1) base) base))
+  (set nearest (* (/ (+ a (/ base 2)) base) base))
   (return (if* (> a nearest) (- a (* amount (- a nearest))) (+ a (* amount (- nearest a))))))
 
 (define (sp-time-deharmonize a base amount) (sp-time-t sp-time-t sp-time-t sp-sample-t)
   "untested. the nearer values are to the multiple, the further move them randomly up to half base away"
   (declare nearest sp-time-t distance-ratio sp-sample-t)
   (set
-    nearest (* (/ (- (+ a base) 1) base) base)
+    nearest (* (/ (+ a (/ base 2)) base) base)
     distance-ratio
     (/ (- base (sp-inline-absolute-difference a nearest)) (convert-type base sp-sample-t))
     amount (* amount distance-ratio (+ 1 (sp-time-random-bounded (/ base 2)))))
-- 
2.43.0


From 58ce25640b12fe095a24a57d1fca42ee5edae76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 61/77] fix: writing plot data crashed for files that can not
 be opened and leaked on failure

---
 source/c-precompiled/sph-sp/plot.c | 16 +++++++++++++---
 source/sc/sph-sp/plot.sc           | 14 +++++++++-----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/source/c-precompiled/sph-sp/plot.c b/source/c-precompiled/sph-sp/plot.c
index ca4bfce..2691944 100644
--- a/source/c-precompiled/sph-sp/plot.c
+++ b/source/c-precompiled/sph-sp/plot.c
@@ -9,6 +9,9 @@ void sp_plot_samples_to_file(sp_sample_t* a, sp_time_t a_size, uint8_t* path) {
   FILE* file;
   sp_time_t i;
   file = fopen(path, "w");
+  if (!file) {
+    return;
+  };
   for (i = 0; (i < a_size); i = (1 + i)) {
     fprintf(file, ("%.3f\n"), (a[i]));
   };
@@ -18,8 +21,11 @@ void sp_plot_times_to_file(sp_time_t* a, sp_time_t a_size, uint8_t* path) {
   FILE* file;
   sp_time_t i;
   file = fopen(path, "w");
+  if (!file) {
+    return;
+  };
   for (i = 0; (i < a_size); i += 1) {
-    fprintf(file, "%lu\n", (a[i]));
+    fprintf(file, "%u\n", (a[i]));
   };
   fclose(file);
 }
@@ -88,17 +94,21 @@ void sp_plot_spectrum_to_file(sp_sample_t* a, sp_time_t a_size, uint8_t* path) {
   };
   real = malloc((sizeof(sp_sample_t) * a_size));
   if (!real) {
-    return;
+    goto exit;
   };
   memcpy(real, a, (sizeof(sp_sample_t) * a_size));
   if (sp_fft(a_size, real, imag)) {
-    return;
+    goto exit;
   };
   file = fopen(path, "w");
+  if (!file) {
+    goto exit;
+  };
   for (i = 0; (i < a_size); i = (1 + i)) {
     fprintf(file, ("%.3f\n"), (2 * (sqrt(((real[i] * real[i]) + (imag[i] * imag[i]))) / a_size)));
   };
   fclose(file);
+exit:
   free(imag);
   free(real);
 }
diff --git a/source/sc/sph-sp/plot.sc b/source/sc/sph-sp/plot.sc
index 5520f30..e7eac3e 100644
--- a/source/sc/sph-sp/plot.sc
+++ b/source/sc/sph-sp/plot.sc
@@ -15,13 +15,15 @@
 (define (sp-plot-samples->file a a-size path) (void sp-sample-t* sp-time-t uint8-t*)
   (declare file FILE* i sp-time-t)
   (set file (fopen path "w"))
+  (if (not file) return)
   (for ((set i 0) (< i a-size) (set i (+ 1 i))) (fprintf file "%.3f\n" (array-get a i)))
   (fclose file))
 
 (define (sp-plot-times->file a a-size path) (void sp-time-t* sp-time-t uint8-t*)
   (declare file FILE* i sp-time-t)
   (set file (fopen path "w"))
-  (for ((set i 0) (< i a-size) (set+ i 1)) (fprintf file "%lu\n" (array-get a i)))
+  (if (not file) return)
+  (for ((set i 0) (< i a-size) (set+ i 1)) (fprintf file "%u\n" (array-get a i)))
   (fclose file))
 
 (define (sp-plot-samples-file path use-steps) (void uint8-t* uint8-t)
@@ -72,10 +74,11 @@
   (set imag (calloc a-size (sizeof sp-sample-t)))
   (if (not imag) return)
   (set real (malloc (* (sizeof sp-sample-t) a-size)))
-  (if (not real) return)
+  (if (not real) (goto exit))
   (memcpy real a (* (sizeof sp-sample-t) a-size))
-  (if (sp-fft a-size real imag) return)
+  (if (sp-fft a-size real imag) (goto exit))
   (set file (fopen path "w"))
+  (if (not file) (goto exit))
   (for ((set i 0) (< i a-size) (set i (+ 1 i)))
     (fprintf file "%.3f\n"
       (* 2
@@ -84,8 +87,9 @@
             (+ (* (array-get real i) (array-get real i)) (* (array-get imag i) (array-get imag i))))
           a-size))))
   (fclose file)
-  (free imag)
-  (free real))
+  (label exit
+    (free imag)
+    (free real)))
 
 (define (sp-plot-spectrum-file path) (void uint8-t*) (sp-plot-samples-file path #t))
 
-- 
2.43.0


From 68f13e7bc3ff406bfd04592ae3201c007d2b6749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:11 +0000
Subject: [PATCH 62/77] fix: arrays that could not be registered with an event
 leaked in the event memory macros

---
 source/c-precompiled/sph-sp/sequencer.h | 67 ++++++++++++++-----------
 source/sc/sph-sp/sequencer.h.sc         | 65 +++++++++++++-----------
 2 files changed, 72 insertions(+), 60 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.h b/source/c-precompiled/sph-sp/sequencer.h
index 35839d0..c723c2e 100644
--- a/source/c-precompiled/sph-sp/sequencer.h
+++ b/source/c-precompiled/sph-sp/sequencer.h
@@ -53,96 +53,103 @@
   event_pointer->generate = sp_group_generate_parallel; \
   event_pointer->free = sp_group_free; \
   event_pointer->config = 0
+/** like sp_event_memory_add but frees the memory if it could not be added */
+#define sp_event_memory_add_or_free_srq(event_pointer, address) \
+  status = sp_event_memory_add(event_pointer, address); \
+  if (status_is_failure) { \
+    free(address); \
+    status_goto; \
+  }
 #define sp_event_path_samples_srq(event_pointer, out, ...) \
   status_require((sp_path_samples(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_path_samples3_srq(event_pointer, out, ...) \
   status_require((sp_path_samples3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_path_samples4_srq(event_pointer, out, ...) \
   status_require((sp_path_samples4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_path_samples5_srq(event_pointer, out, ...) \
   status_require((sp_path_samples5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_path_samples_c3_srq(event_pointer, out, ...) \
   status_require((sp_path_samples_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_path_samples_c4_srq(event_pointer, out, ...) \
   status_require((sp_path_samples_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_path_samples_c5_srq(event_pointer, out, ...) \
   status_require((sp_path_samples_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_path_times_srq(event_pointer, out, ...) \
   status_require((sp_path_times(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_path_times3_srq(event_pointer, out, ...) \
   status_require((sp_path_times3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_path_times4_srq(event_pointer, out, ...) \
   status_require((sp_path_times4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_path_times5_srq(event_pointer, out, ...) \
   status_require((sp_path_times5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_path_times_c3_srq(event_pointer, out, ...) \
   status_require((sp_path_times_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_path_times_c4_srq(event_pointer, out, ...) \
   status_require((sp_path_times_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_path_times_c5_srq(event_pointer, out, ...) \
   status_require((sp_path_times_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_envelope_zero_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_envelope_zero3_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_envelope_zero4_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_envelope_zero5_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_envelope_zero_c3_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_envelope_zero_c4_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_envelope_zero_c5_srq(event_pointer, out, ...) \
   status_require((sp_envelope_zero_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled3_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled4_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled5_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled_c3_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled_c3(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled_c4_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled_c4(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_envelope_scaled_c5_srq(event_pointer, out, ...) \
   status_require((sp_envelope_scaled_c5(out, __VA_ARGS__))); \
-  status_require((sp_event_memory_add(event_pointer, (*out))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*out))
 #define sp_event_alloc_srq(event_pointer, allocator, size, pointer_address) \
   status_require((allocator(size, pointer_address))); \
-  status_require((sp_event_memory_add(event_pointer, (*pointer_address))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*pointer_address))
 #define sp_event_malloc_srq(event_pointer, size, pointer_address) \
   status_require((sph_helper_malloc(size, pointer_address))); \
-  status_require((sp_event_memory_add(event_pointer, (*pointer_address))))
+  sp_event_memory_add_or_free_srq(event_pointer, (*pointer_address))
 #define sp_event_malloc_type_n_srq(event_pointer, count, type, pointer_address) sp_event_malloc_srq(event_pointer, (count * sizeof(type)), pointer_address)
 #define sp_event_malloc_type_srq(event_pointer, type, pointer_address) sp_event_malloc_type_n_srq(event_pointer, 1, type, pointer_address)
 #define sp_event_samples_srq(event_pointer, size, pointer_address) sp_event_alloc_srq(event_pointer, sp_samples_new, size, pointer_address)
diff --git a/source/sc/sph-sp/sequencer.h.sc b/source/sc/sph-sp/sequencer.h.sc
index c4d47b7..be68230 100644
--- a/source/sc/sph-sp/sequencer.h.sc
+++ b/source/sc/sph-sp/sequencer.h.sc
@@ -50,126 +50,131 @@
     generate sp-group-generate-parallel
     free sp-group-free
     config 0)
+  (sp-event-memory-add-or-free-srq event-pointer address)
+  (begin
+    "like sp_event_memory_add but frees the memory if it could not be added"
+    (set status (sp-event-memory-add event-pointer address))
+    (if status-is-failure (begin (free address) status-goto)))
   (sp-event-path-samples-srq event-pointer out ...)
   (begin
     (status-require (sp-path-samples out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-path-samples3-srq event-pointer out ...)
   (begin
     (status-require (sp-path-samples3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-path-samples4-srq event-pointer out ...)
   (begin
     (status-require (sp-path-samples4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-path-samples5-srq event-pointer out ...)
   (begin
     (status-require (sp-path-samples5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-path-samples-c3-srq event-pointer out ...)
   (begin
     (status-require (sp-path-samples-c3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-path-samples-c4-srq event-pointer out ...)
   (begin
     (status-require (sp-path-samples-c4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-path-samples-c5-srq event-pointer out ...)
   (begin
     (status-require (sp-path-samples-c5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-path-times-srq event-pointer out ...)
   (begin
     (status-require (sp-path-times out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-path-times3-srq event-pointer out ...)
   (begin
     (status-require (sp-path-times3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-path-times4-srq event-pointer out ...)
   (begin
     (status-require (sp-path-times4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-path-times5-srq event-pointer out ...)
   (begin
     (status-require (sp-path-times5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-path-times-c3-srq event-pointer out ...)
   (begin
     (status-require (sp-path-times-c3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-path-times-c4-srq event-pointer out ...)
   (begin
     (status-require (sp-path-times-c4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-path-times-c5-srq event-pointer out ...)
   (begin
     (status-require (sp-path-times-c5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-envelope-zero-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-zero out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-envelope-zero3-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-zero3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-envelope-zero4-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-zero4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-envelope-zero5-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-zero5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-envelope-zero-c3-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-zero-c3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-envelope-zero-c4-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-zero-c4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-envelope-zero-c5-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-zero-c5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-envelope-scaled-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-scaled out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-envelope-scaled3-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-scaled3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-envelope-scaled4-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-scaled4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-envelope-scaled5-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-scaled5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-envelope-scaled-c3-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-scaled-c3 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-envelope-scaled-c4-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-scaled-c4 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-envelope-scaled-c5-srq event-pointer out ...)
   (begin
     (status-require (sp-envelope-scaled-c5 out __VA_ARGS__))
-    (status-require (sp-event-memory-add event-pointer *out)))
+    (sp-event-memory-add-or-free-srq event-pointer *out))
   (sp-event-alloc-srq event-pointer allocator size pointer-address)
   (begin
     (status-require (allocator size pointer-address))
-    (status-require (sp-event-memory-add event-pointer (pointer-get pointer-address))))
+    (sp-event-memory-add-or-free-srq event-pointer (pointer-get pointer-address)))
   (sp-event-malloc-srq event-pointer size pointer-address)
   (begin
     (status-require (sph-helper-malloc size pointer-address))
-    (status-require (sp-event-memory-add event-pointer (pointer-get pointer-address))))
+    (sp-event-memory-add-or-free-srq event-pointer (pointer-get pointer-address)))
   (sp-event-malloc-type-n-srq event-pointer count type pointer-address)
   (sp-event-malloc-srq event-pointer (* count (sizeof type)) pointer-address)
   (sp-event-malloc-type-srq event-pointer type pointer-address)
-- 
2.43.0


From 718a899e229e38decfc32a810ccdb93d2074acb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 63/77] fix: sp_times_make_seamless read after the end of the
 array and did not interpolate progressively

---
 source/c-precompiled/sph-sp/arrays.c |  8 +++-----
 source/sc/sph-sp/arrays.sc           | 11 ++++++-----
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index c79f85e..50bccdb 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -394,21 +394,19 @@ void sp_times_make_seamless_right(sp_time_t* a, sp_time_t a_count, sp_time_t* b,
     out[i] = a[i];
   };
   for (sp_size_t i = 0; (i < count); i += 1) {
-    out[(i + start)] = sp_time_interpolate_linear((a[(i + start)]), (b[(count - (1 + i))]), ((1 + i) / count));
+    out[(i + start)] = sp_time_interpolate_linear((a[(i + start)]), (b[(count - (1 + i))]), ((1 + i) / ((sp_sample_t)(count))));
   };
 }
 
 /** untested. like sp_times_make_seamless_right but changing the first elements of $b to match the end of $a */
 void sp_times_make_seamless_left(sp_time_t* a, sp_time_t a_count, sp_time_t* b, sp_time_t b_count, sp_time_t* out) {
-  sp_time_t start;
   sp_time_t count;
   sp_time_t i;
   count = sp_inline_min(b_count, (a_count / 2));
-  start = (a_count - count);
   for (sp_size_t i = 0; (i < count); i += 1) {
-    out[i] = sp_time_interpolate_linear((b[i]), (a[(a_count - i)]), ((1 + i) / count));
+    out[i] = sp_time_interpolate_linear((b[i]), (a[(a_count - (1 + i))]), ((count - i) / ((sp_sample_t)(count))));
   };
-  for (i = (count - 1); (i < b_count); i += 1) {
+  for (i = count; (i < b_count); i += 1) {
     out[i] = b[i];
   };
 }
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index bbeb87c..57e19e5 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -287,17 +287,18 @@
   (sp-for-each-index i count
     (set (array-get out (+ i start))
       (sp-time-interpolate-linear (array-get a (+ i start)) (array-get b (- count (+ 1 i)))
-        (/ (+ 1 i) count)))))
+        (/ (+ 1 i) (convert-type count sp-sample-t))))))
 
 (define (sp-times-make-seamless-left a a-count b b-count out)
   (void sp-time-t* sp-time-t sp-time-t* sp-time-t sp-time-t*)
   "untested. like sp_times_make_seamless_right but changing the first elements of $b to match the end of $a"
-  (declare start sp-time-t count sp-time-t i sp-time-t)
-  (set count (sp-inline-min b-count (/ a-count 2)) start (- a-count count))
+  (declare count sp-time-t i sp-time-t)
+  (set count (sp-inline-min b-count (/ a-count 2)))
   (sp-for-each-index i count
     (set (array-get out i)
-      (sp-time-interpolate-linear (array-get b i) (array-get a (- a-count i)) (/ (+ 1 i) count))))
-  (for ((set i (- count 1)) (< i b-count) (set+ i 1)) (set (array-get out i) (array-get b i))))
+      (sp-time-interpolate-linear (array-get b i) (array-get a (- a-count (+ 1 i)))
+        (/ (- count i) (convert-type count sp-sample-t)))))
+  (for ((set i count) (< i b-count) (set+ i 1)) (set (array-get out i) (array-get b i))))
 
 (define (sp-times-limit a count n out) (void sp-time-t* sp-time-t sp-time-t sp-time-t*)
   "set all values greater than n in array to n"
-- 
2.43.0


From bdfa3bce6c1e8f24c4f25d3cb30e06d56b7d5e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 64/77] fix: write no uninitialised bytes to headers of wave
 files

---
 source/c-precompiled/sph-sp/file.c | 1 +
 source/sc/sph-sp/file.sc           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index 38bec09..1d71f35 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -9,6 +9,7 @@ status_t sp_file_open_write(uint8_t* path, sp_channel_count_t channel_count, sp_
   status_declare;
   uint8_t header[40];
   *((uint32_t*)(header)) = wav_string_riff;
+  *((uint32_t*)((4 + header))) = 0;
   *((uint32_t*)((8 + header))) = wav_string_wav;
   *((uint32_t*)((12 + header))) = wav_string_fmt;
   *((uint32_t*)((16 + header))) = 16;
diff --git a/source/sc/sph-sp/file.sc b/source/sc/sph-sp/file.sc
index beaaa37..db50515 100644
--- a/source/sc/sph-sp/file.sc
+++ b/source/sc/sph-sp/file.sc
@@ -12,6 +12,7 @@
   (declare header (array uint8-t 40))
   (set
     (pointer-get (convert-type header uint32-t*)) wav-string-riff
+    (pointer-get (convert-type (+ 4 header) uint32-t*)) 0
     (pointer-get (convert-type (+ 8 header) uint32-t*)) wav-string-wav
     (pointer-get (convert-type (+ 12 header) uint32-t*)) wav-string-fmt
     (pointer-get (convert-type (+ 16 header) uint32-t*)) 16
-- 
2.43.0


From 577b4830c7de58ef5c9016fc97d5906777aaf869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:26 +0000
Subject: [PATCH 65/77] fix: sorting for medians recursed as deep as the array
 is long

---
 .../c/foreign/sph-sc-lib/sph-sp/quicksort.h   | 49 ++++++++++---------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h b/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
index d81c385..16e9939 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
@@ -6,31 +6,36 @@
    swap should exchange the values of the two arguments it receives.
    quicksort(less, swap, array, 0, array-size - 1) */
 void quicksort(uint8_t (*less_p)(void*, ssize_t, ssize_t), void (*swap)(void*, ssize_t, ssize_t), void* array, ssize_t left, ssize_t right) {
-  if (right <= left) {
-    return;
-  };
-  ssize_t pivot = (left + ((right - left) / 2));
-  ssize_t l = left;
-  ssize_t r = right;
-  while (l <= r) {
-    while (less_p(array, l, pivot)) {
+  while (left < right) {
+    ssize_t pivot = (left + ((right - left) / 2));
+    ssize_t l = left;
+    ssize_t r = right;
+    while (l <= r) {
+      while (less_p(array, l, pivot)) {
+        l = (1 + l);
+      };
+      while (less_p(array, pivot, r)) {
+        r = (r - 1);
+      };
+      if (l > r) {
+        break;
+      };
+      if (pivot == l) {
+        pivot = r;
+      } else if (pivot == r) {
+        pivot = l;
+      };
+      swap(array, l, r);
       l = (1 + l);
-    };
-    while (less_p(array, pivot, r)) {
       r = (r - 1);
     };
-    if (l > r) {
-      break;
-    };
-    if (pivot == l) {
-      pivot = r;
-    } else if (pivot == r) {
-      pivot = l;
+    /* recurse into the smaller part only, so that the depth is limited by log2 of the size */
+    if ((r - left) < (right - l)) {
+      quicksort(less_p, swap, array, left, r);
+      left = l;
+    } else {
+      quicksort(less_p, swap, array, l, right);
+      right = r;
     };
-    swap(array, l, r);
-    l = (1 + l);
-    r = (r - 1);
   };
-  quicksort(less_p, swap, array, left, r);
-  quicksort(less_p, swap, array, l, right);
 }
-- 
2.43.0


From e32c643eefde994ec675570960cccf863c475607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:18 +0000
Subject: [PATCH 66/77] fix: declared scaled envelopes with curvature were not
 defined

---
 source/c-precompiled/sph-sp/path.c |  8 ++++++++
 source/sc/sph-sp/path.sc           | 20 +++++++++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index 1d54b6c..c8b7394 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -194,5 +194,13 @@ sp_define_envelope_zero_n(sp_envelope_zero, samples, sp_sample_t)
     x2 = (x1 + (x2 * length)); \
     x3 = (x2 + (x3 * length)); \
     return ((sp_path_##type_name##5(out, length, x1, x2, x3, (y_scalar * y1), (y_scalar * y2), (y_scalar * y3), (y_scalar * y4), (y_scalar * y5)))); \
+  } \
+  status_t prefix##_c##3(type * *out, sp_time_t length, sp_sample_t y_scalar, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t c1, sp_sample_t c2) { return ((sp_path_##type_name##_c##3(out, length, (x1 * length), (y_scalar * y1), (y_scalar * y2), (y_scalar * y3), c1, c2))); } \
+  status_t prefix##_c##4(type * *out, sp_time_t length, sp_sample_t y_scalar, sp_sample_t x1, sp_sample_t x2, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3) { return ((sp_path_##type_name##_c##4(out, length, (x1 * length), ((x1 * length) + (x2 * length)), (y_scalar * y1), (y_scalar * y2), (y_scalar * y3), (y_scalar * y4), c1, c2, c3))); } \
+  status_t prefix##_c##5(type * *out, sp_time_t length, sp_sample_t y_scalar, sp_sample_t x1, sp_sample_t x2, sp_sample_t x3, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t y5, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3, sp_sample_t c4) { \
+    x1 *= length; \
+    x2 = (x1 + (x2 * length)); \
+    x3 = (x2 + (x3 * length)); \
+    return ((sp_path_##type_name##_c##5(out, length, x1, x2, x3, (y_scalar * y1), (y_scalar * y2), (y_scalar * y3), (y_scalar * y4), (y_scalar * y5), c1, c2, c3, c4))); \
   }
 sp_define_envelope_scaled_n(sp_envelope_scaled, times, sp_time_t)
diff --git a/source/sc/sph-sp/path.sc b/source/sc/sph-sp/path.sc
index 8409c21..ad55c22 100644
--- a/source/sc/sph-sp/path.sc
+++ b/source/sc/sph-sp/path.sc
@@ -178,6 +178,24 @@
       (set x2 (+ x1 (* x2 length)) x3 (+ x2 (* x3 length)))
       (return
         ( (pre-concat sp-path- type-name 5) out length
-          x1 x2 x3 (* y-scalar y1) (* y-scalar y2) (* y-scalar y3) (* y-scalar y4) (* y-scalar y5))))))
+          x1 x2 x3 (* y-scalar y1) (* y-scalar y2) (* y-scalar y3) (* y-scalar y4) (* y-scalar y5))))
+    (define ((pre-concat prefix _c 3) out length y-scalar x1 y1 y2 y3 c1 c2)
+      (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
+      (return
+        ( (pre-concat sp-path- type-name _c 3) out length
+          (* x1 length) (* y-scalar y1) (* y-scalar y2) (* y-scalar y3) c1 c2)))
+    (define ((pre-concat prefix _c 4) out length y-scalar x1 x2 y1 y2 y3 y4 c1 c2 c3)
+      (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
+      (return
+        ( (pre-concat sp-path- type-name _c 4) out length
+          (* x1 length) (+ (* x1 length) (* x2 length)) (* y-scalar y1)
+          (* y-scalar y2) (* y-scalar y3) (* y-scalar y4) c1 c2 c3)))
+    (define ((pre-concat prefix _c 5) out length y-scalar x1 x2 x3 y1 y2 y3 y4 y5 c1 c2 c3 c4)
+      (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
+      (set* x1 length)
+      (set x2 (+ x1 (* x2 length)) x3 (+ x2 (* x3 length)))
+      (return
+        ( (pre-concat sp-path- type-name _c 5) out length
+          x1 x2 x3 (* y-scalar y1) (* y-scalar y2) (* y-scalar y3) (* y-scalar y4) (* y-scalar y5) c1 c2 c3 c4)))))
 
 (sp-define-envelope-scaled-n sp-envelope-scaled times sp-time-t)
\ No newline at end of file
-- 
2.43.0


From 863eff22bc6ebebc4ee809ae3ad403f574fbc75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:18 +0000
Subject: [PATCH 67/77] fix: ensure_trailing_slash wrote the terminating zero
 over the first character

---
 source/c/foreign/sph-sc-lib/sph-sp/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/string.h b/source/c/foreign/sph-sc-lib/sph-sp/string.h
index 08f818f..3f7e175 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/string.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/string.h
@@ -16,7 +16,7 @@ uint8_t ensure_trailing_slash(uint8_t* a, uint8_t** result) {
     };
     memcpy(new_a, a, a_len);
     memcpy((new_a + a_len), "/", 1);
-    *new_a = 0;
+    *(new_a + a_len + 1) = 0;
     *result = new_a;
     return (2);
   };
-- 
2.43.0


From 3a3f5b896471a2e2c42a91b64a1a61ebcfb50985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:19 +0000
Subject: [PATCH 68/77] fix: dirname_2 returned a string that can not be freed

---
 source/c/foreign/sph-sc-lib/sph-sp/filesystem.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h b/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
index bd9db80..0c89c72 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/filesystem.h
@@ -7,10 +7,18 @@
 #include <errno.h>
 #define file_exists(path) !(access(path, F_OK) == -1)
 
-/** like posix dirname, but never modifies its argument and always returns a new string */
+/** like posix dirname, but never modifies its argument and always returns a new string.
+   return 0 if the memory allocation failed */
 uint8_t* dirname_2(uint8_t* a) {
+  uint8_t* result;
   uint8_t* path_copy = string_clone(a);
-  return ((dirname(path_copy)));
+  if (!path_copy) {
+    return (0);
+  };
+  /* the result of dirname can be a static string */
+  result = string_clone((dirname(path_copy)));
+  free(path_copy);
+  return (result);
 }
 
 /** return 1 if the path exists or has been successfully created */
@@ -19,8 +27,9 @@ uint8_t ensure_directory_structure(uint8_t* path, mode_t mkdir_mode) {
     return (1);
   } else {
     uint8_t* path_dirname = dirname_2(path);
-    uint8_t status = ensure_directory_structure(path_dirname, mkdir_mode);
+    uint8_t status = (path_dirname && ensure_directory_structure(path_dirname, mkdir_mode));
     free(path_dirname);
-    return ((status && ((EEXIST == errno) || (0 == mkdir(path, mkdir_mode)))));
+    /* the path might have been created by another process in the meantime */
+    return ((status && ((0 == mkdir(path, mkdir_mode)) || file_exists(path))));
   };
 }
-- 
2.43.0


From 2cc3412c6c2f420a31714e07fbcce5bfd5166501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:19 +0000
Subject: [PATCH 69/77] fix: render_plot printed a wrong number of milliseconds

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 source/sc/sph-sp/main.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index fd7fe28..18e64b5 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -437,7 +437,7 @@ status_t sp_render_plot(sp_event_t event) {
     };
   };
   if (event.end && (event.end < sp_rate)) {
-    printf("rendering %lu milliseconds to plot\n", (event.end / sp_rate / 1000));
+    printf("rendering %lu milliseconds to plot\n", ((1000 * ((sp_size_t)(event.end))) / sp_rate));
   } else {
     printf("rendering %lu seconds to plot\n", (event.end / sp_rate));
   };
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index d193b68..ffd2228 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -324,7 +324,7 @@
       (set status (event.prepare &event) event.prepare 0)
       (if status-is-failure (begin (sp-event-free event) (goto exit)))))
   (if (and event.end (< event.end sp-rate))
-    (printf "rendering %lu milliseconds to plot\n" (/ event.end sp-rate 1000))
+    (printf "rendering %lu milliseconds to plot\n" (/ (* 1000 (convert-type event.end sp-size-t)) sp-rate))
     (printf "rendering %lu seconds to plot\n" (/ event.end sp-rate)))
   (status-require
     (sp-render-range-block event 0
-- 
2.43.0


From 5bfcf21b4bbeace90f1a88c3982f5c415ae714eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:11 +0000
Subject: [PATCH 70/77] fix: sp_sample_random_bounded and
 sp_units_random_bounded used undefined names

---
 source/c-precompiled/sph-sp/sph-sp.h | 6 ++++++
 source/sc/sph-sp/sph-sp.h.sc         | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/source/c-precompiled/sph-sp/sph-sp.h b/source/c-precompiled/sph-sp/sph-sp.h
index 16e4000..917761a 100644
--- a/source/c-precompiled/sph-sp/sph-sp.h
+++ b/source/c-precompiled/sph-sp/sph-sp.h
@@ -31,6 +31,9 @@
 #ifndef sp_sample_nearly_equal
 #define sp_sample_nearly_equal sph_f64_nearly_equal
 #endif
+#ifndef sp_sample_random_bounded_primitive
+#define sp_sample_random_bounded_primitive sph_random_f64_bounded
+#endif
 #ifndef sp_sample_random_primitive
 #define sp_sample_random_primitive sph_random_f64_1to1
 #endif
@@ -79,6 +82,9 @@
 #ifndef sp_unit_random_primitive
 #define sp_unit_random_primitive sph_random_f64_0to1
 #endif
+#ifndef sp_units_random_bounded_primitive
+#define sp_units_random_bounded_primitive sph_random_f64_bounded_array
+#endif
 #ifndef sp_units_random_primitive
 #define sp_units_random_primitive sph_random_f64_array_0to1
 #endif
diff --git a/source/sc/sph-sp/sph-sp.h.sc b/source/sc/sph-sp/sph-sp.h.sc
index 101ceff..ca4f789 100644
--- a/source/sc/sph-sp/sph-sp.h.sc
+++ b/source/sc/sph-sp/sph-sp.h.sc
@@ -10,6 +10,7 @@
   sp-frq-t uint16-t
   sp-random-seed 1557083953
   sp-sample-nearly-equal sph-f64-nearly-equal
+  sp-sample-random-bounded-primitive sph-random-f64-bounded
   sp-sample-random-primitive sph-random-f64-1to1
   sp-samples-nearly-equal sph-f64-array-nearly-equal
   sp-samples-random-bounded-primitive sph-random-f64-bounded-array
@@ -26,6 +27,7 @@
   sp-times-random-primitive sph-random-u32-array
   sp-time-t uint32-t
   sp-unit-random-primitive sph-random-f64-0to1
+  sp-units-random-bounded-primitive sph-random-f64-bounded-array
   sp-units-random-primitive sph-random-f64-array-0to1
   sp-unit-t double)
 
-- 
2.43.0


From f11c17095148f2fba1018412b87f179193223fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:06 +0000
Subject: [PATCH 71/77] fix: the allocation function for units was not defined

---
 source/c-precompiled/sph-sp/arrays.c | 1 +
 source/c-precompiled/sph-sp/arrays.h | 1 +
 source/sc/sph-sp/arrays.h.sc         | 1 +
 source/sc/sph-sp/arrays.sc           | 3 +++
 4 files changed, 6 insertions(+)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 50bccdb..fc431e5 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -497,6 +497,7 @@ void sp_samples_to_times(sp_sample_t* in, sp_size_t count, sp_time_t* out) {
     out[i] = sp_sample_to_time((in[i]));
   };
 }
+status_t sp_units_new(sp_size_t count, sp_unit_t** out) { return ((sph_helper_calloc((count * sizeof(sp_unit_t)), out))); }
 void sp_samples_to_units(sp_sample_t* in_out, sp_size_t count) {
   for (sp_size_t i = 0; (i < count); i += 1) {
     in_out[i] = ((in_out[i] + 1) / 2);
diff --git a/source/c-precompiled/sph-sp/arrays.h b/source/c-precompiled/sph-sp/arrays.h
index 2dc6702..7e09235 100644
--- a/source/c-precompiled/sph-sp/arrays.h
+++ b/source/c-precompiled/sph-sp/arrays.h
@@ -57,6 +57,7 @@ void sp_samples_display(sp_sample_t* in, sp_size_t count);
 void sp_samples_to_times(sp_sample_t* in, sp_size_t count, sp_time_t* out);
 status_t sp_samples_to_times_replace(sp_sample_t* in, sp_size_t count, sp_time_t** out);
 void sp_samples_to_units(sp_sample_t* in_out, sp_size_t count);
+status_t sp_units_new(sp_size_t count, sp_unit_t** out);
 void sp_samples_set_gain(sp_sample_t* in_out, sp_size_t count, sp_sample_t amp);
 void sp_samples_set_gain(sp_sample_t* in_out, sp_size_t count, sp_sample_t amp);
 void sp_samples_set_unity_gain(sp_sample_t* in_out, sp_sample_t* reference, sp_size_t count);
diff --git a/source/sc/sph-sp/arrays.h.sc b/source/sc/sph-sp/arrays.h.sc
index d02d83c..d8c7e72 100644
--- a/source/sc/sph-sp/arrays.h.sc
+++ b/source/sc/sph-sp/arrays.h.sc
@@ -80,6 +80,7 @@
   (sp-samples->times in count out) (void sp-sample-t* sp-size-t sp-time-t*)
   (sp-samples->times-replace in count out) (status-t sp-sample-t* sp-size-t sp-time-t**)
   (sp-samples->units in-out count) (void sp-sample-t* sp-size-t)
+  (sp-units-new count out) (status-t sp-size-t sp-unit-t**)
   (sp-samples-set-gain in-out count amp) (void sp-sample-t* sp-size-t sp-sample-t)
   (sp-samples-set-gain in-out count amp) (void sp-sample-t* sp-size-t sp-sample-t)
   (sp-samples-set-unity-gain in-out reference count) (void sp-sample-t* sp-sample-t* sp-size-t)
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 57e19e5..a9bb708 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -365,6 +365,9 @@
 (define (sp-samples->times in count out) (void sp-sample-t* sp-size-t sp-time-t*)
   (sp-for-each-index i count (set (array-get out i) (sp-sample->time (array-get in i)))))
 
+(define (sp-units-new count out) (status-t sp-size-t sp-unit-t**)
+  (return (sph-helper-calloc (* count (sizeof sp-unit-t)) out)))
+
 (define (sp-samples->units in-out count) (void sp-sample-t* sp-size-t)
   (sp-for-each-index i count (set (array-get in-out i) (/ (+ (array-get in-out i) 1) 2))))
 
-- 
2.43.0


From ba73ff878ace3f1f35e173f0ea6db951f1aaab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:06 +0000
Subject: [PATCH 72/77] fix: sp_status_declare used an undefined name

---
 source/c-precompiled/sph-sp/main.h | 2 +-
 source/sc/sph-sp/main.h.sc         | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.h b/source/c-precompiled/sph-sp/main.h
index 2a77d8f..3e6d916 100644
--- a/source/c-precompiled/sph-sp/main.h
+++ b/source/c-precompiled/sph-sp/main.h
@@ -20,7 +20,7 @@
 #define sp_s_id_memory 8
 #define sp_s_id_not_implemented 10
 #define sp_s_id_undefined 1
-#define sp_status_declare status_declare_group(sp_s_group_sp)
+#define sp_status_declare status_t status = { status_id_success, ((uint8_t*)(sp_s_group_sp)) }
 #define srq status_require
 #define sp_max_frq (sp_rate / 2)
 #define sp_declare_block(id) sp_block_t id = { 0 }
diff --git a/source/sc/sph-sp/main.h.sc b/source/sc/sph-sp/main.h.sc
index 6ea4cad..8b12759 100644
--- a/source/sc/sph-sp/main.h.sc
+++ b/source/sc/sph-sp/main.h.sc
@@ -20,7 +20,9 @@
   sp-s-id-memory 8
   sp-s-id-not-implemented 10
   sp-s-id-undefined 1
-  sp-status-declare (status-declare-group sp-s-group-sp)
+  sp-status-declare
+  (define status status-t
+    (struct-literal status-id-success (convert-type sp-s-group-sp uint8-t*)))
   srq status-require
   sp-max-frq (/ sp-rate 2)
   (sp-declare-block id) (define id sp-block-t (struct-literal 0))
-- 
2.43.0


From 0b623b6b3bcf8d188c9ad5ed7b592faaec0921fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:17 +0000
Subject: [PATCH 73/77] fix: validating event lists did not end for circular
 lists that do not include the head

---
 source/c-precompiled/sph-sp/sequencer.c | 5 ++++-
 source/sc/sph-sp/sequencer.sc           | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 2480f26..7a1cf03 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -54,11 +54,14 @@ void sp_event_list_validate(sp_event_list_t* a) {
       printf("circular list entry at index %lu, element %lu\n", i, b);
       exit(1);
     };
-    sp_event_list_find_duplicate(a, b);
     i += 1;
     c = b;
     b = b->next;
   };
+  /* only after the links have been checked because this does not terminate for circular lists */
+  for (b = a; b; b = b->next) {
+    sp_event_list_find_duplicate(a, b);
+  };
 }
 
 /** removes the list element and frees the event, without having to search in the list.
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 3a3344e..20d41c6 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -33,9 +33,10 @@
       (begin (printf "link to previous is invalid at index %lu, element %lu\n" i b) (exit 1)))
     (if (and (= b:next b:previous) (not (= 0 b:next)))
       (begin (printf "circular list entry at index %lu, element %lu\n" i b) (exit 1)))
-    (sp-event-list-find-duplicate a b)
     (set+ i 1)
-    (set c b b b:next)))
+    (set c b b b:next))
+  (sc-comment "only after the links have been checked because this does not terminate for circular lists")
+  (for ((set b a) b (set b b:next)) (sp-event-list-find-duplicate a b)))
 
 (define (sp-event-list-remove a element) (void sp-event-list-t** sp-event-list-t*)
   "removes the list element and frees the event, without having to search in the list.
-- 
2.43.0


From a1bb6620764d9afac629047dccedfd2555ca4570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:28 +0000
Subject: [PATCH 74/77] fix: copied spline path segments leaked when a segment
 can not be prepared

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 7e9ce8b..e994857 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -108,7 +108,11 @@ uint8_t spline_path_set_copy(spline_path_t* path, spline_path_segment_t* segment
     return (1);
   };
   memcpy(s, segments, (segments_count * sizeof(spline_path_segment_t)));
-  return ((spline_path_set(path, s, segments_count)));
+  if (spline_path_set(path, s, segments_count)) {
+    free(s);
+    return (1);
+  };
+  return (0);
 }
 
 /** create a sampled array directly from segments */
-- 
2.43.0


From 6961a3b4107fb7f34bfcce9787f1d4a160aca395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:27 +0000
Subject: [PATCH 75/77] fix: sp_noise_event could not be used with the address
 of a configuration

---
 source/c-precompiled/sph-sp/sequencer.h | 4 ++--
 source/sc/sph-sp/sequencer.h.sc         | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.h b/source/c-precompiled/sph-sp/sequencer.h
index c723c2e..e3562fe 100644
--- a/source/c-precompiled/sph-sp/sequencer.h
+++ b/source/c-precompiled/sph-sp/sequencer.h
@@ -36,8 +36,8 @@
 #define sp_noise_event(event_pointer, _config) \
   event_pointer->prepare = sp_noise_event_prepare; \
   event_pointer->generate = sp_noise_event_generate; \
-  _config->random_state = sp_random_state_new((sp_time_random())); \
-  event_pointer->config = _config
+  event_pointer->config = _config; \
+  ((sp_noise_event_config_t*)(event_pointer->config))->random_state = sp_random_state_new((sp_time_random()))
 #define sp_map_event(event_pointer, _config) \
   event_pointer->prepare = sp_map_event_prepare; \
   event_pointer->generate = (_config->isolate ? sp_map_event_isolated_generate : sp_map_event_generate); \
diff --git a/source/sc/sph-sp/sequencer.h.sc b/source/sc/sph-sp/sequencer.h.sc
index be68230..b75cbe5 100644
--- a/source/sc/sph-sp/sequencer.h.sc
+++ b/source/sc/sph-sp/sequencer.h.sc
@@ -31,11 +31,13 @@
     config _config)
   (sp-noise-event event-pointer _config)
   (begin
-    (set _config:random-state (sp-random-state-new (sp-time-random)))
     (struct-pointer-set event-pointer
       prepare sp-noise-event-prepare
       generate sp-noise-event-generate
-      config _config))
+      config _config)
+    (set
+      (struct-pointer-get (convert-type event-pointer:config sp-noise-event-config-t*) random-state)
+      (sp-random-state-new (sp-time-random))))
   (sp-map-event event-pointer _config)
   (struct-pointer-set event-pointer
     prepare sp-map-event-prepare
-- 
2.43.0


From fa62be2cb4d50d8573087f3aec7f87755449b43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:40 +0000
Subject: [PATCH 76/77] fix: the amplitude of oscillators without amplitude
 modulation was squared

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 source/sc/sph-sp/main.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 18e64b5..c30ad3e 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -204,7 +204,7 @@ void sp_sine_period(sp_time_t size, sp_sample_t* out) {
 void sp_wave(sp_time_t size, sp_sample_t* wvf, sp_time_t wvf_size, sp_sample_t amp, sp_sample_t* amod, sp_time_t frq, sp_time_t* fmod, sp_time_t* phs_state, sp_sample_t* out) {
   sp_time_t phs = (phs_state ? *phs_state : 0);
   for (sp_size_t i = 0; (i < size); i += 1) {
-    out[i] += (amp * sp_optional_array_get(amod, amp, i) * wvf[phs]);
+    out[i] += (amp * sp_optional_array_get(amod, 1, i) * wvf[phs]);
     phs += sp_optional_array_get(fmod, frq, i);
     if (phs >= wvf_size) {
       phs = (phs % wvf_size);
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index ffd2228..54cf7f5 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -132,7 +132,7 @@
   "sums to out"
   (define phs sp-time-t (if* phs-state *phs-state 0))
   (sp-for-each-index i size
-    (set+ (array-get out i) (* amp (sp-optional-array-get amod amp i) (array-get wvf phs))
+    (set+ (array-get out i) (* amp (sp-optional-array-get amod 1 i) (array-get wvf phs))
       phs (sp-optional-array-get fmod frq i))
     (if (>= phs wvf-size) (set phs (modulo phs wvf-size))))
   (if phs-state (set *phs-state phs)))
-- 
2.43.0


From f98b7c745443962bb2d4763acf5fa2bad5275f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:21 +0000
Subject: [PATCH 77/77] fix: arc segments of spline paths lost their curvature
 when prepared again

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index e994857..da6b380 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -343,8 +343,10 @@ spline_path_point_t spline_path_perpendicular_point(spline_path_point_t p1, spli
   result.y = (c.y + (0.5 * distance * m * d.y));
   return (result);
 }
+
+/** the curvature is kept in the unused last point because segments can be prepared multiple times */
 uint8_t spline_path_bezier_arc_prepare(spline_path_segment_t* s) {
-  (s->points)[1] = spline_path_perpendicular_point(((s->points)[0]), ((s->points)[2]), (((s->points)[1]).y));
+  (s->points)[1] = spline_path_perpendicular_point(((s->points)[0]), ((s->points)[2]), (((s->points)[3]).y));
   return (0);
 }
 
@@ -355,7 +357,8 @@ spline_path_segment_t spline_path_bezier_arc(spline_path_value_t x, spline_path_
   if (0.0 == curvature) {
     s = spline_path_line(x, y);
   } else {
-    s = spline_path_bezier1(0, curvature, x, y);
+    s = spline_path_bezier1(0, 0, x, y);
+    ((s.points)[3]).y = curvature;
     s.prepare = spline_path_bezier_arc_prepare;
   };
   return (s);
-- 
2.43.0

