From b7b2848235705d6bd6642cbb24eda4338e0e1a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:57 +0000
Subject: [PATCH 01/16] fix: copyvec must not read one vector beyond the end of
 its source

---
 simd_memory.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/simd_memory.hpp b/simd_memory.hpp
index ca5430b..2c27849 100644
--- a/simd_memory.hpp
+++ b/simd_memory.hpp
@@ -295,10 +295,12 @@ struct copyvec
     {
         vec<F> val;
 
-        if (src_aligned)
-            val.load_aligned(src);
-        else
-            val.load(src);
+        if (n != offset) { // do not read beyond the end of the source
+            if (src_aligned)
+                val.load_aligned(src);
+            else
+                val.load(src);
+        }
 
         store_aligned<dst_aligned>(loaded_value, dst);
         copyvec<F, src_aligned, dst_aligned, n-offset>::mp_iteration(dst+offset, src+offset, val);
-- 
2.43.0


From a18f3e7c9767ae87b3d5045c6095e7165940853f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:57 +0000
Subject: [PATCH 02/16] fix: make the ramp overloads of addvec usable

---
 simd_memory.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simd_memory.hpp b/simd_memory.hpp
index 2c27849..a4d306d 100644
--- a/simd_memory.hpp
+++ b/simd_memory.hpp
@@ -370,7 +370,7 @@ inline void addvec(F * out, const F in, unsigned int n)
 }
 
 template <typename F>
-inline void addvec(F * out, const F in, const F slope, unsigned int n)
+inline void addvec(F * out, F in, const F slope, unsigned int n)
 {
     do {
         *out++ += in; in += slope;
@@ -462,7 +462,7 @@ inline void addvec_simd(F * out, const F in, const F slope, unsigned int n)
 {
     const int per_loop = vec<F>::objects_per_cacheline;
     vec<F> vin; vin.set_slope(in, slope);
-    vec<F> vslope; vslope.set(slope * vec<F>::size);
+    vec<F> vslope; vslope.set_vec(slope * vec<F>::size);
     n /= per_loop;
     do
     {
@@ -489,7 +489,7 @@ template <unsigned int n, typename F>
 inline void addvec_simd(F * out, const F in, const F slope)
 {
     vec<F> vin; vin.set_slope(in, slope);
-    vec<F> vslope; vslope.set(slope * vec<F>::size);
+    vec<F> vslope; vslope.set_vec(slope * vec<F>::size);
     detail::addvec<F, n>::mp_iteration(out, vin, vslope);
 }
 
-- 
2.43.0


From 40e0faffa30da855069c47311f02648666db3c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:57 +0000
Subject: [PATCH 03/16] fix: horizontal min/max of one-signed signals

---
 simd_horizontal_functions.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/simd_horizontal_functions.hpp b/simd_horizontal_functions.hpp
index 326fe40..d72deee 100644
--- a/simd_horizontal_functions.hpp
+++ b/simd_horizontal_functions.hpp
@@ -36,7 +36,7 @@ namespace nova {
 template <typename F>
 inline F horizontal_max_vec(const F * in, unsigned int n)
 {
-    F current = std::numeric_limits<F>::min();
+    F current = *in;
     using namespace std;
 
     do {
@@ -49,7 +49,7 @@ inline F horizontal_max_vec(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_max_vec_simd(const F * in, unsigned int n)
 {
-    F init = std::numeric_limits<F>::min();
+    F init = *in;
     vec<F> current(init);
 
     /* loop */
@@ -71,7 +71,7 @@ inline F horizontal_max_vec_simd(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_min_vec(const F * in, unsigned int n)
 {
-    F current = std::numeric_limits<F>::min();
+    F current = *in;
     using namespace std;
 
     do {
@@ -84,7 +84,7 @@ inline F horizontal_min_vec(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_min_vec_simd(const F * in, unsigned int n)
 {
-    F init = std::numeric_limits<F>::min();
+    F init = *in;
     vec<F> current(init);
 
     /* loop */
@@ -139,8 +139,8 @@ inline F horizontal_sum_vec_simd(const F * in, unsigned int n)
 template <typename F>
 inline void horizontal_minmax_vec(F & rmin, F & rmax, const F * in, unsigned int n)
 {
-    F current_max = std::numeric_limits<F>::min();
-    F current_min = std::numeric_limits<F>::max();
+    F current_max = *in;
+    F current_min = *in;
     using namespace std;
 
     do {
@@ -155,8 +155,8 @@ inline void horizontal_minmax_vec(F & rmin, F & rmax, const F * in, unsigned int
 template <typename F>
 inline void horizontal_minmax_vec_simd(F & rmin, F & rmax, const F * in, unsigned int n)
 {
-    vec<F> current_max(std::numeric_limits<F>::min());
-    vec<F> current_min(std::numeric_limits<F>::max());
+    vec<F> current_max(*in);
+    vec<F> current_min(*in);
 
     /* loop */
     const size_t vec_size = vec<F>::size;
@@ -178,7 +178,7 @@ inline void horizontal_minmax_vec_simd(F & rmin, F & rmax, const F * in, unsigne
 template <typename F>
 inline void horizontal_maxsum_vec(F & rmax, F & rsum, const F * in, unsigned int n)
 {
-    F current_max = std::numeric_limits<F>::min();
+    F current_max = *in;
     F current_sum = 0;
     using namespace std;
 
@@ -194,7 +194,7 @@ inline void horizontal_maxsum_vec(F & rmax, F & rsum, const F * in, unsigned int
 template <typename F>
 inline void horizontal_maxsum_vec_simd(F & rmax, F & rsum, const F * in, unsigned int n)
 {
-    vec<F> current_max(std::numeric_limits<F>::min());
+    vec<F> current_max(*in);
     vec<F> current_sum(F(0));
 
     /* loop */
-- 
2.43.0


From dc3d5e70811685b367c36466f5c88621cdf2f77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:57 +0000
Subject: [PATCH 04/16] fix: acos(-0.5f) took the wrong branch

---
 detail/vec_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/vec_math.hpp b/detail/vec_math.hpp
index faf6be8..d848084 100644
--- a/detail/vec_math.hpp
+++ b/detail/vec_math.hpp
@@ -433,7 +433,7 @@ always_inline VecType vec_acos_float(VecType const & arg)
     VecType ret_05_1 = two_asin;
 
     VecType ret_m05_1 = select(ret_m05_05, ret_05_1, mask_gt(arg, half));
-    VecType ret = select(ret_m1_m05, ret_m05_1, mask_gt(arg, -0.5));
+    VecType ret = select(ret_m1_m05, ret_m05_1, mask_ge(arg, -0.5));
 
     // |arg| > 1: return 0
     ret = select(ret, zero, mask_gt(abs_arg, one));
-- 
2.43.0


From 7fdbb40eebdc1c77317de7fcc6d341c118f38314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:57 +0000
Subject: [PATCH 05/16] fix: exp at the overflow threshold returned NaN

---
 detail/vec_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/vec_math.hpp b/detail/vec_math.hpp
index d848084..0f08752 100644
--- a/detail/vec_math.hpp
+++ b/detail/vec_math.hpp
@@ -154,7 +154,7 @@ always_inline VecType vec_exp_float(VecType const & arg)
     const VecType max_float(std::numeric_limits<float>::max());
     const VecType zero = VecType::gen_zero();
 
-    VecType too_large = mask_gt(arg, maxlogf);
+    VecType too_large = mask_ge(arg, maxlogf);
     VecType too_small = mask_lt(arg, minlogf);
 
     VecType ret = select(approx, max_float, too_large);
-- 
2.43.0


From c288240326d2ba93766dd7cc60e6c47c96190d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:57 +0000
Subject: [PATCH 06/16] fix: AVX greater/greater-equal comparisons must be
 false for NaN

---
 vec/vec_avx_double.hpp | 8 ++++----
 vec/vec_avx_float.hpp  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/vec/vec_avx_double.hpp b/vec/vec_avx_double.hpp
index 29c6faa..89f168e 100644
--- a/vec/vec_avx_double.hpp
+++ b/vec/vec_avx_double.hpp
@@ -243,8 +243,8 @@ public:
 
     RELATIONAL_OPERATOR(<, _CMP_LT_OS)
     RELATIONAL_OPERATOR(<=, _CMP_LE_OS)
-    RELATIONAL_OPERATOR(>, _CMP_NLE_US)
-    RELATIONAL_OPERATOR(>=, _CMP_NLT_US)
+    RELATIONAL_OPERATOR(>, _CMP_GT_OS)
+    RELATIONAL_OPERATOR(>=, _CMP_GE_OS)
     RELATIONAL_OPERATOR(==, _CMP_EQ_OQ)
     RELATIONAL_OPERATOR(!=, _CMP_NEQ_UQ)
 
@@ -272,8 +272,8 @@ public:
 
     RELATIONAL_MASK_OPERATOR(lt, _CMP_LT_OS)
     RELATIONAL_MASK_OPERATOR(le, _CMP_LE_OS)
-    RELATIONAL_MASK_OPERATOR(gt, _CMP_NLE_US)
-    RELATIONAL_MASK_OPERATOR(ge, _CMP_NLT_US)
+    RELATIONAL_MASK_OPERATOR(gt, _CMP_GT_OS)
+    RELATIONAL_MASK_OPERATOR(ge, _CMP_GE_OS)
     RELATIONAL_MASK_OPERATOR(eq, _CMP_EQ_OQ)
     RELATIONAL_MASK_OPERATOR(neq, _CMP_NEQ_UQ)
 
diff --git a/vec/vec_avx_float.hpp b/vec/vec_avx_float.hpp
index 350ace8..83d012c 100644
--- a/vec/vec_avx_float.hpp
+++ b/vec/vec_avx_float.hpp
@@ -284,8 +284,8 @@ public:
 
     RELATIONAL_OPERATOR(<, _CMP_LT_OS)
     RELATIONAL_OPERATOR(<=, _CMP_LE_OS)
-    RELATIONAL_OPERATOR(>, _CMP_NLE_US)
-    RELATIONAL_OPERATOR(>=, _CMP_NLT_US)
+    RELATIONAL_OPERATOR(>, _CMP_GT_OS)
+    RELATIONAL_OPERATOR(>=, _CMP_GE_OS)
     RELATIONAL_OPERATOR(==, _CMP_EQ_OQ)
     RELATIONAL_OPERATOR(!=, _CMP_NEQ_UQ)
 #undef RELATIONAL_OPERATOR
@@ -316,8 +316,8 @@ public:
 
     RELATIONAL_MASK_OPERATOR(lt, _CMP_LT_OS)
     RELATIONAL_MASK_OPERATOR(le, _CMP_LE_OS)
-    RELATIONAL_MASK_OPERATOR(gt, _CMP_NLE_US)
-    RELATIONAL_MASK_OPERATOR(ge, _CMP_NLT_US)
+    RELATIONAL_MASK_OPERATOR(gt, _CMP_GT_OS)
+    RELATIONAL_MASK_OPERATOR(ge, _CMP_GE_OS)
     RELATIONAL_MASK_OPERATOR(eq, _CMP_EQ_OQ)
     RELATIONAL_MASK_OPERATOR(neq, _CMP_NEQ_UQ)
 
-- 
2.43.0


From a2293cfebfa45b3013f5f6b9c641c2240077c5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:57 +0000
Subject: [PATCH 07/16] fix: do not truncate the slope of double precision
 ramps to float

---
 detail/wrap_argument_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/wrap_argument_vector.hpp b/detail/wrap_argument_vector.hpp
index 399dec2..0b1dc47 100644
--- a/detail/wrap_argument_vector.hpp
+++ b/detail/wrap_argument_vector.hpp
@@ -91,7 +91,7 @@ struct vector_ramp_argument
 {
     always_inline vector_ramp_argument(FloatType const & base, FloatType const & slope)
     {
-        float vSlope = data.set_slope(base, slope);
+        FloatType vSlope = data.set_slope(base, slope);
         slope_.set_vec(vSlope);
     }
 
-- 
2.43.0


From 931848f10b5fbbe952f55acb9a47c2388cd7c175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:57 +0000
Subject: [PATCH 08/16] fix: round/floor/ceil of floats beyond 2**23

---
 detail/vec_math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/detail/vec_math.hpp b/detail/vec_math.hpp
index 0f08752..b7aaf9d 100644
--- a/detail/vec_math.hpp
+++ b/detail/vec_math.hpp
@@ -61,7 +61,8 @@ always_inline VecType vec_round_float(VecType const & arg)
     const vec two_to_23_ps (0x1.0p23f);
     const vec rounded = (abs_arg + two_to_23_ps) - two_to_23_ps;
 
-    return sign ^ rounded;
+    // values of at least 2**23 are integers already
+    return select(arg, sign ^ rounded, mask_lt(abs_arg, two_to_23_ps));
 }
 
 template <typename VecType>
-- 
2.43.0


From 7915fd5050ee07f249b8adf6462fef61dca79604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:57 +0000
Subject: [PATCH 09/16] fix: trunc of values that do not fit into a long

---
 detail/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/math.hpp b/detail/math.hpp
index 6dca81e..1ac79e9 100644
--- a/detail/math.hpp
+++ b/detail/math.hpp
@@ -294,7 +294,7 @@ inline double log2(double arg)
 template<typename float_type>
 inline float_type trunc(float_type const & arg)
 {
-    return (float_type)(long)arg;
+    return arg < 0 ? std::ceil(arg) : std::floor(arg);
 }
 
 
-- 
2.43.0


From ad555804537d43869ba10916f9fdc023425cdce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:57 +0000
Subject: [PATCH 10/16] fix: AVX load_first left the upper half undefined

---
 vec/vec_avx_double.hpp | 2 +-
 vec/vec_avx_float.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vec/vec_avx_double.hpp b/vec/vec_avx_double.hpp
index 89f168e..ec2cb29 100644
--- a/vec/vec_avx_double.hpp
+++ b/vec/vec_avx_double.hpp
@@ -142,7 +142,7 @@ public:
     void load_first(const double * data)
     {
         clear();
-        data_ = _mm256_castpd128_pd256(_mm_load_sd(data));
+        data_ = _mm256_insertf128_pd(data_, _mm_load_sd(data), 0);
     }
 
     void store(double * dest) const
diff --git a/vec/vec_avx_float.hpp b/vec/vec_avx_float.hpp
index 83d012c..1c9cfe8 100644
--- a/vec/vec_avx_float.hpp
+++ b/vec/vec_avx_float.hpp
@@ -148,7 +148,7 @@ public:
     void load_first(const float * data)
     {
         clear();
-        data_ = _mm256_castps128_ps256(_mm_load_ss(data));
+        data_ = _mm256_insertf128_ps(data_, _mm_load_ss(data), 0);
     }
 
     void store(float * dest) const
-- 
2.43.0


From fde06ba0adb33fc4e1b35f5cf5c6a657136373f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:57 +0000
Subject: [PATCH 11/16] fix: horizontal_min/horizontal_max ignored the last
 element

---
 simd_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simd_utils.hpp b/simd_utils.hpp
index c2d008b..add7806 100644
--- a/simd_utils.hpp
+++ b/simd_utils.hpp
@@ -118,7 +118,7 @@ inline float horizontal_min(__m128 args)
 {
     __m128 xmm0, xmm1;
     xmm0 = args;
-    xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(2,2,2,2));
+    xmm1 = _mm_movehl_ps(xmm0, xmm0);
     xmm0 = _mm_min_ps(xmm0, xmm1);
     xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(1,1,1,1));
     xmm0 = _mm_min_ss(xmm0, xmm1);
@@ -129,7 +129,7 @@ inline float horizontal_max(__m128 args)
 {
     __m128 xmm0, xmm1;
     xmm0 = args;
-    xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(2,2,2,2));
+    xmm1 = _mm_movehl_ps(xmm0, xmm0);
     xmm0 = _mm_max_ps(xmm0, xmm1);
     xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(1,1,1,1));
     xmm0 = _mm_max_ss(xmm0, xmm1);
-- 
2.43.0


From 670992f362e1056910b8abe67985453c36509948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:57 +0000
Subject: [PATCH 12/16] fix: alignment test of the generic vector for double

---
 vec/vec_generic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec/vec_generic.hpp b/vec/vec_generic.hpp
index e59cc9e..e6d28ca 100644
--- a/vec/vec_generic.hpp
+++ b/vec/vec_generic.hpp
@@ -104,7 +104,7 @@ public:
 
     static bool is_aligned(FloatType * ptr)
     {
-        return ((intptr_t)(ptr) & (intptr_t)(sizeof(float) - 1)) == 0;
+        return ((intptr_t)(ptr) & (intptr_t)(sizeof(FloatType) - 1)) == 0;
     }
 
     static vec gen_zero()
-- 
2.43.0


From f917140ef1731b96eb2d470206f9461cb41c6ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:15 +0000
Subject: [PATCH 13/16] fix: peak metering for blocks that are no multiple of
 four vectors

---
 simd_peakmeter.hpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/simd_peakmeter.hpp b/simd_peakmeter.hpp
index 4cfba27..2e29609 100644
--- a/simd_peakmeter.hpp
+++ b/simd_peakmeter.hpp
@@ -60,8 +60,9 @@ inline F peak_vec_simd(const F * in, F * peak, unsigned int n)
     /* loop */
     const size_t vec_size = vec<F>::size;
     const size_t unroll = 4 * vec_size;
+    unsigned int remaining = (n % unroll) / vec_size;
     n /= unroll;
-    do {
+    while (n--) {
         vec<F> in0, in1, in2, in3;
         in0.load_aligned(in);
         in1.load_aligned(in+vec_size);
@@ -78,7 +79,16 @@ inline F peak_vec_simd(const F * in, F * peak, unsigned int n)
 
         maximum = max_(maximum, local_max);
         in += unroll;
-    } while(--n);
+    }
+
+    while (remaining--) {
+        vec<F> in0;
+        in0.load_aligned(in);
+
+        abs3 = abs(in0);
+        maximum = max_(maximum, abs3);
+        in += vec_size;
+    }
 
     /* horizonal accumulation */
     *peak = maximum.horizontal_max();
@@ -118,8 +128,9 @@ inline void peak_rms_vec_simd(const F * in, F * peak, F * squared_sum, unsigned
     /* loop */
     const size_t vec_size = vec<F>::size;
     const size_t unroll = 4 * vec_size;
+    unsigned int remaining = (n % unroll) / vec_size;
     n /= unroll;
-    do {
+    while (n--) {
         vec<F> in0, in1, in2, in3;
         in0.load_aligned(in);
         in1.load_aligned(in+vec_size);
@@ -142,7 +153,16 @@ inline void peak_rms_vec_simd(const F * in, F * peak, F * squared_sum, unsigned
         local_squared_sum += sqr0 + sqr1 + sqr2 + sqr3;
 
         in += unroll;
-    } while(--n);
+    }
+
+    while (remaining--) {
+        vec<F> in0;
+        in0.load_aligned(in);
+
+        maximum = max_(maximum, abs(in0));
+        local_squared_sum += square(in0);
+        in += vec_size;
+    }
 
     /* horizonal accumulation */
     *peak = maximum.horizontal_max();
-- 
2.43.0


From e5e98ee5faebfcba2efdad324f65af4145e30b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:04 +0000
Subject: [PATCH 14/16] fix: log2 of double in C++98 builds used a single
 precision constant

---
 detail/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/math.hpp b/detail/math.hpp
index 1ac79e9..15eced3 100644
--- a/detail/math.hpp
+++ b/detail/math.hpp
@@ -268,7 +268,7 @@ inline float_type log2(float_type arg)
 #if __cplusplus >= 201103L
     return std::log2(arg);
 #else
-    const float rlog2 = 1.f/std::log(2.f);
+    const float_type rlog2 = float_type(1)/std::log(float_type(2));
     return std::log(arg) * rlog2;
 #endif
 }
-- 
2.43.0


From a105b274021cdaca269f31f610cd63ed157a96a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:04 +0000
Subject: [PATCH 15/16] fix: double precision unit conversions used constants
 truncated to 11 digits

---
 simd_unit_conversion.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simd_unit_conversion.hpp b/simd_unit_conversion.hpp
index fe3f34f..edf2bf7 100644
--- a/simd_unit_conversion.hpp
+++ b/simd_unit_conversion.hpp
@@ -46,7 +46,7 @@ struct midi2freq
     always_inline FloatType operator()(const FloatType & midi) const
     {
         return (FloatType)440. * pow_()(FloatType(2.),
-                                                     (midi - FloatType(69.)) * FloatType(0.083333333333));
+                                                     (midi - FloatType(69.)) * FloatType(1.0 / 12.0));
     }
 };
 
@@ -55,7 +55,7 @@ struct freq2midi
     template <typename FloatType>
     always_inline FloatType operator()(const FloatType & freq) const
     {
-        return abs_log2()(freq * FloatType(0.0022727272727))  * FloatType(12.) + FloatType(69.);
+        return abs_log2()(freq * FloatType(1.0 / 440.0))  * FloatType(12.) + FloatType(69.);
     }
 };
 
@@ -64,7 +64,7 @@ struct midi2ratio
     template <typename FloatType>
     always_inline FloatType operator()(const FloatType & midi) const
     {
-        return pow_()(FloatType(2.), midi * FloatType(0.083333333333));
+        return pow_()(FloatType(2.), midi * FloatType(1.0 / 12.0));
     }
 };
 
@@ -92,7 +92,7 @@ struct freq2oct
     template <typename FloatType>
     always_inline FloatType operator()(const FloatType & freq) const
     {
-        return abs_log2()(freq * FloatType(0.0022727272727)) + FloatType(4.75);
+        return abs_log2()(freq * FloatType(1.0 / 440.0)) + FloatType(4.75);
     }
 };
 
-- 
2.43.0


From 0aa968a57b0da58d8da31d0d7cc90bd668a6e125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:04 +0000
Subject: [PATCH 16/16] fix: select and andnot of the neon vectors exchanged
 their operands

---
 vec/vec_int_neon.hpp | 2 +-
 vec/vec_neon.hpp     | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/vec/vec_int_neon.hpp b/vec/vec_int_neon.hpp
index 97863a7..7657cf9 100644
--- a/vec/vec_int_neon.hpp
+++ b/vec/vec_int_neon.hpp
@@ -82,7 +82,7 @@ struct int_vec_neon
 
     friend inline int_vec_neon andnot(int_vec_neon const & lhs, int_vec_neon const & rhs)
     {
-        return vandq_u32(lhs.data_, vmvnq_u32(rhs.data_));
+        return vandq_u32(vmvnq_u32(lhs.data_), rhs.data_);
     }
 
     // shift in zeros
diff --git a/vec/vec_neon.hpp b/vec/vec_neon.hpp
index 05460b0..ff3700a 100644
--- a/vec/vec_neon.hpp
+++ b/vec/vec_neon.hpp
@@ -339,8 +339,8 @@ public:
 
     friend inline vec andnot(vec const & lhs, vec const & rhs)
     {
-        return  vreinterpretq_f32_u32(vandq_u32(vreinterpretq_u32_f32(lhs.data_),
-                                                vmvnq_u32(vreinterpretq_u32_f32(rhs.data_))));;
+        return  vreinterpretq_f32_u32(vandq_u32(vmvnq_u32(vreinterpretq_u32_f32(lhs.data_)),
+                                                vreinterpretq_u32_f32(rhs.data_)));
     }
 
 
@@ -363,7 +363,8 @@ public:
 public:
     friend inline vec select(vec lhs, vec rhs, vec bitmask)
     {
-        return vbslq_f32(vreinterpretq_u32_f32(bitmask.data_), lhs.data_, rhs.data_);
+        /* if bitmask is set, return value in rhs, else value in lhs */
+        return vbslq_f32(vreinterpretq_u32_f32(bitmask.data_), rhs.data_, lhs.data_);
     }
 
     /* @} */
-- 
2.43.0

