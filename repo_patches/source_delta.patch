From f1e62b3981e648d1ae54c607250077e7376b7512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 01/26] fix: iir_params constructors that allocate or validate
 must not be noexcept

Building an IIR plan from a section count whose storage cannot be allocated threw inside a
noexcept constructor and terminated the process instead of reporting the error (C API:
kfr_filter_create_iir_plan_f32/f64).
---
 include/kfr/dsp/biquad.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/dsp/biquad.hpp b/include/kfr/dsp/biquad.hpp
index 48b1be8..199451c 100644
--- a/include/kfr/dsp/biquad.hpp
+++ b/include/kfr/dsp/biquad.hpp
@@ -142,7 +142,7 @@ struct iir_params
     CMT_GNU_CONSTEXPR iir_params(const biquad_section<T>& one) CMT_NOEXCEPT : iir_params(&one, 1) {}
 
     template <typename Container, CMT_HAS_DATA_SIZE(Container)>
-    constexpr iir_params(Container&& cont) CMT_NOEXCEPT : iir_params(std::data(cont), std::size(cont))
+    constexpr iir_params(Container&& cont) : iir_params(std::data(cont), std::size(cont))
     {
     }
 };
@@ -158,14 +158,14 @@ struct iir_params<T, tag_dynamic_vector> : public std::vector<biquad_section<T>>
 
     iir_params(size_t count) : base(count) {}
 
-    iir_params(const biquad_section<T>* bq, size_t count) CMT_NOEXCEPT : base(bq, bq + count) {}
+    iir_params(const biquad_section<T>* bq, size_t count) : base(bq, bq + count) {}
 
-    iir_params(const biquad_section<T>& one) CMT_NOEXCEPT : iir_params(&one, 1) {}
+    iir_params(const biquad_section<T>& one) : iir_params(&one, 1) {}
 
     iir_params(std::vector<biquad_section<T>>&& sections) CMT_NOEXCEPT : base(std::move(sections)) {}
 
     template <typename Container, CMT_HAS_DATA_SIZE(Container)>
-    constexpr iir_params(Container&& cont) CMT_NOEXCEPT : iir_params(std::data(cont), std::size(cont))
+    constexpr iir_params(Container&& cont) : iir_params(std::data(cont), std::size(cont))
     {
     }
 
-- 
2.43.0


From 88915318355d46d26d804e728d0c7bd6663008a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 02/26] fix: include <stdbool.h> in capi.h so that the header
 compiles as C

The real multidimensional plan constructors take bool parameters, which made the C API header
unusable from C before C23.
---
 include/kfr/capi.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kfr/capi.h b/include/kfr/capi.h
index fd510b8..5159f00 100644
--- a/include/kfr/capi.h
+++ b/include/kfr/capi.h
@@ -25,6 +25,7 @@
  */
 #pragma once
 
+#include <stdbool.h>
 #include <stddef.h>
 #include <stdint.h>
 
-- 
2.43.0


From 3aa0bcad2be816d0b7806b8b249d0195616aef8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 03/26] fix: define kfr_dft_real_create_{2d,3d,md}_plan_f64,
 declared in capi.h

The double precision multidimensional real plan constructors were declared in the public C header
but never defined, so programs using them failed to link.
---
 src/capi/capi.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/capi/capi.cpp b/src/capi/capi.cpp
index e050d70..b6b93a1 100644
--- a/src/capi/capi.cpp
+++ b/src/capi/capi.cpp
@@ -411,6 +411,40 @@ KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_plan_f64(size_t size, KF
         nullptr);
 }
 
+KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_2d_plan_f64(size_t size1, size_t size2,
+                                                                    bool real_out_is_enough)
+{
+    return try_fn(
+        [&]()
+        {
+            return reinterpret_cast<KFR_DFT_REAL_PLAN_F64*>(
+                new var_dft_plan_real_impl<double, 2>(shape{ size1, size2 }, real_out_is_enough));
+        },
+        nullptr);
+}
+KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_3d_plan_f64(size_t size1, size_t size2, size_t size3,
+                                                                    bool real_out_is_enough)
+{
+    return try_fn(
+        [&]()
+        {
+            return reinterpret_cast<KFR_DFT_REAL_PLAN_F64*>(
+                new var_dft_plan_real_impl<double, 3>(shape{ size1, size2, size3 }, real_out_is_enough));
+        },
+        nullptr);
+}
+KFR_API_SPEC KFR_DFT_REAL_PLAN_F64* kfr_dft_real_create_md_plan_f64(size_t dims, const unsigned* shape,
+                                                                    bool real_out_is_enough)
+{
+    return try_fn(
+        [&]()
+        {
+            return reinterpret_cast<KFR_DFT_REAL_PLAN_F64*>(new var_dft_plan_real_impl<double, dynamic_shape>(
+                init_shape(dims, shape), real_out_is_enough));
+        },
+        nullptr);
+}
+
 KFR_API_SPEC void kfr_dft_real_dump_f32(KFR_DFT_REAL_PLAN_F32* plan)
 {
     try_fn([&]() { reinterpret_cast<var_dft_plan<float>*>(plan)->dump(); });
-- 
2.43.0


From eb9c6e4658d36af0fd624be308965fa7bb677089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 04/26] fix: keep arbitrary-length DFT intermediates in the
 caller's scratch buffer

Executing one plan from several threads raced on buffers stored in the plan.
---
 src/dft/dft-impl.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/dft/dft-impl.hpp b/src/dft/dft-impl.hpp
index 21fe447..5ef6a17 100644
--- a/src/dft/dft-impl.hpp
+++ b/src/dft/dft-impl.hpp
@@ -208,7 +208,7 @@ struct dft_arblen_stage_impl : dft_stage<T>
         this->repeats     = 1;
         this->recursion   = false;
         this->can_inplace = false;
-        this->temp_size   = plan.temp_size;
+        this->temp_size   = scratch_offset() + 2 * scratch_size();
         this->stage_size  = size;
 
         chirp_ = render(cexp(sqr(linspace(T(1) - size, size - T(1), size * 2 - 1, true, ctrue)) *
@@ -218,20 +218,30 @@ struct dft_arblen_stage_impl : dft_stage<T>
 
         univector<u8> temp(plan.temp_size);
         plan.execute(ichirpp_, ichirpp_, temp);
-        xp.resize(fftsize, 0);
-        xp_fft.resize(fftsize);
         invN2 = T(1) / fftsize;
     }
 
+    // Scratch layout: [temp of the inner plan] [xp] [xp_fft]
+    size_t scratch_offset() const { return align_up(plan.temp_size, platform<>::native_cache_alignment); }
+    size_t scratch_size() const
+    {
+        return align_up(sizeof(complex<T>) * fftsize, platform<>::native_cache_alignment);
+    }
+
     DFT_STAGE_FN
     template <bool inverse>
     KFR_MEM_INTRINSIC void do_execute(complex<T>* out, const complex<T>* in, u8* temp)
     {
         const size_t n = this->size;
 
+        // The plan may be executed concurrently, so intermediate data lives in the caller's buffer
+        auto xp     = make_univector(ptr_cast<complex<T>>(temp + scratch_offset()), fftsize);
+        auto xp_fft = make_univector(ptr_cast<complex<T>>(temp + scratch_offset() + scratch_size()), fftsize);
+
         auto&& chirp = apply_conj(chirp_, cbool<inverse>);
 
         xp.slice(0, n) = make_univector(in, n) * slice(chirp, n - 1);
+        xp.slice(n)    = zeros();
 
         plan.execute(xp_fft.data(), xp.data(), temp);
 
@@ -250,8 +260,6 @@ struct dft_arblen_stage_impl : dft_stage<T>
     dft_plan<T> plan;
     univector<complex<T>> chirp_;
     univector<complex<T>> ichirpp_;
-    univector<complex<T>> xp;
-    univector<complex<T>> xp_fft;
 };
 
 template <typename T, size_t radix1, size_t radix2, size_t size = radix1 * radix2>
-- 
2.43.0


From 983e33bd7047343a35a938587b76121b78882c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 05/26] fix: accept a null scratch pointer in dct_plan::execute

It was dereferenced at temp_size - 2*size*sizeof(complex<T>).
---
 include/kfr/dft/fft.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/kfr/dft/fft.hpp b/include/kfr/dft/fft.hpp
index cfc075e..ae74014 100644
--- a/include/kfr/dft/fft.hpp
+++ b/include/kfr/dft/fft.hpp
@@ -863,6 +863,11 @@ struct dct_plan : dft_plan<T>
 
     KFR_MEM_INTRINSIC void execute(T* out, const T* in, u8* temp, bool inverse = false) const
     {
+        if (temp == nullptr && this->temp_size > 0)
+        {
+            return call_with_temp(this->temp_size,
+                                  [&](u8* new_temp) { this->execute(out, in, new_temp, inverse); });
+        }
         const size_t size                  = this->size;
         const size_t halfSize              = size / 2;
         univector_ref<complex<T>> mirrored = make_univector(
-- 
2.43.0


From be643c63d12e24857c15f9c14dd53d24ebaf802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 06/26] fix: direction check of dft_plan_md_real::execute(...,
 bool) was inverted

The forward overload rejected inverse=false and accepted inverse=true, and vice versa.
---
 include/kfr/dft/fft.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/dft/fft.hpp b/include/kfr/dft/fft.hpp
index ae74014..9acbea1 100644
--- a/include/kfr/dft/fft.hpp
+++ b/include/kfr/dft/fft.hpp
@@ -719,12 +719,12 @@ struct dft_plan_md_real
     }
     void execute(complex<T>* out, const T* in, u8* temp, bool inverse) const
     {
-        KFR_LOGIC_CHECK(inverse, "dft_plan_md_real: incorrect usage");
+        KFR_LOGIC_CHECK(!inverse, "dft_plan_md_real: incorrect usage");
         execute_dft(cfalse, out, in, temp);
     }
     void execute(T* out, const complex<T>* in, u8* temp, bool inverse) const
     {
-        KFR_LOGIC_CHECK(!inverse, "dft_plan_md_real: incorrect usage");
+        KFR_LOGIC_CHECK(inverse, "dft_plan_md_real: incorrect usage");
         execute_dft(ctrue, out, in, temp);
     }
 
-- 
2.43.0


From 57ade58bbedf097eb1f644c16995d9a94a5608b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 07/26] fix: report AVX2/AVX-512 only if FMA (and AVX2) is
 available

---
 include/kfr/runtime/cpuid.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/kfr/runtime/cpuid.hpp b/include/kfr/runtime/cpuid.hpp
index 6318505..c5ee6be 100644
--- a/include/kfr/runtime/cpuid.hpp
+++ b/include/kfr/runtime/cpuid.hpp
@@ -281,10 +281,10 @@ cpu_t detect_cpu()
     c.hasAVXOSSUPPORT    = c.hasAVX && c.hasOSXSAVE && (get_xcr0() & 0x06) == 0x06;
     c.hasAVX512OSSUPPORT = c.hasAVXOSSUPPORT && c.hasAVX512F && c.hasOSXSAVE && (get_xcr0() & 0xE0) == 0xE0;
 
-    if (c.hasAVX512F && c.hasAVX512CD && c.hasAVX512VL && c.hasAVX512BW && c.hasAVX512DQ &&
-        c.hasAVX512OSSUPPORT)
+    if (c.hasAVX512F && c.hasAVX512CD && c.hasAVX512VL && c.hasAVX512BW && c.hasAVX512DQ && c.hasAVX2 &&
+        c.hasFMA && c.hasAVX512OSSUPPORT)
         return cpu_t::avx512;
-    if (c.hasAVX2 && c.hasAVXOSSUPPORT)
+    if (c.hasAVX2 && c.hasFMA && c.hasAVXOSSUPPORT)
         return cpu_t::avx2;
     if (c.hasAVX && c.hasAVXOSSUPPORT)
         return cpu_t::avx1;
-- 
2.43.0


From e416e57eca85e1fa3735c1d11dae607ed570954c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:31 +0000
Subject: [PATCH 08/26] fix: make special_value's random generator per-thread
 (unsynchronised shared state)

---
 include/kfr/cometa.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/cometa.hpp b/include/kfr/cometa.hpp
index 70b7b06..bdcd429 100644
--- a/include/kfr/cometa.hpp
+++ b/include/kfr/cometa.hpp
@@ -2221,7 +2221,7 @@ struct special_value
 
     static std::mt19937& random_generator()
     {
-        static std::mt19937 rnd(1);
+        static thread_local std::mt19937 rnd(1);
         return rnd;
     }
 
-- 
2.43.0


From dd5f49608b39f9faaecdc36267a4557457e2a6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 09/26] fix: iir_filter::reset restores the initial state

reset() was inherited as a no-op, so the filter kept its history and a
reused filter did not start from silence. Rebuild the filter expression from
the stored parameters, as the constructor does.
---
 include/kfr/dsp/biquad.hpp |  6 ++++++
 src/dsp/biquad.cpp         | 10 +++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/kfr/dsp/biquad.hpp b/include/kfr/dsp/biquad.hpp
index 199451c..087b310 100644
--- a/include/kfr/dsp/biquad.hpp
+++ b/include/kfr/dsp/biquad.hpp
@@ -509,6 +509,12 @@ public:
         : iir_filter(iir_params<T>(bq, count))
     {
     }
+
+    /// Reset internal filter state
+    void reset() final;
+
+private:
+    iir_params<T> params;
 };
 
 template <typename T>
diff --git a/src/dsp/biquad.cpp b/src/dsp/biquad.cpp
index e8f7ed2..4f2b668 100644
--- a/src/dsp/biquad.cpp
+++ b/src/dsp/biquad.cpp
@@ -52,13 +52,21 @@ template expression_handle<double, 1> create_iir_filter<double>(const iir_params
 #ifdef CMT_MULTI_NEEDS_GATE
 
 template <typename T>
-iir_filter<T>::iir_filter(const iir_params<T>& params)
+iir_filter<T>::iir_filter(const iir_params<T>& params) : params(params)
+{
+    reset();
+}
+
+template <typename T>
+void iir_filter<T>::reset()
 {
     CMT_MULTI_GATE(this->filter_expr = ns::impl::create_iir_filter<T>(params));
 }
 
 template iir_filter<float>::iir_filter(const iir_params<float>&);
 template iir_filter<double>::iir_filter(const iir_params<double>&);
+template void iir_filter<float>::reset();
+template void iir_filter<double>::reset();
 
 #endif
 
-- 
2.43.0


From baff8ed0b3302ed1a64704dc0d64176efa9c479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 10/26] fix: cascaded iir keeps its state over blocks shorter
 than the cascade

begin_pass primes the pipeline with the first filters-1 samples. When the
block is not longer than that, get_elements never sees the end of the block
and saved_state was never written, so the samples were lost for the next
block. It also read from index 0 when the pass starts elsewhere.
---
 include/kfr/dsp/biquad.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/kfr/dsp/biquad.hpp b/include/kfr/dsp/biquad.hpp
index 087b310..d24991a 100644
--- a/include/kfr/dsp/biquad.hpp
+++ b/include/kfr/dsp/biquad.hpp
@@ -307,14 +307,19 @@ KFR_INTRINSIC void begin_pass(const expression_iir<1, T, E1, Stateless>&, shape<
 template <size_t filters, typename T, typename E1, bool Stateless>
 KFR_INTRINSIC void begin_pass(const expression_iir<filters, T, E1, Stateless>& self, shape<1> start, shape<1> stop)
 {
-    size_t size           = stop.front();
-    self.state->block_end = size;
+    const size_t begin    = start.front();
+    const size_t end      = stop.front();
+    self.state->block_end = end;
     vec<T, filters - 1> in;
     for (index_t i = 0; i < filters - 1; i++)
     {
-        in[i] = i < size ? get_elements(self.first(), shape<1>{ i }, axis_params_v<0, 1>).front() : 0;
+        in[i] = begin + i < end ? get_elements(self.first(), shape<1>{ begin + i }, axis_params_v<0, 1>).front()
+                                : 0;
     }
-    internal::biquad_process(*self.state, in);
+    // If the whole block has been consumed here, get_elements never sees its end
+    // and the state for the next block must be saved now.
+    const size_t size = end - begin;
+    internal::biquad_process(*self.state, in, size <= filters - 1 ? size : static_cast<size_t>(-1));
 }
 
 template <typename T, typename E1, bool Stateless>
-- 
2.43.0


From 15e01035a5864be434e0993b6d3c3b93a787d150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 11/26] fix: portable back end mixed up lanes when shuffling
 two vectors of non power-of-two length

The second operand starts at the padded size of the first one.
---
 include/kfr/simd/impl/backend_generic.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/impl/backend_generic.hpp b/include/kfr/simd/impl/backend_generic.hpp
index 1a21f55..01e8afe 100644
--- a/include/kfr/simd/impl/backend_generic.hpp
+++ b/include/kfr/simd/impl/backend_generic.hpp
@@ -402,7 +402,10 @@ KFR_INTRINSIC simd<float, Nout> simd_shuffle(simd2_t<float, N, N>, const simd<fl
                                              const simd<float, N>& y, csizes_t<indices...> ind,
                                              overload_priority<2>) CMT_NOEXCEPT
 {
-    return universal_shuffle(simd_t<float, 2 * N>{}, simd_from_halves(simd_t<float, 2 * N>{}, x, y), ind);
+    // the lanes of y start at the padded size of x
+    constexpr size_t Npad = next_poweroftwo(N);
+    return universal_shuffle(simd_t<float, 2 * Npad>{}, simd_from_halves(simd_t<float, 2 * Npad>{}, x, y),
+                             csizes<(indices < N ? indices : indices - N + Npad)...>);
 }
 
 template <size_t N, size_t... indices, size_t Nout = sizeof...(indices)>
@@ -410,7 +413,10 @@ KFR_INTRINSIC simd<double, Nout> simd_shuffle(simd2_t<double, N, N>, const simd<
                                               const simd<double, N>& y, csizes_t<indices...> ind,
                                               overload_priority<2>) CMT_NOEXCEPT
 {
-    return universal_shuffle(simd_t<double, 2 * N>{}, simd_from_halves(simd_t<double, 2 * N>{}, x, y), ind);
+    // the lanes of y start at the padded size of x
+    constexpr size_t Npad = next_poweroftwo(N);
+    return universal_shuffle(simd_t<double, 2 * Npad>{}, simd_from_halves(simd_t<double, 2 * Npad>{}, x, y),
+                             csizes<(indices < N ? indices : indices - N + Npad)...>);
 }
 
 #define KFR_INTRIN_SHUFFLE_DUPHALVES(T, N, ...)                                                              \
-- 
2.43.0


From 24f0b542bf11a458d4e4f22e5df7debde6525171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 12/26] fix: portable AVX back end returned zeros when
 shuffling within the upper half

Indices into the upper half were not rebased, and the double precision branch
tested for the wrong half boundary.
---
 include/kfr/simd/impl/backend_generic.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/kfr/simd/impl/backend_generic.hpp b/include/kfr/simd/impl/backend_generic.hpp
index 01e8afe..d1e2bcd 100644
--- a/include/kfr/simd/impl/backend_generic.hpp
+++ b/include/kfr/simd/impl/backend_generic.hpp
@@ -1733,7 +1733,8 @@ KFR_INTRINSIC simd<float, 8> simd_vec_shuffle(simd_t<float, 8>, const simd<float
                                                       csizes<I0, I1, I2, I3>),
                                     universal_shuffle(simd_t<float, 4>{},
                                                       simd_get_high(simd_t<float, 8>{}, x),
-                                                      csizes<I4, I5, I6, I7>));
+                                                      csizes<I4 < 8 ? I4 - 4 : I4, I5 < 8 ? I5 - 4 : I5,
+                                                             I6 < 8 ? I6 - 4 : I6, I7 < 8 ? I7 - 4 : I7>));
         }
     }
     else
@@ -1760,11 +1761,11 @@ KFR_INTRINSIC simd<double, 4> simd_vec_shuffle(simd_t<double, 4>, const simd<dou
             universal_shuffle(simd_t<double, 2>{}, simd_get_low(simd_t<double, 4>{}, x), csizes<I0, I1>);
         return simd_from_halves(simd_t<double, 4>{}, tmp, tmp);
     }
-    else if constexpr (cmaxof(csizes<I0, I1>) < 4 && cminof(csizes<I2, I3>) >= 4)
+    else if constexpr (cmaxof(csizes<I0, I1>) < 2 && cminof(csizes<I2, I3>) >= 2)
     {
-        if constexpr (csizes<I0, I1, I2, I3>.equal(csizes<I0, I1, I2 + 2, I3 + 2>))
+        if constexpr (csizes<I0, I1, I2, I3>.equal(csizes<I0, I1, I0 + 2, I1 + 2>))
         {
-            return _mm256_shuffle_pd(x, x, (shuffle_mask<2, I0, I1>::value));
+            return _mm256_shuffle_pd(x, x, (shuffle_mask<4, I0, I1, I0, I1>::value));
         }
         else
         {
@@ -1772,7 +1773,7 @@ KFR_INTRINSIC simd<double, 4> simd_vec_shuffle(simd_t<double, 4>, const simd<dou
                 simd_t<double, 4>{},
                 universal_shuffle(simd_t<double, 2>{}, simd_get_low(simd_t<double, 4>{}, x), csizes<I0, I1>),
                 universal_shuffle(simd_t<double, 2>{}, simd_get_high(simd_t<double, 4>{}, x),
-                                  csizes<I2, I3>));
+                                  csizes<I2 < 4 ? I2 - 2 : I2, I3 < 4 ? I3 - 2 : I3>));
         }
     }
     else
-- 
2.43.0


From 5ed9b998ccf78ada97c24d3c6c277f82c1159008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:22 +0000
Subject: [PATCH 13/26] fix: aligned access to a vector of non-power-of-two
 length touched the padding elements

---
 include/kfr/simd/impl/read_write.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/impl/read_write.hpp b/include/kfr/simd/impl/read_write.hpp
index e5cb538..65946c5 100644
--- a/include/kfr/simd/impl/read_write.hpp
+++ b/include/kfr/simd/impl/read_write.hpp
@@ -387,13 +387,20 @@ KFR_INTRINSIC void write(cunaligned_t, T* dest, const vec<T, N>& x) CMT_NOEXCEPT
 template <size_t N, typename T>
 KFR_INTRINSIC vec<T, N> read(caligned_t, csize_t<N>, const T* __restrict ptr) CMT_NOEXCEPT
 {
-    return *reinterpret_cast<const typename vec<T, N>::simd_type*>(ptr);
+    // simd_type may be padded to the next power of two
+    if constexpr (sizeof(typename vec<T, N>::simd_type) == sizeof(T) * N)
+        return *reinterpret_cast<const typename vec<T, N>::simd_type*>(ptr);
+    else
+        return read(cunaligned, csize<N>, ptr);
 }
 
 template <size_t N, typename T>
 KFR_INTRINSIC void write(caligned_t, T* __restrict ptr, const vec<T, N>& __restrict x) CMT_NOEXCEPT
 {
-    *reinterpret_cast<typename vec<T, N>::simd_type*>(ptr) = x.v;
+    if constexpr (sizeof(typename vec<T, N>::simd_type) == sizeof(T) * N)
+        *reinterpret_cast<typename vec<T, N>::simd_type*>(ptr) = x.v;
+    else
+        write(cunaligned, ptr, x);
 }
 
 } // namespace intrinsics
-- 
2.43.0


From c2e7760c4448a6e2254733d5a2b44de0a09b0281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:22 +0000
Subject: [PATCH 14/26] fix: scatter_stride with groups of several elements
 wrote the wrong elements to the wrong places

---
 include/kfr/simd/read_write.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/read_write.hpp b/include/kfr/simd/read_write.hpp
index 1337e17..cc4dfd4 100644
--- a/include/kfr/simd/read_write.hpp
+++ b/include/kfr/simd/read_write.hpp
@@ -183,8 +183,10 @@ KFR_INTRINSIC void scatter_stride(T* base, const vec<T, N>& value, size_t stride
     if constexpr (Nout > 2)
     {
         constexpr size_t Nlow = prev_poweroftwo(Nout - 1);
-        internal::scatter_helper_s<groupsize>(base, stride, slice<0, Nlow>(value), csizeseq<Nlow>);
-        internal::scatter_helper_s<groupsize>(base + Nlow * stride, stride, slice<Nlow, Nout - Nlow>(value),
+        internal::scatter_helper_s<groupsize>(base, stride, slice<0, groupsize * Nlow>(value),
+                                              csizeseq<Nlow>);
+        internal::scatter_helper_s<groupsize>(base + groupsize * Nlow * stride, stride,
+                                              slice<groupsize * Nlow, groupsize*(Nout - Nlow)>(value),
                                               csizeseq<(Nout - Nlow)>);
     }
     else
-- 
2.43.0


From bf06f0355e65c74557003df6e5935dc4589c561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 15/26] fix: copysign ignored the magnitude of its first
 argument

---
 include/kfr/simd/operators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/simd/operators.hpp b/include/kfr/simd/operators.hpp
index 2b0c9bb..40d98cf 100644
--- a/include/kfr/simd/operators.hpp
+++ b/include/kfr/simd/operators.hpp
@@ -593,7 +593,7 @@ KFR_FN(mulsign)
 template <typename T, size_t N>
 constexpr KFR_INTRINSIC vec<T, N> copysign(const vec<T, N>& x, const vec<T, N>& y)
 {
-    return (x & special_constants<T>::highbitmask()) | (y & special_constants<T>::highbitmask());
+    return (x & special_constants<T>::invhighbitmask()) | (y & special_constants<T>::highbitmask());
 }
 
 /// @brief Swap byte order
-- 
2.43.0


From 89a1b2b63c2f481d4d6bc5353893a9a87cd4ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 16/26] fix: generic signed saturated add and subtract returned
 the first operand on overflow

---
 include/kfr/simd/impl/saturation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/impl/saturation.hpp b/include/kfr/simd/impl/saturation.hpp
index 57da206..551acad 100644
--- a/include/kfr/simd/impl/saturation.hpp
+++ b/include/kfr/simd/impl/saturation.hpp
@@ -45,7 +45,7 @@ KFR_INTRINSIC vec<T, N> saturated_signed_add(const vec<T, N>& a, const vec<T, N>
     const vec<UT, N> sum   = aa + bb;
     aa                     = (aa >> shift) + static_cast<UT>(std::numeric_limits<T>::max());
 
-    return select(bitcast<T>((aa ^ bb) | ~(bb ^ sum)) >= T(), a, bitcast<T>(sum));
+    return select(bitcast<T>((aa ^ bb) | ~(bb ^ sum)) >= T(), bitcast<T>(aa), bitcast<T>(sum));
 }
 template <typename T, size_t N>
 KFR_INTRINSIC vec<T, N> saturated_signed_sub(const vec<T, N>& a, const vec<T, N>& b)
@@ -57,7 +57,7 @@ KFR_INTRINSIC vec<T, N> saturated_signed_sub(const vec<T, N>& a, const vec<T, N>
     const vec<UT, N> diff  = aa - bb;
     aa                     = (aa >> shift) + static_cast<UT>(std::numeric_limits<T>::max());
 
-    return select(bitcast<T>((aa ^ bb) & (aa ^ diff)) < T(), a, bitcast<T>(diff));
+    return select(bitcast<T>((aa ^ bb) & (aa ^ diff)) < T(), bitcast<T>(aa), bitcast<T>(diff));
 }
 template <typename T, size_t N>
 KFR_INTRINSIC vec<T, N> saturated_unsigned_add(const vec<T, N>& a, const vec<T, N>& b)
-- 
2.43.0


From 6076446b183edb6b22599c4153e40506004deafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 17/26] fix: all() of a 512-bit floating-point mask was always
 false

---
 include/kfr/simd/impl/logical.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/simd/impl/logical.hpp b/include/kfr/simd/impl/logical.hpp
index a511088..89019de 100644
--- a/include/kfr/simd/impl/logical.hpp
+++ b/include/kfr/simd/impl/logical.hpp
@@ -108,11 +108,11 @@ KFR_INTRINSIC bool bittestany(const mi64avx512& x) { return _mm512_movepi64_mask
 // horizontal AND
 KFR_INTRINSIC bool bittestall(const mf32avx512& x)
 {
-    return !~_mm512_movepi32_mask(_mm512_castps_si512(x.v));
+    return !uint16_t(~_mm512_movepi32_mask(_mm512_castps_si512(x.v)));
 }
 KFR_INTRINSIC bool bittestall(const mf64avx512& x)
 {
-    return !~_mm512_movepi64_mask(_mm512_castpd_si512(x.v));
+    return !uint8_t(~_mm512_movepi64_mask(_mm512_castpd_si512(x.v)));
 }
 KFR_INTRINSIC bool bittestall(const mu8avx512& x) { return !~_mm512_movepi8_mask(x.v); }
 KFR_INTRINSIC bool bittestall(const mu16avx512& x) { return !~_mm512_movepi16_mask(x.v); }
-- 
2.43.0


From ac75b8234aed8c71c27d3c8686666c7382acafad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 18/26] fix: portable != of floating-point vectors was false
 for NaN on AVX and AVX-512

---
 include/kfr/simd/impl/basicoperators_generic.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/kfr/simd/impl/basicoperators_generic.hpp b/include/kfr/simd/impl/basicoperators_generic.hpp
index 5da2829..da8db60 100644
--- a/include/kfr/simd/impl/basicoperators_generic.hpp
+++ b/include/kfr/simd/impl/basicoperators_generic.hpp
@@ -527,8 +527,8 @@ KFR_INTRINSIC __m256i _mm256_highbit_epi64() { return _mm256_set1_epi64x(0x80000
 
 KFR_INTRINSIC f32avx eq(const f32avx& x, const f32avx& y) { return _mm256_cmp_ps(x.v, y.v, _CMP_EQ_OQ); }
 KFR_INTRINSIC f64avx eq(const f64avx& x, const f64avx& y) { return _mm256_cmp_pd(x.v, y.v, _CMP_EQ_OQ); }
-KFR_INTRINSIC f32avx ne(const f32avx& x, const f32avx& y) { return _mm256_cmp_ps(x.v, y.v, _CMP_NEQ_OQ); }
-KFR_INTRINSIC f64avx ne(const f64avx& x, const f64avx& y) { return _mm256_cmp_pd(x.v, y.v, _CMP_NEQ_OQ); }
+KFR_INTRINSIC f32avx ne(const f32avx& x, const f32avx& y) { return _mm256_cmp_ps(x.v, y.v, _CMP_NEQ_UQ); }
+KFR_INTRINSIC f64avx ne(const f64avx& x, const f64avx& y) { return _mm256_cmp_pd(x.v, y.v, _CMP_NEQ_UQ); }
 KFR_INTRINSIC f32avx lt(const f32avx& x, const f32avx& y) { return _mm256_cmp_ps(x.v, y.v, _CMP_LT_OQ); }
 KFR_INTRINSIC f64avx lt(const f64avx& x, const f64avx& y) { return _mm256_cmp_pd(x.v, y.v, _CMP_LT_OQ); }
 KFR_INTRINSIC f32avx gt(const f32avx& x, const f32avx& y) { return _mm256_cmp_ps(x.v, y.v, _CMP_GT_OQ); }
@@ -999,11 +999,11 @@ KFR_INTRINSIC f64avx512 eq(const f64avx512& x, const f64avx512& y)
 }
 KFR_INTRINSIC f32avx512 ne(const f32avx512& x, const f32avx512& y)
 {
-    return _mm512_castsi512_ps(_mm512_movm_epi32(_mm512_cmp_ps_mask(x.v, y.v, _CMP_NEQ_OQ)));
+    return _mm512_castsi512_ps(_mm512_movm_epi32(_mm512_cmp_ps_mask(x.v, y.v, _CMP_NEQ_UQ)));
 }
 KFR_INTRINSIC f64avx512 ne(const f64avx512& x, const f64avx512& y)
 {
-    return _mm512_castsi512_pd(_mm512_movm_epi64(_mm512_cmp_pd_mask(x.v, y.v, _CMP_NEQ_OQ)));
+    return _mm512_castsi512_pd(_mm512_movm_epi64(_mm512_cmp_pd_mask(x.v, y.v, _CMP_NEQ_UQ)));
 }
 KFR_INTRINSIC f32avx512 lt(const f32avx512& x, const f32avx512& y)
 {
-- 
2.43.0


From 5326cf3d22bf03632543e14b866b176397edaf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:47 +0000
Subject: [PATCH 19/26] fix: portable byte shifts saturated the shifted value
 times 256 instead of shifting

---
 .../kfr/simd/impl/basicoperators_generic.hpp  | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/kfr/simd/impl/basicoperators_generic.hpp b/include/kfr/simd/impl/basicoperators_generic.hpp
index da8db60..3591a91 100644
--- a/include/kfr/simd/impl/basicoperators_generic.hpp
+++ b/include/kfr/simd/impl/basicoperators_generic.hpp
@@ -195,7 +195,7 @@ KFR_INTRINSIC u8sse shl(const u8sse& x, unsigned y)
     __m128i ll = _mm_slli_epi16(l, y);
     __m128i hh = _mm_slli_epi16(h, y);
 
-    return _mm_packs_epi16(ll, hh);
+    return _mm_packus_epi16(_mm_srli_epi16(ll, 8), _mm_srli_epi16(hh, 8));
 }
 KFR_INTRINSIC i8sse shl(const i8sse& x, unsigned y)
 {
@@ -205,7 +205,7 @@ KFR_INTRINSIC i8sse shl(const i8sse& x, unsigned y)
     __m128i ll = _mm_slli_epi16(l, y);
     __m128i hh = _mm_slli_epi16(h, y);
 
-    return _mm_packs_epi16(ll, hh);
+    return _mm_packus_epi16(_mm_srli_epi16(ll, 8), _mm_srli_epi16(hh, 8));
 }
 KFR_INTRINSIC u8sse shr(const u8sse& x, unsigned y)
 {
@@ -215,7 +215,7 @@ KFR_INTRINSIC u8sse shr(const u8sse& x, unsigned y)
     __m128i ll = _mm_srli_epi16(l, y);
     __m128i hh = _mm_srli_epi16(h, y);
 
-    return _mm_packs_epi16(ll, hh);
+    return _mm_packus_epi16(_mm_srli_epi16(ll, 8), _mm_srli_epi16(hh, 8));
 }
 KFR_INTRINSIC i8sse shr(const i8sse& x, unsigned y)
 {
@@ -225,7 +225,7 @@ KFR_INTRINSIC i8sse shr(const i8sse& x, unsigned y)
     __m128i ll = _mm_srai_epi16(l, y);
     __m128i hh = _mm_srai_epi16(h, y);
 
-    return _mm_packs_epi16(ll, hh);
+    return _mm_packs_epi16(_mm_srai_epi16(ll, 8), _mm_srai_epi16(hh, 8));
 }
 
 KFR_INTRINSIC i64sse shr(const i64sse& x, unsigned y)
@@ -692,7 +692,7 @@ KFR_INTRINSIC u8avx shl(const u8avx& x, unsigned y)
     __m256i ll = _mm256_slli_epi16(l, y);
     __m256i hh = _mm256_slli_epi16(h, y);
 
-    return _mm256_packs_epi16(ll, hh);
+    return _mm256_packus_epi16(_mm256_srli_epi16(ll, 8), _mm256_srli_epi16(hh, 8));
 }
 KFR_INTRINSIC i8avx shl(const i8avx& x, unsigned y)
 {
@@ -701,7 +701,7 @@ KFR_INTRINSIC i8avx shl(const i8avx& x, unsigned y)
     __m256i ll = _mm256_slli_epi16(l, y);
     __m256i hh = _mm256_slli_epi16(h, y);
 
-    return _mm256_packs_epi16(ll, hh);
+    return _mm256_packus_epi16(_mm256_srli_epi16(ll, 8), _mm256_srli_epi16(hh, 8));
 }
 KFR_INTRINSIC u8avx shr(const u8avx& x, unsigned y)
 {
@@ -710,7 +710,7 @@ KFR_INTRINSIC u8avx shr(const u8avx& x, unsigned y)
     __m256i ll = _mm256_srli_epi16(l, y);
     __m256i hh = _mm256_srli_epi16(h, y);
 
-    return _mm256_packs_epi16(ll, hh);
+    return _mm256_packus_epi16(_mm256_srli_epi16(ll, 8), _mm256_srli_epi16(hh, 8));
 }
 KFR_INTRINSIC i8avx shr(const i8avx& x, unsigned y)
 {
@@ -719,7 +719,7 @@ KFR_INTRINSIC i8avx shr(const i8avx& x, unsigned y)
     __m256i ll = _mm256_srai_epi16(l, y);
     __m256i hh = _mm256_srai_epi16(h, y);
 
-    return _mm256_packs_epi16(ll, hh);
+    return _mm256_packs_epi16(_mm256_srai_epi16(ll, 8), _mm256_srai_epi16(hh, 8));
 }
 
 KFR_INTRINSIC u32sse shl(const u32sse& x, const u32sse& y) { return _mm_sllv_epi32(x.v, y.v); }
@@ -1362,7 +1362,7 @@ KFR_INTRINSIC u8avx512 shl(const u8avx512& x, unsigned y)
     __m512i ll = _mm512_slli_epi16(l, y);
     __m512i hh = _mm512_slli_epi16(h, y);
 
-    return _mm512_packs_epi16(ll, hh);
+    return _mm512_packus_epi16(_mm512_srli_epi16(ll, 8), _mm512_srli_epi16(hh, 8));
 }
 KFR_INTRINSIC i8avx512 shl(const i8avx512& x, unsigned y)
 {
@@ -1371,7 +1371,7 @@ KFR_INTRINSIC i8avx512 shl(const i8avx512& x, unsigned y)
     __m512i ll = _mm512_slli_epi16(l, y);
     __m512i hh = _mm512_slli_epi16(h, y);
 
-    return _mm512_packs_epi16(ll, hh);
+    return _mm512_packus_epi16(_mm512_srli_epi16(ll, 8), _mm512_srli_epi16(hh, 8));
 }
 KFR_INTRINSIC u8avx512 shr(const u8avx512& x, unsigned y)
 {
@@ -1380,7 +1380,7 @@ KFR_INTRINSIC u8avx512 shr(const u8avx512& x, unsigned y)
     __m512i ll = _mm512_srli_epi16(l, y);
     __m512i hh = _mm512_srli_epi16(h, y);
 
-    return _mm512_packs_epi16(ll, hh);
+    return _mm512_packus_epi16(_mm512_srli_epi16(ll, 8), _mm512_srli_epi16(hh, 8));
 }
 KFR_INTRINSIC i8avx512 shr(const i8avx512& x, unsigned y)
 {
@@ -1389,7 +1389,7 @@ KFR_INTRINSIC i8avx512 shr(const i8avx512& x, unsigned y)
     __m512i ll = _mm512_srai_epi16(l, y);
     __m512i hh = _mm512_srai_epi16(h, y);
 
-    return _mm512_packs_epi16(ll, hh);
+    return _mm512_packs_epi16(_mm512_srai_epi16(ll, 8), _mm512_srai_epi16(hh, 8));
 }
 
 KFR_INTRINSIC u32avx512 shl(const u32avx512& x, const u32avx512& y) { return _mm512_sllv_epi32(x.v, y.v); }
-- 
2.43.0


From ad818c42e55db9a241ed82a35503f6f6abbec1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:41 +0000
Subject: [PATCH 20/26] fix: cartesian() multiplied by the duplicated radius as
 a complex number

---
 include/kfr/math/complex_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/math/complex_math.hpp b/include/kfr/math/complex_math.hpp
index d03acb4..7ae740e 100644
--- a/include/kfr/math/complex_math.hpp
+++ b/include/kfr/math/complex_math.hpp
@@ -122,7 +122,7 @@ KFR_INTRINSIC vec<complex<T>, N> polar(const vec<complex<T>, N>& x)
 template <typename T, size_t N>
 KFR_INTRINSIC vec<complex<T>, N> cartesian(const vec<complex<T>, N>& x)
 {
-    return cdupreal(x) * ccomp(cossin(cdecom(cdupimag(x))));
+    return ccomp(cdecom(cdupreal(x)) * cossin(cdecom(cdupimag(x))));
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From 694632fa5400091dfd47a71339ada1577e7efa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:41 +0000
Subject: [PATCH 21/26] fix: havg of signed integers divided in size_t and
 returned wrong means for negative sums

---
 include/kfr/simd/horizontal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/simd/horizontal.hpp b/include/kfr/simd/horizontal.hpp
index 38d7e43..bfac66e 100644
--- a/include/kfr/simd/horizontal.hpp
+++ b/include/kfr/simd/horizontal.hpp
@@ -203,7 +203,7 @@ KFR_FN(hdot)
 template <typename T, size_t N>
 KFR_INTRINSIC T havg(const vec<T, N>& value)
 {
-    return hadd(value) / N;
+    return hadd(value) / static_cast<T>(N);
 }
 KFR_FN(havg)
 
-- 
2.43.0


From 12503679c3bc9d4870e8c882657c1a54be5d2df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:00 +0000
Subject: [PATCH 22/26] fix: csqrt(0) returned a NaN imaginary part

---
 include/kfr/math/complex_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/math/complex_math.hpp b/include/kfr/math/complex_math.hpp
index 7ae740e..e767752 100644
--- a/include/kfr/math/complex_math.hpp
+++ b/include/kfr/math/complex_math.hpp
@@ -136,7 +136,7 @@ template <typename T, size_t N>
 KFR_INTRINSIC vec<complex<T>, N> csqrt(const vec<complex<T>, N>& x)
 {
     const vec<T, N> s        = sqrt((abs(real(x)) + cabs(x)) * 0.5);
-    const vec<T, N> d        = abs(imag(x)) * 0.5 / s;
+    const vec<T, N> d        = select(s == T(0), T(0), abs(imag(x)) * 0.5 / s);
     const mask<T, N> posreal = real(x) >= T(0);
     const vec<T, N> imagsign = imag(x) & special_constants<T>::highbitmask();
     return make_complex(select(posreal, s, d), select(posreal, d ^ imagsign, s ^ imagsign));
-- 
2.43.0


From 26439fd9d0cf8ecc5152571a4171fc0169e86a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:19 +0000
Subject: [PATCH 23/26] fix: a moving sum of one sample reads past its delay
 line

---
 include/kfr/dsp/fir.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/kfr/dsp/fir.hpp b/include/kfr/dsp/fir.hpp
index d1a8918..cbbf814 100644
--- a/include/kfr/dsp/fir.hpp
+++ b/include/kfr/dsp/fir.hpp
@@ -118,14 +118,17 @@ fir_state(Cont&&) -> fir_state<container_value_type<Cont>>;
 template <typename U, univector_tag Tag = tag_dynamic_vector>
 struct moving_sum_state
 {
-    moving_sum_state() : delayline({ 0 }), head_cursor(0), tail_cursor(1) {}
+    moving_sum_state() : delayline({ 0 }), head_cursor(0), tail_cursor(Tag > 1 ? 1 : 0) {}
     univector<U, Tag> delayline;
     size_t head_cursor, tail_cursor;
 };
 template <typename U>
 struct moving_sum_state<U, tag_dynamic_vector>
 {
-    moving_sum_state(size_t sum_length) : delayline(sum_length, U(0)), head_cursor(0), tail_cursor(1) {}
+    moving_sum_state(size_t sum_length)
+        : delayline(sum_length, U(0)), head_cursor(0), tail_cursor(sum_length > 1 ? 1 : 0)
+    {
+    }
     univector<U> delayline;
     size_t head_cursor, tail_cursor;
 };
-- 
2.43.0


From 8344bbf36d69e9082c277adeab2bb4d62855b850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:19 +0000
Subject: [PATCH 24/26] fix: a one-sample delay with an external state does not
 compile

---
 include/kfr/dsp/delay.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kfr/dsp/delay.hpp b/include/kfr/dsp/delay.hpp
index 830be9d..924c899 100644
--- a/include/kfr/dsp/delay.hpp
+++ b/include/kfr/dsp/delay.hpp
@@ -132,8 +132,8 @@ struct expression_delay<1, E, stateless, STag> : expression_with_arguments<E>, e
     using T = value_type;
     using expression_with_arguments<E>::expression_with_arguments;
 
-    expression_delay(E&& e, const delay_state<T, 1, STag>& state)
-        : expression_with_arguments<E>(std::forward<E>(e)), state(state)
+    expression_delay(E&& e, state_holder<delay_state<T, 1, STag>, stateless> state)
+        : expression_with_arguments<E>(std::forward<E>(e)), state(std::move(state))
     {
     }
 
-- 
2.43.0


From 6ef17d6f7280b0600a8ce4e45b458736220597de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:32 +0000
Subject: [PATCH 25/26] fix: biquad_allpass takes its frequency in cycles per
 sample and returns a normalized section

---
 include/kfr/dsp/biquad_design.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/kfr/dsp/biquad_design.hpp b/include/kfr/dsp/biquad_design.hpp
index 27f9362..421f2f4 100644
--- a/include/kfr/dsp/biquad_design.hpp
+++ b/include/kfr/dsp/biquad_design.hpp
@@ -42,16 +42,15 @@ inline namespace CMT_ARCH_NAME
 template <typename T = fbase>
 KFR_FUNCTION biquad_section<T> biquad_allpass(identity<T> frequency, identity<T> Q)
 {
-    const T alpha = std::sin(frequency) / 2.0 * Q;
-    const T cs    = std::cos(frequency);
-
-    const T b0 = 1.0 / (1.0 + alpha);
-    const T b1 = -2.0 * cs * b0;
-    const T b2 = (1.0 - alpha) * b0;
-    const T a0 = (1.0 - alpha) * b0;
-    const T a1 = -2.0 * cs * b0;
-    const T a2 = (1.0 + alpha) * b0;
-    return { b0, b1, b2, a0, a1, a2 };
+    const T K    = std::tan(c_pi<T, 1> * frequency);
+    const T K2   = K * K;
+    const T norm = 1 / (1 + K / Q + K2);
+    const T a0   = (1 - K / Q + K2) * norm;
+    const T a1   = 2 * (K2 - 1) * norm;
+    const T a2   = 1;
+    const T b1   = a1;
+    const T b2   = a0;
+    return { 1.0, b1, b2, a0, a1, a2 };
 }
 
 /**
-- 
2.43.0


From bdf8d88238fefafed950af4f5336fdf9b41f040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:59 +0000
Subject: [PATCH 26/26] fix: full-scale samples overflow when converted to
 64-bit integers

---
 include/kfr/base/conversion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/kfr/base/conversion.hpp b/include/kfr/base/conversion.hpp
index 32f1b80..83e43e1 100644
--- a/include/kfr/base/conversion.hpp
+++ b/include/kfr/base/conversion.hpp
@@ -153,7 +153,7 @@ struct audio_sample_traits<i32>
 template <>
 struct audio_sample_traits<i64>
 {
-    constexpr static f64 scale              = 9223372036854775807.0;
+    constexpr static f64 scale              = 9223372036854774784.0; // largest f64 not exceeding i64
     constexpr static audio_sample_type type = audio_sample_type::i64;
 };
 
-- 
2.43.0

