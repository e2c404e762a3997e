From 2bfab91fe4b582b0cbd418b8918fe9cd3177c1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:28 +0000
Subject: [PATCH 01/32] fix: prefer_aligned must not process elements beyond
 the end of a short range

If the range ends before the next aligned address, the prologue processed more
elements than the range has (out-of-bounds loads and stores) and the remaining
size wrapped around.
---
 vir/simd_execution.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index 383307b..d9789ab 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -596,7 +596,18 @@ case0:
               const auto misaligned_by_elements = misaligned_by_bytes / sizeof(T);
               const auto to_process = max_misalignment - misaligned_by_elements;
               if constexpr (use_aligned_loadstore)
-                do_prologue(max_misalignment, to_process);
+                {
+                  if (to_process > remaining) // the range ends before the next aligned address
+                    {
+                      for (; remaining > 0; --remaining)
+                        {
+                          do_prologue(max_misalignment, std::size_t(1));
+                          ((iterators_to_advance += 1), ...);
+                        }
+                      return;
+                    }
+                  do_prologue(max_misalignment, to_process);
+                }
               else if (remaining * sizeof(T) > 4000
                          or (to_process & remaining) == to_process) // prologue replaces epilogue
                 do_prologue(max_misalignment, to_process);
-- 
2.43.0


From ae885e0c28fcf0210bcd21fb136fd595684fd7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:28 +0000
Subject: [PATCH 02/32] fix: transform_reduce if the prologue consumes the
 complete range

The epilogue must not be called without leftover elements (it runs into
unreachable()).
---
 vir/simd_execution.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index d9789ab..a2edaa1 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -1089,7 +1089,8 @@ case0:
               }
             else if constexpr (lo_size > 0)
               {
-                // leftover > 0 by construction
+                if (leftover == 0) // the prologue already reduced the complete range
+                  return acc1[0];
                 return simd_transform_reduce_epilogue<lo_size>(
                          acc1, first1, leftover, reduce_op, transform_op, flags, first2...);
               }
-- 
2.43.0


From 8f29c3eacfe3092cd4f06aa9a1819ef466a4ea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:18 +0000
Subject: [PATCH 03/32] fix: constexpr for_each must not process the last
 element twice

In constant evaluation with a SIMD width of 2 and an even range size the
epilogue was invoked without leftover elements and processed the last element
again.
---
 vir/simd_execution.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index a2edaa1..73c3053 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -1147,8 +1147,9 @@ case0:
                                                         stdx::element_aligned, detail::no_unroll);
 
           if constexpr (size > 1)
-            detail::simd_for_each_epilogue<V, write_back>(fun, distance % size, last,
-                                                          stdx::element_aligned);
+            if (distance % size != 0)
+              detail::simd_for_each_epilogue<V, write_back>(fun, distance % size, last,
+                                                            stdx::element_aligned);
         }
       else
         {
-- 
2.43.0


From 03aaf22434b1d3875f176787f1c98dcefddca06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:53 +0000
Subject: [PATCH 04/32] fix: simd_permute.h needs detail.h for bit_cast

Including only simd_permute.h and calling simd_permute did not compile on
AVX2 targets or with __builtin_shufflevector.
---
 vir/simd_permute.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index 5502830..fd006ab 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -19,6 +19,7 @@
 
 #include "simd.h"
 #include "constexpr_wrapper.h"
+#include "detail.h"
 #include <bit>
 
 namespace vir
-- 
2.43.0


From 6479d7733eb00fec7537ca12ca7fe891038a2a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:53 +0000
Subject: [PATCH 05/32] fix: negative rotate offsets with a non-power-of-two
 number of elements

The index was computed in unsigned arithmetic, which is only correct if the
number of elements is a power of two.
---
 vir/simd_permute.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index fd006ab..18d5293 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -145,7 +145,11 @@ namespace vir
 
 	VIR_CONSTEVAL int
 	operator()(int i, auto size) const
-	{ return (i + Offset) % size.value; }
+	{
+	  const int n = size.value;
+	  const int j = (i + Offset) % n;
+	  return j < 0 ? j + n : j;
+	}
       };
 
     /// Rotate the elements by \p Offset.
-- 
2.43.0


From 9fa9099ce8abbc24db8c0de9b7c8fdf90f6f48f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:53 +0000
Subject: [PATCH 06/32] fix: even rotation combined with a different result
 size on AVX2

The shortcut via permdf256 can only be used if neither the input nor the
result have a different number of elements than the intrinsic permutes.
---
 vir/simd_permute.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index 18d5293..a871d89 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -194,7 +194,7 @@ namespace vir
 #if defined __AVX2__
 	    using v4df [[gnu::vector_size(32)]] = double;
 	    if constexpr (std::same_as<T, float> and std::is_trivially_copyable_v<V>
-			    and sizeof(v4df) == sizeof(V)
+			    and sizeof(v4df) == sizeof(V) and V::size() == 8 and R::size() == 8
 			    and requires {
 			      F::is_even_rotation;
 			      F::Offset;
-- 
2.43.0


From 61501fc205f1d03b39d5892378657404c39804a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:53 +0000
Subject: [PATCH 07/32] fix: even rotation by negative or large offsets on AVX2

The immediate operand was computed without reducing the offset to [0, 4).
---
 vir/simd_permute.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index a871d89..7bd7dee 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -203,10 +203,11 @@ namespace vir
 			    })
 	      {
 		const v4df intrin = detail::bit_cast<v4df>(v);
-		constexpr int control = ((F::Offset / 2) << 0)
-					  | (((F::Offset / 2 + 1) % 4) << 2)
-					  | (((F::Offset / 2 + 2) % 4) << 4)
-					  | (((F::Offset / 2 + 3) % 4) << 6);
+		constexpr int offset = (F::Offset / 2) & 3; // modulo 4, also for negative offsets
+		constexpr int control = (offset << 0)
+					  | (((offset + 1) % 4) << 2)
+					  | (((offset + 2) % 4) << 4)
+					  | (((offset + 3) % 4) << 6);
 		return detail::bit_cast<R>(__builtin_ia32_permdf256(intrin, control));
 	      }
 #endif
-- 
2.43.0


From 61a5421c492c7e321b80f8cf81fe610a84e1301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:53 +0000
Subject: [PATCH 08/32] fix: do not use shufflevector for simd types with
 padding elements

With a number of elements that is not a power of two the call either did not
compile or used an element of the padding where a zero was requested.
---
 vir/simd_permute.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vir/simd_permute.h b/vir/simd_permute.h
index 7bd7dee..ab088de 100644
--- a/vir/simd_permute.h
+++ b/vir/simd_permute.h
@@ -217,7 +217,9 @@ namespace vir
 		using VBuiltin [[gnu::vector_size(sizeof(V))]] = T;
 		using RBuiltin [[gnu::vector_size(sizeof(R))]] = T;
 		if constexpr (std::is_trivially_copyable_v<V> and std::is_trivially_copyable_v<R>
-				and sizeof(VBuiltin) == sizeof(V) and sizeof(RBuiltin) == sizeof(R))
+				and sizeof(VBuiltin) == sizeof(V) and sizeof(RBuiltin) == sizeof(R)
+				and sizeof(T) * V::size() == sizeof(V)
+				and sizeof(T) * R::size() == sizeof(R))
 		  {
 		    const VBuiltin vec = detail::bit_cast<VBuiltin>(v);
 		    constexpr auto idx_perm2 = [=](constexpr_value auto i) {
-- 
2.43.0


From d91482def909f2d5e94544b4a6568f0c720a7394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:29 +0000
Subject: [PATCH 09/32] fix: count_if for widths without a corresponding
 simd<int>

On AVX-512 the native simd of a 1-Byte type has 64 elements, but there is
no simd<int> with 64 elements. count_if over such ranges failed to compile.
---
 vir/simd_execution.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index 73c3053..3c9ea5d 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -1534,6 +1534,23 @@ case0:
       return count + reduce(countv);
     }
 
+  /// \internal Overload for widths without a corresponding simd<int> (e.g. 64 elements of 1 Byte)
+  template <detail::simd_execution_policy ExecutionPolicy, detail::simd_execution_iterator It,
+            typename F>
+    requires (not requires {
+      typename detail::deduced_simd<int, vir::simdize<std::iter_value_t<It>,
+                                                      ExecutionPolicy::_size>::size()>;
+    })
+    constexpr int
+    count_if(ExecutionPolicy pol, It first, It last, F&& pred)
+    {
+      int count = 0;
+      vir::for_each(pol, first, last, [&](auto... x) VIR_LAMBDA_ALWAYS_INLINE {
+        count += (int(popcount(pred(x))) + ...);
+      });
+      return count;
+    }
+
   /// Count the elements in the input range matching \p pred (range overload)
   template <detail::simd_execution_policy ExecutionPolicy, detail::simd_execution_range R,
             typename F>
-- 
2.43.0


From abf157bb1fb5eb2ac256bc6dae906a3331878b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:43 +0000
Subject: [PATCH 10/32] fix: transform of an empty zip_view must not
 dereference begin

---
 vir/simd_execution.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index 3c9ea5d..f14c247 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -1267,6 +1267,8 @@ case0:
               detail::simd_execution_range auto&& d_rg, auto op)
     {
       const auto size = std::ranges::size(rs);
+      if (size == 0) // there's no element to dereference
+        return std::ranges::begin(d_rg);
       const auto it = std::ranges::begin(rs);
       const auto first0 = std::addressof(std::get<0>(*it));
       return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
-- 
2.43.0


From 9175cb84d60f5750209586a6568eabef82365b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:51 +0000
Subject: [PATCH 11/32] fix: to_fixed_size, to_native, and to_compatible of the
 fallback simd

The conversions were written for one-element native and compatible ABIs. With
the actual widths they turned one element into a broadcast and did not accept
a fixed_size simd of the native/compatible width.
---
 vir/simd.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 5f2d6a8..5ad7f13 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -1811,35 +1811,35 @@ namespace vir::stdx
 
   template <typename T>
     constexpr fixed_size_simd<T, 1>
-    to_fixed_size(const simd<T> x)
+    to_fixed_size(const simd<T, simd_abi::scalar>& x)
     { return x[0]; }
 
   template <typename T>
     constexpr fixed_size_simd_mask<T, 1>
-    to_fixed_size(const simd_mask<T> x)
+    to_fixed_size(const simd_mask<T, simd_abi::scalar>& x)
     { return fixed_size_simd_mask<T, 1>(x[0]); }
 
   // to_native
-  template <typename T>
-    constexpr simd<T>
-    to_native(const fixed_size_simd<T, 1> x)
-    { return x[0]; }
+  template <typename T, int N>
+    constexpr std::enable_if_t<N == native_simd<T>::size(), native_simd<T>>
+    to_native(const fixed_size_simd<T, N>& x)
+    { return native_simd<T>([&x](size_t i) { return x[i]; }); }
 
-  template <typename T>
-    constexpr simd_mask<T>
-    to_native(const fixed_size_simd_mask<T, 1> x)
-    { return simd_mask<T>(x[0]); }
+  template <typename T, int N>
+    constexpr std::enable_if_t<N == native_simd<T>::size(), native_simd_mask<T>>
+    to_native(const fixed_size_simd_mask<T, N>& x)
+    { return native_simd_mask<T>([&x](size_t i) { return x[i]; }); }
 
   // to_compatible
-  template <typename T>
-    constexpr simd<T>
-    to_compatible(const fixed_size_simd<T, 1> x)
-    { return x[0]; }
+  template <typename T, int N>
+    constexpr std::enable_if_t<N == simd<T>::size(), simd<T>>
+    to_compatible(const fixed_size_simd<T, N>& x)
+    { return simd<T>([&x](size_t i) { return x[i]; }); }
 
-  template <typename T>
-    constexpr simd_mask<T>
-    to_compatible(const fixed_size_simd_mask<T, 1> x)
-    { return simd_mask<T>(x[0]); }
+  template <typename T, int N>
+    constexpr std::enable_if_t<N == simd<T>::size(), simd_mask<T>>
+    to_compatible(const fixed_size_simd_mask<T, N>& x)
+    { return simd_mask<T>([&x](size_t i) { return x[i]; }); }
 
   // split(simd)
   template <typename V, int N, size_t Parts = N / V::size()>
-- 
2.43.0


From a5e3daa3f2e0a2c015f57ec6b0d6887766af1b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:51 +0000
Subject: [PATCH 12/32] fix: masked load constructor of the scalar fallback
 simd_mask

simd_mask is not convertible to bool; the constructor could not be instantiated.
---
 vir/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simd.h b/vir/simd.h
index 5ad7f13..44eba8e 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -665,7 +665,7 @@ namespace vir::stdx
       template <typename Flags>
         constexpr
         simd_mask(const value_type* mem, simd_mask k, Flags)
-        : data(k ? mem[0] : false)
+        : data(k[0] ? mem[0] : false)
         {}
 
       // loads [simd_mask.load]
-- 
2.43.0


From 21ce92adb422e9e74e3b77619754ee597f669c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:34 +0000
Subject: [PATCH 13/32] fix: hmin/hmax of where-expressions if all selected
 elements are infinite

__FINITE_MATH_ONLY__ is always defined by GCC and Clang (to 0 or 1), so that
the finite limits were used as identity elements and returned instead of the
infinite elements.
---
 vir/simd.h | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 44eba8e..5cb3638 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -2374,12 +2374,11 @@ namespace vir::stdx
     hmin(const const_where_expression<M, V>& x) noexcept
     {
       using T = typename V::value_type;
-      constexpr T id_elem =
-#ifdef __FINITE_MATH_ONLY__
-        std::numeric_limits<T>::max();
-#else
-        std::numeric_limits<T>::infinity();
-#endif
+      if (none_of(get_mask(x)))
+        return std::numeric_limits<T>::max();
+      constexpr T id_elem = std::numeric_limits<T>::has_infinity
+                              ? std::numeric_limits<T>::infinity()
+                              : std::numeric_limits<T>::max();
       return reduce(x, id_elem, [](const auto& l, const auto& r) {
                using std::min;
                return min(l, r);
@@ -2392,12 +2391,11 @@ namespace vir::stdx
     hmax(const const_where_expression<M, V>& x) noexcept
     {
       using T = typename V::value_type;
-      constexpr T id_elem =
-#ifdef __FINITE_MATH_ONLY__
-        std::numeric_limits<T>::lowest();
-#else
-        -std::numeric_limits<T>::infinity();
-#endif
+      if (none_of(get_mask(x)))
+        return std::numeric_limits<T>::lowest();
+      constexpr T id_elem = std::numeric_limits<T>::has_infinity
+                              ? -std::numeric_limits<T>::infinity()
+                              : std::numeric_limits<T>::lowest();
       return reduce(x, id_elem, [](const auto& l, const auto& r) {
                using std::max;
                return max(l, r);
-- 
2.43.0


From e7e9439ac293b2d3ec6d33f09b17d11eeae5f1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:19 +0000
Subject: [PATCH 14/32] fix: simd_resize<N>(simd_mask) with libstdc++

simd_mask of the TS has no generator constructor, so that the documented
simd_resize overload for masks could not be instantiated.
---
 vir/simd_resize.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vir/simd_resize.h b/vir/simd_resize.h
index af5dee6..d86e207 100644
--- a/vir/simd_resize.h
+++ b/vir/simd_resize.h
@@ -28,6 +28,10 @@ namespace vir
     constexpr vir::detail::deduced_simd_mask<T, N>
     simd_resize(const stdx::simd_mask<T, A>& x)
     {
+#if VIR_GLIBCXX_STDX_SIMD
+      return std::experimental::parallelism_v2::__proposed::resizing_simd_cast<
+               vir::detail::deduced_simd_mask<T, N>>(x);
+#else
       constexpr int xn = stdx::simd_size_v<T, A>;
       return vir::detail::deduced_simd_mask<T, N>([&x](auto i) {
                if constexpr (i < xn)
@@ -35,6 +39,7 @@ namespace vir
                else
                  return false;
              });
+#endif
     }
 
   template <typename V, typename A>
-- 
2.43.0


From 718ac59015a944ad5e2771163088b96d778a4e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:59 +0000
Subject: [PATCH 15/32] fix: keep the element order when loading three floats
 per struct

The load of vectorized_struct with three float members and 8 lanes
permuted the elements, while operator[], copy_to, and the algorithms
assume that lane i holds element i.
---
 vir/simdize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simdize.h b/vir/simdize.h
index a3b7ecd..3b006a3 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -667,7 +667,7 @@ namespace vir
 		      // c = [b5 c5 a6 b6 c6 a7 b7 c7] 233 = 121+112
 
 		      using v8sf [[gnu::vector_size(32)]] = float;
-		      if constexpr (true) // allow_unordered
+		      if constexpr (false) // unordered: copy_to and operator[] expect element i in lane i
 			{
 			  v8sf x0, x1, x2, a0, b0, c0;
 			  std::memcpy(&x0, byte_ptr +  0, 32);
-- 
2.43.0


From 55a77d104d5588fa424447067c5b9b60eeb79901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:31 +0000
Subject: [PATCH 16/32] fix: simdize load/store of structs which are not laid
 out in declaration order

---
 vir/simdize.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vir/simdize.h b/vir/simdize.h
index 3b006a3..cc6b955 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -582,8 +582,10 @@ namespace vir
       {
 #if VIR_HAVE_WORKING_SHUFFLEVECTOR
 	if (not std::is_constant_evaluated())
+	  // (the standard layout requirement rules out e.g. std::tuple, which may store its elements in
+	  // a different order)
 	  if constexpr (N > 1 and sizeof(T) * N == sizeof(base_type) and _flat_member_count >= 2
-			  and std::has_single_bit(unsigned(N)))
+			  and std::is_standard_layout_v<T> and std::has_single_bit(unsigned(N)))
 	    {
 	      const std::byte* byte_ptr = reinterpret_cast<const std::byte*>(addr);
 	      // struct_size_v == 2 doesn't need anything, the fallback works fine, unless
@@ -819,6 +821,7 @@ namespace vir
 	  if (not std::is_constant_evaluated())
 	    if constexpr (N > 2 and _flat_member_count >= 2
 			    and sizeof(T) * N == sizeof(base_type)
+			    and std::is_standard_layout_v<T>
 			    and std::has_single_bit(unsigned(N)))
 	      {
 		using V0 = detail::flat_element_t<0, tuple_type>;
-- 
2.43.0


From d70086411ed1bfab4f9a8e747246473bafdf76d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:56 +0000
Subject: [PATCH 17/32] fix: struct_size_v of aggregates with all data members
 in the base class

---
 vir/struct_reflect.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/vir/struct_reflect.h b/vir/struct_reflect.h
index 9e46179..ac686a7 100644
--- a/vir/struct_reflect.h
+++ b/vir/struct_reflect.h
@@ -46,6 +46,15 @@ namespace vir
 	  operator T();
       };
 
+    template <typename Struct>
+      struct any_nonempty_base_of
+      {
+	template <typename T>
+	  requires (std::is_base_of_v<T, Struct> and not std::is_same_v<T, Struct>
+		      and not std::is_empty_v<T>)
+	  operator T();
+      };
+
     template <typename T, size_t... Indexes>
       concept brace_constructible_impl
 	= requires { T{{((void)Indexes, anything_but_base_of<T>())}...}; }
@@ -62,6 +71,11 @@ namespace vir
 	  {
 	    T{any_empty_base_of<T>(), any_empty_base_of<T>(), any_empty_base_of<T>(),
 	      {((void)Indexes, anything_but_base_of<T>())}...};
+	  }
+	    or requires
+	  { // all data members are members of the one base class
+	    T{any_nonempty_base_of<T>()};
+	    T{{{((void)Indexes, anything_but_base_of<T>())}...}};
 	  };
 
     template <typename T, size_t N>
-- 
2.43.0


From 2f40b9c6162dcfe7e26f01f510fb3c6acfb62867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:13 +0000
Subject: [PATCH 18/32] fix: include <cstdio> for VIR_CHECK_PRECONDITIONS 4 and
 5

---
 vir/simd.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vir/simd.h b/vir/simd.h
index 5cb3638..c5bc582 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -18,6 +18,7 @@
 
 #include "simd_version.h"
 
+#include <cstdio>  // std::fprintf
 #include <cstdlib> // std::abort
 
 #if __has_include (<experimental/simd>) && !defined VIR_DISABLE_STDX_SIMD \
-- 
2.43.0


From 521c32e58c7966ace5e417cb5dc54a821e047c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:13 +0000
Subject: [PATCH 19/32] fix: VIR_CHECK_PRECONDITIONS 4 and 5 with Clang

---
 vir/simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/simd.h b/vir/simd.h
index c5bc582..493e49b 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -72,7 +72,7 @@ namespace vir::detail
 #elif defined __GNUC__ and VIR_CHECK_PRECONDITIONS < 4
       __builtin_trap();
 #else
-      [&] VIR_GNU_ATTR_COLD () {
+      [&]() VIR_GNU_ATTR_COLD {
         std::fprintf(stderr, msg, args...);
       }();
       std::abort();
-- 
2.43.0


From 4ddc130ad8f15d77a43203198be58820f655dfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:13 +0000
Subject: [PATCH 20/32] fix: message of failed preconditions which contain a %
 operator

---
 vir/simd.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 493e49b..9961f72 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -135,8 +135,8 @@ namespace vir::detail
         { vir::detail::trap(); }();                                                         \
     else if (__builtin_expect(not precondition_result, false))                              \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_);                                                              \
+        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('%s' does not hold)\n",        \
+        VIR_PRETTY_FUNCTION_, #expr);                                                       \
   } while(false)
 
 #define vir_simd_precondition_vaargs(expr, msg, ...)                                        \
@@ -149,8 +149,8 @@ namespace vir::detail
         { vir::detail::trap(); }();                                                         \
     else if (__builtin_expect(not precondition_result, false))                              \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_, __VA_ARGS__);                                                 \
+        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('%s' does not hold)\n",        \
+        VIR_PRETTY_FUNCTION_, __VA_ARGS__, #expr);                                          \
   } while(false)
 
 #else
@@ -159,8 +159,8 @@ namespace vir::detail
     const bool precondition_result = bool(expr);                                            \
     if (not precondition_result) [[unlikely]]                                               \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_);                                                              \
+        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('%s' does not hold)\n",        \
+        VIR_PRETTY_FUNCTION_, #expr);                                                       \
   } while(false)
 
 #define vir_simd_precondition_vaargs(expr, msg, ...)                                        \
@@ -168,8 +168,8 @@ namespace vir::detail
     const bool precondition_result = bool(expr);                                            \
     if (not precondition_result) [[unlikely]]                                               \
       vir::detail::invoke_ub(                                                               \
-        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('" #expr "' does not hold)\n", \
-        VIR_PRETTY_FUNCTION_, __VA_ARGS__);                                                 \
+        VIR_SIMD_LOC "precondition failure in '%s': " msg " ('%s' does not hold)\n",        \
+        VIR_PRETTY_FUNCTION_, __VA_ARGS__, #expr);                                          \
   } while(false)
 
 #endif
-- 
2.43.0


From 086783357e43ace50e3aaae4d3886128eff765d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:54 +0000
Subject: [PATCH 21/32] fix: provide operator<=> of simd_version_t independent
 of include order

---
 vir/simd_version.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vir/simd_version.h b/vir/simd_version.h
index e6e4e7b..01f669e 100644
--- a/vir/simd_version.h
+++ b/vir/simd_version.h
@@ -10,6 +10,10 @@
  * \brief Version macros and version constant.
  */
 
+#if __has_include (<version>)
+#include <version>
+#endif
+
 #if __cpp_impl_three_way_comparison >= 201907L and __cpp_lib_three_way_comparison >= 201907L
 #define VIR_HAVE_SPACESHIP 1
 #include <compare>
-- 
2.43.0


From 67bbdf5c1ac29976ca68ca7a8a0c4ca81dbd41ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:13 +0000
Subject: [PATCH 22/32] fix: fake_modify and fake_read of fallback simd objects
 without matching register size

---
 vir/simd_benchmarking.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vir/simd_benchmarking.h b/vir/simd_benchmarking.h
index 2f66795..40f7b88 100644
--- a/vir/simd_benchmarking.h
+++ b/vir/simd_benchmarking.h
@@ -39,7 +39,9 @@ namespace vir
 	    fake_modify_one(d);
 #else
 	  // assuming vir::stdx::simd implementation
-	  if constexpr (sizeof(x) < 16)
+	  if constexpr (sizeof(x) > 16 or (sizeof(x) & (sizeof(x) - 1)) != 0)
+	    asm volatile("" : "+m"(x)); // no register of that size
+	  else if constexpr (sizeof(x) < 16)
 	    asm volatile("" : "+g"(x));
 	  else
 	    asm volatile("" : "+" VIR_SIMD_REG "g,m"(x));
@@ -76,7 +78,9 @@ namespace vir
 	    fake_read_one(d);
 #else
 	  // assuming vir::stdx::simd implementation
-	  if constexpr (sizeof(x) < 16)
+	  if constexpr (sizeof(x) > 16 or (sizeof(x) & (sizeof(x) - 1)) != 0)
+	    asm volatile("" ::"m"(x)); // no register of that size
+	  else if constexpr (sizeof(x) < 16)
 	    asm volatile("" ::"g"(x));
 	  else
 	    asm volatile("" ::VIR_SIMD_REG "g,m"(x));
-- 
2.43.0


From f9b3821629d336bea04fb84b3aff3b1515c42690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:57 +0000
Subject: [PATCH 23/32] fix: bitwise operators on libstdc++ fixed_size simd of
 floating-point type

---
 vir/simd_float_ops.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vir/simd_float_ops.h b/vir/simd_float_ops.h
index f1c06ac..49c57b8 100644
--- a/vir/simd_float_ops.h
+++ b/vir/simd_float_ops.h
@@ -18,7 +18,8 @@ namespace vir
       operator&(const stdx::simd<detail::FloatingPoint<T>, A> a,
                 const stdx::simd<T, A> b) noexcept
       {
-        if constexpr (sizeof(T) <= sizeof(long long))
+        if constexpr (sizeof(T) <= sizeof(long long)
+                        and std::is_trivially_copyable_v<stdx::simd<T, A>>)
           {
             using V = stdx::simd<T, A>;
             using I = stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>;
@@ -36,7 +37,8 @@ namespace vir
       operator|(const stdx::simd<detail::FloatingPoint<T>, A> a,
                 const stdx::simd<T, A> b) noexcept
       {
-        if constexpr (sizeof(T) <= sizeof(long long))
+        if constexpr (sizeof(T) <= sizeof(long long)
+                        and std::is_trivially_copyable_v<stdx::simd<T, A>>)
           {
             using V = stdx::simd<T, A>;
             using I = stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>;
@@ -54,7 +56,8 @@ namespace vir
       operator^(const stdx::simd<detail::FloatingPoint<T>, A> a,
                 const stdx::simd<T, A> b) noexcept
       {
-        if constexpr (sizeof(T) <= sizeof(long long))
+        if constexpr (sizeof(T) <= sizeof(long long)
+                        and std::is_trivially_copyable_v<stdx::simd<T, A>>)
           {
             using V = stdx::simd<T, A>;
             using I = stdx::rebind_simd_t<meta::as_unsigned_t<T>, V>;
-- 
2.43.0


From 8b67c71e8d9698e5a7f8da67f4b3715a4947400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:33 +0000
Subject: [PATCH 24/32] fix: fake_modify must not change the value of its
 argument

GCC does not tie input and output together for the multi-alternative
constraint "+v,x,g,m" and drops the initialization of the argument.
---
 vir/simd_benchmarking.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/vir/simd_benchmarking.h b/vir/simd_benchmarking.h
index 40f7b88..f169f8d 100644
--- a/vir/simd_benchmarking.h
+++ b/vir/simd_benchmarking.h
@@ -24,7 +24,7 @@ namespace vir
     fake_modify_one(T& x)
     {
       if constexpr (std::is_floating_point_v<T>)
-	asm volatile("" : "+" VIR_SIMD_REG "g,m"(x));
+	asm volatile("" : "+" VIR_SIMD_REG "g"(x));
       else if constexpr (stdx::is_simd_v<T> || stdx::is_simd_mask_v<T>)
 	{
 #if defined _GLIBCXX_EXPERIMENTAL_SIMD && __cpp_lib_experimental_parallel_simd >= 201803
@@ -39,16 +39,16 @@ namespace vir
 	    fake_modify_one(d);
 #else
 	  // assuming vir::stdx::simd implementation
-	  if constexpr (sizeof(x) > 16 or (sizeof(x) & (sizeof(x) - 1)) != 0)
+	  if constexpr (sizeof(x) >= 16 or (sizeof(x) & (sizeof(x) - 1)) != 0)
 	    asm volatile("" : "+m"(x)); // no register of that size
-	  else if constexpr (sizeof(x) < 16)
-	    asm volatile("" : "+g"(x));
 	  else
-	    asm volatile("" : "+" VIR_SIMD_REG "g,m"(x));
+	    asm volatile("" : "+g"(x));
 #endif
 	}
+      else if constexpr (sizeof(x) >= 16 and (std::is_class_v<T> or std::is_array_v<T>))
+	asm volatile("" : "+m"(x));
       else if constexpr (sizeof(x) >= 16)
-	asm volatile("" : "+" VIR_SIMD_REG "g,m"(x));
+	asm volatile("" : "+" VIR_SIMD_REG "g"(x));
       else
 	asm volatile("" : "+g"(x));
     }
-- 
2.43.0


From b5ae61cc9f520492d70b2845a7b4507c6554a5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:26 +0000
Subject: [PATCH 25/32] fix: _cw literals with an upper-case binary prefix

0B101_cw was parsed as octal and therefore rejected.
---
 vir/constexpr_wrapper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/constexpr_wrapper.h b/vir/constexpr_wrapper.h
index 2f1cfae..5db8a2b 100644
--- a/vir/constexpr_wrapper.h
+++ b/vir/constexpr_wrapper.h
@@ -397,7 +397,7 @@ namespace vir
         constexpr std::array arr = cw_prepare_array<Chars...>();
         constexpr int base = arr[0] == '0' and 2 < arr.size()
                                ? arr[1] == 'x' or arr[1] == 'X' ? 16
-                                                                : arr[1] == 'b' ? 2 : 8
+                                                                : arr[1] == 'b' or arr[1] == 'B' ? 2 : 8
                                : 10;
         constexpr int offset = base == 10 ? 0 : base == 8 ? 1 : 2;
         constexpr bool valid_chars = std::all_of(arr.begin() + offset, arr.end(), [=](char c) {
-- 
2.43.0


From fbcaea8c8465406272bd60b34f099d44ccef71ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:26 +0000
Subject: [PATCH 26/32] fix: _cw literals spelling zero with more than one
 character

0x0_cw, 0b0_cw, and 00_cw were rejected as out of range.
---
 vir/constexpr_wrapper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/constexpr_wrapper.h b/vir/constexpr_wrapper.h
index 5db8a2b..dd599f9 100644
--- a/vir/constexpr_wrapper.h
+++ b/vir/constexpr_wrapper.h
@@ -410,7 +410,7 @@ namespace vir
         static_assert(valid_chars, "invalid characters in constexpr_wrapper literal");
 
         // common values, freeing values for error conditions
-        if constexpr (arr.size() == 1 and arr[0] =='0')
+        if constexpr (std::all_of(arr.begin() + offset, arr.end(), [](char c) { return c == '0'; }))
           return static_cast<signed char>(0);
         else if constexpr (arr.size() == 1 and arr[0] =='1')
           return static_cast<signed char>(1);
-- 
2.43.0


From 36bab3bdde0b9a18e0bd44ae1e238c531f078574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:03 +0000
Subject: [PATCH 27/32] fix: trap on precondition failure if
 VIR_CHECK_PRECONDITIONS is not defined

The default value (3) was only defined after invoke_ub, which therefore saw
an undefined macro and invoked UB (unreachable) instead of trapping.
---
 vir/simd.h | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 9961f72..4369e71 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -38,6 +38,23 @@
 #endif
 #endif
 
+/* VIR_CHECK_PRECONDITIONS:
+ * 0: Compile-time warning, invoke UB on run-time failure.
+ * 1: Compile-time   error, invoke UB on run-time failure.
+ * 2: Compile-time warning, trap on run-time failure.
+ * 3: Compile-time   error, trap on run-time failure.
+ * 4: Compile-time warning, print error and abort on run-time failure.
+ * 5: Compile-time   error, print error and abort on run-time failure.
+ */
+
+#ifndef VIR_CHECK_PRECONDITIONS
+#define VIR_CHECK_PRECONDITIONS 3
+#endif
+
+#if VIR_CHECK_PRECONDITIONS > 5 or VIR_CHECK_PRECONDITIONS < 0
+#warning "Invalid value for VIR_CHECK_PRECONDITIONS."
+#endif
+
 namespace vir::detail
 {
   [[noreturn]] VIR_GNU_COLD VIR_ALWAYS_INLINE void
@@ -84,23 +101,6 @@ namespace vir::detail
 #define VIR_SIMD_TOSTRING(x) VIR_SIMD_TOSTRING_IMPL(x)
 #define VIR_SIMD_LOC __FILE__ ":" VIR_SIMD_TOSTRING(__LINE__) ": "
 
-/* VIR_CHECK_PRECONDITIONS:
- * 0: Compile-time warning, invoke UB on run-time failure.
- * 1: Compile-time   error, invoke UB on run-time failure.
- * 2: Compile-time warning, trap on run-time failure.
- * 3: Compile-time   error, trap on run-time failure.
- * 4: Compile-time warning, print error and abort on run-time failure.
- * 5: Compile-time   error, print error and abort on run-time failure.
- */
-
-#ifndef VIR_CHECK_PRECONDITIONS
-#define VIR_CHECK_PRECONDITIONS 3
-#endif
-
-#if VIR_CHECK_PRECONDITIONS > 5 or VIR_CHECK_PRECONDITIONS < 0
-#warning "Invalid value for VIR_CHECK_PRECONDITIONS."
-#endif
-
 #ifdef __GNUC__
 #define VIR_PRETTY_FUNCTION_ __PRETTY_FUNCTION__
 #else
-- 
2.43.0


From 75e197f826ae2633241bd62c473d1d1d27d45e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:45 +0000
Subject: [PATCH 28/32] fix: do not form iterators outside of the range in the
 algorithms

---
 vir/simd_execution.h | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/vir/simd_execution.h b/vir/simd_execution.h
index f14c247..56657ef 100644
--- a/vir/simd_execution.h
+++ b/vir/simd_execution.h
@@ -750,7 +750,7 @@ case0:
         if (std::is_constant_evaluated())
           {
             // needs element_aligned because of GCC PR111302
-            for (; first1 + (size - 1) < last1; advance(size, first1, d_first, first2...))
+            for (; last1 - first1 >= int(size); advance(size, first1, d_first, first2...))
               {
                 const OutV& result = simdized_load_and_invoke(op, size, first1, first2...);
                 result.copy_to(std::to_address(d_first), stdx::element_aligned);
@@ -782,8 +782,8 @@ case0:
             if constexpr (ExecutionPolicy::_unroll_by > 1)
               {
                 constexpr auto step = size * ExecutionPolicy::_unroll_by;
-                const auto unrolled_last = last1 - step;
-                for (; first1 <= unrolled_last; advance(step, first1, d_first, first2...))
+                const auto unrolled_last = first1 + distance / step * step;
+                for (; first1 != unrolled_last; advance(step, first1, d_first, first2...))
                   {
                     unroll2<ExecutionPolicy::_unroll_by>([&,size](auto i) {
                       return simdized_load_and_invoke(op, size, first1 + i * size,
@@ -794,9 +794,9 @@ case0:
                   }
               }
 
-            const auto simd_last = last1 - size;
-            for (; assume_matching_size ? first1 != last1 : first1 <= simd_last;
-                 advance(size, first1, d_first, first2...))
+            const auto leftover = distance % size;
+            const auto simd_last = assume_matching_size ? last1 : last1 - leftover;
+            for (; first1 != simd_last; advance(size, first1, d_first, first2...))
               {
                 const OutV& result = simdized_load_and_invoke(op, size, first1, first2...);
                 result.copy_to(std::to_address(d_first), flags);
@@ -804,7 +804,6 @@ case0:
 
             if constexpr (size > 1 and !assume_matching_size)
               {
-                const auto leftover = distance % size;
                 if (leftover)
                   {
                     simd_transform_epilogue<V1, OutV, std::iter_value_t<It2>...>(
@@ -1002,18 +1001,18 @@ case0:
             constexpr int lo_size = std::bit_ceil(unsigned(size)) / 2;
             constexpr int hi_size = size - lo_size;
 
-            const auto simd_last = last1 - size;
+            const auto simd_last = assume_matching_size ? last1 : last1 - leftover;
             // 'assume_matching_size' implies size is 0 or at least one simd width, and 0 has an
             // early return above
-            if (assume_matching_size or first1 <= simd_last)
+            if (assume_matching_size or first1 != simd_last)
               {
                 A acc = [&]() VIR_LAMBDA_ALWAYS_INLINE {
                   if constexpr (ExecutionPolicy::_unroll_by > 1)
                     {
                       constexpr std::make_index_sequence<ExecutionPolicy::_unroll_by> unroll_idx_seq;
                       constexpr auto step = size * ExecutionPolicy::_unroll_by;
-                      const auto unrolled_last = last1 - step;
-                      if (first1 + step <= unrolled_last)
+                      const auto unrolled_last = first1 + distance / step * step;
+                      if (distance >= 2 * step)
                         {
                           auto acc = [&]<std::size_t... Is>(std::index_sequence<Is...>)
                                        -> std::array<A, ExecutionPolicy::_unroll_by>
@@ -1044,7 +1043,7 @@ case0:
                               first1 += step;
                               ((first2 += step), ...);
                             }
-                          while (first1 <= unrolled_last);
+                          while (first1 != unrolled_last);
                             // tree reduction of acc into acc[0]
                             unroll<std::bit_width(unsigned(ExecutionPolicy::_unroll_by - 1))>(
                               [&](auto outer) {
@@ -1064,8 +1063,7 @@ case0:
                   ((first2 += size), ...);
                   return ret;
                 }();
-                for (; assume_matching_size ? first1 != last1 : first1 <= simd_last;
-                     ((first1 += size), ..., (first2 += size)))
+                for (; first1 != simd_last; ((first1 += size), ..., (first2 += size)))
                   {
                     acc = std::invoke(reduce_op, acc,
                                       simdized_load_flag1_and_invoke(transform_op, vir::cw<size>,
@@ -1142,7 +1140,7 @@ case0:
       if (std::is_constant_evaluated())
         {
           // needs element_aligned because of GCC PR111302
-          for (; first + (size - 1) < last; first += size)
+          for (; last - first >= size; first += size)
             detail::simd_load_and_invoke<V, write_back>(fun, std::to_address(first),
                                                         stdx::element_aligned, detail::no_unroll);
 
@@ -1164,8 +1162,8 @@ case0:
           if constexpr (ExecutionPolicy::_unroll_by > 1)
             {
               constexpr auto step = size * ExecutionPolicy::_unroll_by;
-              const auto unrolled_last = last - step;
-              for (; first <= unrolled_last; first += step)
+              const auto unrolled_last = first + distance / step * step;
+              for (; first != unrolled_last; first += step)
                 {
                   detail::simd_load_and_invoke<V, write_back>(
                     fun, std::to_address(first), flags,
@@ -1173,8 +1171,8 @@ case0:
                 }
             }
 
-          const auto simd_last = last - size;
-          for (; assume_matching_size ? first != last : first <= simd_last; first += size)
+          const auto simd_last = assume_matching_size ? last : last - leftover;
+          for (; first != simd_last; first += size)
             detail::simd_load_and_invoke<V, write_back>(fun, std::to_address(first), flags,
                                                         detail::no_unroll);
 
-- 
2.43.0


From 406c874c8cce343f19d668a46a581e07b0dac9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:49 +0000
Subject: [PATCH 29/32] fix: simdize.h and simd_execution.h did not compile
 after other headers without libstdc++'s simd

---
 vir/struct_reflect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vir/struct_reflect.h b/vir/struct_reflect.h
index ac686a7..f710f4b 100644
--- a/vir/struct_reflect.h
+++ b/vir/struct_reflect.h
@@ -392,7 +392,7 @@ namespace vir
     template <typename T>
       concept aggregate_without_tuple_size
 	= std::is_aggregate_v<T> and not has_tuple_size<T>
-	    and requires (const T& x) { detail::struct_size<T>(); };
+	    and requires (const T& x) { struct_size<T>(); };
 
     // traits
     template <typename From, typename To>
-- 
2.43.0


From 6680d11adabd0fcb0d4be9d1a43d5d527befc373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:49 +0000
Subject: [PATCH 30/32] fix: reductions of where-expressions are declared
 constexpr but never were constant expressions

---
 vir/simd.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 4369e71..5792c4a 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -1957,11 +1957,11 @@ namespace vir::stdx
       using value_type =
         typename std::conditional_t<std::is_arithmetic_v<V>, Wrapper, V>::value_type;
 
-      friend const M&
+      friend constexpr const M&
       get_mask(const const_where_expression& x)
       { return x.m_k; }
 
-      friend const V&
+      friend constexpr const V&
       get_lvalue(const const_where_expression& x)
       { return x.m_value; }
 
@@ -2018,11 +2018,11 @@ namespace vir::stdx
       using value_type =
         typename std::conditional_t<std::is_arithmetic_v<V>, Wrapper, V>::value_type;
 
-      friend const M&
+      friend constexpr const M&
       get_mask(const const_where_expression& x)
       { return x.m_k; }
 
-      friend const V&
+      friend constexpr const V&
       get_lvalue(const const_where_expression& x)
       { return x.m_value; }
 
@@ -2068,7 +2068,7 @@ namespace vir::stdx
       static_assert(std::is_same_v<typename M::abi_type, typename V::abi_type>);
       static_assert(M::size() == V::size());
 
-      friend V&
+      friend constexpr V&
       get_lvalue(where_expression& x)
       { return x.m_value; }
 
-- 
2.43.0


From c1a80377089f54b159975b53b420512671f58c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:48 +0000
Subject: [PATCH 31/32] fix: loads and stores of the portable fixed_size
 simd_mask are constexpr

split(simd_mask) is constexpr and calls them, as do constexpr user functions;
the scalar simd_mask and all of simd already allow it.
---
 vir/simd.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/vir/simd.h b/vir/simd.h
index 5792c4a..4dd3d3d 100644
--- a/vir/simd.h
+++ b/vir/simd.h
@@ -812,11 +812,13 @@ namespace vir::stdx
 
       // load constructor
       template <typename Flags>
+        constexpr
         simd_mask(const value_type* mem, Flags)
         : simd_mask(std::make_index_sequence<N>(), [mem](size_t i) { return mem[i]; })
         {}
 
       template <typename Flags>
+        constexpr
         simd_mask(const value_type* mem, const simd_mask& k, Flags)
         : simd_mask(std::make_index_sequence<N>(),
                     [mem, &k](size_t i) { return k[i] ? mem[i] : false; })
@@ -824,15 +826,21 @@ namespace vir::stdx
 
       // loads [simd_mask.load]
       template <typename Flags>
-        void
+        constexpr void
         copy_from(const value_type* mem, Flags)
-        { std::memcpy(data, mem, N * sizeof(bool)); }
+        {
+          for (int i = 0; i < N; ++i)
+            data[i] = mem[i];
+        }
 
       // stores [simd_mask.store]
       template <typename Flags>
-        void
+        constexpr void
         copy_to(value_type* mem, Flags) const
-        { std::memcpy(mem, data, N * sizeof(bool)); }
+        {
+          for (int i = 0; i < N; ++i)
+            mem[i] = data[i];
+        }
 
       // scalar access
       constexpr reference
-- 
2.43.0


From 11ad047f1b516c055b1fc5271b91ab085b8ffffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:11 +0000
Subject: [PATCH 32/32] fix: simdize does not assume that over-aligned structs
 are stored densely

The shuffle implementations of load and store concluded from the size of the
simdized type that there is no padding, but with an alignment that scales with
the member type both have padding.
---
 vir/simdize.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vir/simdize.h b/vir/simdize.h
index cc6b955..28a057c 100644
--- a/vir/simdize.h
+++ b/vir/simdize.h
@@ -585,6 +585,8 @@ namespace vir
 	  // (the standard layout requirement rules out e.g. std::tuple, which may store its elements in
 	  // a different order)
 	  if constexpr (N > 1 and sizeof(T) * N == sizeof(base_type) and _flat_member_count >= 2
+			  // no padding between the structs (and then there's none inside of them either)
+			  and sizeof(T) == _flat_member_count * sizeof(detail::flat_element_t<0, T>)
 			  and std::is_standard_layout_v<T> and std::has_single_bit(unsigned(N)))
 	    {
 	      const std::byte* byte_ptr = reinterpret_cast<const std::byte*>(addr);
@@ -821,6 +823,7 @@ namespace vir
 	  if (not std::is_constant_evaluated())
 	    if constexpr (N > 2 and _flat_member_count >= 2
 			    and sizeof(T) * N == sizeof(base_type)
+			    and sizeof(T) == _flat_member_count * sizeof(detail::flat_element_t<0, T>)
 			    and std::is_standard_layout_v<T>
 			    and std::has_single_bit(unsigned(N)))
 	      {
-- 
2.43.0

