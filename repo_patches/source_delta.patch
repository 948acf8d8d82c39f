From 9b99c5dba8b0c64248cf4a8006b898c8c510d494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:34 +0000
Subject: [PATCH 01/25] fix: round signed int64->float conversions to a
 neighbouring value (AVX2, AVX512F w/o DQ)

---
 experimental/bits/simd_x86_conversions.h | 37 +++++++++++++++---------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/experimental/bits/simd_x86_conversions.h b/experimental/bits/simd_x86_conversions.h
index 899d031..bddc8d2 100644
--- a/experimental/bits/simd_x86_conversions.h
+++ b/experimental/bits/simd_x86_conversions.h
@@ -1278,6 +1278,22 @@ template <typename _To, typename _V, typename _Traits>
 		const auto __hi32 = __vector_bitcast<
 		  conditional_t<is_signed_v<_Tp>, int, _UInt>>(
 		  _mm256_unpackhi_epi32(__a, __b)); // ABEF CDGH
+		if constexpr (is_signed_v<_Tp>)
+		  {
+		    // Adding a positive __lo to a negative and already rounded
+		    // __hi + __mid can skip over a representable value. In
+		    // double both parts are exact and there's only one addition.
+		    const auto __cvt = [](__m128i __h, __m128i __l) {
+		      return _mm256_cvtpd_ps(
+			0x100000000LL * _mm256_cvtepi32_pd(__h)
+			+ __convert_x86<__vector_type_t<double, 4>>(
+			  __vector_bitcast<_UInt>(__l)));
+		    };
+		    const auto __hi32i = __to_intrin(__hi32);
+		    return __xzyw(
+		      __concat(__cvt(__lo128(__hi32i), __lo128(__lo32)),
+			       __cvt(__hi128(__hi32i), __hi128(__lo32))));
+		  }
 		const auto __hi
 		  = 0x100000000LL
 		    * __convert_x86<__vector_type_t<float, 8>>(__hi32);
@@ -1296,20 +1312,13 @@ template <typename _To, typename _V, typename _Traits>
 	      }
 	    else if constexpr (__z_to_z && is_signed_v<_Tp>)
 	      {
-		const __m512 __hi32 = _mm512_cvtepi32_ps(
-		  __concat(_mm512_cvtepi64_epi32(__to_intrin(__v0 >> 32)),
-			   _mm512_cvtepi64_epi32(__to_intrin(__v1 >> 32))));
-		const __m512i __lo32 = __concat(_mm512_cvtepi64_epi32(__i0),
-						_mm512_cvtepi64_epi32(__i1));
-		// split low 32-bits, because if __hi32 is a small negative
-		// number, the 24-bit mantissa may lose important information if
-		// any of the high 8 bits of __lo32 is set, leading to
-		// catastrophic cancelation in the FMA
-		const __m512 __hi16
-		  = _mm512_cvtepu32_ps(_mm512_set1_epi32(0xffff0000u) & __lo32);
-		const __m512 __lo16
-		  = _mm512_cvtepi32_ps(_mm512_set1_epi32(0x0000ffffu) & __lo32);
-		return (__hi32 * 0x100000000LL + __hi16) + __lo16;
+		// Float arithmetic on the 32-/16-bit parts may skip over a
+		// representable value (negative values close to a power of 2).
+		// Thus, go through double.
+		return __concat(
+		  _mm512_cvtpd_ps(__convert_x86<__vector_type_t<double, 8>>(__v0)),
+		  _mm512_cvtpd_ps(
+		    __convert_x86<__vector_type_t<double, 8>>(__v1)));
 	      }
 	    else if constexpr (__z_to_z && is_unsigned_v<_Tp>)
 	      {
-- 
2.43.0


From d8bfa0d281b28380cd0d5048b145a5ffa34e570a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 02/25] fix: make where_expression <<= and >>= compile and
 blend the shifted value

The compound shift operators named _S_shift_left/_S_shift_right, which no
implementation provides (they are called _S_bit_shift_left/right), and
_S_masked_cassign passed the raw vector type some of them return to _S_blend.
---
 experimental/bits/simd.h         | 4 ++--
 experimental/bits/simd_builtin.h | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 4c89311..da062ac 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3228,8 +3228,8 @@ template <typename _M, typename _Tp>
     _GLIBCXX_SIMD_OP_(&, _S_bit_and);
     _GLIBCXX_SIMD_OP_(|, _S_bit_or);
     _GLIBCXX_SIMD_OP_(^, _S_bit_xor);
-    _GLIBCXX_SIMD_OP_(<<, _S_shift_left);
-    _GLIBCXX_SIMD_OP_(>>, _S_shift_right);
+    _GLIBCXX_SIMD_OP_(<<, _S_bit_shift_left);
+    _GLIBCXX_SIMD_OP_(>>, _S_bit_shift_right);
 #undef _GLIBCXX_SIMD_OP_
 
     _GLIBCXX_SIMD_INTRINSIC void operator++() &&
diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index f048c07..a37c69d 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2506,7 +2506,8 @@ template <typename _Abi>
 	  __lhs = __op(_SuperImpl{}, __lhs, __rhs);
 	else
 	  __lhs = _CommonImpl::_S_blend(__k, __lhs,
-					__op(_SuperImpl{}, __lhs, __rhs));
+					_SimdWrapper<_Tp, _Np>(
+					  __op(_SuperImpl{}, __lhs, __rhs)));
       }
 
     template <typename _Op, typename _Tp, typename _K, size_t _Np>
-- 
2.43.0


From 63c9a0b03726e556fdb18b73650b8ef120ef8acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:16 +0000
Subject: [PATCH 03/25] fix: make where(mask, mask) = bool compile where
 integer vectors of that width are unsupported

_MaskImplBuiltin::_S_masked_assign built a simd_mask of the integer element
type, which does not exist for 32-byte registers on AVX without AVX2.
---
 experimental/bits/simd_builtin.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index a37c69d..2253e10 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2883,8 +2883,10 @@ template <typename _Abi>
 	      __lhs = __or(__k, __lhs);
 	    return;
 	  }
-	__lhs = _CommonImpl::_S_blend(__k, __lhs,
-				      __data(simd_mask<_Tp, _Abi>(__rhs)));
+	__lhs = _CommonImpl::_S_blend(
+	  __k, __lhs,
+	  _SimdWrapper<_Tp, _Np>(__vector_broadcast<_Np>(__rhs ? _Tp(-1)
+								: _Tp())));
       }
 
     //}}}2
-- 
2.43.0


From 318ab6a845170884ae75885010620f71aa2900f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 04/25] fix: split of a partial AVX simd_mask read the wrong
 lanes

The shortcut that splits a mask into its two 128-bit halves was also taken
for partially filled registers (e.g. 12 lanes of short), where the second
part does not start at the register's middle.
---
 experimental/bits/simd.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index da062ac..3a08d6a 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3784,7 +3784,10 @@ template <typename _V, typename _Ap,
     else if constexpr (_Parts == 1)
       return {__proposed::static_simd_cast<_V>(__x)};
     else if constexpr (_Parts == 2 && __is_sse_abi<typename _V::abi_type>()
-		       && __is_avx_abi<_Ap>())
+		       && __is_avx_abi<_Ap>()
+		       // the parts are register halves only if no lane is padding
+		       && _V::size() * sizeof(typename _V::simd_type::value_type)
+			    == 16)
       return {_V(__private_init, __lo128(__data(__x))),
 	      _V(__private_init, __hi128(__data(__x)))};
     else if constexpr (_V::size() <= __CHAR_BIT__ * sizeof(_ULLong))
-- 
2.43.0


From 4ea3234fea042ad7ab8fa7e45781452b5e948c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 05/25] fix: masked hmin/hmax returned the largest finite value
 when every selected element is infinite

---
 experimental/bits/simd.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 3a08d6a..2b4bed8 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3507,8 +3507,11 @@ template <typename _M, typename _V>
   hmin(const const_where_expression<_M, _V>& __x) noexcept
   {
     using _Tp = typename _V::value_type;
+    if (__builtin_expect(none_of(__get_mask(__x)), false))
+      return __finite_max_v<_Tp>;
+
     constexpr _Tp __id_elem =
-#ifdef __FINITE_MATH_ONLY__
+#if __FINITE_MATH_ONLY__
       __finite_max_v<_Tp>;
 #else
       __value_or<__infinity, _Tp>(__finite_max_v<_Tp>);
@@ -3525,8 +3528,11 @@ template <typename _M, typename _V>
   hmax(const const_where_expression<_M, _V>& __x) noexcept
   {
     using _Tp = typename _V::value_type;
+    if (__builtin_expect(none_of(__get_mask(__x)), false))
+      return __finite_min_v<_Tp>;
+
     constexpr _Tp __id_elem =
-#ifdef __FINITE_MATH_ONLY__
+#if __FINITE_MATH_ONLY__
       __finite_min_v<_Tp>;
 #else
       [] {
-- 
2.43.0


From caf64c74fb079a8234eb5d36a557b2c93edb585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 06/25] fix: minmax did not compile for simd_abi::scalar and
 simd_abi::fixed_size

---
 experimental/bits/simd_fixed_size.h | 9 ++++++++-
 experimental/bits/simd_scalar.h     | 7 ++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_fixed_size.h b/experimental/bits/simd_fixed_size.h
index 9988313..1cd308a 100644
--- a/experimental/bits/simd_fixed_size.h
+++ b/experimental/bits/simd_fixed_size.h
@@ -1482,7 +1482,7 @@ template <int _Np>
 	  }
       }
 
-    // _S_min, _S_max {{{2
+    // _S_min, _S_max, _S_minmax {{{2
     template <typename _Tp, typename... _As>
       static inline constexpr _SimdTuple<_Tp, _As...>
       _S_min(const _SimdTuple<_Tp, _As...>& __a,
@@ -1507,6 +1507,13 @@ template <int _Np>
 	  __b);
       }
 
+    template <typename _Tp, typename... _As>
+      static inline constexpr
+      pair<_SimdTuple<_Tp, _As...>, _SimdTuple<_Tp, _As...>>
+      _S_minmax(const _SimdTuple<_Tp, _As...>& __a,
+		const _SimdTuple<_Tp, _As...>& __b)
+      { return {_S_min(__a, __b), _S_max(__b, __a)}; }
+
     // _S_complement {{{2
     template <typename _Tp, typename... _As>
       static inline constexpr _SimdTuple<_Tp, _As...>
diff --git a/experimental/bits/simd_scalar.h b/experimental/bits/simd_scalar.h
index 4d4fe73..c2debbc 100644
--- a/experimental/bits/simd_scalar.h
+++ b/experimental/bits/simd_scalar.h
@@ -188,7 +188,7 @@ struct _SimdImplScalar
     _S_reduce(const simd<_Tp, simd_abi::scalar>& __x, const _BinaryOperation&)
     { return __x._M_data; }
 
-  // _S_min, _S_max {{{2
+  // _S_min, _S_max, _S_minmax {{{2
   template <typename _Tp>
     static constexpr inline _Tp _S_min(const _Tp __a, const _Tp __b)
     { return std::min(__a, __b); }
@@ -197,6 +197,11 @@ struct _SimdImplScalar
     static constexpr inline _Tp _S_max(const _Tp __a, const _Tp __b)
     { return std::max(__a, __b); }
 
+  template <typename _Tp>
+    static constexpr inline pair<_Tp, _Tp> _S_minmax(const _Tp __a,
+						     const _Tp __b)
+    { return {_S_min(__a, __b), _S_max(__b, __a)}; }
+
   // _S_complement {{{2
   template <typename _Tp>
     static constexpr inline _Tp _S_complement(_Tp __x) noexcept
-- 
2.43.0


From 9cc3aa1f46779a3eadf625272a43a64088226d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:49 +0000
Subject: [PATCH 07/25] fix: to_compatible and to_native of masks could never
 be called (size_t vs int deduction, missing constructor)

---
 experimental/bits/simd.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 2b4bed8..243f473 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3035,16 +3035,17 @@ template <typename _Tp, int _Np>
     return {__mem, vector_aligned};
   }
 
-template <typename _Tp, size_t _Np>
+template <typename _Tp, int _Np>
   _GLIBCXX_SIMD_INTRINSIC
   enable_if_t<(_Np == native_simd_mask<_Tp>::size()), native_simd_mask<_Tp>>
   to_native(const fixed_size_simd_mask<_Tp, _Np>& __x)
   {
-    return native_simd_mask<_Tp>([&](auto __i) constexpr { return __x[__i]; });
+    return native_simd_mask<_Tp>(
+      __private_init, [&](auto __i) constexpr { return __x[__i]; });
   }
 
 // to_compatible {{{2
-template <typename _Tp, size_t _Np>
+template <typename _Tp, int _Np>
   _GLIBCXX_SIMD_INTRINSIC enable_if_t<(_Np == simd<_Tp>::size()), simd<_Tp>>
   to_compatible(const simd<_Tp, simd_abi::fixed_size<_Np>>& __x)
   {
@@ -3053,11 +3054,14 @@ template <typename _Tp, size_t _Np>
     return {__mem, vector_aligned};
   }
 
-template <typename _Tp, size_t _Np>
+template <typename _Tp, int _Np>
   _GLIBCXX_SIMD_INTRINSIC
   enable_if_t<(_Np == simd_mask<_Tp>::size()), simd_mask<_Tp>>
   to_compatible(const simd_mask<_Tp, simd_abi::fixed_size<_Np>>& __x)
-  { return simd_mask<_Tp>([&](auto __i) constexpr { return __x[__i]; }); }
+  {
+    return simd_mask<_Tp>(
+      __private_init, [&](auto __i) constexpr { return __x[__i]; });
+  }
 
 // masked assignment [simd_mask.where] {{{1
 
-- 
2.43.0


From a24568708acfe078ff0d2716e688f6bec86f46a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 08/25] fix: resizing_simd_cast to a larger mask left elements
 undefined; to_fixed_size(mask) read uninitialized padding bits

---
 experimental/bits/simd.h     | 17 +++++++++++------
 experimental/bits/simd_x86.h | 14 +++++++-------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 243f473..966db3e 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -2989,8 +2989,15 @@ template <typename _Tp, typename _Up, typename _Ap>
   enable_if_t<is_simd_mask_v<_Tp>, _Tp>
   resizing_simd_cast(const simd_mask<_Up, _Ap>& __x)
   {
-    return {__private_init, _Tp::abi_type::_MaskImpl::template _S_convert<
-			      typename _Tp::simd_type::value_type>(__x)};
+    using _To = typename _Tp::simd_type::value_type;
+    using _ToImpl = typename _Tp::abi_type::_MaskImpl;
+    if constexpr (_Tp::size() > simd_size_v<_Up, _Ap>)
+      // padding bits of __x must not turn into elements of the result
+      return {__private_init,
+	      _ToImpl::template _S_convert<_To>(simd_mask<_Up, _Ap>(
+		__private_init, _Ap::_S_masked(__data(__x))))};
+    else
+      return {__private_init, _ToImpl::template _S_convert<_To>(__x)};
   }
 } // namespace __proposed
 
@@ -3018,10 +3025,8 @@ template <typename _Tp, typename _Ap>
   _GLIBCXX_SIMD_INTRINSIC auto
   to_fixed_size(const simd_mask<_Tp, _Ap>& __x)
   {
-    constexpr int _Np = simd_mask<_Tp, _Ap>::size();
-    fixed_size_simd_mask<_Tp, _Np> __r;
-    __execute_n_times<_Np>([&](auto __i) constexpr { __r[__i] = __x[__i]; });
-    return __r;
+    return fixed_size_simd_mask<_Tp, simd_mask<_Tp, _Ap>::size()>(
+      __private_init, [&](auto __i) constexpr { return __x[__i]; });
   }
 
 // to_native {{{2
diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index d6dda28..964ddfb 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -3800,7 +3800,7 @@ struct _MaskImplX86Mixin
 	  constexpr int _ToBytes = sizeof(_Up);
 	  const auto __k = __x._M_data;
 
-	  if constexpr (_FromBytes == _ToBytes)
+	  if constexpr (_FromBytes == _ToBytes && sizeof(_UI) <= sizeof(__k))
 	    return __intrin_bitcast<_To>(__k);
 	  else if constexpr (sizeof(_UI) == 16 && sizeof(__k) == 16)
 	    { // SSE -> SSE {{{
@@ -3891,24 +3891,24 @@ struct _MaskImplX86Mixin
 	      else if constexpr (_FromBytes == _ToBytes * 2)
 		{
 		  const auto __y = __vector_bitcast<_LLong>(__k);
-		  return __intrin_bitcast<_To>(_mm256_castsi128_si256(
-		    _mm_packs_epi16(__lo128(__y), __hi128(__y))));
+		  return __intrin_bitcast<_To>(__m256i(__zero_extend(
+		    _mm_packs_epi16(__lo128(__y), __hi128(__y)))));
 		}
 	      else if constexpr (_FromBytes == _ToBytes * 4)
 		{
 		  const auto __y = __vector_bitcast<_LLong>(__k);
-		  return __intrin_bitcast<_To>(_mm256_castsi128_si256(
+		  return __intrin_bitcast<_To>(__m256i(__zero_extend(
 		    _mm_packs_epi16(_mm_packs_epi16(__lo128(__y), __hi128(__y)),
-				    __m128i())));
+				    __m128i()))));
 		}
 	      else if constexpr (_FromBytes == _ToBytes * 8)
 		{
 		  const auto __y = __vector_bitcast<_LLong>(__k);
 		  return __intrin_bitcast<_To>(
-		    _mm256_castsi128_si256(_mm_shuffle_epi8(
+		    __m256i(__zero_extend(_mm_shuffle_epi8(
 		      _mm_packs_epi16(__lo128(__y), __hi128(__y)),
 		      _mm_setr_epi8(3, 7, 11, 15, -1, -1, -1, -1, -1, -1, -1,
-				    -1, -1, -1, -1, -1))));
+				    -1, -1, -1, -1, -1)))));
 		}
 	      else if constexpr (_FromBytes * 2 == _ToBytes)
 		{
-- 
2.43.0


From ee5eb4f46a3243b41308243921f98cb096166000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:46 +0000
Subject: [PATCH 09/25] fix: find_last_set ignores padding bits of AVX-512
 masks

---
 experimental/bits/simd_x86.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 964ddfb..5e916a3 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -5155,7 +5155,7 @@ template <typename _Abi>
       _S_find_last_set(simd_mask<_Tp, _Abi> __k)
       {
 	if constexpr (__is_avx512_abi<_Abi>())
-	  return std::__bit_width(__k._M_data._M_data) - 1;
+	  return std::__bit_width(_Abi::_S_masked(__k._M_data)._M_data) - 1;
 	else
 	  return _Base::_S_find_last_set(__k);
       }
-- 
2.43.0


From 4b9ae210ed57a18d676c68796b4e044adfa20ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:46 +0000
Subject: [PATCH 10/25] fix: masked loads and stores never access memory for
 padding elements

---
 experimental/bits/simd.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 966db3e..b86973e 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3117,7 +3117,8 @@ template <typename _M, typename _Tp>
       copy_from(const _LoadStorePtr<_Up, value_type>* __mem, _Flags) const&&
       {
 	return {__private_init,
-		_Impl::_S_masked_load(__data(_M_value), __data(_M_k),
+		_Impl::_S_masked_load(__data(_M_value),
+				      _M::abi_type::_S_masked(__data(_M_k)),
 				      _Flags::template _S_apply<_V>(__mem))};
       }
 
@@ -3127,7 +3128,7 @@ template <typename _M, typename _Tp>
       {
 	_Impl::_S_masked_store(__data(_M_value),
 			       _Flags::template _S_apply<_V>(__mem),
-			       __data(_M_k));
+			       _M::abi_type::_S_masked(__data(_M_k)));
       }
   };
 
@@ -3275,7 +3276,8 @@ template <typename _M, typename _Tp>
       copy_from(const _LoadStorePtr<_Up, value_type>* __mem, _Flags) &&
       {
 	__data(_M_value)
-	  = _Impl::_S_masked_load(__data(_M_value), __data(_M_k),
+	  = _Impl::_S_masked_load(__data(_M_value),
+				  _M::abi_type::_S_masked(__data(_M_k)),
 				  _Flags::template _S_apply<_Tp>(__mem));
       }
   };
@@ -4385,7 +4387,7 @@ template <typename _Tp, typename _Abi>
       : _M_data{}
       {
 	_M_data
-	  = _Impl::_S_masked_load(_M_data, __k._M_data,
+	  = _Impl::_S_masked_load(_M_data, _Abi::_S_masked(__k._M_data),
 				  _Flags::template _S_apply<simd_mask>(__mem));
       }
 
-- 
2.43.0


From e89ca33b47be6a6dbd3c08b529fff2632f4a65c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:29 +0000
Subject: [PATCH 11/25] fix: sph_legendre(simd) computed assoc_legendre

---
 experimental/bits/simd_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd_math.h b/experimental/bits/simd_math.h
index 6316523..1d08f14 100644
--- a/experimental/bits/simd_math.h
+++ b/experimental/bits/simd_math.h
@@ -1477,7 +1477,7 @@ template <typename _Tp, typename _Abi>
 	       const simd<_Tp, _Abi>& theta)
   {
     return simd<_Tp, _Abi>([&](auto __i) {
-      return std::assoc_legendre(__l[__i], __m[__i], theta[__i]);
+      return std::sph_legendre(__l[__i], __m[__i], theta[__i]);
     });
   }
 
-- 
2.43.0


From 4b2a99c159528ad701af551fa26196b523b14c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:15 +0000
Subject: [PATCH 12/25] fix: where(mask, simd) = -0.0 assigned +0.0

The shortcut for a constant zero right-hand side clears the selected
elements, which loses the sign of a negative floating-point zero.
---
 experimental/bits/simd_builtin.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index 2253e10..d9cdcbd 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -2474,7 +2474,8 @@ template <typename _Abi>
 	  return;
 	else if (__k._M_is_constprop_all_of())
 	  __lhs = __vector_broadcast<_Np>(__rhs);
-	else if (__builtin_constant_p(__rhs) && __rhs == 0)
+	else if (__builtin_constant_p(__rhs) && __rhs == 0
+		 && !__builtin_signbit(double(__rhs)))
 	  {
 	    if constexpr (!is_same_v<bool, _K>)
 	      // the __andnot optimization only makes sense if __k._M_data is a
-- 
2.43.0


From 7ae8611bc3e5ffdc168bb5495ff9fb3e5555c243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:46 +0000
Subject: [PATCH 13/25] fix: NEON any_of of a partial mask was always true

The inactive lanes of the mask were set before testing for any set bit.
---
 experimental/bits/simd_neon.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/experimental/bits/simd_neon.h b/experimental/bits/simd_neon.h
index 597f406..0655696 100644
--- a/experimental/bits/simd_neon.h
+++ b/experimental/bits/simd_neon.h
@@ -424,9 +424,7 @@ template <typename _Abi>
     template <typename _Tp>
       _GLIBCXX_SIMD_INTRINSIC static bool _S_any_of(simd_mask<_Tp, _Abi> __k)
       {
-	const auto __kk
-	  = __vector_bitcast<char>(__k._M_data)
-	    | ~__vector_bitcast<char>(_Abi::template _S_implicit_mask<_Tp>());
+	const auto __kk = _Abi::_S_masked(__k._M_data);
 	if constexpr (sizeof(__k) == 16)
 	  {
 	    const auto __x = __vector_bitcast<long long>(__kk);
-- 
2.43.0


From 379c9d162af3ac661fe924a366ebed176d67bbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:34 +0000
Subject: [PATCH 14/25] fix: NEON some_of treated the inactive lanes of a
 partial mask as true

The inactive lanes were set before testing for 'neither none nor all', so a
mask without any true lane was reported as some_of. For masks of two bytes the
wrap-around test was additionally evaluated in int and thus never wrapped.
---
 experimental/bits/simd_neon.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/experimental/bits/simd_neon.h b/experimental/bits/simd_neon.h
index 0655696..8615a3f 100644
--- a/experimental/bits/simd_neon.h
+++ b/experimental/bits/simd_neon.h
@@ -460,11 +460,13 @@ template <typename _Abi>
       {
 	if constexpr (sizeof(__k) <= 8)
 	  {
-	    const auto __kk = __vector_bitcast<char>(__k._M_data)
-			      | ~__vector_bitcast<char>(
-				_Abi::template _S_implicit_mask<_Tp>());
-	    using _Up = make_unsigned_t<__int_for_sizeof_t<decltype(__kk)>>;
-	    return __bit_cast<_Up>(__kk) + 1 > 1;
+	    using _Up
+	      = make_unsigned_t<__int_for_sizeof_t<decltype(__k._M_data)>>;
+	    const _Up __bits
+	      = __bit_cast<_Up>(_Abi::_S_masked(__k._M_data)._M_data);
+	    return __bits != 0
+		   && __bits != __bit_cast<_Up>(
+				  _Abi::template _S_implicit_mask<_Tp>()._M_data);
 	  }
 	else
 	  return _Base::_S_some_of(__k);
-- 
2.43.0


From 5fbf8ca5a62809caa5146c7860c861b614aabad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 15/25] fix: NEON popcount counted inactive lanes of a mask

The inactive lanes of a partial mask were counted, masks smaller than 8 bytes
were read beyond their end, and on 32-bit ARM only the first of two 8-byte
lanes was counted, twice.
---
 experimental/bits/simd_neon.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/experimental/bits/simd_neon.h b/experimental/bits/simd_neon.h
index 8615a3f..a7af0f9 100644
--- a/experimental/bits/simd_neon.h
+++ b/experimental/bits/simd_neon.h
@@ -477,29 +477,32 @@ template <typename _Abi>
     template <typename _Tp>
       _GLIBCXX_SIMD_INTRINSIC static int _S_popcount(simd_mask<_Tp, _Abi> __k)
       {
-	if constexpr (sizeof(_Tp) == 1)
+	[[maybe_unused]] const auto __kk = _Abi::_S_masked(__k._M_data);
+	if constexpr (sizeof(__k) < 8)
+	  return _Base::_S_popcount(__k);
+	else if constexpr (sizeof(_Tp) == 1)
 	  {
-	    const auto __s8 = __vector_bitcast<_SChar>(__k._M_data);
+	    const auto __s8 = __vector_bitcast<_SChar>(__kk);
 	    int8x8_t __tmp = __lo64(__s8) + __hi64z(__s8);
 	    return -vpadd_s8(vpadd_s8(vpadd_s8(__tmp, int8x8_t()), int8x8_t()),
 			     int8x8_t())[0];
 	  }
 	else if constexpr (sizeof(_Tp) == 2)
 	  {
-	    const auto __s16 = __vector_bitcast<short>(__k._M_data);
+	    const auto __s16 = __vector_bitcast<short>(__kk);
 	    int16x4_t __tmp = __lo64(__s16) + __hi64z(__s16);
 	    return -vpadd_s16(vpadd_s16(__tmp, int16x4_t()), int16x4_t())[0];
 	  }
 	else if constexpr (sizeof(_Tp) == 4)
 	  {
-	    const auto __s32 = __vector_bitcast<int>(__k._M_data);
+	    const auto __s32 = __vector_bitcast<int>(__kk);
 	    int32x2_t __tmp = __lo64(__s32) + __hi64z(__s32);
 	    return -vpadd_s32(__tmp, int32x2_t())[0];
 	  }
 	else if constexpr (sizeof(_Tp) == 8)
 	  {
 	    static_assert(sizeof(__k) == 16);
-	    const auto __s64 = __vector_bitcast<long>(__k._M_data);
+	    const auto __s64 = __vector_bitcast<long long>(__kk);
 	    return -(__s64[0] + __s64[1]);
 	  }
       }
-- 
2.43.0


From 0c90829feb35e3347472827ef1602a6f414d6283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:56 +0000
Subject: [PATCH 16/25] fix: PPC popcount counted inactive lanes of a partial
 mask

---
 experimental/bits/simd_ppc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd_ppc.h b/experimental/bits/simd_ppc.h
index 1d64993..84c6c2f 100644
--- a/experimental/bits/simd_ppc.h
+++ b/experimental/bits/simd_ppc.h
@@ -126,7 +126,7 @@ template <typename _Abi>
     template <typename _Tp>
       _GLIBCXX_SIMD_INTRINSIC static int _S_popcount(simd_mask<_Tp, _Abi> __k)
       {
-	const auto __kv = __as_vector(__k);
+	const auto __kv = _Abi::_S_masked(__as_vector(__k));
 	if constexpr (__have_power10vec)
 	  {
 	    return vec_cntm(__to_intrin(__kv), 1);
-- 
2.43.0


From b45c2bf03881493485cb61a46bcf8ffcf2f7ecbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:23 +0000
Subject: [PATCH 17/25] fix: fixed_size conversion between integers of equal
 rank was implicit

wchar_t to int and char32_t to unsigned keep the integer conversion rank, so the
converting constructor must not participate.
---
 experimental/bits/simd.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index b86973e..14c9ae5 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -770,9 +770,12 @@ template <typename _From, typename _To, bool = (sizeof(_From) < sizeof(_To))>
   struct __converts_to_higher_integer_rank : public true_type {};
 
 // this may fail for char -> short if sizeof(char) == sizeof(short)
+// (wchar_t and char32_t have the rank of the type they are promoted to)
 template <typename _From, typename _To>
   struct __converts_to_higher_integer_rank<_From, _To, false>
-  : public is_same<decltype(declval<_From>() + declval<_To>()), _To> {};
+  : public __bool_constant<
+      is_same_v<decltype(declval<_From>() + declval<_To>()), _To>
+      && !is_same_v<decltype(+declval<_From>()), _To>> {};
 
 // }}}
 // __data(simd/simd_mask) {{{
-- 
2.43.0


From a94a619613d4755a14b3c15fb26df9f64266095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:11 +0000
Subject: [PATCH 18/25] fix: unreserved local variable name in the x86 mask
 popcount

---
 experimental/bits/simd_x86.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 5e916a3..694650b 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -5064,8 +5064,8 @@ template <typename _Abi>
 	      }
 	    else if constexpr (_Np == 2 && sizeof(_Tp) == 8)
 	      {
-		const int mask = _mm_movemask_pd(__auto_bitcast(__kk));
-		return mask - (mask >> 1);
+		const int __mask = _mm_movemask_pd(__auto_bitcast(__kk));
+		return __mask - (__mask >> 1);
 	      }
 	    else if constexpr (_Np <= 4 && sizeof(_Tp) == 8)
 	      {
-- 
2.43.0


From 1320fc1ee2c7b41ff38c8e31a2f386d84ab7a8ab Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:59:36 +0000
Subject: [PATCH 19/25] fix: unreserved identifiers, which a program may define
 as macros

---
 experimental/bits/simd.h                 | 80 ++++++++++++------------
 experimental/bits/simd_debug.h           |  6 +-
 experimental/bits/simd_fixed_size.h      | 14 ++---
 experimental/bits/simd_math.h            | 18 +++---
 experimental/bits/simd_x86.h             | 36 +++++------
 experimental/bits/simd_x86_conversions.h | 14 ++---
 6 files changed, 84 insertions(+), 84 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 14c9ae5..7c67869 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -1904,40 +1904,40 @@ template <typename _Tp, typename _TVT = _VectorTraits<_Tp>,
 	  typename _R = __vector_type_t<typename _TVT::value_type,
 					_TVT::_S_full_size * 2>>
   constexpr _R
-  __concat(_Tp a_, _Tp b_)
+  __concat(_Tp __aa, _Tp __bb)
   {
 #ifdef _GLIBCXX_SIMD_WORKAROUND_XXX_1
     using _W
       = conditional_t<is_floating_point_v<typename _TVT::value_type>, double,
 		      conditional_t<(sizeof(_Tp) >= 2 * sizeof(long long)),
 				    long long, typename _TVT::value_type>>;
-    constexpr int input_width = sizeof(_Tp) / sizeof(_W);
-    const auto __a = __vector_bitcast<_W>(a_);
-    const auto __b = __vector_bitcast<_W>(b_);
+    constexpr int __input_width = sizeof(_Tp) / sizeof(_W);
+    const auto __a = __vector_bitcast<_W>(__aa);
+    const auto __b = __vector_bitcast<_W>(__bb);
     using _Up = __vector_type_t<_W, sizeof(_R) / sizeof(_W)>;
 #else
-    constexpr int input_width = _TVT::_S_full_size;
-    const _Tp& __a = a_;
-    const _Tp& __b = b_;
+    constexpr int __input_width = _TVT::_S_full_size;
+    const _Tp& __a = __aa;
+    const _Tp& __b = __bb;
     using _Up = _R;
 #endif
-    if constexpr (input_width == 2)
+    if constexpr (__input_width == 2)
       return reinterpret_cast<_R>(_Up{__a[0], __a[1], __b[0], __b[1]});
-    else if constexpr (input_width == 4)
+    else if constexpr (__input_width == 4)
       return reinterpret_cast<_R>(
 	_Up{__a[0], __a[1], __a[2], __a[3], __b[0], __b[1], __b[2], __b[3]});
-    else if constexpr (input_width == 8)
+    else if constexpr (__input_width == 8)
       return reinterpret_cast<_R>(
 	_Up{__a[0], __a[1], __a[2], __a[3], __a[4], __a[5], __a[6], __a[7],
 	    __b[0], __b[1], __b[2], __b[3], __b[4], __b[5], __b[6], __b[7]});
-    else if constexpr (input_width == 16)
+    else if constexpr (__input_width == 16)
       return reinterpret_cast<_R>(
 	_Up{__a[0],  __a[1],  __a[2],  __a[3],  __a[4],  __a[5],  __a[6],
 	    __a[7],  __a[8],  __a[9],  __a[10], __a[11], __a[12], __a[13],
 	    __a[14], __a[15], __b[0],  __b[1],  __b[2],  __b[3],  __b[4],
 	    __b[5],  __b[6],  __b[7],  __b[8],  __b[9],  __b[10], __b[11],
 	    __b[12], __b[13], __b[14], __b[15]});
-    else if constexpr (input_width == 32)
+    else if constexpr (__input_width == 32)
       return reinterpret_cast<_R>(
 	_Up{__a[0],  __a[1],  __a[2],  __a[3],  __a[4],  __a[5],  __a[6],
 	    __a[7],  __a[8],  __a[9],  __a[10], __a[11], __a[12], __a[13],
@@ -2504,10 +2504,10 @@ template <typename _Tp, size_t _Width>
       _GLIBCXX_SIMD_INTRINSIC constexpr
       operator _SimdTuple<_Tp, _As...>() const
       {
-	const auto& dd = _M_data; // workaround for GCC7 ICE
+	const auto& __dd = _M_data; // workaround for GCC7 ICE
 	return __generate_from_n_evaluations<sizeof...(_As),
 					     _SimdTuple<_Tp, _As...>>([&](
-	  auto __i) constexpr { return dd[int(__i)]; });
+	  auto __i) constexpr { return __dd[int(__i)]; });
       }
 
     _GLIBCXX_SIMD_INTRINSIC constexpr operator const _BuiltinType&() const
@@ -2862,7 +2862,7 @@ template <typename _Tp>
   };
 
 template <typename _Tp>
-  using safe_make_signed_t = typename __safe_make_signed<_Tp>::type;
+  using __safe_make_signed_t = typename __safe_make_signed<_Tp>::type;
 
 template <typename _Tp, typename _Up, typename _Ap>
   struct __static_simd_cast_return_type<_Tp, _Up, _Ap, false,
@@ -2878,7 +2878,7 @@ template <typename _Tp, typename _Up, typename _Ap>
 #ifndef _GLIBCXX_SIMD_FIX_P2TS_ISSUE65
        is_signed_v<_Up> != is_signed_v<_Tp> &&
 #endif
-       is_same_v<safe_make_signed_t<_Up>, safe_make_signed_t<_Tp>>),
+       is_same_v<__safe_make_signed_t<_Up>, __safe_make_signed_t<_Tp>>),
       simd<_Tp, _Ap>, fixed_size_simd<_Tp, simd_size_v<_Up, _Ap>>>;
   };
 
@@ -3104,8 +3104,8 @@ template <typename _M, typename _Tp>
     const_where_expression(const const_where_expression&) = delete;
     const_where_expression& operator=(const const_where_expression&) = delete;
 
-    _GLIBCXX_SIMD_INTRINSIC const_where_expression(const _M& __kk, const _Tp& dd)
-      : _M_k(__kk), _M_value(const_cast<_Tp&>(dd)) {}
+    _GLIBCXX_SIMD_INTRINSIC const_where_expression(const _M& __kk, const _Tp& __dd)
+      : _M_k(__kk), _M_value(const_cast<_Tp&>(__dd)) {}
 
     _GLIBCXX_SIMD_INTRINSIC _V
     operator-() const&&
@@ -3165,8 +3165,8 @@ template <typename _Tp>
     const_where_expression(const const_where_expression&) = delete;
     const_where_expression& operator=(const const_where_expression&) = delete;
 
-    _GLIBCXX_SIMD_INTRINSIC const_where_expression(const bool __kk, const _Tp& dd)
-      : _M_k(__kk), _M_value(const_cast<_Tp&>(dd)) {}
+    _GLIBCXX_SIMD_INTRINSIC const_where_expression(const bool __kk, const _Tp& __dd)
+      : _M_k(__kk), _M_value(const_cast<_Tp&>(__dd)) {}
 
     _GLIBCXX_SIMD_INTRINSIC _V operator-() const&&
     { return _M_k ? -_M_value : _M_value; }
@@ -3210,8 +3210,8 @@ template <typename _M, typename _Tp>
     where_expression(const where_expression&) = delete;
     where_expression& operator=(const where_expression&) = delete;
 
-    _GLIBCXX_SIMD_INTRINSIC where_expression(const _M& __kk, _Tp& dd)
-      : const_where_expression<_M, _Tp>(__kk, dd) {}
+    _GLIBCXX_SIMD_INTRINSIC where_expression(const _M& __kk, _Tp& __dd)
+      : const_where_expression<_M, _Tp>(__kk, __dd) {}
 
     template <typename _Up>
       _GLIBCXX_SIMD_INTRINSIC void operator=(_Up&& __x) &&
@@ -3298,8 +3298,8 @@ template <typename _Tp>
     where_expression(const where_expression&) = delete;
     where_expression& operator=(const where_expression&) = delete;
 
-    _GLIBCXX_SIMD_INTRINSIC where_expression(const _M& __kk, _Tp& dd)
-      : const_where_expression<_M, _Tp>(__kk, dd) {}
+    _GLIBCXX_SIMD_INTRINSIC where_expression(const _M& __kk, _Tp& __dd)
+      : const_where_expression<_M, _Tp>(__kk, __dd) {}
 
 #define _GLIBCXX_SIMD_OP_(__op)                                                \
     template <typename _Up>                                                    \
@@ -3579,10 +3579,10 @@ template <typename _Tp, typename _Ap>
   pair<simd<_Tp, _Ap>, simd<_Tp, _Ap>>
   minmax(const simd<_Tp, _Ap>& __a, const simd<_Tp, _Ap>& __b)
   {
-    const auto pair_of_members
+    const auto __pair_of_members
       = _Ap::_SimdImpl::_S_minmax(__data(__a), __data(__b));
-    return {simd<_Tp, _Ap>(__private_init, pair_of_members.first),
-	    simd<_Tp, _Ap>(__private_init, pair_of_members.second)};
+    return {simd<_Tp, _Ap>(__private_init, __pair_of_members.first),
+	    simd<_Tp, _Ap>(__private_init, __pair_of_members.second)};
   }
 
 template <typename _Tp, typename _Ap>
@@ -3609,7 +3609,7 @@ template <int _Index, int _Total, int _Combine = 1, typename _Tp, size_t _Np>
   _SimdWrapper<_Tp, _Np / _Total * _Combine>
   __extract_part(const _SimdWrapper<_Tp, _Np> __x);
 
-template <int Index, int Parts, int _Combine = 1, typename _Tp, typename _A0,
+template <int _Index, int _Parts, int _Combine = 1, typename _Tp, typename _A0,
 	  typename... _As>
   _GLIBCXX_SIMD_INTRINSIC auto
   __extract_part(const _SimdTuple<_Tp, _A0, _As...>& __x);
@@ -3722,19 +3722,19 @@ template <size_t... _Sizes, typename _Tp, typename... _As>
 
 // split<simd>(simd) {{{
 template <typename _V, typename _Ap,
-	  size_t Parts = simd_size_v<typename _V::value_type, _Ap> / _V::size()>
-  enable_if_t<simd_size_v<typename _V::value_type, _Ap> == Parts * _V::size()
-	      && is_simd_v<_V>, array<_V, Parts>>
+	  size_t _Parts = simd_size_v<typename _V::value_type, _Ap> / _V::size()>
+  enable_if_t<simd_size_v<typename _V::value_type, _Ap> == _Parts * _V::size()
+	      && is_simd_v<_V>, array<_V, _Parts>>
   split(const simd<typename _V::value_type, _Ap>& __x)
   {
     using _Tp = typename _V::value_type;
-    if constexpr (Parts == 1)
+    if constexpr (_Parts == 1)
       {
 	return {simd_cast<_V>(__x)};
       }
     else if (__x._M_is_constprop())
       {
-	return __generate_from_n_evaluations<Parts, array<_V, Parts>>([&](
+	return __generate_from_n_evaluations<_Parts, array<_V, _Parts>>([&](
 	  auto __i) constexpr {
 	  return _V([&](auto __j) constexpr {
 	    return __x[__i * _V::size() + __j];
@@ -3752,13 +3752,13 @@ template <typename _V, typename _Ap,
 #ifdef _GLIBCXX_SIMD_USE_ALIASING_LOADS
       const __may_alias<_Tp>* const __element_ptr
 	= reinterpret_cast<const __may_alias<_Tp>*>(&__data(__x));
-      return __generate_from_n_evaluations<Parts, array<_V, Parts>>([&](
+      return __generate_from_n_evaluations<_Parts, array<_V, _Parts>>([&](
 	auto __i) constexpr {
 	return _V(__element_ptr + __i * _V::size(), vector_aligned);
       });
 #else
       const auto& __xx = __data(__x);
-      return __generate_from_n_evaluations<Parts, array<_V, Parts>>([&](
+      return __generate_from_n_evaluations<_Parts, array<_V, _Parts>>([&](
 	auto __i) constexpr {
 	[[maybe_unused]] constexpr size_t __offset
 	  = decltype(__i)::value * _V::size();
@@ -3772,12 +3772,12 @@ template <typename _V, typename _Ap,
   else if constexpr (is_same_v<typename _V::abi_type, simd_abi::scalar>)
     {
       // normally memcpy should work here as well
-      return __generate_from_n_evaluations<Parts, array<_V, Parts>>([&](
+      return __generate_from_n_evaluations<_Parts, array<_V, _Parts>>([&](
 	auto __i) constexpr { return __x[__i]; });
     }
   else
     {
-      return __generate_from_n_evaluations<Parts, array<_V, Parts>>([&](
+      return __generate_from_n_evaluations<_Parts, array<_V, _Parts>>([&](
 	auto __i) constexpr {
 	if constexpr (__is_fixed_size_abi_v<typename _V::abi_type>)
 	  return _V([&](auto __j) constexpr {
@@ -3785,7 +3785,7 @@ template <typename _V, typename _Ap,
 	  });
 	else
 	  return _V(__private_init,
-		    __extract_part<decltype(__i)::value, Parts>(__data(__x)));
+		    __extract_part<decltype(__i)::value, _Parts>(__data(__x)));
       });
     }
   }
@@ -4343,8 +4343,8 @@ template <typename _Tp, typename _Abi>
     // interface with other facilities. I suggest adding `static
     // simd_mask::from_bitset` and `simd_mask::to_bitset`.
     _GLIBCXX_SIMD_ALWAYS_INLINE static simd_mask
-    __from_bitset(bitset<size()> bs)
-    { return {__bitset_init, bs}; }
+    __from_bitset(bitset<size()> __bs)
+    { return {__bitset_init, __bs}; }
 
     _GLIBCXX_SIMD_ALWAYS_INLINE bitset<size()>
     __to_bitset() const
diff --git a/experimental/bits/simd_debug.h b/experimental/bits/simd_debug.h
index 08bcf25..3311b43 100644
--- a/experimental/bits/simd_debug.h
+++ b/experimental/bits/simd_debug.h
@@ -179,7 +179,7 @@ private:
     __buffer << '}';
   }
 
-  static char hexChar(char __x) { return __x + (__x > 9 ? 87 : 48); }
+  static char __hex_char(char __x) { return __x + (__x > 9 ? 87 : 48); }
   template <typename _Tp> void __print(const _Tp& __x, ...)
   {
     __buffer.put(' ');
@@ -192,8 +192,8 @@ private:
 	  {
 	    __buffer.put('\'');
 	  }
-	__buffer.put(hexChar(__b >> 4));
-	__buffer.put(hexChar(__b & 0xf));
+	__buffer.put(__hex_char(__b >> 4));
+	__buffer.put(__hex_char(__b & 0xf));
       }
   }
 };
diff --git a/experimental/bits/simd_fixed_size.h b/experimental/bits/simd_fixed_size.h
index 1cd308a..ec37c6f 100644
--- a/experimental/bits/simd_fixed_size.h
+++ b/experimental/bits/simd_fixed_size.h
@@ -600,8 +600,8 @@ template <typename _Tp, typename _Abi0, typename... _Abis>
 #else
 	  if constexpr (__is_scalar_abi<_Abi0>())
 	    {
-	      const _Tp* ptr = &first;
-	      return ptr[__i];
+	      const _Tp* __ptr = &first;
+	      return __ptr[__i];
 	    }
 	  else
 	    return __i < simd_size_v<_Tp, _Abi0>
@@ -983,9 +983,9 @@ template <int _Index, int _Total, int _Combine, typename _Tp, typename _A0,
     else if constexpr (__return_size > _Tuple::_S_first_size - __values_to_skip)
       {
 #ifdef _GLIBCXX_SIMD_USE_ALIASING_LOADS
-	const __may_alias<_Tp>* const element_ptr
+	const __may_alias<_Tp>* const __element_ptr
 	  = reinterpret_cast<const __may_alias<_Tp>*>(&__x) + __values_to_skip;
-	return __as_vector(simd<_Tp, _RetAbi>(element_ptr, element_aligned));
+	return __as_vector(simd<_Tp, _RetAbi>(__element_ptr, element_aligned));
 #else
 	[[maybe_unused]] constexpr size_t __offset = __values_to_skip;
 	return __as_vector(simd<_Tp, _RetAbi>([&](auto __i) constexpr {
@@ -1102,7 +1102,7 @@ template <typename _Tp, bool = is_arithmetic_v<__remove_cvref_t<_Tp>>>
       return &_M_data;
     }
 
-    constexpr inline __autocvt_to_simd(_Tp dd) : _M_data(dd) {}
+    constexpr inline __autocvt_to_simd(_Tp __dd) : _M_data(__dd) {}
 
     template <typename _Abi>
       operator simd<typename _TT::value_type, _Abi>()
@@ -1133,7 +1133,7 @@ template <typename _Tp>
     _Tp _M_data;
     fixed_size_simd<_TT, 1> _M_fd;
 
-    constexpr inline __autocvt_to_simd(_Tp dd) : _M_data(dd), _M_fd(_M_data) {}
+    constexpr inline __autocvt_to_simd(_Tp __dd) : _M_data(__dd), _M_fd(_M_data) {}
 
     ~__autocvt_to_simd()
     { _M_data = __data(_M_fd).first; }
@@ -1251,7 +1251,7 @@ template <int _Np>
 	struct _SimdCastType
 	{
 	  _SimdCastType(const array<_Tp, _Np>&);
-	  _SimdCastType(const _SimdMember& dd) : _M_data(dd) {}
+	  _SimdCastType(const _SimdMember& __dd) : _M_data(__dd) {}
 	  explicit operator const _SimdMember &() const { return _M_data; }
 
 	private:
diff --git a/experimental/bits/simd_math.h b/experimental/bits/simd_math.h
index 1d08f14..69f1047 100644
--- a/experimental/bits/simd_math.h
+++ b/experimental/bits/simd_math.h
@@ -417,16 +417,16 @@ template <typename _Tp, typename _Abi>
 
 // }}}
 // __impl_or_fallback {{{
-template <typename ImplFun, typename FallbackFun, typename... _Args>
+template <typename _ImplFun, typename _FallbackFun, typename... _Args>
   _GLIBCXX_SIMD_INTRINSIC auto
-  __impl_or_fallback_dispatch(int, ImplFun&& __impl_fun, FallbackFun&&,
+  __impl_or_fallback_dispatch(int, _ImplFun&& __impl_fun, _FallbackFun&&,
 			      _Args&&... __args)
     -> decltype(__impl_fun(static_cast<_Args&&>(__args)...))
   { return __impl_fun(static_cast<_Args&&>(__args)...); }
 
-template <typename ImplFun, typename FallbackFun, typename... _Args>
+template <typename _ImplFun, typename _FallbackFun, typename... _Args>
   inline auto
-  __impl_or_fallback_dispatch(float, ImplFun&&, FallbackFun&& __fallback_fun,
+  __impl_or_fallback_dispatch(float, _ImplFun&&, _FallbackFun&& __fallback_fun,
 			      _Args&&... __args)
     -> decltype(__fallback_fun(static_cast<_Args&&>(__args)...))
   { return __fallback_fun(static_cast<_Args&&>(__args)...); }
@@ -791,7 +791,7 @@ template <typename _Tp, typename _Abi>
 
 	// work on abs(__x) to reflect the return value on Linux for negative
 	// inputs (domain-error => implementation-defined value is returned)
-	const _V abs_x = abs(__x);
+	const _V __abs_x = abs(__x);
 
 	// __exponent(__x) returns the exponent value (bias removed) as
 	// simd<_Up> with integral _Up
@@ -802,7 +802,7 @@ template <typename _Tp, typename _Abi>
 	  return (__bit_cast<_IV>(__v) >> (__digits_v<_Tp> - 1))
 		 - (__max_exponent_v<_Tp> - 1);
 	};
-	_V __r = static_simd_cast<_V>(__exponent(abs_x));
+	_V __r = static_simd_cast<_V>(__exponent(__abs_x));
 	if (_GLIBCXX_SIMD_IS_LIKELY(all_of(__is_normal)))
 	  // without corner cases (nan, inf, subnormal, zero) we have our
 	  // answer:
@@ -820,7 +820,7 @@ template <typename _Tp, typename _Abi>
 	// subnormals repeat the exponent extraction after multiplication of the
 	// input with __a floating point value that has 112 (0x70) in its exponent
 	// (not too big for sp and large enough for dp)
-	const _V __scaled = abs_x * _Tp(0x1p112);
+	const _V __scaled = __abs_x * _Tp(0x1p112);
 	_V __scaled_exp = static_simd_cast<_V>(__exponent(__scaled) - 112);
 	where(__is_normal, __scaled_exp) = __r;
 	return __scaled_exp;
@@ -1474,10 +1474,10 @@ template <typename _Tp, typename _Abi>
   enable_if_t<is_floating_point_v<_Tp>, simd<_Tp, _Abi>>
   sph_legendre(const fixed_size_simd<unsigned, simd_size_v<_Tp, _Abi>>& __l,
 	       const fixed_size_simd<unsigned, simd_size_v<_Tp, _Abi>>& __m,
-	       const simd<_Tp, _Abi>& theta)
+	       const simd<_Tp, _Abi>& __theta)
   {
     return simd<_Tp, _Abi>([&](auto __i) {
-      return std::sph_legendre(__l[__i], __m[__i], theta[__i]);
+      return std::sph_legendre(__l[__i], __m[__i], __theta[__i]);
     });
   }
 
diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 694650b..813b4dc 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1914,44 +1914,44 @@ template <typename _Abi>
 	      // the following uses vpsr[al]vd, which requires AVX2
 	      if constexpr (is_signed_v<_Up>)
 		{
-		  const auto r3 = __vector_bitcast<_UInt>(
+		  const auto __r3 = __vector_bitcast<_UInt>(
 				    (__vector_bitcast<int>(__x)
 				     >> (__vector_bitcast<_UInt>(__y) >> 24)))
 				  & 0xff000000u;
-		  const auto r2
+		  const auto __r2
 		    = __vector_bitcast<_UInt>(
 			((__vector_bitcast<int>(__x) << 8)
 			 >> ((__vector_bitcast<_UInt>(__y) << 8) >> 24)))
 		      & 0xff000000u;
-		  const auto r1
+		  const auto __r1
 		    = __vector_bitcast<_UInt>(
 			((__vector_bitcast<int>(__x) << 16)
 			 >> ((__vector_bitcast<_UInt>(__y) << 16) >> 24)))
 		      & 0xff000000u;
-		  const auto r0 = __vector_bitcast<_UInt>(
+		  const auto __r0 = __vector_bitcast<_UInt>(
 		    (__vector_bitcast<int>(__x) << 24)
 		    >> ((__vector_bitcast<_UInt>(__y) << 24) >> 24));
-		  return __vector_bitcast<_Up>(r3 | (r2 >> 8) | (r1 >> 16)
-					       | (r0 >> 24));
+		  return __vector_bitcast<_Up>(__r3 | (__r2 >> 8) | (__r1 >> 16)
+					       | (__r0 >> 24));
 		}
 	      else
 		{
-		  const auto r3 = (__vector_bitcast<_UInt>(__x)
+		  const auto __r3 = (__vector_bitcast<_UInt>(__x)
 				   >> (__vector_bitcast<_UInt>(__y) >> 24))
 				  & 0xff000000u;
-		  const auto r2
+		  const auto __r2
 		    = ((__vector_bitcast<_UInt>(__x) << 8)
 		       >> ((__vector_bitcast<_UInt>(__y) << 8) >> 24))
 		      & 0xff000000u;
-		  const auto r1
+		  const auto __r1
 		    = ((__vector_bitcast<_UInt>(__x) << 16)
 		       >> ((__vector_bitcast<_UInt>(__y) << 16) >> 24))
 		      & 0xff000000u;
-		  const auto r0
+		  const auto __r0
 		    = (__vector_bitcast<_UInt>(__x) << 24)
 		      >> ((__vector_bitcast<_UInt>(__y) << 24) >> 24);
-		  return __vector_bitcast<_Up>(r3 | (r2 >> 8) | (r1 >> 16)
-					       | (r0 >> 24));
+		  return __vector_bitcast<_Up>(__r3 | (__r2 >> 8) | (__r1 >> 16)
+					       | (__r0 >> 24));
 		}
 	    else if constexpr (__have_sse4_1
 			       && is_unsigned_v<_Up> && sizeof(__x) > 2)
@@ -3107,16 +3107,16 @@ template <typename _Abi>
 	else if constexpr (__is_avx512_abi<_Abi>())
 	  {
 	    using _I = __int_for_sizeof_t<_Tp>;
-	    const auto absn = __vector_bitcast<_I>(_S_abs(__x));
-	    const auto minn = __vector_bitcast<_I>(
+	    const auto __absn = __vector_bitcast<_I>(_S_abs(__x));
+	    const auto __minn = __vector_bitcast<_I>(
 	      __vector_broadcast<_Np>(__norm_min_v<_Tp>));
 #if __FINITE_MATH_ONLY__
-	    return _S_less_equal<_I, _Np>(minn, absn);
+	    return _S_less_equal<_I, _Np>(__minn, __absn);
 #else
-	  const auto infn
+	  const auto __infn
 	    = __vector_bitcast<_I>(__vector_broadcast<_Np>(__infinity_v<_Tp>));
-	  return __and(_S_less_equal<_I, _Np>(minn, absn),
-		       _S_less<_I, _Np>(absn, infn));
+	  return __and(_S_less_equal<_I, _Np>(__minn, __absn),
+		       _S_less<_I, _Np>(__absn, __infn));
 #endif
 	  }
 	else
diff --git a/experimental/bits/simd_x86_conversions.h b/experimental/bits/simd_x86_conversions.h
index bddc8d2..07cf535 100644
--- a/experimental/bits/simd_x86_conversions.h
+++ b/experimental/bits/simd_x86_conversions.h
@@ -1050,10 +1050,10 @@ template <typename _To, typename _V, typename _Traits>
 	// handle all zero extension{{{2
 	if constexpr (2 * _Np < _M && sizeof(_To) > 16)
 	  {
-	    constexpr size_t Min = 16 / sizeof(_Up);
+	    constexpr size_t _Min = 16 / sizeof(_Up);
 	    return __zero_extend(
 	      __convert_x86<
-		__vector_type_t<_Up, (Min > 2 * _Np) ? Min : 2 * _Np>>(__v0,
+		__vector_type_t<_Up, (_Min > 2 * _Np) ? _Min : 2 * _Np>>(__v0,
 								       __v1));
 	  }
 	else if constexpr (__i64_to_i32) //{{{2
@@ -1204,13 +1204,13 @@ template <typename _To, typename _V, typename _Traits>
 	  {
 	    if constexpr (__x_to_x && __have_ssse3)
 	      {
-		const auto shufmask
+		const auto __shufmask
 		  = _mm_setr_epi8(0, 4, 8, 12, -0x80, -0x80, -0x80, -0x80,
 				  -0x80, -0x80, -0x80, -0x80, -0x80, -0x80,
 				  -0x80, -0x80);
 		return __intrin_bitcast<_To>(
-		  _mm_unpacklo_epi32(_mm_shuffle_epi8(__i0, shufmask),
-				     _mm_shuffle_epi8(__i1, shufmask)));
+		  _mm_unpacklo_epi32(_mm_shuffle_epi8(__i0, __shufmask),
+				     _mm_shuffle_epi8(__i1, __shufmask)));
 	      }
 	    else if constexpr (__x_to_x)
 	      {
@@ -1602,10 +1602,10 @@ template <typename _To, typename _V, typename _Traits>
 	// handle all zero extension{{{2
 	if constexpr (4 * _Np < _M && sizeof(_To) > 16)
 	  {
-	    constexpr size_t Min = 16 / sizeof(_Up);
+	    constexpr size_t _Min = 16 / sizeof(_Up);
 	    return __zero_extend(
 	      __convert_x86<
-		__vector_type_t<_Up, (Min > 4 * _Np) ? Min : 4 * _Np>>(
+		__vector_type_t<_Up, (_Min > 4 * _Np) ? _Min : 4 * _Np>>(
 		__v0, __v1, __v2, __v3));
 	  }
 	else if constexpr (__i64_to_i16) //{{{2
-- 
2.43.0


From c0c3a46eb2ef9629b08ec7e0d9e331aa555ee697 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:00:44 +0000
Subject: [PATCH 20/25] fix: where(mask, simd_mask) &=, |= and ^= did not
 compile

---
 experimental/bits/simd.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 7c67869..5b19073 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -3225,12 +3225,17 @@ template <typename _M, typename _Tp>
   template <typename _Up>                                                      \
     _GLIBCXX_SIMD_INTRINSIC void operator __op##=(_Up&& __x)&&                 \
     {                                                                          \
-      _Impl::template _S_masked_cassign(                                       \
-	__data(_M_k), __data(_M_value),                                        \
-	__to_value_type_or_member_type<_Tp>(static_cast<_Up&&>(__x)),          \
-	[](auto __impl, auto __lhs, auto __rhs) constexpr {                    \
-	return __impl.__name(__lhs, __rhs);                                    \
-	});                                                                    \
+      if constexpr (is_simd_mask<_Tp>::value)                                  \
+	_Impl::_S_masked_assign(                                               \
+	  __data(_M_k), __data(_M_value),                                      \
+	  __data(_Tp(_M_value __op static_cast<_Up&&>(__x))));                 \
+      else                                                                     \
+	_Impl::template _S_masked_cassign(                                     \
+	  __data(_M_k), __data(_M_value),                                      \
+	  __to_value_type_or_member_type<_Tp>(static_cast<_Up&&>(__x)),        \
+	  [](auto __impl, auto __lhs, auto __rhs) constexpr {                  \
+	  return __impl.__name(__lhs, __rhs);                                  \
+	  });                                                                  \
     }                                                                          \
   static_assert(true)
     _GLIBCXX_SIMD_OP_(+, _S_plus);
-- 
2.43.0


From a960e26bf5a8a7e6133846c19a3b550b4e3141a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:36 +0000
Subject: [PATCH 21/25] fix: integer division with -ffast-math without AVX read
 an uninitialized register

---
 experimental/bits/simd_x86.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 813b4dc..6dfcab4 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -1449,11 +1449,11 @@ template <typename _Abi>
 		      __r = __xf[__i];
 		      if constexpr (sizeof(_Tp) == 4)
 			asm("divpd\t{%1, %0|%0, %1}"
-			    : "=x"(__r)
+			    : "+x"(__r)
 			    : "x"(__yf[__i]));
 		      else
 			asm("divps\t{%1, %0|%0, %1}"
-			    : "=x"(__r)
+			    : "+x"(__r)
 			    : "x"(__yf[__i]));
 		    }
 		  return __r;
-- 
2.43.0


From 5ee4912067ef8909b89da48ed2af6baa171990d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:00 +0000
Subject: [PATCH 22/25] fix: popcount of a 256-bit mask returned nothing
 without the popcnt instruction

---
 experimental/bits/simd_x86.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/bits/simd_x86.h b/experimental/bits/simd_x86.h
index 6dfcab4..081611f 100644
--- a/experimental/bits/simd_x86.h
+++ b/experimental/bits/simd_x86.h
@@ -5126,7 +5126,7 @@ template <typename _Abi>
 		// use a summation
 		using _I = __int_for_sizeof_t<_Tp>;
 		const auto __as_int = __vector_bitcast<_I>(__kk);
-		_MaskImplX86<simd_abi::__sse>::_S_popcount(
+		return _MaskImplX86<simd_abi::__sse>::_S_popcount(
 		  simd_mask<_I, simd_abi::__sse>(__private_init,
 						 __lo128(__as_int)
 						   + __hi128(__as_int)));
-- 
2.43.0


From ebbaa4163906a13057e2aeaf5a2f0bc4a40f5612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:44 +0000
Subject: [PATCH 23/25] fix: the number of digits of bool was 8, not 1

---
 experimental/bits/numeric_traits.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/experimental/bits/numeric_traits.h b/experimental/bits/numeric_traits.h
index 1b60874..b4c260e 100644
--- a/experimental/bits/numeric_traits.h
+++ b/experimental/bits/numeric_traits.h
@@ -43,6 +43,10 @@ template <typename _Tp>
       = sizeof(_Tp) * __CHAR_BIT__ - is_signed_v<_Tp>;
   };
 
+template <>
+  struct __digits_impl<bool, true>
+  { static inline constexpr int value = 1; };
+
 template <>
   struct __digits_impl<float, true>
   { static inline constexpr int value = __FLT_MANT_DIG__; };
-- 
2.43.0


From b9aae14c7e29df1dea5c3dd1d5fc069f627a8500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:34 +0000
Subject: [PATCH 24/25] fix: a fixed_size simd could not be constructed from
 std::array

The parameter type of the constructor declared the conversion from array
without defining it, and the simd constructor passed that type on to
_SimdTuple, which took it for its first register.
---
 experimental/bits/simd.h            | 3 ++-
 experimental/bits/simd_fixed_size.h | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/experimental/bits/simd.h b/experimental/bits/simd.h
index 5b19073..5855b31 100644
--- a/experimental/bits/simd.h
+++ b/experimental/bits/simd.h
@@ -5075,7 +5075,8 @@ template <typename _Tp, typename _Abi>
 
     // access to internal representation (suggested extension)
     _GLIBCXX_SIMD_ALWAYS_INLINE explicit _GLIBCXX_SIMD_CONSTEXPR
-    simd(_CastType __init) : _M_data(__init) {}
+    simd(_CastType __init)
+    : _M_data(static_cast<const _MemberType&>(__init)) {}
 
     // compound assignment [simd.cassign]
     _GLIBCXX_SIMD_ALWAYS_INLINE _GLIBCXX_SIMD_CONSTEXPR friend simd&
diff --git a/experimental/bits/simd_fixed_size.h b/experimental/bits/simd_fixed_size.h
index ec37c6f..48051f3 100644
--- a/experimental/bits/simd_fixed_size.h
+++ b/experimental/bits/simd_fixed_size.h
@@ -1250,12 +1250,13 @@ template <int _Np>
 	// _SimdCastType {{{
 	struct _SimdCastType
 	{
-	  _SimdCastType(const array<_Tp, _Np>&);
+	  _SimdCastType(const array<_Tp, _Np>& __x) : _M_data()
+	  { __builtin_memcpy(&_M_data, __x.data(), sizeof(__x)); }
 	  _SimdCastType(const _SimdMember& __dd) : _M_data(__dd) {}
-	  explicit operator const _SimdMember &() const { return _M_data; }
+	  operator const _SimdMember &() const { return _M_data; }
 
 	private:
-	  const _SimdMember& _M_data;
+	  _SimdMember _M_data;
 	};
 
 	// }}}
-- 
2.43.0


From d8ba87b656d94839d1f69bdbc28d9a54a4226dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:34 +0000
Subject: [PATCH 25/25] fix: explicit conversions to and from native vectors
 did not compile

The conversion of an integral simd to its vector type named a member that does
not exist, as did the conversions of masks; floating-point and AVX-512 masks
were not converted between representations; and partially filled registers
were given a vector of the wrong width.
---
 experimental/bits/simd_builtin.h | 37 +++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/experimental/bits/simd_builtin.h b/experimental/bits/simd_builtin.h
index d9cdcbd..df50627 100644
--- a/experimental/bits/simd_builtin.h
+++ b/experimental/bits/simd_builtin.h
@@ -829,7 +829,7 @@ template <typename _Tp, typename _Mp, typename _Abi, size_t _Np>
       }
       explicit operator __vector_type_t<_Tp, _Np>() const
       {
-	return static_cast<const simd<_Tp, _Abi>*>(this)->_M_data.__builtin();
+	return static_cast<const simd<_Tp, _Abi>*>(this)->_M_data._M_data;
       }
     };
 
@@ -849,19 +849,29 @@ template <typename _Tp, typename _Mp, typename _Abi, size_t _Np>
     {
       explicit operator __intrinsic_type_t<_Tp, _Np>() const
       {
-	return static_cast<const simd_mask<_Tp, _Abi>*>(this)
-	  ->_M_data.__intrin();
+	return __intrin_bitcast<__intrinsic_type_t<_Tp, _Np>>(
+	  _MaskImpl::template _S_to_maskvector<__int_for_sizeof_t<_Tp>>(
+	    static_cast<const simd_mask<_Tp, _Abi>*>(this)->_M_data)
+	    ._M_data);
       }
       explicit operator __vector_type_t<_Tp, _Np>() const
       {
-	return static_cast<const simd_mask<_Tp, _Abi>*>(this)->_M_data._M_data;
+	return __vector_bitcast<_Tp>(
+	  _MaskImpl::template _S_to_maskvector<__int_for_sizeof_t<_Tp>>(
+	    static_cast<const simd_mask<_Tp, _Abi>*>(this)->_M_data)
+	    ._M_data);
       }
     };
 
     struct _MaskBase1
     {
       explicit operator __intrinsic_type_t<_Tp, _Np>() const
-      { return __data(*static_cast<const simd_mask<_Tp, _Abi>*>(this)); }
+      {
+	return __intrin_bitcast<__intrinsic_type_t<_Tp, _Np>>(
+	  _MaskImpl::template _S_to_maskvector<__int_for_sizeof_t<_Tp>>(
+	    static_cast<const simd_mask<_Tp, _Abi>*>(this)->_M_data)
+	    ._M_data);
+      }
     };
 
     using _MaskBase = conditional_t<
@@ -878,7 +888,16 @@ template <typename _Tp, typename _Mp, typename _Abi, size_t _Np>
 
     public:
       _MaskCastType(_Up __x) : _M_data(__x) {}
-      operator _MaskMember() const { return _M_data; }
+      operator _MaskMember() const
+      {
+	using _Ip = __int_for_sizeof_t<_Tp>;
+	const _SimdWrapper<_Ip, _Np> __k(
+	  __intrin_bitcast<__vector_type_t<_Ip, _Np>>(_M_data));
+	if constexpr (is_same_v<_Mp, bool>)
+	  return _MaskImpl::_S_to_bits(__k)._M_to_bits();
+	else
+	  return __k;
+      }
     };
 
     // }}}
@@ -890,7 +909,8 @@ template <typename _Tp, typename _Mp, typename _Abi, size_t _Np>
       _SimdMember _M_data;
 
     public:
-      _SimdCastType1(_Ap __a) : _M_data(__vector_bitcast<_Tp>(__a)) {}
+      _SimdCastType1(_Ap __a)
+      : _M_data(__intrin_bitcast<__vector_type_t<_Tp, _Np>>(__a)) {}
       operator _SimdMember() const { return _M_data; }
     };
 
@@ -901,7 +921,8 @@ template <typename _Tp, typename _Mp, typename _Abi, size_t _Np>
       _SimdMember _M_data;
 
     public:
-      _SimdCastType2(_Ap __a) : _M_data(__vector_bitcast<_Tp>(__a)) {}
+      _SimdCastType2(_Ap __a)
+      : _M_data(__intrin_bitcast<__vector_type_t<_Tp, _Np>>(__a)) {}
       _SimdCastType2(_B __b) : _M_data(__b) {}
       operator _SimdMember() const { return _M_data; }
     };
-- 
2.43.0

