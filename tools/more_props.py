prop('P07', 'Masked (where) operations act on the selected lanes and elements only',
     'where(k, v) with =, every compound assignment (including <<= and >>=), ++, --, unary -, copy_from and copy_to, for vector, mask and bool '
     'operands, changes exactly the lanes with k[i] to the scalar result, leaves every other lane as it was, and reads or writes no memory '
     'belonging to an unselected element.',
     IC, CFG + '; every mask value, every element conversion of the masked memory operations.',
     TEST % 'masked operations, whose x86 forms (blends, maskmov, AVX-512 masking) differ per type and level, are never run.',
     ['experimental/bits/simd.h', B + 'simd_builtin.h', B + 'simd_x86.h', B + 'simd_fixed_size.h', B + 'simd_scalar.h'],
     [('where expressions', B + 'simd.h (const_where_expression, where_expression)'),
      ('masked assignment and unary', B + 'simd_builtin.h (_S_masked_assign, _S_masked_cassign, _S_masked_unary)'),
      ('masked memory access', B + 'simd_x86.h (_S_masked_load, _S_masked_store_nocvt), ' + B + 'simd_builtin.h (_S_masked_store)')])
prop('P08', 'Casts keep the number of elements and convert each element by value',
     'static_simd_cast, simd_cast, implicit conversions between fixed_size vectors, to_fixed_size, to_native and to_compatible give a vector whose '
     'element i is the scalar conversion of element i of the operand, whatever register layouts are on either side; resizing_simd_cast keeps '
     'the common leading elements and value-initialises the rest. Converting there and back through a wider type is the identity.',
     IC, CFG + ', on both sides of the cast; every value for which the scalar conversion is defined.',
     TEST % 'conversions built from several differently sized registers (pack/unpack, split, concatenate) are never run.',
     ['experimental/bits/simd.h', B + 'simd_builtin.h', B + 'simd_x86_conversions.h', B + 'simd_fixed_size.h', B + 'simd_converter.h', B + 'simd_math.h'],
     [('cast functions', B + 'simd.h (static_simd_cast, simd_cast, to_fixed_size, to_native, resizing_simd_cast)'),
      ('conversion between storage layouts', B + 'simd_converter.h (_SimdConverter)'),
      ('register conversions', B + 'simd_builtin.h (__vector_convert), ' + B + 'simd_x86_conversions.h (__convert_x86)')])
prop('P09', 'split and concat partition and join the elements in order',
     'split into sizes, into equal parts or into scalars (vectors and masks) gives consecutive parts holding exactly the elements of the operand in '
     'order; concat of vectors of any sizes, or of an array of vectors, holds the elements of its arguments in order; concat of a split is the '
     'original value.',
     IC, CFG + '; every partition into parts the library accepts, including parts that begin or end inside a register.',
     TEST % 'splits and concatenations that cross register boundaries or start inside one are never run.',
     ['experimental/bits/simd.h', B + 'simd_builtin.h', B + 'simd_fixed_size.h'],
     [('split', B + 'simd.h (split, __split_wrapper, __extract_part)'), ('concat', B + 'simd.h (concat, __store_pack_of_simd, __concat_from_fixed_size)'),
      ('register part extraction', B + 'simd_builtin.h (__extract_part, __concat, __zero_extend)')])
prop('P10', 'Mask reductions count and locate exactly the true lanes',
     'all_of, any_of, none_of and some_of of a mask say whether all, at least one, no, or some but not all lanes are true; popcount is the number of '
     'true lanes; find_first_set and find_last_set give the smallest and largest index of a true lane (a true lane exists). They do so for masks '
     'loaded from memory, produced by comparisons, or combined by mask operators, and for plain bool.',
     IC, 'every mask value of every element type, width/ABI tag and instruction-set level.',
     TEST % 'a reduction that looks at padding lanes, or counts bits instead of lanes, is invisible to it.',
     ['experimental/bits/simd.h', B + 'simd_builtin.h', B + 'simd_x86.h', B + 'simd_fixed_size.h', B + 'simd_scalar.h'],
     [('vector-mask and bit-mask reductions', B + 'simd_x86.h (_MaskImplX86::_S_all_of, _S_any_of, _S_none_of, _S_some_of, _S_popcount, _S_find_first_set, _S_find_last_set)'),
      ('movemask and test intrinsics', B + 'simd_x86.h (__movmsk_x86 helpers, __is_zero / __testz)'), ('generic reductions', B + 'simd_builtin.h (_MaskImplBuiltin)')])
prop('P11', 'Reductions combine every (selected) element exactly once',
     'reduce(v, op) for plus, multiplies, bit_and, bit_or, bit_xor and user function objects, and hmin/hmax, combine all elements of v, each exactly '
     'once, in some order and grouping (for float, up to the sign of a zero sum); the masked forms combine exactly the selected elements, and give '
     'the identity element when none is selected.',
     IC, 'every element value (NaN excluded for hmin/hmax) and every mask, for every element type, ABI and target.',
     TEST % 'a dropped, doubled or padding element in one of the halving steps is invisible to it.',
     ['experimental/bits/simd.h', B + 'simd_builtin.h', B + 'simd_x86.h', B + 'simd_fixed_size.h'],
     [('halving by permutation', B + 'simd_builtin.h (_SimdImplBuiltin::_S_reduce)'), ('tuple-wise reduction', B + 'simd_fixed_size.h (_SimdImplFixedSize::_S_reduce)'),
      ('masked reductions', B + 'simd.h (reduce, hmin, hmax on const_where_expression)')],
     note=NOTE + ' Operations are compared modulo associativity and commutativity; masked forms of more than 8 (thorough: 16) lanes are left to the narrower '
     'configurations, which instantiate the same code.')
prop('P12', 'min, max, minmax and clamp are element-wise',
     'min(a, b), max(a, b), both halves of minmax(a, b) and clamp(v, lo, hi) with lo <= hi hold in lane i the minimum, the maximum, or the bounded '
     'value of the lanes i of the operands (for float: no NaN, up to the sign of zero), for every ABI tag, including scalar and fixed_size.',
     IC, CFG + '; also with one operand constant.', TEST % 'an unsigned minimum computed with a signed comparison, or swapped bounds, are invisible to it.',
     ['experimental/bits/simd.h', B + 'simd_builtin.h', B + 'simd_fixed_size.h', B + 'simd_scalar.h'],
     [('the algorithms', B + 'simd.h (min, max, minmax, clamp)'), ('per-register minimum/maximum', B + 'simd_builtin.h (_S_min, _S_max, _S_minmax)'),
      ('tuple-wise application', B + 'simd_fixed_size.h (_S_min, _S_max, _S_minmax)')])
prop('P13', 'Mask conversions keep each element; growing adds false ones',
     'Every mask conversion (static_simd_cast, resizing_simd_cast, implicit fixed_size conversion, __cvt, to_fixed_size, to_native, to_compatible, '
     '__to_bitset/__from_bitset) gives a mask whose element i equals element i of the source; elements that a larger target has beyond the source are false; '
     'padding of the source, whatever it holds, never shows.',
     IC, 'every mask value, including masks computed by comparisons and negation in partially filled registers; every pair of source and target ABI and element size.',
     TEST % 'a half of a widened register left undefined usually holds zeros in a small test, and padding of a compare result is set only for equal padding.',
     ['experimental/bits/simd.h', B + 'simd_builtin.h', B + 'simd_x86.h', B + 'simd_fixed_size.h', B + 'simd_scalar.h'],
     [('the casts', B + 'simd.h (static_simd_cast, resizing_simd_cast on simd_mask, to_fixed_size, to_native, to_compatible)'),
      ('vector mask width changes', B + 'simd_x86.h (_MaskImplX86Mixin::_S_to_maskvector, _S_to_bits)'), ('generic conversions', B + 'simd_builtin.h (_MaskImplBuiltin::_S_convert, _MaskImplBuiltinMixin)')])
prop('P22', 'Padding of partially filled registers never shows, traps or touches memory',
     'For a simd or simd_mask whose register has more elements than size(), the results of every operation, the set of bytes it reads or writes and whether '
     'it can trap are independent of the padding elements, whatever bit pattern they hold: integer division of nonzero divisors never divides by zero padding, '
     'masked loads and stores never access memory beyond the object, mask and value reductions ignore padding, shifts, comparisons, casts and split/concat do not let it through.',
     IC, 'every bit pattern of the padding of every operand, for vectors and masks of 3, 5, 7 and 12 elements in every kind of register and mask (vector and bit masks).',
     TEST % 'padding normally holds zeros or copies there, and where(a == b, v).copy_to(p) writes one element too many only when the padding of a and b compares equal.',
     ['experimental/bits/simd.h', B + 'simd_builtin.h', B + 'simd_x86.h'],
     [('padding-aware operations', B + 'simd_builtin.h (_S_masked, __make_padding_nonzero, _S_implicit_mask)'), ('masked memory access', B + 'simd.h (const_where_expression::copy_to, copy_from), ' + B + 'simd_x86.h'),
      ('reductions and searches', B + 'simd_builtin.h (_S_reduce, _S_popcount, _S_find_last_set), ' + B + 'simd_x86.h')],
     note=NOTE + ' The operands are built byte-wise with free padding; results and accesses are compared with the scalar definition, so no padding variable may occur in them.')
FCFG = 'every lane value (every NaN, infinity, subnormal and zero), for float and double, for native, scalar, fixed_size and deduced ABI tags and every target from SSE2 to AVX-512'
prop('P14', 'Exact <cmath> functions give the scalar result in every lane',
     'The simd overloads of trunc, floor, ceil, nearbyint, rint, round, lrint, llrint, lround, llround, sqrt, fabs, abs, fma, fmod, remainder, fdim, fmin, fmax, '
     'copysign, nextafter, ilogb, fpclassify, isfinite, isinf, isnan, isnormal, signbit, isgreater, isgreaterequal, isless, islessequal, islessgreater and '
     'isunordered give in lane i what the C++ function gives for the lanes i of the operands (rounding functions up to the sign of a zero result), also '
     'when one operand is a scalar; no lane depends on another.',
     IC, FCFG + '.', TEST % 'a rounding shortcut that breaks at 2^23 or 0.49999997, or a class test that confuses subnormals with zero in one lane, is invisible to it.',
     [B + 'simd_math.h', B + 'simd_x86.h', B + 'simd_builtin.h', B + 'simd_fixed_size.h', B + 'simd_scalar.h'],
     [('overload set and argument conversion', B + 'simd_math.h (_GLIBCXX_SIMD_MATH_CALL_ macros)'), ('classification without SSE4/AVX512', B + 'simd_builtin.h (_S_isfinite, _S_isnan, _S_isnormal, _S_fpclassify)'),
      ('rounding', B + 'simd_builtin.h (_S_trunc, _S_round, _S_floor, _S_ceil, _S_nearbyint), ' + B + 'simd_x86.h'), ('tuple-wise application', B + 'simd_fixed_size.h (_GLIBCXX_SIMD_APPLY_ON_TUPLE)')],
     note=NOTE + ' Rounding by int conversion or by adding 2^m is compared with reference formulas proved equal to the C++ functions in DESIGN.md; a comparison with constants is '
     'decided exactly by partitioning the float line.')
prop('P15', 'Decomposition functions are exact in every lane',
     'frexp, modf, logb, remquo, ldexp, scalbn and scalbln on simd give in lane i, in the result and through the output pointer, what the C++ function gives for lane i '
     '(frexp: exponent unspecified for infinities and NaN, modf up to the sign of zero parts), whatever the other lanes hold.',
     IC, FCFG + '.', TEST % 'a fast path taken when all lanes are normal must agree with the slow path taken when one lane is not; tests rarely mix them.',
     [B + 'simd_math.h', B + 'simd_fixed_size.h', B + 'simd_x86.h'],
     [('bit-field decompositions', B + 'simd_math.h (frexp, logb, modf)'), ('exponent extraction', B + 'simd_x86.h (_S_logb, getexp/getmant paths of frexp)'), ('element-wise fallbacks', B + 'simd_builtin.h (_S_remquo, _S_ldexp, _S_scalbn), ' + B + 'simd_fixed_size.h')])
prop('P16', 'Library functions are applied lane by lane to the right arguments',
     'acos, asin, atan, tan, acosh, asinh, atanh, cosh, sinh, tanh, exp, exp2, expm1, log, log10, log1p, log2, cbrt, erf, erfc, lgamma, tgamma, atan2, pow, hermite, '
     'laguerre, legendre, assoc_laguerre, assoc_legendre, sph_bessel, sph_legendre, sph_neumann and the remaining special functions of the TS are callable on simd, and lane i is '
     'the result of the same-named std function applied to the lanes i of the arguments, in order.',
     IC, FCFG + '.', TEST % 'a function table entry that calls a neighbouring function, swaps arguments or shifts an index within a chunk is only seen by a test of that very function and size.',
     [B + 'simd_math.h', B + 'simd_builtin.h', B + 'simd_fixed_size.h', B + 'simd_scalar.h'],
     [('delegation tables', B + 'simd_builtin.h (_GLIBCXX_SIMD_MATH_FALLBACK), ' + B + 'simd_scalar.h, ' + B + 'simd_fixed_size.h (_GLIBCXX_SIMD_APPLY_ON_TUPLE)'), ('generator based special functions', B + 'simd_math.h (special math section)')],
     note=NOTE + ' The C library functions are uninterpreted: what they compute, and sin, cos and hypot (own numerics), are not decided.')
WTECH = 'compile-time witnesses: static_asserts over traits, expression types and well-formedness, decided by the type checker of the current headers'
TSTEST = 'the test suite instantiates a handful of specialisations and checks no trait or overload set, so %s'
prop('P17', 'Type traits, sizes, members and disabled specialisations follow the TS',
     'For every vectorizable type and every ABI tag: is_abi_tag, is_simd, is_simd_mask, simd_size, size(), memory_alignment, value_type, mask_type, simd_type, '
     'abi_type, reference, rebind_simd, resize_simd, the alias templates and the deduced ABI have the types and values the TS gives them; a native vector is '
     'trivially copyable with size and alignment of its register; specialisations with an invalid element type, tag or size are disabled (not constructible, copyable, '
     'assignable or destructible) and the traits stay SFINAE-friendly for arbitrary arguments.',
     ['configurations'], 'every vectorizable type including character types and long double, sizes 1 to max_fixed_size, ABI tags scalar, native, compatible, fixed_size<N> and deduce_t<T, N>, every target.',
     TSTEST % 'a wrong size for one deduced tag, or an invalid specialisation that became constructible, is not noticed.',
     ['experimental/bits/simd.h', B + 'simd_builtin.h', B + 'simd_abis.h', B + 'simd_fixed_size.h'],
     [('traits', B + 'simd.h (simd_size, memory_alignment, rebind_simd, resize_simd, is_abi_tag)'), ('ABI selection', B + 'simd_abis.h (__deduce_impl, __fixed_size_storage), ' + B + 'simd.h (simd_abi)'),
      ('disabled specialisations', B + 'simd.h (_SimdTraits, _InvalidTraits)')],
     tech=WTECH, note='Decided exactly, per instance, by the compiler; the expected values are computed independently in specs/typelevel.py. Only the listed element types, sizes, tags and targets are instantiated.',
     observe=['static_assert on public traits and members'])
prop('P18', 'Conversions and overloads exist exactly where they are value-preserving',
     'Implicit broadcast, conversion between simd types, generators, element assignment, mixed operators, simd_cast and mask conversions participate in overload resolution '
     'exactly when the TS allows them (conversions that can lose a value are never implicit; equal or lower integer conversion rank requires a cast); operators that the element '
     'type lacks, masked operations on const or lvalue where expressions, reductions of non-masks and to_native of a wrong size are not callable; every operation and <cmath> '
     'overload has the return type the TS states.',
     ['configurations'], 'every ordered pair of the 17 vectorizable types, value categories, and the ABI tags native, scalar, compatible, fixed_size and deduce_t on every target; each public function of the TS.',
     TSTEST % 'an implicit narrowing from one particular type to another, or an operator that silently vanishes for one type, is not noticed.',
     ['experimental/bits/simd.h', B + 'simd_math.h', B + 'simd_detail.h'],
     [('value preservation', B + 'simd.h (__value_preserving_or_int, __is_narrowing_conversion, __converts_to_higher_integer_rank)'), ('operator participation', B + 'simd.h (_SimdIntOperators, friend operators)'),
      ('casts', B + 'simd.h (simd_cast, static_simd_cast)'), ('math overloads', B + 'simd_math.h (_GLIBCXX_SIMD_MATH_CALL*, _Math_return_type)')],
     tech=WTECH, note='Decided exactly, per instance, by the compiler; the expected overload sets are computed independently in specs/typelevel.py. Only the listed element types, tags and targets are instantiated.',
     observe=['std::is_convertible, is_constructible, is_assignable, detection of expressions and decltype of public calls'])
prop('P20', 'The header is self-contained, includable anywhere and defines nothing extra',
     'Including <experimental/simd> (any number of times, in any number of translation units, at any optimisation level, with -ffast-math, without exceptions or RTTI, as C++17 or later, with the '
     'internal debug checks on) compiles, adds no strong external definition, runs no code at program start, creates no writable global object, and does not depend on identifiers '
     'a program may define as macros.',
     ['configurations'], 'every target and compile mode; every unreserved identifier occurring in the headers, which the user may have defined as a macro before including them.',
     'the test suite includes the header in single-file programs at one optimisation level, so a missing inline, a static initialiser or an unreserved local name is invisible to it.',
     ['experimental/simd', 'experimental/bits/simd.h', B + 'simd_builtin.h', B + 'simd_x86.h', B + 'simd_neon.h', B + 'simd_ppc.h', B + 'simd_math.h'],
     [('all definitions of the headers', 'experimental/bits/*.h')],
     tech='symbol/section analysis of the compiled header and macro-hygiene compilation', note='The definitions are read from the object the compiler makes of the header; a name is unreserved if neither the language, the standard library nor the underscore rules reserve it.',
     observe=['symbol and section tables of an object that includes only the header'])
prop('P23', 'Operations have no side effects beyond their operands and may run concurrently',
     'No operation on simd or simd_mask reads or writes mutable static or thread-local state, allocates, throws, terminates, does input or output, or calls anything but plain memory moves and - in '
     '<cmath> overloads - the C math library, so calls on distinct objects never race and their results depend on their operands only.',
     ['inputs', 'schedules', 'configurations'], CFG + '; every schedule of concurrent calls, because no state is shared.',
     'tests run one thread and never look for hidden state: a cached table, a counter or a lazily initialised constant returns the right value in every one of them.',
     ['experimental/bits/simd.h', B + 'simd_builtin.h', B + 'simd_x86.h', B + 'simd_fixed_size.h', B + 'simd_math.h', B + 'simd_neon.h', B + 'simd_ppc.h'],
     [('all operations', 'experimental/bits/*.h')],
     tech='effect analysis: transitive closure of symbol references per operation', note='Any reference to writable storage or an unlisted function that survives optimisation at -O1 is reported; libm itself may set errno and floating-point flags.',
     observe=['the symbols reachable from the public operation'])
prop('P19', 'sin, cos and hypot are accurate to a few ulp for every argument',
     'sin, cos and hypot (two and three arguments) on simd return for every lane a value within a few units in the last place of the exact result, without spurious overflow or underflow.',
     ['inputs'], 'every float and double argument.', 'a test samples a few arguments of an argument reduction that must hold for all of them.',
     [B + 'simd_math.h'], [('argument reduction and polynomials', B + 'simd_math.h (cos, sin, __fold_input, _S_hypot)')],
     claim=False, reason='Numerical error bounds of argument reduction and polynomial evaluation quantify over real-number rounding errors along data-dependent paths; no sound static '
     'analysis in reach bounds them to a few ulp (this needs a floating-point error prover), and sampling them would be testing.')
prop('P21', 'Operations compile to the best instruction sequence of the target',
     'Every operation is compiled to code that uses the vector instructions of the target without needless moves, spills or calls.',
     ['configurations'], 'every operation on every target.', 'the test suite greps the assembly of a few functions.',
     ['experimental/bits/simd.h'], [('all operations', 'experimental/bits/*.h')],
     claim=False, reason='Performance is not a semantic property of the source; optimality of instruction selection is decided by the compiler version and cannot be read off the headers.')
prop('P24', 'Operands known at compile time give the same results as run-time operands',
     'Every element-wise operation, comparison, cast, masked operation, reduction and exact <cmath> function whose operands are (partly) known at compile time - so that the library\'s '
     '__builtin_constant_p branches are taken - yields the scalar results, element by element, and touches the same memory as for run-time operands of the same value.',
     IC, CFG + '; one operand at a time or all of them replaced by uniform, mixed, extreme and (floating-point) special constants; every value of the operands that stay variable.',
     TEST % 'a shortcut for constant zero, for powers of two or for uniform shift counts runs only in optimised code with such a constant.',
     ['experimental/bits/simd.h', B + 'simd_builtin.h', B + 'simd_x86.h', B + 'simd_neon.h', B + 'simd_math.h'],
     [('constant-folding branches', B + 'simd_builtin.h, ' + B + 'simd_x86.h (__builtin_is_constant_evaluated, _M_is_constprop, __builtin_constant_p)'), ('mask constant propagation', B + 'simd.h (_M_is_constprop, _M_is_constprop_none_of, _M_is_constprop_all_of)')])
prop('P25', 'Results do not depend on language mode, debug checks, fast-math or subsets',
     'Every operation gives the same element-wise results and touches the same memory when the program is compiled as C++20, with the undefined-behaviour assertions or without the shift optimisations that macros of the header '
     'select, with -ffinite-math-only or -ffast-math (for values those options allow, and for all integers), or for a processor that lacks parts of the usual instruction sets '
     '(popcnt/BMI, AVX512DQ) or has XOP; the assertions never fire for valid arguments.',
     IC, CFG + ', in each of those modes; every value the mode permits.',
     'the test suite is built once, in one mode; code that only exists under __FINITE_MATH_ONLY__, __FAST_MATH__, without __POPCNT__ or with _GLIBCXX_DEBUG_UB is never compiled by it.',
     ['experimental/bits/simd.h', 'experimental/bits/simd_detail.h', B + 'simd_builtin.h', B + 'simd_x86.h', B + 'simd_neon.h', B + 'simd_ppc.h', B + 'simd_math.h'],
     [('mode-dependent branches', 'experimental/bits/*.h (__FINITE_MATH_ONLY__, __GCC_IEC_559, __FAST_MATH__, __support_snan)'), ('instruction-subset branches', B + 'simd_x86.h (__have_popcnt, __have_avx512dq, __have_bmi), ' + B + 'simd_detail.h'),
      ('debug checks', B + 'simd.h (_GLIBCXX_SIMD_..., __glibcxx_assert under _GLIBCXX_DEBUG_UB)')])
prop('P26', 'Numeric traits have the values of the type\'s format',
     'The numeric traits the header provides (digits, digits10, max_digits10, radix, finite_max, finite_min, norm_min, denorm_min, epsilon, infinity, quiet_NaN, round_error, the exponent '
     'ranges, reciprocal_overflow_threshold, value_exists, value_or, has_iec559_behavior) have for every arithmetic type and each of its cv-qualified versions the value and type that follow from '
     'its format, exist exactly where they are meaningful, and claim NaN and infinity behaviour only when the compiler honours it.',
     ['configurations'], 'every arithmetic type including bool, character types and long double, cv-qualified or not, on every target, also with -ffinite-math-only, -ffast-math and as C++20.',
     'no test reads a numeric trait; narrowing checks, masked hmin/hmax identities and the classification functions are built on them.',
     [B + 'numeric_traits.h', 'experimental/bits/simd.h', B + 'simd_math.h'],
     [('the traits', B + 'numeric_traits.h'), ('narrowing decisions', B + 'simd.h (__is_narrowing_conversion)'), ('special values in algorithms', B + 'simd.h (hmin, hmax), ' + B + 'simd_builtin.h (_S_isfinite, _S_fpclassify)')],
     tech=WTECH, note='Decided exactly, per instance, by the compiler; the expected values are computed as exact rationals from precision and exponent range in specs/numeric.py. '
     'reciprocal_overflow_threshold is not checked for long double, nor the range of the POWER double-double.',
     observe=['static_assert on trait values'])
prop('P27', 'Conversions to and from native vectors and arrays keep every element',
     'Every explicit conversion the library declares between a simd or simd_mask and the vector type of the target or of the compiler (__m128, __m256i, int32x4_t, [[gnu::vector_size]]), and '
     'between a fixed_size simd and std::array, compiles and keeps every element in its place: a simd has the same elements afterwards, a mask becomes a vector with all bits of the selected '
     'elements set, and converting back gives the same simd or mask, whatever the unused part of a partially filled register holds.',
     IC, CFG + '; every value, and every content of the padding of a native vector.',
     'no test converts to or from a native vector or array; the conversion functions are member templates that are not even compiled until a program uses them.',
     [B + 'simd_builtin.h', B + 'simd_fixed_size.h', 'experimental/bits/simd.h'],
     [('conversion operators and constructor parameter types', B + 'simd_builtin.h (_GnuTraits: _SimdBase, _MaskBase, _MaskCastType, _SimdCastType)'), ('std::array', B + 'simd_fixed_size.h (_SimdBase, _SimdCastType)'),
      ('mask to vector', B + 'simd_builtin.h (_S_to_maskvector, _S_to_bits), ' + B + 'simd_x86.h')])
