"""shared vocabulary of the obligation tables"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from driver import Op, TU, KIND, SHORT, TARGETS, CROSS
MEMBITS = {'long double': 128}
X86 = [t for t in TARGETS if t not in CROSS and '+' not in t]

INTS = ['signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long']
MOREINTS = ['char', 'long long', 'unsigned long long', 'char16_t', 'char32_t', 'wchar_t']
FLOATS = ['float', 'double']
ALL = INTS + FLOATS
EVERY = ALL + MOREINTS

ABIS = {
    'native': 'stdx::simd_abi::native<T>',
    'scalar': 'stdx::simd_abi::scalar',
    'fs2': 'stdx::simd_abi::fixed_size<2>',
    'fs3': 'stdx::simd_abi::fixed_size<3>',
    'fs5': 'stdx::simd_abi::fixed_size<5>',
    'fs6': 'stdx::simd_abi::fixed_size<6>',
    'fs7': 'stdx::simd_abi::fixed_size<7>',
    'fs12': 'stdx::simd_abi::fixed_size<12>',
    'fs18': 'stdx::simd_abi::fixed_size<18>',
    'fs8': 'stdx::simd_abi::fixed_size<8>',
    'fs16': 'stdx::simd_abi::fixed_size<16>',
    'fs17': 'stdx::simd_abi::fixed_size<17>',
    'fs32': 'stdx::simd_abi::fixed_size<32>',
    'ded2': 'stdx::simd_abi::deduce_t<T, 2>',
    'ded3': 'stdx::simd_abi::deduce_t<T, 3>',
    'ded4': 'stdx::simd_abi::deduce_t<T, 4>',
    'ded5': 'stdx::simd_abi::deduce_t<T, 5>',
    'ded7': 'stdx::simd_abi::deduce_t<T, 7>',
    'ded12': 'stdx::simd_abi::deduce_t<T, 12>',
    'compat': 'stdx::simd_abi::compatible<T>',
    'sse': 'stdx::simd_abi::__sse',
    'avx': 'stdx::simd_abi::__avx',
}


def isfloat(t):
    return t in FLOATS


def isint(t):
    return t not in FLOATS


def signed(t):
    return KIND[t][0] in ('i', 'f')


def prelude(T, abi):
    return '''using T = %s;
using V = stdx::simd<T, %s>;
using M = typename V::mask_type;
constexpr int N = int(V::size());
using EA = stdx::element_aligned_tag;
static inline V ld(const T* p) { V v; v.copy_from(p, EA()); return v; }
static inline M ldm(const bool* p) { M m; m.copy_from(p, EA()); return m; }
static inline void st(const V& v, T* p) { v.copy_to(p, EA()); }
static inline void stm(const M& m, bool* p) { m.copy_to(p, EA()); }
''' % (T, ABIS[abi])


A = ('a', 'T', 'N', 'in')
B = ('b', 'T', 'N', 'in')
R = ('r', 'T', 'N', 'out')
K = ('k', 'bool', 'N', 'in')


def P(T, *ps):
    """instantiate parameter tuples for element type T"""
    return [(n, T if t == 'T' else t, c, d) for n, t, c, d in ps]


def loop(body):
    return 'for (int i = 0; i < N; ++i) { %s }' % body


def nlanes(target, abi, T):
    """number of elements of simd<T, abi> on a target (used only to leave out configurations that cannot exist)"""
    w = KIND[T][1] // 8
    if abi.startswith('fs') or abi.startswith('ded'):
        return int(abi.lstrip('fsded'))
    if abi == 'scalar':
        return 1
    if abi in ('sse', 'compat'):
        return 16 // w
    if abi == 'avx':
        return 32 // w
    if '+xop' in target:
        return (16 if isint(T) else 32) // w
    b = {'sse2': 16, 'ssse3': 16, 'sse4': 16, 'avx': 16 if isint(T) else 32, 'avx2': 32, 'skx': 64, 'knl': 64 if w >= 4 else 32,
         'neon': 16, 'arm': 16, 'ppc': 16}[target.split('+')[0]]
    return b // w


MAXFIXED = 32


def layof(target, U, n, ty=None):
    """storage layouts to probe for a vector of n elements of U (no effect unless it is stored in several parts)"""
    nn = nlanes(target, 'native', U)
    if n <= 1 or n > MAXFIXED:
        return []
    lv = n // nn + bin(n % nn).count('1')
    return [(ty or 'stdx::fixed_size_simd<%s, %d>' % (U, n), min(lv - 1, 10))]


def specops(mod, T, tier, target, abi):
    if hasattr(mod, 'ops_for'):
        return mod.ops_for(T, tier, target, abi)
    return mod.ops(T, tier)
