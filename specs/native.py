"""explicit conversions to and from the vector types of the compiler and the target, and std::array (fixed_size)"""
from common import *

X86I = {'float': ('__m128', '__m256', '__m512'), 'double': ('__m128d', '__m256d', '__m512d')}
NEON = {'signed char': 'int8x16_t', 'unsigned char': 'uint8x16_t', 'short': 'int16x8_t', 'unsigned short': 'uint16x8_t', 'int': 'int32x4_t', 'unsigned': 'uint32x4_t',
        'long': 'int64x2_t', 'unsigned long': 'uint64x2_t', 'float': 'float32x4_t', 'double': 'float64x2_t'}


def ops_for(T, tier, target, abi):
    o = []
    n = nlanes(target, abi, T)
    w = KIND[T][1] // 8
    base = target.split('+')[0]
    x86 = base not in ('neon', 'arm', 'ppc')
    full = 'stdx::native_simd<T>'
    copy = loop('r[i] = a[i];')
    if abi == 'scalar':
        return []
    if abi.startswith('fs') or abi.startswith('ded') and n > nlanes(target, 'native', T):
        AR = 'using W = std::array<T, N>; '
        o.append(Op('to_array', P(T, A, R), AR + 'W g = static_cast<W>(ld(a)); for (int i = 0; i < N; ++i) r[i] = g[i];', copy))
        o.append(Op('from_array', P(T, A, R), AR + 'W g; for (int i = 0; i < N; ++i) g[i] = a[i]; st(V(g), r);', copy))
        o.append(Op('array_roundtrip', P(T, A, R), AR + 'W g = static_cast<W>(ld(a)); st(V(g) + V(T(1)), r);', loop('r[i] = static_cast<T>(a[i] + T(1));')))
        o.append(Op('from_array_temp', P(T, A, R), AR + 'auto f = [&] { W g; for (int i = 0; i < N; ++i) g[i] = a[i]; return g; }; V v = V(f()); V x = v; st(x, r);', copy))
        return o
    b = n * w
    if b & (b - 1):
        b = 1 << b.bit_length()
    small, b = b, max(b, 16)
    U = {1: 'unsigned char', 2: 'unsigned short', 4: 'unsigned', 8: 'unsigned long long'}[w]
    vec = 'typedef T W __attribute__((vector_size(%d)));' % small
    tys = [('vec', vec, small)]
    if x86:
        i = {16: 0, 32: 1, 64: 2}[b]
        tys.append(('intrin', 'typedef %s W;' % X86I.get(T, ('__m128i', '__m256i', '__m512i'))[i], b))
    elif base == 'neon' and T in NEON and small == 16:
        tys.append(('intrin', 'typedef %s W;' % NEON[T], b))
    ki = 'bool'
    for nm, td, b in tys:
        if nm == 'vec' and abi.startswith('ded') and not x86:
            continue
        td += ' constexpr int L = %d;' % (b // w)
        o.append(Op('to_' + nm, P(T, A, R), td + ' W g = static_cast<W>(ld(a)); T t[L]; __builtin_memcpy(t, &g, sizeof g); for (int i = 0; i < N; ++i) r[i] = t[i];', copy))
        put = ' T t[L]; for (int i = 0; i < L; ++i) { if (i < N) t[i] = a[i]; else t[i] = T(3); } W g; __builtin_memcpy(&g, t, sizeof g);'
        o.append(Op('from_' + nm, P(T, A, R), td + put + ' st(V(g), r);', copy))
        o.append(Op('through_' + nm, P(T, A, B, R), td + ' st(V(static_cast<W>(ld(a))) - V(static_cast<W>(ld(b))), r);', loop('r[i] = static_cast<T>(a[i] - b[i]);')))
        # a mask as a vector: all bits of the selected elements
        get = ' %s t[L]; __builtin_memcpy(t, &g, sizeof g); for (int i = 0; i < N; ++i) r[i] = t[i];' % U
        RU = ('r', U, 'N', 'out')
        o.append(Op('mask_to_' + nm, [K, RU], td + ' W g = static_cast<W>(ldm(k));' + get, loop('r[i] = k[i] ? static_cast<%s>(-1) : 0;' % U)))
        o.append(Op('comparison_to_' + nm, P(T, A, B) + [RU], td + ' W g = static_cast<W>(ld(a) == ld(b));' + get, loop('r[i] = a[i] == b[i] ? static_cast<%s>(-1) : 0;' % U)))
        if nm == 'intrin' or isfloat(T) and b >= 16:
            putm = ' %s t[L]; for (int i = 0; i < L; ++i) { if (i < N) t[i] = k[i] ? static_cast<%s>(-1) : 0; else t[i] = -1; } W g; __builtin_memcpy(&g, t, sizeof g);' % (U, U)
            RB = ('r', 'bool', 'N', 'out')
            o.append(Op('mask_from_' + nm, [K, RB], td + putm + ' stm(M(g), r);', loop('r[i] = k[i];')))
            o.append(Op('mask_through_' + nm, [K, RB], td + ' stm(!M(static_cast<W>(ldm(k))), r);', loop('r[i] = !k[i];')))
            o.append(Op('count_from_' + nm, [K], td + putm + ' return stdx::popcount(M(g));', 'int c = 0; for (int i = 0; i < N; ++i) c += k[i]; return c;', ret='int'))
    return o
