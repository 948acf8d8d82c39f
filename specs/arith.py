from common import *


def ops(T, tier):
    o = []
    bins = ['+', '-', '*', '/'] + (['%', '&', '|', '^'] if isint(T) else [])
    nm = {'+': 'plus', '-': 'minus', '*': 'multiplies', '/': 'divides', '%': 'modulus', '&': 'bit_and', '|': 'bit_or',
          '^': 'bit_xor', '<<': 'shl', '>>': 'shr'}
    for b in bins:
        o.append(Op(nm[b], P(T, A, B, R), 'st(ld(a) %s ld(b), r);' % b, loop('r[i] = static_cast<T>(a[i] %s b[i]);' % b)))
        o.append(Op(nm[b] + '_assign', P(T, A, B, R), 'V v = ld(a); v %s= ld(b); st(v, r);' % b,
                    loop('r[i] = static_cast<T>(a[i] %s b[i]);' % b)))
    o.append(Op('scalar_rhs', P(T, A, R) + [('s', T, None, 'in')], 'st(ld(a) - s, r);',
                loop('r[i] = static_cast<T>(a[i] - s);')))
    o.append(Op('scalar_lhs', P(T, A, R) + [('s', T, None, 'in')], 'st(s - ld(a), r);',
                loop('r[i] = static_cast<T>(s - a[i]);')))
    # one or both operands compile-time constants: __builtin_constant_p shortcuts and broadcasts
    cs = ['3', '-1', '7'] + (['10', '8'] if isint(T) else ['0.5', '0.0', '-0.0'])
    if tier == 'quick':
        cs = cs[:2] + cs[3:]
    for i, k in enumerate(cs):
        k = 'T(%s)' % k
        for b in bins:
            if b in '/%' and isint(T) and k == 'T(-1)' and signed(T):
                continue
            nz = not (b in '/%' and k in ('T(0.0)', 'T(-0.0)'))
            if nz and (tier != 'quick' or b in '/%*' or i == 1):
                o.append(Op('%s_const_rhs_%d' % (nm[b], i), P(T, A, R), 'st(ld(a) %s V(%s), r);' % (b, k), loop('r[i] = static_cast<T>(a[i] %s %s);' % (b, k))))
            if i < (2 if tier != 'quick' else 1) and b in '-/%':
                o.append(Op('%s_const_lhs_%d' % (nm[b], i), P(T, A, R), 'st(V(%s) %s ld(a), r);' % (k, b), loop('r[i] = static_cast<T>(%s %s a[i]);' % (k, b))))
    gen = 'T(int(i) % 5 + 1)'
    for b in bins:
        o.append(Op('%s_const_vector' % nm[b], P(T, A, R), 'st(ld(a) %s V([](auto i) { return %s; }), r);' % (b, gen), loop('r[i] = static_cast<T>(a[i] %s %s);' % (b, gen))))
        o.append(Op('%s_const_both' % nm[b], P(T, R), 'st(V([](auto i) { return T(int(i) * 37 %% 100); }) %s V([](auto i) { return %s; }), r);' % (b, gen),
                    loop('r[i] = static_cast<T>(T(i * 37 %% 100) %s %s);' % (b, gen))))
        o.append(Op('%s_same' % nm[b], P(T, A, R), 'V v = ld(a); st(v %s v, r);' % b, loop('r[i] = static_cast<T>(a[i] %s a[i]);' % b)))
    return o
