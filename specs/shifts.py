from common import *

# per-lane counts: 0..width-1; common counts: 0..promoted width-1


def ops(T, tier):
    if isfloat(T):
        return []
    o = []
    S = ('s', 'int', None, 'in')
    bits = max(KIND[T][1], 32)
    w = KIND[T][1]
    ml = {'enum': {'b': (0, w - 1)}}
    mc = {'enum': {'s': (0, bits - 1)}}
    for b, nm in (('<<', 'shl'), ('>>', 'shr')):
        ref = 'r[i] = static_cast<T>(a[i] %s b[i]);' % b
        pre = ''
        o.append(Op(nm + '_lanes', P(T, A, B, R), 'st(ld(a) %s ld(b), r);' % b, loop(ref), mode=ml))
        o.append(Op(nm + '_lanes_assign', P(T, A, B, R), 'V v = ld(a); v %s= ld(b); st(v, r);' % b, loop(ref), mode=ml))
        o.append(Op(nm + '_count', P(T, A, R) + [S], 'st(ld(a) %s s, r);' % b,
                    loop('r[i] = static_cast<T>(a[i] %s s);' % b), mode=mc))
        o.append(Op(nm + '_count_assign', P(T, A, R) + [S], 'V v = ld(a); v %s= s; st(v, r);' % b,
                    loop('r[i] = static_cast<T>(a[i] %s s);' % b), mode=mc))
    return o


def const_ops(T, tier):
    """compile-time constant counts take dedicated shortcuts"""
    if isfloat(T):
        return []
    o = []
    bits = max(KIND[T][1], 32)
    w = KIND[T][1]
    cs = sorted({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, w // 2, w - 2, w - 1, w, w + 1, bits - 1} & set(range(bits)))
    for b, nm in (('<<', 'shl'), ('>>', 'shr')):
        for k in cs:
            o.append(Op('%s_const_%d' % (nm, k), P(T, A, R), 'st(ld(a) %s %d, r);' % (b, k),
                        loop('r[i] = static_cast<T>(a[i] %s %d);' % (b, k))))
    return o
