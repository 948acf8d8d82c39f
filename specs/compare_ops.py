from common import *
K1 = ('k', 'bool', 'N', 'in')
K2 = ('l', 'bool', 'N', 'in')
KR = ('r', 'bool', 'N', 'out')


def ops(T, tier):
    o = []
    for b, nm in (('==', 'eq'), ('!=', 'ne'), ('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge')):
        o.append(Op(nm, P(T, A, B, KR), 'stm(ld(a) %s ld(b), r);' % b, loop('r[i] = a[i] %s b[i];' % b)))
    o.append(Op('lt_scalar', P(T, A, KR) + [('s', T, None, 'in')], 'stm(ld(a) < s, r);', loop('r[i] = a[i] < s;')))
    o.append(Op('not_v', P(T, A, KR), 'stm(!ld(a), r);', loop('r[i] = !a[i];')))
    for b, nm in (('&&', 'land'), ('||', 'lor'), ('&', 'band'), ('|', 'bor'), ('^', 'bxor'), ('==', 'meq'), ('!=', 'mne')):
        o.append(Op(nm, P(T, K1, K2, KR), 'stm(ldm(k) %s ldm(l), r);' % b, loop('r[i] = k[i] %s l[i];' % b)))
    for b, nm in (('&', 'band'), ('|', 'bor'), ('^', 'bxor')):
        o.append(Op(nm + '_assign', P(T, K1, K2, KR), 'M m = ldm(k); m %s= ldm(l); stm(m, r);' % b,
                    loop('r[i] = k[i] %s l[i];' % b)))
    o.append(Op('lnot', P(T, K1, KR), 'stm(!ldm(k), r);', loop('r[i] = !k[i];')))
    o.append(Op('cmp_logic', P(T, A, B, K1, KR), 'stm((ld(a) < ld(b)) && ldm(k), r);',
                loop('r[i] = (a[i] < b[i]) && k[i];')))
    o.append(Op('cmp_not', P(T, A, B, KR), 'stm(!(ld(a) <= ld(b)), r);', loop('r[i] = !(a[i] <= b[i]);')))
    # compile-time constant operands
    m3, m5 = 'V([](auto i) { return T(int(i) % 3); })', 'V([](auto i) { return T(int(i) % 5); })'
    for b, nm in (('==', 'eq'), ('!=', 'ne'), ('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge')):
        o.append(Op(nm + '_const_both', [KR], 'stm(%s %s %s, r);' % (m3, b, m5), loop('r[i] = T(i %% 3) %s T(i %% 5);' % b)))
        o.append(Op(nm + '_const_rhs', P(T, A, KR), 'stm(ld(a) %s %s, r);' % (b, m3), loop('r[i] = a[i] %s T(i %% 3);' % b)))
    km = '(%s == T(1))' % m3
    for b, nm in (('&&', 'land'), ('||', 'lor'), ('&', 'band'), ('|', 'bor'), ('^', 'bxor'), ('==', 'meq')):
        o.append(Op(nm + '_const_rhs', [K1, KR], 'stm(ldm(k) %s %s, r);' % (b, km), loop('r[i] = k[i] %s (i %% 3 == 1);' % b)))
    for c in ('true', 'false'):
        o.append(Op('lnot_const_' + c, [KR], 'stm(!M(%s), r);' % c, loop('r[i] = !%s;' % c)))
    o.append(Op('lnot_const_pattern', [KR], 'stm(!%s, r);' % km, loop('r[i] = i % 3 != 1;')))
    return o
