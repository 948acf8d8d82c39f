from common import *
L = ('l', 'bool', 'N', 'in')


def ops(T, tier):
    o = []
    KK, LL = [K], [K, L]

    def red(name, ps, simd, ref, ret):
        o.append(Op(name, ps, simd, ref, ret=ret))

    def family(tag, ps, m, b):
        """m: mask expression, b: the same lane as scalar"""
        for nm, ret, init, step in (('all_of', 'bool', 'true', 'x = x && (%s)'), ('any_of', 'bool', 'false', 'x = x || (%s)'),
                                    ('none_of', 'bool', 'true', 'x = x && !(%s)')):
            red(tag + nm, ps, 'return stdx::%s(%s);' % (nm, m), '%s x = %s; %s return x;' % (ret, init, loop(step % b + ';')), ret)
        red(tag + 'some_of', ps, 'return stdx::some_of(%s);' % m,
            'bool x = true, y = false; %s return y && !x;' % loop('x = x && (%s); y = y || (%s);' % (b, b)), 'bool')
        red(tag + 'popcount', ps, 'return stdx::popcount(%s);' % m, 'int x = 0; %s return x;' % loop('x += (%s) ? 1 : 0;' % b), 'int')
        red(tag + 'find_first_set', ps, 'auto m = %s; return stdx::any_of(m) ? stdx::find_first_set(m) : -1;' % m,
            'int x = -1; for (int i = N - 1; i >= 0; --i) if (%s) x = i; return x;' % b, 'int')
        red(tag + 'find_last_set', ps, 'auto m = %s; return stdx::any_of(m) ? stdx::find_last_set(m) : -1;' % m,
            'int x = -1; %s return x;' % loop('if (%s) x = i;' % b), 'int')
    family('', KK, 'ldm(k)', 'k[i]')
    family('and_', LL, 'ldm(k) && ldm(l)', 'k[i] & l[i]')
    family('not_', KK, '!ldm(k)', '!k[i]')
    if tier != 'quick' or T in ('float', 'double', 'unsigned short', 'long', 'signed char'):
        family('cmp_', P(T, A, B), 'ld(a) < ld(b)', 'a[i] < b[i]')
    else:
        family('eq_', P(T, A, B), 'ld(a) == ld(b)', 'a[i] == b[i]')
    if tier != 'quick' or T in ('float', 'signed char', 'unsigned short', 'long'):
        for cn, m, c in (('call_', 'M(true)', 'true'), ('cnone_', 'M(false)', 'false'), ('cpat_', 'V([](auto i) { return T(int(i) % 3); }) == T(1)', 'i % 3 == 1'),
                         ('clast_', 'V([](auto i) { return T(int(i) == N - 1); }) == T(1)', 'i == N - 1')):
            family(cn, [], m, c)
    S = [('s', 'bool', None, 'in')]
    family('bcast_', S, 'M(s)', 's')
    o.append(Op('bool_overloads', S + [('r', 'int', '7', 'out')],
                'r[0] = stdx::all_of(s); r[1] = stdx::any_of(s); r[2] = stdx::none_of(s); r[3] = stdx::some_of(s); r[4] = stdx::popcount(s);'
                ' r[5] = stdx::find_first_set(true); r[6] = stdx::find_last_set(true);',
                'r[0] = s; r[1] = s; r[2] = !s; r[3] = false; r[4] = s; r[5] = 0; r[6] = 0;'))
    # iteration over the selected indexes: every one exactly once, in ascending order (the first J of them)
    J = 4
    o.append(Op('iterate', [K, ('r', 'int', str(J), 'out')],
                'auto q = stdx::__proposed::where(ldm(k)); auto it = q.begin(); ' + ' '.join(
                    'r[%d] = -1; if (it != q.end()) { r[%d] = *it; ++it; }' % (j, j) for j in range(J)),
                'int c[N + 1]; c[0] = 0; for (int i = 0; i < N; ++i) c[i + 1] = c[i] + k[i]; ' + ' '.join(
                    '{ int v = -1; for (int i = 0; i < N; ++i) v = (k[i] & (c[i] == %d)) ? i : v; r[%d] = v; }' % (j, j) for j in range(J))))
    # masked reductions select through the mask
    red('if_any', P(T, A, B), 'if (stdx::any_of(ld(a) == ld(b))) return 1; return 0;',
        'bool x = false; %s return x ? 1 : 0;' % loop('x = x || a[i] == b[i];'), 'int')
    return o


def ops_for(T, tier, target, abi):
    o = ops(T, tier)
    # walking the selected indexes of 32 and more lanes exceeds the budget of the value numbering
    if abi in ('native', 'sse', 'avx') and 'char' in T or abi == 'native' and 'short' in T and target in ('skx', 'knl', 'avx2'):
        o = [x for x in o if x.name != 'iterate']
    return o
