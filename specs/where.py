from common import *
from loadstore import cvt, cmode
S = ('s', 'T', None, 'in')
KR = ('r', 'bool', 'N', 'out')
KA, KB = ('a', 'bool', 'N', 'in'), ('b', 'bool', 'N', 'in')
NM = {'+': 'plus', '-': 'minus', '*': 'multiplies', '/': 'divides', '%': 'modulus', '&': 'bit_and', '|': 'bit_or', '^': 'bit_xor',
      '<<': 'shl', '>>': 'shr'}
XLD = []
SMALL = ['int', 'float', 'unsigned short', 'double', 'signed char', 'unsigned long']


def ops_for(T, tier, target, abi):
    XLD[:] = [] if target in CROSS else ['long double']
    return ops(T, tier) + (const_ops(T) if tier != 'quick' or (abi in ('native', 'ded3', 'fs7') and T in ('int', 'float', 'signed char', 'double')) else [])


def ops(T, tier):
    w = KIND[T][1]
    o = []
    bins = ['+', '-', '*', '/'] + (['%', '&', '|', '^'] if isint(T) else [])

    def upd(name, simd, ref, ps=(B,), extra=(), mode=None):
        o.append(Op(name, P(T, K, A, *ps, R) + list(extra), 'V v = ld(a); M k_ = ldm(k); %s st(v, r);' % simd, loop(ref), mode=mode))

    upd('assign', 'where(k_, v) = ld(b);', 'r[i] = k[i] ? b[i] : a[i];')
    upd('assign_scalar', 'where(k_, v) = s;', 'r[i] = k[i] ? s : a[i];', ps=(S,))
    upd('assign_cmp', 'where(ld(a) < ld(b), v) = ld(b);', 'r[i] = a[i] < b[i] ? b[i] : a[i];')
    upd('assign_not', 'where(!k_, v) = ld(b);', 'r[i] = k[i] ? a[i] : b[i];')
    for b in bins:
        upd(NM[b] + '_assign', 'where(k_, v) %s= ld(b);' % b, 'r[i] = k[i] ? static_cast<T>(a[i] %s b[i]) : a[i];' % b)
    upd('plus_assign_scalar', 'where(k_, v) += s;', 'r[i] = k[i] ? static_cast<T>(a[i] + s) : a[i];', ps=(S,))
    upd('minus_assign_int', 'where(k_, v) -= T(1);', 'r[i] = k[i] ? static_cast<T>(a[i] - T(1)) : a[i];', ps=())
    if isint(T):
        for b in ('<<', '>>'):
            upd(NM[b] + '_assign', 'where(k_, v) %s= ld(b);' % b, 'r[i] = k[i] ? static_cast<T>(a[i] %s b[i]) : a[i];' % b,
                mode={'enum': {'b': (0, w - 1)}})
        upd('complement', 'where(k_, v) = ~ld(b);', 'r[i] = k[i] ? static_cast<T>(~b[i]) : a[i];')
    for nm, e in (('preinc', '++where(k_, v)'), ('postinc', 'where(k_, v)++')):
        upd(nm, e + ';', 'r[i] = k[i] ? static_cast<T>(a[i] + 1) : a[i];', ps=())
    for nm, e in (('predec', '--where(k_, v)'), ('postdec', 'where(k_, v)--')):
        upd(nm, e + ';', 'r[i] = k[i] ? static_cast<T>(a[i] - 1) : a[i];', ps=())
    upd('negate', 'v = -where(k_, v);', 'r[i] = k[i] ? static_cast<T>(-a[i]) : a[i];', ps=())
    upd('negate_const', 'const V c = v; v = -where(k_, c);', 'r[i] = k[i] ? static_cast<T>(-a[i]) : a[i];', ps=())
    # masks as values
    for nm, op, f in (('assign', '=', 'b[i]'), ('and_assign', '&=', 'a[i] & b[i]'), ('or_assign', '|=', 'a[i] | b[i]'), ('xor_assign', '^=', 'a[i] ^ b[i]')):
        o.append(Op('mask_' + nm, [K, KA, KB, KR], 'M m = ldm(a); where(ldm(k), m) %s ldm(b); stm(m, r);' % op,
                    loop('r[i] = k[i] ? bool(%s) : a[i];' % f)))
    o.append(Op('mask_assign_bool', [K, KA, ('s', 'bool', None, 'in'), KR], 'M m = ldm(a); where(ldm(k), m) = s; stm(m, r);',
                loop('r[i] = k[i] ? s : a[i];')))
    # bool conditions
    o.append(Op('bool_plus', [('c', 'bool', None, 'in')] + P(T, A, B, R), 'for (int i = 0; i < N; ++i) { T x = a[i]; stdx::where(c, x) += b[i]; r[i] = x; }',
                loop('r[i] = c ? static_cast<T>(a[i] + b[i]) : a[i];')))
    # masked loads and stores: only the selected elements are touched
    for nm, fl in (('elem', 'stdx::element_aligned'), ('vec', 'stdx::vector_aligned')):
        def md(obj, mem=''):
            al = {'elem': w, 'vec': '8 * stdx::memory_alignment_v<V>'}[nm]
            return {'strictread': obj, 'align': {obj: al}}
        o.append(Op('masked_load_' + nm, P(T, K, A, B, R), 'V v = ld(b); where(ldm(k), v).copy_from(a, %s); st(v, r);' % fl,
                    loop('r[i] = k[i] ? a[i] : b[i];'), mode=md('a')))
        o.append(Op('masked_store_' + nm, P(T, K, A, R), 'V v = ld(a); where(ldm(k), v).copy_to(r, %s);' % fl,
                    loop('if (k[i]) r[i] = a[i];'), mode=md('r')))
    o.append(Op('masked_load_const', P(T, K, A, B, R), 'const V v = ld(b); V x = where(ldm(k), v).copy_from(a, EA()); st(x, r);',
                loop('r[i] = k[i] ? a[i] : b[i];'), mode={'strictread': 'a'}))
    o.append(Op('masked_store_const', P(T, K, A, R), 'const V v = ld(a); where(ldm(k), v).copy_to(r, EA());',
                loop('if (k[i]) r[i] = a[i];')))
    o.append(Op('mask_masked_load', [K, KA, KB, KR], 'M m = ldm(b); where(ldm(k), m).copy_from(a, EA()); stm(m, r);',
                loop('r[i] = k[i] ? a[i] : b[i];'), mode={'strictread': 'a', 'align': {'a': 8}}))
    o.append(Op('mask_masked_store', [K, KA, KR], 'M m = ldm(a); where(ldm(k), m).copy_to(r, EA());',
                loop('if (k[i]) r[i] = a[i];'), mode={'align': {'r': 8}}))
    for U in (cvt(T) if tier != 'quick' else [u for u in SMALL if u != T]) + XLD:
        s = U.replace(' ', '_')
        wu = MEMBITS.get(U, KIND[U][1])
        o.append(Op('masked_load_from_%s' % s, P(T, K, ('a', U, 'N', 'in'), B, R),
                    'V v = ld(b); where(ldm(k), v).copy_from(a, EA()); st(v, r);', loop('r[i] = k[i] ? static_cast<T>(a[i]) : b[i];'),
                    mode=dict(cmode(U, T), strictread='a', align={'a': wu})))
        o.append(Op('masked_store_to_%s' % s, P(T, K, A, ('r', U, 'N', 'out')),
                    'V v = ld(a); where(ldm(k), v).copy_to(r, EA());', loop('if (k[i]) r[i] = static_cast<%s>(a[i]);' % U),
                    mode=dict(cmode(T, U), align={'r': wu})))
    return o


def const_ops(T):
    o = []

    def upd(name, simd, ref, ps=(B,)):
        o.append(Op(name, P(T, K, A, *ps, R), 'V v = ld(a); M k_ = ldm(k); %s st(v, r);' % simd, loop(ref)))
    # compile-time constant masks and right-hand sides take shortcuts of their own
    pat = '(V([](auto i) { return T(int(i) % 3); }) == T(1))'
    for cn, m, c in (('all', 'M(true)', 'true'), ('none', 'M(false)', 'false'), ('pat', pat, 'i % 3 == 1')):
        def cupd(name, simd, expr, ps=(B,)):
            o.append(Op('c%s_%s' % (cn, name), P(T, A, *ps, R), 'V v = ld(a); const M k_ = %s; %s st(v, r);' % (m, simd), loop('r[i] = (%s) ? static_cast<T>(%s) : a[i];' % (c, expr))))
        cupd('assign', 'where(k_, v) = ld(b);', 'b[i]')
        cupd('assign_scalar', 'where(k_, v) = s;', 's', ps=(S,))
        cupd('assign_zero', 'where(k_, v) = T();', 'T()', ps=())
        for b in ('+', '*'):
            cupd(NM[b], 'where(k_, v) %s= ld(b);' % b, 'a[i] %s b[i]' % b)
        cupd('minus_scalar', 'where(k_, v) -= s;', 'a[i] - s', ps=(S,))
        cupd('preinc', '++where(k_, v);', 'a[i] + 1', ps=())
        cupd('postdec', 'where(k_, v)--;', 'a[i] - 1', ps=())
        cupd('negate', 'v = -where(k_, v);', '-a[i]', ps=())
        o.append(Op('c%s_masked_load' % cn, P(T, A, B, R), 'V v = ld(b); const M k_ = %s; where(k_, v).copy_from(a, EA()); st(v, r);' % m,
                    loop('r[i] = (%s) ? a[i] : b[i];' % c), mode={'strictread': 'a'}))
        o.append(Op('c%s_masked_store' % cn, P(T, A, R), 'V v = ld(a); const M k_ = %s; where(k_, v).copy_to(r, EA());' % m,
                    loop('if (%s) r[i] = a[i];' % c)))
        o.append(Op('c%s_mask_assign' % cn, [KA, KB, KR], 'M v = ldm(a); const M k_ = %s; where(k_, v) = ldm(b); stm(v, r);' % m, loop('r[i] = (%s) ? b[i] : a[i];' % c)))
        o.append(Op('c%s_mask_masked_load' % cn, [KA, KB, KR], 'M v = ldm(b); const M k_ = %s; where(k_, v).copy_from(a, EA()); stm(v, r);' % m, loop('r[i] = (%s) ? a[i] : b[i];' % c), mode={'strictread': 'a'}))
        o.append(Op('c%s_mask_masked_store' % cn, [KA, KR], 'M v = ldm(a); const M k_ = %s; where(k_, v).copy_to(r, EA());' % m, loop('if (%s) r[i] = a[i];' % c)))
    for i, c in enumerate(['T()', 'T(1)', 'T(-1)'] + (['-T()', 'T(0.5)', 'std::numeric_limits<T>::infinity()'] if isfloat(T) else ['std::numeric_limits<T>::max()', 'std::numeric_limits<T>::min()'])):
        upd('assign_constant_%d' % i, 'where(k_, v) = %s;' % c, 'r[i] = k[i] ? %s : a[i];' % c, ps=())
        upd('assign_constant_broadcast_%d' % i, 'where(k_, v) = V(%s);' % c, 'r[i] = k[i] ? %s : a[i];' % c, ps=())
        upd('plus_constant_%d' % i, 'where(k_, v) += %s;' % c, 'r[i] = k[i] ? static_cast<T>(a[i] + %s) : a[i];' % c, ps=())
    for c in ('true', 'false'):
        o.append(Op('mask_assign_' + c, [K, KA, KR], 'M m = ldm(a); where(ldm(k), m) = %s; stm(m, r);' % c, loop('r[i] = k[i] ? %s : a[i];' % c)))
    return o
