from common import *
KR = ('r', 'bool', 'N', 'out')

FLAGS = [('elem', 'stdx::element_aligned', lambda w, al: w), ('vec', 'stdx::vector_aligned', None), ('over', 'stdx::overaligned<%d>', None)]


def cvt(T):
    """memory element types other than T"""
    us = ['signed char', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'float', 'double']
    return [u for u in us if u != T]


def cmode(U, T):
    m = {}
    if not isint(U) and isint(T):
        w = KIND[T][1]
        m['fprange'] = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if KIND[T][0] == 'i' else (0, (1 << w) - 1)
    elif KIND[U][1] == 64 and isint(U) and T == 'float':
        m['faithful'] = True   # int -> float may pick either neighbour [conv.fpint]
    return m


def ops_for(T, tier, target, abi):
    w = KIND[T][1]
    o = []

    def al(nm, obj, of, mem, ew):
        e = {'elem': ew, 'vec': '8 * stdx::memory_alignment_v<%s%s>' % (of, mem), 'over': 16 * ew}[nm]
        return {'strictread': True, 'align': {obj: e}}

    for nm, fl in (('elem', 'stdx::element_aligned'), ('vec', 'stdx::vector_aligned'),
                   ('over', 'stdx::overaligned<2 * sizeof(T)>')):
        ma, mr = al(nm, 'a', 'V', '', w), al(nm, 'r', 'V', '', w)
        o.append(Op('load_' + nm, P(T, A, R), 'V v; v.copy_from(a, %s); for (int i = 0; i < N; ++i) r[i] = v[i];' % fl,
                    loop('r[i] = a[i];'), mode=ma))
        o.append(Op('load_ctor_' + nm, P(T, A, R), 'const V v(a, %s); for (int i = 0; i < N; ++i) r[i] = v[i];' % fl,
                    loop('r[i] = a[i];'), mode=ma))
        o.append(Op('store_' + nm, P(T, A, R),
                    'V v([&](auto i) { return a[i]; }); v.copy_to(r, %s);' % fl, loop('r[i] = a[i];'), mode=mr))
        fk = fl.replace('2 * sizeof(T)', '2')
        mk, mr = al(nm, 'k', 'M', '', 8), al(nm, 'r', 'M', '', 8)
        o.append(Op('mask_load_' + nm, P(T, K, KR), 'M m; m.copy_from(k, %s); for (int i = 0; i < N; ++i) r[i] = m[i];' % fk,
                    loop('r[i] = k[i];'), mode=mk))
        o.append(Op('mask_load_ctor_' + nm, P(T, K, KR), 'const M m(k, %s); for (int i = 0; i < N; ++i) r[i] = m[i];' % fk,
                    loop('r[i] = k[i];'), mode=mk))
        o.append(Op('mask_store_' + nm, P(T, K, KR), 'M m = ldm(k); m.copy_to(r, %s);' % fk,
                    loop('r[i] = k[i];'), mode=mr))
        o.append(Op('mask_store_cmp_' + nm, P(T, A, B, KR), '(ld(a) == ld(b)).copy_to(r, %s);' % fk,
                    loop('r[i] = a[i] == b[i];'), mode=mr))
    # an object in the middle of a larger one: neighbours are neither read nor written
    o.append(Op('load_offset', [('a', T, 'N + 2', 'in'), ('r', T, 'N + 2', 'out')],
                'V v; v.copy_from(a + 1, stdx::element_aligned); v.copy_to(r + 1, stdx::element_aligned);',
                loop('r[i + 1] = a[i + 1];'), mode={'strictread': True, 'align': {'a': w, 'r': w}}))
    for U in cvt(T) + (['long double'] if target not in CROSS else []):
        s = U.replace(' ', '_')
        wu = MEMBITS.get(U, KIND[U][1])
        for nm, fl in (('elem', 'stdx::element_aligned'), ('vec', 'stdx::vector_aligned')):
            m = dict(cmode(U, T), **al(nm, 'a', 'V, ', U, wu))
            o.append(Op('load_from_%s_%s' % (s, nm), [('a', U, 'N', 'in'), ('r', T, 'N', 'out')],
                        'V v; v.copy_from(a, %s); for (int i = 0; i < N; ++i) r[i] = v[i];' % fl,
                        loop('r[i] = static_cast<T>(a[i]);'), mode=m))
            m = dict(cmode(T, U), **al(nm, 'r', 'V, ', U, wu))
            o.append(Op('store_to_%s_%s' % (s, nm), [('a', T, 'N', 'in'), ('r', U, 'N', 'out')],
                        'V v = ld(a); v.copy_to(r, %s);' % fl,
                        loop('r[i] = static_cast<%s>(a[i]);' % U), mode=m))
    return o
