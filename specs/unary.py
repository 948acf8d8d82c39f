from common import *


def ops(T, tier):
    o = [Op('negate', P(T, A, R), 'st(-ld(a), r);', loop('r[i] = static_cast<T>(-a[i]);')),
         Op('plus', P(T, A, R), 'st(+ld(a), r);', loop('r[i] = static_cast<T>(+a[i]);')),
         Op('preinc', P(T, A, R), 'V v = ld(a); V w = ++v; st(w, r);', loop('r[i] = static_cast<T>(a[i] + 1);')),
         Op('preinc_obj', P(T, A, R), 'V v = ld(a); ++v; st(v, r);', loop('r[i] = static_cast<T>(a[i] + 1);')),
         Op('predec', P(T, A, R), 'V v = ld(a); V w = --v; st(w, r);', loop('r[i] = static_cast<T>(a[i] - 1);')),
         Op('postinc', P(T, A, R), 'V v = ld(a); V w = v++; st(w, r);', loop('r[i] = a[i];')),
         Op('postinc_obj', P(T, A, R), 'V v = ld(a); v++; st(v, r);', loop('r[i] = static_cast<T>(a[i] + 1);')),
         Op('postdec', P(T, A, R), 'V v = ld(a); V w = v--; st(w, r);', loop('r[i] = a[i];')),
         Op('postdec_obj', P(T, A, R), 'V v = ld(a); v--; st(v, r);', loop('r[i] = static_cast<T>(a[i] - 1);'))]
    if isint(T):
        o.append(Op('complement', P(T, A, R), 'st(~ld(a), r);', loop('r[i] = static_cast<T>(~a[i]);')))
    return o
