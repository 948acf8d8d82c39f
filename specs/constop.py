"""operands known at compile time: the obligations of the value modules again, with one or all operands replaced by constants.

The library looks at its operands with __builtin_constant_p and the compiler folds through them, so
the code that runs for `v + V(2)` is not the code that runs for `v + w`."""
import re, zlib
from common import *
import arith, shifts, compare_ops, unary, casts, splitconcat, reduce, minmax, maskconv, where, mathf, mathdec, maskred

MODS = [arith, shifts, compare_ops, unary, casts, splitconcat, reduce, minmax, maskconv, where, maskred, mathf, mathdec]

PRE = '''
#include <limits>
template <class C, class = typename C::is_const> static inline V ld(C) { return V([](auto i) { return C()[int(i)]; }); }
template <class C, class = typename C::is_const> static inline M ldm(C) {
  const V x([](auto i) { return C()[int(i)] ? T(1) : T(0); }); return x == T(1); }
#define CONST(n, ty, e) struct n { using is_const = int; constexpr ty operator[](int i) const { return e; } };
'''


def prelude_const(T, abi):
    return prelude(T, abi) + PRE


def patterns(T, m, op, n, p):
    """(name, element expression) of the constants tried for operand number p of an operation"""
    div = re.search(r'div|mod|quot|rem|ldexp|scalb', op)
    r = [('mix', 'T(1 + (i * 7 + %d) %% 5)' % (3 * p)), ('all2', 'T(%d)' % (2 + p))]
    if isfloat(T):
        r += [('one', 'T(1)')]
        if m not in ('minmax', 'reduce'):
            r += [('negzero', '-T()')]
            if not re.search('store|cast|rint|round|ilogb|to_', op):
                r += [('special', 'i % 2 ? std::numeric_limits<T>::infinity() : T(-1.5)'), ('extreme', 'i % 2 ? std::numeric_limits<T>::min() / 4 : std::numeric_limits<T>::max()')]
    else:
        r += [('one', 'T(1)')]
        if not div or p == 0 and re.fullmatch('(divides|modulus)(_assign)?', op):
            r += [('zero', 'T()')]
        if not div and not re.search('shift|sh[lr]|reduce|sum|mul', op):
            r += [('ends', 'i % 3 == 0 ? std::numeric_limits<T>::max() : i % 3 == 1 ? std::numeric_limits<T>::min() : T(1)')]
    return r


MASKS = [('true', 'true'), ('false', 'false'), ('alt', 'i % 2 == 0'), ('first', 'i == 0')]


def ops_for(T, tier, target, abi, mods=None):
    out = []
    for m in mods or MODS:
        for o in specops(m, T, 'quick', target, abi):
            if re.search('const|same|call_|cpat|cnone|clast|ilogb', o.name) or m is maskred and re.match('cmp_|eq_|bcast', o.name):
                continue
            ins = [p for p in o.params if p[3] == 'in' and p[2] == 'N' and p[1] in (T, 'bool')]
            ok = []
            for p in ins:
                n = p[0]
                f = 'ldm' if p[1] == 'bool' else 'ld'
                if re.search(r'\b%s\b' % n, re.sub(r'\b%s\(%s\)' % (f, n), '', o.simd)) or re.search(r'\b%s\b' % n, re.sub(r'\b%s\[' % n, '', o.ref)):
                    continue
                if o.mode.get('alt') and any(re.search(r'\b%s\b' % n, re.sub(r'\b%s\[' % n, '', a)) for a in o.mode['alt']):
                    continue
                ok.append(p)
            sets = [[p] for p in ok] + ([ok] if len(ok) > 1 else [])
            for s in sets:
                pats = [MASKS if p[1] == 'bool' else patterns(T, m.__name__, o.name, p[0], o.params.index(p)) for p in s]
                if T in ('int', 'long', 'long long') and s == ok:      # nothing is left variable: no signed overflow
                    pats = [[q for q in ps if q[0] != 'ends'] for ps in pats]
                k = max(map(len, pats))
                js = range(k)
                if tier == 'quick':         # one of the patterns, a different one for each configuration
                    js = [zlib.crc32(('%s/%s/%s/%s/%s' % (target, abi, T, o.name, s[0][0])).encode()) % k]
                for j in js:
                    decl, nm = '', []
                    for p, pt in zip(s, pats):
                        cn, e = pt[j % len(pt)]
                        decl += 'CONST(c_%s, %s, (%s)) c_%s %s; ' % (p[0], 'bool' if p[1] == 'bool' else 'T', e, p[0], p[0])
                        nm.append('%s_%s' % (p[0], cn))
                    w = lambda body: '{ %s { %s } }' % (decl, body)
                    mode = dict(o.mode)
                    if 'alt' in mode:
                        mode['alt'] = [w(a) for a in mode['alt']]
                    out.append(Op('%s.%s.%s' % (m.__name__, o.name, '.'.join(nm)), o.params, w(o.simd), w(o.ref), o.ret, mode, o.pre, o.lay))
    seen, res = set(), []
    for o in out:
        if o.name not in seen:
            seen.add(o.name)
            res.append(o)
    return res

