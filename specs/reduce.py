from common import *
# keep the optimiser from specialising on the mask and the identity element
PLAIN = ('-fno-thread-jumps', '-fno-tree-dominator-opts', '-fno-tree-vrp', '-fno-split-paths')

FOPS = [('plus', 'std::plus<>{}', 'x + y', '0'), ('multiplies', 'std::multiplies<>{}', 'x * y', '1')]
IOPS = FOPS + [('bit_and', 'std::bit_and<>{}', 'x & y', '~T()'), ('bit_or', 'std::bit_or<>{}', 'x | y', '0'), ('bit_xor', 'std::bit_xor<>{}', 'x ^ y', '0')]


def ops_for(T, tier, target, abi):
    o = _ops(T, abi)
    if nlanes(target, abi, T) > 8:   # generic code: the narrower configurations show the same statement
        o = [x for x in o if not x.name.startswith('masked_') or x.name.endswith('_none')]
    return o


def _ops(T, abi):
    o = []
    f = isfloat(T)
    ret = T
    for nm, op, ex, ident in (FOPS if f else IOPS):
        mode = {'ret': 'f', 'ac': 'mul' if nm == 'multiplies' else True, 'zeroeq': True, 'flags': PLAIN} if f else {'ac': True, 'flags': PLAIN}
        ref = 'T x = a[0]; for (int i = 1; i < N; ++i) { const T y = a[i]; x = T(%s); } return x;' % ex
        mref = 'T x = k[0] ? a[0] : T(%s); for (int i = 1; i < N; ++i) { const T y = k[i] ? a[i] : T(%s); x = T(%s); } return x;' % (ident, ident, ex)
        o.append(Op('reduce_' + nm, P(T, A), 'return stdx::reduce(ld(a), %s);' % op, ref, ret=ret, mode=mode))
        o.append(Op('masked_reduce_' + nm, P(T, A) + [K], 'V v = ld(a); return stdx::reduce(stdx::where(ldm(k), v), %s);' % op, mref, ret=ret, mode=mode))
        o.append(Op('masked_reduce_id_' + nm, P(T, A) + [K], 'V v = ld(a); return stdx::reduce(stdx::where(ldm(k), v), T(%s), %s);' % (ident, op), mref, ret=ret, mode=mode))
    mode = {'ret': 'f', 'ac': True, 'zeroeq': True, 'flags': PLAIN} if f else {'ac': True, 'flags': PLAIN}
    plus = 'T x = a[0]; for (int i = 1; i < N; ++i) { const T y = a[i]; x = T(x + y); } return x;'
    o.append(Op('reduce_default', P(T, A), 'return stdx::reduce(ld(a));', plus, ret=ret, mode=mode))
    o.append(Op('masked_reduce_default', P(T, A) + [K], 'V v = ld(a); return stdx::reduce(stdx::where(ldm(k), v));',
                'T x = k[0] ? a[0] : T(0); for (int i = 1; i < N; ++i) { const T y = k[i] ? a[i] : T(0); x = T(x + y); } return x;', ret=ret, mode=mode))
    # a function object of the user's (must be applied to every element once)
    o.append(Op('reduce_lambda_plus', P(T, A), 'return stdx::reduce(ld(a), [](auto x, auto y) __attribute__((always_inline)) { return x + y; });', plus, ret=ret, mode=mode))
    o.append(Op('none_selected', P(T, A) + [('s', T, None, 'in')], 'V v = ld(a); return stdx::reduce(stdx::where(M(false), v), s, std::plus<>{});', 'return s;', ret=ret, mode=mode))
    mm = {'ret': 'f', 'facmm': True, 'nonan': True, 'zeroeq': True, 'flags': PLAIN} if f else {'ac': True, 'flags': PLAIN}
    L = 'std::numeric_limits<T>'
    for nm, cmp, lit in (('min', 'y < x', ('%s::infinity()' % L) if f else '%s::max()' % L), ('max', 'x < y', ('-%s::infinity()' % L) if f else '%s::lowest()' % L)):
        ref = 'T x = a[0]; for (int i = 1; i < N; ++i) { const T y = a[i]; x = %s ? y : x; } return x;' % cmp
        o.append(Op('h' + nm, P(T, A), 'return stdx::h%s(ld(a));' % nm, ref, ret=ret, mode=mm))
        o.append(Op('reduce_lambda_' + nm, P(T, A), 'return stdx::reduce(ld(a), [](auto x, auto y) __attribute__((always_inline)) { return stdx::%s(x, y); });' % nm, ref, ret=ret, mode=mm))
        # some lane has to be selected; each of the two extreme lanes takes the part of the one that always is
        for J in ('0', 'N - 1'):
            o.append(Op('masked_h%s_%s' % (nm, 'first' if J == '0' else 'last'), P(T, A) + [K], 'V v = ld(a); M m = ldm(k); m[%s] = true; return stdx::h%s(stdx::where(m, v));' % (J, nm),
                        'const int J = %s; T x = a[J]; for (int i = 0; i < N; ++i) if (i != J) { const T y = k[i] ? a[i] : T(%s); x = %s ? y : x; } return x;' % (J, lit, cmp), ret=ret, mode=mm))
        o.append(Op('masked_h%s_none' % nm, P(T, A), 'V v = ld(a); return stdx::h%s(stdx::where(M(false), v));' % nm,
                    'return %s::%s();' % (L, {'min': 'max', 'max': 'lowest'}[nm]), ret=ret, mode=mm))
    return o
