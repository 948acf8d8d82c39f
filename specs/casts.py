from common import *
from loadstore import cvt, cmode


def fits(T, U):
    """every value of T is a value of U (value-preserving conversion)"""
    (kt, wt), (ku, wu) = KIND[T], KIND[U]
    if kt == 'f':
        return ku == 'f' and wu >= wt
    if ku == 'f':
        return wt <= {32: 24, 64: 53}[wu] if kt == 'u' else wt - 1 <= {32: 24, 64: 53}[wu]
    if kt == ku:
        return wu >= wt
    return kt == 'u' and wu > wt


def ops_for(T, tier, target, abi):
    n = nlanes(target, abi, T)
    o = []

    def conv(name, U, expr, ps=(), mode=None, pre=''):
        o.append(Op(name, [('a', T, 'N', 'in'), ('r', U, 'N', 'out')],
                    'V v = ld(a); auto x = %s; static_assert(decltype(x)::size() == N); static_assert(std::is_same_v<typename decltype(x)::value_type, %s>);'
                    ' x.copy_to(r, EA());' % (expr, U), loop('r[i] = static_cast<%s>(a[i]);' % U), mode=dict(cmode(T, U), **(mode or {})), pre=pre, lay=layof(target, T, n, 'V') + layof(target, U, n)))

    us = cvt(T) + [T] if tier != 'quick' else [u for u in cvt(T) if u != 'unsigned' or T in ('unsigned long', 'double')] + [T]
    if tier != 'quick':
        us += [u for u in ('char', 'short', 'unsigned char', 'char16_t') if u not in us]
    if n > MAXFIXED:
        us = [u for u in us if KIND[u][1] == KIND[T][1] and isint(u) == isint(T)]
    for U in us:
        s = U.replace(' ', '_')
        if n <= MAXFIXED:
            conv('static_to_' + s, U, 'stdx::static_simd_cast<%s>(v)' % U)
            conv('static_to_fixed_' + s, U, 'stdx::static_simd_cast<stdx::fixed_size_simd<%s, N>>(v)' % U)
            conv('static_to_deduced_' + s, U, 'stdx::static_simd_cast<stdx::simd<%s, stdx::simd_abi::deduce_t<%s, N>>>(v)' % (U, U))
        if U != T and n <= MAXFIXED and n == nlanes(target, 'native', U):
            conv('static_to_native_' + s, U, 'stdx::static_simd_cast<stdx::native_simd<%s>>(v)' % U)
        if fits(T, U) and n <= MAXFIXED:
            conv('simd_cast_' + s, U, 'stdx::simd_cast<%s>(v)' % U)
            conv('simd_cast_fixed_' + s, U, 'stdx::simd_cast<stdx::fixed_size_simd<%s, N>>(v)' % U)
            if abi.startswith('fs') and U != T:
                conv('implicit_' + s, U, '[](const stdx::fixed_size_simd<%s, N>& y) { return y; }(v)' % U)
    if n <= MAXFIXED:
        conv('to_fixed_size', T, 'stdx::to_fixed_size(v)')
        conv('roundtrip_fixed', T, 'stdx::static_simd_cast<V>(stdx::to_fixed_size(v))')
    if abi.startswith('fs') and n == nlanes(target, 'native', T):
        conv('to_native', T, 'stdx::to_native(v)')
    if abi.startswith('fs') and n == nlanes(target, 'compat', T):
        conv('to_compatible', T, 'stdx::to_compatible(v)')
    # widening then narrowing and the like: two conversions in a row compose
    if n <= 16 and isint(T) and KIND[T][1] <= 16:
        conv('via_double', T, 'stdx::static_simd_cast<V>(stdx::static_simd_cast<stdx::fixed_size_simd<double, N>>(v))')
        conv('via_int', T, 'stdx::static_simd_cast<V>(stdx::static_simd_cast<stdx::fixed_size_simd<int, N>>(v))')
    # size-changing casts
    for nm, tgt in (('grow_fixed', 'stdx::fixed_size_simd<T, N + 3>'), ('shrink_fixed', 'stdx::fixed_size_simd<T, (N + 1) / 2>'),
                    ('grow_deduced', 'stdx::simd<T, stdx::simd_abi::deduce_t<T, 2 * N>>'), ('to_one', 'stdx::simd<T, stdx::simd_abi::scalar>'),
                    ('to_native', 'stdx::native_simd<T>'), ('to_four', 'stdx::simd<T, stdx::simd_abi::deduce_t<T, 4>>')):
        if {'grow_fixed': n + 3, 'grow_deduced': 2 * n}.get(nm, n) > MAXFIXED and nm != 'to_native':
            continue
        o.append(Op('resize_' + nm, [('a', T, 'N', 'in'), ('r', T, 'int(%s::size())' % tgt, 'out')],
                    'auto x = par::__proposed::resizing_simd_cast<%s>(ld(a)); x.copy_to(r, EA());' % tgt,
                    'constexpr int n2 = int(%s::size()); for (int i = 0; i < n2; ++i) { if (i < N) r[i] = a[i]; else r[i] = T(); }' % tgt,
                    lay=layof(target, T, n, 'V') + layof(target, T, 2 * n) + layof(target, T, n + 3) + layof(target, T, (n + 1) // 2)))
    return o
