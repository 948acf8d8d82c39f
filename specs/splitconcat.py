from common import *
KR = lambda n='N': ('r', 'bool', n, 'out')


def ops_for(T, tier, target, abi):
    n = nlanes(target, abi, T)
    fs = abi.startswith('fs')
    o = []
    lv = lambda *ns: [l for m in ns for l in layof(target, T, m)] + layof(target, T, n, 'V')

    def sizes(tag, szs):
        """split into consecutive parts of the given sizes, then write them back in order"""
        if any(s <= 0 for s in szs) or sum(szs) != n or max(szs) > MAXFIXED:
            return
        st, off = '', 0
        for i, s in enumerate(szs):
            st += 'std::get<%d>(t).copy_to(r + %d, EA()); static_assert(std::tuple_element_t<%d, decltype(t)>::size() == %d);' % (i, off, i, s)
            off += s
        o.append(Op('split_' + tag, P(T, A, R), 'V v = ld(a); auto t = stdx::split<%s>(v); static_assert(std::tuple_size_v<decltype(t)> == %d); %s'
                    % (', '.join(map(str, szs)), len(szs), st), loop('r[i] = a[i];'), lay=lv(*szs)))

    h, q = n // 2, n // 4
    if n <= MAXFIXED:
        sizes('whole', [n])
    if n > 1:
        sizes('halves', [h, n - h])
        sizes('one_rest', [1, n - 1])
        sizes('rest_one', [n - 1, 1])
    if n >= 4 and n % 4 == 0:
        sizes('quarters', [q] * 4)
        sizes('half_q_q', [h, q, q])
        sizes('q_q_half', [q, q, h])
        sizes('q_half_q', [q, h, q])
    if n % 3 == 0 and n > 3:
        t = n // 3
        sizes('thirds', [t] * 3)
        sizes('2t_t', [2 * t, t])
        sizes('t_2t', [t, 2 * t])
    if n >= 3:
        sizes('three', [1, n - 2, 1])
    if n >= 5:
        sizes('2_3', [2, n - 5, 3] if n > 5 else [2, 3])
    if 4 <= n <= 8:
        sizes('ones', [1] * n)

    def parts(tag, W, k, mask=True, pre=''):
        """split<V>: array of equal parts"""
        if k < 1 or n % k:
            return
        m = n // k
        o.append(Op('split_%s' % tag, P(T, A, R),
                    'V v = ld(a); auto t = stdx::split<%s>(v); static_assert(std::is_same_v<decltype(t), std::array<%s, %d>>); for (int p = 0; p < %d; ++p) t[p].copy_to(r + p * %d, EA());'
                    % (W, W, k, k, m), loop('r[i] = a[i];'), lay=lv(m)))
        if mask:
            W_ = 'typename %s::mask_type' % W
            o.append(Op('split_mask_%s' % tag, [K, KR()],
                        'M v = ldm(k); auto t = stdx::split<%s>(v); static_assert(t.size() == %d); for (int p = 0; p < %d; ++p) t[p].copy_to(r + p * %d, EA());'
                        % (W_, k, k, m), loop('r[i] = k[i];')))

    sc = 'stdx::simd<T, stdx::simd_abi::scalar>'
    parts('same', 'V', 1)
    if n <= MAXFIXED:
        parts('same_fixed', 'stdx::fixed_size_simd<T, %d>' % n, 1)
    if n <= 16:
        parts('scalars', sc, n)
    for k in (2, 3, 4):
        if n % k == 0 and 1 < n // k <= MAXFIXED:
            parts('fixed_%d' % k, 'stdx::fixed_size_simd<T, %d>' % (n // k), k)
            parts('deduced_%d' % k, 'stdx::simd<T, stdx::simd_abi::deduce_t<T, %d>>' % (n // k), k)
    for nm, nn in (('native', nlanes(target, 'native', T)), ('compat', 16 // (KIND[T][1] // 8))):
        if n % nn == 0 and n > nn:
            parts(nm, 'stdx::simd<T, %s>' % {'native': 'stdx::simd_abi::native<T>', 'compat': 'stdx::simd_abi::compatible<T>'}[nm], n // nn)

    def cat(tag, ps, expr, tot, ref):
        if tot <= MAXFIXED:
            o.append(Op('concat_' + tag, ps + [('r', T, str(tot), 'out')], 'auto x = %s; static_assert(decltype(x)::size() == %d); '
                        'static_assert(std::is_same_v<decltype(x), stdx::simd<T, stdx::simd_abi::deduce_t<T, %d>>>); x.copy_to(r, EA());' % (expr, tot, tot),
                        ref, lay=lv(tot)))
    a, b = P(T, A), P(T, B)
    cat('one', a, 'stdx::concat(ld(a))', n, loop('r[i] = a[i];'))
    cat('two', a + b, 'stdx::concat(ld(a), ld(b))', 2 * n, loop('r[i] = a[i]; r[N + i] = b[i];'))
    cat('three', a + b, 'stdx::concat(ld(a), ld(b), ld(a))', 3 * n, loop('r[i] = a[i]; r[N + i] = b[i]; r[2 * N + i] = a[i];'))
    cat('four', a + b, 'stdx::concat(ld(b), ld(a), ld(b), ld(a))', 4 * n, loop('r[i] = b[i]; r[N + i] = a[i]; r[2 * N + i] = b[i]; r[3 * N + i] = a[i];'))
    cat('scalar', a, 'stdx::concat(ld(a), %s(a[0]))' % sc, n + 1, loop('r[i] = a[i];') + 'r[N] = a[0];')
    cat('scalar_first', a, 'stdx::concat(%s(a[0]), ld(a))' % sc, n + 1, loop('r[i + 1] = a[i];') + 'r[0] = a[0];')
    cat('fixed3', a + P(T, ('b', 'T', '3', 'in')), 'stdx::concat(ld(a), stdx::fixed_size_simd<T, 3>(b, EA()))', n + 3,
        loop('r[i] = a[i];') + 'for (int i = 0; i < 3; ++i) r[N + i] = b[i];')
    cat('array2', a + b, 'stdx::concat(std::array<V, 2>{{ld(a), ld(b)}})', 2 * n, loop('r[i] = a[i]; r[N + i] = b[i];'))
    cat('array3', a + b, 'stdx::concat(std::array<V, 3>{{ld(a), ld(b), ld(a)}})', 3 * n, loop('r[i] = a[i]; r[N + i] = b[i]; r[2 * N + i] = a[i];'))
    if 1 < n <= MAXFIXED:
        cat('of_split', a, 'std::apply([](auto... x) { return stdx::concat(x...); }, stdx::split<%d, %d>(ld(a)))' % (h, n - h), n, loop('r[i] = a[i];'))
    if n <= 16 and n > 1:
        cat('of_split_array', a, 'stdx::concat(stdx::split<%s>(ld(a)))' % sc, n, loop('r[i] = a[i];'))
    return o
