from common import *


def ops_for(T, tier, target, abi):
    n = nlanes(target, abi, T)
    o = []
    same = loop('r[i] = k[i];')

    def conv(name, expr, cnt='N', ref=same, pre='', lay=()):
        o.append(Op(name, [K, ('r', 'bool', cnt, 'out')], 'M m = ldm(k); auto x = %s; static_assert(decltype(x)::size() == %s); x.copy_to(r, EA());' % (expr, cnt), ref,
                    pre=pre, lay=list(lay)))

    us = [u for u in (('signed char', 'unsigned', 'double', 'long', 'short', 'float') if tier != 'quick' else ('signed char', 'short', 'float', 'double', 'long')) if u != T]
    for U in us:
        s = U.replace(' ', '_')
        if n <= MAXFIXED:
            conv('static_to_fixed_' + s, 'par::__proposed::static_simd_cast<stdx::fixed_size_simd_mask<%s, N>>(m)' % U)
            conv('static_to_deduced_' + s, 'par::__proposed::static_simd_cast<stdx::simd_mask<%s, stdx::simd_abi::deduce_t<%s, N>>>(m)' % (U, U))
            conv('resize_to_fixed_' + s, 'par::__proposed::resizing_simd_cast<stdx::fixed_size_simd_mask<%s, N>>(m)' % U)
            # the compared values, not a loaded mask
            o.append(Op('static_of_comparison_' + s, P(T, A, B) + [('r', 'bool', 'N', 'out')],
                        'auto x = par::__proposed::static_simd_cast<stdx::simd_mask<%s, stdx::simd_abi::deduce_t<%s, N>>>(ld(a) == ld(b)); x.copy_to(r, EA());' % (U, U),
                        loop('r[i] = a[i] == b[i];')))
            if abi.startswith('fs'):
                conv('implicit_' + s, '[](const stdx::fixed_size_simd_mask<%s, N>& y) { return y; }(m)' % U)
        if n == nlanes(target, 'native', U):
            conv('static_to_native_' + s, 'par::__proposed::static_simd_cast<stdx::native_simd_mask<%s>>(m)' % U)
            conv('cvt_to_native_' + s, '[](const stdx::native_simd_mask<%s>& y) { return y; }(m.__cvt())' % U)
        n2 = 'int(stdx::native_simd_mask<%s>::size())' % U
        conv('resize_to_native_' + s, 'par::__proposed::resizing_simd_cast<stdx::native_simd_mask<%s>>(m)' % U, n2,
             'constexpr int n2 = %s; for (int i = 0; i < n2; ++i) { if (i < N) r[i] = k[i]; else r[i] = false; }' % n2)
        o.append(Op('resize_comparison_to_native_' + s, P(T, A, B) + [('r', 'bool', n2, 'out')],
                    'auto x = par::__proposed::resizing_simd_cast<stdx::native_simd_mask<%s>>(ld(a) == ld(b)); x.copy_to(r, EA());' % U,
                    'constexpr int n2 = %s; for (int i = 0; i < n2; ++i) { if (i < N) r[i] = a[i] == b[i]; else r[i] = false; }' % n2))
    for nm, tgt, c in (('grow', 'stdx::fixed_size_simd_mask<T, N + 3>', n + 3), ('shrink', 'stdx::fixed_size_simd_mask<T, (N + 1) / 2>', 1),
                       ('grow2', 'stdx::simd_mask<T, stdx::simd_abi::deduce_t<T, 2 * N>>', 2 * n), ('four', 'stdx::simd_mask<T, stdx::simd_abi::deduce_t<T, 4>>', 4),
                       ('three', 'stdx::simd_mask<T, stdx::simd_abi::deduce_t<T, 3>>', 3), ('scalar', 'stdx::simd_mask<T, stdx::simd_abi::scalar>', 1)):
        if c > MAXFIXED:
            continue
        n2 = 'int(%s::size())' % tgt
        conv('resize_' + nm, 'par::__proposed::resizing_simd_cast<%s>(m)' % tgt, n2,
             'constexpr int n2 = %s; for (int i = 0; i < n2; ++i) { if (i < N) r[i] = k[i]; else r[i] = false; }' % n2)
        if nm.startswith('grow') or nm == 'four':
            # the mask of a comparison: its padding lanes are whatever the comparison of padding gave
            o.append(Op('resize_%s_of_comparison' % nm, P(T, A, B) + [('r', 'bool', n2, 'out')], 'auto x = par::__proposed::resizing_simd_cast<%s>(ld(a) == ld(b)); x.copy_to(r, EA());' % tgt,
                        'constexpr int n2 = %s; for (int i = 0; i < n2; ++i) { if (i < N) r[i] = a[i] == b[i]; else r[i] = false; }' % n2))
            o.append(Op('resize_%s_of_negation' % nm, [K, ('r', 'bool', n2, 'out')], 'auto x = par::__proposed::resizing_simd_cast<%s>(!ldm(k)); x.copy_to(r, EA());' % tgt,
                        'constexpr int n2 = %s; for (int i = 0; i < n2; ++i) { if (i < N) r[i] = !k[i]; else r[i] = false; }' % n2))
    if n <= MAXFIXED:
        conv('to_fixed_size', 'stdx::to_fixed_size(m)')
        conv('roundtrip_fixed', 'par::__proposed::static_simd_cast<M>(stdx::to_fixed_size(m))')
    if abi.startswith('fs'):
        if n == nlanes(target, 'native', T):
            conv('to_native', 'stdx::to_native(m)')
        if n == nlanes(target, 'compat', T):
            conv('to_compatible', 'stdx::to_compatible(m)')
    if n <= 64:
        o.append(Op('to_bitset', [K], 'return ldm(k).__to_bitset().to_ullong();', 'unsigned long long x = 0; for (int i = 0; i < N; ++i) x |= (unsigned long long)(k[i]) << i; return x;', ret='unsigned long long'))
        o.append(Op('from_bitset', [('x', 'unsigned long long', None, 'in'), ('r', 'bool', 'N', 'out')], 'stm(M::__from_bitset(std::bitset<N>(x)), r);', loop('r[i] = (x >> i) & 1;')))
        o.append(Op('bitset_roundtrip', [K, ('r', 'bool', 'N', 'out')], 'stm(M::__from_bitset(~ldm(k).__to_bitset()), r);', loop('r[i] = !k[i];')))
        o.append(Op('first_selected', [K], 'auto r = par::__proposed::where(ldm(k)); auto i = r.begin(); return i == r.end() ? 99 : int(*i);',
                    'for (int i = 0; i < N; ++i) if (k[i]) return i; return 99;', ret='int'))
    return o
