from common import *
IDX = ('n', 'int', None, 'in')
S = ('s', 'T', None, 'in')
KR = ('r', 'bool', 'N', 'out')


def ops(T, tier):
    o = [Op('broadcast', P(T, S, R), 'st(V(s), r);', loop('r[i] = s;')),
         Op('broadcast_assign', P(T, S, R), 'V v = s; st(v, r);', loop('r[i] = s;')),
         Op('generator', P(T, A, R), 'st(V([&](auto i) { return a[N - 1 - i]; }), r);', loop('r[i] = a[N - 1 - i];')),
         Op('generator_index', P(T, R), 'st(V([](auto i) { return T(i % 100); }), r);', loop('r[i] = T(i % 100);')),
         Op('default_value_init', P(T, R), 'V v{}; st(v, r);', loop('r[i] = T();')),
         Op('copy', P(T, A, R), 'V v = ld(a); V w(v); V x; x = w; st(x, r);', loop('r[i] = a[i];')),
         Op('mask_broadcast', P(T, KR) + [('s', 'bool', None, 'in')], 'stm(M(s), r);', loop('r[i] = s;')),
         Op('mask_default', P(T, KR), 'M m{}; stm(m, r);', loop('r[i] = false;')),
         Op('reference_read', P(T, A) + [('r', T, 'N', 'out')],
            'V v = ld(a); const V& c = v; for (int i = 0; i < N; ++i) r[i] = c[N - 1 - i];', loop('r[i] = a[N - 1 - i];')),
         Op('reference_convert', P(T, A, R), 'V v = ld(a); for (int i = 0; i < N; ++i) r[i] = T(v[i]);', loop('r[i] = a[i];')),
         Op('mask_read', P(T, K, KR), 'const M m = ldm(k); for (int i = 0; i < N; ++i) r[i] = m[i];', loop('r[i] = k[i];')),
         Op('mask_read_nonconst', P(T, K, KR), 'M m = ldm(k); for (int i = 0; i < N; ++i) r[i] = m[N - 1 - i];',
            loop('r[i] = k[N - 1 - i];'))]
    wr = lambda nm, simd, ref, ps=(): o.append(Op(nm, P(T, A, B, R) + list(ps), simd, ref))
    for pos, e in (('first', '0'), ('last', 'N - 1'), ('mid', 'N / 2')):
        wr('assign_' + pos, 'V v = ld(a); v[%s] = b[0]; st(v, r);' % e, loop('r[i] = i == %s ? b[0] : a[i];' % e))
    wr('assign_all', 'V v = ld(a); for (int i = 0; i < N; ++i) v[i] = b[N - 1 - i]; st(v, r);', loop('r[i] = b[N - 1 - i];'))
    ops_ = ['+', '-', '*'] + (['&', '|', '^'] if isint(T) else [])
    for i, b in enumerate(ops_):
        wr('ref_compound_%d' % i, 'V v = ld(a); v[N - 1] %s= b[0]; st(v, r);' % b,
           loop('r[i] = i == N - 1 ? static_cast<T>(a[i] %s b[0]) : a[i];' % b))
    wr('ref_preinc', 'V v = ld(a); ++v[0]; st(v, r);', loop('r[i] = i == 0 ? static_cast<T>(a[i] + 1) : a[i];'))
    wr('ref_postinc', 'V v = ld(a); T x = v[0]++; st(v, r); r[0] = x;', loop('r[i] = a[i];'))
    wr('ref_postinc_obj', 'V v = ld(a); v[N-1]++; st(v, r);', loop('r[i] = i == N - 1 ? static_cast<T>(a[i] + 1) : a[i];'))
    wr('ref_postdec_obj', 'V v = ld(a); v[0]--; st(v, r);', loop('r[i] = i == 0 ? static_cast<T>(a[i] - 1) : a[i];'))
    wr('ref_postdec', 'V v = ld(a); T x = v[0]--; st(v, r); r[0] = x;', loop('r[i] = a[i];'))
    wr('ref_predec', 'V v = ld(a); --v[N - 1]; st(v, r);',
       loop('r[i] = i == N - 1 ? static_cast<T>(a[i] - 1) : a[i];'))
    wr('swap_refs', 'V v = ld(a); swap(v[0], v[N - 1]); st(v, r);',
       loop('r[i] = i == 0 ? a[N - 1] : i == N - 1 ? a[0] : a[i];'))
    wr('swap_ref_value', 'V v = ld(a); T x = b[0]; swap(v[N - 1], x); st(v, r); r[0] = x;',
       loop('r[i] = i == 0 ? a[N - 1] : i == N - 1 ? b[0] : a[i];'))
    wr('swap_value_ref', 'V v = ld(a); T x = b[0]; swap(x, v[N - 1]); st(v, r); r[0] = x;',
       loop('r[i] = i == 0 ? a[N - 1] : i == N - 1 ? b[0] : a[i];'))
    wr('swap_two_objects', 'V v = ld(a), w = ld(b); swap(v[0], w[N - 1]); st(v, r);',
       loop('r[i] = i == 0 ? b[N - 1] : a[i];'))
    o.append(Op('mask_write', P(T, K, ('l', 'bool', 'N', 'in'), KR), 'M m = ldm(k); m[N / 2] = l[0]; stm(m, r);',
                loop('r[i] = i == N / 2 ? l[0] : k[i];')))
    o.append(Op('mask_write_all', P(T, K, KR), 'M m = ldm(k); for (int i = 0; i < N; ++i) m[i] = k[N - 1 - i]; stm(m, r);',
                loop('r[i] = k[N - 1 - i];')))
    wr('default_init_then_assign', 'V v; for (int i = 0; i < N; ++i) v[i] = a[i]; st(v, r);', loop('r[i] = a[i];'))
    o.append(Op('mask_default_init_then_assign', P(T, K, KR), 'M m; for (int i = 0; i < N; ++i) m[i] = k[i]; stm(m, r);',
                loop('r[i] = k[i];')))
    o.append(Op('mask_default_init_all_of', P(T, K), 'M m; for (int i = 0; i < N; ++i) m[i] = k[i]; return stdx::all_of(m);',
                'bool r = true; for (int i = 0; i < N; ++i) r = r && k[i]; return r;', ret='bool'))
    o.append(Op('mask_default_init_none_of', P(T, K), 'M m; for (int i = 0; i < N; ++i) m[i] = k[i]; return stdx::none_of(m);',
                'bool r = true; for (int i = 0; i < N; ++i) r = r && !k[i]; return r;', ret='bool'))
    o.append(Op('mask_default_init_popcount', P(T, K), 'M m; for (int i = 0; i < N; ++i) m[i] = k[i]; return stdx::popcount(m);',
                'int r = 0; for (int i = 0; i < N; ++i) r += k[i]; return r;', ret='int'))
    o.append(Op('mask_ref_compound', P(T, K, ('l', 'bool', 'N', 'in'), KR),
                'M m = ldm(k); m[0] &= l[0]; m[N - 1] |= l[N - 1]; stm(m, r);',
                'bool t[N]; for (int i = 0; i < N; ++i) t[i] = k[i]; t[0] = t[0] && l[0]; t[N - 1] = t[N - 1] || l[N - 1];'
                + loop('r[i] = t[i];')))
    return o
