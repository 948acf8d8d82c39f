"""type-level obligations; every expected value is computed here, from the text of the TS, not from the headers"""
import re
from common import *
from witness import W, job

VT = ['char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long',
      'unsigned long long', 'char16_t', 'char32_t', 'wchar_t', 'float', 'double', 'long double']
FP = ('float', 'double', 'long double')
DIG = {'float': 24, 'double': 53, 'long double': 64}
MAXE = {'float': 128, 'double': 1024, 'long double': 16384}
CHARS = {'char', 'char16_t', 'char32_t', 'wchar_t'}
RANK = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'short': 2, 'unsigned short': 2, 'char16_t': 2, 'int': 3, 'unsigned': 3,
        'char32_t': 3, 'wchar_t': 3, 'long': 4, 'unsigned long': 4, 'long long': 5, 'unsigned long long': 5}
from driver import kind


class Mach:
    def __init__(self, target):
        self.t = target

    def fp(self, T):
        return T in FP

    def width(self, T):
        return kind(self.t, T)[1]

    def size(self, T):
        return 16 if T == 'long double' else self.width(T) // 8

    def signed(self, T):
        return T in FP or kind(self.t, T)[0] == 'i'

    def digits(self, T):
        if T == 'long double':
            return {'neon': 113, 'ppc': 106}.get(self.t, 64)
        return DIG[T] if T in FP else self.width(T) - self.signed(T)

    def vp(self, U, T):
        """every value of U is representable in T"""
        if U == T:
            return True
        if self.fp(U):
            return self.fp(T) and self.digits(T) >= self.digits(U) and MAXE[T] >= MAXE[U]
        if self.signed(U) and not self.signed(T):
            return False
        return self.digits(T) >= self.digits(U)

    def broadcast(self, U, T):
        return self.vp(U, T) or U == 'int' or U == 'unsigned' and not self.fp(T) and not self.signed(T)

    def higher_rank(self, U, T):
        return self.fp(U) or self.fp(T) or RANK[T] > RANK[U]

    def bytes(self, T):
        """size of a native register, 0 when the type is not vectorised"""
        s = self.size(T)
        if s > 8:
            return 0
        if self.t in ('skx',):
            return 64
        if self.t == 'knl' and s >= 4:
            return 64
        if self.t in ('avx2', 'knl'):
            return 32
        if self.t == 'avx' and self.fp(T):
            return 32
        return 16

    def native(self, T):
        return max(1, self.bytes(T) // self.size(T))

    def compat(self, T):
        return 1 if self.size(T) > 8 or self.t == 'ppc' else 16 // self.size(T)

    def maxfixed(self, T):
        return 64 if self.t == 'skx' and self.size(T) == 1 else 32


def eq(*xs):
    return '(%s) == (%s)' % xs


def same(a, b):
    return 'std::is_same_v<%s, %s>' % (a, b)


def b(x):
    return 'true' if x else 'false'


def nm(T):
    return SHORT.get(T, T).replace(' ', '_')


def abis(m, T):
    """(name, type, size) of valid ABI tags for T"""
    r = [('scalar', 'stdx::simd_abi::scalar', 1), ('native', 'stdx::simd_abi::native<%s>' % T, m.native(T)),
         ('compatible', 'stdx::simd_abi::compatible<%s>' % T, m.compat(T))]
    for n in (1, 2, 3, 5, 8, 17, 32):
        r.append(('fixed%d' % n, 'stdx::simd_abi::fixed_size<%d>' % n, n))
    for n in (1, 2, 3, 4, 7, 12, 16, 24):
        r.append(('deduce%d' % n, 'stdx::simd_abi::deduce_t<%s, %d>' % (T, n), n))
    return r


def traits(target, T):
    m = Mach(target)
    o = []
    t = nm(T)
    A = abis(m, T)
    for an, a, n in A:
        V = 'stdx::simd<%s, %s>' % (T, a)
        K = 'stdx::simd_mask<%s, %s>' % (T, a)
        def w(name, *conds):
            o.append(W('%s_%s' % (name, an), ' && '.join('(%s)' % c for c in conds)))
        w('is_abi_tag', 'stdx::is_abi_tag_v<%s>' % a, 'stdx::is_abi_tag<%s>::value' % a)
        w('simd_size', eq('stdx::simd_size_v<%s, %s>' % (T, a), n), eq('stdx::simd_size<%s, %s>::value' % (T, a), n), eq('%s::size()' % V, n), eq('%s::size()' % K, n))
        w('is_simd', 'stdx::is_simd_v<%s>' % V, '!stdx::is_simd_mask_v<%s>' % V, 'stdx::is_simd_mask_v<%s>' % K, '!stdx::is_simd_v<%s>' % K)
        w('members', same('typename %s::value_type' % V, T), same('typename %s::mask_type' % V, K), same('typename %s::abi_type' % V, a),
          same('typename %s::value_type' % K, 'bool'), same('typename %s::simd_type' % K, V), same('typename %s::abi_type' % K, a))
        w('alignment', *[c for U in (T, 'char', 'double') for c in (
            'stdx::memory_alignment_v<%s, %s> %% alignof(%s) == 0' % (V, U, U),
            '(stdx::memory_alignment_v<%s, %s> & (stdx::memory_alignment_v<%s, %s> - 1)) == 0' % (V, U, V, U))],
          same('std::integral_constant<std::size_t, stdx::memory_alignment_v<%s>>' % V, 'std::integral_constant<std::size_t, stdx::memory_alignment_v<%s, %s>>' % (V, T)),
          'stdx::memory_alignment_v<%s> >= alignof(bool)' % K)
        # an array object of the alignment and size of the vector holds its elements
        w('storage', 'sizeof(%s) >= %d * sizeof(%s)' % (V, n, T), 'sizeof(%s) %% alignof(%s) == 0' % (V, V))
        w('regular', *['std::is_%s_v<%s>' % (p, X) for X in (V, K) for p in ('default_constructible', 'copy_constructible', 'move_constructible',
                                                                         'copy_assignable', 'move_assignable', 'destructible')],
          *['noexcept(%s(std::declval<%s>()))' % (X, X) for X in ()])
        w('not_other', '!stdx::is_abi_tag_v<%s>' % V, '!stdx::is_simd_v<const %s&>' % V, '!std::is_convertible_v<%s, %s>' % (V, T), '!std::is_convertible_v<%s, bool>' % K,
          '!std::is_constructible_v<%s, %s>' % (T, V), '!std::is_constructible_v<bool, %s>' % K)
        w('reference', same('decltype(std::declval<%s&>()[0])' % V, 'typename %s::reference' % V), same('decltype(std::declval<const %s&>()[0])' % V, T),
          same('decltype(std::declval<%s&>()[0])' % K, 'typename %s::reference' % K), same('decltype(std::declval<const %s&>()[0])' % K, 'bool'),
          'std::is_convertible_v<typename %s::reference, %s>' % (V, T), 'std::is_convertible_v<typename %s::reference, bool>' % K,
          'std::is_assignable_v<typename %s::reference, %s>' % (V, T), '!std::is_assignable_v<typename %s::reference&, %s>' % (V, T),
          '!std::is_assignable_v<const typename %s::reference&, %s>' % (V, T), '!std::is_copy_constructible_v<typename %s::reference>' % V,
          '!std::is_default_constructible_v<typename %s::reference>' % V)
        for U in ('signed char', 'int', 'double', T):
            if n > 32 and n > m.maxfixed(U):
                continue            # no ABI for that many elements
            w('rebind_%s' % nm(U), same('typename stdx::rebind_simd_t<%s, %s>::value_type' % (U, V), U), eq('stdx::rebind_simd_t<%s, %s>::size()' % (U, V), n),
              'stdx::is_simd_v<stdx::rebind_simd_t<%s, %s>>' % (U, V), 'stdx::is_simd_mask_v<stdx::rebind_simd_t<%s, %s>>' % (U, K),
              same('typename stdx::rebind_simd_t<%s, %s>::simd_type::value_type' % (U, K), U), eq('stdx::rebind_simd_t<%s, %s>::size()' % (U, K), n))
        for k in (1, 2, 5, 16):
            w('resize_%d' % k, same('typename stdx::resize_simd_t<%d, %s>::value_type' % (k, V), T), eq('stdx::resize_simd_t<%d, %s>::size()' % (k, V), k),
              'stdx::is_simd_v<stdx::resize_simd_t<%d, %s>>' % (k, V), 'stdx::is_simd_mask_v<stdx::resize_simd_t<%d, %s>>' % (k, K),
              same('typename stdx::resize_simd_t<%d, %s>::simd_type::value_type' % (k, K), T), eq('stdx::resize_simd_t<%d, %s>::size()' % (k, K), k))
    N = m.maxfixed(T)
    o.append(W('deduce_every_size', ' && '.join('stdx::simd_size_v<%s, stdx::simd_abi::deduce_t<%s, %d>> == %d && stdx::is_abi_tag_v<stdx::simd_abi::deduce_t<%s, %d>>' % (
        T, T, n, n, T, n) for n in range(1, 33))))
    o.append(W('fixed_every_size', ' && '.join('stdx::simd_size_v<%s, stdx::simd_abi::fixed_size<%d>> == %d && stdx::fixed_size_simd<%s, %d>::size() == %d' % (T, n, n, T, n, n) for n in range(1, N + 1))))
    o.append(W('max_fixed_size', 'stdx::simd_abi::max_fixed_size<%s> >= 32 && stdx::simd_abi::max_fixed_size<%s> == %d' % (T, T, N)))
    o.append(W('deduce_one_is_scalar', same('stdx::simd_abi::deduce_t<%s, 1>' % T, 'stdx::simd_abi::scalar')))
    o.append(W('aliases', ' && '.join([same('stdx::native_simd<%s>' % T, 'stdx::simd<%s, stdx::simd_abi::native<%s>>' % (T, T)),
                                       same('stdx::native_simd_mask<%s>' % T, 'stdx::simd_mask<%s, stdx::simd_abi::native<%s>>' % (T, T)),
                                       same('stdx::fixed_size_simd<%s, 6>' % T, 'stdx::simd<%s, stdx::simd_abi::fixed_size<6>>' % T),
                                       same('stdx::fixed_size_simd_mask<%s, 6>' % T, 'stdx::simd_mask<%s, stdx::simd_abi::fixed_size<6>>' % T),
                                       same('stdx::simd<%s>' % T, 'stdx::simd<%s, stdx::simd_abi::compatible<%s>>' % (T, T)),
                                       same('stdx::simd_mask<%s>' % T, 'stdx::simd_mask<%s, stdx::simd_abi::compatible<%s>>' % (T, T))])))
    # the native vector fills a register, and its layout is the register's
    if m.native(T) > 1:
        V = 'stdx::native_simd<%s>' % T
        o.append(W('native_layout', 'sizeof(%s) == %d && alignof(%s) == %d && std::is_trivially_copyable_v<%s> && std::is_trivially_copyable_v<%s::mask_type>' % (
            V, m.bytes(T), V, m.bytes(T), V, V)))
    # disabled specialisations
    for dn, Te, a in ([('zero', T, 'stdx::simd_abi::fixed_size<0>'), ('too_large', T, 'stdx::simd_abi::fixed_size<%d>' % (m.maxfixed(T) + 1)), ('not_a_tag', T, 'int'), ('simd_as_tag', T, 'stdx::simd<%s>' % T)]):
        for X in ('simd', 'simd_mask'):
            V = 'stdx::%s<%s, %s>' % (X, Te, a)
            o.append(W('disabled_%s_%s' % (X, dn), ' && '.join('!std::is_%s_v<%s>' % (p, V) for p in (
                'default_constructible', 'copy_constructible', 'copy_assignable', 'destructible')) + ' && !std::is_constructible_v<%s, %s>' % (V, 'int')))
    return o


def globaltraits(target):
    o = []
    for T in ('int', 'void', 'float', 'bool', 'std::true_type', 'stdx::element_aligned_tag', 'int*', 'int&', 'stdx::simd_abi::fixed_size<0>'):
        o.append(W('is_abi_tag_not_' + re.sub(r'\W', '_', T), '!stdx::is_abi_tag_v<%s> && !stdx::is_simd_v<%s> && !stdx::is_simd_mask_v<%s>' % (T, T, T)))
    D = '''template <class T, class A, class = void> struct sized : std::false_type {};
template <class T, class A> struct sized<T, A, std::void_t<decltype(stdx::simd_size<T, A>::value)>> : std::true_type {};
'''
    for T, a in (('bool', 'stdx::simd_abi::scalar'), ('void', 'stdx::simd_abi::scalar'), ('int', 'int'), ('int*', 'stdx::simd_abi::scalar'), ('const int', 'stdx::simd_abi::scalar'),
                 ('int', 'void'), ('std::complex<int>', 'stdx::simd_abi::scalar')):
        if 'complex' in T or T == 'const int':
            continue
        o.append(W('simd_size_absent_%s_%s' % (re.sub(r'\W', '_', T), re.sub(r'\W', '_', a)), '!sized<%s, %s>::value' % (T, a)))
    for T in ('bool', 'void', 'int*', 'tag<int>'):
        for X in ('simd', 'simd_mask'):
            if T == 'void':
                continue
            V = 'stdx::%s<%s, stdx::simd_abi::scalar>' % (X, T)
            o.append(W('disabled_%s_%s' % (X, re.sub(r'\W', '_', T)), ' && '.join('!std::is_%s_v<%s>' % (p, V) for p in (
                'default_constructible', 'copy_constructible', 'copy_assignable', 'destructible'))))
    o.append(W('flags', 'std::is_empty_v<stdx::element_aligned_tag> && std::is_empty_v<stdx::vector_aligned_tag> && std::is_empty_v<stdx::overaligned_tag<64>> && '
               'std::is_same_v<decltype(stdx::element_aligned), const stdx::element_aligned_tag> && std::is_same_v<decltype(stdx::vector_aligned), const stdx::vector_aligned_tag> && '
               'std::is_same_v<decltype(stdx::overaligned<32>), const stdx::overaligned_tag<32>>'))
    return D, o


def jobs_traits(tier, sdir):
    tg = ['sse2', 'avx', 'avx2', 'skx', 'knl', 'neon', 'ppc'] if tier == 'quick' else ['sse2', 'ssse3', 'sse4', 'avx', 'avx2', 'skx', 'knl', 'neon', 'ppc']
    out = []
    for t in tg:
        D, o = globaltraits(t)
        out.append((t, job, (t, t + '/traits', D, o, sdir)))
        types = VT if tier != 'quick' or t in ('avx2', 'skx') else ['signed char', 'unsigned short', 'int', 'unsigned long', 'wchar_t', 'float', 'double', 'long double']
        for T in types:
            out.append((t, job, (t, '%s/%s' % (t, nm(T)), 'using T_ = %s;' % T, traits(t, T), sdir)))
    return out


# ---------------------------------------------------------------- overload participation
DET = """
#define DET(name, expr) template <class X, class Y, class = void> struct has_##name : std::false_type {}; \\
  template <class X, class Y> struct has_##name<X, Y, std::void_t<decltype(expr)>> : std::true_type { using r = decltype(expr); }; \\
  template <class X, class Y> using r_##name = typename has_##name<X, Y>::r;
#define LV(T) std::declval<T&>()
#define RV(T) std::declval<T>()
DET(add, RV(X) + RV(Y)) DET(sub, RV(X) - RV(Y)) DET(mul, RV(X) * RV(Y)) DET(div, RV(X) / RV(Y)) DET(mod, RV(X) % RV(Y))
DET(and, RV(X) & RV(Y)) DET(or, RV(X) | RV(Y)) DET(xor, RV(X) ^ RV(Y)) DET(shl, RV(X) << RV(Y)) DET(shr, RV(X) >> RV(Y))
DET(land, RV(X) && RV(Y)) DET(lor, RV(X) || RV(Y))
DET(eq, RV(X) == RV(Y)) DET(ne, RV(X) != RV(Y)) DET(lt, RV(X) < RV(Y)) DET(le, RV(X) <= RV(Y)) DET(gt, RV(X) > RV(Y)) DET(ge, RV(X) >= RV(Y))
DET(addeq, LV(X) += RV(Y)) DET(subeq, LV(X) -= RV(Y)) DET(muleq, LV(X) *= RV(Y)) DET(diveq, LV(X) /= RV(Y)) DET(modeq, LV(X) %= RV(Y))
DET(andeq, LV(X) &= RV(Y)) DET(oreq, LV(X) |= RV(Y)) DET(xoreq, LV(X) ^= RV(Y)) DET(shleq, LV(X) <<= RV(Y)) DET(shreq, LV(X) >>= RV(Y))
DET(not, (!RV(X), std::declval<Y>())) DET(neg, -RV(X)) DET(pos, +RV(X)) DET(compl, ~RV(X)) DET(inc, ++LV(X)) DET(dec, --LV(X)) DET(pinc, LV(X)++) DET(pdec, LV(X)--)
DET(lnot, !RV(X))
DET(scast, stdx::simd_cast<Y>(RV(X))) DET(sscast, stdx::static_simd_cast<Y>(RV(X)))
DET(where, stdx::where(RV(X), RV(Y))) DET(wherel, stdx::where(RV(X), LV(Y))) DET(wherec, stdx::where(RV(X), LV(const Y)))
DET(copyfrom, LV(X).copy_from(RV(Y), stdx::element_aligned)) DET(copyto, LV(const X).copy_to(RV(Y), stdx::element_aligned))
DET(tonative, stdx::to_native(RV(X))) DET(tocompat, stdx::to_compatible(RV(X))) DET(tofixed, stdx::to_fixed_size(RV(X)))
DET(min, stdx::min(RV(X), RV(Y))) DET(max, stdx::max(RV(X), RV(Y))) DET(minmax, stdx::minmax(RV(X), RV(Y))) DET(clamp, stdx::clamp(RV(X), RV(Y), RV(Y)))
DET(reduce, stdx::reduce(RV(X))) DET(hmin, stdx::hmin(RV(X))) DET(hmax, stdx::hmax(RV(X))) DET(wreduce, stdx::reduce(RV(X), RV(Y)))
DET(popcount, stdx::popcount(RV(X))) DET(ffs, stdx::find_first_set(RV(X))) DET(fls, stdx::find_last_set(RV(X)))
DET(allof, stdx::all_of(RV(X))) DET(anyof, stdx::any_of(RV(X))) DET(noneof, stdx::none_of(RV(X))) DET(someof, stdx::some_of(RV(X)))
DET(assign, RV(X) = RV(Y)) DET(lassign, LV(X) = RV(Y))
DET(waddeq, RV(X) += RV(Y)) DET(wsubeq, RV(X) -= RV(Y)) DET(wmuleq, RV(X) *= RV(Y)) DET(wdiveq, RV(X) /= RV(Y)) DET(wmodeq, RV(X) %= RV(Y)) DET(wshleq, RV(X) <<= RV(Y)) DET(wandeq, RV(X) &= RV(Y))
DET(winc, ++RV(X)) DET(wdec, --RV(X)) DET(wpinc, RV(X)++) DET(wpdec, RV(X)--)
DET(wcopyfrom, RV(X).copy_from(RV(Y), stdx::element_aligned)) DET(wcopyto, RV(X).copy_to(RV(Y), stdx::element_aligned))
DET(at, RV(X)[0])
"""


def over(target, T, A, tier):
    an, a, n = A
    m = Mach(target)
    V = 'stdx::simd<%s, %s>' % (T, a)
    K = '%s::mask_type' % V
    D = DET + 'using T = %s; using V = %s; using M = typename V::mask_type; using A = %s;' % (T, V, a)
    o = []
    def w(name, *conds):
        o.append(W(name, ' && '.join('(%s)' % c for c in conds)))
    isfl = m.fp(T)
    fx = an.startswith('fixed')
    # broadcast, generator, loads for every element type
    for U in VT:
        u = nm(U)
        br = m.broadcast(U, T)
        forms = [U, U + '&', 'const %s&' % U]
        w('broadcast_from_' + u, *['std::is_convertible_v<%s, V> == %s && std::is_constructible_v<V, %s> == %s' % (f, b(br), f, b(br)) for f in forms])
        w('generate_from_' + u, 'std::is_constructible_v<V, gen<%s>> == %s' % (U, b(br)), '!std::is_convertible_v<gen<%s>, V>' % U)
        w('assign_from_' + u, 'std::is_assignable_v<V&, %s> == %s' % (U, b(br)), '!std::is_assignable_v<const V&, %s>' % U)
        w('element_assign_from_' + u, 'std::is_assignable_v<typename V::reference, %s> == %s' % (U, b(br)))
        w('load_from_' + u, 'std::is_constructible_v<V, %s*, stdx::element_aligned_tag> && std::is_constructible_v<V, const %s*, stdx::vector_aligned_tag>' % (U, U),
          'has_copyfrom<V, const %s*>::value && has_copyto<V, %s*>::value' % (U, U),
          '!std::is_constructible_v<V, %s*>' % U)
        for op in ('add', 'mul', 'eq', 'lt') + (('and',) if not isfl else ()):
            R = 'M' if op in ('eq', 'lt') else 'V'
            e = 'has_%s<V, %s>::value == %s && has_%s<%s, V>::value == %s' % (op, U, b(br), op, U, b(br))
            if br:
                e += ' && std::is_same_v<r_%s<V, %s>, %s> && std::is_same_v<r_%s<%s, V>, %s>' % (op, U, R, op, U, R)
            w('%s_mixed_%s' % (op, u), e)
        w('addeq_mixed_' + u, 'has_addeq<V, %s>::value == %s' % (U, b(br)))
        # a pair of simd types
        for fn, fa in (('fixed', 'stdx::simd_abi::fixed_size<%d>' % n), ('same', a)):
            if fn == 'fixed' and (n > m.maxfixed(U) or not fx and an != 'native'):
                continue
            if fn == 'same' and (fx or U != T) and not (an == 'scalar'):
                continue
            X = 'stdx::simd<%s, %s>' % (U, fa)
            conv = U == T and same_tag(fa, a) or fx and fn == 'fixed' and m.vp(U, T) and m.higher_rank(U, T)
            w('convert_from_%s_%s' % (fn, u), 'std::is_convertible_v<%s, V> == %s && std::is_constructible_v<V, %s> == %s && std::is_assignable_v<V&, %s> == %s' % (X, b(conv), X, b(conv), X, b(conv)))
            XK = '%s::mask_type' % X
            mc = same_tag(fa, a) and (U == T) or fx and fn == 'fixed'
            w('mask_convert_from_%s_%s' % (fn, u), 'std::is_convertible_v<%s, M> == %s && std::is_constructible_v<M, %s> == %s' % (XK, b(mc), XK, b(mc)))
        # casts
        if n <= m.maxfixed(U):
            Rf = 'stdx::fixed_size_simd<%s, %d>' % (U, n)
            cast = 'stdx::simd<%s, %s>' % (U, a) if U == T or (not m.fp(U) and not isfl and U in samerank(T)) else Rf
            if U != T and not m.fp(U) and not isfl and m.size(U) == m.size(T) and len(set((U, T)) & CHARS):
                cast = 'r_sscast<V, %s>' % U    # whether character types "differ only in signedness" is left open
            w('simd_cast_to_' + u, 'has_scast<V, %s>::value == %s' % (U, b(m.vp(T, U))), 'has_sscast<V, %s>::value' % U,
              *(['std::is_same_v<r_scast<V, %s>, %s>' % (U, cast)] if m.vp(T, U) else []), 'std::is_same_v<r_sscast<V, %s>, %s>' % (U, cast))
            w('simd_cast_to_simd_' + u, 'has_scast<V, %s>::value == %s && has_sscast<V, %s>::value && std::is_same_v<r_sscast<V, %s>, %s>' % (Rf, b(m.vp(T, U)), Rf, Rf, Rf))
            if n + 1 <= m.maxfixed(U):
                w('simd_cast_other_size_' + u, '!has_scast<V, stdx::fixed_size_simd<%s, %d>>::value && !has_sscast<V, stdx::fixed_size_simd<%s, %d>>::value' % (U, n + 1, U, n + 1))
    w('broadcast_from_bool', '!std::is_convertible_v<bool, V> && !std::is_constructible_v<V, bool> && !std::is_assignable_v<V&, bool>')
    w('broadcast_from_class', 'std::is_convertible_v<conv_to<T>, V> && std::is_constructible_v<V, conv_to<T>> && !std::is_convertible_v<tag<T>, V> && !std::is_constructible_v<V, tag<T>> && !std::is_constructible_v<V, T*>')
    # operators between vectors
    for op in ('add', 'sub', 'mul', 'div'):
        w(op, 'has_%s<V, V>::value && std::is_same_v<r_%s<V, V>, V> && std::is_same_v<r_%s<const V&, const V&>, V>' % (op, op, op))
        w(op + 'eq', 'has_%seq<V, V>::value && std::is_same_v<r_%seq<V, V>, V&> && !has_%seq<const V, V>::value' % (op, op, op))
    for op in ('mod', 'and', 'or', 'xor', 'shl', 'shr'):
        w(op, 'has_%s<V, V>::value == %s && has_%seq<V, V>::value == %s && !has_%seq<const V, V>::value' % (op, b(not isfl), op, b(not isfl), op),
          *(['std::is_same_v<r_%s<V, V>, V> && std::is_same_v<r_%seq<V, V>, V&>' % (op, op)] if not isfl else []))
    for op in ('shl', 'shr'):
        w(op + '_count', 'has_%s<V, int>::value == %s && has_%seq<V, int>::value == %s' % (op, b(not isfl), op, b(not isfl)), *(['std::is_same_v<r_%s<V, int>, V>' % op] if not isfl else []))
    w('no_logical_on_values', '!has_land<V, V>::value && !has_lor<V, V>::value')
    for op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        w(op, 'std::is_same_v<r_%s<V, V>, M>' % op, 'std::is_same_v<r_%s<const V&, T>, M> && std::is_same_v<r_%s<T, const V&>, M>' % (op, op))
    w('unary', 'std::is_same_v<r_neg<V, V>, V> && std::is_same_v<r_pos<V, V>, V> && std::is_same_v<r_lnot<V, V>, M> && has_compl<V, V>::value == %s' % b(not isfl),
      'std::is_same_v<r_inc<V, V>, V&> && std::is_same_v<r_dec<V, V>, V&> && std::is_same_v<r_pinc<V, V>, V> && std::is_same_v<r_pdec<V, V>, V>',
      '!has_inc<const V, V>::value && !has_pdec<const V, V>::value', *(['std::is_same_v<r_compl<V, V>, V>'] if not isfl else []))
    # masks
    w('mask_operators', *['std::is_same_v<r_%s<M, M>, M>' % op for op in ('land', 'lor', 'and', 'or', 'xor', 'eq', 'ne')], *['std::is_same_v<r_%seq<M, M>, M&> && !has_%seq<const M, M>::value' % (op, op) for op in ('and', 'or', 'xor')],
      'std::is_same_v<r_lnot<M, M>, M>', *['!has_%s<M, M>::value' % op for op in ('add', 'sub', 'mul', 'div', 'mod', 'shl', 'lt', 'ge')], '!has_inc<M, M>::value && !has_neg<M, M>::value')
    w('mask_broadcast', 'std::is_constructible_v<M, bool> && !std::is_convertible_v<bool, M> && !std::is_assignable_v<M&, bool>')
    w('mask_load', 'std::is_constructible_v<M, const bool*, stdx::element_aligned_tag> && !std::is_constructible_v<M, const char*, stdx::element_aligned_tag> && has_copyfrom<M, const bool*>::value && !has_copyfrom<M, const int*>::value && has_copyto<M, bool*>::value && !has_copyto<M, const bool*>::value && !has_copyto<M, char*>::value')
    w('mask_reductions', 'std::is_same_v<r_popcount<M, M>, int> && std::is_same_v<r_ffs<M, M>, int> && std::is_same_v<r_fls<M, M>, int>', *['std::is_same_v<r_%s<M, M>, bool> && std::is_same_v<r_%s<bool, bool>, bool>' % (f, f) for f in ('allof', 'anyof', 'noneof', 'someof')],
      *['(sizeof("%s %s") && !has_%s<%s, int>::value)' % (f, x, f, x) for f in ('allof', 'anyof', 'noneof', 'someof', 'popcount', 'ffs', 'fls') for x in ('V', 'int')])
    # where expressions
    w('where', 'std::is_same_v<r_wherel<M, V>, stdx::where_expression<M, V>> && std::is_same_v<r_wherec<M, V>, stdx::const_where_expression<M, V>>',
      'std::is_same_v<r_wherel<M, M>, stdx::where_expression<M, M>> && std::is_same_v<r_wherec<M, M>, stdx::const_where_expression<M, M>>',
      'std::is_same_v<r_wherel<bool, T>, stdx::where_expression<bool, T>> && std::is_same_v<r_wherec<bool, T>, stdx::const_where_expression<bool, T>>',
      '!has_wherel<bool, V>::value && !has_wherel<int, T>::value && !has_wherel<V, V>::value')
    WE, CW = 'stdx::where_expression<M, V>', 'stdx::const_where_expression<M, V>'
    w('where_assign', 'has_assign<%s, V>::value && has_assign<%s, T>::value && has_assign<%s, int>::value && !has_lassign<%s, V>::value && !has_assign<%s, V>::value' % (WE, WE, WE, WE, CW),
      '!std::is_copy_constructible_v<%s> && !std::is_copy_constructible_v<%s>' % (WE, CW))
    for op in ('add', 'sub', 'mul', 'div'):
        w('where_%seq' % op, 'has_w%seq<%s, V>::value && !has_%seq<%s, V>::value && !has_w%seq<%s, V>::value' % (op, WE, op, WE, op, CW))
    w('where_steps', *['has_w%s<%s, V>::value && !has_w%s<%s, V>::value && !has_%s<%s, V>::value' % (s, WE, s, CW, s, WE) for s in ('inc', 'dec', 'pinc', 'pdec')])
    w('where_memory', 'has_wcopyfrom<%s, const T*>::value && has_wcopyto<%s, T*>::value && !has_wcopyfrom<%s&, const T*>::value' % (WE, CW, WE))
    # reductions and algorithms
    w('reductions', 'std::is_same_v<r_reduce<V, V>, T> && std::is_same_v<r_hmin<V, V>, T> && std::is_same_v<r_hmax<V, V>, T> && std::is_same_v<r_hmin<%s, V>, T> && std::is_same_v<r_hmax<%s, V>, T>' % (CW, CW))
    w('algorithms', 'std::is_same_v<r_min<V, V>, V> && std::is_same_v<r_max<V, V>, V> && std::is_same_v<r_minmax<V, V>, std::pair<V, V>> && std::is_same_v<r_clamp<V, V>, V>')
    nat, com = m.native(T), m.compat(T)
    w('to_fixed', 'std::is_same_v<r_tofixed<V, V>, stdx::fixed_size_simd<T, %d>> && std::is_same_v<r_tofixed<M, M>, stdx::fixed_size_simd_mask<T, %d>>' % (n, n)) if n <= m.maxfixed(T) else None
    w('to_native', 'has_tonative<V, V>::value == %s && has_tonative<M, M>::value == %s' % (b(fx and n == nat), b(fx and n == nat)), 'has_tocompat<V, V>::value == %s && has_tocompat<M, M>::value == %s' % (b(fx and n == com), b(fx and n == com)))
    return D, o


def same_tag(x, y):
    return x == y


def samerank(T):
    """integer types that differ from T in signedness only"""
    for g in (('signed char', 'unsigned char'), ('short', 'unsigned short'), ('int', 'unsigned'), ('long', 'unsigned long'), ('long long', 'unsigned long long')):
        if T in g:
            return g
    return (T,)


def jobs_overload(tier, sdir):
    tg = ['sse2', 'avx2', 'skx', 'neon', 'ppc'] if tier == 'quick' else ['sse2', 'ssse3', 'sse4', 'avx', 'avx2', 'skx', 'knl', 'neon', 'ppc']
    out = []
    for t in tg:
        m = Mach(t)
        for T in VT:
            for A in abis(m, T):
                if A[0] not in (('native', 'scalar', 'fixed5', 'fixed1') if tier == 'quick' else ('native', 'scalar', 'compatible', 'fixed1', 'fixed2', 'fixed3', 'fixed8', 'fixed32', 'deduce3')):
                    continue
                if tier == 'quick' and (t != 'avx2' and A[0] != 'native' or T in ('long long', 'unsigned long long') and t != 'avx2'):
                    continue
                if A[2] == 1 and A[0] == 'native' and t != 'ppc':
                    continue
                D, o = over(t, T, A, tier)
                out.append((t, job, (t, '%s/%s/%s' % (t, nm(T), A[0]), D, o, sdir)))
    return out


ONE = ['acos', 'asin', 'atan', 'cos', 'sin', 'tan', 'acosh', 'asinh', 'atanh', 'cosh', 'sinh', 'tanh', 'exp', 'exp2', 'expm1', 'log', 'log10', 'log1p', 'log2',
       'logb', 'cbrt', 'sqrt', 'erf', 'erfc', 'lgamma', 'tgamma', 'ceil', 'floor', 'nearbyint', 'rint', 'round', 'trunc', 'abs', 'fabs']
TWO = ['atan2', 'pow', 'fmod', 'remainder', 'copysign', 'nextafter', 'fdim', 'fmax', 'fmin', 'hypot']
PRED1 = ['isfinite', 'isinf', 'isnan', 'isnormal', 'signbit']
PRED2 = ['isgreater', 'isgreaterequal', 'isless', 'islessequal', 'islessgreater', 'isunordered']


def mathsigs(target, T, A):
    an, a, n = A
    D = ('using T = %s; using A = %s; using V = stdx::simd<T, A>; using M = typename V::mask_type;\n' % (T, a) +
         'template <class U> using S = stdx::fixed_size_simd<U, %d>;\n' % n)
    o = []
    def w(name, *cs):
        o.append(W(name, ' && '.join('(%s)' % c for c in cs)))
    def is_(e, t):
        return 'std::is_same_v<decltype(%s), %s>' % (e, t)
    x, y = 'std::declval<const V&>()', 'std::declval<T>()'
    for f in ONE:
        w('math_' + f, is_('stdx::%s(%s)' % (f, x), 'V'), is_('%s(%s)' % (f, x), 'V'))
    for f in TWO:
        w('math_' + f, is_('stdx::%s(%s, %s)' % (f, x, x), 'V'), is_('%s(%s, %s)' % (f, x, x), 'V'))
        w('math_mixed_' + f, is_('stdx::%s(%s, %s)' % (f, x, y), 'V'), is_('stdx::%s(%s, %s)' % (f, y, x), 'V'),
          is_('stdx::%s(%s, 1)' % (f, x), 'V'))
    for f in ('fma', 'hypot'):
        w('math3_' + f, is_('stdx::%s(%s, %s, %s)' % (f, x, x, x), 'V'), is_('stdx::%s(%s, %s, %s)' % (f, x, y, y), 'V') if f == 'fma' else 'true')
    for f in PRED1:
        w('math_' + f, is_('stdx::%s(%s)' % (f, x), 'M'))
    for f in PRED2:
        w('math_' + f, is_('stdx::%s(%s, %s)' % (f, x, x), 'M'))
    for f, r in (('ilogb', 'int'), ('lrint', 'long'), ('llrint', 'long long'), ('lround', 'long'), ('llround', 'long long'), ('fpclassify', 'int')):
        w('math_' + f, is_('stdx::%s(%s)' % (f, x), 'S<%s>' % r))
    w('math_frexp', is_('stdx::frexp(%s, std::declval<S<int>*>())' % x, 'V'))
    w('math_modf', is_('stdx::modf(%s, std::declval<V*>())' % x, 'V'))
    w('math_remquo', is_('stdx::remquo(%s, %s, std::declval<S<int>*>())' % (x, x), 'V'))
    w('math_ldexp', is_('stdx::ldexp(%s, std::declval<S<int>>())' % x, 'V'))
    w('math_scalbn', is_('stdx::scalbn(%s, std::declval<S<int>>())' % x, 'V'))
    w('math_scalbln', is_('stdx::scalbln(%s, std::declval<S<long>>())' % x, 'V'))
    return D, o


def jobs_math(tier, sdir):
    out = []
    for t in ['sse2', 'avx2', 'skx', 'neon', 'ppc'] if tier == 'quick' else ['sse2', 'ssse3', 'sse4', 'avx', 'avx2', 'skx', 'knl', 'neon', 'ppc']:
        m = Mach(t)
        for T in ('float', 'double') + (('long double',) if t not in ('neon', 'ppc') else ()):
            for A in abis(m, T):
                if A[0] in ('native', 'scalar', 'fixed3', 'fixed8', 'deduce3', 'deduce7'):
                    D, o = mathsigs(t, T, A)
                    out.append((t, job, (t, '%s/%s/%s/math' % (t, nm(T), A[0]), D, o, sdir)))
    return out
