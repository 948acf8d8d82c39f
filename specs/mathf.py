"""<cmath> functions of vectors of floating point: the scalar function in every lane"""
from common import *

Y = ('b', 'T', 'N', 'in')
Z = ('d', 'T', 'N', 'in')
XI = ('n', 'int', 'N', 'in')

EXACT1 = ['trunc', 'floor', 'ceil', 'nearbyint', 'rint', 'round', 'sqrt', 'fabs', 'abs']
INT1 = [('ilogb', 'int'), ('lrint', 'long'), ('llrint', 'long long'), ('lround', 'long'), ('llround', 'long long'), ('fpclassify', 'int')]
MASK1 = ['isfinite', 'isinf', 'isnan', 'isnormal', 'signbit']
MASK2 = ['isgreater', 'isgreaterequal', 'isless', 'islessequal', 'islessgreater', 'isunordered']
EXACT2 = ['fdim', 'fmax', 'fmin', 'copysign', 'nextafter', 'fmod', 'remainder']
LIB1 = ['acos', 'asin', 'atan', 'tan', 'acosh', 'asinh', 'atanh', 'cosh', 'sinh', 'tanh', 'exp', 'exp2', 'expm1', 'log', 'log10', 'log1p', 'log2',
        'cbrt', 'erf', 'erfc', 'lgamma', 'tgamma']
LIB2 = ['atan2', 'pow']
SPEC1 = ['comp_ellint_1', 'comp_ellint_2', 'expint', 'riemann_zeta']
SPEC2 = ['beta', 'comp_ellint_3', 'cyl_bessel_i', 'cyl_bessel_j', 'cyl_bessel_k', 'cyl_neumann', 'ellint_1', 'ellint_2']
SPECN = [('hermite', 1), ('laguerre', 1), ('legendre', 1), ('sph_bessel', 1), ('sph_neumann', 1), ('assoc_laguerre', 2), ('assoc_legendre', 2), ('sph_legendre', 2)]


# restatements of the references ("alt"), each equal to the C++ function for every argument up to the sign of a zero
# result; DESIGN.md has the arguments
HELP = r"""
#ifndef MATH_ALT
#define MATH_ALT
template <class T> struct fpt;
template <> struct fpt<float> { using I = int; using U = unsigned; static constexpr int m = 23, bias = 127; };
template <> struct fpt<double> { using I = long; using U = unsigned long; static constexpr int m = 52, bias = 1023; };
using FI = fpt<T>::I; using FU = fpt<T>::U;
static inline FU fbits(T x) { FU u; std::memcpy(&u, &x, sizeof(u)); return u; }
static inline FI sbits(T x) { FI u; std::memcpy(&u, &x, sizeof(u)); return u; }
static inline T ffrom(FU u) { T x; std::memcpy(&x, &u, sizeof(u)); return x; }
constexpr FU signm = FU(1) << (sizeof(T) * 8 - 1), absm = ~signm;
constexpr T shifter = T(1ull << fpt<T>::m);
static inline T fabs_(T x) { return ffrom(fbits(x) & absm); }
static inline T trunc_cvt(T x) { return int(fbits(x) & 0x7f800000u) < 0x4b000000 ? T(int(x)) : x; }
static inline T trunc_shift(T x) { T ax = fabs_(x); T t = (ax + shifter) - shifter; t -= t > ax ? T(1) : T(0);
  return ax < shifter ? ffrom((fbits(x) & signm) | fbits(t)) : x; }
static inline T rint_shift(T x) { T s = ffrom((fbits(x) & signm) | fbits(shifter)); return fabs_(x) < shifter ? (x + s) - s : x; }
static inline T floor_of(T y, T x) { return (x < 0 && y != x) ? y - 1 : y; }
static inline T ceil_of(T y, T x) { return (y == x || x < 0) ? y : y + 1; }
static inline T round_of(T t, T x) { return t + (fabs_(x - t) >= T(.5) ? ffrom((fbits(x) & signm) | fbits(T(1))) : T(0)); }
static inline T round_abs(T x) { T ax = fabs_(x), t = trunc_shift(ax); T r = t + (ax - t >= T(.5) ? T(1) : T(0)); return ffrom((fbits(x) & signm) | fbits(r)); }
constexpr FU expm = FU(sizeof(T) == 4 ? 0x7f800000ull : 0x7ff0000000000000ull), fracm = absm & ~expm;
constexpr int subk = sizeof(T) == 4 ? 112 : 512;
static inline int fexp(T x) { return int((fbits(x) & expm) >> fpt<T>::m); }
template <int K> static inline T frexp_m(T x) {
  constexpr FU half = FU(fpt<T>::bias - 1) << fpt<T>::m;
  FU u = fbits(x);
  if ((u & absm) == 0 || (u & expm) == expm) return x;
  if ((u & expm) == 0) u = fbits(x * T(K == 112 ? 0x1p112 : 0x1p512));
  return ffrom((u & ~expm) | half); }
template <int K> static inline int frexp_e(T x) {
  FU u = fbits(x);
  if ((u & absm) == 0 || (u & expm) == expm) return 0;
  if ((u & expm) == 0) return fexp(x * T(K == 112 ? 0x1p112 : 0x1p512)) - (fpt<T>::bias - 1) - K;
  return fexp(x) - (fpt<T>::bias - 1); }
static inline int fin(int e, T x) { return (fbits(x) & expm) == expm ? 0 : e; }
static inline T logb_(T x) {
  FU u = fbits(x);
  if ((u & absm) == 0) return -std::numeric_limits<T>::infinity();
  if ((u & expm) == expm) return (u & fracm) ? x : std::numeric_limits<T>::infinity();
  if ((u & expm) == 0) return T(fexp(fabs_(x) * T(0x1p112)) - fpt<T>::bias - 112);
  return T(fexp(x) - fpt<T>::bias); }
static inline T csign(T m, T s) { return ffrom((fbits(m) & absm) | (fbits(s) & signm)); }
static inline T modf_(T t, T x) { return csign((fbits(x) & absm) == expm ? T(0) : x - t, x); }
static inline FI fkey(T x) { FI n = sbits(x); return n < 0 ? -(n & FI(absm)) : n; }
#endif
"""
ALT1 = {
    'trunc': ['trunc_cvt(a[i])', 'trunc_shift(a[i])'],
    'floor': ['floor_of(trunc_cvt(a[i]), a[i])', 'floor_of(trunc_shift(a[i]), a[i])'],
    'ceil': ['ceil_of(trunc_cvt(a[i]), a[i])', 'ceil_of(trunc_shift(a[i]), a[i])'],
    'nearbyint': ['rint_shift(a[i])'],
    'rint': ['rint_shift(a[i])'],
    'round': ['round_of(std::trunc(a[i]), a[i])', 'round_abs(a[i])', 'fabs_(a[i]) < 0x1p23f ? round_of(T(int(a[i])), a[i]) : a[i]'],
}
KEYCMP = {'isgreater': '%s > %s', 'isgreaterequal': '%s >= %s', 'isless': '%s < %s', 'islessequal': '%s <= %s', 'islessgreater': '%s != %s'}


def alt(*bodies):
    return [loop('r[i] = %s;' % b) for b in bodies]


def fix(U):
    return 'stdx::fixed_size_simd<%s, N>' % U


def ops(T, tier):
    if not isfloat(T):
        return []
    o = []
    for f in EXACT1:
        mode = {'alt': alt(*ALT1[f]), 'zeroeq': True} if f in ALT1 else {}
        o.append(Op(f, P(T, A, R), 'st(stdx::%s(ld(a)), r);' % f, loop('r[i] = std::%s(a[i]);' % f), pre=HELP, mode=mode))
    for f, U in INT1:
        o.append(Op(f, P(T, A, ('r', U, 'N', 'out')), '%s v = stdx::%s(ld(a)); v.copy_to(r, EA());' % (fix(U), f), loop('r[i] = std::%s(a[i]);' % f)))
    for f in MASK1:
        o.append(Op(f, P(T, A, ('r', 'bool', 'N', 'out')), 'stm(stdx::%s(ld(a)), r);' % f, loop('r[i] = std::%s(a[i]);' % f)))
    for f in MASK2:
        m1, m2 = ({'alt': alt('bool(int(!__builtin_isunordered(%s, b[i])) & int(%s))' % (l, KEYCMP[f] % ('fkey(%s)' % l, 'fkey(b[i])')))} if f in KEYCMP else {} for l in ('a[i]', 's'))
        o.append(Op(f, P(T, A, Y, ('r', 'bool', 'N', 'out')), 'stm(stdx::%s(ld(a), ld(b)), r);' % f, loop('r[i] = std::%s(a[i], b[i]);' % f), mode=m1, pre=HELP))
        o.append(Op(f + '_scalar_lhs', P(T, ('s', T, None, 'in'), Y, ('r', 'bool', 'N', 'out')), 'stm(stdx::%s(s, ld(b)), r);' % f, loop('r[i] = std::%s(s, b[i]);' % f), mode=m2, pre=HELP))
    for f in EXACT2:
        o.append(Op(f, P(T, A, Y, R), 'st(stdx::%s(ld(a), ld(b)), r);' % f, loop('r[i] = std::%s(a[i], b[i]);' % f)))
        if f != 'copysign':
            o.append(Op(f + '_scalar_lhs', P(T, ('s', T, None, 'in'), Y, R), 'st(stdx::%s(s, ld(b)), r);' % f, loop('r[i] = std::%s(s, b[i]);' % f)))
    o.append(Op('fma', P(T, A, Y, Z, R), 'st(stdx::fma(ld(a), ld(b), ld(d)), r);', loop('r[i] = std::fma(a[i], b[i], d[i]);')))
    o.append(Op('fma_scalar_1', P(T, ('s', T, None, 'in'), Y, Z, R), 'st(stdx::fma(s, ld(b), ld(d)), r);', loop('r[i] = std::fma(s, b[i], d[i]);')))
    return o


def ops_for(T, tier, target, abi):
    o = ops(T, tier)
    u = dict(INT1)
    for x in o:
        if x.name in u:
            x.lay += layof(target, u[x.name], nlanes(target, abi, T))
    return o


def decomp(T, tier):
    if not isfloat(T):
        return []
    o = []
    fin = 'e[i] = fin(e[i], a[i]);'
    o.append(Op('frexp', P(T, A, R, ('e', 'int', 'N', 'out')), '%s x; st(stdx::frexp(ld(a), &x), r); x.copy_to(e, EA()); %s' % (fix('int'), loop(fin)),
                loop('r[i] = frexp_m<subk>(a[i]); e[i] = frexp_e<subk>(a[i]);'), pre=HELP,
                mode={'alt': [loop('r[i] = frexp_m<112>(a[i]); e[i] = frexp_e<112>(a[i]);'), loop('r[i] = std::frexp(a[i], &e[i]); ' + fin)]}))
    o.append(Op('modf', P(T, A, R, ('e', T, 'N', 'out')), 'V x; st(stdx::modf(ld(a), &x), r); st(x, e);',
                loop('T t = std::trunc(a[i]); e[i] = t; r[i] = modf_(t, a[i]);'), pre=HELP, mode={'zeroeq': True, 'alt': [
                    loop('T t = %s; e[i] = t; r[i] = modf_(t, a[i]);' % t) for t in ALT1['trunc']] + [loop('r[i] = std::modf(a[i], &e[i]);')]}))
    o.append(Op('logb', P(T, A, R), 'st(stdx::logb(ld(a)), r);', loop('r[i] = logb_(a[i]);'), pre=HELP, mode={'alt': alt('std::logb(a[i])')}))
    o.append(Op('remquo', P(T, A, Y, R, ('e', 'int', 'N', 'out')), '%s x; st(stdx::remquo(ld(a), ld(b), &x), r); x.copy_to(e, EA());' % fix('int'), loop('r[i] = std::remquo(a[i], b[i], &e[i]);')))
    for f, U in (('ldexp', 'int'), ('scalbn', 'int'), ('scalbln', 'long')):
        o.append(Op(f, P(T, A, ('n', U, 'N', 'in'), R), '%s x; x.copy_from(n, EA()); st(stdx::%s(ld(a), x), r);' % (fix(U), f), loop('r[i] = std::%s(a[i], n[i]);' % f)))
    return o


def opaque(f, k):
    # the series behind the special functions stay calls
    return '#ifndef OP_%s\n#define OP_%s\nnamespace std { template <> __gnu_cxx::__promote<T>::__type %s<T>(%sT); }\n#endif\n' % (f, f, f, 'unsigned, ' * k)


def libm(T, tier, target, abi):
    if not isfloat(T):
        return []
    o = []
    # missing special functions: a few kinds of ABI are enough
    some = (target, abi) in (('sse2', 'native'), ('sse2', 'scalar'), ('skx', 'fs3'))
    for f in LIB1 + (SPEC1 if some else []):
        o.append(Op(f, P(T, A, R), 'st(stdx::%s(ld(a)), r);' % f, loop('r[i] = std::%s(a[i]);' % f)))
    for f in LIB2 + (SPEC2 if some else []):
        o.append(Op(f, P(T, A, Y, R), 'st(stdx::%s(ld(a), ld(b)), r);' % f, loop('r[i] = std::%s(a[i], b[i]);' % f)))
    if some:
        o.append(Op('ellint_3', P(T, A, Y, Z, R), 'st(stdx::ellint_3(ld(a), ld(b), ld(d)), r);', loop('r[i] = std::ellint_3(a[i], b[i], d[i]);')))
    for f, k in SPECN:
        ns = [('n', 'unsigned', 'N', 'in'), ('m', 'unsigned', 'N', 'in')][:k]
        o.append(Op(f, P(T, *ns, A, R), ''.join('%s %sv; %sv.copy_from(%s, EA()); ' % (fix('unsigned'), q[0], q[0], q[0]) for q in ns) +
                    'st(stdx::%s(%s, ld(a)), r);' % (f, ', '.join(q[0] + 'v' for q in ns)),
                    loop('r[i] = std::%s(%s, a[i]);' % (f, ', '.join(q[0] + '[i]' for q in ns))), pre=opaque(f, k)))
    return o
