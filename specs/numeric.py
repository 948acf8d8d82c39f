"""numeric traits of the header; the expected values are computed here from the formats of the types (exact rationals), not from the headers"""
from fractions import Fraction
from common import *
from witness import W, job
from typelevel import Mach, VT, FP, nm, b

# binary format: precision, emax (value < 2^emax), emin as in <cfloat> (norm_min = 2^(emin-1))
FMT = {'float': (24, 128, -125), 'double': (53, 1024, -1021), ('long double', 'x87'): (64, 16384, -16381), ('long double', 'quad'): (113, 16384, -16381)}
LOG2 = Fraction(30102999566398119521, 10 ** 20)
SUF = {'float': 'f', 'double': '', 'long double': 'L'}


def ld(target):
    return {'neon': 'quad', 'ppc': None, 'arm': 'double'}.get(target.split('+')[0], 'x87')


def hexf(x, T):
    """exact literal m * 2^e"""
    m, e = x.numerator, 0
    d = x.denominator
    assert d & (d - 1) == 0
    e = -(d.bit_length() - 1)
    while m and m % 2 == 0:
        m //= 2
        e += 1
    return '%s0x%xp%d%s' % ('-' if m < 0 else '', abs(m), e, SUF[T])


def threshold(p, emax, emin):
    """smallest representable x > 0 with 1/x rounding to a finite number"""
    # overflow iff 1/x >= (2 - 2^-p) * 2^(emax-1)
    lim = (2 - Fraction(1, 2 ** p)) * 2 ** (emax - 1)
    ulp = Fraction(1, 2 ** (-(emin - p)))       # denorm_min = 2^(emin-p)
    t = 1 / lim
    k = t / ulp
    n = k.numerator // k.denominator
    x = (n + 1) * ulp
    assert x < Fraction(2) ** (emin - 1) * 4 and 1 / x < lim and (n == 0 or 1 / (n * ulp) >= lim)
    return x


def numeric(target, T, mode=''):
    m = Mach(target)
    o = []

    def w(name, *conds):
        o.append(W(name, ' && '.join('(%s)' % c for c in conds)))

    def val(name, v, ty=None):
        for cv, tag in (('', ''), ('const ', '_const'), ('volatile ', '_volatile'), ('const volatile ', '_cv')):
            c = ['std::__%s_v<%s%s> == %s' % (name, cv, T, v), 'std::__%s<%s%s>::value == %s' % (name, cv, T, v),
                 'std::is_same_v<decltype(std::__%s<%s%s>::value), const %s>' % (name, cv, T, ty or 'int'),
                 'std::__value_exists_v<std::__%s, %s%s>' % (name, cv, T)]
            w(name + tag, *c)

    if T == 'bool':
        val('digits', 1), val('digits10', 0), val('radix', 2), val('finite_max', 'true', 'bool'), val('finite_min', 'false', 'bool')
        return o
    if T not in FP:
        bits, sg = m.width(T), m.signed(T)
        dg = bits - sg
        d10 = int(dg * LOG2)
        val('digits', dg), val('digits10', d10), val('max_digits10', d10 + 1), val('radix', 2)
        hi = (1 << dg) - 1
        val('finite_max', 'T_(%dULL)' % hi, T)
        val('finite_min', 'T_(-%dLL - 1)' % hi if sg else 'T_(0)', T)
        w('no_special_values', *['!std::__value_exists_v<std::__%s, %s>' % (n, T) for n in (
            'infinity', 'quiet_NaN', 'signaling_NaN', 'max_exponent', 'max_exponent10', 'min_exponent', 'min_exponent10')])
        w('value_or', 'std::__value_or<std::__infinity, T_>(T_(42)) == T_(42)', 'std::__value_or<std::__finite_max, T_>(T_(42)) == std::__finite_max_v<T_>',
          'std::__value_or<std::__infinity, T_>() == T_()', 'noexcept(std::__value_or<std::__infinity, T_>())')
        w('no_iec559', *['!std::__has_iec559_behavior_v<std::__%s, %s>' % (n, T) for n in ('infinity', 'quiet_NaN', 'signaling_NaN')])
        return o
    f = FMT.get(T) or FMT.get((T, ld(target))) or FMT.get(ld(target))
    if f:
        p, emax, emin = f
        two = Fraction(2)
        mx = (1 - two ** -p) * two ** emax
        d10 = int((p - 1) * LOG2)
        val('digits', p), val('digits10', d10), val('max_digits10', int(p * LOG2) + 2), val('radix', 2)
        val('max_exponent', emax), val('min_exponent', emin)
        val('max_exponent10', int(emax * LOG2)), val('min_exponent10', -int((1 - emin) * LOG2))
        val('finite_max', hexf(mx, T), T), val('finite_min', '-' + hexf(mx, T), T)
        val('norm_min', hexf(two ** (emin - 1), T), T)
        if mode != 'fast':
            val('denorm_min', hexf(two ** (emin - p), T), T)
        val('epsilon', hexf(two ** (1 - p), T), T), val('round_error', '0.5', T)
        if mode == '' and T != 'long double':
            val('reciprocal_overflow_threshold', hexf(threshold(p, emax, emin), T), T)
    fin = mode in ('fin', 'fast')
    if not fin:
        big = 'std::__finite_max_v<%s>' % T
        val('infinity', '__builtin_huge_val%s()' % {'float': 'f', 'double': '', 'long double': 'l'}[T], T)
        w('nan', *['std::__quiet_NaN_v<%s%s> != std::__quiet_NaN_v<%s>' % (cv, T, T) for cv in ('', 'const ', 'volatile ')] + [
            '__builtin_isnan(std::__quiet_NaN_v<%s>)' % T, '!__builtin_signbit(std::__quiet_NaN_v<%s>)' % T,
            'std::is_same_v<decltype(std::__quiet_NaN<%s>::value), const %s>' % (T, T), 'std::is_same_v<decltype(std::__signaling_NaN<%s>::value), const %s>' % (T, T)])
        w('value_or', 'std::__value_or<std::__infinity, %s>(T_(1)) == std::__infinity_v<%s>' % (T, T), '__builtin_isnan(std::__value_or<std::__quiet_NaN, %s>(T_(1)))' % T)
    w('iec559', *['std::__has_iec559_behavior_v<std::__%s, %s> == %s' % (n, T, b(not fin)) for n in ('infinity', 'quiet_NaN')] + [
        '!std::__has_iec559_behavior_v<std::__signaling_NaN, %s>' % T])
    w('storage', 'std::__has_iec559_storage_format_v<%s>' % T)
    return o


def others(target):
    o = []
    names = ['digits', 'digits10', 'max_digits10', 'radix', 'finite_max', 'finite_min', 'norm_min', 'denorm_min', 'epsilon', 'infinity', 'quiet_NaN', 'signaling_NaN', 'round_error',
             'reciprocal_overflow_threshold', 'max_exponent', 'min_exponent', 'max_exponent10', 'min_exponent10']
    for T in ('void*', 'tag<int>', 'int[2]', 'int&', 'std::nullptr_t'):
        o.append(W('absent_' + re.sub(r'\W', '_', T), ' && '.join('!std::__value_exists_v<std::__%s, %s>' % (n, T) for n in names)))
        o.append(W('no_iec559_' + re.sub(r'\W', '_', T), ' && '.join('!std::__has_iec559_behavior_v<std::__%s, %s>' % (n, T) for n in ('infinity', 'quiet_NaN'))))
    return o


import re


def jobs_numeric(tier, sdir):
    tg = ['sse2', 'skx', 'neon', 'ppc', 'arm'] if tier == 'quick' else ['sse2', 'ssse3', 'sse4', 'avx', 'avx2', 'skx', 'knl', 'neon', 'ppc', 'arm']
    if tier == 'quick':
        modes = [('sse2', 'fin'), ('avx2', 'fast'), ('neon', 'fin'), ('sse2', '20')]
    else:
        modes = [(t, x) for t in ('sse2', 'avx2', 'skx', 'neon', 'ppc') for x in ('fin', 'fast', '20')]
    out = []
    for t in tg:
        out.append((t, job, (t, t + '/numeric', '', others(t), sdir)))
        for T in VT + ['bool']:
            out.append((t, job, (t, '%s/%s/numeric' % (t, nm(T)), 'using T_ = %s;' % T, numeric(t, T), sdir)))
    for t, x in modes:
        tt = '%s+%s' % (t, x)
        for T in VT + ['bool']:
            out.append((tt, job, (tt, '%s/%s/numeric' % (tt, nm(T)), 'using T_ = %s;' % T, numeric(tt, T, x if x != '20' else ''), sdir)))
    return out
