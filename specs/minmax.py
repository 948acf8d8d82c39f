from common import *


def ops(T, tier):
    o = []
    fs = 'f' if T == 'float' else ''
    mode = {'r': 'f', 's': 'f', 'nonan': True, 'zeroeq': True, 'facmm': True} if isfloat(T) else {}
    S = ('s', 'T', 'N', 'out')
    LO, HI = ('l', 'T', 'N', 'in'), ('h', 'T', 'N', 'in')
    mn, mx = '(b[i] < a[i] ? b[i] : a[i])', '(a[i] < b[i] ? b[i] : a[i])'
    o.append(Op('min', P(T, A, B, R), 'st(stdx::min(ld(a), ld(b)), r);', loop('r[i] = %s;' % mn), mode=mode))
    o.append(Op('max', P(T, A, B, R), 'st(stdx::max(ld(a), ld(b)), r);', loop('r[i] = %s;' % mx), mode=mode))
    o.append(Op('minmax', P(T, A, B, R, S), 'auto p = stdx::minmax(ld(a), ld(b)); st(p.first, r); st(p.second, s);', loop('r[i] = %s; s[i] = %s;' % (mn, mx)), mode=mode))
    # lo <= hi is a precondition: the bounds are made so by construction
    srt = 'T lo = l[i], hi = h[i]; if (hi < lo) { T t = lo; lo = hi; hi = t; } '
    o.append(Op('clamp', P(T, A, LO, HI, R), 'V x = ld(l), y = ld(h); M g = y < x; V lo = x, hi = y; where(g, lo) = y; where(g, hi) = x; st(stdx::clamp(ld(a), lo, hi), r);',
                loop('T lo = FMIN(l[i], h[i]), hi = FMAX(l[i], h[i]); r[i] = FMAX(lo, FMIN(hi, a[i]));'.replace('FM', '__builtin_fm').replace('IN(', 'in%s(' % fs).replace('AX(', 'ax%s(' % fs) if isfloat(T) else srt + 'T t = hi < a[i] ? hi : a[i]; r[i] = t < lo ? lo : t;'), mode=mode))
    if isfloat(T):
        o.append(Op('clamp_const', P(T, A, R), 'V lo([](auto i) { return T(-3) - T(int(i)); }), hi([](auto i) { return T(5) + T(int(i)); }); st(stdx::clamp(ld(a), lo, hi), r);',
                    loop('const T lo = T(-3 - i), hi = T(5 + i); r[i] = FMAX(lo, FMIN(hi, a[i]));').replace('FM', '__builtin_fm').replace('IN(', 'in%s(' % fs).replace('AX(', 'ax%s(' % fs), mode=mode))
    for nm, ex in (('min', 'b[i] < c ? b[i] : c'), ('max', 'c < b[i] ? b[i] : c')):
        for cn, c in (('3', 'T(3)'), ('m', 'std::numeric_limits<T>::%s()' % ('lowest' if nm == 'min' else 'max')), ('0', 'T()')):
            if cn == 'm' and isfloat(T):
                continue
            o.append(Op('%s_const_%s' % (nm, cn), P(T, B, R), 'st(stdx::%s(V(%s), ld(b)), r);' % (nm, c), loop('const T c = %s; r[i] = %s;' % (c, ex)), mode=mode))
            o.append(Op('%s_const2_%s' % (nm, cn), P(T, B, R), 'st(stdx::%s(ld(b), V(%s)), r);' % (nm, c), loop('const T c = %s; r[i] = %s;' % (c, ex)), mode=mode))
    return o
