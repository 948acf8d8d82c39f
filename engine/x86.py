"""Lane semantics of the x86 builtins that survive into the optimised GIMPLE.

Each entry states the architectural definition of one instruction as an
operation on lane terms.  An unknown builtin raises Unsupported, which makes
the obligation undecided, never proved and never violated.
"""
import re
from terms import M, FMT


class Unsupported(Exception):
    pass


EW = {'b': 8, 'w': 16, 'd': 32, 'q': 64, 'ps': 32, 'pd': 64, 'ss': 32, 'sd': 64, 'ph': 16,
      'qi': 8, 'hi': 16, 'si': 32, 'di': 64, 'sf': 32, 'df': 64}


def lanes(c, t, ew):
    n = c.w[t] // ew
    return [c.ext(t, i * ew, ew) for i in range(n)]


def perlane(c, ew, f, *ts):
    return c.cat([f(*xs) for xs in zip(*[lanes(c, t, ew) for t in ts])])


def chunks(c, t, n):
    return [c.ext(t, i, n) for i in range(0, c.w[t], n)]


def sat_s(c, t, w):
    """signed saturate t to w bits"""
    W = c.w[t]
    lo, hi = c.const(W, -(1 << (w - 1))), c.const(W, (1 << (w - 1)) - 1)
    s = c.as_sext(t)
    if c.w[s] <= w:
        return c.resize(s, w, True)
    z = c.as_zext(t)
    if z != t and c.w[z] < w:
        return c.zext(z, w)
    if c.constleaf(t):
        def leaf(l):
            v = c.a[l]
            v = v - (1 << W) if v >> (W - 1) else v
            return c.const(w, max(-(1 << (w - 1)), min((1 << (w - 1)) - 1, v)))
        return c.mapleaves(t, leaf)
    return c.ite(c.slt(t, lo), c.const(w, 1 << (w - 1)),
                 c.ite(c.slt(hi, t), c.const(w, (1 << (w - 1)) - 1), c.ext(t, 0, w)))


def sat_u(c, t, w):
    W = c.w[t]
    z = c.as_zext(t)
    if c.w[z] <= w:
        return c.zext(z, w)
    if c.constleaf(t):
        def leaf(l):
            v = c.a[l]
            v = v - (1 << W) if v >> (W - 1) else v
            return c.const(w, max(0, min((1 << w) - 1, v)))
        return c.mapleaves(t, leaf)
    return c.ite(c.top(t), c.const(w, 0),
                 c.ite(c.slt(c.const(W, (1 << w) - 1), t), c.const(w, -1), c.ext(t, 0, w)))


def blend(c, ew, mask, a, b):
    """mask bit i ? a : b"""
    n = c.w[a] // ew
    return c.cat([c.ite(c.bit(mask, i), x, y) for i, (x, y) in enumerate(zip(lanes(c, a, ew), lanes(c, b, ew)))])


def fcmp(c, imm, x, y):
    imm &= 31
    p = imm & 7
    un = c.funord(x, y)
    eq, lt, le = c.feq(x, y), c.flt(x, y), c.fle(x, y)
    N = c.not1
    base = {0: eq, 1: lt, 2: le, 3: un, 4: N(eq), 5: N(lt), 6: N(le), 7: N(un)}
    ext = {0: c.or1(eq, un), 1: c.not1(c.fle(y, x)), 2: c.not1(c.flt(y, x)), 3: c.F,
           4: c.and1(N(eq), N(un)), 5: c.fle(y, x), 6: c.flt(y, x), 7: c.T}
    # 8: EQ_UQ 9: NGE 10: NGT 11: FALSE 12: NEQ_OQ 13: GE 14: GT 15: TRUE
    return (ext if imm & 8 else base)[p]


def icmp(c, imm, x, y, signed):
    lt = c.slt if signed else c.ult
    p = imm & 7
    if p == 0:
        return c.eq(x, y)
    if p == 1:
        return lt(x, y)
    if p == 2:
        return c.not1(lt(y, x))
    if p == 3:
        return c.F
    if p == 4:
        return c.not1(c.eq(x, y))
    if p == 5:
        return c.not1(lt(x, y))
    if p == 6:
        return lt(y, x)
    return c.T


def movemask(c, t, ew, w):
    bits = [c.top(x) for x in lanes(c, t, ew)]
    r = c.cat(bits)
    return c.zext(r, w)


def unpack(c, a, b, ew, high):
    out = []
    for x, y in zip(chunks(c, a, 128), chunks(c, b, 128)):
        lx, ly = lanes(c, x, ew), lanes(c, y, ew)
        n = len(lx)
        rng = range(n // 2, n) if high else range(n // 2)
        for i in rng:
            out += [lx[i], ly[i]]
    return c.cat(out)


def pack(c, a, b, ew, f):
    out = []
    for x, y in zip(chunks(c, a, 128), chunks(c, b, 128)):
        out += [f(c, l, ew // 2) for l in lanes(c, x, ew)]
        out += [f(c, l, ew // 2) for l in lanes(c, y, ew)]
    return c.cat(out)


def shuf_const(c, t):
    if not c.isc(t):
        raise Unsupported('non-constant control')
    return c.a[t]


def pshufb(c, a, k):
    out = []
    for x, y in zip(chunks(c, a, 128), chunks(c, k, 128)):
        lx = lanes(c, x, 8)
        for s in lanes(c, y, 8):
            hi = c.top(s)
            idx = c.ext(s, 0, 4)
            sel = pick(c, lx, idx)
            out.append(c.ite(hi, c.const(8, 0), sel))
    return c.cat(out)


def pick(c, ls, idx):
    """ls[idx], idx of exactly log2(len(ls)) bits"""
    if c.isc(idx):
        return ls[c.a[idx]]
    n = c.w[idx]
    if n == 0:
        return ls[0]
    b = c.top(idx)
    if n == 1:
        return c.ite(b, ls[1], ls[0])
    lo = c.ext(idx, 0, n - 1)
    h = len(ls) // 2
    return c.ite(b, pick(c, ls[h:], lo), pick(c, ls[:h], lo))


def permvar(c, a, idx, ew):
    la = lanes(c, a, ew)
    n = len(la)
    k = n.bit_length() - 1
    return c.cat([pick(c, la, c.ext(i, 0, k)) for i in lanes(c, idx, ew)])


def shuf4(ls, imm):
    return [ls[(imm >> (2 * i)) & 3] for i in range(4)]


def fminmax(c, x, y, mx):
    # MINPS: x < y ? x : y     MAXPS: x > y ? x : y
    return c.ite(c.flt(y, x) if mx else c.flt(x, y), x, y)


def rnd_imm(c, imm, x):
    m = imm & 0xf
    if m & 4:
        mode = 'rint'
    else:
        mode = {0: 'rint', 1: 'floor', 2: 'ceil', 3: 'trunc'}[m & 3]
    if imm >> 4:
        raise Unsupported('roundscale scale')
    return c.frnd(mode, x)


TBL = []


def op(rx):
    def d(f):
        TBL.append((re.compile(rx + r'$'), f))
        return f
    return d


class A:
    """argument bundle"""

    def __init__(self, ip, c, args, w):
        self.ip, self.c, self.x, self.w = ip, c, args, w

    def imm(self, i):
        return shuf_const(self.c, self.x[i])


# ---- plain (unmasked) instructions --------------------------------------
@op(r'movmskp([sd])(256)?')
def _(m, a):
    return movemask(a.c, a.x[0], EW['p' + m.group(1)], 32)


@op(r'pmovmskb(128|256)')
def _(m, a):
    return movemask(a.c, a.x[0], 8, 32)


@op(r'(p?)and(n|not)(128|256|512|p[sd]|p[sd]256|si256|p[sd]128)|pandn(\d+)?|pandn')
def _(m, a):
    return a.c.band(a.c.bnot(a.x[0]), a.x[1])


@op(r'andnp[sd](256)?|andnotsi256|pandn(d|q)?(128|256|512)|pandn')
def _(m, a):
    return a.c.band(a.c.bnot(a.x[0]), a.x[1])


@op(r'(and|or|xor)p[sd](128|256|512)?|p(and|or|xor)([dq])?(128|256|512)')
def _(m, a):
    o = m.group(1) or m.group(3)
    return a.c.bitop(o, a.x[0], a.x[1])


@op(r'punpck([lh])(bw|wd|dq|qdq)(128|256|512)')
def _(m, a):
    ew = {'bw': 8, 'wd': 16, 'dq': 32, 'qdq': 64}[m.group(2)]
    return unpack(a.c, a.x[0], a.x[1], ew, m.group(1) == 'h')


@op(r'unpck([lh])p([sd])(128|256|512)?')
def _(m, a):
    return unpack(a.c, a.x[0], a.x[1], EW['p' + m.group(2)], m.group(1) == 'h')


@op(r'pack([su])s(wb|dw)(128|256|512)')
def _(m, a):
    return pack(a.c, a.x[0], a.x[1], {'wb': 16, 'dw': 32}[m.group(2)], sat_s if m.group(1) == 's' else sat_u)


@op(r'pmov([sz])x(bw|bd|bq|wd|wq|dq)(128|256|512)')
def _(m, a):
    c = a.c
    s, d = EW[m.group(2)[0]], EW[m.group(2)[1]]
    W = int(m.group(3))
    n = W // d
    return c.cat([c.resize(c.ext(a.x[0], i * s, s), d, m.group(1) == 's') for i in range(n)])


@op(r'cvtdq2pd(256|512)?')
def _(m, a):
    c = a.c
    n = {None: 2, '256': 4, '512': 8}[m.group(1)]
    return c.cat([c.itofp(c.ext(a.x[0], i * 32, 32), 64, True) for i in range(n)])


@op(r'cvtdq2ps(256|512|128)?')
def _(m, a):
    c = a.c
    return perlane(c, 32, lambda x: c.itofp(x, 32, True), a.x[0])


@op(r'cvtudq2ps(128|256|512)')
def _(m, a):
    c = a.c
    return perlane(c, 32, lambda x: c.itofp(x, 32, False), a.x[0])


@op(r'cvtudq2pd(128|256|512)')
def _(m, a):
    c = a.c
    n = int(m.group(1)) // 64
    return c.cat([c.itofp(c.ext(a.x[0], i * 32, 32), 64, False) for i in range(n)])


@op(r'cvt(u?)qq2p([sd])(128|256|512)')
def _(m, a):
    c = a.c
    wd = EW['p' + m.group(2)]
    r = [c.itofp(x, wd, not m.group(1)) for x in lanes(c, a.x[0], 64)]
    r = c.cat(r)
    return c.zext(r, max(128, c.w[r]))


@op(r'cvtps2pd(256|512|128)?')
def _(m, a):
    c = a.c
    n = {None: 2, '128': 2, '256': 4, '512': 8}[m.group(1)]
    return c.cat([c.fcvt(c.ext(a.x[0], i * 32, 32), 64) for i in range(n)])


@op(r'cvtpd2ps(256|512)?')
def _(m, a):
    c = a.c
    r = c.cat([c.fcvt(x, 32) for x in lanes(c, a.x[0], 64)])
    return c.zext(r, max(128, c.w[r]))


@op(r'cvttps2(u?)dq(128|256|512)?')
def _(m, a):
    c = a.c
    return perlane(c, 32, lambda x: c.fptoi(x, 32, not m.group(1)), a.x[0])


@op(r'cvttpd2(u?)dq(128|256|512)?')
def _(m, a):
    c = a.c
    r = c.cat([c.fptoi(x, 32, not m.group(1)) for x in lanes(c, a.x[0], 64)])
    return c.zext(r, max(128, c.w[r]))


@op(r'cvttpd2(u?)qq(128|256|512)')
def _(m, a):
    c = a.c
    return perlane(c, 64, lambda x: c.fptoi(x, 64, not m.group(1)), a.x[0])


@op(r'cvttps2(u?)qq(128|256|512)')
def _(m, a):
    c = a.c
    n = int(m.group(2)) // 64
    return c.cat([c.fptoi(c.ext(a.x[0], 32 * i, 32), 64, not m.group(1)) for i in range(n)])


@op(r'cvtp([sd])2dq(256|512|128)?')
def _(m, a):
    c = a.c
    ew = EW['p' + m.group(1)]
    r = c.cat([c.fptoi(c.frnd('rint', x), 32, True) for x in lanes(c, a.x[0], ew)])
    return c.zext(r, max(128, c.w[r]))


@op(r'cvtts([sd])2si(64)?')
def _(m, a):
    return a.c.fptoi(a.c.ext(a.x[0], 0, EW['s' + m.group(1)]), 64 if m.group(2) else 32, True)


@op(r'cvtsi(64)?2s([sd])(32|64)?')
def _(m, a):
    c = a.c
    ew = EW['s' + m.group(2)]
    v = c.itofp(a.x[1], ew, True)
    return c.cat([v, c.ext(a.x[0], ew, c.w[a.x[0]] - ew)])


SHK = {'sll': 'shl', 'srl': 'lshr', 'sra': 'ashr'}


@op(r'p(sll|srl|sra)([wdq])i(128|256|512)')
def _(m, a):
    c = a.c
    ew = EW[m.group(2)]
    # immediate may be symbolic: low 8..32 bits as given
    return perlane(c, ew, lambda x: c.shift(SHK[m.group(1)], x, a.x[1], 'sat'), a.x[0])


@op(r'p(sll|srl|sra)([wdq])(128|256|512)')
def _(m, a):
    c = a.c
    ew = EW[m.group(2)]
    n = c.ext(a.x[1], 0, 64)
    return perlane(c, ew, lambda x: c.shift(SHK[m.group(1)], x, n, 'sat'), a.x[0])


@op(r'p(sll|srl|sra)v(\d+)([shdq]i)(_mask)?')
def _(m, a):
    c = a.c
    ew = EW[m.group(3)]
    r = perlane(c, ew, lambda x, s: c.shift(SHK[m.group(1)], x, s, 'sat'), a.x[0], a.x[1])
    if m.group(4):
        r = blend(c, ew, a.x[3], r, a.x[2])
    return r


@op(r'psr(l?)(av|lv|lv)q?(\d+)_mask|psrav(\d*)q(128|256|512)_mask|psravq(\d+)_mask')
def _(m, a):
    c = a.c
    r = perlane(c, 64, lambda x, s: c.shift('ashr', x, s, 'sat'), a.x[0], a.x[1])
    return blend(c, 64, a.x[3], r, a.x[2])


@op(r'ps(r|l)ldqi(128|256|512)')
def _(m, a):
    c = a.c
    n = a.imm(1)
    f = c.lshrc if m.group(1) == 'r' else c.shlc
    return c.cat([f(x, n) for x in chunks(c, a.x[0], 128)])


@op(r'palignr(128|256|512)')
def _(m, a):
    c = a.c
    n = a.imm(2)
    out = []
    for x, y in zip(chunks(c, a.x[0], 128), chunks(c, a.x[1], 128)):
        out.append(c.ext(c.lshrc(c.cat([y, x]), n), 0, 128))
    return c.cat(out)


@op(r'pblendw(128|256)')
def _(m, a):
    c = a.c
    k = a.imm(2)
    la, lb = lanes(c, a.x[0], 16), lanes(c, a.x[1], 16)
    return c.cat([y if (k >> (i % 8)) & 1 else x for i, (x, y) in enumerate(zip(la, lb))])


@op(r'pblendd(128|256)|blendp([sd])(256)?')
def _(m, a):
    c = a.c
    ew = 64 if m.group(2) == 'd' else 32
    k = a.imm(2)
    la, lb = lanes(c, a.x[0], ew), lanes(c, a.x[1], ew)
    return c.cat([y if (k >> i) & 1 else x for i, (x, y) in enumerate(zip(la, lb))])


@op(r'pblendvb(128|256)|blendvp([sd])(256)?')
def _(m, a):
    c = a.c
    ew = EW['p' + m.group(2)] if m.group(2) else 8
    return perlane(c, ew, lambda x, y, k: c.ite(c.top(k), y, x), a.x[0], a.x[1], a.x[2])


@op(r'pshufd(256|512)?')
def _(m, a):
    c = a.c
    k = a.imm(1)
    return c.cat([c.cat(shuf4(lanes(c, x, 32), k)) for x in chunks(c, a.x[0], 128)])


@op(r'pshuf([lh])w(256|512)?')
def _(m, a):
    c = a.c
    k = a.imm(1)
    out = []
    for x in chunks(c, a.x[0], 128):
        l = lanes(c, x, 16)
        if m.group(1) == 'l':
            out += shuf4(l[:4], k) + l[4:]
        else:
            out += l[:4] + shuf4(l[4:], k)
    return c.cat(out)


@op(r'pshufb(128|256|512)')
def _(m, a):
    return pshufb(a.c, a.x[0], a.x[1])


@op(r'shufp([sd])(256|512)?')
def _(m, a):
    c = a.c
    k = a.imm(2)
    out = []
    for i, (x, y) in enumerate(zip(chunks(c, a.x[0], 128), chunks(c, a.x[1], 128))):
        if m.group(1) == 's':
            lx, ly = lanes(c, x, 32), lanes(c, y, 32)
            out += [lx[k & 3], lx[(k >> 2) & 3], ly[(k >> 4) & 3], ly[(k >> 6) & 3]]
        else:
            lx, ly = lanes(c, x, 64), lanes(c, y, 64)
            kk = k >> (2 * i)
            out += [lx[kk & 1], ly[(kk >> 1) & 1]]
    return c.cat(out)


@op(r'vpermilp([sd])(256|512)?')
def _(m, a):
    c = a.c
    k = a.imm(1)
    out = []
    for i, x in enumerate(chunks(c, a.x[0], 128)):
        if m.group(1) == 's':
            out += shuf4(lanes(c, x, 32), k)
        else:
            l = lanes(c, x, 64)
            kk = k >> (2 * i)
            out += [l[kk & 1], l[(kk >> 1) & 1]]
    return c.cat(out)


@op(r'permdi256|permdf256|permdi512|permdf512')
def _(m, a):
    c = a.c
    k = a.imm(1)
    return c.cat([c.cat(shuf4(lanes(c, x, 64), k)) for x in chunks(c, a.x[0], 256)])


@op(r'perm(?:var)?(s[if]|d[if]|hi|qi)(128|256|512)')
def _(m, a):
    ew = {'s': 32, 'd': 64, 'h': 16, 'q': 8}[m.group(1)[0]]
    return permvar(a.c, a.x[0], a.x[1], ew)


@op(r'vperm2f128_(p[sd]256|si256)|permti256')
def _(m, a):
    c = a.c
    k = a.imm(2)
    src = chunks(c, a.x[0], 128) + chunks(c, a.x[1], 128)
    out = []
    for i in range(2):
        kk = k >> (4 * i)
        out.append(c.const(128, 0) if kk & 8 else src[kk & 3])
    return c.cat(out)


@op(r'movhlps')
def _(m, a):
    return a.c.cat([a.c.ext(a.x[1], 64, 64), a.c.ext(a.x[0], 64, 64)])


@op(r'movlhps')
def _(m, a):
    return a.c.cat([a.c.ext(a.x[0], 0, 64), a.c.ext(a.x[1], 0, 64)])


@op(r'movsh?dup(256)?|movshdup|movsldup(256)?')
def _(m, a):
    c = a.c
    l = lanes(c, a.x[0], 32)
    hi = 'movshdup' in m.string
    return c.cat([l[(i | 1) if hi else (i & ~1)] for i in range(len(l))])


@op(r'movs([sd])')
def _(m, a):
    ew = EW['s' + m.group(1)]
    return a.c.cat([a.c.ext(a.x[1], 0, ew), a.c.ext(a.x[0], ew, 128 - ew)])


@op(r'movq128')
def _(m, a):
    return a.c.zext(a.c.ext(a.x[0], 0, 64), 128)


@op(r'vbroadcast(ss|sd|si|sf)(128|256)?|vbroadcastsi256|vbroadcasts[sd]_ps(256)?|vbroadcasts[sd]_pd(256)?')
def _(m, a):
    c = a.c
    s = m.string
    if 'vbroadcastsi256' in s:
        return c.cat([a.x[0], a.x[0]])
    ew = 64 if 'sd' in s else 32
    n = (a.w or 128) // ew
    return c.cat([c.ext(a.x[0], 0, ew)] * n)


@op(r'pbroadcast([bwdq])(128|256)')
def _(m, a):
    ew = EW[m.group(1)]
    return a.c.cat([a.c.ext(a.x[0], 0, ew)] * (int(m.group(2)) // ew))


@op(r'vec_ext_v(\d+)([a-z]+)')
def _(m, a):
    c = a.c
    ew = EW[m.group(2)]
    i = a.imm(1) % int(m.group(1))
    r = c.ext(a.x[0], i * ew, ew)
    return r if a.w is None or a.w <= ew else c.zext(r, a.w)


@op(r'vec_set_v(\d+)([a-z]+)')
def _(m, a):
    c = a.c
    ew = EW[m.group(2)]
    n = int(m.group(1))
    i = a.imm(2) % n
    l = lanes(c, a.x[0], ew)
    l[i] = c.ext(a.x[1], 0, ew)
    return c.cat(l)


@op(r'insertps128')
def _(m, a):
    c = a.c
    k = a.imm(2)
    d, s = lanes(c, a.x[0], 32), lanes(c, a.x[1], 32)
    d[(k >> 4) & 3] = s[(k >> 6) & 3]
    return c.cat([c.const(32, 0) if (k >> i) & 1 else d[i] for i in range(4)])


@op(r'vextractf128_(p[sd]256|si256)|extract128i256')
def _(m, a):
    return a.c.ext(a.x[0], 128 * (a.imm(1) & 1), 128)


@op(r'vinsertf128_(p[sd]256|si256)|insert128i256')
def _(m, a):
    l = chunks(a.c, a.x[0], 128)
    l[a.imm(2) & 1] = a.x[1]
    return a.c.cat(l)


@op(r'(p[sd]|si|p[sd])(256|512)_(?:p[sd]|si)(?:128)?|(ps|pd|si)(512)_(256)?(ps|pd|si)(256)?')
def _(m, a):
    # casts between register sizes: upper part undefined when widening
    c = a.c
    w = a.w
    x = a.x[0]
    if w is None:
        raise Unsupported('cast width')
    if w <= c.w[x]:
        return c.ext(x, 0, w)
    return c.cat([x, c.undef(w - c.w[x])])


@op(r'(add|sub|mul|div)p([sd])(128|256|512)?')
def _(m, a):
    c = a.c
    f = {'add': c.fadd, 'sub': c.fsub, 'mul': c.fmul, 'div': c.fdiv}[m.group(1)]
    return perlane(c, EW['p' + m.group(2)], f, a.x[0], a.x[1])


@op(r'(add|sub|mul|div|min|max|sqrt)s([sd])')
def _(m, a):
    c = a.c
    ew = EW['s' + m.group(2)]
    o = m.group(1)
    x = c.ext(a.x[0], 0, ew)
    if o == 'sqrt':
        r = c.sqrt(x)
    else:
        y = c.ext(a.x[1], 0, ew)
        f = {'add': c.fadd, 'sub': c.fsub, 'mul': c.fmul, 'div': c.fdiv}.get(o)
        r = f(x, y) if f else fminmax(c, x, y, o == 'max')
    return c.cat([r, c.ext(a.x[0], ew, c.w[a.x[0]] - ew)])


@op(r'(min|max)p([sd])(128|256|512)?')
def _(m, a):
    c = a.c
    return perlane(c, EW['p' + m.group(2)], lambda x, y: fminmax(c, x, y, m.group(1) == 'max'), a.x[0], a.x[1])


@op(r'sqrtp([sd])(128|256|512)?|sqrtp([sd])(_nr)?(256)?')
def _(m, a):
    c = a.c
    return perlane(c, EW['p' + (m.group(1) or m.group(3))], c.sqrt, a.x[0])


@op(r'haddp([sd])(256)?')
def _(m, a):
    c = a.c
    ew = EW['p' + m.group(1)]
    out = []
    for x, y in zip(chunks(c, a.x[0], 128), chunks(c, a.x[1], 128)):
        for z in (x, y):
            l = lanes(c, z, ew)
            out += [c.fadd(l[i], l[i + 1]) for i in range(0, len(l), 2)]
    return c.cat(out)


@op(r'round(p|s)([sd])(256)?')
def _(m, a):
    c = a.c
    ew = EW['p' + m.group(2)]
    if m.group(1) == 's':
        r = rnd_imm(c, a.imm(2), c.ext(a.x[1], 0, ew))
        return c.cat([r, c.ext(a.x[0], ew, c.w[a.x[0]] - ew)])
    return perlane(c, ew, lambda x: rnd_imm(c, a.imm(1), x), a.x[0])


@op(r'(floor|ceil|trunc|rint)p([sd])(256|512)?')
def _(m, a):
    c = a.c
    return perlane(c, EW['p' + m.group(2)], lambda x: c.frnd(m.group(1), x), a.x[0])


@op(r'cmpp([sd])(256)?')
def _(m, a):
    c = a.c
    ew = EW['p' + m.group(1)]
    k = a.imm(2)
    return perlane(c, ew, lambda x, y: c.rep(fcmp(c, k, x, y), ew), a.x[0], a.x[1])


CMPN = {'eq': 0, 'lt': 1, 'le': 2, 'unord': 3, 'neq': 4, 'nlt': 5, 'nle': 6, 'ord': 7, 'gt': 14, 'ge': 13,
        'ngt': 10, 'nge': 9}


@op(r'cmp(eq|lt|le|unord|neq|nlt|nle|ord|gt|ge|ngt|nge)([ps])([sd])')
def _(m, a):
    c = a.c
    ew = EW['p' + m.group(3)]
    k = CMPN[m.group(1)]
    r = perlane(c, ew, lambda x, y: c.rep(fcmp(c, k, x, y), ew), a.x[0], a.x[1])
    if m.group(2) == 's':
        return c.cat([c.ext(r, 0, ew), c.ext(a.x[0], ew, 128 - ew)])
    return r


@op(r'u?comi(eq|lt|le|gt|ge|neq)|comisd(eq|lt|le|gt|ge|neq)|ucomisd(eq|lt|le|gt|ge|neq)')
def _(m, a):
    c = a.c
    ew = 64 if 'sd' in m.string else 32
    x, y = c.ext(a.x[0], 0, ew), c.ext(a.x[1], 0, ew)
    o = m.group(1) or m.group(2) or m.group(3)
    r = {'eq': lambda: c.feq(x, y), 'lt': lambda: c.flt(x, y), 'le': lambda: c.fle(x, y),
         'gt': lambda: c.flt(y, x), 'ge': lambda: c.fle(y, x), 'neq': lambda: c.not1(c.feq(x, y))}[o]()
    return c.zext(r, 32)


@op(r'pcmp(eq|gt)([bwdq])(128|256)')
def _(m, a):
    c = a.c
    ew = EW[m.group(2)]
    f = c.eq if m.group(1) == 'eq' else (lambda x, y: c.slt(y, x))
    return perlane(c, ew, lambda x, y: c.rep(f(x, y), ew), a.x[0], a.x[1])


@op(r'p(min|max)([su])([bwdq])(128|256|512)')
def _(m, a):
    c = a.c
    ew = EW[m.group(3)]
    return perlane(c, ew, lambda x, y: c.minmax(m.group(2) + m.group(1), x, y), a.x[0], a.x[1])


@op(r'pabs([bwdq])(128|256|512)')
def _(m, a):
    c = a.c
    return perlane(c, EW[m.group(1)], lambda x: c.ite(c.top(x), c.neg(x), x), a.x[0])


@op(r'p(add|sub)([bwdq])(128|256|512)')
def _(m, a):
    c = a.c
    return perlane(c, EW[m.group(2)], c.add if m.group(1) == 'add' else c.sub, a.x[0], a.x[1])


@op(r'psubus([bw])(128|256|512)')
def _(m, a):
    c = a.c
    ew = EW[m.group(1)]
    return perlane(c, ew, lambda x, y: c.ite(c.ult(x, y), c.const(ew, 0), c.sub(x, y)), a.x[0], a.x[1])


@op(r'paddus([bw])(128|256|512)')
def _(m, a):
    c = a.c
    ew = EW[m.group(1)]

    def f(x, y):
        s = c.add(x, y)
        return c.ite(c.ult(s, x), c.const(ew, -1), s)
    return perlane(c, ew, f, a.x[0], a.x[1])


@op(r'p(add|sub)s([bw])(128|256|512)')
def _(m, a):
    c = a.c
    ew = EW[m.group(2)]

    def f(x, y):
        x, y = c.sext(x, ew + 1), c.sext(y, ew + 1)
        return sat_s(c, c.add(x, y) if m.group(1) == 'add' else c.sub(x, y), ew)
    return perlane(c, ew, f, a.x[0], a.x[1])


@op(r'pmull([wdq])(128|256|512)')
def _(m, a):
    return perlane(a.c, EW[m.group(1)], a.c.mul, a.x[0], a.x[1])


@op(r'pmul(h|hu)w(128|256|512)')
def _(m, a):
    c = a.c
    sg = m.group(1) == 'h'
    return perlane(c, 16, lambda x, y: c.ext(c.mul(c.resize(x, 32, sg), c.resize(y, 32, sg)), 16, 16), a.x[0], a.x[1])


@op(r'pmul(u?)dq(128|256|512)')
def _(m, a):
    c = a.c
    sg = not m.group(1)
    return perlane(c, 64, lambda x, y: c.mul(c.resize(c.ext(x, 0, 32), 64, sg), c.resize(c.ext(y, 0, 32), 64, sg)),
                   a.x[0], a.x[1])


@op(r'pmaddwd(128|256|512)')
def _(m, a):
    c = a.c

    def f(x, y):
        p = [c.mul(c.sext(c.ext(x, i, 16), 32), c.sext(c.ext(y, i, 16), 32)) for i in (0, 16)]
        return c.add(p[0], p[1])
    return perlane(c, 32, f, a.x[0], a.x[1])


@op(r'pmaddubsw(128|256|512)')
def _(m, a):
    c = a.c

    def f(x, y):
        p = [c.mul(c.zext(c.ext(x, i, 8), 18), c.sext(c.ext(y, i, 8), 18)) for i in (0, 8)]
        return sat_s(c, c.add(p[0], p[1]), 16)
    return perlane(c, 16, f, a.x[0], a.x[1])


@op(r'psadbw(128|256|512)')
def _(m, a):
    c = a.c

    def f(x, y):
        s = c.const(64, 0)
        for i in range(0, 64, 8):
            p, q = c.ext(x, i, 8), c.ext(y, i, 8)
            d = c.ite(c.ult(p, q), c.sub(q, p), c.sub(p, q))
            s = c.add(s, c.zext(d, 64))
        return s
    return perlane(c, 64, f, a.x[0], a.x[1])


@op(r'psign([bwd])(128|256)')
def _(m, a):
    c = a.c
    ew = EW[m.group(1)]
    return perlane(c, ew, lambda x, y: c.ite(c.top(y), c.neg(x), c.ite(c.eq(y, c.const(ew, 0)), c.const(ew, 0), x)),
                   a.x[0], a.x[1])


@op(r'phadd([wd])(128|256)')
def _(m, a):
    c = a.c
    ew = EW[m.group(1)]
    out = []
    for x, y in zip(chunks(c, a.x[0], 128), chunks(c, a.x[1], 128)):
        for z in (x, y):
            l = lanes(c, z, ew)
            out += [c.add(l[i], l[i + 1]) for i in range(0, len(l), 2)]
    return c.cat(out)


def allzero(c, t):
    return c.eq(t, c.const(c.w[t], 0))


@op(r'ptest([zc]|nzc)(128|256)')
def _(m, a):
    c = a.c
    z = allzero(c, c.band(a.x[0], a.x[1]))
    k = allzero(c, c.band(c.bnot(a.x[0]), a.x[1]))
    r = {'z': z, 'c': k}.get(m.group(1)) if m.group(1) != 'nzc' else c.and1(c.not1(z), c.not1(k))
    return c.zext(r, 32)


@op(r'vtest([zc]|nzc)p([sd])(256)?')
def _(m, a):
    c = a.c
    ew = EW['p' + m.group(2)]
    x = c.cat([c.top(l) for l in lanes(c, a.x[0], ew)])
    y = c.cat([c.top(l) for l in lanes(c, a.x[1], ew)])
    z = allzero(c, c.band(x, y))
    k = allzero(c, c.band(c.bnot(x), y))
    r = {'z': z, 'c': k}.get(m.group(1)) if m.group(1) != 'nzc' else c.and1(c.not1(z), c.not1(k))
    return c.zext(r, 32)


@op(r'lddqu(256)?')
def _(m, a):
    raise Unsupported('lddqu')


# ---- mask registers ------------------------------------------------------
@op(r'k(and|or|xor|andn|xnor)([qhsd]i)')
def _(m, a):
    c = a.c
    o = m.group(1)
    x, y = a.x[0], a.x[1]
    if o == 'andn':
        return c.band(c.bnot(x), y)
    if o == 'xnor':
        return c.bnot(c.bxor(x, y))
    return c.bitop(o, x, y)


@op(r'knot([qhsd]i)')
def _(m, a):
    return a.c.bnot(a.x[0])


@op(r'kortest([cz])([qhsd]i)')
def _(m, a):
    c = a.c
    w = EW[m.group(2)]
    x = c.bor(c.resize(a.x[0], w, False), c.resize(a.x[1], w, False))
    return c.zext(c.eq(x, c.const(w, -1 if m.group(1) == 'c' else 0)), a.w or 8)


@op(r'ktest([cz])([qhsd]i)')
def _(m, a):
    c = a.c
    w = EW[m.group(2)]
    x, y = c.resize(a.x[0], w, False), c.resize(a.x[1], w, False)
    if m.group(1) == 'c':
        x = c.bnot(x)
    return c.zext(allzero(c, c.band(x, y)), a.w or 8)


@op(r'kshift([lr])i([qhsd]i)|k(l|r)shift([qhsd]i)|kshift(l|r)([qhsd]i)')
def _(m, a):
    c = a.c
    d = m.group(1) or m.group(3) or m.group(5)
    w = EW[m.group(2) or m.group(4) or m.group(6)]
    x = c.resize(a.x[0], w, False)
    n = a.imm(1) & 0xff
    return c.shlc(x, n) if d == 'l' else c.lshrc(x, n)


@op(r'kunpck(hi|si|di)')
def _(m, a):
    c = a.c
    w = EW[m.group(1)]
    return c.cat([c.resize(a.x[1], w // 2, False), c.resize(a.x[0], w // 2, False)])


@op(r'kmov([bwdq])')
def _(m, a):
    return a.c.resize(a.x[0], a.w or c.w[a.x[0]], False)


@op(r'cvtmask2([bwdq])(128|256|512)')
def _(m, a):
    c = a.c
    ew = EW[m.group(1)]
    n = int(m.group(2)) // ew
    return c.cat([c.rep(c.bit(a.x[0], i), ew) for i in range(n)])


@op(r'cvt([bwdq])2mask(128|256|512)')
def _(m, a):
    c = a.c
    ew = EW[m.group(1)]
    r = c.cat([c.top(x) for x in lanes(c, a.x[0], ew)])
    return c.zext(r, max(8, c.w[r]))


def kres(c, bits, mask, w):
    out = []
    for i, b in enumerate(bits):
        out.append(c.and1(b, c.bit(mask, i)))
    r = c.cat(out)
    return c.zext(r, max(w or 8, c.w[r], 8))


@op(r'cmpp([sd])(128|256|512)_mask')
def _(m, a):
    c = a.c
    ew = EW['p' + m.group(1)]
    k = a.imm(2)
    return kres(c, [fcmp(c, k, x, y) for x, y in zip(lanes(c, a.x[0], ew), lanes(c, a.x[1], ew))], a.x[3], None)


@op(r'cmps([sd])_mask')
def _(m, a):
    c = a.c
    ew = EW['s' + m.group(1)]
    return kres(c, [fcmp(c, a.imm(2), c.ext(a.x[0], 0, ew), c.ext(a.x[1], 0, ew))], a.x[3], None)


@op(r'(u?)cmp([bwdq])(128|256|512)_mask')
def _(m, a):
    c = a.c
    ew = EW[m.group(2)]
    k = a.imm(2)
    return kres(c, [icmp(c, k, x, y, not m.group(1)) for x, y in zip(lanes(c, a.x[0], ew), lanes(c, a.x[1], ew))],
                a.x[3], None)


@op(r'pcmp(eq|gt)([bwdq])(128|256|512)_mask')
def _(m, a):
    c = a.c
    ew = EW[m.group(2)]
    f = c.eq if m.group(1) == 'eq' else (lambda x, y: c.slt(y, x))
    return kres(c, [f(x, y) for x, y in zip(lanes(c, a.x[0], ew), lanes(c, a.x[1], ew))], a.x[2], None)


@op(r'ptest(n?)m([bwdq])(128|256|512)(_mask)?')
def _(m, a):
    c = a.c
    ew = EW[m.group(2)]
    bits = []
    for x, y in zip(lanes(c, a.x[0], ew), lanes(c, a.x[1], ew)):
        z = allzero(c, c.band(x, y))
        bits.append(z if m.group(1) else c.not1(z))
    mk = a.x[2] if len(a.x) > 2 else a.c.const(64, -1)
    return kres(c, bits, mk, None)


@op(r'fpclassp([sd])(128|256|512)_mask')
def _(m, a):
    c = a.c
    ew = EW['p' + m.group(1)]
    k = a.imm(1)
    bits = []
    from terms import FMT, f_inf
    for x in lanes(c, a.x[0], ew):
        e, mb = FMT[ew]
        exp = c.ext(x, mb, e)
        man = c.ext(x, 0, mb)
        s = c.top(x)
        ez, eo = c.eq(exp, c.const(e, 0)), c.eq(exp, c.const(e, -1))
        mz = c.eq(man, c.const(mb, 0))
        q = c.bit(x, mb - 1)
        r = c.F
        nan = c.fun(x)
        inf = c.feq(c.fabs(x), c.const(ew, f_inf(ew)))
        if k & 0x01:
            r = c.or1(r, c.and1(nan, q))
        if k & 0x80:
            r = c.or1(r, c.and1(nan, c.not1(q)))
        if k & 0x81 == 0x81:
            r = c.or1(r, nan)
        if k & 0x02:
            r = c.or1(r, c.and1(c.and1(ez, mz), c.not1(s)))
        if k & 0x04:
            r = c.or1(r, c.and1(c.and1(ez, mz), s))
        if k & 0x08:
            r = c.or1(r, c.and1(inf, c.not1(s)))
        if k & 0x10:
            r = c.or1(r, c.and1(inf, s))
        if k & 0x20:
            r = c.or1(r, c.and1(ez, c.not1(mz)))
        if k & 0x40:
            fin = c.and1(c.not1(eo), c.not1(c.and1(ez, mz)))
            r = c.or1(r, c.and1(fin, s))
        bits.append(r)
    return kres(c, bits, a.x[2], None)


@op(r'blendm([bwdq]|p[sd])_(128|256|512)_mask')
def _(m, a):
    # dst = k ? second : first
    return blend(a.c, EW[m.group(1)], a.x[2], a.x[1], a.x[0])


@op(r'movdqu(qi|hi)(128|256|512)_mask|movdqa(32|64)_(128|256|512)_mask|mova(ps|pd)(128|256|512)_mask')
def _(m, a):
    ew = EW[m.group(1)] if m.group(1) else int(m.group(3)) if m.group(3) else EW[m.group(5)]
    return blend(a.c, ew, a.x[2], a.x[0], a.x[1])


@op(r'select([bwdq]|p[sd])_(128|256|512)')
def _(m, a):
    return blend(a.c, EW[m.group(1)], a.x[0], a.x[1], a.x[2])


@op(r'pbroadcast([bwdq])(128|256|512)_(gpr|mem)_mask|pbroadcast([bwdq])(128|256|512)_mask')
def _(m, a):
    c = a.c
    ew = EW[m.group(1) or m.group(4)]
    W = int(m.group(2) or m.group(5))
    r = c.cat([c.ext(a.x[0], 0, ew)] * (W // ew))
    return blend(c, ew, a.x[2], r, a.x[1])


@op(r'broadcasts([sd])(128|256|512)(_mask)?')
def _(m, a):
    c = a.c
    ew = EW['s' + m.group(1)]
    r = c.cat([c.ext(a.x[0], 0, ew)] * (int(m.group(2)) // ew))
    return blend(c, ew, a.x[2], r, a.x[1]) if m.group(3) else r


@op(r'broadcast([fi])(\d+)x(\d)_?(256|512)(_mask)?')
def _(m, a):
    c = a.c
    ew, n = int(m.group(2)), int(m.group(3))
    W = int(m.group(4))
    s = c.ext(a.x[0], 0, ew * n)
    r = c.cat([s] * (W // (ew * n)))
    return blend(c, ew, a.x[2], r, a.x[1]) if m.group(5) else r


@op(r'(insert|extract)([fi])(\d+)x(\d)(_256|_512)?(_mask)?')
def _(m, a):
    c = a.c
    ew, n = int(m.group(3)), int(m.group(4))
    s = ew * n
    if m.group(1) == 'extract':
        k = a.imm(1)
        r = c.ext(a.x[0], (k * s) % c.w[a.x[0]], s)
        return blend(c, ew, a.x[3], r, a.x[2]) if m.group(6) else r
    k = a.imm(2)
    l = chunks(c, a.x[0], s)
    l[k % len(l)] = a.x[1]
    r = c.cat(l)
    return blend(c, ew, a.x[4], r, a.x[3]) if m.group(6) else r


@op(r'pmov(s|us)?(wb|dw|db|qd|qw|qb)(128|256|512)_mask')
def _(m, a):
    c = a.c
    s, d = EW[m.group(2)[0]], EW[m.group(2)[1]]
    out = []
    for i, x in enumerate(lanes(c, a.x[0], s)):
        if m.group(1) == 's':
            y = sat_s(c, x, d)
        elif m.group(1) == 'us':
            raise Unsupported('pmovus')
        else:
            y = c.ext(x, 0, d)
        out.append(c.ite(c.bit(a.x[2], i), y, c.ext(a.x[1], i * d, d)))
    r = c.cat(out)
    return c.zext(r, max(128, c.w[r]))


@op(r'alignd(128|256|512)_mask|alignq(128|256|512)_mask')
def _(m, a):
    c = a.c
    ew = 32 if m.group(1) else 64
    n = c.w[a.x[0]] // ew
    k = a.imm(2) % n
    r = c.ext(c.cat([a.x[1], a.x[0]]), k * ew, n * ew)
    return blend(c, ew, a.x[4], r, a.x[3])


@op(r'palignr(128|256|512)_mask')
def _(m, a):
    c = a.c
    n = a.imm(2) // 8
    out = []
    for x, y in zip(chunks(c, a.x[0], 128), chunks(c, a.x[1], 128)):
        out.append(c.ext(c.lshrc(c.cat([y, x]), 8 * n), 0, 128))
    return blend(c, 8, a.x[4], c.cat(out), a.x[3])


@op(r'shuf_([if])(32x4|64x2)(_256)?_mask')
def _(m, a):
    c = a.c
    k = a.imm(2)
    x, y = chunks(c, a.x[0], 128), chunks(c, a.x[1], 128)
    if len(x) == 4:
        r = [x[k & 3], x[(k >> 2) & 3], y[(k >> 4) & 3], y[(k >> 6) & 3]]
    else:
        r = [x[k & 1], y[(k >> 1) & 1]]
    return blend(c, int(m.group(2)[:2]), a.x[4], c.cat(r), a.x[3])


@op(r'permvar(s[if]|d[if]|hi|qi)(128|256|512)_mask')
def _(m, a):
    ew = {'s': 32, 'd': 64, 'h': 16, 'q': 8}[m.group(1)[0]]
    return blend(a.c, ew, a.x[3], permvar(a.c, a.x[0], a.x[1], ew), a.x[2])


@op(r'vpermi2var(d|q|ps|pd|hi|qi)(128|256|512)(_mask)?|vpermt2var(d|q|ps|pd|hi|qi)(128|256|512)(_mask|_maskz)?')
def _(m, a):
    c = a.c
    ew = EW[m.group(1) or m.group(4)]
    if m.group(1):
        x, idx, y = a.x[0], a.x[1], a.x[2]
    else:
        idx, x, y = a.x[0], a.x[1], a.x[2]
    l = lanes(c, x, ew) + lanes(c, y, ew)
    k = len(l).bit_length() - 1
    r = c.cat([pick(c, l, c.ext(i, 0, k)) for i in lanes(c, idx, ew)])
    if len(a.x) > 3:
        if not (c.isc(a.x[3]) and (c.a[a.x[3]] + 1) & c.a[a.x[3]] == 0 and
                c.a[a.x[3]] >= M(c.w[x] // ew)):
            raise Unsupported('vpermt2 mask')
    return r


@op(r'(r?)ndscalep([sd])(?:_(128|256|512))?_mask|rndscalep([sd])_(128|256)?_?mask')
def _(m, a):
    c = a.c
    ew = EW['p' + (m.group(2) or m.group(4))]
    r = perlane(c, ew, lambda x: rnd_imm(c, a.imm(1), x), a.x[0])
    return blend(c, ew, a.x[3], r, a.x[2])


def expfield(c, w, x):
    e, m = FMT[w]
    return c.ext(x, m, e)


def scaled_up(c, w, x):
    """x * 2^112: every subnormal becomes normal, exactly"""
    e, m = FMT[w]
    return c.fmul(x, c.const(w, (M(e - 1) + 112) << m))


def fpcases(c, w, x, zero, inf, nan, sub, norm):
    e, m = FMT[w]
    z = c.const(w - 1, 0)
    mag, ex, fr = c.ext(x, 0, w - 1), expfield(c, w, x), c.ext(x, 0, m)
    r = c.ite(c.eq(ex, c.const(e, M(e))), c.ite(c.eq(fr, c.const(m, 0)), inf, nan), norm)
    return c.ite(c.eq(ex, c.const(e, 0)), c.ite(c.eq(fr, c.const(m, 0)), zero, sub), r)


def getexp(c, w, x):
    e, m = FMT[w]
    num = lambda y, off: c.itofp(c.add(c.zext(expfield(c, w, y), 32), c.const(32, -(M(e - 1) + off))), w, True)
    inf = c.const(w, M(e) << m)
    return fpcases(c, w, x, c.const(w, M(e) << m | 1 << (w - 1)), inf, x, num(scaled_up(c, w, c.fabs(x)), 112), num(x, 0))


def getmant(c, w, x):
    e, m = FMT[w]
    half = lambda y: c.cat([c.ext(y, 0, m), c.const(e, M(e - 1) - 1), c.top(x)])
    one = c.cat([c.const(m, 0), c.const(e, M(e - 1)), c.top(x)])
    return fpcases(c, w, x, one, one, x, half(scaled_up(c, w, x)), half(x))


@op(r'(reduce|getexp|getmant|scalef|fixupimm|range)p([sd])(128|256|512)?_mask(z)?')
def _(m, a):
    c = a.c
    ew = EW['p' + m.group(2)]
    o = m.group(1)
    if o == 'scalef':
        def scale(x, y):
            if c.op[y] == 'sitofp' and c.w[c.a[y][0]] == 32:
                return c.call('ldexp', ew, (x, c.a[y][0]))
            return c.call('scalef', ew, (x, y))
        r = perlane(c, ew, scale, a.x[0], a.x[1])
        return blend(c, ew, a.x[3], r, a.x[2])
    if o == 'getexp':
        r = perlane(c, ew, lambda x: getexp(c, ew, x), a.x[0])
        return blend(c, ew, a.x[2], r, a.x[1])
    if o == 'getmant':
        k = a.imm(1)
        if k == 2:              # interval [.5, 1), sign of the source
            r = perlane(c, ew, lambda x: getmant(c, ew, x), a.x[0])
            return blend(c, ew, a.x[3], r, a.x[2])
        r = perlane(c, ew, lambda x: c.call('getmant%d' % k, ew, (x,)), a.x[0])
        return blend(c, ew, a.x[3], r, a.x[2])
    raise Unsupported(o)


@op(r'pternlog([dq])(128|256|512)_mask(z)?|pternlog([dq])(128|256|512)')
def _(m, a):
    c = a.c
    k = a.imm(3)
    x, y, z = a.x[:3]
    w = c.w[x]
    r = c.const(w, 0)
    for i in range(8):
        if (k >> i) & 1:
            t = x if i & 4 else c.bnot(x)
            t = c.band(t, y if i & 2 else c.bnot(y))
            t = c.band(t, z if i & 1 else c.bnot(z))
            r = c.bor(r, t)
    if '_mask' in m.string:
        ew = EW[m.group(1)]
        r = blend(c, ew, a.x[4], r, c.const(w, 0) if m.group(3) else a.x[0])
    return r


@op(r'vfmadd(ss3|sd3|p[sd]256|p[sd])|vfmaddp([sd])(128|256|512)?')
def _(m, a):
    c = a.c
    s = m.string
    if 'ss3' in s or 'sd3' in s:
        ew = 32 if 'ss3' in s else 64
        r = c.fma(*[c.ext(x, 0, ew) for x in a.x[:3]])
        return c.cat([r, c.ext(a.x[0], ew, c.w[a.x[0]] - ew)])
    ew = 64 if 'pd' in s else 32
    return perlane(c, ew, c.fma, a.x[0], a.x[1], a.x[2])


@op(r'vf(n?)m(add|sub)p([sd])(128|256|512)_mask(3|z)?')
def _(m, a):
    c = a.c
    ew = EW['p' + m.group(3)]

    def f(x, y, z):
        if m.group(1):
            x = c.fneg(x)
        if m.group(2) == 'sub':
            z = c.fneg(z)
        return c.fma(x, y, z)
    r = perlane(c, ew, f, a.x[0], a.x[1], a.x[2])
    src = a.x[0] if not m.group(5) else a.x[2] if m.group(5) == '3' else c.const(c.w[r], 0)
    return blend(c, ew, a.x[3], r, src)


@op(r'p(sll|srl|sra)([wdq])i(128|256|512)_mask')
def _(m, a):
    c = a.c
    ew = EW[m.group(2)]
    r = perlane(c, ew, lambda x: c.shift(SHK[m.group(1)], x, a.x[1], 'sat'), a.x[0])
    return blend(c, ew, a.x[3], r, a.x[2])


@op(r'p(sll|srl|sra)([wdq])(128|256|512)_mask')
def _(m, a):
    c = a.c
    ew = EW[m.group(2)]
    n = c.ext(a.x[1], 0, 64)
    r = perlane(c, ew, lambda x: c.shift(SHK[m.group(1)], x, n, 'sat'), a.x[0])
    return blend(c, ew, a.x[3], r, a.x[2])


# generic: plain instruction + (src, mask[, rounding])
GEN2 = {}


@op(r'(add|sub|mul|div|min|max)p([sd])(128|256|512)?_mask')
def _(m, a):
    c = a.c
    o = m.group(1)
    ew = EW['p' + m.group(2)]
    f = {'add': c.fadd, 'sub': c.fsub, 'mul': c.fmul, 'div': c.fdiv,
         'min': lambda x, y: fminmax(c, x, y, False), 'max': lambda x, y: fminmax(c, x, y, True)}[o]
    r = perlane(c, ew, f, a.x[0], a.x[1])
    return blend(c, ew, a.x[3], r, a.x[2])


@op(r'sqrtp([sd])(128|256|512)?_mask')
def _(m, a):
    c = a.c
    ew = EW['p' + m.group(1)]
    return blend(c, ew, a.x[2], perlane(c, ew, c.sqrt, a.x[0]), a.x[1])


@op(r'(p(?:add|sub)[bwdq]|pmull[wdq]|p(?:min|max)[su][bwdq]|p(?:and|or|xor|andn)[dq]|psubus[bw]|punpck[lh](?:bw|wd|dq|qdq)|unpck[lh]p[sd]|pack[su]s(?:wb|dw)|pmulu?dq|pmulhu?w|(?:and|or|xor|andn)p[sd]|pshufb|pmadd(?:wd|ubsw))(128|256|512)_mask')
def _(m, a):
    c = a.c
    s = m.group(1)
    if s.startswith('punpck'):
        ew = {'bw': 8, 'wd': 16, 'dq': 32, 'qdq': 64}[re.search(r'(bw|wd|qdq|dq)$', s).group(1)]
    elif s == 'pshufb' or re.match(r'pack[su]swb', s):
        ew = 8
    elif re.match(r'pack[su]sdw|pmaddubsw', s):
        ew = 16
    elif s == 'pmaddwd':
        ew = 32
    else:
        ew = {'b': 8, 'w': 16, 'd': 64 if s.endswith('pd') else 32, 's': 32, 'q': 64}[s[-1]]
    r = call(m.group(1) + m.group(2), A(a.ip, c, a.x[:2], a.w))
    return blend(c, ew, a.x[3], r, a.x[2])


@op(r'(pabs[bwdq]|pmov[sz]x(?:bw|bd|bq|wd|wq|dq)|cvtu?dq2p[sd]|cvtu?qq2p[sd]|cvtps2pd|cvtpd2ps|cvttp[sd]2u?dq|cvttp[sd]2u?qq|cvtp[sd]2dq)(128|256|512)?_mask')
def _(m, a):
    c = a.c
    s = m.group(1)
    W = m.group(2) or ''
    r = call(s + W, A(a.ip, c, a.x[:1], a.w))
    # destination element width
    mm = re.match(r'pabs([bwdq])', s)
    if mm:
        ew = EW[mm.group(1)]
    elif s.startswith('pmov'):
        ew = EW[s[-1]]
    elif re.search(r'2u?dq$', s):
        ew = 32
    elif re.search(r'2u?qq$', s):
        ew = 64
    else:
        ew = EW[s[-2:]]
    src, mask = a.x[1], a.x[2]
    n = c.w[src] // ew
    if c.w[r] < c.w[src]:
        r = c.zext(r, c.w[src])
    if c.w[mask] < n:
        mask = c.zext(mask, n)
        # lanes beyond the mask: zero result
    # number of live lanes = mask applies to result lanes; higher lanes are zero
    return blend2(c, ew, mask, r, src, s, W)


def blend2(c, ew, mask, r, src, s, W):
    n = c.w[r] // ew
    live = n
    if W and re.search(r'(pd2|qq2ps)', s):
        live = int(W) // 64
    out = []
    for i in range(n):
        x, y = c.ext(r, i * ew, ew), c.ext(src, i * ew, ew)
        out.append(c.ite(c.bit(mask, i), x, y) if i < live else c.const(ew, 0))
    return c.cat(out)


@op(r'(pshufd|pshuf[lh]w|vpermilp[sd]|perm[di][if]|permd[if])(128|256|512)?_mask')
def _(m, a):
    c = a.c
    s = m.group(1)
    base = s
    r = call(base + ('256' if s.startswith('perm') else ''), A(a.ip, c, a.x[:2], a.w))
    ew = {'pshufd': 32, 'pshuflw': 16, 'pshufhw': 16, 'vpermilps': 32, 'vpermilpd': 64}.get(s, 64)
    return blend(c, ew, a.x[3], r, a.x[2])


@op(r'shufp([sd])(128|256|512)_mask')
def _(m, a):
    c = a.c
    r = call('shufp' + m.group(1), A(a.ip, c, a.x[:3], a.w))
    return blend(c, EW['p' + m.group(1)], a.x[4], r, a.x[3])


@op(r'(compress|expand)(s[if]|d[if])(128|256|512)_mask')
def _(m, a):
    raise Unsupported('compress')


# ---- scalar bit manipulation --------------------------------------------
@op(r'pdep_([sd])i')
def _(m, a):
    c = a.c
    w = EW[m.group(1) + 'i']
    if not c.isc(a.x[1]):
        raise Unsupported('pdep variable mask')
    k = c.a[a.x[1]]
    out = []
    j = 0
    for i in range(w):
        if (k >> i) & 1:
            out.append(c.bit(a.x[0], j))
            j += 1
        else:
            out.append(c.F)
    return c.cat(out)


@op(r'pext_([sd])i')
def _(m, a):
    c = a.c
    w = EW[m.group(1) + 'i']
    if not c.isc(a.x[1]):
        raise Unsupported('pext variable mask')
    k = c.a[a.x[1]]
    out = [c.bit(a.x[0], i) for i in range(w) if (k >> i) & 1]
    if not out:
        return c.const(w, 0)
    return c.zext(c.cat(out), w)


@op(r'lzcnt_u(16|32|64)')
def _(m, a):
    return a.c.clz(a.x[0], int(m.group(1)))


@op(r'tzcnt_u(16|32|64)')
def _(m, a):
    return a.c.ctz(a.x[0], int(m.group(1)))


@op(r'bzhi_([sd])i')
def _(m, a):
    c = a.c
    w = EW[m.group(1) + 'i']

    def leaf(l):
        n = c.a[l] & 0xff
        return c.band(a.x[0], c.const(w, M(n))) if n < w else a.x[0]
    t = c.as_mtbdd(a.x[1])
    if t is None:
        raise Unsupported('bzhi')
    return c.mapleaves(t, leaf)


_cache = {}


def find(name):
    if name in _cache:
        return _cache[name]
    r = None
    for rx, f in TBL:
        m = rx.match(name)
        if m:
            r = (m, f)
            break
    _cache[name] = r
    return r


def call(name, a):
    r = find(name)
    if r is None:
        raise Unsupported('builtin ' + name)
    return r[1](r[0], a)
