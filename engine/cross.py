"""Lane semantics of the AArch64 and AltiVec builtins that survive into the optimised GIMPLE."""
import re
import x86
from x86 import Unsupported, lanes, EW

TBL = []


def op(rx):
    def f(g):
        TBL.append((re.compile(rx + '$'), g))
        return g
    return f


@op(r'aarch64_(f?)addpv(\d+)([qhsd])([if])')
def _(m, a):
    c = a.c
    ew = EW[m.group(3) + 'i']
    n = int(m.group(2))
    if len(a.x) == 1:
        ls = lanes(c, a.x[0], ew)
    else:
        ls = lanes(c, a.x[0], ew) + lanes(c, a.x[1], ew)
    if m.group(4) == 'f':
        return c.cat([c.fadd(ls[i], ls[i + 1]) for i in range(0, len(ls), 2)])
    return c.cat([c.add(ls[i], ls[i + 1]) for i in range(0, len(ls), 2)])


@op(r'neon_vpaddv(\d+)([qhsd])([if])')
def _(m, a):
    c = a.c
    ew = EW[m.group(2) + 'i']
    ls = lanes(c, a.x[0], ew) + lanes(c, a.x[1], ew)
    f = c.add if m.group(3) == 'i' else c.fadd
    return c.cat([f(ls[i], ls[i + 1]) for i in range(0, len(ls), 2)])


@op(r'aarch64_(btrunc|floor|ceil|round|rint|nearbyint|frintn)(?:v\d+)?([sd])f')
def _(m, a):
    c = a.c
    md = {'btrunc': 'trunc', 'nearbyint': 'rint', 'frintn': 'rint'}.get(m.group(1), m.group(1))
    return x86.perlane(c, EW[m.group(2) + 'f'], lambda v: c.frnd(md, v), a.x[0])


@op(r'aarch64_sqrt(?:v\d+)?([sd])f')
def _(m, a):
    return x86.perlane(a.c, EW[m.group(1) + 'f'], a.c.sqrt, a.x[0])


def rng(c, t, d=0):
    """[lo, hi] of t as a signed number"""
    w = c.w[t]
    if c.isc(t):
        v = c.a[t]
        v = v - (1 << w) if v >> (w - 1) else v
        return v, v
    full = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    if d > 12:
        return full
    o = c.op[t]
    if o == 'ite':
        x, y = [rng(c, u, d + 1) for u in c.a[t][1:]]
        return min(x[0], y[0]), max(x[1], y[1])
    if o == 'lin':
        k0, ts = c.a[t]
        lo = hi = k0 - (1 << w) if k0 >> (w - 1) else k0
        for x, k, z in ts:
            k = k - (1 << w) if k >> (w - 1) else k
            a, b = (0, (1 << c.w[x]) - 1) if z else rng(c, x, d + 1)
            lo, hi = lo + min(a * k, b * k), hi + max(a * k, b * k)
        return (lo, hi) if full[0] <= lo and hi <= full[1] else full
    u = c.as_sext(t)
    return rng(c, u, d + 1) if u != t and c.w[u] < w else full


def satsum(c, xs):
    """signed sum of 32 bit terms, saturated to 32 bits"""
    r = [rng(c, x) for x in xs]
    if sum(v[0] for v in r) >= -1 << 31 and sum(v[1] for v in r) < 1 << 31:
        s = c.const(32, 0)
        for x in xs:
            s = c.add(s, c.sext(x, 32))
        return s
    W = 40
    s = c.const(W, 0)
    for x in xs:
        s = c.add(s, c.sext(x, W))
    return x86.sat_s(c, s, 32)


@op(r'altivec_vsumsws')
def _(m, a):
    c = a.c
    ls = lanes(c, a.x[0], 32)
    z = c.const(32, 0)
    return c.cat([z, z, z, satsum(c, ls + [lanes(c, a.x[1], 32)[3]])])


@op(r'altivec_vsum4s(b|h)s')
def _(m, a):
    c = a.c
    ew = 8 if m.group(1) == 'b' else 16
    ls, bs = lanes(c, a.x[0], ew), lanes(c, a.x[1], 32)
    k = 32 // ew
    return c.cat([satsum(c, [c.sext(x, 32) for x in ls[i * k:i * k + k]] + [bs[i]]) for i in range(4)])


@op(r'altivec_vsum4ubs')
def _(m, a):
    c = a.c
    ls, bs = lanes(c, a.x[0], 8), lanes(c, a.x[1], 32)
    out = []
    for i in range(4):
        s = c.zext(bs[i], 40)
        for x in ls[i * 4:i * 4 + 4]:
            s = c.add(s, c.zext(x, 40))
        out.append(x86.sat_u(c, s, 32))
    return c.cat(out)


@op(r'altivec_vspltis([bhw])')
def _(m, a):
    c = a.c
    ew = {'b': 8, 'h': 16, 'w': 32}[m.group(1)]
    return c.cat([c.const(ew, c.a[a.x[0]])] * (128 // ew))


def call(name, a):
    for rx, f in TBL:
        m = rx.match(name)
        if m:
            return f(m, a)
    raise Unsupported('builtin ' + name)
