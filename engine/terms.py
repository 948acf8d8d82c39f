"""Value-numbering domain: hash-consed bit-vector normal forms.

Every abstract value is a term of a fixed bit width.  Terms are interned, so
two values that normalise to the same form have the same id.  The domain is
purely structural: there is no solver and no path enumeration.  Boolean
(1-bit) terms are kept as ordered decision diagrams over interned predicates,
all other terms as piecewise concatenations of lanes.
"""
import struct, math, sys
from fractions import Fraction

sys.setrecursionlimit(200000)


class TooBig(Exception):
    pass


def M(w):
    return (1 << w) - 1


# 80: x87 extended precision in an encoding of our own (its bits are never inspected by the library)
FMT = {32: (8, 23), 64: (11, 52), 16: (5, 10), 80: (15, 64)}


# ----------------------------------------------------------------- floats
def f_unpack(w, v):
    """-> python float (exact for 16/32/64 bit formats)"""
    if w == 32:
        return struct.unpack('<f', struct.pack('<I', v))[0]
    if w == 64:
        return struct.unpack('<d', struct.pack('<Q', v))[0]
    if w == 16:
        return struct.unpack('<e', struct.pack('<H', v))[0]
    raise NotImplementedError(w)


def f_isnan(w, v):
    e, m = FMT[w]
    return ((v >> m) & M(e)) == M(e) and (v & M(m)) != 0


def f_isinf(w, v):
    e, m = FMT[w]
    return ((v >> m) & M(e)) == M(e) and (v & M(m)) == 0


def f_nan(w):
    e, m = FMT[w]
    return (M(e) << m) | (1 << (m - 1))


def f_inf(w, s=0):
    e, m = FMT[w]
    return (M(e) << m) | (s << (w - 1))


def f_frac(w, v):
    """exact value of finite v as Fraction"""
    e, m = FMT[w]
    s = v >> (w - 1)
    ex = (v >> m) & M(e)
    mant = v & M(m)
    bias = M(e - 1)
    if ex == 0:
        r = Fraction(mant) * Fraction(2) ** (1 - bias - m)
    else:
        r = Fraction(mant | (1 << m)) * Fraction(2) ** (ex - bias - m)
    return -r if s else r


def f_round(w, q, zsign=0):
    """round exact Fraction q to nearest-even in format w"""
    e, m = FMT[w]
    if q == 0:
        return zsign << (w - 1)
    s = 1 if q < 0 else 0
    q = abs(q)
    bias = M(e - 1)
    n, d = q.numerator, q.denominator
    ex = n.bit_length() - d.bit_length()
    if Fraction(2) ** ex > q:
        ex -= 1
    ex = max(ex, 1 - bias)
    scale = ex - m
    x = q / Fraction(2) ** scale
    f = x.numerator // x.denominator
    r = x - f
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and (f & 1)):
        f += 1
    if f >= (1 << (m + 1)):
        f >>= 1
        ex += 1
    if f < (1 << m):
        bits = f
    else:
        if ex > bias:
            return f_inf(w, s)
        bits = ((ex + bias) << m) | (f & M(m))
    return bits | (s << (w - 1))


def f_add(w, a, b):
    if f_isnan(w, a) or f_isnan(w, b):
        return f_nan(w)
    if f_isinf(w, a):
        if f_isinf(w, b) and a != b:
            return f_nan(w)
        return a
    if f_isinf(w, b):
        return b
    s = f_frac(w, a) + f_frac(w, b)
    z = (a >> (w - 1)) & (b >> (w - 1))
    if s == 0 and f_frac(w, a) != 0:
        z = 0
    return f_round(w, s, z)


def f_mul(w, a, b):
    if f_isnan(w, a) or f_isnan(w, b):
        return f_nan(w)
    s = (a ^ b) >> (w - 1)
    ia, ib = f_isinf(w, a), f_isinf(w, b)
    za, zb = (a & M(w - 1)) == 0, (b & M(w - 1)) == 0
    if ia or ib:
        if za or zb:
            return f_nan(w)
        return f_inf(w, s)
    return f_round(w, f_frac(w, a) * f_frac(w, b), s)


def f_div(w, a, b):
    if f_isnan(w, a) or f_isnan(w, b):
        return f_nan(w)
    s = (a ^ b) >> (w - 1)
    ia, ib = f_isinf(w, a), f_isinf(w, b)
    za, zb = (a & M(w - 1)) == 0, (b & M(w - 1)) == 0
    if ia:
        return f_nan(w) if ib else f_inf(w, s)
    if ib:
        return s << (w - 1)
    if zb:
        return f_nan(w) if za else f_inf(w, s)
    return f_round(w, f_frac(w, a) / f_frac(w, b), s)


def f_fma(w, a, b, c):
    if f_isnan(w, a) or f_isnan(w, b) or f_isnan(w, c):
        return f_nan(w)
    s = (a ^ b) >> (w - 1)
    ia, ib = f_isinf(w, a), f_isinf(w, b)
    za, zb = (a & M(w - 1)) == 0, (b & M(w - 1)) == 0
    if ia or ib:
        if za or zb:
            return f_nan(w)
        if f_isinf(w, c) and (c >> (w - 1)) != s:
            return f_nan(w)
        return f_inf(w, s)
    if f_isinf(w, c):
        return c
    p = f_frac(w, a) * f_frac(w, b)
    q = f_frac(w, c)
    t = p + q
    if t == 0:
        z = s if (p == 0 and q == 0 and s == (c >> (w - 1))) else 0
        return z << (w - 1)
    return f_round(w, t)


def f_sqrt(w, a):
    if f_isnan(w, a):
        return f_nan(w)
    if (a & M(w - 1)) == 0:
        return a
    if a >> (w - 1):
        return f_nan(w)
    if f_isinf(w, a):
        return a
    q = f_frac(w, a)
    # integer sqrt with plenty of guard bits and sticky
    k = 240 if w < 64 else 1240
    n = (q.numerator << (2 * k)) // q.denominator
    r = math.isqrt(n)
    v = Fraction(r, 1 << k)
    if v * v != q:
        v += Fraction(1, 1 << (k + 4))
    return f_round(w, v)


def f_lt(w, a, b):
    if f_isnan(w, a) or f_isnan(w, b):
        return False
    return f_key(w, a) < f_key(w, b)


def f_eq(w, a, b):
    if f_isnan(w, a) or f_isnan(w, b):
        return False
    return f_key(w, a) == f_key(w, b)


def f_key(w, a):
    v = a & M(w - 1)
    return -v if a >> (w - 1) else v


def f_cvt(wd, ws, a):
    s = a >> (ws - 1)
    if f_isnan(ws, a):
        return f_nan(wd)
    if f_isinf(ws, a):
        return f_inf(wd, s)
    return f_round(wd, f_frac(ws, a), s)


def f_rnd(w, a, mode):
    """mode: floor ceil trunc rint(even) round(away)"""
    if f_isnan(w, a):
        return f_nan(w)
    if f_isinf(w, a):
        return a
    q = f_frac(w, a)
    s = a >> (w - 1)
    fl = q.numerator // q.denominator
    if mode == 'floor':
        r = fl
    elif mode == 'ceil':
        r = -((-q.numerator) // q.denominator)
    elif mode == 'trunc':
        r = fl if q >= 0 else -((-q.numerator) // q.denominator)
    elif mode == 'round':
        aq = abs(q)
        t = (aq + Fraction(1, 2))
        r = t.numerator // t.denominator
        if q < 0:
            r = -r
    else:
        d = q - fl
        if d > Fraction(1, 2) or (d == Fraction(1, 2) and fl & 1):
            r = fl + 1
        else:
            r = fl
    return f_round(w, Fraction(r), s) if r != 0 else (s << (w - 1))


def sgn(w, v):
    return v - (1 << w) if v >> (w - 1) else v


class Poison(Exception):
    """evaluation hit a value outside the domain where C++ defines it"""


# ----------------------------------------------------------------- terms
class Ctx:
    LIMIT = 6_000_000

    def __init__(self):
        self.tab = {}
        self.op = []
        self.w = []
        self.a = []
        self.vars = []          # predicates
        self.vtab = {}
        self.m_ite = {}
        self.m_ext = {}
        self.m_bit = {}
        self.m_bin = {}
        self.T = self.const(1, 1)
        self.F = self.const(1, 0)
        self.undefs = 0
        self.fprange = None     # value range the program may assume for float->int
        self.atoms_info = {}

    # -- interning
    def mk(self, op, w, a):
        k = (op, w, a)
        r = self.tab.get(k)
        if r is None:
            r = len(self.op)
            if r > self.LIMIT:
                raise TooBig()
            self.tab[k] = r
            self.op.append(op)
            self.w.append(w)
            self.a.append(a)
        return r

    def const(self, w, v):
        return self.mk('c', w, v & M(w))

    def isc(self, t):
        return self.op[t] == 'c'

    def cv(self, t):
        return self.a[t]

    def var(self, pred):
        i = self.vtab.get(pred)
        if i is None:
            i = len(self.vars)
            self.vtab[pred] = i
            self.vars.append(pred)
        return i

    def bvar(self, pred):
        v = self.var(pred)
        return self.mk('ite', 1, (v, self.T, self.F))

    def atom(self, w, name):
        if w == 1:
            return self.bvar(('atom', name))
        return self.mk('atom', w, name)

    def undef(self, w, why='undef'):
        self.undefs += 1
        return self.atom(w, '?%s%d' % (why, self.undefs))

    # -- pieces
    def pieces(self, t):
        return self.a[t] if self.op[t] == 'cat' else (t,)

    def slice_of(self, t):
        """(base, lo, w) if t is a slice of an opaque term"""
        o = self.op[t]
        if o == 'ext':
            b, lo = self.a[t]
            return b, lo, self.w[t]
        if o == 'ite':
            if self.w[t] == 1:
                v, x, y = self.a[t]
                if x == self.T and y == self.F:
                    p = self.vars[v]
                    if p[0] == 'bit':
                        return p[1], p[2], 1
            return None
        if o in ('c', 'cat'):
            return None
        return t, 0, self.w[t]

    def raw_slice(self, base, lo, w):
        if lo == 0 and w == self.w[base]:
            return base
        if w == 1:
            if lo == self.w[base] - 1 and self.op[base] in self.NNOPS and self.nonneg(base):
                return self.F
            return self.bvar(('bit', base, lo))
        if lo and lo + w == self.w[base] and self.op[base] in self.NNOPS and self.nonneg(base):
            return self.cat([self.raw_slice(base, lo, w - 1), self.F])
        return self.mk('ext', w, (base, lo))

    NNOPS = ('fadd', 'fmul', 'frnd', 'sqrt')

    def nonneg(self, t, depth=8):
        """a float term whose sign bit is never set (for operands without sign, NaN keeps the sign of its operand)"""
        o, w = self.op[t], self.w[t]
        if o == 'c':
            return not self.a[t] >> (w - 1)
        if o == 'cat':
            q = self.a[t][-1]
            return self.isc(q) and not self.a[q] >> (self.w[q] - 1)
        if depth == 0:
            return False
        if o == 'ite':
            return self.nonneg(self.a[t][1], depth - 1) and self.nonneg(self.a[t][2], depth - 1)
        if o == 'fadd':
            for x, y in (self.a[t], self.a[t][::-1]):
                if self.isc(x) and self.a[x] >> (w - 1) and self.op[y] == 'fadd':
                    # (S + n) - S with S > 0, n >= 0: rounding is monotone, so the sum is at least S
                    s = self.a[x] ^ 1 << (w - 1)
                    for p, q in (self.a[y], self.a[y][::-1]):
                        if self.isc(p) and self.a[p] == s and s and self.nonneg(q, depth - 1):
                            return True
        if o in ('fadd', 'fmul'):
            return self.nonneg(self.a[t][0], depth - 1) and self.nonneg(self.a[t][1], depth - 1)
        if o == 'frnd':
            return self.nonneg(self.a[t][1], depth - 1)
        if o == 'sqrt':
            return self.nonneg(self.a[t][0], depth - 1)
        return False

    def constleaf(self, t, lim=64):
        """const or ite-tree with only constant leaves"""
        o = self.op[t]
        if o == 'c':
            return True
        if o != 'ite':
            return False
        r = self.m_bin.get(('cl', t))
        if r is None:
            v, x, y = self.a[t]
            r = self.constleaf(x) and self.constleaf(y)
            self.m_bin[('cl', t)] = r
        return r

    def support(self, t):
        """set of vars of an ite tree (not inside opaque leaves)"""
        if self.op[t] != 'ite':
            return frozenset()
        r = self.m_bin.get(('sup', t))
        if r is None:
            v, x, y = self.a[t]
            r = self.support(x) | self.support(y) | {v}
            self.m_bin[('sup', t)] = r
        return r

    def merge(self, p, q):
        """merge adjacent pieces p (low) and q (high) or None"""
        op, oq = self.op[p], self.op[q]
        wp, wq = self.w[p], self.w[q]
        if op == 'c' and oq == 'c':
            return self.const(wp + wq, self.a[p] | (self.a[q] << wp))
        if op == 'c' or oq == 'c':
            # constants join constant-leaf ites (not plain opaque slices)
            o = q if op == 'c' else p
            if self.op[o] == 'ite' and self.constleaf(o) and self.slice_of(o) is None \
                    and len(self.support(o)) == 1:
                return self.merge_ite(p, q)
            return None
        sp, sq = self.slice_of(p), self.slice_of(q)
        if sp and sq and sp[0] == sq[0] and sp[1] + sp[2] == sq[1]:
            return self.raw_slice(sp[0], sp[1], sp[2] + sq[2])
        if sq and sq[1] >= wp and self.op[sq[0]] in ('lin', 'mul') and self.ext(sq[0], sq[1] - wp, wp) == p:
            # low part in its own (truncated) normal form
            return self.raw_slice(sq[0], sq[1] - wp, wp + sq[2])
        if op == 'ite' and oq == 'ite':
            if self.a[p][0] == self.a[q][0]:
                return self.merge_ite(p, q)
        return None

    def merge_ite(self, p, q):
        k = ('mi', p, q)
        if k in self.m_bin:
            return self.m_bin[k]
        r = self._merge_ite(p, q)
        self.m_bin[k] = r
        return r

    def _merge_ite(self, p, q):
        op, oq = self.op[p], self.op[q]
        vs = []
        if op == 'ite':
            vs.append(self.a[p][0])
        if oq == 'ite':
            vs.append(self.a[q][0])
        if not vs:
            return self.merge(p, q)
        if len(vs) == 2 and vs[0] != vs[1]:
            return None
        v = min(vs)
        pt, pe = (self.a[p][1], self.a[p][2]) if op == 'ite' else (p, p)
        qt, qe = (self.a[q][1], self.a[q][2]) if oq == 'ite' else (q, q)
        t = self.merge_ite(pt, qt)
        if t is None:
            return None
        e = self.merge_ite(pe, qe)
        if e is None:
            return None
        if t == e:
            return t
        return self.ite(self.mk('ite', 1, (v, self.T, self.F)), t, e)

    def cat(self, ps):
        """ps little-endian list of terms"""
        out = []
        for p in ps:
            for q in self.pieces(p):
                if self.w[q] == 0:
                    continue
                if out:
                    m = self.merge(out[-1], q)
                    if m is not None:
                        out[-1] = m
                        # cascading to the left
                        while len(out) > 1:
                            m = self.merge(out[-2], out[-1])
                            if m is None:
                                break
                            out[-2:] = [m]
                        continue
                out.append(q)
        for i in range(len(out) - 1):
            p, q = out[i], out[i + 1]
            if self.op[p] == 'lin' and self.w[p] in (7, 15) and self.w[q] == 1 and self.op[q] == 'ite':
                r = self.swar(p, q)
                if r is not None:
                    return self.cat(out[:i] + [r] + out[i + 2:])
        if len(out) == 1:
            return out[0]
        if len(out) == 2 and self.op[out[0]] == 'lin' and self.isc(out[1]) and self.a[out[1]] == 0:
            r = self.linrange(out[0])
            if r:
                c, ts = self.a[out[0]]
                w, n = self.w[out[0]], self.w[out[0]] + self.w[out[1]]
                c = sgn(w, c)
                if c + sum(min(0, sgn(w, k)) for _, k, _ in ts) < 0:
                    c += 1 << w
                return self.lin(n, c, [(x, sgn(w, k) & M(n), z) for x, k, z in ts])
        if len(out) == 2 and out[1] == self.F and self.op[out[0]] == 'ext':
            b, lo = self.a[out[0]]
            if lo == 0 and self.w[b] == self.w[out[0]] + 1 and self.op[b] in self.NNOPS and self.nonneg(b):
                return b
        return self.mk('cat', sum(self.w[p] for p in out), tuple(out))

    def ext(self, t, lo, w):
        W = self.w[t]
        assert 0 <= lo and lo + w <= W and w > 0, (lo, w, W)
        if lo == 0 and w == W:
            return t
        k = (t, lo, w)
        r = self.m_ext.get(k)
        if r is None:
            r = self._ext(t, lo, w)
            self.m_ext[k] = r
        return r

    def _ext(self, t, lo, w):
        o = self.op[t]
        if o == 'c':
            return self.const(w, self.a[t] >> lo)
        if o == 'cat':
            out = []
            pos = 0
            for p in self.a[t]:
                pw = self.w[p]
                s, e = max(lo, pos), min(lo + w, pos + pw)
                if s < e:
                    out.append(self.ext(p, s - pos, e - s))
                pos += pw
                if pos >= lo + w:
                    break
            return self.cat(out)
        if o == 'ite':
            v, x, y = self.a[t]
            return self.ite_v(v, self.ext(x, lo, w), self.ext(y, lo, w))
        if o == 'ext':
            b, l = self.a[t]
            return self.ext(b, l + lo, w)
        if lo == 0 and o == 'lin':
            c, ts = self.a[t]
            return self.lin(w, c, [(self.ext(x, 0, w) if not isz else x, kf, isz) for (x, kf, isz) in ts])
        if o == 'lin' and lo and lo + w == self.w[t]:
            r = self.magic(t, lo)
            if r is not None:
                return r
        if o == 'lin':
            c, ts = self.a[t]
            g = self.linrange(t)
            if g and lo >= g[1].bit_length():
                return self.const(w, 0)
            if w == 1:
                m = M(lo + 1)
                rel = [(x, k & m, z) for x, k, z in ts if k & m]
                if len(rel) <= 6 and all(z for _, _, z in rel):
                    if not rel:
                        return self.T if c >> lo & 1 else self.F
                    r = self.F
                    vals = [(self.T, c & m)]
                    for x, k, z in rel:
                        acc = {}
                        for gd, v in vals:
                            for q, u in ((self.and1(gd, x), (v + k) & m), (self.and1(gd, self.not1(x)), v)):
                                acc[u] = self.or1(acc.get(u, self.F), q)
                        vals = [(gd, u) for u, gd in acc.items() if gd != self.F]
                    for gd, u in vals:
                        if u >> lo & 1:
                            r = self.or1(r, gd)
                    return r
            if lo + w < self.w[t] and g is None:
                pass
            elif not (c & M(lo)) and all(not (kf & M(lo)) for x, kf, isz in ts):
                if lo + w < self.w[t]:
                    n = self.w[t] - lo
                    return self.ext(self.ext(t, lo, n), 0, w)
                return self.lin(w, c >> lo, [(x if isz else self.ext(x, 0, w), kf >> lo, isz) for x, kf, isz in ts])
        if o == 'lin':
            b = self.disjoint(t)
            if b is not None:
                return self.ext(b, lo, w)
        if lo == 0 and o == 'mul':
            r = None
            for x in self.a[t]:
                x = self.ext(x, 0, w)
                r = x if r is None else self.mul(r, x)
            return r
        if o in ('and', 'or', 'xor') and (w == 1):
            f = {'and': self.band, 'or': self.bor, 'xor': self.bxor}[o]
            r = None
            for x in self.a[t]:
                x = self.ext(x, lo, w)
                r = x if r is None else f(r, x)
            return r
        if w == 1:
            return self.raw_slice(t, lo, 1)
        if o in self.NNOPS:
            return self.raw_slice(t, lo, w)
        return self.mk('ext', w, (t, lo))

    def highpart(self, t):
        """t = high n bits of k * x for an n-bit x -> (x, signed, k) with k as exact integer"""
        if self.op[t] != 'ext':
            return None
        b, l = self.a[t]
        n = self.w[t]
        if l != n or self.w[b] != 2 * n or self.op[b] != 'lin':
            return None
        return self.scaled(b, n)

    def scaled(self, b, n):
        c, ts = self.a[b]
        if c or len(ts) != 1 or ts[0][2]:
            return None
        x, k, _ = ts[0]
        W = self.w[b]
        z, s = self.as_zext(x), self.as_sext(x)
        if z != x and self.w[z] <= n:
            return self.ext(x, 0, n), False, k
        if s != x and self.w[s] <= n:
            return self.ext(x, 0, n), True, sgn(W, k)
        return None

    def magic(self, t, lo):
        """floor(k x / 2^e) as the quotient x / d (division by an invariant multiplication)"""
        W = self.w[t]
        c, ts = self.a[t]
        x = None
        if len(ts) == 1 and W % 2 == 0 and lo >= W // 2:
            n = W // 2
            r = self.scaled(t, n)
            if r is not None:
                x, sg, k = r
                e = lo
        elif len(ts) == 2 and not c:
            for (u, ku, zu), (v, kv, zv) in (ts, ts[::-1]):
                if zu or zv or ku != 1:
                    continue
                # high(k x) + j x, shifted
                h = self.highpart(u)
                if h is not None and h[1] and v == h[0] and kv in (1, M(W)):
                    x, sg, k = h[0], True, h[2] + (sgn(W, kv) << W)
                    n, e = W, W + lo
                    break
                # zext high(k x) + zext((x - high(k x)) / 2): the sum (x + high(k x)) / 2 without its carry
                h = self.highpart(u)
                z = self.as_zext(v)
                if h is not None and not h[1] and kv == 1 and z != v and self.w[z] == W - 1 and self.op[z] == 'ext' and self.a[z][1] == 1:
                    d = self.a[z][0]
                    if self.w[d] == W and d == self.sub(h[0], u):
                        x, sg, k = h[0], False, h[2] + (1 << W)
                        n, e = W, W + lo + 1
                        break
        if x is None or k <= 0 or e >= n + 40:
            return None
        d = (1 << e) // k + (0 if sg and ((1 << e) // k) * k > (1 << e) else 0)
        for d in (d, d + 1):
            if d < 2 or d >= 1 << (n - 1):
                continue
            m = k * d - (1 << e)
            if not sg and 0 <= m <= 1 << (e - n):
                return self.ext(self.idiv('udiv', x, self.const(n, d)), 0, W - lo)
            if sg and 0 < m <= 1 << (e - n + 1):
                self.idiv('sdiv', x, self.const(n, d))
                return self.ext(self.sfdiv(x, self.const(n, d)), 0, W - lo)
        return None

    def disjoint(self, t):
        """a sum whose summands occupy disjoint bits has no carries: as concatenation, or None"""
        k = ('dj', t)
        if k in self.m_bin:
            return self.m_bin[k]
        r = self._disjoint(t)
        self.m_bin[k] = r
        return r

    def _disjoint(self, t):
        W = self.w[t]
        c, ts = self.a[t]
        items = []
        for x, k, z in ts:
            if z:
                if k >> (W - 1):
                    c += k
                    k = -k & M(W)
                    x = self.not1(x)
                items.append((x, k, k))
            else:
                z2 = self.as_zext(x)
                if z2 == x:
                    return None
                n = 0
                while k >> n:
                    if k >> n & 1:
                        if n + self.w[z2] > W or len(items) > 64:
                            return None
                        items.append((z2, M(self.w[z2]) << n, None))
                    n += 1
        c &= M(W)
        used = c
        for _, m, _ in items:
            if used & m:
                return None
            used |= m
        out = [self.F] * W
        for i in range(W):
            if c >> i & 1:
                out[i] = self.T
        for x, m, k in items:
            if k is not None:
                for i in range(W):
                    if k >> i & 1:
                        out[i] = x
            else:
                n = (m & -m).bit_length() - 1
                for i in range(self.w[x]):
                    out[n + i] = self.bit(x, i)
        return self.cat(out)

    def bit_of(self, t, i):
        return self.bvar(('bit', t, i))

    def bit(self, t, i):
        return self.ext(t, i, 1)

    def bits(self, t):
        return [self.ext(t, i, 1) for i in range(self.w[t])]

    def top(self, t):
        return self.ext(t, self.w[t] - 1, 1)

    def bounds(self, t):
        s = []
        pos = 0
        for p in self.pieces(t):
            pos += self.w[p]
            s.append(pos)
        return s

    def split(self, ts):
        """aligned pieces of several equally wide terms"""
        if all(self.op[t] != 'cat' for t in ts):
            return None
        b = set()
        for t in ts:
            b.update(self.bounds(t))
        b = sorted(b)
        out = []
        pos = 0
        for x in b:
            out.append([self.ext(t, pos, x - pos) for t in ts])
            pos = x
        return out

    # -- ite / BDD
    def cof(self, t, v, val):
        if self.op[t] == 'ite' and self.a[t][0] == v:
            return self.a[t][1] if val else self.a[t][2]
        return t

    def ite_v(self, v, x, y):
        """ite on a bare variable; x,y may contain smaller variables"""
        if x == y:
            return x
        b = self.mk('ite', 1, (v, self.T, self.F))
        return self.ite(b, x, y)

    def ite(self, c, x, y):
        if x == y or c == self.T:
            return x
        if c == self.F:
            return y
        k = (c, x, y)
        r = self.m_ite.get(k)
        if r is not None:
            return r
        assert self.w[x] == self.w[y], (self.w[x], self.w[y])
        if self.op[x] == 'cat' or self.op[y] == 'cat':
            r = self.cat([self.ite(c, p, q) for p, q in self.split([x, y])])
        else:
            r = None
            if self.w[x] > 1:
                r = self.minmax_pat(c, x, y)
                if r is None and (self.op[x] == 'lin' or self.op[y] == 'lin' or self.op[x] == self.op[y] == 'ite') and \
                        self.boolsum(x) and self.boolsum(y):
                    # c ? n + m : n  for sums of bits
                    d = self.sub(x, y)
                    if (self.isc(d) and self.a[d] in (1, M(self.w[d]))) or 'lin' in (self.op[x], self.op[y]) and \
                            (self.isc(d) or self.op[d] == 'ite' and len(self.leaves(d, 3) or ()) == 2):
                        r = self.add(y, self.ite(c, d, self.const(self.w[d], 0)))
            if r is None and self.acite:
                r = self.acfactor(c, x, y)
            if r is None:
                vs = [self.a[t][0] for t in (c, x, y) if self.op[t] == 'ite']
                v = min(vs)
                tt = self.ite(self.cof(c, v, 1), self.cof(x, v, 1), self.cof(y, v, 1))
                ee = self.ite(self.cof(c, v, 0), self.cof(x, v, 0), self.cof(y, v, 0))
                if self.facmm:
                    tt, ee = self.fmmcof(tt, v, 1), self.fmmcof(ee, v, 0)
                if tt == ee:
                    r = tt
                elif self.op[tt] == 'cat' or self.op[ee] == 'cat':
                    b = self.mk('ite', 1, (v, self.T, self.F))
                    r = self.cat([self.ite(b, p, q) for p, q in self.split([tt, ee])])
                else:
                    r = None
                    if self.w[tt] > 1:
                        b = self.mk('ite', 1, (v, self.T, self.F))
                        r = self.minmax_pat(b, tt, ee)
                    if r is None and self.acite:
                        r = self.acfactor(self.mk('ite', 1, (v, self.T, self.F)), tt, ee)
                    if r is None:
                        r = self.mk('ite', self.w[tt], (v, tt, ee))
        self.m_ite[k] = r
        return r

    acite = False
    ACOPS = ('smin', 'smax', 'umin', 'umax', 'nfmin', 'nfmax', 'nfadd', 'nfmul', 'mul', 'and', 'or', 'xor', 'lin')

    def acident(self, o, w):
        return self.const(w, {'smin': M(w - 1), 'smax': 1 << (w - 1), 'umin': M(w), 'umax': 0, 'mul': 1, 'and': M(w), 'or': 0, 'xor': 0,
                              'nfadd': 0}[o] if o not in ('nfmin', 'nfmax', 'nfmul') else
                          self.fone(w) if o == 'nfmul' else f_inf(w, o == 'nfmax'))

    def acop(self, o, w, xs):
        r = None
        for x in xs:
            r = x if r is None else self.rebuild(o, w, (r, x))
        return self.acident(o, w) if r is None else r

    def acfactor(self, c, x, y):
        """c ? op(A, B) : op(A, C)  ->  op(A, c ? B : C), for reductions"""
        w = self.w[x]
        if w == 1:
            return None
        for o in {self.op[x], self.op[y]}:
            if o not in self.ACOPS:
                continue
            if o == 'lin':
                X, Y = [dict(((t, z), k) for t, k, z in self.a[u][1]) if self.op[u] == 'lin' else {(u, False): 1} for u in (x, y)]
                com = [(t, k, z) for (t, z), k in X.items() if Y.get((t, z)) == k]
                if not com:
                    continue
                s = self.lin(w, 0, com)
                return self.add(s, self.ite(c, self.sub(x, s), self.sub(y, s)))
            X, Y = [list(self.a[u]) if self.op[u] == o else [u] for u in (x, y)]
            com = []
            for t in list(X):
                if t in Y:
                    com.append(t)
                    X.remove(t)
                    Y.remove(t)
            if not com:
                continue
            q = self.ite(c, self.acop(o, w, X), self.acop(o, w, Y))
            if o in ('and', 'or', 'xor') and self.op[q] == 'ite' and not self.constleaf(q):
                return self.mk(o, w, tuple(sorted(com + [q])))
            return self.acop(o, w, com + [q])
        return None

    def fmm(self, o, x, y):
        """minimum/maximum of floats, NaNs and the sign of zero disregarded"""
        w = self.w[x]
        s = set()
        for t in (x, y):
            s.update(self.a[t] if self.op[t] == o else (t,))
        s.discard(self.acident(o, w))
        for t in list(s):
            if self.op[t] == 'ite' and t in s:
                q = self.fmmdead(o, t, s - {t})
                if q != t:
                    s.discard(t)
                    return self.fmm(o, q, self.acop(o, w, s))
        cs = [t for t in s if self.isc(t)]
        while len(cs) > 1:
            p, q = cs.pop(), cs.pop()
            s -= {p, q}
            cs.append(p if f_lt(w, self.a[p], self.a[q]) == (o == 'nfmin') else q)
            s.add(cs[-1])
        if not s:
            return self.acident(o, w)
        z = self.acident('nfmax' if o == 'nfmin' else 'nfmin', w)
        if z in s:
            return z
        return s.pop() if len(s) == 1 else self.lattice(o, w, s)

    def fmmdead(self, o, t, others, depth=6):
        """drop tests inside an operand of min/max that only suppress it when another operand wins anyway"""
        if self.op[t] != 'ite' or depth == 0:
            return t
        v, x, y = self.a[t]
        p, w = self.vars[v], self.w[t]
        if p[0] == 'fL':
            P, Q = p[2:]
            i = self.acident(o, w)
            mn = o == 'nfmin'
            inn = lambda z: set(self.a[z] if self.op[z] == o else (z,)) <= others
            if (x == i and y == Q and inn(P)) if mn else (y == i and x == Q and inn(P)):
                return Q
            if (y == i and x == P and inn(Q)) if mn else (x == i and y == P and inn(Q)):
                return P
        a, b = self.fmmdead(o, x, others, depth - 1), self.fmmdead(o, y, others, depth - 1)
        return t if (a, b) == (x, y) else self.ite_v(v, a, b)

    def fmmcof(self, t, v, val, depth=6):
        """cofactor the operands of a min/max term as well"""
        if self.op[t] == 'ite' and depth:
            u, x, y = self.a[t]
            if u == v:
                return self.fmmcof(x if val else y, v, val, depth - 1)
            a, b = self.fmmcof(x, v, val, depth - 1), self.fmmcof(y, v, val, depth - 1)
            return t if (a, b) == (x, y) else self.ite_v(u, a, b)
        if self.op[t] not in ('nfmin', 'nfmax') or not depth:
            return t
        xs = [self.fmmcof(x, v, val, depth - 1) for x in self.a[t]]
        return t if xs == list(self.a[t]) else self.acop(self.op[t], self.w[t], xs)

    def boolsum(self, t):
        """a sum of weighted bits (counting)"""
        o = self.op[t]
        if o == 'lin':
            return all(z for x, k, z in self.a[t][1])
        return o == 'ite' and self.constleaf(t, 3) and len(self.leaves(t, 3) or ()) == 2

    def bitsum(self, t):
        """a sum of differently weighted bits, written as bits (weights may be negative: b*-k = (1-b)*k - k), or None"""
        c, ts = self.a[t]
        w = self.w[t]
        at = {}
        for x, k, z in ts:
            if sgn(w, k) < 0:
                c += k
                k, x = -k & M(w), self.not1(x)
            if not z or k & (k - 1) or k in at:
                return None
            at[k] = x
        if c & M(w):
            return None
        return self.cat([at.get(1 << i, self.F) for i in range(w)])

    def linrange(self, t):
        """[lo, hi] of a sum of weighted bits that never leaves [0, 2^w), else None"""
        if self.op[t] != 'lin':
            return None
        c, ts = self.a[t]
        w = self.w[t]
        lo = hi = sgn(w, c)
        for x, k, z in ts:
            if not z:
                return None
            k = sgn(w, k)
            if k < 0:
                lo += k
            else:
                hi += k
        if c >> (w - 1) and lo < 0:
            lo, hi = lo + (1 << w), hi + (1 << w)
        return (lo, hi) if 0 <= lo and hi <= M(w) else None

    def srange(self, t):
        """[lo, hi] as signed numbers of a sum of terms with constant zero top bits that cannot overflow, else None"""
        w = self.w[t]
        c, ts = self.a[t] if self.op[t] == 'lin' else (0, ((t, 1, False),))
        lo = hi = sgn(w, c)
        for x, k, z in ts:
            k, n = sgn(w, k), 1
            if not z:
                q = self.pieces(x)[-1]
                n = self.w[x] - (self.w[q] if self.isc(q) and not self.a[q] else 0)
            if k < 0:
                lo += k * M(n)
            else:
                hi += k * M(n)
        return (lo, hi) if -(1 << (w - 1)) <= lo and hi < 1 << (w - 1) else None

    def minmax_pat(self, c, x, y):
        if self.op[c] != 'ite':
            return None
        v, t, e = self.a[c]
        if not ((t == self.T and e == self.F) or (t == self.F and e == self.T)):
            return None
        p = self.vars[v]
        if e == self.T:
            x, y = y, x
        if p[0] == 'fL' and self.facmm:
            if (x, y) == p[2:]:
                return self.fmm('nfmin', x, y)
            if (y, x) == p[2:]:
                return self.fmm('nfmax', x, y)
            P, Q, w = p[2], p[3], self.w[x]
            # P < Q ? Q : min(P, c), Q <= c;  and the three mirror images
            for a, b, q, o, f in ((x, y, Q, 'nfmin', P), (y, x, P, 'nfmin', Q), (x, y, P, 'nfmax', Q), (y, x, Q, 'nfmax', P)):
                if a == q and self.isc(q) and self.op[b] == o and f in self.a[b] and all(
                        self.isc(r) and not (f_lt(w, self.a[r], self.a[q]) if o == 'nfmin' else f_lt(w, self.a[q], self.a[r])) for r in self.a[b] if r != f):
                    if (o == 'nfmin') == ((a == x) == (q == Q)):
                        return self.fmm('nfmax' if o == 'nfmin' else 'nfmin', q, b)
            return None
        if p[0] == 'bit' and p[1] in (x, y) and p[2] == self.w[x] - 1:
            p = ('slt', p[1], self.const(self.w[x], 0))
        if p[0] == 'eq' and self.isc(x) != self.isc(y):
            P, w = (y if self.isc(x) else x), self.w[x]
            for q, z in (p[1:3], p[2:0:-1]):
                if self.isc(z) and self.a[z] == 0 and self.w[q] <= w and self.ext(P, w - self.w[q], self.w[q]) == q:
                    p = ('ult', P, self.const(w, 1 << (w - self.w[q])))
                    break
        if p[0] not in ('slt', 'ult'):
            return None
        if self.isc(x) or self.isc(y):
            # P < C ? P : C  and its neighbours (C - 1 serves as well as C)
            P, Q, w = p[1], p[2], self.w[x]
            lt = True
            if self.isc(P):
                P, Q, lt, x, y = Q, P, False, y, x      # now: not (P <= Q) selects y
            if not self.isc(Q) or P not in (x, y):
                return None
            sg = p[0][0] == 's'
            num = (lambda z: sgn(w, self.a[z])) if sg else (lambda z: self.a[z])
            o = y if x == P else x
            if not self.isc(o) or num(o) not in ((num(Q), num(Q) - 1) if lt else (num(Q), num(Q) + 1)):
                return None
            return self.minmax(('s' if sg else 'u') + ('min' if x == P else 'max'), P, o)
        if x == p[1] and y == p[2]:
            k = 'min'
        elif x == p[2] and y == p[1]:
            k = 'max'
        else:
            return None
        return self.minmax(('s' if p[0] == 'slt' else 'u') + k, x, y)

    def minmax(self, op, x, y):
        w = self.w[x]
        if self.isc(x) and self.isc(y):
            a, b = self.a[x], self.a[y]
            if op[0] == 's':
                a, b = sgn(w, a), sgn(w, b)
            return self.const(w, min(a, b) if op[1:] == 'min' else max(a, b))
        if x == y:
            return x
        s = set()
        for t in (x, y):
            if self.op[t] == op:
                s.update(self.a[t])
            else:
                s.add(t)
        if self.constleaf(x) and self.constleaf(y) and len(self.support(x)) + len(self.support(y)) <= 8:
            lt = (self.slt if op[0] == 's' else self.ult)
            c = lt(x, y) if op[1:] == 'min' else lt(y, x)
            return self.ite(c, x, y)
        # drop identity / absorb constants
        cs = [t for t in s if self.isc(t)]
        if cs:
            vals = [self.a[t] for t in cs]
            key = (lambda z: sgn(w, z)) if op[0] == 's' else (lambda z: z)
            c = min(vals, key=key) if op[1:] == 'min' else max(vals, key=key)
            s = {t for t in s if not self.isc(t)}
            lo, hi = ((1 << (w - 1), M(w - 1)) if op[0] == 's' else (0, M(w)))
            ident, absorb = (hi, lo) if op[1:] == 'min' else (lo, hi)
            if c == absorb:
                return self.const(w, c)
            if c != ident:
                s.add(self.const(w, c))
        if len(s) == 1:
            return s.pop()
        return self.lattice(op, w, s)

    def lattice(self, op, w, s):
        """min/max terms are kept as a maximum of minima (distributivity, absorption) while small"""
        mn, mx = op[:-3] + 'min', op[:-3] + 'max'
        if op == 'nfmin' and len(s) == 2:
            p, q = sorted(s, key=self.isc)
            if self.isc(q) and self.op[p] == mx:        # min(hi, max(lo, x)), lo <= hi
                lo = [t for t in self.a[p] if self.isc(t)]
                if lo and not f_lt(w, self.a[q], self.a[lo[0]]):
                    return self.fmm(mx, lo[0], self.fmm(mn, q, self.acop(mx, w, [t for t in self.a[p] if t != lo[0]])))
        if not any(self.op[t] in (mn, mx) for t in s):
            return self.mk(op, w, tuple(sorted(s)))
        alts = lambda t: [frozenset(self.a[u]) if self.op[u] == mn else frozenset((u,)) for u in (self.a[t] if self.op[t] == mx else (t,))]
        if op == mx:
            d = {m for t in s for m in alts(t)}
        else:
            d = {frozenset()}
            for t in s:
                d = {m | n for m in d for n in alts(t)}
                if len(d) > 8:
                    return self.mk(op, w, tuple(sorted(s)))
        us = {u for m in d for u in m}
        if sum(self.isc(u) for u in us) > 1 or len(us) > 4:
            return self.mk(op, w, tuple(sorted(s)))
        d = {m for m in d if not any(n < m for n in d)}
        ms = [self.mk(mn, w, tuple(sorted(m))) if len(m) > 1 else next(iter(m)) for m in d]
        return ms[0] if len(ms) == 1 else self.mk(mx, w, tuple(sorted(ms)))

    def not1(self, b):
        return self.ite(b, self.F, self.T)

    def and1(self, a, b):
        return self.ite(a, b, self.F)

    def or1(self, a, b):
        return self.ite(a, self.T, b)

    def xor1(self, a, b):
        return self.ite(a, self.not1(b), b)

    # -- bitwise
    def bnot(self, t):
        o = self.op[t]
        if o == 'c':
            return self.const(self.w[t], ~self.a[t])
        if self.w[t] == 1:
            return self.not1(t)
        return self.bxor(t, self.const(self.w[t], -1))

    def band(self, a, b):
        return self.bitop('and', a, b)

    def bor(self, a, b):
        return self.bitop('or', a, b)

    def bxor(self, a, b):
        return self.bitop('xor', a, b)

    def bitop(self, op, a, b):
        if a > b:
            a, b = b, a
        k = (op, a, b)
        r = self.m_bin.get(k)
        if r is None:
            r = self._bitop(op, a, b)
            self.m_bin[k] = r
        return r

    def runs(self, w, v):
        out = []
        pos = 0
        while pos < w:
            b = (v >> pos) & 1
            e = pos
            while e < w and ((v >> e) & 1) == b:
                e += 1
            out.append((pos, e - pos, b))
            pos = e
        return out

    def _bitop(self, op, a, b):
        w = self.w[a]
        assert w == self.w[b], (op, w, self.w[b])
        if self.isc(a) and self.isc(b):
            x, y = self.a[a], self.a[b]
            return self.const(w, x & y if op == 'and' else x | y if op == 'or' else x ^ y)
        if a == b:
            return a if op != 'xor' else self.const(w, 0)
        if w == 1:
            return {'and': self.and1, 'or': self.or1, 'xor': self.xor1}[op](a, b)
        for x, y in ((a, b), (b, a)):
            if self.op[x] == 'lin':
                d = self.disjoint(x)
                if d is not None and d != x:
                    return self.bitop(op, d, y)
        for x, y in ((a, b), (b, a)):
            if self.isc(x):
                v = self.a[x]
                if v == 0:
                    return self.const(w, 0) if op == 'and' else y
                if v == M(w):
                    if op == 'and':
                        return y
                    if op == 'or':
                        return x
                    if self.op[y] == 'mul':
                        return self.sub(self.const(w, -1), y)
                    # complement
                    if self.op[y] == 'cat':
                        return self.cat([self.bxor(p, self.const(self.w[p], -1)) for p in self.a[y]])
                    if self.op[y] == 'ite':
                        vv, t, e = self.a[y]
                        return self.ite_v(vv, self.bnot(t), self.bnot(e))
                    if self.op[y] == 'xor' and any(self.isc(z) for z in self.a[y]):
                        rest = [z for z in self.a[y] if not (self.isc(z) and self.a[z] == M(w))]
                        if len(rest) == 1:
                            return rest[0]
                        return self.mk('xor', w, tuple(rest))
                    zs = list(self.a[y]) if self.op[y] == 'xor' else [y]
                    return self.mk('xor', w, tuple(sorted(zs + [x])))
                out = []
                for lo, n, bb in self.runs(w, v):
                    s = self.ext(y, lo, n)
                    if op == 'and':
                        out.append(s if bb else self.const(n, 0))
                    elif op == 'or':
                        out.append(self.const(n, -1) if bb else s)
                    else:
                        out.append(self.bnot(s) if bb else s)
                return self.cat(out)
        sp = self.split([a, b])
        if sp:
            return self.cat([self.bitop(op, p, q) for p, q in sp])
        if (self.op[a] == 'ite' or self.op[b] == 'ite') and not (
                self.acite and not (self.op[a] == self.op[b] == 'ite' and self.a[a][0] == self.a[b][0]) and any(self.op[t] == 'ite' and self.acident(op, w) in self.a[t][1:] for t in (a, b)) and
                not self.constleaf(a) and not self.constleaf(b)):
            v = min(self.a[t][0] for t in (a, b) if self.op[t] == 'ite')
            return self.ite_v(v, self.bitop(op, self.cof(a, v, 1), self.cof(b, v, 1)),
                              self.bitop(op, self.cof(a, v, 0), self.cof(b, v, 0)))
        s = []
        for t in (a, b):
            if self.op[t] == op:
                s.extend(self.a[t])
            else:
                s.append(t)
        if op == 'xor':
            cnt = {}
            for t in s:
                cnt[t] = cnt.get(t, 0) ^ 1
            s = [t for t, n in cnt.items() if n]
            if not s:
                return self.const(w, 0)
        else:
            s = list(set(s))
            # x & ~x
            cs = [t for t in s if self.op[t] == 'xor' and any(self.isc(z) for z in self.a[t])]
            for t in cs:
                if self.bnot(t) in s:
                    return self.const(w, 0 if op == 'and' else -1)
        if len(s) == 1:
            return s[0]
        return self.mk(op, w, tuple(sorted(s)))

    # -- linear arithmetic; term list entries (id, coef, is_zext_bool)
    def lin(self, w, c, ts):
        if w == 1:
            r = self.T if c & 1 else self.F
            for t, k, z in ts:
                if k & 1:
                    r = self.xor1(r, t)
            return r
        acc = {}
        c &= M(w)
        stack = list(ts)
        while stack:
            t, k, isz = stack.pop()
            k &= M(w)
            if k == 0:
                continue
            if isz:
                if t == self.T:
                    c += k
                    continue
                if t == self.F:
                    continue
                # canonical polarity
                n = self.not1(t)
                if self.polarity(t):
                    c += k
                    t, k = n, (-k) & M(w)
                acc[(t, True)] = (acc.get((t, True), 0) + k) & M(w)
                continue
            o = self.op[t]
            if o == 'c':
                c += k * self.a[t]
                continue
            if o == 'lin':
                cc, tt = self.a[t]
                c += k * cc
                stack.extend((x, kk * k, z) for x, kk, z in tt)
                continue
            if o == 'ite' and self.constleaf(t):
                lv = self.leaves(t, 3)
                if lv is not None and len(lv) == 2:
                    k0, k1 = sorted(self.a[x] for x in lv)
                    f = self.leafcond(t, k1)
                    c += k * k0
                    stack.append((f, k * (k1 - k0), True))
                    continue
            if o == 'cat' and self.is_flip(t):
                c += k << (w - 1)
                stack.append((self.flip(t), k, False))
                continue
            if o == 'cat':
                ps = self.a[t]
                if self.isc(ps[0]) and self.a[ps[0]] == 0 and len(ps) == 2:
                    z = self.w[ps[0]]
                    s = self.slice_of(ps[1])
                    if s and s[1] == 0 and s[2] == w - z and self.w[s[0]] >= w:
                        x = self.ext(s[0], 0, w)
                        stack.append((x, k << z, False))
                        continue
                # split off bits: a cat of zero-extended bool pieces
                if all(self.isc(p) or (self.op[p] == 'ite' and self.constleaf(p)) for p in ps):
                    pos = 0
                    cc, more = 0, []
                    for p in ps:
                        if self.isc(p):
                            cc += k * (self.a[p] << pos)
                        elif self.w[p] == 1:
                            more.append((p, k << pos, True))
                        elif len(self.leaves(p, 3) or ()) == 2:
                            k0, k1 = sorted(self.a[x] for x in self.leaves(p, 3))
                            cc += k * (k0 << pos)
                            more.append((self.leafcond(p, k1), k * ((k1 - k0) << pos), True))
                        else:
                            e = self.cat([p, self.const(w - self.w[p], 0)]) if self.w[p] < w else p
                            if self.op[e] == 'cat':
                                more = None
                                break
                            more.append((e, k << pos, False))
                        pos += self.w[p]
                    if more is None:
                        acc[(t, False)] = (acc.get((t, False), 0) + k) & M(w)
                    else:
                        c += cc
                        stack.extend(more)
                    continue
                # disjoint zero-extended pieces: split into sum (canonical for cat with zero gaps)
            acc[(t, False)] = (acc.get((t, False), 0) + k) & M(w)
        c &= M(w)
        items = [(t, k, z) for (t, z), k in acc.items() if k]
        if not items:
            return self.const(w, c)
        if len(items) == 1:
            t, k, z = items[0]
            if not z and self.op[t] == 'ite' and (k != 1 or c) and self.constleaf(t):
                return self.mapleaves(t, lambda x: self.const(w, k * self.a[x] + c))
            if z:
                return self.ite(t, self.const(w, c + k), self.const(w, c))
            if k == 1 and c == 1 << (w - 1):
                return self.flip(t)
            if c == 0:
                if k == 1:
                    return t
                if k & (k - 1) == 0:
                    n = k.bit_length() - 1
                    return self.cat([self.const(n, 0), self.ext(t, 0, w - n)])
        items.sort()
        if w in (16, 32, 64):
            r = self.lanesum(w, c, items)
            if r is not None:
                return r
        return self.mk('lin', w, (c, tuple(items)))

    def lanesum(self, w, c, items):
        """a sum of packed lanes whose guard bits keep every lane from carrying into the next one"""
        if not all(not z and k in (1, M(w)) and (self.op[t] == 'cat' or self.isc(t)) for t, k, z in items):
            return None
        for L in (8, 16):
            if w <= L:
                break
            out, rest = [], c
            for l in range(w // L):
                lo = hi = k0 = 0
                ls = []
                for t, k, z in items:
                    x = self.ext(t, l * L, L)
                    q = self.pieces(x)[-1]
                    if self.isc(x):
                        v = self.a[x]
                        k0 += v if k == 1 else -v
                        continue
                    if not self.isc(q):
                        break
                    n, v = self.w[q], self.a[q] << (L - self.w[q])
                    x = self.cat([self.ext(x, 0, L - n), self.const(n, 0)])
                    k0 += v if k == 1 else -v
                    ls.append((x, 1 if k == 1 else M(L), False))
                    if k == 1:
                        hi += M(L - n)
                    else:
                        lo -= M(L - n)
                else:
                    d = rest & M(L)
                    for d in (d, d - (1 << L)):
                        if lo + k0 + d >= 0 and hi + k0 + d <= M(L):
                            break
                    else:
                        d = None
                    if d is None:
                        break
                    rest = (rest - d) >> L
                    out.append(self.lin(L, k0 + d, ls))
                    continue
                break
            if len(out) == w // L:
                return self.cat(out)
        return None

    def swar(self, p, q):
        """low bits of a sum and its separately computed top bit"""
        n = self.w[p]
        c, ts = self.a[p]
        lo, full, tops = [], [], self.F
        for x, k, z in ts:
            s = None if z else self.slice_of(x)
            if not s or s[2] != n or s[1] + n + 1 > self.w[s[0]]:
                return None
            k = sgn(n, k) & M(n + 1)
            lo.append((self.cat([x, self.F]), k, False))
            full.append((self.ext(s[0], s[1], n + 1), k, False))
            if k & 1:
                tops = self.xor1(tops, self.ext(s[0], s[1] + n, 1))
        for d in (c, c + (1 << n)):
            h = self.xor1(self.top(self.lin(n + 1, d, lo)), tops)
            if q == h:
                return self.lin(n + 1, d, full)
            if q == self.not1(h):
                return self.lin(n + 1, d + (1 << n), full)
        return None

    def polarity(self, f):
        """True if f is true on the all-false assignment"""
        while self.op[f] == 'ite':
            f = self.a[f][2]
        return f == self.T

    def leaves(self, t, lim):
        key = ('lv', t)
        r = self.m_bin.get(key)
        if r is not None:
            return r
        seen = set()
        out = set()
        st = [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if self.op[x] == 'ite':
                st.extend(self.a[x][1:])
            else:
                out.add(x)
                if len(out) >= lim and lim < 1000:
                    return None
        self.m_bin[key] = out
        return out

    def leafcond(self, t, val):
        memo = {}

        def go(x):
            if self.op[x] != 'ite':
                return self.T if self.a[x] == val else self.F
            if x in memo:
                return memo[x]
            v, a, b = self.a[x]
            r = self.ite_v(v, go(a), go(b))
            memo[x] = r
            return r
        return go(t)

    def add(self, a, b):
        w = self.w[a]
        for x, y in ((a, b), (b, a)):
            if self.isc(x) and self.op[y] == 'cat' and (self.isc(self.a[y][0]) or self.constleaf(self.a[y][0])):
                # the low part absorbs the addend without touching the rest
                lo = self.a[y][0]
                n = self.w[lo]
                k = self.a[x]
                lv = self.leaves(lo, 64)
                if lv and all(((k >> n) + ((self.a[l] + (k & M(n))) >> n)) & M(w - n) == 0 for l in lv):
                    lo = self.mapleaves(lo, lambda l: self.const(n, self.a[l] + k))
                    return self.cat((lo,) + self.a[y][1:])
        return self.lin(w, 0, [(a, 1, False), (b, 1, False)])

    def sub(self, a, b):
        w = self.w[a]
        return self.lin(w, 0, [(a, 1, False), (b, -1, False)])

    def neg(self, a):
        return self.lin(self.w[a], 0, [(a, -1, False)])

    def lowzeros(self, t):
        p = self.pieces(t)[0]
        if self.isc(p):
            v = self.a[p]
            if v == 0:
                return self.w[p]
            return (v & -v).bit_length() - 1
        return 0

    def mul(self, a, b):
        w = self.w[a]
        if self.isc(a):
            a, b = b, a
        if self.isc(b):
            v = self.a[b]
            return self.lin(w, 0, [(a, v, False)])
        for x, y in ((a, b), (b, a)):
            if self.op[x] == 'ite' and self.constleaf(x) and len(self.leaves(x, 1 << 20)) <= 4:
                return self.mapleaves(x, lambda l: self.mul(l, y))
        za, zb = self.lowzeros(a), self.lowzeros(b)
        if za or zb:
            n = za + zb
            if n >= w:
                return self.const(w, 0)
            x = self.ext(a, za, w - za)
            y = self.ext(b, zb, w - zb)
            return self.cat([self.const(n, 0), self.mul(self.ext(x, 0, w - n), self.ext(y, 0, w - n))])
        # linear with a common scale
        k = 1
        s = []
        for t in (a, b):
            if self.op[t] == 'lin' and self.a[t][0] == 0 and len(self.a[t][1]) == 1 and not self.a[t][1][0][2]:
                k *= self.a[t][1][0][1]
                t = self.a[t][1][0][0]
            if self.op[t] == 'mul':
                s.extend(self.a[t])
            else:
                s.append(t)
        r = self.mk('mul', w, tuple(sorted(s)))
        if k != 1:
            return self.lin(w, 0, [(r, k, False)])
        return r

    def mapleaves(self, t, f, memo=None):
        if memo is None:
            memo = {}
        if self.op[t] != 'ite':
            return f(t)
        r = memo.get(t)
        if r is None:
            v, a, b = self.a[t]
            r = self.ite_v(v, self.mapleaves(a, f, memo), self.mapleaves(b, f, memo))
            memo[t] = r
        return r

    def nleaves(self, t):
        if self.op[t] == 'c':
            return 1
        if not self.constleaf(t):
            return 1 << 30
        return len(self.leaves(t, 1 << 20))

    def as_mtbdd(self, t, lim=256):
        """turn a cat of constant-leaf pieces into a single ite-tree"""
        if self.op[t] != 'cat':
            return t if self.constleaf(t) else None
        n = 1
        for p in self.a[t]:
            if not self.constleaf(p):
                return None
            n *= len(self.leaves(p, 1 << 20)) if self.op[p] == 'ite' else 1
            if n > lim:
                return None
        k = ('mt', t)
        r = self.m_bin.get(k)
        if r is not None:
            return r

        def go(ps):
            vs = [self.a[p][0] for p in ps if self.op[p] == 'ite']
            if not vs:
                v = 0
                pos = 0
                for p in ps:
                    v |= self.a[p] << pos
                    pos += self.w[p]
                return self.const(pos, v)
            v = min(vs)
            x = go([self.cof(p, v, 1) for p in ps])
            y = go([self.cof(p, v, 0) for p in ps])
            return x if x == y else self.mk('ite', self.w[x], (v, x, y))
        r = go(list(self.a[t]))
        self.m_bin[k] = r
        return r

    # -- shifts
    def shlc(self, t, n):
        w = self.w[t]
        if n >= w:
            return self.const(w, 0)
        return self.cat([self.const(n, 0), self.ext(t, 0, w - n)]) if n else t

    def lshrc(self, t, n):
        w = self.w[t]
        if n >= w:
            return self.const(w, 0)
        return self.cat([self.ext(t, n, w - n), self.const(n, 0)]) if n else t

    def ashrc(self, t, n):
        w = self.w[t]
        n = min(n, w - 1)
        if not n:
            return t
        return self.sext(self.ext(t, n, w - n), w)

    def zext(self, t, w):
        n = w - self.w[t]
        return self.cat([t, self.const(n, 0)]) if n else t

    def sext(self, t, w):
        n = w - self.w[t]
        if not n:
            return t
        s = self.top(t)
        return self.cat([t, self.rep(s, n)])

    def rep(self, b, n):
        if n == 1:
            return b
        return self.ite(b, self.const(n, -1), self.const(n, 0))

    def resize(self, t, w, signed):
        W = self.w[t]
        if w <= W:
            return self.ext(t, 0, w)
        return self.sext(t, w) if signed else self.zext(t, w)

    def shift(self, kind, t, amt, over='ub'):
        """kind shl/lshr/ashr with a symbolic amount (any width).
        over: 'ub' amounts >= w are undefined, 'sat' => zeros / sign fill"""
        w = self.w[t]
        f = {'shl': self.shlc, 'lshr': self.lshrc, 'ashr': self.ashrc}[kind]

        def leaf(a):
            n = self.a[a]
            if n >= w:
                if over == 'ub':
                    return self.mk('ovshift', w, (kind, t, n))
                return f(t, w) if kind != 'ashr' else f(t, w - 1)
            return f(t, n)
        if self.isc(amt):
            return leaf(amt)
        m = self.as_mtbdd(amt)
        if m is not None:
            return self.mapleaves(m, leaf)
        return self.mk(kind + ('' if over == 'ub' else 's'), w, (t, amt))

    # -- recognisers
    def as_sext(self, t):
        """smallest core c with t = sext(c)"""
        ps = self.pieces(t)
        if len(ps) >= 2 and self.op[ps[-1]] == 'ite' and self.constleaf(ps[-1]):
            n = self.w[ps[-1]]
            core = self.cat(ps[:-1])
            s = self.top(core)
            if self.rep(s, n) == ps[-1]:
                return self.as_sext(core)
        return t

    def as_zext(self, t):
        ps = self.pieces(t)
        if len(ps) >= 2 and self.isc(ps[-1]) and self.a[ps[-1]] == 0:
            return self.cat(ps[:-1])
        return t

    # -- comparisons -> 1-bit
    def eq(self, a, b):
        if a == b:
            return self.T
        if a > b:
            a, b = b, a
        k = ('eq', a, b)
        r = self.m_bin.get(k)
        if r is None:
            r = self._eq(a, b)
            self.m_bin[k] = r
        return r

    def _eq(self, a, b):
        w = self.w[a]
        assert w == self.w[b]
        if self.isc(a) and self.isc(b):
            return self.T if self.a[a] == self.a[b] else self.F
        if w == 1:
            return self.not1(self.xor1(a, b))
        sa, sb = self.as_sext(a), self.as_sext(b)
        if sa != a and sb != b:
            n = max(self.w[sa], self.w[sb])
            if n < w:
                return self.eq(self.ext(a, 0, n), self.ext(b, 0, n))
        for x, y in ((a, b), (b, a)):
            if self.isc(y):
                s = self.as_sext(x)
                if s != x:
                    n = self.w[s]
                    v = self.a[y]
                    if self.sext(self.const(n, v), w) == y:
                        return self.eq(s, self.const(n, v))
                    return self.F
                if self.op[x] == 'lin':
                    c0, ts = self.a[x]
                    for sg in (1, -1):                  # a concatenation of bits written as a sum, or its negative
                        bit = {(sg * k) & M(w): u for u, k, z in ts if self.w[u] == 1}
                        if len(bit) == len(ts) and all(k & (k - 1) == 0 for k in bit):
                            r = self.T
                            v = (sg * (self.a[y] - c0)) & M(w)
                            if v & ~sum(bit) & M(w):
                                return self.F
                            for k in sorted(bit):
                                r = self.and1(r, bit[k] if v & k else self.not1(bit[k]))
                            return r
        sp = self.split([a, b])
        if sp:
            r = self.T
            # build from the last to keep the diagram small
            for p, q in reversed(sp):
                r = self.and1(self.eq(p, q), r)
            return r
        if self.op[a] == 'ite' or self.op[b] == 'ite':
            v = min(self.a[t][0] for t in (a, b) if self.op[t] == 'ite')
            return self.ite_v(v, self.eq(self.cof(a, v, 1), self.cof(b, v, 1)),
                              self.eq(self.cof(a, v, 0), self.cof(b, v, 0)))
        for x, y in ((a, b), (b, a)):
            o = self.op[x]
            if o in ('umin', 'umax', 'smin', 'smax') and y in self.a[x] and len(self.a[x]) == 2:
                z = [q for q in self.a[x] if q != y][0]
                lt = self.slt if o[0] == 's' else self.ult
                return self.not1(lt(z, y) if o[1:] == 'min' else lt(y, z))
        if self.op[a] == 'lin' or self.op[b] == 'lin':
            d = self.sub(a, b)
            if self.isc(d):
                return self.T if self.a[d] == 0 else self.F
            if self.op[d] == 'lin':
                c, ts = self.a[d]
                if len(ts) == 1 and not ts[0][2] and ts[0][1] in (1, M(w)):
                    v = -c if ts[0][1] == 1 else c
                    return self.eq(ts[0][0], self.const(w, v))
                if len(ts) == 2 and c == 0 and not ts[0][2] and not ts[1][2] and \
                        {ts[0][1], ts[1][1]} == {1, M(w)}:
                    return self.eq(ts[0][0], ts[1][0])
                if all(z for _, _, z in ts) and len(ts) <= 10:
                    # pure boolean sum: enumerate
                    return self.linbool(d, lambda v: v == 0)
                # canonical sign
                n = self.neg(d)
                d = min(d, n)
            else:
                n = self.neg(d)
                d = min(d, n)
            return self.bvar(('eq', d, self.const(w, 0)))
        return self.bvar(('eq', a, b))

    def linbool(self, d, pred):
        if self.isc(d):
            return self.T if pred(self.a[d]) else self.F
        if self.op[d] == 'lin':
            c, ts = self.a[d]
            w = self.w[d]
            t, k, z = ts[-1]
            lo = self.lin(w, c, list(ts[:-1]))
            hi = self.lin(w, c + k, list(ts[:-1]))
            return self.ite(t, self.linbool(hi, pred), self.linbool(lo, pred))
        if self.op[d] == 'ite':
            v, x, y = self.a[d]
            return self.ite_v(v, self.linbool(x, pred), self.linbool(y, pred))
        raise NotImplementedError

    def is_flip(self, t):
        """top bit is a negated slice bit"""
        b = self.top(t)
        if self.op[b] != 'ite':
            return False
        v, x, y = self.a[b]
        return x == self.F and y == self.T and self.vars[v][0] == 'bit'

    def flip(self, t):
        w = self.w[t]
        return self.bxor(t, self.const(w, 1 << (w - 1)))

    def slt(self, a, b):
        return self.cmp('slt', a, b)

    def ult(self, a, b):
        return self.cmp('ult', a, b)

    def cmp(self, op, a, b):
        k = (op, a, b)
        r = self.m_bin.get(k)
        if r is None:
            r = self._cmp(op, a, b)
            self.m_bin[k] = r
        return r

    def _cmp(self, op, a, b):
        w = self.w[a]
        assert w == self.w[b]
        if a == b:
            return self.F
        if self.isc(a) and self.isc(b):
            x, y = self.a[a], self.a[b]
            if op == 'slt':
                x, y = sgn(w, x), sgn(w, y)
            return self.T if x < y else self.F
        if w == 1:
            return self.and1(self.not1(a), b) if op == 'ult' else self.and1(a, self.not1(b))
        # sign/zero extension cores
        za, zb = self.as_zext(a), self.as_zext(b)
        if za != a and zb != b:
            n = max(self.w[za], self.w[zb])
            return self.cmp('ult', self.ext(a, 0, n), self.ext(b, 0, n))
        for x, z, y, sw in ((a, za, b, 0), (b, zb, a, 1)):
            if z != x and self.isc(y):
                n = self.w[z]
                v = self.a[y]
                if op == 'slt' and v >> (w - 1):      # y negative
                    return self.F if sw == 0 else self.T
                if v >> n:
                    return self.T if sw == 0 else self.F
                p, q = self.ext(a, 0, n), self.ext(b, 0, n)
                return self.cmp('ult', p, q)
        sa, sb = self.as_sext(a), self.as_sext(b)
        if (sa != a or self.isc(a)) and (sb != b or self.isc(b)):
            if self.isc(a) or self.isc(b):
                c, x, s = (a, b, sb) if self.isc(a) else (b, a, sa)
                n = self.w[s]
                v = self.a[c]
                if op == 'slt':
                    if self.sext(self.const(n, v), w) == c:
                        return self.cmp(op, self.ext(a, 0, n), self.ext(b, 0, n))
                    neg = v >> (w - 1)
                    less = bool(neg) if self.isc(a) else not neg
                    return self.T if less else self.F
            else:
                n = max(self.w[sa], self.w[sb])
                return self.cmp(op, self.ext(a, 0, n), self.ext(b, 0, n))
        if self.op[a] == 'ite' and self.constleaf(a) or self.op[b] == 'ite' and self.constleaf(b):
            v = min(self.a[t][0] for t in (a, b) if self.op[t] == 'ite')
            return self.ite_v(v, self.cmp(op, self.cof(a, v, 1), self.cof(b, v, 1)),
                              self.cmp(op, self.cof(a, v, 0), self.cof(b, v, 0)))
        if (self.is_flip(a) and (self.isc(b) or self.is_flip(b))) or (self.isc(a) and self.is_flip(b)):
            return self.cmp('ult' if op == 'slt' else 'slt', self.flip(a), self.flip(b))
        if op == 'slt':
            if self.isc(b):
                v = self.a[b]
                if v == 0:
                    return self.top(a)
                if v == 1 << (w - 1):
                    return self.F
                if w > 2 and v == (1 << (w - 1)) + 1:
                    return self.eq(a, self.const(w, v - 1))
                if w > 2 and v == M(w - 1):
                    return self.not1(self.eq(a, b))
                f = self.floatbits(a, v - 1)
                if f is not None:
                    return self.not1(f)
            if self.isc(a):
                v = self.a[a]
                if v == M(w):
                    return self.not1(self.top(b))
                if v == M(w - 1):
                    return self.F
                f = self.floatbits(b, v)
                if f is not None:
                    return f
                # c < x  <=>  not (x < c+1)
                return self.not1(self.cmp(op, b, self.const(w, v + 1)))
        else:
            if self.isc(b):
                v = self.a[b]
                if v == 0:
                    return self.F
                if v == 1:
                    return self.eq(a, self.const(w, 0))
                if v >= M(w) - 1 and self.op[a] == 'lin':
                    r, k0 = self.T, self.a[a][0]
                    t = self.lin(w, 0, self.a[a][1])
                    for u in range(v, M(w) + 1):
                        r = self.and1(r, self.not1(self.eq(t, self.const(w, (u - k0) & M(w)))))
                    return r
                if v & (v - 1) == 0:
                    n = v.bit_length() - 1
                    return self.eq(self.ext(a, n, w - n), self.const(w - n, 0))
                if self.op[a] == 'cat' and all(self.constleaf(p) for p in self.a[a]):
                    # bits against a constant, lexicographically
                    r, pos = self.F, 0
                    for p in self.a[a]:
                        n = self.w[p]
                        k = (v >> pos) & M(n)
                        lt = self.mapleaves(p, lambda l: self.T if self.a[l] < k else self.F)
                        q = self.mapleaves(p, lambda l: self.T if self.a[l] == k else self.F)
                        r = self.or1(lt, self.and1(q, r))
                        pos += n
                    return r
                if self.op[a] == 'lin' and self.a[a][0] and all(z for _, _, z in self.a[a][1]):
                    # range test on a number made of bits: x + c < v
                    s = -self.a[a][0] & M(w)
                    x = self.lin(w, 0, list(self.a[a][1]))
                    if self.op[x] == 'lin' and self.linrange(x) is None:
                        c0 = sum(k for _, k, _ in self.a[a][1] if k >> (w - 1)) & M(w)     # move to the least value
                        x = self.lin(w, -c0 & M(w), list(self.a[a][1]))
                        s = (s - c0) & M(w)
                    d = self.disjoint(x) if self.op[x] == 'lin' else x
                    if d is None and self.op[x] == 'lin' and self.linrange(x):
                        d = self.bitsum(x)
                    if d is not None and self.op[d] == 'cat':
                        ge = self.not1(self.cmp('ult', d, self.const(w, s))) if s else self.T
                        if s + v == 1 << w:
                            return ge
                        if s + v < 1 << w:
                            return self.and1(ge, self.cmp('ult', d, self.const(w, s + v)))
                        return self.or1(ge, self.cmp('ult', d, self.const(w, s + v - (1 << w))))
            if self.isc(a):
                v = self.a[a]
                if v == 0:
                    return self.not1(self.eq(b, a))
                if v == M(w):
                    return self.F
                return self.not1(self.cmp(op, b, self.const(w, v + 1)))
            for x, y, sw in ((a, b, 0), (b, a, 1)):
                if self.op[x] == 'ult':
                    pass
        if self.op[a] in ('smin', 'smax', 'umin', 'umax') and b in self.a[a] and len(self.a[a]) == 2:
            z = [q for q in self.a[a] if q != b][0]
            if self.op[a] == op[0] + 'min':
                return self.cmp(op, z, b)
            if self.op[a] == op[0] + 'max':
                return self.F
        if self.op[b] in ('smin', 'smax', 'umin', 'umax') and a in self.a[b] and len(self.a[b]) == 2:
            z = [q for q in self.a[b] if q != a][0]
            if self.op[b] == op[0] + 'max':
                return self.cmp(op, a, z)
            if self.op[b] == op[0] + 'min':
                return self.F
        return self.bvar((op, a, b))

    def floatbits(self, t, v):
        """v < t (signed) where t is |x| and v the bits of infinity => isnan"""
        w = self.w[t]
        if w not in FMT or v != f_inf(w):
            return None
        ps = self.pieces(t)
        if self.isc(ps[-1]) and self.w[ps[-1]] == 1 and self.a[ps[-1]] == 0:
            return self.fun(self.cat(list(ps[:-1]) + [self.F]))
        return None

    # -- floating point predicates
    def fabs(self, t):
        w = self.w[t]
        return self.cat([self.ext(t, 0, w - 1), self.F])

    def fneg(self, t):
        w = self.w[t]
        return self.cat([self.ext(t, 0, w - 1), self.not1(self.top(t))])

    def never_nan(self, t):
        return self.op[t] in ('sitofp', 'uitofp')

    def fun(self, t):
        """isnan predicate"""
        if self.facmm:
            return self.F
        w = self.w[t]
        if self.isc(t):
            return self.T if f_isnan(w, self.a[t]) else self.F
        if self.op[t] == 'ite':
            v, x, y = self.a[t]
            return self.ite_v(v, self.fun(x), self.fun(y))
        k = ('fun', t)
        r = self.m_bin.get(k)
        if r is None:
            s = self.ext(t, 0, w - 1)
            b = self.slice_of(s)
            if b and b[1] == 0 and self.w[b[0]] == w:
                if self.never_nan(b[0]):
                    r = self.F
                elif self.op[b[0]] in ('frnd', 'sqrtabs'):
                    r = self.fun(self.a[b[0]][1])
                elif self.op[b[0]] == 'fmul' and any(self.isc(x) for x in self.a[b[0]]):
                    # a product with a constant: NaN operand, or 0 * inf
                    x, y = self.a[b[0]]
                    k2, y = (self.a[x], y) if self.isc(x) else (self.a[y], x)
                    k2 &= M(w - 1)
                    r = self.T if f_isnan(w, k2) else self.fun(y)
                    if k2 in (0, f_inf(w)):
                        r = self.or1(r, self.feq(self.fabs(y), self.const(w, k2 ^ f_inf(w))))
                else:
                    r = self.bvar(('fun', w, b[0]))
            elif self.op[s] == 'ite':
                v, x, y = self.a[s]
                r = self.ite_v(v, self.fun(self.cat([x, self.F])), self.fun(self.cat([y, self.F])))
            else:
                r = self.bvar(('fun', w, self.cat([s, self.F])))
            self.m_bin[k] = r
        return r

    def fcmp3(self, a, b):
        """(un, E, L) ; lt = !un !E L (in the order given)"""
        w = self.w[a]
        un = self.or1(self.fun(a), self.fun(b))
        if self.isc(a) and self.isc(b):
            if f_isnan(w, self.a[a]) or f_isnan(w, self.a[b]):
                return self.T, self.F, self.F
            return self.F, (self.T if f_eq(w, self.a[a], self.a[b]) else self.F), \
                (self.T if f_lt(w, self.a[a], self.a[b]) else self.F)
        if a == b:
            return un, self.T, self.F
        for t in (a, b):
            if self.op[t] == 'ite' and self.constleaf(t):
                v = self.a[t][0]
                r1 = self.fcmp3(self.cof(a, v, 1), self.cof(b, v, 1))
                r0 = self.fcmp3(self.cof(a, v, 0), self.cof(b, v, 0))
                return tuple(self.ite_v(v, x, y) for x, y in zip(r1, r0))
        # comparison of negated values: -a < -b <=> b < a
        if self.isc(a) and self.cv(a) in (0, 1 << (w - 1)):
            a = self.const(w, 0)
        if self.isc(b) and self.cv(b) in (0, 1 << (w - 1)):
            b = self.const(w, 0)
        fa = self.is_flip(a) or self.negtop(a) or (self.isc(a) and self.a[a] >> (w - 1) or self.isc(a) and self.a[a] == 0)
        fb = self.is_flip(b) or self.negtop(b) or (self.isc(b) and self.a[b] >> (w - 1) or self.isc(b) and self.a[b] == 0)
        if fa and fb:
            na = a if self.isc(a) and self.a[a] == 0 else self.fneg(a)
            nb = b if self.isc(b) and self.a[b] == 0 else self.fneg(b)
            u, E, L = self.fcmp3(na, nb)
            return u, E, self.and1(self.not1(L), self.not1(E))
        sw = a > b
        x, y = (b, a) if sw else (a, b)
        E = self.F if self.facmm else self.bvar(('fE', w, x, y))
        L = self.bvar(('fL', w, x, y))
        if sw:
            L = self.not1(L)
        return un, E, L

    def negtop(self, t):
        q = self.pieces(t)[-1]
        return self.isc(q) and self.op[t] == 'cat' and self.a[q] >> (self.w[q] - 1)

    facmm = False

    def flt(self, a, b):
        u, E, L = self.fcmp3(a, b)
        return self.and1(self.not1(u), self.and1(self.not1(E), L))

    def feq(self, a, b):
        u, E, L = self.fcmp3(a, b)
        return self.and1(self.not1(u), E)

    def fle(self, a, b):
        u, E, L = self.fcmp3(a, b)
        return self.and1(self.not1(u), self.or1(E, L))

    def funord(self, a, b):
        return self.or1(self.fun(a), self.fun(b))

    # -- float arithmetic (single lane terms)
    def f2(self, op, a, b):
        w = self.w[a]
        if self.isc(a) and self.isc(b):
            f = {'fadd': f_add, 'fmul': f_mul, 'fdiv': f_div}[op]
            return self.const(w, f(w, self.a[a], self.a[b]))
        if self.constleaf(a) and self.constleaf(b) and self.nleaves(a) * self.nleaves(b) <= 64:
            x, y = (a, b) if self.op[a] == 'ite' else (b, a)
            return self.mapleaves(a, lambda p: self.mapleaves(b, lambda q: self.f2(op, p, q)))
        if op == 'fmul':
            # sign canonicalisation: pull sign flips out
            fa, fb = self.is_flip(a) or self.negtop(a), self.is_flip(b) or self.negtop(b)
            if fa or fb:
                x = self.fneg(a) if fa else a
                y = self.fneg(b) if fb else b
                r = self.f2(op, x, y)
                return r if fa and fb else self.fneg(r)
            one = self.fone(w)
            for x, y in ((a, b), (b, a)):
                if self.isc(x):
                    if self.a[x] == one:
                        return y
                    if self.a[x] == one | 1 << (w - 1):
                        return self.fneg(y)
        if op == 'fadd':
            # -(x) + -(y) = -(x+y) is not exact for zero signs in general; keep
            for x, y in ((a, b), (b, a)):
                if self.isc(x) and self.a[x] == 1 << (w - 1):
                    return y        # x + -0.0 == x
                if self.isc(x) and self.op[y] == 'sitofp':
                    n = self.w[self.a[y][0]]
                    if n < FMT[w][1] and self.a[x] == f_round(w, Fraction(1 << (n - 1))):
                        # biased conversion of an unsigned integer, exact
                        return self.itofp(self.bxor(self.a[y][0], self.const(n, 1 << (n - 1))), w, False)
            x = self.intsum(a, b, w) or self.intsum(b, a, w) or self.intsum3(a, b, w) or self.intsum3(b, a, w)
            if x:
                return x
        if op == 'fdiv':
            if self.isc(b) and self.a[b] == self.fone(w):
                return a
            fa, fb = self.is_flip(a), self.is_flip(b)
            if fa or fb:
                x = self.fneg(a) if fa else a
                y = self.fneg(b) if fb else b
                r = self.f2(op, x, y)
                return r if fa and fb else self.fneg(r)
        if op != 'fdiv' and self.acfloat:
            # reductions: association and order of the operands are unspecified
            ps = []
            for x in (a, b):
                ps.extend(self.a[x] if self.op[x] == 'n' + op else (x,))
            z = (0, 1 << (w - 1)) if op == 'fadd' else (self.fone(w),)
            ps = [x for x in ps if not (self.isc(x) and self.a[x] in z)]
            if len(ps) < 2:
                return ps[0] if ps else self.const(w, z[0])
            return self.mk('n' + op, w, tuple(sorted(ps)))
        if op != 'fdiv' and a > b:
            a, b = b, a
        return self.mk(op, w, (a, b))

    acfloat = False
    faithful = False

    def scaledint(self, t, w):
        """t = core * 2^k exactly up to the rounding of the conversion -> (core, signed, k, exact)"""
        k = 0
        if self.op[t] == 'fmul':
            x, y = self.a[t]
            if not self.isc(x):
                x, y = y, x
            if not self.isc(x):
                return None
            e, m = FMT[w]
            v = self.a[x]
            k = (v >> m) - M(e - 1)
            if v & M(m) or not 0 < k < 64:
                return None
            t = y
        if self.op[t] not in ('sitofp', 'uitofp'):
            return None
        core = self.a[t][0]
        sg = self.op[t] == 'sitofp'
        return core, sg, k, self.w[core] - sg <= FMT[w][1] + 1

    def intsum(self, a, b, w):
        """hi * 2^k + lo with 0 <= lo < 2^k and both exact: one rounding of the joined integer"""
        h = self.scaledint(a, w)
        if h is None or h[2] == 0:
            return None
        if self.op[b] in ('sitofp', 'uitofp'):
            l = self.scaledint(b, w)
            if l and not l[1] and l[2] == 0 and self.w[l[0]] <= h[2]:
                x = self.cat([l[0], self.const(h[2] - self.w[l[0]], 0), h[0]] if self.w[l[0]] < h[2] else [l[0], h[0]])
                if l[3] and h[3]:
                    return self.itofp(x, w, h[1]) if self.w[x] <= 64 else None
                # unsigned and rounding to a neighbour suffices: the partial sums
                # stay in the interval of representable values around the result
                if self.faithful and not h[1] and self.w[x] == 64:
                    return self.itofp(x, w, False)
        return None

    def intsum3(self, lo, s, w):
        """uitofp(l16) + (hi * 2^32 + mid * 2^16), unsigned, to a neighbouring value (faithful mode)"""
        if not self.faithful or self.op[s] != 'fadd':
            return None
        l = self.scaledint(lo, w)
        if l is None or l[1:3] != (False, 0) or self.w[l[0]] != 16:
            return None
        for h, m in (self.a[s], self.a[s][::-1]):
            h, m = self.scaledint(h, w), self.scaledint(m, w)
            if h and m and not h[1] and not m[1] and h[2] == 32 and m[2] == 16 and self.w[m[0]] == 16 and self.w[h[0]] <= 32:
                return self.itofp(self.cat([l[0], m[0], h[0]]), w, False)
        return None

    def fone(self, w):
        e, m = FMT[w]
        return M(e - 1) << m

    def fadd(self, a, b):
        if a == b and not self.isc(a):
            return self.fmul(a, self.const(self.w[a], f_round(self.w[a], Fraction(2))))
        return self.f2('fadd', a, b)

    def fsub(self, a, b):
        return self.f2('fadd', a, self.fneg(b))

    def fmul(self, a, b):
        return self.f2('fmul', a, b)

    def fdiv(self, a, b):
        w = self.w[a]
        if self.isc(b) and not self.isc(a) and self.op[a] not in ('sitofp', 'uitofp'):
            m = FMT[w][1]
            e = self.a[b] >> m & M(FMT[w][0])
            if not self.a[b] & M(m) and 1 < e < M(FMT[w][0]) - 1:      # a power of two: its reciprocal is exact
                return self.fmul(a, self.const(w, (self.a[b] & ~(M(FMT[w][0]) << m)) | (2 * M(FMT[w][0] - 1) - e) << m))
        return self.f2('fdiv', a, b)

    def fma(self, a, b, c):
        w = self.w[a]
        if self.isc(a) and self.isc(b) and self.isc(c):
            return self.const(w, f_fma(w, self.a[a], self.a[b], self.a[c]))
        fa, fb = self.is_flip(a), self.is_flip(b)
        if fa and fb:
            a, b = self.fneg(a), self.fneg(b)
        elif fb:
            b, a = self.fneg(b), self.fneg(a)
        elif not fa and a > b:
            a, b = b, a
        if (fa or fb):
            # keep the negated factor in the first slot; sort by un-negated id
            x, y = self.fneg(a), b
            if x > y:
                a, b = self.fneg(y), x
        elif a > b:
            a, b = b, a
        return self.mk('fma', w, (a, b, c))

    def sqrt(self, a):
        w = self.w[a]
        if self.isc(a):
            return self.const(w, f_sqrt(w, self.a[a]))
        return self.mk('sqrt', w, (a,))

    def frnd(self, mode, a):
        w = self.w[a]
        if self.isc(a):
            return self.const(w, f_rnd(w, self.a[a], mode))
        if self.op[a] in ('sitofp', 'uitofp'):
            return a
        if self.op[a] == 'frnd':
            return a
        return self.mk('frnd', w, (mode, a))

    def fcvt(self, a, wd):
        ws = self.w[a]
        if ws == wd:
            return a
        if self.isc(a):
            return self.const(wd, f_cvt(wd, ws, self.a[a]))
        if self.constleaf(a):
            return self.mapleaves(a, lambda l: self.fcvt(l, wd))
        o = self.op[a]
        if o in ('sitofp', 'uitofp'):
            core = self.a[a][0]
            if self.w[core] <= FMT[ws][1] + 1 or (self.faithful and wd < ws):
                # exact first step; or both steps round to a neighbour and the second one decides
                return self.itofp(core, wd, o == 'sitofp')
        if o == 'ite':
            v, x, y = self.a[a]
            return self.ite_v(v, self.fcvt(x, wd), self.fcvt(y, wd))
        if wd < ws and o == 'fcvt' and self.w[self.a[a][0]] <= wd:
            return self.fcvt(self.a[a][0], wd)
        if o == 'cat' and self.w[self.pieces(a)[-1]] == 1 and self.is_flip(a):
            return self.fneg(self.fcvt(self.fneg(a), wd))
        if wd < ws and o == 'fmul' or wd < ws and o in ('fadd', 'fdiv'):
            # float op done in double on exactly widened operands: not narrowed here
            pass
        return self.mk('fcvt', wd, (a,))

    def itofp(self, t, wd, signed):
        w = self.w[t]
        if self.isc(t):
            v = sgn(w, self.a[t]) if signed else self.a[t]
            return self.const(wd, f_round(wd, Fraction(v)))
        if self.constleaf(t):
            return self.mapleaves(t, lambda l: self.itofp(l, wd, signed))
        if self.op[t] == 'ite':
            v, x, y = self.a[t]
            return self.ite_v(v, self.itofp(x, wd, signed), self.itofp(y, wd, signed))
        z = self.as_zext(t)
        if z != t:
            return self.itofp(z, wd, False)
        if signed:
            s = self.as_sext(t)
            if s != t:
                return self.itofp(s, wd, True)
        if signed and self.w[t] > 32:
            r = self.srange(t)
            if r and -(1 << 31) <= r[0] and r[1] < 1 << 31:
                return self.itofp(self.ext(t, 0, 32), wd, True)
        return self.mk('sitofp' if signed else 'uitofp', wd, (t,))

    def fptoi(self, a, w, signed):
        if self.isc(a):
            ws = self.w[a]
            if f_isnan(ws, self.a[a]) or f_isinf(ws, self.a[a]):
                return self.mk('fptoibad', w, (a,))
            q = f_frac(ws, self.a[a])
            v = abs(q.numerator) // q.denominator
            if q < 0:
                v = -v
            return self.const(w, v)
        if self.constleaf(a):
            return self.mapleaves(a, lambda l: self.fptoi(l, w, signed))
        if self.op[a] == 'ite':
            v, x, y = self.a[a]
            return self.ite_v(v, self.fptoi(x, w, signed), self.fptoi(y, w, signed))
        if self.op[a] == 'frnd' and self.a[a][0] == 'trunc':
            return self.fptoi(self.a[a][1], w, signed)
        if self.op[a] == 'fcvt' and self.w[self.a[a][0]] < self.w[a]:
            return self.fptoi(self.a[a][0], w, signed)
        if self.op[a] in ('sitofp', 'uitofp'):
            core = self.a[a][0]
            if self.w[core] <= FMT[self.w[a]][1] + 1:
                return self.resize(core, w, self.op[a] == 'sitofp')
            r = self.srange(core) if self.op[a] == 'sitofp' and w >= self.w[core] else None
            if r and max(-r[0], r[1]) <= 1 << (FMT[self.w[a]][1] + 1):
                return self.resize(core, w, True)
        if self.op[a] == 'fadd':
            # integer constant + integral quotient: exact, so the conversion distributes
            x, y = self.a[a]
            if self.isc(y):
                x, y = y, x
            ws = self.w[a]
            if self.isc(x) and self.op[y] == 'frnd' and self.fprange == (0, M(32)) and ws == 64 and w == 32 and \
                    self.a[x] == f_round(64, Fraction(-(1 << 31))):
                # biased conversion; out of range only for -1 < x < 0, where the indefinite value is the bias itself
                return self.bxor(self.fptoi(self.a[y][1], 32, False), self.const(32, 1 << 31))
            if self.isc(x) and self.op[y] == 'frnd' and self.op[self.a[y][1]] == 'fdiv' and \
                    not f_isnan(ws, self.a[x]) and not f_isinf(ws, self.a[x]):
                q = f_frac(ws, self.a[x])
                d = self.a[y][1]
                n, m = self.a[d]
                ok = all(self.op[z] == 'uitofp' or (self.isc(z) and self.a[z] >> (ws - 1) == 0) for z in (n, m))
                if q.denominator == 1 and abs(q) < 1 << (FMT[ws][1] - 1) and \
                        (self.a[y][0] == 'trunc' or (ok and self.a[y][0] == 'floor')):
                    i = self.fptoi(d, 64, True)
                    if self.op[i] not in ('ext', 'fptoi') or not (self.op[i] == 'fptoi'):
                        return self.ext(self.add(i, self.const(64, int(q))), 0, w)
        if self.op[a] == 'fdiv':
            x, y = self.a[a]
            if self.op[x] in ('sitofp', 'uitofp') and self.op[y] == self.op[x]:
                cx, cy = self.a[x][0], self.a[y][0]
                n = max(self.w[cx], self.w[cy])
                # quotient of n-bit integers truncates correctly when the
                # significand has at least n+1 bits
                if n <= FMT[self.w[a]][1] + 1:
                    sg = self.op[x] == 'sitofp'
                    q = self.idiv('sdiv' if sg else 'udiv', self.resize(cx, n, sg), self.resize(cy, n, sg))
                    return self.resize(q, w, sg)
            for xx, yy in ((x, y),):
                if self.isc(xx) and self.op[yy] in ('sitofp', 'uitofp') or \
                        self.isc(yy) and self.op[xx] in ('sitofp', 'uitofp'):
                    s = self.op[yy] if self.isc(xx) else self.op[xx]
                    core = self.a[yy][0] if self.isc(xx) else self.a[xx][0]
                    c = xx if self.isc(xx) else yy
                    ws = self.w[a]
                    if not f_isnan(ws, self.a[c]) and not f_isinf(ws, self.a[c]):
                        q = f_frac(ws, self.a[c])
                        n = self.w[core]
                        sg = s == 'sitofp'
                        if q.denominator == 1 and n <= FMT[ws][1] + 1:
                            v = q.numerator
                            if (-(1 << (n - 1)) <= v < (1 << (n - 1))) if sg else (0 <= v < (1 << n)):
                                cc = self.const(n, v)
                                q = self.idiv('sdiv' if sg else 'udiv', cc if self.isc(xx) else core,
                                              core if self.isc(xx) else cc)
                                return self.resize(q, w, sg)
        if w == 64 and not signed:
            return self.mk('fptou', 64, (a,))
        if w <= 32 and (signed or w < 32):
            r = self.fprange
            if r is None or r[0] < -(1 << 31) or r[1] >= (1 << 31):
                return self.ext(self.mk('fptoi32', 32, (a,)), 0, w)
        return self.ext(self.mk('fptoi', 64, (a,)), 0, w)

    def idiv(self, op, a, b):
        w = self.w[a]
        if a == b and not self.isc(a):
            return self.const(w, 1 if op[1:] == 'div' else 0)
        if self.isc(a) and not self.isc(b) and not self.a[a] >> (w - 1) or op[0] == 'u' and self.isc(a) and not self.isc(b):
            zb = self.as_zext(b)
            n = max(self.w[zb], self.a[a].bit_length(), 1)
            if zb != b and n < w:
                return self.zext(self.idiv('u' + op[1:], self.ext(a, 0, n), self.ext(b, 0, n)), w)
        if self.isc(a) and not self.isc(b) and self.a[a] == 0 and op[1:] == 'div':
            return a                    # the divisor is not zero
        if self.isc(a) and not self.isc(b) and self.a[a] == 1 and op[1:] == 'div' and w > 2:
            if op[0] == 'u':
                return self.ite(self.eq(b, a), a, self.const(w, 0))
            return self.ite(self.ult(self.add(b, a), self.const(w, 3)), b, self.const(w, 0))
        if self.isc(a) and self.isc(b) and self.a[b]:
            x, y = self.a[a], self.a[b]
            if op[0] == 's':
                x, y = sgn(w, x), sgn(w, y)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            r = x - q * y
            return self.const(w, q if op[1:] == 'div' else r)
        # cores
        if op[0] == 's':
            n = max(self.w[self.as_sext(a)] if not self.isc(a) else self.sminw(a),
                    self.w[self.as_sext(b)] if not self.isc(b) else self.sminw(b))
            za, zb = self.as_zext(a), self.as_zext(b)
            if za != a and (zb != b or (self.isc(b) and not self.a[b] >> (w - 1))):
                n = max(self.w[za], self.w[zb] if not self.isc(b) else self.a[b].bit_length())
                n = max(n, 1)
                if n < w:
                    return self.zext(self.idiv('u' + op[1:], self.ext(a, 0, n), self.ext(b, 0, n)), w)
            if n < w:
                if op[1:] == 'rem':
                    return self.sext(self.idiv(op, self.ext(a, 0, n), self.ext(b, 0, n)), w)
                # -2^(n-1) / -1 overflows the narrow type; the wide quotient is exact.
                q = self.mk('sdiv', n, (self.ext(a, 0, n), self.ext(b, 0, n)))
                q = self.idiv('sdiv', self.ext(a, 0, n), self.ext(b, 0, n))
                return self.sext(q, w)
        else:
            za, zb = self.as_zext(a), self.as_zext(b)
            n = max(self.w[za], self.w[zb])
            if self.isc(b):
                n = max(self.w[za], self.a[b].bit_length())
            if n < w and za != a:
                return self.zext(self.idiv(op, self.ext(a, 0, n), self.ext(b, 0, n)), w)
        if self.isc(b) and self.a[b] == 1:
            return a if op[1:] == 'div' else self.const(w, 0)
        if op[0] == 'u' and self.isc(b) and self.a[b] & (self.a[b] - 1) == 0 and self.a[b]:
            n = self.a[b].bit_length() - 1
            return self.lshrc(a, n) if op == 'udiv' else self.zext(self.ext(a, 0, n), w) if n else self.const(w, 0)
        if op[0] == 's' and self.isc(b) and self.a[b] & (self.a[b] - 1) == 0 and 1 < self.a[b] < 1 << (w - 1):
            k = self.a[b].bit_length() - 1
            bias = self.lin(w, 0, [(self.ext(a, w - 1, 1), M(k), False)])
            t = self.add(a, bias)
            if op == 'sdiv':
                return self.ashrc(t, k)
            return self.sub(self.zext(self.ext(t, 0, k), w), bias)
        if op[1:] == 'div' and self.isc(b) and 2 < (self.a[b] if op[0] == 'u' else abs(sgn(w, self.a[b]))) < 1 << (w - 1):
            if op == 'udiv':
                return self.zext(self.ext(self.mk(op, w, (a, b)), 0, w - self.a[b].bit_length() + 1), w)
            if sgn(w, self.a[b]) < 0:
                return self.neg(self.idiv(op, a, self.const(w, -self.a[b])))
            return self.add(self.sfdiv(a, b), self.zext(self.ext(a, w - 1, 1), w))
        if op[1:] == 'rem':
            q = self.idiv(op[0] + 'div', a, b)
            return self.sub(a, self.mul(q, b))
        return self.mk(op, w, (a, b))

    def sfdiv(self, a, b):
        """a / b, less one for negative a, by a constant b > 1 that is no power of two: what a multiplication and a shift give"""
        w = self.w[a]
        n = w - self.a[b].bit_length() + 1
        return self.sext(self.ext(self.mk('sfdiv', w, (a, b)), 0, n), w)

    def sminw(self, c):
        w, v = self.w[c], sgn(self.w[c], self.a[c])
        n = 1
        while not (-(1 << (n - 1)) <= v < (1 << (n - 1))):
            n += 1
        return n

    # -- counting
    def popcnt(self, t, w):
        return self.lin(w, 0, [(b, 1, True) for b in self.bits(t)])

    def ctz(self, t, w, zero=None):
        n = self.w[t]
        r = self.const(w, n if zero is None else zero)
        for i in range(n - 1, -1, -1):
            r = self.ite(self.bit(t, i), self.const(w, i), r)
        return r

    def clz(self, t, w, zero=None):
        n = self.w[t]
        r = self.const(w, n if zero is None else zero)
        for i in range(n):
            r = self.ite(self.bit(t, i), self.const(w, n - 1 - i), r)
        return r

    def call(self, name, w, args):
        if name in ('fmin', 'fmax'):        # commutative (which zero is returned is not specified)
            args = sorted(args)
        return self.mk('call', w, (name,) + tuple(args))

    # -- rebuild with substitution
    def rebuild(self, op, w, a):
        if op == 'cat':
            return self.cat(a)
        if op == 'ext':
            return self.ext(a[0], a[1], w)
        if op in ('and', 'or', 'xor'):
            r = a[0]
            for x in a[1:]:
                r = self.bitop(op, r, x)
            return r
        if op == 'mul':
            r = a[0]
            for x in a[1:]:
                r = self.mul(r, x)
            return r
        if op in ('smin', 'smax', 'umin', 'umax'):
            r = a[0]
            for x in a[1:]:
                r = self.minmax(op, r, x)
            return r
        if op == 'sfdiv':
            return self.sfdiv(*a) if not self.isc(a[0]) else self.idiv('sdiv', *a) if not self.a[a[0]] >> (w - 1) else self.sub(self.idiv('sdiv', *a), self.const(w, 1))
        if op in ('sdiv', 'udiv'):
            return self.idiv(op, a[0], a[1])
        if op in ('shl', 'lshr', 'ashr'):
            return self.shift(op, a[0], a[1])
        if op in ('shls', 'lshrs', 'ashrs'):
            return self.shift(op[:-1], a[0], a[1], 'sat')
        if op in ('fadd', 'fmul', 'fdiv'):
            return self.f2(op, a[0], a[1])
        if op in ('nfadd', 'nfmul'):
            r = a[0]
            for x in a[1:]:
                r = self.f2(op[1:], r, x)
            return r
        if op in ('nfmin', 'nfmax'):
            r = a[0]
            for x in a[1:]:
                r = self.fmm(op, r, x)
            return r
        if op == 'fma':
            return self.fma(*a)
        if op == 'sqrt':
            return self.sqrt(a[0])
        if op == 'frnd':
            return self.frnd(a[0], a[1])
        if op == 'fcvt':
            return self.fcvt(a[0], w)
        if op in ('sitofp', 'uitofp'):
            return self.itofp(a[0], w, op == 'sitofp')
        if op == 'fptoi':
            return self.fptoi(a[0], 64, True)
        if op == 'fptoi32':
            return self.fptoi(a[0], 32, True)
        if op == 'fptou':
            return self.fptoi(a[0], 64, False)
        return self.mk(op, w, a)

    def pred(self, p):
        k = p[0]
        if k == 'bit':
            return self.ext(p[1], p[2], 1)
        if k == 'eq':
            return self.eq(p[1], p[2])
        if k in ('slt', 'ult'):
            return self.cmp(k, p[1], p[2])
        if k == 'fun':
            return self.fun(p[2])
        if k == 'fE':
            return self.fcmp3(p[2], p[3])[1]
        if k == 'fL':
            return self.fcmp3(p[2], p[3])[2]
        return self.bvar(p)

    SCALARARGS = {'frnd': (0,), 'call': (0,), 'ovshift': (0, 2)}

    def args(self, t):
        """child term ids of an opaque node"""
        o, a = self.op[t], self.a[t]
        if o in ('c', 'atom'):
            return ()
        if o == 'cat':
            return a
        if o == 'ext':
            return (a[0],)
        if o == 'ite':
            p = self.vars[a[0]]
            return (a[1], a[2]) + self.predargs(p)
        if o == 'lin':
            return tuple(x for x, _, _ in a[1])
        sk = self.SCALARARGS.get(o, ())
        return tuple(x for i, x in enumerate(a) if i not in sk)

    def predargs(self, p):
        if p[0] == 'bit':
            return (p[1],)
        if p[0] in ('eq', 'slt', 'ult'):
            return p[1:]
        if p[0] == 'fun':
            return (p[2],)
        if p[0] in ('fE', 'fL'):
            return p[2:]
        return ()

    def subst(self, t, vmap, amap=None, memo=None):
        """substitute bool variables (var->0/1/term) and atoms (id->id)"""
        if memo is None:
            memo = {}
        amap = amap or {}

        def p_sub(p):
            k = p[0]
            if k == 'bit':
                return ('bit', go(p[1]), p[2])
            if k in ('eq', 'slt', 'ult'):
                return (k, go(p[1]), go(p[2]))
            if k == 'fun':
                return (k, p[1], go(p[2]))
            if k in ('fE', 'fL'):
                return (k, p[1], go(p[2]), go(p[3]))
            return p

        def go(t):
            r = memo.get(t)
            if r is not None:
                return r
            if t in amap:
                return amap[t]
            o, a, w = self.op[t], self.a[t], self.w[t]
            if o in ('c', 'atom'):
                r = t
            elif o == 'ite':
                v = a[0]
                if v in vmap:
                    x = vmap[v]
                    r = go(a[1]) if x == 1 else go(a[2]) if x == 0 else None
                    assert r is not None
                else:
                    p = self.vars[v]
                    q = p_sub(p)
                    c = self.pred(q) if q != p else self.mk('ite', 1, (v, self.T, self.F))
                    if q != p and vmap and self.topvars(c) & vmap.keys():
                        c = go(c)
                    r = self.ite(c, go(a[1]), go(a[2]))
            elif o == 'ext':
                r = self.ext(go(a[0]), a[1], w)
            elif o == 'cat':
                r = self.cat([go(x) for x in a])
            elif o == 'lin':
                r = self.lin(w, a[0], [(go(x), k, z) for x, k, z in a[1]])
            elif self.expandmm and o in ('smin', 'smax', 'umin', 'umax') and len(a) <= 3:
                r = go(a[0])
                lt = self.slt if o[0] == 's' else self.ult
                for x in a[1:]:
                    x = go(x)
                    r = self.ite(lt(r, x), x, r) if o[1:] == 'max' else self.ite(lt(r, x), r, x)
            else:
                sk = self.SCALARARGS.get(o, ())
                b = tuple(x if i in sk else go(x) for i, x in enumerate(a))
                r = t if b == a else self.rebuild(o, w, b)
            memo[t] = r
            return r
        return go(t)

    def topvars(self, c):
        """variables a bool term branches on"""
        out, st, seen = set(), [c], set()
        while st:
            t = st.pop()
            if self.op[t] == 'ite' and t not in seen:
                seen.add(t)
                out.add(self.a[t][0])
                st += self.a[t][1:]
        return out

    expandmm = False

    def minmax_expanded(self, t):
        """min/max written as selections"""
        self.expandmm = True
        try:
            return self.subst(t, {})
        finally:
            self.expandmm = False

    def allvars(self, ts):
        seen = set()
        vs = set()
        st = list(ts)
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if self.op[t] == 'ite':
                vs.add(self.a[t][0])
            st.extend(self.args(t))
        return vs

    def atoms(self, ts):
        seen = set()
        out = set()
        st = list(ts)
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if self.op[t] == 'atom':
                out.add((t, self.w[t], self.a[t]))
            if self.op[t] == 'ite':
                p = self.vars[self.a[t][0]]
                if p[0] == 'atom':
                    out.add((t if False else ('b', p[1]), 1, p[1]))
            st.extend(self.args(t))
        return out

    # -- constant propagation of a valuation through a term
    def eval(self, t, env, memo):
        r = memo.get(t)
        if r is not None:
            return r
        o, a, w = self.op[t], self.a[t], self.w[t]
        E = lambda x: self.eval(x, env, memo)
        if o == 'c':
            r = a
        elif o == 'atom':
            r = env[a] & M(w)
        elif o == 'cat':
            r = 0
            pos = 0
            for p in a:
                r |= E(p) << pos
                pos += self.w[p]
        elif o == 'ext':
            r = (E(a[0]) >> a[1]) & M(w)
        elif o == 'ite':
            # iterative walk
            x = t
            while self.op[x] == 'ite':
                v, p, q = self.a[x]
                x = p if self.evalpred(v, env, memo) else q
            r = E(x)
        elif o == 'lin':
            r = a[0] + sum(k * E(x) for x, k, z in a[1])
            r &= M(w)
        elif o in ('and', 'or', 'xor', 'mul'):
            r = E(a[0])
            for x in a[1:]:
                y = E(x)
                r = r & y if o == 'and' else r | y if o == 'or' else r ^ y if o == 'xor' else (r * y) & M(w)
        elif o in ('smin', 'smax', 'umin', 'umax'):
            vs = [E(x) for x in a]
            key = (lambda z: sgn(w, z)) if o[0] == 's' else (lambda z: z)
            r = min(vs, key=key) if o[1:] == 'min' else max(vs, key=key)
        elif o in ('sdiv', 'udiv'):
            x, y = E(a[0]), E(a[1])
            if y == 0:
                raise Poison()
            if o == 'sdiv':
                x, y = sgn(w, x), sgn(w, y)
                if w >= 32 and x == -(1 << (w - 1)) and y == -1:
                    raise Poison()
            q = abs(x) // abs(y)
            r = (-q if (x < 0) != (y < 0) else q) & M(w)
        elif o == 'sfdiv':
            x, y = sgn(w, E(a[0])), E(a[1])
            r = (-(-x // y) - 1 if x < 0 else x // y) & M(w)
        elif o in ('shl', 'lshr', 'ashr', 'shls', 'lshrs', 'ashrs'):
            x, n = E(a[0]), E(a[1])
            if n >= w:
                if o[-1] != 's':
                    raise Poison()
                r = M(w) if o == 'ashrs' and x >> (w - 1) else 0
            elif o.startswith('shl'):
                r = (x << n) & M(w)
            elif o.startswith('lshr'):
                r = x >> n
            else:
                r = (sgn(w, x) >> n) & M(w)
        elif o in ('fadd', 'fmul', 'fdiv'):
            r = {'fadd': f_add, 'fmul': f_mul, 'fdiv': f_div}[o](w, E(a[0]), E(a[1]))
        elif o in ('nfadd', 'nfmul'):
            r = E(a[0])
            for x in a[1:]:
                r = (f_add if o == 'nfadd' else f_mul)(w, r, E(x))
        elif o in ('nfmin', 'nfmax'):
            r = E(a[0])
            for x in a[1:]:
                x = E(x)
                if (f_lt(w, x, r) if o == 'nfmin' else f_lt(w, r, x)):
                    r = x
        elif o == 'fma':
            r = f_fma(w, E(a[0]), E(a[1]), E(a[2]))
        elif o == 'sqrt':
            r = f_sqrt(w, E(a[0]))
        elif o == 'frnd':
            r = f_rnd(w, E(a[1]), a[0])
        elif o == 'fcvt':
            r = f_cvt(w, self.w[a[0]], E(a[0]))
        elif o in ('sitofp', 'uitofp'):
            x = E(a[0])
            ws = self.w[a[0]]
            r = f_round(w, Fraction(sgn(ws, x) if o[0] == 's' else x))
        elif o in ('fptoi', 'fptou', 'fptoi32'):
            x = E(a[0])
            ws = self.w[a[0]]
            lo, hi = {'fptoi': (-(1 << 63), (1 << 63) - 1), 'fptou': (0, M(64)),
                      'fptoi32': (-(1 << 31), (1 << 31) - 1)}[o]
            if f_isnan(ws, x) or f_isinf(ws, x):
                if self.fprange:
                    raise Poison()
                r = lo & M(w) if o != 'fptou' else M(64)
            else:
                q = f_frac(ws, x)
                v = abs(q.numerator) // q.denominator
                v = -v if q < 0 else v
                if self.fprange and not (self.fprange[0] <= v <= self.fprange[1]):
                    raise Poison()
                r = v & M(w) if lo <= v <= hi else (lo & M(w) if o != 'fptou' else M(64))
        elif o == 'call':
            vals = tuple(E(x) for x in a[1:])
            import zlib
            r = zlib.crc32(repr((a[0], vals)).encode())
            r = (r | (r << 32)) & M(w)
        elif o in ('ovshift', 'fptoibad'):
            raise Poison()
        else:
            raise NotImplementedError(o)
        memo[t] = r
        return r

    def evalpred(self, v, env, memo):
        k = ('p', v)
        r = memo.get(k)
        if r is not None:
            return r
        p = self.vars[v]
        E = lambda x: self.eval(x, env, memo)
        if p[0] == 'bit':
            r = (E(p[1]) >> p[2]) & 1
        elif p[0] == 'atom':
            r = env[p[1]] & 1
        elif p[0] == 'eq':
            r = E(p[1]) == E(p[2])
        elif p[0] == 'slt':
            w = self.w[p[1]]
            r = sgn(w, E(p[1])) < sgn(w, E(p[2]))
        elif p[0] == 'ult':
            r = E(p[1]) < E(p[2])
        elif p[0] == 'fun':
            r = f_isnan(p[1], E(p[2]))
        elif p[0] == 'fE':
            r = f_eq(p[1], E(p[2]), E(p[3]))
        elif p[0] == 'fL':
            if self.facmm and f_eq(p[1], E(p[2]), E(p[3])):
                raise Poison()          # ties are decided either way in this mode
            r = f_lt(p[1], E(p[2]), E(p[3]))
        else:
            raise NotImplementedError(p[0])
        r = int(bool(r))
        memo[k] = r
        return r

    # -- printing
    def show(self, t, depth=5):
        o, a, w = self.op[t], self.a[t], self.w[t]
        if o == 'c':
            return '0x%x:%d' % (a, w)
        if o == 'atom':
            return a
        if depth == 0:
            return '..'
        s = lambda x: self.show(x, depth - 1)
        if o == 'ite':
            v, x, y = a
            if w == 1 and x == self.T and y == self.F:
                return self.showp(v, depth - 1)
            return '(%s ? %s : %s)' % (self.showp(v, depth - 1), s(x), s(y))
        if o == 'ext':
            return '%s[%d+:%d]' % (s(a[0]), a[1], w)
        if o == 'cat':
            return '{' + ', '.join(s(x) for x in a[:6]) + ('..%d' % len(a) if len(a) > 6 else '') + '}'
        if o == 'lin':
            return '(' + ' + '.join(('%s%s' % ('' if k == 1 else '%d*' % sgn(w, k), s(x))) for x, k, z in a[1][:60]) + \
                ('..' if len(a[1]) > 60 else '') + (' + %d' % sgn(w, a[0]) if a[0] else '') + ')'
        sk = self.SCALARARGS.get(o, ())
        return '%s(%s)' % (o, ', '.join(str(x) if i in sk else s(x) for i, x in enumerate(a)))

    def showp(self, v, depth):
        p = self.vars[v]
        if p[0] == 'bit':
            return '%s.%d' % (self.show(p[1], depth), p[2])
        if p[0] == 'atom':
            return str(p[1])
        return '%s(%s)' % (p[0], ', '.join(self.show(x, depth) for x in self.predargs(p)))
