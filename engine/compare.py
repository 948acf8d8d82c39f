"""Obligation checking: normal form of the library's result against the normal
form of the scalar reference, on the same symbolic inputs.

Verdicts: 'ok' (normal forms coincide), 'alarm' (they differ and constant
propagation of a concrete valuation through both forms yields different
results), 'undecided' (they differ, no distinguishing valuation found).
"""
import itertools, random
from terms import (Ctx, M, Poison, TooBig, FMT, f_isnan, f_inf, f_nan, f_round, f_frac, sgn)
from fractions import Fraction
import gimple, interp
from x86 import Unsupported


class Param:
    def __init__(self, name, kind, width, count, out):
        self.name, self.kind, self.width, self.count, self.out = name, kind, width, count, out
        self.stride = 128 if width == 80 else width


def run_fn(mod, types, fn, c, params):
    ex = interp.Exec(mod, types, c)
    regs = {}
    args = []
    for (pn, pt), p in zip(fn.params, params):
        nm = p.name
        if p.count is None:                # scalar parameter
            args.append(c.zext(c.atom(1, nm), 8) if p.kind == 'b' else c.atom(p.width, nm))
            continue
        r = interp.Region(c, nm, 'param', elem=p.stride)
        r.boolean = p.kind == 'b'
        r.size = p.count * p.stride // 8
        regs[nm] = r
        args.append(interp.Ptr(r, c.const(64, 0)))
    if len(args) != len(fn.params):
        raise Unsupported('parameter count of ' + fn.name)
    ret = ex.call(fn, args, c.T)
    return regs, ret, ex


def footprint(c, r, kind):
    """{byte: guard} of accesses of the given kind"""
    out = {}
    for k, lo, w, g, al, note in r.log:
        if k != kind or w == 0:
            continue
        for b in range(lo // 8, (lo + w + 7) // 8):
            o = out.get(b)
            out[b] = g if o is None else (c.or1(o, g))
    return out


SHOWD = 6
SPEC_F = {}


def fspecials(w):
    if w not in SPEC_F:
        e, m = FMT[w]
        one = M(e - 1) << m
        L = [0, 1 << (w - 1), one, one | 1 << (w - 1), f_inf(w), f_inf(w, 1), f_nan(w), f_nan(w) | 1 << (w - 1),
             1, 1 | 1 << (w - 1), M(m), 1 << m, f_inf(w) - 1, (f_inf(w) - 1) | 1 << (w - 1), one + 1, one - 1]
        for q in (Fraction(1, 2), Fraction(3, 2), Fraction(5, 2), 2, 3, 7, 127, 128, 255, 256, 65535, 32768,
                  (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 53) + 2, 1 << 62, 1 << 63, 1 << (m), (1 << m) + 1,
                  Fraction(1 << (m - 1)) + Fraction(1, 2), Fraction(1, 3)):
            v = f_round(w, Fraction(q))
            L += [v, v | (1 << (w - 1))]
        SPEC_F[w] = L
    return SPEC_F[w]


def ispecials(w):
    return [0, 1, M(w), 1 << (w - 1), M(w - 1), 2, M(w) - 1, (1 << (w - 1)) + 1, M(w - 1) - 1, 7, w - 1, w, w + 1, 3, 255 & M(w),
            128 & M(w), 0x5555555555555555 & M(w), 10] + ([(-(1 << 40) - 1) & M(64), (1 << 53) + 1, (1 << 24) + 1, (1 << 33) - 1,
                                                           (-(1 << 40) - 1 - (1 << 17)) & M(64), (1 << 63) + 1025] if w == 64 else [])


class Judge:
    TRIALS = 260

    def __init__(self, c, kinds, mode, seed):
        self.c, self.kinds, self.mode = c, kinds, mode
        self.seed = seed
        self.enum = mode.get('enum', {})   # inputs whose (small) domain is enumerated by substitution

    def consts(self, ts):
        c = self.c
        out = {}
        seen = set()
        st = list(ts)
        while st and len(seen) < 20000:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if c.op[t] == 'c':
                out.setdefault(c.w[t], set()).add(c.a[t])
            st.extend(c.args(t))
        return {w: sorted(s)[:40] for w, s in out.items()}

    def pickval(self, rnd, name, w, consts, style):
        if name.startswith('?'):
            return rnd.getrandbits(w)
        base = name.split('[')[0]
        rng = self.enum.get(base)
        if rng:
            return rnd.randint(*rng) & M(w)
        kind = self.kinds.get(base, ('u', w))[0]
        if kind == 'b' or w == 1:
            return rnd.getrandbits(1)
        if kind == 'f' and w in FMT:
            if self.mode.get('ac') == 'mul':
                return f_round(w, Fraction(2) ** rnd.randint(-3, 2)) | (rnd.getrandbits(1) << (w - 1))
            if self.mode.get('ac') or self.mode.get('small'):
                return f_round(w, Fraction(rnd.randint(1, 99))) | (rnd.getrandbits(1) << (w - 1))
            cs = consts.get(w)
            x = rnd.random()
            if style == 0 or x < .45:
                v = rnd.choice(fspecials(w))
            elif x < .6 and cs:
                v = (rnd.choice(cs) + rnd.choice((0, 0, 1, -1))) & M(w)
                if rnd.random() < .3:
                    v ^= 1 << (w - 1)
            elif x < .8:
                v = f_round(w, Fraction(rnd.randint(-2000, 2000), rnd.choice((1, 2, 4, 8, 3))))
            else:
                v = rnd.getrandbits(w)
            if self.mode.get('finite'):
                e, m = FMT[w]
                if (v >> m) & M(e) == M(e):
                    v = f_round(w, Fraction(rnd.randint(-9, 9)))
            if self.mode.get('nonan') and f_isnan(w, v):
                v = f_inf(w, rnd.getrandbits(1))
            return v
        cs = consts.get(w)
        x = rnd.random()
        if style == 0 or x < .4:
            return rnd.choice(ispecials(w))
        if x < .55 and cs:
            return (rnd.choice(cs) + rnd.choice((0, 0, 1, -1))) & M(w)
        if x < .75:
            return rnd.randint(-130, 130) & M(w)
        return rnd.getrandbits(w)

    def same(self, x, y, w, isf):
        if x == y:
            return True
        if isf and w in FMT and f_isnan(w, x) and f_isnan(w, y):
            return True
        if isf and self.mode.get('zeroeq') and (x | y) & M(w - 1) == 0:
            return True
        return False

    def calls(self, ts):
        c = self.c
        out = set()
        seen = set()
        st = list(ts)
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if c.op[t] == 'call':
                out.add(c.a[t][0])
            st.extend(c.args(t))
        return out

    def witness(self, got, exp, isf, care=None):
        """valuation on which the two terms differ"""
        c = self.c
        if self.calls([got]) != self.calls([exp]):
            return None
        at = c.atoms([got, exp] + ([care] if care is not None else []))
        cs = self.consts([got, exp])
        rnd = random.Random(self.seed)
        w = c.w[got]
        names = sorted({(n, aw) for _, aw, n in at})
        for trial in range(self.TRIALS):
            style = trial % 3
            env = {n: self.pickval(rnd, n, aw, cs, style) for n, aw in names}
            if trial % 7 == 3:
                v = {}
                for n, aw in names:
                    k = n.split('[')[0], aw
                    env[n] = v.setdefault(aw, env[n])
            try:
                memo = {}
                if care is not None and not c.eval(care, env, memo):
                    continue
                y = c.eval(exp, env, memo)
                x = c.eval(got, env, memo)
            except Poison:
                continue
            except NotImplementedError:
                return None
            if self.mode.get('faithful') and isf and c.op[exp] in ('sitofp', 'uitofp'):
                core = c.a[exp][0]
                z = c.eval(core, env, memo)
                z = Fraction(sgn(c.w[core], z) if c.op[exp] == 'sitofp' else z)
                near = f_frac(w, y)        # nearest; the other admissible value lies on the other side of z
                other = y if near == z else (y + 1 if (near < z) == (near >= 0) else y - 1)
                if x in (y, other):
                    continue
            if not self.same(x, y, w, isf):
                return {'inputs': {n: hex(v) for n, v in env.items()}, 'got': hex(x), 'expected': hex(y)}
        return None

    def equal(self, got, exp, isf, care=None):
        """-> ('ok'|'undecided'|'alarm', witness)"""
        c = self.c
        if got == exp:
            return 'ok', None
        if care is not None and c.ite(care, got, exp) == exp:
            return 'ok', None
        w = c.w[got]
        if self.enum:
            ats = sorted({(t, aw, n) for t, aw, n in c.atoms([got, exp]) if n.split('[')[0] in self.enum}, key=str)
            doms = [range(self.enum[n.split('[')[0]][0], self.enum[n.split('[')[0]][1] + 1) for t, aw, n in ats]
            size = 1
            for d in doms:
                size *= len(d)
            if size <= 4096 and all(self.split(c.subst(got, {}, am), c.subst(exp, {}, am), 0, {}, isf)
                                    for vals in itertools.product(*doms)
                                    for am in [{t: c.const(aw, v) for (t, aw, n), v in zip(ats, vals)}]):
                return 'ok', None
        elif self.split(got, exp, 0, {}, isf, care):
            return 'ok', None
        elif care is None:
            g, e = c.minmax_expanded(got), c.minmax_expanded(exp)
            if (g, e) != (got, exp) and (g == e or self.split(g, e, 0, {}, isf)):
                return 'ok', None
            if self.byregion(got, exp, isf):
                return 'ok', None
        wit = self.witness(got, exp, isf, care)
        if wit:
            return 'alarm', wit
        return 'undecided', None

    def split(self, got, exp, depth, vm, isf, care=None):
        """case split over the shared predicates by substitution"""
        c = self.c
        if got == exp:
            return True
        if isf and self.nanboth(got, exp):
            return True
        if 1 < c.w[got] <= 64 and not isf and all(c.ext(got, i, 1) == c.ext(exp, i, 1) for i in range(c.w[got])):
            return True
        if depth > 14 or self.budget <= 0:
            return False
        self.budget -= 1
        vs = c.allvars([got, exp])
        if not vs:
            return False
        v = min(vs, key=lambda v: (self.nest(v), v))
        for val in (0, 1):
            care2 = None
            if care is not None:
                care2 = c.subst(care, {v: val})
                if care2 == c.F:
                    continue
            if self.contradiction(vm, v, val):
                continue
            vm2 = dict(vm)
            vm2[v] = val
            m = self.implied(vm2, v, val)
            if m is None:
                continue
            vm2.update(m)
            g, e = c.subst(got, vm2), c.subst(exp, vm2)
            if not self.split(g, e, depth + 1, vm2, isf, care2):
                return False
        return True

    budget = 3000

    # -- exact partition of one float input by the constants it is compared with
    def xbase(self, t):
        """the atom of float width that t consists of slices of (with constants), 0 if constant, None otherwise"""
        c = self.c
        base = 0
        for q in c.pieces(t):
            if c.op[q] == 'c':
                continue
            s = c.slice_of(q)
            if s is None or c.op[s[0]] != 'atom' or base not in (0, s[0]) or c.w[s[0]] not in FMT:
                return None
            base = s[0]
        return base

    def regions(self, got, exp):
        """(atom, [(valuation of the predicates, representative, single)]): the comparisons of one atom with
        constants are constant on every region"""
        c = self.c
        by = {}
        for v in c.allvars([got, exp]):
            p = c.vars[v]
            bs = [self.xbase(t) for t in c.predargs(p)]
            ats = {b for b in bs if b}
            if None in bs or len(ats) != 1:
                continue
            by.setdefault(ats.pop(), []).append(v)
        best = None
        for X in sorted(by):
            w = c.w[X]
            e, m = FMT[w]
            name = c.a[X]
            vs, ths = [], {0, 1}
            for v in by[X]:
                p = c.vars[v]
                if p[0] == 'bit':
                    if p[1] == X and p[2] == w - 1:
                        vs.append(v)
                    continue
                if p[0] == 'fun':
                    if p[1] == w and not any(q != X and c.ext(q, 0, w - 1) != c.ext(X, 0, w - 1) for q in c.predargs(p)):
                        ths |= {f_inf(w), f_inf(w) + 1}
                        vs.append(v)
                    continue
                a, b = c.predargs(p)
                if c.isc(b):
                    t, k = a, c.a[b]
                elif c.isc(a):
                    t, k = b, c.a[a]
                else:
                    continue
                if p[0] in ('fE', 'fL'):
                    if p[1] == w and c.ext(t, 0, w - 1) == c.ext(X, 0, w - 1):
                        k &= M(w - 1)
                        ths |= {k, k + 1, 0, 1, f_inf(w), f_inf(w) + 1}
                        vs.append(v)
                    continue
                # integer comparison: t has to grow with the magnitude of X
                ps = [q for q in c.pieces(t) if c.op[q] != 'c']
                if len(ps) == 1 and ps[0] != X and c.op[ps[0]] == 'ext' and sum(c.slice_of(ps[0])[1:]) > w - 1:
                    continue        # a slice with the sign bit on top: sign is fixed in a region, still monotone
                if not ps or sum(c.slice_of(ps[-1])[1:]) < w - 1 or len(ps) > 2:
                    continue
                if len(ps) == 2 and c.slice_of(ps[-1])[1] != w - 1:
                    continue
                if sum(c.slice_of(ps[0])[1:]) < w - 1:
                    continue
                sg = p[0] == 'slt'
                for s in (0, 1):
                    for strict in (0, 1):
                        lo, hi = 0, 1 << (w - 1)        # smallest magnitude with value >= k (> k)
                        while lo < hi:
                            mid = (lo + hi) // 2
                            x = c.eval(t, {name: s << (w - 1) | mid}, {})
                            y = k
                            if sg:
                                x, y = sgn(c.w[t], x), sgn(c.w[t], y)
                            if x > y or (x == y and not strict):
                                hi = mid
                            else:
                                lo = mid + 1
                        ths.add(lo)
                vs.append(v)
            if not vs or len(vs) < 1:
                continue
            if best is None or len(vs) > len(best[1]):
                best = X, vs, ths
        if best is None:
            return None
        X, vs, ths = best
        w, name = c.w[X], c.a[X]
        top = 1 << (w - 1)
        fin = self.mode.get('finite') and self.kinds.get(name.split('[')[0], ('u', w))[0] == 'f'
        if fin:                 # no input is an infinity or NaN
            top = f_inf(w)
        cut = sorted(t for t in ths if t < top)
        out = []
        for s in (0, 1):
            for i, lo in enumerate(cut):
                n = (cut[i + 1] if i + 1 < len(cut) else top) - lo
                rep = s << (w - 1) | lo
                memo = {}
                out.append(({v: c.evalpred(v, {name: rep}, memo) for v in vs}, rep, n, s))
        return X, out

    def byregion(self, got, exp, isf, depth=0):
        if self.budget <= 0:
            return False
        try:
            R = self.regions(got, exp)
        except Poison:
            R = None
        if R is None:
            return False
        c = self.c
        X, rs = R
        w = c.w[X]
        for m, rep, n, s in rs:
            if n == 1:
                g, e = c.subst(got, {}, {X: c.const(w, rep)}), c.subst(exp, {}, {X: c.const(w, rep)})
            else:
                m = dict(m)
                sv = c.vtab.get(('bit', X, w - 1))
                if sv is not None:
                    m[sv] = s
                # the bits common to all members, and what equality with the others' bits is then impossible
                k = (rep ^ (rep + n - 1)).bit_length()
                low = c.ext(X, 0, k)
                xs = {X: c.cat([low, c.const(w - k, rep >> k)])}
                g, e = c.subst(got, m, xs), c.subst(exp, m, xs)
                no = {}
                for v in c.allvars([g, e]):
                    p = c.vars[v]
                    if p[0] == 'eq' and low in p[1:3]:
                        q = p[2] if p[1] == low else p[1]
                        if c.isc(q) and not rep & M(k) <= c.a[q] <= (rep + n - 1) & M(k):
                            no[v] = 0
                if no:
                    g, e = c.subst(g, no), c.subst(e, no)
            if g == e or (isf and self.same_term(g, e)):
                continue
            if self.split(g, e, 0, {}, isf):
                continue
            if depth < 2 and self.byregion(g, e, isf, depth + 1):
                continue
            return False
        return True

    def same_term(self, g, e):
        c = self.c
        return c.isc(g) and c.isc(e) and self.same(c.a[g], c.a[e], c.w[g], True)

    def nest(self, v):
        c = self.c
        return len(c.allvars(c.predargs(c.vars[v])))

    def contradiction(self, vm, v, val):
        return False

    def implied(self, vm, v, val):
        """the assignment with its direct consequences (float three-way predicates of the same operands)"""
        c = self.c
        p = c.vars[v]
        m = {v: val}
        if p[0] == 'fun' and val == 1:
            # an operand that is NaN compares false everywhere
            for i, q in enumerate(c.vars):
                if q[0] in ('fE', 'fL') and p[2] in q[2:]:
                    if vm.get(i) == 1:
                        return None
                    m[i] = 0
        if p[0] in ('fE', 'fL') and val == 1:
            for i, q in enumerate(c.vars):
                if q[0] == 'fun' and q[2] in p[2:]:
                    if vm.get(i) == 1:
                        return None
                    m[i] = 0
        if p[0] in ('fE', 'fL') and val == 1:
            o = c.vtab.get(('fL' if p[0] == 'fE' else 'fE',) + p[1:])
            if o is not None:
                if vm.get(o) == 1:
                    return None
                m[o] = 0
        if p[0] in ('slt', 'ult', 'eq') and val == 1:
            for q in ('slt', 'ult', 'eq'):
                if q == p[0]:
                    rev = c.vtab.get((q, p[2], p[1]))
                    if q != 'eq' and rev is not None:
                        if vm.get(rev) == 1:
                            return None
                        m[rev] = 0
                    continue
                if 'eq' not in (q, p[0]):
                    continue
                for k in ((q, p[1], p[2]), (q, p[2], p[1])):
                    o = c.vtab.get(k)
                    if o is not None:
                        if vm.get(o) == 1:
                            return None
                        m[o] = 0
        return m

    def nanboth(self, a, b):
        c = self.c
        return c.isc(a) and c.isc(b) and c.w[a] in FMT and f_isnan(c.w[a], c.a[a]) and f_isnan(c.w[b], c.a[b])


def check_pair(mod, types, got_fn, exp_fn, params, mode, seed, alts=()):
    """-> (verdict, details dict, stats)"""
    r = check_once(mod, types, got_fn, exp_fn, params, mode, seed, False, alts)
    if r[0] != 'ok' and r[2].get('nanlit'):
        # the dump prints NaN literals without their bits: a float-typed mask constant is also a NaN
        q = check_once(mod, types, got_fn, exp_fn, params, mode, seed, True, alts)
        if q[0] != 'alarm':
            return q
    return r


def check_once(mod, types, got_fn, exp_fn, params, mode, seed, nanall, alts=()):
    c = Ctx()
    if mode.get('fprange'):
        c.fprange = mode['fprange']
    c.faithful = bool(mode.get('faithful'))
    if mode.get('ac'):
        c.acfloat = c.acite = True
    if mode.get('facmm'):
        c.facmm = c.acite = True
    kinds = {p.name: (p.kind, p.width) for p in params}
    J = Judge(c, kinds, mode, seed)
    regs_e, ret_e, ex_e = run_fn(mod, types, exp_fn, c, params)
    c.nanall = nanall
    regs_g, ret_g, ex_g = run_fn(mod, types, got_fn, c, params)
    stats = {'nanlit': ex_g.nanlit, 'terms': len(c.op), 'preds': len(c.vars), 'stmts': ex_g.stmts}
    und = []
    cmps = 0
    alt_regs = []

    def alternatives(name):
        # equivalent formulations of the reference (DESIGN.md), lane by lane
        if not alt_regs:
            for f in alts:
                c.nanall = False
                try:
                    alt_regs.append(run_fn(mod, types, f, c, params)[0])
                except Unsupported:
                    pass
        return [a[name] for a in alt_regs]

    def verdict(what, g, e, isf, care=None, others=None):
        nonlocal cmps
        cmps += 1
        if mode.get('finite'):
            # no input is a NaN
            vm = {}
            for q in c.allvars([g, e]):
                p = c.vars[q]
                if p[0] == 'fun' and c.op[p[2]] == 'atom':
                    vm[q] = 0
            g, e = c.subst(g, vm), c.subst(e, vm)
        v, wit = J.equal(g, e, isf, care)
        if v == 'undecided' and others:
            for o in others():
                J.budget = Judge.budget
                if g == o or J.equal(g, o, isf)[0] == 'ok':
                    stats['alt'] = stats.get('alt', 0) + 1
                    v = 'ok'
                    break
        if v == 'alarm':
            return {'what': what, 'witness': wit, 'got': c.show(g, 4)[:300], 'expected': c.show(e, 4)[:300]}
        if v == 'undecided':
            und.append('%s: got %s expected %s%s' % (what, c.show(g, SHOWD)[:1600], c.show(e, SHOWD)[:1300],
                                                     ''.join(' alt ' + c.show(o, SHOWD)[:1300] for o in (others() if others else ()))))
        return None

    # a path on which the caller's obligations hold (for conditional specs)
    # contents
    for p in params:
        if p.count is None or p.name.startswith('_'):
            continue
        rg, re_ = regs_g[p.name], regs_e[p.name]
        W = p.stride
        for i in range(p.count):
            g, e = rg.read(i * W, p.width), re_.read(i * W, p.width)
            if g == e:
                cmps += 1
                continue
            al = verdict('%s[%d]' % (p.name, i), g, e, p.kind == 'f',
                         others=lambda: [a.read(i * W, p.width) for a in alternatives(p.name)])
            if al:
                return 'alarm', al, stats
        size = rg.size
        # footprints
        for kind in ('W', 'R'):
            fg = footprint(c, rg, kind)
            fe = footprint(c, re_, kind)
            sr = mode.get('strictread')
            strict = kind == 'W' or (sr and (sr is True or p.name in sr))
            for b in sorted(fg):
                inside = 0 <= b < size
                allow = fe.get(b, c.F) if (strict and inside) else (c.T if inside else c.F)
                bad = c.and1(fg[b], c.not1(allow))
                cmps += 1
                if bad == c.F:
                    continue
                al = verdict('%s of byte %d of %s%s' % ('write' if kind == 'W' else 'read', b, p.name,
                                                         '' if inside else ' (outside the %d-byte object)' % size),
                             bad, c.F, False)
                if al:
                    return 'alarm', al, stats
        # alignment assumptions
        lim = mode.get('align', {}).get(p.name)
        if lim is not None:
            for kind, lo, w, gd, al_, note in rg.log:
                a = al_ or 0
                if a > lim and gd != c.F:
                    return 'alarm', {'what': 'access to %s assumes %d-bit alignment, only %d bits are promised' %
                                     (p.name, a, lim), 'witness': {}, 'got': note or '', 'expected': ''}, stats
    if ret_g is None and ret_e is not None and got_fn.ret[0] != 'void':
        return 'alarm', {'what': 'no path of the operation returns a value', 'witness': {'inputs': 'any'}, 'got': 'undefined', 'expected': c.show(ret_e)}, stats
    if (ret_g is None) != (ret_e is None):
        return 'undecided', {'what': 'return value missing'}, stats
    if ret_g is not None:
        if isinstance(ret_g, interp.Ptr) or c.w[ret_g] != c.w[ret_e]:
            return 'undecided', {'what': 'return kinds differ'}, stats
        al = verdict('return value', ret_g, ret_e, mode.get('ret') == 'f')
        if al:
            return 'alarm', al, stats
    for g in dict.fromkeys(ex_g.traps):
        # a failed assertion of the library on inputs for which the operation is defined
        bad = g
        for q in ex_e.traps:
            bad = c.and1(bad, c.not1(q))
        cmps += 1
        if bad != c.F:
            al = verdict('abort (assertion of the library)', bad, c.F, False)
            if al:
                return 'alarm', al, stats
    if mode.get('notrap'):
        # integer divisions of the library that the reference does not make must not divide by zero
        have = {d for g, d in ex_e.divs}
        care = c.T
        for d in sorted(have):
            care = c.and1(care, c.not1(c.eq(d, c.const(c.w[d], 0))))
        seen = set()
        for g, d in ex_g.divs:
            if d in have or (g, d) in seen:
                continue
            seen.add((g, d))
            bad = c.eq(d, c.const(c.w[d], 0))
            bad = c.and1(g, bad) if g is not None else bad
            cmps += 1
            if bad != c.F:
                al = verdict('division by zero (trap)', bad, c.F, False, care)
                if al:
                    return 'alarm', al, stats
        stats['divs'] = len(seen)
    stats['comparisons'] = cmps
    if und:
        return 'undecided', {'what': '; '.join(und[:2]), 'n': len(und)}, stats
    return 'ok', {}, stats
