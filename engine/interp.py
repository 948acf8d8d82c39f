"""Flow-sensitive value propagation over GIMPLE in gated-SSA style.

Blocks are visited once in topological order (loops: see run_loop); joins are
expressed as gated values, memory as guarded updates.  No path enumeration.
"""
import heapq
import re
from bisect import bisect_right
from terms import Ctx, M, f_round, FMT, TooBig
from fractions import Fraction
import struct
import gimple
import x86
import cross
from x86 import Unsupported, lanes


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o):
        self.r, self.o = r, o       # region, 64-bit byte offset term


class Region:
    def __init__(self, ctx, name, kind, elem=None, size=None):
        self.c = ctx
        self.name = name
        self.kind = kind            # param / local / const
        self.elem = elem            # bit width of one element, for param atoms
        self.boolean = False
        self.ptrs = {}              # start bit -> pointer stored there
        self.zero = False           # zero-initialised as a whole
        self.size = size            # bytes the caller provides
        self.pieces = {}            # start bit -> term
        self.starts = []
        self.log = []               # (kind, startbit, width, guard, align, note)

    def default(self, lo, w):
        c = self.c
        if self.kind == 'param':
            ew = self.elem
            out = []
            p = lo
            while p < lo + w:
                i = p // ew
                o = p % ew
                n = min(ew - o, lo + w - p)
                if self.boolean:
                    a = c.zext(c.atom(1, '%s[%d]' % (self.name, i)), ew)
                elif ew == 128:         # x87 extended precision: 10 bytes and 6 of padding
                    a = c.cat([c.atom(80, '%s[%d]' % (self.name, i)), c.atom(48, '?%s[%d]' % (self.name, i))])
                else:
                    a = c.atom(ew, '%s[%d]' % (self.name, i))
                out.append(c.ext(a, o, n))
                p += n
            return c.cat(out)
        if self.zero:
            return c.const(w, 0)
        return c.undef(w, 'uninit_')

    def read(self, lo, w):
        c = self.c
        out = []
        p = lo
        end = lo + w
        st = self.starts
        i = bisect_right(st, p) - 1
        if i >= 0:
            s = st[i]
            t = self.pieces[s]
            if s + c.w[t] > p:
                n = min(s + c.w[t], end) - p
                out.append(c.ext(t, p - s, n))
                p += n
        i += 1
        while p < end:
            if i < len(st) and st[i] < end:
                s = st[i]
                if s > p:
                    d = self.default(p, s - p)
                    if self.kind != 'param':
                        self.put(p, d)
                        st = self.starts
                        i = bisect_right(st, p)
                    out.append(d)
                    p = s
                t = self.pieces[s]
                n = min(c.w[t], end - p)
                out.append(c.ext(t, 0, n))
                p += n
                i += 1
            else:
                d = self.default(p, end - p)
                if self.kind != 'param':
                    self.put(p, d)
                out.append(d)
                p = end
        return c.cat(out)

    def put(self, lo, t):
        c = self.c
        w = c.w[t]
        end = lo + w
        st = self.starts
        if self.ptrs:
            for q in [q for q in self.ptrs if lo - 64 < q < end]:
                del self.ptrs[q]
        # remove overlapping
        i = bisect_right(st, lo) - 1
        if i >= 0 and st[i] + c.w[self.pieces[st[i]]] > lo:
            pass
        else:
            i += 1
        j = i
        add = []
        while j < len(st) and st[j] < end:
            s = st[j]
            x = self.pieces.pop(s)
            if s < lo:
                add.append((s, c.ext(x, 0, lo - s)))
            if s + c.w[x] > end:
                add.append((end, c.ext(x, end - s, s + c.w[x] - end)))
            j += 1
        add.append((lo, t))
        add.sort()
        st[i:j] = [s for s, _ in add]
        for s, x in add:
            self.pieces[s] = x

    def write(self, lo, t, guard):
        c = self.c
        if guard == c.F:
            return
        if guard != c.T:
            t = c.ite(guard, t, self.read(lo, c.w[t]))
        self.put(lo, t)


class UF:
    """type variables for typedef names"""

    def __init__(self):
        self.p = {}
        self.b = {}

    def find(self, x):
        p = self.p
        while p.get(x, x) != x:
            x = p[x]
        return x

    def bind(self, x, ty):
        x = self.find(x)
        if x not in self.b:
            self.b[x] = ty

    def union(self, x, y):
        x, y = self.find(x), self.find(y)
        if x == y:
            return
        self.p[x] = y
        if x in self.b and y not in self.b:
            self.b[y] = self.b[x]

    def get(self, x):
        return self.b.get(self.find(x))


def is_ssa(name, f):
    if name in f.decls and not re.match(r'^[A-Za-z_.$0-9]*_\d+(\(D\))?$', name):
        return False
    return bool(re.search(r'_\d+(\(D\))?$', name)) and not re.search(r'D_\d+$', name)


class Types:
    def __init__(self, mod):
        self.uf = UF()
        self.foff = {}              # field uid -> byte offset
        self.rsize = {}             # record or field uid -> size in bits
        self.mod = mod
        for f in mod.fns.values():
            self.fn(f)

    def aliases(self, text):
        """function-local vector typedefs, from the pre-inlining dump: the
        template header of the enclosing function names their element type"""
        for m in re.finditer(r'^\S[^\n]*::_S_load<([a-z_0-9 ]+), (\d+)(?:, \d+)?> \(.*?^\}', text, re.S | re.M):
            for td in re.findall(r'^  typedef (\w+)D\.(\d+) ', m.group(0), re.M):
                b = gimple.BASEW.get(m.group(1))
                if b:
                    n = max(2, 1 << (int(m.group(2)) - 1).bit_length())
                    self.unify(('td', '%sD_%s' % td), ('vec', n, ('s',) + b))

        # locals that initialise a _SimdWrapper of a known vector type
        for x, v, vu, n, el in re.findall(r'^ *(\S+) = (\w+)D\.(\d+);\n\s*std::[^\n]*_SimdWrapper<__vector\((\d+)\) ([a-z ]+)>D\.\d+ '
                                          r'\(&[^,\n]+, \1\);', text, re.M):
            d = re.search(r'^ *(\w+)D\.(\d+) %sD\.%s;' % (re.escape(v), vu), text, re.M)
            b = gimple.BASEW.get(el)
            if d and b and d.group(1) not in gimple.BASEW:
                self.unify(('td', '%sD_%s' % d.groups()), ('vec', int(n), ('s',) + b))

    def layouts(self, text):
        """offsets and sizes of the members of tuple storage types, from the probe functions lay[foz]_<type>_<level>"""
        def const(name):
            f = self.mod.fns.get(name)
            if f is None:
                return None
            try:
                cx = Ctx()
                t = Exec(self.mod, self, cx).call(f, [Ptr(Region(cx, 'probe', 'local'), cx.const(64, 0))], cx.T)
                return cx.a[t] if cx.isc(t) else None
            except Unsupported:
                return None
        for m in re.finditer(r'^long int (lay([fo])_(\d+)_(\d+)) \(.*?^\}', text, re.S | re.M):
            body = m.group(0)
            fld = re.search(r'= &tD\.\d+->((?:D\.\d+\.)*)(first|second)D\.(\d+);', body)
            rec = re.search(r'struct (\w+)D\.(\d+) \* pD', body)
            if not fld:
                continue
            base = re.findall(r'D\.(\d+)\.', fld.group(1))
            if m.group(2) == 'f':
                sz = const(m.group(1))
                off = 0
            else:
                off = const(m.group(1))
                sz = const('layz_%s_%d' % (m.group(3), int(m.group(4)) + 1))
                if off is None:
                    continue
            uid = '%sD_%s' % (fld.group(2), fld.group(3))
            self.foff[uid] = off
            if sz:
                self.rsize[uid] = sz * 8
                if rec:
                    self.rsize['%sD_%s' % rec.groups()] = sz * 8
            z = const('layz_%s_%s' % (m.group(3), m.group(4)))
            if z:
                for b in base:
                    self.rsize['D_' + b] = z * 8

    def key(self, t):
        return ('td', t[1])

    def unify(self, a, b):
        if a is None or b is None or a == b:
            return
        uf = self.uf
        va = a[0] in ('td', 'ssa')
        vb = b[0] in ('td', 'ssa')
        if va and vb:
            uf.union(a, b)
        elif va and b[0] in ('s', 'vec'):
            uf.bind(a, b)
        elif vb and a[0] in ('s', 'vec'):
            uf.bind(b, a)

    elem = None

    def resolve(self, t):
        if t is None:
            return None
        if t[0] in ('td', 'ssa'):
            r = self.uf.get(t)
            if r is None and t[0] == 'td' and self.elem and re.match(r'TD_\d+$', t[1]):
                return self.elem        # the element type of the translation unit
            return r
        return t

    def of(self, f, e):
        k = e[0]
        if k == 'var':
            n = e[1]
            if n in f.decls:
                return f.decls[n]
            n0 = n.replace('(D)', '')
            m = re.match(r'^(.*)_(\d+)$', n0)
            if n0 in f.decls:
                return f.decls[n0]
            if m and m.group(1):
                ts = f.base.get(m.group(1))
                if ts and len(ts) == 1:
                    return next(iter(ts))
                for pn, pt in f.params:
                    if gimple.strip_uid(pn) == m.group(1):
                        return pt
            return ('ssa', f.name, n0)
        if k in ('mem', 'view', 'bfr'):
            return e[1]
        if k == 'lit':
            return e[1]
        if k == 'idx':
            t = self.of(f, e[1])
            t = self.resolve(t)
            if t and t[0] in ('vec', 'arr'):
                return t[2]
        return None

    def fn(self, f):
        for b in f.blocks.values():
            for s in b:
                if s[0] == 'set':
                    lt = self.of(f, s[1])
                    e = s[2]
                    self.rhs(f, lt, e)
                elif s[0] == 'phi':
                    lt = self.of(f, s[1])
                    for _, v in s[2]:
                        self.unify(lt, self.of(f, v))
                elif s[0] == 'if':
                    self.rhs(f, None, s[1])

    def lits(self, f, x, lt):
        """element types mentioned in a vector literal determine the typedef of the literal"""
        if x[0] == 'lit' and isinstance(x[2], list) and x[2]:
            ty = x[1] if x[1] is not None else lt
            if ty is None:
                return
            self.unify(lt, ty)
            for y in x[2]:
                et = self.of(f, y) if isinstance(y, tuple) and y[0] in ('lit', 'var', 'view', 'bfr', 'mem') else None
                et = self.resolve(et)
                if et and et[0] == 's':
                    self.unify(ty, ('vec', len(x[2]), et))
                    break
                if et and et[0] == 'vec':
                    self.unify(ty, ('vec', len(x[2]) * et[1], et[2]))
                    break
        elif x[0] in ('view', 'bfr'):
            if isinstance(x[2], tuple):
                self.lits(f, x[2], None)

    def rhs(self, f, lt, e):
        k = e[0]
        for x in (e[2] if k in ('call', 'fn') else e[1:]):
            if isinstance(x, tuple):
                self.lits(f, x, lt if k == 'val' else None)
        if k == 'val':
            self.unify(lt, self.of(f, e[1]))
        elif k == 'call':
            n = e[1]
            if n in ('.VCOND', '.VCONDU', '.VCONDEQ'):
                self.unify(self.of(f, e[2][0]), self.of(f, e[2][1]))
                self.unify(lt, self.of(f, e[2][2]))
                self.unify(lt, self.of(f, e[2][3]))
            elif n == '.VCOND_MASK':
                self.unify(lt, self.of(f, e[2][1]))
                self.unify(lt, self.of(f, e[2][2]))
            elif n.startswith('.') and n.lstrip('.') in ('FMA', 'FMS', 'FNMA', 'FNMS', 'SQRT', 'FLOOR', 'CEIL', 'TRUNC',
                                                         'RINT', 'NEARBYINT', 'COPYSIGN', 'XORSIGN', 'FMIN', 'FMAX'):
                for a in e[2]:
                    self.unify(lt, self.of(f, a))
            else:
                g = self.mod.fns.get(gimple.strip_uid(n))
                if g is not None and len(g.params) == len(e[2]):
                    for a, (_, t) in zip(e[2], g.params):
                        self.unify(t, self.of(f, a))
                    self.unify(lt, g.ret)
        elif k == 'un':
            self.unify(lt, self.of(f, e[2]))
        elif k == 'bin':
            a, b = self.of(f, e[2]), self.of(f, e[3])
            if e[1] in ('<<', '>>'):
                self.unify(lt, a)
            elif e[1] in ('<', '>', '<=', '>=', '==', '!=') or e[1].startswith('__'):
                self.unify(a, b)
            else:
                self.unify(a, b)
                self.unify(lt, a)
                self.unify(lt, b)
        elif k == 'cond':
            self.unify(lt, self.of(f, e[2]))
            self.unify(lt, self.of(f, e[3]))
            if e[1][0] == 'bin':
                self.rhs(f, None, e[1])
        elif k == 'fn' and e[1] in ('__MIN', '__MAX', '__ABS', '__VEC_PERM'):
            for a in e[2][:2]:
                self.unify(lt, self.of(f, a))


# tree codes as printed in .VCOND
VCODE = dict(zip(range(108, 122), ['<', '<=', '>', '>=', '__LTGT', '==', '!=', '__UNORDERED', '__ORDERED', '__UNLT',
                                   '__UNLE', '__UNGT', '__UNGE', '__UNEQ']))
SPECF = {'hermite', 'laguerre', 'legendre', 'sph_bessel', 'sph_neumann', 'assoc_laguerre', 'assoc_legendre', 'sph_legendre'}
LIBM1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp', 'exp2',
         'expm1', 'log', 'log10', 'log1p', 'log2', 'cbrt', 'erf', 'erfc', 'lgamma', 'tgamma', 'logb'}
LIBM2 = {'atan2', 'pow', 'fmod', 'remainder', 'nextafter', 'fdim', 'hypot', 'fmin', 'fmax', 'copysign'}


class Exec:
    MAXLOOP = 80

    def __init__(self, mod, types, ctx):
        self.mod = mod
        self.types = types
        self.c = ctx
        self.depth = 0
        self.unsup = []
        self.nanlit = 0
        self.nanall = getattr(ctx, 'nanall', False)
        self.calls = []
        self.steps = 0
        self.stmts = 0
        self.globals = {}
        self.atomic = []
        self.divs = []
        self.traps = []         # conditions under which the function aborts

    def call(self, f, args, guard):
        self.depth += 1
        if self.depth > 12:
            raise Unsupported('call depth')
        try:
            return Frame(self, f, args, guard).run()
        finally:
            self.depth -= 1


class Frame:
    def __init__(self, ex, f, args, guard):
        self.ex, self.f, self.c = ex, f, ex.c
        self.T = ex.types
        self.v = {}
        self.locals = {}
        self.closures = {}
        self.guard = guard
        for (pn, pt), a in zip(f.params, args):
            self.v[gimple.strip_uid(pn) + '@'] = a
        self.cond = {}
        self.econd = {}
        self.rets = []
        self.cfg()

    # -------------------------------------------------------------- CFG
    def cfg(self):
        f = self.f
        self.succ = {}
        for i, b in enumerate(f.order):
            st = f.blocks[b]
            out = []
            fall = True
            for s in st:
                if s[0] == 'goto':
                    out.append(s[1])
                    fall = False
                elif s[0] == 'if':
                    out.append(s[2])
                elif s[0] == 'else':
                    out.append(s[1])
                    fall = False
                elif s[0] == 'ret':
                    fall = False
                elif s[0] in ('unreach', 'trap'):
                    fall = False
            if fall and i + 1 < len(f.order):
                out.append(f.order[i + 1])
            self.succ[b] = out
        entry = f.order[0]
        # reverse postorder with back edge detection
        seen, onst, post = set(), set(), []
        self.back = set()
        st = [(entry, iter(self.succ[entry]))]
        seen.add(entry)
        onst.add(entry)
        while st:
            n, it = st[-1]
            for s in it:
                if s in onst:
                    self.back.add((n, s))
                elif s not in seen:
                    seen.add(s)
                    onst.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(n)
                onst.discard(n)
                st.pop()
        self.rpo = post[::-1]
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # nesting of the loops (Bourdoncle): the components of the graph in topological order; a component that is a
        # cycle is a loop, its header the entry that comes first, and its body is taken apart again without the edges
        # into the header.  Jump threading makes loops that are also entered beside their header: `sides`.
        self.pos = {b: i for i, b in enumerate(self.rpo)}
        self.loops, self.sides, self.back = {}, {}, set()
        self.wto = self.nest(self.rpo, None)

    def nest(self, nodes, head):
        inside = set(nodes)
        suc = {b: [s for s in self.succ[b] if s in inside and s != head] for b in nodes}
        comp, low, num, stack = {}, {}, {}, []
        comps = []
        for root in nodes:
            if root in num:
                continue
            work = [(root, iter(suc[root]))]
            num[root] = low[root] = len(num)
            stack.append(root)
            while work:
                n, it = work[-1]
                for x in it:
                    if x not in num:
                        num[x] = low[x] = len(num)
                        stack.append(x)
                        work.append((x, iter(suc[x])))
                        break
                    if x not in comp:
                        low[n] = min(low[n], num[x])
                else:
                    work.pop()
                    if work:
                        m = work[-1][0]
                        low[m] = min(low[m], low[n])
                    if low[n] == num[n]:
                        c = []
                        while True:
                            x = stack.pop()
                            comp[x] = len(comps)
                            c.append(x)
                            if x == n:
                                break
                        comps.append(sorted(c, key=self.pos.get))
        # topological order, the earliest block first
        indeg = [0] * len(comps)
        out = [set() for _ in comps]
        for b in nodes:
            for x in suc[b]:
                if comp[x] != comp[b] and comp[x] not in out[comp[b]]:
                    out[comp[b]].add(comp[x])
                    indeg[comp[x]] += 1
        ready = [(self.pos[comps[i][0]], i) for i in range(len(comps)) if not indeg[i]]
        heapq.heapify(ready)
        order = []
        while ready:
            i = heapq.heappop(ready)[1]
            order.append(comps[i])
            for j in out[i]:
                indeg[j] -= 1
                if not indeg[j]:
                    heapq.heappush(ready, (self.pos[comps[j][0]], j))
        res = []
        for c in order:
            if len(c) == 1 and c[0] not in suc[c[0]]:
                res.append(c[0])
                continue
            body = set(c)
            ent = [b for b in c if any(p not in body for p in self.pred[b])]
            h = ent[0] if ent else c[0]
            self.loops[h] = body
            self.sides[h] = [(p, b) for b in c if b != h for p in self.pred[b] if p not in body]
            for p in self.pred[h]:
                if p in body:
                    self.back.add((p, h))
            res.append((h, c, self.nest(c, h)))
        return res

    def run(self):
        entry = self.rpo[0]
        self.econd[(None, entry)] = self.guard
        self.run_blocks(self.wto)
        if not self.rets:
            return None
        r = None
        for g, val in reversed(self.rets):
            if val is None:
                continue
            if r is None:
                r = val
            elif isinstance(val, Ptr) or isinstance(r, Ptr):
                r = self.merge(g, val, r)
            else:
                r = self.c.ite(g, val, r)
        return r

    def run_blocks(self, order):
        """order: blocks and loops (header, body, the order inside) as nest() made them"""
        for b in order:
            if isinstance(b, tuple):
                self.run_loop(*b)
            else:
                self.block(b)

    def edge_in(self, b, back):
        c = self.c
        r = c.F
        ps = [(p, b) for p in self.pred[b]] + ([(None, b)] if (None, b) in self.econd else [])
        for e in ps:
            if (e in self.back) == back:
                r = c.or1(r, self.econd.get(e, c.F))
        return r

    def block(self, b, cond=None, phis=True):
        c = self.c
        if cond is None:
            cond = self.edge_in(b, False)
        self.cond[b] = cond
        for s in self.succ[b]:
            self.econd[(b, s)] = c.F
        if cond == c.F:
            return
        st = self.f.blocks[b]
        if phis:
            new = []
            for s in st:
                if s[0] == 'phi':
                    new.append((s[1][1], self.phi(b, s)))
            for n, val in new:
                self.v[n] = val
        done = False
        taken = c.F
        self.ex.steps += 1
        for s in st:
            k = s[0]
            if k == 'phi':
                continue
            self.ex.stmts += 1
            if k == 'set':
                self.assign(s[1], s[2], cond)
            elif k == 'eval':
                self.evalstmt(s[1], cond)
            elif k == 'if':
                t = self.boolval(s[1])
                taken = c.and1(cond, t)
                self.add_edge(b, s[2], taken)
                rest = c.and1(cond, c.not1(t))
                self._rest = rest
            elif k == 'else':
                self.add_edge(b, s[1], self._rest)
                done = True
            elif k == 'goto':
                self.add_edge(b, s[1], cond)
                done = True
            elif k == 'ret':
                val = self.rhs(s[1], self.f.ret, cond) if s[1] else None
                self.rets.append((cond, val))
                done = True
            elif k == 'unreach':
                done = True
            elif k == 'trap':
                self.ex.traps.append(cond)
                done = True
        if not done and self.succ[b]:
            self.add_edge(b, self.succ[b][-1], cond)

    def add_edge(self, b, s, g):
        self.econd[(b, s)] = self.c.or1(self.econd.get((b, s), self.c.F), g)

    def merge(self, g, x, y):
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.r is y.r:
                return Ptr(x.r, self.c.ite(g, x.o, y.o))
            if isinstance(x.r, list) or isinstance(y.r, list) or x.r is not y.r:
                raise Unsupported('pointer merge of different objects')
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            raise Unsupported('pointer/int merge')
        return self.c.ite(g, x, y)

    def phi(self, b, s, only=None):
        c = self.c
        vals = []
        for p, e in s[2]:
            g = self.econd.get((p, b), c.F)
            if only is not None and ((p, b) in self.back) != only:
                continue
            if only is None and (p, b) in self.back:
                continue
            if g == c.F:
                continue
            vals.append((g, self.value(e, self.T.of(self.f, s[1]))))
        if not vals:
            return c.undef(self.width_hint(s[1]) or 32, 'nophi')
        r = vals[-1][1]
        for g, x in reversed(vals[:-1]):
            if x is r:
                continue
            if x == r:
                continue
            r = self.merge(g, x, r)
        # simplify under the block condition
        return r

    def width_hint(self, lhs):
        t = self.T.resolve(self.T.of(self.f, lhs))
        return self.tw(t) if t else None

    def tw(self, t):
        t = self.T.resolve(t)
        if t is None:
            return None
        if t[0] == 's':
            return t[1]
        if t[0] == 'vec':
            return t[1] * t[2][1] if t[2][0] == 's' else None
        if t[0] == 'ptr':
            return 64
        if t[0] == 'rec':
            return self.T.rsize.get(t[1])
        if t[0] == 'arr' and t[1]:
            w = self.tw(t[2])
            return w * t[1] if w else None
        return None

    # ------------------------------------------------------------- loops
    def defs_in(self, body):
        out = set()
        for b in body:
            for s in self.f.blocks[b]:
                if s[0] in ('set', 'phi') and s[1][0] == 'var' and is_ssa(s[1][1], self.f):
                    out.add(s[1][1])
        return out

    def run_loop(self, h, body, order):
        c = self.c
        entry = self.edge_in(h, False)
        sides = self.sides[h]
        first = entry
        for e in sides:
            first = c.or1(first, self.econd.get(e, c.F))
        if first == c.F:
            for b in body:
                self.cond[b] = c.F
                for s in self.succ[b]:
                    self.econd[(b, s)] = c.F
            return
        phis = [s for s in self.f.blocks[h] if s[0] == 'phi']
        state = {s[1][1]: self.phi(h, s, only=False) for s in phis}
        defs = self.defs_in(body)
        exits = [(b, s) for b in body for s in self.succ[b] if s not in body]
        inner = set(body)
        idiom = self.find_bit_idiom(h, body, phis) if not sides else None
        outv = {}
        exitc = {e: c.F for e in exits}

        def one(cond):
            for b in body:
                for s in self.succ[b]:
                    self.econd[(b, s)] = c.F
            self.block(h, cond, phis=False)
            self.run_blocks([x for x in order if x != h])

        def nextphi(s):
            return self.phi(h, s, only=True)

        if idiom:
            kphi, kw = idiom
            K = state[kphi]
            n = c.w[K]
            bits = c.bits(K)
            tot_exit = c.F
            for i in range(n):
                if bits[i] == c.F:
                    continue
                ci = c.and1(entry, bits[i])
                for nme, val in state.items():
                    self.v[nme] = val
                Ki = c.cat(([c.const(i, 0)] if i else []) + [c.T] + bits[i + 1:])
                self.v[kphi] = Ki
                one(ci)
                nk = None
                ns = {}
                for s in phis:
                    val = nextphi(s)
                    if s[1][1] == kphi:
                        nk = val
                    else:
                        ns[s[1][1]] = val
                want = c.cat([c.const(i + 1, 0)] + bits[i + 1:]) if i + 1 < n else c.const(n, 0)
                # under the continue condition the next k must be k without bit i
                cont = self.edge_in(h, True)
                wantcont = c.and1(ci, c.not1(c.eq(want, c.const(n, 0))))
                if cont != wantcont or (cont != c.F and nk != want and
                                        c.ite(cont, nk, want) != want):
                    raise Unsupported('bit loop shape')
                for nme, val in ns.items():
                    o = state[nme]
                    state[nme] = self.merge(ci, val, o) if val is not o else o
                for nme in defs:
                    if nme in self.v:
                        x = self.v[nme]
                        if nme in outv and not (outv[nme] is x or outv[nme] == x):
                            try:
                                outv[nme] = self.merge(ci, x, outv[nme])
                            except Unsupported:
                                outv.pop(nme)
                        else:
                            outv[nme] = x
                for e in exits:
                    exitc[e] = c.or1(exitc[e], self.econd.get(e, c.F))
        else:
            cond = entry
            it = 0
            while cond != c.F or (it == 0 and first != c.F):
                it += 1
                if it > self.ex.MAXLOOP:
                    raise Unsupported('loop bound')
                for nme, val in state.items():
                    if cond == c.F:
                        self.v.pop(nme, None)
                    else:
                        self.v[nme] = val
                one(cond)
                for e in sides:         # only the first round is entered beside the header
                    self.econd[e] = c.F
                ex = c.F
                for e in exits:
                    g = self.econd.get(e, c.F)
                    exitc[e] = c.or1(exitc[e], g)
                    ex = c.or1(ex, g)
                if ex != c.F:
                    for nme in defs:
                        if nme in self.v:
                            x = self.v[nme]
                            if nme in outv and not (outv[nme] is x or outv[nme] == x):
                                outv[nme] = self.merge(ex, x, outv[nme])
                            else:
                                outv[nme] = x
                nc = self.edge_in(h, True)
                if nc != c.F:
                    state = {s[1][1]: nextphi(s) for s in phis}
                cond = nc
        for nme, val in outv.items():
            self.v[nme] = val
        for b in body:
            for s in self.succ[b]:
                self.econd[(b, s)] = c.F
        for e in exits:
            self.econd[e] = exitc[e]

    def find_bit_idiom(self, h, body, phis):
        """header phi consumed by ctz: visit the set bits in ascending order"""
        names = {s[1][1] for s in phis}
        copies = {n: n for n in names}
        for b in body:
            for s in self.f.blocks[b]:
                if s[0] == 'set' and s[1][0] == 'var' and s[2][0] in ('val', 'cast') and s[2][-1][0] == 'var' \
                        and s[2][-1][1] in copies:
                    copies[s[1][1]] = copies[s[2][-1][1]]
                if s[0] == 'set' and s[2][0] == 'call' and re.match(r'(__builtin_ctz|\.CTZ|__builtin_ffs)', s[2][1]):
                    a = s[2][2][0]
                    if a[0] == 'var' and a[1] in copies:
                        return copies[a[1]], None
        return None

    # ----------------------------------------------------------- operands
    def fltlit(self, s, w):
        neg = s.startswith('-')
        t = s.lstrip('-').strip()
        if t in ('Inf',):
            v = struct.unpack('<Q', struct.pack('<d', float('inf')))[0]
            r = (M(FMT[w][0]) << FMT[w][1])
        elif 'Nan' in t or 'nan' in t:
            # the printer drops sign and payload
            e, m = FMT[w]
            if getattr(self, 'nanbits', False) or self.ex.nanall:
                return M(w)
            self.ex.nanlit += 1
            r = (M(e) << m) | (1 << (m - 1))
        else:
            t = re.sub(r'[fFlLdD]+\d*x?$', '', t)
            r = f_round(w, Fraction(t))
        return r | ((1 << (w - 1)) if neg else 0)

    def litval(self, e, ty):
        """constant expression e of type ty -> term"""
        ty = self.T.resolve(ty)
        if e[0] == 'lit':
            return self.literal(e, ty)
        if e[0] == 'neg':
            x = e[1]
            if x[0] == 'flt':
                return self.litval(('flt', '-' + x[1]), ty)
            if x[0] == 'int':
                return self.litval(('int', -x[1], '-' + x[2]), ty)
            raise Unsupported('neg literal')
        if e[0] == 'flt':
            s = e[1]
            if ty is None or ty[0] != 's':
                m = re.search(r'([fF])$', s)
                w = 32 if m else 64
                if ty is None:
                    raise Unsupported('float literal without type')
            else:
                w = ty[1]
            return self.c.const(w, self.fltlit(s, w))
        if e[0] == 'int':
            if ty is not None and ty[0] == 's':
                w = ty[1]
                if ty[2] == 'f':
                    return self.c.const(w, f_round(w, Fraction(e[1])))
                return self.c.const(w, e[1])
            if ty is not None and ty[0] == 'ptr':
                return self.c.const(64, e[1])
            m = re.search(r'([uUlL]*)$', e[2])
            suf = m.group(1).lower()
            w = 64 if 'l' in suf else 32
            if e[2].startswith('0x'):
                raise Unsupported('big literal without type')
            if ty is None:
                return self.c.const(w, e[1])
            raise Unsupported('int literal of type %r' % (ty,))
        return self.value(e, ty)

    def literal(self, e, want=None):
        c = self.c
        ty = self.T.resolve(e[1]) if e[1] is not None else want
        if ty is None:
            ty = self.T.resolve(want)
        x = e[2]
        if isinstance(x, list):
            if ty is None or ty[0] not in ('vec', 'arr'):
                # build from the elements themselves
                out = []
                el = None
                for y in x:
                    if y[0] in ('var', 'lit', 'mem', 'view', 'bfr'):
                        out.append(self.value(y, None))
                    else:
                        out.append(None)
                ws = {c.w[o] for o in out if o is not None}
                if any(o is None for o in out):
                    # a braced list of plain numbers: suffixes determine the type
                    if any(o is not None for o in out) and len(ws) == 1:
                        w = ws.pop()
                        fl = any(y[0] == 'flt' for y in x)
                        el = ('s', w, 'f' if fl else 'i', True)
                        out = [o if o is not None else self.litval(y, el) for o, y in zip(out, x)]
                    else:
                        s = [y for y in x if y[0] in ('flt', 'int', 'neg')]
                        tyn = self.elem_guess(s)
                        out = [self.litval(y, tyn) for y in x]
                return c.cat(out)
            el = ty[2]
            out = [self.value(y, el) if y[0] in ('var', 'lit', 'mem', 'view', 'bfr') else self.litval(y, el) for y in x]
            tot = sum(c.w[o] for o in out)
            W = self.tw(ty)
            if W and tot < W:
                out.append(c.const(W - tot, 0))
            return c.cat(out)
        return self.litval(x, ty)

    def elem_guess(self, xs):
        def one(y):
            if y[0] == 'neg':
                return one(y[1])
            if y[0] == 'flt':
                return None      # float/double are printed alike
            if y[0] == 'int':
                suf = re.search(r'([uUlL]*)$', y[2]).group(1).lower()
                return ('s', 64 if 'l' in suf else 32, 'i', 'u' not in suf)
            return None
        for y in xs:
            t = one(y)
            if t:
                return t
        raise Unsupported('untyped literal')

    def value(self, e, want=None):
        c = self.c
        k = e[0]
        if k == 'var':
            n = e[1]
            if is_ssa(n, self.f):
                if n in self.v:
                    return self.v[n]
                if n.endswith('(D)'):
                    b = re.sub(r'_\d+\(D\)$', '', n)
                    if b + '@' in self.v:
                        return self.v[b + '@']
                    w = self.width_hint(e) or self.tw(want)
                    if not w:
                        raise Unsupported('undef width ' + n)
                    r = c.undef(w, 'undef_' + b)
                    self.v[n] = r
                    return r
                # value defined on a path that was not executed
                w = self.width_hint(e) or self.tw(want)
                if not w:
                    raise Unsupported('undefined value ' + n)
                return c.undef(w, 'dead')
            return self.load(e, want)
        if k == 'lit':
            return self.literal(e, want)
        if k in ('int', 'flt', 'neg'):
            return self.litval(e, want)
        if k == 'addr':
            return self.addr(e[1])
        if k == 'idx' and e[1][0] == 'view' and e[1][2][0] == 'var' and is_ssa(e[1][2][1], self.f):
            t = self.T.resolve(e[1][1])
            if t and t[0] in ('arr', 'vec'):
                x, i, ew = self.value(e[1][2]), self.value(e[2]), self.tw(t[2])
                if c.isc(i) and ew and (c.a[i] + 1) * ew <= c.w[x]:
                    return c.ext(x, c.a[i] * ew, ew)
        if k in ('mem', 'fld', 'idx', 'deref'):
            return self.load(e, want)
        if k == 'view':
            ty = self.T.resolve(e[1])
            if e[2][0] == 'lit' and isinstance(e[2][2], list) and self.T.resolve(e[2][1]) is None:
                W, n = self.tw(ty), len(e[2][2])
                if W and n and W % n == 0 and e[2][2][0][0] in ('int', 'flt', 'neg'):
                    fl = any(y[0] == 'flt' or y[0] == 'neg' and y[1][0] == 'flt' for y in e[2][2])
                    return self.literal(('lit', None, e[2][2]), ('vec', n, ('s', W // n, 'f' if fl else 'i', True)))
            x = self.value(e[2], ty if e[2][0] == 'var' and e[2][1].endswith('(D)') else None)
            if isinstance(x, Ptr):
                return x
            w = self.tw(e[1])
            if w and w < c.w[x]:
                x = c.ext(x, 0, w)
            return x
        if k == 'bfr':
            n, p = e[3], e[4]
            if e[2][0] in ('mem', 'fld', 'idx', 'view') or (e[2][0] == 'var' and not is_ssa(e[2][1], self.f)):
                try:
                    r, o, _ = self.lval(e[2])
                    return self.memread(r, c.add(o, c.const(64, p // 8)), n, self._g, None) if p % 8 == 0 else \
                        c.ext(self.memread(r, o, p + n, self._g, None), p, n)
                except Unsupported:
                    pass
            x = self.value(e[2])
            return c.ext(x, p, n)
        if k == 'conv':
            return self.value(e[2], e[1])
        if k == 'str':
            raise Unsupported('string')
        raise Unsupported('value ' + k)

    # ------------------------------------------------------------- memory
    def region_of(self, name):
        r = self.locals.get(name)
        if r is None:
            if name in self.f.decls:
                r = Region(self.c, name, 'local')
                self.locals[name] = r
            elif name in self.ex.globals:
                r = self.ex.globals[name]
            elif gimple.strip_uid(name) == 'stderr':
                r = self.ex.globals[name] = Region(self.c, name, 'local')
            else:
                raise Unsupported('global ' + name)
        return r

    def lval(self, e):
        """-> (region, byte offset term, type or None)"""
        c = self.c
        k = e[0]
        z = c.const(64, 0)
        if k == 'var':
            n = e[1]
            if is_ssa(n, self.f):
                raise Unsupported('lval of ssa')
            return self.region_of(n), z, self.f.decls.get(n)
        if k == 'mem':
            p = self.value(e[3])
            if not isinstance(p, Ptr):
                raise Unsupported('store/load through non-pointer')
            return p.r, c.add(p.o, c.const(64, e[4])), e[1]
        if k == 'deref':
            p = self.value(e[1])
            return p.r, p.o, None
        if k == 'view':
            r, o, _ = self.lval(e[2])
            return r, o, e[1]
        if k == 'bfr':
            r, o, _ = self.lval(e[2])
            if e[4] % 8:
                raise Unsupported('bit offset')
            return r, c.add(o, c.const(64, e[4] // 8)), e[1]
        if k == 'fld':
            r, o, t = self.lval(e[1])
            off = self.field_off(e)
            return r, c.add(o, c.const(64, off)) if off else o, None
        if k == 'idx':
            r, o, t = self.lval(e[1])
            t = self.T.resolve(t)
            i = self.value(e[2])
            ew = None
            if t and t[0] in ('arr', 'vec'):
                ew = self.tw(t[2])
                et = t[2]
            else:
                et = None
                ew = getattr(self, '_elemw', None)
            if not ew:
                raise Unsupported('index of unknown element size')
            i = c.resize(i, 64, True)
            return r, c.add(o, c.lin(64, 0, [(i, ew // 8, False)])), et
        if k in ('real', 'imag'):
            raise Unsupported('complex')
        raise Unsupported('lval ' + k)

    OFF0 = {'first', '_M_data', '_M_bits', '_M_value', '_M_elems', '_M_mem', '_M_x', '_M_private_init'}

    def field_off(self, e):
        if e[2] in self.T.foff:
            return self.T.foff[e[2]]
        n = gimple.strip_uid(e[2])
        if n in self.OFF0 or n == '' or n == 'D' or re.match(r'^D_?\d*$', e[2]) or n.startswith('_M_') or \
                re.match(r'^_?[A-Z]_?\d+$', e[2]):
            return 0
        if e[1][0] == 'var' and e[1][1] in self.f.decls and n.startswith('____'):
            # captures of a closure object that is only ever accessed member by member: any placement will do
            v = re.escape(e[1][1])
            if len(re.findall(r'(?<!\w)%s(?!\w)' % v, self.f.text)) == len(re.findall(r'(?<!\w)(?<!&)%s(?:\.____\w| ={v} [^;]*CLOBBER)' % v, self.f.text)) + 1:
                m = self.closures.setdefault(e[1][1], {})
                return m.setdefault(e[2], 64 * len(m))
        raise Unsupported('field ' + e[2])

    def addr(self, e):
        r, o, t = self.lval(e)
        return Ptr(r, o)

    def lvwidth(self, e, want):
        """access width in bits of an lvalue expression, None if unknown"""
        k = e[0]
        if k in ('mem', 'view'):
            return self.tw(e[1])
        if k == 'bfr':
            return e[3]
        if k == 'var':
            return self.tw(self.f.decls.get(e[1]))
        if k == 'fld' and e[2] in self.T.rsize:
            return self.T.rsize[e[2]]
        if k == 'idx':
            try:
                _, _, t = self.lval(e)
                return self.tw(t)
            except Unsupported:
                return None
        return None

    def alignof(self, e):
        """alignment in bits an access asserts: what the dump says, else the natural one of a scalar or vector access"""
        if e[0] != 'mem':
            return None
        if e[2] is not None:
            return e[2]
        try:
            w = self.tw(e[1])
        except Unsupported:
            return None
        return w if w and w & (w - 1) == 0 and w <= 512 else None

    _g = None

    def load(self, e, want):
        c = self.c
        w = self.lvwidth(e, want)
        if not w and want is not None:
            w = self.tw(want)
        self._elemw = w
        r, o, t = self.lval(e)
        if r.ptrs and c.isc(o) and c.a[o] * 8 in r.ptrs and w in (None, 64):
            return r.ptrs[c.a[o] * 8]
        if not w:
            w = self.tw(t)
        if not w:
            raise Unsupported('load of unknown width %r' % (e[:2],))
        return self.memread(r, o, w, self._g, self.alignof(e))

    def offsets(self, o):
        """[(guard, byte offset)] for a constant-leaf offset"""
        c = self.c
        if c.isc(o):
            return [(c.T, self.sgn64(c.a[o]))]
        m = c.as_mtbdd(o)
        if m is None and c.op[o] == 'lin':
            m = self.lin_mtbdd(o)
        if m is None:
            raise Unsupported('symbolic address')
        return [(c.leafcond(m, c.a[l]), self.sgn64(c.a[l])) for l in c.leaves(m, 1 << 20)]

    def lin_mtbdd(self, o):
        c = self.c
        cc, ts = c.a[o]
        acc = c.const(c.w[o], cc)
        for t, k, z in ts:
            if z:
                x = c.ite(t, c.const(c.w[o], k), c.const(c.w[o], 0))
            else:
                x = c.as_mtbdd(t)
                if x is None:
                    return None
                x = c.mapleaves(x, lambda l: c.const(c.w[o], c.a[l] * k))
            n = len(c.leaves(acc, 1 << 20)) * len(c.leaves(x, 1 << 20))
            if n > 4096:
                return None
            acc = c.mapleaves(acc, lambda p: c.mapleaves(x, lambda q: c.const(c.w[o], c.a[p] + c.a[q])))
        return acc

    def sgn64(self, v):
        return v - (1 << 64) if v >> 63 else v

    def memread(self, r, o, w, guard, align, note=None, log=True):
        c = self.c
        offs = self.offsets(o)
        res = None
        for g, off in offs:
            if log:
                gg = guard if guard is not None else c.T
                lg = c.and1(gg, g)
                if lg != c.F:
                    r.log.append(('R', off * 8, w, lg, align, note))
            x = r.read(off * 8, w) if off >= 0 or r.kind == 'param' else c.undef(w, 'oob')
            res = x if res is None else c.ite(g, x, res)
        return res

    def memwrite(self, r, o, t, guard, align, note=None):
        c = self.c
        for g, off in self.offsets(o):
            gg = c.and1(guard, g)
            if gg != c.F:
                r.log.append(('W', off * 8, c.w[t], gg, align, note))
                r.write(off * 8, t, gg)

    def assign(self, lhs, e, cond):
        c = self.c
        self._g = cond
        if lhs[0] == 'var' and is_ssa(lhs[1], self.f):
            lt = self.T.of(self.f, lhs)
            val = self.rhs(e, lt, cond, lhs)
            self.v[lhs[1]] = val
            return
        # store
        w = self.lvwidth(lhs, None)
        r, o, t = None, None, None
        want = t
        if e[0] == 'val':
            x = e[1]
            if x[0] in ('fld', 'mem', 'var', 'view', 'idx') and not (x[0] == 'var' and is_ssa(x[1], self.f)):
                # memory to memory copy
                w2 = self.lvwidth(x, None)
                ww = w or w2
                if not ww:
                    return self.copy_all(lhs, x, cond)
                self._elemw = ww
                rs, os_, _ = self.lval(x)
                rd, od, _ = self.lval(lhs)
                val = self.memread(rs, os_, ww, cond, self.alignof(x))
                self.memwrite(rd, od, val, cond, self.alignof(lhs))
                return
        lt = lhs[1] if lhs[0] in ('mem', 'view') else self.f.decls.get(lhs[1]) if lhs[0] == 'var' else None
        if lhs[0] == 'idx':
            self._elemw = None
            try:
                r, o, lt = self.lval(lhs)
            except Unsupported:
                lt = None
        if e[0] == 'val' and e[1][0] == 'lit' and e[1][2] == [] and w:
            rd, od, t = self.lval(lhs)
            return self.memwrite(rd, od, c.const(w, 0), cond, self.alignof(lhs))
        if e[0] == 'val' and e[1][0] == 'lit' and e[1][2] == [] and not w:
            # zero initialisation of an aggregate
            rd, od, t = self.lval(lhs)
            if lhs[0] != 'var' or rd.kind != 'local' or cond != c.T:
                raise Unsupported('zero initialisation of unknown extent')
            rd.pieces.clear()
            rd.ptrs.clear()
            rd.starts.clear()
            rd.zero = True
            return
        if lhs[0] == 'var' and e[0] == 'val' and e[1][0] == 'lit' and isinstance(e[1][2], list) and self.T.resolve(lt) is None and \
                e[1][2] and all(y[0] in ('int', 'flt') and float(str(y[1]).rstrip('fFuUlL') or 'nan') == 0 for y in e[1][2]):
            # zero initialisation of a local vector whose element width the dump does not tell
            r, o, t = self.lval(lhs)
            return self.memwrite(r, o, c.const(512, 0), cond, None)
        val = self.rhs(e, lt, cond, None)
        if lhs[0] == 'bfr':
            w = lhs[3]
        if isinstance(val, Ptr):
            r, o, t = self.lval(lhs)
            if cond != c.T or r.kind != 'local' or not c.isc(o):
                raise Unsupported('store of pointer')
            r.put(c.a[o] * 8, c.undef(64, 'ptr'))
            r.ptrs[c.a[o] * 8] = val
            return
        self._elemw = c.w[val]
        r, o, t = self.lval(lhs)
        self.memwrite(r, o, val, cond, self.alignof(lhs))

    def copy_all(self, lhs, x, cond):
        """aggregate copy of unknown size: everything the source is known to hold"""
        c = self.c
        rs, os_, _ = self.lval(x)
        rd, od, _ = self.lval(lhs)
        if not (c.isc(os_) and c.isc(od)):
            raise Unsupported('aggregate copy')
        a, b = c.a[os_] * 8, c.a[od] * 8
        if lhs[0] != 'var' and x[0] != 'var':
            if rs.kind == 'param' or rd.kind == 'param':
                raise Unsupported('aggregate copy')
        end = max([s + c.w[t] for s, t in rs.pieces.items()], default=0)
        if lhs[0] != 'var':
            # partial destination: the copied extent must be the source object
            if x[0] != 'var' and a != 0 and len(rd.starts) and max(rd.starts) > b:
                raise Unsupported('aggregate copy extent')
        if rs.zero:
            if a or b or cond != c.T or lhs[0] != 'var':
                raise Unsupported('aggregate copy of zero-initialised object')
            rd.pieces.clear()
            rd.ptrs.clear()
            rd.starts.clear()
            rd.zero = True
        for s in list(rs.starts):
            t = rs.pieces[s]
            if s + c.w[t] <= a:
                continue
            if s < a:
                t = c.ext(t, a - s, c.w[t] - (a - s))
                s = a
            rd.write(b + s - a, t, cond)

    # ---------------------------------------------------------------- rhs
    def lane_type(self, *tys):
        for t in tys:
            t = self.T.resolve(t)
            if t is None:
                continue
            if t[0] == 'vec':
                return t[2] if t[2][0] == 's' else None
            if t[0] == 's':
                return t
        return None

    def boolval(self, e):
        c = self.c
        if e[0] == 'bin':
            x = self.binop(e, None, ('s', 1, 'b', False))
            return c.ext(x, 0, 1)
        if e[0] == 'val':
            x = self.value(e[1])
            return c.ext(x, 0, 1)
        raise Unsupported('cond ' + e[0])

    def rhs(self, e, lt, cond, lhs=None):
        c = self.c
        k = e[0]
        self._g = cond
        rl = self.T.resolve(lt)
        if k == 'val':
            return self.value(e[1], lt)
        if k == 'asmundef':
            w = self.tw(lt)
            if not w:
                raise Unsupported('asm operand type')
            return c.undef(w, 'undef_asm')
        if k == 'un':
            x = self.value(e[2], lt)
            ty = self.lane_type(lt, self.T.of(self.f, e[2]))
            if e[1] == '~':
                if ty and ty[2] == 'b' and (rl is None or rl[0] == 's'):
                    return c.zext(c.not1(c.ext(x, 0, 1)), c.w[x])
                return c.bnot(x)
            if e[1] == '!':
                return c.zext(c.not1(c.ext(x, 0, 1)), c.w[x])
            if ty is None:
                raise Unsupported('negation of unknown type')
            if ty[2] == 'f':
                return self.perlane(ty[1], c.fneg, x)
            return self.perlane(ty[1], c.neg, x)
        if k == 'bin':
            return self.binop(e, lt, rl)
        if k == 'cast':
            return self.cast(e, rl)
        if k == 'cond':
            x = self.value(e[2], lt)
            y = self.value(e[3], lt)
            if e[1][0] == 'bin':
                at = self.T.of(self.f, e[1][2])
                ra = self.T.resolve(at)
                g = self.binop(e[1], None, None)
                if rl and rl[0] == 'vec' and c.w[g] > 8:
                    n = rl[1]
                    ew, gw = c.w[x] // n, c.w[g] // n
                    return c.cat([c.ite(c.bit(g, i * gw), c.ext(x, i * ew, ew), c.ext(y, i * ew, ew))
                                  for i in range(n)])
                return self.merge(c.ext(g, 0, 1), x, y)
            g = self.value(e[1])
            gt = self.T.resolve(self.T.of(self.f, e[1]))
            if gt and gt[0] == 'vec':
                n = gt[1]
                ew, gw = c.w[x] // n, c.w[g] // n
                return c.cat([c.ite(c.bit(g, i * gw + gw - 1), c.ext(x, i * ew, ew), c.ext(y, i * ew, ew))
                              for i in range(n)])
            return self.merge(c.ext(g, 0, 1), x, y)
        if k == 'fn':
            return self.fn(e, lt, rl)
        if k == 'call':
            return self.callexpr(e, lt, rl, cond)
        raise Unsupported('rhs ' + k)

    def perlane(self, ew, f, *ts):
        c = self.c
        if c.w[ts[0]] == ew:
            return f(*ts)
        return x86.perlane(c, ew, f, *ts)

    def cast(self, e, rl):
        c = self.c
        st = self.T.resolve(self.T.of(self.f, e[2]))
        x = self.value(e[2], None if e[2][0] not in ('int', 'flt', 'neg') else None)
        dt = self.T.resolve(e[1]) or rl
        if isinstance(x, Ptr):
            if dt and dt[0] == 's' and dt[1] == 64:
                return x        # pointer to integer: keep provenance
            return x
        if dt is None:
            # typedef of unknown integer type: infer from lhs
            raise Unsupported('cast to unknown type %r' % (e[1],))
        if dt[0] == 'ptr':
            return x
        de = dt[2] if dt[0] == 'vec' else dt
        if st is None:
            raise Unsupported('cast from unknown type')
        se = st[2] if st[0] == 'vec' else st
        if se[0] == 'ptr':
            se = ('s', 64, 'i', False)
        n = st[1] if st[0] == 'vec' else 1
        if de[0] != 's' or se[0] != 's':
            raise Unsupported('cast %r' % (dt,))

        f = lambda v: self.convlane(v, se, de)
        if n == 1:
            return f(x)
        return c.cat([f(l) for l in lanes(c, x, se[1])])

    def convlane(self, v, se, de):
        c = self.c
        if se[2] == 'f' and de[2] == 'f':
            if 128 in (se[1], de[1]):
                raise Unsupported('long double')
            return c.fcvt(v, de[1])
        if se[2] == 'f':
            if se[1] not in FMT:
                raise Unsupported('long double')
            return c.fptoi(v, de[1], de[3])
        if de[2] == 'f':
            if de[1] not in FMT:
                raise Unsupported('long double')
            if se[2] == 'b':
                return c.itofp(c.zext(c.ext(v, 0, 1), 8), de[1], False)
            return c.itofp(v, de[1], se[3])
        if de[2] == 'b':
            return c.zext(c.ext(v, 0, 1), de[1])
        if se[2] == 'b':
            return c.zext(c.ext(v, 0, 1), de[1])
        if se[2] == 'B' and se[1] == 1:
            return c.rep(v, de[1]) if de[3] else c.zext(v, de[1])
        return c.resize(v, de[1], se[3])

    CMP = {'<', '>', '<=', '>=', '==', '!=', '__UNLT', '__UNLE', '__UNGT', '__UNGE', '__UNEQ', '__LTGT', '__UNORDERED',
           '__ORDERED'}

    def ptrcmp(self, op, a, b):
        c = self.c
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
            if op == '==':
                return c.eq(a.o, b.o)
            if op == '!=':
                return c.not1(c.eq(a.o, b.o))
            if op == '<':
                return c.ult(a.o, b.o)
        if (isinstance(a, Ptr) and not isinstance(b, Ptr) and c.isc(b) and c.a[b] == 0) and op in ('==', '!='):
            return c.F if op == '==' else c.T
        raise Unsupported('pointer comparison')

    def binop(self, e, lt, rl):
        c = self.c
        op, ea, eb = e[1], e[2], e[3]
        ta, tb = self.T.of(self.f, ea), self.T.of(self.f, eb)
        ra, rb = self.T.resolve(ta), self.T.resolve(tb)
        if op in self.CMP:
            ot = ra or rb
        elif op in ('<<', '>>'):
            ot = ra or rl
        else:
            ot = ra or rb or rl
        if ot is not None and ot[0] == 'ptr' or (rl is not None and rl[0] == 'ptr'):
            a = self.value(ea, ot if ea[0] == 'lit' else None)
            b = self.value(eb, ('s', 64, 'i', False))
            if op == '+' and isinstance(a, Ptr):
                if isinstance(b, Ptr):
                    raise Unsupported('ptr+ptr')
                return Ptr(a.r, c.add(a.o, c.resize(b, 64, True)))
            if op == '-' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
                return c.sub(a.o, b.o)
            if op in self.CMP:
                return c.zext(self.ptrcmp(op, a, b), 8)
            raise Unsupported('pointer op ' + op)
        a = self.value(ea, ot)
        if op in ('<<', '>>') and eb[0] in ('int', 'lit', 'neg') and rb is None:
            b = self.value(eb, None)
        else:
            b = self.value(eb, rb if op in ('<<', '>>') else ot)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and op == '+' and not isinstance(b, Ptr):
                return Ptr(a.r, c.add(a.o, c.resize(b, 64, True)))
            if isinstance(b, Ptr) and op == '+':
                return Ptr(b.r, c.add(b.o, c.resize(a, 64, True)))
            if op == '-' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
                return c.sub(a.o, b.o)
            if op == '-' and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return Ptr(a.r, c.sub(a.o, c.resize(b, 64, True)))
            if op in self.CMP:
                return c.zext(self.ptrcmp(op, a, b), 8)
            raise Unsupported('pointer arithmetic ' + op)
        if op in ('&', '|', '^'):
            if c.w[a] != c.w[b]:
                raise Unsupported('width mismatch in ' + op)
            return c.bitop({'&': 'and', '|': 'or', '^': 'xor'}[op], a, b)
        et = self.lane_type(ot)
        if et is None:
            raise Unsupported('operator %s on unresolved type %r' % (op, ta or tb))
        ew = et[1]
        n = ot[1] if ot[0] == 'vec' else 1
        if op in self.CMP:
            f = self.cmpf(op, et)
            la, lb = (lanes(c, a, ew), lanes(c, b, ew)) if n > 1 or ot[0] == 'vec' else ([a], [b])
            bits = [f(x, y) for x, y in zip(la, lb)]
            if ot[0] == 'vec':
                # lanes of the result
                bw = None
                if rl is not None and rl[0] == 'vec':
                    bw = rl[2][1]
                elif rl is not None and rl[0] == 's':
                    bw = None
                if bw is None:
                    bw = ew
                    if rl is not None and rl[0] == 's':
                        return self.reduce_cmp(op, bits)
                    if rl is None and lt is None:
                        # condition of a branch / scalar use
                        return c.zext(self.reduce_bits(op, bits), 8) if op in ('==', '!=') else self.vecbits(bits, ew)
                return c.cat([c.rep(x, bw) for x in bits])
            if rl is not None and rl[0] == 's' and rl[2] == 'B':
                # a scalar comparison expands to 0/1 whatever its boolean type
                return c.zext(bits[0], rl[1])
            return c.zext(bits[0], rl[1] if rl is not None and rl[0] == 's' else 8)
        if op in ('<<', '>>'):
            kind = 'shl' if op == '<<' else ('ashr' if et[3] else 'lshr')
            la = lanes(c, a, ew) if ot[0] == 'vec' else [a]
            if rb is not None and rb[0] == 'vec':
                lb = lanes(c, b, rb[2][1])
            else:
                lb = [b] * len(la)
            out = []
            for x, s in zip(la, lb):
                # vector shift instructions saturate the count; scalar ones are undefined beyond the width
                out.append(c.shift(kind, x, s, 'sat' if ot[0] == 'vec' else 'ub'))
            return c.cat(out)
        f = self.arith(op, et)
        if ot[0] != 'vec':
            if c.w[a] != c.w[b]:
                raise Unsupported('width mismatch in %s' % op)
            return f(a, b)
        return c.cat([f(x, y) for x, y in zip(lanes(c, a, ew), lanes(c, b, ew))])

    def vecbits(self, bits, ew):
        return self.c.cat([self.c.rep(x, ew) for x in bits])

    def reduce_bits(self, op, bits):
        c = self.c
        r = c.T
        if op == '==':
            for b in reversed(bits):
                r = c.and1(b, r)
            return r
        r = c.F
        for b in reversed(bits):
            r = c.or1(b, r)
        return r

    def reduce_cmp(self, op, bits):
        return self.c.zext(self.reduce_bits(op, bits), 8)

    def cmpf(self, op, et):
        c = self.c
        if et[2] == 'f':
            if et[1] not in FMT:
                raise Unsupported('long double compare')
            return {'<': c.flt, '>': lambda x, y: c.flt(y, x), '<=': c.fle, '>=': lambda x, y: c.fle(y, x),
                    '==': c.feq, '!=': lambda x, y: c.not1(c.feq(x, y)),
                    '__UNORDERED': c.funord, '__ORDERED': lambda x, y: c.not1(c.funord(x, y)),
                    '__UNLT': lambda x, y: c.or1(c.funord(x, y), c.flt(x, y)),
                    '__UNLE': lambda x, y: c.or1(c.funord(x, y), c.fle(x, y)),
                    '__UNGT': lambda x, y: c.or1(c.funord(x, y), c.flt(y, x)),
                    '__UNGE': lambda x, y: c.or1(c.funord(x, y), c.fle(y, x)),
                    '__UNEQ': lambda x, y: c.or1(c.funord(x, y), c.feq(x, y)),
                    '__LTGT': lambda x, y: c.or1(c.flt(x, y), c.flt(y, x))}[op]
        s = et[3] and et[2] != 'b'
        lt = c.slt if s else c.ult
        return {'<': lt, '>': lambda x, y: lt(y, x), '<=': lambda x, y: c.not1(lt(y, x)),
                '>=': lambda x, y: c.not1(lt(x, y)), '==': c.eq, '!=': lambda x, y: c.not1(c.eq(x, y))}[op]

    def arith(self, op, et):
        c = self.c
        if et[2] == 'f':
            if et[1] not in FMT:
                raise Unsupported('long double')
            return {'+': c.fadd, '-': c.fsub, '*': c.fmul, '/': c.fdiv}[op]
        p = 's' if et[3] else 'u'
        def idiv(o):
            def f(x, y):
                self.ex.divs.append((self._g, y))       # traps when y is zero
                return c.idiv(p + o, x, y)
            return f
        return {'+': c.add, '-': c.sub, '*': c.mul, '/': idiv('div'), '%': idiv('rem')}[op]

    def fn(self, e, lt, rl):
        c = self.c
        n = e[1]
        ta = self.T.of(self.f, e[2][0])
        if n.startswith('vec_unpack') or n.startswith('VEC_PACK'):
            dt = self.T.resolve(lt) or rl
            st = self.T.resolve(ta)
            if dt is None or st is None or dt[0] != 'vec' or st[0] != 'vec':
                raise Unsupported(n + ' types')
            vs = [self.value(x, lt if False else ta) for x in e[2]]
            ls = [l for x in vs for l in lanes(c, x, st[2][1])]
            if 'vec_unpack' in n:
                h = len(ls) // 2
                ls = ls[:h] if '_lo_' in n else ls[h:]
            if len(ls) != dt[1]:
                raise Unsupported(n + ' lanes')
            return c.cat([self.convlane(l, st[2], dt[2]) for l in ls])
        if n == '__VEC_PERM':
            a, b = self.value(e[2][0], lt), self.value(e[2][1], lt)
            mt = self.T.resolve(self.T.of(self.f, e[2][2]))
            m = self.value(e[2][2])
            lanes_n = mt[1] if mt else None
            if lanes_n is None:
                raise Unsupported('VEC_PERM type')
            rt = self.T.resolve(ta) or rl
            n_in = rt[1] if rt and rt[0] == 'vec' else lanes_n
            ew = c.w[a] // n_in
            ls = lanes(c, a, ew) + lanes(c, b, ew)
            mw = c.w[m] // lanes_n
            out = []
            k = (len(ls)).bit_length() - 1
            for i in range(lanes_n):
                idx = c.ext(m, i * mw, min(k, mw))
                if c.w[idx] < k:
                    idx = c.zext(idx, k)
                out.append(x86.pick(c, ls, idx))
            return c.cat(out)
        if n in ('__MIN', '__MAX'):
            et = self.lane_type(lt, ta)
            if et is None:
                raise Unsupported('MIN/MAX type')
            a, b = self.value(e[2][0], lt), self.value(e[2][1], lt)
            if et[2] == 'f':
                return self.perlane(et[1], lambda x, y: x86.fminmax(c, x, y, n == '__MAX'), a, b)
            o = ('s' if et[3] else 'u') + ('min' if n == '__MIN' else 'max')
            return self.perlane(et[1], lambda x, y: c.minmax(o, x, y), a, b)
        if n in ('__ABS', '__ABSU'):
            et = self.lane_type(ta, lt)
            a = self.value(e[2][0], lt)
            if et is None:
                raise Unsupported('ABS type')
            if et[2] == 'f':
                return self.perlane(et[1], c.fabs, a)
            return self.perlane(et[1], lambda x: c.ite(c.top(x), c.neg(x), x), a)
        if n == '__BIT_INSERT':
            a = self.value(e[2][0], lt)
            b = self.value(e[2][1], self.lane_type(lt, ta))
            p = e[2][2][1] if e[2][2][0] == 'int' else c.a[self.value(e[2][2])]
            w = c.w[b]
            if len(e[2]) > 3:
                w = e[2][3][1] if e[2][3][0] == 'int' else c.a[self.value(e[2][3])]
            ps = []
            if p:
                ps.append(c.ext(a, 0, p))
            ps.append(c.ext(b, 0, w))
            if p + w < c.w[a]:
                ps.append(c.ext(a, p + w, c.w[a] - p - w))
            return c.cat(ps)
        if n in ('__ROTATE_LEFT', '__ROTATE_RIGHT'):
            a, b = self.value(e[2][0], lt), self.value(e[2][1])
            if not c.isc(b):
                raise Unsupported('rotate')
            w = c.w[a]
            k = c.a[b] % w
            if n.endswith('RIGHT'):
                k = (w - k) % w
            return c.cat([c.ext(a, w - k, k), c.ext(a, 0, w - k)]) if k else a
        if n in ('w*', 'w+', 'w-'):
            if rl is None or rl[0] != 's':
                raise Unsupported('widening multiply')
            xs = []
            for y in e[2][:2]:
                yt = self.T.resolve(self.T.of(self.f, y)) if y[0] != 'lit' else self.T.resolve(y[1])
                if y[0] == 'int':
                    xs.append(c.const(rl[1], y[1]))
                    continue
                if yt is None or yt[0] != 's':
                    raise Unsupported('widening multiply operand %r %r' % (y, yt))
                xs.append(c.resize(self.value(y), rl[1], yt[3]))
            r = c.mul(*xs)
            if n != 'w*':
                z = e[2][2]
                z = c.const(rl[1], z[1]) if z[0] == 'int' else self.value(z)
                if not isinstance(z, int) or c.w[z] != rl[1]:
                    raise Unsupported('widening multiply-add')
                r = c.add(z, r) if n == 'w+' else c.sub(z, r)
            return r
        if n in self.CMP:
            return self.binop(('bin', n, e[2][0], e[2][1]), lt, rl)
        if n == '__MULT_HIGHPART':
            et = self.lane_type(lt, ta)
            a, b = self.value(e[2][0], lt), self.value(e[2][1], lt)
            w = et[1]

            def f(x, y):
                return c.ext(c.mul(c.resize(x, 2 * w, et[3]), c.resize(y, 2 * w, et[3])), w, w)
            return self.perlane(w, f, a, b)
        raise Unsupported('fn ' + n)

    # --------------------------------------------------------------- calls
    def evalstmt(self, e, cond):
        self._g = cond
        if e[0] == 'call':
            self.callexpr(e, None, None, cond)
            return
        if e[0] == 'val':
            return
        raise Unsupported('statement ' + e[0])

    def args(self, es, wants=None):
        return [self.value(a, None) for a in es]

    def callexpr(self, e, lt, rl, cond):
        c = self.c
        name = e[1]
        es = e[2]
        if name.startswith('.'):
            return self.ifn(name, es, lt, rl, cond)
        n = gimple.strip_uid(name)
        w = self.tw(lt) if lt is not None else None
        if n.startswith('__builtin_ia32_'):
            return self.ia32(n[len('__builtin_ia32_'):], es, w, cond)
        if n.startswith(('__builtin_aarch64_', '__builtin_neon_', '__builtin_altivec_', '__builtin_vsx_')):
            return cross.call(n[len('__builtin_'):], x86.A(self.ex, c, [self.value(a) for a in es], w))
        if n in ('__builtin_memcpy', 'memcpy', '__builtin_memmove', 'memmove'):
            d, s = self.value(es[0]), self.value(es[1])
            k = self.value(es[2], ('s', 64, 'i', False))
            if not c.isc(k):
                raise Unsupported('memcpy size')
            k = c.a[k]
            t = self.memread(s.r, s.o, k * 8, cond, 8, 'memcpy')
            self.memwrite(d.r, d.o, t, cond, 8, 'memcpy')
            return d
        if n in ('__builtin_memset', 'memset'):
            d = self.value(es[0])
            v = self.value(es[1], ('s', 32, 'i', True))
            k = self.value(es[2], ('s', 64, 'i', False))
            t = c.cat([c.ext(v, 0, 8)] * c.a[k])
            self.memwrite(d.r, d.o, t, cond, 8, 'memset')
            return d
        if n in ('__builtin_fprintf', 'fprintf', '__builtin_fwrite', 'fwrite', '__builtin_fputs', 'fputs', '__builtin_fputc', 'fputc'):
            return c.undef(32, 'diag')      # the message of a failed precondition; the abort that follows is what counts
        m = re.match(r'__builtin_(ctz|clz|popcount|ffs|parity)(l|ll|imax)?$', n)
        if m:
            x = self.value(es[0])
            o = m.group(1)
            if o == 'popcount':
                return c.popcnt(x, 32)
            if o == 'ctz':
                return c.ctz(x, 32)
            if o == 'clz':
                return c.clz(x, 32)
            if o == 'ffs':
                return c.ite(c.eq(x, c.const(c.w[x], 0)), c.const(32, 0), c.add(c.ctz(x, 32), c.const(32, 1)))
            raise Unsupported(n)
        if n in ('__builtin_unreachable', '__builtin_trap'):
            return None
        if n.startswith('__builtin_assume_aligned'):
            p = self.value(es[0])
            if isinstance(p, Ptr):
                p.r.log.append(('A', 0, 0, cond, c.a[self.value(es[1])] * 8, 'assume_aligned'))
            return p
        m = re.match(r'__builtin_bswap(16|32|64)$', n)
        if m:
            x = self.value(es[0])
            return c.cat([c.ext(x, i, 8) for i in range(c.w[x] - 8, -1, -8)])
        r = self.libm(n, es, lt, rl, cond)
        if r is not None:
            return r
        key = n
        f = self.ex.mod.fns.get(key)
        if f is not None and f.fullname != name:
            f = None
            for g in self.ex.mod.fns.values():
                if g.fullname == name:
                    f = g
        if f is not None:
            args = [self.value(a, p[1]) for a, p in zip(es, f.params)]
            return self.ex.call(f, args, cond)
        self.ex.calls.append(n)
        raise Unsupported('call ' + n)

    def libm(self, n, es, lt, rl, cond):
        c = self.c
        b = re.sub(r'^__builtin_', '', n)
        b = re.sub(r'^std::', '', b)
        w = None
        if b in ('fabs', 'fabsf', 'sqrt', 'sqrtf', 'floor', 'floorf', 'ceil', 'ceilf', 'trunc', 'truncf', 'rint',
                 'rintf', 'nearbyint', 'nearbyintf', 'round', 'roundf', 'fma', 'fmaf', 'copysign', 'copysignf',
                 'isnan', 'isunordered', 'signbit', 'signbitf', 'roundeven', 'roundevenf', 'isinf', 'isinff',
                 'isfinite', 'finite', 'finitef', 'isnanf'):
            w = 32 if b.endswith('f') and b not in ('isinf',) else 64
            ft = ('s', w, 'f', True)
            xs = [self.value(a, ft) for a in es]
            if xs and c.w[xs[0]] in FMT:
                w = c.w[xs[0]]
            k = b[:-1] if b.endswith('f') and b not in ('isinf',) else b
            if k == 'fabs':
                return c.fabs(xs[0])
            if k == 'sqrt':
                return c.sqrt(xs[0])
            if k in ('floor', 'ceil', 'trunc', 'round'):
                return c.frnd(k, xs[0])
            if k in ('rint', 'nearbyint', 'roundeven'):
                return c.frnd('rint', xs[0])
            if k == 'fma':
                return c.fma(*xs)
            if k == 'copysign':
                return c.cat([c.ext(xs[0], 0, w - 1), c.top(xs[1])])
            if k == 'signbit':
                return c.zext(c.top(xs[0]), 32)
            if k == 'isnan':
                return c.zext(c.fun(xs[0]), 32)
            if k == 'isinf':
                from terms import f_inf
                return c.zext(c.feq(c.fabs(xs[0]), c.const(w, f_inf(w))), 32)
            if k in ('isfinite', 'finite'):
                from terms import f_inf
                return c.zext(c.flt(c.fabs(xs[0]), c.const(w, f_inf(w))), 32)
        m = re.match(r'(%s)_(float|double)$' % '|'.join(sorted(SPECF)), b)
        if m:
            # declared but not defined in the analysed program
            w = {'float': 32, 'double': 64}[m.group(2)]
            return c.call(m.group(1), w, tuple(self.value(a, ('s', 32, 'i', False)) for a in es[:-1]) + (self.value(es[-1], ('s', w, 'f', True)),))
        for suf, w in (('f', 32), ('', 64)):
            if suf and not b.endswith('f'):
                continue
            k = b[:-1] if suf else b
            if k in LIBM1 and len(es) == 1 or k in LIBM2 and len(es) == 2:
                ft = ('s', w, 'f', True)
                xs = tuple(self.value(a, ft) for a in es)
                if c.facmm and k in ('fmin', 'fmax'):
                    return c.fmm('n' + k, *xs)
                return c.call(k, w, xs)
            if k == 'scalbn' or k == 'ldexp':
                ft = ('s', w, 'f', True)
                return c.call('ldexp', w, (self.value(es[0], ft), self.value(es[1], ('s', 32, 'i', True))))
            if k == 'scalbln':
                ft = ('s', w, 'f', True)
                return c.call('scalbln', w, (self.value(es[0], ft), self.value(es[1], ('s', 64, 'i', True))))
            if k in ('ilogb',):
                return c.call('ilogb', 32, (self.value(es[0], ('s', w, 'f', True)),))
            if k in ('lrint', 'lround', 'llrint', 'llround'):
                return c.call(k.replace('ll', 'l'), 64, (self.value(es[0], ('s', w, 'f', True)),))
            if k in ('frexp', 'modf', 'remquo'):
                ft = ('s', w, 'f', True)
                if k == 'remquo':
                    x = (self.value(es[0], ft), self.value(es[1], ft))
                    p = self.value(es[2])
                else:
                    x = (self.value(es[0], ft),)
                    p = self.value(es[1])
                ow = w if k == 'modf' else 32
                self.memwrite(p.r, p.o, c.call(k + '.2', ow, x), cond, None, k)
                return c.call(k, w, x)
        return None

    def ifn(self, name, es, lt, rl, cond):
        c = self.c
        n = name[1:]
        if n in ('VCOND', 'VCONDU', 'VCONDEQ'):
            code = es[4][1] if es[4][0] == 'int' else c.a[self.value(es[4])]
            op = VCODE.get(code)
            if op is None:
                raise Unsupported('vcond code %r' % code)
            at = self.T.resolve(self.T.of(self.f, es[0])) or self.T.resolve(self.T.of(self.f, es[1]))
            if at is None or at[0] != 'vec':
                raise Unsupported('vcond type')
            et = at[2]
            if n == 'VCONDU':
                et = et[:3] + (False,)
            f = self.cmpf(op, et)
            la = lanes(c, self.value(es[0], at), et[1])
            lb = lanes(c, self.value(es[1], at), et[1])
            x, y = self.value(es[2], lt), self.value(es[3], lt)
            ew = c.w[x] // len(la)
            if len(la) != len(lb) or ew * len(la) != c.w[x] or c.w[y] != c.w[x]:
                raise Unsupported('vcond shape')
            return c.cat([c.ite(f(p, q), c.ext(x, i * ew, ew), c.ext(y, i * ew, ew))
                          for i, (p, q) in enumerate(zip(la, lb))])
        if n in ('VCOND_MASK', 'VCOND_MASK_LEN'):
            m = self.value(es[0])
            mt = self.T.resolve(self.T.of(self.f, es[0]))
            x, y = self.value(es[1], lt), self.value(es[2], lt)
            k = rl[1] if rl and rl[0] == 'vec' else (mt[1] if mt else None)
            if not k:
                raise Unsupported('vcond_mask type')
            mw, ew = c.w[m] // k, c.w[x] // k
            return c.cat([c.ite(c.bit(m, i * mw + mw - 1), c.ext(x, i * ew, ew), c.ext(y, i * ew, ew))
                          for i in range(k)])
        if n in ('CTZ', 'CLZ', 'POPCOUNT', 'FFS'):
            x = self.value(es[0])
            w = self.tw(lt) or 32
            if n == 'CTZ':
                z = None
                if len(es) > 1:
                    z = c.a[self.value(es[1], ('s', 32, 'i', True))]
                return c.ctz(x, w, z)
            if n == 'CLZ':
                return c.clz(x, w)
            if n == 'POPCOUNT':
                return c.popcnt(x, w)
        if n in ('SQRT', 'FLOOR', 'CEIL', 'TRUNC', 'RINT', 'NEARBYINT', 'ROUND', 'ROUNDEVEN'):
            et = self.lane_type(lt, self.T.of(self.f, es[0]))
            x = self.value(es[0], lt)
            if n == 'SQRT':
                return self.perlane(et[1], c.sqrt, x)
            md = {'RINT': 'rint', 'NEARBYINT': 'rint', 'ROUNDEVEN': 'rint'}.get(n, n.lower())
            return self.perlane(et[1], lambda v: c.frnd(md, v), x)
        if n in ('FMA', 'FMS', 'FNMA', 'FNMS'):
            et = self.lane_type(lt, *[self.T.of(self.f, a) for a in es])
            xs = [self.value(a, lt) for a in es]

            def f(a, b, d):
                if et[2] != 'f':
                    a = c.mul(a, b)
                    if n in ('FNMA', 'FNMS'):
                        a = c.neg(a)
                    return c.sub(a, d) if n in ('FMS', 'FNMS') else c.add(a, d)
                if n in ('FNMA', 'FNMS'):
                    a = c.fneg(a)
                if n in ('FMS', 'FNMS'):
                    d = c.fneg(d)
                return c.fma(a, b, d)
            return self.perlane(et[1], f, *xs)
        if n in ('COPYSIGN', 'XORSIGN'):
            et = self.lane_type(lt)
            xs = [self.value(a, lt) for a in es]
            if n == 'COPYSIGN':
                return self.perlane(et[1], lambda x, y: c.cat([c.ext(x, 0, et[1] - 1), c.top(y)]), *xs)
            return self.perlane(et[1], lambda x, y: c.cat([c.ext(x, 0, et[1] - 1), c.xor1(c.top(x), c.top(y))]), *xs)
        if n in ('ADD_OVERFLOW', 'SUB_OVERFLOW', 'MUL_OVERFLOW'):
            raise Unsupported(n)
        if n.startswith('COND_'):
            ops = {'COND_ADD': '+', 'COND_SUB': '-', 'COND_MUL': '*', 'COND_RDIV': '/', 'COND_AND': c.band, 'COND_IOR': c.bor, 'COND_XOR': c.bxor}
            et = self.lane_type(lt, *[self.T.of(self.f, a) for a in es[1:]])
            if n not in ops or et is None or len(es) != 4:
                raise Unsupported(n)
            f = ops[n] if callable(ops[n]) else self.arith(ops[n], et)
            m = self.value(es[0])
            x, y, z = [self.value(a, lt) for a in es[1:]]
            ew = et[1]
            k = c.w[x] // ew
            mw = c.w[m] // k
            xs, ys, zs = lanes(c, x, ew), lanes(c, y, ew), lanes(c, z, ew)
            return c.cat([c.ite(c.bit(m, i * mw + mw - 1), f(xs[i], ys[i]), zs[i]) for i in range(k)])
        if n == 'MULH':
            et = self.lane_type(lt)
            xs = [self.value(a, lt) for a in es]
            w = et[1]
            return self.perlane(w, lambda x, y: c.ext(c.mul(c.resize(x, 2 * w, et[3]), c.resize(y, 2 * w, et[3])), w, w), *xs)
        if n in ('FMIN', 'FMAX'):
            et = self.lane_type(lt)
            xs = [self.value(a, lt) for a in es]
            return self.perlane(et[1], lambda x, y: c.call(n.lower(), et[1], (x, y)), *xs)
        if n in ('REDUC_PLUS', 'REDUC_AND', 'REDUC_IOR', 'REDUC_XOR'):
            et = self.lane_type(self.T.of(self.f, es[0]))
            x = self.value(es[0])
            ls = lanes(c, x, et[1])
            f = {'REDUC_PLUS': c.fadd if et[2] == 'f' else c.add, 'REDUC_AND': c.band, 'REDUC_IOR': c.bor,
                 'REDUC_XOR': c.bxor}[n]
            r = ls[0]
            for y in ls[1:]:
                r = f(r, y)
            return r
        k = n.lower()
        if k in LIBM1 and len(es) == 1 or k in LIBM2 and len(es) == 2:
            et = self.lane_type(lt)
            xs = [self.value(a, lt) for a in es]
            return self.perlane(et[1], lambda *v: c.call(k, et[1], v), *xs)
        raise Unsupported('ifn ' + n)

    def ia32(self, n, es, w, cond):
        c = self.c
        # masked memory
        m = re.match(r'storedqu([qhsd]i)(128|256|512)_mask$|storeu?(ps|pd)(128|256|512)_mask$|'
                     r'storedqa(32|64)_(128|256|512)_mask$|storea(ps|pd)(128|256|512)_mask$|'
                     r'store(ap[sd])(\d+)_mask$', n)
        if m:
            ew = self.mew(m)
            p, v, k = [self.value(a) for a in es]
            return self.mstore(p, v, [c.bit(k, i) for i in range(c.w[v] // ew)], ew, cond, n)
        m = re.match(r'loaddqu([qhsd]i)(128|256|512)_mask$|loadu?(ps|pd)(128|256|512)_mask$|'
                     r'loaddqa(32|64)_(128|256|512)_mask$|loada(ps|pd)(128|256|512)_mask$', n)
        m2 = re.match(r'movdqa(32|64)load(128|256|512)_mask$|loadap([sd])(128|256|512)_mask$', n)
        if m or m2:
            if m:
                ew = self.mew(m)
            else:
                ew = int(m2.group(1)) if m2.group(1) else (32 if m2.group(3) == 's' else 64)
            p, v, k = [self.value(a) for a in es]
            return self.mload(p, v, [c.bit(k, i) for i in range(c.w[v] // ew)], ew, cond, n)
        m = re.match(r'maskstore(p[sd]|[dq])(256)?$', n)
        if m:
            ew = {'ps': 32, 'pd': 64, 'd': 32, 'q': 64}[m.group(1)]
            p, k, v = [self.value(a) for a in es]
            return self.mstore(p, v, [c.top(x) for x in lanes(c, k, ew)], ew, cond, n)
        m = re.match(r'maskload(p[sd]|[dq])(256)?$', n)
        if m:
            ew = {'ps': 32, 'pd': 64, 'd': 32, 'q': 64}[m.group(1)]
            p, k = [self.value(a) for a in es]
            W = c.w[k]
            return self.mload(p, c.const(W, 0), [c.top(x) for x in lanes(c, k, ew)], ew, cond, n)
        if n in ('maskmovdqu', 'maskmovq'):
            v, k, p = [self.value(a) for a in es]
            return self.mstore(p, v, [c.top(x) for x in lanes(c, k, 8)], 8, cond, n)
        m = re.match(r'(loaddqu|loadup[sd]|lddqu|loaddqa|loadap[sd])(256|512)?$', n)
        if m:
            p = self.value(es[0])
            W = int(m.group(2) or 128)
            return self.memread(p.r, p.o, W, cond, 8, n)
        m = re.match(r'(storedqu|storeup[sd]|movnt\w+)(256|512)?$', n)
        if m:
            p, v = [self.value(a) for a in es]
            self.memwrite(p.r, p.o, v, cond, 8 if 'movnt' not in n else c.w[v], n)
            return None
        m = re.match(r'(loadlp[sd]|loadhp[sd])$', n)
        if m:
            v, p = [self.value(a) for a in es]
            t = self.memread(p.r, p.o, 64, cond, 8, n)
            return c.cat([t, c.ext(v, 64, 64)]) if 'loadl' in n else c.cat([c.ext(v, 0, 64), t])
        m = re.match(r'(storelp[sd]|storehp[sd]|storelv\w+)$', n)
        if m:
            p, v = [self.value(a) for a in es]
            self.memwrite(p.r, p.o, c.ext(v, 64 if 'storeh' in n else 0, 64), cond, 8, n)
            return None
        m = re.match(r'vbroadcasts([sd])(256|512)?$', n)
        if m and es[0][0] in ('addr', 'var'):
            p = self.value(es[0])
            if isinstance(p, Ptr):
                ew = 32 if m.group(1) == 's' else 64
                t = self.memread(p.r, p.o, ew, cond, None, n)
                return c.cat([t] * (int(m.group(2) or 128) // ew))
        m = re.match(r'pmov(s|us)?(wb|dw|db|qd|qw|qb)(128|256|512)mem_mask$', n)
        if m:
            p, v, k = [self.value(a) for a in es]
            s, d = x86.EW[m.group(2)[0]], x86.EW[m.group(2)[1]]
            ls = lanes(c, v, s)
            if m.group(1):
                raise Unsupported(n)
            t = c.cat([c.ext(x, 0, d) for x in ls])
            return self.mstore(p, t, [c.bit(k, i) for i in range(len(ls))], d, cond, n)
        if n in ('sfence', 'lfence', 'mfence', 'vzeroupper', 'vzeroall', 'emms', 'pause'):
            return None
        if n in ('stmxcsr', 'ldmxcsr'):
            raise Unsupported(n)
        xs = []
        self.nanbits = n.startswith('vtest')
        for a in es:
            if a[0] == 'lit' and a[1] is None:
                raise Unsupported('untyped vector literal')
            h = None
            if a[0] == 'lit' and self.T.resolve(a[1]) is None or (a[0] == 'var' and a[1].endswith('(D)')):
                h = self.bhint(n, a, w)
            xs.append(self.value(a, h))
        self.nanbits = False
        if any(isinstance(x, Ptr) for x in xs):
            raise Unsupported('builtin %s with pointer' % n)
        r = x86.call(n, x86.A(self.ex, c, xs, w))
        if w and c.w[r] != w:
            if c.w[r] < w:
                r = c.zext(r, w)
            else:
                r = c.ext(r, 0, w)
        return r

    def bhint(self, n, a, w):
        """operand type of a vector builtin, from its name"""
        m = re.search(r'p([sd])(?=$|\d|_)|(?<=[a-z])(\d\d?)(?=_mask|$)', n)
        if m and m.group(1):
            el = ('s', 32 if m.group(1) == 's' else 64, 'f', True)
        else:
            el = ('s', 32, 'i', True) if w else None
        W = w
        if a[0] == 'lit' and isinstance(a[2], list):
            return ('vec', len(a[2]), el) if m and m.group(1) else None
        return ('vec', W // el[1], el) if W and el and W >= el[1] else None

    def mew(self, m):
        for g in m.groups():
            if g in x86.EW:
                return x86.EW[g]
            if g in ('32', '64'):
                return int(g)
            if g and g.startswith('ap'):
                return x86.EW[g[1:]]
        raise Unsupported('masked width')

    def mstore(self, p, v, bits, ew, cond, note):
        c = self.c
        for i, b in enumerate(bits):
            g = c.and1(cond, b)
            if g != c.F:
                self.memwrite(p.r, c.add(p.o, c.const(64, i * ew // 8)), c.ext(v, i * ew, ew), g, 8, note)
        return None

    def mload(self, p, src, bits, ew, cond, note):
        c = self.c
        out = []
        for i, b in enumerate(bits):
            g = c.and1(cond, b)
            s = c.ext(src, i * ew, ew)
            if g == c.F:
                out.append(s)
                continue
            t = self.memread(p.r, c.add(p.o, c.const(64, i * ew // 8)), ew, g, 8, note)
            out.append(c.ite(b, t, s))
        return c.cat(out)
