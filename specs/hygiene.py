"""effects of the header and of the operations (engine/effects.py)"""
from common import *
import effects
import arith, shifts, compare_ops, unary, access, loadstore, where, casts, splitconcat, maskred, reduce, minmax, maskconv, mathf, mathdec, mathlib

PLAIN = [arith, shifts, compare_ops, unary, access, loadstore, where, casts, splitconcat, maskred, reduce, minmax, maskconv]
MATH = [mathf, mathdec]

CHUNK = 150


def jobs_header(tier, sdir):
    return [(t, f, (t, sdir)) for t in TARGETS if '+' not in t for f in (effects.header, effects.names)]


def jobs_effects(tier, sdir):
    q = [('sse2', 'native'), ('avx2', 'fs5'), ('skx', 'ded3'), ('skx', 'native'), ('neon', 'native'), ('ppc', 'native')]
    t = [(x, a) for x in X86 for a in ('native', 'scalar', 'fs5', 'ded3', 'fs17')] + [(x, a) for x in ('neon', 'ppc') for a in ('native', 'ded3', 'fs5')]
    out = []
    for tg, ab in q if tier == 'quick' else t:
        for T in ['signed char', 'unsigned short', 'int', 'unsigned long', 'float', 'double'] if tier == 'quick' else ALL:
            for mods, lm in ((PLAIN, False), (MATH, True)):
                if lm and T not in FLOATS:
                    continue
                ops = []
                seen = set()
                for m in mods:
                    for o in specops(m, T, 'quick', tg, ab):
                        n = m.__name__ + '.' + o.name
                        if n not in seen:
                            seen.add(n)
                            ops.append(Op(n, o.params, o.simd, '' if o.ret == 'void' else 'return {};', o.ret, {'flags': o.mode['flags']} if 'flags' in o.mode else {}, o.pre))
                for i in range(0, len(ops), CHUNK):
                    out.append((tg, effects.job, (TU(tg, '%s/%s/%s%s' % (tg, SHORT.get(T, T), ab, '/math' if lm else ''), prelude(T, ab), ops[i:i + CHUNK]), sdir, lm)))
    return out
