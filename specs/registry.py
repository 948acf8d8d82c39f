"""the properties, and the obligation tables that decide each of them"""
from common import *
import arith, shifts, compare_ops, unary, access, loadstore, where, casts, splitconcat, maskred, reduce, minmax, maskconv, padding, mathf, mathdec, mathlib, typelevel, hygiene, constop, modes, numeric, native

PROPS = {}
VALUE = ('Each obligation is one library operation in one configuration (target, element type, ABI). It is compiled with the '
         'current headers to optimised GIMPLE, every function is interpreted once over a value-numbering domain (all paths '
         'merged in gated form, memory as value-numbered regions) and the normal form of every output lane, plus the set of '
         'bytes read and written, is compared with the normal form of a scalar loop that states the meaning. '
         'discharged = normal forms coincide; undecided = they differ but no valuation separates them (not reported).')
TRUST = ['GCC 13 front end and middle end up to the optimized GIMPLE dump, and its back end, preserve meaning',
         'the lane semantics of the x86 builtins transcribed in engine/x86.py',
         'only the listed targets, element types and ABI tags are covered']


class Prop:
    def __init__(self, id, tus=None, extra=(), floor=500, explain=VALUE, assumptions=TRUST):
        self.id, self.tus, self.extra, self.floor, self.explain, self.assumptions = id, tus, list(extra), floor, explain, assumptions
        PROPS[id] = self


QUICK = [(t, 'native') for t in X86] + [('sse2', 'fs5'), ('sse4', 'fs3'), ('avx', 'fs17'), ('avx2', 'fs3'), ('knl', 'fs5'), ('skx', 'avx'),
                                           ('skx', 'sse'), ('skx', 'fs7'), ('avx2', 'scalar'), ('sse2', 'ded3'), ('sse4', 'ded7'), ('avx2', 'ded5'), ('skx', 'ded3'), ('skx', 'ded7'), ('sse2', 'ded4'),
                                           ('avx2', 'ded2'), ('skx', 'ded4'), ('sse4', 'ded12'), ('sse4', 'fs6'), ('avx2', 'fs12'), ('skx', 'fs18')]
THOROUGH = [(t, a) for t in X86 for a in ('native', 'scalar', 'fs2', 'fs3', 'fs5', 'fs6', 'fs7', 'fs8', 'fs12', 'fs16', 'fs17', 'fs18', 'fs32', 'compat', 'ded2', 'ded3', 'ded4', 'ded5', 'ded7', 'ded12')] + [
    (t, 'sse') for t in ('avx', 'avx2', 'skx', 'knl')] + [(t, 'avx') for t in ('skx', 'knl')]


# other architectures: the same obligations over the GIMPLE of the cross compilers (ARM: only where its 32-bit model fits the tables)
CQUICK = [('neon', 'native'), ('neon', 'ded3'), ('ppc', 'native'), ('ppc', 'fs5')]
CTHOROUGH = [(t, a) for t in ('neon', 'ppc') for a in ('native', 'scalar', 'fs3', 'fs5', 'fs8', 'ded2', 'ded3', 'ded4', 'ded5', 'ded7')]
AQUICK = [('arm', 'native')]
ATHOROUGH = [('arm', a) for a in ('native', 'ded2', 'ded3', 'fs5')]


SPLIT = 600          # operations per translation unit


def matrix(mod, types=ALL, quick=QUICK, thorough=THOROUGH, pre=prelude, cross=True, arm=False):
    if cross and quick is QUICK:
        quick, thorough = quick + CQUICK + AQUICK * arm, thorough + CTHOROUGH + ATHOROUGH * arm
    def tus(tier):
        out = []
        pairs = quick if tier == 'quick' else thorough
        for tg, ab in pairs:
            more = tier != 'quick' or (tg, ab) == ('avx2', 'native')
            tt = types + MOREINTS if types is ALL and more else types
            for T in tt:
                if tg == 'arm' and T in ('double', 'long', 'unsigned long'):
                    continue            # no vector of double; long is 32 bits wide
                ops = specops(mod, T, tier, tg, ab)
                for i in range(0, len(ops), SPLIT):
                    part = ops[i:i + SPLIT]
                    part[0].lay = list(part[0].lay) + layof(tg, T, nlanes(tg, ab, T), 'V')
                    out.append(TU(tg, '%s/%s/%s' % (tg, SHORT.get(T, T), ab), pre(T, ab), part))
        return out
    return tus


Prop('P01', matrix(arith, arm=True))
CSHIFT = type('m', (), {'ops': staticmethod(shifts.const_ops)})
Prop('P02', lambda tier: matrix(shifts)(tier) + matrix(CSHIFT,
                                                       quick=[('sse2', 'native'), ('avx2', 'native'), ('skx', 'native')])(tier))
Prop('P03', matrix(compare_ops, arm=True))
Prop('P04', matrix(unary, arm=True))
Prop('P05', matrix(access))
Prop('P06', matrix(loadstore))
Prop('P07', matrix(where, arm=True))
Prop("P08", matrix(casts))
Prop("P09", matrix(splitconcat))
Prop('P10', matrix(maskred, arm=True))
Prop('P11', matrix(reduce, arm=True))
Prop('P12', matrix(minmax, arm=True))
Prop("P13", matrix(maskconv))
Prop("P22", matrix(padding, types=['signed char', 'unsigned short', 'int', 'long', 'float', 'double'], pre=padding.prelude_dirty,
                   quick=[('sse2', 'ded3'), ('sse2', 'ded7'), ('avx', 'ded5'), ('avx2', 'ded3'), ('avx2', 'ded5'), ('avx2', 'ded7'), ('skx', 'ded3'), ('skx', 'ded5'), ('skx', 'ded12')],
                   thorough=[(t, a) for t in X86 for a in ('ded3', 'ded5', 'ded7', 'ded12')]))
MATHQ = [('sse2', 'native'), ('sse4', 'native'), ('avx2', 'native'), ('knl', 'native'), ('skx', 'native'), ('sse2', 'scalar'), ('sse2', 'fs7'), ('avx', 'fs3'), ('skx', 'fs5'), ('sse2', 'ded3'), ('avx2', 'ded3'), ('skx', 'ded3')]
MATHQ += [('neon', 'native'), ('ppc', 'native')]
MATHT = [(t, a) for t in X86 for a in ('native', 'scalar', 'fs3', 'fs5', 'fs7', 'fs16', 'ded3', 'ded5')] + [('avx2', 'sse'), ('skx', 'sse'), ('skx', 'avx')] + [(t, a) for t in ('neon', 'ppc') for a in ('native', 'fs3', 'ded3')]
Prop("P14", matrix(mathf, types=FLOATS, quick=MATHQ, thorough=MATHT))
Prop("P15", matrix(mathdec, types=FLOATS, quick=MATHQ, thorough=MATHT), floor=100)
Prop("P16", matrix(mathlib, types=FLOATS, quick=MATHQ + [('skx', 'fs3')], thorough=MATHT))

SOME = ['signed char', 'unsigned short', 'int', 'unsigned long', 'float', 'double']
Prop('P24', lambda tier: matrix(CSHIFT, quick=[('sse2', 'native'), ('sse4', 'native'), ('avx2', 'native'), ('skx', 'native')])(tier) + matrix(constop, types=SOME, pre=constop.prelude_const, quick=[('sse2', 'native'), ('avx2', 'native'), ('skx', 'native'), ('knl', 'native'), ('neon', 'native'), ('sse4', 'fs3'), ('skx', 'ded3')],
                   thorough=[(t, a) for t in X86 for a in ('native', 'scalar', 'fs5', 'ded3')] + [(t, a) for t in ('neon', 'ppc') for a in ('native', 'ded3')])(tier))

MQUICK = [('avx2+20', 'native'), ('sse2+dbg', 'native'), ('skx+dbg', 'native'), ('sse2+nso', 'native'), ('avx2+nso', 'native'), ('sse2+fin', 'native'), ('avx2+fin', 'native'),
          ('skx+fin', 'ded3'), ('sse2+fast', 'native'), ('sse4+fast', 'native'), ('avx2+fast', 'native'), ('skx+fast', 'native'), ('sse2+fast', 'fs5'), ('avx2+nobmi', 'native'),
          ('avx+nobmi', 'ded5'), ('skx+nodq', 'native'), ('sse2+xop', 'native'), ('neon+fast', 'native'), ('ppc+fast', 'native')]
MTHOROUGH = [(t + '+' + m, a) for t in ('sse2', 'sse4', 'avx2', 'skx') for m in ('20', 'dbg', 'nso', 'fin', 'fast') for a in ('native', 'ded3', 'fs5')] + [
    (t + '+nobmi', a) for t in ('avx', 'avx2', 'skx') for a in ('native', 'ded5')] + [('skx+nodq', 'native'), ('skx+nodq', 'ded3'), ('sse2+xop', 'native'), ('sse2+xop', 'ded3')] + [
    (t + '+' + m, 'native') for t in ('neon', 'ppc') for m in ('20', 'fast', 'fin')]
Prop('P25', matrix(modes, types=['unsigned short', 'int', 'float', 'double'], quick=MQUICK, thorough=MTHOROUGH))

TYPES = ('Each obligation is a constant expression over types or values - a trait, the type of an expression, whether an expression is '
         'well-formed, a convertibility - generated from the C++ rules by an independent table in specs/typelevel.py, asserted against '
         'the current headers and decided by the compiler\'s type checker; nothing is executed. A refuted assertion, or a hard error '
         'where the rules promise a diagnosable answer (SFINAE), is reported.')
TTRUST = ['the type checker of GCC 13', 'the tables in specs/typelevel.py transcribe the rules of the Parallelism TS v2 [parallel.simd]',
          'only the listed targets, element types and ABI tags are covered']
Prop('P17', extra=[typelevel.jobs_traits], explain=TYPES, assumptions=TTRUST)
Prop('P18', extra=[typelevel.jobs_overload, typelevel.jobs_math], explain=TYPES, assumptions=TTRUST)
Prop('P27', matrix(native))
Prop('P26', extra=[numeric.jobs_numeric], explain=TYPES.replace('C++ rules', 'formats of the types').replace('typelevel.py', 'numeric.py'),
     assumptions=['the type checker and constant evaluator of GCC 13', 'binary32/binary64, the x87 and quad long double formats and two\'s complement, per target'])
Prop('P20', extra=[hygiene.jobs_header], floor=150, explain=(
    'The header alone is compiled for every target in six variants (-O0, -O2, with the debug assertions, C++20, -ffast-math, without exceptions and RTTI) '
    'and the symbol and section tables of the object are inspected: no definition with external strong linkage, no initialiser '
    'that runs at program start, no writable static object. A second pass type-checks the header after defining every unreserved '
    'identifier that occurs in the headers and does not belong to the standard library as a macro: a use of one of them that the preprocessor sees is reported with its line.'),
     assumptions=['GCC 13 emits into the object what the header defines', 'the names a program may not define are the names of the standard library listed in engine/effects.py'])
Prop('P23', extra=[hygiene.jobs_effects], floor=5000, explain=(
    'Every operation of the obligation tables is compiled into a section of its own; the transitive closure of the references (relocations) of that section is '
    'the set of objects and functions the operation can reach. It must not contain writable static or thread-local storage, nor a call that leaves '
    'the library except plain memory moves, the arithmetic runtime of the compiler and - for the functions of <cmath> only - libm and the '
    'special functions of libstdc++. Reported: the symbol and the path of references that leads to it.'),
     assumptions=['GCC 13 preserves the references of the source it does not prove dead', 'only the listed targets, element types and ABI tags are covered'])
