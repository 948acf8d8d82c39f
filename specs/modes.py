"""the obligations of the other tables, compiled under further language modes, macros of the library and instruction subsets"""
from common import *
import arith, shifts, compare_ops, unary, access, loadstore, where, casts, splitconcat, maskred, reduce, minmax, maskconv, mathf, mathdec

EXACT = (mathf, compare_ops, access, loadstore, where, splitconcat, maskred, maskconv, casts)
VALUES = (arith, shifts, compare_ops, unary, access, loadstore, where, casts, splitconcat, maskred, reduce, minmax, maskconv)


def ops_for(T, tier, target="avx2+20", abi="native"):
    mode = target.split('+')[1]
    out = []
    for m in VALUES + ((mathf,) if mode in ('20', 'fin', 'fast', 'dbg') else ()):
        if m is splitconcat and abi.startswith('fs'):
            continue
        for op in specops(m, T, tier, target, abi):
            if op.name.startswith('mask_default_init'):
                continue            # known finding of P05, stated there
            if mode in ('fin', 'fast') and isfloat(T):
                # the compiler may assume that no NaN, infinity or (fast) negative zero occurs
                if op.name.endswith('_same') or mode == 'fast' and m not in EXACT:
                    continue
                if mode == 'fast' and op.name in ('fpclassify', 'signbit', 'isnormal'):
                    continue            # tell subnormals and the zeros apart
                if mode == 'fast' and op.name.startswith('assign_constant_3'):
                    continue            # -0.0
                op.mode.update({'finite': True, 'zeroeq': mode == 'fast' or m is mathf})
            op.name = '%s.%s' % (m.__name__, op.name)
            out.append(op)
    return out
