#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = 'experimental/bits/'
CFG = 'every element value, every supported element type, every width/ABI tag and every instruction-set level the headers specialise for'
TEST = ('the test suite compiles a few argument-passing and constructor snippets and greps their assembly for two types; no operation '
        'result is checked for any value, so %s')
GVN = 'GVN-based equivalence of optimized GIMPLE against a scalar reference (abstract interpretation, no execution)'
NOTE = ('Value-numbering equality covers every input of each analysed configuration; trusts GCC\'s middle end up to the dump, its back '
        'end, and the hand-transcribed lane semantics of x86 builtins. Configurations outside the enumerated matrix are not covered.')
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, tech=GVN, note=NOTE, observe=None, claim=True, reason=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note,
                      observe=observe, claim=claim, reason=reason))


IC = ['inputs', 'configurations']
prop('P01', 'Arithmetic and bitwise operators are element-wise and match the scalar operators',
     'For every element type, ABI and target, each binary +, -, *, /, %, &, |, ^ and its compound-assignment form yields in lane i exactly '
     'what the scalar operator yields on lanes i of the operands (integers narrower than int wrap to the element type; floating-point '
     'results are bit-identical up to NaN payload). No lane depends on another lane.',
     IC, CFG + '; integer division only where the scalar operation is defined.',
     TEST % 'a wrong lane order, a lost carry or a mis-rounded narrow multiply is invisible to it.',
     ['experimental/bits/simd.h', B + 'simd_builtin.h', B + 'simd_x86.h', B + 'simd_fixed_size.h', B + 'simd_scalar.h'],
     [('x86 8-bit multiply, short/char division via float or wider lanes', B + 'simd_x86.h (_S_multiplies, _S_divides, _S_modulus)'),
      ('tuple-wise application for fixed_size', B + 'simd_fixed_size.h (_SIMD_FIXED_OP macros)')])
prop('P02', 'Shift operators are element-wise for per-lane and for common shift counts',
     'For every integral element type, v << w, v >> w with per-lane counts in [0, width) and v << n, v >> n with a common count valid for the '
     'promoted scalar give in every lane the scalar result converted to the element type; right shifts of signed types replicate the sign.',
     IC, 'every value, every valid count (run-time or constant), every integral element type, ABI and target.',
     TEST % 'x86 has no 8-bit and (before AVX-512) no 16-bit per-lane shifts, and the emulations are never executed.',
     [B + 'simd_builtin.h', B + 'simd_x86.h'],
     [('emulated per-lane shifts for 8/16-bit lanes and immediate-count special cases', B + 'simd_x86.h (_S_bit_shift_left, _S_bit_shift_right)'),
      ('generic shifts', B + 'simd_builtin.h (_S_bit_shift_left, _S_bit_shift_right)')])
prop('P03', 'Comparisons and mask logic are element-wise',
     'Every comparison of two vectors gives a mask whose lane i is the scalar comparison of lanes i (unordered float operands included), and '
     'mask !, &, |, ^, &&, ||, ==, != and the compound forms act on each lane as on bool. All lanes of a mask stay observable as exactly true or false.',
     IC, CFG + ', including NaN, infinities and signed zeros.',
     TEST % 'unsigned comparisons built from signed ones, and the bit-mask representations of AVX-512, are never executed.',
     [B + 'simd_builtin.h', B + 'simd_x86.h', B + 'simd.h', B + 'simd_fixed_size.h'],
     [('comparison lowering to vector masks or bit masks', B + 'simd_x86.h (_S_equal_to, _S_not_equal_to, _S_less, _S_less_equal)'),
      ('mask representation operations', B + 'simd_builtin.h (_MaskImplBuiltin)')])
prop('P04', 'Unary operators, increment and decrement are element-wise',
     'Unary +, -, ~, !, ++ and -- (prefix and postfix) act on every lane as the scalar operator does, prefix forms return the updated object '
     'and postfix forms the previous value.',
     IC, CFG + '.', TEST % 'the sign flip of zeros, the wrap of the most negative value and the value returned by postfix forms are unobserved.',
     [B + 'simd.h', B + 'simd_builtin.h', B + 'simd_x86.h', B + 'simd_fixed_size.h'],
     [('unary operators', B + 'simd_builtin.h (_S_unary_minus, _S_complement, _S_negate, _S_increment, _S_decrement)')])
prop('P05', 'Element access, broadcast and generators touch exactly their lanes',
     'Broadcast sets every lane, a generator sets lane i to its i-th result, subscripting reads lane i, and assigning, compound-assigning, '
     'incrementing or swapping through a subscript reference changes lane i only and yields the scalar result; the same holds for masks.',
     IC, CFG + '; every lane index, also run-time indexes.',
     TEST % 'lane numbering across the parts of a multi-register vector is never observed.',
     [B + 'simd.h', B + 'simd_builtin.h', B + 'simd_fixed_size.h', B + 'simd_detail.h'],
     [('proxy reference', B + 'simd.h (_SmartReference)'), ('element get/set', B + 'simd_fixed_size.h (_SimdTuple::operator[], _M_set)'),
      ('generator constructors', B + 'simd.h (_S_generator)')])
prop('P06', 'Loads and stores convert element-wise, within bounds and alignment',
     'Loading size() elements (constructor or copy_from) and storing them (copy_to), for vectors and masks, with or without conversion of the '
     'element type, moves element i to or from lane i with the value of the scalar conversion. It accesses no byte outside the size() '
     'elements and assumes no more alignment than the given flag promises.',
     IC, 'every value for which the scalar conversion is defined, every pair of arithmetic types, every flag, ABI and target.',
     TEST % 'out-of-range lanes of partial registers, converting loads and over-aligned instructions on element-aligned memory are never exercised.',
     [B + 'simd.h', B + 'simd_builtin.h', B + 'simd_x86_conversions.h', B + 'simd_fixed_size.h', B + 'simd_x86.h'],
     [('full and partial loads/stores', B + 'simd_builtin.h (_S_load, _S_store)'), ('register conversions', B + 'simd_x86_conversions.h (__convert_x86)'),
      ('mask loads/stores', B + 'simd_x86.h (_MaskImplX86::_S_load, _S_store)')])


exec(open(os.path.join(H, 'tools', 'more_props.py')).read()) if os.path.exists(os.path.join(H, 'tools', 'more_props.py')) else None

with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                                        'observe_at': p['observe'] or ['results and memory effects of the public operation'], 'hook_needed': None}}) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 -m compileall -q engine specs check.py',
       'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                   'technique': p['tech'], 'level': 'other', 'level_note': p['note']} for p in PROPS if p['claim']],
       'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in PROPS if not p['claim']],
       'notes': 'See DESIGN.md. No hooks are needed: the headers are analysed as they are.'}
json.dump(man, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
