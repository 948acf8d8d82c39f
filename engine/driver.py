"""Compile wrapper translation units against the current /repo headers, dump
the optimised GIMPLE, and run the value-numbering comparison per obligation."""
import os, re, subprocess, sys, tempfile, shutil, signal, time, hashlib
import gimple, interp, compare
from compare import Param
from terms import TooBig
from x86 import Unsupported

REPO = os.environ.get('SIMD_REPO', '/repo')
CXX = 'g++'
BASEFLAGS = ['-std=c++17', '-O3', '-fno-tree-vectorize', '-fno-tree-slp-vectorize', '-ffp-contract=off',
             '-fno-ipa-icf', '-fno-ipa-sra', '-fno-ipa-cp', '-fno-ivopts', '-fno-tree-loop-distribute-patterns', '-w', '-I' + REPO,
             '--param', 'sra-max-scalarization-size-Ospeed=4096']
TARGETS = {
    'sse2': ['-march=x86-64'],
    'ssse3': ['-march=core2'],
    'sse4': ['-march=nehalem'],
    'avx': ['-march=ivybridge'],
    'avx2': ['-march=haswell'],
    'skx': ['-march=skylake-avx512'],
    'knl': ['-march=knl'],
    'neon': [],
    'arm': ['-march=armv7-a+simd'],
    'ppc': [],
}
# further compile modes of some targets
MODES = {'20': ['-std=c++20'], 'fin': ['-ffinite-math-only'], 'fast': ['-ffast-math'], 'dbg': ['-D_GLIBCXX_DEBUG_UB'], 'nso': ['-D_GLIBCXX_SIMD_NO_SHIFT_OPT'], 'O1': ['-O1'],
         'nsz': ['-fno-signed-zeros'], 'wrapv': ['-fwrapv'], 'rm': ['-frounding-math', '-ftrapping-math'], 'nobuiltin': ['-fno-math-errno'],
         'nodq': ['-mno-avx512dq'], 'nobmi': ['-mno-bmi', '-mno-bmi2', '-mno-popcnt', '-mno-lzcnt'],
         'xop': ['-march=bdver2'], 'issue': ['-D_GLIBCXX_SIMD_FIX_P2TS_ISSUE65', '-D_GLIBCXX_SIMD_FIX_P2TS_ISSUE66'], 'impl': ['-D_GLIBCXX_SIMD_ENABLE_IMPLICIT_MASK_CAST']}
CROSS = {'neon': 'aarch64-linux-gnu-g++', 'arm': 'arm-linux-gnueabihf-g++', 'ppc': 'powerpc64le-linux-gnu-g++'}
for _t in ('sse2', 'sse4', 'avx', 'avx2', 'skx', 'knl', 'neon', 'arm', 'ppc'):
    for _m, _f in MODES.items():
        TARGETS['%s+%s' % (_t, _m)] = TARGETS[_t] + _f
        if _t in CROSS:
            CROSS['%s+%s' % (_t, _m)] = CROSS[_t]


def cxx(target):
    return CROSS.get(target, CXX)


PRE = '''#include <experimental/simd>
#include <cmath>
#include <cstring>
#include <limits>
#include <functional>
#include <tuple>
#include <array>
#include <bitset>
#include <type_traits>
template <class T, int L, class = void> struct lay_lv { struct type { char first, second; }; };
template <class T, int L> struct lay_lv<T, L, std::void_t<typename T::_SecondType>>
{ using type = typename std::conditional_t<L == 0, std::enable_if<true, T>, lay_lv<typename T::_SecondType, L - 1>>::type; };
template <class V> using lay_d = std::remove_cv_t<std::remove_reference_t<decltype(__data(std::declval<V&>()))>>;
#define LAY(K, L, ...) \
extern "C" long layf_##K##_##L(typename lay_lv<lay_d<__VA_ARGS__>, L>::type& t) { auto* p = &t.first; return sizeof(*p); } \
extern "C" long layo_##K##_##L(typename lay_lv<lay_d<__VA_ARGS__>, L>::type& t) { auto* p = &t.second; return reinterpret_cast<const char*>(p) - reinterpret_cast<const char*>(&t); } \
extern "C" long layz_##K##_##L(typename lay_lv<lay_d<__VA_ARGS__>, L>::type& t) { return sizeof(t); }
namespace stdx = std::experimental;
namespace par = std::experimental::parallelism_v2;
'''

KIND = {
    'float': ('f', 32), 'double': ('f', 64), 'long double': ('f', 80), 'bool': ('b', 8),
    'char': ('i', 8), 'signed char': ('i', 8), 'unsigned char': ('u', 8),
    'short': ('i', 16), 'unsigned short': ('u', 16), 'char16_t': ('u', 16),
    'int': ('i', 32), 'unsigned': ('u', 32), 'unsigned int': ('u', 32), 'char32_t': ('u', 32), 'wchar_t': ('i', 32),
    'long': ('i', 64), 'unsigned long': ('u', 64), 'long long': ('i', 64), 'unsigned long long': ('u', 64),
}
SHORT = {'signed char': 'schar', 'unsigned char': 'uchar', 'unsigned short': 'ushort', 'unsigned': 'uint',
         'unsigned long': 'ulong', 'long long': 'llong', 'unsigned long long': 'ullong'}


def kind(target, t):
    target = target.split('+')[0]
    if target in CROSS and (t == 'char' or t == 'wchar_t' and target != 'ppc'):
        return ('u', KIND[t][1])
    if target == 'arm' and t in ('long', 'unsigned long'):
        return (KIND[t][0], 32)
    return KIND[t]


class Op:
    """one obligation: library expression vs. scalar reference"""

    def __init__(self, name, params, simd, ref, ret='void', mode=None, pre='', lay=()):
        # params: list of (name, ctype, count expression | None, 'in'|'out')
        self.name, self.params, self.simd, self.ref = name, params, simd, ref
        self.ret, self.mode, self.pre = ret, dict(mode or {}), pre
        self.lay = list(lay)        # (type, number of lanes): storage layouts the analysis needs


class TU:
    """one translation unit: a configuration and its operations"""

    def __init__(self, target, label, prelude, ops, desc=None):
        self.target, self.label, self.prelude, self.ops = target, label, prelude, ops
        self.desc = desc or {}
        self.flags = sorted({f for o in ops for f in o.mode.get('flags', ())})


def source(tu, pch):
    out = ['#include "pre.h"' if pch else PRE, tu.prelude]
    lays = []
    for op in tu.ops:
        lays += [l for l in op.lay if l not in lays]
    for k, (ty, levels) in enumerate(lays):
        for l in range(levels + 1):
            out.append('LAY(%d, %d, %s)' % (k, l, ty))
    for k, op in enumerate(tu.ops):
        if op.pre:
            out.append(op.pre)
        ps = []
        for n, t, cnt, d in op.params:
            if cnt is None:
                ps.append('%s %s' % (t, n))
            else:
                ps.append('%s%s* %s' % ('const ' if d == 'in' else '', t, n))
                out.append('extern "C" int q_%d_%s() { return %s; }' % (k, n, cnt))
        for n, e in op.mode.get('align', {}).items():
            if isinstance(e, str):
                out.append('extern "C" int qa_%d_%s() { return %s; }' % (k, n, e))
        sig = ', '.join(ps)
        out.append('#line %d "%s"' % (1, 'spec/' + op.name))
        out.append('extern "C" __attribute__((flatten,noipa)) %s w_%d(%s) { %s }' % (op.ret, k, sig, op.simd))
        out.append('#line %d "%s"' % (1, 'ref/' + op.name))
        out.append('extern "C" __attribute__((flatten,noipa)) %s e_%d(%s) { %s }' % (op.ret, k, sig, op.ref))
        for j, t in enumerate(op.mode.get('alt', ())):
            out.append('#line %d "%s"' % (1, 'alt/' + op.name))
            out.append('extern "C" __attribute__((flatten,noipa)) %s x_%d_%d(%s) { %s }' % (op.ret, k, j, sig, t))
    return '\n'.join(out) + '\n'


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='simdsa.')
        self.pch = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def tdir(self, target):
        return os.path.join(self.dir, 'pch-' + target)


def run(cmd, timeout=600, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return -1, '', 'timeout'


def build_pch(args):
    d, target, extra = args
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'pre.h'), 'w') as f:
        f.write('#pragma once\n' + PRE)
    rc, o, e = run([cxx(target)] + BASEFLAGS + TARGETS[target] + list(extra) + ['-x', 'c++-header', os.path.join(d, 'pre.h'), '-o',
                                                         os.path.join(d, 'pre.h.gch')])
    return target, rc, e


class Alarm(Exception):
    pass


ARMED = [False]


def _tick(*a):
    if ARMED[0]:
        raise Alarm()


def src_lines(tu_src, k, d, target, work):
    """/repo source lines that contribute statements to wrapper k"""
    f = os.path.join(work, 'ln.txt')
    if not os.path.exists(f):
        rc, o, e = run([cxx(target)] + BASEFLAGS + TARGETS[target] + ['-I' + d, '-c', tu_src, '-o', '/dev/null',
                                                              '-fdump-tree-optimized-lineno=' + f])
    try:
        text = open(f, errors='replace').read()
    except OSError:
        return []
    m = re.search(r'^;; Function w_%d \(.*?(?=^;; Function |\Z)' % k, text, re.S | re.M)
    out = []
    if m:
        for fn, ln in re.findall(r'\[([^\[\]\s:]+):(\d+)', m.group(0)):
            if fn.startswith(REPO):
                s = '%s:%s' % (fn, ln)
                if s not in out:
                    out.append(s)
    return out[:12]


def job(args):
    tu, scratch, seed, limit = args
    t0 = time.time()
    d = os.path.join(scratch, 'pch-' + tu.target)
    work = tempfile.mkdtemp(prefix='tu.', dir=scratch)
    res = {'target': tu.target, 'label': tu.label, 'results': [], 'error': None, 'desc': tu.desc}
    try:
        if not tu.ops:
            return res
        src = os.path.join(work, 'tu.cpp')
        open(src, 'w').write(source(tu, True))
        dump = os.path.join(work, 'tu.g')
        rc, o, e = run([cxx(tu.target)] + BASEFLAGS + TARGETS[tu.target] + tu.flags + ['-I' + d, '-c', src, '-o', '/dev/null',
                                                                 '-fdump-tree-optimized-gimple-uid=' + dump,
                                                                 '-fdump-tree-gimple-uid=' + dump + 'm'])
        res['t_cc'] = time.time() - t0
        if rc != 0:
            # find which operations fail to compile
            bad = diagnose(tu, d, work, e)
            res['results'] = bad
            if not bad:
                res['error'] = 'compiler: ' + e[-1500:]
            good = {b['op'] for b in bad}
            rest = [op for op in tu.ops if op.name not in good]
            if bad and rest and len(rest) < len(tu.ops):
                sub = job((TU(tu.target, tu.label, tu.prelude, rest, tu.desc), scratch, seed, limit))
                res['results'] += sub['results']
                res['error'] = sub['error']
            return res
        text = open(dump, errors='replace').read()
        os.unlink(dump)
        gimple.set_target(tu.target.split('+')[0])
        mod = gimple.Module(text)
        types = interp.Types(mod)
        gm = open(dump + 'm', errors='replace').read()
        types.aliases(gm)
        types.layouts(gm)
        m = re.search(r'^using T = ([a-z0-9_ ]+);', tu.prelude, re.M)
        if m and m.group(1) in KIND:
            kd, wd = kind(tu.target, m.group(1))
            types.elem = ('s', wd, 'f' if kd == 'f' else 'i', kd != 'u')
        for k, op in enumerate(tu.ops):
            r = {'op': op.name, 'verdict': 'undecided', 'detail': {}, 'stats': {}}
            res['results'].append(r)
            t1 = time.time()
            old = signal.signal(signal.SIGALRM, _tick)
            signal.setitimer(signal.ITIMER_REAL, limit)
            try:
                ARMED[0] = True
                w, x = mod.fns.get('w_%d' % k), mod.fns.get('e_%d' % k)
                if w is None or x is None:
                    r['detail'] = {'what': 'dump not parsed: %s' % (mod.errors.get('w_%d' % k) or mod.errors.get('e_%d' % k))}
                    continue
                params = []
                for n, t, cnt, dr in op.params:
                    kd, wd = kind(tu.target, t)
                    c = None
                    if cnt is not None:
                        c = retconst(mod, types, 'q_%d_%s' % (k, n))
                    params.append(Param(n, kd, wd, c, dr != 'in'))
                mode = op.mode
                if 'align' in mode:
                    mode = dict(mode, align={n: retconst(mod, types, 'qa_%d_%s' % (k, n)) if isinstance(e, str) else e
                                             for n, e in mode['align'].items()})
                sd = seed + int(hashlib.md5(op.name.encode()).hexdigest()[:6], 16)
                alts = [mod.fns['x_%d_%d' % (k, j)] for j in range(len(mode.get('alt', ()))) if 'x_%d_%d' % (k, j) in mod.fns]
                v, det, st = compare.check_pair(mod, types, w, x, params, mode, sd, alts)
                r['verdict'], r['detail'], r['stats'] = v, det, st
            except Unsupported as ex:
                r['detail'] = {'what': 'outside the analysed fragment: %s' % ex}
            except Alarm:
                r['detail'] = {'what': 'analysis budget exhausted'}
            except TooBig:
                r['detail'] = {'what': 'normal form too large'}
            except RecursionError:
                r['detail'] = {'what': 'recursion'}
            except Exception as ex:
                import traceback
                r['verdict'] = 'broken'
                r['detail'] = {'what': 'internal: %r' % ex, 'trace': traceback.format_exc()[-900:]}
            finally:
                ARMED[0] = False
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, old)
            r['t'] = round(time.time() - t1, 3)
            if r['verdict'] == 'alarm':
                r['source'] = src_lines(src, k, d, tu.target, work)
                r['simd'], r['ref'] = op.simd, op.ref
                r['prelude'] = tu.prelude
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)
        res['t'] = round(time.time() - t0, 3)


def retconst(mod, types, name):
    c = interp.Ctx()
    ex = interp.Exec(mod, types, c)
    t = ex.call(mod.fns[name], [], c.T)
    return c.a[t]


def diagnose(tu, d, work, err):
    """compile every operation alone to find the ones the library cannot instantiate"""
    bad = []
    names = re.findall(r'spec/([^:\s]+):', err)
    for op in tu.ops:
        one = TU(tu.target, tu.label, tu.prelude, [op], tu.desc)
        src = os.path.join(work, 'one.cpp')
        open(src, 'w').write(source(one, True))
        rc, o, e = run([cxx(tu.target)] + BASEFLAGS + TARGETS[tu.target] + ['-I' + d, '-c', src, '-o', '/dev/null'])
        if rc != 0:
            m = re.search(r'^(%s/[^:]+:\d+):\d+: error: (.*)$' % re.escape(REPO), e, re.M)
            first = re.search(r'error: (.*)$', e, re.M)
            bad.append({'op': op.name, 'verdict': 'alarm' if (m or 'spec/' in e) else 'broken',
                        'detail': {'what': 'does not compile: ' + ((m.group(1) + ' ' + m.group(2)) if m else
                                                                   first.group(1) if first else e[-300:]), 'witness': {'diagnostics': e[-2500:]}},
                        'stats': {}, 'source': [m.group(1)] if m else [], 'simd': op.simd, 'ref': op.ref,
                        'prelude': tu.prelude})
    return bad
