"""Effects of the library, from compiled objects: which symbols every operation
(transitively) references.  Wrapper functions of the obligation tables are the
roots; each function sits in a section of its own and the relocations of that
section are its references."""
import os, re, shutil, tempfile
import driver

# what the code generator itself may call for plain data movement and arithmetic
RUNTIME = re.compile(r'^(mem(cpy|set|move|cmp)|__(u?(div|mod|mul)[sdt]i[34]|fix\w+|float\w+|trunc\w+|extend\w+|aeabi_\w+|popcount[sdt]i2|c[lt]z[sdt]i2|[a-z]+[sdt]f\d?)'
                     r'|__mem\w+_chk|_GLOBAL_OFFSET_TABLE_|\.TOC\.|_save\w+|_rest\w+|__x86\.\w+|__gnu_\w+_ieee)$')
LIBM = re.compile(r'^(a?(sin|cos|tan)h?|atan2|exp[2m1]*|exp2|expm1|log(10|1p|2|b)?|i?logb|cbrt|sqrt|erfc?|[lt]gamma|lgamma_r|ceil|floor|nearbyint|rint|round|trunc|'
                  r'fabs|pow|fmod|remainder|remquo|copysign|nextafter|nexttoward|fdim|fmax|fmin|fma|hypot|frexp|modf|ldexp|scalbl?n|ll?rint|ll?round|'
                  r'__(isnan|isinf|isfinite|signbit|fpclassify|finite)|__\w+_finite|sincos|'
                  r'(ellint_[123]|comp_ellint_[123]|cyl_\w+|sph_\w+|beta|expint|hermite|laguerre|legendre|assoc_\w+|riemann_zeta))[fl]?$')


def objects(path):
    rc, o, e = driver.run(['readelf', '-SsrW', path])
    if rc:
        raise RuntimeError('readelf: ' + e[-300:])
    secs, syms, rel = {}, [], {}
    cur = None
    for ln in o.split('\n'):
        m = re.match(r'\s*\[\s*(\d+)\]\s+(\S+)\s+(\S+)\s+[0-9a-f]+\s+[0-9a-f]+\s+([0-9a-f]+)\s+\S+\s+([A-Za-z]*)\s', ln)
        if m:
            secs[int(m.group(1))] = (m.group(2), m.group(3), int(m.group(4), 16), m.group(5))
            continue
        m = re.match(r"Relocation section '\.rela?(\.[^']*)'", ln)
        if m:
            cur = m.group(1)
            continue
        m = re.match(r'\s*\d+:\s+[0-9a-f]+\s+\S+\s+(\w+)\s+(\w+)\s+\w+\s+(?:\[[^\]]*\]\s+)?(\S+)\s+(.*)$', ln)
        if m:
            syms.append((m.group(4).split(' ')[0], m.group(1), m.group(2), m.group(3)))
            cur = None
            continue
        m = re.match(r'[0-9a-f]{8,}\s+[0-9a-f]+\s+(R_\S+)(?:\s+[0-9a-f]{8,16})?\s+(\S.*)?$', ln)
        if m and cur:
            nm = (m.group(2) or '').split(' ')[0]
            rel.setdefault(cur, []).append(nm)
    return secs, syms, rel


def demangle(n):
    rc, o, e = driver.run(['c++filt', n])
    return o.strip() if not rc else n


def kindof(name, flags):
    if 'X' in flags:
        return 'text'
    if 'T' in flags:
        return 'tls'
    if 'W' in flags and not name.startswith(('.data.rel.ro', '.toc', '.got', '.init_array', '.opd')):
        return 'data'
    return 'const'


def job(tu, sdir, allow_libm):
    """every operation of a translation unit: what it may reach"""
    d = os.path.join(sdir, 'pch-' + tu.target)
    work = tempfile.mkdtemp(prefix='fx.', dir=sdir)
    out = []
    try:
        src = os.path.join(work, 'tu.cpp')
        open(src, 'w').write(re.sub(r'__attribute__\(\(flatten,noipa\)\)', '__attribute__((noipa))', driver.source(tu, True)))
        obj = os.path.join(work, 'tu.o')
        rc, o, e = driver.run([driver.cxx(tu.target)] + driver.BASEFLAGS + ['-O1', '-ffunction-sections', '-fdata-sections', '-fno-stack-protector', '-fno-pic', '-fno-pie'] + driver.TARGETS[tu.target] +
                              tu.flags + ['-I' + d, '-c', src, '-o', obj])
        if rc:
            return [(tu.label, {'op': '*', 'verdict': 'broken', 'detail': {'what': 'compiler: ' + e[-600:]}, 'stats': {}, 'target': tu.target})]
        secs, syms, rel = objects(obj)
        where = {}
        for n, ty, bind, sh in syms:
            if sh.isdigit() and int(sh) in secs:
                s = secs[int(sh)]
                where[n] = (s[0], kindof(s[0], s[3]), ty)
            elif sh == 'UND':
                where.setdefault(n, (None, 'und', ty))
            elif sh == 'COM':
                where[n] = (None, 'data', ty)
        sk = {s[0]: kindof(s[0], s[3]) for s in secs.values()}
        init = [s[0] for s in secs.values() if s[0].startswith(('.init_array', '.ctors', '.preinit')) and s[2]]
        for k, op in enumerate(tu.ops):
            r = {'op': op.name, 'verdict': 'ok', 'detail': {}, 'stats': {'comparisons': 0}, 'target': tu.target}
            root = where.get('w_%d' % k)
            if not root:
                r['verdict'], r['detail'] = 'broken', {'what': 'no code was emitted'}
                out.append((tu.label, r))
                continue
            seen, st = set(), [(root[0], ('w_%d' % k,))]
            while st:
                sec, path = st.pop()
                if sec in seen:
                    continue
                seen.add(sec)
                for n in rel.get(sec, ()):
                    r['stats']['comparisons'] += 1
                    n = n.split('@')[0]
                    if not n:
                        continue
                    if n in sk:
                        kd, tgt = sk[n], n
                    elif n in where:
                        tgt, kd, _ = where[n]
                    else:
                        kd, tgt = 'und', None
                    if kd in ('data', 'tls'):
                        r['verdict'] = 'alarm'
                        r['detail'] = {'what': 'uses mutable %s storage %s through %s' % ('thread-local' if kd == 'tls' else 'static', demangle(n), ' -> '.join(map(demangle, path[1:] or path)))}
                    elif kd == 'und':
                        if not RUNTIME.match(n) and not (allow_libm and LIBM.match(n.split('@')[0])) and not libstd_math(n, allow_libm):
                            r['verdict'] = 'alarm'
                            r['detail'] = {'what': 'calls %s through %s' % (demangle(n), ' -> '.join(map(demangle, path[1:] or path)))}
                    elif tgt is not None:
                        st.append((tgt, path + (n,)))
            out.append((tu.label, r))
        if init:
            out.append((tu.label, {'op': 'static_init', 'verdict': 'alarm', 'detail': {'what': 'the header runs code at program start (%s)' % ', '.join(init)},
                                   'stats': {}, 'target': tu.target}))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


def libstd_math(n, ok):
    # the special functions of libstdc++ report errors by exceptions
    return ok and (n.startswith(('_ZSt', '_ZTISt', '_ZTVSt', '_ZNSt', '__cxa_', '_Unwind_', '__gxx_personality', 'DW.ref', '_ZTVN10__cxxabiv')))


VARIANTS = [('O0', ['-O0']), ('O2', ['-O2']), ('debug', ['-O2', '-D_GLIBCXX_DEBUG_UB']), ('cxx20', ['-O2', '-std=c++20']), ('fastmath', ['-O2', '-ffast-math']), ('noexcept', ['-O2', '-fno-exceptions', '-fno-rtti'])]


def header(target, sdir):
    """the header on its own: definitions it puts into every including translation unit"""
    out = []
    work = tempfile.mkdtemp(prefix='hd.', dir=sdir)
    try:
        src = os.path.join(work, 'h.cpp')
        open(src, 'w').write('#include <experimental/simd>\n#include <experimental/simd>\n')
        for vn, fl in VARIANTS:
            obj = os.path.join(work, vn + '.o')
            base = [f for f in driver.BASEFLAGS if f.startswith('-I')] + ['-std=c++17', '-w']
            rc, o, e = driver.run([driver.cxx(target)] + base + driver.TARGETS[target] + fl + ['-c', src, '-o', obj])
            def res(name, bad):
                out.append((target + '/header', {'op': '%s_%s' % (name, vn), 'verdict': 'alarm' if bad else 'ok', 'detail': {'what': bad} if bad else {}, 'stats': {'comparisons': 1}, 'target': target}))
            if rc:
                res('compiles', 'the header does not compile with %s: %s' % (' '.join(fl), e[-500:]))
                continue
            res('compiles', None)
            secs, syms, rel = objects(obj)
            strong = [n for n, ty, bind, sh in syms if sh.isdigit() and bind == 'GLOBAL' and ty in ('FUNC', 'OBJECT', 'NOTYPE', 'TLS')]
            res('no_external_definitions', 'external definitions in a header: ' + ', '.join(map(demangle, strong[:4])) if strong else None)
            init = [s[0] for s in secs.values() if s[0].startswith(('.init_array', '.ctors', '.preinit')) and s[2]]
            res('no_dynamic_initialisation', 'code runs at program start: %s' % init if init else None)
            data = [n for n, ty, bind, sh in syms if sh.isdigit() and ty in ('OBJECT', 'TLS') and kindof(secs[int(sh)][0], secs[int(sh)][3]) in ('data', 'tls')]
            res('no_mutable_objects', 'mutable objects with static storage: ' + ', '.join(map(demangle, data[:4])) if data else None)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


NAMES = ('A B C D E F G H I J K L M N O P Q R S T U V W X Y Z a b c d e f g h i j k l m n o p q r s t u v w x y z ptr val tmp res result arg args '
         'idx index mask lhs rhs vec ret sz cnt len mem src dst bits lo hi mant sign abi impl mantissa exponent op lhs_ rhs_ storage intrin '
         'tag obj it first_ second_ num size_ mask_ data_ value_ aa bb kk xx yy').split()



# what the header is there to declare ([parallel.simd.synopsis] and the library's documented extensions)
API = set("""abi_type const_where_expression copy_from copy_to deduce deduce_t element_aligned element_aligned_tag experimental fixed_size fixed_size_simd fixed_size_simd_mask
hmax hmin is_abi_tag is_abi_tag_v is_simd is_simd_flag_type is_simd_flag_type_v is_simd_mask is_simd_mask_v is_simd_v mask_type max_fixed_size memory_alignment memory_alignment_v
native native_simd native_simd_mask overaligned overaligned_tag parallelism_v2 popcount find_first_set find_last_set some_of rebind_simd rebind_simd_t resize_simd resize_simd_t
resizing_simd_cast scalar compatible simd simd_abi simd_cast simd_mask simd_size simd_size_v simd_type split split_by concat static_simd_cast to_compatible to_fixed_size to_native
vector_aligned vector_aligned_tag where where_expression where_range reduce all_of any_of none_of iif clamp min max minmax
vector_size defined elif endif ifdef ifndef undef asm""".split())
KEYWORDS = set("""alignas alignof and and_eq asm auto bitand bitor bool break case catch char char8_t char16_t char32_t class compl concept const consteval constexpr constinit const_cast
continue co_await co_return co_yield decltype default delete do double dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable
namespace new noexcept not not_eq nullptr operator or or_eq private protected public register reinterpret_cast requires return short signed sizeof static static_assert
static_cast struct switch template this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq
override final import module define include pragma error warning line""".split())


def identifiers():
    """every unreserved identifier in the library's headers"""
    ids = {}
    root = os.path.join(driver.REPO, 'experimental')
    for dp, dn, fs in os.walk(root):
        for f in fs:
            if '.' in f and not f.endswith('.h'):
                continue
            s = open(os.path.join(dp, f)).read()
            s = re.sub(r'/\*.*?\*/', ' ', s, flags=re.S)
            s = re.sub(r'//[^\n]*', ' ', s)
            s = re.sub(r'"(\\.|[^"\\\n])*"', ' ', s)
            s = re.sub(r"(?<![0-9a-fA-F])'(\\.|[^'\\\n])'", ' ', s)
            own = set(re.findall(r'^[ \t]*#[ \t]*define[ \t]+(\w+)', s, re.M))
            s = re.sub(r'^[ \t]*#[ \t]*(include|pragma|error|warning)\b[^\n]*', ' ', s, flags=re.M)
            for m in re.finditer(r'(?<![\w.])[A-Za-z]\w*', s):
                n = m.group(0)
                if '__' not in n and n not in own:
                    ids.setdefault(n, os.path.join(os.path.relpath(dp, driver.REPO), f))
    return ids


STD = ('algorithm array bit bitset climits cfenv cfloat cmath complex cstddef cstdint cstdio cstdlib cstring functional initializer_list iomanip iosfwd iostream limits memory '
       'numeric ostream sstream string tuple type_traits utility').split()


def names(target, sdir):
    """an object-like macro of the user with any unreserved name must not change the header's meaning"""
    out = []
    work = tempfile.mkdtemp(prefix='nm.', dir=sdir)
    try:
        src = os.path.join(work, 'n.cpp')
        intr = '#include <arm_neon.h>\n' if target in ('neon', 'arm') else '#include <altivec.h>\n' if target == 'ppc' else '' if target in driver.CROSS else '#include <x86intrin.h>\n'
        pre = ''.join('#include <%s>\n' % s for s in STD) + intr
        open(src, 'w').write(pre)
        base = [f for f in driver.BASEFLAGS if f.startswith('-I')] + ['-std=c++17', '-w', '-O2']
        rc, o, e = driver.run([driver.cxx(target)] + base + driver.TARGETS[target] + ['-E', '-dD', '-P', src])
        if rc:
            return [(target + '/header', {'op': 'names', 'verdict': 'broken', 'stats': {}, 'target': target, 'detail': {'what': e[-400:]}})]
        taken = set(re.findall(r'[A-Za-z_]\w*', o)) | API | KEYWORDS
        ids = identifiers()
        ids = {n for n in ids if not re.match(r'(v[a-z]+_(n_|lane_|low_|high_)*[sufp]\d+|vec_\w+|u?int\d+x\d+_t|float\d+x\d+_t)$', n)}   # intrinsics of other targets
        cand = sorted((set(ids) | set(NAMES)) - taken) + sorted((set(NAMES) & taken) - API - KEYWORDS)
        open(src, 'w').write(pre + ''.join('#undef %s\n#define %s (user macro %s\n' % (n, n, n) for n in cand) + '#include <experimental/simd>\n')
        rc, o, e = driver.run([driver.cxx(target)] + base + driver.TARGETS[target] + ['-fsyntax-only', '-fmax-errors=40', src])
        bad = re.findall(r'^(\S+?):(\d+):\d+: error', e, re.M)
        bad += re.findall(r'^(\S+?):(\d+):\d+: note: in (?:definition|expansion) of macro', e, re.M)      # an error may be placed at the macro itself
        hits = sorted({'%s:%s' % (os.path.relpath(x[0], driver.REPO), x[1]) for x in bad if x[0].startswith(driver.REPO)})
        nm_ = sorted(set(re.findall(r"note: in (?:definition|expansion) of macro .(\w+).", e)))
        out.append((target + '/header', {'op': 'names', 'verdict': 'alarm' if rc and hits else 'broken' if rc else 'ok', 'stats': {'comparisons': len(cand)}, 'target': target,
                                         'detail': {'what': 'an identifier a program may define as a macro (%s) is used at %s' % (', '.join(nm_) or '?', ', '.join(hits[:6])) if hits else e[-400:]} if rc else {}}))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out
