"""Type-level obligations: each is a constant expression over types (what the
compiler decides while type-checking), emitted as a static_assert against the
current headers.  The compiler's type checker is the deciding procedure; a
failing assertion, or a hard error while checking one, is attributed to the
obligation through the #line it stands on."""
import os, re
import driver


class W:
    def __init__(self, name, cond, deps=''):
        self.name, self.cond, self.deps = name, cond, deps


PRE = '''
template <class T> using cr = const std::remove_reference_t<T>&;
template <class T> using lr = std::remove_reference_t<T>&;
template <class T> struct tag { using type = T; };
template <class R> struct gen { template <class I> R operator()(I) const; };
template <class... Ts> struct any_t { template <class T> operator T() const; };
template <class T> struct conv_to { operator T() const; };
'''


def source(decl, ws):
    out = ['#include "pre.h"', PRE, decl]
    for k, w in enumerate(ws):
        if w.deps:
            out.append('#line 1 "wit/%d"' % k)
            out.append(w.deps)
        out.append('#line 1 "wit/%d"' % k)
        out.append('static_assert((%s), "W%d");' % (w.cond.replace('\n', ' '), k))
    return '\n'.join(out) + '\n'


def job(target, label, decl, ws, sdir, flags=()):
    """-> [(label, result)]"""
    d = os.path.join(sdir, 'wit')
    os.makedirs(d, exist_ok=True)
    src = os.path.join(d, re.sub(r'\W', '_', label) + '.cpp')
    with open(src, 'w') as f:
        f.write(source(decl, ws))
    cmd = [driver.cxx(target)] + driver.BASEFLAGS + driver.TARGETS[target] + list(flags) + [
        '-I' + driver_tdir(sdir, target), '-fsyntax-only', '-fmax-errors=0', '-ftemplate-backtrace-limit=0', '-fno-diagnostics-show-caret', src]
    rc, o, e = driver.run(cmd, timeout=600)
    bad = {}
    if rc:
        # a diagnostic is a block of context lines followed by the error itself (and the lines after it up to the next block)
        block = []
        err = None

        def flush():
            if err is None:
                return
            ids = re.findall(r'wit/(\d+):', '\n'.join(block))
            for i in ids[:1]:
                bad.setdefault(int(i), err)
            if not ids:
                bad.setdefault(-1, err)
        for ln in e.split('\n'):
            if re.search(r': (fatal )?error: ', ln):
                if err is not None:
                    flush()
                    block = []
                err = re.sub(r'^.*?error: ', '', ln)
                m = re.match(r'wit/(\d+):', ln)
                block = ([ln] if m else []) + block + [ln]
            elif ': In ' in ln or 'In instantiation of' in ln or 'In substitution of' in ln:
                if err is not None:
                    flush()
                    block, err = [], None
                block.append(ln)
            else:
                block.append(ln)
        flush()
    res = []
    for k, w in enumerate(ws):
        r = {'op': w.name, 'verdict': 'ok', 'detail': {}, 'stats': {'comparisons': 1}, 'target': target}
        if k in bad:
            r['verdict'] = 'alarm'
            r['detail'] = {'what': ('the type checker refutes %s' % w.cond[:400]) if 'assertion failed' in bad[k] else
                           'hard error while checking %s: %s' % (w.cond[:300], bad[k][:400])}
        res.append((label, r))
    if (rc and not bad) or -1 in bad:
        res = [(l, dict(r, verdict='broken' if r['verdict'] == 'ok' else r['verdict'],
                        detail=r['detail'] or {'what': 'unattributed error: ' + (bad.get(-1) or e[-400:])})) for l, r in res]
    return res


def driver_tdir(sdir, target):
    return os.path.join(sdir, 'pch-' + target)
