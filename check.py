#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only SUBSTR]

Decides one property of /repo's simd headers by static analysis and writes
evidence/<property>.json.  Exit 0: held; 1: VIOLATION lines; 2: the analysis
itself is broken (nothing is concluded)."""
import argparse, collections, fnmatch, hashlib, importlib, json, os, sys, time
from multiprocessing import Pool

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'specs')]
import driver
import registry

FINDINGS = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
LIMIT = 25          # seconds of analysis per obligation
DEADLINE = 780      # seconds per run


def known(pid):
    """[(site pattern, text)] of the open findings of this property"""
    out = []
    if os.path.exists(FINDINGS):
        for ln in open(FINDINGS):
            ln = ln.strip()
            if ln.startswith('finding: property=%s ' % pid):
                rest = ln.split(' ', 2)[2]
                assert rest.startswith('site='), ln
                site, _, text = rest[5:].partition(' :: ')
                out.append((site.strip(), text.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default='')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = registry.PROPS[a.property]
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    S = driver.Scratch()
    try:
        rc = run(a, seed, spec, S, t0)
    finally:
        S.close()
    sys.exit(rc)


def run(a, seed, spec, S, t0):
    tus = [t for t in spec.tus(a.tier) if t.ops and a.only in t.label] if spec.tus else []
    items = []          # (target, label, result)
    broken = []
    with Pool(a.j) as pool:
        extra = [x for f in spec.extra for x in f(a.tier, S.dir)      # (target, callable, args) jobs of the other analyses
                 if not a.only or any(a.only in str(getattr(y, 'label', y)) for y in x[2])]
        pre = sorted({t.target for t in tus} | {x[0] for x in extra})
        for tgt, rc, e in pool.imap_unordered(driver.build_pch, [(S.tdir(t), t, []) for t in pre]):
            if rc:
                broken.append('precompiling the headers for %s failed: %s' % (tgt, e[-800:]))
        asy = [pool.apply_async(fn, args) for tgt, fn, args in extra] if not broken else []
        left = 0
        if not broken:
            tus.sort(key=lambda t: -len(t.ops))
            it = pool.imap_unordered(driver.job, [(t, S.dir, seed, LIMIT) for t in tus])
            for _ in tus:
                try:
                    r = it.next(timeout=max(1, DEADLINE - (time.time() - t0)))
                except Exception as ex:
                    left += 1
                    if time.time() - t0 > DEADLINE:
                        left = len(tus) - len({l for _, l, _ in items})
                        break
                    broken.append('job failed: %r' % ex)
                    continue
                if r['error']:
                    broken.append('%s: %s' % (r['label'], r['error']))
                for x in r['results']:
                    items.append((r['target'], r['label'], x))
        for h in asy:
            try:
                for lab, x in h.get(timeout=max(1, DEADLINE + 60 - (time.time() - t0))):
                    items.append((x.get('target', ''), lab, x))
            except Exception as ex:
                broken.append('analysis failed: %r' % ex)
        pool.terminate()
    cnt = collections.Counter(x['verdict'] for _, _, x in items)
    total = len(items)
    kf = known(spec.id)
    viol, found = [], {}
    for tgt, lab, x in items:
        if x['verdict'] != 'alarm':
            continue
        site = '%s:%s' % (lab, x['op'])
        for pat, text in kf:
            if fnmatch.fnmatchcase(site, pat):
                found.setdefault((pat, text), []).append(site)
                break
        else:
            viol.append((site, x))
    und = [('%s:%s' % (lab, x['op']), x['detail'].get('what', '')) for _, lab, x in items if x['verdict'] == 'undecided']
    ibroken = [('%s:%s' % (lab, x['op']), x['detail']) for _, lab, x in items if x['verdict'] == 'broken']
    ok = cnt['ok']
    cmps = sum(x['stats'].get('comparisons', 0) for _, _, x in items)
    stmts = sum(x['stats'].get('stmts', 0) for _, _, x in items)
    status = 0
    for (pat, text), sites in sorted(found.items()):
        print('KNOWN-FINDING: property=%s %s (%d sites, e.g. %s)' % (spec.id, text, len(sites), sites[0]))
    shown = collections.Counter()
    for n, (site, x) in enumerate(viol):
        path = os.path.join(HERE, 'evidence', 'replay-%s-%s.json' % (spec.id, hashlib.md5(site.encode()).hexdigest()[:8]))
        if n < 40:
            json.dump({'property': spec.id, 'site': site, 'finding': x}, open(path, 'w'), indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (spec.id, path))
        if n < 8:
            print('  at %s: %s' % (site, str(x['detail'].get('what'))[:300]))
            for s in (x.get('source') or [])[:6]:
                print('    through %s' % s)
            if x['detail'].get('witness'):
                print('    value graph: got %s, reference %s' % (str(x['detail'].get('got'))[:160], str(x['detail'].get('expected'))[:160]))
                print('    separating valuation: %s' % str(x['detail']['witness'])[:400])
        status = 1
    if a.v:
        for s, w in und:
            print('undecided', s, w[:300])
    agg = collections.Counter()
    for s, w in und:
        agg[s.rsplit(':', 1)[1] + ': ' + w[:90]] += 1
    if not status:
        if broken or len(ibroken) > total * 0.05:
            for b in broken[:5]:
                print('analysis broken:', b[:1500])
            for s, d in ibroken[:3]:
                print('analysis broken:', s, str(d)[:1500])
            status = 2
        elif total < spec.floor and not a.only:
            print('analysis broken: only %d obligations were generated, expected at least %d' % (total, spec.floor))
            status = 2
        elif ok + len(viol) + sum(map(len, found.values())) < total * 0.5:
            print('analysis broken: only %d of %d obligations could be decided' % (ok, total))
            for k, n in agg.most_common(5):
                print('  ', n, k)
            status = 2
    good = [('%s:%s' % (l, x['op'])) for _, l, x in items if x['verdict'] == 'ok']
    ev = {
        'property': spec.id, 'tier': 'thorough' if a.tier == 'thorough' else 'quick', 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': spec.explain,
            'obligations': total, 'discharged': ok, 'undecided': cnt['undecided'], 'internal_errors': cnt['broken'],
            'alarms': cnt['alarm'], 'alarms_listed_as_known': sum(map(len, found.values())),
            'translation_units_analysed': len({(l) for _, l, _ in items}),
            'targets': sorted({t for t, _, _ in items if t}),
            'gimple_statements_interpreted': stmts,
            'value_comparisons': cmps,
            'not_reached_before_deadline': left,
            'samples': good[:3] + good[len(good) // 2:len(good) // 2 + 3] + good[-2:],
            'undecided_reasons': ['%d x %s' % (n, k) for k, n in agg.most_common(12)],
        },
        'assumptions': spec.assumptions,
        'violations': len(viol), 'wall_s': round(time.time() - t0, 2)}
    path = os.path.join(HERE, 'evidence', spec.id + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(path + '.tmp', path)
    print('%s %s: %d obligations, %d discharged, %d undecided, %d alarms (%d known), %d internal errors, %.1f s' %
          (spec.id, a.tier, total, ok, cnt['undecided'], cnt['alarm'], sum(map(len, found.values())), cnt['broken'],
           time.time() - t0))
    return status


if __name__ == '__main__':
    main()
