#!/usr/bin/env python3
"""run.py ID [quick|thorough]   decide one property
run.py --replay FILE           replay a recorded counterexample natively"""
import json
import os
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from vlib import cengine  # noqa: E402
from vlib import cprops  # noqa: E402
from vlib import pyengine  # noqa: E402
from vlib import pyprops  # noqa: E402

PROPS = dict(cprops.PROPS, **pyprops.PROPS)


def known():
    """Entries of known_findings.txt: 'known: property=ID key=KEY ...'."""
    r = []
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                if line.startswith('known: '):
                    d = dict(kv.split('=', 1) for kv in line[7:].strip().split(' | '))
                    r.append(d)
    except OSError:
        pass
    return r


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    if sys.argv[1] == '--setup':
        cengine.build_symx()
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    keep = '--keep' in sys.argv
    only = [a[2:] for a in sys.argv if a.startswith('-j')]
    t0 = time.time()
    cengine.DEADLINE[0] = t0 + 720
    prop = PROPS[pid]
    jobs = prop['jobs'](tier)
    if only:
        jobs = [j for j in jobs if any(o in j.name for o in only)]
    cjobs = [j for j in jobs if isinstance(j, cengine.Job)]
    pjobs = [j for j in jobs if isinstance(j, pyengine.PyJob)]
    results = pyengine.run_jobs(pjobs) if pjobs else []
    results += cengine.run_jobs(cjobs, keep, prop.get('par')) if cjobs else []
    return report(pid, tier, prop, results, t0)


def short(h):
    if not isinstance(h, str):
        h = json.dumps(h).replace('"', '')
    return h if len(h) <= 160 else h[:160] + '...'


def report(pid, tier, prop, results, t0):
    problems, viol, kn = [], [], []
    kfs = [k for k in known() if k.get('property') == pid]
    for r in results:
        if r['error']:
            problems.append('%s: %s' % (r['name'], r['error']))
        for f in r['findings']:
            if f['confirmed'] is None:
                continue
            if not f['confirmed']:
                problems.append('%s: counterexample not reproduced natively: %s %s at %s (%s)'
                                % (r['name'], f['kind'], f['msg'], f['loc'], f['native']))
                continue
            k = [k for k in kfs if k.get('msg') == f['msg'] and k.get('kind') == f['kind']
                 and (k.get('in') in (None, f['in']))]
            (kn if k else viol).append(f)
        for f in r.get('skipped', []):
            print('  skipped a path of %s: %s %s' % (r['name'], f['msg'], f['native']))
        if not r['findings']:
            for d in r['disagree']:
                problems.append('%s: executor and native run disagree: %s' % (r['name'], json.dumps(d)))
            if r['missing_witnesses'] and (r['exhausted'] or r.get('skipped')):
                problems.append('%s: vacuous, never reached: %s' % (r['name'], r['missing_witnesses']))
    exhaustive = all(r['exhausted'] for r in results)
    fns = {}
    for r in results:
        for k, v in r['functions'].items():
            if v[0].startswith(cengine.REPO + '/'):
                o = fns.get(k)
                fns[k] = [v[0][len(cengine.REPO) + 1:], max(v[1], o[1] if o else 0), v[2]]
    tot = {k: sum(r[k] for r in results) for k in ('paths', 'forks', 'steps', 'assume_cut', 'branches', 'queries', 'sat',
                                                   'unsat', 'unknown', 'solver_s', 'validated')}
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'coverage': {
            'states': tot['forks'] + len(results),
            'transitions': tot['steps'],
            'traces_validated_against_impl': tot['validated'],
            'samples': [{'job': r['name'], 'input': s['in'], 'observations': s['obs']} for r in results
                        for s in r['samples'][:1]],
            'exhaustive': exhaustive,
            'paths_completed': tot['paths'],
            'symbolic_branches': tot['branches'],
            'queries_discharged': tot['queries'],
            'queries_sat': tot['sat'], 'queries_unsat': tot['unsat'], 'queries_unknown': tot['unknown'],
            'solver_s': round(tot['solver_s'], 3),
            'assertions_checked': sum(sum(r['asserts'].values()) for r in results),
            'distinct_assertions': len({a for r in results for a in r['asserts']}),
            'functions_encoded': {k: {'file': v[0], 'covered': v[1], 'of': v[2],
                                      'unit': 'lines' if v[0].endswith('.py') else 'IR instructions'}
                                  for k, v in sorted(fns.items())},
            'jobs': [{'name': r['name'], 'bounds': r['bounds'], 'paths': r['paths'], 'exhausted': r['exhausted'],
                      'queries': r['queries'], 'solver_s': round(r['solver_s'], 3), 'wall_s': round(r.get('wall_s', 0), 1),
                      'reached': sorted(r['witnesses'])} for r in results],
        },
        'assumptions': prop['assumptions'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    caps = {r['name']: r['cap_hits'] for r in results if r.get('cap_hits')}
    if caps:
        ev['coverage']['cut_by_bounds'] = caps
    if problems:
        ev['coverage']['problems'] = problems
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d jobs, %d paths, %d queries (%.1f s in the solver), %d traces validated, %s, %.1f s'
          % (pid, tier, len(results), tot['paths'], tot['queries'], tot['solver_s'], tot['validated'],
             'exhaustive within bounds' if exhaustive else 'NOT exhaustive (time limit)', time.time() - t0))
    for f in kn:
        print('KNOWN-FINDING: property=%s %s: %s at %s input %s' % (pid, f['kind'], f['msg'], f['loc'], short(f['in'])))
    seen = set()
    for k, f in enumerate(viol):
        path = os.path.join(VERIF, 'evidence', 'replays', '%s-%d.json' % (pid, k))
        with open(path, 'w') as fh:
            json.dump(dict(f, property=pid, tier=tier), fh, indent=1)
        if f['msg'] in seen:
            continue
        seen.add(f['msg'])
        print('  %s: %s at %s [%s] input %s -> %s' % (f['kind'], f['msg'], f['loc'], f['job'], short(f['in']), f['native']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    for p in problems:
        print('PROBLEM: ' + p)
    if viol:
        return 1
    if problems:
        return 2
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    prop = PROPS[d['property']]
    job = [j for j in prop['jobs'](d['tier']) if j.name == d['job']][0]
    if isinstance(job, pyengine.PyJob):
        ok, what = pyengine.confirm(job, d)
        print('reproduced' if ok else 'not reproduced', what)
        return 1 if ok else 0
    wd = tempfile.mkdtemp(prefix='vr-')
    ok, what = cengine.confirm(job, d, wd, 'r')
    print('reproduced' if ok else 'not reproduced', what)
    return 1 if ok else 0


if __name__ == '__main__':
    try:
        rc = main()
    except cengine.CheckError as e:
        print('ERROR: %s' % e)
        rc = 3
    sys.exit(rc)
