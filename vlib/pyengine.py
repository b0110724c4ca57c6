"""Runs Python harnesses in worker processes (vlib/pyworker.py) and merges what they found."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

from .cengine import CheckError, NCPU, REPO, VERIF, sh, time_for

PYTHON = '/opt/veriftools/pyvenv/bin/python3'
INC = '/usr/include/python3.12'


class PyJob:
    def __init__(self, name, mod, fn, kw=None, parts=1, depth=1, witnesses=(), max_time=240, bounds='', path_time=60,
                 init=False, samples=4):
        """parts processes share the work by the first depth choices, or by what the harness gives to shard (depth 0)."""
        self.name, self.mod, self.fn, self.kw = name, mod, fn, kw or {}
        self.parts, self.depth, self.witnesses = parts, depth, witnesses
        self.max_time, self.bounds, self.path_time, self.init, self.samples = max_time, bounds, path_time, init, samples


def package():
    """A copy of the package with its C extension built from the current tree; the part that is not in the tree (the
    hdiffpatch library) is left out."""
    d = tempfile.mkdtemp(prefix='vpkg-')
    pkg = os.path.join(d, 'detools')
    shutil.copytree(os.path.join(REPO, 'detools'), pkg, ignore=shutil.ignore_patterns('__pycache__', '*.so'))
    flags = ['-shared', '-fPIC', '-O1', '-w', '-I' + INC]
    for out, src in (('bsdiff', ['bsdiff.c']),
                     ('suffix_array', ['suffix_array.c', 'sais/sais.c', 'libdivsufsort/divsufsort.c'])):
        r = sh(['gcc', *flags, '-I' + os.path.join(pkg, 'libdivsufsort'), *[os.path.join(pkg, x) for x in src],
                '-o', os.path.join(pkg, out + '.so')])
        if r.returncode:
            shutil.rmtree(d, ignore_errors=True)
            raise CheckError('the C extension does not compile:\n' + r.stdout[-2000:])
    with open(os.path.join(pkg, 'hdiffpatch.py'), 'w') as f:
        f.write('IMPL = [None, None]\n\n\ndef create_patch(*a):\n    return IMPL[0](*a)\n\n\ndef apply_patch(*a):\n    return IMPL[1](*a)\n')
    return d


def spec(job, part, pkg):
    return dict(mod=job.mod, fn=job.fn, kw=job.kw, part=[part, job.parts, job.depth], max_time=time_for(job), repo=REPO, pkg=pkg,
                path_time=job.path_time, init=job.init, samples=job.samples)


def run_part(job, part, pkg):
    t0 = time.time()
    p = subprocess.Popen([PYTHON, '-B', os.path.join(VERIF, 'vlib', 'pyworker.py'), json.dumps(spec(job, part, pkg))],
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True,
                         env=dict(os.environ, PYTHONHASHSEED='0'))
    try:
        out, err = p.communicate(timeout=time_for(job) + 60)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return {'late': True, 'wall_s': time.time() - t0}
    try:
        return json.loads(out.strip().splitlines()[-1])
    except (ValueError, IndexError):
        raise CheckError('%s: worker failed: %s' % (job.name, (out + err)[-2000:]))


def merge(job, parts):
    r = {'name': job.name, 'bounds': job.bounds, 'paths': 0, 'forks': 0, 'steps': 0, 'assume_cut': 0, 'branches': 0,
         'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'solver_s': 0.0, 'asserts': {}, 'witnesses': {}, 'findings': [],
         'samples': [], 'functions': {}, 'exhausted': True, 'error': '', 'validated': 0, 'disagree': [], 'wall_s': 0,
         'skipped': [], 'cap_hits': {}}
    for d in parts:
        r['wall_s'] = max(r['wall_s'], d['wall_s'])
        if d.get('late'):
            r['exhausted'] = False
            continue
        for k in ('paths', 'forks', 'steps', 'assume_cut', 'branches', 'queries', 'sat', 'unsat', 'unknown', 'solver_s',
                  'validated'):
            r[k] += d[k]
        for f in ('asserts', 'cap_hits', 'witnesses'):
            for k, v in d[f].items():
                r[f][k] = r[f].get(k, 0) + v
        r['samples'] += [{'in': json.dumps(s['in']), 'obs': json.dumps(s['obs'])} for s in d['samples']]
        r['findings'] += d['findings']
        for f in d['unconfirmed']:
            if f['kind'] == 'assertion':
                r['findings'].append(f)
            else:
                r['skipped'].append(f)
                r['exhausted'] = False
        r['disagree'] += d['disagree']
        r['exhausted'] = r['exhausted'] and d['exhausted']
        r['error'] = r['error'] or d['error']
        for k, v in d['functions'].items():
            o = r['functions'].get(k)
            r['functions'][k] = v if not o else [v[0], max(o[1], v[1]), v[2]]
    for f in r['findings']:
        f['job'] = job.name
    r['missing_witnesses'] = [w for w in job.witnesses if w not in r['witnesses']]
    return r


def run_jobs(jobs):
    d = package()
    try:
        tasks = [(j, k) for j in jobs for k in range(j.parts)]
        with ThreadPoolExecutor(NCPU) as ex:
            got = list(ex.map(lambda t: run_part(t[0], t[1], d), tasks))
        return [merge(j, [g for (jj, _), g in zip(tasks, got) if jj is j]) for j in jobs]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def confirm(job, f):
    """Replay of a recorded counterexample."""
    d = package()
    try:
        for stubs in (False, True):
            req = dict(mod=job.mod, fn=job.fn, kw=job.kw, stubs=stubs)
            req['in'] = f['in']
            r = subprocess.run([PYTHON, '-B', os.path.join(VERIF, 'vlib', 'pynative.py'), d], input=json.dumps(req) + '\n',
                               text=True, stdout=subprocess.PIPE)
            a = json.loads(r.stdout)
            if a['end'] in ('assertion', 'exception', 'crash', 'hang'):
                return True, json.dumps(a)
        return False, json.dumps(a)
    finally:
        shutil.rmtree(d, ignore_errors=True)
