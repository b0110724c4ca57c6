"""Explores one Python harness symbolically and prints what it found as JSON. Runs under python3-vt."""
import importlib
import json
import os
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.path.append('/opt/detools/venv/lib/python3.12/site-packages')
from vlib import psym, pystubs  # noqa: E402


class Native:
    def __init__(self, pkg, job):
        self.pkg, self.job, self.p = pkg, job, None

    def run(self, values, stubs=False, timeout=20):
        if self.p is None:
            self.p = subprocess.Popen([sys.executable, os.path.join(VERIF, 'vlib', 'pynative.py'), self.pkg],
                                      stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        req = dict(mod=self.job['mod'], fn=self.job['fn'], kw=self.job['kw'], stubs=stubs, timeout=timeout)
        req['in'] = values
        self.p.stdin.write(json.dumps(req) + '\n')
        self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())

    def confirm(self, f):
        seen = []
        for stubs in (False, True):
            a = self.run(f['in'], stubs)
            how = ' (codec libraries modelled)' if stubs else ''
            if a['end'] in ('assertion', 'exception', 'crash', 'hang'):
                return True, '%s: %s%s%s' % (a['end'], a.get('msg', ''), ' at ' + a['loc'] if a.get('loc') else '', how)
            seen.append(a['end'])
        return False, 'native runs end with ' + ', '.join(seen)


def main():
    job = json.loads(sys.argv[1])
    psym.REPO = job['repo']
    psym.install({'detools': os.path.join(job['repo'], 'detools'), 'py': os.path.join(VERIF, 'py')}, pystubs.STUBS,
                 pystubs.SUBSTUBS, noinit={'detools'} if not job.get('init') else ())
    sys.setrecursionlimit(3000)
    nat = Native(job['pkg'], job)
    eng = psym.Engine(job['max_time'], part=job['part'], confirm=nat.confirm)
    limit = job.get('path_time', 60)

    def watchdog(*a):
        signal.alarm(2)
        if time.time() - eng.path_start > limit and time.time() < eng.deadline:
            raise psym.Hang
    signal.signal(signal.SIGALRM, watchdog)
    res = {'error': ''}
    cov = psym.Coverage(os.path.join(job['repo'], 'detools'))
    t0 = time.time()
    try:
        mod = importlib.import_module('py.' + job['mod'])
        fn = getattr(mod, job['fn'])
        signal.alarm(2)
        eng.run(lambda S: fn(S, **job['kw']))
    except Exception as x:
        import traceback
        res['error'] = '%s: %s' % (type(x).__name__, traceback.format_exc()[-1500:])
    signal.alarm(0)
    res['error'] = res['error'] or eng.error
    # The same inputs natively give the same observations.
    res['validated'], res['disagree'] = 0, []
    samples = eng.samples[-job.get('samples', 4):]
    if not eng.findings:
        for s in samples:
            a = nat.run(s['in'], False)
            if a['end'] == 'ok' and a['obs'] == json.loads(json.dumps(s['obs'])):
                res['validated'] += 1
                continue
            b = nat.run(s['in'], True)
            if b['end'] == 'ok' and b['obs'] == json.loads(json.dumps(s['obs'])):
                res['validated'] += 1
                continue
            res['disagree'].append({'in': s['in'], 'symbolic': s['obs'], 'native': a, 'native_stubs': b})
    res.update(eng.n, solver_s=eng.solver_s, asserts=eng.asserts, witnesses=eng.witnesses, findings=eng.findings,
               unconfirmed=eng.unconfirmed, samples=samples, functions=cov.result(), exhausted=eng.exhausted,
               cap_hits=eng.cap_hits, wall_s=time.time() - t0)
    print(json.dumps(res))


if __name__ == '__main__':
    main()
