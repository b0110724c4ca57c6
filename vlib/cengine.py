"""Runs C harnesses through symx (LLVM IR + Z3) and replays every
counterexample, and a sample of the explored paths, natively."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DETOOLS_REPO', '/repo')
NCPU = os.cpu_count() or 8

CLANG = '/usr/bin/clang'
SYMX_SRC = os.path.join(VERIF, 'symx', 'symx.cpp')


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_symx():
    """Compile the executor if the build is missing or older than its source."""
    out = os.path.join(VERIF, 'build', 'symx')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(SYMX_SRC):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    r = sh(['g++', '-O2', '-std=c++17', '-w', '-I/usr/lib/llvm-18/include', '-D__STDC_CONSTANT_MACROS',
            '-D__STDC_LIMIT_MACROS', SYMX_SRC, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3'])
    if r.returncode:
        raise CheckError('cannot build symx:\n' + r.stdout[-3000:])
    os.replace(tmp, out)
    return out


class Job:
    """One harness configuration."""

    def __init__(self, name, src, defs=None, repo=('c/detools.c', 'c/heatshrink/heatshrink_decoder.c'),
                 incs=('c', 'c/heatshrink'), extra=(), wrap=(), witnesses=(), max_time=240, bounds='',
                 max_steps=20000000, no_undef=False, libs=(), repo_flags=(), allow_incomplete=False,
                 samples=3):
        self.name = name
        self.src = src
        self.defs = dict(defs or {})
        self.repo = repo
        self.incs = incs
        self.extra = extra
        self.wrap = wrap
        self.witnesses = witnesses
        self.max_time = max_time
        self.bounds = bounds
        self.max_steps = max_steps
        self.no_undef = no_undef
        self.libs = libs
        self.repo_flags = repo_flags
        self.samples = samples

    def flags(self):
        f = ['-I' + os.path.join(REPO, i) if not i.startswith('/') else '-I' + i for i in self.incs]
        f += ['-I' + os.path.join(VERIF, 'c')]
        f += ['-D%s=%s' % kv if kv[1] is not None else '-D%s' % kv[0] for kv in self.defs.items()]
        return f

    def sources(self):
        return ([(os.path.join(VERIF, 'c', self.src), False)]
                + [(os.path.join(VERIF, 'c', x), False) for x in self.extra]
                + [(os.path.join(REPO, x), True) for x in self.repo])


def build_bc(job, wd):
    bcs = []
    for k, (src, is_repo) in enumerate(job.sources()):
        bc = os.path.join(wd, '%d.bc' % k)
        r = sh([CLANG, '-g', '-O0', '-std=gnu11', '-w', '-Xclang', '-disable-O0-optnone', '-fsanitize=undefined',
                '-fsanitize-trap=undefined', '-fno-sanitize=function', '-emit-llvm', '-c', *job.flags(),
                *(job.repo_flags if is_repo else ()), src, '-o', bc])
        if r.returncode:
            raise CheckError('clang failed on %s:\n%s' % (src, r.stdout[-3000:]))
        bcs.append(bc)
    allbc = os.path.join(wd, 'all.bc')
    r = sh(['llvm-link-18', *bcs, '-o', os.path.join(wd, 'l.bc')])
    if r.returncode:
        raise CheckError('llvm-link failed:\n' + r.stdout[-3000:])
    r = sh(['opt-18', '-passes=mem2reg,instsimplify,simplifycfg', os.path.join(wd, 'l.bc'), '-o', allbc])
    if r.returncode:
        raise CheckError('opt failed:\n' + r.stdout[-3000:])
    return allbc


def build_native(job, wd, kind):
    """kind: 'asan' (gcc, address+undefined) or 'msan' (clang, memory)."""
    out = os.path.join(wd, 'native-' + kind)
    if os.path.exists(out):
        return out
    wraps = ['-Wl,--wrap=' + w for w in job.wrap]
    objs = []
    for k, (src, is_repo) in enumerate(job.sources() + [(os.path.join(VERIF, 'c', 'replay.c'), False)]):
        o = os.path.join(wd, '%s-%d.o' % (kind, k))
        if kind == 'asan':
            cc = ['gcc', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
        else:
            cc = [CLANG, '-fsanitize=memory']
        r = sh(cc + ['-g', '-O0', '-std=gnu11', '-w', '-DREPLAY', *job.flags(),
                     *(job.repo_flags if is_repo else ()), '-c', src, '-o', o])
        if r.returncode:
            raise CheckError('native compile of %s failed:\n%s' % (src, r.stdout[-3000:]))
        objs.append(o)
    r = sh(cc + objs + wraps + list(job.libs) + ['-o', out])
    if r.returncode:
        raise CheckError('native link failed:\n' + r.stdout[-3000:])
    return out


def run_native(exe, hexin, wd, tag, timeout=20):
    inp = os.path.join(wd, tag + '.in')
    obs = os.path.join(wd, tag + '.obs')
    with open(inp, 'wb') as f:
        f.write(bytes.fromhex(hexin))
    env = dict(os.environ, ASAN_OPTIONS='exitcode=99:detect_leaks=0:allocator_may_return_null=1',
               UBSAN_OPTIONS='halt_on_error=1:exitcode=99:print_stacktrace=0', MSAN_OPTIONS='exitcode=99')
    try:
        r = subprocess.run([exe, inp, obs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=env, cwd=wd)
    except subprocess.TimeoutExpired:
        return 'timeout', '', ''
    out = r.stdout.decode('utf-8', 'replace')
    try:
        with open(obs) as f:
            o = f.read()
    except OSError:
        o = ''
    return r.returncode, out, o


def confirm(job, finding, wd, tag):
    """Replay a counterexample on the real code: (reproduced, what was seen)."""
    kinds = ['msan'] if finding['kind'] == 'uninitialised' else ['asan']
    for kind in kinds:
        exe = build_native(job, wd, kind)
        rc, out, _ = run_native(exe, finding['in'], wd, tag + kind)
        if rc == 'timeout':
            if finding['kind'] in ('nontermination', 'recursion'):
                return True, 'does not terminate (20 s)'
            return True, 'native run hangs'
        if rc == 66:
            return True, out.strip().splitlines()[-1] if out.strip() else 'assertion'
        if rc == 99 or (isinstance(rc, int) and rc < 0) or rc == 1:
            m = re.search(r'(runtime error: .*|ERROR: AddressSanitizer: [^\n]*|WARNING: MemorySanitizer: [^\n]*)', out)
            return True, m.group(1) if m else 'exit %s: %s' % (rc, out.strip()[-200:])
    return False, 'native exit %s: %s' % (rc, out.strip()[-200:])


def run_job(job, symx, keep, jobs):
    wd = tempfile.mkdtemp(prefix='vj-')
    t0 = time.time()
    try:
        bc = build_bc(job, wd)
        outp = os.path.join(wd, 'o')
        cmd = [symx, bc, '--out', outp, '--jobs', str(jobs), '--max-time', str(time_for(job)),
               '--max-steps', str(job.max_steps), '--samples', str(job.samples)]
        if job.no_undef:
            cmd.append('--no-undef')
        late = False
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=time_for(job) + 60)
        except subprocess.TimeoutExpired:
            sh(['pkill', '-9', '-f', bc])
            r, late = None, True
        frags = [f for f in os.listdir(wd) if re.fullmatch(r'o\.\d+', f)]
        if not frags and not late:
            raise CheckError('%s: symx failed: %s' % (job.name, r.stdout[-2000:]))
        res = {'name': job.name, 'bounds': job.bounds, 'paths': 0, 'forks': 0, 'steps': 0, 'assume_cut': 0, 'branches': 0,
               'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'solver_s': 0.0, 'asserts': {},
               'witnesses': {}, 'findings': [], 'samples': [], 'functions': {}, 'exhausted': not late, 'error': ''}
        for f in frags:
            with open(os.path.join(wd, f)) as fh:
                d = json.load(fh)
            for k in ('paths', 'forks', 'steps', 'assume_cut', 'branches', 'queries', 'sat', 'unsat', 'unknown',
                      'solver_s'):
                res[k] += d[k]
            for k, v in d['asserts'].items():
                res['asserts'][k] = res['asserts'].get(k, 0) + v
            res['witnesses'].update(d['witnesses'])
            res['findings'] += d['findings']
            res['samples'] += d['samples']
            for k, v in d['functions'].items():
                o = res['functions'].get(k)
                res['functions'][k] = v if not o else [v[0], max(o[1], v[1]), v[2]]
            res['exhausted'] = res['exhausted'] and d['exhausted']
            if d['error']:
                res['error'] = d['error']
        # one finding per message
        seen, fs = {}, []
        for f in res['findings']:
            key = (f['kind'], f['msg'], f['loc'] if f['kind'] != 'assert' else '')
            if seen.setdefault(key, 0) < 2:
                seen[key] += 1
                fs.append(f)
        res['findings'] = fs
        for k, f in enumerate(fs):
            f['job'] = job.name
            f['confirmed'], f['native'] = confirm(job, f, wd, 'cex%d' % k) if k < 12 else (None, 'not replayed')
        # translator validation: the same inputs natively, same observations
        res['validated'] = 0
        res['disagree'] = []
        if not fs and res['samples']:
            step = max(1, len(res['samples']) // job.samples)
            chosen = res['samples'][::step][:job.samples + 2]
            for k, s in enumerate(chosen):
                exe = build_native(job, wd, 'asan')
                rc, out, obs = run_native(exe, s['in'], wd, 's%d' % k)
                if rc != 0 or obs != s['obs']:
                    res['disagree'].append({'in': s['in'], 'symx': s['obs'], 'native': obs, 'rc': rc, 'out': out[-400:]})
                else:
                    res['validated'] += 1
            res['samples'] = chosen
        res['missing_witnesses'] = [w for w in job.witnesses if w not in res['witnesses']]
        res['wall_s'] = time.time() - t0
        return res
    finally:
        if keep:
            print('kept', wd)
        else:
            shutil.rmtree(wd, ignore_errors=True)


DEADLINE = [float('inf')]               # set by run.py: when all has to be done


def time_for(job):
    return max(5, int(min(job.max_time, DEADLINE[0] - time.time())))


def run_jobs(jobs, keep=False, par=None):
    symx = build_symx()
    n = len(jobs)
    workers = min(n, par or NCPU)
    each = max(1, min(NCPU, -(-3 * NCPU // workers)))       # short jobs make room for long ones
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(lambda j: run_job(j, symx, keep, each), jobs))
