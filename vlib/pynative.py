"""Runs Python harnesses natively: CPython, detools from /repo with its C extension built from /repo, real codecs and files.
Reads requests from stdin, one JSON object per line, and answers each with one line. A request with stubs set replaces the
codec libraries (which are not part of detools) by the models that the symbolic run had."""
import importlib
import io
import json
import os
import sys
import tempfile
import time
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SITE = '/opt/detools/venv/lib/python3.12/site-packages'


class Cut(BaseException):
    pass


class Found(BaseException):
    pass


class Api:
    symbolic = False

    def __init__(self, values):
        self.values, self.obs, self.bad = values, [], None

    def bytes(self, name, n):
        return bytes(self.values.get('%s%d' % (name, i), 0) for i in range(n))

    def int(self, name, lo, hi):
        v = self.values.get(name, lo)
        if not lo <= v <= hi:
            raise Cut
        return v

    def choice(self, name, options):
        options = list(options)
        return options[0] if len(options) == 1 else options[self.int(name, 0, len(options) - 1)]

    def shard(self, x):
        pass

    def assume(self, c):
        if not c:
            raise Cut

    def check(self, c, msg):
        if not c:
            self.bad = msg
            raise Found

    def same(self, a, b):
        return a == b

    def no(self, c):
        return not c

    def note(self, *v):
        self.obs.append(list(v))

    def file(self, data):
        f = tempfile.TemporaryFile()
        f.write(data)
        f.seek(0)
        return f

    def plan(self, f):
        IMPL['create_patch'] = lambda sa, frm, to, de: f(bytes(frm), bytes(to))

    def hdiff(self, create, apply):
        from detools import hdiffpatch
        hdiffpatch.IMPL[:] = [create, apply]

    def put(self, name, data):
        with open(name, 'wb') as f:
            f.write(data)

    def put_elf(self, name, sections):
        self.put(name, build_elf(sections))

    def get(self, name):
        if not os.path.exists(name):
            return None
        with open(name, 'rb') as f:
            return f.read()

    def elf(self, sections):
        from elftools.elf.elffile import ELFFile
        return ELFFile(io.BytesIO(build_elf(sections)))

    def show(self):
        pass

    def cli(self, *argv):
        from vlib import psym
        return psym.run_cli(argv)

    def reach(self, w):
        pass


IMPL = {}


def build_elf(sections):
    """A 32-bit little endian ELF file of these sections."""
    import struct
    types_ = {'SHT_NULL': 0, 'SHT_PROGBITS': 1, 'SHT_SYMTAB': 2, 'SHT_STRTAB': 3, 'SHT_NOBITS': 8}
    stt = {'STT_NOTYPE': 0, 'STT_OBJECT': 1, 'STT_FUNC': 2, 'STT_SECTION': 3}
    names = b'\0'
    heads, blob, end = [], b'', 0
    for d in sections:
        data = bytes(d.get('data') or b'')
        if 'symbols' in d:
            strs = b'\0'
            data = b''
            for x in d['symbols']:
                data += struct.pack('<IIIBBH', len(strs), x['value'], x['size'], 16 + stt[x['type']], 0, 1)
                strs += x['name'].encode() + b'\0'
            symstr = strs
        elif d['name'] == '.strtab':
            data = symstr
        off = d['offset'] if data and 'symbols' not in d and d['name'] != '.strtab' else None
        heads.append([len(names), types_[d['type']], d.get('flags', 2 if d['addr'] else 0), d['addr'], off, len(data) if off is None and data else d['size'],
                      d.get('link', 0), 0, 1, d.get('entsize', 0), data])
        names += d['name'].encode() + b'\0'
    heads.append([len(names), 3, 0, 0, None, 0, 0, 0, 1, 0, names + b'.shstrtab\0'])
    heads[-1][5] = len(heads[-1][10])
    image = bytearray(52)
    for h, d in zip(heads, sections + [None]):
        if h[4] is not None:
            image += bytes(max(0, h[4] + len(h[10]) - len(image)))
            image[h[4]:h[4] + len(h[10])] = h[10]
    for h, d in zip(heads, sections + [None]):
        if h[4] is None:
            h[4] = d['offset'] if d is not None and not h[10] else len(image)
            if h[10]:
                image += h[10]
    shoff = len(image)
    for h in heads:
        image += struct.pack('<10I', *h[:10])
    image[:52] = b'\x7fELF\x01\x01\x01' + bytes(9) + struct.pack('<HHIIIIIHHHHHH', 2, 40, 1, 0, 0, shoff, 0, 52, 0, 0, 40,
                                                                  len(heads), len(heads) - 1)
    return bytes(image)


def wrap_extension(pkg):
    """The real extension, whose create_patch a harness may replace, and that is not handed buffers that are too small."""
    import importlib.util

    def load(name):
        sp = importlib.util.spec_from_file_location('vreal.' + name, os.path.join(pkg, 'detools', name + '.so'))
        real = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(real)
        m = types.ModuleType('detools.' + name)
        for k, v in vars(real).items():
            if not k.startswith('__'):
                setattr(m, k, v)
        sys.modules['detools.' + name] = m
        return m

    def entries(sa, frm):
        if memoryview(sa).nbytes < 4 * (memoryview(frm).nbytes + 1):
            raise AssertionError('suffix array too small')

    def create_patch(sa, frm, to, de):
        entries(sa, frm)
        if memoryview(de).nbytes < memoryview(to).nbytes:
            raise AssertionError('buffers too small')
        return IMPL['create_patch'](sa, frm, to, de)

    m = load('bsdiff')
    IMPL['create_patch'] = m.create_patch
    m.create_patch = create_patch
    m = load('suffix_array')
    for name in ('sais', 'divsufsort'):
        def sort(frm, sa, real=getattr(m, name)):
            entries(sa, frm)
            return real(frm, sa)
        setattr(m, name, sort)


def plain(v):
    if isinstance(v, (bytes, bytearray)):
        return bytes(v).hex()
    if isinstance(v, (tuple, list)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    return v


def stub_codecs():
    """The models of the codec libraries, for bytes."""
    from vlib import pystubs

    def conv(x):
        return bytes(x.v) if isinstance(x, pystubs.SymBytes) and not isinstance(x, bytes) else x

    def wrap(cls):
        def method(name):
            f = getattr(cls, name)
            return lambda self, *a, **k: conv(f(self, *a, **k))
        return type(cls.__name__, (cls,), {m: method(m) for m in ('compress', 'decompress', 'flush', 'fill', 'finish', 'begin')
                                           if hasattr(cls, m)})

    def module(m):
        r = types.ModuleType(m.__name__)
        for k, v in vars(m).items():
            if isinstance(v, types.ModuleType):
                v = module(v)
                sys.modules[m.__name__ + '.' + k] = v
            elif isinstance(v, type) and not issubclass(v, Exception):
                v = wrap(v)
            setattr(r, k, v)
        sys.modules[m.__name__] = r
        return r
    for m in (pystubs.bz2, pystubs.lzma, pystubs.heatshrink2, pystubs.zstandard, pystubs.lz4):
        module(m)


def answer(req, ext):
    if req.get('stubs'):
        stub_codecs()
    wrap_extension(ext)
    h = importlib.import_module('py.' + req['mod'])
    S = Api(req['in'])
    try:
        with tempfile.TemporaryDirectory(prefix='vfs-', dir=ext) as d:
            os.chdir(d)
            getattr(h, req['fn'])(S, **req['kw'])
            os.chdir('/')
        return {'end': 'ok', 'obs': plain(S.obs)}
    except Cut:
        return {'end': 'cut'}
    except Found:
        return {'end': 'assertion', 'msg': S.bad}
    except RecursionError:
        return {'end': 'exception', 'msg': 'RecursionError'}
    except Exception as x:
        tb, loc = x.__traceback__, ''
        while tb is not None:
            f = tb.tb_frame.f_code.co_filename
            if '/detools/' in f:
                loc = '%s:%d' % (f[f.rindex('/detools/') + 1:], tb.tb_lineno)
            tb = tb.tb_next
        return {'end': 'exception', 'msg': '%s: %s' % (type(x).__name__, str(x)[:200]), 'loc': loc}


def main(pkg):
    sys.path[:0] = [pkg, VERIF]
    sys.path.append(SITE)
    real = os.dup(1)
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                import resource
                resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
                import signal
                signal.alarm(req.get('timeout', 20))
                a = json.dumps(answer(req, pkg))
                os.write(w, a.encode()[:60000])
            finally:
                os._exit(0)
        os.close(w)
        data = b''
        while True:
            d = os.read(r, 65536)
            if not d:
                break
            data += d
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if not data:
            data = json.dumps({'end': 'hang' if os.WIFSIGNALED(st) and os.WTERMSIG(st) == 14 else 'crash', 'msg': str(st)}).encode()
        os.write(real, data + b'\n')


if __name__ == '__main__':
    main(sys.argv[1])
