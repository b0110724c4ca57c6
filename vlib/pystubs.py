"""Library modules as the code under test sees them: files in memory, struct and bitstruct on terms, and codecs that only
frame the data (the real ones are outside the code under test)."""
import binascii as _binascii
import io
import os
import re
import statistics as _statistics
import struct as _struct
import types

import z3

from . import psym
from .psym import SymBytes, SymByteArray, SymInt, SymBool, vals, byte, unbyte, pack_int, unpack_int


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


# ---------------------------------------------------------------- struct

SIZES = dict(b=1, B=1, h=2, H=2, i=4, I=4, l=4, L=4, q=8, Q=8, n=8, N=8)


def sfields(fmt):
    if isinstance(fmt, (bytes, SymBytes)):
        fmt = ''.join(map(chr, vals(fmt)))
    order, native = '<', True
    if fmt[:1] in '<>!=@':
        order, native = ('>' if fmt[0] in '>!' else '<'), fmt[0] == '@'
        fmt = fmt[1:]
    r = []
    pos = 0
    for n, c in re.findall(r'(\d*)([a-zA-Z?])', fmt.replace(' ', '')):
        if c == 's':
            r.append(('s', int(n or 1)))
            pos += int(n or 1)
            continue
        size = 1 if c in 'x?' else SIZES[c]
        if native and c in 'lL':
            size = 8
        for _ in range(int(n or 1)):
            if native and pos % size:
                r.append(('x', size - pos % size))
                pos += size - pos % size
            r.append((c, size))
            pos += size
    return order == '<', r


def calcsize(fmt):
    return sum(n for _, n in sfields(fmt)[1])


def spack(fmt, *args):
    little, fields = sfields(fmt)
    out, args = [], list(args)
    if len(args) != sum(1 for c, _ in fields if c != 'x'):
        raise _struct.error('pack expected another number of items for packing')
    for c, n in fields:
        if c == 'x':
            out += [0] * n
            continue
        a = args.pop(0)
        if c == 's':
            v = vals(a)
            if v is None:
                raise _struct.error('argument for s must be a bytes object')
            out += (v + [0] * n)[:n]
        elif c == '?':
            out.append(1 if bool(a) else 0)
        else:
            if not psym.isint(a):
                raise _struct.error('required argument is not an integer')
            if isinstance(a, SymBool):
                a = a.asint()
            lo, hi = (0, (1 << (8 * n)) - 1) if c.isupper() else (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
            if not (a >= lo and a <= hi):
                raise _struct.error('argument out of range')
            out += pack_int(a, n, little).v
    return SymBytes(out)


def sunpack(fmt, data):
    little, fields = sfields(fmt)
    v = vals(data)
    if v is None:
        raise TypeError("a bytes-like object is required")
    if len(v) != sum(n for _, n in fields):
        raise _struct.error('unpack requires a buffer of %d bytes' % sum(n for _, n in fields))
    r, p = [], 0
    for c, n in fields:
        f = v[p:p + n]
        p += n
        if c == 'x':
            continue
        r.append(SymBytes(f) if c == 's' else byte(f[0]) != 0 if c == '?' else unpack_int(f, little, c.islower()))
    return tuple(r)


class Struct:
    def __init__(self, fmt):
        self.format, self.size = fmt, calcsize(fmt)

    def pack(self, *a):
        return spack(self.format, *a)

    def unpack(self, d):
        return sunpack(self.format, d)

    def unpack_from(self, d, offset=0):
        return sunpack(self.format, SymBytes(vals(d)[offset:offset + self.size]))


struct = module('struct', pack=spack, unpack=sunpack, calcsize=calcsize, error=_struct.error, Struct=Struct,
                unpack_from=lambda f, d, offset=0: Struct(f).unpack_from(d, offset),
                iter_unpack=lambda f, d: [sunpack(f, SymBytes(vals(d)[i:i + calcsize(f)]))
                                          for i in range(0, len(vals(d)), calcsize(f))])


# ---------------------------------------------------------------- bitstruct

class BitstructError(Exception):
    pass


def bfields(fmt):
    if re.sub(r'[usbpP]\d+', '', fmt.replace(' ', '')).strip('<>') or '<' in fmt:
        raise NotImplementedError('bitstruct format %r' % fmt)
    return [(c, int(n)) for c, n in re.findall(r'([usbpP])(\d+)', fmt)]


def bpack(fmt, *args):
    args = list(args)
    e, total = None, 0
    for c, n in bfields(fmt):
        if c in 'pP':
            t = z3.BitVecVal(0 if c == 'p' else (1 << n) - 1, n)
        else:
            if not args:
                raise BitstructError('pack expected more items for packing')
            a = args.pop(0)
            if c == 'b':
                a = 1 if bool(a) else 0
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if c == 's' else (0, (1 << n) - 1)
            if not (a >= lo and a <= hi):
                raise BitstructError('value does not fit the field')
            t = z3.simplify(psym.term(a, n))
        e = t if e is None else z3.Concat(e, t)
        total += n
    if args:
        args = []
    if total % 8:
        e = z3.Concat(e, z3.BitVecVal(0, 8 - total % 8))
        total += 8 - total % 8
    return SymBytes([psym.bit8(z3.Extract(i + 7, i, e)) for i in range(total - 8, -8, -8)])


def bunpack(fmt, data):
    fields = bfields(fmt)
    v = vals(data)
    total = sum(n for _, n in fields)
    if len(v) * 8 < total:
        raise BitstructError('unpack requires at least %d bits to unpack' % total)
    e = z3.Concat(*[psym.b8(x) for x in v]) if len(v) > 1 else psym.b8(v[0])
    top = 8 * len(v)
    r = []
    for c, n in fields:
        f = z3.simplify(z3.Extract(top - 1, top - n, e))
        top -= n
        if c in 'pP':
            continue
        if c == 's':
            r.append(psym.mk(f, -(1 << (n - 1)), (1 << (n - 1)) - 1))
        else:
            x = psym.mk(z3.ZeroExt(1, f), 0, (1 << n) - 1)
            r.append(x != 0 if c == 'b' else x)
    return tuple(r)


class Compiled:
    def __init__(self, fmt):
        bfields(fmt)
        self.fmt = fmt

    def pack(self, *a):
        return bpack(self.fmt, *a)

    def unpack(self, d):
        return bunpack(self.fmt, d)

    def calcsize(self):
        return sum(n for _, n in bfields(self.fmt))


def byteswap(fmt, data, offset=0):
    v = vals(data)
    r, p = v[:offset], offset
    for c in fmt:
        r += v[p:p + int(c)][::-1]
        p += int(c)
    return SymBytes(r)


bitstruct = module('bitstruct', pack=bpack, unpack=bunpack, compile=lambda f, names=None: Compiled(f), byteswap=byteswap,
                   calcsize=lambda f: sum(n for _, n in bfields(f)), Error=BitstructError)


# ---------------------------------------------------------------- files

class MemFile:
    """io.BytesIO."""
    real = False

    def __init__(self, data=b''):
        self.v = list(vals(data) or [])
        self.p = 0
        self.closed = False

    def read(self, size=-1):
        n = 0 if isinstance(self.p, SymInt) else max(0, len(self.v) - self.p)
        if size is None:
            size = -1
        if isinstance(size, SymInt):
            if bool(size < 0):
                size = n
            elif bool(size >= n):
                size = n
            else:
                size = size.__index__()
        if size < 0:
            size = n
        if n == 0:
            return SymBytes([])
        r = SymBytes(self.v[self.p:self.p + size])
        self.p += len(r)
        return r

    read1 = read

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def readable(self):
        return True

    writable = seekable = readable

    def write(self, data):
        v = vals(data)
        if v is None:
            raise TypeError("a bytes-like object is required, not '%s'" % type(data).__name__)
        if not v:
            return 0
        if isinstance(self.p, SymInt):
            psym.ENG.cap_hits['write'] = psym.ENG.cap_hits.get('write', 0) + 1
            raise psym.Cut
        if self.p > len(self.v):
            self.v += [0] * (self.p - len(self.v))
        self.v[self.p:self.p + len(v)] = v
        self.p += len(v)
        return len(v)

    def seek(self, off, whence=0):
        off = off + (0 if whence == 0 else self.p if whence == 1 else len(self.v))
        if off < 0:
            if whence == 0 or self.real:
                raise (OSError(22, 'Invalid argument') if self.real else ValueError('negative seek value'))
            off = 0
        if isinstance(off, SymInt):
            # All positions from the end on are alike until something is written there.
            if off.hi >= 1 << 63 and bool(off >= 1 << 63):
                raise OverflowError('Python int too large to convert to C long')
            if not bool(off >= len(self.v) + self.slack):
                off = off.__index__()
        self.p = off
        return off

    slack = 16

    def tell(self):
        return self.p

    def truncate(self, n=None):
        n = self.p if n is None else n.__index__()
        del self.v[n:]
        if self.real:
            self.v += [0] * (n - len(self.v))
        return n

    def getvalue(self):
        return SymBytes(self.v)

    def getbuffer(self):
        return SymByteArray(self.v)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    name = '?'

    def fileno(self):
        raise io.UnsupportedOperation('fileno')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        raise NotImplementedError


class RealFile(MemFile):
    """A file of the operating system: positions before the start are errors, and positions after the end are kept."""
    real = True
    numbers = []
    elf = None
    mode = '+r'

    def read(self, size=-1):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        if self.mode in ('w', 'a', 'x'):
            raise io.UnsupportedOperation('read')
        return MemFile.read(self, size)

    def write(self, data):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        if self.mode == 'r':
            raise io.UnsupportedOperation('write')
        return MemFile.write(self, data)

    def fileno(self):
        RealFile.numbers.append(self)
        return len(RealFile.numbers) - 1


class Mmap(psym.ByteOps):
    """mmap.mmap of a whole file."""
    __slots__ = ('v',)

    def __init__(self, fileno, length, access=None, **k):
        f = RealFile.numbers[fileno]
        if length != 0:
            raise NotImplementedError
        if not f.v:
            raise ValueError('cannot mmap an empty file')
        self.v = f.v

    def __getitem__(self, i):
        r = SymBytes(self.v)[i]
        return r

    def size(self):
        return len(self.v)

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Vfs:
    """The files that open() knows by their names."""
    files = {}

    @classmethod
    def open(cls, name, mode='r', *a, **k):
        if not isinstance(name, str) or 'b' not in mode:
            raise NotImplementedError('open(%r, %r)' % (name, mode))
        kind = ''.join(sorted(mode.replace('b', '')))
        f = cls.files.get(name)
        if f is None and kind in ('r', '+r'):
            raise FileNotFoundError(2, 'No such file or directory', name)
        if f is not None and kind in ('x', '+x'):
            raise FileExistsError(17, 'File exists', name)
        if f is None or kind in ('w', '+w'):
            if f is None:
                f = cls.files[name] = RealFile()
            del f.v[:]
            f.elf = None
        h = RealFile()
        h.v, h.elf = f.v, f.elf
        h.mode = kind
        if 'a' in kind:
            h.p = len(h.v)
        return h


mmap = module('mmap', mmap=Mmap, ACCESS_READ=1, ACCESS_WRITE=2, ACCESS_COPY=3)
tempfile = module('tempfile', TemporaryFile=lambda *a, **k: RealFile())


def getsize(name):
    if name not in Vfs.files:
        raise FileNotFoundError(2, 'No such file or directory', name)
    return len(Vfs.files[name].v)


def remove(name):
    if Vfs.files.pop(name, None) is None:
        raise FileNotFoundError(2, 'No such file or directory', name)


sos = module('os', **{k: getattr(os, k) for k in ('SEEK_SET', 'SEEK_CUR', 'SEEK_END', 'linesep', 'sep', 'environ')})
sos.path = module('path', **{k: getattr(os.path, k) for k in ('join', 'basename', 'dirname', 'splitext', 'sep')})
sos.path.getsize = getsize
sos.path.exists = sos.path.isfile = lambda name: name in Vfs.files
sos.remove = sos.unlink = remove


sio = module('io', **{k: getattr(io, k) for k in dir(io) if not k.startswith('__')})
sio.BytesIO = MemFile


# ---------------------------------------------------------------- codecs

class Codec:
    """Compressor that precedes every byte with a one and ends with a zero. What it got last comes out with the next call only."""

    def __init__(self, *a, **k):
        self.done = False
        self.args = a, k
        self.held = []

    def compress(self, data):
        if self.done:
            raise ValueError('Compressor has been flushed')
        r, self.held = self.held, [y for x in vals(data) for y in (1, x)]
        return SymBytes(r)

    def flush(self):
        if self.done:
            raise ValueError('Repeated call to flush()')
        self.done = True
        return SymBytes(self.held + [0])


class DecodeError(Exception):
    pass


class Decodec:
    """Its decompressor, with the interface bz2 and lzma document."""

    def __init__(self, *a, **k):
        self.ind, self.out = [], []
        self.marked = self.eof = False
        self.needs_input = True
        self.unused_data = SymBytes([])

    def decompress(self, data, max_length=-1):
        if self.eof:
            raise EOFError('End of stream already reached')
        self.ind += vals(data)
        while self.ind and not self.marked:
            if bool(byte(self.ind[0]) == 0):
                self.marked = True
                del self.ind[0]
            elif bool(byte(self.ind[0]) == 1):
                if len(self.ind) < 2:
                    break
                self.out.append(self.ind[1])
                del self.ind[:2]
            else:
                raise DecodeError
        r = self.out if max_length < 0 else self.out[:max_length]
        self.out = self.out[len(r):]
        if self.marked and not self.out:
            self.eof = True
            self.needs_input = False
            self.unused_data = SymBytes(self.ind)
        else:
            self.needs_input = not self.out
        return SymBytes(r)


bz2 = module('bz2', BZ2Compressor=Codec, BZ2Decompressor=Decodec)
lzma = module('lzma', LZMACompressor=Codec, LZMADecompressor=Decodec, LZMAError=DecodeError, FORMAT_ALONE=2, FORMAT_AUTO=0,
              FORMAT_XZ=1)


class HsWriter:
    def __init__(self, window_sz2=8, lookahead_sz2=4):
        self.k = Codec()
        self.par = window_sz2, lookahead_sz2


class HsReader:
    def __init__(self, window_sz2=8, lookahead_sz2=4):
        if not (4 <= window_sz2 and window_sz2 <= 15 and 3 <= lookahead_sz2 and lookahead_sz2 < window_sz2):
            raise ValueError('bad heatshrink parameters')
        self.d = Decodec()
        self.par = window_sz2, lookahead_sz2


class HsEncoder:
    """heatshrink2.core.Encoder: fill() takes input and returns what comes out, finish() the rest. The stream has no end
    mark."""

    def __init__(self, obj):
        self.o = obj
        self.finished = False
        self.held = []

    def fill(self, data):
        if self.finished:
            raise ValueError('Attempted to perform operation on a finished encoder.')
        if isinstance(self.o, HsWriter):
            return SymBytes([y for x in vals(data) for y in (1, x)])
        # One byte of output is kept back, as the decoder keeps bits.
        self.held += [] + vals(data)
        n = len(self.held) // 2 * 2
        r, self.held = self.held[1:n:2], self.held[n:]
        return SymBytes(r)

    def finish(self):
        if self.finished:
            raise ValueError('Attempted to perform operation on a finished encoder.')
        self.finished = True
        return SymBytes([])


class Zc:
    """A header byte; every byte preceded with a one, the last with a two; no data is a zero."""

    def __init__(self, level=3, **k):
        pass

    def compress(self, data):
        d = vals(data)
        r = [y for x in d for y in (1, x)]
        if d:
            r[-2] = 2
        return SymBytes([40] + (r or [0]))


class ZWriter:
    """What is decompressed comes out when the block is complete."""

    def __init__(self, fout):
        self.f, self.ind, self.out, self.begun, self.eof = fout, [], [], False, False

    def write(self, data):
        self.ind += vals(data)
        if self.ind and not self.begun:
            if bool(byte(self.ind[0]) != 40):
                raise DecodeError
            self.begun = True
            del self.ind[0]
        while self.ind and not self.eof:
            if bool(byte(self.ind[0]) == 0):
                if self.out:
                    raise DecodeError
                self.eof = True
            elif bool(byte(self.ind[0]) == 1) or bool(byte(self.ind[0]) == 2):
                if len(self.ind) < 2:
                    break
                self.out.append(self.ind[1])
                self.eof = bool(byte(self.ind[0]) == 2)
                del self.ind[:2]
            else:
                raise DecodeError
            if self.eof:
                self.f.write(SymBytes(self.out) if isinstance(self.f, MemFile) else bytes(self.out))


class Zd:
    def __init__(self, *a, **k):
        pass

    def stream_writer(self, f, **k):
        return ZWriter(f)


class Lz4Codec(Codec):
    """A frame of LZ4 has a header."""
    begun = False

    def begin(self, source_size=0):
        self.begun = True
        return SymBytes(LZ4_HEADER)

    def compress(self, data):
        if not self.begun:
            raise RuntimeError('compress called before begin')
        return Codec.compress(self, data)

    def flush(self):
        if not self.begun:
            raise RuntimeError('flush called before begin')
        return Codec.flush(self)


class Lz4Decodec(Decodec):
    def __init__(self, *a, **k):
        Decodec.__init__(self)
        self.header = list(LZ4_HEADER)

    def decompress(self, data, max_length=-1):
        d = vals(data)
        while d and self.header:
            if bool(byte(d[0]) != self.header[0]):
                raise RuntimeError('LZ4F_decompress failed')
            d, self.header = d[1:], self.header[1:]
        return Decodec.decompress(self, SymBytes(d), max_length)


LZ4_HEADER = [4, 34]


heatshrink2 = module('heatshrink2', core=module('core', Writer=HsWriter, Reader=HsReader, Encoder=HsEncoder))
zstandard = module('zstandard', ZstdCompressor=Zc, ZstdDecompressor=Zd)
lz4 = module('lz4', frame=module('frame', LZ4FrameCompressor=Lz4Codec, LZ4FrameDecompressor=Lz4Decodec,
                                 COMPRESSIONLEVEL_MAX=16))


# ---------------------------------------------------------------- the C extension, by its contract (decided on its own)

def pack_size(value):
    if isinstance(value, float) or not psym.isint(value):
        raise TypeError("an integer is required")
    if not (value >= -(1 << 63) and value < 1 << 63):
        raise OverflowError('Python int too large to convert to C long')
    neg = bool(value < 0)
    m = -value if neg else value
    out = [(m & 0x3f) | (0x40 if neg else 0)]
    m = m >> 6
    while bool(m > 0):
        out[-1] = out[-1] | 0x80
        out.append(m & 0x7f)
        m = m >> 7
    return SymBytes([unbyte(x) for x in out])


def add_bytes(a, b):
    a, b = vals(a), vals(b)
    if len(a) != len(b):
        raise ValueError('Lengths must be equal.')
    return SymByteArray([(x + y) & 255 if isinstance(x, int) and isinstance(y, int) else psym.bit8(psym.b8(x) + psym.b8(y))
                         for x, y in zip(a, b)])


class Creator:
    """bsdiff.create_patch: some chunks that describe the to-data. The harness says which."""
    plan = None

    @classmethod
    def create_patch(cls, sa, frm, to, de):
        f, t = vals(frm), vals(to)
        if len(vals(sa)) < 4 * (len(f) + 1) or len(vals(de)) < len(t):
            raise AssertionError('buffers too small')
        return cls.plan(f, t)


def suffix_array(data, sa):
    if len(vals(sa)) < 4 * (len(vals(data)) + 1):
        raise AssertionError('suffix array too small')


class Hdiff:
    """The hdiffpatch library. The harness says what it answers."""
    create = apply = None


# ---------------------------------------------------------------- ELF files: sections and symbols as the harness describes them

class ElfSymbol:
    def __init__(self, d):
        self.name = d['name']
        self.entry = {'st_value': d['value'], 'st_size': d['size'], 'st_info': {'type': d['type'], 'bind': 'STB_GLOBAL'},
                      'st_other': {'visibility': 'STV_DEFAULT'}, 'st_shndx': 1, 'st_name': 0}

    def __getitem__(self, k):
        return self.entry[k]


class ElfSection:
    def __init__(self, d):
        self.name, self.d = d['name'], d
        self.header = {'sh_addr': d['addr'], 'sh_size': d['size'], 'sh_offset': d['offset'], 'sh_entsize': d.get('entsize', 0),
                       'sh_type': d['type'], 'sh_flags': d.get('flags', 2 if d['addr'] else 0), 'sh_name': 0, 'sh_link': 0, 'sh_info': 0, 'sh_addralign': 1}

    def __getitem__(self, k):
        return self.header[k]

    def data(self):
        return SymBytes(self.d['data'])

    @property
    def data_size(self):
        return self.d['size']


class ElfSymbols(ElfSection):
    def num_symbols(self):
        if self.d.get('entsize', 0) == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        return len(self.d['symbols'])

    def get_symbol(self, k):
        return ElfSymbol(self.d['symbols'][k])

    def iter_symbols(self):
        return iter([ElfSymbol(self.d['symbols'][k]) for k in range(self.num_symbols())])


class ElfFile:
    def __init__(self, f):
        self.stream = f
        self.sections = [(ElfSymbols if 'symbols' in d else ElfSection)(d) for d in f.elf]

    def iter_sections(self, type=None):
        return iter([x for x in self.sections if type is None or x['sh_type'] == type])

    def num_sections(self):
        return len(self.sections)

    def get_section(self, k):
        return self.sections[k]

    def get_section_by_name(self, name):
        for x in self.sections:
            if x.name == name:
                return x
        return None

    def get_section_index(self, name):
        for k, x in enumerate(self.sections):
            if x.name == name:
                return k
        return None


elftools = module('elftools', elf=module('elf', constants=module('constants', SH_FLAGS=type('SH_FLAGS', (), dict(
    SHF_WRITE=1, SHF_ALLOC=2, SHF_EXECINSTR=4))), elffile=module('elffile', ELFFile=ElfFile),
                                         sections=module('sections', SymbolTableSection=ElfSymbols, Symbol=ElfSymbol,
                                                         Section=ElfSection)))


def concrete(f):
    def g(v, *a, **k):
        return f([int(x) for x in v] if not isinstance(v, int) else v, *a, **k)
    return g


def library(name):
    import importlib
    return importlib.import_module(name)


humanfriendly = module('humanfriendly', format_timespan=lambda *a, **k: '?',
                       format_size=lambda n, *a, **k: library('humanfriendly').format_size(int(n), *a, **k),
                       parse_size=lambda *a, **k: library('humanfriendly').parse_size(*a, **k))
statistics = module('statistics', mean=concrete(_statistics.mean), median=concrete(_statistics.median),
                    fmean=concrete(_statistics.fmean), median_low=concrete(_statistics.median_low),
                    median_high=concrete(_statistics.median_high))
binascii = module('binascii', hexlify=lambda b, *a: SymBytes(_binascii.hexlify(bytes(int(x) for x in b), *a)),
                  unhexlify=lambda b: SymBytes(_binascii.unhexlify(b)), crc32=_binascii.crc32)

STUBS = dict(os=sos, elftools=elftools, statistics=statistics, binascii=binascii, mmap=mmap, tempfile=tempfile, io=sio, struct=struct, bitstruct=bitstruct, bz2=bz2, lzma=lzma, heatshrink2=heatshrink2, zstandard=zstandard,
             lz4=lz4, humanfriendly=humanfriendly)
SUBSTUBS = {
    'detools.bsdiff': dict(pack_size=pack_size, add_bytes=add_bytes, create_patch=lambda *a: Creator.create_patch(*a)),
    'detools.suffix_array': dict(sais=suffix_array, divsufsort=suffix_array),
    'detools.hdiffpatch': dict(create_patch=lambda *a: Hdiff.create(*a), apply_patch=lambda *a: Hdiff.apply(*a)),
}
psym.BUILTINS['open'] = Vfs.open
