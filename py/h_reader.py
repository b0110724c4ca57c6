"""Reading a compressed stream in pieces of any size."""
import io
import bz2
import lzma
import lz4.frame
from detools.errors import Error
from detools.create import create_compressor
from detools.apply import PatchReader, convert_compression
from detools.common import compression_string_to_number

COMPRESSIONS = ['none', 'crle', 'lzma', 'bz2', 'heatshrink', 'zstd', 'lz4']


def compress(comp, data, cuts=(), window=8, lookahead=7):
    c = create_compressor(comp, window, lookahead)
    p, last = b'', 0
    for k in cuts:
        p = p + c.compress(data[last:k])
        last = k
    return p + c.compress(data[last:]) + c.flush()


def sizes(S, N, COMP, PRE=0):
    """Reads of any sizes give the data in order, the end is noticed exactly at the end, and reading on fails."""
    d = S.bytes('d', N)
    comp = S.choice('comp', COMP)
    if PRE:
        d = d[:N // 2] + bytes([3, 5, 7]) * (PRE // 3) + d[N // 2:]
        N = len(d)
    p = compress(comp, d, [S.choice('cut', range(0, N + 1) if N < 9 else [1])])
    f = io.BytesIO(b'\x01\x02' + p)
    f.seek(2)
    r = PatchReader(f, comp)
    pos = 0
    k = 0
    while pos < N:
        S.check(not r.eof, 'the end is not found early')
        left = N - pos
        n = S.choice('n%d' % k, range(1, left + 1) if N < 9 else [x for x in ((4096, N - 1, N) if k else (1, 4096, N - 1, N)) if x <= left] or [left])
        got = r.decompress(n)
        S.check(got == d[pos:pos + n], 'the bytes asked for are the next ones')
        S.note(got)
        pos += n
        k += 1
    S.check(r.eof, 'the end is found')
    try:
        r.decompress(1)
        S.check(False, 'reading past the end fails')
    except Error:
        pass
    S.reach(comp)


def short(S, N, COMP):
    """A stream that is cut short never reads as complete."""
    d = S.bytes('d', N)
    comp = S.choice('comp', COMP)
    p = compress(comp, d)
    k = S.choice('k', range(len(p)))
    r = PatchReader(io.BytesIO(p[:k]), comp)
    try:
        got = r.decompress(N)
        # The data may be there already, the end is not.
        S.check(got == d, 'no wrong data from a stream that is cut short')
        S.check(not r.eof or comp in ('none', 'heatshrink', 'zstd'), 'a stream that is cut short has no end')
    except Error:
        S.reach('noticed')


def numbers(S):
    """Compression names and numbers belong together."""
    n = S.int('n', 0, 15)
    try:
        name = convert_compression(n)
    except Error:
        S.check(n > 6, 'only unknown compressions are rejected')
        S.reach('unknown')
        return
    S.check(compression_string_to_number(name) == n, 'names and numbers belong together')
    S.check(name in ('none', 'lzma', 'crle', 'bz2', 'heatshrink', 'zstd', 'lz4'), 'known names')
    S.reach('known')
    S.note(name)


def boundary(S, COMP, LEN):
    """Compressed data of a length around that of the reads of the patch file."""
    comp = S.choice('comp', COMP)
    target = S.choice('len', LEN)
    x = S.bytes('x', 1)
    noise, v = [], 1
    for k in range(target):
        v = (v * 1103515245 + 12345) & 0x7fffffff
        noise.append(v >> 16 & 255)
    noise = bytes(noise)
    lo, hi = 1, target
    while lo < hi:                              # the shortest data that makes as much
        mid = (lo + hi) // 2
        if len(compress(comp, noise[:mid] + x)) >= target:
            hi = mid
        else:
            lo = mid + 1
    d = noise[:lo] + x
    p = compress(comp, d)
    r = PatchReader(io.BytesIO(p), comp)
    pos, k = 0, S.choice('first', [1, 1000, 0])
    while pos < len(d):
        S.check(not r.eof, 'the end is not found early')
        n = min(k or len(d), len(d) - pos)
        got = r.decompress(n)
        S.check(got == d[pos:pos + n], 'the bytes asked for are the next ones')
        pos += n
        k = 0 if k == 1 else k
    S.check(r.eof, 'the end is found')
    S.reach(comp)
