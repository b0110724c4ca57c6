"""The CRLE codec."""
from detools.errors import Error
from detools.compression.crle import CrleCompressor, CrleDecompressor
from . import ref


def drain(S, x, data, sizes, first):
    """Feeds data in two parts as the patch reader does; returns all output."""
    out = b''
    parts = [data[:first], data[first:]] if first else [data]
    k = 0
    while not x.eof:
        if x.needs_input:
            if not parts:
                return out, False
            part = parts.pop(0)
        else:
            part = b''
        got = x.decompress(part, sizes[k % len(sizes)])
        S.check(len(got) <= sizes[k % len(sizes)], 'never more than asked for')
        out = out + got
        k += 1
    return out, True


def round_trip(S, d, cuts, sizes, first=None):
    c = CrleCompressor()
    p = b''
    last = 0
    for k in cuts:
        p = p + c.compress(d[last:k])
        last = k
    p = p + c.compress(d[last:]) + c.flush()
    S.check(ref.crle_decode(p, 1 << 20) == d, 'the compressed data decodes to the data')
    if first is None:
        first = S.choice('first', range(len(p)))
    out, end = drain(S, CrleDecompressor(len(p)), p, sizes, first)
    S.check(end, 'the end is found')
    S.check(out == d, 'decompressing gives the data back')
    S.note(out)


def small(S, N):
    d = S.bytes('d', N)
    cut = S.choice('cut', range(N + 1))
    round_trip(S, d, [cut], S.choice('sizes', [(1,), (3, 1), (N + 1,)]), 0)
    S.reach('data')


def parts(S, N):
    d = S.bytes('d', N)
    round_trip(S, d, [], (2,))
    S.reach('data')


def runs(S):
    """Runs and stretches on the boundaries of the length encoding."""
    a, b, c = S.bytes('a', 1), S.bytes('b', 1), S.bytes('c', 1)
    n = S.choice('n', [1, 5, 6, 7, 63, 64, 127, 128, 129, 300])
    m = S.choice('m', [0, 1, 6, 128])
    d = a * n + b * m + c
    S.assume((a != b) & (b != c))
    round_trip(S, d, [S.choice('cut', [0, 1, n - 1, n, n + 1])], (4096,), 0)
    S.reach('run' if n >= 6 else 'short')


def long_runs(S, N):
    """Long runs and what follows them, compressed in pieces."""
    a, b = S.bytes('a', 1), S.bytes('b', 1)
    S.assume(a != b)
    n = S.choice('n', N)
    k = S.choice('k', [0, 7])
    d = b * k + a * n + b * S.choice('m', [0, 7])
    cuts = S.choice('cuts', [(), (k + n,), (k + n - 1,), (k + 6, k + n // 2), (k + 5, k + n), (k + n // 2, k + n // 2 + 1)])
    round_trip(S, d, cuts, (4096, 1), 0)
    S.reach('run')


def many(S, N):
    """Many segments, with a free byte among them."""
    n = S.choice('n', N)
    a = S.bytes('a', 1)
    S.assume(a[0] >= 200)
    d = b''.join([(a if k == n - 2 else bytes([k % 200])) * (6 + k % 5) for k in range(n)])
    cut = S.choice('cut', [0, 1, 700])
    round_trip(S, d, [cut] if cut < len(d) else [], (4096,), 0)
    S.reach('many')


def scattered(S):
    """Long stretches without runs, with symbolic ends."""
    n = S.choice('n', [120, 127, 128, 129, 8190])
    d = S.bytes('a', 2) + bytes(range(7)) * (n // 7) + S.bytes('b', 2)
    round_trip(S, d, [], (4096, 7), S.choice('first', [0, 1, 2, 3, 64]))
    S.reach('data')


def any_stream(S, N):
    """Every byte string as CRLE data."""
    d = S.bytes('d', N)
    first = S.choice('first', range(N))
    try:
        want = ref.crle_decode(d)
    except ref.Bad as e:
        want = None
    except OverflowError:
        return
    try:
        out, end = drain(S, CrleDecompressor(N), d, (2, 1), first)
        if not end:
            out = None
    except Error:
        out = None
    S.check((out is None) == (want is None), 'malformed data is noticed, and only that')
    if out is not None:
        S.check(out == want, 'well-formed data decodes to its segments')
        S.reach('well-formed')
        S.note(out)
    else:
        S.reach('malformed')
