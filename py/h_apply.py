"""Applying any sequential patch."""
import io
from detools import apply, common
from detools.errors import Error
from . import ref


def run(S, frm, patch):
    out = io.BytesIO()
    try:
        n = apply.apply_patch(S.file(frm), io.BytesIO(patch), out)
    except Exception as e:
        return None, out.getvalue(), e
    return n, out.getvalue(), None


def judge(S, frm, patch, payload, to_size):
    n, out, e = run(S, frm, patch)
    want, err = ref.sequential(payload, frm, to_size)
    S.check(len(out) <= to_size, 'never more than the to-size is written')
    S.check(out == want[:len(out)], 'only what the patch describes is written')
    if err is None:
        S.check(n is not None, 'a well-formed patch is applied')
        S.check(n == to_size, 'the to-size is returned')
        S.check(out == want, 'exactly what the patch describes is written')
        S.reach('applied')
        S.note(n, out)
    else:
        S.check(n is None, 'a malformed patch is rejected')
        S.reach(str(err))


def any_stream(S, N, NF, TO, COMP='none'):
    """Every uncompressed stream after the header."""
    frm = S.bytes('f', NF)
    d = S.bytes('d', N)
    S.shard(d[1])
    if COMP == 'none':
        payload = d
        p = d
    else:
        k = S.choice('k', range(1, N))
        p = bytes([0, k]) + d[:k] + bytes([0, N - k]) + d[k:]
    to = S.choice('to', TO)
    judge(S, frm, bytes([2 if COMP == 'crle' else 0, to]) + p, d, to)


def structured(S, SIZES, NF, CUT=False, LONGER=False, COMP='none'):
    """Patches of two rounds with sizes from a list, perhaps cut short or prolonged."""
    frm = S.bytes('f', NF)
    p = bytes([0])
    to = 0
    for k in range(2):
        d, e = S.choice('s%d' % k, SIZES)
        a = S.int('a%d' % k, -NF - 2, NF + 2)
        p = p + ref.enc_size(d) + S.bytes('d%d.' % k, d) + ref.enc_size(e) + S.bytes('e%d.' % k, e) + ref.enc_size(a)
        to += d + e
    declared = to + S.choice('more', [-1, 0, 1])
    if declared <= 0:
        return
    if CUT:
        p = p[:S.choice('cut', range(len(p)))]
    if LONGER:
        p = p + S.bytes('x', 1)
    if COMP == 'crle':
        k = len(p) // 2
        judge(S, frm, bytes([2]) + ref.enc_size(declared) + bytes([0, k]) + p[:k] + bytes([0, len(p) - k]) + p[k:], p, declared)
        return
    if COMP != 'none':                          # what the codec makes of the stream
        from .h_reader import compress
        from detools.common import compression_string_to_number
        comp = S.choice('comp', COMP)
        judge(S, frm, bytes([compression_string_to_number(comp)]) + ref.enc_size(declared) + compress(comp, p), p, declared)
        S.reach(comp)
        return
    judge(S, frm, bytes([0]) + ref.enc_size(declared) + p, p, declared)


def far(S, N):
    """Sizes on encoding and buffer boundaries, the declared size off by up to one."""
    d, e = S.choice('n', N)
    frm = S.bytes('f', 1) + bytes(range(89)) * (d // 89 + 1)

    def data(name, n):
        x = (bytes(range(97)) * (n // 97 + 1))[:n]
        return x if n < 2 else S.bytes(name, 1) + x[1:n - 1] + S.bytes(name + "'", 1)
    p = bytes([0])
    to = 0
    for k in range(2):
        p = p + ref.enc_size(d) + data('d%d' % k, d) + ref.enc_size(e) + data('e%d' % k, e) + ref.enc_size(-d)
        to += d + e
        e = 0
    declared = to + S.choice('more', [-1, 0, 1])
    judge(S, frm, bytes([0]) + ref.enc_size(declared) + p, p, declared)


def moves(S, N, A):
    """Moves to any place of the from-data and back."""
    frm = bytes((7 * i) & 255 for i in range(N)) + S.bytes('f', 1)
    a, b = S.int('a', *A), S.int('b', -3, 3)
    d = S.bytes('d', 3)
    p = bytes([0, 1]) + d[:1] + bytes([0]) + ref.enc_size(a) + bytes([1]) + d[1:2] + bytes([0]) + ref.enc_size(b - a) \
        + bytes([1]) + d[2:] + bytes([0, 0])
    judge(S, frm, bytes([0, 3]) + p, p, 3)


def beyond(S):
    """Moves far beyond the from-data, and back in one or two steps."""
    frm = S.bytes('f', 4)
    a, b = S.int('a', -5, 1 << 42), S.int('b', -2, 3)
    c = S.choice('c', [0, 1 << 31, -(1 << 40)])
    d = S.bytes('d', 2)
    p = bytes([0, 1]) + d[:1] + bytes([0]) + ref.enc_size(a) + bytes([0, 0]) + ref.enc_size(c) + bytes([0, 0]) \
        + ref.enc_size(b - a - c) + bytes([1]) + d[1:] + bytes([0, 0])
    judge(S, frm, bytes([0, 2]) + p, p, 2)


def header(S, N):
    """Every short byte string as a patch."""
    frm = S.bytes('f', 2)
    d = S.bytes('d', N)
    S.shard(d[1])
    n, out, e = run(S, frm, d)
    S.check(n is None or n == len(out), 'success returns the number of bytes written')
    S.check(n is None or n >= 0, 'success returns a size')
    if n is None:
        # Only three kinds of error: what detools says, from-data that is not there, and a bad from-position.
        S.reach('rejected')
    else:
        t, c = d[0] >> 4 & 7, d[0] & 15
        S.check((t == 0) | (t == 2), 'only patch types that exist are applied')
        S.check(c <= 6, 'only compressions that exist are applied')
        S.reach('applied')
        S.note(n, out)


def positioned(S, SIZES, NF):
    """A patch that stands behind other data in its file, applied from where the file stands."""
    frm = S.bytes('f', NF)
    p = bytes([0])
    d, e = S.choice('s', SIZES)
    a = S.int('a', -NF - 1, NF + 1)
    p = p + ref.enc_size(d) + S.bytes('d', d) + ref.enc_size(e) + S.bytes('e', e) + ref.enc_size(a)
    junk = S.bytes('j', S.choice('before', [1, 3]))
    crle = S.choice('crle', [False, True])
    payload = bytes([0, len(p)]) + p if crle else p
    f = io.BytesIO(junk + bytes([2 if crle else 0, d + e]) + payload)
    f.seek(len(junk))
    out = io.BytesIO()
    try:
        n = apply.apply_patch(S.file(frm), f, out)
    except Exception as x:
        n = None
    want, err = ref.sequential(p, frm, d + e)
    S.check((n is not None) == (err is None), 'accepted exactly if well-formed')
    if n is None:
        S.reach('rejected')
    else:
        S.check(n == d + e and out.getvalue() == want, 'exactly what the patch describes is written')
        S.reach('applied')
        S.note(n, out.getvalue())
