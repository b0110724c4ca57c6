"""Patches in the format of bsdiff."""
import io
import bz2
from detools import create, apply
from detools.errors import Error
from . import ref
from .plan import Plan


def off(v):
    m = -v if v < 0 else v
    b = [(m >> (8 * i)) & 0xff for i in range(8)]
    if v < 0:
        b[7] = b[7] | 0x80
    return bytes(b)


def offsets(S):
    """The 64-bit integers of the format."""
    v = S.int('v', -(1 << 63) + 1, (1 << 63) - 1)
    p = create.offtout(v)
    S.check(p == off(v), 'packed as documented')
    S.check(apply.offtin(p) == v, 'unpacks to the same value')
    S.reach('negative' if v < 0 else 'other')
    S.note(p)


def any_offset(S):
    d = S.bytes('d', 8)
    m = 0
    for i in range(8):
        m = m | ((d[i] & (0x7f if i == 7 else 0xff)) << (8 * i))
    w = apply.offtin(d)
    S.check(w == (-m if d[7] & 0x80 else m), 'any eight bytes unpack to their value')
    S.reach('value')
    S.note(w)


def round_trip(S, NF, NT):
    frm = S.bytes('f', S.choice('nf', NF))
    to = S.bytes('t', S.choice('nt', NT))
    plan = Plan(S)
    S.plan(plan)
    fp = io.BytesIO()
    create.create_patch(S.file(frm), S.file(to), fp, patch_type='bsdiff')
    p = fp.getvalue()
    S.check(p[:8] == b'BSDIFF40', 'the magic')
    S.check(p[24:32] == off(len(to)), 'the header tells the to-size')

    def num(k):
        return int.from_bytes(bytes(p[k:k + 8]), 'little') if not S.symbolic else sum(p[k + i] << (8 * i) for i in range(8))
    a, b = num(8), num(16)
    ctrl = bz2.BZ2Decompressor().decompress(p[32:32 + a])
    diff = bz2.BZ2Decompressor().decompress(p[32 + a:32 + a + b])
    extra = bz2.BZ2Decompressor().decompress(p[32 + a + b:])
    tr = plan.triples[0] if plan.triples else []
    S.check(ctrl == b''.join([off(x) for t in tr for x in t]), 'the control block lists sizes and adjustments')
    S.check(len(diff) == sum(t[0] for t in tr) and len(extra) == sum(t[1] for t in tr), 'diff and extra blocks')
    out = io.BytesIO()
    n = apply.apply_patch_bsdiff(S.file(frm), io.BytesIO(p), out)
    S.check(n == len(to), 'applying returns the to-size')
    S.check(out.getvalue() == to, 'applying the created patch gives the to-data')
    S.reach('empty' if len(to) == 0 else 'data')
    S.note(out.getvalue())


def header(S):
    """Magic and sizes of the header, and patches cut anywhere."""
    nt = S.choice('nt', [0, 2])
    frm, to = b'ab', S.bytes('t', nt)
    tr = [[2, 0, 0]] if nt else []
    diff = bytes([(x - y) & 255 for x, y in zip(to, frm)])
    blocks = [z(b''.join([off(x) for t in tr for x in t])), z(diff), z(b'')]
    what = S.choice('what', ['magic', 'size', 'cut', 'sign'])
    magic, sizes, bad = b'BSDIFF40', [len(blocks[0]), len(blocks[1]), nt], False
    p = magic + b''.join([off(x) for x in sizes]) + b''.join(blocks)
    if what == 'magic':
        k = S.choice('k', range(8))
        m = S.bytes('m', 1)
        bad = m[0] != magic[k]
        p = p[:k] + m + p[k + 1:]
    elif what == 'size':
        # Any other size of the first two blocks or of the to-data, as far as it can be told.
        k = S.choice('k', range(3))
        v = S.int('v', -4, 1)
        bad = v != sizes[k] if k == 2 else v < 0
        if k < 2:
            S.assume(v < 0)
        sizes[k] = v
        p = magic + b''.join([off(x) for x in sizes]) + b''.join(blocks)
    elif what == 'sign':
        k = S.choice('k', range(3))
        v = S.int('v', -(1 << 63) + 1, -1)
        bad = True
        sizes[k] = v
        p = magic + b''.join([off(x) for x in sizes]) + b''.join(blocks)
    else:
        n = S.choice('n', [0, 1, 8, 9, 16, 24, 31, 32, 33, len(p) - 1])
        p = p[:n]
        bad = n < len(p) + 1
    out = io.BytesIO()
    try:
        n = apply.apply_patch_bsdiff(S.file(frm), io.BytesIO(p), out)
    except Exception:
        n = None
    if n is None:
        S.check(bad, 'a well-formed patch is applied')
        S.reach('rejected')
    else:
        S.check(S.no(bad), 'a malformed patch is rejected')
        S.check(n == nt and out.getvalue() == to, 'exactly what the patch describes is written')
        S.reach('applied')
    S.note(n)


def malformed(S, R):
    """Any control values with blocks of fixed content."""
    frm = S.bytes('f', 2)
    to_size = S.choice('to', [1, 2, 3])
    tr = [[S.int('%s%d' % (c, k), -3, 4) for c in 'dea'] for k in range(R)]
    diff, extra = S.bytes('x', S.choice('nd', range(3))), S.bytes('y', S.choice('ne', range(3)))
    judge(S, frm, to_size, tr, diff, extra)


def z(d):
    c = bz2.BZ2Compressor()
    return c.compress(d) + c.flush()


def far(S, N):
    """Sizes on buffer boundaries, the to-size off by up to one."""
    d, e = S.choice('n', N)
    frm = S.bytes('f', 1) + bytes(range(89)) * (d // 89 + 1)
    diff = S.bytes('x', 1) + (bytes(range(97)) * (d // 97 + 1))[:d]
    extra = (bytes(range(7)) * (e // 7 + 1))[:e] + S.bytes('y', 1)
    tr = [[d, e, -d], [1, 1, 0]]
    judge(S, frm, d + e + 2 + S.choice('more', [-1, 0, 1]), tr, diff, extra)


def beyond(S):
    """Moves far beyond the from-data, and back in one or two steps."""
    a, b = S.int('a', -5, 1 << 42), S.int('b', -2, 3)
    c = S.choice('c', [0, 1 << 31, -(1 << 40)])
    judge(S, S.bytes('f', 4), 2, [[1, 0, a], [0, 0, c], [1, 0, b - a - c]], S.bytes('x', 2), b'')


def judge(S, frm, to_size, tr, diff, extra):
    blocks = [z(b''.join([off(x) for t in tr for x in t])), z(diff), z(extra)]
    p = b'BSDIFF40' + off(len(blocks[0])) + off(len(blocks[1])) + off(to_size) + b''.join(blocks)
    out = io.BytesIO()
    try:
        n = apply.apply_patch_bsdiff(S.file(frm), io.BytesIO(p), out)
    except Exception:
        n = None
    got = out.getvalue()
    R = len(tr)
    want, src, k = b'', ref.FromBytes(frm), 0
    rd, re = ref.Rd(diff), ref.Rd(extra)
    err = None
    try:
        while len(want) < to_size:
            if k >= R:
                raise ref.Bad('short')
            d, e, a = tr[k]
            k += 1
            if d < 0 or len(want) + d > to_size:
                raise ref.Bad('diff')
            x = rd.take(d)
            want = want + ref.add(x, src.take(len(x)))
            if e < 0 or len(want) + e > to_size:
                raise ref.Bad('extra')
            want = want + re.take(e)
            src.move(a)
        if k != R or not rd.end() or not re.end():
            raise ref.Bad('long')
    except ref.Bad as e:
        err = e
    S.check(len(got) <= to_size, 'never more than the to-size is written')
    S.check(got == want[:len(got)], 'only what the patch describes is written')
    if err is None:
        S.check(n is not None, 'a well-formed patch is applied')
        S.check(n == to_size, 'the to-size is returned')
        S.check(got == want, 'exactly what the patch describes is written')
        S.reach('applied')
        S.note(got)
    else:
        S.check(n is None, 'a malformed patch is rejected')
        S.reach(str(err))
