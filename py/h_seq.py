"""Creating and applying sequential patches."""
import io
from detools import create, apply, common
from detools.errors import Error
from . import ref
from .plan import Plan

NUMBERS = {'none': 0, 'lzma': 1, 'crle': 2, 'bz2': 3, 'heatshrink': 4, 'zstd': 5, 'lz4': 6}


def round_trip(S, NF, NT, COMP, ONE=False, **kw):
    frm = S.bytes('f', S.choice('nf', NF))
    to = S.bytes('t', S.choice('nt', NT))
    comp = S.choice('comp', COMP)
    plan = Plan(S, one=ONE)
    S.plan(plan)
    fp = io.BytesIO()
    create.create_patch(S.file(frm), S.file(to), fp, comp, suffix_array_algorithm=S.choice('sa', ['sais', 'divsufsort']),
                        use_mmap=S.choice('mmap', [False, True]), **kw)
    p = fp.getvalue()
    S.check(p[0] == NUMBERS[comp], 'the header tells the type and compression')
    r = ref.Rd(p)
    r.byte()
    S.check(r.size() == len(to), 'the header tells the to-size')
    if comp == 'none' or comp == 'crle':
        payload = p[r.p:]
        if len(to) > 0:
            if comp == 'crle':
                payload = ref.crle_decode(payload)
            out, err = ref.sequential(payload, frm, len(to))
            S.check(err is None, 'the patch is well-formed as documented')
            S.check(out == to, 'the patch describes the to-data as documented')
        else:
            S.check(r.end(), 'nothing follows the header of an empty to-file')
    out = io.BytesIO()
    n = apply.apply_patch(S.file(frm), io.BytesIO(p), out)
    S.check(n == len(to), 'applying returns the to-size')
    S.check(out.getvalue() == to, 'applying the created patch gives the to-data')
    S.reach('empty' if len(to) == 0 else comp)
    S.note(out.getvalue())


def far(S, COMP, N, M):
    """Sizes on encoding and buffer boundaries."""
    n = S.choice('n', N)
    m = S.choice('m', M)
    a, b = S.bytes('a', 1), S.bytes('b', 1)
    frm = a + bytes(range(97)) * (n // 97 + 1)
    frm = frm[:n - 1] + b
    c, d, e = S.bytes('c', 1), S.bytes('d', 1), S.bytes('e', 1)
    to = c + frm[1:n - 1] + d + (bytes([7, 9]) * m)[:m] + e
    back = S.choice('back', [0, n])

    def plan(f, t):
        f, t = bytes(f), bytes(t)
        if n > 100:
            k = n - 1
            df = bytes([(t[0] - f[0]) & 255]) + bytes(n - 2) + bytes([(t[k] - f[k]) & 255])
        else:
            df = bytes([(x - y) & 255 for x, y in zip(t[:n], f)])
        return [ref.enc_size(n), df, ref.enc_size(m + 1), t[n:], ref.enc_size(back - n)]

    S.plan(plan)
    comp = S.choice('comp', COMP)
    fp = io.BytesIO()
    create.create_patch(S.file(frm), S.file(to), fp, comp, use_mmap=False)
    out = io.BytesIO()
    S.check(apply.apply_patch(S.file(frm), io.BytesIO(fp.getvalue()), out) == len(to), 'applying returns the to-size')
    S.check(out.getvalue() == to, 'applying the created patch gives the to-data')
    S.reach('long' if n > 4096 else 'short')
    S.note(len(to))


def bad_names(S):
    """Names of compressions, types and algorithms that do not exist are rejected before anything is written."""
    fp = io.BytesIO()
    S.plan(Plan(S))
    k = S.choice('k', [dict(compression='gz'), dict(patch_type='foo'), dict(algorithm='foo'),
                       dict(suffix_array_algorithm='foo'), dict(data_format='foo'), dict(algorithm='hdiffpatch'),
                       dict(patch_type='hdiffpatch')])
    try:
        create.create_patch(S.file(S.bytes('f', 2)), S.file(S.bytes('t', 2)), fp, use_mmap=False, **k)
        S.check(False, 'unknown names are rejected')
    except Error:
        S.reach('rejected')
