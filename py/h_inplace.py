"""Creating and applying in-place patches."""
import io
from detools import create, apply, common
from detools.errors import Error
from . import ref
from .plan import Plan, Whole
from .h_seq import NUMBERS


def round_trip(S, SEG, MEM, SHIFT, NF, NT, COMP=('none',), PAD=(0,), ONE=True, FULL=False):
    seg = S.choice('seg', SEG)
    mem = seg * S.choice('mem', MEM)
    shift = S.choice('shift', SHIFT)
    nf = S.choice('nf', NF)
    nt = S.choice('nt', NT)
    comp = S.choice('comp', COMP)
    frm, to = S.bytes('f', nf), S.bytes('t', nt)
    S.plan(Whole(S.choice('tail', [False, True])) if FULL else Plan(S, one=ONE))
    fp = io.BytesIO()
    try:
        create.create_patch(S.file(frm), S.file(to), fp, comp, 'in-place', memory_size=mem, segment_size=seg,
                            minimum_shift_size=None if shift is None else seg * shift, use_mmap=False)
    except Error:
        S.check(nt > mem or seg * (2 if shift is None else shift) > mem, 'what fits is not rejected')
        S.reach('rejected')
        return
    p = fp.getvalue()
    r = ref.Rd(p)
    S.check(r.byte() == 16 + NUMBERS[comp], 'the header tells the type and compression')
    head = [r.size() for _ in range(5)]
    S.check(head[0] == mem and head[1] == seg and head[3] == nf and head[4] == nt, 'the header tells the sizes')
    S.check(head[2] % seg == 0, 'the shift size is a multiple of the segment size')
    S.check(head[2] >= seg * (2 if shift is None else shift), 'memory is shifted at least as far as asked for')
    extra = S.choice('pad', PAD)
    image = (frm + bytes([0xa5]) * (mem + extra))[:max(mem, nf) + extra]
    payload = p[r.p:]
    S.check(nt > 0 or len(payload) == 0, 'nothing follows the header if there is no to-data')
    if comp == 'crle':
        payload = ref.crle_decode(payload)
    if comp in ('none', 'crle') and nt > 0:
        try:
            m = ref.in_place(payload, image[:mem], mem, seg, head[2], nf, nt)
        except ref.Bad:
            m = None
        S.check(m is not None, 'the patch created is well-formed')
        S.check(m[:nt] == to, 'the patch describes the to-data as documented')
    f = S.file(image)
    n = apply.apply_patch_in_place(f, io.BytesIO(p))
    S.check(n == nt, 'applying returns the to-size')
    f.seek(0)
    got = f.read()
    S.check(got[:nt] == to, 'applying the created patch leaves the to-data in memory')
    S.check(len(got) == len(image), 'the memory keeps its size')
    S.check(got[mem:] == image[mem:], 'nothing outside the memory is changed')
    S.reach('empty' if nt == 0 else 'several segments' if nt > seg else 'one segment')
    S.note(got[:nt])


def sizes(S, SEG):
    """Memory and shift sizes that are no multiples of the segment size or do not fit are rejected, and only they."""
    seg = S.choice('seg', SEG)
    mem = S.int('mem', 0, 1 << 20)
    shift = S.int('shift', 0, 1 << 20)
    S.plan(Plan(S))
    fp = io.BytesIO()
    bad = (mem % seg != 0) | (shift % seg != 0) | (shift > mem)
    try:
        create.create_patch(io.BytesIO(), io.BytesIO(), fp, 'none', 'in-place', memory_size=mem, segment_size=seg,
                            minimum_shift_size=shift, use_mmap=False)
    except Error:
        S.check(bad, 'only sizes that are no multiples or do not fit are rejected')
        S.reach('rejected')
        return
    S.check(S.no(bad), 'sizes that are no multiples or do not fit are rejected')
    r = ref.Rd(fp.getvalue())
    r.byte()
    S.check(r.size() == mem, 'the header tells the memory size')
    S.check(r.size() == seg, 'the header tells the segment size')
    s = r.size()
    S.check((s >= shift) & (s <= mem), 'the shift size is at least the one asked for and fits')
    S.check(s % seg == 0, 'the shift size is a multiple of the segment size')
    S.reach('created')
    S.note(s)


def any_stream(S, N, CFG, SPLIT=False):
    """Every stream after the header of an in-place patch."""
    mem, seg, shift, nf, nt = S.choice('cfg', CFG)
    image = S.bytes('m', mem)
    d = S.bytes('d', N)
    S.shard(d[1])
    p = bytes([16]) + b''.join([ref.enc_size(x) for x in (mem, seg, shift, nf, nt)]) + d
    judge(S, p, d, image + b'\xc3', mem, seg, shift, nf, nt)


def far(S, N):
    """Sizes on encoding and buffer boundaries, in two segments, the sizes off by up to one."""
    d, e = S.choice('n', N)
    seg = 16384
    more = S.choice('more', [0, 1, -1])
    nt = seg + d + e + more
    shift = seg * 2
    nf = d + 1
    mem = seg * 4
    image = S.bytes('m', 1) + (bytes(range(89)) * (mem // 89 + 1))[:mem - 1] + bytes(2)
    diff = S.bytes('x', 1) + (bytes(range(97)) * (d // 97 + 1))[:d - 1] if d else b''
    extra = (bytes(range(7)) * (e // 7 + 1))[:e]
    p = bytes([0]) + ref.enc_size(d) + diff + ref.enc_size(e) + extra + ref.enc_size(-d)
    rest = seg - d - e
    p = p + bytes([0]) + ref.enc_size(rest) + bytes(rest - 1) + S.bytes('y', 1) + bytes([0])
    p = p + bytes([0]) + ref.enc_size(d) + diff + ref.enc_size(e) + extra + ref.enc_size(0)
    judge(S, bytes([16]) + b''.join([ref.enc_size(x) for x in (mem, seg, shift, nf, nt)]) + p, p, image, mem, seg, shift, nf, nt)


def small_memory(S, CFG):
    """The memory is smaller than the patch says it is."""
    mem, seg, shift, nf, nt = S.choice('cfg', CFG)
    less = S.choice('less', range(mem + 1))
    image = S.bytes('m', less)
    d = b''
    for k in range(0, nt, seg):
        n = min(seg, nt - k)
        d = d + bytes([0, 0]) + ref.enc_size(n) + S.bytes('e%d.' % k, n) + bytes([0])
    p = bytes([16]) + b''.join([ref.enc_size(x) for x in (mem, seg, shift, nf, nt)]) + d
    f = S.file(image)
    try:
        n = apply.apply_patch_in_place(f, io.BytesIO(p))
    except Error:
        n = None
    f.seek(0)
    got = f.read()
    if less < mem:
        S.check(n is None, 'memory that is too small is rejected')
        S.check(got == image, 'memory that is too small is not changed')
        S.reach('rejected')
    else:
        S.check(n == nt, 'a well-formed patch is applied')
        S.reach('applied')


def judge(S, p, d, image, mem, seg, shift, nf, nt):
    try:
        want, err = ref.in_place(d, image, mem, seg, shift, nf, nt), None
    except ref.Bad as e:
        want, err = None, e
    f = S.file(image)
    try:
        n = apply.apply_patch_in_place(f, io.BytesIO(p))
    except Exception:
        n = None
    f.seek(0)
    got = f.read()
    S.check(len(got) == len(image), 'the memory keeps its size')
    S.check(got[mem:] == image[mem:], 'nothing outside the memory is changed')
    if err is None:
        S.check(n is not None, 'a well-formed patch is applied')
        S.check(n == nt, 'the to-size is returned')
        S.check(got[:nt] == want[:nt], 'exactly what the patch describes is in memory')
        S.reach('applied')
        S.note(got[:nt])
    elif str(err) != 'from':
        # Reading from-data that is gone is not noticed, it is for the creator to avoid.
        S.check(n is None, 'a malformed patch is rejected')
        S.reach(str(err))


def many(S, CFG, DIFF):
    """Many segments: each takes its from-data where it is by then."""
    mem, seg, shift, nf, nt = S.choice('cfg', CFG)
    image = S.bytes('m', nf) + bytes([0x5a]) * (mem + 1 - nf)
    d = b''
    width, moves = S.choice('width', DIFF), S.choice('move', [(0,), (1,), (0, 1)])
    for k in range(0, nt, seg):
        base = max(seg * (k // seg + 1), shift)
        n = min(seg, nt - k)
        live = max(0, shift + nf - base)
        move = moves[k // seg % len(moves)]
        w = min(width, n, max(0, live - move))
        d = d + bytes([0, 0, 0]) + ref.enc_size(move) + ref.enc_size(w) + S.bytes('d%d.' % k, w) + ref.enc_size(n - w) + \
            S.bytes('e%d.' % k, n - w) + bytes([0])
    judge(S, bytes([16]) + b''.join([ref.enc_size(x) for x in (mem, seg, shift, nf, nt)]) + d, d, image, mem, seg, shift, nf, nt)


def header(S, MEM, SEG, SHIFT, NF, NT):
    """Every combination of sizes in the header of an in-place patch."""
    v = [S.choice(k, x) for k, x in (('mem', MEM), ('seg', SEG), ('shift', SHIFT), ('nf', NF), ('nt', NT))]
    p = bytes([16]) + b''.join([ref.enc_size(x) for x in v]) + S.bytes('d', 5)
    image = S.bytes('m', 6)
    mem = max(0, v[0])
    f = S.file(image)
    try:
        n = apply.apply_patch_in_place(f, io.BytesIO(p))
    except Exception:
        n = None
    f.seek(0)
    got = f.read()
    if n is not None:
        S.check(n == v[4], 'the to-size is returned')
        S.check(n >= 0, 'success returns a size')
        S.check(n <= mem and v[2] <= mem, 'what does not fit the memory is rejected')
        S.reach('applied')
    else:
        S.reach('rejected')
    S.check(len(got) == 6 and (mem > 6 or got[mem:] == image[mem:]), 'nothing outside the memory is changed')
