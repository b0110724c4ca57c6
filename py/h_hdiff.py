"""Patches whose content the hdiffpatch library makes: match-blocks and hdiffpatch."""
import io
from detools import create, apply, info
from detools.errors import Error
from . import ref
from .h_seq import NUMBERS
from .plan import Plan

KIND = {'sequential': 0, 'hdiffpatch': 2}


def round_trip(S, NF, NT, COMP, NP):
    frm, to = S.bytes('f', S.choice('nf', NF)), S.bytes('t', S.choice('nt', NT))
    algorithm, kind = S.choice('how', [('hdiffpatch', 'hdiffpatch'), ('match-blocks', 'hdiffpatch'), ('match-blocks', 'sequential')])
    comp = S.choice('comp', COMP)
    opaque = S.bytes('p', S.choice('np', NP)) if kind == 'hdiffpatch' else None
    score, block = S.int('score', 0, 9), S.int('block', 1, 4096)
    calls = []
    p = Plan(S, one=True)

    def make(f, t, s, b, k):
        f, t = bytes(f[:]), bytes(t[:])
        calls.append((f, t, s, b, k))
        return b''.join(p(f, t)) if opaque is None else opaque

    def use(f, q):
        f, q = bytes(f[:]), bytes(q[:])
        S.check(f == frm, 'the from-data is handed on')
        S.check(q == opaque, 'what the library made is handed back')
        return to

    S.hdiff(make, use)
    memory = S.choice('memory', [False, True])
    src, dst = (io.BytesIO(frm), io.BytesIO(to)) if memory else (S.file(frm), S.file(to))
    fp = io.BytesIO()
    create.create_patch(src, dst, fp, comp, kind, algorithm, match_score=score, match_block_size=block,
                        use_mmap=S.choice('mmap', [False, True]))
    q = fp.getvalue()
    if calls:
        f, t, s, b, k = calls[0]
        S.check(f == frm and t == to, 'the library gets from-data and to-data')
        S.check(algorithm == 'hdiffpatch' or b == block, 'the library gets the block size')
        S.check(s == (score if algorithm == 'hdiffpatch' else 0), 'the library gets the match score')
        S.check(k == KIND[kind], 'the library gets the patch type')
    r = ref.Rd(q)
    S.check(r.byte() == 16 * KIND[kind] + NUMBERS[comp], 'the header tells the type and compression')
    S.check(r.size() == len(to), 'the header tells the to-size')
    if kind == 'hdiffpatch' and opaque is not None:
        S.check(r.size() == len(opaque), 'the header tells the size of what the library made')
    out = io.BytesIO()
    n = apply.apply_patch(S.file(frm), io.BytesIO(q), out)
    S.check(n == len(to), 'applying returns the to-size')
    S.check(out.getvalue() == to, 'applying the created patch gives the to-data')
    name, i = info.patch_info(io.BytesIO(q))
    S.check(name == kind and i[0] == len(q) and i[1] == comp, 'the information tells type, size and compression')
    S.check(i[3 if kind == 'hdiffpatch' else 6] == len(to), 'the information tells the to-size')
    S.reach(kind + (' empty' if len(to) == 0 else ''))
    S.note(out.getvalue())


def far(S, N, COMP):
    """What the library made may be long."""
    n = S.choice('n', N)
    opaque = S.bytes('p', 1) + (bytes(range(251)) * (n // 251 + 1))[:n - 2] + S.bytes('q', 1)
    to = S.bytes('t', 1) + bytes(range(200)) * (n // 200)
    S.hdiff(lambda *a: opaque, lambda f, q: S.check(bytes(q[:]) == opaque, 'what the library made is handed back') or to)
    fp = io.BytesIO()
    create.create_patch(S.file(b'ff'), S.file(to), fp, S.choice('comp', COMP), 'hdiffpatch', 'hdiffpatch',
                        use_mmap=S.choice('mmap', [False, True]))
    out = io.BytesIO()
    m = apply.apply_patch(S.file(b'ff'), io.BytesIO(fp.getvalue()), out)
    S.check(m == len(to), 'applying returns the to-size')
    S.check(out.getvalue() == to, 'applying the created patch gives the to-data')
    S.reach('long')
    S.note(m)


def rejected(S):
    """Types that cannot be are rejected."""
    S.hdiff(lambda *a: b'x', lambda *a: b'y')
    k = S.choice('k', [('hdiffpatch', 'sequential'), ('match-blocks', 'in-place'), ('match-blocks', 'bsdiff'), ('hdiffpatch', 'in-place')])
    try:
        create.create_patch(S.file(b'ab'), S.file(b'bc'), io.BytesIO(), 'none', k[1], k[0], memory_size=4, segment_size=2)
        ok = True
    except (Error, KeyError):
        ok = False
    S.check(not ok, 'types that cannot be are rejected')
    S.reach('rejected')


def cut(S, NP, COMP):
    """A patch that is cut short is rejected before the library sees it."""
    opaque = S.bytes('p', NP)
    comp = S.choice('comp', COMP)
    S.hdiff(lambda *a: opaque, lambda f, q: S.check(bytes(q[:]) == opaque, 'the library gets nothing incomplete') or b'tt')
    fp = io.BytesIO()
    create.create_patch(S.file(b'ff'), S.file(b'tt'), fp, comp, 'hdiffpatch', 'hdiffpatch')
    q = fp.getvalue()
    k = S.choice('k', range(len(q) - 1))
    out = io.BytesIO()
    try:
        apply.apply_patch(S.file(b'ff'), io.BytesIO(q[:k]), out)
        S.check(comp == 'heatshrink' or q[:k] == q, 'a patch that is cut short is rejected')
    except Exception:
        S.check(len(out.getvalue()) == 0, 'nothing is written')
    S.reach('rejected')
