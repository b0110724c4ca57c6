"""The properties decided on the C code: harness configurations and bounds."""
from .cengine import Job

PROPS = {}
NOLZMA = {'DETOOLS_CONFIG_COMPRESSION_LZMA': 0, 'DETOOLS_CONFIG_FILE_IO': 0}
NOFILE = {'DETOOLS_CONFIG_FILE_IO': 0}
FILES = {'DETOOLS_CONFIG_COMPRESSION_LZMA': 0}
COMPS = ((0, 'none'), (2, 'crle'), (4, 'hs'))

ENV = ('the callbacks behave as documented: from-read delivers bytes of a fixed buffer and fails outside it, '
       'to-write records; other environments only where stated')
REF = 'the reference decoder in c/ref.h, written from docs/README of the format, says what a patch describes'
SHAPE = ('patches are built by the reference encoder in c/enc.h and c/shape.h: one or two diff/extra/adjust triples with '
         'sizes from tables on encoding and buffer boundaries; all data bytes symbolic (heatshrink: the ends of long stretches)')
IPSHAPE = ('in-place patches are built by c/ipshape.h: memory, segment, shift, from and to size from a table of '
           'configurations, segment patterns from a table, all data bytes symbolic')
NOR = ('memory is modelled as flash: it can be written only after being erased, an interrupted operation leaves any '
       'one of: nothing, half of it, all of it done')


def prop(pid, assumptions, par=None):
    def deco(f):
        PROPS[pid] = {'jobs': f, 'assumptions': assumptions, 'par': par}
        return f
    return deco


class Tier:
    """Builds the jobs of one property for one tier."""

    def __init__(self, tier):
        self.quick = tier == 'quick'
        self.jobs = []

    def add(self, name, src, bounds='', wit=(), base=NOLZMA, thorough=None, only=None, kw=None, time=None, **defs):
        """thorough: definitions that replace the quick ones in the thorough tier."""
        if only == 'thorough' and self.quick:
            return
        d = dict(base, **defs)
        if not self.quick:
            d.update(thorough or {})
        note = ', '.join('%s=%s' % (k, v) for k, v in sorted(d.items()) if k not in NOLZMA)
        self.jobs.append(Job(name, src, d, witnesses=wit, max_time=time or (300 if self.quick else 600),
                             bounds=(bounds + ' ' if bounds else '') + '[' + note + ']', **(kw or {})))


def tiered(f):
    def jobs(tier):
        t = Tier(tier)
        f(t)
        return t.jobs
    return jobs


ANY = 'every patch of at most N bytes, to-size at most TMAX (4), every from-file of NFROM (3) bytes'
RAW = 'every uncompressed stream of RAWN bytes after the header, in fixed compression frames; to-size at most 4'
SM = dict(D1='{0,1,5}', E1='{0,3}', D2='{0,2}', E2='{1}', ADJ='{0,-1,64}')
BIG = dict(D1='{1,129,257}', E1='{0,130}', D2='{2}', E2='{1}', ADJ='{64}')
LONG = dict(LENS='{1,65536}', XLENS='{65537}', MOVE='{66000,-65536}')
IPB = dict(CFGS='{260,130,130,20,140},{520,130,260,135,131},{256,128,128,128,129}', NPAT=3, NSEG=2, IP_MEM=520)


@prop('C01', [REF, ENV])
@tiered
def c01(t):
    p = dict(P_RESULT=1)
    t.add('none', 'seq_any.c', ANY, ('well-formed', 'truncated'), N=8, COMP=0, SPLIT=0, thorough=dict(N=10), **p)
    t.add('none-split', 'seq_any.c', ANY + ', any split', ('truncated',), N=6, COMP=0, SPLIT=2, thorough=dict(N=8), **p)
    t.add('crle', 'seq_any.c', ANY, ('truncated',), N=6, COMP=2, SPLIT=0, thorough=dict(N=7), **p)
    t.add('crle-raw', 'seq_any.c', RAW, ('well-formed',), RAWN=6, COMP=2, SPLIT=1, thorough=dict(RAWN=8), **p)
    t.add('hs-raw', 'seq_any.c', RAW, ('well-formed',), RAWN=6, COMP=4, SPLIT=0, thorough=dict(RAWN=8), **p)
    t.add('free', 'seq_any.c', 'every patch of at most N bytes, any split', ('truncated',), N=4, SPLIT=2, FREEHDR=None,
          ANYLEN=None, thorough=dict(N=5), **p)
    for c, n in COMPS:
        t.add(n + '-shape', 'seq_struct.c', 'shapes', ('applied',), COMP=c, SPLIT=0 if c else 3,
              thorough=dict(SPLIT=0), **BIG)
        t.add(n + '-full', 'seq_struct.c', 'shapes', ('applied',), COMP=c, SPLIT=0, only='thorough')
        t.add(n + '-pad', 'seq_struct.c', 'shapes, all sizes padded to as many bytes', ('applied',), COMP=c, SPLIT=0,
              PADS='{1,2,3,4}', D1='{0,5}', E1='{3}', D2='{2}', E2='{1}', ADJ='{-1,64}')
        t.add(n + '-long', 'seq_long.c', 'stretches and moves of these sizes', ('applied',), COMP=c,
              kw=dict(max_steps=400000000), **LONG)
    t.add('far', 'seq_long.c', 'moves of these sizes', ('applied',), COMP=0, LENS='{3}', XLENS='{1}', PREMOVE='{70000,1100000,20000000,130000000}',
          MOVE='{0,66000,17000000}')


@prop('C02', [ENV, 'both sides of the comparison are the real code'])
@tiered
def c02(t):
    t.add('none', 'seq_chunk.c', ANY + ', any split', ('rejected',), COMP=0, RAWN=4, TMAX=1, thorough=dict(RAWN=6, TMAX=4))
    t.add('none-two', 'seq_chunk.c', ANY + ', any two parts', ('applied', 'rejected'), COMP=0, N=8, TWO=None, TMAX=1,
          thorough=dict(N=9, TMAX=4))
    t.add('sizes', 'seq_chunk.c', 'any to-size and diff size of four bytes, any two parts', ('rejected',), COMP=2, N=12,
          TWO=None, SZ4=None)
    t.add('free', 'seq_chunk.c', 'every patch of N bytes, any split', ('rejected',), N=4, thorough=dict(N=5))
    t.add('crle-raw', 'seq_chunk.c', RAW + ', any two parts', ('applied', 'rejected'), COMP=2, RAWN=5, TWO=None, TMAX=1,
          thorough=dict(RAWN=7, TMAX=4))
    t.add('hs-raw', 'seq_chunk.c', RAW + ', any two parts', ('applied', 'rejected'), COMP=4, RAWN=5, TWO=None,
          thorough=dict(RAWN=7))
    for c, n in COMPS:
        t.add(n + '-bytes', 'seq_struct.c', 'shapes, one byte at a time', ('applied',), COMP=c, SPLIT=1, **BIG)
        t.add(n + '-cut', 'seq_struct.c', 'shapes, cut anywhere', ('applied',), COMP=c, SPLIT=2, **SM)
        t.add(n + '-pad', 'seq_struct.c', 'shapes, all sizes padded to as many bytes, cut anywhere', ('applied',), COMP=c,
              SPLIT=2, PADS='{3,4}', D1='{1}', E1='{3}', D2='{2}', E2='{0}', ADJ='{-1}')
        t.add(n + '-cut-big', 'seq_struct.c', 'shapes, cut anywhere', ('applied',), COMP=c, SPLIT=2, only='thorough', **BIG)
    t.add('ip', 'ip_struct.c', 'in-place shapes, cut anywhere', COMP=0, SPLIT=2, NSEG=1)
    t.add('ip-pad', 'ip_struct.c', 'in-place shapes, all sizes padded to as many bytes, cut anywhere', COMP=0, SPLIT=2, NSEG=1,
          PADS='{3,4}', NPAT=2, CFGS='{12,4,4,7,6}')


@prop('C03', [ENV, 'memory errors, uninitialised values, undefined operations and unending runs are reported by the '
              'executor for every instruction executed; to-size at most 8; CRLE run lengths at most RUN where given'])
@tiered
def c03(t):
    t.add('none', 'seq_safe.c', 'every patch of at most N bytes', ('failure', 'success'), COMP=0, N=7, thorough=dict(N=9))
    t.add('none-declared', 'seq_safe.c', 'any declared size, any split', ('failure',), COMP=0, N=5, DECL=None, SPLIT=None,
          thorough=dict(N=6))
    t.add('crle', 'seq_safe.c', 'every patch of at most N bytes', ('failure',), COMP=2, N=6, RUN=5,
          thorough=dict(N=8, RUN=12))
    t.add('crle-raw', 'seq_safe.c', RAW, ('failure', 'success'), COMP=2, RAWN=6, thorough=dict(RAWN=8))
    t.add('hs-raw', 'seq_safe.c', RAW, ('failure', 'success'), COMP=4, RAWN=6, thorough=dict(RAWN=8))
    t.add('hs', 'seq_safe.c', 'every patch of at most N bytes', ('failure',), COMP=4, N=6, thorough=dict(N=7))
    t.add('free', 'seq_safe.c', 'every patch of at most N bytes, any split', ('failure',), N=5, SPLIT=None, RUN=5,
          thorough=dict(N=6))
    for s, n in ((0, 'up'), (1, 'down')):
        t.add('moves-' + n, 'seq_moves.c', 'MOVES four-byte adjustments', ('rejected', 'success'), MOVES=18, PRE=14, SIGN=s,
              thorough=dict(MOVES=20))
    t.add('moves-mixed', 'seq_moves.c', 'MOVES four-byte adjustments', ('success',), MOVES=4, SIGN=2,
          thorough=dict(MOVES=8))


@prop('C04', [REF, ENV])
@tiered
def c04(t):
    p = dict(P_BOUND=1)
    t.add('none', 'seq_any.c', ANY, ('well-formed', 'truncated', 'too long'), N=8, COMP=0, SPLIT=0, thorough=dict(N=10), **p)
    t.add('crle', 'seq_any.c', ANY, ('truncated',), N=6, COMP=2, SPLIT=1, thorough=dict(N=7), **p)
    t.add('crle-raw', 'seq_any.c', RAW, ('well-formed', 'too long'), RAWN=6, COMP=2, SPLIT=0, thorough=dict(RAWN=8), **p)
    t.add('hs-raw', 'seq_any.c', RAW, ('well-formed', 'too long'), RAWN=6, COMP=4, SPLIT=1, thorough=dict(RAWN=8), **p)
    t.add('free', 'seq_any.c', 'every patch of at most N bytes, any split', ('truncated',), N=4, SPLIT=2, FREEHDR=None,
          ANYLEN=None, thorough=dict(N=5), **p)
    t.add('sizes', 'seq_any.c', 'any to-size and diff size of four bytes', ('truncated', 'too long'), N=12, COMP=2, SPLIT=0,
          SZ4=None, TMAX=0x10000000, **p)


@prop('C05', [SHAPE, ENV])
@tiered
def c05(t):
    for c, n in COMPS:
        t.add(n + '-small', 'seq_trunc.c', 'shapes cut anywhere', ('short',), COMP=c, SPLIT=1, **SM)
        t.add(n + '-big', 'seq_trunc.c', 'shapes cut anywhere', ('short',), COMP=c, SPLIT=0, **BIG)
        t.add(n + '-full', 'seq_trunc.c', 'shapes cut anywhere', ('short',), COMP=c, SPLIT=100, only='thorough')
    t.add('none-longer', 'seq_trunc.c', 'shapes with 1-3 bytes more', ('longer',), COMP=0, LONGER=None, SPLIT=100, **SM)
    t.add('none-longer-big', 'seq_trunc.c', 'shapes with 1-3 bytes more', ('longer',), COMP=0, LONGER=None, SPLIT=100, **BIG)
    t.add('none-declared', 'seq_trunc.c', 'complete shapes of another size than declared', ('declared',), COMP=0, DECLARED=None, SPLIT=100, **SM)
    t.add('none-declared-big', 'seq_trunc.c', 'complete shapes of another size than declared', ('declared',), COMP=0, DECLARED=None, SPLIT=1, **BIG)
    t.add('none-any', 'seq_any.c', ANY, ('truncated', 'surplus'), N=7, P_TRUNC=1, COMP=0, thorough=dict(N=9))
    t.add('crle-any', 'seq_any.c', RAW, ('truncated',), RAWN=5, P_TRUNC=1, COMP=2, ANYLEN=None, thorough=dict(RAWN=7))
    t.add('hs-any', 'seq_any.c', RAW, ('truncated',), RAWN=5, P_TRUNC=1, COMP=4, ANYLEN=None, thorough=dict(RAWN=7))


@prop('C06', [SHAPE, 'the failing callback, its number and its value are symbolic'])
@tiered
def c06(t):
    for c, n in COMPS:
        t.add(n + '-small', 'seq_fail.c', 'any one of the first MAXCALLS callbacks fails', ('failed', 'not failed'), COMP=c,
              SPLIT=1, MAXCALLS=24, **SM)
        t.add(n + '-big', 'seq_fail.c', 'any one of the first MAXCALLS callbacks fails', ('failed', 'not failed'), COMP=c,
              SPLIT=100, MAXCALLS=24, **BIG)
        t.add(n + '-full', 'seq_fail.c', 'any one of the first MAXCALLS callbacks fails', ('failed', 'not failed'), COMP=c,
              SPLIT=0, MAXCALLS=32, only='thorough')


@prop('C07', [SHAPE, 'the storage used for the dump keeps the bytes; on restore the from-position is where a fresh '
              'environment starts and the to-stream is cut to the reported offset'])
@tiered
def c07(t):
    for c, n in COMPS:
        t.add(n + '-small', 'seq_dump.c', 'dumped after any number of patch bytes', ('restored',), COMP=c, CH=1, LOST=3,
              CONT=None, **SM)
        t.add(n + '-big', 'seq_dump.c', 'dumped after any number of patch bytes', ('restored',), COMP=c, CH=64, LOST=200, **BIG)
        t.add(n + '-long', 'seq_long.c', 'dumped in the middle of long stretches', ('applied',), COMP=c, DUMPAT='{1,25,60,99}', LENS='{70000}',
              XLENS='{66000}', MOVE='{0,17000000}', PREMOVE='{0,20000000}', kw=dict(max_steps=400000000))
    t.add('full', 'seq_dump.c', 'dumped after any number of patch bytes', ('restored',), COMP=0, CH=16, LOST=5, only='thorough')
    for c, n in COMPS:
        t.add(n + '-api', 'dump_api.c', 'any failing storage call', ('failed', 'restore failed'), COMP=c, D1='{0,3}', E1='{2}',
              D2='{0}', E2='{1}', ADJ='{1}')
    t.add('lzma-api', 'dump_api.c', 'a state that cannot be dumped', ('refused',), base=NOFILE, LZ=None, D1='{0,3}', E1='{2}',
          D2='{0}', E2='{1}', ADJ='{1}')


@prop('C08', [REF, ENV])
@tiered
def c08(t):
    p = dict(P_HDR=1)
    t.add('free', 'seq_any.c', 'every patch of at most N bytes, any split', ('empty', 'type', 'compression', 'empty to-file'),
          N=4, SPLIT=2, FREEHDR=None, ANYLEN=None, thorough=dict(N=5), **p)
    t.add('crle', 'seq_any.c', ANY, ('kind',), N=6, COMP=2, thorough=dict(N=7), **p)
    t.add('crle-long', 'seq_any.c', 'lengths of more than four bytes', ('overflow',), N=8, COMP=2, CRLE_LONG=None, **p)
    t.add('hs', 'seq_any.c', ANY, ('heatshrink header',), N=5, COMP=4, SPLIT=1, **p)
    t.add('none', 'seq_any.c', ANY, ('overflow', 'data format'), N=7, COMP=0, thorough=dict(N=9), **p)
    t.add('in-place', 'ip_hdr.c', 'every in-place header of sizes of one byte', ('empty', 'type', 'compression', 'incomplete', 'sizes',
          'empty to-file'), MODE=0)
    t.add('in-place-long', 'ip_hdr.c', 'sizes of four bytes and more', ('overflow', 'empty to-file'), MODE=1)
    t.add('in-place-data', 'ip_hdr.c', 'what follows a header', ('data format', 'kind', 'heatshrink header'), MODE=2)


@prop('C09', ['segment kinds and lengths from tables (0, 1, 2, 127, 128, 129, 300), lengths also with a padding byte, all '
              'data bytes symbolic', ENV])
@tiered
def c09(t):
    t.add('two', 'crle_dec.c', 'two segments', ('decoded',))
    t.add('three', 'crle_dec.c', 'three segments', ('decoded',), NSEGS=3, LENS='{0,1,128}', CHS='{1,5000}',
          thorough=dict(LENS='{0,1,2,128,300}'))
    t.add('long', 'seq_long.c', 'long segments', ('applied',), COMP=2, LENS='{70000}', XLENS='{0,65536}', MOVE='{0}', CH=9000,
          kw=dict(max_steps=400000000))
    t.add('long-scattered', 'seq_long.c', 'long scattered segments', ('applied',), COMP=2, SCATTER=None, LENS='{70000}', XLENS='{66000}',
          MOVE='{0}', CH=9000, kw=dict(max_steps=400000000))


@prop('C10', ['literals with symbolic bytes; back references with lengths and distances from tables', ENV])
@tiered
def c10(t):
    t.add('two', 'hs_dec.c', 'two operations', ('decoded',))
    t.add('three', 'hs_dec.c', 'three operations', ('decoded',), NOPS=3, LENS='{1,3}', DISTS='{1,2,256}', FILL='{0,250}',
          CHS='{1,5000}', thorough=dict(LENS='{1,3,128}', FILL='{0,3,250}'))


@prop('C11', [SHAPE, 'liblzma is replaced by a model (c/lzma_stub.h) that delivers the uncompressed bytes under liblzma\'s '
              'contract at times chosen by the solver, or fails; its own decoding is outside'])
@tiered
def c11(t):
    w = ('applied', 'decoder error', 'no decoder', 'no memory', 'short')
    kw = dict(wrap=('malloc', 'free'))
    t.add('small', 'lzma_any.c', 'shapes', w, base=NOFILE, kw=kw, D1='{0,5}', E1='{0,3}', D2='{0,2}', E2='{1}', ADJ='{0,-1}',
          thorough=SM)
    t.add('big', 'lzma_any.c', 'shapes', w, base=NOFILE, kw=kw, **BIG)
    ip = dict(base=NOFILE, LZ=None, NSEG=1, CFGS='{24,4,4,7,9},{20,4,8,9,8}')
    t.add('in-place', 'ip_struct.c', '', ('steps', 'no steps'), kw=kw, SPLIT=0, **ip)
    t.add('in-place-bytes', 'ip_struct.c', '', ('steps', 'no steps'), kw=kw, SPLIT=1, **ip)


@prop('C12', [IPSHAPE, NOR])
@tiered
def c12(t):
    for c, n in COMPS:
        for sp in (0, 1):
            t.add('%s-%d' % (n, sp), 'ip_struct.c', COMP=c, SPLIT=sp)
    t.add('none-2', 'ip_struct.c', 'cut anywhere', COMP=0, SPLIT=2, NSEG=1, thorough=dict(NSEG=2))
    t.add('none-big', 'ip_struct.c', 'buffers larger than the working buffer', COMP=0, SPLIT=0, **IPB)
    t.add('none-long', 'ip_struct.c', 'segments beyond 16 bits', COMP=0, SPLIT=0, NPAT=3, NSEG=1, IP_MEM=200000, RAWCAP=200000,
          CFGS='{200000,66000,66000,70000,67000}', kw=dict(max_steps=400000000))


@prop('C13', [NOR, 'header sizes from small tables, patch data of N bytes in all, all values'])
@tiered
def c13(t):
    w = ('success', 'failure', 'written')
    big = dict(TM='{0,1,2,4,6}', TS='{0,1,2,3}', TSH='{0,1,2,3,7}', TF='{0,1,2,5}')
    t.add('sizes', 'ip_any.c', '', w[1:], COMP=0, N=10, STEPS=0, SPLIT=0, DF0=0, MAXT=3, thorough=dict(N=11), **big)
    t.add('none', 'ip_any.c', '', w, COMP=0, N=11, STEPS=0, SPLIT=0, DF0=0, MAXT=3, TM='{2,4}', TS='{1,2}', TSH='{1,2}',
          TF='{0,2}', thorough=dict(N=12, MAXT=4, TM='{4,6}', TS='{2,3}'))
    t.add('none-steps', 'ip_any.c', 'any stored step', w, COMP=0, N=11, STEPS=1, SPLIT=0, DF0=0, MAXT=2, TM='{2,4}',
          TS='{1,2}', TSH='{1,2}', TF='{0,2}', thorough=dict(N=12))
    t.add('crle', 'ip_any.c', '', w[1:], COMP=2, N=10, STEPS=0, SPLIT=0, DF0=0, MAXT=2, TM='{2,4}', TS='{1,2}',
          TSH='{1,2}', thorough=dict(N=12))


@prop('C14', [IPSHAPE, NOR, 'power fails at any one modifying operation per run, at most CRASHES times'])
@tiered
def c14(t):
    w = ('interrupted', 'resumed')
    t.add('one', 'ip_crash.c', '', w, COMP=0, CRASHES=1, NSEG=2, thorough=dict(NSEG=3))
    t.add('two', 'ip_crash.c', '', w, COMP=0, CRASHES=2, NSEG=1, MAXOPS=24, CFGS='{20,4,8,9,8},{16,4,4,5,6}',
          thorough=dict(NSEG=2, MAXOPS=40))
    t.add('three', 'ip_crash.c', '', w, COMP=0, CRASHES=3, NSEG=1, MAXOPS=24, CFGS='{16,4,4,5,6}', only='thorough')
    t.add('hs', 'ip_crash.c', '', w, COMP=4, CRASHES=1, NSEG=1)
    t.add('big', 'ip_crash.c', '', w, COMP=0, CRASHES=1, CH=200, **IPB)
    t.add('many', 'ip_crash.c', 'hundreds of steps', w, COMP=0, CRASHES=1, CH=5000, NSEG=0, IP_MEM=300, RAWCAP=2000, MAXOPS=4, AFTER=253,
          NAFTER=4, CFGS='{300,1,2,3,280},{300,1,2,280,4}', kw=dict(max_steps=400000000))
    t.add('many-long', 'ip_crash.c', 'more than 65536 steps', w, COMP=0, CRASHES=1, CH=500000, NSEG=0, IP_MEM=66000, RAWCAP=400000,
          MAXOPS=3, AFTER=65535, NAFTER=1, CFGS='{66000,1,2,3,65540}', SYMCAP=40, only='thorough', kw=dict(max_steps=4000000000))


@prop('C15', [NOR, 'memory errors, uninitialised values, undefined operations and unending runs are reported by the '
              'executor for every instruction executed; header sizes from small tables'])
@tiered
def c15(t):
    t.add('hdr', 'ip_any.c', 'every patch of at most N bytes, any split', ('failure',), N=6, STEPS=0, SPLIT=2, ANYLEN=None,
          TM='{0,2,4}', TS='{0,1,2}', thorough=dict(N=7))
    t.add('free', 'ip_any.c', 'every patch of at most N bytes, any header sizes', ('failure',), N=6, STEPS=0, SPLIT=0,
          TM='{0,1,12}', TS='{1,4}', TSH='{0,4,63}', TF='{0,9,12}', ANYLEN=None, FREEHDR=None, thorough=dict(N=7))
    t.add('none', 'ip_any.c', '', ('failure', 'success'), COMP=0, N=11, STEPS=0, SPLIT=1, TM='{2,4}', TS='{1,2}', TSH='{1,2}',
          TF='{0,2}', MAXT=2, thorough=dict(N=12, MAXT=3))


@prop('C16', [IPSHAPE, 'the failing callback, its number and its value are symbolic'])
@tiered
def c16(t):
    w = ('failed', 'not failed')
    t.add('none', 'ip_fail.c', '', w, COMP=0, MAXCALLS=64)
    t.add('crle', 'ip_fail.c', '', w, COMP=2, MAXCALLS=64, NSEG=2)
    t.add('hs', 'ip_fail.c', '', w, COMP=4, MAXCALLS=64, NSEG=1, thorough=dict(NSEG=2))
    t.add('bytes', 'ip_fail.c', '', w, COMP=0, MAXCALLS=64, SPLIT=1, NSEG=2)


@prop('C17', [SHAPE, IPSHAPE, 'patch sizes around the read buffer size'])
@tiered
def c17(t):
    cb = dict(D1='{0,3}', E1='{0,490,495,496,497,498,1000,1006,1007,1008,1009,1010,1011}', D2='{2}', E2='{0}', ADJ='{1}',
              ENV_OUT=1100, ENV_FROM=8, RAWCAP=2048)
    w = ('failed', 'short', 'applied')
    t.add('none', 'cb_api.c', '', w, COMP=0, **cb)
    t.add('crle', 'cb_api.c', '', w, COMP=2, **cb)
    t.add('hs', 'cb_api.c', '', w, COMP=4, **dict(cb, E1='{0,420,430,435,436,437,438,439,440}'))
    t.add('ip', 'cb_ip.c', '', w, NSEG=1, thorough=dict(NSEG=2))
    lz = dict(base=NOFILE, LZ=None, LZN=1100, kw=dict(wrap=('malloc', 'free')))
    t.add('lzma', 'cb_api.c', '', ('failed', 'applied'), D1='{0,3}', E1='{0,4}', D2='{2}', E2='{0}', ADJ='{1}', **lz)
    t.add('ip-lzma', 'cb_ip.c', '', ('failed', 'applied'), NSEG=1, CFGS='{24,4,4,7,9}', NPAT=3, **lz)
    t.add('ip-big', 'cb_ip.c', '', w, CFGS='{1024,512,512,3,500},{1024,256,512,3,492},{2048,512,512,300,700}', IP_MEM=2048,
          NPAT=2, RAWCAP=2048, NSEG=2)


STDIO = ('fopen', 'fclose', 'fread', 'fwrite', 'fseek', 'ftell')


@prop('C18', [SHAPE, IPSHAPE, 'stdio is replaced by a model of three named files of which any one call may fail '
              '(short reads and writes, failing open, seek, tell and close)'])
@tiered
def c18(t):
    kw = dict(wrap=STDIO)
    w = ('applied', 'failed')
    t.add('seq', 'file_seq.c', 'small files', w, COMP=0, base=FILES, kw=kw, **SM)
    t.add('seq-big', 'file_seq.c', 'patches larger than the read buffer', w, COMP=0, base=FILES, kw=kw, D1='{3,130}',
          E1='{500}', D2='{1}', E2='{0}', ADJ='{2}')
    t.add('ip', 'file_ip.c', 'memory files', w, base=FILES, kw=kw, COMP=0)
    kw = dict(kw, max_steps=40000000)
    t.add('seq-long', 'file_long.c', 'files beyond 16 bits, without failures', ('applied',), base=FILES, kw=kw)
    t.add('ip-long', 'file_ip.c', 'memory files beyond 16 bits, without failures', ('applied',), base=FILES, kw=kw, COMP=0, NOFAIL=None,
          RAWCAP=160000, VCAP=200000, IP_MEM=200000, NPAT=1, CFGS='{200000,66000,66000,70000,67000},{200000,40000,90000,70000,90000}')


@prop('C20', ['the file functions called by the program are replaced by stand-ins returning any value from -27'])
@tiered
def c20(t):
    t.add('text', 'errstr.c', 'every int', ('defined', 'unknown'))
    t.add('cli', 'cli.c', 'any result, up to five arguments', ('success', 'failure', 'usage', 'sequential', 'in-place'),
          base=FILES, kw=dict(repo=('c/main.c',), repo_flags=('-Dmain=cli_main', '-fno-builtin'), wrap=('printf', 'exit')))


@prop('C21', [REF, ENV, 'all eight choices of the compressions none, CRLE and heatshrink, without LZMA and file access'])
@tiered
def c21(t):
    for m in range(8):
        b = dict(NOLZMA, DETOOLS_CONFIG_COMPRESSION_NONE=m & 1, DETOOLS_CONFIG_COMPRESSION_CRLE=m >> 1 & 1,
                 DETOOLS_CONFIG_COMPRESSION_HEATSHRINK=m >> 2 & 1)
        comps = (m & 1) | (4 if m & 2 else 0) | (16 if m & 4 else 0)
        t.add('cfg%d' % m, 'seq_any.c', 'every patch of at most N bytes', ('compression',), base=b, REF_COMPS=comps, N=4,
              P_RESULT=1, P_HDR=1, SPLIT=1, FREEHDR=None, ANYLEN=None, thorough=dict(N=5))
        for c, n in COMPS:
            if comps >> c & 1 and (m in (1, 2, 4) or not t.quick):
                t.add('cfg%d-%s' % (m, n), 'seq_struct.c', 'shapes', ('applied',), base=b, COMP=c, SPLIT=1, **SM)


@prop('C22', ['operations, window and lookahead sizes, sink and poll sizes from tables; literals and padding symbolic'])
@tiered
def c22(t):
    kw = dict(repo=('c/heatshrink/heatshrink_decoder.c',))
    t.add('dyn', 'hs_lib.c', '', ('decoded',), kw=kw, HEATSHRINK_DYNAMIC_ALLOC=1, INBUF=3, NOPS=2, thorough=dict(NOPS=3))
    t.add('wide', 'hs_lib.c', '', ('decoded',), kw=kw, HEATSHRINK_DYNAMIC_ALLOC=1, INBUF=2, NOPS=2, WL='{9,8},{10,9},{15,14}',
          LENS='{2,999}', DISTS='{1,300}', OUTS='{7,500}')
    t.add('far', 'hs_lib.c', 'longest references and distances', ('decoded',), kw=dict(kw, max_steps=400000000), HEATSHRINK_DYNAMIC_ALLOC=1,
          INBUF=20, NOPS=4, KINDS='{1,2,1,2}', MAXL=16384, WL='{15,14},{14,13}', LENS='{16384}', DISTS='{1,9000,32768}', OUTS='{512}',
          INS='{99}', thorough=dict(LENS='{2,16384}', DISTS='{1,9000,20000,32768}'))
    t.add('static', 'hs_lib.c', '', ('decoded',), kw=kw, NOPS=2, thorough=dict(NOPS=3))
