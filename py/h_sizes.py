"""Sizes: the encodings used in patches."""
from io import BytesIO

from detools import common
from detools.errors import Error
from detools.compression import crle
from . import ref


def pack(S):
    v = S.int('v', -(1 << 63), (1 << 63) - 1)
    p = common.pack_size(v)
    S.check(p == ref.enc_size(v), 'packed as documented')
    f = BytesIO(p + b'\x55')
    w = common.unpack_size(f)
    S.check(w == v, 'unpacks to the same size')
    S.check(f.tell() == len(p), 'unpacking takes exactly the packed bytes')
    S.check(common.unpack_size_bytes(p) == v, 'unpacks to the same size from bytes')
    S.reach('negative' if v < 0 else 'other')
    S.note(w, p)


def outside(S):
    v = S.int('v', -(1 << 70), 1 << 70)
    S.assume((v < -(1 << 63)) | (v >= (1 << 63)))
    try:
        common.pack_size(v)
        S.check(False, 'sizes of more than 64 bits are rejected')
    except (OverflowError, Error):
        S.reach('rejected')


def unpack(S, N):
    d = S.bytes('d', N)
    r = ref.Rd(d)
    try:
        want = r.size()
    except ref.Bad:
        want = None
    f = BytesIO(d)
    try:
        got, n = common.unpack_size_with_length(f)
    except Error:
        got = None
    S.check((got is None) == (want is None), 'a size that is cut short is rejected, and only that')
    if got is None:
        S.reach('short')
        return
    S.check(got == want, 'any encoding unpacks to its size')
    S.check(f.tell() == r.p, 'unpacking takes exactly the bytes of the size')
    S.check(n == r.p, 'the number of size bytes is reported')
    S.check(common.unpack_size(BytesIO(d)) == want, 'both ways of unpacking agree')
    S.reach('size')
    S.note(got, n)


def usize(S):
    v = S.int('v', 0, (1 << 64) - 1)
    p = common.pack_usize(v)
    f = BytesIO(p)
    w = common.unpack_usize(f)
    S.check(w == v, 'unsigned sizes survive')
    S.check(f.tell() == len(p), 'unpacking takes exactly the packed bytes')
    S.reach('top' if v >= 1 << 63 else 'other')
    S.note(w)


def crle_size(S):
    v = S.int('v', 0, (1 << 63) - 1)
    p = crle.pack_size(v)
    w, n = crle.unpack_size(b'\x00' + p + b'\x80', 1)
    S.check(w == v, 'CRLE lengths survive')
    S.check(n == len(p) + 1, 'unpacking takes exactly the packed bytes')
    r = ref.Rd(bytes(p))
    S.check(r.length() == v, 'packed as documented')
    S.reach('length')
    S.note(w, n)


def crle_unpack(S, N):
    d = S.bytes('d', N)
    r = ref.Rd(d)
    try:
        want = r.length()
    except ref.Bad:
        want = None
    try:
        got, n = crle.unpack_size(d, 0)
    except IndexError:
        got = None
    S.check((got is None) == (want is None), 'a length that is cut short is noticed, and only that')
    if got is not None:
        S.check(got == want, 'any encoding unpacks to its length')
        S.check(n == r.p, 'unpacking takes exactly the bytes of the length')
        S.reach('length')
        S.note(got, n)
    else:
        S.reach('short')
