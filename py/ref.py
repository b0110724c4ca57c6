"""Reference for the formats, written from the documentation: sizes, CRLE, sequential, in-place and bsdiff patches."""


class Bad(Exception):
    pass


class Rd:
    def __init__(self, data):
        self.d, self.p = data, 0

    def byte(self):
        if self.p >= len(self.d):
            raise Bad('short')
        self.p += 1
        return self.d[self.p - 1]

    def take(self, n):
        if n > len(self.d) - self.p:
            raise Bad('short')
        n = n.__index__()
        self.p += n
        return self.d[self.p - n:self.p]

    def end(self):
        return self.p == len(self.d)

    def size(self):
        b = self.byte()
        neg, v, n = b & 0x40, b & 0x3f, 6
        while b & 0x80:
            b = self.byte()
            v = v | ((b & 0x7f) << n)
            n += 7
        return -v if neg else v

    def length(self):
        """A CRLE length."""
        v, n, b = 0, 0, 0x80
        while b & 0x80:
            b = self.byte()
            v = v | ((b & 0x7f) << n)
            n += 7
        return v


def enc_size(v):
    neg = v < 0
    m = -v if neg else v
    out = [(m & 0x3f) | (0x40 if neg else 0)]
    m = m >> 6
    while m > 0:
        out[-1] = out[-1] | 0x80
        out.append(m & 0x7f)
        m = m >> 7
    return bytes(out)


def enc_padded(v, n):
    """The encoding of a size in n bytes or more."""
    b = enc_size(v)
    return b if len(b) >= n else b[:-1] + bytes([b[-1] | 0x80]) + b'\x80' * (n - len(b) - 1) + b'\x00'


def crle_decode(data, cap=64):
    r, out = Rd(data), b''
    while not r.end():
        kind = r.byte()
        if kind == 0:
            out = out + r.take(r.length())
        elif kind == 1:
            n = r.length()
            x = r.take(1)
            if n > cap:
                raise OverflowError
            out = out + x * n
        else:
            raise Bad('kind')
    return out


class FromBytes:
    """From-data by position."""

    def __init__(self, d, base=0):
        self.d, self.p = d, base

    def take(self, n):
        if n == 0:
            return b''
        if self.p < 0 or self.p + n > len(self.d):
            raise Bad('from')
        p = self.p.__index__()
        n = n.__index__()
        self.p = p + n
        return self.d[p:p + n]

    def move(self, n):
        self.p = self.p + n
        if self.p < 0:
            raise Bad('from')


def add(a, b):
    return bytes([(x + y) & 255 for x, y in zip(a, b)])


def segment(r, frm, to_size, out=b''):
    """Diff, extra, adjustment until to_size bytes are made; the data made so far is in out even when it fails."""
    res = [out]
    try:
        while len(res[0]) < to_size:
            n = r.size()
            if n < 0 or len(res[0]) + n > to_size:
                raise Bad('diff')
            res[0] = res[0] + add(r.take(n), frm.take(n))
            n = r.size()
            if n < 0 or len(res[0]) + n > to_size:
                raise Bad('extra')
            res[0] = res[0] + r.take(n)
            frm.move(r.size())
    except Bad as e:
        return res[0], e
    return res[0], None


def sequential(payload, frm, to_size):
    """(to-data or what could be made of it, error or None) for the decompressed stream of a sequential patch without data
    format."""
    r = Rd(payload)
    try:
        if r.size() != 0:
            return b'', Bad('dfpatch')
    except Bad as e:
        return b'', e
    out, err = segment(r, FromBytes(frm), to_size)
    if err is None and not r.end():
        err = Bad('long')
    return out, err


def in_place(payload, mem, memory_size, segment_size, shift_size, from_size, to_size):
    """The memory after applying the decompressed stream of an in-place patch. Reads only what is still there."""
    r = Rd(payload)
    n = min(from_size, memory_size - shift_size)
    m = mem[:shift_size] + mem[:n] + mem[shift_size + n:]
    live = [False] * shift_size + [True] * n
    pos, k = 0, 0
    while pos < to_size:
        size = min(segment_size, to_size - pos)
        base = max(segment_size * (k + 1), shift_size)
        if r.size() != 0:
            raise Bad('dfpatch')
        out, err = segment(r, FromBytes(m[:shift_size + n], base), size)
        if err is not None:
            raise err
        m = m[:pos] + out + m[pos + size:]
        pos += size
        k += 1
    if not r.end():
        raise Bad('long')
    return m
