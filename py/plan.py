"""Some description of the to-data by from-data, as bsdiff.create_patch may give it."""
from . import ref


class Plan:
    def __init__(self, S, tag='', sizes=None, one=False):
        self.S, self.tag, self.n, self.one = S, tag, 0, one
        self.triples = []

    def __call__(self, f, t):
        S = self.S
        f, t = bytes(f), bytes(t)
        self.n += 1
        chunks = []
        pos = fp = 0
        k = 0
        triples = []
        while pos < len(t):
            name = '%s%d.%d' % (self.tag, self.n, k)
            d = S.choice('d' + name, range(0, min(len(t) - pos, len(f) - fp) + 1))
            last = len(t) - pos - d
            # Something new in every round, so that the plans are finite.
            lo = 1 if d == 0 else 0
            e = S.choice('e' + name, range(lo, last + 1) if not self.one else [last])
            diff = bytes([(x - y) & 255 for x, y in zip(t[pos:pos + d], f[fp:fp + d])])
            pos += d
            fp += d
            extra = t[pos:pos + e]
            pos += e
            to = S.choice('a' + name, range(0, len(f) + 1))
            chunks += [ref.enc_size(d), diff, ref.enc_size(e), extra, ref.enc_size(to - fp)]
            triples.append((d, e, to - fp))
            fp = to
            k += 1
        self.triples.append(triples)
        return chunks


class Whole:
    """As much difference to the begin or the end of the from-data as possible."""

    def __init__(self, tail=False):
        self.tail = tail

    def __call__(self, f, t):
        f, t = bytes(f), bytes(t)
        n = min(len(f), len(t))
        k = len(f) - n if self.tail else 0
        diff = bytes([(x - y) & 255 for x, y in zip(t, f[k:])])
        return [bytes([0, 0]), ref.enc_size(k), ref.enc_size(n), diff, ref.enc_size(len(t) - n), t[n:], ref.enc_size(-n - k)]
