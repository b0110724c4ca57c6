"""Symbolic execution of Python code: the modules under test are loaded from /repo's current source with bytes literals and
a few library modules replaced, and run on integers and bytes backed by bit-vector terms. A truth test of a term asks Z3
which outcomes are possible and follows each of them (depth first, by running the code again from its start)."""
import ast
import builtins
import os
import sys
import time
import types
import zlib

import z3

z3.z3core.Elementaries.Check = lambda self, ctx: None   # terms made here are well-sorted; saves a call per operation

REPO = os.environ.get('DETOOLS_REPO', '/repo')
CAP = 64


class Cut(BaseException):
    """Leaves a path: its assumptions do not hold, or it is outside the bounds."""


class Found(BaseException):
    """A violation ends the path, and the job unless the native run disagrees."""


class Stop(BaseException):
    """Ends the job."""


class OutOfTime(BaseException):
    pass


class Trouble(BaseException):
    """The executor cannot go on."""


class Hang(BaseException):
    """A path that takes too long."""


class Engine:
    def __init__(self, max_time, seed=1, part=None, confirm=None):
        self.part = part or (0, 1, 0)     # this process, number of processes, choices that decide
        self.confirm = confirm            # native run of an input: (reproduced, what was seen)
        self.unconfirmed = []
        self.error = ''
        self.path_start = 0
        self.solver = z3.Solver()
        self.solver.set('random_seed', seed)
        self.trace = []          # [choice, pending, value, pushed]
        self.pos = 0
        self.model = None
        self.deadline = time.time() + max_time
        self.n = dict(paths=0, forks=0, branches=0, queries=0, sat=0, unsat=0, unknown=0, assume_cut=0, steps=0)
        self.solver_s = 0.0
        self.asserts = {}
        self.witnesses = {}
        self.findings = []
        self.samples = []
        self.exhausted = False
        self.cap_hits = {}
        self.reset()

    def reset(self):
        self.pos = 0
        self.inputs = []
        self.obs = []
        self.reached = set()
        self.chosen = []
        self.known, self.conc = {}, {}
        SHOW[0] = False
        if 'vlib.pystubs' in sys.modules:
            sys.modules['vlib.pystubs'].Vfs.files.clear()
            del sys.modules['vlib.pystubs'].RealFile.numbers[:]
        self.path_start = time.time()

    # -- the solver
    def check(self, *c):
        t = time.time()
        if t > self.deadline:
            raise OutOfTime
        r = self.solver.check(*c)
        self.solver_s += time.time() - t
        self.n['queries'] += 1
        if r == z3.sat:
            self.n['sat'] += 1
            self.model = self.solver.model()
            return True
        if r == z3.unsat:
            self.n['unsat'] += 1
            return False
        self.n['unknown'] += 1
        raise Trouble('solver gave no answer: %s' % self.solver.reason_unknown())

    def holds_in_model(self, c):
        if self.model is None:
            return None
        v = self.model.eval(c, model_completion=True)
        return True if z3.is_true(v) else False if z3.is_false(v) else None

    def push(self, c):
        self.solver.push()
        self.solver.add(c)

    def decide(self, c):
        """Truth value of the term on this path; follows both if both are possible."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.known.get(c.get_id())
        if k is not None:
            return k[0]
        r = self.decide_new(c)
        self.known[c.get_id()] = (r, c)
        return r

    def decide_new(self, c):
        self.n['steps'] += 1
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            self.pos += 1
            if e[3] is None:
                self.push(c if e[0] else z3.Not(c))
                e[3] = True
                self.model = None
            return e[0]
        self.n['branches'] += 1
        nc = z3.Not(c)
        h = self.holds_in_model(c)
        can_t = True if h is True else self.check(c)
        m = self.model if can_t else None
        can_f = True if h is False else self.check(nc)
        if not can_t and not can_f:
            raise Trouble('path condition became unsatisfiable')
        if can_t and can_f:
            self.n['forks'] += 1
            if m is not None:
                self.model = m
            if self.holds_in_model(c) is not True:
                self.model = None
            self.push(c)
            self.trace.append([True, True, None, True])
            self.pos += 1
            return True
        self.trace.append([can_t, False, None, False])
        self.pos += 1
        return can_t

    def concretize(self, e, what='value', cap=CAP):
        """A value the term can have; every other one is followed as well."""
        k = 0
        s = z3.simplify(e)
        if z3.is_bv_value(s):
            return s.as_signed_long()
        hit = self.conc.get(s.get_id())
        if hit is not None:
            return hit[0]
        while True:
            if self.pos < len(self.trace):
                v = self.trace[self.pos][2]
            else:
                if self.model is None:
                    self.check()
                v = z3.simplify(self.model.eval(s, model_completion=True)).as_signed_long()
            p = self.pos
            if self.decide_new(z3.simplify(s == v)):
                self.conc[s.get_id()] = v, s
                if p < len(self.trace):
                    self.trace[p][2] = v
                return v
            if p < len(self.trace):
                self.trace[p][2] = v
            k += 1
            if k >= cap:
                self.cap_hits[what] = self.cap_hits.get(what, 0) + 1
                raise Cut

    def assume(self, c):
        c = c.e if isinstance(c, SymBool) else z3.BoolVal(bool(c))
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            self.n['assume_cut'] += 1
            raise Cut
        if self.pos < len(self.trace):
            e = self.trace[self.pos]
            self.pos += 1
            if e[3] is None:
                self.push(c)
                e[3] = True
                self.model = None
            return
        if self.holds_in_model(c) is not True and not self.check(c):
            self.n['assume_cut'] += 1
            raise Cut
        self.push(c)
        self.trace.append([True, False, None, True])
        self.pos += 1

    def violation(self, kind, msg, loc):
        if self.model is None:
            self.check()
        f = dict(kind=kind, msg=msg, loc=loc, **{'in': self.values()})
        f['confirmed'], f['native'] = self.confirm(f) if self.confirm else (None, 'not replayed')
        if f['confirmed'] is False:
            self.unconfirmed.append(f)
            if len(self.unconfirmed) < 20:
                return
        else:
            self.findings.append(f)
        raise Stop

    def verify(self, cond, msg):
        self.asserts[msg] = self.asserts.get(msg, 0) + 1
        if isinstance(cond, SymBool):
            c = z3.simplify(cond.e)
        else:
            c = z3.BoolVal(bool(cond))
        if z3.is_true(c):
            return
        bad = z3.Not(c)
        # Replayed decisions have been verified before.
        if self.pos < len(self.trace):
            self.assume(SymBool(c))
            return
        if self.holds_in_model(bad) is not True:
            if not self.check(bad):
                self.trace.append([True, False, None, False])
                self.pos += 1
                return
        self.violation('assertion', msg, '')
        raise Found

    def values(self):
        r = {}
        for name, e in self.inputs:
            v = self.model.eval(e, model_completion=True)
            r[name] = z3.simplify(v).as_signed_long() if e.size() > 8 else z3.simplify(v).as_long()
        return r

    def evaluate(self, v):
        if isinstance(v, SymInt):
            return z3.simplify(self.model.eval(v.e, model_completion=True)).as_signed_long()
        if isinstance(v, SymBool):
            return bool(z3.is_true(z3.simplify(self.model.eval(v.e, model_completion=True))))
        if isinstance(v, (SymBytes, SymByteArray)):
            return bytes(x if isinstance(x, int) else self.model.eval(x, model_completion=True).as_long() for x in v.v).hex()
        if isinstance(v, (bytes, bytearray)):
            return bytes(v).hex()
        if isinstance(v, (tuple, list)):
            return [self.evaluate(x) for x in v]
        if isinstance(v, dict):
            return {str(k): self.evaluate(x) for k, x in v.items()}
        return v

    def backtrack(self):
        """Prepares the next path; false if there is none."""
        while self.trace:
            e = self.trace[-1]
            if e[3]:
                self.solver.pop()
            if e[1]:
                e[0], e[1], e[3] = not e[0], False, None
                return True
            self.trace.pop()
        return False

    def run(self, fn, nsamples=3, rnd=None):
        global ENG
        ENG = self
        stride, nxt = 1, 0
        try:
            while True:
                self.reset()
                done = False
                try:
                    fn(Api(self))
                    done = True
                except Cut:
                    pass
                except Found:
                    pass
                except (Stop, Hang, OutOfTime, Trouble):
                    raise
                except Exception as x:  # the code under test raised what the harness did not expect
                    if os.environ.get('PSYM_DEBUG'):
                        raise
                    tb = x.__traceback__
                    loc = ''
                    while tb is not None:
                        f = tb.tb_frame.f_code.co_filename
                        if f.startswith(REPO):
                            loc = '%s:%d' % (f[len(REPO) + 1:], tb.tb_lineno)
                        tb = tb.tb_next
                    if not loc:
                        # Judging what the code made fails; a harness that does not fit the code is another matter.
                        if isinstance(x, (AttributeError, TypeError, NameError, ImportError, AssertionError, z3.Z3Exception)):
                            raise
                        loc = 'harness'
                    self.violation('exception', 'unexpected %s: %s' % (type(x).__name__, str(x)[:80]), loc)
                self.n['paths'] += 1
                if done:
                    for w in self.reached:
                        self.witnesses[w] = self.witnesses.get(w, 0) + 1
                    if self.n['paths'] > nxt:
                        if self.model is None or self.pos < len(self.trace):
                            self.check()
                        self.samples.append({'in': self.values(), 'obs': self.evaluate(self.obs)})
                        nxt = self.n['paths'] + stride
                        stride *= 3
                if not self.backtrack():
                    self.exhausted = True
                    break
        except (OutOfTime, Stop):
            pass
        except Hang:
            try:
                if self.model is None:
                    self.check()
                self.violation('nontermination', 'the path does not end', '')
            except (OutOfTime, Stop):
                pass
        except Trouble as x:
            self.error = str(x)
        return self


ENG = None
SHOW = [False]     # text shows values, following each of them


class Api:
    """What a harness may ask for; c/replay's counterpart for native runs is in pynative.py."""
    symbolic = True

    def __init__(self, eng):
        self.g = eng

    def bytes(self, name, n):
        return SymBytes([self._in('%s%d' % (name, i), 8) for i in range(n)])

    def _in(self, name, w):
        assert all(name != n for n, _ in self.g.inputs), name
        e = z3.BitVec(name, w)
        self.g.inputs.append((name, e))
        return e

    def int(self, name, lo, hi):
        w = max(width(lo, hi), 9)
        e = self._in(name, w)
        r = SymInt(e, lo, hi)
        if not (lo == -(1 << (w - 1)) and hi == (1 << (w - 1)) - 1):
            self.g.assume(SymBool(z3.And(e >= lo, e <= hi)))
        return r

    def choice(self, name, options):
        """One of the options, followed one by one."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        g = self.g
        i = self.int(name, 0, len(options) - 1)
        k = 0
        while k < len(options) - 1 and not g.decide(i.e == k):
            k += 1
        g.chosen.append(k)
        me, n, d = g.part
        if n > 1 and len(g.chosen) == d and zlib.crc32(repr(g.chosen).encode()) % n != me:
            raise Cut
        return options[k]

    def shard(self, x):
        """Leaves this process its share of the values of x."""
        me, n, d = self.g.part
        if n > 1 and d == 0:
            self.g.assume((x & (n - 1)) == me)

    def assume(self, c):
        self.g.assume(c)

    def check(self, c, msg):
        self.g.verify(c, msg)

    def same(self, a, b):
        """Equality as a term, without following both outcomes."""
        return a == b

    def no(self, c):
        """Negation as a term."""
        return SymBool(z3.Not(c.e)) if isinstance(c, SymBool) else not c

    def note(self, *v):
        self.g.obs.append(list(v))

    def file(self, data):
        """A file of the operating system with this content."""
        from . import pystubs
        return pystubs.RealFile(data)

    def plan(self, f):
        """What bsdiff.create_patch will answer."""
        from . import pystubs
        pystubs.Creator.plan = f

    def hdiff(self, create, apply):
        """What the hdiffpatch library will answer."""
        from . import pystubs
        pystubs.Hdiff.create, pystubs.Hdiff.apply = create, apply

    def put(self, name, data):
        """A file that open() knows."""
        from . import pystubs
        pystubs.Vfs.files[name] = pystubs.RealFile(data)

    def put_elf(self, name, sections):
        from . import pystubs
        f = pystubs.Vfs.files[name] = pystubs.RealFile()
        f.elf = sections

    def get(self, name):
        """The content of a file, None if there is none."""
        from . import pystubs
        f = pystubs.Vfs.files.get(name)
        return None if f is None else SymBytes(f.v)

    def elf(self, sections):
        from . import pystubs
        f = pystubs.RealFile()
        f.elf = sections
        return pystubs.ElfFile(f)

    def show(self):
        SHOW[0] = True

    def cli(self, *argv):
        return run_cli(argv)

    def reach(self, w):
        self.g.reached.add(w)


def run_cli(argv):
    """Runs the command line program: (lines, None or what it exits with)."""
    import contextlib
    import importlib
    import io
    import logging
    m = importlib.import_module('detools')
    old, out = sys.argv, io.StringIO()
    sys.argv = ['detools'] + list(argv)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            m._main()
        code = None
    except SystemExit as e:
        # The program catches everything, also what is the engine's.
        x = e.__context__
        if isinstance(x, BaseException) and not isinstance(x, (Exception, SystemExit, KeyboardInterrupt, GeneratorExit)):
            raise x
        code = e.code
    finally:
        sys.argv = old
        for h in list(logging.getLogger().handlers):
            logging.getLogger().removeHandler(h)
    return out.getvalue().splitlines(), code


# ---------------------------------------------------------------- integers

def width(lo, hi):
    return max((hi if hi >= 0 else ~hi).bit_length(), (lo if lo >= 0 else ~lo).bit_length()) + 1


def ext(e, w):
    n = e.size()
    return e if n == w else z3.SignExt(w - n, e) if n < w else z3.Extract(w - 1, 0, e)


def mk(e, lo, hi):
    if lo == hi:
        return lo
    w = width(lo, hi)
    if e.size() != w:
        e = ext(e, w)
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return SymInt(e, lo, hi)


def isint(x):
    return isinstance(x, (int, SymInt, SymBool))


def parts(x):
    """(term or None, lo, hi)"""
    if isinstance(x, SymInt):
        return x.e, x.lo, x.hi
    if isinstance(x, SymBool):
        x = x.asint()
        return (x.e, x.lo, x.hi) if isinstance(x, SymInt) else (None, x, x)
    x = int(x)
    return None, x, x


def term(x, w):
    e, lo, _ = parts(x)
    return z3.BitVecVal(lo, w) if e is None else ext(e, w)


def binop(f, lo, hi, a, b, extra=0):
    w = max(width(lo, hi), width(*parts(a)[1:]), width(*parts(b)[1:])) + extra
    return mk(f(term(a, w), term(b, w)), lo, hi)


class SymBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.decide(self.e)

    def asint(self):
        return mk(z3.If(self.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def _b(self, o):
        return o.e if isinstance(o, SymBool) else z3.BoolVal(o) if isinstance(o, bool) else None

    def __and__(self, o):
        b = self._b(o)
        return self.asint() & o if b is None else SymBool(z3.And(self.e, b))

    def __or__(self, o):
        b = self._b(o)
        return self.asint() | o if b is None else SymBool(z3.Or(self.e, b))

    def __xor__(self, o):
        b = self._b(o)
        return self.asint() ^ o if b is None else SymBool(z3.Xor(self.e, b))

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __eq__(self, o):
        b = self._b(o)
        return self.asint() == o if b is None else SymBool(self.e == b)

    def __ne__(self, o):
        b = self._b(o)
        return self.asint() != o if b is None else SymBool(self.e != b)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __add__(self, o):
        return self.asint() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self.asint() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self.asint() - o

    def __rsub__(self, o):
        return o - self.asint()

    def __lt__(self, o):
        return self.asint() < o

    def __le__(self, o):
        return self.asint() <= o

    def __gt__(self, o):
        return self.asint() > o

    def __ge__(self, o):
        return self.asint() >= o

    def __lshift__(self, o):
        return self.asint() << o

    def __neg__(self):
        return -self.asint()

    def __repr__(self):
        return '?'

    def __format__(self, s):
        return '?'


def bitmax(*hs):
    return (1 << max(h.bit_length() for h in hs)) - 1


class SymInt:
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo, hi):
        self.e, self.lo, self.hi = e, lo, hi

    def __add__(self, o):
        if not isint(o):
            return NotImplemented
        _, lo, hi = parts(o)
        return binop(lambda a, b: a + b, self.lo + lo, self.hi + hi, self, o)

    __radd__ = __add__

    def __sub__(self, o):
        if not isint(o):
            return NotImplemented
        _, lo, hi = parts(o)
        return binop(lambda a, b: a - b, self.lo - hi, self.hi - lo, self, o)

    def __rsub__(self, o):
        if not isint(o):
            return NotImplemented
        return binop(lambda a, b: a - b, o - self.hi, o - self.lo, o, self)

    def __mul__(self, o):
        if isinstance(o, (SymBytes, SymByteArray, bytes, str, list, tuple)):
            return NotImplemented
        if not isint(o):
            return NotImplemented
        _, lo, hi = parts(o)
        p = [self.lo * lo, self.lo * hi, self.hi * lo, self.hi * hi]
        return binop(lambda a, b: a * b, min(p), max(p), self, o)

    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __invert__(self):
        return -1 - self

    def __abs__(self):
        return -self if bool(self < 0) else self

    def __and__(self, o):
        if not isint(o):
            return NotImplemented
        _, lo, hi = parts(o)
        if lo >= 0 and self.lo >= 0:
            r = (0, min(hi, self.hi))
        elif lo >= 0:
            r = (0, hi)
        elif self.lo >= 0:
            r = (0, self.hi)
        else:
            w = max(width(lo, hi), width(self.lo, self.hi))
            r = (-(1 << (w - 1)), max(hi, self.hi))
        return binop(lambda a, b: a & b, r[0], r[1], self, o)

    __rand__ = __and__

    def _or(self, o, f):
        if not isint(o):
            return NotImplemented
        _, lo, hi = parts(o)
        if lo >= 0 and self.lo >= 0:
            r = (0, bitmax(hi, self.hi))
        else:
            w = max(width(lo, hi), width(self.lo, self.hi))
            r = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        return binop(f, r[0], r[1], self, o)

    def __or__(self, o):
        return self._or(o, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        return self._or(o, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __lshift__(self, o):
        n = o.__index__()
        if n < 0:
            raise ValueError('negative shift count')
        lo, hi = self.lo << n, self.hi << n
        w = width(lo, hi)
        return mk(ext(self.e, w) << n, lo, hi)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        n = o.__index__()
        if n < 0:
            raise ValueError('negative shift count')
        lo, hi = self.lo >> n, self.hi >> n
        w = self.e.size()
        return mk(self.e >> min(n, w - 1), lo, hi)

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __floordiv__(self, o):
        return self._divmod(o)[0]

    def __mod__(self, o):
        return self._divmod(o)[1]

    def __divmod__(self, o):
        return self._divmod(o)

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        return o % self.__index__()

    def _divmod(self, o):
        d = o.__index__()
        if d == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if d < 0:
            return (-self)._divmod(-d)[0], -((-self)._divmod(-d)[1])
        if d & (d - 1) == 0:
            return self >> (d.bit_length() - 1), self & (d - 1)
        w = max(width(self.lo, self.hi), width(d, d)) + 1
        a = ext(self.e, w)
        q = a / d
        q = z3.If(q * d > a, q - 1, q)
        q = mk(q, self.lo // d, self.hi // d)
        return q, mk(a - term(q, w) * d, 0, d - 1)

    def __truediv__(self, o):
        return self.__index__() / o

    def __rtruediv__(self, o):
        return o / self.__index__()

    def __pow__(self, o, m=None):
        return pow(self.__index__(), o, m)

    def __rpow__(self, o):
        return o ** self.__index__()

    def _cmp(self, o, f, below, above):
        if isinstance(o, float):
            return f(self.__index__(), o)
        if not isint(o):
            return NotImplemented
        _, lo, hi = parts(o)
        if self.hi < lo:
            return below
        if self.lo > hi:
            return above
        w = max(width(lo, hi), width(self.lo, self.hi))
        e = z3.simplify(f(term(self, w), term(o, w)))
        return True if z3.is_true(e) else False if z3.is_false(e) else SymBool(e)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b, False, False)
        return r

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, True, True)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, True, False)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, True, False)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, False, True)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, False, True)

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        v = ENG.concretize(self.e)
        return v

    __int__ = __index__
    __trunc__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __repr__(self):
        return repr(self.__index__()) if SHOW[0] else '?'

    __str__ = __repr__

    def __format__(self, s):
        return format(self.__index__(), s) if SHOW[0] else '?'

    def bit_length(self):
        return self.__index__().bit_length()

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed else (0, (1 << (8 * length)) - 1)
        if not (lo <= self and self <= hi):
            raise OverflowError('int too big to convert')
        return pack_int(self, length, byteorder == 'little')


def byte(x):
    """Element of a byte string as an integer."""
    return x if isinstance(x, int) else mk(z3.ZeroExt(1, x), 0, 255)


def unbyte(x):
    """Integer as an element of a byte string."""
    if isinstance(x, SymBool):
        x = x.asint()
    if isinstance(x, SymInt):
        if x.lo < 0 or x.hi > 255:
            if not (0 <= x and x <= 255):
                raise ValueError('bytes must be in range(0, 256)')
        e = z3.simplify(z3.Extract(7, 0, x.e) if x.e.size() > 8 else ext(x.e, 8))
        return e.as_long() if z3.is_bv_value(e) else e
    x = x.__index__()
    if not 0 <= x <= 255:
        raise ValueError('bytes must be in range(0, 256)')
    return x


def bit8(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_bv_value(e) else e


def pack_int(x, n, little):
    e = term(x, 8 * n) if isinstance(x, SymInt) else None
    if e is None:
        r = [(x >> (8 * i)) & 0xff for i in range(n)]
    else:
        r = [bit8(z3.Extract(8 * i + 7, 8 * i, e)) for i in range(n)]
    return SymBytes(r if little else r[::-1])


def unpack_int(v, little, signed):
    v = list(v)
    if not little:
        v = v[::-1]
    if all(isinstance(x, int) for x in v):
        return int.from_bytes(builtins.bytes(v), 'little', signed=signed)
    n = 8 * len(v)
    e = z3.Concat(*[b8(x) for x in reversed(v)]) if len(v) > 1 else b8(v[0])
    if signed:
        return mk(e, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return mk(z3.ZeroExt(1, e), 0, (1 << n) - 1)


def b8(x):
    return z3.BitVecVal(x, 8) if isinstance(x, int) else x


# ---------------------------------------------------------------- byte strings

def vals(o):
    if isinstance(o, ByteOps):
        return o.v
    if isinstance(o, (bytes, bytearray, memoryview)):
        return list(builtins.bytes(o))
    return None


def clamp(i, n):
    """A slice bound within 0..n, without following values outside."""
    if i is None:
        return None
    if isinstance(i, SymInt):
        if i.lo < 0 and bool(i < 0):
            i = i + n
            if bool(i < 0):
                return 0
        if i.hi > n if isinstance(i, SymInt) else i > n:
            if bool(i >= n):
                return n
        return i.__index__()
    return i


def cut(s, n):
    return slice(clamp(s.start, n), clamp(s.stop, n), s.step)


class ByteOps:
    __slots__ = ()

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter([byte(x) for x in self.v])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return type(self)(self.v[cut(i, len(self.v))])
        if isinstance(i, SymInt):
            if not (i < len(self.v) and i >= -len(self.v)):
                raise IndexError('index out of range')
        i = i.__index__()
        return byte(self.v[i])

    def __add__(self, o):
        o = vals(o)
        return NotImplemented if o is None else type(self)(self.v + o)

    def __radd__(self, o):
        k = type(o) if not isinstance(o, bytes) else SymBytes
        if isinstance(o, bytearray):
            k = SymByteArray
        o = vals(o)
        return NotImplemented if o is None else k(o + self.v)

    def __mul__(self, n):
        if isinstance(n, SymInt):
            if bool(n <= 0):
                return type(self)([])
            if bool(n > CAP * 4):
                ENG.cap_hits['repetition'] = ENG.cap_hits.get('repetition', 0) + 1
                raise Cut
        return type(self)(self.v * n.__index__())

    __rmul__ = __mul__

    def __eq__(self, o):
        o = vals(o)
        if o is None:
            return False
        return eqv(self.v, o)

    def __ne__(self, o):
        r = self == o
        return SymBool(z3.Not(r.e)) if isinstance(r, SymBool) else not r

    def _lt(self, o, eq):
        o = vals(o)
        for a, b in zip(self.v, o):
            if bool(byte(a) < byte(b)):
                return True
            if bool(byte(a) != byte(b)):
                return False
        return len(self.v) <= len(o) if eq else len(self.v) < len(o)

    def __lt__(self, o):
        return self._lt(o, False)

    def __le__(self, o):
        return self._lt(o, True)

    def __gt__(self, o):
        return not self._lt(o, True)

    def __ge__(self, o):
        return not self._lt(o, False)

    def __contains__(self, x):
        if vals(x) is not None:
            return self.find(x) >= 0
        return any(bool(byte(y) == x) for y in self.v)

    def __bool__(self):
        return len(self.v) > 0

    def join(self, items):
        r = []
        for k, it in enumerate(items):
            if k and self.v:
                r += self.v
            v = vals(it)
            if v is None:
                raise TypeError('sequence item %d: expected a bytes-like object' % k)
            r += v
        return type(self)(r)

    def startswith(self, p):
        p = vals(p)
        return len(p) <= len(self.v) and eqv(self.v[:len(p)], p)

    def endswith(self, p):
        p = vals(p)
        return len(p) <= len(self.v) and eqv(self.v[len(self.v) - len(p):], p)

    def find(self, x, start=0):
        x = vals(x)
        for i in range(start, len(self.v) - len(x) + 1):
            if bool(eqv(self.v[i:i + len(x)], x)):
                return i
        return -1

    def index(self, x, start=0):
        r = self.find(x, start)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def count(self, x):
        if vals(x) is not None:
            raise NotImplementedError
        return sum(1 for y in self.v if bool(byte(y) == x))

    def rfind(self, x, start=0):
        x = vals(x)
        for i in range(len(self.v) - len(x), start - 1, -1):
            if bool(eqv(self.v[i:i + len(x)], x)):
                return i
        return -1

    def rindex(self, x, start=0):
        r = self.rfind(x, start)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def partition(self, x):
        i = self.find(x)
        if i < 0:
            return self, type(self)([]), type(self)([])
        n = len(vals(x))
        return type(self)(self.v[:i]), type(self)(self.v[i:i + n]), type(self)(self.v[i + n:])

    def rstrip(self, chars=b' \t\n\r\x0b\x0c'):
        v = list(self.v)
        c = vals(chars)
        while v and any(bool(byte(v[-1]) == y) for y in c):
            v.pop()
        return type(self)(v)

    def lstrip(self, chars=b' \t\n\r\x0b\x0c'):
        v = list(self.v)
        c = vals(chars)
        while v and any(bool(byte(v[0]) == y) for y in c):
            v.pop(0)
        return type(self)(v)

    def strip(self, chars=b' \t\n\r\x0b\x0c'):
        return self.lstrip(chars).rstrip(chars)

    def _case(self, a, b, d):
        return type(self)([x + d if isinstance(x, int) and a <= x <= b else x if isinstance(x, int)
                           else z3.If(z3.And(z3.UGE(x, a), z3.ULE(x, b)), x + d, x) for x in self.v])

    def upper(self):
        return self._case(97, 122, -32)

    def lower(self):
        return self._case(65, 90, 32)

    def removeprefix(self, x):
        return type(self)(self.v[len(vals(x)):] if bool(self.startswith(x)) else self.v)

    def rjust(self, n, fill=b' '):
        return type(self)(vals(fill) * max(0, n - len(self.v)) + self.v)

    def zfill(self, n):
        return self.rjust(n, b'0')

    def ljust(self, n, fill=b' '):
        return type(self)(self.v + vals(fill) * max(0, n - len(self.v)))

    def decode(self, *a):
        return '?' * len(self.v)

    def hex(self, *a):
        return '?' * len(self.v)

    def tobytes(self):
        return SymBytes(self.v)

    def __repr__(self):
        return '<%d bytes>' % len(self.v)

    def __format__(self, s):
        return repr(self)


def eqv(a, b):
    if len(a) != len(b):
        return False
    c = []
    for x, y in zip(a, b):
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return False
        elif x is not y:
            c.append(b8(x) == b8(y))
    if not c:
        return True
    e = z3.simplify(z3.And(*c) if len(c) > 1 else c[0])
    return True if z3.is_true(e) else False if z3.is_false(e) else SymBool(e)


class BytesMeta(type):
    def __instancecheck__(cls, o):
        return type(o) is cls or (cls is SymBytes and isinstance(o, bytes)) or (cls is SymByteArray
                                                                               and isinstance(o, bytearray))


def tobytes(src):
    if isinstance(src, list):
        return src
    v = vals(src)
    if v is not None:
        return list(v)
    if isinstance(src, (int, SymInt)):
        return [0] * src.__index__()
    return [unbyte(x) for x in src]


class SymBytes(ByteOps, metaclass=BytesMeta):
    __slots__ = ('v',)

    def __init__(self, src=(), *a):
        if isinstance(src, str):
            src = src.encode(*a)
        if isinstance(src, list) and all(isinstance(x, int) or z3.is_expr(x) for x in src):
            for x in src:
                if isinstance(x, int) and not 0 <= x <= 255:
                    raise ValueError('bytes must be in range(0, 256)')
            self.v = list(src)
        else:
            self.v = tobytes(src) if not isinstance(src, list) else [unbyte(x) for x in src]

    def __hash__(self):
        return hash(builtins.bytes(byte(x).__index__() for x in self.v))

    @staticmethod
    def fromhex(s):
        return SymBytes(builtins.bytes.fromhex(s))


class SymByteArray(ByteOps, metaclass=BytesMeta):
    __slots__ = ('v',)
    __hash__ = None
    __init__ = SymBytes.__init__

    def append(self, x):
        self.v.append(unbyte(x))

    def extend(self, xs):
        v = vals(xs)
        self.v.extend(v if v is not None else [unbyte(x) for x in xs])

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __setitem__(self, i, x):
        if isinstance(i, slice):
            v = vals(x)
            self.v[cut(i, len(self.v))] = v if v is not None else [unbyte(y) for y in x]
        else:
            self.v[i.__index__()] = unbyte(x)

    def __delitem__(self, i):
        del self.v[cut(i, len(self.v)) if isinstance(i, slice) else i.__index__()]

    def pop(self, i=-1):
        return byte(self.v.pop(i))

    def clear(self):
        self.v.clear()

    def insert(self, i, x):
        self.v.insert(i, unbyte(x))

    def reverse(self):
        self.v.reverse()

    def copy(self):
        return SymByteArray(list(self.v))


class View(ByteOps):
    """memoryview of a byte string (not of a mutable one)."""
    __slots__ = ('v',)

    def __init__(self, o):
        self.v = vals(o)

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


# ---------------------------------------------------------------- loading the code under test

class Bytes(ast.NodeTransformer):
    """bytes literals become symbolic byte strings, so that their methods take symbolic arguments."""

    def visit_Constant(self, n):
        if isinstance(n.value, bytes):
            return ast.copy_location(ast.Call(func=ast.Name(id='__symbytes__', ctx=ast.Load()), args=[n], keywords=[]), n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_MatchValue(self, n):
        return n


def lit(b):
    return SymBytes(list(b))


STUBS = {}          # top-level module name -> module given to the code under test
PACKAGES = {}       # package name -> directory


def symimport(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split('.')[0]
        if top in STUBS:
            m = STUBS[top]
            for p in name.split('.')[1:] if fromlist else ():
                m = getattr(m, p)
            return m
    return builtins.__import__(name, globals, locals, fromlist, level)


def symisinstance(o, k):
    ks = k if isinstance(k, tuple) else (k,)
    if isinstance(o, SymInt) and any(x is int for x in ks):
        return True
    if isinstance(o, SymBool) and any(x in (int, bool) for x in ks):
        return True
    return isinstance(o, k)


def symmin(*a, **k):
    return builtins.min(*a, **k)


def sym_print(*a, **k):
    builtins.print(*a, **k)


BUILTINS = dict(vars(builtins))
BUILTINS.update(__import__=symimport, bytes=SymBytes, bytearray=SymByteArray, memoryview=View, isinstance=symisinstance,
                __symbytes__=lit)


class Finder:
    """Imports the packages under test from source, rewritten."""

    def find_spec(self, fullname, path=None, target=None):
        import importlib.util
        top = fullname.split('.')[0]
        if top not in PACKAGES:
            return None
        if fullname in SUBSTUBS:
            return importlib.util.spec_from_loader(fullname, StubLoader(fullname))
        p = os.path.join(PACKAGES[top], *fullname.split('.')[1:])
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            f = os.path.join(p, '__init__.py')
            if fullname == top and top in NOINIT:
                f = os.devnull
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(f),
                                                          submodule_search_locations=[p])
        if os.path.exists(p + '.py'):
            return importlib.util.spec_from_file_location(fullname, p + '.py', loader=Loader(p + '.py'))
        return None


SUBSTUBS = {}
NOINIT = set()


class StubLoader:
    def __init__(self, name):
        self.name = name

    def create_module(self, spec):
        m = types.ModuleType(self.name)
        m.__dict__.update(SUBSTUBS[self.name])
        return m

    def exec_module(self, m):
        pass


class Loader:
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.fix_missing_locations(Bytes().visit(ast.parse(src, self.path)))
        m.__dict__['__builtins__'] = BUILTINS
        exec(compile(tree, self.path, 'exec'), m.__dict__)


def install(packages, stubs, substubs, noinit=()):
    PACKAGES.update(packages)
    STUBS.update(stubs)
    SUBSTUBS.update(substubs)
    NOINIT.update(noinit)
    sys.meta_path.insert(0, Finder())


class Coverage:
    """Functions and lines of the code under test that were executed."""

    def __init__(self, root):
        self.root, self.lines, self.code = root, set(), {}
        m = sys.monitoring
        m.use_tool_id(3, 'psym')
        m.register_callback(3, m.events.LINE, self.line)
        m.register_callback(3, m.events.PY_START, self.start)
        m.set_events(3, m.events.LINE | m.events.PY_START)

    def start(self, code, off):
        if code.co_filename.startswith(self.root):
            self.code[(code.co_filename, code.co_qualname)] = code
        return sys.monitoring.DISABLE

    def line(self, code, ln):
        if code.co_filename.startswith(self.root):
            self.lines.add((code.co_filename, code.co_qualname, ln))
        return sys.monitoring.DISABLE

    def result(self):
        r = {}
        for (f, q), c in self.code.items():
            if q == '<module>':
                continue
            all_ = {l for _, _, l in c.co_lines() if l and l != c.co_firstlineno}
            got = {l for ff, qq, l in self.lines if ff == f and qq == q}
            r['%s:%s' % (os.path.relpath(f, self.root), q)] = [f, len(got & all_), len(all_)]
        return r
