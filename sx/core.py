"""Symbolic values and the path explorer.

The implementation's own functions are executed by CPython on the values
defined here.  Integers are exact mathematical integers: a SymInt is a z3
bit-vector whose width always covers its tracked interval, so no operation
ever wraps.  A truth test on a symbolic condition asks the solver which sides
are feasible and forks the path (depth-first, by re-execution).
"""
import sys
import time
import z3

z3.set_param('smt.random_seed', 1)
z3.set_param('sat.random_seed', 1)


class SxUnsupported(BaseException):
    """An operation the engine cannot encode (never silently approximated)."""


class SxPathEnd(BaseException):
    """The path is infeasible, or cut by a stated bound."""


class SxInconclusive(BaseException):
    """The solver answered unknown."""


class Stats:
    def __init__(self):
        self.paths = 0
        self.cut_paths = 0
        self.branches = 0
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.solver_s = 0.0
        self.checks = 0
        self.checks_trivial = 0

    def as_dict(self):
        return dict(self.__dict__)


class Engine:
    """One exploration: a set of paths through a harness."""
    cur = None

    def __init__(self, timeout_ms=120000, max_paths=20000):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.stats = Stats()
        self.mode = 'bv'

    # -- path management -------------------------------------------------
    def explore(self, fn):
        work = [[]]
        while work:
            prefix = work.pop()
            if self.stats.paths >= self.max_paths:
                raise SxUnsupported('path budget %d exhausted' % self.max_paths)
            self.prefix = prefix
            self.trace = []
            self.pending = []
            self.known = {}
            self.keep = []
            self.pc = []
            self.fresh = 0
            Engine.cur = self
            self.reset_path()
            try:
                yield_val = fn()
                self.stats.paths += 1
                yield yield_val
            except SxPathEnd:
                self.stats.cut_paths += 1
            finally:
                Engine.cur = None
            work.extend(self.pending)

    def reset_path(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)

    def _check(self, *assump):
        t = time.time()
        r = self.solver.check(*assump)
        dt = time.time() - t
        self.stats.solver_s += dt
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            raise SxInconclusive('solver answered unknown after %.1fs' % dt)
        return r

    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def branch(self, cond):
        """Decide a z3 Bool on this path, forking when both sides are open."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.trace)
        self.stats.branches += 1
        if i < len(self.prefix):
            d = self.prefix[i]
            assert d[0] == 'b', 'non-deterministic re-execution'
            val = d[1]
            self.trace.append(d)
            self.add(cond if val else z3.Not(cond))
            return val
        can_t = self._check(cond) == z3.sat
        if can_t:
            can_f = self._check(z3.Not(cond)) == z3.sat
        else:
            can_f = True
        if not can_t and not can_f:
            raise SxPathEnd()
        if can_t and can_f:
            self.pending.append(self.trace + [('b', False)])
            val = True
        else:
            val = can_t
        self.trace.append(('b', val))
        self.add(cond if val else z3.Not(cond))
        return val

    def pick(self, n):
        """A free choice among n alternatives (an enumerated shape)."""
        if n == 1:
            return 0
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            assert d[0] == 'p'
            self.trace.append(d)
            return d[1]
        for k in range(n - 1, 0, -1):
            self.pending.append(self.trace + [('p', k)])
        self.trace.append(('p', 0))
        return 0

    def assume(self, cond):
        if isinstance(cond, SymBool):
            cond = cond.t
        if isinstance(cond, bool):
            if not cond:
                raise SxPathEnd()
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise SxPathEnd()
        self.add(cond)
        if self._check() != z3.sat:
            raise SxPathEnd()

    def concretize(self, si):
        """Fork over the values of a SymInt; returns a Python int."""
        t = si.t
        key = t.get_id()
        if key in self.known:
            return self.known[key]
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                d = self.prefix[i]
                assert d[0] == 'v', 'non-deterministic re-execution'
                v = d[1]
                yes = d[2]
                self.trace.append(d)
            else:
                if self._check() != z3.sat:
                    raise SxPathEnd()
                m = self.solver.model()
                v = m.eval(t, model_completion=True).as_signed_long()
                self.stats.branches += 1
                if self._check(t != v) == z3.sat:
                    self.pending.append(self.trace + [('v', v, False)])
                yes = True
                self.trace.append(('v', v, True))
            if yes:
                self.add(t == v)
                self.known[key] = v
                self.keep.append(t)
                return v
            self.add(t != v)

    def is_eq(self, si, k):
        """Fork on si == k, remembering the value when it holds."""
        if isinstance(si, int):
            return si == k
        key = si.t.get_id()
        if key in self.known:
            return self.known[key] == k
        if k < si.lo or k > si.hi:
            return False
        r = self.branch(si.t == z3.BitVecVal(k, si.w))
        if r:
            self.known[key] = k
            self.keep.append(si.t)
        return r

    def model(self):
        if self._check() != z3.sat:
            raise SxPathEnd()
        return self.solver.model()


def eng():
    e = Engine.cur
    if e is None:
        raise SxUnsupported('symbolic operation outside an exploration')
    return e


def need(lo, hi):
    """signed width covering [lo, hi]"""
    return max(lo.bit_length() if lo >= 0 else (lo + 1).bit_length(),
               hi.bit_length() if hi >= 0 else (hi + 1).bit_length()) + 1


def ext(t, w, w2):
    return t if w2 == w else z3.SignExt(w2 - w, t)


def mk(t, lo, hi):
    """Build a SymInt (or int) from a term wide enough for [lo, hi]."""
    if lo == hi:
        return lo
    w = t.size()
    n = need(lo, hi)
    if n < w:
        t = z3.Extract(n - 1, 0, t)
        w = n
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_signed_long()
    r = object.__new__(SymInt)
    r.t, r.w, r.lo, r.hi = t, w, lo, hi
    return r


def lift(x):
    """(term, width, lo, hi) of an int-like, or None"""
    if isinstance(x, SymInt):
        return x.t, x.w, x.lo, x.hi
    if isinstance(x, SymBool):
        x = x.as_int()
        return lift(x)
    if isinstance(x, int):
        x = int(x)
        w = need(x, x)
        return z3.BitVecVal(x, w), w, x, x
    return None


def _num_other(o):
    return isinstance(o, (SymFloat, SymReal, SymRat, float))


TOKENS = {}     # placeholders of symbolic integers formatted into strings


class SymInt:
    __slots__ = ('t', 'w', 'lo', 'hi')

    def __new__(cls, *a, **k):
        raise SxUnsupported('SymInt constructed directly')

    # comparisons
    def _cmp(self, o, f, trivial):
        if _num_other(o):
            return f_cmp(self, o, f)
        l = lift(o)
        if l is None:
            return NotImplemented
        t2, w2, lo2, hi2 = l
        r = trivial(self.lo, self.hi, lo2, hi2)
        if r is not None:
            return r
        w = max(self.w, w2)
        return mkb(f(ext(self.t, self.w, w), ext(t2, w2, w)))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b,
                      lambda a, b, c, d: False if b < c or d < a else None)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b,
                      lambda a, b, c, d: True if b < c or d < a else None)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b,
                         lambda a, b, c, d: True if b < c else (False if a >= d else None))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b,
                         lambda a, b, c, d: True if b <= c else (False if a > d else None))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b,
                         lambda a, b, c, d: True if a > d else (False if b <= c else None))

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b,
                         lambda a, b, c, d: True if a >= d else (False if b < c else None))

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __hash__(self):
        return hash(eng().concretize(self))

    def __index__(self):
        return eng().concretize(self)

    def __int__(self):
        return eng().concretize(self)

    # arithmetic
    def _bin(self, o, op, rng, swap=False):
        l = lift(o)
        if l is None:
            return NotImplemented
        t2, w2, lo2, hi2 = l
        a = (self.t, self.w, self.lo, self.hi)
        b = (t2, w2, lo2, hi2)
        if swap:
            a, b = b, a
        lo, hi = rng(a[2], a[3], b[2], b[3])
        w = max(need(lo, hi), a[1], b[1])
        return mk(op(ext(a[0], a[1], w), ext(b[0], b[1], w)), lo, hi)

    def __add__(self, o):
        if _num_other(o):
            return f_bin(self, o, '+')
        return self._bin(o, lambda x, y: x + y, lambda a, b, c, d: (a + c, b + d))
    __radd__ = lambda self, o: f_bin(o, self, '+') if _num_other(o) else self.__add__(o)

    def __sub__(self, o):
        if _num_other(o):
            return f_bin(self, o, '-')
        return self._bin(o, lambda x, y: x - y, lambda a, b, c, d: (a - d, b - c))

    def __rsub__(self, o):
        if _num_other(o):
            return f_bin(o, self, '-')
        return self._bin(o, lambda x, y: x - y, lambda a, b, c, d: (a - d, b - c), True)

    def __mul__(self, o):
        if _num_other(o):
            return f_bin(self, o, '*')
        if isinstance(o, (list, tuple, str, bytes, SymBytes)):
            return o * self.__index__()

        def rng(a, b, c, d):
            p = (a * c, a * d, b * c, b * d)
            return min(p), max(p)
        return self._bin(o, lambda x, y: x * y, rng)

    def __rmul__(self, o):
        if _num_other(o):
            return f_bin(o, self, '*')
        return self.__mul__(o)

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        w = self.w + 1
        t = ext(self.t, self.w, w)
        return mk(z3.If(t < 0, -t, t), 0, max(-self.lo, self.hi))

    def __invert__(self):
        return -1 - self

    def _divmod(self, o, want):
        l = lift(o)
        if l is None:
            return NotImplemented
        return int_divmod((self.t, self.w, self.lo, self.hi), l, want)

    def __floordiv__(self, o):
        return self._divmod(o, 'q')

    def __mod__(self, o):
        return self._divmod(o, 'r')

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rfloordiv__(self, o):
        l = lift(o)
        return NotImplemented if l is None else int_divmod(l, lift(self), 'q')

    def __rmod__(self, o):
        l = lift(o)
        return NotImplemented if l is None else int_divmod(l, lift(self), 'r')

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __truediv__(self, o):
        if _num_other(o):
            return f_bin(self, o, '/')
        if isinstance(o, int):
            if o == 0:
                raise ZeroDivisionError('division by zero')
            return SymRat.make(self, int(o))
        raise SxUnsupported('symbolic / symbolic')

    def __rtruediv__(self, o):
        if _num_other(o):
            return f_bin(o, self, '/')
        raise SxUnsupported('concrete / symbolic int')

    def __pow__(self, o, m=None):
        if isinstance(o, int) and not isinstance(o, bool) and 0 <= o <= 4 and m is None:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return pow(self.__index__(), o.__index__() if isinstance(o, SymInt) else o, m) if m is not None \
            else self.__index__() ** (o.__index__() if isinstance(o, SymInt) else o)

    def __rpow__(self, o):
        return o ** self.__index__()

    # bit operations (two's complement, infinite sign)
    def __and__(self, o):
        def rng(a, b, c, d):
            if a >= 0 and c >= 0:
                return 0, min(b, d)
            if c >= 0:
                return 0, d
            if a >= 0:
                return 0, b
            n = max(need(a, b), need(c, d))
            return -(1 << (n - 1)), (1 << (n - 1)) - 1
        return self._bin(o, lambda x, y: x & y, rng)
    __rand__ = __and__

    @staticmethod
    def _orrng(a, b, c, d):
        if a >= 0 and c >= 0:
            n = max(b.bit_length(), d.bit_length())
            return 0, (1 << n) - 1
        n = max(need(a, b), need(c, d))
        return -(1 << (n - 1)), (1 << (n - 1)) - 1

    def __or__(self, o):
        return self._bin(o, lambda x, y: x | y, self._orrng)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda x, y: x ^ y, self._orrng)
    __rxor__ = __xor__

    def __lshift__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        if o < 0:
            raise ValueError('negative shift count')
        return self * (1 << o)

    def __rshift__(self, o):
        if isinstance(o, SymInt):
            o = o.__index__()
        if o < 0:
            raise ValueError('negative shift count')
        return self // (1 << o)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rrshift__(self, o):
        return o >> self.__index__()

    # int API
    def bit_length(self):
        a = abs(self)
        if isinstance(a, int):
            return a.bit_length()
        n = 0
        for k in range(a.hi.bit_length()):
            c = a >= (1 << k)
            n = n + (c.as_int() if isinstance(c, SymBool) else int(c))
        return n

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def is_integer(self):
        return True

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        if isinstance(length, SymInt):
            length = length.__index__()
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed and length \
            else (0, (1 << (8 * length)) - 1)
        if not signed:
            if self.lo < 0 and eng().branch(self.t < 0):
                raise OverflowError("can't convert negative int to unsigned")
        ok = ands([self >= lo, self <= hi])
        if not (ok if isinstance(ok, bool) else bool(ok)):
            raise OverflowError('int too big to convert')
        bs = int_bytes(self, length)
        if byteorder == 'little':
            bs = bs[::-1]
        return SymBytes(bs)

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __float__(self):
        return float(eng().concretize(self))

    def __repr__(self):
        return '<symint>'

    def __str__(self):
        # a placeholder the struct model and int() turn back into this value
        k = '\x01%d\x02' % self.t.get_id()
        TOKENS[k] = self
        return k

    def __format__(self, spec):
        if spec in ('', 'd', 'n'):
            return str(self)
        return '<symint>'

    def __getstate__(self):
        raise SxUnsupported('pickle')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def int_divmod(a, b, want):
    ta, wa, la, ha = a
    tb, wb, lb, hb = b
    if lb <= 0 <= hb:
        if lb == hb == 0 or eng().branch(tb == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
    w = max(wa, wb) + 1
    x, y = ext(ta, wa, w), ext(tb, wb, w)
    q = z3.If(z3.SRem(x, y) == 0, x / y,
              z3.If((x < 0) != (y < 0), x / y - 1, x / y)) if (la < 0 or lb < 0) else z3.UDiv(x, y)
    if want == 'q':
        if lb == hb and lb != 0:
            c = (la // lb, ha // lb)
            lo, hi = min(c), max(c)
        elif la >= 0 and lb >= 0:
            lo, hi = 0, ha
        else:
            m = max(abs(la), abs(ha))
            lo, hi = -m - 1, m
        return mk(q, lo, hi)
    r = z3.URem(x, y) if la >= 0 and lb >= 0 else x - q * y
    if lb > 0 or (lb == 0 and hb > 0):
        lo, hi = 0, (min(hb - 1, ha) if la >= 0 else hb - 1)
    elif hb < 0:
        lo, hi = lb + 1, 0
    else:
        lo, hi = lb, hb
    return mk(r, min(lo, hi), max(lo, hi))


def int_bytes(v, n):
    """n big-endian bytes (ints or BV8 terms) of v mod 256**n"""
    if isinstance(v, int):
        return list((v % (1 << (8 * n))).to_bytes(n, 'big'))
    t, w = v.t, v.w
    if w < 8 * n:
        t = z3.ZeroExt(8 * n - w, t) if v.lo >= 0 else z3.SignExt(8 * n - w, t)
    out = []
    for k in range(n - 1, -1, -1):
        out.append(simp8(z3.Extract(8 * k + 7, 8 * k, t)))
    return out


def simp8(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_bv_value(t) else t


def bytes_int(bs, signed=False):
    """int or SymInt from big-endian byte values"""
    if all(isinstance(b, int) for b in bs):
        return int.from_bytes(bytes(bs), 'big', signed=signed)
    n = 8 * len(bs)
    ts = [z3.BitVecVal(b, 8) if isinstance(b, int) else b for b in bs]
    t = ts[0] if len(ts) == 1 else z3.Concat(*ts)
    if signed:
        return mk(t, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return mk(z3.ZeroExt(1, t), 0, (1 << n) - 1)


def byte_sym(b):
    return b if isinstance(b, int) else mk(z3.ZeroExt(1, b), 0, 255)


class SymBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().branch(self.t)

    def as_int(self):
        return mk(z3.If(self.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __and__(self, o):
        if isinstance(o, bool):
            return self if o else False
        if isinstance(o, SymBool):
            return mkb(z3.And(self.t, o.t))
        return self.as_int() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return True if o else self
        if isinstance(o, SymBool):
            return mkb(z3.Or(self.t, o.t))
        return self.as_int() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkb(z3.Xor(self.t, boolterm(o)))
        return self.as_int() ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkb(self.t == boolterm(o))
        return self.as_int() == o

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkb(self.t != boolterm(o))
        return self.as_int() != o

    def __invert__(self):
        return ~self.as_int()

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __repr__(self):
        return '<symbool>'

    __str__ = __repr__

    def __format__(self, s):
        return '<symbool>'

    def __getattr__(self, name):
        if name.startswith('__') or name == 't':
            raise AttributeError(name)
        return getattr(self.as_int(), name)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def _delegate(name):
    def f(self, *a):
        x = self.as_int()
        if isinstance(x, int):
            return getattr(int, name)(x, *a)
        return getattr(x, name)(*a)
    return f


for _n in ('__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __lt__ __le__ __gt__ __ge__ __lshift__ '
           '__rshift__ __rlshift__ __rrshift__ __floordiv__ __mod__ __rfloordiv__ __rmod__ __truediv__ '
           '__rtruediv__ __neg__ __pos__ __abs__ __round__ __float__ __pow__ __divmod__').split():
    setattr(SymBool, _n, _delegate(_n))


def mkb(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def boolterm(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SymInt):
        return boolterm(x != 0)
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def ands(xs):
    ts = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        ts.append(boolterm(x))
    return mkb(z3.And(*ts)) if ts else True


def ors(xs):
    ts = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        ts.append(boolterm(x))
    return mkb(z3.Or(*ts)) if ts else False


def nots(x):
    if isinstance(x, bool):
        return not x
    return mkb(z3.Not(boolterm(x)))


# ---------------------------------------------------------------- rationals
class SymRat:
    """num/den with den a positive concrete int: the result of int / int.

    Exact when the double result is exact or rounded the same way; limited to
    |num| < 2**50 and power-of-two den, where IEEE division is exact."""
    __slots__ = ('n', 'd')

    @staticmethod
    def make(n, d):
        if d < 0:
            n, d = -n, -d
        if isinstance(n, int):
            return n / d
        if d & (d - 1) or max(abs(n.lo), abs(n.hi)) >= 1 << 50:
            raise SxUnsupported('inexact int / int')
        r = object.__new__(SymRat)
        r.n, r.d = n, d
        return r

    def __floor__(self):
        return self.n // self.d

    def __ceil__(self):
        return -((-self.n) // self.d)

    def __trunc__(self):
        q = self.n // self.d
        if getattr(self.n, 'lo', 0) >= 0:
            return q
        return -((-self.n) // self.d) if bool(self.n < 0) else q

    def __round__(self, nd=None):
        if nd is not None:
            raise SxUnsupported('round(x, n)')
        two = 2 * self.n
        q = (two + self.d) // (2 * self.d)
        tie = (two + self.d) % (2 * self.d) == 0
        if bool(tie) and bool(q % 2 == 1):
            return q - 1
        return q

    def is_integer(self):
        return self.n % self.d == 0

    def _o(self, o):
        if isinstance(o, SymRat):
            return o.n, o.d
        if isinstance(o, (int, SymInt)):
            return o, 1
        if isinstance(o, float) and o == int(o):
            return int(o), 1
        raise SxUnsupported('SymRat op %r' % type(o))

    def _c(self, o, f):
        n, d = self._o(o)
        return f(self.n * d, n * self.d)

    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o): return self._c(o, lambda a, b: a != b)
    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __bool__(self): return bool(self.n != 0)
    def __hash__(self):
        raise SxUnsupported('hash of a symbolic rational')

    def __add__(self, o):
        n, d = self._o(o)
        return SymRat.make(self.n * d + n * self.d, self.d * d)
    __radd__ = __add__

    def __mul__(self, o):
        n, d = self._o(o)
        return SymRat.make(self.n * n, self.d * d)
    __rmul__ = __mul__

    def __sub__(self, o):
        n, d = self._o(o)
        return SymRat.make(self.n * d - n * self.d, self.d * d)

    def __neg__(self):
        return SymRat.make(-self.n, self.d)

    def __floordiv__(self, o):
        n, d = self._o(o)
        return (self.n * d) // (n * self.d)

    def __repr__(self): return '<symrat>'
    def __format__(self, s): return '<symrat>'


# ---------------------------------------------------------------- floats
F32, F64 = z3.Float32(), z3.Float64()
RNE = z3.RNE()


class SymFloat:
    """A Python float.  kind 'f32': the double that equals the given binary32
    bits; 'f64': the double with the given bits; 'fp': a z3 Float64 term."""
    __slots__ = ('kind', 't')

    def __init__(self, kind, t):
        self.kind, self.t = kind, t

    def fp(self):
        if self.kind == 'f32':
            return z3.fpToFP(RNE, z3.fpBVToFP(self.t, F32), F64)
        if self.kind == 'f64':
            return z3.fpBVToFP(self.t, F64)
        return self.t

    def _c(self, o, f):
        o = f_lift(o)
        return NotImplemented if o is None else mkb(f(self.fp(), o))

    def __eq__(self, o):
        if isinstance(o, SymFloat) and o.kind == self.kind and z3.eq(o.t, self.t):
            return True  # not NaN by assumption
        r = self._c(o, z3.fpEQ)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return nots(r)

    def __lt__(self, o): return self._c(o, z3.fpLT)
    def __le__(self, o): return self._c(o, z3.fpLEQ)
    def __gt__(self, o): return self._c(o, z3.fpGT)
    def __ge__(self, o): return self._c(o, z3.fpGEQ)

    def __bool__(self):
        if self.kind in ('f32', 'f64'):
            n = self.t.size()
            return eng().branch(z3.Extract(n - 2, 0, self.t) != 0)
        return eng().branch(z3.Not(z3.fpIsZero(self.t)))

    def __hash__(self):
        raise SxUnsupported('hash of a symbolic float')

    def __add__(self, o): return f_bin(self, o, '+')
    def __radd__(self, o): return f_bin(o, self, '+')
    def __sub__(self, o): return f_bin(self, o, '-')
    def __rsub__(self, o): return f_bin(o, self, '-')
    def __mul__(self, o): return f_bin(self, o, '*')
    def __rmul__(self, o): return f_bin(o, self, '*')
    def __truediv__(self, o): return f_bin(self, o, '/')
    def __rtruediv__(self, o): return f_bin(o, self, '/')

    def __neg__(self):
        if self.kind in ('f32', 'f64'):
            n = self.t.size()
            return SymFloat(self.kind, z3.simplify(self.t ^ z3.BitVecVal(1 << (n - 1), n)))
        return SymFloat('fp', z3.fpNeg(self.t))

    def __pos__(self): return self

    def __abs__(self):
        if self.kind in ('f32', 'f64'):
            n = self.t.size()
            return SymFloat(self.kind, z3.simplify(self.t & z3.BitVecVal((1 << (n - 1)) - 1, n)))
        return SymFloat('fp', z3.fpAbs(self.t))

    def __float__(self):
        raise SxUnsupported('float() of a symbolic float outside the shims')

    def __int__(self):
        raise SxUnsupported('int() of a symbolic float')

    def is_integer(self):
        x = self.fp()
        return mkb(z3.And(z3.Not(z3.fpIsInf(x)), z3.fpRoundToIntegral(z3.RTZ(), x) == x))

    def conjugate(self): return self

    @property
    def real(self): return self

    def __repr__(self): return '<symfloat>'
    __str__ = __repr__
    def __format__(self, s): return '<symfloat>'
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self


def f_lift(o):
    if isinstance(o, SymFloat):
        return o.fp()
    if isinstance(o, bool):
        o = int(o)
    if isinstance(o, (int, float)):
        return z3.FPVal(float(o), F64)
    if isinstance(o, SymInt):
        return z3.fpToFP(RNE, ext(o.t, o.w, max(o.w, 2)), F64)
    return None


def f_bin(a, b, op):
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        return r_bin(a, b, op)
    if isinstance(a, SymRat) or isinstance(b, SymRat):
        if isinstance(a, SymRat):
            return {'+': SymRat.__add__, '-': SymRat.__sub__, '*': SymRat.__mul__}.get(op, _unsup)(a, b)
        if op in '+*':
            return f_bin(b, a, op)
        raise SxUnsupported('SymRat %s' % op)
    x, y = f_lift(a), f_lift(b)
    if x is None or y is None:
        return NotImplemented
    if op == '/':
        if eng().branch(z3.fpIsZero(y)):
            raise ZeroDivisionError('float division by zero')
    f = {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul, '/': z3.fpDiv}[op]
    return SymFloat('fp', f(RNE, x, y))


def _unsup(*a):
    raise SxUnsupported('operation')


def f_cmp(a, b, f):
    if isinstance(b, SymReal):
        return mkb(f(r_lift(a), b.t))
    if isinstance(b, SymRat):
        return f_cmp_rat(a, b, f)
    x, y = f_lift(a), f_lift(b)
    probe = f(z3.BitVec('p', 4), z3.BitVec('q', 4)).decl().kind()
    g = {z3.Z3_OP_EQ: z3.fpEQ, z3.Z3_OP_DISTINCT: lambda u, v: z3.Not(z3.fpEQ(u, v)),
         z3.Z3_OP_SLT: z3.fpLT, z3.Z3_OP_SLEQ: z3.fpLEQ, z3.Z3_OP_SGT: z3.fpGT,
         z3.Z3_OP_SGEQ: z3.fpGEQ}[probe]
    return mkb(g(x, y))


def f_cmp_rat(a, b, f):
    x, y = a * b.d, b.n
    lx, ly = lift(x), lift(y)
    w = max(lx[1], ly[1])
    return mkb(f(ext(lx[0], lx[1], w), ext(ly[0], ly[1], w)))


# ---------------------------------------------------------------- reals
class SymReal:
    """An exact real (dead reckoning, coordinates): rounding is outside the
    claim.  Angles carry sine/cosine symbols with s*s + c*c == 1."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


def r_lift(o):
    raise SxUnsupported('reals not loaded')


def r_bin(a, b, op):
    raise SxUnsupported('reals not loaded')


# ---------------------------------------------------------------- bytes
class SymBytes:
    """bytes of concrete length with symbolic octets."""
    __slots__ = ('b',)

    def __init__(self, items=()):
        self.b = items if isinstance(items, list) else list(items)

    def __len__(self):
        return len(self.b)

    def __bool__(self):
        return len(self.b) > 0

    def concrete(self):
        return all(isinstance(x, int) for x in self.b)

    def as_bytes(self):
        if self.concrete():
            return bytes(self.b)
        raise SxUnsupported('concrete bytes wanted')

    def __getitem__(self, i):
        if isinstance(i, slice):
            s = slice(*(None if x is None else x.__index__() for x in (i.start, i.stop, i.step)))
            return type(self)(self.b[s])
        if isinstance(i, SymInt):
            i = i.__index__()
        return byte_sym(self.b[i])

    def __iter__(self):
        return iter([byte_sym(x) for x in self.b])

    def _coerce(self, o):
        if isinstance(o, SymBytes):
            return o.b
        if isinstance(o, (bytes, bytearray, memoryview)):
            return list(bytes(o))
        return None

    def __eq__(self, o):
        c = self._coerce(o)
        if c is None:
            return False
        if len(c) != len(self.b):
            return False
        return ands([x == y if isinstance(x, int) and isinstance(y, int) else mkb(bterm(x) == bterm(y))
                     for x, y in zip(self.b, c)])

    def __ne__(self, o):
        return nots(self.__eq__(o))

    def __hash__(self):
        if self.concrete():
            return hash(bytes(self.b))
        return hash(bytes([x if isinstance(x, int) else eng().concretize(byte_sym(x)) for x in self.b]))

    def __add__(self, o):
        c = self._coerce(o)
        if c is None:
            raise TypeError("can't concat %s to bytes" % type(o).__name__)
        return type(self)(self.b + c)

    def __radd__(self, o):
        c = self._coerce(o)
        if c is None:
            return NotImplemented
        return SymBytes(c + self.b)

    def __mul__(self, n):
        return type(self)(self.b * n.__index__())
    __rmul__ = __mul__

    def __contains__(self, x):
        if isinstance(x, (SymBytes, bytes)):
            c = self._coerce(x)
            return bool(ors([SymBytes(self.b[i:i + len(c)]) == SymBytes(c)
                             for i in range(len(self.b) - len(c) + 1)]))
        return bool(ors([byte_sym(y) == x for y in self.b]))

    def __lt__(self, o):
        raise SxUnsupported('bytes ordering')

    def ljust(self, n, f=b'\0'):
        k = n.__index__() - len(self.b)
        return type(self)(self.b + (self._coerce(f) * k if k > 0 else []))

    def rjust(self, n, f=b'\0'):
        k = n.__index__() - len(self.b)
        return type(self)((self._coerce(f) * k if k > 0 else []) + self.b)

    def zfill(self, n):
        raise SxUnsupported('zfill')

    def _strip(self, chars, left, right):
        cs = list(b' \t\n\r\x0b\f') if chars is None else self._coerce(chars)
        b = list(self.b)

        def isin(x):
            return bool(ors([byte_sym(x) == c if not isinstance(c, z3.ExprRef) else byte_sym(x) == byte_sym(c)
                             for c in cs]))
        if right:
            while b and isin(b[-1]):
                b.pop()
        if left:
            while b and isin(b[0]):
                b.pop(0)
        return type(self)(b)

    def rstrip(self, c=None): return self._strip(c, False, True)
    def lstrip(self, c=None): return self._strip(c, True, False)
    def strip(self, c=None): return self._strip(c, True, True)

    def find(self, sub, start=0, end=None):
        c = [sub] if isinstance(sub, (int, SymInt)) else self._coerce(sub)
        end = len(self.b) if end is None else min(end, len(self.b))
        for i in range(start, end - len(c) + 1):
            if bool(ands([byte_sym(x) == (byte_sym(y) if isinstance(y, z3.ExprRef) else y)
                          for x, y in zip(self.b[i:i + len(c)], c)])):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError('subsection not found')
        return i

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise SxUnsupported('split')
        out, cur = [], self
        while maxsplit != 0:
            i = cur.find(sep)
            if i < 0:
                break
            out.append(cur[:i])
            cur = cur[i + len(sep):]
            maxsplit -= 1
        return out + [cur]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, SymBytes([]), SymBytes([])
        return self[:i], SymBytes(self._coerce(sep)), self[i + len(sep):]

    def startswith(self, p):
        c = self._coerce(p)
        return len(c) <= len(self.b) and (self[:len(c)] == SymBytes(c))

    def endswith(self, p):
        c = self._coerce(p)
        return len(c) <= len(self.b) and (len(c) == 0 or (self[-len(c):] == SymBytes(c)))

    def replace(self, a, b, count=-1):
        a, b = self._coerce(a), self._coerce(b)
        if a is None or b is None or not a:
            raise SxUnsupported('bytes.replace')
        out, i = [], 0
        while i < len(self.b):
            if count and i + len(a) <= len(self.b) and self[i:i + len(a)].__eq__(SymBytes(a)):
                out += b
                i += len(a)
                count -= 1
            else:
                out.append(self.b[i])
                i += 1
        return type(self)(out)

    def count(self, x):
        n = 0
        for y in self.b:
            c = byte_sym(y) == x
            n = n + (c.as_int() if isinstance(c, SymBool) else int(c))
        return n

    def join(self, parts):
        out, first = [], True
        for p in parts:
            c = self._coerce(p)
            if c is None:
                raise TypeError('sequence item: expected a bytes-like object')
            if not first:
                out += self.b
            out += c
            first = False
        return SymBytes(out)

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('-', '').replace('_', '')
        out = []
        for x in self.b:
            v = byte_sym(x)
            if enc not in ('latin1', 'iso88591'):
                if not bool(v < 128 if not isinstance(v, int) else v < 128):
                    if self.concrete():
                        return bytes(self.b).decode(encoding, errors)
                    raise SxPathEnd()  # stated cut: non-ASCII text
            out.append(v)
        return SymStr(out)

    def hex(self, *a):
        if self.concrete():
            return bytes(self.b).hex(*a)
        if a:
            raise SxUnsupported('hex() with a separator')
        out = []
        for x in self.b:
            for y in ((x >> 4, x & 15) if isinstance(x, int) else (z3.LShR(x, 4), x & 15)):
                out.append(ord('%x' % y) if isinstance(y, int) else
                           byte_sym(z3.simplify(z3.If(z3.ULT(y, 10), y + 48, y + 87))))
        s = SymStr(out)
        s.h = list(self.b)
        return s

    def tobytes(self):
        return SymBytes(list(self.b))

    def copy(self):
        return type(self)(list(self.b))

    def __repr__(self):
        return repr(bytes(self.b)) if self.concrete() else '<symbytes %d>' % len(self.b)

    __str__ = __repr__

    def __format__(self, s): return repr(self)

    def __copy__(self): return type(self)(list(self.b))
    def __deepcopy__(self, memo): return type(self)(list(self.b))

    def __enter__(self): return self
    def __exit__(self, *a): return False
    def release(self): pass


class SymByteArray(SymBytes):
    __slots__ = ()

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            s = slice(*(None if x is None else x.__index__() for x in (i.start, i.stop, i.step)))
            c = self._coerce(v)
            self.b[s] = c if c is not None else [to_byte(x) for x in v]
            return
        self.b[i.__index__()] = to_byte(v)

    def __delitem__(self, i):
        del self.b[i]

    def append(self, v):
        self.b.append(to_byte(v))

    def extend(self, v):
        c = self._coerce(v)
        self.b.extend(c if c is not None else [to_byte(x) for x in v])

    def __iadd__(self, v):
        self.extend(v)
        return self

    def pop(self, i=-1):
        return byte_sym(self.b.pop(i))

    def clear(self):
        self.b.clear()

    def insert(self, i, v):
        self.b.insert(i, to_byte(v))

    def reverse(self):
        self.b.reverse()

    __hash__ = None


def bterm(x):
    return z3.BitVecVal(x, 8) if isinstance(x, int) else x


def to_byte(v, exc=ValueError, msg='bytes must be in range(0, 256)'):
    if isinstance(v, SymBool):
        v = v.as_int()
    if isinstance(v, SymInt):
        ok = ands([v >= 0, v <= 255])
        if not (ok if isinstance(ok, bool) else bool(ok)):
            raise exc(msg)
        return int_bytes(v, 1)[0]
    v = v.__index__() if hasattr(v, '__index__') else None
    if v is None:
        raise TypeError("'%s' object cannot be interpreted as an integer" % type(v).__name__)
    if not 0 <= v <= 255:
        raise exc(msg)
    return v


class SymStr:
    """str of concrete length with symbolic code points (0..0x10FFFF)."""
    __slots__ = ('c', 'h')

    def __init__(self, cps):
        self.c = list(cps)
        self.h = None       # the octets whose hexadecimal text this is

    def __len__(self): return len(self.c)
    def __bool__(self): return bool(self.c)

    def concrete(self):
        return all(isinstance(x, int) for x in self.c)

    def __getitem__(self, i):
        if isinstance(i, slice):
            s = slice(*(None if x is None else x.__index__() for x in (i.start, i.stop, i.step)))
            return SymStr(self.c[s])
        return SymStr([self.c[i.__index__()]])

    def __iter__(self):
        return iter([SymStr([x]) for x in self.c])

    def _co(self, o):
        if isinstance(o, SymStr):
            return o.c
        if isinstance(o, str):
            return [ord(x) for x in o]
        return None

    def __eq__(self, o):
        c = self._co(o)
        if c is None or len(c) != len(self.c):
            return False
        return ands([x == y for x, y in zip(self.c, c)])

    def __ne__(self, o): return nots(self.__eq__(o))

    def __add__(self, o):
        c = self._co(o)
        if c is None:
            raise TypeError('can only concatenate str')
        return SymStr(self.c + c)

    def __radd__(self, o):
        c = self._co(o)
        return NotImplemented if c is None else SymStr(c + self.c)

    def __mul__(self, n): return SymStr(self.c * n.__index__())

    def __hash__(self):
        return hash(''.join(chr(x if isinstance(x, int) else eng().concretize(x)) for x in self.c))

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('-', '').replace('_', '')
        out = []
        for x in self.c:
            lim = 256 if enc in ('latin1', 'iso88591') else 128
            if not bool(x < lim):
                if enc == 'ascii' and errors == 'strict' or lim == 256 and errors == 'strict':
                    raise UnicodeEncodeError(encoding, '?', 0, 1, 'ordinal not in range(%d)' % lim)
                if enc == 'utf8' and bool(x < 0x800):
                    for y in (0xC0 + (x >> 6), 0x80 + (x & 0x3F)):
                        out.append(to_byte(y))
                    continue
                raise SxPathEnd()  # stated cut
            out.append(to_byte(x))
        return SymBytes(out)

    def ljust(self, n, f=' '):
        k = n - len(self.c)
        return SymStr(self.c + [ord(f)] * max(k, 0))

    def rjust(self, n, f=' '):
        k = n - len(self.c)
        return SymStr([ord(f)] * max(k, 0) + self.c)

    def _strip(self, chars, l, r):
        cs = [ord(x) for x in (chars if chars is not None else ' \t\n\r\x0b\f')]
        c = list(self.c)
        while r and c and bool(ors([c[-1] == k for k in cs])):
            c.pop()
        while l and c and bool(ors([c[0] == k for k in cs])):
            c.pop(0)
        return SymStr(c)

    def rstrip(self, chars=None): return self._strip(chars, False, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def strip(self, chars=None): return self._strip(chars, True, True)

    def isascii(self): return ands([x < 128 for x in self.c])

    def __contains__(self, o):
        c = self._co(o)
        return bool(ors([ands([x == y for x, y in zip(self.c[i:i + len(c)], c)])
                         for i in range(len(self.c) - len(c) + 1)]))

    def split(self, *a): raise SxUnsupported('str.split')
    def __repr__(self): return '<symstr>'
    __str__ = __repr__
    def __format__(self, s): return '<symstr>'


SYMS = (SymInt, SymBool, SymFloat, SymReal, SymBytes, SymStr, SymRat)


def is_sym(x):
    return isinstance(x, SYMS)


class SymListEnd(BaseException):
    """the code under test went further into a list of symbolic length than is explored"""


class SymList(list):
    """n references to one element, n symbolic.  Iteration follows the first
    `depth` elements and then ends the exploration of the path."""

    def __init__(self, n, elem, depth=1):
        super().__init__()
        self.n, self.elem, self.depth = n, elem, depth

    def __iter__(self):
        i = 0
        while bool(self.n > i):
            if i >= self.depth:
                raise SymListEnd()
            yield self.elem
            i += 1

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise SymListEnd()
        if not bool(self.n > i):
            raise IndexError('list index out of range')
        if bool(i >= self.depth):
            raise SymListEnd()
        return self.elem

    def __bool__(self):
        return bool(self.n > 0)

    def _end(self, *a, **k):
        raise SymListEnd()

    __len__ = __eq__ = __add__ = __radd__ = __mul__ = __contains__ = __reversed__ = append = extend = insert = pop = \
        remove = sort = copy = index = count = __setitem__ = __delitem__ = __iadd__ = _end
    __hash__ = None
