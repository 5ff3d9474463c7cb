"""Exact reals: rational functions over symbolic variables.

A value is num/den with num a polynomial (exact rational coefficients) and den
a product of polynomials.  sin/cos of an angle are a pair of variables with
c*c == 1 - s*s, a square root r of q has r*r == q, and those relations are
used both to normalise polynomials and as constraints for the solver (z3,
nonlinear real arithmetic).  Rounding is outside the encoding."""
import math
import random
import time
from fractions import Fraction
import numpy
import z3
from . import core
from .core import (SymReal, SymBool, SymInt, mkb, boolterm, eng, SxUnsupported, SxInconclusive, SxPathEnd, Engine)

PI = Fraction(math.pi)
ENOUGH = 3                       # violations a task reports before it stops looking
SCALE = 1e-13                    # and terms this small next to the largest one only stem from rounded constants
REL = Fraction(1, 10 ** 11)      # constants this close (relatively) are the same constant
ONE = {(): Fraction(1)}


# ---------------------------------------------------------------- polynomials
def pconst(c):
    c = Fraction(c)
    return {(): c} if c else {}


def pvar(i):
    return {((i, 1),): Fraction(1)}


def padd(a, b, k=1):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + c * k
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def pmul_raw(a, b):
    if len(a) > len(b):
        a, b = b, a
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = out.get(k, 0) + c * d
            if v:
                out[k] = v
            else:
                out.pop(k, None)
    return out


def preduce(p):
    """normal form modulo the relations  var^2 -> polynomial"""
    rules = eng().rs.rules
    if not rules:
        return p
    while True:
        hit = None
        for m in p:
            for v, e in m:
                if e >= 2 and v in rules:
                    hit = v if hit is None else max(hit, v)
        if hit is None:
            return p
        q = rules[hit]
        pw = [ONE]
        out = {}
        for m, c in p.items():
            e = dict(m).get(hit, 0)
            if e < 2:
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
                continue
            h, odd = divmod(e, 2)
            while len(pw) <= h:
                pw.append(pmul_raw(pw[-1], q))
            rest = tuple((v, x) for v, x in m if v != hit)
            if odd:
                rest = mmul(rest, ((hit, 1),))
            for n, d in pw[h].items():
                k = mmul(rest, n)
                v = out.get(k, 0) + c * d
                if v:
                    out[k] = v
                else:
                    out.pop(k, None)
        p = out
        if len(p) > 60000:
            raise SxInconclusive('polynomial too large')


def pmul(a, b):
    return preduce(pmul_raw(a, b))


def pis_const(p):
    return not p or (len(p) == 1 and () in p)


def pcval(p):
    return p.get((), Fraction(0))


def pkey(p):
    return frozenset(p.items())


def pvars(p):
    return set(v for m in p for v, _ in m)


# ---------------------------------------------------------------- variables
class Var:
    __slots__ = ('i', 'name', 'kind', 'z', 'cons', 'info', 'defn', 'lo', 'hi', 'wt')

    def __init__(self, i, name, kind, info=None):
        self.i, self.name, self.kind, self.info = i, name, kind, info
        self.z = z3.Real('%s!%d' % (name, i))
        self.cons = []
        self.defn = None          # callable giving an equal R over earlier variables
        self.lo = self.hi = self.wt = None


class RState:
    """per-path tables"""
    def __init__(self):
        self.vars = []
        self.rules = {}
        self.atoms = {}       # angle monomial -> list of (unit, sin R, cos R)
        self.roots = {}
        self.angles = {}      # canonical key of atan2/... -> R
        self.unfolded = {}
        self.compiled = {}
        self.polys = {}       # id of an order atom -> (atom, p), the atom meaning p >= 0 or p > 0
        self.rootlist = []    # (radicand, root)
        self._sample = None

    def sample(self):
        if self._sample is None:
            self._sample = Sample(None, {})
        return self._sample

    def new(self, name, kind, info=None):
        v = Var(len(self.vars), name, kind, info)
        self.vars.append(v)
        return v


def pair(name, info):
    rs = eng().rs
    s = rs.new('s_' + name, 'sin', info)
    c = rs.new('c_' + name, 'cos', info)
    s.lo = c.lo = -1
    s.hi = c.hi = 1
    rs.rules[c.i] = {(): Fraction(1), ((s.i, 2),): Fraction(-1)}
    k = s.z * s.z + c.z * c.z == 1
    s.cons.append(k)
    c.cons.append(k)
    return R(pvar(s.i)), R(pvar(c.i)), s, c


# ---------------------------------------------------------------- values
class R(SymReal):
    __slots__ = ('n', 'd')      # numerator polynomial; denominator: tuple of (poly, key, exponent)
    __array_priority__ = -1

    def __init__(self, n, d=()):
        self.n, self.d = n, d

    # -- helpers
    def dpoly(self):
        p = ONE
        for q, _, e in self.d:
            for _ in range(e):
                p = pmul(p, q)
        return p

    def const(self):
        if not self.n:
            return Fraction(0)
        return pcval(self.n) if not self.d and pis_const(self.n) else None

    def key(self):
        return (pkey(self.n), frozenset((k, e) for _, k, e in self.d))

    def z(self):
        t = zpoly(self.n)
        for q, _, e in self.d:
            for _ in range(e):
                t = t / zpoly(q)
        return t

    def num_signed(self):
        """a polynomial with the sign of self (denominators are nonzero on this path)"""
        p = self.n
        rs = eng().rs
        for q, _, e in self.d:
            if e % 2 == 0:
                continue
            if len(q) == 1:
                (m, c), = q.items()
                if c > 0 and all(rs.vars[v].lo is not None and rs.vars[v].lo >= 0 for v, x in m if x % 2):
                    continue
            p = pmul(p, q)
        return p

    # -- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return radd(self, o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return radd(self, o, -1)

    def __rsub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return radd(o, self, -1)

    def __mul__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return rmul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return rdiv(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return rdiv(o, self)

    def __floordiv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return (self / o).__floor__()

    def __rfloordiv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return (o / self).__floor__()

    def __mod__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return self - o * (self / o).__floor__()

    def __rmod__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o % self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __pow__(self, k, mod=None):
        if isinstance(k, R):
            k = k.const()
            if k is None:
                raise SxUnsupported('symbolic exponent')
        k = Fraction(k) if isinstance(k, (int, float, Fraction, numpy.number)) else k
        if k == Fraction(1, 2):
            return sqrt(self)
        if k == Fraction(-1, 2):
            return 1 / sqrt(self)
        if k.denominator != 1 and (2 * k).denominator == 1:
            return self ** (k - Fraction(1, 2)) * sqrt(self)
        if k.denominator != 1 or abs(k) > 40:
            raise SxUnsupported('power %s' % k)
        k = int(k)
        out = R(ONE)
        for _ in range(abs(k)):
            out = out * self
        return out if k >= 0 else 1 / out

    def __rpow__(self, o):
        raise SxUnsupported('symbolic exponent')

    def __neg__(self):
        return R({m: -c for m, c in self.n.items()}, self.d)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if bool(self >= 0) else -self
    fabs = __abs__

    # -- comparisons
    def _cmp(self, o, f):
        o = lift(o)
        if o is None:
            return NotImplemented
        p = (self - o).num_signed()
        if pis_const(p):
            return bool(f(pcval(p), 0))
        # scale the leading coefficient to keep numbers readable
        r = mkb(f(zpoly(p), z3.RealVal(0)))
        if isinstance(r, SymBool) and f(1, 0) != f(-1, 0):
            neg = z3.is_not(r.t)
            t = r.t.arg(0) if neg else r.t
            eng().rs.polys[t.get_id()] = (t, p if bool(f(1, 0)) != neg else {m: -c for m, c in p.items()})
        return r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        c = self.const()
        if c is None:
            raise SxUnsupported('hash of a symbolic real')
        return hash(c)

    def __bool__(self):
        c = self.const()
        if c is not None:
            return c != 0
        r = self != 0
        return bool(r)

    # -- conversions
    def __float__(self):
        raise SxUnsupported('float() of a symbolic real by native code')

    def __int__(self):
        return self.__trunc__()

    def __floor__(self):
        c = self.const()
        if c is not None:
            return math.floor(c)
        return pick_floor(self)

    def __ceil__(self):
        return -((-self).__floor__())

    def __trunc__(self):
        c = self.const()
        if c is not None:
            return math.trunc(c)
        return self.__floor__() if bool(self >= 0) else -((-self).__floor__())

    def floor(self):
        return self.__floor__()

    def ceil(self):
        return self.__ceil__()

    def __round__(self, n=None):
        c = self.const()
        if c is not None:
            return round(float(c), n) if n is not None else round(float(c))
        if n is None:
            return (self + Fraction(1, 2)).__floor__()
        key = ('round', n, self.key())
        if key in eng().rs.angles:
            return eng().rs.angles[key]
        v = eng().rs.new('round', 'fresh')
        y = R(pvar(v.i))
        eng().rs.angles[key] = y
        h = Fraction(1, 2) / Fraction(10) ** n
        v.info = ('round', self, n)
        d = (y - self)
        v.cons += [zle(d, h), zle(-d, h)]
        return y

    def rint(self):
        return self.__round__()

    def __repr__(self):
        return '<real %d terms%s>' % (len(self.n), ' /' if self.d else '')

    def __format__(self, spec):
        return '<real>'
    __str__ = __repr__

    def is_integer(self):
        raise SxUnsupported('is_integer of a symbolic real')

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def conjugate(self):
        return self

    # numpy calls these on elements of object arrays
    def sin(self):
        return sincos(self)[0]

    def cos(self):
        return sincos(self)[1]

    def tan(self):
        return tan(self)

    def sqrt(self):
        return sqrt(self)

    def square(self):
        return self * self

    def arctan(self):
        return atan(self)

    def arctan2(self, o):
        return atan2(self, lift(o))

    def arcsin(self):
        return asin(self)

    def arccos(self):
        return acos(self)

    def hypot(self, o):
        return sqrt(self * self + o * o)

    def radians(self):
        return self * PI / 180
    deg2rad = radians

    def degrees(self):
        return self * 180 / PI
    rad2deg = degrees

    def isfinite(self):
        return True

    def isnan(self):
        return False

    def sign(self):
        return 1.0 if bool(self > 0) else (-1.0 if bool(self < 0) else 0.0)


def lift(o):
    if isinstance(o, R):
        return o
    if isinstance(o, bool):
        o = int(o)
    if isinstance(o, (int, Fraction)):
        return R(pconst(o))
    if isinstance(o, (float, numpy.floating)):
        o = float(o)
        if not math.isfinite(o):
            raise SxUnsupported('non-finite constant in real arithmetic')
        return R(pconst(Fraction(o)))
    if isinstance(o, numpy.integer):
        return R(pconst(int(o)))
    if isinstance(o, numpy.ndarray) and o.ndim == 0:
        return lift(o.item())
    if isinstance(o, SymInt):
        raise SxUnsupported('integer in real arithmetic')
    return None


def radd(a, b, k):
    if not b.n:
        return a
    if not a.n:
        return b if k == 1 else -b
    if not a.d and not b.d:
        return R(padd(a.n, b.n, k))
    # least common multiple of the factored denominators
    fa = {key: (q, e) for q, key, e in a.d}
    fb = {key: (q, e) for q, key, e in b.d}
    na, nb = a.n, b.n
    out = []
    for key in list(fa) + [x for x in fb if x not in fa]:
        q = (fa.get(key) or fb.get(key))[0]
        ea = fa.get(key, (q, 0))[1]
        eb = fb.get(key, (q, 0))[1]
        e = max(ea, eb)
        for _ in range(e - ea):
            na = pmul(na, q)
        for _ in range(e - eb):
            nb = pmul(nb, q)
        out.append((q, key, e))
    n = padd(na, nb, k)
    return norm(n, tuple(out))


def norm(n, d):
    if not n:
        return R({})
    # cancel single-variable monomial factors
    if d:
        out = []
        for q, key, e in d:
            if len(q) == 1:
                (m, c), = q.items()
                if len(m) == 1:
                    v = m[0][0]
                    while e and all(any(w == v for w, _ in mm) for mm in n):
                        n2 = {}
                        for mm, cc in n.items():
                            dd = dict(mm)
                            dd[v] -= 1
                            if not dd[v]:
                                del dd[v]
                            n2[tuple(sorted(dd.items()))] = cc
                        n = n2
                        e -= 1
            if e:
                out.append((q, key, e))
        d = tuple(out)
    return R(n, d)


def rmul(a, b):
    n = pmul(a.n, b.n)
    if not a.d and not b.d:
        return R(n)
    f = {}
    for q, key, e in a.d + b.d:
        f[key] = (q, f[key][1] + e) if key in f else (q, e)
    # variables with a square rule: v^2 in the denominator is the rule's polynomial
    out, more = [], []
    rules = eng().rs.rules
    for key, (q, e) in f.items():
        if e >= 2 and len(q) == 1:
            (m, c), = q.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in rules and len(rules[m[0][0]]) <= 4:
                pass
        out.append((q, key, e))
    # a factor of one numerator may be the other's denominator
    n2 = R(n, tuple(out))
    return norm(n2.n, n2.d)


def rinv(a):
    """1/a; a is known nonzero on this path"""
    num = ONE
    for q, _, e in a.d:
        for _ in range(e):
            num = pmul(num, q)
    n = a.n
    if pis_const(n):
        c = pcval(n)
        return R({m: x / c for m, x in num.items()})
    # monomial content
    den = []
    common = None
    for m in n:
        d = dict(m)
        common = d if common is None else {v: min(e, d.get(v, 0)) for v, e in common.items()}
    common = {v: e for v, e in common.items() if e}
    if common:
        n2 = {}
        for m, c in n.items():
            d = dict(m)
            for v, e in common.items():
                d[v] -= e
                if not d[v]:
                    del d[v]
            n2[tuple(sorted(d.items()))] = c
        n = n2
    lead = n[min(n)]
    if lead != 1:
        n = {m: c / lead for m, c in n.items()}
        num = {m: c / lead for m, c in num.items()}
    for v, e in common.items():
        q = pvar(v)
        den.append((q, pkey(q), e))
    if not pis_const(n):
        den.append((n, pkey(n), 1))
    return norm(num, tuple(den))


def rdiv(a, b):
    c = b.const()
    if c is not None:
        if c == 0:
            raise ZeroDivisionError('float division by zero')
        return R({m: x / c for m, x in a.n.items()}, a.d)
    e = eng()
    if e.nonzero:
        e.assume_quiet(zpoly(b.n) != 0)
    elif e.branch(zpoly(b.n) == 0):
        raise ZeroDivisionError('float division by zero')
    return rmul(a, rinv(b))


# ---------------------------------------------------------------- z3
def zpoly(p):
    rs = eng().rs
    if not p:
        return z3.RealVal(0)
    ts = []
    for m, c in p.items():
        t = None
        for v, e in m:
            for _ in range(e):
                t = rs.vars[v].z if t is None else t * rs.vars[v].z
        k = z3.RealVal(str(c))
        ts.append(k if t is None else (t if c == 1 else k * t))
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


def zle(a, b):
    c = lift(a) <= lift(b)
    return boolterm(c) if not isinstance(c, bool) else z3.BoolVal(c)


# ---------------------------------------------------------------- functions
def _sq(x):
    r = math.isqrt(x)
    return r if r * r == x else None


def unfold_const(w):
    """the constant a value is once definitions are unfolded, or None"""
    rs = eng().rs
    k = w.key()
    if k in rs.unfolded:
        return rs.unfolded[k]
    c = None
    for _ in range(12):
        if len(w.n) > 3000:
            break
        w = expand(w)
        if w is None:
            break
        w = R(significant(w.n, mag(w.n)), w.d)
        c = w.const()
        if c is not None:
            break
        n = cancel(w)
        if n is not None:
            c = n
            break
    rs.unfolded[k] = c
    return c


def cancel(w):
    """the constant n/d when the numerator is a multiple of the denominator"""
    if not w.d or not w.n:
        return None
    d = w.dpoly()
    m = next(iter(d))
    if m not in w.n:
        return None
    k = w.n[m] / d[m]
    rest = padd(w.n, d, -k)
    return None if different(rest, w.n, {n: k * c for n, c in d.items()}) else k


def clean(v):
    """terms that only stem from rounded constants dropped"""
    n = significant(v.n, mag(v.n))
    return v if len(n) == len(v.n) else R(n, v.d)


def sqrt(v):
    v = clean(v)
    c = v.const()
    if c is not None:
        if c < 0:
            raise ValueError('math domain error')
        a, b = _sq(c.numerator), _sq(c.denominator)
        if a is not None and b is not None:
            return R(pconst(Fraction(a, b)))
        return R(pconst(Fraction(math.sqrt(c))))
    k = v.key()
    rs = eng().rs
    if k in rs.roots:
        return rs.roots[k]
    c = unfold_const(v)
    if c is not None and c > 0:
        r = sqrt(R(pconst(c)))
        rs.roots[k] = r
        return r
    if not v.d and len(v.n) == 1:
        # a square: the absolute value
        (m, c), = v.n.items()
        a, b = _sq(c.numerator), _sq(c.denominator)
        if c > 0 and a is not None and b is not None and all(e % 2 == 0 for _, e in m):
            r = R({tuple((i, e // 2) for i, e in m): Fraction(a, b)})
            rs.roots[k] = r = abs(r)
            return r
    r = same_root(v)
    if r is not None:
        rs.roots[k] = r
        return r
    if not pnonneg(v):
        if eng().nonzero:
            eng().assume_quiet(zpoly(v.num_signed()) >= 0)
        elif bool(v < 0):
            raise ValueError('math domain error')
    if v.d:
        # sqrt(n/d) = sqrt(n*d)/|d|, with even powers of d's factors taken out
        odd, out = ONE, R(ONE)
        for q, key, e in v.d:
            f = R(q)
            for _ in range((e + 1) // 2):
                out = out * f
            if e % 2:
                odd = pmul(odd, q)
        s = sqrt(R(pmul(v.n, odd)))
        if not bool(out > 0):
            out = -out
        r = rmul(s, rinv(out))
    else:
        # take out a positive constant so that equal roots are recognised
        x = rs.new('r', 'sqrt', v)
        x.lo = 0
        p = v.n
        rs.rules[x.i] = p
        r = R(pvar(x.i))
        x.cons += [x.z >= 0, x.z * x.z == zpoly(p)]
    rs.roots[k] = r
    rs.rootlist.append((v, r))
    return r


def same_root(v):
    """the root of an equal radicand met before (a numerical comparison picks the candidate, the normal forms decide)"""
    rs = eng().rs
    try:
        x = rs.sample().val(v)
        for w, r in rs.rootlist:
            y = rs.sample().val(w)
            if abs(x - y) <= 1e-9 * max(abs(x), abs(y)) and prove_zero(v, w, 0, 4, 3000)[0]:
                return r
    except (KeyError, ZeroDivisionError, OverflowError, ValueError):
        pass
    return None


def pnonneg(v):
    """v is a sum of squares with positive coefficients (cheap sufficient test)"""
    if v.d:
        return False
    for m, c in v.n.items():
        if c < 0 or any(e % 2 for _, e in m):
            return False
    return True


def _near_int(x):
    n = round(x)
    return n if n and abs(x - n) <= REL * abs(n) else None


def multiple(n, s, c):
    """sin and cos of n times an angle"""
    neg = n < 0
    n = abs(n)
    S, C = R({}), R(ONE)
    for _ in range(n):
        S, C = S * c + C * s, C * c - S * s
    return (-S if neg else S), C


def const_trig(x):
    q = x / (PI / 2)
    n = round(q)
    if abs(q - n) < Fraction(1, 10 ** 13) * max(1, abs(n)):
        return [(0, 1), (1, 0), (0, -1), (-1, 0)][n % 4]     # a multiple of a right angle is meant
    return math.sin(x), math.cos(x)


def atom(mono, coef):
    rs = eng().rs
    if len(mono) == 1 and mono[0][1] == 1:
        v = rs.vars[mono[0][0]]
        if v.kind == 'angle' and mono not in rs.atoms:
            rs.atoms[mono] = [(Fraction(1), v.info[0], v.info[1], None)]
    lst = rs.atoms.setdefault(mono, [])
    for unit, s, c, _ in lst:
        n = _near_int(coef / unit)
        if n is not None and abs(n) <= 16:
            return multiple(n, s, c)
    s, c, sv, cv = pair('ang', (mono, coef))
    for unit, s2, c2, old in lst:
        n = _near_int(unit / coef)
        if n is not None and abs(n) <= 16 and old is not None:
            # the earlier pair is a multiple of this finer one
            S, C = multiple(n, s, c)
            old[0].defn, old[1].defn = S, C
            for o, w in zip(old, (S, C)):
                k = o.z == w.z()
                sv.cons.append(k)
                o.cons.append(k)
    lst.append((coef, s, c, (sv, cv)))
    return s, c


def sincos(a):
    c = a.const()
    if c is not None:
        s, k = const_trig(c)
        return R(pconst(Fraction(s))), R(pconst(Fraction(k)))
    if a.d:
        key = ('opaque',) + a.key()
        rs = eng().rs
        if key not in rs.angles:
            s, c2, _, _ = pair('opq', None)
            rs.angles[key] = (s, c2)
        return rs.angles[key]
    S, C = None, None
    for m in sorted(a.n):
        k = a.n[m]
        s, c = const_trig(k) if m == () else atom(m, k)
        s, c = lift(s), lift(c)
        if S is None:
            S, C = s, c
        else:
            S, C = S * c + C * s, C * c - S * s
    return S, C


def tan(a):
    s, c = sincos(a)
    if c.const() == 0 or (c.const() is None and not eng().nonzero and eng().branch(zpoly(c.n) == 0)):
        # in floating point the tangent of a right angle is a huge number: any value
        v = eng().rs.new('tan', 'fresh')
        return R(pvar(v.i))
    if c.const() is None and eng().nonzero:
        eng().assume_quiet(zpoly(c.n) != 0)
    return rmul(s, rinv(c))


def angle(lo, hi, s, c, key, cons, defs=None):
    """an angle in [lo, hi] with the given sine and cosine"""
    rs = eng().rs
    t = rs.new('t', 'angle', (s, c))
    t.lo, t.hi = lo, hi
    t.cons += [t.z >= z3.RealVal(str(lo)), t.z <= z3.RealVal(str(hi))] + cons(t.z)
    r = R(pvar(t.i))
    rs.angles[key] = r
    return r


def zsame(a, b):
    d = (a - b).n
    return zpoly(d) == 0


def away(x):
    """the value is known not to be zero (an inexpensive question about one coordinate)"""
    if len(x.n) > 4:
        return False
    return x.const() is None and eng().solve([zpoly(x.n) == 0], eng().branch_ms)[0] == z3.unsat


def atan2(y, x):
    y, x = lift(y), lift(x)
    cy, cx = y.const(), x.const()
    if cy is not None and cx is not None:
        return R(pconst(Fraction(math.atan2(cy, cx))))
    rs = eng().rs
    if cy is None and y.n[min(y.n)] < 0 and not x.d and all(
            c > 0 and all(k % 2 == 0 or rs.vars[v].lo is not None and rs.vars[v].lo >= 0 for v, k in m)
            for m, c in x.n.items()):
        return -atan2(-y, x)
    key = ('atan2', y.key(), x.key())
    if key in rs.angles:
        return rs.angles[key]
    e = eng()
    q = clean(x * x + y * y)
    if q.const() is None and unfold_const(q) is None and not away(x) and e.branch(zpoly(q.n) == 0):
        r = R({})
        rs.angles[key] = r
        return r
    r = sqrt(q)
    s, c, sv, cv = pair('at2', None)
    sv.defn, cv.defn = rmul(y, rinv(r)), rmul(x, rinv(r))
    k = [zsame(s * r, y), zsame(c * r, x)]
    sv.cons += k
    cv.cons += k
    sv.info = cv.info = ('root', r)
    ys, xs = zpoly(y.num_signed()), zpoly(x.num_signed())
    return angle(-PI, PI, s, c, key, lambda t: [
        (t > 0) == z3.Or(ys > 0, z3.And(ys == 0, xs < 0)), (t < 0) == (ys < 0),
        z3.Implies(xs >= 0, z3.And(t <= z3.RealVal(str(PI / 2)), t >= z3.RealVal(str(-PI / 2)))),
        z3.Implies(xs < 0, z3.Or(t > z3.RealVal(str(PI / 2)), t < z3.RealVal(str(-PI / 2)))),
        z3.Implies(xs > 0, z3.And(t < z3.RealVal(str(PI / 2)), t > z3.RealVal(str(-PI / 2))))])


def atan(v):
    v = lift(v)
    if v.const() is not None:
        return R(pconst(Fraction(math.atan(v.const()))))
    if v.n[min(v.n)] < 0:
        return -atan(-v)
    key = ('atan', v.key())
    rs = eng().rs
    if key in rs.angles:
        return rs.angles[key]
    s, c, sv, cv = pair('atn', None)
    cv.lo = 0
    cv.cons.append(cv.z > 0)
    k = zsame(s, v * c)
    sv.cons.append(k)
    cv.cons.append(k)
    sv.defn = lambda: v * c
    cv.defn = lambda: rdiv(R(ONE), sqrt(1 + v * v))
    vs = zpoly(v.num_signed())
    return angle(-PI / 2, PI / 2, s, c, key, lambda t: [(t > 0) == (vs > 0), (t < 0) == (vs < 0)])


def asin(v):
    v = lift(v)
    if v.const() is not None:
        return R(pconst(Fraction(math.asin(v.const()))))
    if v.n[min(v.n)] < 0:
        return -asin(-v)
    key = ('asin', v.key())
    rs = eng().rs
    if key in rs.angles:
        return rs.angles[key]
    if bool(v > 1) or bool(v < -1):
        raise ValueError('math domain error')
    c = sqrt(1 - v * v)
    vs = zpoly(v.num_signed())
    return angle(-PI / 2, PI / 2, v, c, key, lambda t: [(t > 0) == (vs > 0), (t < 0) == (vs < 0)])


def acos(v):
    v = lift(v)
    if v.const() is not None:
        return R(pconst(Fraction(math.acos(v.const()))))
    key = ('acos', v.key())
    rs = eng().rs
    if key in rs.angles:
        return rs.angles[key]
    if bool(v > 1) or bool(v < -1):
        raise ValueError('math domain error')
    s = sqrt(1 - v * v)
    vs = zpoly(v.num_signed())
    return angle(0, PI, s, v, key, lambda t: [(t < z3.RealVal(str(PI / 2))) == (vs > 0)])


def pick_floor(x):
    """fork over the integer parts of a bounded value"""
    e = eng()
    for _ in range(2000):
        i = len(e.trace)
        if i < len(e.prefix):
            _, k, yes = e.prefix[i]
            e.trace.append(e.prefix[i])
        else:
            m = e.some_model()
            k = math.floor(m.approx(x))
            cond = z3.And(zle(k, x), z3.Not(zle(k + 1, x)))
            if e.feasible(z3.Not(cond)):
                e.pending.append(e.trace + [('v', k, False)])
            yes = True
            e.trace.append(('v', k, True))
        cond = z3.And(zle(k, x), z3.Not(zle(k + 1, x)))
        e.add(cond if yes else z3.Not(cond))
        if yes:
            return k
    raise SxUnsupported('unbounded integer part')


# ---------------------------------------------------------------- math module
def r_math(name, *a, **k):
    if name in ('fsum', 'prod', 'dist', 'sumprod'):
        out = R(ONE) if name == 'prod' else R({})
        for t in zip(*a[:2]) if name in ('dist', 'sumprod') else a[0]:
            if name == 'prod':
                out = out * t
            elif name == 'fsum':
                out = out + t
            elif name == 'sumprod':
                out = out + lift(t[0]) * t[1]
            else:
                out = out + (lift(t[0]) - t[1]) * (lift(t[0]) - t[1])
        if name == 'prod' and k.get('start') is not None:
            out = out * k['start']
        return sqrt(out) if name == 'dist' else out
    x = lift(a[0])
    if name == 'isclose':
        y = lift(a[1])
        m = max(abs(x), abs(y)) * k.get('rel_tol', 1e-9)
        return abs(x - y) <= max(m, lift(k.get('abs_tol', 0.0)))
    if name in ('sin', 'cos'):
        return sincos(x)[name == 'cos']
    if name == 'tan':
        return tan(x)
    if name == 'sqrt':
        return sqrt(x)
    if name == 'atan2':
        return atan2(x, lift(a[1]))
    if name in ('atan', 'asin', 'acos'):
        return {'atan': atan, 'asin': asin, 'acos': acos}[name](x)
    if name == 'hypot':
        t = R({})
        for v in a:
            t = t + lift(v) * lift(v)
        return sqrt(t)
    if name == 'fabs':
        return abs(x)
    if name == 'radians':
        return x * PI / 180
    if name == 'degrees':
        return x * 180 / PI
    if name == 'pow':
        return x ** a[1]
    if name == 'copysign':
        y = lift(a[1])
        return abs(x) if bool(y >= 0) else -abs(x)
    if name == 'fmod':
        y = lift(a[1])
        return x - y * (x / y).__trunc__()
    if name in ('isnan', 'isinf'):
        return False
    if name == 'isfinite':
        return True
    raise SxUnsupported('math.%s of a symbolic real' % name)


core.r_math = r_math
core.r_lift = lift
core.r_trig = lambda x: const_trig(Fraction(x))


# ---------------------------------------------------------------- solver
class Model:
    """values of the z3 variables, from one or more component models"""

    def __init__(self, vals, rs):
        self.vals, self.rs = vals, rs

    def var(self, i):
        return self.vals.get(i, 0.0)

    def approx(self, r):
        def pv(p):
            t = 0
            for m, c in p.items():
                x = c
                for v, e in m:
                    x = x * self.var(v) ** e
                t += x
            return t
        d = 1
        for q, _, e in r.d:
            d = d * pv(q) ** e
        return pv(r.n) / d


def zval(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise SxUnsupported('model value ' + str(v))


class SxCut(SxPathEnd):
    """the path has more open decisions than the harness follows"""


class RealEngine(Engine):
    """paths over exact reals: non-incremental nonlinear queries on the part of
    the path condition that shares variables with the question"""

    def __init__(self, timeout_ms=20000, max_paths=20000):
        Engine.__init__(self, timeout_ms, max_paths)
        self.mode = 'real'
        self.branch_ms = 400
        self.nonzero = False
        self.max_branches = None
        self.unknown_branches = 0

    def reset_path(self):
        self.rs = RState()
        self.solver = None
        self.items = []        # (term, vars)
        self.decided = {}
        self.zids = {}
        self.nonzero = False
        self.max_branches = None

    def term_vars(self, t):
        out, seen, todo = set(), set(), [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name()
                out.add(int(n.rpartition('!')[2]))
            else:
                todo.extend(x.children())
        return out

    def add(self, c):
        self.pc.append(c)
        self.items.append((c, self.term_vars(c)))

    def assume_quiet(self, c):
        self.add(c)

    def reach(self, vs):
        """the variables tied to these by the relations that define them"""
        out, todo = set(), list(vs)
        while todo:
            v = todo.pop()
            if v not in out:
                out.add(v)
                for c in self.rs.vars[v].cons:
                    todo.extend(self.term_vars(c))
        return out

    def slice(self, terms, wide=False):
        """constraints connected with the given terms, and the variables involved; wide: also through the relations
        that define the variables of a constraint"""
        items = [(c, self.reach(cv) if wide else cv) for c, cv in self.items]
        vs = set()
        for t in terms:
            vs |= self.term_vars(t)
        out, done = list(terms), set()
        used = set()
        ch = True
        while ch:
            ch = False
            for v in list(vs):
                if v in used:
                    continue
                used.add(v)
                ch = True
                for c in self.rs.vars[v].cons:
                    if c.get_id() not in done:
                        done.add(c.get_id())
                        out.append(c)
                        vs |= self.term_vars(c)
            for i, (c, cv) in enumerate(items):
                if ('i', i) not in done and cv & vs:
                    done.add(('i', i))
                    out.append(c)
                    vs |= cv
                    ch = True
        return out, vs

    def solve(self, terms, ms, want_model=False, wide=False):
        cons, vs = self.slice(terms, wide)
        t0 = time.time()
        r, m = z3.unknown, None
        for mk_ in (lambda: z3.SolverFor('QF_NRA'), z3.Solver)[:1 if ms <= self.branch_ms else 2]:
            s = mk_()
            s.set('timeout', int(ms))
            s.add(*cons)
            r = s.check()
            if r != z3.unknown:
                if r == z3.sat and want_model:
                    m = s.model()
                break
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        return r, m, vs

    def feasible(self, c):
        return self.solve([c], self.branch_ms)[0] != z3.unsat

    def _check(self, *assump):
        """feasibility on a path: unknown counts as feasible (sound: the path is explored)"""
        if not assump:
            return z3.sat
        r = self.solve(list(assump), self.branch_ms)[0]
        if r == z3.unknown:
            if self.beyond_sphere(assump[0]):
                return z3.unsat
            self.unknown_branches += 1
            return z3.sat
        return r

    def order(self, cond):
        """p with cond implying p >= 0, or None"""
        neg = False
        while z3.is_not(cond):
            neg, cond = not neg, cond.arg(0)
        x = self.rs.polys.get(cond.get_id())
        if x is None:
            return None
        return {m: -c for m, c in x[1].items()} if neg else x[1]

    def beyond_sphere(self, cond):
        """cond says p >= c > 0 where the path has q >= b and p*p + q is a constant below c*c + b"""
        p = self.order(cond)
        if p is None or len(p) > 60:
            return False
        c = -pcval(p)
        if c <= 0:
            return False
        p = {m: x for m, x in p.items() if m}
        pp = pmul(p, p)
        for it, _ in self.items:
            q = self.order(it)
            if q is None or len(q) > 400:
                continue
            b = -pcval(q)
            t = padd(pp, {m: x for m, x in q.items() if m})
            k = pcval(t)
            t.pop((), None)
            e = bound(t) if len(t) < 400 else None
            if e is not None and k + e < c * c + b:
                return True
        return False

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = z3.is_not(cond)
        atom_ = cond.arg(0) if neg else cond
        if atom_.get_id() in self.decided:
            return self.decided[atom_.get_id()][1] != neg
        r = self._branch(cond)
        self.decided[atom_.get_id()] = (atom_, r != neg)
        return r

    def _branch(self, cond):
        i = len(self.trace)
        self.stats.branches += 1
        if i < len(self.prefix):
            d = self.prefix[i]
            assert d[0] == 'b', 'non-deterministic re-execution'
            self.trace.append(d)
            self.add(cond if d[1] else z3.Not(cond))
            return d[1]
        can_t = self._check(cond) == z3.sat
        can_f = self._check(z3.Not(cond)) == z3.sat if can_t else True
        both = can_t and can_f
        if both:
            if self.max_branches is not None and sum(1 for d in self.trace if d[0] == 'b' and d[2]) >= \
                    self.max_branches:
                raise SxCut()
            self.pending.append(self.trace + [('b', False, True)])
        self.trace.append(('b', can_t, both))
        self.add(cond if can_t else z3.Not(cond))
        return can_t

    def assume(self, cond):
        if isinstance(cond, SymBool):
            cond = cond.t
        if isinstance(cond, bool):
            if not cond:
                raise SxPathEnd()
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise SxPathEnd()
        if self.solve([cond], self.branch_ms)[0] == z3.unsat:
            raise SxPathEnd()
        self.add(cond)

    def some_model(self, extra=()):
        """a model of the whole path condition, component by component; None when not found"""
        vals, done = {}, set()
        stop = time.time() + 15
        groups = [list(extra)] if extra else []
        groups += [[c] for c, _ in self.items]
        for g in groups:
            tv = set()
            for c in g:
                tv |= self.term_vars(c)
            if tv and tv <= done:
                continue
            if time.time() > stop:
                return None
            r, m, vs = self.solve(g, min(self.timeout_ms, 5000), True)
            if r == z3.unsat:
                raise SxPathEnd()
            if r != z3.sat:
                return None
            for v in vs:
                vals[v] = zval(m.eval(self.rs.vars[v].z, model_completion=True))
            done |= vs
        rest = [v for v in self.rs.vars if v.i not in done and v.cons]
        for v in rest:
            if v.i in done:
                continue
            if time.time() > stop:
                return None
            r, m, vs = self.solve([v.z == v.z] + list(v.cons), min(self.timeout_ms, 5000), True)
            if r != z3.sat:
                return None
            for w in vs:
                vals[w] = zval(m.eval(self.rs.vars[w].z, model_completion=True))
            done |= vs
        return Model(vals, self.rs)

    def model(self):
        return None


# ---------------------------------------------------------------- inputs
def new_input(ctx, name, lo, hi):
    if name in ctx.inputs:
        return ctx.inputs[name][1]
    e = eng()
    v = e.rs.new('in_' + name, 'in', name)
    v.lo, v.hi = Fraction(lo), Fraction(hi)
    r = R(pvar(v.i))
    ctx.inputs[name] = ('r', r)
    v.cons += [v.z >= z3.RealVal(str(v.lo)), v.z <= z3.RealVal(str(v.hi))]
    return r


def pins(ctx):
    """inputs which the path fixes to one value: variable number -> value"""
    e = eng()
    own = {}
    for k, t in ctx.inputs.values():
        if k != 'k':
            (mono, _), = t.n.items()
            own[mono[0][0]] = e.rs.vars[mono[0][0]].z
    out = {}
    for c, _ in e.items:
        if not (z3.is_eq(c) and z3.is_arith(c.arg(0))):
            continue
        vs = e.term_vars(c)
        if len(vs) != 1 or not set(vs) <= set(own):
            continue
        (i,) = vs
        d = c.arg(0) - c.arg(1)
        at = [z3.simplify(z3.substitute(d, (own[i], z3.RealVal(x)))) for x in (0, 1, 2)]
        if all(z3.is_rational_value(x) for x in at):
            a, b, c2 = [x.as_fraction() for x in at]
            if b - a == c2 - b != 0:
                out[i] = float(-a / (b - a))
    return out


def concretize(ctx, m):
    """float inputs for a model: an input only used through sine and cosine gets the angle they determine"""
    e = eng()
    rs = e.rs
    fixed = pins(ctx)
    out = {}
    for n, (k, t) in ctx.inputs.items():
        if k == 'k':
            out[n] = t
            continue
        (mono, _), = t.n.items()
        i = mono[0][0]
        if i in fixed:
            out[n] = fixed[i]
            continue
        v = rs.vars[i]
        x = float(m.var(i))
        for unit, s, c, own in rs.atoms.get(mono, ()):
            if own is None:
                continue
            a = math.atan2(float(m.var(own[0].i)), float(m.var(own[1].i)))
            u = float(unit)
            p = 2 * math.pi / abs(u)
            y = a / u
            # the representative inside the input's range nearest to the model's value
            y += round((x - y) / p) * p
            while y > float(v.hi):
                y -= p
            while y < float(v.lo):
                y += p
            if y <= float(v.hi) + 1e-12:
                x = min(max(y, float(v.lo)), float(v.hi))
            break
        out[n] = x
    return out


class FEval:
    """evaluates values in floating point from concrete inputs, following the definitions of the variables"""

    def __init__(self, ctx, inputs):
        self.rs = eng().rs
        self.inputs = inputs
        self.memo = {}

    def var(self, i):
        if i not in self.memo:
            self.memo[i] = self._var(self.rs.vars[i])
        return self.memo[i]

    def _var(self, v):
        if v.kind == 'in':
            return self.inputs[v.info]
        if v.kind == 'sqrt':
            return math.sqrt(max(0.0, self.val(v.info)))
        if v.kind == 'angle':
            return math.atan2(self.val(v.info[0]), self.val(v.info[1]))
        if v.kind in ('sin', 'cos'):
            if v.info is not None and v.info[0] != 'root':
                mono, coef = v.info
                a = float(coef)
                for w, e in mono:
                    a *= self.var(w) ** e
                return math.sin(a) if v.kind == 'sin' else math.cos(a)
            d = v.defn() if callable(v.defn) else v.defn
            if d is not None:
                return self.val(d)
        if v.kind == 'fresh' and v.info and v.info[0] == 'round':
            return round(self.val(v.info[1]), v.info[2])
        raise KeyError(v.name)

    def poly(self, p):
        t = []
        for m, c in p.items():
            x = float(c)
            for v, e in m:
                x *= self.var(v) ** e
            t.append(x)
        return math.fsum(t)

    def val(self, r):
        if not isinstance(r, R):
            return float(r)
        x = self.poly(r.n)
        for q, _, e in r.d:
            x /= self.poly(q) ** e
        return x


class Sample(FEval):
    """one fixed assignment of the inputs"""

    def _var(self, v):
        if v.kind == 'in':
            lo, hi = float(v.lo), float(v.hi)
            u = random.Random(v.i + 11).uniform(0.2, 0.8)
            return lo + u * (hi - lo) if hi - lo < 20 or hi - lo > 2e4 else max(lo, min(hi, 3 * u))
        return FEval._var(self, v)


# ---------------------------------------------------------------- proving equalities
def defined(r):
    rs = eng().rs
    vs = pvars(r.n)
    for q, _, _ in r.d:
        vs |= pvars(q)
    return [v for v in vs if rs.vars[v].defn is not None]


def expand(r, i=None):
    """substitute the most recently defined variable that has a definition; None when there is none"""
    rs = eng().rs
    if i is None:
        todo = defined(r)
        if not todo:
            return None
        i = max(todo)
    d = rs.vars[i].defn
    d = d() if callable(d) else d
    rs.vars[i].defn = d
    out = subst(r.n, i, d)
    den = R(ONE)
    for q, key, e in r.d:
        f = subst(q, i, d)
        for _ in range(e):
            den = den * f
    if not den.n:
        return None
    return rmul(out, rinv(den))


def subst(p, i, d):
    parts = {}
    for m, c in p.items():
        e = dict(m).get(i, 0)
        rest = tuple((v, x) for v, x in m if v != i)
        parts.setdefault(e, {})[rest] = c
    out = R({})
    pw = R(ONE)
    for e in range(max(parts) + 1 if parts else 0):
        if e in parts:
            out = radd(out, rmul(R(parts[e]), pw), 1)
        pw = rmul(pw, d)
    return out


def weight(i):
    """a scale of the variable: its declared range, or its value at a sample point"""
    v = eng().rs.vars[i]
    if v.wt is None:
        if v.lo is not None and v.hi is not None:
            w = float(max(abs(v.lo), abs(v.hi)))
        elif v.kind == 'sqrt':
            w = math.sqrt(max(1e-300, sum(size(m, c) for m, c in v.info.n.items())))
        else:
            try:
                w = 10 * abs(eng().rs.sample().var(i))
            except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                w = 1.0
        v.wt = w or 1.0
    return v.wt


def size(m, c):
    x = abs(float(c))
    for i, e in m:
        x *= weight(i) ** e
    return x


def mag(p):
    return max((size(m, c) for m, c in p.items()), default=0.0)


def significant(p, top):
    """the terms that are not just rounded constants next to terms of size top"""
    lim = top * SCALE
    return {m: c for m, c in p.items() if size(m, c) > lim}


def bound(p):
    """an upper bound of |p| over the declared ranges, or None"""
    rs = eng().rs
    t = Fraction(0)
    for m, c in p.items():
        x = abs(c)
        for v, e in m:
            w = rs.vars[v]
            if w.lo is None or w.hi is None:
                return None
            x *= max(abs(Fraction(w.lo)), abs(Fraction(w.hi))) ** e
        t += x
    return t


def common(a, b):
    """numerators of a and b over their common denominator"""
    fa = {key: (q, e) for q, key, e in a.d}
    fb = {key: (q, e) for q, key, e in b.d}
    na, nb, den = a.n, b.n, []
    for key in list(fa) + [x for x in fb if x not in fa]:
        q = (fa.get(key) or fb.get(key))[0]
        ea = fa.get(key, (q, 0))[1]
        eb = fb.get(key, (q, 0))[1]
        e = max(ea, eb)
        for _ in range(e - ea):
            na = pmul(na, q)
        for _ in range(e - eb):
            nb = pmul(nb, q)
        den.append((q, key, e))
    return na, nb, tuple(den)


def different(n, na, nb):
    """the terms of n = na - nb that do not just stem from rounded constants"""
    n = {m: c for m, c in n.items() if abs(c) > REL * max(abs(na.get(m, 0)), abs(nb.get(m, 0)))}
    return significant(n, max(mag(na), mag(nb))) if n else n


def residual(a, b, tol):
    """a - b with the terms dropped that only stem from rounded constants (relative 1e-11 of the
    coefficient on either side or 1e-13 of the largest term over the declared ranges; or a polynomial whose range over the declared box stays within tol)"""
    na, nb, den = common(a, b)
    n = padd(na, nb, -1)
    n = different(n, na, nb)
    if n and not den:
        bd = bound(n)
        if bd is not None and bd <= tol:
            n = {}
    return R(n, den)


def prove_zero(a, b, tol, levels=12, size=20000):
    """(proved, residual): normal forms, expanding definitions step by step"""
    first, a0, b0 = None, a, b
    for _ in range(levels):
        d = residual(a, b, tol)
        if first is None:
            first = d
        if not d.n:
            return True, first
        if len(d.n) > size:
            break
        # expand in the residual: equal values stay equal
        e = expand(d)
        if e is None:
            break
        a, b = e, R({})
    # the same with both sides expanded on their own, so that rounded constants are seen next to the whole terms
    a, b = a0, b0
    for _ in range(levels):
        if not a.n or not b.n:
            break
        todo = defined(a) + defined(b)
        if not todo:
            break
        i = max(todo)
        a, b = (expand(x, i) if i in defined(x) else x for x in (a, b))
        if a is None or b is None or len(a.n) + len(b.n) > min(size, 2000):
            break
        if not residual(a, b, tol).n:
            return True, first
    return False, first


def confirm(a, b, tol):
    """the solver repeats the comparison of the two normal forms: no values of the variables make them differ by
    anything but the terms put down to rounded constants"""
    na, nb, den = common(a, b)
    if len(na) + len(nb) > 300:
        return
    d = padd(na, nb, -1)
    e = eng()
    if e.solve([zpoly(na) - zpoly(nb) != zpoly(d)], e.timeout_ms)[0] == z3.sat:
        raise SxInconclusive('normal forms disagree with the solver')


def _src(t):
    """Python source that evaluates a constraint or term in floating point (V: variable number -> value)"""
    if z3.is_rational_value(t):
        return repr(t.numerator_as_long() / t.denominator_as_long())
    k = t.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED:
        return 'V(%d)' % int(t.decl().name().rpartition('!')[2])
    if k == z3.Z3_OP_TRUE:
        return 'True'
    if k == z3.Z3_OP_FALSE:
        return 'False'
    ch = t.children()
    c = [_src(x) for x in ch]
    if k == z3.Z3_OP_AND:
        return '(' + ' and '.join(c) + ')'
    if k == z3.Z3_OP_OR:
        return '(' + ' or '.join(c) + ')'
    if k == z3.Z3_OP_NOT:
        return '(not %s)' % c[0]
    if k == z3.Z3_OP_IMPLIES:
        return '(not %s or %s)' % (c[0], c[1])
    if k == z3.Z3_OP_EQ:
        return ('(bool(%s) == bool(%s))' if z3.is_bool(ch[0]) else 'near(%s, %s)') % (c[0], c[1])
    if k == z3.Z3_OP_DISTINCT:
        return '(not near(%s, %s))' % (c[0], c[1])
    if k == z3.Z3_OP_ADD:
        return 'fsum([' + ', '.join(c) + '])'
    if k == z3.Z3_OP_UMINUS:
        return '(-%s)' % c[0]
    if k == z3.Z3_OP_TO_REAL:
        return c[0]
    op = {z3.Z3_OP_LE: '<=', z3.Z3_OP_LT: '<', z3.Z3_OP_GE: '>=', z3.Z3_OP_GT: '>', z3.Z3_OP_MUL: '*',
          z3.Z3_OP_SUB: '-', z3.Z3_OP_DIV: '/', z3.Z3_OP_POWER: '**'}.get(k)
    if op is None:
        raise SxUnsupported('evaluating ' + t.decl().name())
    return '(' + (' %s ' % op).join(c) + ')'


_ENV = {'fsum': math.fsum, 'near': lambda a, b: abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))}


def fholds(t, fe):
    """a path constraint in floating point"""
    memo = eng().rs.compiled
    k = t.get_id()
    if k not in memo:
        memo[k] = (t, eval('lambda V: ' + _src(t), dict(_ENV)))
    return memo[k][1](fe.var)


def on_path(ctx, inputs):
    """these float inputs follow the current path"""
    fe = FEval(ctx, inputs)
    try:
        return all(fholds(c, fe) for c, _ in eng().items)
    except (KeyError, ZeroDivisionError, OverflowError, ValueError):
        return False


def search(ctx, pred, tries=400, seed=1):
    """float inputs on the current path with pred(FEval); used only to concretise a refutation for replay when the
    solver gives no (usable) model"""
    e = eng()
    rnd = random.Random(seed)
    base = {n: t for n, (k, t) in ctx.inputs.items() if k == 'k'}
    stop = time.time() + max(3, tries / 50)
    fixed = pins(ctx)
    for i in range(tries):
        if time.time() > stop:
            break
        inp = dict(base)
        for n, (k, t) in ctx.inputs.items():
            if k == 'k':
                continue
            (mono, _), = t.n.items()
            v = e.rs.vars[mono[0][0]]
            lo, hi = float(v.lo), float(v.hi)
            w = rnd.random()
            if w < 0.15:
                x = rnd.choice([lo, hi, 0.0, 1.0, -1.0, 0.5])
            elif w < 0.5:
                x = rnd.uniform(-3, 3)
            else:
                x = rnd.uniform(lo, hi)
            inp[n] = fixed.get(v.i, min(max(x, lo), hi))
        if i % 5 == 4:      # a vector that vanishes
            vectors = sorted({n[:-3] for n in inp if n.endswith('[0]')})
            which = rnd.choice(vectors) if vectors else None
            for n, (k, t) in ctx.inputs.items():
                if which and n[:-3] == which and k != 'k':
                    (mono, _), = t.n.items()
                    v = e.rs.vars[mono[0][0]]
                    if v.lo <= 0 <= v.hi and v.i not in fixed:
                        inp[n] = 0.0
        if on_path(ctx, inp):
            try:
                if pred(FEval(ctx, inp)):
                    return inp
            except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                pass
    return None


def guesses(ctx, n=12, seed=3):
    rnd = random.Random(seed)
    out = []
    for _ in range(n):
        inp = {}
        for k, (kind, t) in ctx.inputs.items():
            if kind == 'k':
                inp[k] = t
                continue
            (mono, _), = t.n.items()
            v = eng().rs.vars[mono[0][0]]
            lo, hi = float(v.lo), float(v.hi)
            inp[k] = min(max(rnd.uniform(-3, 3) if rnd.random() < 0.3 else rnd.uniform(lo, hi), lo), hi)
        out.append(inp)
    return out


def check_equal(ctx, a, b, label, tol, rel=1e-9):
    """the assertion a == b (up to rounded constants) on the current path"""
    e = eng()
    a, b = lift(a), lift(b)
    e.stats.checks += 1
    if len(ctx.rec.viol) >= ENOUGH:
        return
    ok, d = prove_zero(a, b, tol)
    if ok:
        e.stats.checks_trivial += 1
        confirm(a, b, tol)
        return
    # a refutation, preferably with a wide margin and small inputs
    n = zpoly(d.n)
    den = zpoly(d.dpoly())
    far = lambda FE: abs(FE.val(a) - FE.val(b)) > 1e-3 * max(1.0, tol) * max(1.0, abs(FE.val(a)) * 1e-3)

    def apart(FE):
        x, y = FE.val(a), FE.val(b)
        return abs(x - y) > 4 * (tol + rel * max(abs(x), abs(y)))
    inp = search(ctx, far, 40, 5) or search(ctx, apart, 40, 7)
    if inp is not None:
        ctx.rec.violation(label, inp)
        return
    ms = e.timeout_ms if search(ctx, lambda fe: True, 40, 6) is not None else min(e.timeout_ms, 5000)
    last = None
    # a difference within the tolerance is none
    for margin in sorted({Fraction(1), Fraction(1, 1000), Fraction(tol)}, reverse=True):
        k = z3.RealVal(str(margin))
        q = [n * n > k * k * den * den, den != 0]
        r, m, _ = e.solve(q, ms, True)
        if r == z3.sat and e.solve(q, ms, wide=True)[0] == z3.unsat:
            r = z3.unsat
        last = r
        if r == z3.sat:
            m = e.some_model(q)
            if m is not None:
                inp = concretize(ctx, m)
                fe = FEval(ctx, inp)
                try:
                    good = on_path(ctx, inp) and apart(fe)
                except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                    good = False
                if good:
                    ctx.rec.violation(label, inp)
                    return
            break
        if r == z3.unknown:
            break
    if last == z3.unsat:
        return
    inp = search(ctx, far) or search(ctx, apart)
    if inp is not None:
        ctx.rec.violation(label, inp)
        return
    # inputs off this path may still show the failure: replay decides
    ctx.rec.violation(label, {'#alts': guesses(ctx)})


def check_cond(ctx, cond, label):
    """any other assertion"""
    e = eng()
    e.stats.checks += 1
    if isinstance(cond, SymBool):
        cond = z3.simplify(cond.t)
        if z3.is_true(cond):
            cond = True
        elif z3.is_false(cond):
            cond = False
    cond = cond if z3.is_expr(cond) else bool(cond)
    if cond is True:
        e.stats.checks_trivial += 1
        return
    neg = z3.BoolVal(True) if cond is False else z3.Not(cond)
    r, m, _ = e.solve([neg], e.timeout_ms, True)
    if r == z3.sat and e.solve([neg], e.timeout_ms, wide=True)[0] == z3.unsat:
        r = z3.unsat
    if r == z3.unsat:
        e.add(cond)
        return
    holds = lambda fe: fholds(neg, fe)
    if r == z3.sat:
        m = e.some_model([neg])
        if m is not None:
            inp = concretize(ctx, m)
            try:
                if on_path(ctx, inp) and holds(FEval(ctx, inp)):
                    ctx.rec.violation(label, inp)
                    if cond is not False:
                        e.assume(mkb(cond))
                    return
            except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                pass
    inp = search(ctx, holds)
    if inp is None:
        ctx.rec.undecided[label] = '%s: solver answered %s, no concrete input found' % (label, r)
        return
    ctx.rec.violation(label, inp)


def path_inputs(ctx, quick=False):
    """float inputs following the current path, or None"""
    inp = search(ctx, lambda fe: True, 60)
    if inp is not None or quick:
        return inp
    m = eng().some_model()
    if m is not None:
        inp = concretize(ctx, m)
        if on_path(ctx, inp):
            return inp
    return search(ctx, lambda fe: True, 400, 2)
