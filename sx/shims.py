"""Stand-ins for the builtins and library modules the code under test uses,
working on symbolic values (and falling through to the real ones otherwise)."""
import builtins as _b
import struct as _struct
import io as _io
import math as _math
import re as _re
import types as _types
import ctypes as _ctypes
import os as _os
import functools as _functools
import z3
from .core import *
from .core import (eng, bytes_int, int_bytes, byte_sym, to_byte, ands, ors, nots, mkb, mk, ext,
                   boolterm, lift, simp8, F32, F64, RNE, f_lift)
from . import core

_isinstance = _b.isinstance

# ------------------------------------------------------------ builtin types


def _meta(name, real, syms):
    class M(type):
        def __instancecheck__(cls, x):
            if cls is holder[0]:
                return _isinstance(x, real) or _isinstance(x, syms)
            return type.__instancecheck__(cls, x)

        def __subclasscheck__(cls, c):
            if cls is holder[0]:
                return _b.issubclass(c, real)
            return type.__subclasscheck__(cls, c)

        def __eq__(cls, o):
            return o is cls or (cls is holder[0] and o is real)

        def __hash__(cls):
            return hash(real) if cls is holder[0] else type.__hash__(cls)

        def __repr__(cls):
            return repr(real) if cls is holder[0] else type.__repr__(cls)

        def __or__(cls, o):
            return _b.object  # only ever used in annotations

        __ror__ = __or__
    holder = [None]
    M.__name__ = name
    return M, holder


_IM, _ih = _meta('int_meta', _b.int, (SymInt, SymBool))


def _as_int(x):
    if _isinstance(x, SymInt):
        return x
    if _isinstance(x, SymBool):
        return x.as_int()
    if _isinstance(x, SymRat):
        return x.__trunc__()
    if _isinstance(x, SymFloat):
        return core_float_trunc(x)
    if _isinstance(x, SymReal):
        return x.__trunc__()
    return None


def core_float_trunc(x):
    raise SxUnsupported('int() of a symbolic float')


class SInt(_b.int, metaclass=_IM):
    def __new__(cls, x=0, base=None):
        if base is None:
            r = _as_int(x)
            if r is not None:
                return r
            if _isinstance(x, SymStr):
                raise SxUnsupported('int(str)')
            if not _isinstance(x, (_b.int, _b.float, _b.str, _b.bytes)) and hasattr(x, '__int__'):
                return x.__int__()
            v = _b.int(x)
        else:
            if _isinstance(x, SymStr):
                if x.h is None or base != 16:
                    raise SxUnsupported('int(str)')
                return bytes_int(x.h)
            v = _b.int(x, base)
        return v if cls is SInt else _b.int.__new__(cls, v)

    @staticmethod
    def from_bytes(b, byteorder='big', *, signed=False):
        if _isinstance(b, SymBytes):
            l = list(b.b)
        else:
            l = list(SBytes(b).b)
        if not l:
            return 0
        return bytes_int(l[::-1] if byteorder == 'little' else l, signed)

    bit_length = staticmethod(lambda x: x.bit_length())
    to_bytes = staticmethod(lambda x, *a, **k: int_to_bytes(x, *a, **k))


def int_to_bytes(x, *a, **k):
    if is_sym(x):
        return x.to_bytes(*a, **k)
    return SymBytes(list(_b.int(x).to_bytes(*a, **k)))


_ih[0] = SInt

_FM, _fh = _meta('float_meta', _b.float, (SymFloat, SymReal, SymRat))


class SFloat(_b.float, metaclass=_FM):
    def __new__(cls, x=0.0):
        if _isinstance(x, (SymFloat, SymReal, SymRat)):
            return x
        if _isinstance(x, (SymInt, SymBool)):
            if eng().mode == 'real':
                return core.r_from_int(x)
            if _isinstance(x, SymBool):
                x = x.as_int()
            return SymFloat('fp', f_lift(x))
        v = _b.float(x)
        return v if cls is SFloat else _b.float.__new__(cls, v)


_fh[0] = SFloat

_BM, _bh = _meta('bool_meta', _b.bool, (SymBool,))


class SBool(metaclass=_BM):
    def __new__(cls, x=False):
        if _isinstance(x, SymBool):
            return x
        if _isinstance(x, SymInt):
            return x != 0
        if _isinstance(x, SymFloat):
            return x != 0
        return _b.bool(x)


_bh[0] = SBool

_YM, _yh = _meta('bytes_meta', _b.bytes, (SymBytes,))
_YM.__instancecheck__ = lambda cls, x: (_isinstance(x, _b.bytes) or
                                       (_isinstance(x, SymBytes) and not _isinstance(x, SymByteArray)))


class SBytes(metaclass=_YM):
    def __new__(cls, x=b'', encoding=None, errors='strict'):
        if encoding is not None:
            return SymBytes(list(x.encode(encoding, errors)) if _isinstance(x, _b.str) else x.encode(encoding).b)
        if _isinstance(x, SymBytes):
            return SymBytes(list(x.b))
        if hasattr(x, '__sx_bytes__'):
            return x.__sx_bytes__()
        if _isinstance(x, (SymInt, SymBool)):
            return SymBytes([0] * x.__index__())
        if _isinstance(x, (_b.str, SymStr)):
            raise TypeError('string argument without an encoding')
        if _isinstance(x, (_b.int, _b.bytes, _b.bytearray, _b.memoryview)):
            return SymBytes(list(_b.bytes(x)))
        if hasattr(type(x), '__bytes__'):
            return SBytes(x.__bytes__())
        return SymBytes([to_byte(y) for y in x])

    @staticmethod
    def fromhex(s):
        if _isinstance(s, SymStr):
            if s.h is None:
                raise SxUnsupported('fromhex')
            return SymBytes(list(s.h))
        return SymBytes(list(_b.bytes.fromhex(s)))

    join = staticmethod(lambda s, it: SBytes(s).join(it))
    decode = staticmethod(lambda s, *a: SBytes(s).decode(*a))


_yh[0] = SBytes
_AM, _ah = _meta('bytearray_meta', _b.bytearray, (SymByteArray,))


class SByteArray(metaclass=_AM):
    def __new__(cls, x=b'', *a):
        return SymByteArray(list(SBytes(x, *a).b))


_ah[0] = SByteArray
_VM, _vh = _meta('memoryview_meta', _b.memoryview, ())


class SMemoryView(metaclass=_VM):
    def __new__(cls, x):
        if _isinstance(x, SymByteArray):
            return x  # shares storage
        return SBytes(x)


_vh[0] = SMemoryView
_SM, _sh = _meta('str_meta', _b.str, (SymStr,))


class SStr(_b.str, metaclass=_SM):
    def __new__(cls, x='', *a):
        if _isinstance(x, SymStr):
            return x
        if _isinstance(x, SymBytes) and a:
            return x.decode(*a)
        v = _b.str(x, *a)
        return v if cls is SStr else _b.str.__new__(cls, v)

    join = staticmethod(lambda s, it: sx_join(s, it))


_sh[0] = SStr
_TM, _th = _meta('type_meta', _b.type, ())


class SType(_b.type):
    """type(x) maps symbolic values to the shimmed classes"""


def _type_of(x):
    for k, c in ((SymBool, SBool), (SymInt, SInt), (SymFloat, SFloat), (SymReal, SFloat), (SymRat, SFloat),
                 (SymByteArray, SByteArray), (SymBytes, SBytes), (SymStr, SStr)):
        if _isinstance(x, k):
            return c
    t = _b.type(x)
    return {_b.int: SInt, _b.float: SFloat, _b.bool: SBool, _b.bytes: SBytes, _b.str: SStr,
            _b.bytearray: SByteArray}.get(t, t)


class _TypeMeta(_b.type):
    def __call__(cls, *a, **k):
        if len(a) == 1 and cls is SxType:
            return _type_of(a[0])
        return _b.type(*a, **k)

    def __instancecheck__(cls, x):
        return _isinstance(x, _b.type)

    def __subclasscheck__(cls, x):
        return _b.issubclass(x, _b.type)

    def __getitem__(cls, i):
        return _b.type[i]


class SxType(_b.type, metaclass=_TypeMeta):
    pass


class SRange:
    """range() with symbolic bounds, forking one comparison per iteration"""

    def __init__(self, a, b, c):
        self.start, self.stop, self.step = a, b, c

    def __iter__(self):
        i = self.start
        if is_sym(self.step):
            self.step = self.step.__index__()
        if self.step == 0:
            raise ValueError('range() arg 3 must not be zero')
        while True:
            c = i < self.stop if self.step > 0 else i > self.stop
            if not (c if _isinstance(c, _b.bool) else _b.bool(c)):
                return
            yield i
            i = i + self.step

    def __len__(self):
        return _b.len(self.conc())

    def conc(self):
        return _b.range(*(x.__index__() for x in (self.start, self.stop, self.step)))

    def __contains__(self, x):
        if self.step != 1:
            return x in self.conc()
        return _b.bool(ands([x >= self.start, x < self.stop]))

    def __getitem__(self, i):
        return self.conc()[i]

    def __reversed__(self):
        return iter(_b.reversed(self.conc()))


_RM, _rh = _meta('range_meta', _b.range, (SRange,))


class SxRange(metaclass=_RM):
    def __new__(cls, a, b=None, c=1):
        if b is None:
            a, b = 0, a
        a, b, c = (x.as_int() if _isinstance(x, SymBool) else x for x in (a, b, c))
        if any(_isinstance(x, SymInt) for x in (a, b, c)):
            return SRange(a, b, c)
        if any(_isinstance(x, (SymFloat, SymReal, SymRat)) for x in (a, b, c)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return _b.range(a, b, c)


_rh[0] = SxRange


def sx_len(x):
    if _b.type(x) is core.SymList:
        return x.n
    return _b.len(x)


def sx_chr(x):
    if _isinstance(x, (SymInt, SymBool)):
        x = _as_int(x)
        if _isinstance(x, SymInt):
            ok = ands([x >= 0, x <= 0x10FFFF])
            if not _b.bool(ok):
                raise ValueError('chr() arg not in range(0x110000)')
            return SymStr([x])
    return _b.chr(x)


def sx_ord(x):
    if _isinstance(x, SymStr):
        if len(x) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(x))
        return x.c[0]
    if _isinstance(x, SymBytes):
        if len(x) != 1:
            raise TypeError('ord() expected a character')
        return byte_sym(x.b[0])
    return _b.ord(x)


def sx_round(x, n=None):
    if is_sym(x):
        return x.__round__() if n is None else x.__round__(n)
    return _b.round(x) if n is None else _b.round(x, n)


def sx_pow(a, b, m=None):
    return a ** b if m is None else _b.pow(a, b, m)


def sx_divmod(a, b):
    return (a // b, a % b) if is_sym(a) or is_sym(b) else _b.divmod(a, b)


def sx_hex(x):
    return '<hex>' if is_sym(x) else _b.hex(x)


def sx_all(xs):
    for x in xs:
        if not x:
            return False
    return True


def sx_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def sx_print(*a, **k):
    pass


def sx_issubclass(c, k):
    def real(x):
        return {SInt: _b.int, SFloat: _b.float, SBytes: _b.bytes, SStr: _b.str, SBool: _b.bool}.get(x, x)
    if _isinstance(k, _b.tuple):
        return _b.any(sx_issubclass(c, x) for x in k)
    return _b.issubclass(real(c), real(k))


def sx_isinstance(x, k):
    return _isinstance(x, k)


# ------------------------------------------------- rewritten operations
# ------------------------------------------------------------ dictionaries with symbolic keys
def symkey(k):
    if _isinstance(k, _b.tuple):
        return _b.any(symkey(x) for x in k)
    if _isinstance(k, (SymBytes, SymStr)):
        return not k.concrete()
    return is_sym(k)


def same_key(a, b):
    """a == b, decided on this path"""
    if a is b:
        return True
    if _isinstance(a, _b.tuple) and _isinstance(b, _b.tuple):
        return len(a) == len(b) and _b.all(same_key(x, y) for x, y in zip(a, b))
    if _isinstance(a, _b.tuple) or _isinstance(b, _b.tuple):
        return False
    for x, y in ((a, b), (b, a)):
        if is_sym(x):
            if y is None or _isinstance(x, (SymBytes, SymStr)) != _isinstance(y, (SymBytes, SymStr, _b.bytes, _b.str)):
                return False
            r = x == y
            return r is not NotImplemented and _b.bool(r)
    return _b.bool(a == b)


_DM, _dh = _meta('dict_meta', _b.dict, ())
_NONE = object()


class SxDict(_b.dict, metaclass=_DM):
    """a dict whose keys may be symbolic: equality with the keys present is decided by forking"""

    def __init__(self, *a, **k):
        self._s = []
        super().__init__()
        self.update(*a, **k)

    def _find(self, k):
        """(True, native key), (False, entry) or None"""
        if not symkey(k):
            if _b.dict.__contains__(self, k):
                return True, k
        elif _isinstance(k, (SymInt, SymBool)):
            k = k.as_int() if _isinstance(k, SymBool) else k
            m = _any_key(k, [x for x in _b.dict.keys(self) if _isinstance(x, _b.int)])
            if m is not None:
                return True, m
        else:
            for x in _b.dict.keys(self):
                if same_key(x, k):
                    return True, x
        for en in self._s:
            if same_key(en[0], k):
                return False, en
        return None

    def _value(self, k, d=_NONE):
        f = self._find(k)
        if f is None:
            return d
        return _b.dict.__getitem__(self, f[1]) if f[0] else f[1][1]

    def __getitem__(self, k):
        v = self._value(k)
        if v is _NONE:
            raise KeyError('<sym>' if symkey(k) else k)
        return v

    def get(self, k, d=None):
        return self._value(k, d)

    def __contains__(self, k):
        return self._find(k) is not None

    def __setitem__(self, k, v):
        if not self._s and not symkey(k):
            return _b.dict.__setitem__(self, k, v)
        f = self._find(k)
        if f is None:
            if symkey(k):
                self._s.append([k, v])
            else:
                _b.dict.__setitem__(self, k, v)
        elif f[0]:
            _b.dict.__setitem__(self, f[1], v)
        else:
            f[1][1] = v

    def __delitem__(self, k):
        f = self._find(k)
        if f is None:
            raise KeyError('<sym>' if symkey(k) else k)
        if f[0]:
            _b.dict.__delitem__(self, f[1])
        else:
            self._s.remove(f[1])

    def setdefault(self, k, d=None):
        v = self._value(k)
        if v is _NONE:
            self[k] = v = d
        return v

    def pop(self, k, *d):
        v = self._value(k)
        if v is _NONE:
            if d:
                return d[0]
            raise KeyError('<sym>' if symkey(k) else k)
        del self[k]
        return v

    def popitem(self):
        if self._s:
            return _b.tuple(self._s.pop())
        return _b.dict.popitem(self)

    def clear(self):
        self._s = []
        _b.dict.clear(self)

    def update(self, *a, **k):
        for m in a:
            for x, v in (m.items() if hasattr(m, 'keys') else m):
                self[x] = v
        for x, v in k.items():
            self[x] = v

    def copy(self):
        return SxDict(self)

    def __len__(self):
        return _b.dict.__len__(self) + len(self._s)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        return iter(_b.list(_b.dict.keys(self)) + [e[0] for e in self._s]) if self._s else _b.dict.__iter__(self)

    def keys(self):
        return _View(self, _b.list(self)) if self._s else _b.dict.keys(self)

    def values(self):
        return _b.list(_b.dict.values(self)) + [e[1] for e in self._s] if self._s else _b.dict.values(self)

    def items(self):
        return _b.list(_b.dict.items(self)) + [_b.tuple(e) for e in self._s] if self._s else _b.dict.items(self)

    def __or__(self, o):
        r = SxDict(self)
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self


_dh[0] = SxDict


class _View:
    def __init__(self, d, l):
        self.d, self.l = d, l

    def __contains__(self, k):
        return k in self.d

    def __iter__(self):
        return iter(self.l)

    def __len__(self):
        return len(self.l)


def _memo(fn, maxsize):
    """functools.lru_cache with symbolic arguments"""
    d = SxDict()

    def wrapper(*a, **k):
        key = a + _b.tuple(x for p in _b.sorted(k.items()) for x in p)
        v = d._value(key)
        if v is _NONE:
            v = fn(*a, **k)
            if maxsize == 0:
                return v
            if maxsize is not None and len(d) >= maxsize:
                del d[next(iter(d))]
        else:
            del d[key]
        d[key] = v
        return v
    _functools.update_wrapper(wrapper, fn)
    wrapper.sx_state = d
    wrapper.cache_clear = d.clear
    wrapper.cache_info = lambda: None
    return wrapper


functools = _types.ModuleType('functools')
for _n in dir(_functools):
    if not _n.startswith('__'):
        setattr(functools, _n, getattr(_functools, _n))


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _memo(maxsize, 128)
    return lambda fn: _memo(fn, maxsize)


functools.lru_cache = lru_cache
functools.cache = lambda fn: _memo(fn, None)


def sx_contains(c, x):
    """x in c"""
    if _isinstance(c, SxDict):
        return x in c
    if is_sym(x) and not _isinstance(x, SymBytes):
        if _isinstance(x, SymBool):
            x = x.as_int()
        if _isinstance(c, (_b.dict, _b.set, _b.frozenset, _b.type({}.keys()))) and _isinstance(x, SymInt):
            ks = [k for k in c if _isinstance(k, _b.int)]
            return _any_key(x, ks) is not None
        if _isinstance(c, (SymBytes, SRange)):
            return c.__contains__(x)
        if _isinstance(c, (_b.bytes, _b.bytearray)):
            return SymBytes(list(c)).__contains__(x)
        if _isinstance(c, (_b.tuple, _b.list)):
            if _b.all(_isinstance(k, _b.int) for k in c) and _isinstance(x, SymInt):
                return mkany([x == k for k in c])
        if _isinstance(c, _b.range) and c.step == 1:
            return ands([x >= c.start, x < c.stop])
    return x in c


def mkany(l):
    return ors(l)


def _any_key(x, ks):
    """the key equal to x on this path, or None: one n-way fork"""
    e = eng()
    kid = x.t.get_id()
    if kid in e.known:
        v = e.known[kid]
        return v if v in ks else None
    ks = [int(k) for k in ks if x.lo <= k <= x.hi]
    if not ks:
        return None
    if not e.branch(z3.Or(*[x.t == k for k in ks])):
        return None
    return e.concretize(x)


def sx_get(o, *a, **kw):
    if _isinstance(o, SxDict):
        return o.get(*a, **kw)
    if _isinstance(o, _b.dict) and a and is_sym(a[0]):
        x = a[0].as_int() if _isinstance(a[0], SymBool) else a[0]
        if _isinstance(x, SymInt):
            k = _any_key(x, [k for k in o if _isinstance(k, _b.int)])
            if k is None:
                return a[1] if len(a) > 1 else None
            return o[k]
    return o.get(*a, **kw)


def sx_getitem(o, i):
    if _isinstance(o, SxDict):
        return o[i]
    if _isinstance(i, SymInt):
        if _isinstance(o, _b.dict):
            k = _any_key(i, [k for k in o if _isinstance(k, _b.int)])
            if k is None:
                if hasattr(o, '__missing__'):
                    raise SxUnsupported('defaultdict with a symbolic key')
                raise KeyError('<sym>')
            return o[k]
        if _isinstance(o, (_b.list, _b.tuple, _b.bytes, SymBytes)):
            n = len(o)
            ok = ands([i >= -n, i < n])
            if not _b.bool(ok):
                raise IndexError('index out of range')
    return o[i]


_SPEC = _re.compile(r'%(\((?:[^)]*)\))?([-#0 +]*)(\*|\d*)(\.(?:\*|\d+))?[hlL]?(.)', _re.S)


def sx_mod(a, b):
    """a % b; text formatting shows symbolic numbers as placeholders"""
    if type(a) is not _b.str:
        return a % b
    args = b if _isinstance(b, tuple) else (b,)
    if _isinstance(b, dict):
        vals = list(b.values())
    else:
        vals = list(args)
    if not any(is_sym(v) for v in vals):
        return a % b
    i = 0
    out = []
    for m in _SPEC.finditer(a):
        if m.group(5) == '%':
            continue
        if '*' in (m.group(3) or '') or '*' in (m.group(4) or ''):
            raise SxUnsupported('* in a format')
        if m.group(1):
            out.append((m, b[m.group(1)[1:-1]]))
        else:
            if i >= len(args):
                raise TypeError('not enough arguments for format string')
            out.append((m, args[i]))
            i += 1
    if i < len(args) and not _isinstance(b, dict):
        raise TypeError('not all arguments converted during string formatting')
    text, at = '', 0
    for m, v in out:
        text += a[at:m.start()].replace('%%', '%')
        at = m.end()
        k = m.group(5)
        if is_sym(v):
            if k in 'diouxXeEfFgGc' and _isinstance(v, (SymBytes, SymStr)):
                raise TypeError('%%%s format: a number is required' % k)
            plain = k in 'dius' and m.group(2) == m.group(3) == '' and not m.group(4)
            text += _b.str(v) if plain or not _isinstance(v, (SymInt, SymBool)) else '<symint>'
        else:
            spec = '%' + m.group(2) + m.group(3) + (m.group(4) or '') + k
            text += spec % (v,)
    return text + a[at:].replace('%%', '%')


def sx_join(s, it):
    if _isinstance(s, (_b.bytes, _b.bytearray)):
        return SymBytes(list(s)).join(it)
    if _isinstance(s, _b.str):
        l = list(it)
        if _b.any(_isinstance(x, SymStr) for x in l):
            out = []
            for n, x in enumerate(l):
                if n:
                    out += [_b.ord(c) for c in s]
                out += x.c if _isinstance(x, SymStr) else [_b.ord(c) for c in x]
            return SymStr(out)
        return s.join(l)
    return s.join(it)


# ------------------------------------------------------------ struct
class _StructModule(_types.ModuleType):
    pass


struct = _StructModule('struct')
struct.error = _struct.error
SIZES = {'b': 1, 'B': 1, '?': 1, 'c': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8,
         'f': 4, 'd': 8, 'x': 1, 's': 1, 'p': 1, 'e': 2}


def _parse_fmt(fmt):
    if _isinstance(fmt, _b.bytes):
        fmt = fmt.decode()
    if _isinstance(fmt, SymBytes):
        fmt = fmt.as_bytes().decode()
    order = '@'
    if '\x01' in fmt:
        fmt = _re.sub('\x01[0-9]+\x02', lambda m: '%d' % core.TOKENS[m.group()].__index__(), fmt)
    f = fmt
    if f and f[0] in '@=<>!':
        order, f = f[0], f[1:]
    out, n = [], ''
    for c in f:
        if c.isdigit():
            n += c
        elif c.isspace():
            continue
        else:
            if c not in SIZES:
                raise _struct.error('bad char in struct format')
            k = int(n) if n else 1
            n = ''
            out.append((c, k) if c in 'sp' else None)
            if out[-1] is None:
                out.pop()
                out.extend([(c, None)] * k)
    native = order == '@'
    size, items = 0, []
    for c, k in out:
        if native and c in 'lL':
            sz = 8
        else:
            sz = SIZES[c]
        if native and sz > 1 and c not in 'sp':
            pad = -size % sz
            if pad:
                items.append(('x', None, pad))
                size += pad
        s = k if k is not None else sz
        items.append((c, k, s))
        size += s
    little = order in '@=<'
    return items, size, little


def calcsize(fmt):
    return _parse_fmt(fmt)[1]


def no_nan(t, w):
    """assumption: floating-point inputs are not NaN (payload is implementation-defined)"""
    e, m = (8, 23) if w == 32 else (11, 52)
    s = z3.simplify(t)
    if z3.is_bv_value(s):
        return
    eng().add(z3.Not(z3.And(z3.Extract(w - 2, m, t) == (1 << e) - 1, z3.Extract(m - 1, 0, t) != 0)))


def _unpack_items(fmt, bs):
    m = _re.fullmatch('[@=<>!]?(\x01[0-9]+\x02)s', fmt) if _isinstance(fmt, _b.str) else None
    if m:
        # '<n>s' with n symbolic: fits exactly when n is the length of the data
        n = core.TOKENS[m.group(1)]
        if _b.bool(n < 0):
            raise _struct.error('bad char in struct format')
        if not eng().is_eq(n, len(bs)):
            raise _struct.error('unpack requires a buffer of another length')
        return (SymBytes(list(bs)),)
    items, size, little = _parse_fmt(fmt)
    if len(bs) != size:
        raise _struct.error('unpack requires a buffer of %d bytes' % size)
    out, o = [], 0
    for c, k, s in items:
        part = bs[o:o + s]
        o += s
        if c == 'x':
            continue
        if c == 's':
            out.append(SymBytes(part))
            continue
        if c == 'p':
            raise SxUnsupported('p format')
        if little:
            part = part[::-1]
        if c == 'c':
            out.append(SymBytes(part))
        elif c == '?':
            v = byte_sym(part[0])
            out.append(v != 0)
        elif c in 'fd':
            if all(_isinstance(x, _b.int) for x in part):
                out.append(_struct.unpack('>' + c, bytes(part))[0])
            else:
                t = z3.simplify(z3.Concat(*[core.bterm(x) for x in part]))
                no_nan(t, 8 * s)
                out.append(SymFloat('f32' if c == 'f' else 'f64', t))
        elif c == 'e':
            raise SxUnsupported('e format')
        else:
            out.append(bytes_int(part, c.islower()))
    return tuple(out)


def _buf(x):
    if _isinstance(x, SymBytes):
        return list(x.b)
    if _isinstance(x, (_b.bytes, _b.bytearray, _b.memoryview)):
        return list(_b.bytes(x))
    raise TypeError("a bytes-like object is required, not '%s'" % _b.type(x).__name__)


def unpack(fmt, data):
    return _unpack_items(fmt, _buf(data))


def unpack_from(fmt, buffer, offset=0):
    b = _buf(buffer)
    if is_sym(offset):
        offset = offset.__index__()
    n = calcsize(fmt)
    if offset < 0:
        offset += len(b)
    if offset < 0 or len(b) - offset < n:
        raise _struct.error('unpack_from requires a buffer of at least %d bytes' % (n + offset))
    return _unpack_items(fmt, b[offset:offset + n])


def iter_unpack(fmt, buffer):
    b = _buf(buffer)
    n = calcsize(fmt)
    if n == 0 or len(b) % n:
        raise _struct.error('iterative unpacking requires a buffer of a multiple of %d bytes' % n)
    return iter([_unpack_items(fmt, b[i:i + n]) for i in _b.range(0, len(b), n)])


def fbits(v, c):
    """bit pattern (BV term or int) of float value v packed as 'f' or 'd'"""
    if _isinstance(v, SymRat):
        v = SymFloat('fp', z3.fpDiv(RNE, f_lift(v.n), z3.FPVal(v.d, F64)))
    if _isinstance(v, (SymInt, SymBool)):
        v = SymFloat('fp', f_lift(_as_int(v)))
    if c == 'f':
        if v.kind == 'f32':
            return v.t
        x = v.fp()
        y = z3.fpToFP(RNE, x, F32)
        if eng().branch(z3.And(z3.fpIsInf(y), z3.Not(z3.fpIsInf(x)))):
            raise OverflowError('float too large to pack with f format')
        return z3.fpToIEEEBV(y)
    if v.kind == 'f64':
        return v.t
    return z3.fpToIEEEBV(v.fp())


def pack(fmt, *vals):
    items, size, little = _parse_fmt(fmt)
    want = _b.sum(1 for c, k, s in items if c != 'x')
    if want != len(vals):
        raise _struct.error('pack expected %d items for packing (got %d)' % (want, len(vals)))
    out, vi = [], 0
    for c, k, s in items:
        if c == 'x':
            out += [0] * s
            continue
        v = vals[vi]
        vi += 1
        if c == 's':
            if not _isinstance(v, (SymBytes, _b.bytes, _b.bytearray)):
                raise _struct.error("argument for 's' must be a bytes object")
            b = _buf(v)[:s]
            out += b + [0] * (s - len(b))
            continue
        if c == 'p':
            raise SxUnsupported('p format')
        if c == 'c':
            if not _isinstance(v, (SymBytes, _b.bytes)) or len(v) != 1:
                raise _struct.error('char format requires a bytes object of length 1')
            out += _buf(v)
            continue
        if c == '?':
            if _isinstance(v, SymFloat) or _isinstance(v, SymInt):
                v = v != 0
            if _isinstance(v, SymBool):
                out.append(simp8(z3.If(v.t, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))))
            else:
                out.append(1 if v else 0)
            continue
        if c in 'fd':
            if _isinstance(v, SymReal):
                raise SxUnsupported('packing an exact real')
            if is_sym(v) and not _isinstance(v, (SymBytes, SymStr)):
                t = fbits(v, c)
                b = [simp8(z3.Extract(8 * j + 7, 8 * j, t)) for j in _b.range(s - 1, -1, -1)]
            else:
                if _isinstance(v, (SymBytes, SymStr)):
                    raise _struct.error('required argument is not a float')
                b = list(_struct.pack('>' + c, v))
        elif c == 'e':
            raise SxUnsupported('e format')
        else:
            if _isinstance(v, SymBool):
                v = v.as_int()
            if _isinstance(v, SymInt):
                lo, hi = (-(1 << (8 * s - 1)), (1 << (8 * s - 1)) - 1) if c.islower() else (0, (1 << (8 * s)) - 1)
                ok = ands([v >= lo, v <= hi])
                if not _b.bool(ok):
                    raise _struct.error("'%s' format requires %d <= number <= %d" % (c, lo, hi))
                b = int_bytes(v, s)
            elif is_sym(v):
                raise _struct.error('required argument is not an integer')
            else:
                cc = c if not (c in 'lL' and s == 8) else ('q' if c == 'l' else 'Q')
                b = list(_struct.pack('>' + cc, v))
        out += b[::-1] if little else b
    return SymBytes(out)


def pack_into(fmt, buffer, offset, *vals):
    b = pack(fmt, *vals)
    if _isinstance(buffer, SymByteArray):
        if offset < 0 or offset + len(b) > len(buffer.b):
            raise _struct.error('pack_into requires a buffer of at least %d bytes' % len(b))
        buffer.b[offset:offset + len(b)] = b.b
        return
    raise SxUnsupported('pack_into')


class Struct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = calcsize(fmt)

    def pack(self, *v): return pack(self.format, *v)
    def unpack(self, b): return unpack(self.format, b)
    def unpack_from(self, b, offset=0): return unpack_from(self.format, b, offset)
    def pack_into(self, b, o, *v): return pack_into(self.format, b, o, *v)
    def iter_unpack(self, b): return iter_unpack(self.format, b)


for _n, _f in dict(pack=pack, unpack=unpack, unpack_from=unpack_from, pack_into=pack_into, Struct=Struct,
                   calcsize=calcsize, iter_unpack=iter_unpack).items():
    setattr(struct, _n, _f)

# ------------------------------------------------------------ io
VFILES = {}


class SBytesIO(_io.BufferedIOBase):
    def __init__(self, initial=b'', **kw):
        self.buf = list(_buf(initial)) if initial is not None else []
        self.pos = 0
        self.reads = []

    def read(self, n=-1):
        rem = _b.max(0, len(self.buf) - self.pos)
        if n is None:
            n = -1
        if _isinstance(n, SymBool):
            n = n.as_int()
        if _isinstance(n, SymInt):
            if _b.bool(n < 0):
                n = -1
            elif _b.bool(n >= rem):
                n = rem
            else:
                n = n.__index__()
        elif is_sym(n):
            raise TypeError('argument should be integer or None')
        n = n.__index__()
        if n < 0:
            n = rem
        out = self.buf[self.pos:self.pos + n]
        self.pos += len(out)
        return SymBytes(out)

    read1 = read

    def readinto(self, b):
        d = self.read(len(b))
        b.b[:len(d)] = d.b
        return len(d)

    def peek(self, n=0):
        p = self.pos
        d = self.read(-1)
        self.pos = p
        return d

    def write(self, b):
        if _isinstance(b, (_b.str, SymStr)):
            raise TypeError("a bytes-like object is required, not 'str'")
        if hasattr(b, '__sx_bytes__'):
            b = b.__sx_bytes__()
        d = _buf(b)
        if self.pos > len(self.buf):
            self.buf += [0] * (self.pos - len(self.buf))
        self.buf[self.pos:self.pos + len(d)] = d
        self.pos += len(d)
        return len(d)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def seek(self, off, whence=0):
        if is_sym(off):
            off = off.__index__()
        if whence == 0 and off < 0:
            raise ValueError('negative seek value %d' % off)
        self.pos = _b.max(0, off + (0 if whence == 0 else self.pos if whence == 1 else len(self.buf)))
        return self.pos

    def tell(self):
        return self.pos

    def getvalue(self):
        return SymBytes(list(self.buf))

    def getbuffer(self):
        return SymByteArray(list(self.buf))

    def truncate(self, n=None):
        n = self.pos if n is None else n
        del self.buf[n:]
        return n

    def seekable(self): return True
    def readable(self): return True
    def writable(self): return True

    def close(self):
        pass

    def __enter__(self): return self
    def __exit__(self, *a): return False


def sx_open(path, mode='r', *a, **k):
    if path in VFILES:
        if mode not in ('rb', 'br'):
            raise SxUnsupported('open mode %r' % mode)
        return SBytesIO(VFILES[path])
    raise SxUnsupported('open(%r)' % (path,))


class _PathLike:
    pass


io = _types.ModuleType('io')
for _n in _io.__all__:
    setattr(io, _n, getattr(_io, _n))
io.BytesIO = SBytesIO
io.open = sx_open
io.BufferedReader = lambda s, *a: s

# ------------------------------------------------------------ ctypes
ctypes = _types.ModuleType('ctypes')


class _SimpleCData:
    bits = 0

    def __init__(self, value=0):
        self.value = value

    @property
    def value(self):
        return self._v

    @value.setter
    def value(self, v):
        if _isinstance(v, (SymFloat, SymReal, _b.float, SymStr, _b.str, SymBytes, _b.bytes)) or v is None:
            raise TypeError('an integer is required')
        if _isinstance(v, SymBool):
            v = v.as_int()
        v = (v if _isinstance(v, SymInt) else v.__index__()) % (1 << self.bits)
        if self.signed:
            v = v - ((v >> (self.bits - 1)) << self.bits)
        self._v = v

    def __sx_bytes__(self):
        b = int_bytes(self._v, self.bits // 8)
        return SymBytes(b if self.big else b[::-1])

    __bytes__ = __sx_bytes__

    @classmethod
    def from_buffer_copy(cls, src, offset=0):
        b = list(_buf(src)[offset:][:cls.bits // 8])
        if len(b) < cls.bits // 8:
            raise ValueError('Buffer size too small (%d instead of at least %d bytes)' % (len(b), cls.bits // 8))
        o = cls()
        o._v = bytes_int(b if cls.big else b[::-1], cls.signed)
        return o

    from_buffer = from_buffer_copy


def _ct(name, bits, signed=False):
    t = _b.type(name, (_SimpleCData,), {'bits': bits, 'signed': signed, 'big': False})
    t.__ctype_le__ = t
    t.__ctype_be__ = _b.type(name, (_SimpleCData,), {'bits': bits, 'signed': signed, 'big': True})
    return t


for _n, _w, _s in (('c_uint8', 8, 0), ('c_ubyte', 8, 0), ('c_uint16', 16, 0), ('c_ushort', 16, 0),
                   ('c_uint32', 32, 0), ('c_uint', 32, 0), ('c_uint64', 64, 0), ('c_ulonglong', 64, 0),
                   ('c_int8', 8, 1), ('c_int16', 16, 1), ('c_int32', 32, 1), ('c_int64', 64, 1),
                   ('c_ulong', 64, 0), ('c_int', 32, 1), ('c_short', 16, 1), ('c_byte', 8, 1)):
    setattr(ctypes, _n, _ct(_n, _w, _b.bool(_s)))
ctypes._SimpleCData = _SimpleCData


def _layout(fields):
    """[(name, unit byte offset, unit bits, shift-from-msb, width, signed)], size"""
    out, off, cur, used = [], 0, 0, 0
    align = 1
    for f in fields:
        name, t = f[0], f[1]
        bits = f[2] if len(f) > 2 else None
        ub = t.bits
        align = _b.max(align, ub // 8)
        if bits is None:
            if cur:
                off += cur // 8
                cur = used = 0
            off += -off % (ub // 8)
            out.append((name, off, ub, 0, ub, t.signed))
            off += ub // 8
            continue
        if not 0 < bits <= ub:
            raise ValueError('number of bits invalid for bit field %s' % name)
        if cur and cur != ub:
            raise SxUnsupported('mixed bit-field storage units')
        if cur and used + bits > ub:
            off += cur // 8
            cur = used = 0
        if not cur:
            off += -off % (ub // 8)
            cur, used = ub, 0
        out.append((name, off, ub, used, bits, t.signed))
        used += bits
    if cur:
        off += cur // 8
    return out, off + (-off % align)


class _StructMeta(_b.type):
    def __new__(m, name, bases, ns):
        cls = _b.type.__new__(m, name, bases, ns)
        if '_fields_' in ns:
            cls._lay, cls._size = _layout(ns['_fields_'])
            for row in cls._lay:
                setattr(cls, row[0], _CField(row))
        return cls


class _CField:
    def __init__(self, row):
        self.row = row

    def __get__(self, o, t=None):
        if o is None:
            return self
        return o._get(self.row)

    def __set__(self, o, v):
        o._set(self.row, v)


class _SBase(metaclass=_StructMeta):
    _big = True
    _lay, _size = [], 0

    def __init__(self, *a, **k):
        self._u = {}
        if len(a) > len(self._lay):
            raise TypeError('too many initializers')
        for row, v in zip(self._lay, a):
            self._set(row, v)
        for n, v in k.items():
            rows = [r for r in self._lay if r[0] == n]
            if rows:
                self._set(rows[0], v)
            else:
                object.__setattr__(self, n, v)

    def _get(self, row):
        return self._u.get(row[0], 0)

    def _set(self, row, v):
        if _isinstance(v, (SymFloat, SymReal, _b.float, SymStr, _b.str, SymBytes, _b.bytes)) or v is None:
            raise TypeError('int expected instead of %s instance' % _b.type(v).__name__)
        if _isinstance(v, SymBool):
            v = v.as_int()
        n = row[4]
        v = (v if _isinstance(v, SymInt) else v.__index__()) % (1 << n)
        if row[5]:
            v = v - ((v >> (n - 1)) << n)
        self._u[row[0]] = v

    def __sx_bytes__(self):
        units = {}
        for name, off, ub, sh, n, sg in self._lay:
            v = self._u.get(name, 0) % (1 << n)
            pos = ub - sh - n if self._big else sh
            units[(off, ub)] = units.get((off, ub), 0) + v * (1 << pos)
        out = [0] * self._size
        for (off, ub), v in units.items():
            b = int_bytes(v, ub // 8)
            out[off:off + ub // 8] = b if self._big else b[::-1]
        return SymBytes(out)

    __bytes__ = __sx_bytes__

    @classmethod
    def from_buffer_copy(cls, src, offset=0):
        b = _buf(src)[offset:]
        if len(b) < cls._size:
            raise ValueError('Buffer size too small (%d instead of at least %d bytes)' % (len(b), cls._size))
        o = cls()
        for name, off, ub, sh, n, sg in cls._lay:
            part = b[off:off + ub // 8]
            v = bytes_int(part if cls._big else part[::-1])
            pos = ub - sh - n if cls._big else sh
            f = (v >> pos) % (1 << n)
            if sg:
                f = f - ((f >> (n - 1)) << n)
            o._u[name] = f
        return o

    from_buffer = from_buffer_copy


class BigEndianStructure(_SBase):
    _big = True


class LittleEndianStructure(_SBase):
    _big = False


ctypes.BigEndianStructure = BigEndianStructure
ctypes.LittleEndianStructure = LittleEndianStructure
ctypes.Structure = LittleEndianStructure


def sizeof(x):
    if _isinstance(x, _b.type) and _b.issubclass(x, _SimpleCData):
        return x.bits // 8
    return x.bits // 8 if _isinstance(x, _SimpleCData) else x._size


ctypes.sizeof = sizeof

# ------------------------------------------------------------ operator, binascii
import operator as _operator  # noqa: E402
import binascii as _binascii  # noqa: E402
operator = _types.ModuleType('operator')
for _n in dir(_operator):
    if not _n.startswith('__') or _n.endswith('__') and _n[2:-2] in dir(_operator):
        setattr(operator, _n, getattr(_operator, _n))


def _op_index(x):
    if _isinstance(x, SymInt):
        return x
    if _isinstance(x, SymBool):
        return x.as_int()
    return _operator.index(x)


def _op_mod(a, b): return sx_mod(a, b)
def _op_contains(a, b): return sx_contains(a, b)
def _op_getitem(a, b): return sx_getitem(a, b)


def _op_not(x):
    return nots(x) if _isinstance(x, SymBool) else not x


def _op_itemgetter(*ks):
    if len(ks) == 1:
        return lambda x: sx_getitem(x, ks[0])
    return lambda x: tuple(sx_getitem(x, k) for k in ks)


operator.index = operator.__index__ = _op_index
operator.mod = operator.__mod__ = _op_mod
operator.contains = operator.__contains__ = _op_contains
operator.getitem = operator.__getitem__ = _op_getitem
operator.not_ = operator.__not__ = _op_not
operator.itemgetter = _op_itemgetter
binascii = _types.ModuleType('binascii')
for _n in dir(_binascii):
    if not _n.startswith('__'):
        setattr(binascii, _n, getattr(_binascii, _n))


def _hexlify(d, *a):
    s = SymBytes(list(_buf(d))).hex(*a)
    return s.encode('ascii') if _isinstance(s, _b.str) else _hexed(s)


def _hexed(s):
    r = SymBytes([to_byte(x) for x in s.c])
    return r


def _unhexlify(s):
    if _isinstance(s, SymStr):
        return SBytes.fromhex(s)
    return SymBytes(list(_binascii.unhexlify(s.as_bytes() if _isinstance(s, SymBytes) else s)))


binascii.hexlify = binascii.b2a_hex = _hexlify
binascii.unhexlify = binascii.a2b_hex = _unhexlify

# ------------------------------------------------------------ math
math = _types.ModuleType('math')
for _n in dir(_math):
    if not _n.startswith('__'):
        setattr(math, _n, getattr(_math, _n))


def _mfun(name):
    real = getattr(_math, name)

    def f(*a, **k):
        if name in ('fsum', 'prod', 'dist', 'sumprod', 'isclose'):
            def syms(x):
                return is_sym(x) or _isinstance(x, core.SymReal) or \
                    hasattr(x, '__iter__') and _b.any(syms(y) for y in x)
            a = [x if is_sym(x) or not hasattr(x, '__iter__') else list(x) for x in a]
            if not _b.any(syms(x) for x in a) and not _b.any(syms(x) for x in k.values()):
                return real(*a, **k)
            return core.r_math(name, *a, **k)
        a = [x.item() if getattr(x, 'shape', None) in ((), (1,)) and hasattr(x, 'item') else x for x in a]
        if _b.any(is_sym(x) for x in a):
            return core.r_math(name, *a)
        if name in ('sin', 'cos') and core.Engine.cur is not None and core.Engine.cur.mode == 'real':
            return _b.float(core.r_trig(*a)[name == 'cos'])
        return real(*[_b.float(x) if _isinstance(x, core.SymReal) else x for x in a])
    f.__name__ = name
    return f


for _n in ('sin cos tan asin acos atan atan2 sqrt hypot fabs radians degrees exp log pow copysign fmod '
           'isclose isnan isinf isfinite dist remainder cbrt fsum prod sumprod').split():
    if hasattr(_math, _n):
        setattr(math, _n, _mfun(_n))


def _mround(name):
    real = getattr(_math, name)

    def f(x):
        if is_sym(x):
            return getattr(x, '__%s__' % name)()
        return real(x)
    return f


for _n in ('floor', 'ceil', 'trunc'):
    setattr(math, _n, _mround(_n))

# ------------------------------------------------------------ complex
_CM, _ch = _meta('complex_meta', _b.complex, ())


class SComplex(metaclass=_CM):
    def __init__(self, re=0, im=0):
        if _isinstance(re, (SComplex, _b.complex)):
            re, im = re.real - (im.imag if _isinstance(im, (SComplex, _b.complex)) else 0), re.imag + im
        elif _isinstance(im, (SComplex, _b.complex)):
            re, im = re - im.imag, im.real
        if _isinstance(re, _b.str):
            c = _b.complex(re)
            re, im = c.real, c.imag
        self.real, self.imag = (x if is_sym(x) else _b.float(x) for x in (re, im))

    @staticmethod
    def _parts(o):
        if _isinstance(o, (SComplex, _b.complex)):
            return o.real, o.imag
        if _isinstance(o, (_b.int, _b.float)) or is_sym(o):
            return o, 0.0
        return None

    def __add__(self, o):
        p = self._parts(o)
        return NotImplemented if p is None else SComplex(self.real + p[0], self.imag + p[1])
    __radd__ = __add__

    def __sub__(self, o):
        p = self._parts(o)
        return NotImplemented if p is None else SComplex(self.real - p[0], self.imag - p[1])

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        p = self._parts(o)
        if p is None:
            return NotImplemented
        return SComplex(self.real * p[0] - self.imag * p[1], self.real * p[1] + self.imag * p[0])
    __rmul__ = __mul__

    def __truediv__(self, o):
        p = self._parts(o)
        if p is None:
            return NotImplemented
        n = p[0] * p[0] + p[1] * p[1]
        return SComplex((self.real * p[0] + self.imag * p[1]) / n, (self.imag * p[0] - self.real * p[1]) / n)

    def __rtruediv__(self, o):
        return SComplex(o) / self

    def __pow__(self, n):
        if type(n) is not _b.int or n < 0:
            raise SxUnsupported('power of a complex number')
        r = SComplex(1.0)
        for _ in _b.range(n):
            r = r * self
        return r

    def __neg__(self): return SComplex(-self.real, -self.imag)
    def __pos__(self): return self
    def conjugate(self): return SComplex(self.real, -self.imag)
    def __abs__(self): return math.hypot(self.real, self.imag)
    def __bool__(self): return _b.bool(self.real != 0) or _b.bool(self.imag != 0)
    def __eq__(self, o):
        p = self._parts(o)
        return p is not None and _b.bool(self.real == p[0]) and _b.bool(self.imag == p[1])
    __hash__ = None


_ch[0] = SComplex
import cmath as _cmath  # noqa: E402
cmath = _types.ModuleType('cmath')
for _n in dir(_cmath):
    if not _n.startswith('__'):
        setattr(cmath, _n, getattr(_cmath, _n))


def _cm_exp(z):
    re, im = SComplex._parts(z)
    if not is_sym(re) and re == 0:
        return SComplex(math.cos(im), math.sin(im))
    return SComplex(math.exp(re) * math.cos(im), math.exp(re) * math.sin(im))


cmath.phase = lambda z: math.atan2(*SComplex._parts(z)[::-1])
cmath.polar = lambda z: (_b.abs(SComplex(z)), cmath.phase(z))
cmath.rect = lambda r, phi: SComplex(r * math.cos(phi), r * math.sin(phi))
cmath.exp = _cm_exp

# ------------------------------------------------------------ merging
_UNBOUND = _b.object()
_STOPS = (Exception, SxUnsupported, core.SxPathEnd, core.SymListEnd)


def sx_sym(c):
    """a condition of which both outcomes are followed in one path"""
    return _isinstance(c, (SymBool, SymInt)) and core.Engine.cur is not None and core.Engine.cur.mode != 'real'


def _cond(c):
    return c != 0 if _isinstance(c, SymInt) else c


def _plain(x):
    return _isinstance(x, (SymInt, SymBool)) or type(x) in (_b.int, _b.bool)


def _both(c, a, b):
    """a if c else b, as one value; None where it has none"""
    if a is b:
        return a
    if not (_plain(a) and _plain(b)):
        return None
    ba, bb = _isinstance(a, (SymBool, _b.bool)), _isinstance(b, (SymBool, _b.bool))
    if ba != bb:
        return None
    t = core.boolterm(c)
    if ba:
        return core.mkb(z3.If(t, core.boolterm(a), core.boolterm(b)))
    (ta, wa, la, ha), (tb, wb, lb, hb) = core.lift(a), core.lift(b)
    w = _b.max(wa, wb)
    return core.mk(z3.If(t, core.ext(ta, wa, w), core.ext(tb, wb, w)), _b.min(la, lb), _b.max(ha, hb))


def sx_ite(c, a, b):
    if sx_sym(c):
        c = _cond(c)
        if not _isinstance(c, _b.bool):
            try:
                x = a()
                if _plain(x):
                    r = _both(c, x, b())
                    if r is not None:
                        return r
            except _STOPS:
                pass
    return a() if c else b()


def sx_and(a, b):
    if sx_sym(a):
        c = _cond(a)
        if not _isinstance(c, _b.bool):
            try:
                r = _both(c, b(), a if _isinstance(a, SymInt) else False)
                if r is not None:
                    return r
            except _STOPS:
                pass
            return b() if c else a if _isinstance(a, SymInt) else False
    return a and b()


def sx_or(a, b):
    if sx_sym(a):
        c = _cond(a)
        if not _isinstance(c, _b.bool):
            try:
                r = _both(c, a if _isinstance(a, SymInt) else True, b())
                if r is not None:
                    return r
            except _STOPS:
                pass
            return (a if _isinstance(a, SymInt) else True) if c else b()
    return a or b()


def sx_pre(f):
    try:
        return f()
    except NameError:
        return _UNBOUND


def sx_merge(c, t, e, pre):
    c = _cond(c)
    if _isinstance(c, _b.bool):
        return None
    if _UNBOUND in [x for x in pre if not is_sym(x)]:
        pre = [None if x is _UNBOUND else x for x in pre]
    try:
        x, y = t(*pre), e(*pre)
    except _STOPS:
        return None
    out = []
    for a, b in zip(x, y):
        r = _both(c, a, b)
        if r is None:
            return None
        out.append(r)
    return out


def sx_set(c, *rows):
    """assign attributes one value for both outcomes of c; False where that cannot be done"""
    if not sx_sym(c):
        return False
    c = _cond(c)
    if _isinstance(c, _b.bool):
        return False
    vals = []
    try:
        for o, name, t, e, always in rows:
            if not always and (hasattr(type(o), name) or type(o).__setattr__ is not _b.object.__setattr__):
                return False
            r = _both(c, t(), e())
            if r is None:
                return False
            vals.append(r)
    except _STOPS:
        return False
    for (o, name, t, e, always), v in zip(rows, vals):
        setattr(o, name, v)
    return True


def sx_min(*a, **k):
    if k or len(a) == 1 and not hasattr(a[0], '__iter__'):
        return _b.min(*a, **k)
    return _extreme_of(_b.min, True, a[0] if len(a) == 1 else a)


def sx_max(*a, **k):
    if k or len(a) == 1 and not hasattr(a[0], '__iter__'):
        return _b.max(*a, **k)
    return _extreme_of(_b.max, False, a[0] if len(a) == 1 else a)


def _extreme_of(real, less, l):
    l = _b.list(l)
    if _b.any(sx_sym(x) for x in l) and _b.all(_plain(x) for x in l):
        r = l[0]
        for x in l[1:]:
            m = _both(x < r if less else x > r, x, r)
            if m is None:
                return real(l)
            r = m
        return r
    return real(l)


BUILTINS = dict(vars(_b))
BUILTINS.update(
    int=SInt, float=SFloat, bool=SBool, len=sx_len, bytes=SBytes, bytearray=SByteArray, memoryview=SMemoryView,
    str=SStr, type=SxType, range=SxRange, chr=sx_chr, ord=sx_ord, round=sx_round, pow=sx_pow,
    divmod=sx_divmod, hex=sx_hex, sum=sx_sum, print=sx_print, issubclass=sx_issubclass, open=sx_open,
    sx__contains=sx_contains, sx__get=sx_get, sx__getitem=sx_getitem, sx__join=sx_join, sx__mod=sx_mod,
    sx__tobytes=int_to_bytes, sx__dict=SxDict, dict=SxDict,
    sx__ite=sx_ite, sx__and=sx_and, sx__or=sx_or, sx__pre=sx_pre, sx__merge=sx_merge, sx__set=sx_set, sx__sym=sx_sym,
    min=sx_min, max=sx_max, complex=SComplex,
    sx__not=lambda x: nots(x) if _isinstance(x, SymBool) else not x)
MODULES = {'struct': struct, '_struct': struct, 'io': io, '_io': io, 'ctypes': ctypes, 'math': math, 'functools': functools,
           'operator': operator, '_operator': operator, 'binascii': binascii, 'cmath': cmath}
