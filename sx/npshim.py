"""numpy for symbolically executed code: object arrays that hold exact reals,
the real numpy for everything without symbolic values."""
import types
import numpy as np
from . import core, reals, shims
from .core import SymReal, eng, SxUnsupported

R = reals.R


def real_mode():
    e = core.Engine.cur
    return e is not None and e.mode == 'real'


def has_sym(x):
    if isinstance(x, SymReal):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


class Arr(np.ndarray):
    """object array; the dtype conversions native code could not do keep the values"""

    def astype(self, dtype, *a, **k):
        if self.dtype == object:
            if np.dtype(dtype).kind in 'fO':
                return self.copy() if k.get('copy', True) else self
            if np.dtype(dtype).kind in 'iu':
                return lifted(np.array([int(v) for v in self.ravel()], dtype=dtype).reshape(self.shape))
            raise SxUnsupported('astype')
        return np.ndarray.astype(self, dtype, *a, **k)

    def __matmul__(self, o):
        r = np.ndarray.__matmul__(self, o)
        return r.item() if isinstance(r, np.ndarray) and r.ndim == 0 else r

    def __rmatmul__(self, o):
        r = np.ndarray.__rmatmul__(self, o)
        return r.item() if isinstance(r, np.ndarray) and r.ndim == 0 else r


def lifted(a):
    if isinstance(a, np.ndarray) and a.dtype == object:
        return a.view(Arr)
    return a


def array(x, dtype=None, copy=True, **k):
    if has_sym(x):
        if dtype is not None and np.dtype(dtype).kind in 'iu':
            raise SxUnsupported('integer array of symbolic reals')
        r = np.array(x, dtype=object, copy=True, **k) if copy or not isinstance(x, np.ndarray) else x
        for i, v in enumerate(r.ravel()):
            if isinstance(v, np.ndarray):
                raise SxUnsupported('ragged array')
        return lifted(r)
    r = np.array(x, dtype=dtype, copy=copy, **k)
    if real_mode() and r.dtype.kind == 'f':
        return lifted(r.astype(object))
    return r


def asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return lifted(x)
    return array(x, dtype=dtype, **k)


def _alloc(name):
    real = getattr(np, name)

    def f(*a, **k):
        r = real(*a, **{n: v for n, v in k.items()})
        if real_mode() and isinstance(r, np.ndarray) and r.dtype.kind == 'f':
            r = lifted(r.astype(object))
        return r
    f.__name__ = name
    return f


def full(shape, v, dtype=None, **k):
    if has_sym(v):
        r = np.empty(shape, dtype=object)
        r[...] = v
        return lifted(r)
    return _alloc('full')(shape, v, dtype=dtype, **k)


def _like(name, val):
    def f(a, dtype=None, **k):
        if has_sym(a):
            r = np.empty(np.shape(a), dtype=object)
            r[...] = val if val is not None else 0.0
            return lifted(r)
        return _alloc(name)(a, dtype=dtype, **k)
    return f


def _ufunc(name, fn):
    real = getattr(np, name)

    def f(*a, **k):
        if any(has_sym(x) for x in a):
            if k.get('out') is not None:
                raise SxUnsupported('out=')
            arrs = [np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x for x in a]
            if all(x.ndim == 0 for x in arrs):
                return fn(*[x.item() for x in arrs])
            b = np.broadcast(*arrs) if len(arrs) > 1 else None
            if b is None:
                out = np.empty(arrs[0].shape, dtype=object)
                out.ravel()[:] = [fn(v) for v in arrs[0].ravel()]
                return lifted(out)
            out = np.empty(b.shape, dtype=object)
            out.ravel()[:] = [fn(*t) for t in b]
            return lifted(out)
        return real(*a, **k)
    f.__name__ = name
    _attach(f, real)
    return f


def norm(x, ord=None, axis=None, keepdims=False):
    if has_sym(x):
        if ord not in (None, 2, 'fro') or axis is not None:
            raise SxUnsupported('norm')
        t = reals.lift(0)
        for v in np.asarray(x, dtype=object).ravel():
            t = t + reals.lift(v) * reals.lift(v)
        return reals.sqrt(t)
    return np.linalg.norm(x, ord, axis, keepdims)


def _plain(a):
    return [np.array(x, dtype=object) if has_sym(x) and not isinstance(x, np.ndarray) else x for x in a]


class _Method:
    """reduce, accumulate, outer of a ufunc"""

    def __init__(self, real, name):
        self.f, self.name = getattr(real, name), name

    def __call__(self, *a, **k):
        if any(has_sym(x) for x in a):
            k.pop('dtype', None)
        return lifted(self.f(*_plain(a), **k))


def _attach(f, real):
    if isinstance(real, np.ufunc):
        for n in ('reduce', 'accumulate', 'outer'):
            setattr(f, n, _Method(real, n))


def _obj(name):
    """numpy functions that work elementwise through Python operators on object arrays"""
    real = getattr(np, name)

    def f(*a, **k):
        if any(has_sym(x) for x in a) and np.dtype(k.get('dtype', float)).kind in 'fO':
            k.pop('dtype', None)
        return lifted(real(*_plain(a), **k))
    f.__name__ = name
    _attach(f, real)
    return f


def fromiter(it, dtype=float, count=-1, **k):
    l = list(it)
    return array(l if count < 0 else l[:count], dtype=dtype)


class float64(np.float64):
    """np.float64(x): symbolic reals as they are"""

    def __new__(cls, x=0.0):
        return x if isinstance(x, SymReal) else array(x) if has_sym(x) or np.ndim(x) else np.float64(x)


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return np.isclose(a, b, rtol, atol, equal_nan)
    one = lambda x, y: bool(abs(reals.lift(x) - y) <= abs(reals.lift(y)) * rtol + atol)
    x, y = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    if x.ndim == 0:
        return one(x.item(), y.item())
    return np.array([one(u, v) for u, v in zip(x.ravel(), y.ravel())]).reshape(x.shape)


def _rows(m):
    m = np.asarray(m, dtype=object)
    if m.ndim != 2 or m.shape[0] != m.shape[1] or m.shape[0] > 4:
        raise SxUnsupported('linear algebra on other than small square matrices')
    return [[reals.lift(x) for x in r] for r in m]


def _det(m):
    if len(m) == 1:
        return m[0][0]
    t = reals.lift(0)
    for j, x in enumerate(m[0]):
        d = _det([r[:j] + r[j + 1:] for r in m[1:]])
        t = t + x * d if j % 2 == 0 else t - x * d
    return t


def det(m):
    return _det(_rows(m)) if has_sym(m) else np.linalg.det(m)


def inv(m):
    if not has_sym(m):
        return np.linalg.inv(m)
    m = _rows(m)
    n, d = len(m), _det(m)
    if bool(d == 0):
        raise np.linalg.LinAlgError('Singular matrix')
    cof = lambda i, j: _det([r[:j] + r[j + 1:] for k, r in enumerate(m) if k != i]) if n > 1 else reals.lift(1)
    return array([[cof(j, i) / d * (1 if (i + j) % 2 == 0 else -1) for j in range(n)] for i in range(n)])


def matrix_power(m, k):
    if not has_sym(m):
        return np.linalg.matrix_power(m, k)
    out = np.array(_rows(np.eye(len(m))), dtype=object)
    base = np.asarray(m if k >= 0 else inv(m), dtype=object)
    for _ in range(abs(k)):
        out = out.dot(base)
    return lifted(out)


def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if not (has_sym(a) or has_sym(b)):
        return np.cross(a, b, axisa, axisb, axisc, axis)
    if axis is not None:
        axisa = axisb = axisc = axis
    a = np.moveaxis(np.asarray(a, dtype=object), axisa, -1)
    b = np.moveaxis(np.asarray(b, dtype=object), axisb, -1)
    if a.shape[-1] != 3 or b.shape[-1] != 3:
        raise SxUnsupported('cross product in the plane')
    a, b = np.broadcast_arrays(a, b)
    c = [a[..., i] * b[..., j] - a[..., j] * b[..., i] for i, j in ((1, 2), (2, 0), (0, 1))]
    return lifted(np.moveaxis(np.stack([np.asarray(x, dtype=object) for x in c], -1), -1, axisc))


def einsum(spec, *a, **k):
    return lifted(np.einsum(spec, *[np.asarray(x, dtype=object) if any(has_sym(y) for y in a) else x for x in a],
                            optimize=False))


class Linalg(types.ModuleType):
    def __getattr__(self, n):
        return _guard(getattr(np.linalg, n), 'linalg.' + n)


def _guard(f, n):
    if not callable(f) or isinstance(f, type):
        return f

    def g(*a, **k):
        if any(has_sym(x) for x in a):
            raise SxUnsupported('numpy.%s of symbolic reals' % n)
        return f(*a, **k)
    return g


class Np(types.ModuleType):
    def __getattr__(self, n):
        v = getattr(np, n)
        if isinstance(v, np.ufunc):
            return v
        return v


def _build():
    m = Np('numpy')
    m.array, m.asarray, m.asanyarray, m.ascontiguousarray = array, asarray, asarray, asarray
    m.asfarray = asarray
    for n in ('zeros', 'ones', 'empty', 'eye', 'identity', 'linspace', 'diag'):
        setattr(m, n, _alloc(n))
    m.diag = lambda v, k=0: lifted(np.diag(np.asarray(v, dtype=object) if has_sym(v) else v, k))
    m.full = full
    m.zeros_like, m.ones_like, m.empty_like = _like('zeros_like', 0.0), _like('ones_like', 1.0), _like('empty_like', 0.0)
    m.copy = lambda x, **k: array(x)
    L = reals.lift
    for n, fn in {'sin': lambda v: reals.sincos(L(v))[0], 'cos': lambda v: reals.sincos(L(v))[1],
                  'tan': lambda v: reals.tan(L(v)), 'sqrt': lambda v: reals.sqrt(L(v)),
                  'arctan': lambda v: reals.atan(L(v)), 'arctan2': lambda a, b: reals.atan2(L(a), L(b)),
                  'arcsin': lambda v: reals.asin(L(v)), 'arccos': lambda v: reals.acos(L(v)),
                  'radians': lambda v: L(v).radians(), 'deg2rad': lambda v: L(v).radians(),
                  'degrees': lambda v: L(v).degrees(), 'rad2deg': lambda v: L(v).degrees(),
                  'hypot': lambda a, b: reals.sqrt(L(a) * L(a) + L(b) * L(b)),
                  'abs': lambda v: abs(v), 'absolute': lambda v: abs(v), 'fabs': lambda v: abs(v),
                  'square': lambda v: v * v, 'floor': lambda v: v.__floor__(), 'trunc': lambda v: v.__trunc__(),
                  'isnan': lambda v: False, 'isinf': lambda v: False, 'isfinite': lambda v: True,
                  'sign': lambda v: L(v).sign(),
                  'maximum': lambda a, b: a if bool(a >= b) else b,
                  'minimum': lambda a, b: a if bool(a <= b) else b}.items():
        setattr(m, n, _ufunc(n, fn))
    m.clip = lambda x, lo, hi, **k: m.minimum(m.maximum(x, lo), hi)
    for n in ('dot', 'matmul', 'outer', 'inner', 'vdot', 'add', 'subtract', 'multiply', 'divide', 'true_divide', 'negative',
              'power', 'transpose', 'sum', 'stack', 'vstack', 'hstack', 'column_stack', 'concatenate', 'reshape',
              'ravel', 'atleast_1d', 'atleast_2d', 'squeeze', 'trace', 'tensordot', 'prod', 'swapaxes'):
        setattr(m, n, _obj(n))
    m.cross, m.einsum = cross, einsum
    m.stack = lambda xs, axis=0, **k: lifted(np.stack([np.asarray(x, dtype=object) for x in xs], axis)) \
        if has_sym(list(xs)) else np.stack(xs, axis)
    la = Linalg('numpy.linalg')
    la.norm, la.det, la.inv, la.matrix_power = norm, det, inv, matrix_power
    la.solve = lambda a, b: lifted(np.dot(np.asarray(inv(a), dtype=object), np.asarray(b, dtype=object))) \
        if has_sym(a) or has_sym(b) else np.linalg.solve(a, b)
    m.fromiter, m.float64, m.double, m.isclose = fromiter, float64, float64, isclose
    m.allclose = lambda a, b, *x, **k: bool(np.all(isclose(a, b, *x, **k)))
    m.copysign = _ufunc('copysign', lambda a, b: abs(L(a)) if bool(L(b) >= 0) else -abs(L(a)))
    m.require = lambda x, dtype=None, requirements=None, **k: asarray(x, dtype=dtype)
    la.multi_dot = lambda xs, **k: __import__('functools').reduce(m.dot, xs)
    m.linalg = la

    def angle(z, deg=False):
        v = shims.cmath.phase(z)
        return v * 180 / shims.math.pi if deg else v
    m.angle = angle
    return m


NP = _build()


def get(name):
    if name == 'numpy':
        return NP
    if name == 'numpy.linalg':
        return NP.linalg
    import importlib
    return importlib.import_module(name)
