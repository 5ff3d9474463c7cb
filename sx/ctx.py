"""The harness interface.  One harness, two executions: symbolically over the
re-compiled sources (SymCtx, in symctx.py) and concretely over the real
package (ConcCtx), which replays counterexamples and path witnesses."""
import importlib
import io
import os
import struct
import sys

SIZE = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'f32': 4, 'f64': 8}
CLASS_HOMES = ('opendis.dis7', 'opendis.record', 'opendis.record.common', 'opendis.record.radio',
               'opendis.record.warfare', 'opendis.record.base')


class SkipPath(Exception):
    """concrete inputs fall outside the harness's assumptions"""


class CheckFailed(Exception):
    pass


class BaseCtx:
    concrete = False

    # ---- shared conveniences
    def cls(self, name):
        for m in CLASS_HOMES:
            c = getattr(self.mod(m), name, None)
            if c is not None:
                return c
        raise AttributeError(name)

    def uint(self, name, bits):
        return self.int(name, 0, (1 << bits) - 1)

    def sint(self, name, bits):
        return self.int(name, -(1 << (bits - 1)), (1 << (bits - 1)) - 1)

    def require(self, cond, label):
        self.check(cond, label)

    def equal(self, a, b, label):
        self.check(self.same(a, b), label)

    def instream(self, data):
        return self.mod('opendis.stream').DataInputStream(self.bytesio(data))

    def outstream(self):
        o = self.bytesio(None)
        return o, self.mod('opendis.stream').DataOutputStream(o)

    def serialize(self, obj):
        o, ds = self.outstream()
        obj.serialize(ds)
        return o.getvalue()

    def create(self, data):
        return self.mod('opendis.PduFactory').createPdu(data)

    def parse_record(self, name, data):
        """(object, stream) of a record parsed on its own"""
        ins = self.instream(data)
        o = self.cls(name)()
        o.parse(ins)
        return o, ins

    def raises(self, fn, *a, **k):
        """the exception fn raises, or None"""
        try:
            fn(*a, **k)
        except Exception as e:
            return e
        return None


class ConcCtx(BaseCtx):
    concrete = True

    def __init__(self, inputs, repo):
        self.inputs = inputs
        self.repo = repo
        self.failures = []
        self.obs = []
        self.labels = []
        self.mode_real = False

    def mod(self, name):
        return importlib.import_module(name)

    def reset(self):
        for n in list(sys.modules):
            if n.split('.')[0] == 'opendis':
                del sys.modules[n]

    def _in(self, name, default=0):
        return self.inputs.get(name, default)

    def int(self, name, lo, hi):
        v = self._in(name, lo if lo > 0 or hi < 0 else 0)
        if not lo <= v <= hi:
            raise SkipPath(name)
        return v

    def flt(self, name, t):
        b = self._in(name)
        n = SIZE[t]
        return struct.unpack('>f' if t == 'f32' else '>d', int(b).to_bytes(n, 'big'))[0]

    def real(self, name, lo=-1000, hi=1000):
        """a real-valued input of the exact-real harnesses"""
        self.mode_real = True
        v = float(self._in(name, 0.0))
        if not lo <= v <= hi:
            raise SkipPath(name)
        return v

    def close(self, a, b, label, tol=1e-9, rel=1e-9):
        """equal up to rounding: tol absolute, rel relative to the larger side (and the larger of a vector)"""
        a, b = flat(a), flat(b)
        self.labels.append(label)
        ok = len(a) == len(b)
        top = max([abs(x) for x in a + b] or [0.0])
        for x, y in zip(a, b):
            if not abs(x - y) <= tol + rel * top:
                ok = False
        if not ok:
            self.failures.append(label)

    def at_most(self, a, b, label, slack=1e-9, soft=False):
        self.check(a <= b + slack * max(1.0, abs(a), abs(b)), label)

    def trig(self, x):
        import math
        return math.sin(x), math.cos(x)

    def root(self, x):
        import math
        return math.sqrt(max(0.0, x))

    def vec(self, l):
        import numpy
        return numpy.array(l, dtype=float)

    def nonzero_divisors(self):
        pass

    def limit(self, n):
        pass

    def choose(self, name, n):
        return self._in('?' + name, 0)

    def buf(self, name, n):
        return bytes(self._in('%s[%d]' % (name, i)) for i in range(n))

    def chars(self, name, n, lo=1, hi=127):
        return ''.join(chr(self.int('%s[%d]' % (name, i), lo, hi)) for i in range(n))

    class End(BaseException):
        pass

    def symlist(self, name, elem, top):
        return [elem] * self.int(name, 0, top)

    def assume(self, c):
        if not c:
            raise SkipPath()

    def assume_any(self, cs):
        self.assume(any(cs))

    def check(self, cond, label):
        self.labels.append(label)
        if not cond:
            self.failures.append(label)

    def observe(self, label, v):
        if self.mode_real and not (v is None or isinstance(v, (bool, str))):
            v = flat(v)
            self.obs.append([label, [float(x) for x in v]])
            return
        self.obs.append([label, canon(v)])

    def enc(self, t, v):
        c = {'u8': 'B', 'u16': 'H', 'u32': 'I', 'u64': 'Q', 'i8': 'b', 'i16': 'h', 'i32': 'i', 'i64': 'q',
             'f32': 'f', 'f64': 'd'}[t]
        return list(struct.pack('>' + c, v))

    def bytes(self, l):
        return bytes(l)

    def bytearray(self, l):
        return bytearray(l)

    def tobytes(self, x):
        return bytes(x)

    def str(self, codes):
        return ''.join(chr(c) for c in codes)

    def bytesio(self, data):
        return io.BytesIO(data) if data is not None else io.BytesIO()

    def vfile(self, data):
        import tempfile
        d = tempfile.mkdtemp(prefix='sxv')
        p = os.path.join(d, 'pdu.raw')
        with open(p, 'wb') as f:
            f.write(data)
        self.cleanup = getattr(self, 'cleanup', []) + [(p, d)]
        return p

    def same(self, a, b):
        if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
            return bytes(a) == bytes(b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, float) and isinstance(b, float):
            return struct.pack('>d', a) == struct.pack('>d', b)
        return a == b

    def all(self, cs):
        return all(cs)

    def any(self, cs):
        return any(cs)

    def nott(self, c):
        return not c

    def ite(self, c, a, b):
        return a if c else b


def flat(x):
    if isinstance(x, (list, tuple)) or (hasattr(x, 'ravel') and getattr(x, 'ndim', 0) > 0):
        return [z for y in x for z in flat(y)]
    return [float(x)]


def canon(v):
    if v is None:
        return None
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return int(v)
    if isinstance(v, float):
        return 'f' + struct.pack('>d', v).hex()
    if isinstance(v, (bytes, bytearray)):
        return 'x' + bytes(v).hex()
    if isinstance(v, str):
        return 's' + v
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    return 'o' + type(v).__name__
