"""Symbolic execution of a harness."""
import struct
import time
import traceback
import z3
from . import core, shims, load
from .core import (SymInt, SymBool, SymFloat, SymReal, SymBytes, SymByteArray, SymStr, SymRat, is_sym, mk, mkb, ands,
                   ors, nots, int_bytes, bytes_int, byte_sym, need, SxPathEnd, SxUnsupported, SxInconclusive, F32, F64)
from .ctx import BaseCtx, SIZE, canon


class SymCtx(BaseCtx):
    def __init__(self, engine, loader, rec):
        self.e, self.loader, self.rec = engine, loader, rec
        self.inputs = {}      # name -> (kind, term/value)
        self.obs = []
        self.labels = []

    def mod(self, name):
        return self.loader.load(name)

    def reset(self):
        """the package as a fresh process would import it"""
        load.shared(self.loader.repo)[1].restore()

    # ---- inputs
    def _new(self, name, kind, mkterm):
        if name in self.inputs:
            return self.inputs[name][1]
        t = mkterm()
        self.inputs[name] = (kind, t)
        return t

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        n = (hi).bit_length() if lo >= 0 else need(lo, hi)
        t = self._new(name, 'u' if lo >= 0 else 's', lambda: z3.BitVec(name, n))
        if lo >= 0:
            if not (lo == 0 and hi == (1 << n) - 1):
                self.e.add(z3.And(z3.UGE(t, lo), z3.ULE(t, hi)))
            return mk(z3.ZeroExt(1, t), lo, hi)
        if not (lo == -(1 << (n - 1)) and hi == (1 << (n - 1)) - 1):
            self.e.add(z3.And(t >= lo, t <= hi))
        return mk(t, lo, hi)

    def flt(self, name, t):
        n = 8 * SIZE[t]
        v = self._new(name, 'u', lambda: z3.BitVec(name, n))
        shims.no_nan(v, n)
        return SymFloat(t, v)

    def real(self, name, lo=-1000, hi=1000):
        from . import reals
        return reals.new_input(self, name, lo, hi)

    def close(self, a, b, label, tol=1e-9, rel=1e-9):
        from . import reals
        a, b = flat(a), flat(b)
        if len(a) != len(b):
            self.check(False, label)
            return
        for x, y in zip(a, b):
            self.labels.append(label)
            self.rec.count(label)
            if not self.rec.seen_violation(label):
                reals.check_equal(self, x, y, label, tol, rel)

    def trig(self, x):
        """(sine, cosine)"""
        from . import reals
        return reals.sincos(reals.lift(x))

    def root(self, x):
        from . import reals
        return reals.sqrt(reals.lift(x))

    def vec(self, l):
        from . import npshim
        return npshim.array(l)

    def at_most(self, a, b, label, slack=1e-9, soft=False):
        if soft:
            self.rec.soft.add(label)
        self.check(a <= b, label)

    def nonzero_divisors(self):
        self.e.nonzero = True

    def limit(self, n):
        """give up (cut) paths with more than n open branch decisions"""
        self.e.max_branches = n

    def choose(self, name, n):
        k = self.e.pick(n)
        self.inputs['?' + name] = ('k', k)
        return k

    def buf(self, name, n):
        out = []
        for i in range(n):
            out.append(self._new('%s[%d]' % (name, i), 'u', lambda: z3.BitVec('%s[%d]' % (name, i), 8)))
        return SymBytes(out)

    def chars(self, name, n, lo=1, hi=127):
        return SymStr([self.int('%s[%d]' % (name, i), lo, hi) for i in range(n)])

    def assume(self, c):
        self.e.assume(c)

    def assume_any(self, cs):
        self.e.assume(ors(cs))

    End = core.SymListEnd

    def symlist(self, name, elem, top):
        return core.SymList(self.int(name, 0, top), elem)

    # ---- values
    def enc(self, t, v):
        n = SIZE[t]
        if t[0] == 'f':
            if isinstance(v, SymFloat):
                b = shims.fbits(v, 'f' if t == 'f32' else 'd')
                return [core.simp8(z3.Extract(8 * j + 7, 8 * j, b)) for j in range(n - 1, -1, -1)]
            return list(struct.pack('>f' if t == 'f32' else '>d', v))
        if isinstance(v, SymBool):
            v = v.as_int()
        if isinstance(v, SymInt):
            return int_bytes(v, n)
        return list((v % (1 << (8 * n))).to_bytes(n, 'big'))

    def bytes(self, l):
        out = []
        for x in l:
            out += int_bytes(x, 1) if isinstance(x, SymInt) else [x]
        return SymBytes(out)

    def bytearray(self, l):
        return SymByteArray(list(self.bytes(list(l)).b))

    def tobytes(self, x):
        return shims.SBytes(x)

    def str(self, codes):
        return SymStr(codes)

    def bytesio(self, data):
        return shims.SBytesIO(data if data is not None else b'')

    def vfile(self, data):
        p = '/sx-virtual/pdu.raw'
        shims.VFILES[p] = data
        return p

    def same(self, a, b):
        if isinstance(a, (SymBytes, bytes, bytearray)) and isinstance(b, (SymBytes, bytes, bytearray)):
            if not isinstance(a, SymBytes):
                a = SymBytes(list(a))
            return a == b
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return ands([self.same(x, y) for x, y in zip(a, b)])
        fa, fb = isinstance(a, (SymFloat, float)), isinstance(b, (SymFloat, float))
        if fa and fb:
            if not isinstance(a, SymFloat) and not isinstance(b, SymFloat):
                return struct.pack('>d', a) == struct.pack('>d', b)
            if isinstance(a, SymFloat) and isinstance(b, SymFloat) and a.kind == b.kind:
                return mkb(a.t == b.t)
            x, y = core.f_lift(a), core.f_lift(b)
            return mkb(x == y)
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            return a == b if isinstance(a, SymStr) else b == a
        if is_sym(a) or is_sym(b):
            if a is None or b is None:
                return False
            if is_sym(a):
                r = a == b
            else:
                r = b == a
            return False if r is NotImplemented else r
        return a == b

    def all(self, cs):
        return ands(list(cs))

    def any(self, cs):
        return ors(list(cs))

    def nott(self, c):
        return nots(c)

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        return a if bool(c) else b

    # ---- checks
    def check(self, cond, label):
        self.labels.append(label)
        self.rec.count(label)
        if self.e.mode == 'real':
            from . import reals
            if not self.rec.seen_violation(label):
                reals.check_cond(self, cond, label)
            return
        self.e.stats.checks += 1
        if isinstance(cond, SymBool):
            cond = z3.simplify(cond.t)
            if z3.is_true(cond):
                cond = True
            elif z3.is_false(cond):
                cond = False
        elif not isinstance(cond, bool):
            cond = bool(cond)
        if cond is True:
            self.e.stats.checks_trivial += 1
            return
        if cond is False:
            self.violation(label, None)
            return
        if self.e._check(z3.Not(cond)) == z3.sat:
            self.violation(label, self.e.solver.model())
            self.e.assume(mkb(cond))
        else:
            self.e.add(cond)

    def violation(self, label, model):
        if self.rec.seen_violation(label):
            return
        if model is None:
            model = self.e.model()
        self.rec.violation(label, self.inputs_of(model))

    def inputs_of(self, m):
        if self.e.mode == 'real':
            from . import reals
            return reals.path_inputs(self)
        out = {}
        for n, (k, t) in self.inputs.items():
            if k == 'k':
                out[n] = t
            else:
                v = m.eval(t, model_completion=True)
                out[n] = v.as_long() if k == 'u' else v.as_signed_long()
        return out

    def observe(self, label, v):
        self.obs.append((label, v))

    def eval_obs(self, m, inputs=None):
        if self.e.mode == 'real':
            from . import reals
            fe = reals.FEval(self, inputs)
            return [[l, rcanon(fe, v)] for l, v in self.obs]
        return [[l, sx_canon(m, v)] for l, v in self.obs]


def flat(x):
    if isinstance(x, (list, tuple)) or (hasattr(x, 'ravel') and getattr(x, 'ndim', 0) > 0):
        return [z for y in x for z in flat(y)]
    return [x.item() if hasattr(x, 'ravel') else x]


def rcanon(fe, v):
    if v is None or isinstance(v, (bool, str)):
        return canon(v)
    l = flat(v)
    return [fe.val(x) for x in l]


def sx_canon(m, v):
    ev = lambda t: m.eval(t, model_completion=True)
    if isinstance(v, SymBool):
        return int(z3.is_true(z3.simplify(ev(v.t))))
    if isinstance(v, SymInt):
        return ev(v.t).as_signed_long()
    if isinstance(v, SymBytes):
        return 'x' + bytes(x if isinstance(x, int) else ev(x).as_long() for x in v.b).hex()
    if isinstance(v, SymStr):
        return 's' + ''.join(chr(x if isinstance(x, int) else ev(x.t).as_signed_long()) for x in v.c)
    if isinstance(v, SymFloat):
        if v.kind == 'f32':
            b = ev(v.t).as_long()
            f = struct.unpack('>f', b.to_bytes(4, 'big'))[0]
        elif v.kind == 'f64':
            f = struct.unpack('>d', ev(v.t).as_long().to_bytes(8, 'big'))[0]
        else:
            b = z3.simplify(z3.fpToIEEEBV(ev(v.t)))
            f = struct.unpack('>d', b.as_long().to_bytes(8, 'big'))[0]
        return 'f' + struct.pack('>d', f).hex()
    if isinstance(v, (SymRat, SymReal)):
        raise SxUnsupported('observing a rational')
    if isinstance(v, (list, tuple)):
        return [sx_canon(m, x) for x in v]
    return canon(v)
