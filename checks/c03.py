"""C03: the primitive stream encodings are exact inverses, big-endian and of fixed size."""
from .common import *

ASSUMPTIONS = BASE_ASSUMPTIONS[:1] + BASE_ASSUMPTIONS[3:]

# method suffix -> wire type
PRIMS = {'byte': 'i8', 'unsigned_byte': 'u8', 'short': 'i16', 'unsigned_short': 'u16', 'int': 'i32',
         'unsigned_int': 'u32', 'long': 'i64', 'float': 'f32', 'double': 'f64',
         'int8': 'i8', 'int16': 'i16', 'int32': 'i32', 'int64': 'i64', 'uint8': 'u8', 'uint16': 'u16',
         'uint32': 'u32', 'uint64': 'u64', 'float32': 'f32', 'float64': 'f64'}


def prim(ctx, name):
    t = PRIMS[name]
    n = SCALARS[t]
    v = gen_scalar(ctx, t, 'v')
    o, ds = ctx.outstream()
    getattr(ds, 'write_' + name)(v)
    out = o.getvalue()
    ctx.observe('octets', out)
    ctx.equal(out, ctx.bytes(ctx.enc(t, v)), 'octets written')
    ctx.equal(o.tell(), n, 'octets written count')
    tail = ctx.buf('tail', 2)
    ins = ctx.instream(ctx.bytes(ctx.enc(t, v) + list(tail)))
    r = getattr(ins, 'read_' + name)()
    ctx.equal(r, v, 'value read back')
    ctx.equal(ins.stream.tell(), n, 'octets consumed')


def anyoctets(ctx, name):
    """every octet pattern (floats: not NaN) decodes and re-encodes to itself"""
    t = PRIMS[name]
    n = SCALARS[t]
    if t[0] == 'f':
        data = ctx.bytes(ctx.enc(t, gen_scalar(ctx, t, 'v')))
    else:
        data = ctx.buf('octets', n)
    ins = ctx.instream(data)
    v = getattr(ins, 'read_' + name)()
    if t[0] == 'u':
        ctx.require(v >= 0, 'unsigned value is not negative')
    if t[0] != 'f':
        b = 8 * n
        lo, hi = (0, (1 << b) - 1) if t[0] == 'u' else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
        ctx.require(ctx.all([v >= lo, v <= hi]), 'value in range')
    o, ds = ctx.outstream()
    getattr(ds, 'write_' + name)(v)
    ctx.observe('octets', o.getvalue())
    ctx.equal(o.getvalue(), data, 'octets reproduced')


def overflow(ctx, name):
    t = PRIMS[name]
    b = 8 * SCALARS[t]
    lo, hi = (0, (1 << b) - 1) if t[0] == 'u' else (-(1 << (b - 1)), (1 << (b - 1)) - 1)
    v = ctx.int('v', -(1 << 70), 1 << 70)
    ctx.assume(ctx.any([v < lo, v > hi]))
    o, ds = ctx.outstream()
    e = ctx.raises(getattr(ds, 'write_' + name), v)
    ctx.require(e is not None, 'value out of range refused')
    ctx.equal(len(o.getvalue()), 0, 'nothing written')


def short(ctx, name):
    """reading with too few octets left raises"""
    n = SCALARS[PRIMS[name]]
    k = ctx.choose('octets left', n)
    ins = ctx.instream(ctx.buf('octets', k))
    ctx.require(ctx.raises(getattr(ins, 'read_' + name)) is not None, 'short read refused')


def boolean(ctx):
    b = ctx.choose('b', 2) == 1
    o, ds = ctx.outstream()
    ds.write_boolean(b)
    ctx.equal(o.getvalue(), ctx.bytes([int(b)]), 'octet written')
    x = ctx.uint('octet', 8)
    ins = ctx.instream(ctx.bytes(ctx.enc('u8', x)))
    r = ins.read_boolean()
    ctx.require(ctx.same(bool(r), bool(x != 0)), 'value read back')
    ctx.equal(ins.stream.tell(), 1, 'octets consumed')


def char(ctx, wide):
    n = 2 if wide else 1
    c = ctx.str([ctx.uint('c', 8 * n)])
    o, ds = ctx.outstream()
    (ds.write_char if wide else ds.write_char8)(c)
    ctx.equal(o.getvalue(), ctx.bytes(ctx.enc('u16' if wide else 'u8', ctx.uint('c', 8 * n))), 'octets written')
    ins = ctx.instream(o.getvalue())
    r = ins.read_char() if wide else ins.read_char8()
    ctx.equal(r, c, 'character read back')
    ctx.equal(ins.stream.tell(), n, 'octets consumed')


def text(ctx, top):
    n = ctx.choose('n', top + 1)
    b = ctx.buf('b', n)
    o, ds = ctx.outstream()
    ds.write_utf(b)
    out = o.getvalue()
    ctx.equal(out, ctx.bytes(list(n.to_bytes(2, 'big')) + list(b)), 'octets written')
    ins = ctx.instream(ctx.bytes(list(n.to_bytes(2, 'big')) + list(b) + list(ctx.buf('tail', 2))))
    ctx.equal(ctx.tobytes(ins.read_utf()), b, 'text read back')
    ctx.equal(ins.stream.tell(), n + 2, 'octets consumed')
    # the declared length decides, and a declared length beyond the data is refused
    d = ctx.uint('declared', 16)
    ins = ctx.instream(ctx.bytes(ctx.enc('u16', d) + list(b)))
    e = ctx.raises(ins.read_utf) if bool(d > n) else None
    ctx.require(ctx.any([d <= n, e is not None]), 'declared length beyond the data refused')


LONG = [127, 128, 255, 256, 4095, 32767, 32768, 65534, 65535]


def longtext(ctx, n):
    """strings of every length class of the 16-bit length; the octets at both ends are symbolic"""
    a, z = ctx.buf('first', 2), ctx.buf('last', 2)
    b = ctx.bytes(list(a) + [i * 7 & 255 for i in range(n - 4)] + list(z))
    o, ds = ctx.outstream()
    ds.write_utf(b)
    ds.write_bytes(b)
    want = list(n.to_bytes(2, 'big')) + list(b)
    ctx.equal(o.getvalue(), ctx.bytes(want + list(b)), 'octets written')
    ins = ctx.instream(ctx.bytes(want + list(b) + list(ctx.buf('tail', 2))))
    ctx.equal(ctx.tobytes(ins.read_utf()), b, 'text read back')
    ctx.equal(ins.stream.tell(), n + 2, 'octets consumed')
    ctx.equal(ctx.tobytes(ins.read_bytes(n)), b, 'octets read back')
    ctx.equal(ins.stream.tell(), 2 * n + 2, 'octets consumed')
    ins = ctx.instream(ctx.bytes(want[:-1]))
    ctx.require(ctx.raises(ins.read_utf) is not None, 'declared length beyond the data refused')


def toolong(ctx, n):
    """a string whose length does not fit is refused"""
    o, ds = ctx.outstream()
    b = ctx.bytes([1] * (n - 1) + list(ctx.buf('last', 1)))
    ctx.require(ctx.raises(ds.write_utf, b) is not None, 'text of 65536 octets or more refused')


def raw(ctx, top):
    n = ctx.choose('n', top + 1)
    b = ctx.buf('b', n)
    o, ds = ctx.outstream()
    ds.write_bytes(b)
    ctx.equal(o.getvalue(), b, 'octets written')
    k = ctx.choose('k', top + 3)
    ins = ctx.instream(b)
    if k <= n:
        ctx.equal(ctx.tobytes(ins.read_bytes(k)), ctx.bytes(list(b)[:k]), 'octets read')
        ctx.equal(ins.stream.tell(), k, 'octets consumed')
    else:
        ctx.require(ctx.raises(ins.read_bytes, k) is not None, 'short read refused')


def mixed(ctx, length):
    """values of any types written one after the other are read back in order"""
    names = ['byte', 'unsigned_byte', 'short', 'unsigned_short', 'int', 'unsigned_int', 'long', 'uint64', 'float',
             'double']
    seq = [names[ctx.choose('type %d' % i, len(names))] for i in range(length)]
    vals = [gen_scalar(ctx, PRIMS[s], 'v%d' % i) for i, s in enumerate(seq)]
    o, ds = ctx.outstream()
    for s, v in zip(seq, vals):
        getattr(ds, 'write_' + s)(v)
    want = []
    for s, v in zip(seq, vals):
        want += ctx.enc(PRIMS[s], v)
    ctx.observe('octets', o.getvalue())
    ctx.equal(o.getvalue(), ctx.bytes(want), 'octets written')
    ins = ctx.instream(o.getvalue())
    for s, v in zip(seq, vals):
        ctx.equal(getattr(ins, 'read_' + s)(), v, 'value read back in sequence')


def tasks(tier):
    out = []
    for n, t in PRIMS.items():
        out.append(dict(subject=n, fn='prim', params={'name': n}))
        out.append(dict(subject=n, fn='anyoctets', params={'name': n}))
        out.append(dict(subject=n, fn='short', params={'name': n}))
        if t[0] != 'f':
            out.append(dict(subject=n, fn='overflow', params={'name': n}))
    out.append(dict(subject='boolean', fn='boolean'))
    out.append(dict(subject='char', fn='char', params={'wide': True}))
    out.append(dict(subject='char8', fn='char', params={'wide': False}))
    q = tier == 'quick'
    out.append(dict(subject='utf', fn='text', params={'top': 6 if q else 24}))
    for n in LONG:
        out.append(dict(subject='utf', fn='longtext', params={'n': n}))
    for n in (65536, 65537, 131072):
        out.append(dict(subject='utf', fn='toolong', params={'n': n}))
    out.append(dict(subject='bytes', fn='raw', params={'top': 6 if q else 24}))
    out.append(dict(subject='sequence', fn='mixed', params={'length': 2 if q else 4}, weight=5))
    return out


def bounds(tier):
    q = tier == 'quick'
    return {'values': 'every value of each primitive; out-of-range integers within +-2^70',
            'text and raw octets': '<= %d all symbolic; %s with symbolic ends' % (6 if q else 24, LONG), 'mixed sequences': '%d values' % (2 if q else 4)}
