"""C09: variable datum values of any bit length keep their octets and their 64-bit padding."""
from .common import *

ASSUMPTIONS = BASE_ASSUMPTIONS[1:]


def datum(ctx, n, nm=''):
    return gen(ctx, 'VariableDatum', nm, Bounds(fixed={'variableDatum': n}).fresh())


def encode(ctx, n):
    node = datum(ctx, n)
    o = fill(ctx, ctx.cls('VariableDatum')(), node)
    out = ctx.serialize(o)
    ctx.observe('octets', out)
    ctx.equal(len(out), 8 + (n + 7) // 8 * 8, 'octets: header, value, padding to 64 bits')
    ctx.equal(out, ctx.bytes(octets(ctx, node)), 'encoded octets')
    # wherever it lies in the stream
    b, ds = ctx.outstream()
    ds.write_unsigned_byte(1)
    o.serialize(ds)
    ctx.equal(b.getvalue(), ctx.bytes([1] + octets(ctx, node)), 'encoded octets behind another')


def decode(ctx, n):
    node = datum(ctx, n)
    data = octets(ctx, node)
    o, ins = ctx.parse_record('VariableDatum', ctx.bytes(data + list(ctx.buf('tail', 9))))
    ctx.equal(ins.stream.tell(), len(data), 'octets consumed')
    check(ctx, o, node, 'decoded')
    ctx.equal(ctx.serialize(o), ctx.bytes(data), 're-encoded octets')
    ins = ctx.instream(ctx.bytes([0] + data + list(ctx.buf('tail', 9))))
    ins.read_unsigned_byte()
    o = ctx.cls('VariableDatum')()
    o.parse(ins)
    ctx.equal(ins.stream.tell(), 1 + len(data), 'octets consumed behind another')
    check(ctx, o, node, 'decoded behind another')


def pair(ctx, n, m, name):
    """two data in one PDU: the second is where the padding says"""
    a, b = datum(ctx, n, 'first'), datum(ctx, m, 'second')
    p = ctx.cls(name)()
    for x in (a, b):
        p.variableDatumRecords.append(fill(ctx, ctx.cls('VariableDatum')(), x))
    out = ctx.serialize(p)
    q = ctx.create(out)
    ctx.equal(len(q.variableDatumRecords), 2, 'number of data')
    if len(q.variableDatumRecords) == 2:
        check(ctx, q.variableDatumRecords[0], a, 'first')
        check(ctx, q.variableDatumRecords[1], b, 'second')
    ctx.equal(ctx.serialize(q), out, 're-encoded octets')


def declared(ctx, n):
    """any declared bit length over n octets of content"""
    bits = ctx.uint('bits', 32)
    data = ctx.bytes(ctx.enc('u32', ctx.uint('id', 32)) + ctx.enc('u32', bits) + list(ctx.buf('body', n)))
    box = []
    e = ctx.raises(lambda: box.append(ctx.parse_record('VariableDatum', data)))
    fits = (bits + 63) // 64 * 8 <= n
    if e is not None:
        ctx.require(ctx.nott(fits), 'a datum that fits is accepted')
        return
    ctx.require(fits, 'a datum longer than the data is refused')
    o, ins = box[0]
    ctx.equal(len(o.variableData), (bits + 7) // 8, 'octets of the value')
    ctx.equal(ins.stream.tell(), 8 + (bits + 63) // 64 * 8, 'octets consumed')


HOLDERS = ('SetDataPdu', 'DataPdu', 'EventReportPdu', 'CommentPdu', 'ActionRequestPdu', 'ActionResponsePdu',
           'SetDataReliablePdu', 'DataReliablePdu', 'EventReportReliablePdu', 'CommentReliablePdu',
           'ActionRequestReliablePdu', 'ActionResponseReliablePdu')


def tasks(tier):
    out = []
    q = tier == 'quick'
    for n in list(range(0, 34 if q else 130)) + ([64, 255, 256, 257, 1000] if q else [255, 256, 257, 1000]):
        for f in ('encode', 'decode'):
            out.append(dict(subject='VariableDatum', fn=f, params={'n': n}, witnesses=2))
    sizes = (0, 1, 5, 8, 9) if q else tuple(range(0, 18))
    for name in HOLDERS + ('AggregateStatePdu',):
        for n in ((5,) if q else (0, 5, 8)) if name != 'SetDataPdu' else sizes:
            for m in ((9,) if q else (1, 8, 9)) if name != 'SetDataPdu' else sizes:
                out.append(dict(subject=name, fn='pair', params={'n': n, 'm': m, 'name': name}, witnesses=1))
    for n in (0, 8, 16, 20) if q else (0, 1, 7, 8, 9, 15, 16, 17, 23, 24, 40):
        out.append(dict(subject='VariableDatum', fn='declared', params={'n': n}))
    return out


def bounds(tier):
    return {'value octets': '0..33, 64, 255..257, 1000' if tier == 'quick' else '0..129, 255..257, 1000',
            'bit length': 'every bit length of that many octets; every 32-bit declared length over short data'}
