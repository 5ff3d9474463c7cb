"""C29: the size a record reports is the number of octets it emits."""
from .common import *

ASSUMPTIONS = BASE_ASSUMPTIONS[2:]


def sized(ctx, name, tier):
    """constructed, changed and decoded objects all report the octets they emit"""
    C = ctx.cls(name)
    if not hasattr(C, 'marshalledSize'):
        return
    a = gen(ctx, name, '', shape(tier, name).fresh())
    o = C()
    agree(ctx, o, 'new')
    fill(ctx, o, a)
    n = agree(ctx, o, 'filled')
    ctx.equal(n, len(octets(ctx, a)), 'octets of the layout')
    ctx.observe('size', n)
    # a second object changes in steps: nothing may be remembered from before
    b = gen(ctx, name, 'second', shape(tier, name).fresh())
    fill(ctx, o, b)
    agree(ctx, o, 'changed')
    p, ins = parse_any(ctx, name, ctx.bytes(octets(ctx, a)))
    agree(ctx, p, 'decoded')
    ctx.equal(p.marshalledSize(), n, 'decoded: octets received')
    q = construct(ctx, a)
    agree(ctx, q, 'constructed')


def longlist(ctx, name, lst, k):
    """a long list"""
    if not hasattr(ctx.cls(name), 'marshalledSize'):
        return
    node = long_node(ctx, name, lst, k)
    n = agree(ctx, fill(ctx, ctx.cls(name)(), node), 'filled')
    data = ctx.bytes(octets(ctx, node))
    ctx.equal(n, len(data), 'octets of the layout')
    if not LAYOUTS[name].pdu:
        p, _ = parse_any(ctx, name, data)
        agree(ctx, p, 'decoded')


def agree(ctx, o, what):
    out = ctx.serialize(o)
    ctx.equal(o.marshalledSize(), len(out), what + ': marshalledSize')
    if hasattr(o, 'recordLength'):
        ctx.equal(o.recordLength, len(out), what + ': recordLength')
    return len(out)


def opaque(ctx, name, n):
    """records of undescribed content"""
    data = ctx.buf('data', n)
    C = ctx.cls(name)
    o = C(data)
    agree(ctx, o, 'constructed')
    o.data = ctx.buf('other', n + 8)
    agree(ctx, o, 'changed')
    if n % 8:
        return
    p = C()
    p.parse(ctx.instream(data), n)
    agree(ctx, p, 'decoded')
    ctx.equal(p.marshalledSize(), n, 'decoded: octets received')


def unknown(ctx, base, n):
    rt = ctx.uint('recordType', 32)
    for k in KNOWN_SV:
        ctx.assume(rt != k)
    C = ctx.mod('opendis.record').getStandardVariableClass(rt, ctx.cls(base))
    o = C(ctx.buf('data', n))
    agree(ctx, o, 'constructed')
    o.data = ctx.buf('other', n + 8)
    agree(ctx, o, 'changed')


def lengths(ctx, n):
    """what a variable record accepts as its length"""
    C = ctx.cls('UnknownRadio')
    data = ctx.buf('data', n)
    k = ctx.sint('length', 16)
    box = []
    o = C()
    ins = ctx.instream(data)
    e = ctx.raises(lambda: o.parse(ins, k))
    if e is None:
        ctx.require(ctx.all([k >= 0, k <= n]), 'a negative length, or one beyond the data, is refused')
        ctx.equal(o.marshalledSize(), k, 'decoded: octets received')
        ctx.equal(ins.stream.tell(), k, 'octets consumed')
    else:
        ctx.require(ctx.nott(ctx.all([k >= 0, k <= n, k % 8 == 0])), 'refused only with a reason')


def shape(tier, name):
    q = tier == 'quick'
    return Bounds(per_list=2 if q else 3, total=2 if q else 4, sv_data=(2, 10), fixed={'variableDatum': 5},
                  big={'opaque': (8,)})


def tasks(tier):
    out = rec_tasks('sized', tier)
    for n in (0, 1, 8, 13, 24) if tier == 'quick' else (0, 1, 3, 7, 8, 9, 13, 16, 24, 104):
        for name in ('UnknownRadio', 'UnknownAntennaPattern'):
            out.append(dict(subject=name, fn='opaque', params={'name': name, 'n': n}))
    for b in ('StandardVariableRecord', 'DamageDescriptionRecord', 'VariableTransmitterParametersRecord'):
        for n in (2, 10) if tier == 'quick' else (2, 10, 18, 42, 250):
            out.append(dict(subject='unknown record', fn='unknown', params={'base': b, 'n': n}))
    out.append(dict(subject='UnknownRadio', fn='lengths', params={'n': 16}))
    return out + [t for t in long_tasks('longlist', tier, 24) if not LAYOUTS[t['params']['name']].pdu]


def bounds(tier):
    return {'records': 'every class with marshalledSize, every value, <= %s elements per list / record, and one list of 24' % (
        '2/2' if tier == 'quick' else '3/4'), 'opaque records': 'sizes up to %d' % (26 if tier == 'quick' else 258)}
