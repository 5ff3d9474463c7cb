"""C11: modulation and antenna parameters of transmitters keep their kind, length and octets."""
from .common import *

ASSUMPTIONS = BASE_ASSUMPTIONS
N = 'TransmitterPdu'


def shape(tier, mp, ap):
    q = tier == 'quick'
    return Bounds(per_list=1, total=1, fixed={'mp': mp, 'ap': ap}, sv_data=(2,),
                  big={'opaque': (1, 8, 16, 24) if q else (1, 2, 7, 8, 9, 15, 16, 17, 24, 32, 40, 64, 128, 248, 255)})


def decode(ctx, mp, ap, tier):
    node = gen_pdu(ctx, N, shape(tier, mp, ap))
    data = octets(ctx, node)
    p = ctx.create(ctx.bytes(data))
    check(ctx, p, node, 'decoded')
    out = ctx.serialize(p)
    ctx.observe('octets', out)
    ctx.equal(len(out), len(data), 're-encoded length')
    if len(out) == len(data):
        ctx.equal(out, ctx.bytes(data), 're-encoded octets')


def bulk(ctx, mp, ap, n):
    """parameters of many octets"""
    node = gen_pdu(ctx, N, Bounds(per_list=0, total=0, fixed={'mp': mp, 'ap': ap}, big={'opaque': (n,)}))
    data = octets(ctx, node)
    p = ctx.create(ctx.bytes(data))
    check(ctx, p, node, 'decoded')
    for x, w in ((p, 're-encoded'), (fill(ctx, ctx.cls(N)(), node), 'encoded')):
        out = ctx.serialize(x)
        ctx.equal(len(out), len(data), w + ' length')
        if len(out) == len(data):
            ctx.equal(out, ctx.bytes(data), w + ' octets')


def encode(ctx, mp, ap, tier):
    node = gen_pdu(ctx, N, shape(tier, mp, ap))
    p = fill(ctx, ctx.cls(N)(), node)
    out = ctx.serialize(p)
    want = octets(ctx, node)
    ctx.observe('octets', out)
    ctx.equal(len(out), len(want), 'encoded length')
    if len(out) == len(want):
        ctx.equal(out, ctx.bytes(want), 'encoded octets')


def change(ctx, a, b):
    """replacing the parameters leaves no trace of the previous ones"""
    x = gen_pdu(ctx, N, Bounds(per_list=1, total=1, fixed={'mp': a, 'ap': 1}, sv_data=(2,), big={'opaque': (8,)}))
    p = ctx.create(ctx.bytes(octets(ctx, x)))
    y = gen_pdu(ctx, N, Bounds(per_list=1, total=0, fixed={'mp': b, 'ap': 0}, sv_data=(2,), big={'opaque': (16,)}),
                'new')
    p.variableTransmitterParameters.clear()
    fill(ctx, p, y)
    ctx.equal(ctx.serialize(p), ctx.bytes(octets(ctx, y)), 'encoded octets')


def declared(ctx, n, which):
    """an unknown parameter record of any declared length over n octets of content"""
    mp, ap = (3, 0) if which == 'modulation' else (0, 2)
    node = gen_pdu(ctx, N, Bounds(per_list=0, total=0, fixed={'mp': mp, 'ap': ap}, big={'opaque': (n,)}))
    data = octets(ctx, node)
    name = 'modulationParameters' if which == 'modulation' else 'antennaPattern'
    size = 1 if which == 'modulation' else 2
    off = 0
    for it, v in node.vals:
        if it.kind == 'len' and it.name == name:
            break
        m = Node(node.cls, Layout(node.cls, [it]))
        m.vals, m.extra = [(it, v)], node.extra
        off += SCALARS[it.type] if it.kind in ('len', 'count') else len(octets(ctx, m))
    l = ctx.uint('declared', 8 * size)
    data[off:off + size] = ctx.enc('u%d' % (8 * size), l)
    box = []
    e = ctx.raises(lambda: box.append(ctx.create(ctx.bytes(data))))
    if e is not None:
        ctx.require(l > n, 'a declared length that fits is accepted')
        return
    ctx.require(l <= n, 'a declared length beyond the data is refused')
    r = getattr(box[0], name)
    got = 0 if r is None else len(ctx.serialize(r))
    ctx.equal(l, got, 'octets kept')
    if r is not None:
        ctx.equal(ctx.serialize(r), ctx.bytes(data[len(data) - n:len(data) - n + got]), 'octets kept as received')


def toolong(ctx, which, n):
    """a record the length field cannot express is refused"""
    p = ctx.cls(N)()
    if which == 'modulation':
        p.modulationParameters = ctx.cls('UnknownRadio')(ctx.bytes([0] * n))
    else:
        p.antennaPattern = ctx.cls('UnknownAntennaPattern')(ctx.bytes([0] * n))
    e = ctx.raises(ctx.serialize, p)
    top = 255 if which == 'modulation' else 65535
    ctx.require((e is not None) == (n > top), 'refused exactly when the length field cannot express it')


def tasks(tier):
    out = []
    for mp in range(4):
        for ap in range(3):
            for f in ('decode', 'encode'):
                out.append(dict(subject='modulation kind %d, antenna kind %d' % (mp, ap), fn=f,
                                params={'mp': mp, 'ap': ap, 'tier': tier}, weight=3 if mp + ap > 3 else 1))
    for a in range(4):
        for b in range(4):
            out.append(dict(subject='replacing parameters', fn='change', params={'a': a, 'b': b}))
    for w in ('modulation', 'antenna'):
        for n in (1, 8, 16) if tier == 'quick' else (1, 2, 6, 7, 8, 9, 16, 24, 40):
            out.append(dict(subject='unknown %s record' % w, fn='declared', params={'n': n, 'which': w}))
    for n in (128, 248):
        out.append(dict(subject='unknown modulation record', fn='bulk', params={'mp': 3, 'ap': 0, 'n': n}, witnesses=1))
    for n in (128, 256, 304, 1000) if tier == 'quick' else (128, 256, 304, 1000, 8192, 32768):
        out.append(dict(subject='unknown antenna record', fn='bulk', params={'mp': 0, 'ap': 2, 'n': n}, witnesses=1))
    for n in (8, 248, 255, 256, 264):
        out.append(dict(subject='unknown modulation record', fn='toolong', params={'which': 'modulation', 'n': n}))
    for n in (8, 256, 65535, 65536):
        out.append(dict(subject='unknown antenna record', fn='toolong', params={'which': 'antenna', 'n': n}))
    return out


def bounds(tier):
    return {'radio system, antenna pattern type': 'every value of the kind', 'unknown record octets':
            '1..24, modulation 128, 248, antenna 128, 256, 304, 1000' if tier == 'quick' else '1..255, antenna to 32768', 'declared length': 'every value over 1..%d octets' % (
                16 if tier == 'quick' else 40)}
