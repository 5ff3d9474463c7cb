"""C15: the PDU header."""
from .common import *

ASSUMPTIONS = BASE_ASSUMPTIONS[3:]
FIELDS = (('protocolVersion', 'u8'), ('exerciseID', 'u8'), ('pduType', 'u8'), ('protocolFamily', 'u8'),
          ('timestamp', 'u32'), ('length', 'u16'))


def fresh(ctx, name):
    """a new PDU carries its own type and family, version 7, and a 12-octet header"""
    p = ctx.cls(name)()
    t, f = LAYOUTS[name].pdu
    ctx.equal(p.pduType, t, 'pduType')
    ctx.equal(p.protocolFamily, f, 'protocolFamily')
    ctx.equal(p.protocolVersion, 7, 'protocolVersion')
    out = ctx.serialize(p)
    ctx.require(len(out) >= 12, 'header is 12 octets')
    l = list(out)
    ctx.equal(ctx.bytes(l[:12]), ctx.bytes([7, 0, t, f, 0, 0, 0, 0, 0, 0, 0, 0]), 'header octets')
    if name not in UNREGISTERED:
        q = ctx.create(out)
        ctx.require(type(q).__name__ == name, 'decodes to its own class')


def anyheader(ctx, name):
    """every header value is sent at its place and received"""
    p = ctx.cls(name)()
    want = []
    vals = {}
    for n, t in FIELDS:
        v = PDU_TYPE[name] if n == 'pduType' else gen_scalar(ctx, t, n)
        vals[n] = v
        setattr(p, n, v)
        want += ctx.enc(t, v)
    p.pduStatus = vals['pduStatus'] = ctx.uint('pduStatus', 8)
    want += ctx.enc('u8', vals['pduStatus']) + [0]
    out = ctx.serialize(p)
    ctx.observe('header', ctx.bytes(list(out)[:12]))
    ctx.equal(ctx.bytes(list(out)[:12]), ctx.bytes(want), 'header octets')
    if name in UNREGISTERED:
        q = ctx.cls(name)()
        q.parse(ctx.instream(out))
    else:
        q = ctx.create(out)
    for n, v in vals.items():
        ctx.equal(getattr(q, n), v, 'received ' + n)


def body_unmoved(ctx, name):
    """header values do not influence the body"""
    a, b = ctx.cls(name)(), ctx.cls(name)()
    for n, t in FIELDS:
        if n != 'pduType':
            setattr(a, n, gen_scalar(ctx, t, n))
    a.pduStatus = ctx.uint('pduStatus', 8)
    x, y = ctx.serialize(a), ctx.serialize(b)
    ctx.equal(ctx.bytes(list(x)[12:]), ctx.bytes(list(y)[12:]), 'body octets')


def tasks(tier):
    out = []
    for n in PDU_NAMES + UNREGISTERED:
        for f in ('fresh', 'anyheader', 'body_unmoved'):
            out.append(dict(subject=n, fn=f, params={'name': n}))
    return out


def bounds(tier):
    return {'header': 'every value of every header field, for every PDU class'}
