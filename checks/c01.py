"""C01: parse then serialize reproduces the octets."""
from .common import *

ASSUMPTIONS = BASE_ASSUMPTIONS


def pdu(ctx, name, tier):
    node = gen_pdu(ctx, name, pdu_bounds(name, tier))
    data = ctx.bytes(octets(ctx, node))
    if name in UNREGISTERED:
        p = ctx.cls(name)()
        p.parse(ctx.instream(data))
    else:
        p = ctx.create(data)
    ctx.require(p is not None, 'decoded')
    out = ctx.serialize(p)
    ctx.observe('octets', out)
    ctx.equal(len(out), len(data), 're-encoded length')
    if len(out) == len(data):
        ctx.equal(out, data, 're-encoded octets')


def rec(ctx, name, tier):
    node = gen(ctx, name, '', rec_bounds(tier, name).fresh())
    data = ctx.bytes(octets(ctx, node))
    o, ins = parse_any(ctx, name, data)
    ctx.equal(ins.stream.tell(), len(data), 'octets consumed')
    out = ctx.serialize(o)
    ctx.observe('octets', out)
    ctx.equal(len(out), len(data), 're-encoded length')
    if len(out) == len(data):
        ctx.equal(out, data, 're-encoded octets')


def longlist(ctx, name, lst, k):
    """many elements in one list"""
    node = long_node(ctx, name, lst, k)
    data = ctx.bytes(octets(ctx, node))
    if LAYOUTS[name].pdu and name not in UNREGISTERED:
        p = ctx.create(data)
    else:
        p, _ = parse_any(ctx, name, data)
    out = ctx.serialize(p)
    ctx.equal(len(out), len(data), 're-encoded length')
    if len(out) == len(data):
        ctx.equal(out, data, 're-encoded octets')


def ua_systems(ctx, which):
    """an Underwater Acoustic PDU announcing a shaft, additional parameter or emitter record"""
    node = gen_pdu(ctx, 'UaPdu', Bounds(per_list=0, total=0))
    data = octets(ctx, node)
    data[-3 + which] = 1
    p = ctx.raises(ctx.create, ctx.bytes(data + [0] * 64))
    ctx.require(p is None, 'decoded')


def signal_bits(ctx, name, n):
    """a signal whose last octet is partly used"""
    node = gen_pdu(ctx, name, Bounds(per_list=0, total=0, fixed={'data': n}))
    data = octets(ctx, node)
    bits = ctx.int('bits', 8 * n - 7, 8 * n - 1)
    data[28:30] = ctx.enc('u16', bits)
    p = ctx.create(ctx.bytes(data))
    ctx.equal(ctx.serialize(p), ctx.bytes(data), 'last, partly used octet')


def tasks(tier):
    out = pdu_tasks('pdu', tier) + rec_tasks('rec', tier) + long_tasks('longlist', tier)
    for i in range(3):
        out.append(dict(subject='UaPdu with systems', fn='ua_systems', params={'which': i}))
    for n in ('SignalPdu', 'IntercomSignalPdu'):
        out.append(dict(subject=n + ' of odd bits', fn='signal_bits', params={'name': n, 'n': 2}))
    return out


def bounds(tier):
    return BOUNDS(tier)
