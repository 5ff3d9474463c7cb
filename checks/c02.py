"""C02: serialize then decode gives back an equal object."""
from .common import *

ASSUMPTIONS = BASE_ASSUMPTIONS


def pdu(ctx, name, tier):
    node = gen_pdu(ctx, name, pdu_bounds(name, tier))
    p = fill(ctx, ctx.cls(name)(), node)
    data = ctx.serialize(p)
    ctx.observe('octets', data)
    if name in UNREGISTERED:
        q = ctx.cls(name)()
        q.parse(ctx.instream(data))
    else:
        q = ctx.create(data)
    ctx.require(q is not None, 'decoded')
    if q is not None:
        check(ctx, q, node, 'decoded')
        # the sender's object is what the receiver's object equals
        check(ctx, p, node, 'after serialize')


def rec(ctx, name, tier):
    node = gen(ctx, name, '', rec_bounds(tier, name).fresh())
    o = fill(ctx, ctx.cls(name)(), node)
    data = ctx.serialize(o)
    ctx.observe('octets', data)
    q, ins = parse_any(ctx, name, data)
    ctx.equal(ins.stream.tell(), len(data), 'octets consumed')
    check(ctx, q, node, 'decoded')


def longlist(ctx, name, lst, k):
    """many elements in one list"""
    node = long_node(ctx, name, lst, k)
    o = fill(ctx, ctx.cls(name)(), node)
    data = ctx.serialize(o)
    if LAYOUTS[name].pdu and name not in UNREGISTERED:
        q = ctx.create(data)
    else:
        q, _ = parse_any(ctx, name, data)
    check(ctx, q, node, 'decoded')
    check(ctx, o, node, 'after serialize')


def tasks(tier):
    return pdu_tasks('pdu', tier) + rec_tasks('rec', tier) + long_tasks('longlist', tier)


def bounds(tier):
    return BOUNDS(tier)
