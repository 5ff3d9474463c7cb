"""C28: reserved bits of received data, whatever they hold, disturb nothing."""
from .common import *

ASSUMPTIONS = BASE_ASSUMPTIONS[:1] + BASE_ASSUMPTIONS[2:]


def received(ctx, name, tier):
    """decode with any reserved bits: same fields, same length; encodes again, reserved bits kept or zero"""
    pdu = LAYOUTS[name].pdu
    any_reserved(ctx, name, gen_pdu(ctx, name, shape(name, tier)) if pdu else gen(ctx, name, '', shape(name, tier).fresh()))


def longlist(ctx, name, lst, k):
    any_reserved(ctx, name, long_node(ctx, name, lst, k))


def any_reserved(ctx, name, node):
    pdu = LAYOUTS[name].pdu
    seen = []

    def res(bits):
        seen.append(bits)
        return ctx.uint('reserved %d' % len(seen), bits)

    data = octets(ctx, node, res)
    zero = octets(ctx, node)
    if not seen:
        return
    if pdu and name not in UNREGISTERED:
        p = ctx.create(ctx.bytes(data))
        ctx.require(p is not None, 'decoded')
        if p is None:
            return
    else:
        p, ins = parse_any(ctx, name, ctx.bytes(data))
        ctx.equal(ins.stream.tell(), len(data), 'octets consumed')
    check(ctx, p, node, 'decoded')
    out = ctx.serialize(p)
    ctx.observe('octets', out)
    ctx.equal(len(out), len(data), 're-encoded length')
    if len(out) != len(data):
        return
    for o, d, z in zip(out, ctx.bytes(data), ctx.bytes(zero)):
        ctx.require(ctx.any([ctx.same(o, d), ctx.same(o, z)]), 'fields as received, reserved bits kept or zero')


def shape(name, tier):
    q = tier == 'quick'
    return Bounds(per_list=1 if q else 2, total=1 if q else 2 if name in HEAVY else 3,
                  big={'datum_sizes': (0, 1, 9)}, sv_data=(2,))


def tasks(tier):
    out = pdu_tasks('received', tier)
    return out + rec_tasks('received', tier) + long_tasks('longlist', tier, 12)


def bounds(tier):
    return {'reserved bits': 'every content of every reserved octet and bit field; list elements per list / per PDU '
                             '<= ' + ('1/1' if tier == 'quick' else '2/3') +
                             '; one list of 12'}
