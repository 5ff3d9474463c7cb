"""C04: the wire layout of every PDU and record."""
from .common import *

ASSUMPTIONS = BASE_ASSUMPTIONS


def enc_pdu(ctx, name, tier):
    node = gen_pdu(ctx, name, pdu_bounds(name, tier))
    p = fill(ctx, ctx.cls(name)(), node)
    out = ctx.serialize(p)
    want = ctx.bytes(octets(ctx, node))
    ctx.observe('octets', out)
    ctx.equal(len(out), len(want), 'encoded length')
    if len(out) == len(want):
        ctx.equal(out, want, 'encoded octets')


def dec_pdu(ctx, name, tier):
    node = gen_pdu(ctx, name, pdu_bounds(name, tier))
    data = ctx.bytes(octets(ctx, node))
    if name in UNREGISTERED:
        p = ctx.cls(name)()
        p.parse(ctx.instream(data))
    else:
        p = ctx.create(data)
    check(ctx, p, node, 'decoded')


def enc_rec(ctx, name, tier):
    node = gen(ctx, name, '', rec_bounds(tier, name).fresh())
    out = ctx.serialize(fill(ctx, ctx.cls(name)(), node))
    want = ctx.bytes(octets(ctx, node))
    ctx.observe('octets', out)
    ctx.equal(len(out), len(want), 'encoded length')
    if len(out) == len(want):
        ctx.equal(out, want, 'encoded octets')


def dec_rec(ctx, name, tier):
    node = gen(ctx, name, '', rec_bounds(tier, name).fresh())
    o, ins = parse_any(ctx, name, ctx.bytes(octets(ctx, node)))
    check(ctx, o, node, 'decoded')


def longlist(ctx, name, lst, k):
    """many elements in one list"""
    node = long_node(ctx, name, lst, k)
    want = ctx.bytes(octets(ctx, node))
    out = ctx.serialize(fill(ctx, ctx.cls(name)(), node))
    ctx.equal(len(out), len(want), 'encoded length')
    if len(out) == len(want):
        ctx.equal(out, want, 'encoded octets')
    if LAYOUTS[name].pdu and name not in UNREGISTERED:
        p = ctx.create(want)
    else:
        p, _ = parse_any(ctx, name, want)
    check(ctx, p, node, 'decoded')


def tasks(tier):
    out = []
    for n in PDU_NAMES + UNREGISTERED:
        for f in ('enc_pdu', 'dec_pdu'):
            out.append(dict(subject=n, fn=f, params={'name': n, 'tier': tier}, weight=5 if n in HEAVY else 2))
    for n in RECORD_NAMES:
        for f in ('enc_rec', 'dec_rec'):
            out.append(dict(subject=n, fn=f, params={'name': n, 'tier': tier}, weight=1))
    return out + long_tasks('longlist', tier)


def bounds(tier):
    return {'list elements per list / per PDU': '2/3' if tier == 'quick' else '3/5',
            'one long list, the others empty': '130' if tier == 'quick' else '300'}
