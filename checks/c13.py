"""C13: constructors keep what they are given."""
from .common import *

ASSUMPTIONS = BASE_ASSUMPTIONS[:1] + BASE_ASSUMPTIONS[3:]


def ctor(ctx, name, tier):
    b = Bounds(per_list=2 if tier == 'quick' else 3, total=2 if tier == 'quick' else 4,
               big={'datum_sizes': (0, 2)}, sv_data=(2,))
    node = gen(ctx, name, '', b.fresh())
    if LAYOUTS[name].pdu:
        pin_header(ctx, node, name)
    o = construct(ctx, node)
    check(ctx, o, node, 'given', only_ctor=True, first=HEADER_ITEMS if LAYOUTS[name].pdu else 0)


def longlist(ctx, name, lst, k):
    """a long list is kept whole"""
    node = long_node(ctx, name, lst, k)
    o = construct(ctx, node)
    check(ctx, o, node, 'given', only_ctor=True, first=HEADER_ITEMS if LAYOUTS[name].pdu else 0)


def used(ctx, name, tier):
    """the given values are the ones sent"""
    b = Bounds(per_list=1, total=2, big={'datum_sizes': (0, 2)}, sv_data=(2,), fixed={'mp': 1, 'ap': 1})
    node = gen(ctx, name, '', b.fresh())
    o = construct(ctx, node)
    head = [h.name for h, _ in node.vals[:HEADER_ITEMS]] if LAYOUTS[name].pdu else []
    rest = Node(node.cls, Layout(node.cls, []))     # what is not a constructor argument is assigned
    rest.vals = [(it, v) for it, v in node.vals if it.kind in ('s', 'rec', 'list', 'fix', 'opt') and it.ctor is None
                 and it.name not in head]
    fill(ctx, o, rest)
    q = fill(ctx, ctx.cls(name)(), node, HEADER_ITEMS if LAYOUTS[name].pdu else 0)
    ctx.equal(ctx.serialize(o), ctx.serialize(q), 'octets of the constructed object')


def defaults(ctx, name):
    """no argument is required, and the default object can be sent"""
    o = ctx.cls(name)()
    out = ctx.serialize(o)
    ctx.require(len(out) > 0 or name in EMPTY, 'default object encodes')
    ctx.observe('octets', out)


# constructor arguments that are not (only) a field of their own on the wire: bits, or values derived when encoding
EXTRA = {'FastEntityStatePdu': {'numberOfVariableParameters': 8}, 'IFFData': {'recordLength': 16},
         'GridAxisDescriptorVariable': {'numberOfPointsOnXiAxis': 16},
         'VariableDatum': {'variableDatumID': 32, 'variableDatumLength': 32},
         'SpreadSpectrum': {'frequencyHopping': 1, 'pseudoNoise': 1, 'timeHopping': 1, 'padding': 13},
         'NetId': {'netNumber': 10, 'frequencyTable': 2, 'mode': 2, 'padding': 2},
         'DEFireFlags': {'weaponOn': 1, 'stateUpdateFlag': 1}}


def extra(ctx, name):
    args = {a: ctx.uint(a, b) for a, b in EXTRA[name].items()}
    o = ctx.cls(name)(**args)
    for a, v in args.items():
        ctx.equal(getattr(o, a), v, 'given.' + a)
    for a, v in args.items():
        ctx.equal(getattr(ctx.cls(name)(**{a: v}), a), v, 'given alone.' + a)


def lists(ctx, name):
    """list arguments whose elements the package cannot encode are kept all the same"""
    ua = ('shaftRPMs', 'apaData', 'emitterSystems')
    given = {a: [ctx.uint(a, 8)] for a in ua}
    o = ctx.cls(name)(**given)
    for a in ua:
        ctx.equal(len(getattr(o, a)), 1, 'given.' + a)
        ctx.equal(getattr(o, a)[0], given[a][0], 'given.' + a)


EMPTY = ('ChangeOptions', 'GenericRadio', 'SimpleIntercomRadio')


def tasks(tier):
    out = pdu_tasks('ctor', tier) + rec_tasks('ctor', tier) + pdu_tasks('used', tier) + rec_tasks('used', tier)
    for n in PDU_NAMES + UNREGISTERED + RECORD_NAMES:
        out.append(dict(subject=n, fn='defaults', params={'name': n}))
    for n in EXTRA:
        out.append(dict(subject=n, fn='extra', params={'name': n}))
    out.append(dict(subject='UaPdu', fn='lists', params={'name': 'UaPdu'}))
    return out + long_tasks('longlist', tier)


def bounds(tier):
    return {'arguments': 'every value, zero included; list arguments of <= %d elements' % (2 if tier == 'quick' else 3)
            + ', and one of %d' % (130 if tier == 'quick' else 300)}
