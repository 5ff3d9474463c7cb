"""C14: objects do not share state, and serializing changes nothing."""
from .common import *

ASSUMPTIONS = BASE_ASSUMPTIONS
BEFORE = 3      # octets already in the stream when an object is encoded again


def small(name):
    return Bounds(per_list=1, total=1, big={'datum_sizes': (2,)}, sv_data=(2,), fixed={'mp': 1, 'ap': 1})


def make(ctx, name):
    node = gen(ctx, name, '', small(name).fresh())
    if LAYOUTS[name].pdu:
        pin_header(ctx, node, name)
    return node


def mutate(ctx, obj, node, first=0):
    """change obj's values in place, down to its nested records and lists"""
    for it, v in node.vals[first:]:
        k = it.kind
        if k == 'rec':
            r = getattr(obj, it.name)
            if r is not None and v.layout is not None:
                mutate(ctx, r, v)
        elif k == 'fix':
            l = getattr(obj, it.name)
            if isinstance(l, list):
                for i, x in enumerate(v):
                    if i < len(l):
                        l[i] = x
        elif k == 'list':
            l = getattr(obj, it.name)
            if isinstance(l, list):
                l.extend([make_elem(ctx, it.type, x) for x in v])
        elif k == 's':
            setattr(obj, it.name, v)
        elif k == 'opt':
            r = getattr(obj, it.name)
            if r is not None and v is not None and type(r).__name__ == v.cls:
                mutate(ctx, r, v)
        elif k == 'bits':
            for (n, w), x in zip(it.fields, v):
                if n != '-':
                    setattr(obj, n, x)
        elif k == 'vdatum':
            obj.variableDatumID = node.extra['variableDatumID']
            obj.variableDatumLength = node.extra['variableDatumLength']
            obj.variableData.extend(node.extra['variableData'])


def isolated(ctx, name):
    """changing one default object changes neither an existing nor a later one"""
    node = make(ctx, name)
    C = ctx.cls(name)
    other = C()
    before = ctx.serialize(other)
    a = C()
    mutate(ctx, a, node)
    ctx.equal(ctx.serialize(other), before, 'existing object unchanged')
    ctx.equal(ctx.serialize(C()), before, 'later object unchanged')
    ctx.equal(ctx.serialize(a), ctx.serialize(a), 'still encodes')


def received(ctx, name):
    """decoding into one object changes no other; two decodings are independent"""
    node = make(ctx, name)
    C = ctx.cls(name)
    other = C()
    before = ctx.serialize(other)
    data = ctx.bytes(octets(ctx, node))
    if LAYOUTS[name].pdu and name not in UNREGISTERED:
        p, q = ctx.create(data), ctx.create(data)
    else:
        p, q = parse_any(ctx, name, data)[0], parse_any(ctx, name, data)[0]
    ctx.equal(ctx.serialize(other), before, 'existing object unchanged')
    ctx.equal(ctx.serialize(C()), before, 'later object unchanged')
    if node.layout is not None:
        n2 = gen(ctx, name, 'second', small(name).fresh())
        if LAYOUTS[name].pdu:
            pin_header(ctx, n2, name)
        mutate(ctx, p, n2)
    check(ctx, q, node, 'other decoding')


def pure(ctx, name, tier):
    """serializing twice gives the same octets and leaves every value as it was"""
    node = gen(ctx, name, '', (pdu_bounds(name, tier) if LAYOUTS[name].pdu else rec_bounds(tier, name)).fresh())
    if LAYOUTS[name].pdu:
        pin_header(ctx, node, name)
    p = fill(ctx, ctx.cls(name)(), node)
    a = ctx.serialize(p)
    check(ctx, p, node, 'after serialize')
    # again, behind other octets of the same stream
    o, ds = ctx.outstream()
    for i in range(BEFORE):
        ds.write_unsigned_byte(0xa5)
    p.serialize(ds)
    b = o.getvalue()[BEFORE:]
    ctx.observe('octets', b)
    ctx.equal(len(a), len(b), 'same length again')
    if len(a) == len(b):
        ctx.equal(a, b, 'same octets again')


def longlist(ctx, name, lst, k):
    """the same for a long list; and its decoded elements are objects of their own"""
    node = long_node(ctx, name, lst, k)
    p = fill(ctx, ctx.cls(name)(), node)
    a = ctx.serialize(p)
    check(ctx, p, node, 'after serialize')
    b = ctx.serialize(p)
    ctx.equal(len(a), len(b), 'same length again')
    if len(a) == len(b):
        ctx.equal(a, b, 'same octets again')
    if LAYOUTS[name].pdu and name not in UNREGISTERED:
        q = ctx.create(a)
    else:
        q, _ = parse_any(ctx, name, a)
    els = [x for x in getattr(q, lst) if hasattr(x, '__dict__')]
    ctx.equal(len({id(x) for x in els}), len(els), 'distinct elements')


def second(ctx, name):
    """what was decoded or encoded before does not show in what follows"""
    nodes = []
    for i in 'first', 'second':
        n = gen(ctx, name, i, small(name).fresh())
        if LAYOUTS[name].pdu:
            pin_header(ctx, n, name)
        nodes.append(n)
    got = []
    for n in nodes:
        data = ctx.bytes(octets(ctx, n))
        if LAYOUTS[name].pdu and name not in UNREGISTERED:
            got.append(ctx.create(data))
        else:
            got.append(parse_any(ctx, name, data)[0])
    for p, n, w in zip(got, nodes, ('first', 'second')):
        check(ctx, p, n, w + ' decoded')
    objs = [fill(ctx, ctx.cls(name)(), n) for n in nodes]
    outs = [ctx.serialize(o) for o in objs]
    for out, n, w in zip(outs, nodes, ('first', 'second')):
        want = ctx.bytes(octets(ctx, n))
        ctx.equal(len(out), len(want), w + ' encoded length')
        if len(out) == len(want):
            ctx.equal(out, want, w + ' encoded octets')


def reused(ctx, name, source):
    """an object that has been encoded, or decoded, and is then given other values encodes those"""
    nodes = []
    for i in 'first', 'second':
        n = gen(ctx, name, i, small(name).fresh())
        if LAYOUTS[name].pdu:
            pin_header(ctx, n, name)
        nodes.append(n)
    a, b = nodes
    if source == 'made':
        p = fill(ctx, ctx.cls(name)(), a)
        ctx.serialize(p)
    else:
        data = ctx.bytes(octets(ctx, a))
        if LAYOUTS[name].pdu and name not in UNREGISTERED:
            p = ctx.create(data)
        else:
            p = parse_any(ctx, name, data)[0]
        if p is None:
            return
    become(ctx, p, b)
    want, out = ctx.bytes(octets(ctx, b)), ctx.serialize(p)
    ctx.equal(len(out), len(want), 'encoded length after the change')
    if len(out) == len(want):
        ctx.equal(out, want, 'octets after the change')
    check(ctx, p, b, 'after the change')


def sequence(ctx, names):
    """PDUs of different types, decoded and encoded one after another, forwards and backwards"""
    nodes = []
    for i, name in enumerate(names):
        b = Bounds(per_list=0, total=0, big={'datum_sizes': (2,)}, sv_data=(2,), fixed={'mp': 1, 'ap': 1})
        n = gen(ctx, name, str(i), b.fresh())
        pin_header(ctx, n, name)
        nodes.append(n)
    for what, order in (('first', nodes), ('again', nodes[::-1])):
        got = []
        for n in order:
            p = ctx.create(ctx.bytes(octets(ctx, n)))
            ctx.require(p is not None, n.cls + ' decoded ' + what)
            got.append(p)
        for n, p in zip(order, got):
            if p is not None:
                check(ctx, p, n, n.cls + ' decoded ' + what)
        for n in order:
            want = ctx.bytes(octets(ctx, n))
            out = ctx.serialize(fill(ctx, ctx.cls(n.cls)(), n))
            ctx.equal(len(out), len(want), n.cls + ' encoded length ' + what)
            if len(out) == len(want):
                ctx.equal(out, want, n.cls + ' encoded octets ' + what)


def input_kept(ctx, name):
    """decoding does not change the caller's data, and decoding it again gives the same"""
    node = make(ctx, name)
    data = ctx.bytes(octets(ctx, node))
    p = ctx.create(data)
    ctx.equal(data, ctx.bytes(octets(ctx, node)), 'data unchanged')
    check(ctx, ctx.create(data), node, 'decoded again')
    # a reused receive buffer: the object decoded from it does not follow it
    buf = ctx.bytearray(octets(ctx, node))
    q = ctx.create(buf)
    ctx.require(q is not None, 'decoded from a bytearray')
    ctx.equal(ctx.tobytes(buf), data, 'bytearray unchanged')
    for i, x in enumerate(list(ctx.buf('next', 16)) + [255] * (len(buf) - 16)):
        if i < len(buf):
            buf[i] = x
    if q is not None:
        check(ctx, q, node, 'decoded from a reused buffer')


def tasks(tier):
    out = []
    for n in PDU_NAMES + UNREGISTERED + RECORD_NAMES:
        for f in ('isolated', 'received', 'second'):
            out.append(dict(subject=n, fn=f, params={'name': n}))
        for w in 'made', 'decoded':
            out.append(dict(subject=n, fn='reused', params={'name': n, 'source': w}))
        out.append(dict(subject=n, fn='pure', params={'name': n, 'tier': tier}, weight=4 if n in HEAVY else 1))
    for n in PDU_NAMES:
        out.append(dict(subject=n, fn='input_kept', params={'name': n}))
    out.append(dict(subject='sequence of all', fn='sequence', params={'names': PDU_NAMES}, witnesses=1))
    for i in range(9):
        out.append(dict(subject='sequence %d' % i, fn='sequence', params={'names': PDU_NAMES[i::9]}, witnesses=1))
    return out + long_tasks('longlist', tier)


def bounds(tier):
    return dict(BOUNDS(tier), isolation='every value; lists of <= 1 element',
                one_long_list='130' if tier == 'quick' else '300')
