"""C08: standard variable records declare exactly the octets they emit, aligned, and unknown ones survive."""
from .common import *

ASSUMPTIONS = BASE_ASSUMPTIONS[:2] + BASE_ASSUMPTIONS[3:]
KINDS = ('HighFidelityHAVEQUICKRadio', 'DirectedEnergyPrecisionAimpoint', 'DirectedEnergyAreaAimpoint',
         'DirectedEnergyDamage')
TYPES = dict(zip(KINDS, KNOWN_SV))
BASES = ('StandardVariableRecord', 'DamageDescriptionRecord', 'VariableTransmitterParametersRecord')


def bnd(tier):
    q = tier == 'quick'
    return Bounds(per_list=2 if q else 4, total=3 if q else 6, sv_data=(2, 10, 18) if q else (2, 10, 18, 26, 58, 250))


def one(ctx, kind, tier, nm=''):
    b = bnd(tier).fresh()
    return gen_unknown_sv(ctx, 'SV', nm or 'record', b) if kind == '?' else gen(ctx, kind, nm, b)


def encode(ctx, kind, tier):
    node = one(ctx, kind, tier)
    o = fill(ctx, new(ctx, node), node)
    out = ctx.serialize(o)
    ctx.observe('octets', out)
    n = len(out)
    ctx.require(n % 8 == 0, 'emitted octets are a multiple of 8')
    ctx.equal(o.marshalledSize(), n, 'marshalledSize')
    ctx.equal(o.recordLength, n, 'recordLength')
    l = list(out)
    ctx.equal(ctx.bytes(l[4:6]), ctx.bytes(ctx.enc('u16', n)), 'declared length')
    t = node.extra['recordType'] if kind == '?' else TYPES[kind]
    ctx.equal(ctx.bytes(l[0:4]), ctx.bytes(ctx.enc('u32', t)), 'declared type')
    ctx.equal(o.recordType, t, 'recordType')


def decode(ctx, kind, tier):
    node = one(ctx, kind, tier)
    data = octets(ctx, node)
    o, ins = parse_sv(ctx, ctx.bytes(data + list(ctx.buf('tail', 8))), 'StandardVariableRecord')
    ctx.equal(ins.stream.tell(), len(data), 'octets consumed')
    check(ctx, o, node, 'decoded')
    ctx.equal(o.recordLength, len(data), 'recordLength')
    ctx.equal(o.recordType, node.extra['recordType'] if kind == '?' else TYPES[kind], 'recordType')
    ctx.equal(ctx.serialize(o), ctx.bytes(data), 're-encoded octets')


def bulk(ctx, n):
    """an unknown record of many octets"""
    node = gen_unknown_sv(ctx, 'SV', 'record', Bounds(sv_data=(n,)).fresh())
    data = octets(ctx, node)
    o, ins = parse_sv(ctx, ctx.bytes(data + list(ctx.buf('tail', 8))), 'StandardVariableRecord')
    ctx.equal(ins.stream.tell(), len(data), 'octets consumed')
    check(ctx, o, node, 'decoded')
    ctx.equal(o.recordLength, len(data), 'recordLength')
    for x, w in ((o, 're-encoded'), (fill(ctx, new(ctx, node), node), 'encoded')):
        out = ctx.serialize(x)
        ctx.equal(len(out), len(data), w + ' length')
        if len(out) == len(data):
            ctx.equal(out, ctx.bytes(data), w + ' octets')


def pair(ctx, a, b):
    """two records one after the other stay in step"""
    x, y = one(ctx, a, 'quick', 'first'), one(ctx, b, 'quick', 'second')
    dx, dy = octets(ctx, x), octets(ctx, y)
    ins = ctx.instream(ctx.bytes(dx + dy))
    m = ctx.mod('opendis.dis7')
    base = ctx.cls('StandardVariableRecord')
    p = m.parseStandardVariableRecord(ins, base)
    q = m.parseStandardVariableRecord(ins, base)
    ctx.equal(ins.stream.tell(), len(dx) + len(dy), 'octets consumed')
    # types first: decoding the second must not change what the first is
    check(ctx, p, x, 'first')
    check(ctx, q, y, 'second')
    ctx.equal(ctx.serialize(p), ctx.bytes(dx), 'first re-encoded')
    ctx.equal(ctx.serialize(q), ctx.bytes(dy), 'second re-encoded')


def declared(ctx, n):
    """an unknown record with any declared length over n octets of content"""
    rt = ctx.uint('recordType', 32)
    for k in KNOWN_SV:
        ctx.assume(rt != k)
    l = ctx.uint('declared', 16)
    body = ctx.buf('body', n)
    data = ctx.bytes(ctx.enc('u32', rt) + ctx.enc('u16', l) + list(body))
    box = []
    e = ctx.raises(lambda: box.append(parse_sv(ctx, data, 'StandardVariableRecord')))
    ok = ctx.all([l >= 6, l % 8 == 0, l <= n + 6])
    if e is not None:
        ctx.require(ctx.nott(ok), 'a well-formed unknown record is accepted')
        return
    ctx.require(ok, 'a malformed declared length is refused')
    o, ins = box[0]
    ctx.equal(ins.stream.tell(), l, 'octets consumed')
    ctx.equal(len(o.data) + 6, l, 'all data kept')


def family(ctx, kind, base, before=()):
    """a known type outside the expected family is refused; inside, it is its class, whatever was asked before"""
    fn = ctx.mod('opendis.record').getStandardVariableClass
    for b in before:
        ctx.raises(lambda: fn(TYPES[kind], ctx.cls(b)))
    ok = base == 'StandardVariableRecord' or \
        (kind == 'HighFidelityHAVEQUICKRadio') == (base == 'VariableTransmitterParametersRecord')
    box = []
    e = ctx.raises(lambda: box.append(fn(TYPES[kind], ctx.cls(base))))
    if ok:
        ctx.require(e is None and box[0].__name__ == kind, 'class of a known type')
    else:
        ctx.require(e is not None, 'type of another family refused')


def alien(ctx, kind, base, before=()):
    """the same on the wire"""
    node = one(ctx, kind, 'quick')
    data = ctx.bytes(octets(ctx, node))
    for b in before:
        ctx.raises(parse_sv, ctx, data, b)
    box = []
    e = ctx.raises(lambda: box.append(parse_sv(ctx, data, base)))
    if base == 'StandardVariableRecord' or \
            (kind == 'HighFidelityHAVEQUICKRadio') == (base == 'VariableTransmitterParametersRecord'):
        ctx.require(e is None, 'record of the family accepted')
        if e is None:
            check(ctx, box[0][0], node, 'decoded')
    else:
        ctx.require(e is not None, 'record of another family refused')


def aliens(ctx, name, lst, kind):
    """a PDU with a record of another family in its list is refused"""
    node = gen_pdu(ctx, name, Bounds(per_list=0, total=0, fixed={'mp': 0, 'ap': 0}))
    x = one(ctx, kind, 'quick', 'alien')
    for i, (it, v) in enumerate(node.vals):
        if it.kind == 'list' and it.name == lst:
            node.vals[i] = (it, [x])
    data = ctx.bytes(octets(ctx, node))
    ctx.require(ctx.raises(ctx.create, data) is not None, 'PDU with a record of another family refused')
    e = ctx.raises(lambda: ctx.cls(name)().parse(ctx.instream(data)))
    ctx.require(e is not None, 'refused again')


def lists():
    for n in PDU_NAMES:
        for it in LAYOUTS[n].items:
            if it.kind == 'list' and it.type in ('SVdd', 'SVvtp'):
                yield n, it.name, it.type


def unknowns(ctx, base):
    """classes for two unknown types do not interfere"""
    fn = ctx.mod('opendis.record').getStandardVariableClass
    a, b = ctx.uint('a', 32), ctx.uint('b', 32)
    for k in KNOWN_SV:
        ctx.assume(a != k)
        ctx.assume(b != k)
    x = fn(a, ctx.cls(base))(b'' if ctx.concrete else ctx.bytes([]))
    x.data = ctx.buf('data', 2)
    y = fn(b, ctx.cls(base))()
    y.data = ctx.buf('data', 2)
    ctx.equal(x.recordType, a, 'type of the first')
    ctx.equal(y.recordType, b, 'type of the second')
    ctx.equal(ctx.serialize(x), ctx.bytes(ctx.enc('u32', a) + [0, 8] + list(ctx.buf('data', 2))), 'first encoded')


# attribute and variable parameter records of fixed size: (type, octets)
FIXED = {'AngleDeception': (3501, 48), 'FalseTargetsAttribute': (3502, 40), 'BlankingSector': (3500, 40),
         'IOEffect': (5500, 16), 'IOCommunicationsNode': (5501, 16)}
PARAMETER = {'ArticulatedParts': 0, 'AttachedParts': 1, 'SeparationVP': 2, 'EntityTypeVP': 3, 'EntityAssociation': 4}


def fixed(ctx, name):
    """a new attribute record declares its type and the octets it emits"""
    node = gen(ctx, name, '', bnd('quick').fresh())
    o = ctx.cls(name)()
    first = 2 if name in FIXED else 1
    fill(ctx, o, node, first)
    out = list(ctx.serialize(o))
    ctx.equal(o.recordType, FIXED[name][0] if name in FIXED else PARAMETER[name], 'recordType')
    if name in FIXED:
        ctx.equal(len(out), FIXED[name][1], 'octets emitted')
        ctx.equal(ctx.bytes(out[:6]), ctx.bytes(ctx.enc('u32', FIXED[name][0]) + ctx.enc('u16', len(out))),
                  'declared type and length')
    else:
        ctx.equal(len(out), 16, 'octets emitted')
        ctx.equal(out[0] if ctx.concrete else ctx.bytes(out[:1])[0], PARAMETER[name], 'declared type')


def tasks(tier):
    out = []
    for k in list(FIXED) + list(PARAMETER):
        out.append(dict(subject=k, fn='fixed', params={'name': k}))
    for k in KINDS + ('?',):
        s = 'unknown record' if k == '?' else k
        out.append(dict(subject=s, fn='encode', params={'kind': k, 'tier': tier}))
        out.append(dict(subject=s, fn='decode', params={'kind': k, 'tier': tier}))
        if k != '?':
            for b in BASES:
                for c in ([], ['StandardVariableRecord']):
                    for f in ('family', 'alien'):
                        out.append(dict(subject=s, fn=f, params={'kind': k, 'base': b, 'before': c}))
        for j in KINDS + ('?',):
            out.append(dict(subject='%s then %s' % (s, 'unknown record' if j == '?' else j), fn='pair',
                            params={'a': k, 'b': j}))
    for n, l, t in lists():
        for k in KINDS:
            if k not in UNIONS[t]:
                out.append(dict(subject=n, fn='aliens', params={'name': n, 'lst': l, 'kind': k}))
    for b in BASES:
        out.append(dict(subject='unknown record', fn='unknowns', params={'base': b}))
    for n in (0, 2, 10) if tier == 'quick' else (0, 1, 2, 3, 9, 10, 18, 26, 42):
        out.append(dict(subject='unknown record', fn='declared', params={'n': n}))
    for n in (122, 250, 258, 1026) if tier == 'quick' else (122, 250, 258, 1026, 8186, 32762):
        out.append(dict(subject='unknown record', fn='bulk', params={'n': n}, witnesses=1))
    out += rec_tasks('container', tier, ['StandardVariableSpecification'])
    return out


def container(ctx, name, tier):
    node = gen(ctx, name, '', rec_bounds(tier, name).fresh())
    data = ctx.bytes(octets(ctx, node))
    o, ins = ctx.parse_record(name, data)
    ctx.equal(ins.stream.tell(), len(data), 'octets consumed')
    check(ctx, o, node, 'decoded')
    out = ctx.serialize(o)
    ctx.equal(len(out), len(data), 're-encoded length')
    if len(out) == len(data):
        ctx.equal(out, data, 're-encoded octets')


def bounds(tier):
    q = tier == 'quick'
    return {'unknown record data octets': '2, 10, 18' if q else '2..250', 'elements per record': '<= %d' % (3 if q else 6),
            'record types': 'all 2^32', 'declared lengths': 'all 2^16'}
