"""Interpreter of the reference tables: builds symbolic values of a record or
PDU, their octets, objects of the code under test holding them, and checks."""
from .tables import RECORDS, PDUS, HEADER

SCALARS = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'f32': 4, 'f64': 8,
           'bit1': 1}
KNOWN_SV = (3000, 4000, 4001, 4500)
UNIONS = {'SV': ('HighFidelityHAVEQUICKRadio', 'DirectedEnergyPrecisionAimpoint', 'DirectedEnergyAreaAimpoint',
                 'DirectedEnergyDamage', '?'),
          'SVdd': ('DirectedEnergyPrecisionAimpoint', 'DirectedEnergyAreaAimpoint', 'DirectedEnergyDamage', '?'),
          'SVvtp': ('HighFidelityHAVEQUICKRadio', '?')}
UNION_BASE = {'SV': 'StandardVariableRecord', 'SVdd': 'DamageDescriptionRecord',
              'SVvtp': 'VariableTransmitterParametersRecord'}


class Item:
    def __init__(self, kind, name=None, type=None, n=None, ctor=None, mul=1, add=0, fields=None):
        self.kind, self.name, self.type, self.n = kind, name, type, n
        self.ctor = name if ctor is None else (None if ctor == '-' else ctor)
        self.mul, self.add, self.fields = mul, add, fields


def _parse_line(l):
    w = l.split()
    if w[0][0] == '-':
        return [Item('pad', n=int(w[0][1:]))]
    if w[0][0] == '=':      # counts the code does not support: always zero
        return [Item('pad', n=int(w[0][1:]), fields=())]
    if w[0] == 'bits':
        return [Item('bits', fields=[(a.split(':')[0], int(a.split(':')[1])) for a in w[1:]])]
    if w[0] == '@reserved7':
        return []
    if w[0] == '@VariableDatum':
        return [Item('vdatum')]
    if w[0] == '@TransmitterPdu':
        return _parse(TRANSMITTER)
    if w[0] == '@len':
        return [Item('len', w[1], w[2])]
    if w[0] == '@opt':
        return [Item('opt', w[1], w[2])]
    if w[0][0] == '#':
        nm = w[0][1:]
        mul, add = 1, 0
        if '*' in nm:
            nm, m = nm.split('*')
            mul = int(m)
        if '+' in nm:
            nm, m = nm.split('+')
            add = int(m)
        return [Item('count', nm, w[1], mul=mul, add=add)]
    name, t = w[0], w[1]
    ctor = None
    if len(w) > 2 and w[2].startswith('ctor='):
        ctor = w[2][5:]
    if t == 'bytes':
        return [Item('list', name, 'u8', ctor=ctor)]
    if t[0] == '[':
        t = t[1:-1]
        if ';' in t:
            t, n = t.split(';')
            return [Item('fix', name, t, int(n), ctor)]
        return [Item('list', name, t, ctor=ctor)]
    return [Item('s' if t in SCALARS else 'rec', name, t, ctor=ctor)]


def _parse(text):
    out = []
    for l in text.strip('\n').split('\n'):
        if l.strip():
            out += _parse_line(l.strip())
    return out


TRANSMITTER = '''
  radioReferenceID EntityIdentifier
  radioNumber u16
  radioEntityType EntityType
  transmitState u8
  inputSource u8
  #variableTransmitterParameters u16
  antennaLocation WorldCoordinates
  relativeAntennaLocation Vector3Float
  antennaPatternType u16
  @len antennaPattern u16
  frequency u64
  transmitFrequencyBandwidth f32
  power f32
  modulationType ModulationType
  cryptoSystem u16
  cryptoKeyId u16
  @len modulationParameters u8
  -3
  @opt modulationParameters mp
  @opt antennaPattern ap
  variableTransmitterParameters [SVvtp]
'''


class Layout:
    def __init__(self, name, items, sv=None, pdu=None):
        self.name, self.items, self.sv, self.pdu = name, items, sv, pdu


LAYOUTS = {}
PDU_NAMES = []          # registered in the factory
UNREGISTERED = []
RECORD_NAMES = []


def _load():
    def blocks(text):
        cur = None
        for l in text.split('\n'):
            if not l.strip():
                continue
            if l[0] != ' ':
                if cur:
                    yield cur
                cur = (l.split(), [])
            else:
                cur[1].append(l.strip())
        yield cur
    for head, lines in blocks(RECORDS):
        sv = None
        for h in head[1:]:
            if h.startswith('sv='):
                sv = int(h[3:])
        items = []
        for l in lines:
            items += _parse_line(l)
        LAYOUTS[head[0]] = Layout(head[0], items, sv=sv)
        RECORD_NAMES.append(head[0])
    hdr = _parse(HEADER)
    for head, lines in blocks(PDUS):
        items = list(hdr)
        for l in lines:
            items += _parse_line(l)
        LAYOUTS[head[0]] = Layout(head[0], items, pdu=(int(head[1]), int(head[2])))
        (UNREGISTERED if 'unregistered' in head else PDU_NAMES).append(head[0])


_load()
PDU_TYPE = {n: LAYOUTS[n].pdu[0] for n in PDU_NAMES + UNREGISTERED}
FAMILY = {n: LAYOUTS[n].pdu[1] for n in PDU_NAMES + UNREGISTERED}
HEADER_ITEMS = 8


class Node:
    """Values of one record: (item, value) pairs in wire order."""

    def __init__(self, cls, layout):
        self.cls, self.layout = cls, layout
        self.vals = []
        self.extra = {}

    def get(self, name):
        for it, v in self.vals:
            if it.kind == 'bits':
                for (n, w), x in zip(it.fields, v):
                    if n == name:
                        return x
            elif it.name == name and it.kind not in ('count', 'len'):
                return v
        return self.extra[name]


class Bounds:
    """per-list and total element bounds, and which optional variants"""

    def __init__(self, per_list=2, total=3, datum_octets=9, sv_data=(2, 10), fixed=None, big=None):
        self.per_list, self.total = per_list, total
        self.datum_octets = datum_octets
        self.sv_data = sv_data
        self.fixed = fixed or {}       # list name -> exact length (no fork)
        self.big = big or {}

    def fresh(self):
        return Budget(self)


class Budget:
    def __init__(self, b):
        self.b, self.left = b, b.total


def gen_scalar(ctx, t, name):
    if t[0] == 'f':
        return ctx.flt(name, t)
    if t == 'bit1':
        return ctx.uint(name, 1)
    return (ctx.uint if t[0] == 'u' else ctx.sint)(name, 8 * SCALARS[t])


def gen(ctx, cls, name='', bud=None):
    """a Node of class cls with symbolic values"""
    lay = LAYOUTS[cls]
    node = Node(cls, lay)
    for it in lay.items:
        k = it.kind
        nm = name + '.' + (it.name or '') if name else (it.name or '')
        if k == 's':
            v = gen_scalar(ctx, it.type, nm)
        elif k == 'rec':
            v = gen(ctx, it.type, nm, bud)
        elif k == 'fix':
            v = [gen_scalar(ctx, it.type, '%s[%d]' % (nm, i)) for i in range(it.n)]
        elif k == 'list':
            n = length(ctx, it, nm, bud)
            v = [gen_elem(ctx, it.type, '%s[%d]' % (nm, i), bud) for i in range(n)]
        elif k == 'bits':
            v = [0 if n == '-' else ctx.uint((name + '.' if name else '') + n, w) for n, w in it.fields]
        elif k == 'vdatum':
            v = None
            gen_vdatum(ctx, node, name, bud)
        elif k == 'opt':
            v = gen_opt(ctx, node, it, nm, bud)
        else:
            v = None
        node.vals.append((it, v))
    return node


def length(ctx, it, nm, bud):
    b = bud.b
    for key in (nm, it.name):
        if key in b.fixed:
            return b.fixed[key]
    top = min(b.per_list, bud.left)
    n = ctx.choose('#' + nm, top + 1)
    bud.left -= n
    return n


def gen_elem(ctx, t, nm, bud):
    if t in SCALARS:
        return gen_scalar(ctx, t, nm)
    if t in UNIONS:
        alts = UNIONS[t]
        c = alts[ctx.choose('kind ' + nm, len(alts))]
        if c == '?':
            return gen_unknown_sv(ctx, t, nm, bud)
        n = gen(ctx, c, nm, bud)
        return n
    return gen(ctx, t, nm, bud)


def gen_unknown_sv(ctx, t, nm, bud):
    node = Node('?', None)
    rt = ctx.uint(nm + '.recordType', 32)
    for k in KNOWN_SV:
        ctx.assume(rt != k)
    sizes = bud.b.sv_data
    n = sizes[ctx.choose('#' + nm + '.data', len(sizes))]
    node.extra = {'recordType': rt, 'data': [ctx.uint('%s.data[%d]' % (nm, i), 8) for i in range(n)],
                  'base': UNION_BASE[t]}
    return node


def gen_vdatum(ctx, node, name, bud):
    b = bud.b
    nm = name + '.' if name else ''
    key = nm + 'variableDatum octets'
    if 'variableDatum' in b.fixed:
        n = b.fixed['variableDatum']
    else:
        sizes = b.big.get('datum_sizes', (0, 1, 8, b.datum_octets))
        n = sizes[ctx.choose(key, len(sizes))]
    lo, hi = (0, 0) if n == 0 else (8 * (n - 1) + 1, 8 * n)
    node.extra = {'variableDatumID': ctx.uint(nm + 'variableDatumID', 32),
                  'variableDatumLength': ctx.int(nm + 'variableDatumLength', lo, hi),
                  'variableData': [ctx.uint('%svariableData[%d]' % (nm, i), 8) for i in range(n)]}


def gen_opt(ctx, node, it, nm, bud):
    if it.type == 'mp':
        rs = node.get('modulationType').get('radioSystem')
        k = bud.b.fixed.get('mp')
        if k is None:
            k = ctx.choose('kind ' + nm, 4)
        if k == 0:
            return None
        if k == 1:
            ctx.assume_any([rs == 2, rs == 3, rs == 4])
            return gen(ctx, 'BasicHaveQuickMP', nm, bud)
        if k == 2:
            ctx.assume(rs == 6)
            return gen(ctx, 'CCTTSincgarsMP', nm, bud)
        for x in (1, 2, 3, 4, 6):
            ctx.assume(rs != x)
        return gen_opaque(ctx, 'UnknownRadio', nm, bud)
    t = node.get('antennaPatternType')
    k = bud.b.fixed.get('ap')
    if k is None:
        k = ctx.choose('kind ' + nm, 3)
    if k == 0:
        return None
    if k == 1:
        ctx.assume(t == 1)
        return gen(ctx, 'BeamAntennaPattern', nm, bud)
    ctx.assume(t != 1)
    return gen_opaque(ctx, 'UnknownAntennaPattern', nm, bud)


def gen_opaque(ctx, cls, nm, bud):
    node = Node(cls, None)
    sizes = bud.b.big.get('opaque', (8, 24))
    n = sizes[ctx.choose('#' + nm + '.data', len(sizes))]
    node.extra = {'data': [ctx.uint('%s.data[%d]' % (nm, i), 8) for i in range(n)]}
    return node


# ------------------------------------------------------------------ octets
def octets(ctx, node, res=None):
    """the octets of a Node, as a list; res(bits) gives the content of reserved bits (default zero)"""
    out = []
    pad = (lambda n: [0] * n) if res is None else lambda n: [res(8) for _ in range(n)]
    if node.layout is None:
        if node.cls == '?':
            d = node.extra['data']
            return ctx.enc('u32', node.extra['recordType']) + ctx.enc('u16', 6 + len(d)) + \
                sum([ctx.enc('u8', x) for x in d], [])
        return sum([ctx.enc('u8', x) for x in node.extra['data']], [])
    for it, v in node.vals:
        k = it.kind
        if k == 's':
            out += ctx.enc('u8' if it.type == 'bit1' else it.type, v)
        elif k == 'rec':
            out += octets(ctx, v, res)
        elif k in ('fix', 'list'):
            for x in v:
                out += elem_octets(ctx, it.type, x, res)
        elif k == 'pad':
            out += pad(it.n) if it.fields is None else [0] * it.n
        elif k == 'count':
            out += ctx.enc(it.type, len(node.get(it.name)) * it.mul + it.add)
        elif k == 'len':
            x = node.get(it.name)
            out += ctx.enc(it.type, 0 if x is None else len(octets(ctx, x)))
        elif k == 'opt':
            if v is not None:
                out += octets(ctx, v, res)
        elif k == 'bits':
            tot = sum(w for n, w in it.fields)
            acc = 0
            for (n, w), x in zip(it.fields, v):
                acc = acc * (1 << w) + (res(w) if n == '-' and res is not None else x)
            out += ctx.enc('u%d' % tot, acc)
        elif k == 'vdatum':
            d = node.extra['variableData']
            out += ctx.enc('u32', node.extra['variableDatumID']) + ctx.enc('u32', node.extra['variableDatumLength'])
            for x in d:
                out += ctx.enc('u8', x)
            out += pad(-len(d) % 8)
        else:
            raise AssertionError(k)
    if node.layout.sv is not None:
        out += pad(-(len(out) + 6) % 8)
        out = ctx.enc('u32', node.layout.sv) + ctx.enc('u16', len(out) + 6) + out
    return out


def elem_octets(ctx, t, x, res=None):
    return ctx.enc(t, x) if t in SCALARS else octets(ctx, x, res)


# ------------------------------------------------------------------ objects
def new(ctx, node):
    """an object of the code under test, default-constructed"""
    if node.cls == '?':
        base = ctx.cls(node.extra['base'])
        c = ctx.mod('opendis.record').getStandardVariableClass(node.extra['recordType'], base)
        return c()
    return ctx.cls(node.cls)()


def fill(ctx, obj, node, first=0):
    """assign every attribute of obj from node, the way a user does"""
    if node.layout is None:
        obj.data = ctx.bytes(sum([ctx.enc('u8', x) for x in node.extra['data']], []))
        return obj
    for it, v in node.vals[first:]:
        k = it.kind
        if k == 's':
            setattr(obj, it.name, v)
        elif k == 'rec':
            r = new(ctx, v)
            fill(ctx, r, v)
            setattr(obj, it.name, r)
        elif k == 'fix':
            setattr(obj, it.name, list(v))
        elif k == 'list':
            getattr(obj, it.name).extend([make_elem(ctx, it.type, x) for x in v])
        elif k == 'opt':
            setattr(obj, it.name, None if v is None else fill(ctx, new(ctx, v), v))
        elif k == 'bits':
            for (n, w), x in zip(it.fields, v):
                if n != '-':
                    setattr(obj, n, x)
        elif k == 'vdatum':
            obj.variableDatumID = node.extra['variableDatumID']
            obj.variableDatumLength = node.extra['variableDatumLength']
            obj.variableData.extend(node.extra['variableData'])
    return obj


def become(ctx, obj, node, first=0):
    """give obj the values of node in place: nested records and lists stay the objects they are"""
    if node.layout is None:
        return fill(ctx, obj, node)
    for it, v in node.vals[first:]:
        k = it.kind
        if k in ('rec', 'opt'):
            r = getattr(obj, it.name)
            if r is not None and v is not None and type(r).__name__ == v.cls:
                become(ctx, r, v)
            else:
                setattr(obj, it.name, None if v is None else fill(ctx, new(ctx, v), v))
        elif k == 'list':
            l = getattr(obj, it.name)
            del l[:]
            l.extend([make_elem(ctx, it.type, x) for x in v])
        elif k == 'vdatum':
            obj.variableDatumID = node.extra['variableDatumID']
            obj.variableDatumLength = node.extra['variableDatumLength']
            del obj.variableData[:]
            obj.variableData.extend(node.extra['variableData'])
        elif k == 's':
            setattr(obj, it.name, v)
        elif k == 'fix':
            setattr(obj, it.name, list(v))
        elif k == 'bits':
            for (n, w), x in zip(it.fields, v):
                if n != '-':
                    setattr(obj, n, x)
    return obj


def make_elem(ctx, t, x):
    return x if t in SCALARS else fill(ctx, new(ctx, x), x)


def ctor_args(ctx, node, by_ctor=True):
    """constructor keywords holding the node's values"""
    if node.layout is None:
        return {'data': ctx.bytes(sum([ctx.enc('u8', x) for x in node.extra['data']], []))}
    kw = {}
    for it, v in node.vals[HEADER_ITEMS if node.layout.pdu else 0:]:
        k = it.kind
        if k == 'vdatum':
            kw.update(node.extra)
            kw['variableData'] = list(kw['variableData'])
        elif k == 'bits':
            for (n, w), x in zip(it.fields, v):
                if n != '-':
                    kw[n] = x
        elif k in ('pad', 'count', 'len') or it.ctor is None:
            continue
        elif k == 's':
            kw[it.ctor] = v
        elif k == 'rec':
            kw[it.ctor] = construct(ctx, v)
        elif k == 'fix':
            kw[it.ctor] = list(v)
        elif k == 'list':
            kw[it.ctor] = [x if it.type in SCALARS else construct(ctx, x) for x in v]
        elif k == 'opt':
            kw[it.ctor] = None if v is None else construct(ctx, v)
    return kw


def construct(ctx, node):
    kw = ctor_args(ctx, node)
    if node.cls == '?':
        base = ctx.cls(node.extra['base'])
        return ctx.mod('opendis.record').getStandardVariableClass(node.extra['recordType'], base)(**kw)
    c = ctx.cls(node.cls)
    kw = {k: v for k, v in kw.items() if k not in FIXED_ATTRS.get(node.cls, ())}
    return c(**kw)


# attributes of records the constructor does not take
FIXED_ATTRS = {}


def check(ctx, obj, node, path='', only_ctor=False, first=0):
    """every public attribute of obj equals the node's value"""
    p = path + '.' if path else ''
    if node.layout is None:
        if node.cls == '?':
            ctx.equal(obj.recordType, node.extra['recordType'], p + 'recordType')
        else:
            ctx.require(type(obj).__name__ == node.cls, p + 'class')
        d = node.extra['data']
        ctx.equal(len(obj.data), len(d), p + 'len(data)')
        ctx.equal(ctx.tobytes(obj.data), ctx.bytes(sum([ctx.enc('u8', x) for x in d], [])), p + 'data')
        return
    ctx.require(type(obj).__name__ == node.cls, p + 'class')
    if node.layout.sv is not None:
        ctx.equal(obj.recordType, node.layout.sv, p + 'recordType')
    for it, v in node.vals[first:]:
        k = it.kind
        if only_ctor and k in ('s', 'rec', 'fix', 'list', 'opt') and it.ctor is None:
            continue
        if k == 's':
            ctx.equal(getattr(obj, it.name), v, p + it.name)
        elif k == 'rec':
            check(ctx, getattr(obj, it.name), v, p + it.name)
        elif k in ('fix', 'list'):
            l = getattr(obj, it.name)
            ctx.equal(len(l), len(v), 'len(%s%s)' % (p, it.name))
            if len(l) == len(v):
                for i, (a, b) in enumerate(zip(l, v)):
                    if it.type in SCALARS:
                        ctx.equal(a, b, '%s%s[]' % (p, it.name))
                    else:
                        check(ctx, a, b, '%s%s[]' % (p, it.name))
        elif k == 'opt':
            x = getattr(obj, it.name)
            if v is None:
                ctx.require(x is None or len(ctx.serialize(x)) == 0, p + it.name + ' absent')
            else:
                ctx.require(x is not None, p + it.name + ' present')
                check(ctx, x, v, p + it.name)
        elif k == 'bits':
            for (n, w), x in zip(it.fields, v):
                if n != '-':
                    ctx.equal(getattr(obj, n), x, p + n)
        elif k == 'vdatum':
            for a in ('variableDatumID', 'variableDatumLength'):
                ctx.equal(getattr(obj, a), node.extra[a], p + a)
            d = node.extra['variableData']
            ctx.equal(len(obj.variableData), len(d), 'len(%svariableData)' % p)
            if len(obj.variableData) == len(d):
                for a, b in zip(obj.variableData, d):
                    ctx.equal(a, b, p + 'variableData[]')


def pin_header(ctx, node, cls):
    """the header fields a PDU of this class carries"""
    t, f = LAYOUTS[cls].pdu
    for i, (it, v) in enumerate(node.vals[:HEADER_ITEMS]):
        if it.name == 'pduType':
            node.vals[i] = (it, t)


def gen_pdu(ctx, cls, bounds, name=''):
    node = gen(ctx, cls, name, bounds.fresh())
    pin_header(ctx, node, cls)
    return node
