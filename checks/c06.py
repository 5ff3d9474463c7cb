"""C06: truncated input is refused; decoding consumes exactly the PDU's octets."""
from .common import *

ASSUMPTIONS = BASE_ASSUMPTIONS[:1] + BASE_ASSUMPTIONS[3:]


BEFORE = 5      # octets of the stream read before what is decoded


def skip(ins):
    for i in range(BEFORE):
        ins.read_unsigned_byte()


def shape(tier, name, kinds=None):
    q = tier == 'quick'
    total = 2 if name in HEAVY or q else 3
    if name == 'TransmitterPdu' and q:
        total = 1
    return Bounds(per_list=1, total=total, fixed=dict(zip(('mp', 'ap'), kinds or ())),
                  big={'datum_sizes': (0, 5) if q else (0, 5, 8, 12), 'opaque': (8,)}, sv_data=(2,))


def cut(ctx, name, tier, kinds=None):
    """every strict prefix of a well-formed PDU raises"""
    node = gen_pdu(ctx, name, shape(tier, name, kinds))
    data = octets(ctx, node)
    k = ctx.choose('kept octets', len(data))
    short = ctx.bytes(data[:k])
    if name in UNREGISTERED:
        p = ctx.cls(name)()
        e = ctx.raises(p.parse, ctx.instream(short))
    else:
        e = ctx.raises(ctx.create, short)
    ctx.require(e is not None, 'truncated PDU refused')


def tail(ctx, name, tier):
    """octets after the PDU are neither read nor change the result"""
    node = gen_pdu(ctx, name, shape(tier, name))
    data = octets(ctx, node)
    p = ctx.cls(name)()
    ins = ctx.instream(ctx.bytes([0] * BEFORE + data + list(ctx.buf('tail', 16))))
    skip(ins)
    p.parse(ins)
    ctx.equal(ins.stream.tell(), BEFORE + len(data), 'octets consumed')
    check(ctx, p, node, 'decoded from the middle of a stream')
    if name not in UNREGISTERED:
        p = ctx.create(ctx.bytes(data + list(ctx.buf('tail', 16))))
    check(ctx, p, node, 'decoded')


def rcut(ctx, name, tier):
    node = gen(ctx, name, '', shape(tier, name).fresh())
    data = octets(ctx, node)
    if not data:
        return
    k = ctx.choose('kept octets', len(data))
    e = ctx.raises(parse_any, ctx, name, ctx.bytes(data[:k]))
    ctx.require(e is not None, 'truncated record refused')


def rtail(ctx, name, tier):
    node = gen(ctx, name, '', shape(tier, name).fresh())
    data = octets(ctx, node)
    ins = ctx.instream(ctx.bytes([0] * BEFORE + data + list(ctx.buf('tail', 8))))
    skip(ins)
    if LAYOUTS[name].sv is not None:
        o = ctx.mod('opendis.dis7').parseStandardVariableRecord(ins, ctx.cls(sv_base_of(name)))
    else:
        o = ctx.cls(name)()
        o.parse(ins)
    ctx.equal(ins.stream.tell(), BEFORE + len(data), 'octets consumed')
    check(ctx, o, node, 'decoded')


def header(ctx, size):
    """fewer octets than any header is never a PDU"""
    k = ctx.choose('octets', size)
    data = ctx.buf('data', k)
    m = ctx.mod('opendis.PduFactory')
    box = []
    e = ctx.raises(lambda: box.append(m.createPdu(data)))
    ctx.require(e is not None or box[0] is None, 'no PDU from fewer than 12 octets')


def tasks(tier):
    T = 'TransmitterPdu'
    out = pdu_tasks('cut', tier, [n for n in PDU_NAMES + UNREGISTERED if n != T])
    for mp in range(4):         # the case split over the kinds of parameters, as separate tasks
        for ap in range(3):
            out += pdu_tasks('cut', tier, [T], kinds=[mp, ap])
    out += pdu_tasks('tail', tier) + rec_tasks('rcut', tier) + rec_tasks('rtail', tier)
    for t in out:
        t['max_paths'] = 400000
    out.append(dict(subject='header', fn='header', params={'size': 12}))
    return out


def bounds(tier):
    return {'cuts': 'every prefix length of PDUs with every field value and <= 1 element per list, <= 2 (thorough: '
                    '3; heavily nested PDUs 2, quick TransmitterPdu 1) elements per PDU'}
