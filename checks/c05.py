"""C05: the PDU type octet alone selects the decoder."""
from .common import *

ASSUMPTIONS = BASE_ASSUMPTIONS[3:]


def known(ctx, name, how):
    """any header carrying this type, zero body: decoded as `name` whatever the other header octets are"""
    data = list(ctx.buf('header', 12))
    data[2] = PDU_TYPE[name]
    data = ctx.bytes(data + [0] * 512)
    p = run(ctx, data, how)
    ctx.require(p is not None, 'decoded')
    if p is None:
        return
    ctx.require(type(p).__name__ == name, 'class')
    ctx.equal(p.pduType, PDU_TYPE[name], 'pduType')
    ctx.equal(p.protocolVersion, data[0], 'protocolVersion')
    ctx.equal(p.exerciseID, data[1], 'exerciseID')
    ctx.equal(p.protocolFamily, data[3], 'protocolFamily')
    ctx.observe('class', type(p).__name__)


def run(ctx, data, how):
    m = ctx.mod('opendis.PduFactory')
    if how == 'data':
        return m.createPdu(data)
    if how == 'bytearray':
        return m.createPdu(ctx.bytearray(list(data)))
    if how == 'stream':
        return m.getPdu(ctx.instream(data))
    return m.createPduFromFilePath(ctx.vfile(data))


def body(ctx, name, how):
    """a well-formed PDU of this type decodes the same from data, stream and file"""
    node = gen_pdu(ctx, name, Bounds(per_list=1, total=1, big={'datum_sizes': (3,)}, sv_data=(2,)))
    p = run(ctx, ctx.bytes(octets(ctx, node)), how)
    ctx.require(p is not None, 'decoded')
    if p is not None:
        check(ctx, p, node, 'decoded')


def unknown(ctx, size, how):
    """any other type octet: None, never an exception"""
    data = ctx.buf('data', size)
    t = data[2]
    for k in sorted(PDU_TYPE[n] for n in PDU_NAMES):
        ctx.assume(t != k)
    r = run(ctx, data, how)
    ctx.require(r is None, 'no PDU for an unsupported type')


def tasks(tier):
    out = []
    for n in PDU_NAMES:
        for how in ('data', 'stream', 'file'):
            if how == 'data' or tier != 'quick':
                out.append(dict(subject=n, fn='known', params={'name': n, 'how': how}))
        for how in ('bytearray', 'stream', 'file') if tier == 'quick' else ('data', 'bytearray', 'stream', 'file'):
            out.append(dict(subject=n, fn='body', params={'name': n, 'how': how}))
    for size in (3, 12, 16) if tier == 'quick' else (3, 4, 11, 12, 13, 16, 40, 144, 300):
        for how in ('data', 'bytearray', 'stream', 'file'):
            out.append(dict(subject='unsupported types', fn='unknown', params={'size': size, 'how': how}))
    return out


def bounds(tier):
    return {'types': 'all 256 type octets', 'header': 'every header of the 54 supported types',
            'unsupported': 'every content of %s octets' % ('3, 12, 16' if tier == 'quick' else '3..300')}
