"""C12: entity marking text."""
from .common import *

ASSUMPTIONS = BASE_ASSUMPTIONS[3:]




def settext(ctx, n):
    """any ASCII text, whatever the marking held before"""
    m = ctx.cls('EntityMarking')(characterSet=ctx.uint('set', 8),
                                 characters=[ctx.uint('before[%d]' % i, 8) for i in range(11)])
    s = ctx.chars('s', n)
    m.setString(s)
    codes = [ctx.int('s[%d]' % i, 1, 127) for i in range(min(n, 11))] + [0] * (11 - min(n, 11))
    out = ctx.serialize(m)
    ctx.observe('octets', out)
    want = ctx.enc('u8', ctx.uint('set', 8))
    for c in codes:
        want = want + ctx.enc('u8', c)
    ctx.equal(out, ctx.bytes(want), 'octets')
    ctx.equal(m.charactersString(), ctx.str(codes[:min(n, 11)]), 'text read back')
    q, ins = ctx.parse_record('EntityMarking', out)
    ctx.equal(ins.stream.tell(), 12, 'octets consumed')
    ctx.equal(q.charactersString(), ctx.str(codes[:min(n, 11)]), 'text received')
    ctx.equal(q.characterSet, ctx.uint('set', 8), 'character set received')
    ctx.equal(len(m.characters), 11, 'eleven characters')


def inpdu(ctx, n):
    p = ctx.cls('EntityStatePdu')()
    p.marking.setString(ctx.chars('s', n))
    q = ctx.create(ctx.serialize(p))
    codes = [ctx.int('s[%d]' % i, 1, 127) for i in range(min(n, 11))]
    ctx.equal(q.marking.charactersString(), ctx.str(codes), 'text received')


def twice(ctx, n, m):
    """a second, shorter or longer text replaces the first entirely"""
    x = ctx.cls('EntityMarking')()
    x.setString(ctx.chars('s', n))
    x.setString(ctx.chars('t', m))
    ctx.equal(x.charactersString(), ctx.str([ctx.int('t[%d]' % i, 1, 127) for i in range(min(m, 11))]), 'text')


def separate(ctx, n):
    """two markings do not share characters"""
    a, b = ctx.cls('EntityMarking')(), ctx.cls('EntityMarking')()
    a.setString(ctx.chars('s', n))
    ctx.equal(b.charactersString(), ctx.str([]), 'other marking')
    ctx.equal(ctx.cls('EntityMarking')().charactersString(), ctx.str([]), 'later marking')


def anyoctets(ctx):
    """any octets of a received marking are kept"""
    data = ctx.buf('octets', 12)
    q, _ = ctx.parse_record('EntityMarking', data)
    ctx.equal(ctx.serialize(q), data, 'octets reproduced')
    for i, c in enumerate(q.characters):
        ctx.require(ctx.all([c >= 0, c <= 255]), 'character in range')


def tasks(tier):
    top = 15 if tier == 'quick' else 24
    out = [dict(subject='EntityMarking', fn='anyoctets')]
    for n in range(top):
        out.append(dict(subject='EntityMarking', fn='settext', params={'n': n}))
        out.append(dict(subject='EntityStatePdu', fn='inpdu', params={'n': n}))
        out.append(dict(subject='EntityMarking', fn='separate', params={'n': n}))
    for n in (0, 3, 11, 13):
        for m in (0, 2, 11, 12):
            out.append(dict(subject='EntityMarking', fn='twice', params={'n': n, 'm': m}))
    return out


def bounds(tier):
    return {'text': 'every ASCII text (1..127) of 0..%d characters; every 12 received octets' % (
        14 if tier == 'quick' else 23)}
