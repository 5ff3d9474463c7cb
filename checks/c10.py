"""C10: bit fields occupy their own bits and no others."""
from .common import *

ASSUMPTIONS = BASE_ASSUMPTIONS[3:]
RECS = ('SpreadSpectrum', 'NetId', 'DEFireFlags')


def fields_of(name):
    return [(n, w) for it in LAYOUTS[name].items if it.kind == 'bits' for n, w in it.fields]


def packed(ctx, fs, vals):
    acc = 0
    for (n, w), v in zip(fs, vals):
        acc = acc * (1 << w) + v
    return ctx.enc('u%d' % sum(w for n, w in fs), acc)


def values(ctx, name):
    fs = fields_of(name)
    vals = [0 if n == '-' else ctx.uint(n, w) for n, w in fs]
    o = ctx.cls(name)(**{n: v for (n, w), v in zip(fs, vals) if n != '-'})
    out = ctx.serialize(o)
    ctx.observe('octets', out)
    ctx.equal(out, ctx.bytes(packed(ctx, fs, vals)), 'octets')
    ctx.equal(len(out), o.marshalledSize(), 'marshalledSize')
    q, ins = ctx.parse_record(name, out)
    ctx.equal(ins.stream.tell(), len(out), 'octets consumed')
    for (n, w), v in zip(fs, vals):
        if n != '-':
            ctx.equal(getattr(q, n), v, 'read back ' + n)


def pattern(ctx, name):
    """every octet pattern survives parse then serialize, and each field is its bits"""
    fs = fields_of(name)
    n = sum(w for _, w in fs) // 8
    data = ctx.buf('octets', n)
    o, ins = ctx.parse_record(name, data)
    x = 0
    for b in list(data):
        x = x * 256 + b
    pos = 8 * n
    for f, w in fs:
        pos -= w
        if f != '-':
            ctx.equal(getattr(o, f), (x >> pos) & ((1 << w) - 1), 'bits of ' + f)
    ctx.equal(ctx.serialize(o), data, 'octets reproduced')


def wide(ctx, name, field):
    """a value too wide for its field never spills into its neighbours"""
    fs = fields_of(name)
    o = ctx.cls(name)()
    vals = {}
    for n, w in fs:
        if n != '-':
            vals[n] = ctx.uint(n, 32 if n == field else w)
            setattr(o, n, vals[n])
    box = []
    e = ctx.raises(lambda: box.append(ctx.serialize(o)))
    if e is not None:
        w = dict(fs)[field]
        ctx.require(vals[field] >= 1 << w, 'refused only when too wide')
        return
    q, _ = ctx.parse_record(name, box[0])
    for n, w in fs:
        if n not in ('-', field):
            ctx.equal(getattr(q, n), vals[n], 'neighbour ' + n)


def factory(ctx, widths):
    """the bit-field factory packs any split of 8, 16 or 32 bits most significant bit first"""
    bf = ctx.mod('opendis.record.bitfield')
    fs = [('f%d' % i, w) for i, w in enumerate(widths)]
    C = bf.bitfield(name='T', fields=[(n, bf.INTEGER, w) for n, w in fs])
    vals = [ctx.uint(n, w) for n, w in fs]
    o = C(*vals)
    out = ctx.serialize(o)
    ctx.observe('octets', out)
    ctx.equal(out, ctx.bytes(packed(ctx, fs, vals)), 'octets')
    ctx.equal(C.marshalledSize(), sum(widths) // 8, 'marshalledSize')
    q = C.parse(ctx.instream(out))
    for (n, w), v in zip(fs, vals):
        ctx.equal(getattr(q, n), v, 'field read back')


def several(ctx, splits, names, same):
    """definitions made one after another keep to their own fields, whatever they are called"""
    bf = ctx.mod('opendis.record.bitfield')
    made = []
    for i, (widths, name) in enumerate(zip(splits, names)):
        fs = [('%s%d' % ('f' if same else 'abc'[i], j), w) for j, w in enumerate(widths)]
        made.append((fs, bf.bitfield(name=name, fields=[(n, bf.INTEGER, w) for n, w in fs])))
    for i, (fs, C) in enumerate(made):
        vals = [ctx.uint('%d.%s' % (i, n), w) for n, w in fs]
        out = ctx.serialize(C(**{n: v for (n, w), v in zip(fs, vals)}))
        want = ctx.bytes(packed(ctx, fs, vals))
        ctx.equal(len(out), len(want), 'length')
        if len(out) == len(want):
            ctx.equal(out, want, 'octets')
        ctx.equal(C.marshalledSize(), len(want), 'marshalledSize')
        q = C.parse(ctx.instream(want))
        for (n, w), v in zip(fs, vals):
            ctx.equal(getattr(q, n), v, 'field read back')


def invalid(ctx, widths):
    bf = ctx.mod('opendis.record.bitfield')
    e = ctx.raises(bf.bitfield, name='T', fields=[('f%d' % i, bf.INTEGER, w) for i, w in enumerate(widths)])
    ctx.require(e is not None, 'a bit field that is not whole octets is refused')


def inside(ctx, name):
    """the record around the bit field"""
    node = gen(ctx, name, '', rec_bounds('quick', name).fresh())
    o = fill(ctx, ctx.cls(name)(), node)
    out = ctx.serialize(o)
    ctx.equal(out, ctx.bytes(octets(ctx, node)), 'octets')
    q, _ = ctx.parse_record(name, out)
    check(ctx, q, node, 'decoded')


def compositions(n, parts):
    if parts == 1:
        return [(n,)]
    return [(a,) + r for a in range(1, n) for r in compositions(n - a, parts - 1)]


def tasks(tier):
    out = []
    for n in RECS:
        out.append(dict(subject=n, fn='values', params={'name': n}))
        out.append(dict(subject=n, fn='pattern', params={'name': n}))
        for f, w in fields_of(n):
            if f != '-':
                out.append(dict(subject=n, fn='wide', params={'name': n, 'field': f}))
    for n in ('ModulationType', 'BasicHaveQuickMP'):
        out.append(dict(subject=n, fn='inside', params={'name': n}))
    q = tier == 'quick'
    comps = [c for p in (1, 2, 3, 4) for c in compositions(8, p)]
    comps += [c for p in (1, 2) for c in compositions(16, p)]
    comps += [c for p in (1, 2) for c in compositions(32, p)]
    comps += [(1, 1, 14), (1, 1, 1, 13), (10, 2, 2, 2), (1,) * 8, (3, 7, 6, 9, 7), (1,) * 16]
    if not q:
        comps += [c for p in (3,) for c in compositions(16, p)] + [c for p in (3,) for c in compositions(32, p)]
        comps += [c for c in compositions(16, 4)]
    for c in dict.fromkeys(comps):
        out.append(dict(subject='bit-field factory', fn='factory', params={'widths': list(c)}, witnesses=1))
    for names in ('T', 'T', 'T'), ('A', 'B', 'C'):
        for same in True, False:
            for sp in ([(4, 4), (1, 7), (2, 6)], [(3, 5), (5, 3), (1, 1, 6)], [(8, 8), (4, 12), (1, 15)],
                       [(8, 24), (16, 16), (1, 31)], [(2, 6), (2, 14), (2, 30)], [(8,), (16,), (32,)]):
                out.append(dict(subject='bit-field factory', fn='several', witnesses=1,
                                params={'splits': sp, 'names': names, 'same': same}))
    for c in ([1], [7], [3, 4], [9], [16, 1], [15], [31], [32, 8], [16, 16, 8], []):
        out.append(dict(subject='bit-field factory', fn='invalid', params={'widths': c}, witnesses=1))
    return out


def bounds(tier):
    return {'values': 'every value of every field; every octet pattern; over-wide values up to 2^32',
            'factory': 'every split of 8 bits in <= 4 fields, of 16 and 32 bits in <= %d' % (
                2 if tier == 'quick' else 3)}
