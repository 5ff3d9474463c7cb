"""C07: count fields and list lengths agree; a list the count field cannot express is refused."""
from .common import *

ASSUMPTIONS = BASE_ASSUMPTIONS[:1] + BASE_ASSUMPTIONS[3:]
TOP = 70000


# the attribute that tells the number of elements of a list
COUNTS = {
    'variableParameters': 'numberOfVariableParameters', 'supplies': 'numberOfSupplyTypes',
    'fixedDatumRecords': 'numberOfFixedDatumRecords', 'variableDatumRecords': 'numberOfVariableDatumRecords',
    'fixedDatumIDs': 'numberOfFixedDatumIDs', 'variableDatumIDs': 'numberOfVariableDatumIDs',
    'systems': 'numberOfSystems', 'variableTransmitterParameters': 'variableTransmitterParameterCount',
    'propulsionSystemData': 'numberOfPropulsionSystems', 'vectoringSystemData': 'numberOfVectoringNozzleSystems',
    'aggregateIDs': 'numberOfAggregateIDs', 'entityIDs': 'numberOfEntityIDs',
    'silentAggregateSystems': 'numberOfSilentAggregateSystems', 'silentEntitySystems': 'numberOfSilentEntitySystems',
    'perimeterPoints': 'numberOfPerimeterPoints', 'mineTypes': 'numberOfMineTypes',
    'missingPduSequenceNumbers': 'numberOfMissingPdus', 'linearSegmentParameters': 'numberOfSegments',
    'objectLocation': 'numberOfPoints', 'recordIDs': 'numberOfRecords', 'dERecords': 'numberOfDERecords',
    'damageDescriptions': 'damageDescriptionCount', 'iffDataRecords': 'numberOfIFFDataRecords',
    'appearanceRecordList': 'numberOfAppearanceRecords', 'standardVariables': 'numberOfStandardVariableRecords',
    'recordSets': 'numberOfRecordSets', 'trackJamRecords': 'numberOfTargetsInTrackJam',
    'beamRecords': 'numberOfBeams', 'beamAntennaPatterns': 'beamAntennaPatternCount',
    'directedEnergyTargetEnergyDepositions': 'directedEnergyTargetEnergyDepositionCount',
}


def announcing():
    """(class, lists) of every class that tells the number of elements of its lists"""
    for n in PDU_NAMES + UNREGISTERED + RECORD_NAMES:
        ls = [it.name for it in LAYOUTS[n].items if it.kind == 'list' and it.name in COUNTS]
        if ls and n != 'FastEntityStatePdu':
            yield n, ls


def sites():
    """(class, list) of every counted list"""
    for n in PDU_NAMES + UNREGISTERED + RECORD_NAMES:
        for it in LAYOUTS[n].items:
            if it.kind == 'count':
                yield n, it.name


def items(name, lst):
    lay = LAYOUTS[name]
    cnt = next(i for i in lay.items if i.kind == 'count' and i.name == lst)
    item = next(i for i in lay.items if i.kind in ('list',) and i.name == lst)
    return cnt, item


def empty(ctx, name, **fixed):
    """an instance with no list elements"""
    fixed = dict({'mp': 0, 'ap': 0, 'variableDatum': 0}, **fixed)
    node = gen(ctx, name, '', Bounds(per_list=0, total=0, fixed=fixed).fresh())
    if LAYOUTS[name].pdu:
        pin_header(ctx, node, name)
    return node


def offset(ctx, node, cnt):
    """octets before the count field"""
    n = 6 if node.layout.sv is not None else 0
    for it, v in node.vals:
        if it is cnt:
            return n
        m = Node(node.cls, Layout(node.cls, [it]))
        m.vals = [(it, v)]
        m.extra = node.extra
        if it.kind in ('count', 'len'):
            n += SCALARS[it.type]
        else:
            n += len(octets(ctx, m))


def default(ctx, t):
    if t in SCALARS:
        return 0.0 if t[0] == 'f' else 0
    return ctx.cls(UNIONS[t][0] if t in UNIONS else t)()


def written(ctx, obj):
    """(octets written, exception) of serializing obj, as far as it is explored"""
    o, ds = ctx.outstream()
    e = None
    done = True
    try:
        obj.serialize(ds)
    except Exception as x:
        e = x
    except ctx.End:
        done = False
    return o.getvalue(), e, done


def judge(ctx, name, lst, n, obj, node, exact=True):
    cnt, item = items(name, lst)
    off = offset(ctx, node, cnt)
    size = SCALARS[cnt.type]
    out, e, done = written(ctx, obj)
    c = n * cnt.mul + cnt.add
    if e is not None:
        if LAYOUTS[name].sv is None:
            ctx.require(c >= 1 << (8 * size), 'refused only when the count does not fit')
        else:       # the record's own 16-bit length bounds it too
            ctx.require(c > 1000, 'refused only when the count does not fit')
        return
    if len(out) < off + size and not done:
        return      # the code walks the list before writing its count: the fixed lengths below decide
    ctx.require(c < 1 << (8 * size), 'list longer than its count field refused')
    ctx.equal(ctx.bytes(list(out)[off:off + size]), ctx.bytes(ctx.enc(cnt.type, c)), 'count field')
    return out


def anylength(ctx, name, lst):
    """a list of any length at all"""
    cnt, item = items(name, lst)
    node = empty(ctx, name)
    obj = fill(ctx, ctx.cls(name)(), node)
    l = ctx.symlist('n', default(ctx, item.type), TOP)
    try:
        setattr(obj, lst, l)
    except AttributeError:
        return      # a read-only view of a record's list, which is its own subject
    n = len(l) if ctx.concrete else l.n
    judge(ctx, name, lst, n, obj, node)


def length(ctx, name, lst, n):
    cnt, item = items(name, lst)
    node = empty(ctx, name)
    obj = fill(ctx, ctx.cls(name)(), node)
    cur = getattr(obj, lst)
    if isinstance(cur, list):
        cur.extend([default(ctx, item.type)] * n)
    else:
        setattr(obj, lst, ctx.bytes([0] * n))
    out = judge(ctx, name, lst, n, obj, node)
    if out is not None and ctx.cls(name) is not None:
        if name in UNREGISTERED or LAYOUTS[name].pdu is None:
            q, _ = parse_any(ctx, name, out)
        else:
            q = ctx.create(out)
        ctx.equal(len(getattr(q, lst)), n, 'list length decoded')


def changed(ctx, name, lst, counts):
    """the count follows a list that changes between encodings"""
    cnt, item = items(name, lst)
    node = empty(ctx, name)
    obj = fill(ctx, ctx.cls(name)(), node)
    for n in counts:
        cur = getattr(obj, lst)
        if isinstance(cur, list):
            del cur[n:]
            cur.extend([default(ctx, item.type) for i in range(n - len(cur))])
        else:
            setattr(obj, lst, ctx.bytes([0] * n))
        judge(ctx, name, lst, n, obj, node)


def announced(ctx, name, lists, first):
    """the attributes that tell the number of elements do"""
    lens = {l: (i + first) % (len(lists) + 1) for i, l in enumerate(lists)}
    node = empty(ctx, name, **lens)
    data = ctx.bytes(octets(ctx, node))
    if LAYOUTS[name].pdu and name not in UNREGISTERED:
        q = ctx.create(data)
    else:
        q, _ = parse_any(ctx, name, data)
    for w, x in (('made', fill(ctx, ctx.cls(name)(), node)), ('decoded', q)):
        for l in lists:
            ctx.equal(getattr(x, COUNTS[l]), lens[l], '%s %s' % (w, COUNTS[l]))
            ctx.equal(len(getattr(x, l)), lens[l], '%s %s' % (w, l))
    x = ctx.cls(name)()
    ns = {}
    for l in lists:
        try:
            setattr(x, l, ctx.symlist(l, 0, TOP))
        except AttributeError:
            continue    # a view of a record's list
        ns[l] = len(getattr(x, l)) if ctx.concrete else getattr(x, l).n
    for l in ns:
        try:
            got = getattr(x, COUNTS[l])
        except ctx.End:
            continue    # walks the list: the lengths above decide
        ctx.equal(got, ns[l], COUNTS[l])


def decode(ctx, name, lst, k):
    """k elements present, any count declared"""
    cnt, item = items(name, lst)
    node = empty(ctx, name, **{lst: k})
    for x in [it for it in LAYOUTS[name].items if it.kind == 'list']:
        if x.name == lst:
            bud = Bounds(per_list=0, total=0, fixed={'variableDatum': 0}, sv_data=(2,)).fresh()
            t = UNIONS[item.type][0] if item.type in UNIONS else item.type
            els = [gen_elem(ctx, t, '%s[%d]' % (lst, i), bud) for i in range(k)]
            node.vals = [(it, els if it is item else v) for it, v in node.vals]
    data = octets(ctx, node)
    off, size = offset(ctx, node, cnt), SCALARS[cnt.type]
    c = ctx.uint('declared', 8 * size)
    ctx.assume(c >= cnt.add)
    data[off:off + size] = ctx.enc(cnt.type, c)
    data = ctx.bytes(data)
    box = []

    def go():
        if name in UNREGISTERED or LAYOUTS[name].pdu is None:
            box.append(parse_any(ctx, name, data)[0])
        else:
            box.append(ctx.create(data))
    e = ctx.raises(go)
    want = k * cnt.mul + cnt.add
    if e is not None:
        ctx.require(c != want, 'a correct count is accepted')
        return
    got = len(getattr(box[0], lst))
    if cnt.mul == 1:
        ctx.equal(c, got + cnt.add, 'as many elements decoded as declared')
    else:
        ctx.require(ctx.all([c < (got + 1) * cnt.mul + cnt.add, c > (got - 1) * cnt.mul + cnt.add]),
                    'as many elements decoded as declared')


def tasks(tier):
    out = []
    for n, ls in announcing():
        for i in range(len(ls) + 1):
            out.append(dict(subject=n, fn='announced', params={'name': n, 'lists': ls, 'first': i}, witnesses=1))
    for n, l in sites():
        cnt, item = items(n, l)
        s = n + '.' + l
        bytesy = item.type == 'u8' and n in ('SignalPdu', 'IntercomSignalPdu')
        if not bytesy:
            out.append(dict(subject=s, fn='anylength', params={'name': n, 'lst': l}))
        for k in (0, 1, 2) if tier == 'quick' else (0, 1, 2, 4):
            out.append(dict(subject=s, fn='decode', params={'name': n, 'lst': l, 'k': k}))
        for c in (0, 1, 3, 2, 0), (2, 1):
            out.append(dict(subject=s, fn='changed', params={'name': n, 'lst': l, 'counts': c}))
        top = (1 << (8 * SCALARS[cnt.type])) - 1
        m = (top - cnt.add) // cnt.mul
        if SCALARS[cnt.type] == 1:
            ks = [1, 127, 128, m, m + 1] if tier == 'quick' else [1, 2, 31, 32, 63, 64, 126, 127, 128, 254, m, m + 1, 300]
        elif SCALARS[cnt.type] == 2:
            ks = [1, 128, 256] + ([m, m + 1] if bytesy or tier != 'quick' else [])
        else:
            ks = [1, 128, 256] if tier == 'quick' else [1, 128, 256, 4096]
        for k in ks:
            out.append(dict(subject=s, fn='length', params={'name': n, 'lst': l, 'n': k}, weight=1 + k // 2000,
                            witnesses=2))
    return out


def bounds(tier):
    return {'histories': 'an object encoded with 0, 1, 3, 2, 0 and with 2, 1 elements in turn',
            'count attributes': 'any list length (symbolic), and 0..5 elements, different for each list',
            'encoding': 'list lengths 0..%d (symbolic), elements default; fixed lengths around the capacity of '
                        '8-bit%s counts' % (TOP, '' if tier == 'quick' else ' and 16-bit'),
            'decoding': 'every declared count against %s elements present' % (
                '0..2' if tier == 'quick' else '0, 1, 2, 4')}
