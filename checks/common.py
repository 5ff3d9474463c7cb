"""Shared harness pieces (run both symbolically and concretely)."""
from sx.layout import *
from sx import layout as L

BASE_ASSUMPTIONS = [
    'floating-point field values are not NaN (NaN payload propagation is platform-defined)',
    'reserved (padding) octets of received PDUs are zero, as the standard requires of senders',
    'received PDUs are well formed: counts and lengths agree with the content (truncation is C06)',
    'symbolic models of struct, io.BytesIO, ctypes bit fields, int and bytes; their fidelity is sampled by '
    'replaying a solver model of explored paths on the real interpreter',
]

# PDUs with many independent or nested lists: keep the element budget small
HEAVY = {'AggregateStatePdu': 2, 'ElectromagneticEmissionsPdu': 3, 'TransmitterPdu': 2,
         'DirectedEnergyFirePdu': 2, 'EntityDamageStatusPdu': 2}


def pdu_bounds(name, tier):
    q = tier == 'quick'
    per, total = (2, 3) if q else (3, 5)
    if name in HEAVY:
        total = HEAVY[name] if q else HEAVY[name] + 1
        per = min(per, total)
    sizes = (0, 1, 9) if q else (0, 1, 7, 8, 9, 17)
    return Bounds(per_list=per, total=total, big={'datum_sizes': sizes}, sv_data=(2,) if q else (2, 10))


def rec_bounds(tier, name=''):
    q = tier == 'quick'
    if name == 'DatumSpecification':
        return Bounds(per_list=2 if q else 3, total=2 if q else 4,
                      big={'datum_sizes': tuple(range(0, 18)) if q else (0, 1, 7, 8, 9, 16, 17)})
    if name == 'StandardVariableSpecification':
        return Bounds(per_list=2 if q else 3, total=3, sv_data=(2, 10), big={'datum_sizes': (0, 9)})
    return Bounds(per_list=2 if q else 4, total=3 if q else 6,
                  big={'datum_sizes': tuple(range(0, 18)) if q else tuple(range(0, 66))},
                  sv_data=(2, 10) if q else (2, 10, 18, 26))


def parse_sv(ctx, data, base):
    ins = ctx.instream(data)
    o = ctx.mod('opendis.dis7').parseStandardVariableRecord(ins, ctx.cls(base))
    return o, ins


def sv_base_of(name):
    return {'HighFidelityHAVEQUICKRadio': 'VariableTransmitterParametersRecord'}.get(name, 'DamageDescriptionRecord')


def parse_any(ctx, name, data):
    """parse a standalone record of class `name`"""
    if LAYOUTS[name].sv is not None:
        return parse_sv(ctx, data, sv_base_of(name))
    return ctx.parse_record(name, data)


def pdu_tasks(fn, tier, names=None, **kw):
    return [dict(subject=n, fn=fn, params=dict({'name': n, 'tier': tier}, **kw), weight=5 if n in HEAVY else 2)
            for n in (names or PDU_NAMES + UNREGISTERED)]


def rec_tasks(fn, tier, names=None, **kw):
    return [dict(subject=n, fn=fn, params=dict({'name': n, 'tier': tier}, **kw),
                 weight=4 if 'Datum' in n else 1) for n in (names or RECORD_NAMES)]


def BOUNDS(tier):
    q = tier == 'quick'
    return {'PDUs': 'every field value; list elements per list / per PDU <= %s (heavily nested PDUs %s); variable '
                    'datum octets in %s; unknown standard variable record data octets in %s' % (
                        '2/3' if q else '3/5', '2-3' if q else '3-4', '0,1,9' if q else '0,1,7,8,9,17',
                        '2' if q else '2,10'),
            'records': 'list elements per list / per record <= %s; variable datum octets <= %s' % (
                '2/3' if q else '4/6', '17' if q else '65'),
            'one long list, the others empty': '%d elements, or as many as its count can express; Signal data 300 and 1440 octets' % (130 if q else 300)}


# ---------------------------------------------------------------- long lists
def list_sites():
    """(class, list) of every list of elements, with a count field or without"""
    for n in PDU_NAMES + UNREGISTERED + RECORD_NAMES:
        for it in LAYOUTS[n].items:
            if it.kind == 'list':
                yield n, it


def long_node(ctx, name, lst, k):
    """an instance whose list `lst` has k elements, every other list empty; elements of several kinds take turns"""
    fixed = {'mp': 0, 'ap': 0, 'variableDatum': 1}
    node = gen(ctx, name, '', Bounds(per_list=0, total=0, fixed=fixed).fresh())
    for j, (it, v) in enumerate(node.vals):
        if it.kind == 'list' and it.name == lst:
            els = []
            for i in range(k):
                nm, bud = '%s[%d]' % (lst, i), Bounds(per_list=0, total=0, fixed=fixed, sv_data=(2,)).fresh()
                t = it.type
                if t in UNIONS:
                    c = UNIONS[t][i % len(UNIONS[t])]
                    els.append(gen_unknown_sv(ctx, t, nm, bud) if c == '?' else gen(ctx, c, nm, bud))
                else:
                    els.append(gen_elem(ctx, t, nm, bud))
            node.vals[j] = (it, els)
    if LAYOUTS[name].pdu:
        pin_header(ctx, node, name)
    return node


def long_length(name, it, tier):
    k = 130 if tier == 'quick' else 300
    for c in LAYOUTS[name].items:
        if c.kind == 'count' and c.name == it.name:
            k = min(k, ((1 << (8 * SCALARS[c.type])) - 1 - c.add) // c.mul)
    return k


def long_tasks(fn, tier, k=None):
    out = [dict(subject='%s.%s at length' % (n, it.name), fn=fn, params={'name': n, 'lst': it.name,
                'k': k or long_length(n, it, tier)}, weight=2, witnesses=1) for n, it in list_sites()]
    for n in ('SignalPdu', 'IntercomSignalPdu') if k is None else ():
        for m in 300, 1440:
            out.append(dict(subject=n + '.data at length', fn=fn, params={'name': n, 'lst': 'data', 'k': m}, witnesses=1))
    return out
