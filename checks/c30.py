"""C30: coordinate conversions are pure functions of their arguments."""
from .rccommon import *
from .c21 import point

# function -> arguments; 'lla', 'ecef' and 'vec' are triples
FNS = {
    'lla2ecef': ('lla',), 'lla2gcc': ('lla', 'origin'), 'ecefvec2nedvec': ('lat', 'lon'), 'ned2pae': ('vec',),
    'rotate_3x3': ('ang', 'unit'), 'transpose': ('mat',), 'lla2utm': ('near',),
    'llarpy2ecef': ('=0.7', '=-1.1', '=900.0', 'ang', '=0.3', '=-2.5'),
    'ecef2lla': ('ecef',), 'ecef2ned': ('vec', 'ecef'), 'ned2ecef': ('vec', 'ecef'), 'ecef2pae': ('vec', 'equ'),
    'ecef2utm': ('equ',),
    'ecef2llarpy': ('=2100000.0', '=-4300000.0', '=4400000.0', 'ang', 'ang', 'ang'),
    'g0': ('lat',), 'utmLetterDesignator': ('deg',),
    'deg2rad': ('deg',), 'rad2deg': ('ang',), 'euclideanDistance': ('vec', 'vec'),
}
ITERATES = ('ecef2lla', 'ecef2ned', 'ned2ecef', 'ecef2pae', 'ecef2utm', 'ecef2llarpy')
BOX = {'lat': (-1.5, 1.5), 'lon': (-6, 6), 'alt': (-10000, 10000000), 'ang': (-6, 6), 'deg': (-80, 84),
       'x': (-50000000, 50000000)}
# what other calls used before
OTHER = {'lat': 0.5, 'lon': 1.25, 'alt': 1000.0, 'ang': 0.75, 'deg': 31.0, 'x': 4000000.0,
         'lla': [12.5, 47.0, 250.0], 'ecef': [4000000.0, 1000000.0, 4800000.0], 'vec': [10.0, -20.0, 30.0],
         'near': [33.0, 11.0, 100.0], 'equ': [6500000.0, 50000.0, 0.0], 'origin': '12.5 47.0 250',
         '=0.7': 0.5, '=-1.1': 1.25, '=900.0': 1000.0, '=0.3': -0.2, '=-2.5': 1.5, '=2100000.0': 3000000.0, '=-4300000.0': 3500000.0,
         '=4400000.0': -4500000.0, 'unit': [0.0, 0.6, 0.8], 'mat': [[1.0, 2.0, 3.0], [4.0, 5.0, 6.0], [7.0, 8.0, 10.0]]}


def arg(ctx, kind, nm):
    if kind in BOX:
        return ctx.real(nm, *BOX[kind])
    if kind == 'lla':
        return [ctx.real(nm + '.lat', -80, 84), ctx.real(nm + '.lon', -180, 179), ctx.real(nm + '.alt', -10000, 10000000)]
    if kind[0] == '=':
        return float(kind[1:])
    if kind == 'origin':
        return ''
    if kind == 'near':
        return [ctx.real(nm + '.lat', 30, 39), ctx.real(nm + '.lon', 10, 14), ctx.real(nm + '.alt', -10000, 10000000)]
    if kind == 'equ':
        return [ctx.real(nm + '.x', 5000000, 7000000), ctx.real(nm + '.y', 0, 100000), 0.0]
    if kind == 'ecef':
        p = [ctx.real('%s[%d]' % (nm, i), -50000000, 50000000) for i in range(3)]
        ctx.assume(dot(p, p) >= 36e12)
        return p
    if kind == 'mat':
        return [[ctx.real('%s[%d][%d]' % (nm, i, j)) for j in range(3)] for i in range(3)]
    if kind == 'unit':
        s, c = ctx.trig(ctx.real(nm + ' angle', -6, 6))
        return [c, s, 0.0]
    return [ctx.real('%s[%d]' % (nm, i), -100000, 100000) for i in range(3)]


def copy(x):
    return [copy(y) for y in x] if isinstance(x, list) else x


def call(ctx, name, args):
    m = mod(ctx)
    if name in ('deg2rad', 'rad2deg', 'euclideanDistance'):
        return getattr(m, name)(*args)
    g = m.GPS()
    if name == 'g0':
        return m.WGS84().g0(*args)
    return getattr(g, name)(*args)


def numbers(x):
    """the numbers of a result (UTM results carry texts as well)"""
    if isinstance(x, (list, tuple)) or (hasattr(x, 'ravel') and getattr(x, 'ndim', 0) > 0):
        return [z for y in x for z in numbers(y)]
    return [x]


def agree(ctx, a, b, label):
    a, b = numbers(a), numbers(b)
    ctx.require(len(a) == len(b), label + ': same shape')
    for x, y in zip(a, b):
        if isinstance(x, (str, type(None))) or isinstance(y, (str, type(None))):
            ctx.require(x == y, label)
        else:
            ctx.close([x], [y], label)


def parts(args):
    """each number among the arguments, as (argument, index)"""
    out = []
    for i, a in enumerate(args):
        if isinstance(a, list):
            out += [(i, j) for j in range(len(a))]
        else:
            out.append((i, None))
    return out


def history(ctx, name, shared):
    """another call, for a place that shares `shared` numbers with this one, changes nothing"""
    ctx.nonzero_divisors()
    ctx.limit(4 if name in ITERATES else 40)
    kinds = FNS[name]
    args = [arg(ctx, k, 'a%d' % i) for i, k in enumerate(kinds)]
    other = [copy(OTHER[k]) for k in kinds]
    for i, j in parts(args):
        x, y = (args[i], other[i]) if j is None else (args[i][j], other[i][j])
        if (i, j) not in [tuple(q) for q in shared] and kinds[i] not in ('mat', 'unit') and kinds[i][0] != '=' \
                and not isinstance(x, str) and (kinds[i], j) != ('equ', 2):
            ctx.assume(x != y)
    first = numbers(call(ctx, name, copy(args)))
    ctx.reset()
    for i, j in shared:
        if j is None:
            other[i] = args[i]
        else:
            other[i][j] = copy(args[i][j])
    ctx.raises(call, ctx, name, other)
    agree(ctx, call(ctx, name, copy(args)), first, 'same result after another call')


def pure(ctx, name):
    """arguments stay as they were; results are the caller's own"""
    ctx.nonzero_divisors()
    ctx.limit(4 if name in ITERATES else 40)
    kinds = FNS[name]
    args = [arg(ctx, k, 'a%d' % i) for i, k in enumerate(kinds)]
    given = copy(args)
    r = call(ctx, name, given)
    first = numbers(r)
    for i, (x, y) in enumerate(zip(given, args)):
        agree(ctx, x, y, 'argument %d untouched' % i)
    spoil(r)
    for i, (x, y) in enumerate(zip(given, args)):
        agree(ctx, x, y, 'argument %d independent of the result' % i)
    agree(ctx, call(ctx, name, given), first, 'same result again')


def spoil(r):
    """write all over a result"""
    if isinstance(r, tuple):
        for x in r:
            spoil(x)
    elif isinstance(r, list) or (hasattr(r, 'ravel') and getattr(r, 'ndim', 0) > 0):
        for i in range(len(r)):
            if isinstance(r[i], (list, tuple)) or hasattr(r[i], 'ravel') and getattr(r[i], 'ndim', 0) > 0:
                spoil(r[i])
            elif not isinstance(r[i], str):
                r[i] = 12345.0


def choices(name, tier):
    args = [OTHER[k] for k in FNS[name]]
    ps = parts(args)
    if len(ps) == 1:
        return [[]]
    one = [[p] for p in ps]
    rest = [] if tier == 'quick' and name in ITERATES else [[q for q in ps if q != p] for p in ps]
    two = [[(i, k) for k in range(3) if k != j] for i, j in ps if j is not None and len(args[i]) == 3]
    whole = [[p for p in ps if p[0] == i] for i in range(len(args))] if len(args) > 1 else []
    out = [[]] + one + two + rest + whole
    return [c for i, c in enumerate(out) if c not in out[:i]]


def tasks(tier):
    out = []
    for n in FNS:
        out.append(dict(subject=n, fn='pure', params={'name': n}, mode='real'))
        for c in choices(n, tier):
            out.append(dict(subject=n, fn='history', params={'name': n, 'shared': c}, mode='real'))
    return out


def bounds(tier):
    return {'histories': 'one other call before, sharing exactly: nothing, any one number, two '
                         'numbers of a triple, all numbers but one, or any whole argument',
            'arguments': 'every real argument in the stated boxes (latitudes -80..84)',
            'outside': 'rounding; later rounds of the iteration of ecef2lla'}
