"""C19: dead reckoning is a pure function and a zero time step changes nothing."""
from .drcommon import *


def identity(ctx, name, how):
    s = State(ctx)
    p, o = call(ctx, name, s, how, dt=0.0)
    ctx.close(p, s.pos, 'position unchanged')
    ctx.close(o, s.ori, 'orientation unchanged')


def args(ctx, name, s, how):
    """fresh containers for the call, with the values they hold"""
    return {k: (shaped(ctx, getattr(s, k), how), getattr(s, k)) for k in ('pos', 'vel', 'acc', 'ori', 'ang')}


def invoke(ctx, name, a, dt):
    moves, acc, body, rot = ALGS[name]
    f = getattr(mod(ctx), name)
    if name == 'drm_static':
        return f(a['pos'][0], a['ori'][0])
    l = [a['pos'][0], a['vel'][0]] + ([a['acc'][0]] if acc else []) + [dt, a['ori'][0]]
    return f(*(l + ([a['ang'][0]] if rot else [])))


def pure(ctx, name, how):
    """arguments are not modified, results are not views of them, and calling again gives the same"""
    s = State(ctx)
    a = args(ctx, name, s, how)
    p, o = invoke(ctx, name, a, s.dt)
    for k, (got, want) in a.items():
        ctx.close(list(got), list(want), 'argument %s untouched' % k)
    p2, o2 = invoke(ctx, name, a, s.dt)
    ctx.close(p, p2, 'same position again')
    ctx.close(o, o2, 'same orientation again')
    for r in (p, o):
        for i in range(3):
            r[i] = r[i] + 1
    for k, (got, want) in a.items():
        ctx.close(list(got), list(want), 'argument %s independent of the result' % k)
    ctx.close(p2 if p is not p2 else [x - 1 for x in p2], [x - 1 for x in p], 'results independent of each other')
    ctx.close(o2, [x - 1 for x in o], 'results independent of each other')


FIELDS = ('pos', 'vel', 'acc', 'ori', 'ang', 'dt')
OTHER = {'pos': [11.0, -7.0, 3.0], 'vel': [4.0, 5.0, -6.0], 'acc': [-1.0, 2.0, 1.0], 'ori': [0.5, 0.25, -1.5],
         'ang': [0.1, 0.2, -0.3], 'dt': 2.0}


def history(ctx, name, shared, by='name'):
    """another step before, sharing some of the arguments, changes nothing"""
    s = State(ctx)
    a = {k: (list(v) if isinstance(v, list) else v, None) for k, v in ((k, getattr(s, k)) for k in FIELDS)}
    def put(k):
        """what the other step uses: the shared numbers, and different ones"""
        mine, other = getattr(s, k), OTHER[k]
        if k == 'dt':
            if k not in shared:
                ctx.assume(mine != other)
            return mine if k in shared else other
        out = []
        for i, (u, v) in enumerate(zip(mine, other)):
            same = k in shared or '%s%d' % (k, i) in shared
            if not same:
                ctx.assume(u != v)
            out.append(u if same else v)
        return out

    b = {k: (put(k), None) for k in FIELDS}
    p, o = invoke(ctx, name, a, s.dt)
    p, o = list(p), list(o)
    ctx.reset()
    if by == 'name':
        invoke(ctx, name, b, b['dt'][0])
    else:       # another algorithm in between
        for n in ALGS:
            if n != name and ALGS[n][3] == ALGS[name][3]:
                invoke(ctx, n, b, b['dt'][0])
    p2, o2 = invoke(ctx, name, a, s.dt)
    ctx.close(p2, p, 'same position after another call')
    ctx.close(o2, o, 'same orientation after another call')


def relevant(name):
    moves, acc, body, rot = ALGS[name]
    if name == 'drm_static':
        return ['pos', 'ori']
    return ['pos', 'vel'] + ['acc'] * acc + ['ori'] + ['ang'] * rot + ['dt']


def integers(ctx, name):
    """whole-number arguments are as good as any"""
    t = ctx.real('dt', -60, 60)
    ints = {'pos': [1, -2, 3], 'vel': [4, 5, -6], 'acc': [-1, 2, 1], 'ori': [1, 0, 2], 'ang': [1, 2, -3]}
    a = {k: (list(v), v) for k, v in ints.items()}
    b = {k: ([float(x) for x in v], v) for k, v in ints.items()}
    pa, oa = invoke(ctx, name, a, t)
    pb, ob = invoke(ctx, name, b, t)
    ctx.close(pa, pb, 'same position')
    ctx.close(oa, ob, 'same orientation')
    moves, acc, body, rot = ALGS[name]
    if not body:
        ctx.close(pa, [1 * x + (v * t if moves else 0) + (c * t * t / 2 if acc else 0)
                       for x, v, c in zip(ints['pos'], ints['vel'], ints['acc'])], 'position')


def tasks(tier):
    out = []
    for n in ALGS:
        for how in ('list', 'tuple', 'array'):
            if n != 'drm_static':
                out.append(dict(subject=n, fn='identity', params={'name': n, 'how': how}, mode='real'))
            out.append(dict(subject=n, fn='pure', params={'name': n, 'how': how}, mode='real'))
        r = relevant(n)
        three = [k for k in r if k != 'dt' and n != 'drm_static']
        part = [['%s%d' % (k, i)] for k in three for i in range(3)]
        part += [['%s%d' % (k, j) for j in range(3) if j != i] + (rest * [x for x in r if x != k])
                 for k in three for i in range(3) for rest in (0, 1)]
        for c in [[]] + [[k] for k in r] + [[k for k in r if k != x] for x in r] + part:
            out.append(dict(subject=n, fn='history', params={'name': n, 'shared': c}, mode='real'))
        out.append(dict(subject=n, fn='history', params={'name': n, 'shared': r, 'by': 'other'}, mode='real'))
        out.append(dict(subject=n, fn='integers', params={'name': n}, mode='real'))
    return out


def bounds(tier):
    return {'inputs': 'every real state in the stated boxes, given as lists, tuples or arrays; one whole-number state '
                      'with every time step', 'outside': 'rounding; non-finite inputs'}
