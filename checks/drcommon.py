"""Shared pieces of the dead-reckoning harnesses (exact reals)."""
TOL = 1e-6
ALLOW_SKIP = True
ASSUMPTIONS = [
    'exact real arithmetic: floating-point rounding is outside the claim; constants that agree to a relative 1e-11 are '
    'identified',
    'inputs within the stated boxes (they only matter for comparisons; the identities are polynomial)',
    'symbolic models of numpy arrays (object arrays of exact reals) and math; sampled by replaying path witnesses on '
    'CPython and numpy',
]
# name -> (position moves, accelerates, body frame, rotates)
ALGS = {'drm_static': (0, 0, 0, 0), 'drm_fpw': (1, 0, 0, 0), 'drm_rpw': (1, 0, 0, 1), 'drm_rvw': (1, 1, 0, 1),
        'drm_fvw': (1, 1, 0, 0), 'drm_fpb': (1, 0, 1, 0), 'drm_rpb': (1, 0, 1, 1), 'drm_rvb': (1, 1, 1, 1),
        'drm_fvb': (1, 1, 1, 0)}
WORLD = [n for n, f in ALGS.items() if not f[2]]
BODY = [n for n, f in ALGS.items() if f[2]]
ROTATING = [n for n, f in ALGS.items() if f[3]]


def mod(ctx):
    return ctx.mod('opendis.DeadReckoning')


def vec(ctx, nm, lo=-1000, hi=1000):
    return [ctx.real('%s[%d]' % (nm, i), lo, hi) for i in range(3)]


class State:
    def __init__(self, ctx, nm=''):
        self.pos = vec(ctx, nm + 'position', -7000000, 7000000)
        self.vel = vec(ctx, nm + 'velocity')
        self.acc = vec(ctx, nm + 'acceleration', -100, 100)
        self.ori = vec(ctx, nm + 'orientation', -7, 7)
        self.ang = vec(ctx, nm + 'angular velocity', -10, 10)
        self.dt = ctx.real(nm + 'dt', -60, 60)


def shaped(ctx, v, how):
    return list(v) if how == 'list' else tuple(v) if how == 'tuple' else ctx.vec(v)


def call(ctx, name, s, how='list', **over):
    """run the algorithm on the state, arguments by position as documented"""
    moves, acc, body, rot = ALGS[name]
    g = lambda k: over[k] if k in over else getattr(s, k)
    f = getattr(mod(ctx), name)
    v = lambda k: shaped(ctx, g(k), how)
    if name == 'drm_static':
        return f(v('pos'), v('ori'))
    a = [v('pos'), v('vel')]
    if acc:
        a.append(v('acc'))
    a += [g('dt'), v('ori')]
    if rot:
        a.append(v('ang'))
    return f(*a)


def matrix(ctx, ori):
    """the oracle: body-to-world rotation for yaw psi, pitch theta, roll phi (z-y-x), from elementary rotations"""
    psi, theta, phi = ori
    (s1, c1), (s2, c2), (s3, c3) = ctx.trig(psi), ctx.trig(theta), ctx.trig(phi)
    rz = [[c1, -s1, 0], [s1, c1, 0], [0, 0, 1]]
    ry = [[c2, 0, s2], [0, 1, 0], [-s2, 0, c2]]
    rx = [[1, 0, 0], [0, c3, -s3], [0, s3, c3]]
    return mul(mul(rz, ry), rx)


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def app(m, v):
    return [sum(m[i][k] * v[k] for k in range(3)) for i in range(3)]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def rows(m):
    return [[m[i][j] for j in range(3)] for i in range(3)]
