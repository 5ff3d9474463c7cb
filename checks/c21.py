"""C21: ECEF and local north-east-down coordinates are inverse rigid motions."""
from .rccommon import *

DEPTH = {'quick': 5, 'thorough': 8}


def point(ctx, nm):
    return [ctx.real('%s[%d]' % (nm, i), -50000000, 50000000) for i in range(3)]


def setup(ctx, tier, pole=False):
    """an origin outside the deep interior; the iteration of ecef2lla is followed up to a number of rounds"""
    ctx.nonzero_divisors()
    ctx.limit(DEPTH[tier])
    o = point(ctx, 'origin')
    if pole:
        o[0] = o[1] = 0.0
        ctx.assume_any([o[2] >= 6000000, o[2] <= -6000000])
    else:
        ctx.assume(dot(o, o) >= 36e12)
    return o


def ned(ctx, tier, pole):
    """north, east and down are the axes of the local frame at the origin's latitude and longitude"""
    o = setup(ctx, tier, pole)
    g = gps(ctx)
    p = point(ctx, 'point')
    lat, lon, _ = g.ecef2lla(o)
    n = g.ecef2ned(p, o)
    ctx.observe('ned', list(n))
    m = local(ctx, rad(ctx, lat), rad(ctx, lon))
    ctx.close(list(n), app(m, [a - b for a, b in zip(p, o)]), 'axes', tol=1e-4)
    ctx.close(list(g.ecef2ned(o, o)), [0, 0, 0], 'the origin is at zero')


def inverse(ctx, tier, pole):
    o = setup(ctx, tier, pole)
    g = gps(ctx)
    p = point(ctx, 'point')
    ctx.close(list(g.ned2ecef(g.ecef2ned(p, o), o)), p, 'ned2ecef after ecef2ned', tol=1e-4)


def inverse2(ctx, tier, pole):
    o = setup(ctx, tier, pole)
    g = gps(ctx)
    n = point(ctx, 'ned')
    e = g.ned2ecef(n, o)
    ctx.observe('ecef', list(e))
    ctx.close(list(g.ecef2ned(e, o)), n, 'ecef2ned after ned2ecef', tol=1e-4)


def isometry(ctx, tier, pole):
    """distances are kept"""
    o = setup(ctx, tier, pole)
    g = gps(ctx)
    p, q = point(ctx, 'p'), point(ctx, 'q')
    a, b = g.ecef2ned(p, o), g.ecef2ned(q, o)
    d = [x - y for x, y in zip(a, b)]
    e = [x - y for x, y in zip(p, q)]
    ctx.close(dot(d, d), dot(e, e), 'distance kept', tol=1)


def frame(ctx):
    """the frame at any latitude and longitude is right-handed orthonormal, down along the inward normal"""
    lat, lon = ctx.real('lat', -2, 2), ctx.real('lon', -7, 7)
    g = gps(ctx)
    m = rows(g.ecefvec2nedvec(lat, lon))
    ctx.observe('frame', m)
    for i in range(3):
        for j in range(i, 3):
            ctx.close(dot(m[i], m[j]), 1 if i == j else 0, 'rows %d,%d orthonormal' % (i, j))
    ctx.close(det(m), 1, 'right-handed')
    ctx.close(m, local(ctx, lat, lon), 'north, east and down')


def tasks(tier):
    out = [dict(subject='ecefvec2nedvec', fn='frame', mode='real')]
    for pole in (False, True):
        for f in ('ned', 'inverse', 'inverse2', 'isometry'):
            out.append(dict(subject='ecef2ned, ned2ecef%s' % (' at the poles' if pole else ''), fn=f,
                            params={'tier': tier, 'pole': pole}, mode='real'))
    return out


def bounds(tier):
    return {'points': 'every real point with coordinates up to 5e7',
            'origin': 'every origin at least 6e6 from the centre; rounds of the iteration in ecef2lla followed until %d '
                      'open decisions on a path' % DEPTH[tier],
            'outside': 'rounding; later rounds of the iteration'}
