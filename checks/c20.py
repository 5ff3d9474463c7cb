"""C20: geodetic positions map onto the WGS84 ellipsoid and its normals."""
from .rccommon import *


def lla(ctx):
    return ctx.real('lat', -90, 90), ctx.real('lon', -360, 360), ctx.real('alt', -10000, 100000000)


def surface(ctx):
    """zero altitude is on the ellipsoid"""
    lat, lon, _ = lla(ctx)
    x, y, z = gps(ctx).lla2ecef((lat, lon, 0.0))
    ctx.observe('ecef', [x, y, z])
    ctx.close((x * x + y * y) / (A * A) + z * z / (B * B), 1, 'on the ellipsoid')
    (sa, ca), (so, co) = ctx.trig(rad(ctx, lat)), ctx.trig(rad(ctx, lon))
    # the geodetic latitude is the direction of the normal (x/a^2, y/a^2, z/b^2)
    ctx.close(x / (A * A) * sa * B, z / (B * B) * ca * co * B, 'normal in the x-z plane')
    ctx.close(y / (A * A) * sa * B, z / (B * B) * ca * so * B, 'normal in the y-z plane')
    ctx.close(x * so, y * co, 'longitude', tol=1e-6)


def octant(ctx):
    """signs follow the hemisphere"""
    lat, lon, alt = lla(ctx)
    x, y, z = gps(ctx).lla2ecef((lat, lon, alt))
    (sa, ca), (so, co) = ctx.trig(rad(ctx, lat)), ctx.trig(rad(ctx, lon))
    ctx.assume(ca >= 0)
    ctx.at_most(0, z * sa, 'z has the sign of the latitude', slack=1e-3)
    ctx.at_most(0, x * co, 'x has the sign of cos(lon)', slack=1e-3)
    ctx.at_most(0, y * so, 'y has the sign of sin(lon)', slack=1e-3)


def altitude(ctx):
    """altitude is the distance along the outward normal"""
    lat, lon, alt = lla(ctx)
    g = gps(ctx)
    p = g.lla2ecef((lat, lon, alt))
    q = g.lla2ecef((lat, lon, 0.0))
    ctx.observe('ecef', list(p))
    (sa, ca), (so, co) = ctx.trig(rad(ctx, lat)), ctx.trig(rad(ctx, lon))
    for i, n in enumerate([ca * co, ca * so, sa]):
        ctx.close(p[i] - q[i], alt * n, 'moves along the normal, %s' % 'xyz'[i], tol=1e-5)


def gcc(ctx, origin):
    """lla2gcc is lla2ecef relative to the given origin"""
    lat, lon, alt = lla(ctx)
    g = gps(ctx)
    p = g.lla2ecef((lat, lon, alt))
    if origin is None:
        q = g.lla2gcc((lat, lon, alt))
        ctx.close(list(q), list(p), 'same as lla2ecef')
        return
    d, h = origin
    q = g.lla2gcc((lat, lon, alt), '%r %r %r' % (d, d, h))
    o = g.lla2ecef((d, d, h))
    ctx.close(list(q), [a - b for a, b in zip(p, o)], 'relative to the origin', tol=1e-5)


def degrees(ctx):
    x = ctx.real('x', -100000, 100000)
    m = mod(ctx)
    ctx.close(m.rad2deg(m.deg2rad(x)), x, 'rad2deg(deg2rad(x))')
    ctx.close(m.deg2rad(m.rad2deg(x)), x, 'deg2rad(rad2deg(x))')
    ctx.close(m.deg2rad(x), rad(ctx, x), 'deg2rad')


def distance(ctx, n, ref):
    a = [ctx.real('a[%d]' % i, -10000000, 10000000) for i in range(n)]
    b = [ctx.real('b[%d]' % i, -10000000, 10000000) for i in range(n)]
    f = mod(ctx).euclideanDistance
    if ref:
        d, e = f(a, b), f(b, a)
        ctx.close(d * d, sum((x - y) * (x - y) for x, y in zip(a, b)), 'Pythagoras')
        ctx.close(d, e, 'symmetric', tol=1e-6)
    else:
        d = f(a)
        ctx.close(d * d, sum(x * x for x in a), 'Pythagoras')
    ctx.at_most(0, d, 'not negative')


def gravity(ctx):
    """surface gravity grows from the equator to the poles and is symmetric"""
    lat = ctx.real('lat', -2, 2)
    w = mod(ctx).WGS84()
    g = w.g0(lat)
    ctx.close(w.g0(-lat), g, 'symmetric')
    ctx.at_most(9.78, g, 'at least 9.78')
    ctx.at_most(g, 9.833, 'at most 9.833')


def tasks(tier):
    out = [dict(subject='lla2ecef', fn=f) for f in ('surface', 'octant', 'altitude')]
    for o in (None, (0.0, 0.0), (36.5, 12.25), (-60.0, 100.0)):
        out.append(dict(subject='lla2gcc', fn='gcc', params={'origin': o}))
    out.append(dict(subject='deg2rad, rad2deg', fn='degrees'))
    for n in (1, 2, 3, 4):
        for r in (False, True):
            out.append(dict(subject='euclideanDistance', fn='distance', params={'n': n, 'ref': r}))
    out.append(dict(subject='WGS84.g0', fn='gravity'))
    for t in out:
        t['mode'] = 'real'
    return out


def bounds(tier):
    return {'lla': 'every latitude in [-90, 90], longitude in [-360, 360], altitude in [-1e4, 1e8]',
            'lla2gcc': '3 origins', 'euclideanDistance': '1 to 4 components', 'outside': 'rounding'}
