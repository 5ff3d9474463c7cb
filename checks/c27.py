"""C27: the geodetic position of an ECEF point."""
from .rccommon import *
from .c21 import point

DEPTH = {'quick': 3, 'thorough': 5}


def outside(ctx, p):
    ctx.assume(dot(p, p) >= 36e12)


def longitude(ctx, tier):
    """the longitude is the direction in the equatorial plane, whatever the height and the hemisphere"""
    ctx.nonzero_divisors()
    ctx.limit(DEPTH[tier])
    o = point(ctx, 'point')
    outside(ctx, o)
    ctx.assume(o[0] * o[0] + o[1] * o[1] >= 1e-4)
    lat, lon, alt = gps(ctx).ecef2lla(o)
    so, co = ctx.trig(rad(ctx, lon))
    p = ctx.root(o[0] * o[0] + o[1] * o[1])
    ctx.close(p * so, o[1], 'sine of the longitude', tol=1e-4)
    ctx.close(p * co, o[0], 'cosine of the longitude', tol=1e-4)
    ctx.at_most(lon, 180, 'longitude at most 180')
    ctx.at_most(-180, lon, 'longitude at least -180')
    ctx.at_most(lat, 90, 'latitude at most 90')
    ctx.at_most(-90, lat, 'latitude at least -90')


def equator(ctx):
    """points in the equatorial plane: latitude 0, height above the equator"""
    ctx.nonzero_divisors()
    o = point(ctx, 'point')
    o[2] = 0.0
    ctx.assume(o[0] * o[0] + o[1] * o[1] >= 1)
    lat, lon, alt = gps(ctx).ecef2lla(o)
    ctx.observe('lla', [lat, alt])
    ctx.close(lat, 0, 'latitude of the equator')
    ctx.close(alt, ctx.root(o[0] * o[0] + o[1] * o[1]) - A, 'altitude over the equator', tol=1e-4)


def pole(ctx, north):
    z = ctx.real('z', 1, 50000000)
    lat, lon, alt = gps(ctx).ecef2lla([0.0, 0.0, z if north else -z])
    ctx.close(lat, 90 if north else -90, 'latitude of the pole')
    ctx.at_most(alt - (z - B), 0.006, 'altitude over the pole')
    ctx.at_most(-0.006, alt - (z - B), 'altitude over the pole')


def centre(ctx):
    try:
        gps(ctx).ecef2lla([0.0, 0.0, 0.0])
    except Exception:
        return
    ctx.check(False, 'the centre of the earth has no latitude and is refused')


def mirror(ctx, tier, which):
    """hemispheres are alike"""
    ctx.nonzero_divisors()
    ctx.limit(4 if which == 'south' and tier == 'quick' else DEPTH[tier])
    o = point(ctx, 'point')
    outside(ctx, o)
    ctx.assume(o[0] * o[0] + o[1] * o[1] >= 1)
    x, y, z = o
    g = gps(ctx)
    a = g.ecef2lla(o)
    b = g.ecef2lla({'south': [x, y, -z], 'west': [x, -y, z], 'opposite': [-x, -y, z], 'quarter': [-y, x, z]}[which])
    ctx.close(b[0], -a[0] if which == 'south' else a[0], 'latitude', tol=1e-9)
    ctx.close(b[2], a[2], 'altitude', tol=1e-4)


def default(ctx, tier):
    """the default accuracy is the documented 1e-9"""
    ctx.nonzero_divisors()
    ctx.limit(DEPTH[tier])
    o = point(ctx, 'point')
    outside(ctx, o)
    ctx.assume(o[0] * o[0] + o[1] * o[1] >= 1)
    g = gps(ctx)
    ctx.close(list(g.ecef2lla(o)), list(g.ecef2lla(o, 1e-9)), 'same as with tolerance 1e-9', tol=1e-4)


def surface(ctx, west, south):
    """a point on the ellipsoid: the first round already finds the latitude, and the altitude within 150 m"""
    ctx.nonzero_divisors()
    p = ctx.real('p', 1000, A)
    z = B / A * ctx.root(A * A - p * p)
    if south:
        z = -z
    la, lo, al = gps(ctx).ecef2lla([-p if west else p, 0.0, z], 2)
    ctx.observe('lla', [la, lo])
    s, c = ctx.trig(rad(ctx, la))
    # the normal of the ellipse is (p / a^2, z / b^2)
    ctx.close(s * p * (B * B) / (A * A), c * z, 'latitude of the normal', tol=1e-3)
    ctx.at_most(0, c, 'latitude of the near side', slack=1e-12)
    ctx.at_most(al, 150, 'altitude within 150 m', soft=True)
    ctx.at_most(-150, al, 'altitude within 150 m', soft=True)


def tasks(tier):
    out = [dict(subject='ecef2lla longitude', fn='longitude', params={'tier': tier}),
           dict(subject='ecef2lla on the equator', fn='equator'),
           dict(subject='ecef2lla at the north pole', fn='pole', params={'north': True}),
           dict(subject='ecef2lla at the south pole', fn='pole', params={'north': False}),
           dict(subject='ecef2lla at the centre', fn='centre'),
           dict(subject='ecef2lla accuracy', fn='default', params={'tier': tier})]
    for w in ('south', 'west', 'opposite', 'quarter'):
        out.append(dict(subject='ecef2lla hemispheres, ' + w, fn='mirror', params={'tier': tier, 'which': w}))
    for w in (False, True):
        for h in (False, True):
            out.append(dict(subject='ecef2lla on the ellipsoid', fn='surface', params={'west': w, 'south': h}))
    for t in out:
        t['mode'] = 'real'
    return out


def bounds(tier):
    return {'points': 'every real point with coordinates up to 5e7, at least 6e6 from the centre'}
