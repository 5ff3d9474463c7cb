"""C22: range, azimuth and elevation are the spherical coordinates of a local position."""
from .rccommon import *
from .c21 import setup, point


def sphere(ctx):
    n = point(ctx, 'ned')
    p, az, el = gps(ctx).ned2pae(n)
    ctx.observe('pae', [p, az, el])
    ctx.at_most(0, p, 'range not negative')
    ctx.close(p * p, dot(n, n), 'range', tol=1e-3)
    for a, top, w in ((az, 180, 'azimuth'), (el, 90, 'elevation')):
        ctx.at_most(a, top, w + ' within bounds')
        ctx.at_most(-top, a, w + ' within bounds')
    (sa, ca), (se, ce) = ctx.trig(rad(ctx, az)), ctx.trig(rad(ctx, el))
    ctx.close(p * ce * ca, n[0], 'north', tol=1e-4)
    ctx.close(p * ce * sa, n[1], 'east', tol=1e-4)
    ctx.close(-p * se, n[2], 'down', tol=1e-4)


def quadrants(ctx):
    """signs of the angles"""
    n = point(ctx, 'ned')
    p, az, el = gps(ctx).ned2pae(n)
    ctx.check(ctx.any([ctx.all([n[1] > 0, az > 0]), ctx.all([n[1] < 0, az < 0]), n[1] == 0]), 'east of north is positive')
    ctx.check(ctx.any([ctx.all([n[2] < 0, el > 0]), ctx.all([n[2] > 0, el < 0]), ctx.all([n[2] == 0, el == 0])]),
              'above the horizon is positive')
    ctx.check(ctx.any([n[0] <= 0, ctx.all([az < 90, az > -90])]), 'ahead is within 90 degrees of north')


def ecef(ctx, tier, pole):
    """ecef2pae is ned2pae of ecef2ned"""
    o = setup(ctx, tier, pole)
    p = point(ctx, 'point')
    g = gps(ctx)
    n = g.ecef2ned(p, o)
    a, b = g.ecef2pae(p, o), g.ned2pae(n)
    ctx.close(list(a), list(b), 'same as ned2pae of ecef2ned', tol=1e-5)
    # the straight-line distance
    d = [x - y for x, y in zip(p, o)]
    ctx.close(a[0] * a[0], dot(d, d), 'range is the distance', tol=1)


def tasks(tier):
    out = [dict(subject='ned2pae', fn='sphere', mode='real'), dict(subject='ned2pae', fn='quadrants', mode='real')]
    for pole in (False, True):
        out.append(dict(subject='ecef2pae%s' % (' at the poles' if pole else ''), fn='ecef',
                        params={'tier': tier, 'pole': pole}, mode='real'))
    return out


def bounds(tier):
    return {'points': 'every real local or ECEF position with coordinates up to 5e7, the zero vector included',
            'outside': 'rounding; origins deeper than 6e6 from the centre; later rounds of the iteration in ecef2lla'}
