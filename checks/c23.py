"""C23: orientations convert between the local frame and ECEF without changing the attitude."""
from .rccommon import *
from .c21 import setup, point


def rotate(ctx):
    """rotate_3x3 is the right-handed rotation about the given unit axis"""
    t = ctx.real('angle', -7, 7)
    a, b = ctx.real('axis azimuth', -7, 7), ctx.real('axis elevation', -2, 2)
    (sa, ca), (sb, cb), (st, ct) = ctx.trig(a), ctx.trig(b), ctx.trig(t)
    n = [ca * cb, sa * cb, sb]
    m = rows(gps(ctx).rotate_3x3(t, ctx.vec(n)))
    ctx.observe('matrix', m)
    for i in range(3):
        for j in range(i, 3):
            ctx.close(dot(m[i], m[j]), 1 if i == j else 0, 'rows %d,%d orthonormal' % (i, j))
    ctx.close(det(m), 1, 'right-handed')
    ctx.close(app(m, n), n, 'axis fixed')
    e1, e2 = [-sa, ca, 0], [-ca * sb, -sa * sb, cb]        # e1, e2, n right-handed
    ctx.close(app(m, e1), [ct * x + st * y for x, y in zip(e1, e2)], 'turns counter-clockwise about the axis')


def attitude(ctx, lat, lon, yaw, pitch, roll):
    """the oracle: body axes in ECEF, as columns"""
    return mul(transpose(local(ctx, lat, lon)), euler(ctx, yaw, pitch, roll))


FIXED = {'equator, level, north': dict(lat=0.0, yaw=0.0, pitch=0.0),
         'equator, level, south': dict(lat=0.0, pitch=0.0, yaw=3.141592653589793),
         'pole, nose up': dict(lat=1.5707963267948966, pitch=1.5707963267948966)}


def angles(ctx, fixed):
    f = FIXED.get(fixed, {})
    box = dict(lat=1.6, lon=7, roll=7, pitch=1.6, yaw=7)
    return [f[k] if k in f else ctx.real(k, -box[k], box[k]) for k in ('lat', 'lon', 'roll', 'pitch', 'yaw')]


def to_ecef(ctx, fixed):
    """llarpy2ecef: same position as lla2ecef, same body axes"""
    ctx.nonzero_divisors()
    lat, lon, roll, pitch, yaw = angles(ctx, fixed)
    alt = ctx.real('alt', -10000, 1000000)
    m = attitude(ctx, lat, lon, yaw, pitch, roll)
    if fixed is None:
        ctx.assume(m[0][0] * m[0][0] + m[1][0] * m[1][0] >= 1e-4)
    g = gps(ctx)
    X, Y, Z, psi, theta, phi = g.llarpy2ecef(lat, lon, alt, roll, pitch, yaw)
    ctx.observe('position', [X, Y, Z])
    md = mod(ctx)
    ctx.close([X, Y, Z], list(g.lla2ecef((md.rad2deg(lat), md.rad2deg(lon), alt))), 'position', tol=1e-4)
    w = euler(ctx, psi, theta, phi)
    for i in range(3):
        for j in range(3):
            ctx.close(w[i][j], m[i][j], 'body axis %d, component %d' % (j, i), tol=1e-7)


def from_ecef(ctx, tier, pole):
    """ecef2llarpy: same position as ecef2lla, same body axes"""
    o = setup(ctx, tier, pole)
    ctx.limit(4 if tier == 'quick' else 7)
    psi, theta, phi = ctx.real('psi', -7, 7), ctx.real('theta', -2, 2), ctx.real('phi', -7, 7)
    g = gps(ctx)
    lat, lon, alt = g.ecef2lla(o)
    e = euler(ctx, psi, theta, phi)
    l = local(ctx, rad(ctx, lat), rad(ctx, lon))
    m = mul(l, e)
    ctx.assume(m[0][0] * m[0][0] + m[1][0] * m[1][0] >= 1e-4)
    la, lo, al, roll, pitch, yaw = g.ecef2llarpy(o[0], o[1], o[2], psi, theta, phi)
    ctx.close([la, lo], [rad(ctx, lat), rad(ctx, lon)], 'latitude and longitude')
    ctx.close(al, alt, 'altitude', tol=1e-4)
    w = euler(ctx, yaw, pitch, roll)
    for i in range(3):
        for j in range(3):
            ctx.close(w[i][j], m[i][j], 'body axis %d, component %d' % (j, i), tol=1e-7)


def tasks(tier):
    out = [dict(subject='rotate_3x3', fn='rotate')]
    for f in [None] + sorted(FIXED):
        out.append(dict(subject='llarpy2ecef' + (', ' + f if f else ''), fn='to_ecef', params={'fixed': f}))
    for pole in (False, True):
        out.append(dict(subject='ecef2llarpy%s' % (' at the poles' if pole else ''), fn='from_ecef',
                        params={'tier': tier, 'pole': pole}))
    for t in out:
        t['mode'] = 'real'
    return out


def bounds(tier):
    return {'angles': 'every latitude, longitude, roll, pitch, yaw and every psi, theta, phi',
            'nose vertical': 'attitudes with the nose within 0.01 rad of the target frame\'s z axis only on %d slices' %
                             len(FIXED),
            'outside': 'rounding; later rounds of the iteration in ecef2lla'}
