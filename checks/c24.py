"""C24: UTM coordinates: zone, band, easting, northing and scale."""
from .rccommon import *

BANDS = 'CDEFGHJKLMNPQRSTUVWX'
K0 = 0.9996


def limits(band):
    i = BANDS.index(band)
    return -80 + 8 * i, (84 if band == 'X' else -72 + 8 * i)


def extent(zone, band):
    """western and eastern edge; None when the zone does not exist in the band"""
    w = 6 * zone - 186
    if band == 'V' and zone in (31, 32):
        return {31: (0, 3), 32: (3, 12)}[zone]
    if band == 'X' and 31 <= zone <= 37:
        return {31: (0, 9), 33: (9, 21), 35: (21, 33), 37: (33, 42)}.get(zone)
    return w, w + 6


def snyder(ctx, lat, lon, zone):
    """transverse Mercator on the WGS84 ellipsoid (Snyder 1987, 8-9 to 8-11), scale 0.9996 on the central meridian"""
    e2 = E2
    e4, e6 = e2 * e2, e2 * e2 * e2
    ep2 = e2 / (1 - e2)
    phi = rad(ctx, lat)
    s, c = ctx.trig(phi)
    n = A / ctx.root(1 - e2 * s * s)
    t = (s / c) * (s / c)
    cc = ep2 * c * c
    a = rad(ctx, lon - (6 * zone - 183)) * c
    s2, s4, s6 = ctx.trig(2 * phi)[0], ctx.trig(4 * phi)[0], ctx.trig(6 * phi)[0]
    m = A * ((1 - e2 / 4 - 3 * e4 / 64 - 5 * e6 / 256) * phi - (3 * e2 / 8 + 3 * e4 / 32 + 45 * e6 / 1024) * s2
             + (15 * e4 / 256 + 45 * e6 / 1024) * s4 - 35 * e6 / 3072 * s6)
    x = K0 * n * (a + (1 - t + cc) * a ** 3 / 6 + (5 - 18 * t + t * t + 72 * cc - 58 * ep2) * a ** 5 / 120)
    y = K0 * (m + n * (s / c) * (a ** 2 / 2 + (5 - t + 9 * cc + 4 * cc * cc) * a ** 4 / 24
                                 + (61 - 58 * t + t * t + 600 * cc - 330 * ep2) * a ** 6 / 720))
    k = K0 * (1 + (1 + cc) * a ** 2 / 2 + (5 - 4 * t + 42 * cc + 13 * cc * cc - 28 * ep2) * a ** 4 / 24
              + (61 - 148 * t + 16 * t * t) * a ** 6 / 720)
    return x + 500000, y, k


def name(ctx, utm):
    z = str(utm[1][0])
    return int(z[:-1]), z[-1]


def zone(ctx, first, band):
    """the zone and band designator, 12 zones' worth of longitudes in one band"""
    ctx.nonzero_divisors()
    lo, hi = limits(band)
    lat = ctx.real('lat', lo, hi)
    lon = ctx.real('lon', 6 * first - 186, 6 * first - 186 + 72)
    if band != 'X':
        ctx.assume(lat < hi)
    alt = ctx.real('alt', -10000, 1000000)
    if first + 12 <= 60:
        ctx.assume(lon < 6 * first - 186 + 72)
    if band == 'X':
        ctx.assume(ctx.any([lat < 84, lon <= 0, lon >= 42]))
    utm, info = gps(ctx).lla2utm((lat, lon, alt))
    z, b = name(ctx, (utm, info))
    ctx.check(b == band, 'latitude band')
    e = extent(z, band)
    ctx.check(1 <= z <= 60 and e is not None, 'an existing zone')
    if e is not None:
        ctx.check(ctx.all([lon >= e[0], lon < e[1] if z < 60 else lon <= e[1]]), 'the zone that holds the longitude')
    ctx.close(utm[2], alt, 'altitude kept')


def projection(ctx, number, band):
    """easting, northing and scale factor"""
    ctx.nonzero_divisors()
    lo, hi = limits(band)
    w, e = extent(number, band)
    lat, lon = ctx.real('lat', lo, hi), ctx.real('lon', w, e)
    ctx.assume(lat < hi)
    if number < 60:
        ctx.assume(lon < e)
    (x, y, _), (_, k) = gps(ctx).lla2utm((lat, lon, 0.0))
    ctx.observe('utm', [x, y, k])
    u, v, q = snyder(ctx, lat, lon, number)
    ctx.close(x, u, 'easting', tol=1e-6, rel=0)
    ctx.close(y, v, 'northing', tol=1e-6, rel=0)
    ctx.close(k, q, 'scale', tol=1e-12, rel=0)


def meridian(ctx, number, band):
    """on the central meridian: easting 500 km, scale 0.9996; on both sides: mirror images"""
    ctx.nonzero_divisors()
    lo, hi = limits(band)
    lat = ctx.real('lat', lo, hi)
    ctx.assume(lat < hi)
    g = gps(ctx)
    mid = 6 * number - 183
    (x, y, _), (_, k) = g.lla2utm((lat, float(mid), 0.0))
    ctx.close(x, 500000, 'easting on the central meridian', tol=1e-6, rel=0)
    ctx.close(k, K0, 'scale on the central meridian', tol=1e-12, rel=0)
    d = ctx.real('d', 0, 3)
    ctx.assume(d < 3)
    (x1, y1, _), (_, k1) = g.lla2utm((lat, mid + d, 0.0))
    (x2, y2, _), (_, k2) = g.lla2utm((lat, mid - d, 0.0))
    ctx.close(x1 + x2, 1000000, 'mirrored eastings', tol=1e-6, rel=0)
    ctx.close(y1, y2, 'equal northings', tol=1e-6, rel=0)
    ctx.close(k1, k2, 'equal scales', tol=1e-12, rel=0)


def hemispheres(ctx, number):
    """the equator has northing 0"""
    ctx.nonzero_divisors()
    w, e = extent(number, 'N')
    lon = ctx.real('lon', w, e)
    if number < 60:
        ctx.assume(lon < e)
    (x, y, _), (z, k) = gps(ctx).lla2utm((0.0, lon, 0.0))
    ctx.close(y, 0, 'northing of the equator', tol=1e-6, rel=0)
    ctx.check(name(ctx, (None, [z]))[1] == 'N', 'the equator is in band N')


def tasks(tier):
    out = []
    thorough = tier == 'thorough'
    for b in BANDS:
        for f in range(1, 60, 12):
            out.append(dict(subject='zone and band', fn='zone', params={'first': f, 'band': b}))
    for b in BANDS:
        for n in range(1, 61):
            if extent(n, b) is None:
                continue
            special = b in 'VX' and 31 <= n <= 37
            if thorough or special or b == 'S' or n in (1, 33, 60):
                out.append(dict(subject='lla2utm', fn='projection', params={'number': n, 'band': b}))
            if not special and (thorough or n in (1, 30, 60)):
                out.append(dict(subject='lla2utm', fn='meridian', params={'number': n, 'band': b}))
    for n in range(1, 61, 1 if thorough else 13):
        out.append(dict(subject='lla2utm', fn='hemispheres', params={'number': n}))
    for t in out:
        t['mode'] = 'real'
    return out


def bounds(tier):
    return {'positions': 'every latitude in [-80, 84] (latitude 84 itself outside longitudes 0 to 42), every longitude '
                         'in [-180, 180]',
            'projection formulas': 'every zone and band' if tier == 'thorough' else
                                   'all zones in band S, zones 1, 33 and 60 in all bands, and the irregular zones',
            'outside': 'rounding; false northing of the southern hemisphere (lla2utm gives negative northings)'}
