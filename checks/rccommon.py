"""Shared pieces of the coordinate harnesses (exact reals)."""
TOL = 1e-6
ALLOW_SKIP = True
ASSUMPTIONS = [
    'exact real arithmetic: floating-point rounding is outside the claim; constants that agree to a relative 1e-11 are '
    'identified',
    'angles enter through sine and cosine symbols with s^2 + c^2 = 1 and the angle formulas for sums and integer '
    'multiples',
    'symbolic models of math and numpy (object arrays of exact reals); sampled by replaying path witnesses on CPython '
    'and numpy',
]
A, B = 6378137.0, 6356752.3142
E2 = (A - B) / A * (2 - (A - B) / A)


def mod(ctx):
    return ctx.mod('opendis.RangeCoordinates')


def gps(ctx):
    return mod(ctx).GPS()


def rad(ctx, deg):
    import math
    return deg * math.pi / 180


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def det(m):
    return dot(m[0], [m[1][1] * m[2][2] - m[1][2] * m[2][1], m[1][2] * m[2][0] - m[1][0] * m[2][2],
                      m[1][0] * m[2][1] - m[1][1] * m[2][0]])


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def app(m, v):
    return [dot(r, v) for r in m]


def transpose(m):
    return [[m[j][i] for j in range(3)] for i in range(3)]


def rows(m):
    return [[m[i][j] for j in range(3)] for i in range(3)]


def euler(ctx, psi, theta, phi):
    """body axes (as columns) after yaw, pitch and roll about the z, y and x axes"""
    (s1, c1), (s2, c2), (s3, c3) = ctx.trig(psi), ctx.trig(theta), ctx.trig(phi)
    rz = [[c1, -s1, 0], [s1, c1, 0], [0, 0, 1]]
    ry = [[c2, 0, s2], [0, 1, 0], [-s2, 0, c2]]
    rx = [[1, 0, 0], [0, c3, -s3], [0, s3, c3]]
    return mul(mul(rz, ry), rx)


def local(ctx, lat, lon):
    """rows north, east, down at latitude and longitude (radians)"""
    (sa, ca), (so, co) = ctx.trig(lat), ctx.trig(lon)
    return [[-sa * co, -sa * so, ca], [-so, co, 0], [-ca * co, -ca * so, -sa]]
