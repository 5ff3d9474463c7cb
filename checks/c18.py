"""C18: orientation extrapolation follows the kinematics of the body's angular velocity."""
from .drcommon import *


def partials(ctx, ori):
    """derivatives of the oracle matrix with respect to yaw, pitch and roll"""
    psi, theta, phi = ori
    (s1, c1), (s2, c2), (s3, c3) = ctx.trig(psi), ctx.trig(theta), ctx.trig(phi)
    rz, dz = [[c1, -s1, 0], [s1, c1, 0], [0, 0, 1]], [[-s1, -c1, 0], [c1, -s1, 0], [0, 0, 0]]
    ry, dy = [[c2, 0, s2], [0, 1, 0], [-s2, 0, c2]], [[-s2, 0, c2], [0, 0, 0], [-c2, 0, -s2]]
    rx, dx = [[1, 0, 0], [0, c3, -s3], [0, s3, c3]], [[0, 0, 0], [0, -s3, -c3], [0, c3, -s3]]
    return mul(mul(dz, ry), rx), mul(mul(rz, dy), rx), mul(mul(rz, ry), dx)


def regular(ctx, s):
    """away from gimbal lock"""
    _, c = ctx.trig(s.ori[1])
    ctx.assume_any([c >= 0.001, c <= -0.001])
    return c


def rates(ctx, name):
    """away from gimbal lock the Euler angles change at the rates of the body angular velocity, linearly in time"""
    s = State(ctx)
    c2 = regular(ctx, s)
    s2 = ctx.trig(s.ori[1])[0]
    s3, c3 = ctx.trig(s.ori[2])
    p, q, r = s.ang
    _, o = call(ctx, name, s)
    ctx.observe('orientation', o)
    d = [o[i] - s.ori[i] for i in range(3)]
    k = q * s3 + r * c3
    ctx.close(d[1], (q * c3 - r * s3) * s.dt, 'pitch rate', tol=1e-6)
    ctx.close(d[0] * c2, k * s.dt, 'yaw rate', tol=1e-6)
    ctx.close(d[2] * c2, (p * c2 + k * s2) * s.dt, 'roll rate', tol=1e-6)


def derivative(ctx, name):
    """the attitude matrix turns as R' = R [w]x"""
    s = State(ctx)
    c2 = regular(ctx, s)
    _, o = call(ctx, name, s, dt=1.0)
    d = [o[i] - s.ori[i] for i in range(3)]
    ps = partials(ctx, s.ori)
    m = mod(ctx)
    want = mul(matrix(ctx, s.ori), rows(m.get_angular_velocity_matrix(s.ang)))
    for i in range(3):
        for j in range(3):
            got = sum(ps[k][i][j] * d[k] for k in range(3))
            ctx.close(got * c2, want[i][j] * c2, "R' = R [w]x at %d,%d" % (i, j), tol=1e-6)


def gimbal(ctx, name):
    """at gimbal lock the result stays finite and the angles change no faster than the body turns"""
    s = State(ctx)
    _, c = ctx.trig(s.ori[1])
    ctx.assume(c <= 1e-9)
    ctx.assume(c >= -1e-9)
    s3, c3 = ctx.trig(s.ori[2])
    p, q, r = s.ang
    _, o = call(ctx, name, s)
    ctx.close(o[1] - s.ori[1], (q * c3 - r * s3) * s.dt, 'pitch rate', tol=1e-6)
    w = abs(p) + abs(q) + abs(r)
    for i in range(3):
        ctx.at_most(abs(o[i] - s.ori[i]), w * abs(s.dt), 'bounded change of angle %d' % i)


def same(ctx, name):
    """every rotating algorithm turns the entity the same way, whatever its position and velocity"""
    s, x = State(ctx), State(ctx, 'other ')
    _, a = call(ctx, 'drm_rpw', s)
    _, b = call(ctx, name, s, pos=x.pos, vel=x.vel, acc=x.acc)
    ctx.close(a, b, 'same orientation')


def tasks(tier):
    out = []
    for n in ROTATING:
        for f in ('rates', 'derivative', 'gimbal', 'same'):
            out.append(dict(subject=n, fn=f, params={'name': n}, mode='real'))
    return out


def bounds(tier):
    return {'inputs': 'every orientation (|angle| <= 7), |angular velocity| <= 10, |t| <= 60',
            'regular': '|cos(pitch)| >= 0.001', 'gimbal lock': '|cos(pitch)| <= 1e-9',
            'outside': 'rounding; the band between the two'}
