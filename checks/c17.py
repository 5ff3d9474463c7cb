"""C17: body-frame dead reckoning moves along the axes the orientation defines."""
from .drcommon import *


def rotation(ctx):
    """the rotation matrix is proper orthogonal and is yaw, then pitch, then roll"""
    ori = vec(ctx, 'orientation', -7, 7)
    m = rows(mod(ctx).get_rotation_matrix(*ori))
    ctx.observe('matrix', m)
    for i in range(3):
        for j in range(i, 3):
            ctx.close(dot(m[i], m[j]), 1 if i == j else 0, 'rows %d,%d orthonormal' % (i, j))
            ctx.close(sum(m[k][i] * m[k][j] for k in range(3)), 1 if i == j else 0, 'columns %d,%d orthonormal' % (i, j))
    det = dot(m[0], [m[1][1] * m[2][2] - m[1][2] * m[2][1], m[1][2] * m[2][0] - m[1][0] * m[2][2],
                     m[1][0] * m[2][1] - m[1][1] * m[2][0]])
    ctx.close(det, 1, 'right-handed')
    ctx.close(m, matrix(ctx, ori), 'z-y-x convention')


def skew(ctx):
    """the angular velocity matrix is the cross product"""
    w, v = vec(ctx, 'w', -10, 10), vec(ctx, 'v')
    m = rows(mod(ctx).get_angular_velocity_matrix(w))
    ctx.close(app(m, v), [w[1] * v[2] - w[2] * v[1], w[2] * v[0] - w[0] * v[2], w[0] * v[1] - w[1] * v[0]],
              'matrix times vector is the cross product')


def body(ctx, name, how):
    s = State(ctx)
    moves, acc, bod, rot = ALGS[name]
    p, o = call(ctx, name, s, how)
    ctx.observe('position', p)
    d = [v * s.dt + (a * s.dt * s.dt / 2 if acc else 0) for v, a in zip(s.vel, s.acc)]
    w = app(matrix(ctx, s.ori), d)
    for i in range(3):
        ctx.close(p[i], s.pos[i] + w[i], 'position %s' % 'xyz'[i])
    if not rot:
        ctx.close(o, s.ori, 'orientation kept')


def distance(ctx, name):
    """the distance moved does not depend on the orientation"""
    s = State(ctx)
    moves, acc, bod, rot = ALGS[name]
    p, o = call(ctx, name, s, pos=[0.0, 0.0, 0.0])
    d = [v * s.dt + (a * s.dt * s.dt / 2 if acc else 0) for v, a in zip(s.vel, s.acc)]
    ctx.close(dot(p, p), dot(d, d), 'distance moved')


def unrotated(ctx, name, other):
    """body and world axes coincide at zero orientation"""
    s = State(ctx)
    z = [0.0, 0.0, 0.0]
    pa, oa = call(ctx, name, s, ori=z)
    pb, ob = call(ctx, other, s, ori=z)
    ctx.close(pa, pb, 'same position')
    ctx.close(oa, ob, 'same orientation')


def agree(ctx, a, b, zero):
    s = State(ctx)
    over = {k: [0.0, 0.0, 0.0] for k in zero}
    pa, oa = call(ctx, a, s, **over)
    pb, ob = call(ctx, b, s, **over)
    ctx.close(pa, pb, 'same position')
    ctx.close(oa, ob, 'same orientation')


def tasks(tier):
    out = [dict(subject='get_rotation_matrix', fn='rotation', mode='real'),
           dict(subject='get_angular_velocity_matrix', fn='skew', mode='real')]
    for n in BODY:
        for how in ('list', 'tuple', 'array'):
            out.append(dict(subject=n, fn='body', params={'name': n, 'how': how}, mode='real'))
        out.append(dict(subject=n, fn='distance', params={'name': n}, mode='real'))
        out.append(dict(subject=n, fn='unrotated', params={'name': n, 'other': n[:-1] + 'w'}, mode='real'))
    for a, b, zero in (('drm_fpb', 'drm_fvb', ['acc']), ('drm_rpb', 'drm_rvb', ['acc']), ('drm_fpb', 'drm_rpb', ['ang']),
                       ('drm_fvb', 'drm_rvb', ['ang']), ('drm_static', 'drm_rvb', ['vel', 'acc', 'ang'])):
        out.append(dict(subject='%s and %s' % (a, b), fn='agree', params={'a': a, 'b': b, 'zero': zero}, mode='real'))
    return out


def bounds(tier):
    return {'inputs': 'every real state in the stated boxes, every orientation', 'outside': 'rounding; non-finite inputs'}
