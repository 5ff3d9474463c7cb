"""C16: world-frame dead reckoning moves by v t + a t^2 / 2 and fixed algorithms keep the orientation."""
from .drcommon import *


def expected(s, acc, moves, i):
    d = 0
    if moves:
        d = s.vel[i] * s.dt
    if acc:
        d = d + s.acc[i] * s.dt * s.dt / 2
    return s.pos[i] + d


def world(ctx, name, how):
    s = State(ctx)
    moves, acc, body, rot = ALGS[name]
    p, o = call(ctx, name, s, how)
    ctx.observe('position', p)
    ctx.check(len(p) == 3 and len(o) == 3, 'three components each')
    for i in range(3):
        ctx.close(p[i], expected(s, acc, moves, i), 'position %s' % 'xyz'[i])
    if not rot:
        ctx.close(o, s.ori, 'orientation kept')


def compose(ctx, name):
    """extrapolating in two steps, carrying the velocity along, is extrapolating once"""
    s = State(ctx)
    moves, acc, body, rot = ALGS[name]
    t1, t2 = ctx.real('t1', -60, 60), ctx.real('t2', -60, 60)
    p1, o1 = call(ctx, name, s, dt=t1)
    v1 = [v + a * t1 for v, a in zip(s.vel, s.acc)] if acc else s.vel
    p2, o2 = call(ctx, name, s, dt=t2, pos=p1, vel=v1)
    p3, o3 = call(ctx, name, s, dt=t1 + t2)
    ctx.close(p2, p3, 'two steps are one')


def agree(ctx, a, b, zero):
    """algorithms that differ only in what they ignore agree when that is zero"""
    s = State(ctx)
    over = {k: [0.0, 0.0, 0.0] for k in zero}
    pa, oa = call(ctx, a, s, **over)
    pb, ob = call(ctx, b, s, **over)
    ctx.close(pa, pb, 'same position')
    ctx.close(oa, ob, 'same orientation')


def tasks(tier):
    out = []
    for n in WORLD:
        for how in ('list', 'tuple', 'array'):
            out.append(dict(subject=n, fn='world', params={'name': n, 'how': how}, mode='real'))
        if n != 'drm_static':
            out.append(dict(subject=n, fn='compose', params={'name': n}, mode='real'))
    for a, b, zero in (('drm_fpw', 'drm_fvw', ['acc']), ('drm_rpw', 'drm_rvw', ['acc']), ('drm_fpw', 'drm_rpw', ['ang']),
                       ('drm_fvw', 'drm_rvw', ['ang']), ('drm_static', 'drm_fpw', ['vel']),
                       ('drm_static', 'drm_rvw', ['vel', 'acc', 'ang'])):
        out.append(dict(subject='%s and %s' % (a, b), fn='agree', params={'a': a, 'b': b, 'zero': zero}, mode='real'))
    return out


def bounds(tier):
    return {'inputs': 'every real position, velocity, acceleration, orientation, angular velocity and time step in the '
                      'stated boxes (|position| <= 7e6, |velocity| <= 1000, |acceleration| <= 100, |t| <= 60)',
            'outside': 'rounding; non-finite inputs'}
