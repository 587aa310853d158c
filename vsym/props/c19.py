"""C19: stress measures satisfy their defining equations"""
from ..harness import Instance, _obj

import numpy as np

OUTSIDE = 'rounding; NaN and infinity; arrays without elements'
ASSUMPTIONS = ['eigenvalues of a real symmetric matrix are the real roots of its characteristic '
               'polynomial, in any order (the contract numpy.linalg.eig is replaced by)']

LIM = 1000


def zero(ctx, d, scale):
    """d is zero (up to rounding when the real code is run)"""
    return ctx.eq(d, 0.) if ctx.symbolic else abs(d) <= 2e-5 * scale


def not_less(ctx, a, b, scale):
    return (a >= b) if ctx.symbolic else a >= b - 2e-5 * scale


def stresses(ctx, env, shape, ncomp, zeros=()):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = 0. if i[-1] in zeros else ctx.real('s' + '.'.join(map(str, i)), -LIM, LIM)
    arr = env.array(a.tolist())
    return a, arr


def kept(ctx, arr, a):
    ctx.same(arr, a, 'stress array of the caller after the call')


def shape_is(ctx, r, shape):
    ctx.check(tuple(r.shape) == tuple(shape), 'result has shape %r, expected %r' % (tuple(r.shape), tuple(shape)))


def scale(ctx, comps):
    return 1. if ctx.symbolic else max([abs(c) for c in comps] + [1e-3])


def principal(ctx, env, shape):
    a, arr = stresses(ctx, env, shape, 3)
    r = ctx.guard(env.module('calc').principal2d, arr)
    shape_is(ctx, r, shape[:-1] + (2,))
    kept(ctx, arr, a)
    for i in np.ndindex(*shape[:-1]):
        sx, sy, t = a[i][:3]
        p1, p2 = r[i + (0,)], r[i + (1,)]
        sc = scale(ctx, (sx, sy, t))
        ctx.check(not_less(ctx, p1, p2, sc), 'P1 %r is less than P2 %r' % (p1, p2))
        ctx.check(zero(ctx, p1 + p2 - (sx + sy), sc), 'sum of the principal stresses is not the trace')
        ctx.check(zero(ctx, p1 * p2 - (sx * sy - t * t), 10 * sc * sc),
                  'product of the principal stresses is not the determinant')


def mises(ctx, env, shape):
    a, arr = stresses(ctx, env, shape, 3)
    r = ctx.guard(env.module('calc').vonmises2d, arr)
    shape_is(ctx, r, shape[:-1])
    kept(ctx, arr, a)
    for i in np.ndindex(*shape[:-1]):
        sx, sy, t = a[i][:3]
        v = r[i] if i else (r[()] if hasattr(r, '__getitem__') else r)
        sc = scale(ctx, (sx, sy, t))
        ctx.check(not_less(ctx, v, 0., 0.), 'von Mises stress %r is negative' % (v,))
        ctx.check(zero(ctx, v * v - (sx * sx + sy * sy - sx * sy + 3 * t * t), 10 * sc * sc),
                  'square of the von Mises stress is not the quadratic form')


def mises_principal(ctx, env):
    """the two measures belong to the same tensor"""
    a, arr = stresses(ctx, env, (3,), 3)
    v = ctx.guard(env.module('calc').vonmises2d, arr)
    v = v[()] if hasattr(v, '__getitem__') else v
    p = ctx.guard(env.module('calc').principal2d, arr)
    sc = scale(ctx, a)
    ctx.check(zero(ctx, v * v - (p[0] * p[0] - p[0] * p[1] + p[1] * p[1]), 20 * sc * sc),
              'von Mises stress does not follow from the principal stresses')


def thick(ctx, env, shape):
    a, arr = stresses(ctx, env, shape, 5)
    r = ctx.guard(env.module('calc').principal_thickshell, arr)
    shape_is(ctx, r, shape[:-1] + (2,))
    kept(ctx, arr, a)
    for i in np.ndindex(*shape[:-1]):
        sx, sy, txy, txz, tyz = a[i][:5]
        p1, p2 = r[i + (0,)], r[i + (1,)]
        sc = scale(ctx, a[i][:5])
        p3 = sx + sy - p1 - p2
        ctx.check(not_less(ctx, p1, p2, sc), 'P1 %r is less than P2 %r' % (p1, p2))
        m2 = sx * sy - txy * txy - txz * txz - tyz * tyz
        det = 2 * txy * txz * tyz - sx * tyz * tyz - sy * txz * txz
        ctx.check(zero(ctx, p1 * p2 + p1 * p3 + p2 * p3 - m2, 20 * sc * sc),
                  'P1 and P2 are not two of the three principal stresses (second invariant)')
        ctx.check(zero(ctx, p1 * p2 * p3 - det, 60 * sc * sc * sc),
                  'P1 and P2 are not two of the three principal stresses (third invariant)')
        for p in (p1, p2):
            ctx.check(not_less(ctx, abs(p), abs(p3), 10 * sc),
                      'the principal stress that is left out is not the smallest in magnitude')


def plane(ctx, env, shape):
    """without transverse shear the thick shell values are the plane ones"""
    a, arr = stresses(ctx, env, shape, 5, zeros=(3, 4))
    calc = env.module('calc')
    r = ctx.guard(calc.principal_thickshell, arr)
    q = ctx.guard(calc.principal2d, arr)
    shape_is(ctx, r, shape[:-1] + (2,))
    for i in np.ndindex(*shape[:-1]):
        sc = scale(ctx, a[i][:3])
        for k in (0, 1):
            ctx.check(zero(ctx, r[i + (k,)] - q[i + (k,)], 5 * sc),
                      'P%d of a thick shell without transverse shear is %r, of a plane one %r' % (
                          k + 1, r[i + (k,)], q[i + (k,)]))


def instances(tier):
    big = tier == 'thorough'
    b = 'all real components, array shape %s'
    out = []
    for sh in ((3,), (2, 3), (2, 2, 3), (2, 5)) + (((2, 1, 2, 3), (3, 2, 4)) if big else ()):
        n = 'x'.join(map(str, sh))
        out.append(Instance('principal2d/' + n, principal, shape=sh, bounds=b % n))
        out.append(Instance('vonmises2d/' + n, mises, shape=sh, bounds=b % n))
    out.append(Instance('consistent', mises_principal, bounds='all real components'))
    for sh in ((5,), (1, 5), (1, 1, 6), (2, 5)) + (((2, 1, 5), (1, 2, 7)) if big else ()):
        n = 'x'.join(map(str, sh))
        out.append(Instance('thickshell/' + n, thick, shape=sh, bounds=b % n, weight=5))
    for sh in ((5,), (1, 1, 6)):
        n = 'x'.join(map(str, sh))
        out.append(Instance('plane/' + n, plane, shape=sh, bounds=b % n + ', no transverse shear', weight=5))
    return out
