"""C13: extrapolation and decomposition of stresses are consistent"""
from ..harness import Instance
from .c12 import PTS, LIM, definitions, emit, near
from .model import Model, BEAM, NN

OUTSIDE = 'fields that are not (bi)linear over the element and linear through the thickness; transverse shear ' \
          'that differs between the layers; numbers beyond 100 (the operations are linear)'

G = 3 ** -.5        # local coordinate of the result points


class Field(object):
    """one component over an element: values at the nodes and at the result
    points of any linear function, given by its coefficients"""

    def __init__(self, num, t):
        n = {23: 2, 26: 3, 28: 4}[t]
        self.t = t
        self.c = [num(i) for i in range(n)]

    def at(self, *x):
        c = self.c
        if self.t == 23:
            return c[0] + c[1] * x[0]
        if self.t == 26:        # area coordinates
            return c[0] * x[0] + c[1] * x[1] + c[2] * x[2]
        return c[0] + c[1] * x[0] + c[2] * x[1] + c[3] * (x[0] * x[1])

    def nodes(self):
        p = {23: [(-1,), (0,), (1,)],
             26: [(1, 0, 0), (.5, .5, 0), (0, 1, 0), (0, .5, .5), (0, 0, 1), (.5, 0, .5)],
             28: [(-1, -1), (0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0)]}[self.t]
        return [self.at(*x) for x in p]

    def points(self):
        a, b = 2 / 3., 1 / 6.
        p = {23: [(-G,), (G,)],
             26: [(a, b, b), (b, a, b), (b, b, a)],
             28: [(-G, -G), (G, -G), (-G, G), (G, G)]}[self.t]
        return [self.at(*x) for x in p]


def _num(ctx, env, tag, cplx):
    def f(i):
        re = ctx.real('%s%d' % (tag, i), -LIM, LIM)
        return env.complex(re, ctx.real('%s%di' % (tag, i), -LIM, LIM)) if cplx else re
    return f


def _flat(v, cplx):
    out = []
    for x in v:
        out += [x.real, x.imag] if cplx else [x]
    return out


def _open(ctx, env, t, cplx, fmt, vals, other=None):
    """file with elements of type t; vals: values of each element"""
    m = Model(ctx, env)
    m.nodes(NN[t])
    m.elements((t,) * len(vals), 1)
    rec = 'RVFORCES' if t in BEAM else 'RVSTRESS'

    def tail(s):
        definitions(s, m)
        s.t2('RDRESREF', [7, 1, 1, 1, 0, cplx, 0])
        for k, v in enumerate(vals):
            emit(s, rec, 1, k, t, v)
    f = m.open(fmt, name='R1.SIU', tail=tail)
    return f, f['R1']


def beam(ctx, env, t, cplx, fmt, nel):
    fl = [[Field(_num(ctx, env, 'f%d.%d.' % (k, c), cplx), t) for c in range(6)] for k in range(nel)]
    vals, exp = [], []
    for el in fl:
        pts = [x.points() for x in el]
        vals.append(_flat([pts[c][p] for p in range(2) for c in range(6)], cplx))
        nod = [x.nodes() for x in el]
        exp += [[nod[c][n] for c in range(6)] for n in range(3)]
    f, d = _open(ctx, env, t, cplx, fmt, vals)
    near(ctx, ctx.guard(d.get_elementresults, 'beamforce'), exp, 'linear beam forces: ')
    f.close()


def shell(ctx, env, t, cplx, fmt, nel):
    vals, gen, dec = [], [], []
    for k in range(nel):
        mem = [Field(_num(ctx, env, 'm%d.%d.' % (k, c), cplx), t) for c in range(5)]
        ben = [Field(_num(ctx, env, 'b%d.%d.' % (k, c), cplx), t) for c in range(3)]
        mp, bp = [x.points() for x in mem], [x.points() for x in ben]
        v = []
        for z in (-G, G):
            for p in range(len(mp[0])):
                v += [mp[c][p] + bp[c][p] * z for c in range(3)] + [mp[3][p], mp[4][p]]
        vals.append(_flat(v, cplx))
        mn, bn = [x.nodes() for x in mem], [x.nodes() for x in ben]
        for n in range(NN[t]):
            gen.append([[mn[c][n] - bn[c][n] for c in range(3)] + [0., 0.],
                        [mn[c][n] + bn[c][n] for c in range(3)] + [0., 0.]])
            dec.append([mn[c][n] for c in range(3)] + [bn[c][n] for c in range(3)] +
                       [mn[3][n] * 1.5, mn[4][n] * 1.5])
    f, d = _open(ctx, env, t, cplx, fmt, vals)
    near(ctx, ctx.guard(d.get_elementresults, 'generalstress'), gen, 'linear stresses: ')
    near(ctx, ctx.guard(d.get_elementresults, 'decomposedstress'), dec, 'linear stresses, decomposed: ')
    f.close()


def relation(ctx, env, t, cplx, fmt, nel):
    """any values at the result points: membrane -/+ bending are the stresses
    of the lower/upper surface"""
    npt, nc = PTS[t]
    vals = []
    for k in range(nel):
        num = _num(ctx, env, 'v%d.' % k, cplx)
        v = [num(i) for i in range(npt * nc)]
        vals.append(_flat(v, cplx))
    f, d = _open(ctx, env, t, cplx, fmt, vals)
    g = ctx.guard(d.get_elementresults, 'generalstress')
    x = ctx.guard(d.get_elementresults, 'decomposedstress')
    nn = nel * NN[t]
    shapes = tuple(g.shape) == (nn, 2, nc) and tuple(x.shape) == (nn, 6 if nc == 3 else 8)
    ctx.check(shapes, 'shapes %r, %r' % (g.shape, x.shape))
    if shapes:
        near(ctx, x[:, :3] - x[:, 3:6], [[g[n, 0, c] for c in range(3)] for n in range(nn)],
             'membrane - bending, lower surface: ')
        near(ctx, x[:, :3] + x[:, 3:6], [[g[n, 1, c] for c in range(3)] for n in range(nn)],
             'membrane + bending, upper surface: ')
        for n in range(nn):
            for s in (0, 1):
                for c in range(3, nc):
                    ctx.check(ctx.eq(g[n, s, c], 0.), 'transverse shear at a surface, %r' % ([n, s, c],))
    f.close()


def instances(tier):
    out = []

    def add(fn, t, cplx, fmt, nel=1, w=20):
        out.append(Instance('%s/%d/%s/%s/e%d' % (fn.__name__, t, 'complex' if cplx else 'real', fmt, nel),
                            fn, t=t, cplx=cplx, fmt=fmt, nel=nel, weight=w, validate=3,
                            bounds='%d elements of type %d, all values within 100' % (nel, t)))
    for cplx in (0, 1):
        add(beam, 23, cplx, 'U')
        for t in (26, 28):
            add(shell, t, cplx, 'U')
        for t in (24, 25, 26, 28):
            add(relation, t, cplx, 'U')
    if tier != 'quick':
        for cplx in (0, 1):
            for fmt in 'FU':
                add(beam, 23, cplx, fmt, 3, 100)
                for t in (26, 28):
                    add(shell, t, cplx, fmt, 3, 100)
                for t in (24, 25, 26, 28):
                    add(relation, t, cplx, fmt, 2, 100)
    return out
