"""C12: element results belong to the asked run, cases and elements"""
from ..harness import Instance
from . import spec
from .c11 import Cases
from .model import Model, BEAM, SHELL, NN

OUTSIDE = 'elements without results of a requested type; results not given case by case in the order of the ' \
          'elements; result type numbers that are not the element type; selections mixing thin and thick shells; ' \
          'pos other than nodes; more than 3 elements, 3 result cases'

# type -> (result points, components, indices of the result points at the nodes)
# thin shells: points of the lower surface, then of the upper surface, with
# one point that is no node (centre) in each
PTS = {15: (3, 6), 23: (2, 6), 24: (10, 3), 25: (8, 3), 26: (6, 5), 28: (8, 5)}
ATNODES = {15: [0, 2], 24: [0, 1, 4, 3], 25: [0, 1, 3]}
HALF = {24: 5, 25: 4}
THICK = (26, 28)
LIM = 100


class Rows(object):
    """the result points of one element and case: values on the file, values
    expected at the nodes"""

    def __init__(self, ctx, env, tag, t, cplx):
        self.t = t
        npt, nc = PTS[t]
        self.tag = tag
        const = t in THICK or t == 23
        vals, v = [], []
        for p in range(1 if const else npt):
            row = []
            for c in range(nc):
                re = ctx.real('%s.%d.%d' % (tag, p, c), -LIM, LIM)
                im = ctx.real('%s.%d.%di' % (tag, p, c), -LIM, LIM) if cplx else 0.
                row.append((re, im))
            v.append(row)
        if const:
            v = v * npt
        for row in v:
            for re, im in row:
                vals.append(re)
                if cplx:
                    vals.append(im)
        self.file = vals
        self.v = [[env.complex(a, b) if cplx else a for a, b in row] for row in v]

    def expect(self, restype):
        t, v = self.t, self.v
        if t in THICK:
            s = v[0]
            if restype == 'generalstress':
                return [[s[:3] + [0., 0.]] * 2] * NN[t]
            return [s[:3] + [0.] * 3 + [1.5 * s[3], 1.5 * s[4]]] * NN[t]
        if t == 23:
            return [v[0]] * 3
        if t == 15:
            return [v[i] for i in ATNODES[t]]
        lo = [v[i] for i in ATNODES[t]]
        up = [v[i + HALF[t]] for i in ATNODES[t]]
        if restype == 'generalstress':
            return [[a, b] for a, b in zip(lo, up)]
        return [[(a + b) * .5 for a, b in zip(x, y)] + [(b - a) * .5 for a, b in zip(x, y)]
                for x, y in zip(lo, up)]


def near(ctx, got, exp, what, tol=2e-3):
    """element-wise comparison with a tolerance, real or complex"""
    from ..harness import _obj
    e = _obj(exp)
    if tuple(got.shape) != e.shape:
        ctx.check(False, '%s: shape %r, expected %r' % (what, tuple(got.shape), e.shape))
        return
    import numpy as np
    for i in np.ndindex(e.shape):
        a, b = got[i], e[i]
        d = a - b
        conds = []
        for x in ((d.real, d.imag) if hasattr(d, 'imag') else (d,)):
            conds.append(ctx.near(x, 0., tol))
        ctx.check(ctx.all(conds), '%s%r: %.60r, expected %.60r' % (what, list(i), a, b))


def definitions(s, m, decoys=True):
    for k, (nx, t, con) in enumerate(m.els):
        s.t2('RDPOINTS', [10, 20 + k, k + 1, t, t, PTS[t][0], 10101, 0, 0, -1])
    for rec, kinds in (('RDFORCES', BEAM), ('RDSTRESS', SHELL)):
        for t in sorted(set(t for _, t, _ in m.els)):
            nc = PTS[t][1] if t in kinds else 1
            s.t2(rec, [3 + nc, t, nc] + [1 + i for i in range(nc)])


def emit(s, rec, ires, k, t, vals):
    s.t2(rec, [5 + len(vals), ires, k + 1, 20 + k, t] + vals)


def elementresults(ctx, env, restype, eltyps, nn, conn, nsets, ncases, cplx, fmt):
    m = Model(ctx, env)
    m.nodes(nn)
    m.elements(eltyps, conn)
    m.element_sets(nsets)
    cs = Cases(ctx, ncases, cplx)
    kind = 'beam' if restype == 'beamforce' else 'shell'
    types = BEAM if kind == 'beam' else SHELL
    rec, other = ('RVFORCES', 'RVSTRESS') if kind == 'beam' else ('RVSTRESS', 'RVFORCES')
    res = {}

    def tail(s):
        definitions(s, m)
        cs.emit(s)
        for c in cs.list:
            cx = cs.cplx[c[0]]
            for k, (nx, t, con) in enumerate(m.els):
                if t in types:
                    r = res[c[0], k] = Rows(ctx, env, 'r%d.%d' % (c[0], k), t, cx)
                    emit(s, rec, c[0], k, t, r.file)
                else:       # results of the same record type for elements of the other kind
                    emit(s, rec, c[0], k, t, [3.] * (PTS[t][0] * (1 + cx)))
        for c in cs.list:
            cx = cs.cplx[c[0]]
            for k, (nx, t, con) in enumerate(m.els):
                n = PTS[t][1] if t not in types else 1
                emit(s, other, c[0], k, t, [5.] * (PTS[t][0] * n * (1 + cx)))
    f = m.open(fmt, name='R1.SIU', tail=tail,
               head=lambda s: s.t2('HIERARCH', [8, 1, 1, 1, 1, 0, 0, 0]) if ctx.flag('hierarch') else None)
    d = f['R1']
    sels = [None] if any(t in types for _, t, _ in m.els) else []
    for sets, k in m.selections():
        if k == kind and sets not in sels:
            sels.append(sets)
    for n, (kw, ask) in enumerate(cs.requests()):
        if len(set(cs.cplx[i] for i in ask)) > 1:
            ctx.raises(['ResultError'], d.get_elementresults, restype, **kw)
            continue
        for sets in (sels if n < 2 else sels[:1]):
            what = '%s %r sets=%r: ' % (restype, kw, sets)
            el = m.select(sets, kind)
            order = [c[0] for c in cs.list if c[0] in ask]
            exp = [[x for k in el for x in res[i, k].expect(restype)] for i in order]
            if len(exp) == 1:
                exp = exp[0]
            args = dict(kw)
            if sets is not None:
                args['sets'] = sets
            got = ctx.guard(d.get_elementresults, restype, **args)
            near(ctx, got, exp, what)
            nodes = ctx.guard(d.get_nodes, sets=sets, kind=kind, disconnected=True)
            ax = got.shape[1] if len(order) > 1 else got.shape[0]
            ctx.check(len(nodes) == ax, what + '%d values for %d nodes' % (ax, len(nodes)))
    ctx.raises(['ValueError'], d.get_elementresults, 'force')
    f.close()


def instances(tier):
    out = []
    q = tier == 'quick'

    def add(restype, eltyps, nsets, ncases, cplx, fmt, nn=5, conn=1, w=20):
        out.append(Instance('%s/%s/s%d/c%d/%s/%s' % (restype, '-'.join(map(str, eltyps)), nsets, ncases,
                                                   {0: 'real', 1: 'complex'}.get(cplx, cplx), fmt),
                            elementresults, restype=restype, eltyps=eltyps, nn=nn, conn=conn, nsets=nsets,
                            ncases=ncases, cplx=cplx, fmt=fmt, weight=w, validate=1,
                            bounds='%d elements, %d result cases, %d sets' % (len(eltyps), ncases, nsets)))
    add('beamforce', (15, 15), 1, 2, 0, 'U')
    add('beamforce', (23, 15), 1, 2, 1, 'F')
    add('beamforce', (15, 24, 15), 1, 1, 0, 'U')
    add('beamforce', (15,), 0, 3, 'mixed', 'U')
    for rt in ('generalstress', 'decomposedstress'):
        add(rt, (24, 25), 1, 1, 0, 'U')
        add(rt, (25, 24), 0, 2, 0, 'F')
        add(rt, (25, 15), 1, 2, 1, 'U')
        add(rt, (26, 28), 1, 1, 0, 'U')
        add(rt, (28, 23, 26), 0, 2, 1, 'U')
        add(rt, (25,), 0, 3, 'mixed', 'F')
    add('generalstress', (24, 15, 24), 1, 1, 0, 'F')
    if not q:
        add('beamforce', (15, 23, 15), 2, 3, 0, 'F', w=300)
        add('beamforce', (23, 24, 15), 2, 2, 'mixed', 'U', w=300)
        for rt in ('generalstress', 'decomposedstress'):
            add(rt, (25, 24, 25), 2, 2, 0, 'U', w=300)
            add(rt, (24, 24), 1, 3, 'mixed', 'U', w=300)
            add(rt, (26, 28, 26), 2, 3, 1, 'F', w=300)
    return out
