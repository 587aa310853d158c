"""C11: node results belong to the asked run, cases and nodes"""
from ..harness import Instance
from . import spec
from .model import Model

OUTSIDE = 'nodes without results; results not given case by case in the order of the nodes; requests that ' \
          'match no result case; more than 3 nodes, 3 result cases'

REC = {'displacement': 'RVNODDIS', 'velocity': 'RVNODVEL', 'acceleration': 'RVNODACC'}


class Cases(object):
    """result cases: (internal number, run, external number)"""

    def __init__(self, ctx, n, cplx):
        self.ctx = ctx
        # internal numbers, runs and external numbers of the cases
        opts = [[(1, 1, 1), (2, 1, 2), (3, 2, 1)], [(4, 2, 7), (9, 1, 7), (5, 1, 3)],
                [(3, 1, 5), (2, 1, 4), (1, 1, 6)]]
        self.list = [c for c in ctx.pick('cases', opts)][:n]
        if cplx == 'mixed':
            self.cplx = {c[0]: ctx.choice('cplx%d' % i, 0, 1) for i, c in enumerate(self.list)}
        else:
            self.cplx = {c[0]: cplx for c in self.list}

    def emit(self, s):
        for ires, run, ext in self.list:
            s.t2('RDRESREF', [7, ires, run, ext, 0, self.cplx[ires], 0])

    def requests(self):
        """-> (keyword arguments, internal numbers asked for)"""
        for run in sorted(set(c[1] for c in self.list)):
            rc = [c for c in self.list if c[1] == run]
            kw = {} if run == 1 else {'run': run}
            yield kw, [c[0] for c in rc]
            for c in rc:
                yield dict(kw, rescases=c[2]), [c[0]]
                yield dict(kw, rescases=(c[2],)), [c[0]]
            if len(rc) > 1:
                yield dict(kw, rescases=[c[2] for c in rc] + [99]), [c[0] for c in rc]
                yield dict(kw, rescases=tuple(c[2] for c in rc[1:])), [c[0] for c in rc[1:]]
                yield dict(kw, rescases=[c[2] for c in reversed(rc)]), [c[0] for c in rc]


def rows(ctx, env, tag, n, cplx):
    """n numbers on the file -> (values on file, values)"""
    vals, exp = [], []
    for j in range(n):
        re = ctx.real('%s.re%d' % (tag, j))
        vals.append(re)
        im = 0.
        if cplx:
            im = ctx.real('%s.im%d' % (tag, j))
            vals.append(im)
        exp.append(env.complex(re, im) if cplx else re)
    return vals, exp


def noderesults(ctx, env, restype, eltyps, nn, conn, nsets, ncases, cplx, fmt):
    m = Model(ctx, env)
    m.nodes(nn)
    m.elements(eltyps, conn)
    m.element_sets(nsets)
    cs = Cases(ctx, ncases, cplx)
    res = {}
    other = [t for t in REC if t != restype][0]

    def head(s):
        if ctx.flag('hierarch'):
            s.t2('HIERARCH', [8, 1, 1, 1, 1, 0, 0, 0])

    def tail(s):
        cs.emit(s)
        for c in cs.list:
            for i in range(nn):
                v, e = rows(ctx, env, 'r%d.%d' % (c[0], i), 6, cs.cplx[c[0]])
                res[c[0], i] = e
                s.t2(REC[restype], [5 + len(v), c[0], i + 1, 0, 0] + v)
        # results of another type
        for c in cs.list:
            for i in range(nn):
                s.t2(REC[other], [11 + 6 * cs.cplx[c[0]], c[0], i + 1, 0, 0] +
                     [7.] * 6 * (1 + cs.cplx[c[0]]))
    f = m.open(fmt, name='R1.SIU', head=head, tail=tail)
    d = f['R1']
    sels = list(m.selections())
    for n, (kw, ask) in enumerate(cs.requests()):
        flags = set(cs.cplx[i] for i in ask)
        if len(flags) > 1:
            ctx.raises(['ResultError'], d.get_noderesults, restype, **kw)
            continue
        for sets, kind in (sels if n < 2 else sels[:1]):
            for disc in (False, True):
                what = '%s %r sets=%r kind=%r disconnected=%r: ' % (restype, kw, sets, kind, disc)
                ns = m.nodesel(sets, kind, disc)
                order = [c[0] for c in cs.list if c[0] in ask]
                exp = [[res[i, k] for k in ns] for i in order]
                if len(exp) == 1:
                    exp = exp[0]
                got = ctx.guard(d.get_noderesults, restype, sets=sets, kind=kind, disconnected=disc, **kw)
                ctx.same(got, exp, what)
    ctx.raises(['ValueError'], d.get_noderesults, 'reaction')
    f.close()


def instances(tier):
    out = []
    q = tier == 'quick'

    def add(restype, eltyps, nn, conn, nsets, ncases, cplx, fmt, w=10):
        out.append(Instance('%s/%s/n%d/s%d/c%d/%s/%s' % (restype, '-'.join(map(str, eltyps)), nn, nsets, ncases,
                                                        {0: 'real', 1: 'complex'}.get(cplx, cplx), fmt),
                            noderesults, restype=restype, eltyps=eltyps, nn=nn, conn=conn, nsets=nsets,
                            ncases=ncases, cplx=cplx, fmt=fmt, weight=w, validate=1,
                            bounds='%d nodes, %d elements, %d result cases' % (nn, len(eltyps), ncases)))
    for t in REC:
        for fmt in 'FU':
            add(t, (15,), 3, 2, 1, 1, 0, fmt)
            add(t, (15,), 2, 2, 0, 2, 1, fmt)
    add('displacement', (15, 18), 3, 2, 1, 3, 0, 'U', 100)
    add('displacement', (15, 25), 4, 2, 1, 2, 1, 'U', 100)
    add('acceleration', (15, 25), 4, 2, 1, 2, 0, 'F', 100)
    add('velocity', (15,), 2, 1, 0, 3, 'mixed', 'U', 100)
    add('displacement', (24, 15), 5, 3, 1, 1, 1, 'F', 100)
    if not q:
        for t in REC:
            add(t, (15, 15), 3, 'free', 1, 2, 0, 'U', 500)
            add(t, (15, 24, 18), 5, 2, 2, 3, 1, 'U', 500)
            add(t, (15, 25), 4, 2, 1, 3, 'mixed', 'F', 500)
    return out
