"""C25: what one query returns can be asked for in another"""
import numpy as np

from ..harness import Instance
from .c11 import Cases, rows
from .c20 import distinct
from .c24 import model as resultmodel
from .model import BEAM, SHELL, Model

OUTSIDE = 'names with characters outside ASCII; sets and cases given as dictionaries or generators; more than 3 sets, ' \
          '3 cases, 3 elements; elements or nodes with the same external number'

LONG = 'All plates and stiffeners of the topside module, between rows 1'
assert len(LONG) == 63          # and one more: the longest name there is
NAMES = ('SETA', 'set b', "it's", 'a"q', 'Platform-1_x', '100%', LONG + 'A', LONG + 'B')


def names(ctx, env, eltyps, nn, nsets, fmt):
    """the names of the sets select the sets"""
    m = Model(ctx, env)
    m.nodes(nn)
    m.elements(eltyps, 1)
    k = ctx.choice('names', 0, len(NAMES) - 1)
    m.element_sets(nsets, [NAMES[(k + i) % len(NAMES)] for i in range(nsets)])
    for _, mem in m.sets:
        ctx.assume(bool(mem))
    f = m.open(fmt)
    d = ctx.guard(lambda: f['T1'])
    got = ctx.guard(d.get_setnames)
    ctx.check(len(got) == nsets, '%d set names' % len(got))
    asks = [(n, [m.sets[i][0]]) for i, n in enumerate(got)]
    asks.append((got, [n for n, _ in m.sets]))
    asks.append((tuple(reversed(got)), [n for n, _ in m.sets]))
    asks.append(([m.sets[0][0], got[-1]], [m.sets[0][0], m.sets[-1][0]]))
    asks.append((m.sets[0][0], [m.sets[0][0]]))
    asks.append(((m.sets[-1][0],), [m.sets[-1][0]]))
    for arg, nm in asks:
        what = 'sets=%r ' % (arg,)
        el = m.select(nm)
        ctx.same(ctx.guard(d.get_elementnumbers, sets=arg), [m.els[i][0] for i in el], what + 'element numbers: ')
        for disc in (False, True):
            ctx.same(ctx.guard(d.get_nodes, sets=arg, disconnected=disc),
                     [m.xyz[i] for i in m.nodesel(nm, None, disc)], what + 'coordinates: ')
        con, off, typ = ctx.guard(d.get_elements, sets=arg)
        ctx.same(typ, [m.els[i][1] for i in el], what + 'element types: ')
    f.close()


def cases(ctx, env, n, nn, fmt):
    """the numbers of the named result cases select the cases"""
    m = Model(ctx, env)
    m.nodes(nn)
    m.els = [(1, 15, [0, nn - 1])]
    ids = ctx.pick('ids', [[1, 2, 3], [7, 3, 5], [2, 1, 9]])[:n]
    res = {}

    def tail(s):
        for i in ids:
            s.td('TDLOAD', i, 'load %d' % i)
        for k, i in enumerate(ids):
            s.t2('RDRESREF', [7, k + 1, 1, i, 0, 0, 0])
        for k, i in enumerate(ids):
            for p in range(nn):
                v, res[i, p] = rows(ctx, env, 'r%d.%d' % (i, p), 6, 0)
                s.t2('RVNODDIS', [11, k + 1, p + 1, 0, 0] + v)
    f = m.open(fmt, name='R1.SIU', tail=tail)
    d = ctx.guard(lambda: f['R1'])
    got = ctx.guard(d.get_resultcase_names)
    ctx.check(sorted(int(k) for k in got) == sorted(ids), 'result cases %r' % (got,))
    for k in got:
        what = 'result case %r: ' % (k,)
        ctx.same(ctx.guard(d.get_noderesults, 'displacement', rescases=k), [res[int(k), p] for p in range(nn)], what)
        ctx.check({int(a): bytes(b) for a, b in ctx.guard(d.get_resultcase_names, k).items()} ==
                  {int(k): bytes(got[k])}, what + 'name')
    want = [[res[i, p] for p in range(nn)] for i in ids]
    for arg in (list(got), tuple(got), np.array([int(k) for k in got]), [int(k) for k in got]):
        what = 'result cases %r: ' % (arg,)
        ctx.same(ctx.guard(d.get_noderesults, 'displacement', rescases=arg), want if n > 1 else want[0], what)
        ctx.check(len(ctx.guard(d.get_resultcase_names, arg)) == n, what + 'names')
    f.close()


def places(ctx, env, eltyps, nn, conn, nsets, fmt):
    """the results at the nodes of an element, found by their numbers"""
    m, disp, res, f = resultmodel(ctx, env, eltyps, nn, conn, nsets, fmt)
    distinct(ctx, m.nodex)
    distinct(ctx, [e[0] for e in m.els])
    d = ctx.guard(lambda: f['R1'])
    kind = 'beam' if eltyps[0] in BEAM else 'shell'
    sets = ctx.pick('sets', [s for s, k in m.selections() if k == kind])
    el = m.select(sets, kind)
    kw = dict(sets=sets, kind=kind)
    elems = ctx.guard(d.get_elements, disconnected=True, **kw)
    enum = ctx.guard(d.get_elementnumbers, **kw)
    nnum = ctx.guard(d.get_nodenumbers, disconnected=True, **kw)
    u = ctx.guard(d.get_noderesults, 'displacement', disconnected=True, **kw)
    r = ctx.guard(d.get_elementresults, 'beamforce' if kind == 'beam' else 'generalstress', sets=sets)
    pairs = [(k, j) for k in el for j in range(len(m.els[k][2]))]
    if ctx.flag('backwards'):
        pairs.reverse()
    idx = ctx.guard(env.module('calc').find_elemres_indices,
                    [(m.els[k][0], m.nodex[m.els[k][2][j]]) for k, j in pairs], elems, enum, nnum)
    ctx.check(len(idx) == len(pairs), '%d indices' % len(idx))
    for (k, j), i in zip(pairs, idx):
        what = 'element %d, node %d: ' % (k + 1, j)
        i = int(i)
        got = r[i] if kind == 'beam' else r[i, 0]
        exp = res[k].lower[j]
        ctx.check(len(got) == len(exp) and ctx.all([ctx.near(a, b, 2e-3) for a, b in zip(got, exp)]),
                  what + 'results %.80r, expected %.80r' % (list(got), exp))
        if m.els[k][1] != 26:
            ctx.same(u[i], disp[m.els[k][2][j]], what + 'displacements: ')
    f.close()


def instances(tier):
    out = []
    q = tier == 'quick'

    def add(fn, w=20, **p):
        out.append(Instance('%s/%s' % (fn.__name__, '/'.join('%s%s' % (k, v) for k, v in p.items())), fn,
                            weight=w, validate=3, bounds=', '.join('%s=%s' % i for i in p.items()), **p))
    add(names, eltyps=(15, 24), nn=4, nsets=1, fmt='U')
    add(names, eltyps=(15, 24), nn=4, nsets=2, fmt='F')
    add(names, eltyps=(25, 15, 18), nn=4, nsets=2, fmt='U', w=50)
    for n in (1, 2, 3):
        add(cases, n=n, nn=2, fmt='FU'[n % 2])
    add(places, eltyps=(15, 15), nn=3, conn=1, nsets=1, fmt='U')
    add(places, eltyps=(23, 15), nn=4, conn=1, nsets=0, fmt='F')
    add(places, eltyps=(24, 25), nn=5, conn=1, nsets=1, fmt='U')
    add(places, eltyps=(26, 28), nn=9, conn=1, nsets=1, fmt='U')
    add(places, eltyps=(28, 26, 15), nn=9, conn=1, nsets=0, fmt='F')
    if not q:
        add(names, eltyps=(15, 24, 15), nn=4, nsets=3, fmt='U', w=200)
        add(names, eltyps=(15, 24, 28), nn=8, nsets=3, fmt='F', w=200)
        add(places, eltyps=(15, 23, 15), nn=5, conn=1, nsets=2, fmt='U', w=200)
        add(places, eltyps=(25, 24, 25), nn=5, conn=1, nsets=2, fmt='F', w=200)
        add(places, eltyps=(26, 26, 28), nn=9, conn=1, nsets=2, fmt='U', w=200)
    return out
