"""C24: an exported model is the model on the Interface File"""
import numpy as np

from ..harness import Instance
from .c12 import ATNODES, HALF, LIM, PTS, definitions, emit
from .c13 import Field, G
from .c18 import CORNERS_FIRST, VTK, corners_first, decode, parse
from .model import BEAM, SHELL, Model, NN

OUTSIDE = 'complex results; exports of several pieces or cases into one array; selections without any element; ' \
          'elements of types the writer has no cell for; more than 3 elements; results of different shells that ' \
          'meet at a node in connected exports; the type and byte order of the arrays (C18)'


class Result(object):
    """one result array of an element, linear over the element where the
    element is of higher order: numbers on the file, values at the nodes in
    the order of the connectivity"""

    def __init__(self, ctx, tag, t):
        num = lambda n: (lambda i: ctx.real('%s.%s.%d' % (tag, n, i), -LIM, LIM))
        npt, nc = PTS[t]
        self.file = v = []
        if t in (15, 24, 25):
            p = [[num('p%d' % i)(c) for c in range(nc)] for i in range(npt)]
            for r in p:
                v += r
            self.lower = [p[i] for i in ATNODES[t]]
            if t != 15:
                self.upper = [p[i + HALF[t]] for i in ATNODES[t]]
        elif t == 23:
            f = [Field(num('f%d' % c), t) for c in range(nc)]
            q = [x.points() for x in f]
            for i in range(npt):
                v += [q[c][i] for c in range(nc)]
            self.lower = self.by_node(f, t)
        else:
            mem = [Field(num('m%d' % c), t) for c in range(nc)]
            ben = [Field(num('b%d' % c), t) for c in range(3)]
            mp, bp = [x.points() for x in mem], [x.points() for x in ben]
            for z in (-G, G):
                for i in range(npt // 2):
                    v += [mp[c][i] + bp[c][i] * z for c in range(3)] + [mp[3][i], mp[4][i]]
            m, b = self.by_node(mem, t), self.by_node(ben, t)
            self.lower = [[x - y for x, y in zip(r[:3], s)] + [0., 0.] for r, s in zip(m, b)]
            self.upper = [[x + y for x, y in zip(r[:3], s)] + [0., 0.] for r, s in zip(m, b)]

    @staticmethod
    def by_node(fields, t):
        rows = [list(r) for r in zip(*[x.nodes() for x in fields])]
        # type 26 lists its corners first, its results go round the edge
        return corners_first(rows) if t == 26 else rows


def model(ctx, env, eltyps, nn, conn, nsets, fmt):
    m = Model(ctx, env)
    m.nodes(nn)
    m.elements(eltyps, conn)
    m.element_sets(nsets)
    disp = [[ctx.real('d%d.%d' % (i, c)) for c in range(6)] for i in range(nn)]
    res = [Result(ctx, 'r%d' % k, t) if t in NN and t in PTS else None for k, (_, t, _) in enumerate(m.els)]

    def tail(s):
        definitions(s, m)
        s.t2('RDRESREF', [7, 1, 1, 1, 0, 0, 0])
        for i in range(nn):
            s.t2('RVNODDIS', [11, 1, i + 1, 0, 0] + disp[i])
        for rec, kinds in (('RVFORCES', BEAM), ('RVSTRESS', SHELL)):
            for k, (_, t, _) in enumerate(m.els):
                emit(s, rec, 1, k, t, res[k].file if t in kinds else [5.] * PTS[t][0])
    f = m.open(fmt, name='R1.SIU', tail=tail)
    return m, disp, res, f


def plain(env, a, dt):
    """array for the writer (what freesif returned, on the real code)"""
    return env.typed(a.tolist(), dt) if env.sym else a


def export(ctx, env, eltyps, nn, conn, nsets, fmt):
    m, disp, res, f = model(ctx, env, eltyps, nn, conn, nsets, fmt)
    d = ctx.guard(lambda: f['R1'])
    sels = [(s, k) for s, k in m.selections()]
    sets, kind = ctx.pick('selection', sels)
    disc = ctx.flag('disconnected')
    kw = dict(sets=sets, kind=kind, disconnected=disc)
    xyz = ctx.guard(d.get_nodes, **kw)
    con, off, typ = ctx.guard(d.get_elements, **kw)
    u = ctx.guard(d.get_noderesults, 'displacement', **kw)
    el = m.select(sets, kind)
    what = 'export of sets=%r kind=%r disconnected=%r: ' % (sets, kind, disc)
    kinds = set(m.els[k][1] for k in el)
    beams, thick = bool(kinds & set(BEAM)), kinds & {26, 28}
    surface = 0
    r = None
    if disc and (kinds <= set(BEAM) or (not beams and len(thick) in (0, len(kinds)))):
        if beams:
            r = ctx.guard(d.get_elementresults, 'beamforce', sets=sets)
        else:
            surface = ctx.choice('surface', 0, 1)
            r = ctx.guard(d.get_elementresults, 'generalstress', sets=sets)
            if len(r.shape) == 3:
                r = r[:, surface]
            else:
                ctx.check(False, what + 'stresses have shape %r' % (r.shape,))
    v = ctx.guard(env.module('utils').VtuWriter, 'a.vtu')
    ctx.guard(v.new_piece, plain(env, xyz, 'f4'), (plain(env, con, 'i4'), plain(env, off, 'i4'),
                                                   plain(env, typ, 'i4')))
    ctx.guard(v.start_pointdata)
    ctx.guard(v.add_data, plain(env, u[:, :3], 'f4'), 'displacement')
    if r is not None:
        ctx.guard(v.add_data_cellpoints, plain(env, r, 'f8'), 'results')
    ctx.guard(v.start_celldata)
    num = ctx.guard(d.get_elementnumbers, sets=sets, kind=kind)
    ctx.guard(v.add_data, plain(env, num, 'i4'), 'number')
    ctx.guard(v.close)
    f.close()
    verify(ctx, what, m, el, disp, res, surface, r is not None)


def verify(ctx, what, m, el, disp, res, surface, results):
    ps = parse(ctx, 'a.vtu')
    ctx.check(len(ps) == 1, what + '%d pieces' % len(ps))
    e, head = ps[0]
    arr = {}
    for k in e:
        for x in k:
            g = decode(ctx, x, head)
            arr[g[0] if k.tag != 'Points' else 'points'] = g
    want = {'points', 'connectivity', 'offsets', 'types', 'displacement', 'number'} | ({'results'} if results else set())
    ctx.check(set(arr) == want, what + 'arrays %r' % sorted(arr))

    def table(name):
        _, _, nc, v, _ = arr[name]
        return [list(v[i:i + nc]) for i in range(0, len(v), nc)]
    xyz, u = table('points'), table('displacement')
    con = [int(x) for x in arr['connectivity'][3]]
    off = [int(x) for x in arr['offsets'][3]]
    ctx.same(arr['types'][3], [VTK[m.els[k][1]] for k in el], what + 'cell types: ')
    ctx.same(arr['number'][3], [m.els[k][0] for k in el], what + 'element numbers: ')
    n = 0
    exp = []
    for k in el:
        n += NN[m.els[k][1]]
        exp.append(n)
    ctx.check(off == exp, what + 'offsets %r, expected %r' % (off, exp))
    ctx.check(len(con) == n and all(0 <= c < len(xyz) for c in con), what + 'connectivity %r' % con)
    ctx.check(len(u) == len(xyz), what + '%d displacements of %d points' % (len(u), len(xyz)))
    if results:
        r = table('results')
        ctx.check(len(r) == len(xyz), what + '%d results of %d points' % (len(r), len(xyz)))
    a = 0
    for k, b in zip(el, off):
        _, t, nodes = m.els[k]
        order = list(range(len(nodes)))
        if t in CORNERS_FIRST:
            order = corners_first(order)
        for c, j in zip(con[a:b], order):
            w = what + 'element %d, node %d' % (k + 1, j)
            ctx.same(xyz[c], m.xyz[nodes[j]], w + ', coordinates: ')
            ctx.same(u[c], disp[nodes[j]][:3], w + ', displacement: ')
            if results:
                x = (res[k].upper if surface else res[k].lower)[j]
                ctx.check(len(r[c]) == len(x), w + ', %d results' % len(r[c]))
                ctx.check(ctx.all([ctx.near(p, q, 2e-3) for p, q in zip(r[c], x)]),
                          w + ', results: %.80r, expected %.80r' % (r[c], x))
        a = b


def instances(tier):
    out = []
    q = tier == 'quick'

    def add(eltyps, nn, conn, nsets, fmt, w=20):
        out.append(Instance('export/%s/n%d/c%s/s%d/%s' % ('-'.join(map(str, eltyps)), nn, conn, nsets, fmt), export,
                            eltyps=eltyps, nn=nn, conn=conn, nsets=nsets, fmt=fmt, weight=w, validate=3,
                            bounds='%d nodes, %d elements, %d sets' % (nn, len(eltyps), nsets)))
    add((15,), 3, 'free', 0, 'U')
    add((15, 15), 3, 2, 1, 'F')
    add((23, 15), 4, 2, 1, 'U')
    add((24, 25), 5, 2, 1, 'U')
    add((25, 24, 15), 5, 1, 1, 'U', 50)
    add((26, 28), 9, 1, 1, 'U', 50)
    add((28, 23), 9, 1, 1, 'F', 50)
    add((15, 26), 7, 1, 1, 'F', 50)
    add((24, 28), 9, 1, 1, 'U', 50)
    if not q:
        add((15, 15, 15), 3, 'free', 2, 'U', 300)
        add((24, 15, 25), 5, 3, 2, 'F', 300)
        add((28, 26, 28), 9, 3, 2, 'U', 300)
        add((23, 28, 24), 9, 3, 2, 'U', 300)
        add((26, 23, 26), 7, 3, 2, 'F', 300)
    return out
