"""C14: hydrodynamic results are returned in their documented layout"""
import math

from ..harness import Instance
from ..sifgen import SifFile

OUTSIDE = 'sections on more than one body, several conditions per body, result cases in another order than by ' \
          'direction, then frequency (documented as not implemented); panels not in ascending order; more than ' \
          '2 bodies, 3 directions, 3 frequencies, 2 sections, points, panels and symmetry parts'

DIRS = [0., 1.5, .75]
FREQS = [2., .5, 1.25]


class Hyd(object):
    """a hydrodynamic results file"""

    def __init__(self, ctx, env, fmt, nb=1, nd=2, nf=2, dirs=None, freqs=None, split=True, seltyp=1):
        self.ctx, self.env = ctx, env
        s = self.s = SifFile(fmt)
        s.ident(seltyp)
        self.g = ctx.real('g', 1, 100)
        self.ro = ctx.real('ro', 1, 2000)
        self.finite = ctx.flag('finite') if split else False
        self.depth = ctx.real('depth', 1, 10000)
        s.t2('WGLOBDEF', [5, self.g, self.ro, 1, self.depth] if self.finite else [4, self.g, self.ro, 0])
        self.dirs = dirs or DIRS[:nd]
        self.freqs = freqs or FREQS[:nf]
        # body -> condition
        conds = [[1, 2], [2, 1], [7, 3]]
        c = ctx.pick('conditions', conds) if nb > 1 or split else conds[0]
        self.cond = dict(zip(range(1, nb + 1), c))
        ids = list(self.cond)
        if nb > 1 and ctx.flag('bodies reversed'):
            ids.reverse()
        for b in ids:
            s.t2('WBODCON', [7, self.cond[b], b, 1, 1., 1., 0.])
        self.cases = []
        for i, d in enumerate(self.dirs):
            for j, f in enumerate(self.freqs):
                n = len(self.cases) + 1
                self.cases.append((n, i, j))
                s.t2('WDRESREF', [10, n, 1, 2, 1, i + 1, d, 2, j + 1, f])

    def values(self, tag, n, cplx):
        """n values -> (numbers on the file, values)"""
        ctx = self.ctx
        vals, exp = [], []
        for k in range(n):
            re = ctx.real('%s.%d' % (tag, k))
            vals.append(re)
            im = 0.
            if cplx:
                im = ctx.real('%s.%di' % (tag, k))
                vals.append(im)
            exp.append(self.env.complex(re, im))
        return vals, exp

    def open(self):
        self.s.end()
        self.s.write('G1.SIF')
        self.ctx.guard(self.env.fs.sif2hdf5, 'G1.SIF', 'hyd.h5')
        self.f = self.ctx.guard(self.env.fs.open_hdf5, 'hyd.h5')
        return self.ctx.guard(lambda: self.f['G1'])


def layout(h, data, ncomp):
    """data[dir, freq] = components -> [comp][dir][freq]"""
    return [[[data[i, j][c] for j in range(len(h.freqs))] for i in range(len(h.dirs))]
            for c in range(ncomp)]


def rigid(ctx, env, nb, nd, nf, fmt):
    h = Hyd(ctx, env, fmt, nb, nd, nf, split=False)
    s = h.s
    inter = ctx.flag('by case') if nb > 1 else False
    res = {}
    for rec, n in (('W1MOTION', 6), ('W1EXFORC', 6), ('W2MDRIFT', 6), ('W2HDRIFT', 3)):
        if rec.startswith('W1'):
            cx = ctx.flag(rec + '.complex')
        bc = [(b, c) for b in h.cond for c in h.cases]
        if inter:
            bc.sort(key=lambda x: x[1][0])
        for b, (iw, i, j) in bc:
            if rec.startswith('W1'):
                v, e = h.values('%s%d.%d' % (rec, b, iw), n, cx)
                s.t2(rec, [4 + len(v), h.cond[b], iw, int(cx)] + v)
            else:
                e = v = [ctx.real('%s%d.%d.%d' % (rec, b, iw, k)) for k in range(n)]
                s.t2(rec, [3 + n, h.cond[b], iw] + v)
            res[rec, b, i, j] = e
    d = h.open()
    for rec, n, get in (('W1MOTION', 6, d.get_motion_raos), ('W1EXFORC', 6, d.get_excitationforce_raos),
                        ('W2MDRIFT', 6, d.get_meandrift), ('W2HDRIFT', 3, d.get_horiz_meandrift)):
        for b in list(h.cond) + [None]:
            got = ctx.guard(get) if b is None else ctx.guard(get, b) if ctx.symbolic else ctx.guard(get, bodyid=b)
            exp = layout(h, {(i, j): res[rec, b or 1, i, j] for _, i, j in h.cases}, n)
            ctx.same(got, exp, '%s of body %s: ' % (rec, b))
        ctx.raises(['ConditionError'], get, nb + 1)
    h.f.close()


def local(ctx, env, ns, npt, nd, nf, fmt):
    """section forces and wave kinematics"""
    h = Hyd(ctx, env, fmt, 1, nd, nf, split=False)
    s = h.s
    sec, pts, force, kin = [], [], {}, {}
    for k in range(ns):
        row = dict(secusr=ctx.int('secusr%d' % k), isecty=ctx.int('isecty%d' % k))
        for p in ('p1', 'p2', 'p3'):
            row[p] = [ctx.real('%s.%d.%d' % (p, k, c)) for c in range(3)]
        sec.append(row)
        s.t2('WSECTION', [14, 1, k + 1, row['isecty'], row['secusr']] + row['p1'] + row['p2'] + row['p3'])
    for k in range(npt):
        pts.append([ctx.real('pt%d.%d' % (k, c)) for c in range(3)])
        s.t2('WFKPOINT', [5, k + 1] + pts[k])
    cx = ctx.flag('complex')
    for k in range(ns):
        for iw, i, j in h.cases:
            v, e = h.values('sf%d.%d' % (k, iw), 6, cx)
            force[k, i, j] = e
            s.t2('W1SFORCE', [5 + len(v), h.cond[1], k + 1, iw, int(cx)] + v)
    for iw, i, j in h.cases:
        for k in range(npt):
            v, e = h.values('kn%d.%d' % (k, iw), 4, cx)
            kin[k, i, j] = e
            s.t2('WFLUIDKN', [4 + len(v), iw, k + 1, int(cx)] + v)
    d = h.open()
    D, F = range(nd), range(nf)
    got = ctx.guard(d.get_sectionforce_raos)
    ctx.same(got, [[[[force[k, i, j][c] for j in F] for i in D] for c in range(6)] for k in range(ns)],
             'section forces: ')
    got = ctx.guard(d.get_fluidkinematics_raos, 'velocity')
    ctx.same(got, [[[[kin[k, i, j][1 + c] for j in F] for i in D] for c in range(3)] for k in range(npt)],
             'velocities: ')
    pres = [[[kin[k, i, j][0] for j in F] for i in D] for k in range(npt)]
    ctx.same(ctx.guard(d.get_fluidkinematics_raos, 'pressure'), pres, 'pressures: ')
    for args in ((), ('elevation',)):
        got = ctx.guard(d.get_fluidkinematics_raos, *args)
        ok = tuple(got.shape) == (npt, nd, nf)
        ctx.check(ok, 'elevation: shape %r' % (got.shape,))
        if ok:
            ctx.same(got * h.ro * h.g, pres, 'elevation * ro * g: ')
    # asking again gives the same
    ctx.same(ctx.guard(d.get_fluidkinematics_raos, 'pressure'), pres, 'pressures again: ')
    ctx.raises(['ValueError'], d.get_fluidkinematics_raos, 'speed')
    got = ctx.guard(d.get_sections)
    ctx.check(len(got) == ns, 'number of sections')
    for k in range(ns):
        for n in ('secusr', 'isecty', 'p1', 'p2', 'p3'):
            ctx.same(got[n][k], sec[k][n], 'section %d %s: ' % (k, n))
    ctx.same(ctx.guard(d.get_points), pts, 'points: ')
    h.f.close()


MAT = [(11, 'get_bodymass', 0), (12, 'get_addedmass', 1), (21, 'get_potentialdamping', 1),
       (22, 'get_viscousdamping', 0), (31, 'get_hydrostatic_restoring', 0), (32, 'get_mooring_restoring', 0)]


def matrices(ctx, env, nb, nf, order, fmt):
    h = Hyd(ctx, env, fmt, nb, 1, nf, split=False)
    s = h.s
    todo = []
    for b in h.cond:
        for b2 in h.cond:
            for t, _, dep in MAT:
                for iw in range(1, 1 + (nf if dep else 1)):
                    todo.append((b, b2, t, iw))
    if order == 'by case':
        todo.sort(key=lambda x: (x[3], -x[2], x[1], x[0]))
    mat = {}
    for n, (b, b2, t, iw) in enumerate(todo):
        m = [[ctx.real('m%d.%d%d' % (n, r, c)) if nb < 2 or (r + c + n) % 3 == 0 else float(n * 40 + r * 6 + c)
              for c in range(6)] for r in range(6)]
        mat[b, b2, t, iw] = m
        s.t2('W1MATRIX', [42, n + 1, h.cond[b], h.cond[b2], iw, t] + sum(m, []))
    d = h.open()
    for b in h.cond:
        for b2 in h.cond:
            for t, name, dep in MAT:
                if dep:
                    exp = [[[mat[b, b2, t, 1 + k][r][c] for k in range(nf)] for c in range(6)] for r in range(6)]
                else:
                    exp = mat[b, b2, t, 1]
                what = 'matrix %d of %d,%d: ' % (t, b, b2)
                ctx.same(ctx.guard(getattr(d, name), b, b2), exp, what)
                ctx.same(ctx.guard(d.get_matrix, t, b, b2), exp, what)
                if (b, b2) == (1, 1):
                    ctx.same(ctx.guard(getattr(d, name)), exp, what)
                    ctx.same(ctx.guard(d.get_matrix, mtyp=t), exp, what)
                elif b2 == 1:
                    ctx.same(ctx.guard(getattr(d, name), bodyid=b), exp, what)
                elif b == 1:
                    ctx.same(ctx.guard(getattr(d, name), bodyid2=b2), exp, what)
    ctx.raises(['ValueError'], d.get_matrix, 13)
    h.f.close()


def panels(ctx, env, nb, npan, nsym, nd, nf, fmt):
    h = Hyd(ctx, env, fmt, nb, nd, nf, split=False)
    s = h.s
    pan = ctx.pick('panels', [[1, 2], [3, 8], [5, 6]])[:npan]
    sym = ctx.pick('parts', [[1, 2], [2, 4]])[:nsym]
    empty = ctx.choice('body without', 0, nb)
    cx = ctx.flag('complex')
    res = {}
    for b in h.cond:
        if b == empty:
            continue
        for iw, i, j in h.cases:
            for n, sy in enumerate(sym):
                for m, p in enumerate(pan):
                    v, e = h.values('p%d.%d.%d.%d' % (b, iw, n, m), 1, cx)
                    res[b, m, n, i, j] = e[0]
                    s.t2('W1PANPRE', [8 + cx, h.cond[b], iw, m + 1 + 10 * n, sy, int(cx)] + v + [p, 1])
    d = h.open()
    for b in h.cond:
        got = ctx.guard(d.get_panel_pressures, b)
        ids = ctx.guard(d.get_pressure_panel_ids, b)
        if b == empty:
            ctx.check(got is None and ids is None, 'pressures of a body without panels')
            continue
        exp = [[[[res[b, m, n, i, j] for j in range(nf)] for i in range(nd)] for n in range(nsym)]
               for m in range(npan)]
        ctx.same(got, exp, 'panel pressures of body %d: ' % b)
        ctx.check(sorted((int(x), int(y)) for x, y in ids) == sorted((p, q) for p in pan for q in sym),
                  'panel ids %r' % (ids,))
    h.f.close()


def reference(ctx, env, nb, nd, nf, fmt):
    """frequencies, directions, bodies; no results at all"""
    dirs = [ctx.real('dir%d' % i, 0, 7) for i in range(nd)]
    freqs = [ctx.real('freq%d' % i, .0625, 20) for i in range(nf)]
    for l in (dirs, freqs):
        for i in range(len(l)):
            for j in range(i):
                ctx.assume(ctx.any([l[i] - l[j] >= .03125, l[j] - l[i] >= .03125]))
    h = Hyd(ctx, env, fmt, nb, nd, nf, dirs, freqs)
    names = 'clenb bmass wsarea wparea vol xcg ycg zcg xcb ycb zcb xrb yrb zrb'.split()
    body = {}
    for b in sorted(h.cond, key=lambda b: h.cond[b]):
        p = body[b] = {n: ctx.real('%s%d' % (n, b)) for n in names}
        p['t'] = [[ctx.real('t%d.%d%d' % (b, r, c)) for c in range(4)] for r in range(4)]
        h.s.t2('WBODY', [32, h.cond[b]] + [p[n] for n in names] + sum(p['t'], []))
    d = h.open()
    got = ctx.guard(d.get_angular_freqs)
    ctx.same(got, freqs, 'angular frequencies: ')
    per = ctx.guard(d.get_periods)
    ctx.check(tuple(per.shape) == (nf,), 'number of periods')
    for i in range(nf):
        ctx.check(ctx.near(per[i] * freqs[i], 2 * math.pi, 1e-4), 'period %d' % i)
    ctx.same(ctx.guard(d.get_directions, 'radians'), dirs, 'directions: ')
    for args in ((), ('degrees',)):
        deg = ctx.guard(d.get_directions, *args)
        ctx.check(tuple(deg.shape) == (nd,), 'number of directions')
        for i in range(nd):
            ctx.check(ctx.near(deg[i] - dirs[i] * (180 / math.pi), 0., 1e-2), 'direction %d in degrees' % i)
    ctx.raises(['ValueError'], d.get_directions, 'grad')
    ctx.raises(['ResultError'], d.get_timesteps)
    ctx.same(d.g, h.g, 'g: ')
    ctx.same(d.ro, h.ro, 'ro: ')
    if h.finite:
        ctx.same(d.depth, h.depth, 'depth: ')
    for b in h.cond:
        p = ctx.guard(d.get_bodyproperties, b)
        ctx.check(set(p) == set(body[b]), 'body properties %r' % sorted(p))
        for n in body[b]:
            ctx.same(p[n], body[b][n], '%s of body %d: ' % (n, b))
    p = ctx.guard(d.get_bodyproperties)
    ctx.same(p['bmass'], body[1]['bmass'], 'mass: ')
    ctx.check(ctx.guard(d.get_panel_pressures) is None, 'pressures without panels')
    ctx.check(ctx.guard(d.get_pressure_panel_ids) is None, 'panels without panels')
    h.f.close()


def timedomain(ctx, env, nt, fmt):
    s = SifFile(fmt)
    s.ident(1)
    s.t2('WGLOBDEF', [4, 9.81, 1025., 0])
    s.t2('WBODCON', [7, 1, 1, 1, 1., 1., 0.])
    t = [ctx.real('t0', 0, 100)]
    for i in range(1, nt):
        t.append(t[-1] + ctx.real('dt%d' % i, .25, 10))
    for i, v in enumerate(t):
        s.t2('WDRESREF', [7, i + 1, 1, 1, 3, i + 1, v])
    s.t2('W1MOTION', [10, 1, 1, 0] + [1.] * 6)
    s.end()
    s.write('G1.SIF')
    ctx.guard(env.fs.sif2hdf5, 'G1.SIF', 'hyd.h5')
    f = ctx.guard(env.fs.open_hdf5, 'hyd.h5')
    d = ctx.guard(lambda: f['G1'])
    ctx.same(ctx.guard(d.get_timesteps), t, 'time instants: ')
    for n in ('angular_freqs', 'periods', 'motion_raos', 'excitationforce_raos', 'sectionforce_raos',
              'fluidkinematics_raos', 'meandrift', 'horiz_meandrift', 'panel_pressures', 'pressure_panel_ids'):
        ctx.raises(['ResultError'], getattr(d, 'get_' + n))
    f.close()


def instances(tier):
    out = []
    q = tier == 'quick'

    def add(fn, w=20, **p):
        out.append(Instance('%s/%s' % (fn.__name__, '/'.join('%s%s' % (k, v) for k, v in p.items())), fn,
                            weight=w, validate=2, bounds=', '.join('%s=%s' % i for i in p.items()), **p))
    for fmt in 'FU':
        add(rigid, nb=1, nd=2, nf=2, fmt=fmt)
        add(local, ns=2, npt=2, nd=2, nf=2, fmt=fmt)
        add(panels, nb=2, npan=2, nsym=2, nd=2, nf=1, fmt=fmt)
        add(timedomain, nt=3, fmt=fmt)
        add(reference, nb=2, nd=2, nf=2, fmt=fmt)
        add(matrices, nb=1, nf=2, order='by type', fmt=fmt)
    add(rigid, nb=2, nd=2, nf=1, fmt='U', w=40)
    add(rigid, nb=1, nd=2, nf=3, fmt='U', w=40)
    add(local, ns=1, npt=2, nd=3, nf=2, fmt='U', w=40)
    add(local, ns=2, npt=1, nd=1, nf=3, fmt='U', w=40)
    add(matrices, nb=2, nf=2, order='by case', fmt='U', w=60)
    add(panels, nb=1, npan=1, nsym=2, nd=2, nf=3, fmt='U')
    add(panels, nb=1, npan=2, nsym=1, nd=1, nf=3, fmt='U')
    add(reference, nb=1, nd=1, nf=3, fmt='U')
    if not q:
        for fmt in 'FU':
            add(rigid, nb=2, nd=3, nf=2, fmt=fmt, w=200)
            add(rigid, nb=2, nd=2, nf=3, fmt=fmt, w=200)
            add(local, ns=3, npt=2, nd=2, nf=3, fmt=fmt, w=200)
            add(local, ns=2, npt=3, nd=3, nf=2, fmt=fmt, w=200)
            add(matrices, nb=2, nf=3, order='by type', fmt=fmt, w=200)
            add(panels, nb=2, npan=2, nsym=2, nd=2, nf=3, fmt=fmt, w=200)
            add(reference, nb=2, nd=3, nf=3, fmt=fmt, w=200)
    return out
