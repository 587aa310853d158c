"""C15: transformations to any level are composed along the hierarchy"""
from ..harness import Instance
from ..sifgen import SifFile
from .hier import tree, emit_hierarch

OUTSIDE = 'hierarchies of more than 4 levels; transformations of intermediate-level superelements; repetitions ' \
          'that are not in the hierarchy; projective transformations (last column not 0, 0, 0, 1)'

IDENT = [[float(r == c) for c in range(4)] for r in range(4)]


def mul(a, b):
    return [[sum(a[r][k] * b[k][c] for k in range(len(b)) if not (_zero(a[r][k]) or _zero(b[k][c])))
             for c in range(len(b[0]))] for r in range(len(a))]


def _zero(x):
    return isinstance(x, (int, float)) and x == 0


class Hier(object):
    def __init__(self, ctx, env, kind, density):
        self.ctx, self.env = ctx, env
        self.rows = tree(kind)
        self.top = self.rows[0].level
        self.it = ctx.pick('itref', (lambda n: n - 1, lambda n: 40 - n))
        # row vectors are multiplied from the left: translation in the last row
        self.t = {}
        for no, r in enumerate(self.rows, 1):
            if r.parent:
                m = [list(x) for x in IDENT]
                for i in range(4):
                    for j in range(3):
                        if (i * 3 + j + no) % density == 0:
                            m[i][j] = ctx.real('t%d.%d%d' % (no, i, j), -8, 8)
                        elif i == 3 or (i + j + no) % 4 == 0:
                            m[i][j] = float((i + 2 * j + 3 * no) % 5 - 2)
                self.t[no] = m

    def emit(self, s):
        rec = [(self.it(no), self.t[no]) for no in self.t]
        if self.ctx.flag('transformations first'):
            self._tran(s, rec[::-1])
            emit_hierarch(s, self.rows, self.it)
        else:
            emit_hierarch(s, self.rows, self.it)
            self._tran(s, rec)

    def _tran(self, s, rec):
        for itref, t in rec:
            s.t2('HSUPTRAN', [18, itref] + [t[i][j] for i in range(4) for j in range(4)])

    def product(self, no, level):
        """None: refused"""
        top = self.top
        if level == 'top':
            level = top
        if level == 1:
            return IDENT
        if level > top or level < 1:
            return None
        r = self.rows[no - 1]
        t = self.t[no]
        p = r.parent
        while self.rows[p - 1].level < level:
            t = mul(t, self.t[p])
            p = self.rows[p - 1].parent
        return t if self.rows[p - 1].level == level else None

    def levels(self):
        return ['top'] + list(range(-1, self.top + 3))

    def firsts(self):
        return [(no, r) for no, r in enumerate(self.rows, 1) if r.level == 1 and no > 1]


def nodes(ctx, s, tag, n=2):
    xyz = [[ctx.real('%s.%s%d' % (tag, c, i), -100, 100) for c in 'xyz'] for i in range(n)]
    for i, x in enumerate(xyz):
        s.t1('GNODE', [i + 1, i + 1, 6, 123456])
    for i, x in enumerate(xyz):
        s.t1('GCOORD', [i + 1] + x)
    s.t1('GELMNT1', [1, 1, 15, 0, 2, 1])
    return xyz


def coords(ctx, got, xyz, t, what):
    if tuple(got.shape) != (len(xyz), 3):
        ctx.check(False, '%s: shape %r' % (what, got.shape))
        return
    for i, x in enumerate(xyz):
        e = mul([x + [1.]], t)[0]
        for c in range(3):
            ctx.check(_near(ctx, got[i, c], e[c]), '%s: node %d, %s' % (what, i, 'xyz'[c]))


def _near(ctx, a, b):
    if ctx.symbolic:
        return ctx.eq(a, b)
    return abs(a - b) <= 1e-3 * max(1, abs(a), abs(b), 1e3)


def matrix(ctx, got, exp, what):
    ok = tuple(got.shape) == (4, 4)
    ctx.check(ok, '%s: shape' % what)
    if ok:
        for i in range(4):
            for j in range(4):
                ctx.check(_near(ctx, got[i, j], exp[i][j]), '%s [%d,%d]' % (what, i, j))


def transformation(ctx, env, kind, density, letter, fmt):
    h = Hier(ctx, env, kind, density)
    top = h.rows[0]
    s = SifFile(fmt)
    s.ident(top.sel, slevel=top.level)
    h.emit(s)
    s.end()
    ext = 'FEM' if letter == 'T' else 'SIU'
    s.write('%s%d.%s' % (letter, top.sel, ext))
    files, where = {}, {}
    for no, r in h.firsts():
        key = (r.sel, r.index if letter == 'R' else 0)
        if key not in files:
            name = '%s%d' % (letter, r.sel) + ('H%d' % no if letter == 'R' else '')
            s = SifFile(fmt)
            s.ident(r.sel)
            files[key] = nodes(ctx, s, name)
            s.end()
            s.write('%s.%s' % (name, ext))
        where[no] = files[key]
    ctx.guard(env.fs.sif2hdf5, '%s%d.%s' % (letter, top.sel, ext), 'out.h5')
    f = ctx.guard(env.fs.open_hdf5, 'out.h5')
    tname = '%s%d' % (letter, top.sel)
    t = f[tname]
    for no, r in h.firsts():
        for lev in h.levels():
            what = 'T%d, repetition %d, level %s' % (r.sel, r.index, lev)
            exp = h.product(no, lev)
            if exp is None:
                ctx.raises(['HierarchyError'], t.get_transformation, r.sel, r.index, lev)
            else:
                matrix(ctx, ctx.guard(t.get_transformation, r.sel, r.index, lev), exp, what)
        matrix(ctx, ctx.guard(t.get_transformation, r.sel, r.index), h.product(no, 'top'),
               'T%d, repetition %d, default level' % (r.sel, r.index))
        # coordinates
        d = f['%s/%s%d%s' % (tname, letter, r.sel, '_%d' % r.index if letter == 'R' else '')]
        xyz = where[no]
        kw = {} if letter == 'R' else {'index': r.index}
        for lev in ['top'] + list(range(0, h.top + 2)):
            what = '%s, repetition %d, coordinates at level %s' % (d.name, r.index, lev)
            exp = h.product(no, lev)
            if exp is None:
                ctx.raises(['HierarchyError'], d.get_nodes, trans=lev, **kw)
                continue
            coords(ctx, ctx.guard(d.get_nodes, trans=lev, **kw), xyz, exp, what)
        coords(ctx, ctx.guard(d.get_nodes, disconnected=True, trans='top', **kw), xyz[::-1],
               h.product(no, 'top'), 'disconnected')
        coords(ctx, ctx.guard(d.get_nodes), xyz, IDENT, 'no transformation')
        if r.index == 1:
            coords(ctx, ctx.guard(d.get_nodes, trans='top'), xyz, h.product(no, 'top'), 'default index')
        ctx.raises(['ValueError'], d.get_nodes, trans='bottom', **kw)
    f.close()


def single(ctx, env, letter, fmt):
    """no hierarchy: transformations given as arrays, or stored on the results file"""
    s = SifFile(fmt)
    s.ident(1)
    xyz = nodes(ctx, s, 'n', 3)
    own = ctx.flag('rsuptran') if letter == 'R' else False
    m = [[ctx.real('t%d%d' % (i, j), -8, 8) if j < 3 else float(i == 3) for j in range(4)] for i in range(4)]
    if own:
        s.t2('RSUPTRAN', [18, 1] + sum(m, []))
    s.end()
    s.write(letter + '1.FEM')
    ctx.guard(env.fs.sif2hdf5, letter + '1.FEM', 'out.h5')
    f = ctx.guard(env.fs.open_hdf5, 'out.h5')
    d = f[letter + '1']
    if own:
        coords(ctx, ctx.guard(d.get_nodes, trans='top'), xyz, m, 'RSUPTRAN')
    else:
        ctx.raises(['HierarchyError'], d.get_nodes, trans='top')
    for lev in (1, 2, 0):
        ctx.raises(['HierarchyError'], d.get_nodes, trans=lev)
    a = [[ctx.real('a%d%d' % (i, j), -8, 8) if j < 3 else float(i == 3) for j in range(4)] for i in range(4)]
    coords(ctx, ctx.guard(d.get_nodes, trans=env.array(a)), xyz, a, 'array')
    coords(ctx, ctx.guard(d.get_nodes, trans=env.array(a), disconnected=True), [xyz[1], xyz[0]], a,
           'array, disconnected')
    coords(ctx, ctx.guard(d.get_nodes, kind='beam', trans=env.array(a)), xyz[:2], a, 'array, beams')
    coords(ctx, ctx.guard(d.get_nodes), xyz, IDENT, 'no transformation')
    for bad in (a[:3], [x[:3] for x in a], a[0], [a], [x[:3] for x in a[:3]], a + a[:1]):
        ctx.raises(['ValueError'], d.get_nodes, trans=env.array(bad))
    f.close()


def own(ctx, env, fmt):
    """results of a hierarchy whose files hold their own transformation to the top"""
    h = Hier(ctx, env, 'three', 3)
    s = SifFile(fmt)
    s.ident(30, slevel=3)
    h.emit(s)
    s.end()
    s.write('R30.SIU')
    rs, xyz = {}, {}
    for no, r in h.firsts():
        s = SifFile(fmt)
        s.ident(r.sel)
        xyz[no] = nodes(ctx, s, 'n%d' % no, 2)
        rs[no] = [[ctx.real('r%d.%d%d' % (no, i, j), -8, 8) if j < 3 else float(i == 3) for j in range(4)]
                  for i in range(4)]
        s.t2('RSUPTRAN', [18, 1] + sum(rs[no], []))
        s.end()
        s.write('R%dH%d.SIU' % (r.sel, no))
    ctx.guard(env.fs.sif2hdf5, 'R30.SIU', 'out.h5')
    f = ctx.guard(env.fs.open_hdf5, 'out.h5')
    for no, r in h.firsts():
        d = f['R30/R%d_%d' % (r.sel, r.index)]
        coords(ctx, ctx.guard(d.get_nodes, trans='top'), xyz[no], rs[no], 'own transformation of %s' % d.name)
        for lev in (1, 2):
            coords(ctx, ctx.guard(d.get_nodes, trans=lev), xyz[no], h.product(no, lev),
                   '%s at level %d' % (d.name, lev))
    f.close()


def instances(tier):
    out = []
    q = tier == 'quick'

    def add(fn, w=20, **p):
        out.append(Instance('%s/%s' % (fn.__name__, '/'.join('%s%s' % (k, v) for k, v in p.items())), fn,
                            weight=w, validate=2, bounds=', '.join('%s=%s' % i for i in p.items()), **p))
    kinds = [('two', 1), ('rev', 1), ('three', 3), ('skip', 3), ('deep', 5), ('jump', 4)]
    for kind, dens in kinds:
        for letter in 'TR':
            for fmt in (('U',) if q else ('U', 'F')):
                add(transformation, kind=kind, density=dens, letter=letter, fmt=fmt, w=100)
                if not q:
                    add(transformation, kind=kind, density=max(1, dens - 2), letter=letter, fmt=fmt, w=300) \
                        if dens > 1 else None
    for letter in 'TR':
        for fmt in 'FU':
            add(single, letter=letter, fmt=fmt)
    for fmt in 'FU':
        add(own, fmt=fmt)
    return out
