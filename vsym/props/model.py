"""Small structural models with symbolic contents, and what the documented
queries have to return for them (independent of freesif)"""
from . import spec
from ..sifgen import SifFile

NN = spec.NNOD
BEAM, SHELL = (15, 23), (24, 25, 26, 28)


class Model(object):
    def __init__(self, ctx, env):
        self.ctx, self.env = ctx, env
        self.nodex, self.xyz = [], []
        self.els = []           # (elnox, eltyp, [node indices])
        self.sets = []          # (name, [element indices])
        self.isref = 10         # number of the first set

    # -- building ------------------------------------------------------------
    def nodes(self, n):
        ctx = self.ctx
        for i in range(n):
            self.nodex.append(ctx.int('nodex%d' % i, 1, 1 << 20))
            self.xyz.append([ctx.real('%s%d' % (c, i)) for c in 'xyz'])

    def elements(self, eltyps, conn='free'):
        ctx, nn = self.ctx, len(self.xyz)
        for k, t in enumerate(eltyps):
            n = NN[t]
            if conn == 'free':
                con = [ctx.choice('con%d.%d' % (k, j), 0, nn - 1) for j in range(n)]
            else:
                pats = [[(k * 2 + j) % nn for j in range(n)], [(nn - 1 - j) % nn for j in range(n)],
                        [(j // 2) % nn for j in range(n)]][:conn]
                con = ctx.pick('con%d' % k, pats)
            self.els.append((ctx.int('elnox%d' % k, 1, 1 << 20), t, con))

    def element_sets(self, n, names=('SETA', 'set b', "it's")):
        ctx = self.ctx
        for i in range(n):
            m = [k for k in range(len(self.els)) if ctx.flag('set%d.%d' % (i, k))]
            self.sets.append((names[i], m))

    def write(self, fmt='U', name='T1.FEM', head=None, tail=None, seltyp=1):
        ctx = self.ctx
        s = SifFile(fmt)
        if head:
            head(s)
        s.ident(seltyp)
        for i, v in enumerate(self.nodex):
            s.t1('GNODE', [v, i + 1, 6, 123456])
        for i, x in enumerate(self.xyz):
            s.t1('GCOORD', [i + 1] + x)
        for k, (nx, t, con) in enumerate(self.els):
            s.t1('GELMNT1', [nx, k + 1, t, 0] + [c + 1 for c in con])
        for i, (nm, m) in enumerate(self.sets):
            s.td('TDSETNAM', self.isref + i, nm)
        for i, (nm, m) in enumerate(self.sets):
            # members in two records, the second one in descending order and
            # repeating a member; the same set has node members too
            a, b = m[:1], m[:0:-1] + m[:1]
            s.t2('GSETMEMB', [5 + 2, self.isref + i, 1, 1, 0] + [len(self.xyz), 1])
            if m:
                s.t2('GSETMEMB', [5 + len(a), self.isref + i, 1, 2, 0] + [k + 1 for k in a])
                s.t2('GSETMEMB', [5 + len(b), self.isref + i, 2, 2, 0] + [k + 1 for k in b])
        if tail:
            tail(s)
        s.end()
        s.write(name)

    def open(self, fmt='U', **kw):
        self.write(fmt, **kw)
        name = kw.get('name', 'T1.FEM')
        self.ctx.guard(self.env.fs.sif2hdf5, name, 'model.h5')
        f = self.ctx.guard(self.env.fs.open_hdf5, 'model.h5')
        return f

    # -- what queries have to return -------------------------------------------
    def select(self, sets=None, kind=None):
        """element indices"""
        idx = range(len(self.els))
        if sets:
            names = [sets] if isinstance(sets, str) else list(sets)
            mem = set(k for nm, m in self.sets if nm in names for k in m)
            idx = [k for k in idx if k in mem]
        if kind:
            idx = [k for k in idx if self.els[k][1] in (BEAM if kind == 'beam' else SHELL)]
        return list(idx)

    def nodesel(self, sets=None, kind=None, disconnected=False):
        """node indices in the order of the coordinate array"""
        el = self.select(sets, kind)
        if disconnected:
            return [n for k in el for n in self.els[k][2]]
        if sets or kind:
            return sorted(set(n for k in el for n in self.els[k][2]))
        return list(range(len(self.xyz)))

    def selections(self):
        """all (sets, kind) selections that hold an element"""
        names = [nm for nm, _ in self.sets]
        opts = [None] + names + [tuple(names[:1])] if names else [None]
        if len(names) > 1:
            opts += [names, tuple(reversed(names))]
        for s in opts:
            for k in (None, 'beam', 'shell'):
                if self.select(s, k):
                    yield s, k
