"""C17: an open file is a consistent mapping of its data"""
import os

from ..harness import Instance
from ..sifgen import SifFile
from .hier import tree, emit_hierarch

OUTSIDE = 'more than 3 independent data sets in one file; files not made by sif2hdf5'

CAN = {'top': 'get_transformation', 'first': 'get_elements', 'hydro': 'get_motion_raos'}


class Part(object):
    """a data set: the files to convert and the data objects they make"""

    def __init__(self, ctx, env, kind, n, fmt, small=False):
        self.ctx, self.env, self.kind, self.n = ctx, env, kind, n
        self.objs = {}          # key below the prefix -> (kind, contents)
        if small:
            self.fp, self.pre, self.usefp = ctx.pick('prefixes%d' % n, (
                ('', '', True), ('ab_', 'p%d_' % n, False), ('x-1_', 'Run2', True)))
            self.present = ctx.pick('files%d' % n, (
                lambda k: True, lambda k: k % 2 == 0, lambda k: k % 2 == 1)) if kind in ('input', 'results') \
                else None
        else:
            self.fp = ctx.pick('fileprefix%d' % n, ('', 'ab_', 'x-1_'))
            self.pre = ctx.pick('prefix%d' % n, ('', 'p%d_' % n, 'Run2'))
            self.usefp = ctx.flag('usefileprefix%d' % n)
            self.present = lambda k: ctx.flag('file%d.%d' % (n, k))
        getattr(self, '_' + kind)(fmt)

    # -- files ---------------------------------------------------------------
    def _new(self, fmt, sel, slevel=1):
        s = SifFile(fmt)
        s.ident(sel, slevel=slevel)
        return s

    def _fill(self, s, key, kind, xyz=True):
        v = dict(set='SET_%d_%s' % (self.n, key.replace('/', '_')))
        s.td('TDSETNAM', 10, v['set'])
        if xyz:
            v['x'] = [self.ctx.real('x.%d.%s%d' % (self.n, key, i)) for i in range(3)]
            s.t1('GNODE', [1, 1, 6, 123456])
            s.t1('GCOORD', [1] + v['x'])
            s.t1('GELMNT1', [1, 1, 18, 0, 1, 1])
        self.objs[key] = (kind, v)
        return v

    def _end(self, s, name):
        s.end()
        s.write(name)

    def _single(self, fmt):
        s = self._new(fmt, 14)
        letter = self.ctx.pick('letter%d' % self.n, ('T', 'L'))
        self.file = self.fp + letter + '14.FEM'
        self._fill(s, letter + '14', 'first')
        self._end(s, self.file)

    def _result(self, fmt):
        s = self._new(fmt, 6)
        self.file = self.fp + 'R6.SIU'
        self._fill(s, 'R6', 'first')
        self._end(s, self.file)

    def _hydro(self, fmt):
        s = self._new(fmt, 1)
        self.file = self.fp + 'G1.SIF'
        v = dict(m=[self.ctx.real('m%d.%d' % (self.n, i)) for i in range(6)])
        s.t2('WGLOBDEF', [4, 9.81, 1025., 0])
        s.t2('WBODCON', [7, 1, 1, 1, 1., 1., 0.])
        s.t2('WDRESREF', [10, 1, 1, 2, 1, 1, .5, 2, 1, 2.])
        s.t2('W1MOTION', [10, 1, 1, 0] + v['m'])
        self.objs['G1'] = ('hydro', v)
        self._end(s, self.file)

    def _top(self, s, letter, rows):
        emit_hierarch(s, rows)
        off = [self.ctx.real('off%d.%d' % (self.n, k)) for k in range(len(rows) - 1)]
        for k, o in enumerate(off):
            s.t2('HSUPTRAN', [18, k + 1, 1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1., 0., o, 0., 0., 1.])
        self.off = off

    def _input(self, fmt):
        rows = tree('skip')
        s = self._new(fmt, 9, 3)
        self._top(s, 'T', rows)
        self._fill(s, 'T9', 'top', False)
        self.file = self.fp + 'T9.FEM'
        self._end(s, self.file)
        for sel, kind, lev in ((5, 'inter', 2), (1, 'first', 1), (4, 'first', 1)):
            if self.present(sel):
                s = self._new(fmt, sel, lev)
                v = self._fill(s, 'T9/T%d' % sel, kind, kind == 'first')
                if sel == 1:        # repetition 1 is directly below the top
                    v['shift'] = self.off[1]
                self._end(s, '%sT%d.FEM' % (self.fp, sel))

    def _results(self, fmt):
        rows = tree('two')
        s = self._new(fmt, 3, 2)
        self._top(s, 'R', rows)
        self._fill(s, 'R3', 'top', False)
        self.file = self.fp + 'R3.SIU'
        self._end(s, self.file)
        for no, r in enumerate(rows, 1):
            if no > 1 and self.present(no):
                s = self._new(fmt, r.sel)
                v = self._fill(s, 'R3/R%d_%d' % (r.sel, r.index), 'first')
                v['shift'] = self.off[no - 2]
                self._end(s, '%sR%dH%d.SIU' % (self.fp, r.sel, no))

    # -- expectation -----------------------------------------------------------
    def expected(self):
        p = self.pre + (self.fp if self.usefp else '')
        return {p + k: v for k, v in self.objs.items()}


def verify(ctx, d, kind, v, what):
    for k, m in CAN.items():
        ctx.check(hasattr(d, m) == (k == kind), '%s: not of the class for %s data (%s)' % (what, kind, m))
    if kind == 'hydro':
        ctx.same(ctx.guard(d.get_motion_raos), [[[x]] for x in v['m']], what + ': motions')
        return
    names = ctx.guard(d.get_setnames)
    ctx.check([n.decode() if isinstance(n, bytes) else str(n) for n in names] == [v['set']],
              '%s: contents of another superelement: %r' % (what, names))
    if kind == 'first':
        ctx.same(ctx.guard(d.get_nodes), [v['x']], what + ': coordinates')
        if 'shift' in v:
            x = v['x']
            ctx.same(ctx.guard(d.get_nodes, trans='top'), [[x[0] + v['shift'], x[1], x[2]]],
                     what + ': coordinates at the top level')


def mapping(ctx, env, kinds, fmt):
    parts, exp = [], {}
    for n, k in enumerate(kinds):
        p = Part(ctx, env, k, n, fmt, len(kinds) > 1)
        new = p.expected()
        if any(q.file == p.file for q in parts) or \
                set(a.split('/')[0] for a in new) & set(a.split('/')[0] for a in exp):
            return ctx.check(True, 'same names: nothing to compare')
        parts.append(p)
        exp.update(new)
        ctx.guard(env.fs.sif2hdf5, p.file, 'out.h5', append=n > 0, usefileprefix=p.usefp, prefix=p.pre)
    how = ctx.pick('open', ('open_hdf5', 'File', 'abspath')) if len(kinds) == 1 else 'open_hdf5'
    if how == 'abspath':
        f = ctx.guard(env.fs.open_hdf5, os.path.abspath('out.h5'))
    else:
        f = ctx.guard(getattr(env.fs, how), 'out.h5')
    check_mapping(ctx, f, exp)
    f.close()


def check_mapping(ctx, f, exp):
    keys = [str(k) for k in ctx.guard(f.keys)]
    ctx.check(sorted(keys) == sorted(exp), 'keys %r, expected %r' % (sorted(keys), sorted(exp)))
    values = list(ctx.guard(f.values))
    items = list(ctx.guard(f.items))
    ctx.check(len(values) == len(keys) == len(items), 'number of values and items')
    ctx.check([k for k, _ in items] == keys and all(a is b for (_, a), b in zip(items, values)),
              'items agree with keys and values')
    it = list(ctx.guard(lambda: iter(f)))
    ctx.check(len(it) == len(values) and all(a is b for a, b in zip(it, values)), 'iteration gives the values')
    for k, v in items:
        ctx.check(ctx.guard(lambda: f[k]) is v and ctx.guard(f.get, k) is v and
                  ctx.guard(f.get, k, 5) is v, 'subscription and get of %s' % k)
        ctx.check(ctx.guard(lambda: k in f) is True, 'membership of %s' % k)
        ctx.check(v.file is f, 'file of %s' % k)
        ctx.check(v.name == k.split('/')[-1], 'name of %s is %r' % (k, v.name))
        if k in exp:
            verify(ctx, v, exp[k][0], exp[k][1], k)
    for k in ['nothing', ''] + [k + '/' for k in keys] + [k.split('/')[-1] for k in keys]:
        if k not in exp:
            ctx.raises(['KeyError'], lambda: f[k])
            ctx.check(ctx.guard(f.get, k) is None and ctx.guard(f.get, k, 7) == 7, 'get of %r' % k)
            ctx.check(ctx.guard(lambda: k in f) is False, 'membership of %r' % k)
    lines = [x for x in ctx.guard(str, f).split('\n') if x.strip()]
    ctx.check(len(lines) == len(keys), 'one line for each data object: %r' % (lines,))
    for k, v in exp.items():
        want = {'top': 'toplevel structural', 'first': 'firstlevel structural', 'inter': 'interlevel structural',
                'hydro': 'hydrodynamic'}[v[0]]
        mine = [x for x in lines if repr(k) in x.split(':')[0]]
        ctx.check(len(mine) == 1 and want in mine[0], 'printed form of %s: %r' % (k, mine))
    lines = [x for x in ctx.guard(repr, f).split('\n') if x.strip()]
    ctx.check(len(lines) == len(keys), 'one line for each data object: %r' % (lines,))
    names = sorted(k.split('/')[-1] for k in exp)
    ctx.check(sorted(x.split('name=')[-1].strip(')') for x in lines) == names, 'detailed form %r' % (lines,))


def memory(ctx, env, kind, fmt):
    """open_sif gives the data object of the file, in one step"""
    p = Part(ctx, env, kind, 0, fmt)
    p.pre, p.usefp = '', True
    name = p.file
    if ctx.flag('folder'):
        os.mkdir('sub')
        for n in os.listdir('.'):
            if n != 'sub':
                os.rename(n, 'sub/' + n)
        name = 'sub/' + name
    before = sorted(os.listdir('.'))
    d = ctx.guard(env.fs.open_sif, name)
    exp = p.expected()
    key = [k for k in exp if '/' not in k][0]
    verify(ctx, d, exp[key][0], exp[key][1], 'open_sif')
    ctx.check(ctx.guard(lambda: d.file[key]) is d, 'data object of the file')
    check_mapping(ctx, d.file, exp)
    ctx.check(sorted(os.listdir('.')) == before, 'files were left behind')
    d.close()


KINDS = ('single', 'result', 'hydro', 'input', 'results')


def instances(tier):
    out = []
    q = tier == 'quick'

    def add(fn, w=20, **p):
        out.append(Instance('%s/%s' % (fn.__name__, '/'.join('%s' % (v if isinstance(v, str) else '-'.join(v))
                                                             for k, v in p.items())), fn,
                            weight=w, validate=1, bounds='combinations of up to 3 data sets', **p))
    for n, a in enumerate(KINDS):
        add(mapping, kinds=(a,), fmt='U')
        add(memory, kind=a, fmt='F' if a != 'result' else 'U')
        for m, b in enumerate(KINDS):
            if q and n > m:
                continue
            add(mapping, kinds=(a, b), fmt='U', w=100)
            if not q:
                for c in KINDS:
                    if len(set((a, b, c)) & set(('input', 'results'))) < 2:
                        add(mapping, kinds=(a, b, c), fmt='F', w=300)
    if q:
        add(mapping, kinds=('hydro', 'single', 'result'), fmt='F', w=200)
    return out
