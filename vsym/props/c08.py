"""C08: conversions in one session do not influence one another"""
import numpy as np

from ..harness import Instance
from ..sifgen import SifFile
from . import spec
from .hier import tree, emit_hierarch

OUTSIDE = 'histories of more than 3 conversions; contents other than those of the listed files'

nf = spec._nf


class Kit(object):
    def __init__(self, ctx, env, fmt):
        self.ctx, self.env, self.fmt = ctx, env, fmt
        self.n = 0

    def r(self, n):
        self.n += 1
        return spec._reals(self.ctx, 'v%d' % self.n, n)

    def file(self):
        return SifFile(self.fmt)


def struct(k, name='T1.FEM', sel=1):
    """elements, references, sets"""
    s = k.file()
    s.ident(sel)
    s.t1('GCOORD', [1] + k.r(3))
    s.t1('GELMNT1', [11, 1, 15, 0, 1, 2])
    s.t1('GELREF1', [1] + [0] * 7 + [-1, 0, 0, 0] + k.r(2))
    s.t2('GSETMEMB', [6, 1, 1, 2, 0, 1])
    s.end()
    s.write(name)
    return name


def struct2(k):
    """same element number, other element type"""
    s = k.file()
    s.ident(4)
    s.t1('GELMNT1', [11, 1, 24, 0, 1, 2, 3, 4])
    s.t1('GELMNT1', [12, 2, 18, 0, 1])
    s.t1('GELREF1', [1] + [0] * 7 + [-1, 0, -1, 0] + k.r(8))
    s.t1('GELREF1', [2] + [0] * 7 + [-1, 0, 0, 0] + k.r(1))
    s.end()
    s.write('s2_T4.FEM')
    return 's2_T4.FEM'


def results(k, cplx=0, nsp=2, ncomp=2, name='R1.SIU'):
    s = k.file()
    s.t2('HIERARCH', [8, 1, 1, 1, 1, 0, 0, 0])
    s.ident(1)
    s.t2('RDPOINTS', [12, 3, 7, 15, 24, nsp, 10201, 0, 0, -1, -1])
    s.t2('RDSTRESS', [3 + ncomp, 9] + [ncomp] + [1] * ncomp)
    s.t2('RDRESREF', [7, 1, 1, 1, 0, cplx, 0])
    s.t2('RDIELCOR', [7, 15, 0] + k.r(4))
    v = k.r(nsp * ncomp * (1 + cplx))
    s.t2('RVSTRESS', [5 + len(v), 1, 7, 3, 9] + v)
    s.end()
    s.write(name)
    return name


def results2(k):
    return results(k, 1, 1, 3, 'b_R1.SIF')


def grid(k):
    """RDIELCOR without result points: the size follows from the element type"""
    s = k.file()
    s.ident(2)
    s.t2('RDIELCOR', [8, 15, 0] + k.r(5))
    s.t2('RDIELCOR', [11, 24, 0] + k.r(8))
    s.end()
    s.write('g_R2.SIU')
    return 'g_R2.SIU'


def hydro(k):
    s = k.file()
    s.ident(1)
    s.t2('WGLOBDEF', [4] + k.r(2) + [0])
    s.t2('WBODCON', [4, 1, 1, 0])
    s.t2('W1EXFORC', [16, 1, 1, 1] + k.r(12))
    s.end()
    s.write('G1.SIF')
    return 'G1.SIF'


def hinput(k, pre='h_'):
    rows = tree('two')
    s = k.file()
    emit_hierarch(s, rows)
    s.ident(3)
    s.t1('GCOORD', [1] + k.r(3))
    s.end()
    s.write(pre + 'T3.FEM')
    struct(k, pre + 'T1.FEM')
    s = k.file()
    s.ident(2)
    s.t1('GCOORD', [1] + k.r(3))
    s.t1('GELMNT1', [11, 1, 25, 0, 1, 2, 3])
    s.t1('GELREF1', [1] + [0] * 7 + [-1, 0, 0, 0] + k.r(3))
    s.end()
    s.write(pre + 'T2.FEM')
    return pre + 'T3.FEM'


def hresults(k):
    rows = tree('two')
    s = k.file()
    emit_hierarch(s, rows)
    s.ident(3)
    s.t2('RDRESREF', [7, 1, 1, 1, 0, 0, 0])
    s.end()
    s.write('h_R3.SIU')
    for no, c in ((2, 0), (4, 1)):
        s = k.file()
        s.ident(rows[no - 1].sel)
        s.t2('RDPOINTS', [11, 3, 7, 15, 24, 1, 10101, 0, 0, -1])
        s.t2('RDSTRESS', [4, 9, 1, 1])
        s.t2('RDRESREF', [7, 1, 1, 1, 0, c, 0])
        s.t2('RVSTRESS', [6 + c, 1, 7, 3, 9] + k.r(1 + c))
        s.end()
        s.write('h_R%dH%d.SIU' % (rows[no - 1].sel, no))
    return 'h_R3.SIU'


def noref(k):
    """refers to records that are not on the file"""
    s = k.file()
    s.ident(1)
    s.t1('GCOORD', [1] + k.r(3))
    what = k.ctx.pick('missing%d' % k.n, ('GELMNT1', 'RDPOINTS', 'RDSTRESS', 'RDRESREF'))
    if what == 'GELMNT1':
        s.t1('GELREF1', [1] + [0] * 7 + [-1, 0, 0, 0] + k.r(2))
    else:
        if what != 'RDPOINTS':
            s.t2('RDPOINTS', [11, 3, 7, 15, 24, 1, 10101, 0, 0, -1])
        if what != 'RDSTRESS':
            s.t2('RDSTRESS', [4, 9, 1, 1])
        if what != 'RDRESREF':
            s.t2('RDRESREF', [7, 1, 1, 1, 0, 0, 0])
        s.t2('RVSTRESS', [6, 1, 7, 3, 9] + k.r(1))
    s.end()
    s.write('n_R1.SIU')
    return 'n_R1.SIU'


def noident(k):
    s = k.file()
    s.t1('GCOORD', [1] + k.r(3))
    s.end()
    s.write('i_T1.FEM')
    return 'i_T1.FEM'


def cut(k):
    """hierarchy of which a lower-level file is damaged"""
    hinput(k, 'c_')
    s = k.file()
    s.ident(1)
    s.t1('GELMNT1', [11, 1, 99, 0, 1, 2])      # element type that does not exist
    s.end()
    s.write('c_T1.FEM')
    return 'c_T3.FEM'


FILES = dict(struct=struct, struct2=struct2, results=results, results2=results2, grid=grid, hydro=hydro,
             hinput=hinput, hresults=hresults, noref=noref, noident=noident, cut=cut)
FAILING = ('noref', 'noident', 'cut')


# -- contents of an HDF5 file ------------------------------------------------------

ATTRS = ('LEVEL', 'SELTYP', 'INDEX', 'RECORDS', 'DATATYPE', 'FILETYPE')


def dump(h):
    out = {}

    def walk(g, path):
        for a in ATTRS:
            try:
                v = g._f_getattr(a)
            except AttributeError:
                continue
            out['%s:%s' % (path, a)] = v
        for t in g._f_iter_nodes('Table'):
            rows = t.read()
            for c in t.colnames:
                out['%s/%s.%s' % (path, t.name, c)] = rows[c]
        for t in g._f_iter_nodes('EArray'):
            out['%s/%s' % (path, t.name)] = t.read()
        for k in g._f_iter_nodes('Group'):
            walk(k, path + '/' + k._v_name)
    for g in h.get_node('/')._f_iter_nodes('Group'):
        walk(g, '/' + g._v_name)
    return out


def compare(ctx, a, b, what):
    ctx.check(sorted(a) == sorted(b), '%s: holds %r, expected %r' % (
        what, sorted(set(a) - set(b))[:5], sorted(set(b) - set(a))[:5]))
    for k in sorted(set(a) & set(b)):
        x, y = a[k], b[k]
        if isinstance(y, np.ndarray) or hasattr(y, 'shape') and getattr(y, 'shape', ()) != ():
            ctx.same(x, y, what + ' ' + k)
        else:
            ctx.check(list(x) == list(y) if isinstance(y, list) else x == y, '%s %s: %r, expected %r' % (
                what, k, x, y))


def convert(env, fname, out, **kw):
    """-> name of the exception or None"""
    try:
        env.fs.sif2hdf5(fname, out, **kw)
    except Exception as e:
        return type(e).__name__
    return None


def history(ctx, env, before, last, fmt, same_name=False):
    k = Kit(ctx, env, fmt)
    fname = FILES[last](k)
    kw = {}
    if last in ('struct', 'results') and ctx.flag('only'):
        kw['only'] = {'struct': ['IDENT', 'GELREF1', 'GSETMEMB'],
                      'results': ['IDENT', 'HIERARCH', 'RDIELCOR']}[last]
    if last in ('struct2', 'grid', 'hinput') and ctx.flag('noprefix'):
        kw['usefileprefix'] = False
    err0 = convert(env, fname, 'ref.h5', **kw)
    ref = None
    if err0 is None:
        h = env.h5('ref.h5')
        ref = dump(h)
        h.close()
    env.new_session()
    for i, b in enumerate(before):
        k2 = Kit(ctx, env, fmt)
        k2.n = 100 * (i + 1)
        fn = FILES[b](k2) if b != last else fname
        bkw = {}
        if ctx.flag('b%d.noprefix' % i):
            bkw = dict(usefileprefix=False, prefix='z')
        convert(env, fn, 'out.h5' if same_name else 'b%d.h5' % i, **bkw)
    err = convert(env, fname, 'out.h5', **kw)
    ctx.check(err == err0, 'conversion ends with %s, alone with %s' % (err, err0))
    if err is None and err0 is None:
        h = env.h5('out.h5')
        compare(ctx, dump(h), ref, 'after %s' % '+'.join(before))
        h.close()
        o = ctx.guard(env.fs.open_hdf5, 'out.h5') if last not in ('hydro',) else None
        if o is not None:
            ctx.check(sorted(o.keys()) == sorted(set(p.split(':')[0][1:] for p in ref if ':' in p)),
                      'keys %r' % (sorted(o.keys()),))
            o.close()


def reference(ctx, env, fmt):
    """the reference conversions themselves store what the files hold"""
    k = Kit(ctx, env, fmt)
    fn = hresults(k)
    ctx.guard(env.fs.sif2hdf5, fn, 'o.h5')
    h = env.h5('o.h5')
    d = dump(h)
    h.close()
    ctx.check('/h_R3/R1_1/rvstress_stress' in d and '/h_R3/R2_1/rvstress_stress' in d, 'groups %r' % sorted(d)[:5])
    fn = grid(k)
    ctx.guard(env.fs.sif2hdf5, fn, 'g.h5')
    h = env.h5('g.h5')
    spec.check_table(ctx, h, '/g_R2', 'RDIELCOR', [spec.Rec('RDIELCOR', 't2', None, dict(icoref=15)),
                                                   spec.Rec('RDIELCOR', 't2', None, dict(icoref=24))])
    h.close()


def instances(tier):
    out = []
    names = list(FILES)
    for fmt in 'FU':
        out.append(Instance('reference/' + fmt, reference, fmt=fmt))
        for last in names:
            for b in names:
                if tier == 'quick' and fmt == 'F' and b in ('struct2', 'results2', 'hydro') and last in ('struct2', 'results2', 'hydro'):
                    continue
                out.append(Instance('%s>%s/%s' % (b, last, fmt), history, before=(b,), last=last, fmt=fmt,
                                    validate=1, bounds='two conversions in one session'))
                if b in FAILING or b == last:
                    out.append(Instance('%s>%s/%s/same' % (b, last, fmt), history, before=(b,), last=last, fmt=fmt,
                                        same_name=True, validate=1, bounds='two conversions into the same file'))
        if tier != 'quick':
            for last in names:
                for b in names:
                    for c in names:
                        if (names.index(last) + names.index(b) + names.index(c)) % 2 == (fmt == 'F'):
                            continue        # every triple in one of the two formats
                        out.append(Instance('%s>%s>%s/%s' % (b, c, last, fmt), history, before=(b, c), last=last,
                                            fmt=fmt, validate=0, bounds='three conversions in one session'))
    return out
