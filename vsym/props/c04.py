"""C04: formatted and unformatted files of the same content give the same data,
whatever follows whatever"""
from ..harness import Instance
from ..sifgen import SifFile
from . import spec

OUTSIDE = 'sequences of more than 4 record runs; pairs of record types not listed in the instances'

RES = {'RVFORCES', 'RVSTRAIN', 'RVSTRESS'}
DEF = {'RDPOINTS', 'RDRESREF', 'RDFORCES', 'RDSTRAIN', 'RDSTRESS', 'RDIELCOR'}
SPECIAL = {'IDENT', 'HIERARCH'}


class Narrow(object):
    """restricts the number of cases: at most `limit` combinations"""

    def __init__(self, ctx, limit):
        self._ctx, self._left = ctx, limit

    def __getattr__(self, a):
        return getattr(self._ctx, a)

    def choice(self, name, lo, hi):
        return self.pick(name, range(lo, hi + 1))

    def flag(self, name):
        return bool(self.pick(name, (0, 1)))

    def pick(self, name, options):
        o = list(options)
        if len(o) > 2:
            o = [o[0], o[-1]]
        if len(o) > 1:
            if self._left < len(o):
                o = o[-1:]
            else:
                self._left //= len(o)
        return self._ctx.pick(name, o)


def _kw(ctx, name, k, limit):
    return Narrow(ctx, limit)


def pair(ctx, env, a, b, order, limit):
    """runs of records in the given order, written in both formats"""
    F, U = SifFile('F'), SifFile('U')
    F.pad = ctx.flag('pad')
    U.chunk = ctx.pick('chunk', (32, 5))
    recs = {}
    el = 0
    for s in (F, U):
        s.ident(1)
    for i, o in enumerate(order):
        name = a if o == 'a' else b
        kw = {}
        pre = []
        nctx = Narrow(ctx, limit if i < 2 else 1)
        if name == 'GELREF1':
            el += 1
            kw['elno'] = 100 + el
            pre = [spec.Rec('GELMNT1', 't1', [101, 100 + el, 15, 0, 1, 2], {})]
        r = spec.build(nctx, env, name, 'r%d' % i, **kw)
        for s in (F, U):
            for p in pre + getattr(r, 'pre', []):
                p.emit(s)
            r.emit(s)
        recs.setdefault(name, []).append(r)
    hs = []
    for s, fn in ((F, 'F_T1.FEM'), (U, 'U_T1.FEM')):
        s.end()
        s.write(fn)
        ctx.guard(env.fs.sif2hdf5, fn, fn + '.h5', usefileprefix=False)
        h = env.h5(fn + '.h5')
        for name, rr in recs.items():
            spec.check_table(ctx, h, '/T1', name, rr, '%s: ' % s.fmt)
        hs.append(h)
    ga, gb = (h.get_node('/T1') for h in hs)
    ctx.check(ga._f_getattr('RECORDS') == gb._f_getattr('RECORDS'),
              'RECORDS %r and %r' % (ga._f_getattr('RECORDS'), gb._f_getattr('RECORDS')))
    for h in hs:
        h.close()


def instances(tier):
    names = [n for n in spec.BUILDERS]
    n = len(names)
    out = []
    strides = (1, 7, 24) if tier == 'quick' else (1, 2, 3, 7, 11, 17, 24, 31, 45, 53)
    seen = set()
    for st in strides:
        for k in range(n):
            a, b = names[k], names[(k * st + st) % n] if st == 7 else names[(k + st) % n]
            if a == b or (a, b) in seen or a in SPECIAL or b in SPECIAL:
                continue
            if (a in RES and b in DEF) or (a in DEF and b in RES) or 'GELREF1' in (a, b) and 'GELMNT1' in (a, b):
                continue
            if a in RES and b in RES:
                continue
            seen.add((a, b))
            out.append(Instance('%s+%s' % (a, b), pair, a=a, b=b, order='aba' if tier == 'quick' else 'aabab',
                                limit=2 if tier == 'quick' else 4, validate=1 if st == 1 else 0,
                                bounds='record runs %s in both formats, all contents symbolic' % (
                                    'aba' if tier == 'quick' else 'aabab')))
    return out
