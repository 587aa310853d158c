"""C02: the variable parts of records; every row owns its own slice"""
from ..harness import Instance
from ..sifgen import SifFile
from . import spec

CHUNKS = (32, 4, 7, 1, (3, 9))
SIF = set(n for n in spec.VARIABLE if n[:2] in ('RD', 'RV', 'RB'))


def variable(ctx, env, rec, layout, fmt, chunks):
    s = SifFile(fmt)
    if fmt == 'F':
        s.pad = ctx.flag('pad')
    else:
        s.chunk = ctx.pick('chunk', chunks)
    recs, sep, extra = [], [], []
    if rec != 'HIERARCH':
        s.ident(1)
    kw = {}
    if rec == 'GELREF1':
        kw['eltyp'] = ctx.pick('eltyp', (15, 23, 24))
        s.t1('GELMNT1', [101, 1, kw['eltyp'], 0] + [1] * spec.NNOD[kw['eltyp']])
    if rec == 'RDIELCOR':
        kw['icoref'] = ctx.pick('icoref', (15, 24))
    for i, part in enumerate(layout):
        if part == 's':
            g = spec.build(ctx, env, 'GUNIVEC', 'sep%d' % i)
            g.emit(s)
            sep.append(g)
        else:
            if rec in ('RDPOINTS', 'GELREF1') and i < len(layout) - 1 and 'r' in layout[i + 1:]:
                kw['small'] = True
            else:
                kw.pop('small', None)
            r = spec.build(ctx, env, rec, 'r%d' % i, **kw)
            if hasattr(r, 'pre'):
                for p in r.pre:
                    p.emit(s)
            r.emit(s)
            recs.append(r)
    s.end()
    name = 'T99.FEM' if rec == 'HIERARCH' else 'T1.FEM'
    s.write(name)
    ctx.guard(env.fs.sif2hdf5, name, 'out.h5')
    h = env.h5('out.h5')
    spec.check_table(ctx, h, '/T1', rec, recs)
    if sep:
        spec.check_table(ctx, h, '/T1', 'GUNIVEC', sep, 'after %s: ' % rec)
    h.close()


def grids(ctx, env, fmt):
    """RDIELCOR of several grids, sized by the RDPOINTS records of the same file"""
    s = SifFile(fmt)
    if fmt == 'U':
        s.chunk = ctx.pick('chunk', (32, 5))
    s.ident(1)
    sizes = {}
    for k in range(2):
        sizes[40 + k] = ctx.pick('grid%d' % k, ((1, 1, 1), (2, 1, 3), (1, 2, 2), (3, 2, 1))) + \
            (ctx.choice('nlay%d' % k, 0, 2),)
        nok, noj, noi, nlay = sizes[40 + k]
        n = nok * noj * noi
        spec._nf('RDPOINTS', [1, 1 + k, 40 + k, 24, 0, nok * 10000 + noj * 100 + noi, 0, nlay] +
                 [-1] * n, {}).emit(s)
    recs = []
    for i, ic in enumerate(ctx.pick('order', ((40, 41), (41, 40)))):
        nok, noj, noi, nlay = sizes[ic]
        g, b, a = (spec._reals(ctx, 'c%d.%s' % (i, f), n) for f, n in
                   (('gamma', nok), ('beta', noj), ('alpha', noi)))
        lay = [spec._reals(ctx, 'c%d.lay%d' % (i, j), 2) for j in range(nlay)]
        igrid = ctx.int('c%d.igrid' % i)
        r = spec._nf('RDIELCOR', [ic, igrid] + g + b + a + sum(lay, []),
                     dict(icoref=ic, igrid=igrid),
                     {'gamma': g, 'beta': b, 'alpha': a, 'layers': lay})
        r.emit(s)
        recs.append(r)
    s.end()
    s.write('T1.FEM')
    ctx.guard(env.fs.sif2hdf5, 'T1.FEM', 'out.h5')
    h = env.h5('out.h5')
    spec.check_table(ctx, h, '/T1', 'RDIELCOR', recs)
    h.close()


def resultlen(ctx, env, rec, fmt, nrec):
    """the length of a result record follows from its own element, component
    definition and result case, whatever the order of the records"""
    s = SifFile(fmt)
    if fmt == 'U':
        s.chunk = ctx.pick('chunk', (32, 5))
    s.ident(1)
    nsp, ncomp, cplx = {}, {}, {}
    for k in range(2):
        nsp[(1 + k, 7)] = ctx.choice('nsp.alt%d' % k, 1, 2)
        nsp[(1 + k, 8)] = 3
    ncomp = {20: 1, 21: ctx.choice('ncomp', 2, 3)}
    cplx = {5: 0, 6: ctx.choice('icompl', 0, 1)}
    for (sp, el), n in nsp.items():
        spec._nf('RDPOINTS', [sp, el, 24, 24, n, 10101, 0, 0, -1], {}).emit(s)
    for other in ('RDSTRESS', 'RDSTRAIN', 'RDFORCES'):
        for ir, n in ncomp.items():
            m = n if other[2:] == rec[2:] else 4      # same ir, other record type
            spec._nf(other, [ir, m] + [1] * m, {}).emit(s)
    for ires, c in cplx.items():
        spec._nf('RDRESREF', [ires, 1, 1, 0, c, 0], {}).emit(s)
    recs = []
    arr = {'RVFORCES': 'force', 'RVSTRAIN': 'strain', 'RVSTRESS': 'stress'}[rec]
    for i in range(nrec):
        sp, el, ir, ires = (ctx.pick('r%d.%s' % (i, f), o) for f, o in (
            ('spalt', (1, 2)), ('el', (7, 8)), ('ir', (20, 21)), ('ires', (5, 6))))
        v = spec._reals(ctx, 'r%d.v' % i, nsp[(sp, el)] * ncomp[ir] * (1 + cplx[ires]))
        r = spec._nf(rec, [ires, el, sp, ir] + v, dict(ires=ires, iielno=el, ispalt=sp, ir=ir), {arr: v})
        r.emit(s)
        recs.append(r)
    g = spec.build(ctx, env, 'GUNIVEC', 'sep')
    g.emit(s)
    s.end()
    s.write('T1.FEM')
    ctx.guard(env.fs.sif2hdf5, 'T1.FEM', 'out.h5')
    h = env.h5('out.h5')
    spec.check_table(ctx, h, '/T1', rec, recs)
    spec.check_table(ctx, h, '/T1', 'GUNIVEC', [g])
    h.close()


def instances(tier):
    out = []
    for fmt in 'FU':
        out.append(Instance('grids/%s' % fmt, grids, fmt=fmt, weight=900,
                            bounds='2 grids up to 3x2x3 points, up to 2 layers'))
        for rec in ('RVSTRESS', 'RVSTRAIN', 'RVFORCES'):
            n = 1 if tier == 'quick' else 2
            out.append(Instance('resultlen/%s/%s' % (rec, fmt), resultlen, rec=rec, fmt=fmt, nrec=n,
                                weight=900, max_paths=200000,
                                bounds='2x2 elements, 2 component definitions, 2 result cases, %d records' % n))
    for name in spec.VARIABLE:
        if name == 'HIERARCH':
            layouts = ['rrs'] if tier == 'quick' else ['rrs', 'rrrs']
        elif tier == 'quick':
            layouts = ['rr', 'rsr']
        else:
            layouts = ['r', 'rrs', 'rsr', 'rrsr']
        for fmt in 'FU':
            for lay in layouts:
                out.append(Instance(
                    '%s/%s/%s' % (name, fmt, lay), variable, rec=name, layout=lay, fmt=fmt,
                    chunks=CHUNKS if lay.count('r') == 1 or tier != 'quick' else (32, 7),
                    weight=10 ** lay.count('r'), validate=1, max_paths=200000,
                    bounds='record sequence %s, lengths <= %d, all contents symbolic' % (lay, spec.N)))
    return out
