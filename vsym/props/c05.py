"""C05: the number of records of a run does not matter (record buffer)

The readers collect rows in a buffer of tmp_arr_size rows which is written out
when full.  The harness sets the size to b and reads runs of n records, n up to
2b+1, so that every position relative to a full buffer is passed (in replays on
the real code too).  Code without such a constant is run as it is.
"""
from ..harness import Instance
from ..sifgen import SifFile
from . import spec

OUTSIDE = 'buffer sizes above 3 and runs that fill the buffer more than twice'
ASSUMPTIONS = ['the reader behaves for the buffer size of the code as it does for the small sizes '
               'of the instances (the size is a module constant of freesif which the check replaces)']


def buffered(ctx, env, rec, b, fmt, runs, nmax):
    s = SifFile(fmt)
    if fmt == 'U':
        s.chunk = ctx.pick('chunk', (32, 5))
    env.set_buffer(b)
    s.ident(1)
    recs, sep = [], []
    el = 0
    for run in range(runs):
        n = ctx.choice('n%d' % run, 1 if run else 0, nmax)
        for i in range(n):
            tag = 'r%d.%d' % (run, i)
            r = make(ctx, rec, tag, len(recs))
            recs.append(r)
        for r in recs[len(recs) - n:]:
            for p in getattr(r, 'before', []):
                p.emit(s)
        for r in recs[len(recs) - n:]:
            r.emit(s)
        g = spec.build(ctx, env, 'GUNIVEC', 'sep%d' % run)
        g.emit(s)
        sep.append(g)
    s.end()
    s.write('T1.FEM')
    ctx.guard(env.fs.sif2hdf5, 'T1.FEM', 'out.h5')
    h = env.h5('out.h5')
    if recs:
        spec.check_table(ctx, h, '/T1', rec, recs)
    spec.check_table(ctx, h, '/T1', 'GUNIVEC', sep)
    h.close()


# lengths of the variable parts of successive records
LEN = (1, 0, 2, 1, 3, 0, 0, 1)


def make(ctx, rec, tag, k):
    R = spec._reals
    I = spec._intl
    n = LEN[k % len(LEN)]
    if rec == 'GCOORD':
        no, x = ctx.int(tag + '.no'), R(ctx, tag, 3)
        return spec.Rec(rec, 't1', [no] + x, dict(nodeno=no, xcoord=x[0], ycoord=x[1], zcoord=x[2]))
    if rec == 'GELMNT1':
        t = (15, 18, 24, 25, 28)[k % 5]
        nod = I(ctx, tag + '.nod', spec.NNOD[t])
        x = ctx.int(tag + '.x')
        return spec.Rec(rec, 't1', [x, k + 1, t, 0] + nod, dict(elnox=x, elno=k + 1, eltyp=t),
                        {'nodin': nod})
    if rec == 'GELREF1':
        m = ctx.int(tag + '.mat')
        geo = I(ctx, tag + '.geo', 2) if n else []
        ecc = I(ctx, tag + '.ecc', 2) if n > 1 else []
        r = spec.Rec(rec, 't1', [k + 1, m] + [0] * 6 + [-1 if n else 5, 0, -1 if n > 1 else 0, 0] + geo + ecc,
                     dict(elno=k + 1, matno=m, geono=-1 if n else 5), {'geono': geo, 'eccno': ecc,
                                                                     'fixno': []})
        r.before = [spec.Rec('GELMNT1', 't1', [1, k + 1, 15, 0, 1, 2], {})]
        return r
    if rec == 'GSETMEMB':
        i, m = ctx.int(tag + '.ref'), I(ctx, tag + '.m', n)
        return spec._nf(rec, [i, 1, 1, 0] + m, dict(isref=i), {'irmemb': m})
    if rec == 'RDPOINTS':
        no = ctx.int(tag + '.nlay')
        pts = [[j + 1] + R(ctx, '%s.p%d' % (tag, j), 3) for j in range(n)]
        return spec._nf(rec, [1, k + 1, 24, 24, 2, 10000 + 100 + max(n, 1), 0, no] +
                        (sum(pts, []) or [-1]), dict(iielno=k + 1, nlay=no), {'respoint': pts, 'xform': []})
    if rec == 'RVNODDIS':
        i, v = ctx.int(tag + '.no'), R(ctx, tag + '.v', 3 if n == 1 else 6)
        return spec._nf(rec, [1, i, 0, 0] + v, dict(iinod=i), {'dis': v})
    if rec == 'BLDEP':
        i = ctx.int(tag + '.no')
        deps = [R(ctx, '%s.d%d' % (tag, j), 3) for j in range(n)]
        return spec.Rec(rec, 'lines', [i, 1, 1, n], dict(nodeno=i), {'deps': deps}, deps)
    if rec == 'TEXT':
        lines = [' ' * 8 + 'l%d %s' % (j, tag) for j in range(n)]
        t = ctx.int(tag + '.t')
        return spec.Rec(rec, 'text', None, dict(type=t, nrecs=n), {'recs': [x.encode() for x in lines]},
                        (t, 0, lines))
    if rec == 'TDSETNAM':
        t = ctx.int(tag + '.t')
        txt = ['t%d' % j for j in range(n)]
        return spec.Rec(rec, 'td', None, dict(idno=t, name=b'nam%d' % k), {'text': [x.encode() for x in txt]},
                        (t, 'nam%d' % k, txt))
    if rec == 'BNBCD':
        i, f = ctx.int(tag + '.no'), I(ctx, tag + '.f', n)
        return spec.Rec(rec, 't1', [i, n] + f, dict(nodeno=i), {'fix': f})
    if rec == 'W1EXFORC':
        i = ctx.int(tag + '.no')
        v = R(ctx, tag, 12)
        return spec._nf(rec, [i, 1, 1] + v, dict(ibcond=i))
    raise KeyError(rec)


KINDS = ['GCOORD', 'GELMNT1', 'GELREF1', 'GSETMEMB', 'RDPOINTS', 'RVNODDIS', 'BLDEP', 'TEXT',
         'TDSETNAM', 'BNBCD', 'W1EXFORC']


def instances(tier):
    out = []
    for rec in KINDS:
        for fmt in 'FU':
            for b in (1, 2, 3):
                if tier == 'quick':
                    cases = [(1, 2 * b + 1), (2, b + 1)] if b < 3 else [(1, 4)]
                else:
                    cases = [(1, 3 * b + 1), (2, 2 * b + 1), (3, b + 1)]
                for runs, nmax in cases:
                    out.append(Instance(
                        '%s/%s/b%d/%druns' % (rec, fmt, b, runs), buffered, rec=rec, fmt=fmt, b=b, runs=runs,
                        nmax=nmax, weight=nmax ** runs, validate=1, path_timeout=120,
                        bounds='buffer of %d rows, %d run(s) of up to %d records' % (b, runs, nmax)))
    return out
