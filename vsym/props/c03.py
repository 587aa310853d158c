"""C03: records that are not read do not disturb the ones that are"""
from ..harness import Instance
from ..sifgen import SifFile
from . import spec

OUTSIDE = ('record names unknown to SESAM; records longer than 40 fields; a negative first number in the '
           'midst of a run of read records of the same type')

TYPE1 = ['BNLOAD', 'BNDISPL', 'BEISTE', 'MGSPRNG', 'ACFD', 'BNMASS', 'MTEMP', 'BNTRCOS', 'GECC']
TYPE2 = ['WGRESPON', 'RDSERIES', 'RVORDINA', 'SPROSELE', 'RSUMLOAD', 'WSCATTER', 'W2FLUDIF',
         'RVNODREA', 'SCONPLIS']


def _vals(ctx, tag, n, first):
    return [first] + [ctx.real('%s.%d' % (tag, k)) for k in range(n - 1)]


def _sentinel(ctx, s, k, recs):
    r = spec.build(ctx, None, 'GCOORD', 'node%d' % k)
    r.emit(s)
    recs.append(r)


def _skipped(ctx, s, i, kind, name, sizes):
    tag = 'skip%d' % i
    if kind == 't1':
        n = ctx.pick(tag + '.n', sizes)
        s.t1(name, _vals(ctx, tag, n, ctx.int(tag + '.first')))
    elif kind == 't2':
        n = ctx.pick(tag + '.nfield', sizes)
        s.t2(name, _vals(ctx, tag, max(n, 4), n))
    elif kind == 'neg':
        # a negative first value marks a record to be ignored, -5 one with a
        # line of four values
        first = ctx.pick(tag + '.first', (-1., -5., -2.))
        s.header(name, _vals(ctx, tag, 4, first))
        if first == -5.:
            s.cont(_vals(ctx, tag + '.c', 4, ctx.real(tag + '.c')))
    elif kind == 'td':
        nam = ctx.pick(tag + '.name', ('N' * 64, None, ('SET', 'GNODE')))
        n = ctx.choice(tag + '.ntext', 0, 2)
        last = ctx.pick(tag + '.text', ('GCOORD', 'abc', 'X' * 64)) if n else ''
        s.td(name, ctx.int(tag + '.id'), nam, (['abc'] + [last])[2 - n:])
    elif kind == 'text':
        n = ctx.choice(tag + '.nrecs', 0, 2)
        s.text_rec(name, 1, 0, [' ' * 8 + 'some text'] * n)
    elif kind == 'iend':
        s.header('IEND', [ctx.pick(tag + '.first', (1., 2.)), 0., 0., 0.])
    elif kind == 'read':
        r = spec.build(ctx, None, name, tag)
        for p in getattr(r, 'pre', []):
            p.emit(s)
        r.emit(s)


def _finish(ctx, env, s, nodes, only, names, absent):
    s.end()
    s.write('T1.FEM')
    ctx.guard(env.fs.sif2hdf5, 'T1.FEM', 'out.h5', only=only)
    h = env.h5('out.h5')
    spec.check_table(ctx, h, '/T1', 'GCOORD', nodes)
    g = h.get_node('/T1')
    recs = [r for r in g._f_getattr('RECORDS') if r != 'IEND']
    ctx.check(sorted(recs) == sorted(names), 'RECORDS is %r, expected %r' % (recs, names))
    for a in absent:
        ctx.check(a.lower() not in g, 'table %s present' % a)
    h.close()


def unread(ctx, env, kind, names, fmt, sizes, count):
    s = SifFile(fmt)
    if fmt == 'U' and kind == 't2':
        s.chunk = ctx.pick('chunk', (32, 4, 9, 1))
    elif fmt == 'F':
        s.pad = ctx.flag('pad')
    s.ident(1)
    nodes, used = [], []
    if ctx.flag('before'):
        _sentinel(ctx, s, 0, nodes)
    for i in range(count):
        nm = ctx.pick('name%d' % i, names)
        used.append(nm)
        _skipped(ctx, s, i, kind, nm, sizes)
    _sentinel(ctx, s, 1, nodes)
    _finish(ctx, env, s, nodes, None, ['IDENT', 'GCOORD'], used)


def filtered(ctx, env, kind, rec, fmt):
    """records left out by the `only` argument"""
    s = SifFile(fmt)
    if fmt == 'U':
        s.chunk = ctx.pick('chunk', (32, 3))
    else:
        s.pad = ctx.flag('pad')
    s.ident(1)
    nodes = []
    if ctx.flag('before'):
        _sentinel(ctx, s, 0, nodes)
    for i in range(ctx.choice('count', 1, 2)):
        _skipped(ctx, s, i, kind, rec, (4,))
    _sentinel(ctx, s, 1, nodes)
    only = ctx.pick('only', (('IDENT', 'GCOORD'), ['GCOORD', 'IDENT', 'GUNIVEC']))
    _finish(ctx, env, s, nodes, only, ["IDENT", "GCOORD"], [rec])


READ1 = ['GNODE', 'GBEAMG', 'GBARM', 'GUSYI', 'MISOSEL', 'BRIGAC', 'BNBCD', 'BLDEP', 'GELMNT2',
         'GELTH', 'BEUSLO']
READ2 = ['HSUPTRAN', 'GSETMEMB', 'RVNODDIS', 'RDRESREF', 'WBODCON', 'W2MDRIFT', 'WBODY', 'RDFORCES']


def instances(tier):
    out = []
    big = tier != 'quick'
    for fmt in 'FU':
        for kind, names, sizes in (
                ('t1', TYPE1, (4, 6, 8, 13)), ('t2', TYPE2, (5, 9, 36, 37) if not big else
                                                (4, 5, 8, 9, 12, 35, 36, 37, 40)),
                ('neg', ['GNODE', 'BNLOAD', 'RDPOINTS', 'GELMNT1'], None),
                ('iend', ['IEND'], None)):
            for count in ((1, 2) if kind in ('neg', 'iend') or big else (1,)):
                nn = names if big or count == 1 else names[:2]
                if kind == 'neg':
                    nn = names[:2]
                if kind == 't2' and count == 2:
                    sizes = (5, 9, 36, 37)
                out.append(Instance('unread/%s/%s/%d' % (kind, fmt, count), unread, kind=kind,
                                    names=nn, fmt=fmt, sizes=sizes, count=count, weight=50,
                                    bounds='%d consecutive unread records' % count))
        if not big:
            out.append(Instance('unread/t1+t1/%s' % fmt, unread, kind='t1', names=TYPE1[:2],
                                fmt=fmt, sizes=(4, 6), count=2, weight=50,
                                bounds='2 consecutive unread records'))
            out.append(Instance('unread/t2+t2/%s' % fmt, unread, kind='t2', names=TYPE2[:2],
                                fmt=fmt, sizes=(5, 37), count=2, weight=50,
                                bounds='2 consecutive unread records'))
        out.append(Instance('unread/TDSERIES/%s' % fmt, unread, kind='td', names=['TDSERIES'],
                            fmt=fmt, sizes=None, count=1, weight=20))
        for kind, names in (('read', READ1 + READ2), ('td', ['TDSETNAM', 'TDLOAD']),
                            ('text', ['DATE', 'TEXT']),
                            ('neg', ['GNODE', 'BNLOAD'] + ['GUSYI', 'RDPOINTS'] * big)):
            for name in names:
                out.append(Instance('only/%s%s/%s' % ('neg-' * (kind == 'neg'), name, fmt), filtered, kind=kind, rec=name,
                                    fmt=fmt, validate=1, weight=10))
    return out
