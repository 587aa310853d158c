"""C28: a failed conversion leaves the database as it was"""
from ..harness import Instance
from ..sifgen import SifFile
from . import c08
from .c08 import FILES as C08, Kit, compare, convert, dump
from .c27 import broken, put

OUTSIDE = 'which exception is raised; a process that is killed; failures of the file system; databases made by other ' \
          'programs; more than two data sets in the database'


def hydro(k):
    """a hydrodynamic file that open_hdf5 accepts"""
    s = k.file()
    s.ident(1)
    s.t2('WGLOBDEF', [4] + k.r(2) + [0])
    s.t2('WDRESREF', [10, 1, 1, 2, 1, 1, 0., 2, 1, .5])
    s.t2('WBODCON', [4, 1, 1, 0])
    s.t2('W1EXFORC', [16, 1, 1, 1] + k.r(12))
    s.end()
    s.write('G1.SIF')
    return 'G1.SIF'


FILES = dict(C08, hydro=hydro)


def breaks_off(k):
    """a file that breaks off"""
    ctx = k.ctx
    s = k.file()
    s.ident(6)
    s.t1('GNODE', [11, 1, 6, 123456])
    s.t1('GCOORD', [1] + k.r(3))
    s.t1('GELMNT1', [11, 1, 15, 0, 1, 2])
    s.t2('RVNODDIS', [11, 1, 1, 0, 0] + k.r(6))
    s.end()
    put('T6.FEM', broken(ctx, k.env, s, 1))
    return 'T6.FEM'


def lower_breaks_off(k):
    """a hierarchy of which a lower file breaks off"""
    c08.hinput(k, 'c_')
    s = k.file()
    s.ident(1)
    s.t1('GCOORD', [1] + k.r(3))
    s.t1('GNODE', [11, 1, 6, 123456])
    s.end()
    put('c_T%d.FEM' % k.ctx.choice('lower file', 1, 2), broken(k.ctx, k.env, s, 2))
    return 'c_T3.FEM'


def _there(k, letter, ext):
    """a data set of that name is there, with other types of records"""
    s = k.file()
    s.ident(1)
    if k.ctx.flag('same types of records'):
        s.t1('GCOORD', [1] + k.r(3))
    s.t1('GUNIVEC', [3] + k.r(3))
    s.t1('GNODE', [77, 5, 6, 123456])
    s.t2('WBODY', [32, 1] + k.r(30))
    s.end()
    s.write('again/%s1.%s' % (letter, ext))
    return 'again/%s1.%s' % (letter, ext)


def struct_again(k):
    return _there(k, 'T', 'FEM')


def hydro_again(k):
    return _there(k, 'G', 'SIF')


def hinput_again(k):
    """a hierarchy whose name is there"""
    import os
    old = os.getcwd()
    os.chdir('again')
    try:
        return 'again/' + c08.hinput(k)
    finally:
        os.chdir(old)


def top_again(k):
    """a data set with the name of the hierarchy that is there"""
    s = k.file()
    s.ident(3)
    s.t1('GUNIVEC', [3] + k.r(3))
    s.end()
    s.write('again/h_T3.FEM')
    return 'again/h_T3.FEM'


def plain(k):
    """a data set with the name of the hierarchy"""
    s = k.file()
    s.ident(3)
    s.t1('GCOORD', [1] + k.r(3))
    s.end()
    s.write('h_T3.FEM')
    return 'h_T3.FEM'


FILES['plain'] = plain


FAIL = dict(breaks_off=breaks_off, lower_breaks_off=lower_breaks_off, noref=c08.noref, noident=c08.noident, cut=c08.cut)
AGAIN = dict(struct_again=('struct', struct_again), hydro_again=('hydro', hydro_again),
             hinput_again=('hinput', hinput_again), top_again=('hinput', top_again), hinput_over_plain=('plain', hinput_again))
KEYS = dict(struct=['T1'], plain=['h_T3'], struct2=['s2_T4'], results=['R1'], grid=['g_R2'], hydro=['G1'],
            hinput=['h_T3', 'h_T3/T1', 'h_T3/T2'], hresults=['h_R3', 'h_R3/R1_1', 'h_R3/R2_1'])


def contents(ctx, env, out, keys, what):
    """opens, holds `keys`; -> contents"""
    f = ctx.guard(env.fs.open_hdf5, out)
    ctx.check(sorted(f.keys()) == sorted(keys), '%s: data sets %r, expected %r' % (what, sorted(f.keys()), sorted(keys)))
    if 'T1' in keys:
        ctx.check(len(ctx.guard(f['T1'].get_elements)) == 3, what + ': query')
    ctx.guard(f.close)
    h = env.h5(out)
    d = dump(h)
    h.close()
    return d


def history(ctx, env, before, bad, after, fmt):
    import os
    os.mkdir('again')
    k = Kit(ctx, env, fmt)
    keys = []
    for i, b in enumerate(before):
        ctx.guard(env.fs.sif2hdf5, FILES[b](k), 'db.h5', append=i > 0)
        keys += KEYS[b]
    was = contents(ctx, env, 'db.h5', keys, 'before') if before else {}
    name = (FAIL[bad] if bad in FAIL else AGAIN[bad][1])(k)
    way = ctx.pick('way', ('append', 'list', 'only', 'new session'))
    if way == 'new session':
        env.new_session()
    good = None
    if way == 'list':       # the first file of the list is converted, the second one fails
        good = after
        got = convert(env, [FILES[after](k), name, 'T99.FEM'], 'db.h5', append=bool(before) or ctx.flag('append'))
        keys = keys + KEYS[after]
    elif way == 'only' and bad in ('breaks_off', 'struct_again', 'hydro_again'):
        got = convert(env, name, 'db.h5', append=True,
                      only=['IDENT'] * ctx.flag('IDENT too') + ['GCOORD', 'GUNIVEC', 'GNODE', 'WBODY'])
    else:
        got = convert(env, name, 'db.h5', append=True)
    ctx.check(got is not None, '%s: no exception' % bad)
    if way == 'list':
        now = contents(ctx, env, 'db.h5', keys, 'after the failure')
        compare(ctx, {p: v for p, v in now.items() if p.split('/')[1].split(':')[0] not in
                      [x.split('/')[0] for x in KEYS[after]]}, was, 'after the failure')
    else:
        now = contents(ctx, env, 'db.h5', keys, 'after the failure')
        compare(ctx, now, was, 'after the failure')
        good = FILES[after](k)
        ctx.guard(env.fs.sif2hdf5, good, 'db.h5', append=True)
        keys = keys + KEYS[after]
    end = contents(ctx, env, 'db.h5', keys, 'after another conversion')
    env.new_session()
    k2 = Kit(ctx, env, fmt)
    ctx.guard(env.fs.sif2hdf5, {'hydro': 'G1.SIF', 'grid': 'g_R2.SIU', 'hresults': 'h_R3.SIU',
                                'struct2': 's2_T4.FEM'}[after], 'ref.h5')
    h = env.h5('ref.h5')
    ref = dump(h)
    h.close()
    ref.update(was)
    compare(ctx, end, ref, 'after another conversion')


def overwritten(ctx, env, bad, fmt):
    """a conversion that is to replace the database: no part of it is left"""
    k = Kit(ctx, env, fmt)
    ctx.guard(env.fs.sif2hdf5, FILES['struct'](k), 'db.h5')
    name = FAIL[bad](k)
    got = convert(env, name, 'db.h5')
    ctx.check(got is not None, '%s: no exception' % bad)
    f = ctx.guard(env.fs.open_hdf5, 'db.h5')
    ctx.check(set(f.keys()) <= set(['T1']), 'data sets %r' % (sorted(f.keys()),))
    ctx.guard(f.close)
    ctx.guard(env.fs.sif2hdf5, FILES['hydro'](k), 'db.h5')
    contents(ctx, env, 'db.h5', ['G1'], 'after another conversion')


def opening(ctx, env, fmt):
    """a file that cannot be opened as a database is not kept open"""
    k = Kit(ctx, env, fmt)
    kind = ctx.pick('kind', ('foreign group', 'unknown level'))
    name = FILES['struct'](k)
    ctx.guard(env.fs.sif2hdf5, name, 'db.h5')
    h = env.h5('db.h5', 'a')
    if kind == 'foreign group':
        h.create_group('/', 'other')
    else:
        h.get_node('/T1')._f_delattr('LEVEL')
    h.close()
    try:
        env.fs.open_hdf5('db.h5').close()
    except Exception:
        pass
    ctx.guard(env.fs.sif2hdf5, name, 'db.h5')
    contents(ctx, env, 'db.h5', ['T1'], 'after another conversion')


def instances(tier):
    out = []
    full = tier == 'thorough'
    bases = [(), ('struct',), ('hinput', 'struct2')] + ([('hresults',), ('results', 'struct')] if full else [])
    for fmt in 'FU':
        for bad in FAIL:
            for before in bases:
                for after in ('hydro', 'grid') if full else ('hydro',):
                    out.append(Instance('%s>%s>%s/%s' % ('+'.join(before) or 'empty', bad, after, fmt), history,
                                        before=before, bad=bad, after=after, fmt=fmt,
                                        weight=20 if 'off' in bad else 4, bounds='%d data sets' % len(before)))
            out.append(Instance('overwritten/%s/%s' % (bad, fmt), overwritten, bad=bad, fmt=fmt, weight=3,
                                bounds='one data set'))
        for bad, (b, _) in AGAIN.items():
            for before in ((b,), ('struct2', b)) if full else ((b,),):
                out.append(Instance('%s>%s/%s' % ('+'.join(before), bad, fmt), history, before=before, bad=bad,
                                    after='grid', fmt=fmt, weight=4, bounds='%d data sets' % len(before)))
    out.append(Instance('opening', opening, fmt='U', bounds='one data set'))
    return out
