"""C01: every field of a record of fixed layout arrives in its column"""
from ..harness import Instance
from ..sifgen import SifFile
from . import spec

CHUNKS = (32, 4, 7, 1)


def records(ctx, env, rec, layout, fmt):
    """runs of `name` records separated by other records"""
    s = SifFile(fmt)
    if fmt == 'F':
        s.pad = ctx.flag('pad')
    else:
        s.chunk = ctx.pick('chunk', CHUNKS) if rec in spec.FIXED2 or rec.startswith('W') else 32
    s.ident(1)
    s.date()
    recs, sep = [], []
    for i, part in enumerate(layout):
        if part == 's':
            g = spec.build(ctx, env, 'GUNIVEC' if rec != 'GUNIVEC' else 'GECCEN', 'sep%d' % i)
            g.emit(s)
            sep.append(g)
        else:
            r = spec.build(ctx, env, rec, 'r%d' % i)
            r.emit(s)
            recs.append(r)
    s.end()
    s.write('T1.FEM')
    ctx.guard(env.fs.sif2hdf5, 'T1.FEM', 'out.h5')
    h = env.h5('out.h5')
    spec.check_table(ctx, h, '/T1', rec, recs)
    if sep:
        spec.check_table(ctx, h, '/T1', sep[0].name, sep, 'after %s: ' % rec)
    h.close()


def instances(tier):
    out = []
    layouts = ['r', 'rs', 'rsr'] if tier == 'quick' else ['r', 'rs', 'rsr', 'rrs', 'rrr', 'rrsrs', 'srrrrs']
    for name in spec.FIXED:
        for fmt in 'FU':
            for lay in layouts:
                out.append(Instance('%s/%s/%s' % (name, fmt, lay), records, rec=name, layout=lay,
                                    fmt=fmt, weight=len(lay), validate=1 if lay == 'rsr' else 0,
                                    bounds='record sequence %s, all fields symbolic' % lay))
    return out
