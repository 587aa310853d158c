"""C27: a file that breaks off is not taken for a whole one"""
from ..harness import Instance
from ..sifgen import SifFile
from . import spec
from .c03 import TYPE1, TYPE2
from .c08 import compare, dump
from .hier import emit_hierarch, tree

OUTSIDE = 'which exception is raised; breaking off within the IEND record (nothing is missing then) and in files that ' \
          'consist of several parts, each with its IEND record; the value of the number within which a formatted file ' \
          'breaks off (one of three is written); more than 2 records before the break'

ANY = ('Exception',)

# what stands in the columns of the number within which a formatted file breaks off
BROKEN = ('  1.25000000E+01', ' -5.00000000E+00', '  0.00000000E+00')


def _numeric(line):
    """are there nothing but numbers from column 8 on?"""
    try:
        body = line[8:].decode('ascii').rstrip('\n')
    except UnicodeDecodeError:
        return False
    for i in range(0, len(body), 16):
        f = body[i:i + 16].strip()
        if '@S' in f:
            continue
        try:
            float(f)
        except ValueError:
            return False
    return bool(body)


# places within a line or block (all of them in the thorough tier)
PLACES = {'F': (0, 1, 4, 8, 12, 23, 24, 25, 40, 53, 56, 69, 71), 'U': (0, 1, 3, 8, 9, 11, 13, 16, 25)}


def broken(ctx, env, s, first):
    """-> bytes of the file s broken off somewhere from its part number `first` on (in the last part: within its name)"""
    out = list(s.out)
    part = ctx.choice('part', first, len(out) - 1)
    line = out[part]
    n = len(line) if part < len(out) - 1 else 9
    if env.tier == 'quick':
        at = ctx.pick('byte', sorted(set([i for i in PLACES[s.fmt] if i < n] + [n - 1])))
    else:
        at = ctx.choice('byte', 0, n - 1)
    if s.fmt == 'F' and at > 8 and (at - 8) % 16 and _numeric(line):
        k = 8 + (at - 8) // 16 * 16
        text = ctx.pick('number', BROKEN).encode()
        line = line[:k] + text[:len(line) - 1 - k] + line[k + 16:]
    return (b'K' if s.fmt == 'U' else b'') + b''.join(out[:part]) + line[:at]


def put(name, data):
    with open(name, 'wb') as f:
        f.write(data)


def refuse(ctx, env, name, only=None, ways=True):
    how = ctx.pick('conversion', ('file', 'in memory', 'open_sif')) if only is None and ways else 'file'
    if how == 'file':
        ctx.raises(ANY, env.fs.sif2hdf5, name, 'out.h5', only=only)
    elif how == 'in memory':
        ctx.raises(ANY, env.fs.sif2hdf5, name, in_memory=True)
    else:
        ctx.raises(ANY, env.fs.open_sif, name)


def record(ctx, env, kind, name):
    """-> functions that write a record and those it needs"""
    if kind == 'read':
        r = spec.build(ctx, env, name, 'x', **(dict(small=True) if name in ('RDPOINTS', 'GELREF1') else {}))
        return [p.emit for p in list(getattr(r, 'pre', [])) + [r]]
    if kind == 't1':
        v = [ctx.pick('first', (1., 7.))] + [ctx.real('x%d' % i) for i in range(5)]
        return [lambda s: s.t1(name, v)]
    if kind == 't2':
        n = ctx.pick('nfield', (5, 38))
        v = [n] + [ctx.real('x%d' % i) for i in range(n - 1)]
        return [lambda s: s.t2(name, v)]
    if kind == 'td':
        nam, txt = ctx.pick('name', ('SET1', None)), ['abc'] * ctx.choice('ntext', 0, 1)
        return [lambda s: s.td(name, 4, nam, txt)]
    first = ctx.pick('first', (-1., -5.))
    v = [ctx.real('x%d' % i) for i in range(7)]

    def neg(s):
        s.header(name, [first] + v[:3])
        if first == -5.:
            s.cont(v[3:])
    return [neg]


def breaks(ctx, env, kind, rec, fmt, count):
    """the file breaks off in or after a record of each kind"""
    s = SifFile(fmt)
    if fmt == 'U':
        s.chunk = ctx.pick('chunk', (32, 3)) if kind == 't2' else 32
    s.ident(1)
    first = len(s.out)
    r = spec.build(ctx, None, 'GCOORD', 'node')
    r.emit(s)
    for _ in range(count):
        for w in record(ctx, env, kind, rec):
            first = len(s.out)
            w(s)
    s.end()
    # (records without number of fields are skipped in kind t1)
    only = ['IDENT', 'GCOORD'] if (kind != 'read' or rec in COUNTED) and ctx.flag('only') else None
    put('T1.FEM', broken(ctx, env, s, first))
    refuse(ctx, env, 'T1.FEM', only, env.tier != 'quick' or rec in ('GCOORD', 'GNODE', 'WGRESPON'))


def start(ctx, env, fmt):
    """the file breaks off in its first records"""
    s = SifFile(fmt)
    s.date()
    s.ident(1)
    spec.build(ctx, None, 'GCOORD', 'node').emit(s)
    s.end()
    put('T1.FEM', broken(ctx, env, s, 0))
    refuse(ctx, env, 'T1.FEM')
    put('T1.FEM', b'')
    ctx.raises(ANY, env.fs.sif2hdf5, 'T1.FEM', 'out.h5')


def lower(ctx, env, letter, fmt):
    """a file of the hierarchy below the one that is converted"""
    rows = tree('two')
    ext = 'FEM' if letter == 'T' else 'SIU'
    files = []
    s = SifFile(fmt)
    emit_hierarch(s, rows)
    s.ident(3)
    spec.build(ctx, None, 'GCOORD', 'top').emit(s)
    s.end()
    files.append((letter + '3.' + ext, s))
    for no, r in enumerate(rows, 1):
        if r.level != 1 or letter == 'T' and r.index != 1:
            continue
        s = SifFile(fmt)
        s.ident(r.sel)
        spec.build(ctx, None, 'GCOORD', 'sub%d' % no).emit(s)
        s.end()
        files.append(('%s%d%s.%s' % (letter, r.sel, 'H%d' % no if letter == 'R' else '', ext), s))
    at = ctx.choice('file', 0, len(files) - 1)
    for k, (n, s) in enumerate(files):
        if k == at:
            where = ctx.pick('where', ('nothing', 'first byte', 'start', 'end'))
            put(n, b'' if where == 'nothing' else (b'K' if fmt == 'U' else b'I') if where == 'first byte' else
                broken(ctx, env, s, 0 if where == 'start' else max(0, len(s.out) - 2)))
        else:
            s.write(n)
    refuse(ctx, env, files[0][0])
    # and with the file made whole
    files[at][1].write(files[at][0])
    ctx.guard(env.fs.sif2hdf5, files[0][0], 'out.h5')
    f = ctx.guard(env.fs.open_hdf5, 'out.h5')
    ctx.check(len(list(f.keys())) == len(files), 'data sets %r' % (sorted(f.keys()),))
    ctx.guard(f.close)


def whole(ctx, env, kind, rec, letter):
    """however the last IEND record is written, formatted and unformatted"""
    last = ctx.choice('IEND', 0, 2)
    full = ctx.flag('four numbers')
    newline = ctx.flag('new line at the end')
    middle = ctx.flag('middle')
    node = spec.build(ctx, env, 'GCOORD', 'node')
    writers = record(ctx, env, kind, rec)
    d = []
    for fmt in 'FU':
        s = SifFile(fmt)
        s.ident(1)
        node.emit(s)
        if middle:
            s.header('IEND', [1., 0., 0., 0.])
        for w in writers:
            w(s)
        s.header('IEND', [float(last)] + [0.] * (3 if full else 0))
        data = b''.join(s.out)
        n = letter + '1.' + {'T': 'FEM', 'R': 'SIU', 'G': 'SIF'}[letter]
        put(n, (b'K' + data) if fmt == 'U' else data if newline else data[:-1])
        ctx.guard(env.fs.sif2hdf5, n, fmt + '.h5')
        h = env.h5(fmt + '.h5')
        spec.check_table(ctx, h, '/%s1' % letter, 'GCOORD', [node])
        d.append(dump(h))
        h.close()
    compare(ctx, d[0], d[1], 'formatted and unformatted')


COUNTED = ('RVNODDIS', 'RDRESREF', 'W1MATRIX', 'TDSETNAM', 'WBODY', 'GSETMEMB')
READ = ['GNODE', 'GCOORD', 'GBEAMG', 'GELMNT1', 'GSETMEMB', 'RVNODDIS', 'RDRESREF', 'BNBCD', 'W1MATRIX', 'TDSETNAM',
        'DATE', 'RDPOINTS', 'WBODY', 'RDSTRESS', 'SCONCEPT']
MORE = ['BRIGAC', 'GPIPE', 'GIORHR', 'BLDEP', 'BEUSLO', 'HSUPTRAN', 'WDRESREF', 'WBODCON', 'TEXT', 'TDLOAD', 'GELMNT2',
        'MISOSEL', 'WSECTION', 'SCONMESH', 'W2MDRIFT', 'GUNIVEC', 'GELTH', 'TDMATER']


def instances(tier):
    out = []
    full = tier == 'thorough'
    kinds = [('read', n) for n in READ + (MORE if full else [])] + \
        [('t1', n) for n in TYPE1[:None if full else 1]] + [('t2', n) for n in TYPE2[:None if full else 1]] + \
        [('neg', 'GNODE'), ('td', 'TDSERIES')]
    for fmt in 'FU':
        for kind, name in kinds:
            out.append(Instance('breaks/%s/%s/%s' % (kind, name, fmt), breaks, kind=kind, rec=name, fmt=fmt, count=1,
                                weight=20 if fmt == 'F' else 5, bounds='one record after another'))
        out.append(Instance('start/' + fmt, start, fmt=fmt, weight=10, bounds='-'))
        for letter in 'TR':
            out.append(Instance('lower/%s/%s' % (letter, fmt), lower, letter=letter, fmt=fmt, weight=15,
                                bounds='a hierarchy of two levels'))
    for kind, name, letter in (('read', 'GELMNT1', 'T'), ('read', 'RVNODDIS', 'R'), ('read', 'W1MATRIX', 'G'),
                               ('t2', 'WGRESPON', 'G'), ('td', 'TDSERIES', 'R'), ('t1', 'BNLOAD', 'T')):
        out.append(Instance('whole/%s/%s' % (name, letter), whole, kind=kind, rec=name, letter=letter, weight=4,
                            bounds='one record'))
    return out
