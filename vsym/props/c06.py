"""C06: what FormattedFile writes is a valid formatted file with the same contents;
reading numbers in pieces of any size gives the same numbers"""
from ..harness import Instance
from ..sifgen import SifFile
from .. import tok
from . import spec

OUTSIDE = 'more than 4 write calls per file, more than 9 numbers per call'


def _num(text):
    v = tok.from_text(text)
    return float(text) if v is None else v


def _ops(ctx, k, sizes):
    """sequence of write calls and what the file has to hold"""
    out = []
    for i in range(k):
        kinds = ('record', 'floats', 'string', 'end')
        kind = ctx.pick('op%d' % i, kinds[:1] if i == 0 else kinds)
        if kind == 'end':
            break
        n = ctx.pick('n%d' % i, sizes) if kind != 'string' else 0
        v = spec._reals(ctx, 'v%d' % i, n)
        out.append((kind, 'GNODE' if i % 2 else 'RVNODDIS', v, 'text number %d' % i))
    return out


def _expected(ops):
    """list of ('line', name, values) and ('text', string)"""
    out = []
    cur = None          # values of the record being written

    def flush():
        if cur is not None:
            name, vals = cur
            for i in range(0, max(1, len(vals)), 4):
                out.append(('line', name if i == 0 else '', vals[i:i + 4]))
    for kind, name, v, text in ops:
        if kind == 'record':
            flush()
            cur = (name, list(v))
        elif kind == 'floats':
            if cur is None:
                cur = ('', [])
            cur = (cur[0], cur[1] + v)
            if not cur[1]:
                cur = None if cur[0] == '' else cur
        else:
            flush()
            cur = None
            out.append(('text', text))
    flush()
    return out


def writing(ctx, env, k, sizes):
    env.fs
    FF = env.module('sequentialparser.sequentialfiles').FormattedFile
    ops = _ops(ctx, k, sizes)
    f = ctx.guard(FF, 'out.FEM', 'w')
    for kind, name, v, text in ops:
        if kind == 'record':
            ctx.guard(f.write_record, name, v)
        elif kind == 'floats':
            ctx.guard(f.write_floats, v)
        else:
            ctx.guard(f.write_string, text)
    ctx.guard(f.close)
    with open('out.FEM') as g:
        lines = g.read().split('\n')
    if lines and lines[-1] == '':
        lines.pop()
    exp = _expected(ops)
    ctx.check(len(lines) == len(exp), '%d lines written, expected %d' % (len(lines), len(exp)))
    for i, (ln, e) in enumerate(zip(lines, exp)):
        if e[0] == 'text':
            ctx.check(ln == ' ' * 8 + e[1], 'line %d is %r' % (i, ln))
            continue
        ctx.check(ln[:8] == '{:<8}'.format(e[1]), 'line %d starts %r, expected %r' % (i, ln[:8], e[1]))
        ctx.check(len(ln) == 8 + 16 * len(e[2]), 'line %d has %d characters' % (i, len(ln)))
        if len(ln) == 8 + 16 * len(e[2]):
            for j, v in enumerate(e[2]):
                ctx.check(ctx.eq(_num(ln[8 + 16 * j:24 + 16 * j]), v), 'line %d number %d' % (i, j))


def roundtrip(ctx, env, n1, n2):
    """written records are read back by the converter's file class"""
    env.fs
    FF = env.module('sequentialparser.sequentialfiles').FormattedFile
    f = ctx.guard(FF, 'out.FEM', 'w')
    a, b = spec._reals(ctx, 'a', n1), spec._reals(ctx, 'b', n2)
    more = spec._reals(ctx, 'm', ctx.choice('more', 0, 5))
    ctx.guard(f.write_record, 'WGRESPON', a)
    if ctx.flag('empty'):
        ctx.guard(f.write_floats, [])
    ctx.guard(f.write_floats, more)
    ctx.guard(f.write_record, 'GNODE', b)
    ctx.guard(f.write_string, 'some text')
    ctx.guard(f.write_record, 'IEND', [0., 0., 0., 0.])
    ctx.guard(f.close)
    g = ctx.guard(FF, 'out.FEM')
    for name, v in (('WGRESPON', a + more), ('GNODE', b)):
        nm, head = ctx.guard(g.read_headerrec)
        ctx.check(nm == name, 'record name %r, expected %r' % (nm, name))
        ctx.same(list(head), v[:4], name)
        rest = ctx.guard(g.read_floats, len(v[4:]))
        ctx.same(list(rest), v[4:], name + ' continued')
    ctx.check(ctx.guard(g.read_stringrec).strip() == 'some text', 'text line')
    nm, head = ctx.guard(g.read_headerrec)
    ctx.check(nm == 'IEND', 'record name %r, expected IEND' % nm)
    ctx.guard(g.close)


def pieces(ctx, env, fmt, n, chunk):
    """read_floats(n) for any division of a record into pieces"""
    s = SifFile(fmt)
    s.chunk = chunk
    s.pad = False
    v = spec._reals(ctx, 'v', n)
    s.t2('RVNODDIS', [n] + v)
    w = spec._reals(ctx, 'w', 4)
    s.t2('GNODE', w)
    s.end()
    s.write('f')
    env.fs
    m = env.module('sequentialparser.sequentialfiles')
    f = ctx.guard(m.FormattedFile if fmt == 'F' else m.UnformattedFile, 'f')
    nm, head = ctx.guard(f.read_headerrec)
    got = list(head)[1:]
    ctx.check(nm == 'RVNODDIS', 'record name %r' % nm)
    i = 0
    while len(got) < n:
        left = n - len(got)
        k = ctx.choice('k%d' % i, 0 if i == 0 else 1, left)
        r = ctx.guard(f.read_floats, k)
        ctx.check(len(r) == k, 'read_floats(%d) returned %d numbers' % (k, len(r)))
        got += list(r)
        i += 1
    ctx.same(got, v, 'numbers of the record')
    nm, head = ctx.guard(f.read_headerrec)
    ctx.check(nm == 'GNODE', 'record name %r' % nm)
    ctx.same(list(head), w, 'following record')
    ctx.guard(f.close)


def instances(tier):
    out = []
    q = tier == 'quick'
    out.append(Instance('writing/3', writing, k=3, sizes=(0, 1, 3, 4, 5, 8, 9) if not q else (0, 1, 4, 5, 9),
                        weight=500, bounds='up to 3 write calls'))
    out.append(Instance('writing/2', writing, k=2, sizes=range(0, 13), weight=100,
                        bounds='up to 2 write calls of 0 to 12 numbers'))
    out.append(Instance('writing/4', writing, k=4, sizes=(1, 3, 6) if q else (1, 2, 3, 4, 6, 8), weight=500,
                        max_paths=200000, bounds='up to 4 write calls'))
    for n1 in (4, 5, 7, 8, 12):
        for n2 in (4, 6):
            out.append(Instance('roundtrip/%d/%d' % (n1, n2), roundtrip, n1=n1, n2=n2))
    for fmt in 'FU':
        for n in (5, 7, 8, 9, 11) if q else (4, 5, 6, 7, 8, 9, 10, 11, 12, 13):
            for chunk in ((32, 4, 3, 2) if fmt == 'U' else (4,)):
                out.append(Instance('pieces/%s/%d/%d' % (fmt, n, chunk), pieces, fmt=fmt, n=n, chunk=chunk,
                                    weight=2 ** n, max_paths=200000,
                                    bounds='record of %d numbers read in every possible division' % n))
    return out
