"""C18: VTU files hold the given geometry and data"""
import base64
import struct
import xml.etree.ElementTree as ET

import numpy as np

from .. import tok
from ..harness import Instance

OUTSIDE = ('pieces without cells; more than two pieces; '
           'reading by VTK itself; numbers of 1 and 2 byte integer arrays are not symbolic')
ASSUMPTIONS = ['the XML parser and base64 decoder of the Python standard library',
               'node orders: cells of types 23 and 28 go from around-the-edge order to corners first, '
               'cell-point data of type 26 likewise; every other order is kept']

NNOD = {15: 2, 23: 3, 24: 4, 25: 3, 26: 6, 28: 8}
VTK = {15: 3, 23: 21, 24: 9, 25: 5, 26: 22, 28: 23}
CORNERS_FIRST = (23, 28)        # connectivity
DATA_CORNERS_FIRST = (26,)      # cell point data

DTYPES = {'Int8': 'i1', 'UInt8': 'u1', 'Int16': 'i2', 'UInt16': 'u2', 'Int32': 'i4', 'UInt32': 'u4',
          'Int64': 'i8', 'UInt64': 'u8', 'Float32': 'f4', 'Float64': 'f8'}


def corners_first(v):
    return v[0::2] + v[1::2]


def values(ctx, tag, n, dt):
    """n numbers for an array of type dt"""
    k = np.dtype(dt)
    if k.kind == 'f':
        return [ctx.real('%s.%d' % (tag, i)) for i in range(n)]
    if k.itemsize >= 4:
        return [ctx.int('%s.%d' % (tag, i), 0, 1 << 24) for i in range(n)]
    return [(7 * i + 3) % 120 - (60 if k.kind == 'i' else 0) for i in range(n)]


def rows(v, m):
    return [v[i:i + m] for i in range(0, len(v), m)]


class Cells(object):
    def __init__(self, ctx, env, tag, types, dts=('i4', 'i4', 'i4'), npoints=2, pdt='f4'):
        self.types = list(types)
        self.con = [values(ctx, '%s.c%d' % (tag, i), NNOD[t], dts[0]) for i, t in enumerate(types)]
        self.off = []
        n = 0
        for c in self.con:
            n += len(c)
            self.off.append(n)
        self.ncon = n
        self.xyz = values(ctx, tag + '.xyz', 3 * npoints, pdt)
        self.points = env.typed(rows(self.xyz, 3), pdt)
        self.flat = [x for c in self.con for x in c]
        self.cells = (env.typed(self.flat, dts[0]), np.array(self.off, dts[1]), np.array(types, dts[2]))

    def vtk_con(self):
        return [x for t, c in zip(self.types, self.con)
                for x in (corners_first(c) if t in CORNERS_FIRST else c)]

    def reordered(self, rws):
        """cell point data in VTK order"""
        out, a = [], 0
        for t, b in zip(self.types, self.off):
            r = rws[a:b]
            out += corners_first(r) if t in DATA_CORNERS_FIRST else r
            a = b
        return out + rws[a:]

    def unchanged(self, ctx):
        ctx.same(self.cells[0], self.flat, 'connectivity array of the caller after the call')
        ctx.same(self.cells[1], self.off, 'offsets of the caller after the call')
        ctx.same(self.cells[2], self.types, 'types of the caller after the call')
        ctx.same(self.points, rows(self.xyz, 3), 'points of the caller after the call')


class Data(object):
    """a data array: rows of ncomp values (ncomp None: one-dimensional)"""

    def __init__(self, ctx, env, tag, n, ncomp, dt='f4', layout='C', comps=None, title=None):
        m = ncomp or 1
        self.title = title or tag
        self.comps = comps
        self.dt = np.dtype(dt)
        self.ncomp = ncomp
        self.flat = values(ctx, tag, n * m, dt)
        self.nested = rows(self.flat, m) if ncomp else list(self.flat)
        nest = self.nested
        if layout == 'F' and ncomp:           # transposed view
            nest = [[self.nested[i][j] for i in range(n)] for j in range(m)]
            self.arr = env.typed(nest, dt).T
        elif layout == 'strided':             # every second row
            z = [0] * m if ncomp else 0
            nest = [x for r in self.nested for x in (r, z)]
            self.arr = env.typed(nest, dt)[::2]
        elif layout == 'reversed':
            self.arr = env.typed(self.nested[::-1], dt)[::-1]
        elif layout == 'columns' and ncomp:   # some columns of a wider array
            self.arr = env.typed([[0] + r + [0] for r in self.nested], dt)[:, 1:-1]
        else:
            self.arr = env.typed(nest, dt)
        assert tuple(self.arr.shape) == ((n, m) if ncomp else (n,))

    def expect(self, cells=None):
        r = cells.reordered(self.nested) if cells else self.nested
        flat = [x for q in r for x in q] if self.ncomp else r
        return ('Data', self.title, self.dt, self.ncomp or 1, flat, self.comps or [])

    def unchanged(self, ctx):
        ctx.same(self.arr, self.nested, 'data array of the caller after the call')


# -- reading the file ------------------------------------------------------------

def parse(ctx, fname):
    try:
        root = ET.parse(fname).getroot()
    except ET.ParseError as e:
        ctx.fail('file is not well-formed XML: %s' % e)
    ctx.check(root.tag == 'VTKFile' and root.get('type') == 'UnstructuredGrid',
              'root element %s %r' % (root.tag, root.attrib))
    ctx.check(root.get('byte_order') == 'LittleEndian', 'byte order %r' % root.get('byte_order'))
    head = {'UInt64': '<Q', 'UInt32': '<I'}.get(root.get('header_type', 'UInt32'))
    ctx.check(head is not None and root.get('compressor') is None, 'header type %r' % root.attrib)
    ctx.check([e.tag for e in root] == ['UnstructuredGrid'], 'children of the root: %r' % [e.tag for e in root])
    out = []
    for p in root[0]:
        ctx.check(p.tag == 'Piece', 'element %s in UnstructuredGrid' % p.tag)
        out.append((p, head))
    return out


def decode(ctx, e, head):
    """DataArray -> (name, dtype, ncomp, values, component names)"""
    ctx.check(e.tag == 'DataArray' and e.get('format') == 'binary', 'element %s %r' % (e.tag, e.attrib))
    ctx.check(e.get('type') in DTYPES, 'array type %r' % e.get('type'))
    dt = np.dtype(DTYPES[e.get('type')])
    txt = ''.join((e.text or '').split())
    try:
        raw = base64.b64decode(txt, validate=True)
    except Exception as x:
        ctx.fail('array %r is not base64: %s' % (e.get('Name'), x))
    k = struct.calcsize(head)
    ctx.check(len(raw) >= k, 'array %r has no header' % e.get('Name'))
    n = struct.unpack(head, raw[:k])[0]
    ctx.check(len(raw) - k == n and n % dt.itemsize == 0,
              'array %r: header says %d bytes, there are %d' % (e.get('Name'), n, len(raw) - k))
    comps = []
    while e.get('ComponentName%d' % len(comps)) is not None:
        comps.append(e.get('ComponentName%d' % len(comps)))
    return e.get('Name'), dt, int(e.get('NumberOfComponents', '1')), tok.decode(raw[k:], dt), comps


def check_array(ctx, got, exp, what):
    name, dt, nc, vals, comps = exp
    ctx.check(got[0] == name, '%s: name %r, expected %r' % (what, got[0], name))
    if dt is not None:
        ctx.check(got[1] == dt.newbyteorder('='), '%s: type %s, expected %s' % (what, got[1], dt))
    ctx.check(got[2] == nc, '%s: %d components, expected %d' % (what, got[2], nc))
    ctx.check(list(got[4]) == list(comps), '%s: component names %r, expected %r' % (what, got[4], comps))
    ctx.same(got[3], vals, what)


def check_file(ctx, fname, pieces):
    """pieces: (Cells, [(section, [data expectations])])"""
    got = parse(ctx, fname)
    ctx.check(len(got) == len(pieces), '%d pieces, expected %d' % (len(got), len(pieces)))
    for n, ((e, head), (c, blocks)) in enumerate(zip(got, pieces)):
        w = 'piece %d ' % n
        ctx.check(e.get('NumberOfPoints') == str(len(c.xyz) // 3) and
                  e.get('NumberOfCells') == str(len(c.types)), w + 'sizes %r' % e.attrib)
        kids = {}
        for k in e:
            kids.setdefault(k.tag, []).append(k)
        ctx.check(set(kids) <= {'Points', 'Cells', 'PointData', 'CellData'} and
                  len(kids.get('Points', ())) == len(kids.get('Cells', ())) == 1,
                  w + 'has elements %r' % [k.tag for k in e])
        pts = [decode(ctx, x, head) for x in kids['Points'][0]]
        ctx.check(len(pts) == 1, w + '%d point arrays' % len(pts))
        check_array(ctx, pts[0], (pts[0][0], c.points.dtype, 3, c.xyz, []), w + 'points')
        cl = {}
        for x in kids['Cells'][0]:
            d = decode(ctx, x, head)
            ctx.check(d[0] not in cl, w + 'array %r twice' % d[0])
            cl[d[0]] = d
        ctx.check(sorted(cl) == ['connectivity', 'offsets', 'types'], w + 'cell arrays %r' % sorted(cl))
        for nm, v in (('connectivity', c.vtk_con()), ('offsets', c.off),
                      ('types', [VTK[t] for t in c.types])):
            check_array(ctx, cl[nm], (nm, None, 1, v, []), w + nm)
        sec = [(k.tag, [decode(ctx, x, head) for x in k]) for k in e if k.tag in ('PointData', 'CellData')]
        for tag in ('PointData', 'CellData'):
            g = [d for t, ds in sec if t == tag for d in ds]
            x = [d for t, ds in blocks if t == tag for d in ds]
            ctx.check([d[0] for d in g] == [d[1] for d in x], w + '%s has arrays %r, expected %r' % (
                tag, [d[0] for d in g], [d[1] for d in x]))
            for a, b in zip(g, x):
                check_array(ctx, a, b[1:], w + '%s array %r' % (tag, b[1]))


def writer(ctx, env, fname):
    return ctx.guard(env.module('utils').VtuWriter, fname)


# -- instances -------------------------------------------------------------------

def geometry(ctx, env, n, idt, pdt):
    types = [ctx.pick('type%d' % i, sorted(NNOD)) for i in range(n)]
    c = Cells(ctx, env, 'g', types, dts=(idt, idt, idt), pdt=pdt, npoints=n + 1)
    v = writer(ctx, env, 'a.vtu')
    ctx.guard(v.new_piece, c.points, c.cells)
    c.unchanged(ctx)
    ctx.guard(v.close)
    check_file(ctx, 'a.vtu', [(c, [])])
    # the same model in another file: every file has its own, complete, contents
    v = writer(ctx, env, 'b.vtu')
    ctx.guard(v.new_piece, c.points, c.cells)
    ctx.guard(v.close)
    check_file(ctx, 'b.vtu', [(c, [])])
    check_file(ctx, 'a.vtu', [(c, [])])


NAMES = ('displacement', 'von Mises <top> & "low"', "x'y", 'GENERAL STRESS', 'Δσ é')
COMPS = (None, 'plain', 'special')


LABELS = tuple(zip((None, 'plain', 'special', None, None), NAMES))


def data(ctx, env, dt, full):
    c = Cells(ctx, env, 'g', [ctx.pick('type', (24, 26))])
    where = ctx.pick('section', ('PointData', 'CellData'))
    nc = ctx.pick('ncomp', (None, 1, 2, 3))
    lay = ctx.pick('layout', ('C', 'F', 'strided', 'reversed', 'columns'))
    ck, title = ctx.pick('names', LABELS if not full else [(c, t) for c in COMPS for t in NAMES])
    comps = None if ck is None else [
        'C%d' % i if ck == 'plain' else 'a<%d & "b"' % i for i in range(nc or 1)]
    n = ctx.pick('rows', (1, 2))
    d = Data(ctx, env, 'd', n, nc, dt, lay, comps, title)
    v = writer(ctx, env, 'a.vtu')
    ctx.guard(v.new_piece, c.points, c.cells)
    ctx.guard(v.start_pointdata if where == 'PointData' else v.start_celldata)
    if comps is None:
        ctx.guard(v.add_data, d.arr, d.title)
    else:
        ctx.guard(v.add_data, d.arr, d.title, comps)
    d.unchanged(ctx)
    ctx.guard(v.close)
    check_file(ctx, 'a.vtu', [(c, [(where, [d.expect()])])])


def cellpoints(ctx, env, n, ncomp):
    types = [ctx.pick('type%d' % i, sorted(NNOD)) for i in range(n)]
    c = Cells(ctx, env, 'g', types)
    where = ctx.pick('section', ('PointData', 'CellData'))
    d = Data(ctx, env, 'd', c.ncon, ncomp)
    v = writer(ctx, env, 'a.vtu')
    ctx.guard(v.new_piece, c.points, c.cells)
    ctx.guard(v.start_pointdata if where == 'PointData' else v.start_celldata)
    ctx.guard(v.add_data_cellpoints, d.arr, 'res', ['C%d' % i for i in range(ncomp)] if ncomp else None)
    d.unchanged(ctx)
    ctx.guard(v.add_data_cellpoints, d.arr, 'again')
    d.unchanged(ctx)
    c.unchanged(ctx)
    ctx.guard(v.close)
    e1 = list(d.expect(c))
    e1[1] = 'res'
    e1[5] = ['C%d' % i for i in range(ncomp)] if ncomp else []
    e2 = list(d.expect(c))
    e2[1] = 'again'
    check_file(ctx, 'a.vtu', [(c, [(where, [tuple(e1), tuple(e2)])])])


SETS = ((28,), (26, 24), (23, 26, 15), (25,))
BLOCKS = ((), ('P',), ('C',), ('P', 'C'), ('C', 'P'))


def pieces(ctx, env, share):
    v = writer(ctx, env, 'a.vtu')
    exp = []
    cs = []
    for p in range(2):
        if p and share:
            c = cs[0]
        else:
            c = Cells(ctx, env, 'p%d' % p, ctx.pick('types%d' % p, SETS), npoints=1 + p)
        cs.append(c)
        ctx.guard(v.new_piece, c.points, c.cells)
        bl = []
        for b in ctx.pick('blocks%d' % p, BLOCKS):
            ctx.guard(v.start_pointdata if b == 'P' else v.start_celldata)
            ds = []
            for k in range(ctx.choice('n%d%s' % (p, b), 1, 2)):
                d = Data(ctx, env, 'd%d%s%d' % (p, b, k), c.ncon if k else 2, (None, 3)[k])
                ctx.guard(v.add_data_cellpoints if k else v.add_data, d.arr, d.title)
                ds.append(d.expect(c if k else None))
                d.unchanged(ctx)
            bl.append((dict(P='PointData', C='CellData')[b], ds))
        exp.append((c, bl))
    ctx.guard(v.close)
    for c in cs:
        c.unchanged(ctx)
    check_file(ctx, 'a.vtu', exp)


OPS = ('piece', 'pointdata', 'celldata', 'add', 'cellpoints', 'refused')


def history(ctx, env, first, n):
    """any sequence of calls: those out of order are refused with VtkError and
    leave no trace, the file holds what was accepted"""
    v = writer(ctx, env, 'a.vtu')
    exp, sec, cur = [], None, None
    for k in range(n):
        op = first if k == 0 else ctx.pick('op%d' % k, OPS)
        if op == 'piece':
            cur = Cells(ctx, env, 'p%d' % k, ((28,), (26,), (24,))[k % 3], npoints=1)
            ctx.guard(v.new_piece, cur.points, cur.cells)
            exp.append((cur, []))
            sec = None
        elif op in ('pointdata', 'celldata'):
            f = getattr(v, 'start_' + op)
            if cur is None:
                ctx.raises(['VtkError'], f)
            else:
                ctx.guard(f)
                sec = dict(pointdata='PointData', celldata='CellData')[op]
                exp[-1][1].append((sec, []))
        elif op == 'cellpoints':
            d = Data(ctx, env, 'd%d' % k, cur.ncon if cur else 2, 1)
            if sec is None:
                ctx.raises(['VtkError'], v.add_data_cellpoints, d.arr, d.title)
            else:
                ctx.guard(v.add_data_cellpoints, d.arr, d.title)
                exp[-1][1][-1][1].append(d.expect(cur))
        elif op == 'add':
            d = Data(ctx, env, 'd%d' % k, 1, 2)
            if sec is None:
                ctx.raises(['VtkError'], v.add_data, d.arr, d.title)
            else:
                ctx.guard(v.add_data, d.arr, d.title)
                exp[-1][1][-1][1].append(d.expect())
        elif k % 2:
            ctx.raises(['VtkError'], v.add_data, env.typed([[[1., 2.]]], 'f4'), 'no')
        else:                           # elements for which there is no cell
            ctx.raises(['Exception'], v.new_piece, env.typed([[0., 0., 0.], [1., 0., 0.]], 'f4'),
                       (env.typed([0, 1], 'i4'), np.array([2], 'i4'), np.array([18], 'i4')))
    ctx.guard(v.close)
    check_file(ctx, 'a.vtu', exp)


def instances(tier):
    out = []
    big = tier == 'thorough'
    for n, i, p in ((1, 'i4', 'f4'), (2, 'i8', 'f8'), (2, 'i4', 'f4'),
                    (1, '>i4', '>f8')) + ((((3, 'i4', 'f4')),) if big else ()):
        out.append(Instance('geometry/%d/%s' % (n, i.replace('>', 'big-endian-')), geometry, n=n, idt=i, pdt=p,
                            bounds='%d cells of every type, two files from the same arrays' % n))
    for dt in sorted(DTYPES.values()) + ['>i2', '>i4', '>u8', '>f4', '>f8']:
        out.append(Instance('data/' + dt.replace('>', 'big-endian-'), data, dt=dt, full=big, bounds='one array of every type, layout, section and '
                            'number of components, with and without component names, names with XML characters'))
    for n, nc in ((1, None), (2, 1), (2, 3)) + (((3, 2),) if big else ()):
        out.append(Instance('cellpoints/%d/%s' % (n, nc), cellpoints, n=n, ncomp=nc,
                            bounds='cell-point data for up to %d cells of every type' % n))
    for sh in (False, True):
        out.append(Instance('pieces/%s' % ('shared' if sh else 'own'), pieces, share=sh, weight=4,
                            bounds='two pieces with and without point and cell data'))
    for op in OPS:
        n = 5 if big else 4
        out.append(Instance('history/' + op, history, first=op, n=n, weight=3,
                            bounds='every sequence of %d calls, in and out of order' % n))
    return out
