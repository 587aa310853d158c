"""C26: what is not on the file is refused"""
from ..harness import Instance
from ..sifgen import SifFile
from . import spec
from .c11 import REC
from .c12 import PTS, Rows, definitions, emit, near
from .c14 import Hyd, MAT, layout
from .c15 import matrix
from .model import Model

OUTSIDE = 'one result case of which results of some nodes or elements are missing; result cases listed together ' \
          'with others that exist (they are left out); empty strings and lists; more than 3 result cases, 2 bodies, ' \
          '3 repetitions, 2 elements'

ANY = ('Exception',)


def numbers(ctx, name, n, lo, hi):
    """n different symbolic numbers"""
    v = [ctx.int('%s%d' % (name, i), lo, hi) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.constrain(v[i] != v[j])
    return v


# -- result cases ----------------------------------------------------------------

MISSING = ('nothing', 'case 1', 'case 2', 'cases 2 3', 'item of case 2', 'order of case 3', 'other item each',
           'item by item')


def present(how, n, items):
    """-> [(case, item)] in the order of the file"""
    rows = [(c, i) for c in range(n) for i in range(items)]
    if how.startswith('case'):
        return [r for r in rows if str(r[0] + 1) not in how]
    if how == 'item of case 2':
        return [r for r in rows if r != (1, 0)]
    if how == 'other item each':
        return [r for r in rows if r[1] != r[0] % items]
    if how == 'order of case 3':
        return [r for r in rows if r[0] != 2] + [(2, i) for i in reversed(range(items)) if n > 2]
    if how == 'item by item':
        return sorted(rows, key=lambda r: r[1])
    return rows


def results(ctx, env, restype, eltyps, ncases, how, fmt):
    m = Model(ctx, env)
    m.nodes(2)
    m.elements(eltyps, 1)
    # numbers of the cases on the file
    runs = [ctx.int('run%d' % i, 1, 3) for i in range(ncases)]
    exts = [ctx.int('ext%d' % i, 1, 3) for i in range(ncases)]
    node = restype in REC
    items = 2 if node else len(eltyps)
    rows = present(how, ncases, items)
    val = {}

    def tail(s):
        if not node:
            definitions(s, m)
        for i in range(ncases):
            s.t2('RDRESREF', [7, i + 1, runs[i], exts[i], 0, 0, 0])
        for c, i in rows:
            if node:
                val[c, i] = [ctx.real('r%d.%d.%d' % (c, i, k)) for k in range(6)]
                s.t2(REC[restype], [11, c + 1, i + 1, 0, 0] + val[c, i])
            else:
                r = val[c, i] = Rows(ctx, env, 'r%d.%d' % (c, i), eltyps[i], 0)
                emit(s, 'RVFORCES' if restype == 'beamforce' else 'RVSTRESS', c + 1, i, eltyps[i], r.file)
    f = m.open(fmt, name='R1.SIU', tail=tail)
    d = f['R1']
    get = d.get_noderesults if node else d.get_elementresults
    run = ctx.choice('run asked for', 1, 4)
    cases = ctx.pick('cases asked for', (None, 2, [2], (3, 1), [4, 5]))
    kw = {} if run == 1 and ctx.flag('default run') else {'run': run}
    if cases is not None:
        kw['rescases'] = cases
    want = [cases] if isinstance(cases, int) else cases
    sel = [i for i in range(ncases) if bool(runs[i] == run) and
           (want is None or any(bool(exts[i] == w) for w in want))]
    have = [[i for c, i in rows if c == k] for k in sel]
    what = '%s %r with %s missing: ' % (restype, kw, how)
    blocks = [c for c, i in rows if c in sel]
    apart = len(sel) > 1 and any(a != b and b in blocks[:k] for k, (a, b) in
                                 enumerate(zip(blocks, blocks[1:]), 1))
    if not sel or not all(have) or any(h != have[0] for h in have):
        ctx.raises(ANY, get, restype, **kw)
    elif apart:         # refused or put in order
        try:
            got = get(restype, **kw)
        except Exception:
            got = None
        ctx.check(True, '')
        if got is not None:
            near(ctx, got, [[x for i in range(items) for x in ([val[c, i]] if node else val[c, i].expect(restype))]
                            for c in sel], what)
    elif len(have[0]) == items:
        order = [c for k, c in enumerate(blocks) if c not in blocks[:k]]
        exp = [[x for i in have[0] for x in ([val[c, i]] if node else val[c, i].expect(restype))] for c in order]
        near(ctx, ctx.guard(get, restype, **kw), exp[0] if len(exp) == 1 else exp, what)
    else:
        ctx.check(True, what + 'not settled')
    ctx.guard(f.close)


# -- bodies ------------------------------------------------------------------------

class Bodies(Hyd):
    """hydrodynamic file with symbolic body numbers"""

    def __init__(self, ctx, env, fmt, nb):
        self.ctx, self.env = ctx, env
        s = self.s = SifFile(fmt)
        s.ident(1)
        s.t2('WGLOBDEF', [4, 9.81, 1025., 0])
        self.freqs, self.dirs = [.5, 1.], [0.]
        self.ids = numbers(ctx, 'body', nb, 0, 4)
        self.conds = [2, 1][:nb]
        for b, c in zip(self.ids, self.conds):
            s.t2('WBODCON', [7, c, b, 1, 1., 1., 0.])
        self.cases = [(1, 0, 0), (2, 0, 1)]
        for n, i, j in self.cases:
            s.t2('WDRESREF', [10, n, 1, 2, 1, 1, 0., 2, j + 1, self.freqs[j]])


WBODY = 'clenb bmass wsarea wparea vol xcg ycg zcg xcb ycb zcb xrb yrb zrb'.split()

QUERIES = {'W1MOTION': ('get_motion_raos', 6), 'W1EXFORC': ('get_excitationforce_raos', 6),
           'W2MDRIFT': ('get_meandrift', 6), 'W2HDRIFT': ('get_horiz_meandrift', 3)}


def body(ctx, env, rec, nb, fmt):
    h = Bodies(ctx, env, fmt, nb)
    s, v = h.s, {}
    gone = ctx.choice('body without results', 0, nb)    # nb: none
    part = gone < nb and ctx.flag('in part')
    for k, c in enumerate(h.conds):
        for n, i, j in h.cases:
            if k == gone and not (part and n == 1):
                continue
            if rec == 'WBODY':
                if n == 1 and k != gone:
                    v[k] = [ctx.real('b%d.%d' % (k, i)) for i in range(14)]
                    s.t2('WBODY', [32, c] + v[k] + [float(i) for i in range(16)])
                continue
            nc = QUERIES[rec][1]
            x = v[k, j] = [ctx.real('%s%d.%d.%d' % (rec, k, j, i)) for i in range(nc)]
            s.t2(rec, [2 + 2 + nc, c, n, 0] + x if rec[1] == '1' else [3 + nc, c, n] + x)
    if rec == 'WBODY':
        s.t2('WBODY', [32, 9] + [7.] * 30)
    elif nb == 1:                                       # results of a condition of no body
        nc = QUERIES[rec][1]
        for n in (1, 2):
            s.t2(rec, [4 + nc, 9, n, 0] + [7.] * nc if rec[1] == '1' else [3 + nc, 9, n] + [7.] * nc)
    d = h.open()
    b = ctx.choice('body asked for', 0, 5)
    at = [k for k in range(nb) if bool(h.ids[k] == b)]
    get = d.get_bodyproperties if rec == 'WBODY' else getattr(d, QUERIES[rec][0])
    if not at or at[0] == gone:
        ctx.raises(ANY, get, b)
    elif rec == 'WBODY':
        p = ctx.guard(get, b)
        ctx.check(ctx.all([ctx.eq(p[n], x) for n, x in zip(WBODY, v[at[0]])]), 'properties of body %d' % b)
    else:
        nc = QUERIES[rec][1]
        exp = layout(h, {(0, j): v[at[0], j] for j in range(2)}, nc)
        ctx.same(ctx.guard(get, b), exp, '%s of body %d' % (rec, b))
    ctx.guard(h.f.close)


def coupling(ctx, env, nb, mat, fmt):
    """matrices of pairs of bodies of which some are not there"""
    h = Bodies(ctx, env, fmt, nb)
    s, v, n = h.s, {}, 0
    typ, name, dep = MAT[mat]
    other = 12 if typ != 12 else 21
    hole = ctx.choice('pair without matrix', 0, nb * nb)
    for a in range(nb):
        for b in range(nb):
            for t, dp in ((typ, dep), (other, True)):
                for iw in range(1, 3 if dp else 2):
                    if t == typ and a * nb + b == hole:
                        continue
                    n += 1
                    x = ctx.real('m%d' % n)
                    if t == typ:
                        v[a, b, iw] = x
                    s.t2('W1MATRIX', [42, n, h.conds[a], h.conds[b], iw, t, x] + [float(n + i) for i in range(35)])
    d = h.open()
    req = (ctx.choice('body', 0, 5), ctx.choice('second body', 0, 5) if nb > 1 else ctx.pick('second body', (1, 5)))
    at = [[k for k in range(nb) if bool(h.ids[k] == r)] for r in req]
    if not at[0] or not at[1] or at[0][0] * nb + at[1][0] == hole:
        ctx.raises(ANY, d.get_matrix, typ, *req)
        ctx.raises(ANY, getattr(d, name), *req)
    else:
        p = at[0][0], at[1][0]
        for got in (ctx.guard(d.get_matrix, typ, *req), ctx.guard(getattr(d, name), *req)):
            if dep:
                ctx.same([got[0, 0, 0], got[0, 0, 1]], [v[p + (1,)], v[p + (2,)]], '%s of %r' % (name, req))
            else:
                ctx.check(ctx.eq(got[0, 0], v[p + (1,)]), '%s of %r' % (name, req))
    ctx.guard(h.f.close)


# -- properties ---------------------------------------------------------------------

def geometry(ctx, env, eltyp, ngeo, fmt):
    """sections and thicknesses that are not there"""
    m = Model(ctx, env)
    m.nodes(3)
    m.elements((eltyp, eltyp), 1)
    m.sets = [('ONE', [0])]
    refs = [ctx.int('geo%d' % k, -1, 4) for k in range(2)]
    nums = numbers(ctx, 'num', ngeo, 1, 4)
    for r in refs:
        ctx.constrain(r != 0)
    beam = eltyp == 15
    x = [ctx.real('p%d' % i) for i in range(ngeo)]

    def tail(s):
        for k in range(2):
            var = [1, 2] if bool(refs[k] == -1) else []
            s.t1('GELREF1', [k + 1, 1, 0, 0, 0, 0, 0, 0, refs[k], 0, 0, 0] + var)
        for i in range(ngeo):
            if beam:
                s.t1('GBEAMG', [nums[i], 0, x[i]] + [1.] * 13)
            else:
                s.t1('GELTH', [nums[i], x[i], 5])
        if not ngeo:
            s.t1('GUNIVEC', [1, 0., 0., 1.])
    f = m.open(fmt, tail=tail)
    d = f['T1']
    get = d.get_section_properties if beam else d.get_shell_thicknesses
    for kw, els in (({}, (0, 1)), (dict(sets='ONE'), (0,))):
        at = [[i for i in range(ngeo) if bool(nums[i] == refs[k])] for k in els]
        if not all(at):
            ctx.raises(ANY, get, **kw)
        else:
            got = ctx.guard(get, **kw)
            ctx.check(len(got) == len(els), 'number of elements')
            for g, a in zip(got, at):
                ctx.check(ctx.eq(g['area'] if beam else g, x[a[0]]), 'property of an element')
    other = d.get_shell_thicknesses if beam else d.get_section_properties
    ctx.raises(('NoSuchRecordError',), other)
    ctx.guard(f.close)


# -- names and superelements -----------------------------------------------------------

def names(ctx, env, fmt):
    m = Model(ctx, env)
    m.nodes(2)
    m.elements((15, 25), 1)
    kind = ctx.pick('set', ('elements', 'nodes only', 'no members'))
    where = ctx.pick('name', ('SETA', 'SET', 'S-1 x'))

    def tail(s):
        s.td('TDSETNAM', 3, where)
        s.td('TDSETNAM', 4, 'OTHER')
        if kind != 'no members':
            s.t2('GSETMEMB', [6, 3, 1, 2 if kind == 'elements' else 1, 0, 2])
        s.t2('GSETMEMB', [6, 4, 1, 2, 0, 1])
    f = m.open(fmt, tail=tail)
    d = f['T1']
    ask = ctx.pick('asked for', ('SETA', 'SET', 'S', 'SETAB', 'seta', 'S-1 x', 'S-1', ['OTHER', 'SETA'],
                                 ('SET', 'OTHER'), 'None'))
    here = [n == where or (n == 'OTHER') for n in ([ask] if isinstance(ask, str) else ask)]
    els = sorted(set({where: 1, 'OTHER': 0}[n] for n in ([ask] if isinstance(ask, str) else ask))) \
        if all(here) else None
    if all(here) and kind != 'elements' and els != [0]:
        if isinstance(ask, str):
            els = None
        else:
            els = [0]       # the other set has members
    for q in (d.get_nodes, d.get_elements, d.get_nodenumbers, d.get_elementnumbers):
        if els is None:
            ctx.raises(ANY, q, sets=ask)
    if els is not None:
        ctx.same(ctx.guard(d.get_elementnumbers, sets=ask), [m.els[k][0] for k in els], 'elements of %r' % (ask,))
    ctx.same(ctx.guard(d.get_elementnumbers, sets='OTHER'), [m.els[0][0]], 'elements of another set')
    ctx.guard(f.close)


def repetition(ctx, env, n, gone, fmt):
    """transformations of superelements that are not in the hierarchy, or whose matrix is not there"""
    sel = [ctx.choice('type%d' % i, 1, 2) for i in range(n)]
    ind = [sel[:i].count(t) + 1 for i, t in enumerate(sel)]
    s = SifFile(fmt)
    s.ident(9, slevel=2)
    s.t2('HIERARCH', [8 + n, 1, 9, 1, 2, 0, 0, n] + list(range(2, n + 2)))
    refs = numbers(ctx, 'ref', n, 1, 6)
    for i in range(n):
        s.t2('HIERARCH', [8, i + 2, sel[i], ind[i], 1, refs[i], 1, 0])
    mats = {}
    for i in range(n):
        if i != gone:
            mats[i] = [[ctx.real('m%d.%d.%d' % (i, r, c)) for c in range(4)] for r in range(4)]
            s.t2('HSUPTRAN', [18, refs[i]] + [mats[i][r][c] for r in range(4) for c in range(4)])
    s.td('TDSUPNAM', 2, 'name')
    s.end()
    s.write('T9.FEM')
    ctx.guard(env.fs.sif2hdf5, 'T9.FEM', 'out.h5')
    f = ctx.guard(env.fs.open_hdf5, 'out.h5')
    t = f['T9']
    typ, no = ctx.choice('type', 1, 3), ctx.choice('repetition', 0, n + 1)
    at = [i for i in range(n) if (sel[i], ind[i]) == (typ, no)]
    for lev in ('top', 2):
        if not at or at[0] == gone:
            ctx.raises(ANY, t.get_transformation, typ, no, lev)
        else:
            got = ctx.guard(t.get_transformation, typ, no, lev)
            matrix(ctx, got, mats[at[0]], 'repetition %d of T%d' % (no, typ))
    for lev in (0, 3, -1):
        ctx.raises(ANY, t.get_transformation, typ, no, lev)
    ctx.guard(f.close)


def levels(ctx, env, top, n, fmt):
    """transformations to levels that are left out on the way up, and with matrices missing on the way"""
    # 0: top, 1: superelement on the level below, 2..: first level
    mid = ctx.choice('middle level', 2, top - 1)
    up = [0, 0] + [ctx.choice('parent%d' % i, 0, 1) for i in range(n)]
    lev = [top, mid] + [1] * n
    typ = [9, 8] + [i + 1 for i in range(n)]
    s = SifFile(fmt)
    s.ident(9, slevel=top)
    refs = [0] + numbers(ctx, 'ref', n + 1, 1, n + 3)
    gone = ctx.choice('without matrix', 1, n + 2)
    for i in range(n + 2):
        subs = [k + 1 for k in range(1, n + 2) if up[k] == i]
        s.t2('HIERARCH', [8 + len(subs), i + 1, typ[i], 1, lev[i], refs[i], up[i] + 1 if i else 0, len(subs)] + subs)
    mats = [None] * (n + 2)
    for i in range(1, n + 2):
        if i != gone:
            mats[i] = [[ctx.real('m%d.%d.%d' % (i, r, c)) for c in range(4)] for r in range(4)]
            s.t2('HSUPTRAN', [18, refs[i]] + [mats[i][r][c] for r in range(4) for c in range(4)])
    if gone == n + 1 and n == 1 or not any(mats):
        s.t2('HSUPTRAN', [18, 99] + [1.] * 16)
    s.end()
    s.write('T9.FEM')
    ctx.guard(env.fs.sif2hdf5, 'T9.FEM', 'out.h5')
    f = ctx.guard(env.fs.open_hdf5, 'out.h5')
    t = f['T9']
    for i in range(2, n + 2):
        for level in ['top'] + list(range(2, top + 2)):
            want = top if level == 'top' else level
            way = [i]
            while way[-1] and lev[up[way[-1]]] <= want:
                way.append(up[way[-1]])
            if lev[way[-1]] != want or any(mats[k] is None for k in way[:-1]):
                ctx.raises(ANY, t.get_transformation, typ[i], 1, level)
                continue
            exp = mats[way[0]]
            for k in way[1:-1]:
                exp = [[sum(exp[r][x] * mats[k][x][c] for x in range(4)) for c in range(4)] for r in range(4)]
            got = ctx.guard(t.get_transformation, typ[i], 1, level)
            matrix(ctx, got, exp, 'T%d to level %r' % (typ[i], level))
    ctx.guard(f.close)


# -- whole records -----------------------------------------------------------------------

STRUCT = [('get_nodes',), ('get_elements',), ('get_nodenumbers',), ('get_elementnumbers',),
          ('get_section_properties',), ('get_shell_thicknesses',), ('get_resultcase_names',),
          ('get_noderesults', 'displacement'), ('get_noderesults', 'velocity'), ('get_noderesults', 'acceleration'),
          ('get_elementresults', 'beamforce'), ('get_elementresults', 'generalstress'),
          ('get_elementresults', 'decomposedstress')]
HYDRO = [('get_' + n,) for n in
         'sections points bodyproperties motion_raos excitationforce_raos meandrift horiz_meandrift '
         'sectionforce_raos fluidkinematics_raos addedmass bodymass'.split()]


def nothing(ctx, env, kind, fmt):
    """a file without the records of the query"""
    s = SifFile(fmt)
    s.ident(1)
    if kind == 'struct':
        s.t1('GUNIVEC', [1, 0., 0., 1.])
        name, q = 'T1.FEM', STRUCT
    else:
        s.t2('WGLOBDEF', [4, 9.81, 1025., 0])
        s.t2('WDRESREF', [10, 1, 1, 2, 1, 1, 0., 2, 1, .5])
        name, q = 'G1.SIF', HYDRO
    s.end()
    s.write(name)
    ctx.guard(env.fs.sif2hdf5, name, 'out.h5')
    f = ctx.guard(env.fs.open_hdf5, 'out.h5')
    d = f[name[:2]]
    for c in q:
        ctx.raises(('NoSuchRecordError',), getattr(d, c[0]), *c[1:])
    if kind == 'struct':
        ctx.check(ctx.guard(d.get_setnames) is None, 'names of sets on a file without sets')
        ctx.raises(ANY, d.get_nodes, sets='A')
    ctx.guard(f.close)


def instances(tier):
    out = []
    full = tier == 'thorough'
    for restype, els in (('displacement', (15,)), ('velocity', (15,)), ('acceleration', (15,)),
                         ('beamforce', (15, 15)), ('generalstress', (24, 25)), ('decomposedstress', (25, 24)),
                         ('generalstress', (28, 28)), ('beamforce', (23, 15)))[:None if full else 6]:
        for how in MISSING:
            for n in (1, 2, 3):
                if n < (3 if '3' in how else 2) and how != 'nothing' or n == 1 and how == 'nothing' and not full:
                    continue
                if not full and (n == 3) != \
                        (how in ('cases 2 3', 'order of case 3') or how == 'case 1' and restype in REC):
                    continue
                if not full and n == 3 and restype not in ('displacement', 'beamforce'):
                    continue
                if not full and restype not in ('displacement', 'beamforce', 'generalstress') and \
                        how not in ('case 1', 'item of case 2'):
                    continue
                out.append(Instance('results/%s/%s/%d/%s' % (restype, '-'.join(map(str, els)), n, how), results,
                                    restype=restype, eltyps=els, ncases=n, how=how, fmt='U', weight=n * n,
                                    bounds='%d result cases, 2 nodes or elements' % n))
    for rec in list(QUERIES) + ['WBODY']:
        for nb in (1, 2):
            out.append(Instance('body/%s/%d' % (rec, nb), body, rec=rec, nb=nb, fmt='U', weight=nb,
                                bounds='%d bodies' % nb))
    for k in range(len(MAT)):
        for nb in (1, 2):
            if full or nb == 1 or k in (1, 2, 4):
                out.append(Instance('matrix/%d/%d' % (MAT[k][0], nb), coupling, nb=nb, mat=k, fmt='U',
                                    weight=1 + 8 * (nb - 1), bounds='%d bodies' % nb))
    for t in (15, 24):
        for n in (0, 1, 2):
            if n == 0:
                continue
            out.append(Instance('geometry/%d/%d' % (t, n), geometry, eltyp=t, ngeo=n, fmt='U', weight=2 + n,
                                bounds='%d sections or thicknesses' % n))
    out.append(Instance('names', names, fmt='U', weight=4, bounds='2 sets'))
    for n in (1, 2, 3) if full else (1, 2):
        for gone in range(-1, n):
            out.append(Instance('repetition/%d/%d' % (n, gone), repetition, n=n, gone=gone, fmt='U', weight=n,
                                bounds='%d repetitions' % n))
    for top, n in ((3, 1), (3, 2), (4, 1), (4, 2)) if full else ((3, 1), (4, 1)):
        out.append(Instance('levels/%d/%d' % (top, n), levels, top=top, n=n, fmt='U', weight=n + top,
                            bounds='%d levels, %d superelements of the first level' % (top, n)))
    for fmt in 'UF':
        for kind in ('struct', 'hydro'):
            out.append(Instance('nothing/%s/%s' % (kind, fmt), nothing, kind=kind, fmt=fmt, bounds='-'))
    return out
