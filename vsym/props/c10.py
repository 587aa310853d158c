"""C10: numbers and properties line up with nodes and elements"""
from ..harness import Instance
from . import spec
from .model import Model, BEAM, SHELL

OUTSIDE = 'elements with different section or thickness at their nodes (geono = -1); internal numbers that ' \
          'are not 1, 2, 3, ... in the order of the records; selections without any element'

SEC = [f.split(':')[0] for f in spec.FIXED1['GBEAMG'].split() if f != '|']


def properties(ctx, env, eltyps, nsets, fmt, ngeo):
    m = Model(ctx, env)
    m.nodes(4)
    m.elements(eltyps, 1)
    m.element_sets(nsets)
    beams = [k for k, e in enumerate(m.els) if e[1] in BEAM]
    shells = [k for k, e in enumerate(m.els) if e[1] in SHELL]
    # numbers of the properties, in the order of their records
    gnum = ctx.pick('numbering', ([5, 3, 8][:ngeo], list(range(1, ngeo + 1))))
    sec = {g: spec.build(ctx, env, 'GBEAMG', 'sec%d' % g) for g in gnum}
    for g, r in sec.items():
        r.vals[0] = r.row['geono'] = g
    thk = {g: [ctx.real('th%d' % g), ctx.int('nint%d' % g)] for g in gnum}
    geo = {k: ctx.pick('geo%d' % k, gnum) for k in range(len(eltyps))}

    def tail(s):
        for k, e in enumerate(m.els):
            s.t1('GELREF1', [k + 1, 1, 0, 0, 0, 0, 0, 0, geo[k], 0, 0, 0])
        for g in gnum:
            if beams:
                sec[g].emit(s)
        for g in gnum:
            if shells:
                s.t1('GELTH', [g] + thk[g])
        s.t1('GUNIVEC', [1, 0., 0., 1.])
    f = m.open(fmt, tail=tail)
    d = f['T1']
    for sets, kind in m.selections():
        what = 'sets=%r kind=%r: ' % (sets, kind)
        el = m.select(sets, kind)
        kw = {}
        if sets:
            kw['sets'] = sets
        if kind:
            kw['kind'] = kind
        ctx.same(ctx.guard(d.get_elementnumbers, **kw), [m.els[k][0] for k in el], what + 'element numbers')
        ctx.same(ctx.guard(d.get_elementnumbers, numbertype='internal', **kw), [k + 1 for k in el],
                 what + 'internal element numbers')
        for disc in (False, True):
            ns = m.nodesel(sets, kind, disc)
            ctx.same(ctx.guard(d.get_nodenumbers, disconnected=disc, **kw), [m.nodex[i] for i in ns],
                     what + 'node numbers disconnected=%s' % disc)
            ctx.same(ctx.guard(d.get_nodenumbers, disconnected=disc, numbertype='internal', **kw),
                     [i + 1 for i in ns], what + 'internal node numbers disconnected=%s' % disc)
        if kind is None:
            bm, sh = m.select(sets, 'beam'), m.select(sets, 'shell')
            if bm:
                p = ctx.guard(d.get_section_properties, **kw)
                ctx.check(len(p) == len(bm), what + '%d sections for %d beams' % (len(p), len(bm)))
                for i, k in enumerate(bm):
                    if i < len(p):
                        for c in SEC:
                            ctx.same(p[i][c], sec[geo[k]].row[c], what + 'section[%d].%s' % (i, c))
            if sh:
                t = ctx.guard(d.get_shell_thicknesses, **kw)
                ctx.same(t, [thk[geo[k]][0] for k in sh], what + 'thicknesses')
    names = ctx.guard(d.get_setnames)
    if m.sets:
        ctx.check([bytes(n) for n in names] == [nm.encode() for nm, _ in m.sets], 'set names %r' % (names,))
    else:
        ctx.check(names is None, 'set names %r' % (names,))
    f.close()


def casenames(ctx, env, n, fmt):
    """result case names by number"""
    m = Model(ctx, env)
    m.nodes(1)
    m.els = [(1, 18, [0])]
    ids = [ctx.pick('id%d' % k, ((1, 7), (2, 5), (4, 3))[k]) for k in range(n)]
    nam = ['load %d' % k for k in range(n)]

    def tail(s):
        for i, nm in zip(ids, nam):
            s.td('TDLOAD', i, nm)
    f = m.open(fmt, tail=tail)
    d = f['T1']
    cases = ctx.pick('cases', (None, [ids[-1]], ids[0], [ids[0], 99], list(reversed(ids)), (1, 2, 3), [99]))
    got = ctx.guard(d.get_resultcase_names, cases) if ctx.flag('positional') else \
        ctx.guard(d.get_resultcase_names, rescases=cases)
    want = [cases] if isinstance(cases, int) else cases
    exp = {i: x.encode() for i, x in zip(ids, nam) if want is None or i in want}
    ctx.check({int(k): bytes(v) for k, v in got.items()} == exp, 'names %r, expected %r' % (got, exp))
    f.close()


def instances(tier):
    out = []
    q = tier == 'quick'
    cases = [((15,), 1, 2), ((24,), 1, 2), ((15, 23), 1, 2), ((25, 24), 1, 3), ((15, 18, 24), 1, 2),
             ((24, 16, 28), 1, 2), ((26, 15), 2, 2), ((15, 15, 15), 1, 2), ((23, 26, 15), 1, 2)]
    if not q:
        cases += [((15, 24, 15, 24), 1, 2), ((15, 15, 24), 2, 2), ((28, 23, 18, 16), 1, 2),
                  ((24, 25, 26), 2, 2), ((15, 23, 15), 2, 2)]
    for eltyps, nsets, ngeo in cases:
        for fmt in 'FU':
            if fmt == 'F' and q and len(eltyps) == 3:
                continue
            out.append(Instance('%s/s%d/g%d/%s' % ('-'.join(map(str, eltyps)), nsets, ngeo, fmt), properties,
                                eltyps=eltyps, nsets=nsets, fmt=fmt, ngeo=ngeo, weight=3 ** len(eltyps),
                                max_paths=200000,
                                bounds='up to 3 (thorough 4) elements, 2 sets with any members, 3 properties'))
    for n in (1, 2, 3):
        for fmt in 'FU':
            out.append(Instance('casenames/%d/%s' % (n, fmt), casenames, n=n, fmt=fmt,
                                bounds='up to 3 result cases'))
    return out
