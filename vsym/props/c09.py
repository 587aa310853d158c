"""C09: nodes, elements and connectivity agree for every selection"""
from ..harness import Instance
from .model import Model

OUTSIDE = 'selections without any element; more than 3 elements or 8 nodes; internal numbers that are ' \
          'not 1, 2, 3, ... in the order of the records'


def check_selection(ctx, m, d, sets, kind, disc):
    what = 'sets=%r kind=%r disconnected=%r: ' % (sets, kind, disc)
    el = m.select(sets, kind)
    kw = dict(sets=sets, kind=kind, disconnected=disc)
    coords = ctx.guard(d.get_nodes, **kw)
    nums = ctx.guard(d.get_nodenumbers, **kw)
    con, off, typ = ctx.guard(d.get_elements, **kw)
    ns = m.nodesel(**kw)
    ctx.same(coords, [m.xyz[i] for i in ns], what + 'coordinates')
    ctx.same(nums, [m.nodex[i] for i in ns], what + 'node numbers')
    ends, e = [], 0
    want = []
    for k in el:
        want += m.els[k][2]
        e += len(m.els[k][2])
        ends.append(e)
    ctx.same(off, ends, what + 'offsets')
    ctx.same(typ, [m.els[k][1] for k in el], what + 'element types')
    if len(con) != len(want):
        ctx.check(False, what + '%d connectivity values, expected %d' % (len(con), len(want)))
        return
    for j, n in enumerate(want):
        i = int(con[j])
        ok = 0 <= i < len(coords)
        ctx.check(ok, what + 'connectivity[%d] is %d for %d nodes' % (j, i, len(coords)))
        if ok:
            ctx.check(ns[i] == n if i < len(ns) else False,
                      what + 'connectivity[%d] points to node %r, expected %d' % (
                          j, ns[i] if i < len(ns) else None, n))
            if disc:
                ctx.check(i == j, what + 'elements share nodes')


def queries(ctx, env, eltyps, nn, conn, nsets, fmt):
    m = Model(ctx, env)
    m.nodes(nn)
    m.elements(eltyps, conn)
    m.element_sets(nsets)
    f = m.open(fmt)
    d = f['T1']
    for sets, kind in m.selections():
        for disc in (False, True):
            check_selection(ctx, m, d, sets, kind, disc)
    # the queries do not change the data
    check_selection(ctx, m, d, None, None, False)
    f.close()


def refused(ctx, env):
    m = Model(ctx, env)
    m.nodes(2)
    m.elements((15,), 1)
    m.element_sets(1)
    f = m.open()
    d = f['T1']
    for fn in (d.get_nodes, d.get_elements, d.get_nodenumbers, d.get_elementnumbers):
        ctx.raises(['ValueError'], fn, kind='solid')
        ctx.raises(['ConditionError'], fn, sets='no such set')
        ctx.raises(['ConditionError'], fn, sets=['SETA', 'seta'])
    ctx.raises(['ValueError'], d.get_nodenumbers, numbertype='other')
    ctx.raises(['ValueError'], d.get_elementnumbers, numbertype='other')
    f.close()
    m = Model(ctx, env)
    m.nodex, m.xyz = [1], [[0., 0., 0.]]
    m.els = [(1, 18, [0])]
    f = m.open()
    ctx.raises(['NoSuchRecordError'], f['T1'].get_nodes, sets='SETA')
    ctx.check(f['T1'].get_setnames() is None, 'set names without sets')
    f.close()


def instances(tier):
    out = []

    def add(eltyps, nn, conn, nsets, fmt='U', w=10):
        out.append(Instance('%s/n%d/c%s/s%d/%s' % ('-'.join(map(str, eltyps)), nn, conn, nsets, fmt), queries,
                            eltyps=eltyps, nn=nn, conn=conn, nsets=nsets, fmt=fmt, weight=w, max_paths=200000,
                            bounds='%d elements on %d nodes, %d sets with any members' % (len(eltyps), nn, nsets)))
    q = tier == 'quick'
    add((15, 15), 3, 'free', 1, w=500)
    add((15, 25), 3, 2, 2, 'F', w=100)
    add((15, 18), 4, 'free', 1, w=100)
    add((23, 24), 4, 3, 2, w=200)
    add((28, 15), 8, 3, 1, w=100)
    add((26, 28), 8, 3, 1, w=100)
    add((16, 15, 24), 5, 2, 2, w=300)
    add((24, 15, 25), 5, 2, 2, 'F', w=300)
    add((18, 15, 15), 3, 2, 2, w=300)
    add((25,), 4, 'free', 1, w=100)
    if not q:
        for a in (15, 16, 18, 23, 24, 25, 26, 28):
            for b in (15, 18, 24, 28, 26):
                add((a, b), 9, 3, 2, w=200)
                add((a, 15, b), 6, 2, 2, 'F', w=2000)
        add((15, 15, 15), 3, 'free', 1, w=10000)
        add((15, 18, 25), 3, 'free', 1, w=10000)
        add((15, 24, 25, 15), 5, 2, 2, w=3000)
    out.append(Instance('refused', refused))
    return out
