"""C23: what a query returns does not depend on the queries before it"""
import numpy as np

from ..harness import Instance
from ..sifgen import SifFile
from . import spec
from .c11 import Cases, rows
from .c12 import PTS, definitions, emit
from .c14 import Hyd, MAT
from .hier import tree, emit_hierarch
from .model import Model, BEAM, SHELL

OUTSIDE = 'histories of more than two queries before the one that is judged; queries on several threads; ' \
          'models of more than 3 elements, 2 cases, 2 directions'


# -- files ----------------------------------------------------------------------

def struct_tail(ctx, env, m, tag):
    cs = Cases.__new__(Cases)
    cs.ctx, cs.cplx = ctx, {1: 0, 2: 0, 3: 1}
    cs.list = [(1, 1, 1), (2, 1, 2), (3, 2, 1)] if tag == 'v' else [(2, 1, 1), (1, 1, 2), (3, 2, 1)]
    sec = {g: spec.build(ctx, env, 'GBEAMG', '%ssec%d' % (tag, g)) for g in (1, 2)}
    for g, r in sec.items():
        r.vals[0] = r.row['geono'] = g

    def tail(s):
        for k, e in enumerate(m.els):
            s.t1('GELREF1', [k + 1, 1, 0, 0, 0, 0, 0, 0, 1 + (k + (tag == 'w')) % 2, 0, 0, 0])
        for g in (1, 2):
            sec[g].emit(s)
        for g in (1, 2):
            s.t1('GELTH', [g, ctx.real('%sth%d' % (tag, g)), 5])
        s.t1('GUNIVEC', [1, 0., 0., 1.])
        definitions(s, m)
        s.td('TDLOAD', 1, 'first ' + tag)
        s.td('TDLOAD', 2, 'second ' + tag)
        cs.emit(s)
        for rec in ('RVNODDIS', 'RVNODVEL'):
            for c in cs.list:
                for i in range(len(m.xyz)):
                    v, _ = rows(ctx, env, '%s%s%d.%d' % (tag, rec, c[0], i), 6, cs.cplx[c[0]])
                    s.t2(rec, [5 + len(v), c[0], i + 1, 0, 0] + v)
        for rec, kinds in (('RVFORCES', BEAM), ('RVSTRESS', SHELL)):
            for c in cs.list:
                for k, (_, t, _) in enumerate(m.els):
                    n = PTS[t][0] * (PTS[t][1] if t in kinds else 1)
                    v = [5.] * (n * (1 + cs.cplx[c[0]])) if t not in kinds else \
                        rows(ctx, env, '%s%s%d.%d' % (tag, rec, c[0], k), n, cs.cplx[c[0]])[0]
                    emit(s, rec, c[0], k, t, v)
    return tail


def struct(ctx, env, tag, names, eltyps, nn, fmt, h5, append=False, sets=None):
    m = Model(ctx, env)
    for i in range(nn):
        m.nodex.append(ctx.int('%snodex%d' % (tag, i), 1, 1 << 20))
        m.xyz.append([ctx.real('%s%s%d' % (tag, c, i)) for c in 'xyz'])
    con, shift = [], 1 if tag == 'w' else 0
    for k, t in enumerate(eltyps):
        n = spec.NNOD[t]
        con.append([(k + j + shift) % nn for j in range(n)])
        m.els.append((ctx.int('%selnox%d' % (tag, k), 1, 1 << 20), t, con[k]))
    m.sets = sets
    if tag == 'w':
        m.isref = 31
    tail = struct_tail(ctx, env, m, tag)
    for i, n in enumerate(names):
        m.write(fmt, name=n, tail=tail, seltyp=int(n[1]))
        ctx.guard(env.fs.sif2hdf5, n, h5, append=append or i > 0)


def hierarchy(ctx, env, tag, fmt, h5):
    """top level T3 with two first-level superelements, one of them repeated"""
    s = SifFile(fmt)
    s.ident(3, slevel=2)
    emit_hierarch(s, tree('two'))
    for i in range(1, 4):
        s.t2('HSUPTRAN', [18, i] + [ctx.real('%st%d.%d' % (tag, i, k)) for k in range(16)])
    s.td('TDSUPNAM', 2, 'name')
    s.end()
    s.write('T3.FEM')
    for k in (1, 2):
        s = SifFile(fmt)
        s.ident(k)
        for i in (1, 2):
            s.t1('GNODE', [10 * k + i, i, 6, 123456])
        for i in (1, 2):
            s.t1('GCOORD', [i] + [ctx.real('%sx%d.%d.%d' % (tag, k, i, c)) for c in range(3)])
        s.t1('GELMNT1', [1, 1, 15, 0, 1, 2])
        s.end()
        s.write('T%d.FEM' % k)
    ctx.guard(env.fs.sif2hdf5, 'T3.FEM', h5)


def hydro(ctx, env, tag, fmt, h5, append=False):
    class C(object):
        """names of this file, one choice of everything discrete"""
        def real(self, n, *a):
            return ctx.real(tag + n, *a)

        def int(self, n, *a):
            return ctx.int(tag + n, *a)

        def flag(self, n):
            return True

        def pick(self, n, opts):
            return opts[0 if tag == 'v' else -1]
    x = C()
    fr = [2., .5] if tag == 'v' else [4., .25]
    h = Hyd(x, env, fmt, 2, 2, 2, dirs=[0., 1.5] if tag == 'v' else [.5, .75], freqs=fr,
            seltyp=2 if append else 1)
    s = h.s
    for b in sorted(h.cond, key=lambda b: h.cond[b]):
        s.t2('WBODY', [32, h.cond[b]] + [x.real('b%d.%d' % (b, i)) for i in range(14)] +
             [x.real('t%d.%d' % (b, i)) for i in range(16)])
    for k in range(2):
        s.t2('WSECTION', [14, 1, k + 1, 3, x.int('secusr%d' % k)] + [x.real('p%d.%d' % (k, i)) for i in range(9)])
    for k in range(2):
        s.t2('WFKPOINT', [5, k + 1] + [x.real('pt%d.%d' % (k, c)) for c in range(3)])
    for rec, n in (('W1MOTION', 6), ('W1EXFORC', 6), ('W2MDRIFT', 6), ('W2HDRIFT', 3)):
        for b in h.cond:
            for iw, i, j in h.cases:
                v = h.values('%s%d.%d' % (rec, b, iw), n, rec == 'W1MOTION')[0]
                head = [h.cond[b], iw] + ([int(rec == 'W1MOTION')] if rec[1] == '1' else [])
                s.t2(rec, [2 + len(head) - 0 + len(v) - 1] + head + v)
    for k in range(2):
        for iw, i, j in h.cases:
            v = h.values('sf%d.%d' % (k, iw), 6, False)[0]
            s.t2('W1SFORCE', [5 + len(v), h.cond[1], k + 1, iw, 0] + v)
    for iw, i, j in h.cases:
        for k in range(2):
            v = h.values('kn%d.%d' % (k, iw), 4, True)[0]
            s.t2('WFLUIDKN', [4 + len(v), iw, k + 1, 1] + v)
    n = 0
    for b in h.cond:
        for b2 in h.cond:
            for t, _, dep in MAT:
                for iw in range(1, 3 if dep else 2):
                    n += 1
                    s.t2('W1MATRIX', [42, n, h.cond[b], h.cond[b2], iw, t] +
                         [x.real('m%d' % n)] + [float(n + i) for i in range(35)])
    for iw, i, j in h.cases:
        for m in range(2):
            v = h.values('p%d.%d' % (iw, m), 1, False)[0]
            s.t2('W1PANPRE', [8, h.cond[1], iw, m + 1, 1, 0] + v + [m + (3 if tag == 'v' else 5), 1])
    s.end()
    name = 'G2.SIF' if append else 'G1.SIF'
    s.write(name)
    ctx.guard(env.fs.sif2hdf5, name, h5, append=append)


# -- queries -----------------------------------------------------------------------

MOVE = [[0., 1., 0.], [0., 0., 2.], [1., 0., 0.], [.5, .25, 4.]]


def Q(name, *a, **k):
    return name, a, k


def _first(eltyps, sets, few=False):
    """queries on a first-level superelement with results"""
    q = []
    names = [n for n, _ in sets]
    if few:
        for s in ({}, dict(kind='shell'), dict(sets=names[0]), dict(sets=[names[1], names[0]], kind='beam')):
            disc = {} if 'kind' in s else {'disconnected': True}
            q += [Q('get_nodes', **s), Q('get_elements', **s), Q('get_nodenumbers', **s),
                  Q('get_elementnumbers', **s), Q('get_noderesults', 'displacement', **s)]
            if disc:
                q += [Q('get_nodes', disconnected=True, **s), Q('get_elements', disconnected=True, **s)]
        q += [Q('get_elementnumbers', numbertype='internal'), Q('get_noderesults', 'displacement', rescases=[2, 1]),
              Q('get_noderesults', 'displacement', run=2), Q('get_noderesults', 'velocity', rescases=np.array([2, 1])),
              Q('get_noderesults', 'reaction'), Q('get_nodes', trans=np.array(MOVE))]
        for t in ('beamforce', 'generalstress', 'decomposedstress'):
            q += [Q('get_elementresults', t), Q('get_elementresults', t, sets=names[1])]
        q += [Q('get_elementresults', 'generalstress', rescases=2), Q('get_elementresults', 'beamforce', run=2)]
        for s in (None, names[0]):
            q += [Q('get_section_properties', sets=s), Q('get_shell_thicknesses', sets=s)]
        return q + [Q('get_setnames'), Q('get_resultcase_names'), Q('get_resultcase_names', [2])]
    sel = [{}, dict(kind='beam'), dict(kind='shell'), dict(sets=names[0]), dict(sets=names[1], kind='shell'),
           dict(sets=list(names))]
    for s in sel:
        for disc in (False, True):
            q.append(Q('get_nodes', disconnected=disc, **s))
            q.append(Q('get_elements', disconnected=disc, **s))
            q.append(Q('get_nodenumbers', disconnected=disc, **s))
        q.append(Q('get_elementnumbers', **s))
    q.append(Q('get_nodenumbers', numbertype='internal'))
    q.append(Q('get_elementnumbers', numbertype='internal'))
    q.append(Q('get_nodes', trans=np.array(MOVE)))
    for kw in ({}, dict(rescases=2), dict(rescases=np.array([2, 1])), dict(run=2)):
        for t in ('displacement', 'velocity'):
            q.append(Q('get_noderesults', t, **kw))
        for t in ('beamforce', 'generalstress', 'decomposedstress'):
            q.append(Q('get_elementresults', t, **kw))
    for s in sel[1:]:
        q.append(Q('get_noderesults', 'displacement', **s))
    q.append(Q('get_noderesults', 'displacement', disconnected=True))
    q.append(Q('get_noderesults', 'reaction'))
    for t in ('beamforce', 'generalstress', 'decomposedstress'):
        for s in (names[0], names[1], list(names)):
            q.append(Q('get_elementresults', t, sets=s))
    for s in (None, names[0], names[1], list(names)):
        q.append(Q('get_section_properties', sets=s))
        q.append(Q('get_shell_thicknesses', sets=s))
    q.append(Q('get_setnames'))
    for c in (None, 1, [2, 1]):
        q.append(Q('get_resultcase_names', c))
    return q


TRANSFORM = [Q('get_transformation', a, i) for a, i in ((1, 1), (1, 2), (2, 1))] + \
    [Q('get_transformation', 1, 1, 1), Q('get_transformation', 1, 1, 2), Q('get_transformation', 9, 1),
     Q('get_setnames')]

SMALL = [Q('get_nodes'), Q('get_elements'), Q('get_nodenumbers'), Q('get_elementnumbers'), Q('get_setnames'),
         Q('get_nodes', kind='beam'), Q('get_nodes', disconnected=True)]

HYDRO = [Q('get_' + n) for n in
         'angular_freqs periods directions timesteps sections points sectionforce_raos'.split()] + \
    [Q('get_' + n, b) for b in (1, 2, 3) for n in (
        'bodyproperties motion_raos excitationforce_raos meandrift horiz_meandrift panel_pressures '
        'pressure_panel_ids').split()] + \
    [Q('get_directions', 'radians'), Q('get_directions', 'grad')] + \
    [Q('get_fluidkinematics_raos', k) for k in ('elevation', 'velocity', 'pressure')] + \
    [Q(n, a, b) for _, n, _ in MAT[:4] for a, b in ((1, 1), (1, 2), (2, 1))] + \
    [Q('get_matrix', t, *b) for t in (11, 21) for b in ((), (2, 2))]


def snapshot(x):
    """the result as plain lists"""
    if isinstance(x, np.ndarray):
        if x.dtype.names:
            return {n: snapshot(x[n]) for n in x.dtype.names}
        return _lists(x)
    if isinstance(x, np.void):
        return {n: snapshot(x[n]) for n in x.dtype.names}
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [snapshot(v) for v in x]
    return x


def _lists(x):
    return ('array', tuple(x.shape), [v for v in np.array(x, dtype=object, copy=True).reshape(-1)])


def scribble(x):
    """change everything the caller got, in place"""
    if isinstance(x, np.ndarray):
        if not x.flags.writeable:
            return
        if x.dtype.names:
            for n in x.dtype.names:
                scribble(x[n])
            return
        x[...] = 77 if x.dtype.kind not in 'SU' else b'!'
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v)
        x.clear()
    elif isinstance(x, (list, tuple)):
        for v in x:
            scribble(v)
        if isinstance(x, list):
            del x[:]


def ask(ctx, d, q, keep=False):
    name, a, k = q
    before = repr((a, k))
    try:
        r = getattr(d, name)(*a, **k)
    except Exception as e:
        s, r = ('raised', type(e).__name__), None
    else:
        s = snapshot(r)
    ctx.check(repr((a, k)) == before, '%s%s %s: the arguments became %s' % (name, '', before, repr((a, k))))
    return s, r


def eq(ctx, got, exp, what):
    if isinstance(exp, dict):
        ctx.check(isinstance(got, dict) and sorted(map(str, got)) == sorted(map(str, exp)), what + 'keys')
        for k in exp:
            if isinstance(got, dict) and k in got:
                eq(ctx, got[k], exp[k], what)
    elif isinstance(exp, tuple) and exp[0] == 'array':
        ok = isinstance(got, tuple) and got[:2] == exp[:2]
        ctx.check(ok, what + '%.60r, expected an array of shape %r' % (got, exp[1]))
        if ok:
            ctx.check(ctx.all([ctx.eq(a, b) if not isinstance(b, (bytes, str)) else a == b
                               for a, b in zip(got[2], exp[2])]), what + '%.80r, expected %.80r' % (got[2], exp[2]))
    elif isinstance(exp, list):
        ctx.check(isinstance(got, list) and len(got) == len(exp), what + 'number of results')
        for a, b in zip(got, exp) if isinstance(got, list) else ():
            eq(ctx, a, b, what)
    elif exp is None or isinstance(exp, (bytes, str, tuple)):
        ctx.check(got is None if exp is None else got == exp, what + '%.80r, expected %.80r' % (got, exp))
    else:
        ctx.check(ctx.eq(got, exp), what + '%.80r, expected %.80r' % (got, exp))


def text(q):
    return '%s(%s)' % (q[0], ', '.join([repr(x) for x in q[1]] + ['%s=%r' % i for i in q[2].items()]))


# -- instances -------------------------------------------------------------------

def pairs(ctx, env, build, names, queries, fmt, lo, hi, same=False, **p):
    """names: data set of the two files (v.h5 and w.h5, or both in v.h5)"""
    for tag in 'vw':
        build(ctx, env, tag, fmt, 'v.h5' if same else tag + '.h5', same=same, **p)
    h5 = ('v.h5', 'v.h5' if same else 'w.h5')
    # what every query returns when it is the only one, in a session of its own
    ref = []
    for i in range(2):
        env.new_session()
        r = []
        for q in queries:
            f = ctx.guard(env.fs.open_hdf5, h5[i])
            r.append(ask(ctx, ctx.guard(lambda: f[names[i]]), q)[0])
            ctx.guard(f.close)
        ref.append(r)
    env.new_session()
    n = ctx.choice('first query', lo, hi - 1)
    q = queries[n]
    for j, t in enumerate(queries):
        what = '%s after %s' % (text(t), text(q))
        fa = ctx.guard(env.fs.open_hdf5, h5[0])
        a = ctx.guard(lambda: fa[names[0]])
        s, r = ask(ctx, a, q)
        eq(ctx, s, ref[0][n], '%s at first: ' % text(q))
        scribble(r)
        s, r = ask(ctx, a, t)
        eq(ctx, s, ref[0][j], what + ', whose result was changed: ')
        scribble(r)
        fb = fa if same else ctx.guard(env.fs.open_hdf5, h5[1])
        b = ctx.guard(lambda: fb[names[1]])
        s, r = ask(ctx, b, t)
        eq(ctx, s, ref[1][j], what + ' on other data: ')
        scribble(r)
        s, r = ask(ctx, a, t)
        eq(ctx, s, ref[0][j], '%s after itself and %s: ' % (text(t), text(q)))
        ctx.guard(fa.close)
        if not same:
            s, r = ask(ctx, b, q)
            eq(ctx, s, ref[1][n], '%s on other data after closing: ' % text(q))
            ctx.guard(fb.close)
    # the files are as they were
    for i in range(2):
        f = ctx.guard(env.fs.open_hdf5, h5[i])
        for j, t in enumerate(queries):
            eq(ctx, ask(ctx, ctx.guard(lambda: f[names[i]]), t)[0], ref[i][j], '%s at last: ' % text(t))
        ctx.guard(f.close)


def build_struct(ctx, env, tag, fmt, h5, eltyps, nn, sets, same=False):
    names = ['R%d.SIU' % (2 if same and tag == 'w' else 1)]
    if tag == 'w':      # another model: elements in another order, other sets
        eltyps, nn, sets = tuple(reversed(eltyps)), nn + 1, [(sets[1][0], [0]), (sets[0][0], [1, 2])]
    struct(ctx, env, tag, names, eltyps, nn, fmt, h5, append=same and tag == 'w', sets=sets)


def build_hier(ctx, env, tag, fmt, h5, same=False):
    if not (same and tag == 'w'):
        hierarchy(ctx, env, tag, fmt, h5)


def build_hydro(ctx, env, tag, fmt, h5, same=False):
    hydro(ctx, env, tag, fmt, h5, same and tag == 'w')


def structpairs(ctx, env, few=False, same=False, **p):
    pairs(ctx, env, build_struct, ('R1', 'R2' if same else 'R1'), _first(p['eltyps'], p['sets'], few), same=same, **p)


def topology(ctx, env, **p):
    pairs(ctx, env, build_hier, ('T3', 'T3'), TRANSFORM, **p)


def siblings(ctx, env, **p):
    pairs(ctx, env, build_hier, ('T3/T1', 'T3/T2'), SMALL, same=True, **p)


def hydropairs(ctx, env, few=False, same=False, **p):
    pairs(ctx, env, build_hydro, ('G1', 'G2' if same else 'G1'), _few(HYDRO) if few else HYDRO, same=same, **p)


def _few(q):
    """without the third body, and every other matrix"""
    q = [x for x in q if x[1] != (3,)]
    return q[:-10] + q[-10::2]


def instances(tier):
    out = []

    def add(name, fn, nq, step, w, **p):
        for lo in range(0, nq, step):
            hi = min(nq, lo + step)
            out.append(Instance('%s/%s/%d-%d' % (name, p['fmt'], lo, hi - 1), fn, lo=lo, hi=hi, weight=w, validate=1,
                                path_timeout=300, bounds='every pair of queries', **p))
    sets = [('SETA', [0, 1]), ('set b', [1, 2])]
    q = tier == 'quick'
    for fmt in 'U' if q else 'UF':
        for same in (False, True):
            if q and same:
                continue
            p = dict(fmt=fmt, eltyps=(15, 15, 24), nn=4, sets=sets, few=q, same=same)
            name = '-same file' if same else ''
            add('struct' + name, structpairs, len(_first(p['eltyps'], sets, q)), 2, 50, **p)
            add('hydro' + name, hydropairs, len(_few(HYDRO) if q else HYDRO), 3, 30, fmt=fmt, few=q, same=same)
        add('top', topology, len(TRANSFORM), 7, 20, fmt=fmt)
        add('siblings', siblings, len(SMALL), 7, 20, fmt=fmt)
    return out
