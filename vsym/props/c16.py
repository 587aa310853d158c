"""C16: closed data are refused, open data stay usable"""
from ..harness import Instance
from ..sifgen import SifFile
from .hier import tree, emit_hierarch

OUTSIDE = 'data objects of a file that was deleted; opening the same in-memory file twice; more than 5 steps; ' \
          'attributes of the objects (name, g, ...)'


def struct_file(ctx, env, fmt='U'):
    """hierarchy T9 (T5: intermediate, T1 first level) and results R5"""
    rows = tree('skip')
    s = SifFile(fmt)
    s.ident(9, slevel=3)
    emit_hierarch(s, rows)
    t = [1., 0., 0., 0., 0., 1., 0., 0., 0., 0., 1., 0.]
    for i in range(1, 5):
        s.t2('HSUPTRAN', [18, i] + t + [float(i), 2., 3., 1.])
    s.end()
    s.write('T9.FEM')
    s = SifFile(fmt)
    s.ident(5, slevel=2)
    s.end()
    s.write('T5.FEM')
    v = dict(x=[ctx.real('x%d' % i) for i in range(6)], no=ctx.int('nodex', 1, 99),
             d=[ctx.real('d%d' % i) for i in range(12)])
    s = SifFile(fmt)
    s.ident(1)
    first_level(s, v)
    s.end()
    s.write('T1.FEM')
    s = SifFile(fmt)
    s.ident(5)
    first_level(s, v)
    s.t2('RDRESREF', [7, 1, 1, 1, 0, 0, 0])
    for i in range(2):
        s.t2('RVNODDIS', [11, 1, i + 1, 0, 0] + v['d'][6 * i:6 * i + 6])
    s.end()
    s.write('R5.SIU')
    ctx.guard(env.fs.sif2hdf5, 'T9.FEM', 'a.h5')
    ctx.guard(env.fs.sif2hdf5, 'R5.SIU', 'a.h5', append=True)
    return v


def first_level(s, v):
    s.t1('GNODE', [v['no'], 1, 6, 123456])
    s.t1('GNODE', [8, 2, 6, 123456])
    s.t1('GCOORD', [1] + v['x'][:3])
    s.t1('GCOORD', [2] + v['x'][3:])
    s.t1('GELMNT1', [1, 1, 15, 0, 1, 2])
    s.td('TDSETNAM', 10, 'SETA')
    s.t2('GSETMEMB', [6, 10, 1, 2, 0, 1])


def hydro_file(ctx, env, fmt='U', convert=True):
    s = SifFile(fmt)
    s.ident(1)
    v = dict(m=[ctx.real('m%d' % i) for i in range(6)])
    s.t2('WGLOBDEF', [4, 9.81, 1025., 0])
    s.t2('WBODCON', [7, 1, 1, 1, 1., 1., 0.])
    s.t2('WDRESREF', [10, 1, 1, 2, 1, 1, .5, 2, 1, 2.])
    s.t2('W1MOTION', [10, 1, 1, 0] + v['m'])
    s.end()
    s.write('G1.SIF')
    if convert:
        ctx.guard(env.fs.sif2hdf5, 'G1.SIF', 'b.h5')
    return v


FIRST = [('get_nodes', ()), ('get_elements', ()), ('get_nodenumbers', ()), ('get_elementnumbers', ()),
         ('get_nodes', ('SETA',)), ('get_elements', ('SETA', 'beam')), ('get_nodes', (None, None, True)),
         ('get_noderesults', ('displacement',)), ('get_elementresults', ('beamforce',)),
         ('get_elementresults', ('generalstress',)), ('get_section_properties', ()),
         ('get_shell_thicknesses', ()), ('get_resultcase_names', ()), ('get_setnames', ())]
TOP = [('get_transformation', (1, 1)), ('get_transformation', (1, 1, 2)), ('get_transformation', (1, 1, 1)),
       ('get_setnames', ())]
INTER = [('get_setnames', ())]
HYDRO = [('get_' + n, ()) for n in (
    'angular_freqs periods directions timesteps sections points bodyproperties motion_raos excitationforce_raos '
    'sectionforce_raos fluidkinematics_raos bodymass addedmass potentialdamping viscousdamping '
    'hydrostatic_restoring mooring_restoring meandrift horiz_meandrift pressure_panel_ids panel_pressures').split()] + \
    [('get_matrix', (11,)), ('get_directions', ('radians',)), ('get_fluidkinematics_raos', ('velocity',))]


class Handle(object):
    def __init__(self, ctx, env, kind, v):
        self.ctx, self.env, self.kind, self.v = ctx, env, kind, v
        self.open = True
        fs = env.fs
        if kind == 's':
            d = ctx.guard(fs.open_sif, 'G1.SIF')
            self.file = d.file
            self.data = {'G1': d}
        else:
            self.file = ctx.guard(fs.open_hdf5, kind + '.h5')
            self.data = dict(self.file.items())
        self.names = {'a': ['R5', 'T9', 'T9/T1', 'T9/T5'], 'b': ['G1'], 's': ['G1']}[kind]
        ctx.check(sorted(self.data) == self.names, 'data of %s: %r' % (kind, sorted(self.data)))

    def close(self, how):
        ctx = self.ctx
        if how == 'file':
            ctx.guard(self.file.close)
        else:
            ctx.guard(self.data[how].close)
        self.open = False

    def methods(self, n):
        return {'R5': FIRST, 'T9': TOP, 'T9/T1': FIRST, 'T9/T5': INTER, 'G1': HYDRO}[n]

    def verify(self, what):
        ctx, f = self.ctx, self.file
        if not self.open:
            E = ['ClosedFileError']
            for g in (lambda: f['x'], lambda: f[self.names[0]], lambda: f.get('x'), lambda: f.keys(),
                      lambda: f.values(), lambda: f.items(), lambda: 'x' in f, lambda: iter(f)):
                ctx.raises(E, g)
            ctx.check('losed' in str(f) and 'losed' in repr(f), what + 'printed form of a closed file')
            ctx.check(ctx.guard(f.close) is None, what + 'closing again')
            for n, d in self.data.items():
                for m, a in self.methods(n):
                    ctx.raises(E, getattr(d, m), *a)
                ctx.check('losed' in str(d) and 'losed' in repr(d), what + 'printed form of closed data')
                ctx.check(ctx.guard(d.close) is None, what + 'closing data again')
            return
        ctx.check(sorted(ctx.guard(f.keys)) == self.names, what + 'keys')
        for n, d in self.data.items():
            ctx.check(ctx.guard(lambda: f[n]) is d, what + 'data object %s' % n)
            ctx.check('losed' not in str(d) + repr(d), what + 'printed form of open data')
        ctx.check('losed' not in str(f) + repr(f), what + 'printed form of an open file')
        v = self.v
        if self.kind == 'a':
            for n in ('R5', 'T9/T1'):
                d = self.data[n]
                ctx.same(ctx.guard(d.get_nodes), [v['x'][:3], v['x'][3:]], what + 'coordinates')
                ctx.same(ctx.guard(d.get_nodenumbers), [v['no'], 8], what + 'node numbers')
                ctx.check(len(ctx.guard(d.get_setnames)) == 1, what + 'sets')
            ctx.same(ctx.guard(self.data['R5'].get_noderesults, 'displacement'), [v['d'][:6], v['d'][6:]],
                     what + 'results')
            ctx.check(ctx.guard(self.data['T9/T5'].get_setnames) is None, what + 'sets')
            t = ctx.guard(self.data['T9'].get_transformation, 1, 2)
            ctx.same(t[3, :3], [4., 4., 6.], what + 'transformation')
        else:
            d = self.data['G1']
            ctx.same(ctx.guard(d.get_motion_raos), [[[x]] for x in v['m']], what + 'motions')
            ctx.same(ctx.guard(d.get_angular_freqs), [2.], what + 'frequencies')


def history(ctx, env, kinds, steps, first, fmt):
    v = {}
    if 'a' in kinds:
        v['a'] = struct_file(ctx, env, fmt)
    if 'b' in kinds or 's' in kinds:
        v['b'] = v['s'] = hydro_file(ctx, env, fmt, 'b' in kinds)
    hs = []
    what = ''
    for n in range(steps):
        ops = []
        for k in kinds:
            same = [h for h in hs if h.kind == k]
            if len(same) < 2 and not (k == 's' and any(h.open for h in same)):
                ops.append(('open', k))
        for i, h in enumerate(hs):
            if h.open:
                ops.append(('close', i, 'file'))
                for d in h.names:
                    ops.append(('close', i, d))
        ops.append(('close all',))
        if any(not h.open for h in hs) and 'a' in kinds and not any(h.open and h.kind == 'a' for h in hs):
            ops.append(('convert',))
        op = ops[0] if n == 0 and first else ctx.pick('step%d' % n, ops)
        what += ' '.join(map(str, op)) + '; '
        if op[0] == 'open':
            hs.append(Handle(ctx, env, op[1], v[op[1]]))
        elif op[0] == 'close':
            hs[op[1]].close(op[2])
        elif op[0] == 'convert':
            # a file that was closed can be written anew
            ctx.guard(env.fs.sif2hdf5, 'T9.FEM', 'a.h5')
            ctx.guard(env.fs.sif2hdf5, 'R5.SIU', 'a.h5', append=True)
        else:
            ctx.guard(env.module('data.file').close_all_files)
            for h in hs:
                h.open = False
        for h in hs:
            h.verify('after %s: ' % what)
    ctx.guard(env.module('data.file').close_all_files)
    for h in hs:
        h.open = False
        h.verify('after %sclose all: ' % what)
    # everything can be opened again
    for k in kinds:
        h = Handle(ctx, env, k, v[k])
        h.verify('after %sopening again: ' % what)
        h.close('file')
        h.verify('after %sopening and closing: ' % what)


def instances(tier):
    out = []
    q = tier == 'quick'

    def add(kinds, steps, fmt='U', first=True, w=50):
        out.append(Instance('history/%s/%d/%s%s' % (kinds, steps, fmt, '' if first else '/any'), history, kinds=kinds,
                            steps=steps, first=first, fmt=fmt, weight=w, validate=3,
                            bounds='up to %d steps on the files %s' % (steps, kinds)))
    add('ab', 3)
    add('ba', 3, 'F')
    add('as', 3)
    add('sa', 3)
    add('a', 4)
    add('bs', 4)
    if not q:
        add('ab', 4, 'F')
        add('as', 4)
        add('bs', 5)
        add('b', 5)
        add('abs', 3, 'F', False)
        add('abs', 4, 'U', True)
    return out
