"""C07: hierarchies and several data sets land in the documented groups"""
from ..harness import Instance
from ..sifgen import SifFile
from . import spec
from .hier import tree, emit_hierarch, emit_node

OUTSIDE = 'hierarchies of more than 4 levels; load files; lower-case names of the lower-level files'

HYDRO, STRUC = 'HYDRODYNAMIC', 'STRUCTURAL'


def _groups(h):
    out = []
    for g in h.get_node('/')._f_iter_nodes('Group'):
        out.append(g._v_name)
        for k in g._f_iter_nodes('Group'):
            out.append(g._v_name + '/' + k._v_name)
            for m in k._f_iter_nodes('Group'):
                out.append(g._v_name + '/' + k._v_name + '/' + m._v_name)
    return sorted(out)


def _attrs(ctx, h, where, **kw):
    g = h.get_node('/' + where)
    for k, v in kw.items():
        a = ctx.guard(g._f_getattr, k)
        if k == 'RECORDS':
            a, v = sorted(set(a) - {'IEND'}), sorted(v)
        ctx.check(a == v, '%s of %s is %r, expected %r' % (k, where, a, v))


def _single(ctx, fmt, fname, sel, tag):
    s = SifFile(fmt)
    s.ident(sel)
    r = emit_node(ctx, s, tag)
    s.end()
    s.write(fname)
    return r


def input_files(ctx, env, kind, fmt, fprefix, ext):
    rows = tree(kind)
    exp = {}
    top = rows[0]
    s = SifFile(fmt)
    first = ctx.flag('hierarch_first')
    if first:
        emit_hierarch(s, rows)
    s.ident(top.sel, slevel=top.level)
    if not first:
        emit_hierarch(s, rows)
    topnode = emit_node(ctx, s, 'top')
    s.end()
    usefp = ctx.flag('usefileprefix')
    prefix = ctx.pick('prefix', ('', 'a_'))
    pre = prefix + (fprefix if usefp else '')
    tname = '%sT%d.%s' % (fprefix, top.sel, ext)
    s.write(tname)
    sels = {}
    for r in rows[1:]:
        sels.setdefault(r.sel, r)
    for sel, r in sels.items():
        if ctx.flag('file%d' % sel):
            exp[sel] = _single(ctx, fmt, '%sT%d.%s' % (fprefix, sel, ext), sel, 's%d' % sel)
    if ctx.flag('stranger'):
        # a file of the same folder that is not part of the hierarchy
        SifFile(fmt).write('%sT77.%s' % (fprefix, ext))
    ctx.guard(env.fs.sif2hdf5, tname, 'out.h5', usefileprefix=usefp, prefix=prefix)
    h = env.h5('out.h5')
    tg = '%sT%d' % (pre, top.sel)
    ctx.check(_groups(h) == sorted([tg] + ['%s/T%d' % (tg, k) for k in exp]),
              'groups %r, expected those of %r in %s' % (_groups(h), sorted(exp), tg))
    spec.check_table(ctx, h, '/' + tg, 'GCOORD', [topnode])
    _attrs(ctx, h, tg, LEVEL='TOPLEVEL', SELTYP=top.sel, DATATYPE=STRUC, FILETYPE='T',
           RECORDS=['HIERARCH', 'IDENT', 'GCOORD'])
    for sel, node in exp.items():
        g = '%s/T%d' % (tg, sel)
        if g in _groups(h):
            spec.check_table(ctx, h, '/' + g, 'GCOORD', [node], g + ' ')
            _attrs(ctx, h, g, LEVEL='FIRSTLEVEL' if sels[sel].level == 1 else 'INTERLEVEL', SELTYP=sel,
                   DATATYPE=STRUC, FILETYPE='T', RECORDS=['IDENT', 'GCOORD'])
    h.close()


def result_files(ctx, env, kind, fmt, fprefix, ext):
    rows = tree(kind)
    exp = {}
    top = rows[0]
    s = SifFile(fmt)
    emit_hierarch(s, rows)
    s.ident(top.sel, slevel=top.level)
    topnode = emit_node(ctx, s, 'top')
    s.end()
    usefp = ctx.flag('usefileprefix')
    pre = fprefix if usefp else ''
    tname = '%sR%d.%s' % (fprefix, top.sel, ext)
    s.write(tname)
    for no, r in enumerate(rows, 1):
        if no > 1 and r.level == 1 and ctx.flag('file%d' % no):
            exp[no] = _single(ctx, fmt, '%sR%dH%d.%s' % (fprefix, r.sel, no, ext), r.sel, 's%d' % no)
        elif no > 1 and r.level > 1 and ctx.flag('file%d' % no):
            SifFile(fmt).write('%sR%dH%d.%s' % (fprefix, r.sel, no, ext))
    ctx.guard(env.fs.sif2hdf5, tname, 'out.h5', usefileprefix=usefp)
    h = env.h5('out.h5')
    tg = '%sR%d' % (pre, top.sel)
    want = {no: '%s/R%d_%d' % (tg, rows[no - 1].sel, rows[no - 1].index) for no in exp}
    ctx.check(_groups(h) == sorted([tg] + list(want.values())),
              'groups %r, expected %r' % (_groups(h), sorted([tg] + list(want.values()))))
    spec.check_table(ctx, h, '/' + tg, 'GCOORD', [topnode])
    _attrs(ctx, h, tg, LEVEL='TOPLEVEL' if top.level > 1 else 'FIRSTLEVEL', SELTYP=top.sel, DATATYPE=STRUC,
           FILETYPE='R', RECORDS=['HIERARCH', 'IDENT', 'GCOORD'])
    for no, node in exp.items():
        g = want[no]
        if g in _groups(h):
            spec.check_table(ctx, h, '/' + g, 'GCOORD', [node], g + ' ')
            _attrs(ctx, h, g, LEVEL='FIRSTLEVEL', SELTYP=rows[no - 1].sel, INDEX=rows[no - 1].index,
                   DATATYPE=STRUC, FILETYPE='R', RECORDS=['IDENT', 'GCOORD'])
    h.close()


def folder(ctx, env, fmt):
    """lower levels are looked for next to the top-level file"""
    import os
    rows = tree('two')
    for d in ('sub', 'other'):
        if not os.path.isdir(d):
            os.mkdir(d)
    s = SifFile(fmt)
    emit_hierarch(s, rows)
    s.ident(3, slevel=2)
    emit_node(ctx, s, 'top')
    s.end()
    s.write('sub/T3.FEM')
    a = _single(ctx, fmt, 'sub/T1.FEM', 1, 'a')
    _single(ctx, fmt, 'T1.FEM', 1, 'wrong1')
    _single(ctx, fmt, 'T2.FEM', 2, 'wrong2')
    name = ctx.pick('path', ('sub/T3.FEM', 'other/../sub/T3.FEM', os.path.abspath('sub/T3.FEM')))
    out = ctx.pick('out', ('out.h5', 'other/x.h5', None))
    res = ctx.guard(env.fs.sif2hdf5, name, out)
    ctx.check(res == os.path.abspath(out or 'T3.h5'), 'returned %r' % (res,))
    h = env.h5(out or 'T3.h5')
    ctx.check(_groups(h) == ['T3', 'T3/T1'], 'groups %r' % (_groups(h),))
    spec.check_table(ctx, h, '/T3/T1', 'GCOORD', [a])
    h.close()


NAMES = [('T1.FEM', 'T', 'FIRSTLEVEL', STRUC), ('t1.fem', 'T', 'FIRSTLEVEL', STRUC),
         ('L1.FEM', 'L', 'FIRSTLEVEL', STRUC), ('R1.SIU', 'R', 'FIRSTLEVEL', STRUC),
         ('r1.sif', 'R', 'FIRSTLEVEL', STRUC), ('G1.SIF', 'G', None, HYDRO),
         ('g1.Sif', 'G', None, HYDRO), ('T2.fem', 'T', 'FIRSTLEVEL', STRUC)]


def names(ctx, env, fmt):
    """file name -> group name, type and level of a single data set"""
    fname, letter, level, dtype = ctx.pick('file', NAMES)
    fp = ctx.pick('fileprefix', ('', 'my-model_', 'run2T', 'a1_R2'))
    sel = ctx.pick('seltyp', (1, 25))
    node = _single(ctx, fmt, fp + fname, sel, 'n')
    kw = {}
    usefp = ctx.flag('usefileprefix')
    if not usefp:
        kw['usefileprefix'] = False
    pre = ctx.pick('prefix', ('', 'q'))
    if pre:
        kw['prefix'] = pre
    ctx.guard(env.fs.sif2hdf5, fp + fname, 'out.h5', **kw)
    g = pre + (fp if usefp else '') + letter + str(sel)
    h = env.h5('out.h5')
    ctx.check(_groups(h) == [g], 'groups %r, expected %r' % (_groups(h), g))
    if _groups(h) == [g]:
        spec.check_table(ctx, h, '/' + g, 'GCOORD', [node])
        _attrs(ctx, h, g, SELTYP=sel, FILETYPE=letter, DATATYPE=dtype, RECORDS=['IDENT', 'GCOORD'])
        if level:
            _attrs(ctx, h, g, LEVEL=level)
    h.close()


def several(ctx, env, fmt):
    """sequences of files, appending, overwriting"""
    n0 = _single(ctx, fmt, 'old_T9.FEM', 9, 'old')
    a = _single(ctx, fmt, 'T1.FEM', 1, 'a')
    b = _single(ctx, fmt, 'bT1.FEM', 1, 'b')
    exists = ctx.flag('exists')
    if exists:
        ctx.guard(env.fs.sif2hdf5, 'old_T9.FEM', 'out.h5')
    append = ctx.flag('append')
    how = ctx.pick('how', ('list', 'tuple', 'prefixes', 'one prefix', 'twice', 'separate'))
    exp = {'old_T9': [n0]} if exists and append else {}
    if how in ('list', 'tuple'):
        seq = (list if how == 'list' else tuple)(['T1.FEM', 'bT1.FEM'])
        ctx.guard(env.fs.sif2hdf5, seq, 'out.h5', append=append)
        exp.update({'T1': [a], 'bT1': [b]})
    elif how == 'prefixes':
        ctx.guard(env.fs.sif2hdf5, ['T1.FEM', 'bT1.FEM'], 'out.h5', append=append, usefileprefix=False,
                  prefix=['x', 'y'])
        exp.update({'xT1': [a], 'yT1': [b]})
    elif how == 'one prefix':
        ctx.guard(env.fs.sif2hdf5, ['T1.FEM', 'bT1.FEM'], 'out.h5', append=append, prefix='x')
        exp.update({'xT1': [a], 'xbT1': [b]})
    elif how == 'twice':
        ctx.guard(env.fs.sif2hdf5, 'T1.FEM', 'out.h5', append=append)
        ctx.guard(env.fs.sif2hdf5, 'bT1.FEM', 'out.h5', append=True)
        exp.update({'T1': [a], 'bT1': [b]})
    else:
        ctx.guard(env.fs.sif2hdf5, ['T1.FEM', 'bT1.FEM'])
        for fn, g, n in (('T1.h5', 'T1', a), ('bT1.h5', 'bT1', b)):
            h = ctx.guard(env.h5, fn)
            ctx.check(_groups(h) == [g], 'groups of %s: %r' % (fn, _groups(h)))
            spec.check_table(ctx, h, '/' + g, 'GCOORD', [n])
            h.close()
        return
    h = env.h5('out.h5')
    ctx.check(_groups(h) == sorted(exp), 'groups %r, expected %r' % (_groups(h), sorted(exp)))
    for g, n in exp.items():
        if g in _groups(h):
            spec.check_table(ctx, h, '/' + g, 'GCOORD', n, g + ' ')
    h.close()


def refused(ctx, env, fmt):
    """calls that have to be refused leave an existing HDF5 file alone"""
    a = _single(ctx, fmt, 'T1.FEM', 1, 'a')
    ctx.guard(env.fs.sif2hdf5, 'T1.FEM', 'out.h5')
    what = ctx.pick('what', ('name', 'sin', 'append', 'type', 'memory'))
    S = env.fs.sif2hdf5
    if what == 'name':
        fn = ctx.pick('fname', ('model.dat', 'X1.FEM', 'T.FEM', 'T0.FEM', 'T1.txt'))
        _single(ctx, fmt, fn, 1, 'x')
        ctx.raises(["ValueError"], S, fn, 'out.h5')
    elif what == 'sin':
        fn = ctx.pick('fname', ('R1.SIN', 'r1.sin', 'aR1.SIN'))
        _single(ctx, fmt, fn, 1, 'x')
        ctx.raises(["ValueError"], S, fn, 'out.h5')
    elif what == 'append':
        ctx.raises(["ValueError"], S, 'T1.FEM', append=True)
    elif what == 'type':
        ctx.raises(["TypeError"], S, 5, 'out.h5')
    else:
        ctx.raises(["TypeError"], S, ['T1.FEM', 'T1.FEM'], in_memory=True)
    h = env.h5('out.h5')
    spec.check_table(ctx, h, '/T1', 'GCOORD', [a])
    h.close()


def instances(tier):
    out = []
    kinds = ('top', 'two', 'rev', 'three', 'skip') + (('deep',) if tier != 'quick' else ())
    for fmt in 'FU':
        for kind in kinds:
            for fp in ('', 'm-1_'):
                if kind != 'top':
                    out.append(Instance('input/%s/%s/%s' % (kind, fmt, fp), input_files, kind=kind, fmt=fmt,
                                        fprefix=fp, ext='FEM', weight=100, validate=1,
                                        bounds='fixed shapes of hierarchies, any subset of files present'))
                out.append(Instance('results/%s/%s/%s' % (kind, fmt, fp), result_files, kind=kind, fmt=fmt,
                                    fprefix=fp, ext='SIU' if fp else 'SIF', weight=100, validate=1,
                                    bounds='fixed shapes of hierarchies, any subset of files present'))
        out.append(Instance('folder/' + fmt, folder, fmt=fmt))
        out.append(Instance('names/' + fmt, names, fmt=fmt, weight=50))
        out.append(Instance('several/' + fmt, several, fmt=fmt, weight=20))
        out.append(Instance('refused/' + fmt, refused, fmt=fmt))
    return out
