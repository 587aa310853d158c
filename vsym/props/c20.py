"""C20: signed extremes and element-node look-up are exact"""
import itertools

import numpy as np

from ..harness import Instance
from . import spec
from .model import Model

OUTSIDE = 'NaN; complex arrays; numbers given more than once to nodes or elements; pairs that are not in the model'


def absmax(ctx, env, shape, axis):
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        a[i] = ctx.real('a' + '.'.join(map(str, i)), -1000, 1000)
    arr = env.array(a.tolist())
    f = env.module('calc').absmax
    if axis == 'default':
        r, axis = ctx.guard(f, arr), None
    elif axis == 'keyword':
        r, axis = ctx.guard(f, arr, axis=len(shape) - 1), len(shape) - 1
    else:
        r = ctx.guard(f, arr, axis)
    ctx.same(arr, a, 'array of the caller after the call')
    if axis is None:
        out, groups = (), {(): list(a.ravel())}
    else:
        ax = axis % len(shape)
        out = shape[:ax] + shape[ax + 1:]
        groups = {i: list(a[i[:ax] + (slice(None),) + i[ax:]]) for i in np.ndindex(*out)}
    ctx.check(tuple(np.shape(r)) == out, 'result has shape %r, expected %r' % (np.shape(r), out))
    for i, vals in groups.items():
        v = r[i] if i else (r[()] if hasattr(r, '__getitem__') else r)
        ctx.check(ctx.any([ctx.eq(v, x) for x in vals]), 'result %r is not an element' % (v,))
        for x in vals:
            ctx.check(ctx.all([ctx.le(x, abs(v)), ctx.le(-x, abs(v))]),
                      'element %r is larger than the result %r' % (x, v))
            # on ties the positive one
            if ctx.symbolic:
                ctx.check(ctx.any([x != -v, v >= 0]), 'tie of %r and %r' % (x, v))
            else:
                ctx.check(np.float32(x) != -np.float32(v) or v >= 0, 'tie of %r and %r' % (x, v))


def ints(env, vals):
    return env.array(vals) if env.sym else np.array(vals, int)


def distinct(ctx, vals):
    for a, b in itertools.combinations(vals, 2):
        ctx.assume(a != b)


def place(t, j):
    """row of the results of an element of type t at its node j: those of
    type 26 go round the edge, its connectivity has the corners first"""
    return (0, 2, 4, 1, 3, 5)[j] if t == 26 else j


def look_up(ctx, env, idx, pairs, els, off, types):
    """els: list of node lists (any labels); pairs: (element index, node)"""
    ctx.check(tuple(idx.shape) == (len(pairs),), 'shape %r of the indices' % (tuple(idx.shape),))
    for (k, n), i in zip(pairs, idx):
        start = off[k - 1] if k else 0
        ok = [start + place(types[k], j) for j, m in enumerate(els[k]) if m == n]
        ctx.check(int(i) in ok, 'pair (element %d, node %d) is at %r, found %r' % (k, n, ok, int(i)))


def direct(ctx, env, counts, nn, con):
    """given arrays"""
    nodex = [ctx.int('nodex%d' % i, 1, 1 << 20) for i in range(nn)]
    elx = [ctx.int('elx%d' % k, 1, 1 << 20) for k in range(len(counts))]
    distinct(ctx, nodex)
    distinct(ctx, elx)
    els = []
    for k, c in enumerate(counts):
        opts = [[(i + d * j) % nn for j in range(c)] for i in range(nn) for d in (1, -1)] if con == 'turn' else \
            list(itertools.permutations(range(nn), c)) if con == 'perm' else \
            list(itertools.product(range(nn), repeat=c))
        els.append(list(ctx.pick('con%d' % k, opts)))
    off = [sum(counts[:k + 1]) for k in range(len(counts))]
    numb = ints(env, [nodex[n] for e in els for n in e])
    typ = [{2: 15, 3: 25, 4: 24, 6: 26}[c] for c in counts]
    elems = (np.arange(off[-1]), np.array(off), np.array(typ))
    pairs = [(k, n) for k in range(len(els)) for n in sorted(set(els[k]))]
    if ctx.flag('backwards'):
        pairs.reverse()
    f = env.module('calc').find_elemres_indices
    arg = [(elx[k], nodex[n]) for k, n in pairs]
    idx = ctx.guard(f, arg, elems, ints(env, elx), numb)
    look_up(ctx, env, idx, pairs, els, off, typ)
    k = len(pairs) // 2
    one = ctx.guard(f, [arg[k]], elems, ints(env, elx), numb)
    look_up(ctx, env, one, [pairs[k]], els, off, typ)


def model(ctx, env, eltyps, nn, conn, fmt, sets):
    """with the arrays the package gives for a model"""
    m = Model(ctx, env)
    m.nodes(nn)
    m.elements(eltyps, conn)
    distinct(ctx, m.nodex)
    distinct(ctx, [e[0] for e in m.els])
    kw = {}
    sel = list(range(len(m.els)))
    if sets:
        m.element_sets(1)
        sel = sorted(m.sets[0][1])
        ctx.assume(bool(sel))
        kw = dict(sets='SETA')
    m.write(fmt)
    ctx.guard(env.fs.sif2hdf5, 'T1.FEM', 'out.h5')
    f = ctx.guard(env.fs.open_hdf5, 'out.h5')
    t = ctx.guard(lambda: f['T1'])
    elems = ctx.guard(t.get_elements, disconnected=True, **kw)
    elnumb = ctx.guard(t.get_elementnumbers, **kw)
    numb = ctx.guard(t.get_nodenumbers, disconnected=True, **kw)
    xyz = ctx.guard(t.get_nodes, disconnected=True, **kw)
    els = [m.els[k][2] for k in sel]
    off = list(itertools.accumulate(len(e) for e in els))
    pairs = [(k, n) for k in range(len(els)) for n in sorted(set(els[k]))]
    idx = ctx.guard(env.module('calc').find_elemres_indices,
                    [(m.els[sel[k]][0], m.nodex[n]) for k, n in pairs], elems, elnumb, numb)
    types = [m.els[k][1] for k in sel]
    look_up(ctx, env, idx, pairs, els, off, types)
    for (k, n), i in zip(pairs, idx):
        if types[k] != 26:
            ctx.same(xyz[int(i)], m.xyz[n], 'node %d of element %d' % (n, k))
    ctx.guard(f.close)


def instances(tier):
    big = tier == 'thorough'
    out = []
    A = [((3,), (None, 0, -1)), ((2, 2), ('default', 0, 1)), ((1, 3), (-1, 'keyword')), ((2, 3), (0, 1)),
         ((2, 1, 2), (0, 1, 2, -2)), ((4,), (0,))]
    if big:
        A += [((3, 2), (None, 0, 1)), ((5,), (0,)), ((2, 2, 2), (0, 1, -1)), ((3, 3), (1,))]
    for sh, axes in A:
        for ax in axes:
            out.append(Instance('absmax/%s/%s' % ('x'.join(map(str, sh)), ax), absmax, shape=sh, axis=ax,
                                bounds='all real arrays of this shape, every order of the elements'))
    D = [((6,), 6, 'turn'), ((2, 6), 6, 'turn'), ((2, 2), 3, 'perm'), ((2, 3), 3, 'perm'), ((3, 2), 3, 'all'), ((2, 2, 2), 3, 'perm')]
    if big:
        D += [((3, 3, 2), 3, 'perm'), ((3, 3), 4, 'perm'), ((2, 2, 2), 3, 'all')]
    for c, nn, con in D:
        out.append(Instance('direct/%s/%d%s' % (''.join(map(str, c)), nn, con), direct, counts=c, nn=nn, con=con,
                            bounds='elements with these numbers of nodes sharing nodes in every way, symbolic '
                                   'external numbers, all pairs'))
    M = [((15, 25), 3, 3, 'U', False), ((25, 15, 18), 4, 3, 'U', True), ((24, 26), 5, 3, 'F', False)]
    if big:
        M += [((28, 15, 25), 8, 3, 'U', True), ((15, 15, 15, 15), 4, 2, 'U', True)]
    for el, nn, conn, fmt, sets in M:
        out.append(Instance('model/%s%s' % ('.'.join(map(str, el)), '/sets' if sets else ''), model,
                            eltyps=el, nn=nn, conn=conn, fmt=fmt, sets=sets,
                            bounds='arrays of converted models with these elements'))
    return out
