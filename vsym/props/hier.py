"""Superelement hierarchies and the files that hold them (shared by harnesses)"""
from . import spec
from ..sifgen import SifFile


class Sel(object):
    """one row of the hierarchy: repetition `index` of superelement type `sel`"""

    def __init__(self, sel, index, level, parent):
        self.sel, self.index, self.level, self.parent = sel, index, level, parent


def tree(kind):
    """list of Sel in row order (row number = reference number)"""
    S = Sel
    if kind == 'top':           # only first-level superelement
        return [S(3, 1, 1, 0)]
    if kind == 'two':           # two levels, one superelement repeated
        return [S(3, 1, 2, 0), S(1, 1, 1, 1), S(1, 2, 1, 1), S(2, 1, 1, 1)]
    if kind == 'rev':           # repetitions in another order
        return [S(12, 1, 2, 0), S(1, 2, 1, 1), S(11, 1, 1, 1), S(1, 1, 1, 1)]
    if kind == 'three':         # an intermediate level, repeated
        return [S(30, 1, 3, 0), S(20, 1, 2, 1), S(20, 2, 2, 1), S(1, 1, 1, 2), S(2, 1, 1, 2),
                S(1, 2, 1, 3), S(2, 2, 1, 3)]
    if kind == 'skip':          # first-level superelement directly below level 3
        return [S(9, 1, 3, 0), S(5, 1, 2, 1), S(1, 1, 1, 1), S(1, 2, 1, 2), S(4, 1, 1, 2)]
    if kind == 'deep':
        return [S(40, 1, 4, 0), S(30, 1, 3, 1), S(20, 1, 2, 2), S(20, 2, 2, 2), S(1, 1, 1, 3),
                S(1, 2, 1, 4), S(2, 1, 1, 2), S(30, 2, 3, 1), S(20, 3, 2, 8), S(1, 3, 1, 9)]
    if kind == 'jump':          # levels left out on the way up
        return [S(40, 1, 4, 0), S(20, 1, 2, 1), S(1, 1, 1, 2), S(30, 1, 3, 1), S(1, 2, 1, 4), S(20, 2, 2, 4),
                S(1, 3, 1, 6)]
    raise KeyError(kind)


def emit_hierarch(s, rows, itref=None):
    for no, r in enumerate(rows, 1):
        subs = [k for k, q in enumerate(rows, 1) if q.parent == no]
        itr = (itref or (lambda n: n - 1))(no)
        s.t2('HIERARCH', [8 + len(subs), no, r.sel, r.index, r.level, itr, r.parent, len(subs)] + subs)


def emit_node(ctx, s, tag):
    r = spec.build(ctx, None, 'GCOORD', tag)
    r.emit(s)
    return r


def open_sifs(ctx, fmt, n):
    return [SifFile(fmt) for _ in range(n)]
