"""C22: names of Interface Files are taken apart the same way everywhere"""
import os

from ..harness import Instance
from ..sifgen import SifFile

OUTSIDE = ('names with characters other than ASCII letters, digits, - and _ before the extension; symbolic links; '
           'files whose name does not carry the number of their superelement; prefixes of more than 7 characters other than '
           'those of the instances')

CHARS = 'tTlLrRgGhHsSiIfFuUnNeEmM0123456789_-xZ'
LEAD = ('20231005', 'project-7_Rev2-Final_model_R1T2_of-the-whole_Structure-and-20-more')
NUM = ('1', '20', '305')
# letter, extension, number in the name, second part of the number, class method
KINDS = (('T', 'FEM', ''), ('L', 'FEM', ''), ('R', 'SIF', ''), ('R', 'SIU', 'H2'), ('G', 'SIF', ''),
         ('R', 'SIU', ''), ('R', 'SIF', 'H31'))


def write(ctx, env, path, letter, number):
    s = SifFile('F')
    s.ident(int(number))
    if letter == 'G':
        v = [ctx.real('m%d' % i) for i in range(6)]
        s.t2('WGLOBDEF', [4, 9.81, 1025., 0])
        s.t2('WBODCON', [7, 1, 1, 1, 1., 1., 0.])
        s.t2('WDRESREF', [10, 1, 1, 2, 1, 1, .5, 2, 1, 2.])
        s.t2('W1MOTION', [10, 1, 1, 0] + v)
    else:
        v = [ctx.real('x%d' % i) for i in range(3)]
        s.t1('GNODE', [1, 1, 6, 123456])
        s.t1('GCOORD', [1] + v)
        s.t1('GELMNT1', [1, 1, 18, 0, 1, 1])
    s.end()
    s.write(path)
    return v


def verify(ctx, d, letter, v, what):
    if letter == 'G':
        ctx.same(ctx.guard(d.get_motion_raos), [[[x]] for x in v], what + ': motions')
    else:
        ctx.same(ctx.guard(d.get_nodes), [v], what + ': coordinates')


def valid(ctx, env, kind, n, lower, up, lead=''):
    """any prefix of n characters: the data arrive in the group made of prefix, letter and number"""
    letter, ext, h = kind
    number = ctx.pick('number', ('4711', '20305') if lead else NUM if n < 5 else NUM[:1])
    prefix = lead + ''.join(ctx.char('c%d' % i, CHARS) for i in range(n))
    h = h.lower() if lower else h
    if up is None:   # every letter of the extension, and the type letter, in either case
        letter_ = ctx.char('l', letter.lower() + letter)
        ext = ''.join(ctx.char('e%d' % i, c.lower() + c) for i, c in enumerate(ext))
    else:
        letter_ = letter.lower() if lower else letter
        ext = ext if up else ext.lower()
    name = prefix + letter_ + number + h + '.' + ext
    v = write(ctx, env, os.path.join(env.dir, name), letter, number)
    exp = prefix + letter + number
    sub = ctx.pick('how', ('open_sif', 'convert', 'noprefix'))
    path = ctx.text(os.path.join(env.dir, name))
    exp = ctx.text(exp)
    if sub == 'open_sif':
        d = ctx.guard(env.fs.open_sif, path)
        verify(ctx, d, letter, v, 'open_sif')
        ctx.check(d.name == exp, 'open_sif gives %r' % d.name)
        ctx.guard(d.close)
        return
    h5 = os.path.join(env.dir, 'out.h5')
    if sub == 'convert':
        ctx.guard(env.fs.sif2hdf5, path, h5)
    else:
        ctx.guard(env.fs.sif2hdf5, path, h5, usefileprefix=False, prefix='q_')
        exp = ctx.text('q_' + letter + number)
    f = ctx.guard(env.fs.open_hdf5, h5)
    ks = list(f.keys())
    ctx.check(ks == [exp], 'data found as %r' % ks)
    verify(ctx, f[ks[0]], letter, v, 'converted file')
    ctx.guard(f.close)


def invalid(ctx, env, n, ext):
    """names that are not of the documented form are refused"""
    stem = [ctx.char('c%d' % i, CHARS) for i in range(n)]
    if ext in ('.FEM', '.sif', '.SIU'):
        import z3

        def formula(F):
            letter = lambda c: F(c, lambda x: x in 'rtglRTGL')
            d1 = lambda c: F(c, lambda x: x in '123456789')
            d = lambda c: F(c, lambda x: x in '0123456789')
            num = lambda cs: z3.And([d1(cs[0])] + [d(c) for c in cs[1:]])
            ways = []
            for k in range(n):
                rest = stem[k + 1:]
                if not rest:
                    continue
                ways.append(z3.And(letter(stem[k]), num(rest)))
                for j in range(1, len(rest) - 1):
                    ways.append(z3.And(letter(stem[k]), num(rest[:j]), F(rest[j], lambda x: x in 'hH'),
                                       num(rest[j + 1:])))
            return z3.Not(z3.Or(ways or [z3.BoolVal(False)]))

        def concrete():
            import re
            return not re.search('[rtglRTGL][1-9][0-9]*([hH][1-9][0-9]*)?$', ''.join(stem))
        ctx.require(stem, formula, concrete)
    name = ''.join(stem) + ext
    path = os.path.join(env.dir, name)
    write(ctx, env, path, 'T', '1')
    path, h5 = ctx.text(path), os.path.join(env.dir, 'out.h5')
    what = ctx.pick('how', ('open_sif', 'convert'))
    if what == 'convert':
        ctx.raises(('ValueError',), env.fs.sif2hdf5, path, h5)
        ctx.check(not os.path.exists(h5), 'a refused name leaves a file behind')
    else:
        ctx.raises(('ValueError',), env.fs.open_sif, path)


def otherext(ctx, env, n):
    """names with any extension of n characters but the documented ones are refused"""
    ext = [ctx.char('e%d' % i, CHARS) for i in range(n)]
    if n == 3:
        import z3

        def formula(F):
            return z3.Not(z3.Or([z3.And([F(c, lambda x, y=y: x.upper() == y) for c, y in zip(ext, w)])
                                 for w in ('FEM', 'SIF', 'SIU')]))

        def concrete():
            return ''.join(ext).upper() not in ('FEM', 'SIF', 'SIU')
        ctx.require(ext, formula, concrete)
    path = os.path.join(env.dir, 'aT1.' + ''.join(ext))
    write(ctx, env, path, 'T', '1')
    path, h5 = ctx.text(path), os.path.join(env.dir, 'out.h5')
    if ctx.pick('how', ('open_sif', 'convert')) == 'convert':
        ctx.raises(('ValueError',), env.fs.sif2hdf5, path, h5)
        ctx.check(not os.path.exists(h5), 'a refused name leaves a file behind')
    else:
        ctx.raises(('ValueError',), env.fs.open_sif, path)


def instances(tier):
    out = []
    full = tier == 'thorough'
    k = 0
    for n in (0, 1, 2, 3, 6, 7) if full else (0, 1, 2, 6):
        for kind in KINDS if full else KINDS[:5] if n < 6 else KINDS[:4:2]:
            k += 1
            for lower, up in ((False, True), (True, False), (True, True), (False, False)) if full and n < 6 else \
                    (((False, True), (True, False)) if n < 6 else ((k % 2 == 0, k % 2 == 1),)):
                out.append(Instance('valid/%s%s%s/%d/%d%d' % (kind + (n, lower, up)), valid, kind=kind, n=n,
                                    lower=lower, up=up, weight=n + 1, bounds='prefixes of %d characters' % n))
    for kind in KINDS if full else KINDS[:5]:
        for n in (0, 2) if full else (1,):
            out.append(Instance('case/%s%s%s/%d' % (kind + (n,)), valid, kind=kind, n=n, lower=False, up=None,
                                weight=3, bounds='prefixes of %d characters, upper and lower case mixed' % n))
    for kind in KINDS if full else KINDS[:5]:
        for lead in LEAD:
            out.append(Instance('long/%s%s%s/%d' % (kind + (len(lead),)), valid, kind=kind, n=2, lower=False, up=True,
                                lead=lead, weight=3, bounds='prefixes of %d characters, of which 2 are any' % (
                                    len(lead) + 2)))
    for n in (2, 3, 4) if full else (3,):
        out.append(Instance('anyext/%d' % n, otherext, n=n, weight=3,
                            bounds='any extension of %d characters' % n))
    for n in (1, 2, 3, 4, 5, 6) if full else (1, 2, 3, 4):
        for ext in ('.FEM', '.sif', '.SIU'):
            out.append(Instance('invalid/%d%s' % (n, ext), invalid, n=n, ext=ext, weight=n,
                                bounds='names of %d characters and an extension' % n))
    for n in (2, 6, 7) if full else (2, 6):
        for ext in ('.txt', '.h5', '.F', '', '.SIN'):
            out.append(Instance('otherext/%d%s' % (n, ext), invalid, n=n, ext=ext, weight=n,
                                bounds='names of %d characters and a foreign extension' % n))
    return out
