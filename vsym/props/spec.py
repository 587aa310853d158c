"""Independent description of the SESAM Interface records that freesif stores.

For every record type a builder makes one record with symbolic contents, in the
layout of the SESAM Interface File manual, together with what has to be found
in the HDF5 file for it: the row of the table and the elements of each of the
arrays of variable length.  Nothing here is taken from the tables in freesif.
"""


class Rec(object):
    def __init__(self, name, style, vals, row, vl=None, lines=None):
        self.name = name        # record name on the file
        self.style = style      # 't1' | 't2' | 'text' | 'td' | 'lines'
        self.vals = vals
        self.row = row          # column -> expected value (scalar or nested list)
        self.vl = vl or {}      # array name -> list of expected elements
        self.lines = lines

    def emit(self, s):
        if self.style == 't1':
            s.t1(self.name, self.vals)
        elif self.style == 't2':
            s.t2(self.name, self.vals)
        elif self.style == 'lines':
            s.header(self.name, self.vals)
            for ln in self.lines:
                s.cont(list(ln) + [0.] * (4 - len(ln)))
        elif self.style == 'text':
            s.text_rec(self.name, *self.lines)
        elif self.style == 'td':
            s.td(self.name, *self.lines)


# -- records of fixed layout ---------------------------------------------------
# 'i' integer, 'f' real, 'x' field without meaning (only its place counts),
# '[4x4]' matrix stored row by row; fields after '|' are optional (type 1) and
# read as zero when absent

FIXED1 = {
    'GNODE': 'nodex:i nodeno:i ndof:i odof:i',
    'GCOORD': 'nodeno:i xcoord:f ycoord:f zcoord:f',
    'GECCEN': 'eccno:i ex:f ey:f ez:f',
    'GUNIVEC': 'transno:i unix:f uniy:f uniz:f',
    'GELTH': 'geono:i th:f nint:i',
    'GBEAMG': 'geono:i void:f area:f ix:f iy:f iz:f iyz:f wxmin:f wymin:f wzmin:f '
              'shary:f sharz:f shceny:f shcenz:f sy:f sz:f',
    'GBARM': 'geono:i hz:f bt:f bb:f sfy:f sfz:f | nloby:i nlobz:i',
    'GBOX': 'geono:i hz:f ty:f t_b:f tt:f by:f sfy:f sfz:f | nloby:i nlobz:i',
    'GCHAN': 'geono:i hz:f ty:f by:f tz:f sfy:f sfz:f empty:i k:i | nloby:i nlobz:i',
    'GCHANR': 'geono:i hz:f ty:f by:f tz:f sfy:f sfz:f empty:i k:i r:f | nloby:i nlobz:i',
    'GDOBO': 'geono:i hz:f ty:f by:f tt:f t_b:f sfy:f sfz:f | nloby:i nlobz:i',
    'GIORH': 'geono:i hz:f ty:f bt:f tt:f bb:f t_b:f sfy:f sfz:f | nlobyt:i nlobyb:i nlobz:i',
    'GIORHR': 'geono:i hz:f ty:f bt:f tt:f bb:f t_b:f sfy:f sfz:f rt:f rb:f nlobyt:i | '
              'nlobyb:i nlobz:i',
    'GLSEC': 'geono:i hz:f ty:f by:f tz:f sfy:f sfz:f k:f | nloby:i nlobz:i',
    'GLSECR': 'geono:i hz:f ty:f by:f tz:f sfy:f sfz:f k:f r:f | nloby:i nlobz:i',
    'GPIPE': 'geono:i di:f dy:f t:f sfy:f sfz:f | ncir:i nrad:i',
    'GUSYI': 'geono:i hz:f ty:f bt:f b1:f tt:f bb:f b2:f t_b:f sfy:f sfz:f nlobyt:i | '
             'nlobyb:i nlobz:i',
    'MISOSEL': 'matno:i young:f poiss:f rho:f damp:f alpha:f',
    'BGRAV': 'llc:i empty1:f empty2:f opt:i gx:f gy:f gz:f',
}

# nfield records without variable part
FIXED2 = {
    'HSUPTRAN': 'itref:i t:[4x4]',
    'RSUPTRAN': 'itref:i t:[4x4]',
    'WBODY': 'ibcond:i clenb:f bmass:f wsarea:f wparea:f vol:f xcg:f ycg:f zcg:f '
             'xcb:f ycb:f zcb:f xrb:f yrb:f zrb:f t:[4x4]',
    'W1MATRIX': 'imatrx:i ibconi:i ibconj:i iwres:i imtyp:i hmat:[6x6]',
    'W2HDRIFT': 'ibcond:i iwres:i shfor:[3]',
    'W2MDRIFT': 'ibcond:i iwres:i smfor:[6]',
    'WFKPOINT': 'ifkpnt:i fkpnt:[3]',
    'WSECTION': 'ibody:i isect:i isecty:i secusr:i p1:[3] p2:[3] p3:[3]',
    'WINPUT': 'ibcond:i t:[4x4]',
}


def _value(ctx, name, typ):
    """-> (list of numbers in file order, expected cell)"""
    if typ == 'i':
        v = ctx.int(name)
        return [v], v
    if typ == 'f':
        v = ctx.real(name)
        return [v], v
    dims = [int(k) for k in typ[1:-1].split('x')]
    n = 1
    for k in dims:
        n *= k
    flat = [ctx.real('%s.%d' % (name, k)) for k in range(n)]
    if len(dims) == 1:
        return flat, list(flat)
    return flat, [flat[i * dims[1]:(i + 1) * dims[1]] for i in range(dims[0])]


def _fields(text):
    return [f.split(':') for f in text.split()]


def fixed1(ctx, name, tag):
    man, _, opt = FIXED1[name].partition('|')
    vals, row = [], {}
    for f, typ in _fields(man):
        v, c = _value(ctx, tag + '.' + f, typ)
        vals += v
        row[f] = c
    if opt:
        opt = _fields(opt)
        n = ctx.pick(tag + '.opt', (0, len(opt)))
        for k, (f, typ) in enumerate(opt):
            if k < n:
                v, c = _value(ctx, tag + '.' + f, typ)
                vals += v
                row[f] = c
            else:
                row[f] = 0
    return Rec(name, 't1', vals, row)


def fixed2(ctx, name, tag):
    vals, row = [], {}
    for f, typ in _fields(FIXED2[name]):
        v, c = _value(ctx, tag + '.' + f, typ)
        vals += v
        row[f] = c
    row['nfield'] = len(vals) + 1
    return Rec(name, 't2', [len(vals) + 1] + vals, row)


def _nf(name, vals, row, vl=None):
    row['nfield'] = len(vals) + 1
    return Rec(name, 't2', [len(vals) + 1] + vals, row, vl)


def _ints(ctx, tag, names):
    return {n: ctx.int('%s.%s' % (tag, n)) for n in names.split()}


# -- other fixed records --------------------------------------------------------

def ident(ctx, name, tag):
    r = _ints(ctx, tag, 'slevel selmod')
    r['seltyp'] = 1
    return Rec('IDENT', 't1', [r['slevel'], 1, r['selmod'], 0.], r)


def brigac(ctx, name, tag):
    cplx = ctx.flag(tag + '.complex')
    r = {'llc': ctx.int(tag + '.llc'), 'complx': int(cplx)}
    fl = 'xcoord ycoord zcoord'.split() + ['raccl%d' % k for k in range(1, 7)]
    im = ['iaccl%d' % k for k in range(1, 7)]
    for f in ['empty1', 'empty2', 'empty3'] + fl:
        r[f] = ctx.real(tag + '.' + f)
    for f in im:
        r[f] = ctx.real(tag + '.' + f) if cplx else 0
    order = ['llc', 'empty1', 'complx', 'empty2', 'xcoord', 'ycoord', 'zcoord', 'empty3'] + \
        fl[3:] + (im if cplx else [])
    return Rec('BRIGAC', 't1', [r[f] for f in order], r)


def wglobdef(ctx, name, tag):
    d = ctx.flag(tag + '.finite')
    r = dict(g=ctx.real(tag + '.g'), ro=ctx.real(tag + '.ro'), idepth=int(d))
    vals = [r['g'], r['ro'], r['idepth']]
    if d:
        r['depth'] = ctx.real(tag + '.depth')
        vals.append(r['depth'])
    return _nf(name, vals, r)


def _cplx(ctx, env, tag, n, cplx):
    vals, exp = [], []
    for k in range(n):
        re = ctx.real('%s.re%d' % (tag, k))
        vals.append(re)
        im = 0.
        if cplx:
            im = ctx.real('%s.im%d' % (tag, k))
            vals.append(im)
        exp.append(env.complex(re, im))
    return vals, exp


def wcommon(ctx, name, tag, env=None):
    c = ctx.flag(tag + '.complex')
    r = _ints(ctx, tag, 'ibcond iwres')
    r['icompl'] = int(c)
    v, e = _cplx(ctx, env, tag, 6, c)
    r['data'] = e
    return _nf(name, [r['ibcond'], r['iwres'], r['icompl']] + v, r)


def w1sforce(ctx, name, tag, env=None):
    c = ctx.flag(tag + '.complex')
    r = _ints(ctx, tag, 'ibcond isect iwres')
    r['icompl'] = int(c)
    v, e = _cplx(ctx, env, tag, 6, c)
    r['data'] = e
    return _nf(name, [r['ibcond'], r['isect'], r['iwres'], r['icompl']] + v, r)


def wfluidkn(ctx, name, tag, env=None):
    c = ctx.flag(tag + '.complex')
    r = _ints(ctx, tag, 'iwres ifkpnt')
    r['icompl'] = int(c)
    v, e = _cplx(ctx, env, tag, 4, c)
    r['p'], r['v'] = e[0], e[1:]
    return _nf(name, [r['iwres'], r['ifkpnt'], r['icompl']] + v, r)


def w1panpre(ctx, name, tag, env=None):
    c = ctx.flag(tag + '.complex')
    r = _ints(ctx, tag, 'ibcond iwres ippan isymm1 ipan isymm2')
    r['icompl'] = int(c)
    v, e = _cplx(ctx, env, tag, 1, c)
    r['p'] = e[0]
    return _nf(name, [r['ibcond'], r['iwres'], r['ippan'], r['isymm1'], r['icompl']] + v +
               [r['ipan'], r['isymm2']], r)


# -- records with a variable part -------------------------------------------------

NNOD = {15: 2, 16: 2, 18: 1, 23: 3, 24: 4, 25: 3, 26: 6, 28: 8}
N = 3       # bound of the lengths (harness instances override it)


def _reals(ctx, tag, n):
    return [ctx.real('%s.%d' % (tag, k)) for k in range(n)]


def _intl(ctx, tag, n):
    return [ctx.int('%s.%d' % (tag, k)) for k in range(n)]


def hierarch(ctx, name, tag):
    r = _ints(ctx, tag, 'ihref indsel itref ihpref')
    r['iselty'] = 1
    r['islevl'] = 1
    n = r['nsub'] = ctx.choice(tag + '.nsub', 0, N)
    ref = _intl(ctx, tag + '.ihsref', n)
    return _nf(name, [r['ihref'], r['iselty'], r['indsel'], r['islevl'], r['itref'], r['ihpref'],
                      n] + ref, r, {'ihsref': ref})


def text(ctx, name, tag):
    n = ctx.choice(tag + '.nrecs', 0, 2)
    lines = [' ' * 8 + 'line %d of %s' % (k, tag) for k in range(n)]
    typ, sub = ctx.int(tag + '.type'), ctx.int(tag + '.subtype')
    row = {'type': typ, 'subtype': sub, 'nrecs': n, 'nbyte': 80}
    return Rec(name, 'text', None, row, {'recs': [ln.encode() for ln in lines]},
               (typ, sub, lines))


def td(ctx, name, tag):
    idno = ctx.int(tag + '.idno')
    nam = ctx.pick(tag + '.name', ('A', 'name with blanks', None, 'x' * 64, ('two_', 'lines')))
    n = ctx.choice(tag + '.ntext', 0, 2)
    txt = ['text %d of %s' % (k, tag) for k in range(n)]
    row = {'nfield': 4, 'idno': idno, 'name': ''.join(nam or '').encode(),
           'codnam': 205 if type(nam) is tuple else 100 + len(nam) if nam else 0,
           'codtxt': 100 * n + (max(len(t) for t in txt) if n else 0)}
    return Rec(name, 'td', None, row, {'text': [t.encode() for t in txt]}, (idno, nam, txt))


def gelmnt1(ctx, name, tag):
    r = _ints(ctx, tag, 'elnox eltyad')
    t = r['eltyp'] = ctx.pick(tag + '.eltyp', sorted(NNOD))
    r['elno'] = ctx.choice(tag + '.elno', 1, 1)
    nod = _intl(ctx, tag + '.nodin', NNOD[t])
    return Rec(name, 't1', [r['elnox'], r['elno'], t, r['eltyad']] + nod, r, {'nodin': nod})


def gelmnt2(ctx, name, tag):
    r = _ints(ctx, tag, 'subno slevel stype addno')
    t = _reals(ctx, tag + '.t', 12)
    n = r['nnod'] = ctx.choice(tag + '.nnod', 0, N + 1)
    nod = _intl(ctx, tag + '.nod', n)
    vals = [r['subno'], r['slevel'], r['stype'], r['addno']] + t + [n] + nod
    r['t'] = t
    return Rec(name, 't1', vals, r, {'nod': nod})


def gelref1(ctx, name, tag, eltyp=15, elno=1, small=False):
    """needs a GELMNT1 record of that element before it"""
    r = _ints(ctx, tag, 'matno addno intno mintno strano streno strepono')
    r['elno'] = elno
    vals = [elno] + [r[f] for f in 'matno addno intno mintno strano streno strepono'.split()]
    vl, tail = {}, []
    for f in ('geono', 'fixno', 'eccno', 'transno'):
        if not (small and f in ('fixno', 'transno')) and ctx.flag('%s.%s_each' % (tag, f)):
            r[f] = -1
            vl[f] = _intl(ctx, '%s.%s' % (tag, f), NNOD[eltyp])
            tail += vl[f]
        else:
            r[f] = ctx.int('%s.%s' % (tag, f))
            vl[f] = []
        vals.append(r[f])
    return Rec(name, 't1', vals + tail, r, vl)


def gsetmemb(ctx, name, tag):
    r = _ints(ctx, tag, 'isref index istype isorig')
    m = _intl(ctx, tag + '.irmemb', ctx.choice(tag + '.n', 0, N))
    return _nf(name, [r['isref'], r['index'], r['istype'], r['isorig']] + m, r, {'irmemb': m})


def sconcept(ctx, name, tag):
    r = _ints(ctx, tag, 'ircon sconrole irparent')
    t = r['scontype'] = ctx.pick(tag + '.scontype', (7, 2))
    vals = [r['ircon'], t, r['sconrole'], r['irparent']]
    part, join = [], []
    r['npart'] = r['njoin'] = 0
    if t == 7:
        part = _intl(ctx, tag + '.irpart', ctx.choice(tag + '.npart', 0, 2))
        join = _intl(ctx, tag + '.irjoin', ctx.choice(tag + '.njoin', 0, 2))
        r['npart'], r['njoin'] = len(part), len(join)
        vals += [len(part), len(join)] + part + join
    return _nf(name, vals, r, {'irpart': part, 'irjoin': join})


def sconmesh(ctx, name, tag):
    r = _ints(ctx, tag, 'ircon typrep')
    r['numrep'] = 1
    m = _intl(ctx, tag + '.irferep', ctx.choice(tag + '.n', 0, N))
    r['nferep'] = len(m)
    return _nf(name, [r['ircon'], 1, r['typrep'], len(m)] + m, r, {'irferep': m})


def bnbcd(ctx, name, tag):
    r = dict(nodeno=ctx.int(tag + '.nodeno'))
    n = r['ndof'] = ctx.choice(tag + '.ndof', 0, 7)
    fix = _intl(ctx, tag + '.fix', n)
    return Rec(name, 't1', [r['nodeno'], n] + fix, r, {'fix': fix})


def bldep(ctx, name, tag):
    r = _ints(ctx, tag, 'nodeno cnod ndof')
    n = r['ndep'] = ctx.choice(tag + '.ndep', 0, N)
    deps = [_reals(ctx, '%s.dep%d' % (tag, k), 3) for k in range(n)]
    return Rec(name, 'lines', [r['nodeno'], r['cnod'], r['ndof'], n], r, {'deps': deps}, deps)


def beuslo(ctx, name, tag):
    r = _ints(ctx, tag, 'llc lotyp layer elno intno side')
    c = r['complx'] = ctx.choice(tag + '.complx', 0, 1)
    n = r['ndof'] = ctx.choice(tag + '.ndof', 1, N)
    re = _reals(ctx, tag + '.rload', n)
    im = _reals(ctx, tag + '.iload', n) if c else []
    return Rec(name, 't1', [r['llc'], r['lotyp'], c, r['layer'], r['elno'], n, r['intno'],
                            r['side']] + re + im, r, {'rload': re, 'iload': im})


def compdef(ctx, name, tag):
    r = dict(ir=ctx.choice(tag + '.ir', 11, 12))
    n = r['lenrec'] = ctx.choice(tag + '.lenrec', 1, N + 2)
    c = _intl(ctx, tag + '.icomp', n)
    return _nf(name, [r['ir'], n] + c, r, {'icomp': c})


def rdpoints(ctx, name, tag, small=False):
    r = _ints(ctx, tag, 'ieltyp nsp')
    # reference numbers are used as keys by any reader: small concrete values
    r.update(ispalt=ctx.choice(tag + '.ispalt', 31, 31), iielno=ctx.choice(tag + '.iielno', 7, 7),
             icoref=ctx.choice(tag + '.icoref', 42, 42))
    nok, noj, noi = ctx.pick(tag + '.grid', ((1, 2, 1), (2, 1, 1)) if small else ((1, 1, 1), (1, 2, 1), (2, 1, 2), (1, 1, 3), (2, 2, 1)))
    r['ijkdim'] = nok * 10000 + noj * 100 + noi
    nt = r['nsptra'] = ctx.choice(tag + '.nsptra', 0, 1)
    r['nlay'] = ctx.int(tag + '.nlay')
    vals = [r['ispalt'], r['iielno'], r['icoref'], r['ieltyp'], r['nsp'], r['ijkdim'], nt, r['nlay']]
    pts = []
    for k in range(nok * noj * noi):
        if k == 0 or ctx.flag('%s.p%d.used' % (tag, k)):
            p = [ctx.int('%s.p%d.no' % (tag, k), 1, 1 << 20)] + _reals(ctx, '%s.p%d' % (tag, k), 3)
            pts.append(p)
            vals += p
        else:
            vals.append(-1)
    xf = []
    for k in range(nt):
        x = _reals(ctx, '%s.x%d' % (tag, k), 9)
        vals += x
        xf.append([x[:3], x[3:6], x[6:]])
    return _nf(name, vals, r, {'respoint': pts, 'xform': xf})


def rdielcor(ctx, name, tag, icoref=15):
    """without RDPOINTS data: grids of the beam (15) and the 4-node shell (24)"""
    nok, noj, noi = {15: (1, 1, 3), 24: (2, 3, 3)}[icoref]
    r = dict(icoref=icoref, igrid=ctx.int(tag + '.igrid'))
    g, b, a = (_reals(ctx, '%s.%s' % (tag, f), n) for f, n in
               (('gamma', nok), ('beta', noj), ('alpha', noi)))
    return _nf(name, [icoref, r['igrid']] + g + b + a, r,
               {'gamma': g, 'beta': b, 'alpha': a, 'layers': []})


def rdresref(ctx, name, tag, ires=None):
    r = _ints(ctx, tag, 'irno ieres icalty')
    r['ires'] = ctx.choice(tag + '.ires', 1, 1) if ires is None else ires
    r['icompl'] = ctx.choice(tag + '.icompl', 0, 1)
    n = r['numtyp'] = ctx.choice(tag + '.numtyp', 0, 2)
    t = [_reals(ctx, '%s.ref%d' % (tag, k), 3) for k in range(n)]
    return _nf(name, [r['ires'], r['irno'], r['ieres'], r['icalty'], r['icompl'], n] + sum(t, []),
               r, {'reftyps': t})


def xcmb(ctx, name, tag):
    r = _ints(ctx, tag, 'ires icompl')
    n = r['nblc'] = ctx.choice(tag + '.nblc', 0, N)
    t = [_reals(ctx, '%s.c%d' % (tag, k), 3) for k in range(n)]
    return _nf(name, [r['ires'], r['icompl'], n] + sum(t, []), r,
               {'blcs' if name == 'RBLODCMB' else 'rcs': t})


def rvnod(ctx, name, tag):
    r = _ints(ctx, tag, 'ires iinod irdva itrans')
    v = _reals(ctx, tag + '.v', ctx.pick(tag + '.n', (6, 12, 3)))
    return _nf(name, [r['ires'], r['iinod'], r['irdva'], r['itrans']] + v, r,
               {{'RVNODACC': 'acc', 'RVNODDIS': 'dis', 'RVNODVEL': 'vel'}[name]: v})


def rvelm(ctx, name, tag):
    """one result record with the RDPOINTS, component and RDRESREF records it needs"""
    nsp = ctx.choice(tag + '.nsp', 1, 2)
    nc = ctx.choice(tag + '.ncomp', 1, 2)
    cplx = ctx.choice(tag + '.icompl', 0, 1)
    el, ispalt, ir, ires = (ctx.pick('%s.%s' % (tag, f), (7,)) for f in ('el', 'spalt', 'ir', 'ires'))
    rd = 'RD' + name[2:]
    pre = [
        _nf('RDPOINTS', [ispalt, el, 24, 24, nsp, 10101, 0, 0, -1], {}),
        _nf(rd, [ir, nc] + [1] * nc, {}),
        _nf('RDRESREF', [ires, 1, 1, 0, cplx, 0], {}),
    ]
    v = _reals(ctx, tag + '.v', nsp * nc * (1 + cplx))
    r = dict(ires=ires, iielno=el, ispalt=ispalt, ir=ir)
    rec = _nf(name, [ires, el, ispalt, ir] + v, r,
              {{'RVFORCES': 'force', 'RVSTRAIN': 'strain', 'RVSTRESS': 'stress'}[name]: v})
    rec.pre = pre
    return rec


def wbodcon(ctx, name, tag):
    r = _ints(ctx, tag, 'ibcond ibody')
    n = r['numcon'] = ctx.choice(tag + '.numcon', 0, N)
    t = [_reals(ctx, '%s.c%d' % (tag, k), 3) for k in range(n)]
    return _nf(name, [r['ibcond'], r['ibody'], n] + sum(t, []), r, {'refcond': t})


def wdresref(ctx, name, tag):
    r = dict(iwres=ctx.int(tag + '.iwres'))
    n = r['nresrf'] = ctx.choice(tag + '.nresrf', 1, 2)
    types = ctx.pick(tag + '.types', ((1,), (1, 2), (2, 1), (1, 2, 3), (3,), (1, 3)))
    r['numtyp'] = len(types)
    vals = [r['iwres'], n, len(types)]
    vl = {'dir': [], 'freq': [], 'time': []}
    for t in types:
        vals.append(t)
        for k in range(n):
            p = _reals(ctx, '%s.t%d.%d' % (tag, t, k), 2)
            vals += p
            vl[('dir', 'freq', 'time')[t - 1]].append(p)
    return _nf(name, vals, r, vl)


def wsurface(ctx, name, tag, env=None):
    r = _ints(ctx, tag, 'iwres indxwr')
    comps = ctx.pick(tag + '.comps', ((1, 1, 1), (0, 0, 1), (1, 0, 0), (0, 1, 1)))
    c = r['icompl'] = ctx.choice(tag + '.icompl', 0, 1)
    r['icompx'], r['icompy'], r['icompz'] = comps
    n = r['nnode'] = ctx.choice(tag + '.nnode', 1, 2)
    vals = [r['iwres'], r['indxwr'], n, c] + list(comps)
    el = []
    for k in range(n):
        no = ctx.int('%s.n%d' % (tag, k))
        v, e = _cplx(ctx, env, '%s.n%d' % (tag, k), sum(comps), c)
        vals += [no] + v
        e = iter(e)
        el.append([no] + [next(e) if f else 0. for f in comps])
    return _nf(name, vals, r, {'zelev': el})


BUILDERS = {}
FIXED = []
for _n in FIXED1:
    BUILDERS[_n] = fixed1
    FIXED.append(_n)
for _n in FIXED2:
    BUILDERS[_n] = fixed2
    FIXED.append(_n)
BUILDERS.update({'BRIGAC': brigac, 'WGLOBDEF': wglobdef, 'W1SFORCE': w1sforce,
                 'WFLUIDKN': wfluidkn, 'W1PANPRE': w1panpre})
for _n in ('W1EXFORC', 'W1MOTION', 'W2EXFDIF', 'W2EXFSUM'):
    BUILDERS[_n] = wcommon
FIXED += ['BRIGAC', 'WGLOBDEF', 'W1SFORCE', 'WFLUIDKN', 'W1PANPRE', 'W1EXFORC', 'W1MOTION',
          'W2EXFDIF', 'W2EXFSUM']
NEED_ENV = set(['W1EXFORC', 'W1MOTION', 'W2EXFDIF', 'W2EXFSUM', 'W1SFORCE', 'WFLUIDKN',
                'W1PANPRE', 'WSURFACE'])

VARIABLE = {
    'DATE': text, 'TEXT': text, 'TDSETNAM': td, 'TDLOAD': td, 'TDSECT': td, 'TDMATER': td,
    'TDSUPNAM': td, 'TDRESREF': td, 'TDBODNAM': td, 'TDRSNAM': td, 'TDSCONC': td,
    'HIERARCH': hierarch, 'GELMNT1': gelmnt1, 'GELMNT2': gelmnt2, 'GELREF1': gelref1,
    'GSETMEMB': gsetmemb, 'SCONCEPT': sconcept, 'SCONMESH': sconmesh, 'BNBCD': bnbcd,
    'BLDEP': bldep, 'BEUSLO': beuslo, 'RDFORCES': compdef, 'RDNODRES': compdef,
    'RDSTRAIN': compdef, 'RDSTRESS': compdef, 'RDELNFOR': compdef, 'RDPOINTS': rdpoints,
    'RDIELCOR': rdielcor, 'RDRESREF': rdresref, 'RBLODCMB': xcmb, 'RDRESCMB': xcmb,
    'RVNODACC': rvnod, 'RVNODDIS': rvnod, 'RVNODVEL': rvnod, 'RVFORCES': rvelm,
    'RVSTRAIN': rvelm, 'RVSTRESS': rvelm, 'WBODCON': wbodcon, 'WDRESREF': wdresref,
    'WSURFACE': wsurface,
}
BUILDERS.update(VARIABLE)


def build(ctx, env, name, tag, **kw):
    if name in NEED_ENV:
        kw['env'] = env
    return BUILDERS[name](ctx, name, tag, **kw)


# -- comparison with the HDF5 file --------------------------------------------

def check_table(ctx, h5, where, name, recs, what=''):
    """table `where`/<name> holds exactly recs, in order"""
    path = '%s/%s' % (where, name.lower())
    t = ctx.guard(h5.get_node, path)
    rows = t.read()
    ctx.check(len(rows) == len(recs), '%s%s: %d rows, expected %d' % (what, name, len(rows), len(recs)))
    arrs = {}
    for i, rec in enumerate(recs):
        for col, exp in rec.row.items():
            ctx.same(rows[col][i], exp, '%s%s[%d].%s' % (what, name, i, col))
        for arr, exp in rec.vl.items():
            if arr not in arrs:
                arrs[arr] = h5.get_node('%s_%s' % (path, arr)).read()
            a, b = int(rows[arr + '_start'][i]), int(rows[arr + '_stop'][i])
            sl = arrs[arr][a:b]
            if not exp:
                ctx.check(len(sl) == 0, '%s%s[%d]: %d elements in %s, expected none' % (
                    what, name, i, len(sl), arr))
            else:
                ctx.same(sl, exp, '%s%s[%d]->%s' % (what, name, i, arr))
