"""Dynamic symbolic execution core.

The code under test runs as ordinary Python; numbers that the harness made
symbolic are `Sym`/`SymComplex` objects wrapping z3 terms.  A branch on a
symbolic condition, or the use of a symbolic integer where Python needs a
machine integer (``range``, indexing, formatting), is a *decision*.  Decisions
are explored exhaustively by re-execution (depth first); whether an alternative
is feasible under the path condition is decided by z3, and so is every
assertion.
"""
import math
import time
from fractions import Fraction

import numpy as _np
import z3


class Unsupported(BaseException):
    """The engine cannot model this operation: the result is inconclusive."""


class Inconclusive(BaseException):
    """z3 answered unknown or a bound of the engine was hit."""


class PathAbort(BaseException):
    """Path condition became unsatisfiable (assume failed)."""


class HarnessError(BaseException):
    pass


class StopPath(BaseException):
    pass


CUR = None           # the active symbolic context (or None)


def _lift(v):
    """python number -> z3 term"""
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant %r meets a symbolic value' % v)
        if v == int(v) and abs(v) < 2 ** 53:
            return z3.RealVal(int(v))
        fr = Fraction(v)
        return z3.Q(fr.numerator, fr.denominator)
    raise TypeError(type(v))


def _toreal(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def _isnum(v):
    return isinstance(v, (int, float, complex)) or (hasattr(v, 'dtype') and
                                           hasattr(v, 'item') and
                                           getattr(v, 'ndim', 1) == 0)


def _pynum(v):
    if isinstance(v, (bool, int, float)):
        # np.float64 is a float subclass
        return v.item() if hasattr(v, 'item') else v
    if hasattr(v, 'item') and getattr(v, 'ndim', 1) == 0:
        return v.item()
    return v


class SymBool(object):
    __slots__ = ('e',)
    __array_priority__ = -1

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.decide_bool(self.e)

    def __and__(self, o):
        return SymBool(z3.And(self.e, _boolterm(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, _boolterm(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        return SymBool(self.e == _boolterm(o))

    def __ne__(self, o):
        return SymBool(self.e != _boolterm(o))

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return 'SymBool(%s)' % self.e


def _boolterm(o):
    if isinstance(o, SymBool):
        return o.e
    return z3.BoolVal(bool(o))


_UFUNCS = frozenset('sin cos tan arcsin arccos arctan arctan2 sinh cosh tanh exp exp2 expm1 log log2 log10 log1p '
                    'rint fmod cbrt logaddexp'.split())


class Sym(object):
    """symbolic real/integer. kind 'i' behaves as a Python int, 'f' as float."""
    __slots__ = ('e', 'kind')

    def __init__(self, e, kind):
        self.e = e
        self.kind = kind

    # -- helpers
    def _bin(self, o, f, rev=False, forcef=False):
        if isinstance(o, SymComplex):
            return NotImplemented
        if isinstance(o, Sym):
            oe, ok = o.e, o.kind
        elif isinstance(o, SymBool):
            o = bool(o)
            oe, ok = _lift(int(o)), 'i'
        elif _isnum(o):
            o = _pynum(o)
            if isinstance(o, complex):
                a, b = SymComplex.lift(self), SymComplex.lift(o)
                return f(b, a) if rev else f(a, b)
            if isinstance(o, (float, int)):
                oe, ok = _lift(o), ('f' if isinstance(o, float) else 'i')
            else:
                return NotImplemented
        else:
            return NotImplemented
        a, b = self.e, oe
        if a.sort() != b.sort():
            a, b = _toreal(a), _toreal(b)
        if rev:
            a, b = b, a
        kind = 'f' if (forcef or self.kind == 'f' or ok == 'f') else 'i'
        return Sym(f(a, b), kind)

    def __add__(self, o):
        if _iszero(o):
            return self if not isinstance(o, float) else self.asfloat()
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        if _iszero(o):
            return self if not isinstance(o, float) else self.asfloat()
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, rev=True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return _div(self, o)

    def __rtruediv__(self, o):
        return _div(o, self)

    def __floordiv__(self, o):
        return _floordiv(self, o)

    def __rfloordiv__(self, o):
        return _floordiv(o, self)

    def __mod__(self, o):
        q = _floordiv(self, o)
        return self - q * o

    def __rmod__(self, o):
        q = _floordiv(o, self)
        return o - q * self

    def __divmod__(self, o):
        q = _floordiv(self, o)
        return q, self - q * o

    def __pow__(self, n):
        n = _pynum(n)
        if isinstance(n, float) and n == 0.5:
            return self.sqrt()
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if isinstance(n, int) and 0 <= n <= 6:
            if n == 0:
                return 1
            r = self
            for _ in range(n - 1):
                r = r * self
            return r
        raise Unsupported('symbolic power %r' % (n,))

    def __neg__(self):
        return Sym(-self.e, self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        return Sym(z3.If(self.e >= 0, self.e, -self.e), self.kind)

    def __eq__(self, o):
        return _cmp(self, o, lambda a, b: a == b, False)

    def __ne__(self, o):
        return _cmp(self, o, lambda a, b: a != b, True)

    def __lt__(self, o):
        return _cmp(self, o, lambda a, b: a < b)

    def __le__(self, o):
        return _cmp(self, o, lambda a, b: a <= b)

    def __gt__(self, o):
        return _cmp(self, o, lambda a, b: a > b)

    def __ge__(self, o):
        return _cmp(self, o, lambda a, b: a >= b)

    def __bool__(self):
        return CUR.decide_bool(self.e != 0)

    def __hash__(self):
        # needed for sets/dicts: an integer is realised (case split); reals share one hash, so that
        # the dict compares them with ==, which asks the solver (outside: a dict that mixes symbolic
        # reals with numerals)
        try:
            return hash(CUR.realise(self.e))
        except Unsupported:
            return 0x5EA1

    def __index__(self):
        if self.kind == 'f':
            raise TypeError("'float' object cannot be interpreted as an integer")
        return CUR.realise(self.e)

    def __int__(self):
        # only reached from C code (our own int() returns a Sym)
        r = self.toint()
        return CUR.realise(r.e)

    def __float__(self):
        if self.e.sort() == z3.IntSort():
            return float(CUR.realise(self.e))
        c = CUR.constant_value(self.e)
        if c is not None:
            return float(c)
        raise Unsupported('a symbolic real reached float() in C code')

    def __complex__(self):
        return complex(self.__float__())

    def __trunc__(self):
        return self.toint()

    def __floor__(self):
        if self.e.sort() == z3.IntSort():
            return Sym(self.e, 'i')
        return Sym(z3.ToInt(self.e), 'i')

    def __ceil__(self):
        if self.e.sort() == z3.IntSort():
            return Sym(self.e, 'i')
        return Sym(-z3.ToInt(-self.e), 'i')

    def __round__(self, nd=None):
        if self.e.sort() == z3.IntSort():
            return Sym(self.e, 'i' if nd is None else self.kind)
        raise Unsupported('round() of a symbolic real')

    def is_integer(self):
        if self.e.sort() == z3.IntSort():
            return True
        return SymBool(z3.IsInt(self.e))

    def toint(self):
        if self.e.sort() == z3.IntSort():
            return Sym(self.e, 'i')
        return Sym(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)), 'i')

    def narrow(self, dt):
        """self in an integer type: wraps around where the type is too small for +-2^24"""
        v = self.toint()
        info = _np.iinfo(dt)
        lo, hi = int(info.min), int(info.max)
        if lo <= -(1 << 24) and hi >= 1 << 24:
            return v
        m = hi - lo + 1
        if lo == 0 and m >= 1 << 32:
            return v if z3.is_int_value(v.e) else Sym(z3.If(v.e >= 0, v.e, v.e + m), 'i')
        return Sym((v.e - lo) % m + lo, 'i')

    def asfloat(self):
        return self if self.kind == 'f' else Sym(self.e, 'f')

    shape, ndim, size = (), 0, 1

    def item(self):
        return self

    def tolist(self):
        return self

    def sqrt(self):
        return CUR.sqrt(self)

    def square(self):
        return self * self

    def rad2deg(self):
        return self * (180. / math.pi)

    def deg2rad(self):
        return self * (math.pi / 180.)

    degrees, radians = rad2deg, deg2rad

    def __getattr__(self, name):
        if name in _UFUNCS:
            def f(*a):
                raise Unsupported('%s of a symbolic number' % name)
            return f
        raise AttributeError(name)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def __str__(self):
        if self.kind == 'i':
            return str(CUR.realise(self.e))
        raise Unsupported('str() of a symbolic float')

    def __format__(self, spec):
        if self.kind == 'i' and (not spec or spec[-1] in 'd0123456789><'):
            return format(CUR.realise(self.e), spec)
        if spec and spec[-1] in 'eEgGf':
            from . import tok
            return format(tok.text_token(self), '>' + _width(spec))
        if self.e.sort() == z3.IntSort():
            v = CUR.realise(self.e)
            return format(float(v) if self.kind == 'f' else v, spec)
        raise Unsupported('format() of a symbolic float with spec %r' % spec)

    def __repr__(self):
        return 'Sym(%s)' % (z3.simplify(self.e),)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def _width(spec):
    import re
    m = re.search(r'(\d+)(?:\.|[a-zA-Z])', spec)
    return m.group(1) if m else ''


def _iszero(o):
    return type(o) in (int, float) and o == 0


def _cmp(a, o, f, default=None):
    if isinstance(o, SymComplex):
        return NotImplemented
    if isinstance(o, Sym):
        oe = o.e
    elif isinstance(o, SymBool):
        oe = z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
    elif _isnum(o):
        o = _pynum(o)
        if isinstance(o, float) and (o != o or o in (float('inf'), float('-inf'))):
            if o != o:
                return bool(default)
            probe = f(0.0, o)
            return probe
        if isinstance(o, complex) and default is not None:
            return SymComplex.lift(a) != o if default else SymComplex.lift(a) == o
        if not isinstance(o, (int, float)):
            if default is not None:
                return default
            return NotImplemented
        oe = _lift(o)
    else:
        if default is not None:
            return default
        return NotImplemented
    x, y = a.e, oe
    if x.eq(y):
        v = f(1, 1)
        return bool(v)
    if x.sort() != y.sort():
        x, y = _toreal(x), _toreal(y)
    e = z3.simplify(f(x, y))
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def _as_sym(x):
    if isinstance(x, Sym):
        return x
    x = _pynum(x)
    if isinstance(x, float):
        return Sym(_lift(x), 'f')
    if isinstance(x, int):
        return Sym(_lift(x), 'i')
    return None


def _div(a, b):
    if isinstance(_pynum(a), complex) or isinstance(_pynum(b), complex):
        return SymComplex.lift(a) / SymComplex.lift(b)
    a, b = _as_sym(a), _as_sym(b)
    if a is None or b is None:
        return NotImplemented
    if CUR.decide_bool(b.e == 0):
        raise ZeroDivisionError('float division by zero')
    return Sym(_toreal(a.e) / _toreal(b.e), 'f')


def _floordiv(a, b):
    a, b = _as_sym(a), _as_sym(b)
    if a is None or b is None:
        return NotImplemented
    if CUR.decide_bool(b.e == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    if a.e.sort() == z3.IntSort() and b.e.sort() == z3.IntSort():
        # z3 div is Euclidean: equals floor for a positive divisor
        q = z3.If(b.e > 0, a.e / b.e, (-a.e) / (-b.e))
    else:
        q = z3.ToInt(_toreal(a.e) / _toreal(b.e))
    return Sym(q, 'f' if 'f' in (a.kind, b.kind) else 'i')


class SymComplex(object):
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @staticmethod
    def lift(o):
        if isinstance(o, SymComplex):
            return o
        if isinstance(o, Sym):
            return SymComplex(o, 0.0)
        o = _pynum(o)
        if isinstance(o, complex):
            return SymComplex(o.real, o.imag)
        if isinstance(o, (int, float)):
            return SymComplex(float(o), 0.0)
        return None

    def _b(self, o, f, rev=False):
        o = SymComplex.lift(o)
        if o is None:
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        return f(a, b)

    def __add__(self, o):
        return self._b(o, lambda a, b: SymComplex(a.re + b.re, a.im + b.im))
    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: SymComplex(a.re - b.re, a.im - b.im))

    def __rsub__(self, o):
        return self._b(o, lambda a, b: SymComplex(a.re - b.re, a.im - b.im), True)

    def __mul__(self, o):
        return self._b(o, lambda a, b: SymComplex(a.re * b.re - a.im * b.im,
                                                  a.re * b.im + a.im * b.re))
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = SymComplex.lift(o)
        if o is None:
            return NotImplemented
        if type(o.im) is float and o.im == 0.0:
            return SymComplex(self.re / o.re, self.im / o.re)
        n = o.re * o.re + o.im * o.im
        return SymComplex((self.re * o.re + self.im * o.im) / n, (self.im * o.re - self.re * o.im) / n)

    def __rtruediv__(self, o):
        return SymComplex.lift(o) / self

    def __abs__(self):
        return CUR.sqrt(_as_sym(self.re * self.re + self.im * self.im))

    def __neg__(self):
        return SymComplex(-self.re, -self.im)

    def __pos__(self):
        return self

    def conjugate(self):
        return SymComplex(self.re, -self.im)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __eq__(self, o):
        o = SymComplex.lift(o)
        if o is None:
            return False
        a = self.re == o.re
        b = self.im == o.im
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
        return SymBool(z3.And(_boolterm(a), _boolterm(b)))

    def __ne__(self, o):
        r = self.__eq__(o)
        if isinstance(r, SymBool):
            return ~r
        return not r

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __hash__(self):
        raise Unsupported('hash of symbolic complex')

    def __complex__(self):
        raise Unsupported('a symbolic complex reached complex() in C code')

    def item(self):
        return self

    def tolist(self):
        return self

    def __repr__(self):
        return 'SymComplex(%r, %r)' % (self.re, self.im)


# ---------------------------------------------------------------------------

WIDE_VALUES = 3


class Decision(object):
    __slots__ = ('tried', 'cur', 'kind', 'term')

    def __init__(self, kind, cur, term):
        self.kind = kind          # 'bool' | 'forced' | 'int'
        self.cur = cur
        self.term = term
        self.tried = [cur]


class Violation(Exception):
    def __init__(self, msgs, model):
        self.msgs = msgs
        self.model = model


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.decisions = 0
        self.obligations = 0
        self.assert_queries = 0
        self.aborted = 0


class SymCtx(object):
    """Symbolic execution of one harness function over all decisions."""

    symbolic = True
    concrete = False

    def __init__(self, query_timeout_ms=60000):
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.trail = []          # decisions
        self.cut = 0             # keys of which only some values were tried
        self.depth = 0           # decisions consumed on this run
        self.level = 0           # solver push level
        self.stats = Stats()
        self.deadline = None
        self._reset_run()

    # -- bookkeeping for one run
    def _reset_run(self):
        self.depth = 0
        self.vars = {}           # name -> (kind, z3 const)
        self.order = []
        self.obl = []
        self.cache = {}
        self.nfresh = 0
        self.aux = []
        self.notes = []
        self.tokens = []
        self.chars = []          # symbolic characters (symre)
        self.lazy = []           # facts only needed for obligations (nonlinear contracts)

    def _check(self, *extra):
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Inconclusive('time budget of the instance exhausted')
        r = self.solver.check(*extra)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            raise Inconclusive('z3: unknown (%s)' % self.solver.reason_unknown())
        return r == z3.sat

    def _add(self, e):
        # constraints belonging to the replayed prefix are already on the stack
        if self.depth >= len(self.trail):
            self.solver.add(e)

    def _follow(self):
        d = self.trail[self.depth]
        self.depth += 1
        return d.cur

    def _new_decision(self, kind, val, term, constraint=None):
        self.trail.append(Decision(kind, val, term))
        self.stats.decisions += 1
        self.solver.push()
        if constraint is not None:
            self.solver.add(constraint)
        self.depth += 1

    def decide_bool(self, e):
        if isinstance(e, bool):
            return e
        key = e.get_id()
        hit = self.cache.get(('b', key))
        if hit is not None:
            return hit[1]
        s = z3.simplify(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.depth < len(self.trail):
            v = self._follow()
        else:
            if self._check(e):
                v = True
                if not self._check(z3.Not(e)):
                    # implied: no decision needed, but keep determinism
                    self._new_decision('forced', True, e)
                    self.cache[('b', key)] = (e, True)
                    return True
                self._new_decision('bool', True, e, e)
            else:
                v = False
                self._new_decision('forced', False, e)
        self.cache[('b', key)] = (e, v)
        return v

    def constant_value(self, e):
        s = z3.simplify(e)
        if z3.is_int_value(s):
            return s.as_long()
        if z3.is_rational_value(s):
            return s.numerator_as_long() / s.denominator_as_long()
        hit = self.cache.get(('r', e.get_id()))
        return hit[1] if hit else None

    def realise(self, e):
        s = z3.simplify(e)
        if z3.is_int_value(s):
            return s.as_long()
        if s.sort() != z3.IntSort():
            if z3.is_rational_value(s):
                f = Fraction(s.numerator_as_long(), s.denominator_as_long())
                return int(f) if f.denominator == 1 else float(f)
            # a real used as key/index: only if it denotes a coerced integer
            if s.decl().kind() == z3.Z3_OP_TO_REAL:
                return float(self.realise(s.arg(0)))
            raise Unsupported('a symbolic real must be concretised')
        key = ('r', s.get_id())
        hit = self.cache.get(key)
        if hit is not None:
            return hit[1]
        if self.depth < len(self.trail):
            v = self._follow()
        else:
            if not self._check():
                raise PathAbort()
            v = self.solver.model().eval(s, model_completion=True).as_long()
            self._new_decision('int', v, s, s == v)
        self.cache[key] = (s, v)
        return v

    # -- harness API
    def real(self, name, lo=None, hi=None):
        c = z3.Real(name)
        self._reg(name, 'real', c)
        if lo is not None:
            self._add(c >= lo)
        if hi is not None:
            self._add(c <= hi)
        return Sym(c, 'f')

    def int(self, name, lo=0, hi=1 << 24, kind='i'):
        c = z3.Int(name)
        self._reg(name, 'int', c)
        self._add(c >= lo)
        self._add(c <= hi)
        return Sym(c, kind)

    def choice(self, name, lo, hi):
        """integer case split: every value in lo..hi is explored"""
        c = z3.Int(name)
        self._reg(name, 'int', c)
        self._add(z3.And(c >= lo, c <= hi))
        if lo == hi:
            return lo
        return self.realise(c)

    def pick(self, name, options):
        options = list(options)
        return options[self.choice(name, 0, len(options) - 1)]

    def flag(self, name):
        return bool(self.choice(name, 0, 1))

    def char(self, name, options):
        """a symbolic character out of options (a placeholder inside a str)"""
        c = z3.Int(name)
        self._reg(name, 'int', c)
        self._add(z3.And(c >= 0, c <= len(options) - 1))
        self.chars.append((c, options))
        return chr(0xE000 + len(self.chars) - 1)

    def text(self, s):
        """text that may have symbolic characters, as given to the code"""
        from . import symre
        return symre.wrap(s)

    def require(self, text, formula, concrete):
        """constrains symbolic text: formula(char, predicate) builds the condition"""
        from . import symre
        self.constrain(SymBool(formula(symre.formula)))

    def _reg(self, name, kind, c):
        if name in self.vars:
            raise HarnessError('duplicate symbolic name ' + name)
        self.vars[name] = (kind, c)
        self.order.append(name)

    def fresh_real(self, base):
        self.nfresh += 1
        return z3.Real('%s!%d' % (base, self.nfresh))

    def sqrt(self, s):
        c = self.constant_value(s.e)
        if c is not None:
            return math.sqrt(c)
        if self.decide_bool(s.e < 0):
            raise Unsupported('sqrt of a negative symbolic value')
        key = ('sqrt', s.e.get_id())
        hit = self.cache.get(key)
        if hit is not None:
            return Sym(hit[1], 'f')
        r = self.fresh_real('sqrt')
        self._add(z3.And(r >= 0, r * r == _toreal(s.e)))
        self.cache[key] = (s.e, r)
        return Sym(r, 'f')

    def assume(self, cond):
        if isinstance(cond, (bool,)):
            if not cond:
                raise PathAbort()
            return
        e = cond.e if isinstance(cond, SymBool) else cond
        self._add(e)
        if self.depth >= len(self.trail):
            if not self._check():
                raise PathAbort()

    def constrain(self, cond):
        """assume without a feasibility query"""
        if isinstance(cond, bool):
            if not cond:
                raise PathAbort()
            return
        self._add(cond.e if isinstance(cond, SymBool) else cond)

    def check(self, cond, msg):
        """record the obligation that cond holds on this path"""
        self.stats.obligations += 1
        if hasattr(cond, 'dtype') and not isinstance(cond, (Sym, SymBool)):
            cond = bool(cond)
        if cond is True:
            return
        if cond is False:
            self.obl.append((z3.BoolVal(False), msg))
            raise StopPath()
        e = cond.e if isinstance(cond, SymBool) else cond
        self.obl.append((e, msg))

    def fail(self, msg):
        self.obl.append((z3.BoolVal(False), msg))
        raise StopPath()

    # -- model extraction
    def _nice_model(self, extra):
        """a model of pc and extra, preferring small distinct integers"""
        s = self.solver
        s.push()
        try:
            s.add(extra)
            if not self._check():
                return None
            best = s.model()
            reals = [c for k, c in self.vars.values() if k == 'real']
            nice = []
            for i, c in enumerate(reals):
                k = z3.Int('nice!%d' % i)
                nice.append(z3.And(c == z3.ToReal(k) / 4, k >= -4000, k <= 4000))
            dist = [z3.Distinct(*reals)] if 1 < len(reals) <= 150 else []
            nz = [c != 0 for c in reals]
            s.set('timeout', 4000)
            for grp in (nice + dist + nz, nice + nz, nice, nz):
                s.push()
                s.add(*grp)
                try:
                    t = time.time()
                    r = s.check()
                    self.stats.solver_s += time.time() - t
                    self.stats.queries += 1
                    if r == z3.sat:
                        best = s.model()
                        break
                finally:
                    s.pop()
            s.set('timeout', 60000)
            out = {}
            for name in self.order:
                kind, c = self.vars[name]
                v = best.eval(c, model_completion=True)
                if kind == 'int':
                    out[name] = v.as_long()
                elif z3.is_rational_value(v):
                    out[name] = (v.numerator_as_long() / v.denominator_as_long())
                else:
                    out[name] = float(v.approx(20).as_fraction())
            return out
        finally:
            s.pop()

    def finish_path(self):
        """decide all obligations of this path; returns None or (msgs, model)"""
        if not self.obl:
            return None
        self.stats.assert_queries += 1
        if self.lazy:
            return self._finish_lazy()
        conj = z3.And(*[e for e, _ in self.obl]) if len(self.obl) > 1 else self.obl[0][0]
        if z3.is_true(z3.simplify(conj)):
            # decided by z3's simplifier (syntactic validity)
            self.stats.queries += 1
            return None
        if not self._check(z3.Not(conj)):
            return None
        model = self._nice_model(z3.Not(conj))
        s = self.solver
        s.push()
        msgs = []
        for e, m in self.obl:
            try:
                if self._check(z3.Not(e)):
                    msgs.append(m)
            except Inconclusive:
                pass
            if len(msgs) >= 5:
                break
        s.pop()
        return msgs, model

    def _by_facts(self, ne, facts):
        """whether the facts refute ne, with nothing of the path but its equalities"""
        t = time.time()
        facts = list(facts)
        for a in self.solver.assertions():
            while z3.is_not(a) and z3.is_not(a.arg(0)):
                a = a.arg(0).arg(0)
            if z3.is_not(a) and (z3.is_lt(a.arg(0)) or z3.is_gt(a.arg(0))):
                a = a.arg(0).arg(0) <= a.arg(0).arg(1) if z3.is_gt(a.arg(0)) else \
                    a.arg(0).arg(0) >= a.arg(0).arg(1)
            if z3.is_le(a) or z3.is_ge(a):
                eq = a.arg(0) == a.arg(1)
                self.solver.set('timeout', 1000)
                try:
                    if not self._check(z3.Not(eq)):
                        facts.append(z3.simplify(eq, som=True))
                except Inconclusive:
                    pass
                finally:
                    self.solver.set('timeout', 60000)
        s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'qfnra-nlsat').solver()
        s.set('timeout', 10000)
        s.add(ne, *facts)
        r = s.check()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        return r == z3.unsat

    def _guess(self, ne):
        """a counterexample for some choices of the real inputs"""
        import random
        rng = random.Random(7)
        reals = [(n, c) for n, (k, c) in self.vars.items() if k == 'real']
        for k in range(16):
            vals = {n: rng.randint(-9, 9) * (1 if k % 2 else 10) for n, c in reals}
            sub = [(c, z3.RealVal(vals[n])) for n, c in reals]
            t = time.time()
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-term-ite', 'simplify',
                        'tseitin-cnf', 'qfnra-nlsat').solver()
            s.set('timeout', 2000)
            s.add([z3.simplify(z3.substitute(e, *sub), som=True)
                   for e in list(self.solver.assertions()) + self.lazy + [ne]])
            r = s.check()
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t
            if r == z3.sat:
                m = s.model()
                return {n: (float(vals[n]) if kd == 'real' else
                            m.eval(c, model_completion=True).as_long())
                        for n, (kd, c) in self.vars.items()}
        return None

    def _finish_lazy(self):
        """obligations one by one, at first without the nonlinear facts"""
        som = lambda e: z3.simplify(e, som=True)
        for e, msg in self.obl:
            if z3.is_true(som(e)):
                self.stats.queries += 1
                continue
            ne = z3.Not(e)
            self.solver.set('timeout', 3000)
            try:
                if not self._check(ne):
                    continue
            except Inconclusive:
                pass
            finally:
                self.solver.set('timeout', 60000)
            if self._by_facts(som(ne), [som(f) for f in self.lazy]):
                continue
            model = self._guess(ne)
            if model is None:
                if not self._check(som(ne), *[som(f) for f in self.lazy]):
                    continue
                model = self._nice_model(z3.And(ne, *self.lazy))
            return [msg], model
        return None

    def path_model(self):
        return self._nice_model(z3.BoolVal(True))

    # -- exploration
    def backtrack(self):
        """move to the next unexplored alternative; False when exhausted"""
        while self.trail:
            d = self.trail[-1]
            self.solver.pop()
            if d.kind == 'bool' and len(d.tried) == 1:
                # both sides were found feasible when the decision was made
                d.tried.append(False)
                d.cur = False
                self.solver.push()
                self.solver.add(z3.Not(d.term))
                return True
            if d.kind == 'int':
                self.solver.push()
                for v in d.tried:
                    self.solver.add(d.term != v)
                if len(d.tried) >= WIDE_VALUES:
                    # a number of millions of values used as a key: not all are tried
                    self.solver.push()
                    self.solver.add(d.term > 100000)
                    wide = self._check()
                    self.solver.pop()
                    if wide:
                        self.solver.pop()
                        self.cut += 1
                        self.trail.pop()
                        continue
                sat = self._check()
                if sat:
                    v = self.solver.model().eval(d.term, model_completion=True).as_long()
                self.solver.pop()
                if sat:
                    d.tried.append(v)
                    d.cur = v
                    self.solver.push()
                    self.solver.add(d.term == v)
                    return True
            self.trail.pop()
        return False

    def explore(self, fn, max_paths=20000):
        """runs fn(self) on every feasible path; yields (status, payload)"""
        global CUR
        prev = CUR
        CUR = self
        try:
            while True:
                self._reset_run()
                status = 'ok'
                try:
                    fn(self)
                except PathAbort:
                    status = 'abort'
                except StopPath:
                    pass
                if status == 'ok':
                    self.stats.paths += 1
                    viol = self.finish_path()
                    yield ('violation', viol) if viol else ('ok', None)
                else:
                    self.stats.aborted += 1
                if self.stats.paths > max_paths:
                    raise Inconclusive('path budget exhausted (%d)' % max_paths)
                if not self.backtrack():
                    return
        finally:
            CUR = prev

    # -- running the code under test
    def guard(self, fn, *a, **k):
        """call the code under test; an exception is a failed obligation"""
        import traceback
        try:
            return fn(*a, **k)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = '; '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in tb[-3:])
            self.fail('unexpected %s: %s [%s]' % (type(e).__name__, str(e)[:200], where))

    def raises(self, exctypes, fn, *a, **k):
        """call the code under test; it must raise one of exctypes (names)"""
        try:
            fn(*a, **k)
        except Exception as e:
            names = [c.__name__ for c in type(e).__mro__]
            self.check(any(n in names for n in exctypes),
                       'raised %s (%s), expected %s' % (type(e).__name__, str(e)[:100], exctypes))
            return e
        self.fail('no exception, expected one of %s' % (exctypes,))
