"""Strings with symbolic characters and the `re` module over them.

A symbolic character is a placeholder of the Unicode private use area inside an ordinary str; it
stands for a symbolic index into a string of options (core: ctx.char).  `make()` returns a module that
behaves as `re` and, for subjects with placeholders, runs a backtracking matcher over the parsed
pattern in which every character test on a placeholder is decided by the solver.
"""
import re as _re
import types

import z3

from . import core

BASE = 0xE000
_P = _re._parser
_C = _re._constants


def has_sym(s):
    return isinstance(s, str) and any(BASE <= ord(c) < BASE + 4096 for c in s)


def test(ch, pred):
    """truth of pred(character) (forks on a placeholder)"""
    k = ord(ch) - BASE
    if not 0 <= k < 4096:
        return bool(pred(ch))
    idx, options = core.CUR.chars[k]
    ok = [i for i, o in enumerate(options) if pred(o)]
    if not ok:
        return False
    if len(ok) == len(options):
        return True
    return core.CUR.decide_bool(z3.Or([idx == i for i in ok]))


def formula(ch, pred):
    """the same as a formula"""
    k = ord(ch) - BASE
    if not 0 <= k < 4096:
        return z3.BoolVal(bool(pred(ch)))
    idx, options = core.CUR.chars[k]
    return z3.Or([idx == i for i, o in enumerate(options) if pred(o)] or [z3.BoolVal(False)])


def _cat(cat, asc):
    n = str(cat)
    word = (lambda c: c.isascii() and (c.isalnum() or c == '_')) if asc else \
        (lambda c: c.isalnum() or c == '_')
    digit = (lambda c: c in '0123456789') if asc else str.isdecimal
    f = word if 'WORD' in n else digit if 'DIGIT' in n else str.isspace
    return (lambda c: not f(c)) if '_NOT_' in n else f


def _setpred(items, flags):
    neg = False
    fs = []
    for op, av in items:
        if op is _C.NEGATE:
            neg = True
        elif op is _C.LITERAL:
            fs.append(lambda c, a=av: ord(c) == a)
        elif op is _C.RANGE:
            fs.append(lambda c, a=av: a[0] <= ord(c) <= a[1])
        elif op is _C.CATEGORY:
            fs.append(_cat(av, flags & _re.A))
        else:
            raise core.Unsupported('regular expression: %s in a set' % op)
    f = lambda c: any(g(c) for g in fs)
    if flags & _re.I:
        g0 = f
        f = lambda c: g0(c) or g0(c.lower()) or g0(c.upper())
    return (lambda c: not f(c)) if neg else f


def _chars(ch):
    k = ord(ch) - BASE
    return core.CUR.chars[k] if 0 <= k < 4096 else (None, ch)


def _same(a, b):
    """True, False or a formula: the two characters are equal"""
    if a == b:
        return True
    (i, oa), (j, ob) = _chars(a), _chars(b)
    if i is None and j is None:
        return False
    if i is not None and j is not None:
        if i.eq(j):
            ok = [i == k for k, (x, y) in enumerate(zip(oa, ob)) if x == y]
            return True if len(ok) == len(oa) else z3.Or(ok) if ok else False
        ok = [z3.And(i == k, j == n) for k, x in enumerate(oa) for n, y in enumerate(ob) if x == y]
        return z3.Or(ok) if ok else False
    if i is None:
        i, oa, ob = j, ob, oa
    ok = [i == k for k, x in enumerate(oa) if x == ob]
    return True if len(ok) == len(oa) else z3.Or(ok) if ok else False


def _mapped(ch, f):
    idx, options = _chars(ch)
    if idx is None:
        return f(ch)
    new = [f(o) for o in options]
    if all(n == new[0] for n in new):
        return new[0]
    if all(n == o for n, o in zip(new, options)):
        return ch
    if any(len(n) != 1 for n in new):
        raise core.Unsupported('case mapping of symbolic text')
    for k, (i, o) in enumerate(core.CUR.chars):
        if i.eq(idx) and list(o) == new:
            return chr(BASE + k)
    core.CUR.chars.append((idx, ''.join(new)))
    return chr(BASE + len(core.CUR.chars) - 1)


def wrap(s):
    return SymStr(s) if has_sym(s) else s


class SymStr(str):
    """text with symbolic characters: comparisons are decided by the solver, case mappings are exact"""

    def _map(self, f):
        return wrap(''.join(_mapped(c, f) for c in str.__iter__(self)))

    def upper(self):
        return self._map(str.upper)

    def lower(self):
        return self._map(str.lower)

    casefold = lower

    def swapcase(self):
        return self._map(str.swapcase)

    def capitalize(self):
        return wrap(''.join(_mapped(c, str.lower if i else str.upper) for i, c in enumerate(str.__iter__(self))))

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        if len(self) != len(o):
            return False
        cs = [_same(a, b) for a, b in zip(str.__iter__(self), str.__iter__(o))]
        if any(c is False for c in cs):
            return False
        cs = [c for c in cs if c is not True]
        return not cs or core.CUR.decide_bool(z3.And(cs))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        n = 1
        for c in str.__iter__(self):
            n *= len(set(_chars(c)[1]))
        if n > 12:
            return str.__hash__(self)
        return hash(self.concrete())

    def concrete(self):
        """one value per path"""
        out = ''
        for c in str.__iter__(self):
            idx, options = _chars(c)
            if idx is not None:
                us = sorted(set(options))
                for u in us[:-1]:
                    if core.CUR.decide_bool(_same(c, u)):
                        break
                else:
                    u = us[-1]
                c = u
            out += c
        return out

    def _order(self, o):
        raise core.Unsupported('order of symbolic text')

    __lt__ = __le__ = __gt__ = __ge__ = _order

    def __getitem__(self, i):
        return wrap(str.__getitem__(self, i))

    def __iter__(self):
        return iter([wrap(c) for c in str.__iter__(self)])

    def __add__(self, o):
        return wrap(str.__add__(self, o))

    def __radd__(self, o):
        return wrap(str.__add__(o, self)) if isinstance(o, str) else NotImplemented

    def __str__(self):
        return self

    def startswith(self, p, *a):
        if a:
            return self[a[0]:a[1] if len(a) > 1 else None].startswith(p)
        return any(len(x) <= len(self) and self[:len(x)] == x for x in (p if isinstance(p, tuple) else (p,)))

    def endswith(self, p, *a):
        if a:
            return self[a[0]:a[1] if len(a) > 1 else None].endswith(p)
        return any(len(x) <= len(self) and self[len(self) - len(x):] == x
                   for x in (p if isinstance(p, tuple) else (p,)))

    def _find(self, sub, ps):
        for i in ps:
            if self[i:i + len(sub)] == sub:
                return i
        return -1

    def _range(self, sub, a):
        lo, hi, _ = slice(*(a + (None,) * (2 - len(a)))).indices(len(self))
        return range(lo, max(lo, hi - len(sub) + 1))

    def find(self, sub, *a):
        return self._find(sub, self._range(sub, a))

    def rfind(self, sub, *a):
        return self._find(sub, reversed(self._range(sub, a)))

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def partition(self, sep):
        i = self.find(sep)
        return (self, '', '') if i < 0 else (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        return ('', '', self) if i < 0 else (self[:i], sep, self[i + len(sep):])

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return [wrap(x) for x in str.split(self, None, maxsplit)]
        out, s = [], self
        while maxsplit:
            i = s.find(sep)
            if i < 0:
                break
            out.append(s[:i])
            s = s[i + len(sep):]
            maxsplit -= 1
        return out + [s]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit < 0:
            return self.split(sep, maxsplit)
        out, s = [], self
        while maxsplit:
            i = s.rfind(sep)
            if i < 0:
                break
            out.append(s[i + len(sep):])
            s = s[:i]
            maxsplit -= 1
        return [s] + out[::-1]

    def replace(self, a, b, n=-1):
        out, s = '', self
        while n and a:
            i = s.find(a)
            if i < 0:
                break
            out, s = out + s[:i] + b, s[i + len(a):]
            n -= 1
        return out + s

    def _all(self, pred):
        return bool(len(self)) and all(test(c, pred) for c in str.__iter__(self))

    def isdigit(self):
        return self._all(str.isdigit)

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(str.isalpha)

    def isalnum(self):
        return self._all(str.isalnum)

    def lstrip(self, chars=None):
        s = self
        while len(s) and test(str.__getitem__(s, 0), lambda c: c in chars if chars is not None else c.isspace()):
            s = s[1:]
        return s

    def rstrip(self, chars=None):
        s = self
        while len(s) and test(str.__getitem__(s, -1), lambda c: c in chars if chars is not None else c.isspace()):
            s = s[:-1]
        return s

    def strip(self, chars=None):
        s = self.lstrip(chars)
        return s.rstrip(chars)

    def join(self, xs):
        return wrap(str.join(self, xs))


class Matcher(object):
    def __init__(self, s, flags):
        self.s, self.flags = s, flags

    def run(self, items, i, pos, g, cont):
        """match items[i:] at pos with groups g, then cont(pos, g); first success wins"""
        if i == len(items):
            return cont(pos, g)
        op, av = items[i]
        nxt = lambda p, gg: self.run(items, i + 1, p, gg, cont)
        s = self.s
        fl = self.flags
        if op in (_C.LITERAL, _C.NOT_LITERAL, _C.IN, _C.ANY):
            if pos >= len(s):
                return None
            if op is _C.IN:
                pred = _setpred(av, fl)
            elif op is _C.ANY:
                pred = (lambda c: True) if fl & _re.S else (lambda c: c != '\n')
            else:
                pred = _setpred([(_C.LITERAL, av)], fl)
                if op is _C.NOT_LITERAL:
                    p0 = pred
                    pred = lambda c: not p0(c)
            return nxt(pos + 1, g) if test(s[pos], pred) else None
        if op is _C.SUBPATTERN:
            num, add, rem, sub = av
            if add or rem:
                inner = Matcher(s, (fl | add) & ~rem)
            else:
                inner = self

            def close(p, gg):
                if num is not None:
                    gg = dict(gg)
                    gg[num] = (pos, p)
                return nxt(p, gg)
            return inner.run(list(sub), 0, pos, g, close)
        if op is _C.BRANCH:
            for alt in av[1]:
                r = self.run(list(alt), 0, pos, g, nxt)
                if r is not None:
                    return r
            return None
        if op in (_C.MAX_REPEAT, _C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)

            def rep(n, p, gg):
                def more():
                    if hi is not _C.MAXREPEAT and n >= hi:
                        return None
                    return self.run(sub, 0, p, gg, lambda q, g2: rep(n + 1, q, g2) if q > p or n < lo else None)
                if n < lo:
                    return more()
                if op is _C.MAX_REPEAT:
                    r = more()
                    return r if r is not None else nxt(p, gg)
                r = nxt(p, gg)
                return r if r is not None else more()
            return rep(0, pos, g)
        if op is _C.AT:
            n = str(av)
            if n in ('AT_BEGINNING', 'AT_BEGINNING_STRING') and not fl & _re.M:
                return nxt(pos, g) if pos == 0 else None
            if n == 'AT_END_STRING':
                return nxt(pos, g) if pos == len(s) else None
            if n == 'AT_END' and not fl & _re.M:
                ok = pos == len(s) or (pos == len(s) - 1 and test(s[pos], lambda c: c == '\n'))
                return nxt(pos, g) if ok else None
        if op in (_C.ASSERT, _C.ASSERT_NOT) and av[0] > 0:
            r = self.run(list(av[1]), 0, pos, g, lambda p, gg: (p, gg))
            if op is _C.ASSERT:
                return nxt(pos, r[1]) if r is not None else None
            return nxt(pos, g) if r is None else None
        raise core.Unsupported('regular expression: %s' % op)


class SymMatch(object):
    def __init__(self, pat, s, start, end, g):
        self.re, self.string, self._g = pat, s, dict(g)
        self._g[0] = (start, end)
        self.pos, self.endpos = 0, len(s)
        nums = [k for k in g]
        self.lastindex = max(nums) if nums else None

    def _num(self, k):
        if isinstance(k, str):
            if k not in self.re.groupindex:
                raise IndexError('no such group')
            return self.re.groupindex[k]
        if k > self.re.groups:
            raise IndexError('no such group')
        return k

    def span(self, k=0):
        return self._g.get(self._num(k), (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def _one(self, k, default=None):
        sp = self._g.get(self._num(k))
        return default if sp is None else wrap(self.string[sp[0]:sp[1]])

    def group(self, *ks):
        if not ks:
            return self._one(0)
        return self._one(ks[0]) if len(ks) == 1 else tuple(self._one(k) for k in ks)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(k, default) for n, k in self.re.groupindex.items()}


class Pattern(object):
    def __init__(self, pattern, flags=0):
        if isinstance(pattern, Pattern):
            pattern, flags = pattern.pattern, pattern._f
        self._f = flags
        self._real = _re.compile(pattern, flags)
        self.pattern, self.flags = self._real.pattern, self._real.flags
        self.groups, self.groupindex = self._real.groups, self._real.groupindex

    def _run(self, s, starts, full):
        parsed = list(_P.parse(self.pattern, self._f))
        s = str.__str__(s)
        m = Matcher(s, self.flags)
        for p in starts:
            done = (lambda q, g: (q, g) if q == len(s) else None) if full else (lambda q, g: (q, g))
            r = m.run(parsed, 0, p, {}, done)
            if r is not None:
                return SymMatch(self, s, p, r[0], r[1])
        return None

    def match(self, s, *a):
        return self._run(s, [0], False) if has_sym(s) and not a else self._real.match(s, *a)

    def fullmatch(self, s, *a):
        return self._run(s, [0], True) if has_sym(s) and not a else self._real.fullmatch(s, *a)

    def search(self, s, *a):
        return self._run(s, range(len(s) + 1), False) if has_sym(s) and not a else self._real.search(s, *a)

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        real = getattr(self._real, n)

        def call(*a, **k):
            if any(has_sym(x) for x in a):
                raise core.Unsupported('re.%s of symbolic text' % n)
            return real(*a, **k)
        return call if callable(real) else real


def make():
    m = types.ModuleType('re')
    m.__dict__.update({k: v for k, v in _re.__dict__.items() if not k.startswith('__')})
    m.compile = Pattern
    for n in ('match', 'fullmatch', 'search'):
        setattr(m, n, lambda p, s, flags=0, n=n: getattr(Pattern(p, flags), n)(s))
    for n in ('findall', 'finditer'):
        setattr(m, n, lambda p, s, flags=0, n=n: getattr(Pattern(p, flags), n)(s))
    for n in ('sub', 'subn', 'split'):
        def f(p, *a, n=n, **k):
            if any(has_sym(x) for x in a):
                raise core.Unsupported('re.%s of symbolic text' % n)
            return getattr(_re, n)(p._real if isinstance(p, Pattern) else p, *a, **k)
        setattr(m, n, f)
    return m
