"""Loads the real freesif sources from /repo under the package name
``sym_freesif``.  The code is the unmodified file content; only the builtins
int/float/complex and the imported modules numpy/tables/struct/math are replaced
by versions that understand symbolic values."""
import builtins
import importlib.abc
import importlib.util
import os
import sys
import types

import numpy as _np

from . import core, tok
from .core import Sym, SymComplex, SymBool

REPO = os.environ.get('VSYM_REPO', '/repo')
PKG = os.path.join(REPO, 'freesif')


# -- builtins -----------------------------------------------------------------

class _MetaInt(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return x.kind == 'i'
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, x=0, *a, **k):
        x = tok.lift_nan(x)
        if isinstance(x, Sym):
            return x.toint()
        if isinstance(x, SymBool):
            return int(bool(x))
        if isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.item())
        if isinstance(x, str):
            s = tok.from_text(x)
            if s is not None:
                raise ValueError('invalid literal for int()')
        return int(x, *a, **k)

    def __getattr__(cls, n):
        return getattr(int, n)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class int_(metaclass=_MetaInt):
    dtype = _np.dtype(int)


class _MetaFloat(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return x.kind == 'f'
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, x=0.0):
        x = tok.lift_nan(x)
        if isinstance(x, Sym):
            return x.asfloat()
        if isinstance(x, (bytes, bytearray)):
            s = tok.from_text(bytes(x).decode('latin-1'))
            return s if s is not None else float(x)
        if isinstance(x, str):
            s = tok.from_text(x)
            return s if s is not None else float(x)
        if isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.item())
        return float(x)

    def __getattr__(cls, n):
        return getattr(float, n)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class float_(metaclass=_MetaFloat):
    dtype = _np.dtype(float)


class _MetaComplex(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (complex, SymComplex))

    def __subclasscheck__(cls, c):
        return issubclass(c, complex)

    def __call__(cls, re=0.0, im=None):
        re = tok.lift_nan(re)
        im = tok.lift_nan(im)
        if isinstance(re, (Sym, SymComplex)) or isinstance(im, (Sym, SymComplex)):
            a = SymComplex.lift(re)
            if im is None:
                return a
            b = SymComplex.lift(im)
            return SymComplex(a.re - b.im, a.im + b.re)
        return complex(re) if im is None else complex(re, im)

    def __getattr__(cls, n):
        return getattr(complex, n)

    def __eq__(cls, o):
        return o is complex or o is cls

    def __hash__(cls):
        return hash(complex)


class complex_(metaclass=_MetaComplex):
    dtype = _np.dtype(complex)


# -- struct / math ------------------------------------------------------------

def _make_struct():
    import struct as real
    m = types.ModuleType('struct')
    m.__dict__.update({k: v for k, v in real.__dict__.items()})

    def _floats_only(fmt, buf, off=0):
        f = fmt.decode() if isinstance(fmt, bytes) else fmt
        return f

    def unpack(fmt, buf):
        out = real.unpack(fmt, bytes(buf))
        return tuple(tok.lift_nan(v) for v in out)

    def unpack_from(fmt, buf, offset=0):
        return tuple(tok.lift_nan(v) for v in real.unpack_from(fmt, buf, offset))

    def iter_unpack(fmt, buf):
        for t in real.iter_unpack(fmt, buf):
            yield tuple(tok.lift_nan(v) for v in t)

    def pack(fmt, *vals):
        vv = []
        for v in vals:
            if isinstance(v, Sym):
                v = _nan_for(v)
            vv.append(v)
        return real.pack(fmt, *vv)

    class Struct(object):
        def __init__(self, fmt):
            self._s = real.Struct(fmt)
            self.size = self._s.size
            self.format = fmt

        def unpack(self, b):
            return tuple(tok.lift_nan(v) for v in self._s.unpack(b))

        def unpack_from(self, b, offset=0):
            return tuple(tok.lift_nan(v) for v in self._s.unpack_from(b, offset))

        def iter_unpack(self, b):
            return iter_unpack(self.format, b)

        def pack(self, *v):
            return pack(self.format, *v)

    m.unpack, m.unpack_from, m.iter_unpack = unpack, unpack_from, iter_unpack
    m.pack, m.Struct = pack, Struct
    return m


def _nan_for(sym):
    """python float NaN whose payload is a token for sym"""
    import struct as real
    if sym.kind == 'i':
        return core.CUR.realise(sym.e)
    return real.unpack('<f', tok.f32_token(sym))[0]


def _make_math():
    import math as real
    m = types.ModuleType('math')
    m.__dict__.update(real.__dict__)

    def sqrt(x):
        return x.sqrt() if isinstance(x, Sym) else real.sqrt(x)

    def ceil(x):
        return x.__ceil__() if isinstance(x, Sym) else real.ceil(x)

    def floor(x):
        return x.__floor__() if isinstance(x, Sym) else real.floor(x)

    def hypot(*a):
        if any(isinstance(x, Sym) for x in a):
            return sqrt(sum(x * x for x in a))
        return real.hypot(*a)

    def isnan(x):
        return False if isinstance(x, (Sym, SymComplex)) else real.isnan(x)

    m.sqrt, m.ceil, m.floor, m.hypot, m.isnan = sqrt, ceil, floor, hypot, isnan
    return m


# -- import machinery ---------------------------------------------------------

_proxies = {}


def proxies():
    if not _proxies:
        from . import nplib, faketables, symre
        _proxies['numpy'] = nplib.make()
        _proxies['tables'] = faketables.make()
        _proxies['struct'] = _make_struct()
        _proxies['math'] = _make_math()
        _proxies['re'] = symre.make()
    return _proxies


def _sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        root = name.split('.')[0]
        px = proxies()
        if root == 'freesif':
            name = 'sym_freesif' + name[len('freesif'):]
        elif root in px:
            mod = px[root]
            sub = name.split('.')[1:]
            leaf = mod
            for s in sub:
                leaf = getattr(leaf, s)
            return leaf if (fromlist and sub) else mod
    return builtins.__import__(name, globals, locals, fromlist, level)


class _B(dict):
    pass


def sym_builtins():
    d = dict(builtins.__dict__)
    d['int'] = int_
    d['float'] = float_
    d['complex'] = complex_
    d['__import__'] = _sym_import
    return d


_codes = {}


def _code(path):
    # one process checks one state of the tree: compiled code is kept
    if path not in _codes:
        with open(path, 'rb') as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            _codes[path] = compile(src, path, 'exec', dont_inherit=True)
    return _codes[path]


class _Loader(importlib.abc.Loader):
    def __init__(self, path, ispkg):
        self.path = path
        self.ispkg = ispkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _code(self.path)
        module.__dict__['__builtins__'] = sym_builtins()
        module.__file__ = self.path
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'sym_freesif' and not fullname.startswith('sym_freesif.'):
            return None
        rel = fullname.split('.')[1:]
        p = os.path.join(PKG, *rel)
        if os.path.isdir(p) and os.path.isfile(os.path.join(p, '__init__.py')):
            f = os.path.join(p, '__init__.py')
            return importlib.util.spec_from_file_location(
                fullname, f, loader=_Loader(f, True),
                submodule_search_locations=[p])
        if os.path.isfile(p + '.py'):
            return importlib.util.spec_from_file_location(
                fullname, p + '.py', loader=_Loader(p + '.py', False))
        return None


def load_symbolic():
    """import (or return) the symbolically executed freesif"""
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
    import importlib
    return importlib.import_module('sym_freesif')


def load_real():
    """import the real freesif from /repo"""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import freesif
    assert os.path.realpath(freesif.__file__).startswith(os.path.realpath(PKG)), freesif.__file__
    return freesif


def reset_symbolic():
    """drop all module state, so that the next load starts a new session"""
    for k in [k for k in sys.modules if k == 'sym_freesif' or k.startswith('sym_freesif.')]:
        del sys.modules[k]
