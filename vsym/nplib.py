"""numpy as seen by the code under test: real numpy working on object arrays
whose elements may be symbolic."""
import types

import numpy as np

from . import core, tok
from .core import Sym, SymComplex, SymBool


class SymArr(np.ndarray):
    """object ndarray standing for a float32/complex64 array"""

    def __new__(cls, a):
        return np.asarray(a, dtype=object).view(cls)

    @property
    def dtype(self):
        return np.ndarray.dtype.__get__(self)

    @dtype.setter
    def dtype(self, v):
        cur = np.ndarray.dtype.__get__(self)
        nd = np.dtype(v)
        if cur == object:
            if nd.kind == 'c':
                new = _pair(self)
                self.__setstate__((1, new.shape, np.dtype(object), False,
                                   list(new.ravel())))
                return
            if nd.kind == 'f':
                new = _unpair(self)
                self.__setstate__((1, new.shape, np.dtype(object), False,
                                   list(new.ravel())))
                return
            if nd == object:
                return
            raise core.Unsupported('reinterpreting symbolic data as %r' % v)
        np.ndarray.dtype.__set__(self, v)

    def view(self, *a, **k):
        dt = a[0] if a else k.get('dtype')
        if dt is not None and not (isinstance(dt, type) and issubclass(dt, np.ndarray)):
            cur = np.ndarray.dtype.__get__(self)
            if cur == object:
                nd = np.dtype(dt)
                if nd.kind == 'c':
                    return _pair(self)
                if nd.kind == 'f':
                    return _unpair(self)
                if nd == object:
                    return self
                raise core.Unsupported('view of symbolic data as %r' % (dt,))
        return np.ndarray.view(self, *a, **k)

    def astype(self, dt, *a, **k):
        cur = np.ndarray.dtype.__get__(self)
        if cur != object:
            return np.ndarray.astype(self, dt, *a, **k)
        nd = np.dtype(dt)
        f = {'c': _tocomplex, 'f': _tofloat, 'i': _toint, 'u': _toint}.get(nd.kind)
        if f is None:
            return np.ndarray.astype(self, dt, *a, **k)
        out = np.empty_like(self.view(np.ndarray), dtype=object)
        for i in np.ndindex(self.shape):
            out[i] = f(self[i])
        if nd.itemsize < (8 if nd.kind == 'c' else 4):
            if nd.kind == 'f':
                raise core.Unsupported('half precision')
            out = _narrow(out, nd)
        if nd.kind in 'iu' and not _has_sym(out):
            return out.astype(nd)
        return out.view(SymArr)

    @property
    def real(self):
        return _part(self, 'real')

    @real.setter
    def real(self, v):
        _set_part(self, 'real', v)

    @property
    def imag(self):
        return _part(self, 'imag')

    @imag.setter
    def imag(self, v):
        _set_part(self, 'imag', v)

    def tobytes(self, *a, **k):
        cur = np.ndarray.dtype.__get__(self)
        if cur == object:
            raise core.Unsupported('bytes of a symbolic array')
        return np.ndarray.tobytes(self, *a, **k)

    tostring = tobytes


class PartArr(SymArr):
    """real or imaginary part of a SymArr; what is assigned to it is passed on"""
    _whole = None

    def __setitem__(self, k, v):
        np.ndarray.__setitem__(self, k, v)
        if self._whole is not None:
            _set_part(self._whole[0], self._whole[1], self)


def _part(a, which):
    if np.ndarray.dtype.__get__(a) != object:
        return getattr(np.asarray(a), which)
    r = _map(a, lambda x: getattr(x, which)).view(PartArr)
    r._whole = (a, which)
    return r


def _set_part(a, which, v):
    if np.ndarray.dtype.__get__(a) != object:
        setattr(a.view(np.ndarray), which, v)
        return
    v = np.broadcast_to(np.asarray(v), a.shape)
    for i in np.ndindex(a.shape):
        old = a[i]
        re, im = (v[i], old.imag) if which == 'real' else (old.real, v[i])
        plain = isinstance(im, (int, float)) and im == 0
        np.ndarray.__setitem__(a, i, re if plain else SymComplex(re, im))


class TypedArr(SymArr):
    """object array that says it has a certain number type and has bytes:
    symbolic elements become tokens"""
    _dt = np.dtype('f4')
    _swapped = False            # the bytes of the elements are the other way round

    def __new__(cls, a, dt):
        r = np.asarray(a, dtype=object).view(cls)
        r._dt = np.dtype(dt)
        return r

    def __array_finalize__(self, o):
        if isinstance(o, TypedArr):
            self._dt = o._dt
            self._swapped = o._swapped

    @property
    def dtype(self):
        return self._dt

    @property
    def itemsize(self):
        return self._dt.itemsize

    @property
    def nbytes(self):
        return self.size * self._dt.itemsize

    def view(self, *a, **k):
        dt = a[0] if a else k.get('dtype')
        if dt is not None and not (isinstance(dt, type) and issubclass(dt, np.ndarray)):
            if np.dtype(dt) == self._dt:
                return np.ndarray.view(self)
            if np.dtype(dt) == np.uint8:
                return np.frombuffer(self.tobytes(), np.uint8)
            if np.dtype(dt) == self._dt.newbyteorder():
                r = np.ndarray.view(self)
                r._dt = np.dtype(dt)
                r._swapped = not self._swapped
                return r
            raise core.Unsupported('reinterpreting a symbolic array')
        return np.ndarray.view(self, *a, **k)

    def astype(self, dt, *a, **k):
        nd = np.dtype(dt)
        if nd == self._dt and k.get('copy') is False:
            return self
        if self._swapped:
            raise core.Unsupported('values of an array with swapped bytes')
        f = {'c': _tocomplex, 'f': _tofloat, 'i': _toint, 'u': _toint}[nd.kind]
        out = np.empty_like(self.view(np.ndarray), dtype=object)
        for i in np.ndindex(self.shape):
            out[i] = f(self[i])
        if nd.kind in 'iu' and nd.itemsize < 4:
            out = _narrow(out, nd)
        return TypedArr(out, nd)

    def byteswap(self, inplace=False):
        if inplace:
            raise core.Unsupported('byteswap in place')
        r = np.ndarray.copy(self)
        r._swapped = not self._swapped
        return r

    def tobytes(self, order='C'):
        step = -1 if (self._dt.byteorder == '>') != self._swapped else 1
        return b''.join(tok.encode(v, self._dt)[::step] for v in np.asarray(
            np.ndarray.view(self, np.ndarray)).ravel(order=order or 'C'))

    tostring = tobytes
    __bytes__ = tobytes

    def tofile(self, f, *a, **k):
        f.write(self.tobytes())

    data = property(tobytes)


def _typed_of(x):
    if isinstance(x, TypedArr):
        return x
    if isinstance(x, (list, tuple)) and x and isinstance(x[0], TypedArr):
        return x[0]
    return None


def _map(a, f):
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = f(a[i])
    return out.view(SymArr)


def _has_sym(a):
    return any(isinstance(x, (Sym, SymComplex, SymBool)) for x in a.ravel())


def _tocomplex(x):
    c = SymComplex.lift(x)
    if isinstance(c.re, Sym) or isinstance(c.im, Sym):
        return c
    return complex(c.re, c.im)


def _tofloat(x):
    if isinstance(x, Sym):
        return x.asfloat()
    if isinstance(x, SymComplex):
        return x.re
    return float(x)


def _narrow(out, nd):
    for i in np.ndindex(out.shape):
        if isinstance(out[i], Sym):
            out[i] = out[i].narrow(nd)
    return out


def _toint(x):
    return x.toint() if isinstance(x, Sym) else int(x)


def _pair(a):
    a = np.asarray(a, dtype=object)
    if a.size and any(isinstance(x, (SymComplex, complex)) for x in a.ravel()):
        return a.copy().view(SymArr)      # already complex
    if a.ndim == 0 or a.shape[-1] % 2:
        raise ValueError('When changing to a larger dtype, its size must be a '
                         'divisor of the total size in bytes of the last axis '
                         'of the array.')
    out = np.empty(a.shape[:-1] + (a.shape[-1] // 2,), dtype=object)
    for i in np.ndindex(out.shape):
        re = a[i[:-1] + (2 * i[-1],)]
        im = a[i[:-1] + (2 * i[-1] + 1,)]
        if isinstance(re, Sym) or isinstance(im, Sym):
            out[i] = SymComplex(re, im)
        else:
            out[i] = complex(re, im)
    return out.view(SymArr)


def _unpair(a):
    a = np.asarray(a, dtype=object)
    if not any(isinstance(x, (SymComplex, complex)) for x in a.ravel()):
        return a.copy().view(SymArr)
    out = np.empty(a.shape[:-1] + (a.shape[-1] * 2,), dtype=object)
    for i in np.ndindex(a.shape):
        c = SymComplex.lift(a[i])
        out[i[:-1] + (2 * i[-1],)] = c.re
        out[i[:-1] + (2 * i[-1] + 1,)] = c.im
    return out.view(SymArr)


def wrap(r):
    if type(r) is np.ndarray and (r.dtype == object or
                                  (r.dtype.names and r.dtype.hasobject)):
        return r.view(SymArr)
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r) if type(r) is tuple else r
    if type(r) is list:
        return [wrap(x) for x in r]
    return r


def _realise_arg(a):
    if isinstance(a, Sym) and a.kind == 'i':
        return core.CUR.realise(a.e)
    return a


def _generic(f):
    def g(*a, **k):
        r = f(*a, **k)
        if type(r) is np.ndarray and r.dtype == object and a:
            t = _typed_of(a[0])
            if t is not None:
                return TypedArr(r, t._dt)
        return wrap(r)
    g.__name__ = getattr(f, '__name__', 'np')
    if isinstance(f, np.ufunc):
        for n in ('reduce', 'accumulate', 'outer', 'reduceat', 'at'):
            setattr(g, n, _generic(getattr(f, n)))
        g.nin, g.nout, g.nargs = f.nin, f.nout, f.nargs
    return g


def _isfloatish(dt):
    return dt.kind in 'fc' and dt.names is None


def _alloc(real, fill):
    def g(shape, dtype=float, *a, **k):
        if isinstance(shape, (tuple, list)):
            shape = tuple(_realise_arg(s) for s in shape)
        else:
            shape = _realise_arg(shape)
        dt = np.dtype(dtype)
        if _isfloatish(dt):
            out = np.empty(shape, dtype=object)
            out[...] = fill
            return out.view(SymArr)
        return wrap(real(shape, dt, *a, **k))
    return g


def _alloc_like(fill):
    def g(arr, dtype=None, *a, **k):
        arr = np.asarray(arr)
        dt = np.dtype(dtype) if dtype is not None else arr.dtype
        if dt == object or _isfloatish(dt):
            out = np.empty(arr.shape, dtype=object)
            out[...] = fill
            return out.view(SymArr)
        out = np.empty(arr.shape, dt)
        out[...] = fill
        return out
    return g


def _full(shape, value, dtype=None, *a, **k):
    if dtype is not None and not _has_sym(np.asarray(value)):
        return wrap(np.full(shape, value, dtype, *a, **k)) if not _isfloatish(np.dtype(dtype)) else \
            _alloc(np.full, value)(shape, dtype)
    r = np.empty(shape, dtype=object)
    r[...] = value
    r = r.view(SymArr)
    return r if dtype is None else r.astype(dtype)


def _full_like(arr, value, dtype=None, *a, **k):
    arr = np.asarray(arr)
    return _full(arr.shape, value, dtype if dtype is not None or arr.dtype == object else arr.dtype)


def _fromiter(it, dtype, count=-1, **k):
    it = list(it)
    return _np_array(it if count < 0 else it[:count], dtype=dtype)


def _isfinite(x, *a, **k):
    x = np.asarray(x)
    return np.ones(x.shape, bool)[()] if x.dtype == object else np.isfinite(x, *a, **k)


def _isclose(a, b, rtol=1e-05, atol=1e-08, **k):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != object and b.dtype != object:
        return np.isclose(a, b, rtol, atol, **k)
    return abs(a - b) <= atol + rtol * abs(b)


def _allclose(a, b, *x, **k):
    return bool(np.all(_isclose(a, b, *x, **k)))


def _np_array(*a, **k):
    t = _typed_of(a[0]) if a else None
    if t is not None:
        dt = k.pop('dtype', a[1] if len(a) > 1 else None)
        r = TypedArr(np.array(a[0], *a[2:], **k), t._dt)
        return r if dt is None else r.astype(dt)
    dt = k.get('dtype', a[1] if len(a) > 1 else None)
    if dt is not None and np.dtype(dt).kind in 'fciu' and np.dtype(dt).names is None:
        kk = dict(k)
        kk.pop('dtype', None)
        probe = np.array(a[0], *a[2:], **kk)
        if probe.dtype == object:
            return probe.view(SymArr).astype(np.dtype(dt))
    return wrap(np.array(*a, **k))


def _np_asarray(x, dtype=None, *a, **k):
    if isinstance(x, TypedArr):
        return x if dtype is None or np.dtype(dtype) == x._dt else x.astype(dtype)
    if dtype is None:
        return wrap(x if isinstance(x, np.ndarray) else np.asarray(x))
    if isinstance(x, np.ndarray) and x.dtype == object and np.dtype(dtype).kind in 'fciu':
        return x.view(SymArr).astype(dtype)
    return _np_array(x, dtype=dtype)


def _sqrt1(x):
    if isinstance(x, Sym):
        return x.sqrt()
    if isinstance(x, SymComplex):
        raise core.Unsupported('complex sqrt')
    return float(np.sqrt(x))


def _sqrt(x, *a, **k):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return _map(x, _sqrt1)
    if isinstance(x, Sym):
        return x.sqrt()
    return np.sqrt(x, *a, **k)


def _hypot(x, y):
    return _sqrt(x * x + y * y)


def _square(x):
    return x * x


def _isnan(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return np.array([isinstance(v, float) and v != v for v in x.ravel()],
                        dtype=bool).reshape(x.shape)
    if isinstance(x, (Sym, SymComplex)):
        return False
    return np.isnan(x)


def _frombuffer(*a, **k):
    r = np.frombuffer(*a, **k)
    return lift_float_array(r)


def lift_float_array(r):
    if r.dtype.kind == 'f' and np.isnan(r).any():
        out = np.empty(r.shape, dtype=object)
        for i in np.ndindex(r.shape):
            v = tok.lift_nan(float(r[i]))
            out[i] = v
        return out.view(SymArr)
    return r


def _unique(ar, return_index=False, return_inverse=False, return_counts=False, **k):
    """sorted unique elements; comparisons of symbolic values are decisions"""
    ar = np.asanyarray(ar)
    if ar.dtype != object or k.get('axis') is not None:
        return wrap(np.unique(ar, return_index, return_inverse, return_counts, **k))
    flat = list(ar.ravel())
    reps = []           # [value, first index, count], sorted
    inv = []
    for i, v in enumerate(flat):
        for r in reps:
            if bool(r[0] == v):
                r[2] += 1
                inv.append(r)
                break
        else:
            r = [v, i, 1]
            pos = len(reps)
            for j, q in enumerate(reps):
                if bool(v < q[0]):
                    pos = j
                    break
            reps.insert(pos, r)
            inv.append(r)
    out = np.empty(len(reps), dtype=object)
    for i, r in enumerate(reps):
        out[i] = r[0]
    res = [out.view(SymArr)]
    if return_index:
        res.append(np.array([r[1] for r in reps], dtype=np.intp))
    if return_inverse:
        ids = {id(r): i for i, r in enumerate(reps)}
        res.append(np.array([ids[id(r)] for r in inv], dtype=np.intp))
    if return_counts:
        res.append(np.array([r[2] for r in reps], dtype=np.intp))
    return res[0] if len(res) == 1 else tuple(res)


# -- linalg: contracts ---------------------------------------------------------

def _case(ctx, n):
    import z3
    ctx.nfresh += 1
    c = z3.Int('case!%d' % ctx.nfresh)
    ctx._add(z3.And(c >= 0, c < n))
    return c


def _eig2(ctx, a, b, d):
    """both eigenvalues of [[a, b], [b, d]], in either order"""
    r = ctx.sqrt(Sym((a - d) * (a - d) + 4 * b * b, 'f'))
    r = r.e if isinstance(r, Sym) else core._toreal(core.z3.RealVal(str(r)))
    lam = [(a + d + r) / 2, (a + d - r) / 2]
    return lam[::-1] if ctx.realise(_case(ctx, 2)) else lam


def _iszero(x):
    return not isinstance(x, Sym) and x == 0


def _eig_contract(s):
    """Eigenvalues of real symmetric 2x2 / 3x3 matrices as fresh reals tied to
    the matrix by its characteristic polynomial (Vieta); order unspecified."""
    import z3
    s = np.asarray(s, dtype=object)
    n = s.shape[-1]
    if s.shape[-2] != n or n not in (2, 3):
        raise core.Unsupported('eig of shape %r' % (s.shape,))
    ctx = core.CUR
    out = np.empty(s.shape[:-1], dtype=object)
    for idx in np.ndindex(s.shape[:-2]):
        m = s[idx]
        for i in range(n):
            for j in range(i):
                a, b = m[i, j], m[j, i]
                if a is b:
                    continue
                if not bool(a == b):
                    raise core.Unsupported('eig of a non-symmetric symbolic matrix')

        def R(x):
            return core._toreal(x.e) if isinstance(x, Sym) else z3.RealVal(
                str(__import__('fractions').Fraction(float(x))))
        M = [[R(m[i, j]) for j in range(n)] for i in range(n)]
        key = ('eig', tuple(M[i][j].get_id() for i in range(n) for j in range(n)))
        hit = ctx.cache.get(key)
        if hit is None:
            z = [i for i in range(n) if all(_iszero(m[i, j]) for j in range(n))]
            if n == 3 and z:
                # a zero row and column: eigenvalue 0 and those of the rest
                i, j = [k for k in range(3) if k != z[-1]]
                lam = _eig2(ctx, M[i][i], M[i][j], M[j][j])
                lam.insert(ctx.realise(_case(ctx, 3)), z3.RealVal(0))
            elif n == 2:
                lam = _eig2(ctx, M[0][0], M[0][1], M[1][1])
            else:
                a, b = ctx.fresh_real('eig'), ctx.fresh_real('eig')
                tr = M[0][0] + M[1][1] + M[2][2]
                lam = [a, b, tr - a - b]
                m2 = (M[0][0] * M[1][1] - M[0][1] * M[1][0] +
                      M[0][0] * M[2][2] - M[0][2] * M[2][0] +
                      M[1][1] * M[2][2] - M[1][2] * M[2][1])
                det = (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) -
                       M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0]) +
                       M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))
                ctx.lazy.append(lam[0] * lam[1] + lam[0] * lam[2] + lam[1] * lam[2] == m2)
                ctx.lazy.append(lam[0] * lam[1] * lam[2] == det)
            hit = (M, lam)
            ctx.cache[key] = hit
        for k in range(n):
            out[idx + (k,)] = Sym(hit[1][k], 'f')
    return out.view(SymArr)


class _Linalg(object):
    def __getattr__(self, n):
        f = getattr(np.linalg, n)
        return _generic(f) if callable(f) and not isinstance(f, type) else f

    @staticmethod
    def _sym(s):
        s = np.asarray(s)
        return s.dtype == object

    def eig(self, s):
        if not self._sym(s):
            return np.linalg.eig(s)
        return _eig_contract(s), None

    def eigh(self, s, *a, **k):
        if not self._sym(s):
            return np.linalg.eigh(s, *a, **k)
        return self.eigvalsh(s), None

    def eigvals(self, s):
        if not self._sym(s):
            return np.linalg.eigvals(s)
        return _eig_contract(s)

    def eigvalsh(self, s, *a, **k):
        if not self._sym(s):
            return np.linalg.eigvalsh(s, *a, **k)
        lam = _eig_contract(s)
        for idx in np.ndindex(lam.shape[:-1]):
            lam[idx] = np.sort(lam[idx])
        return lam

    def inv(self, a):
        raise core.Unsupported('inv')


def make():
    m = types.ModuleType('numpy')
    over = {
        'empty': _alloc(np.empty, 0.0), 'zeros': _alloc(np.zeros, 0.0),
        'ones': _alloc(np.ones, 1.0),
        'empty_like': _alloc_like(0.0), 'zeros_like': _alloc_like(0.0),
        'ones_like': _alloc_like(1.0),
        'array': _np_array, 'asarray': _np_asarray, 'asanyarray': _np_asarray,
        'ascontiguousarray': _np_asarray,
        'sqrt': _sqrt, 'hypot': _hypot, 'square': _square, 'isnan': _isnan,
        'full': _full, 'full_like': _full_like, 'fromiter': _fromiter, 'isfinite': _isfinite,
        'allclose': _allclose, 'isclose': _isclose,
        'frombuffer': _frombuffer, 'unique': _unique, 'linalg': _Linalg(),
    }
    cache = dict(over)

    def __getattr__(name):
        if name in cache:
            return cache[name]
        v = getattr(np, name)
        if callable(v) and not isinstance(v, type):
            v = _generic(v)
        cache[name] = v
        return v
    m.__getattr__ = __getattr__
    m.__dict__.update(over)
    m.__version__ = np.__version__
    return m
