"""Runs property harnesses: symbolically over all paths, and concretely on the
real code (replay of counterexamples, validation of the encoding)."""
import contextlib
import importlib
import io
import json
import math
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import types
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable

import numpy as np

from . import core, loader
from .core import Sym, SymBool, SymComplex


class PathTimeout(BaseException):
    pass


class Fail(BaseException):
    """stop of a concrete run (an obligation failed)"""


# -- concrete context ----------------------------------------------------------

class ConcreteCtx(object):
    """Same interface as SymCtx; values come from a model"""
    symbolic = False
    concrete = True

    def __init__(self, model, rtol=1e-5, rng=None, atol=1e-8):
        self.model = dict(model)
        self.atol = max(atol, 1e-3 if rng else 0)       # made-up numbers may cancel out
        self.rng = rng          # draws values the model does not give
        self.fails = []
        self.nchecks = 0
        self.missing = []
        self.rtol = rtol
        self.names = set()

    def _get(self, name, lo, default):
        if name in self.names:
            raise core.HarnessError('duplicate symbolic name ' + name)
        self.names.add(name)
        if name not in self.model:
            self.missing.append(name)
            return default
        return self.model[name]

    def real(self, name, lo=None, hi=None):
        if self.rng and name not in self.model:
            self.model[name] = _draw(self.rng, lo, hi)
        d = 1.25 if lo is None else float(lo) + ((hi - lo) / 2. if hi is not None else 1.)
        return float(self._get(name, lo, d))

    def int(self, name, lo=0, hi=1 << 24, kind='i'):
        if self.rng and name not in self.model:
            self.model[name] = self.rng.randint(lo, min(hi, lo + 5000))
        return int(self._get(name, lo, lo))

    def choice(self, name, lo, hi):
        if self.rng and name not in self.model:
            self.model[name] = self.rng.randint(lo, hi)
        return int(self._get(name, lo, lo))

    def pick(self, name, options):
        options = list(options)
        return options[self.choice(name, 0, len(options) - 1)]

    def flag(self, name):
        return bool(self.choice(name, 0, 1))

    def char(self, name, options):
        return options[self.choice(name, 0, len(options) - 1)]

    def text(self, s):
        return s

    def require(self, text, formula, concrete):
        self.assume(concrete())

    def sqrt(self, v):
        return math.sqrt(v)

    def assume(self, cond):
        if not bool(cond):
            raise core.PathAbort()

    constrain = assume

    def check(self, cond, msg):
        self.nchecks += 1
        if not bool(cond):
            self.fails.append(msg)
            if len(self.fails) >= 10:
                raise Fail()

    def fail(self, msg):
        self.fails.append(msg)
        raise Fail()

    guard = core.SymCtx.guard
    raises = core.SymCtx.raises

    # comparisons
    def eq(self, a, b):
        return close(a, b, self.rtol, self.atol)

    def near(self, a, b, tol):
        return abs(a - b) <= tol

    def le(self, a, b):
        return a <= b + self.rtol * (1 + abs(a) + abs(b))

    def all(self, conds):
        return all(bool(c) for c in conds)

    def any(self, conds):
        return any(bool(c) for c in conds)


def _draw(rng, lo, hi):
    """a number that stays exact in sums and products of single precision, where the
    limits leave the choice"""
    a, b = (None if v is None else float(v) for v in (lo, hi))
    if a is None:
        a = -16. if b is None else min(-16., b - 32.)
    if b is None:
        b = max(16., a + 32.)
    if b - a > 32:
        a, b = (-16., 16.) if a <= -16 and b >= 16 else (a, a + 32.)
    if b - a < 2:
        return a + (b - a) * rng.random()
    k = math.ceil(a * 4)
    return (k + rng.randint(0, math.floor(b * 4) - k)) / 4.


def close(a, b, rtol, atol=1e-8):
    if isinstance(a, (bytes, str)) or isinstance(b, (bytes, str)):
        return _b(a) == _b(b)
    try:
        a, b = complex(a), complex(b)
    except TypeError:
        return a == b
    if a == b:
        return True
    return abs(a - b) <= max(atol, rtol * max(abs(a), abs(b)))


def _b(v):
    return v.encode('latin-1') if isinstance(v, str) else v


# symbolic counterparts
def _sym_eq(self, a, b):
    if isinstance(a, (bytes, str)) or isinstance(b, (bytes, str)):
        return _b(a) == _b(b)
    a, b = core._pynum(a), core._pynum(b)
    if isinstance(a, float) and isinstance(b, (float, int)) and a != b:
        return close(a, b, 1e-6)         # constants: float32 storage
    if isinstance(a, complex) or isinstance(b, complex):
        if not isinstance(a, (Sym, SymComplex)) and not isinstance(b, (Sym, SymComplex)):
            return close(a, b, 1e-6)
        a = SymComplex.lift(a) if isinstance(a, complex) else a
        b = SymComplex.lift(b) if isinstance(b, complex) else b
    if isinstance(a, SymComplex) and isinstance(b, Sym):
        b = SymComplex(b, 0.)
    if isinstance(b, SymComplex) and isinstance(a, (Sym, int, float)):
        a = SymComplex.lift(a)
    return a == b


def _sym_near(self, a, b, tol):
    d = a - b
    if not isinstance(d, Sym):
        return abs(d) <= tol
    t1 = (d <= tol)
    t2 = (d >= -tol)
    return self.all([t1, t2])


def _sym_all(self, conds):
    import z3
    terms = []
    for c in conds:
        if isinstance(c, SymBool):
            terms.append(c.e)
        elif not bool(c):
            return False
    return SymBool(z3.And(*terms)) if terms else True


def _sym_any(self, conds):
    import z3
    terms = []
    for c in conds:
        if isinstance(c, SymBool):
            terms.append(c.e)
        elif bool(c):
            return True
    return SymBool(z3.Or(*terms)) if terms else False


core.SymCtx.eq = _sym_eq
core.SymCtx.near = _sym_near
core.SymCtx.le = lambda self, a, b: a <= b
core.SymCtx.all = _sym_all
core.SymCtx.any = _sym_any


# array comparison -----------------------------------------------------------

def same(self, actual, expected, msg, shape=None):
    """element-wise equality of an array-like result with nested lists"""
    if not isinstance(expected, (list, tuple, np.ndarray)):
        if isinstance(actual, np.ndarray) and actual.size == 1:
            actual = actual.item()
        self.check(self.eq(actual, expected), '%s: %s, expected %s' % (
            msg, _short(actual), _short(expected)))
        return
    exp = expected if isinstance(expected, np.ndarray) else _obj(expected)
    try:
        ashape = tuple(actual.shape)
    except AttributeError:
        actual = _obj(actual)
        ashape = tuple(actual.shape)
    if shape is None:
        shape = exp.shape
    if ashape != tuple(shape):
        self.check(False, '%s: shape %r, expected %r' % (msg, ashape, tuple(shape)))
        return
    for i in np.ndindex(exp.shape):
        a = actual[i] if i else (actual[()] if hasattr(actual, '__getitem__') else actual)
        c = self.eq(a, exp[i])
        if c is True:
            self.check(True, msg)
        else:
            self.check(c, '%s%r: %s, expected %s' % (msg, list(i), _short(a), _short(exp[i])))


def _short(v):
    s = repr(v)
    return s if len(s) < 80 else s[:77] + '...'


def _nestshape(x):
    if isinstance(x, (list, tuple)):
        return (len(x),) + (_nestshape(x[0]) if len(x) else ())
    if isinstance(x, np.ndarray):
        return x.shape
    return ()


def _obj(x):
    shp = _nestshape(x)
    out = np.empty(shp, dtype=object)
    for i in np.ndindex(shp):
        v = x
        for k in i:
            v = v[k]
        out[i] = v
    return out


core.SymCtx.same = same
ConcreteCtx.same = same


# -- environment of one run -----------------------------------------------------

class Env(object):
    def __init__(self, sym, workdir, buffer=64, tier='quick'):
        self.sym = sym
        self.dir = workdir
        self.tier = tier
        self._buffer = buffer
        self._fs = None

    @property
    def fs(self):
        if self._fs is None:
            self.new_session()
        return self._fs

    def new_session(self):
        """a fresh interpreter session of freesif (no state carried over)"""
        if self.sym:
            loader.reset_symbolic()
            self._fs = loader.load_symbolic()
            self.prefix = 'sym_freesif'
            _set_buffer('sym_freesif', self._buffer)
        else:
            _close_real()
            for k in [k for k in sys.modules if k == 'freesif' or k.startswith('freesif.')]:
                del sys.modules[k]
            self._fs = loader.load_real()
            self.prefix = 'freesif'
        return self._fs

    def module(self, name):
        return importlib.import_module(self.prefix + '.' + name)

    def h5(self, path, mode='r'):
        """the HDF5 file itself (tables or its model)"""
        if self.sym:
            from . import loader as _l
            return _l.proxies()['tables'].open_file(path, mode)
        import tables
        return tables.open_file(path, mode)

    def set_buffer(self, n):
        """size of the record buffer; returns False when there is none to set"""
        self.fs
        self._buffer = n
        return _set_buffer(self.prefix, n)

    def array(self, nested):
        """a float array given to the code under test"""
        a = _obj(nested)
        if self.sym:
            from .nplib import SymArr
            return a.view(SymArr)
        if a.size and any(isinstance(v, complex) for v in a.ravel()):
            return a.astype(np.complex64)
        return a.astype(np.float32)

    def typed(self, nested, dt):
        """an array of the given number type that can be written as bytes"""
        a = _obj(nested)
        if self.sym:
            from .nplib import TypedArr
            return TypedArr(a, dt)
        return a.astype(dt)

    def complex(self, re, im):
        if isinstance(re, Sym) or isinstance(im, Sym):
            return SymComplex(re, im)
        return complex(re, im)

    def close(self):
        if not self.sym:
            _close_real()


BUFFER = 100000


def _set_buffer(prefix, n):
    """replaces the size of the record buffer, wherever the code keeps it"""
    state = vars(sys.modules[prefix]).setdefault('_vsym_state', {})
    hit = False
    for k, m in list(sys.modules.items()):
        if k == prefix or k.startswith(prefix + '.'):
            hit |= _patch_ints(m, vars(m), n, state, k)
    return hit


def _patch_ints(owner, d, n, state, path, depth=0):
    hit = False
    for a, v in list(d.items()):
        key = path + '.' + a
        if type(v) is int and (v == BUFFER or state.get(key) == v or a == 'tmp_arr_size'):
            setattr(owner, a, n)
            state[key] = n
            hit = True
        elif isinstance(v, type) and getattr(v, '__module__', None) and depth < 2 and \
                path.startswith(v.__module__):
            hit |= _patch_ints(v, vars(v), n, state, key, depth + 1)
        elif isinstance(v, types.FunctionType) and path.startswith(v.__module__ or '-'):
            c, df = state.setdefault(key, (v.__code__, v.__defaults__))
            sub = lambda t: tuple(n if type(x) is int and x == BUFFER else x for x in t)
            if sub(c.co_consts) != c.co_consts:
                v.__code__ = c.replace(co_consts=sub(c.co_consts))
                hit = True
            if df and sub(df) != df:
                v.__defaults__ = sub(df)
                hit = True
    return hit


def _close_real():
    m = sys.modules.get('freesif.data.file')
    try:
        import tables
        tables.file._open_files.close_all()
    except Exception:
        pass
    if m is not None:
        try:
            m._open_files.clear()
        except Exception:
            pass


# -- one execution ---------------------------------------------------------------

class Instance(object):
    def __init__(self, name, fn, bounds='', weight=1, validate=2, path_timeout=60,
                 budget=600, buffer=64, max_paths=50000, query_timeout=60000, rtol=1e-5,
                 **params):
        self.name = name
        self.fn = fn
        self.params = params
        self.bounds = bounds
        self.weight = weight
        self.validate = validate
        self.path_timeout = path_timeout
        self.budget = budget
        self.buffer = buffer
        self.max_paths = max_paths
        self.query_timeout = query_timeout
        self.rtol = rtol


@contextlib.contextmanager
def _alarm(seconds):
    def h(sig, frm):
        raise PathTimeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def _scratch():
    d = tempfile.mkdtemp(prefix='vsym_')
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def _clean(d):
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            os.unlink(p)


def run_concrete(inst, model, tier='quick', quiet=True, rng=None, atol=1e-8):
    """run the harness on the real code; returns ConcreteCtx"""
    ctx = ConcreteCtx(model, inst.rtol, rng, atol)
    ctx.timeout = False
    ctx.aborted = False
    with _scratch() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')
        env = Env(False, d, inst.buffer, tier)
        env.new_session()
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out if quiet else sys.stdout):
                with _alarm(inst.path_timeout * 2):
                    inst.fn(ctx, env, **inst.params)
        except Fail:
            pass
        except core.PathAbort:
            ctx.aborted = True
        except Exception as e:
            ctx.fails.append('result cannot be used as documented: %s: %s [%s]' % (
                type(e).__name__, str(e)[:200], _where(e)))
        except PathTimeout:
            ctx.timeout = True
            ctx.fails.append('does not terminate within %d s' % (inst.path_timeout * 2))
        finally:
            env.close()
    return ctx


class Coverage(object):
    """code objects of /repo/freesif that were executed"""
    def __init__(self):
        self.seen = set()
        self.on = False

    def start(self):
        m = sys.monitoring
        try:
            m.use_tool_id(4, 'vsym')
        except ValueError:
            return
        pkg = loader.PKG

        def cb(code, off):
            if code.co_filename.startswith(pkg):
                self.seen.add((os.path.relpath(code.co_filename, loader.REPO),
                               code.co_qualname))
            return m.DISABLE
        m.register_callback(4, m.events.PY_START, cb)
        m.set_events(4, m.events.PY_START)
        self.on = True

    def stop(self):
        if self.on:
            sys.monitoring.set_events(4, 0)
            sys.monitoring.free_tool_id(4)
            self.on = False


GLOBAL_DEADLINE = None      # wall clock after which no path is started (set by run.py)


def run_instance(inst, tier, seed):
    """symbolic exploration of one instance -> result dict (picklable)"""
    import z3
    from . import faketables
    rng = random.Random('%s/%s' % (seed, inst.name))
    t0 = time.time()
    res = dict(instance=inst.name, bounds=inst.bounds, paths=0, aborted=0, decisions=0, queries=0,
               solver_s=0., obligations=0, violations=[], unreproduced=[], errors=[],
               concretised=0, reduced=[], random_runs=0, validated=0, samples=[], functions=[], witnesses=0)
    cov = Coverage()
    ctx = core.SymCtx(inst.query_timeout)
    ctx.deadline = t0 + inst.budget
    if GLOBAL_DEADLINE is not None:
        # every instance gets a little time, so that its harness runs at all
        ctx.deadline = min(ctx.deadline, max(GLOBAL_DEADLINE, t0 + 2))
    state = {}
    with _scratch() as d, warnings.catch_warnings():
        warnings.simplefilter('ignore')

        def body(c):
            _clean(d)
            faketables.reset()
            env = Env(True, d, inst.buffer, tier)
            env.new_session()
            state['unsup'] = None
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    with _alarm(inst.path_timeout):
                        inst.fn(c, env, **inst.params)
                except core.Unsupported as e:
                    state['unsup'] = '%s [%s]' % (e, _where(e))
                except Exception as e:
                    c.fail('result cannot be used as documented: %s: %s [%s]' % (
                        type(e).__name__, str(e)[:200], _where(e)))
                except PathTimeout:
                    state['unsup'] = 'path did not finish within %d s' % inst.path_timeout

        def concrete(model, atol=1e-8):
            return run_concrete(inst, model, tier, atol=atol)

        cov.start()
        try:
            ob0 = 0
            for status, payload in ctx.explore(body, inst.max_paths):
                n = ctx.stats.paths
                if time.time() > ctx.deadline:
                    raise core.Inconclusive('time budget exhausted after %d paths' % n)
                ob = ctx.stats.obligations - ob0
                ob0 = ctx.stats.obligations
                if status == 'violation':
                    msgs, model = payload
                    rec = dict(msgs=msgs, model=model, instance=inst.name)
                    r = concrete(model)
                    if r.fails:
                        rec['real'] = r.fails[:5]
                        res['violations'].append(rec)
                        if len(res['violations']) >= 1:
                            break
                    else:
                        res['unreproduced'].append(rec)
                        hit = None
                        for k in range(1, 6):
                            m2 = _vary(model, k, rng, ctx)
                            r = concrete(m2, 1e-3)
                            res['random_runs'] += 1
                            if r.fails:
                                hit = dict(rec, model=m2, real=r.fails[:5])
                                break
                        if hit:
                            res['violations'].append(hit)
                            break
                        if len(res['unreproduced']) >= 10:
                            res['reduced'].append('exploration stopped after 10 counterexamples '
                                                  'that the real code does not show')
                            break
                    continue
                if state['unsup']:
                    # outside the encoding: the path's input is concretised and
                    # the real code is run; recorded as reduced coverage
                    res['concretised'] += 1
                    if len(res['errors']) < 3:
                        res.setdefault('unsupported', []).append(state['unsup'])
                    model = ctx.path_model()
                    for k in range(3 if res['concretised'] < 20 else 1):
                        m2 = _vary(model, k, rng, ctx)
                        r = concrete(m2, 1e-3)
                        if r.fails:
                            res['violations'].append(dict(
                                msgs=['(input concretised: %s)' % state['unsup']],
                                model=m2, instance=inst.name, real=r.fails[:5]))
                            break
                    if res['violations']:
                        break
                    continue
                if ob == 0:
                    res['errors'].append('vacuous path %d: no obligation reached' % n)
                if res['validated'] < inst.validate * (4 if tier == 'thorough' else 1) and \
                        (n == 1 or rng.random() < 0.15):
                    model = ctx.path_model()
                    if model is not None:
                        res['witnesses'] += 1
                        r = concrete(model)
                        if r.fails:
                            res['violations'].append(dict(
                                msgs=['(model of a path the encoding accepts)'], model=model,
                                instance=inst.name, real=r.fails[:5]))
                            break
                        if r.aborted or r.nchecks == 0:
                            res['errors'].append('witness input reaches no obligation on the real code: %r' % model)
                        res['validated'] += 1
                        if len(res['samples']) < 1:
                            res['samples'].append(dict(instance=inst.name, input=_shorten(model),
                                                       checks_on_real_code=r.nchecks))
            if ctx.cut:
                res['reduced'].append('numbers used as keys or indices: %d times only %d of their values were '
                                      'tried' % (ctx.cut, core.WIDE_VALUES))
        except core.Inconclusive as e:
            res['reduced'].append('inconclusive: %s' % e)
        except (Exception, core.Unsupported, core.HarnessError):
            res['errors'].append('engine error: ' + traceback.format_exc()[-1500:])
        finally:
            cov.stop()
        if (res['reduced'] or res['unreproduced']) and not res['violations']:
            # the solver could not decide: the real code is run on random inputs,
            # which is reported as reduced coverage, not as a verdict
            t1 = time.time()
            while res['random_runs'] < 40 and time.time() - t1 < (
                    5 if GLOBAL_DEADLINE and t1 > GLOBAL_DEADLINE else 20):
                r = run_concrete(inst, {}, tier, rng=rng)
                res['random_runs'] += 1
                if r.fails:
                    res['violations'].append(dict(msgs=['(random input: solver inconclusive)'],
                                                  model=r.model, instance=inst.name,
                                                  real=r.fails[:5]))
                    break
    s = ctx.stats
    res.update(paths=s.paths, aborted=s.aborted, decisions=s.decisions, queries=s.queries,
               solver_s=s.solver_s, obligations=s.obligations,
               functions=sorted('%s:%s' % f for f in cov.seen),
               wall=time.time() - t0)
    if s.paths == 0 and not res['errors']:
        res['errors'].append('vacuous instance: no feasible path')
    return res


def _vary(model, k, rng, ctx):
    if model is None:
        return {}
    if k == 0:
        return model
    m2 = dict(model)
    for n, (kind, c) in ctx.vars.items():
        if kind == 'real' and n in m2:
            m2[n] = rng.randint(-64, 64) / 4.
    return m2


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if '/freesif/' in f.filename] or tb
    return '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in fr[-2:])


def _shorten(model, n=40):
    items = list(model.items())
    d = dict(items[:n])
    if len(items) > n:
        d['...'] = '%d more' % (len(items) - n)
    return d
