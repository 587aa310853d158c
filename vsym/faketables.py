"""In-memory model of the PyTables API used by freesif.

Descriptions, columns and atoms are the real PyTables classes; files, groups,
tables and arrays are modelled so that a cell may hold a symbolic value.  The
model follows PyTables 3.10: integer columns truncate, string columns truncate,
row objects are reused while iterating, rows appended through ``Table.row`` are
invisible until a flush, ``open_file`` rejects incompatible reopens.
"""
import copy
import os
import types

import numpy as np
import tables as tb

from . import core, tok
from .core import Sym, SymComplex, SymBool
from .nplib import SymArr, wrap

_store = {}         # path -> root dict (files "on disk")
_handles = []       # open FakeFile objects


def reset():
    _store.clear()
    del _handles[:]


def _flat(v):
    return v.ravel()


def coerce_scalar(v, dt):
    """store v in a cell of numpy dtype dt"""
    v = tok.lift_nan(v)
    k = dt.kind
    if isinstance(v, np.ndarray) and v.ndim == 0:
        v = v.item()
    if k in 'iu':
        if isinstance(v, Sym):
            return v.narrow(dt)
        if isinstance(v, SymComplex):
            raise TypeError('complex in integer column')
        if isinstance(v, (str, bytes)):
            return int(v)
        return int(v)
    if k == 'b':
        return bool(v)
    if k == 'f':
        if isinstance(v, Sym):
            if dt.itemsize < 4:
                raise core.Unsupported('half precision')
            return v.asfloat()
        if isinstance(v, SymComplex):
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        return float(dt.type(v))
    if k == 'c':
        if isinstance(v, SymComplex):
            return v
        if isinstance(v, Sym):
            return SymComplex(v.asfloat(), 0.0)
        return complex(dt.type(v))
    if k == 'S':
        if isinstance(v, str):
            v = v.encode('ascii')
        v = bytes(v)[:dt.itemsize]
        return v.rstrip(b'\0')
    raise core.Unsupported('column kind %r' % k)


def _build(cells, dt, shape):
    """list of cells -> ndarray of dtype dt when concrete, else object"""
    out = np.empty(len(cells) if shape is None else shape, dtype=object)
    flat = out.reshape(-1)
    for i, c in enumerate(cells):
        flat[i] = c
    return out


def _is_sym(x):
    return isinstance(x, (Sym, SymComplex))


class Column(object):
    """one column / earray payload: list of object ndarrays of cell shape"""

    def __init__(self, base, shape):
        self.base = base          # scalar numpy dtype
        self.shape = shape

    def cell(self, v):
        if self.shape == ():
            if isinstance(v, (tuple, list)):
                raise TypeError('sequence in a scalar column')
            if isinstance(v, np.ndarray) and v.ndim:
                if v.size != 1:
                    raise ValueError('setting an array element with a sequence.')
                v = v.reshape(-1)[0]
            return coerce_scalar(v, self.base)
        a = np.empty(self.shape, dtype=object)
        src = v if isinstance(v, np.ndarray) else np.array(v, dtype=object)
        src = np.asarray(src)
        a[...] = src           # broadcasts like a structured assignment
        for i in np.ndindex(self.shape):
            a[i] = coerce_scalar(a[i], self.base)
        return a


def _coldtype(col, cells):
    sym = False
    for c in cells:
        if col.shape == ():
            if _is_sym(c):
                sym = True
                break
        else:
            if any(_is_sym(x) for x in c.ravel()):
                sym = True
                break
    return np.dtype(object) if sym else col.base


def _colarray(col, cells):
    dt = _coldtype(col, cells)
    out = np.empty((len(cells),) + col.shape, dtype=object)
    for i, c in enumerate(cells):
        if col.shape == ():
            out[i] = c
        else:
            out[i, ...] = c
    if dt == object:
        return out.view(SymArr)
    return out.astype(dt)


class Node(object):
    def __init__(self, file, parent, name):
        self._v_file = file
        self._v_parent = parent
        self._v_name = name
        self._v_isopen = True
        self.name = name

    @property
    def _v_pathname(self):
        if self._v_parent is None:
            return '/'
        p = self._v_parent._v_pathname
        return (p if p != '/' else '') + '/' + self._v_name

    def _check(self):
        if not self._v_file.isopen:
            raise tb.ClosedNodeError('the node object is closed')

    def _f_getattr(self, n):
        return self.attrs_get(n)

    def _f_close(self):
        pass

    def _f_remove(self, recursive=False, force=False):
        self._v_file.remove_node(self._v_pathname, recursive=recursive)


class AttrSet(object):
    def __init__(self, node):
        object.__setattr__(self, '_node', node)

    def __getattr__(self, n):
        if n == '_v_attrnamesuser':
            return sorted(self._node._attrs)
        try:
            return self._node._attrs[n]
        except KeyError:
            raise AttributeError(n)

    def __setattr__(self, n, v):
        self._node._f_setattr(n, v)

    def __getitem__(self, n):
        return getattr_key(self, n)

    def __setitem__(self, n, v):
        self._node._f_setattr(n, v)

    def __contains__(self, n):
        return n in self._node._attrs


def getattr_key(s, n):
    try:
        return s._node._attrs[n]
    except KeyError:
        raise KeyError(n)


class Group(Node):
    def __init__(self, file, parent, name):
        Node.__init__(self, file, parent, name)
        self._children = {}
        self._attrs = {}
        self._v_attrs = AttrSet(self)

    def _f_setattr(self, n, v):
        self._check()
        if self._v_file.mode == 'r':
            raise tb.FileModeError('the file is not writable')
        if isinstance(v, Sym):
            v = core.CUR.realise(v.e) if v.kind == 'i' else v
        if isinstance(v, list):
            v = list(v)
        self._attrs[n] = v

    def _f_getattr(self, n):
        self._check()
        try:
            v = self._attrs[n]
            return list(v) if isinstance(v, list) else v
        except KeyError:
            raise AttributeError('Attribute %r does not exist in node: %r' % (n, self._v_name))

    def _f_delattr(self, n):
        del self._attrs[n]

    def _f_iter_nodes(self, classname=None):
        self._check()
        for k in sorted(self._children):
            c = self._children[k]
            if classname is None or classname == 'Node' or \
                    (classname == 'Group') == isinstance(c, Group) and \
                    (classname in ('Group', 'Leaf') or type(c).__name__ == classname or
                     (classname == 'Array' and isinstance(c, EArray))):
                yield c

    def _f_list_nodes(self, classname=None):
        return list(self._f_iter_nodes(classname))

    __iter__ = _f_iter_nodes

    def _f_get_child(self, name):
        self._check()
        try:
            return self._children[name]
        except KeyError:
            raise tb.NoSuchNodeError('group %r does not have a child named %r'
                                     % (self._v_pathname, name))

    def __contains__(self, name):
        self._check()
        return name in self._children

    def __getitem__(self, path):
        node = self
        for p in path.split('/'):
            if p:
                try:
                    node = node._f_get_child(p)
                except tb.NoSuchNodeError as e:
                    raise IndexError(str(e))
        return node

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        ch = self.__dict__.get('_children', {})
        if name in ch:
            return ch[name]
        raise tb.NoSuchNodeError('group has no child %r' % name)

    @property
    def _v_children(self):
        return dict(self._children)

    @property
    def _v_groups(self):
        return {k: v for k, v in self._children.items() if isinstance(v, Group)}

    @property
    def _v_leaves(self):
        return {k: v for k, v in self._children.items() if not isinstance(v, Group)}

    @property
    def _v_nchildren(self):
        return len(self._children)


class Row(object):
    def __init__(self, table):
        self._t = table
        self._i = None
        self._new = {}

    @property
    def nrow(self):
        return self._i

    @property
    def table(self):
        return self._t

    def __getitem__(self, name):
        if self._i is None:
            return self._new.get(name)
        t = self._t
        if isinstance(name, (int, np.integer)):
            name = t.colnames[name]
        c = t._cells[name][self._i]
        col = t._cols[name]
        if col.shape == ():
            if not _is_sym(c) and col.base.kind in 'iufc':
                return col.base.type(c)
            return c
        return _colarray(col, [c])[0]

    def __setitem__(self, name, v):
        col = self._t._cols[name]
        self._new[name] = col.cell(v)

    def __contains__(self, v):
        return any(bool(self[n] == v) for n in self._t.colnames)

    def append(self):
        t = self._t
        t._check()
        row = []
        for n in t.colnames:
            if n in self._new:
                row.append(self._new[n])
            else:
                row.append(t._cols[n].cell(t._dflts[n]))
        t._pending.append(tuple(row))
        self._new = {}

    def fetch_all_fields(self):
        return self._t._read_rows([self._i])[0]

    def __len__(self):
        return len(self._t.colnames)


class _ColsAcc(object):
    def __init__(self, t):
        self._t = t

    def __getattr__(self, n):
        if n.startswith('_'):
            raise AttributeError(n)
        t = self._t
        t._cols[n]

        class A(object):
            def __getitem__(self, k):
                return t.col(n)[k]

            def __len__(self):
                return t.nrows
        return A()


class Leaf(Node):
    def flush(self):
        self._check()

    def close(self):
        pass


class Table(Leaf):
    def __init__(self, file, parent, name, description):
        Node.__init__(self, file, parent, name)
        if isinstance(description, type) and issubclass(description, tb.IsDescription):
            columns = description().columns
        elif isinstance(description, tb.IsDescription):
            columns = description.columns
        elif isinstance(description, dict):
            columns = description
        else:
            raise core.Unsupported('table description %r' % (description,))
        d = tb.Description(dict(columns))
        self.description = d
        self.colnames = list(d._v_names)
        self._cols = {}
        self._dflts = {}
        fields = []
        for n in self.colnames:
            c = d._v_colobjects[n]
            base = c.dtype.base
            shape = c.dtype.shape
            self._cols[n] = Column(base, shape)
            self._dflts[n] = c.dflt
            leaf = base if base.kind in 'Sb' else np.dtype(object)
            fields.append((n, leaf, shape) if shape else (n, leaf))
        self.dtype = np.dtype(fields)
        self._cells = {n: [] for n in self.colnames}
        self._pending = []
        self._row = None
        self._n = 0
        self._attrs = {}
        self.attrs = AttrSet(self)

    def _f_setattr(self, n, v):
        self._attrs[n] = v

    # -- writing
    def append(self, rows):
        self._check()
        if self._v_file.mode == 'r':
            raise tb.FileModeError('the file is not writable')
        self._flush_pending()
        if isinstance(rows, np.ndarray) and rows.dtype.names:
            if len(rows.dtype.names) != len(self.colnames):
                raise ValueError('rows parameter cannot be converted into a '
                                 'recarray object compliant with table')
            cols = [[rows[m][i] for i in range(len(rows))] for m in rows.dtype.names]
            recs = list(zip(*cols)) if len(rows) else []
        else:
            recs = [tuple(r) for r in rows]
        new = []
        for r in recs:
            if len(r) != len(self.colnames):
                raise ValueError('rows parameter cannot be converted into a '
                                 'recarray object compliant with table')
            new.append([self._cols[n].cell(v) for n, v in zip(self.colnames, r)])
        for r in new:
            for n, v in zip(self.colnames, r):
                self._cells[n].append(v)
        self._n += len(new)

    def _flush_pending(self):
        for r in self._pending:
            for n, v in zip(self.colnames, r):
                self._cells[n].append(v)
            self._n += 1
        self._pending = []

    def flush(self):
        self._check()
        self._flush_pending()

    @property
    def row(self):
        if self._row is None:
            self._row = Row(self)
        return self._row

    # -- reading
    @property
    def nrows(self):
        self._check()
        return self._n

    @property
    def shape(self):
        return (self.nrows,)

    def __len__(self):
        return self.nrows

    def _read_rows(self, idx):
        self._check()
        fields = []
        colcells = {}
        for n in self.colnames:
            col = self._cols[n]
            allc = self._cells[n]
            dt = _coldtype(col, allc)
            fields.append((n, dt, col.shape) if col.shape else (n, dt))
            colcells[n] = [allc[i] for i in idx]
        out = np.empty(len(idx), dtype=np.dtype(fields))
        for n in self.colnames:
            col = self._cols[n]
            for i, c in enumerate(colcells[n]):
                out[n][i] = c
        return wrap(out)

    def read(self, start=None, stop=None, step=None, field=None, out=None):
        self._check()
        idx = range(self._n)[slice(start, stop, step)]
        if field is not None:
            col = self._cols[field]
            a = _colarray(col, self._cells[field])
            return a[slice(start, stop, step)].copy()
        return self._read_rows(list(idx))

    def col(self, name):
        self._check()
        return _colarray(self._cols[name], self._cells[name])

    @property
    def cols(self):
        return _ColsAcc(self)

    def field(self, name):
        return self.col(name)

    def __getitem__(self, key):
        self._check()
        if isinstance(key, Sym):
            key = key.__index__()
        if isinstance(key, (int, np.integer)):
            n = self._n
            if key < -n or key >= n:
                raise IndexError('Index out of range')
            return self._read_rows([int(key) % n])[0]
        if isinstance(key, slice):
            return self._read_rows(list(range(self._n)[key]))
        if isinstance(key, str):
            return self.col(key)
        a = np.asarray(key)
        if a.dtype == bool:
            a = np.nonzero(a)[0]
        if a.size == 0:
            return self._read_rows([])
        if a.dtype == object:
            a = np.array([int(core.CUR.realise(x.e)) if isinstance(x, Sym) else int(x) for x in a])
        if a.dtype.kind not in 'iu':
            raise IndexError('invalid index')
        n = self._n
        for i in a:
            if i >= n or i < -n:
                raise IndexError('index %d out of range' % i)
        return self._read_rows([int(i) % n for i in a])

    def iterrows(self, start=None, stop=None, step=None):
        self._check()
        r = Row(self)
        for i in range(self._n)[slice(start, stop, step)]:
            r._i = i
            yield r

    def __iter__(self):
        return self.iterrows()

    def _match(self, condition, condvars=None, start=None, stop=None, step=None):
        self._check()
        code = compile(condition, '<condition>', 'eval')
        names = code.co_names
        for n in names:
            if n not in self._cols and not (condvars and n in condvars):
                raise NameError("name ``%s`` is not defined" % n)
        for i in range(self._n)[slice(start, stop, step)]:
            ns = {n: self._cells[n][i] for n in names if n in self._cols}
            if condvars:
                for k, v in condvars.items():
                    ns[k] = v
            if bool(eval(code, {'__builtins__': {}}, ns)):
                yield i

    def where(self, condition, condvars=None, start=None, stop=None, step=None):
        r = Row(self)
        for i in self._match(condition, condvars, start, stop, step):
            r._i = i
            yield r

    def read_where(self, condition, condvars=None, field=None, start=None, stop=None, step=None):
        a = self._read_rows(list(self._match(condition, condvars, start, stop, step)))
        return a[field].copy() if field else a

    def get_where_list(self, condition, condvars=None, sort=False, start=None, stop=None, step=None):
        return np.array(list(self._match(condition, condvars, start, stop, step)), dtype=np.int64)

    def read_coordinates(self, coords, field=None):
        a = self[np.asarray(coords)]
        return a[field] if field else a


class EArray(Leaf):
    def __init__(self, file, parent, name, atom, shape):
        Node.__init__(self, file, parent, name)
        self.atom = atom
        base = atom.dtype.base
        self._col = Column(base, tuple(shape[1:]) + tuple(atom.dtype.shape))
        self._cells = []
        self._attrs = {}
        self.attrs = AttrSet(self)
        self.dtype = base if base.kind in 'Sb' else np.dtype(object)

    def _f_setattr(self, n, v):
        self._attrs[n] = v

    def append(self, seq):
        self._check()
        if self._v_file.mode == 'r':
            raise tb.FileModeError('the file is not writable')
        a = seq if isinstance(seq, np.ndarray) else np.array(seq, dtype=object)
        if a.shape[1:] != self._col.shape or a.ndim == 0:
            raise ValueError('the ranks or shapes of the appended object %r and '
                             'the EArray %r do not match' % (a.shape, self._col.shape))
        for i in range(len(a)):
            self._cells.append(self._col.cell(a[i]))

    @property
    def nrows(self):
        self._check()
        return len(self._cells)

    @property
    def shape(self):
        return (self.nrows,) + self._col.shape

    def __len__(self):
        return self.nrows

    def read(self, start=None, stop=None, step=None, out=None):
        self._check()
        return _colarray(self._col, self._cells)[slice(start, stop, step)].copy()

    def __getitem__(self, key):
        self._check()
        a = _colarray(self._col, self._cells)
        if isinstance(key, slice):
            # the element type must not depend on the slice
            r = a[key]
            return r.copy()
        r = a[key]
        return r.copy() if isinstance(r, np.ndarray) else r

    def __iter__(self):
        return iter(self[:])


class File(object):
    def __init__(self, filename, mode, root, key):
        self.filename = filename
        self.mode = mode
        self._key = key
        self.isopen = 1
        if root is None:
            root = Group(self, None, '/')
        self._rootnode = root
        self._adopt(root)

    def _adopt(self, g):
        # (nodes of a new handle)
        g._v_file = self
        for c in g._children.values():
            c._v_file = self
            if isinstance(c, Group):
                self._adopt(c)

    @property
    def root(self):
        self._chk()
        return self._rootnode

    def _chk(self):
        if not self.isopen:
            raise tb.ClosedFileError('the file object is closed')

    def _resolve(self, where):
        self._chk()
        if isinstance(where, Group):
            return where
        node = self._rootnode
        if not where.startswith('/'):
            raise NameError('``where`` must start with a slash (``/``)')
        for p in where.split('/'):
            if p:
                node = node._f_get_child(p)
        return node

    def get_node(self, where, name=None, classname=None):
        self._chk()
        node = self._resolve(where) if isinstance(where, str) else where
        if name:
            node = node._f_get_child(name)
        return node

    def __contains__(self, path):
        try:
            self.get_node(path)
            return True
        except tb.NoSuchNodeError:
            return False

    def is_visible_node(self, p):
        return True

    def _parent(self, where, createparents):
        if isinstance(where, Group):
            return where
        node = self._rootnode
        if not where.startswith('/'):
            raise NameError('``where`` must start with a slash (``/``)')
        for p in where.split('/'):
            if not p:
                continue
            if p not in node._children:
                if not createparents:
                    raise tb.NoSuchNodeError('group %r does not exist' % where)
                node._children[p] = Group(self, node, p)
            node = node._children[p]
            if not isinstance(node, Group):
                raise TypeError('%r is not a group' % p)
        return node

    def _newnode(self, where, name, createparents):
        self._chk()
        if self.mode == 'r':
            raise tb.FileModeError('the file is not writable')
        g = self._parent(where, createparents)
        if name in g._children:
            raise tb.NodeError('group %r already has a child node named %r'
                               % (g._v_pathname, name))
        if not name or '/' in name:
            raise ValueError('invalid node name %r' % name)
        return g

    def create_group(self, where, name, title='', filters=None, createparents=False):
        g = self._newnode(where, name, createparents)
        g._children[name] = Group(self, g, name)
        return g._children[name]

    def create_table(self, where, name, description=None, title='', filters=None,
                     expectedrows=10000, chunkshape=None, byteorder=None,
                     createparents=False, obj=None, track_times=True):
        g = self._newnode(where, name, createparents)
        t = Table(self, g, name, description)
        g._children[name] = t
        return t

    def create_earray(self, where, name, atom=None, shape=None, title='', filters=None,
                      expectedrows=1000, chunkshape=None, byteorder=None,
                      createparents=False, obj=None, track_times=True):
        g = self._newnode(where, name, createparents)
        a = EArray(self, g, name, atom, shape)
        g._children[name] = a
        return a

    def remove_node(self, where, name=None, recursive=False):
        self._chk()
        if self.mode == 'r':
            raise tb.FileModeError('the file is not writable')
        node = self.get_node(where, name)
        if node._v_parent is None:
            raise tb.NodeError('the root group cannot be removed')
        if isinstance(node, Group) and node._children and not recursive:
            raise tb.NodeError('group %r has children' % node._v_pathname)
        del node._v_parent._children[node._v_name]
        node._v_isopen = False

    def walk_groups(self, where='/'):
        g = self._resolve(where)
        yield g
        for c in g._f_iter_nodes('Group'):
            for x in self.walk_groups(c):
                yield x

    def iter_nodes(self, where, classname=None):
        return self._resolve(where)._f_iter_nodes(classname)

    def list_nodes(self, where, classname=None):
        return list(self.iter_nodes(where, classname))

    def get_node_attr(self, where, attr, name=None):
        return self.get_node(where, name)._f_getattr(attr)

    def set_node_attr(self, where, attr, value, name=None):
        self.get_node(where, name)._f_setattr(attr, value)

    def flush(self):
        self._chk()
        self._flush(self._rootnode)

    def _flush(self, g):
        for c in g._children.values():
            if isinstance(c, Group):
                self._flush(c)
            elif isinstance(c, Table):
                c._flush_pending()

    def close(self):
        if not self.isopen:
            return
        self._flush(self._rootnode)
        self.isopen = 0
        if self in _handles:
            _handles.remove(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def _clone(node, parent):
    new = copy.copy(node)
    new._v_parent = parent
    if isinstance(node, Group):
        new._v_attrs = AttrSet(new)
        new._children = {k: _clone(c, new) for k, c in node._children.items()}
    else:
        new.attrs = AttrSet(new)
        if isinstance(node, Table):
            new._row = None
    return new


def open_file(filename, mode='r', title='', root_uep='/', filters=None, **kw):
    filename = os.fspath(filename)
    for h in _handles:
        if h.filename == filename:
            if mode == 'r' and h.mode != 'r' or \
                    mode in ('a', 'r+') and h.mode not in ('a', 'r+') or mode == 'w':
                raise ValueError("The file '%s' is already opened. Please close it "
                                 "before reopening in write mode." % filename)
    inmem = kw.get('driver') == 'H5FD_CORE' and not kw.get('driver_core_backing_store', 1)
    key = os.path.abspath(filename)
    if mode == 'w':
        f = File(filename, mode, None, key)
    elif mode in ('a', 'r', 'r+'):
        root = _store.get(key)
        if root is None:
            if mode != 'a':
                raise OSError('``%s`` does not exist' % filename)
            f = File(filename, mode, None, key)
        else:
            # every handle has node objects of its own
            f = File(filename, mode, _clone(root, None), key)
    else:
        raise ValueError('invalid mode string ``%s``' % mode)
    if not inmem:
        if not os.path.isdir(os.path.dirname(key)):
            raise OSError('``%s`` does not exist' % os.path.dirname(key))
        _store[key] = f._rootnode
        if not os.path.exists(key):
            open(key, 'wb').close()
    _handles.append(f)
    return f


def make():
    m = types.ModuleType('tables')
    m.__dict__.update({k: v for k, v in tb.__dict__.items() if not k.startswith('__')})
    m.open_file = open_file
    m.File = File
    m.Group = Group
    m.Table = Table
    m.EArray = EArray
    m.Node = Node
    m.Leaf = Leaf
    m.__version__ = tb.__version__
    return m
