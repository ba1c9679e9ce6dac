"""Assumed contract of the part of h5py that qtune uses (the library itself is trusted).

Groups hold named objects (listed in the alphabetical order of their names) and attributes; writing copies the data; a name
can be used once; a path separator in a name creates the groups in between; data without an HDF5 representation is
refused with an error; strings are read back as bytes from datasets and as text from attributes; references and hard
links lead to the same object; equal ids mean the same object.
"""
import z3
from .core import Unsupported
from . import core
from .val import *
from .val import E
from .coll import *
from .coll import _scalar
from . import coll


class H5Refusal(TypeError):
    dv_model = True


class HLObject:
    def __init__(self, node):
        self._n = node

    @property
    def id(self):
        return self._n

    @property
    def attrs(self):
        return self._n.attrs

    @property
    def name(self):
        return self._n.name

    @property
    def ref(self):
        return Reference(self._n)

    @property
    def file(self):
        n = self._n
        while n.parent is not None:
            n = n.parent
        return File._of(n)

    @property
    def parent(self):
        return wrap(self._n.parent)

    def __eq__(self, o):
        return isinstance(o, HLObject) and o._n is self._n

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._n)

    def __bool__(self):
        return True


class Reference:
    def __init__(self, node=None):
        self._n = node

    def __bool__(self):
        return self._n is not None


class Empty:
    def __init__(self, dtype):
        self.dtype = dtype


class Node:
    """identity of a stored object"""
    def __init__(self, kind, name, parent):
        self.kind, self.name, self.parent = kind, name, parent
        self.attrs = Attrs()
        self.children = {}
        self.data = None
        self.dtype = None


class VlenStr:
    """variable length string type"""
    kind = 'O'

    def __eq__(self, o):
        return isinstance(o, VlenStr) or o == 'O' or o is object

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 7


class RefType:
    kind = 'O'


VLEN = VlenStr()


class SBytes(Sym):
    """encoded text"""
    def __init__(self, x):
        self.x = x

    def decode(self, *a):
        return self.x

    def __repr__(self):
        return "b'%s'" % (self.x,)
    __str__ = __repr__
    __hash__ = None

    def __eq__(self, o):
        if isinstance(o, SBytes):
            return self.x == o.x
        return False


def _text(x):
    return x.encode('utf-8') if isinstance(x, str) else SBytes(x)


def _probe(a):
    """an entry of the array (a generic one, if it is unbounded)"""
    if all(c.items is not None and c.full for c in a.axes):
        ts = [c.items[0] if c.items else None for c in a.axes]
        if any(t is None for t in ts):
            return None
        return a.f(*ts)
    t = E().terms['Label'][0] if E().terms.get('Label') else lab('dv_probe')
    return a.f(*[t] * a.ndim)


def _entries_named(a):
    if a.namevals:
        return True
    if a.ndim and all(c.items is not None and c.full for c in a.axes):
        import itertools
        kinds = {is_name(a.f(*ts)) for ts in itertools.product(*[c.items for c in a.axes])}
        if len(kinds) > 1:
            raise H5Refusal("Object dtype dtype('O') has no native HDF5 equivalent")
        return kinds == {True}
    return is_name(_probe(a)) if a.ndim else is_name(a.f())


def _snapshot(data, dtype):
    """(stored content, stored type)"""
    if isinstance(data, Reference):
        return data, RefType()
    if isinstance(data, Empty):
        return data, data.dtype
    if isinstance(data, (bytes, SBytes)):
        return data, 'S'
    if is_name(data):
        if isinstance(data, str) and '\0' in data:
            raise ValueError('VLEN strings do not support embedded NULLs')
        if dtype is not None and not isinstance(dtype, VlenStr):
            raise H5Refusal('no conversion path')
        return data, VLEN
    if isinstance(data, bool) or isinstance(data, SBool):
        return data, 'b1'
    if data is not None and conv(data) is not None:
        if isinstance(data, int) and not -2 ** 63 <= data < 2 ** 64:
            raise H5Refusal("Object dtype dtype('O') has no native HDF5 equivalent")
        if isinstance(dtype, VlenStr):
            raise H5Refusal('no conversion path')
        return data, 'f8'
    if isinstance(data, complex):
        return data, 'c16'
    if isinstance(data, (SArr, SSeries, SFrame, SIndex)) or hasattr(data, 'dv_names') or (isinstance(data, (list, tuple)) and data):
        a = as_arr(SIndex(data.dv_names()) if hasattr(data, 'dv_names') and not isinstance(data, SIndex) else data)
        if isinstance(a, SArr) and a.ndim == 0:
            return _snapshot(a.item(), dtype)
        f = a.f
        named = isinstance(data, SIndex) or _entries_named(a)
        if named:
            if isinstance(data, SFrame):
                raise H5Refusal("Object dtype dtype('O') has no native HDF5 equivalent")
            if dtype is not None and not isinstance(dtype, VlenStr):
                raise H5Refusal("Object dtype dtype('O') has no native HDF5 equivalent")
            return SArr(a.axes, f, namevals=True), VLEN
        if isinstance(dtype, VlenStr):
            full = all(c.items is not None and c.full for c in a.axes)
            if not full or all(c.items for c in a.axes):
                raise H5Refusal('no conversion path')
            return SArr(a.axes, f, namevals=True), VLEN
        p = _probe(a)
        return SArr(a.axes, f), ('b1' if isinstance(p, (SBool, bool)) else 'f8')
    raise H5Refusal("Object dtype dtype('O') has no native HDF5 equivalent")


class Attrs:
    def __init__(self):
        self._d = {}

    def create(self, name, data, shape=None, dtype=None):
        self._d[name] = _snapshot(data, dtype)

    modify = create

    def __setitem__(self, name, value):
        self._d[name] = _snapshot(value, None)

    def __getitem__(self, name):
        if name not in self._d:
            raise KeyError("Can't open attribute")
        v, dt = self._d[name]
        if isinstance(v, SArr):
            return SArr(v.axes, v.f, namevals=v.namevals)
        return v

    def get(self, name, default=None):
        return self[name] if name in self._d else default

    def __contains__(self, name):
        return name in self._d

    def __iter__(self):
        return iter(sorted(self._d))

    def keys(self):
        return sorted(self._d)

    def items(self):
        return [(k, self[k]) for k in sorted(self._d)]

    def values(self):
        return [self[k] for k in sorted(self._d)]

    def __len__(self):
        return len(self._d)

    def __delitem__(self, name):
        del self._d[name]


def wrap(node):
    if node is None:
        return None
    return File._of(node) if node.parent is None else Group(node) if node.kind == 'group' else Dataset(node)


class Dataset(HLObject):
    @property
    def dtype(self):
        return self._n.dtype

    @property
    def shape(self):
        d = self._n.data
        return None if isinstance(d, Empty) else d.shape if isinstance(d, SArr) else ()

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        d = self._n.data
        return None if isinstance(d, Empty) else d.size if isinstance(d, SArr) else 1

    def dv_len(self):
        return self.shape[0]

    def _value(self):
        d = self._n.data
        if isinstance(d, SArr):
            f, named = d.f, d.namevals
            return SArr(d.axes, (lambda *t: _text(f(*t))) if named else f)
        if is_name(d):
            return _text(d)
        return d

    def dv_array(self):
        v = self._value()
        return v if isinstance(v, SArr) else SArr((), lambda: v)

    def asstr(self, *a):
        d = self._n.data
        if not isinstance(self._n.dtype, VlenStr):
            raise H5Refusal('dset.asstr() can only be used on datasets with an HDF5 string datatype')

        class View:
            def __getitem__(s, k):
                if k != () and k is not Ellipsis and not (isinstance(k, slice) and k == slice(None)):
                    raise Unsupported('dataset indexing')
                return SArr(d.axes, d.f, namevals=True) if isinstance(d, SArr) else d
        return View()

    def __getitem__(self, k):
        if k == () and isinstance(k, tuple):
            return self._value()
        if k is Ellipsis or isinstance(k, slice) and k == slice(None):
            return self.dv_array()
        return self.dv_array()[k]

    def __iter__(self):
        return iter(self.dv_array())


class Group(HLObject):
    def _walk(self, name, create):
        if not isinstance(name, str):
            if isinstance(name, SLabel):
                raise Unsupported('symbolic HDF5 name')
            raise H5Refusal('Accessing a group is done with bytes or str')
        n = self._n
        name = name.split('\0')[0]
        if name.startswith('/'):
            while n.parent is not None:
                n = n.parent
        parts = [p for p in name.split('/') if p and p != '.']
        for p in parts[:-1]:
            if p not in n.children:
                if not create:
                    return n, None
                n.children[p] = Node('group', n.name.rstrip('/') + '/' + p, n)
            n = n.children[p]
            if n.kind != 'group':
                raise ValueError('Unable to create (a dataset is in the way)') if create else KeyError(name)
        return n, (parts[-1] if parts else '')

    def _new(self, kind, name):
        if File._of_root(self._n).mode == 'r':
            raise ValueError('Unable to create (no write intent on file)')
        if name == '':
            raise H5Refusal('expected bytes, str found')
        n, p = self._walk(name, True)
        if p == '' or p in n.children:
            raise ValueError('Unable to create (name already exists)')
        x = Node(kind, n.name.rstrip('/') + '/' + p, n)
        n.children[p] = x
        return x

    def create_group(self, name, track_order=None):
        return Group(self._new('group', name))

    def require_group(self, name):
        return self[name] if name in self else self.create_group(name)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        if data is None:
            if dtype is None and shape is None:
                raise H5Refusal('One of data, shape or dtype must be specified')
            if shape is not None:
                raise Unsupported('dataset without data')
            v = Empty(dtype), dtype
        else:
            v = _snapshot(data, dtype)
            if shape is not None and shape != (v[0].shape if isinstance(v[0], SArr) else ()):
                raise Unsupported('dataset of another shape')
        x = self._new('dataset', name)
        x.data, x.dtype = v
        return Dataset(x)

    def __setitem__(self, name, v):
        if isinstance(v, HLObject):
            n, p = self._walk(name, True)
            if p in n.children:
                raise ValueError('name already exists')
            n.children[p] = v._n
        else:
            self.create_dataset(name, data=v)

    def __getitem__(self, name):
        if isinstance(name, Reference):
            if name._n is None:
                raise ValueError('Invalid HDF5 object reference')
            return wrap(name._n)
        n, p = self._walk(name, False)
        if p == '':
            return wrap(n)
        if p is None or p not in n.children:
            raise KeyError('Unable to open object (object %r does not exist)' % name)
        return wrap(n.children[p])

    def __delitem__(self, name):
        n, p = self._walk(name, False)
        if p not in n.children:
            raise KeyError(name)
        del n.children[p]

    def get(self, name, default=None):
        return self[name] if name in self else default

    def __contains__(self, name):
        n, p = self._walk(name, False)
        return p == '' or p is not None and p in n.children

    def keys(self):
        return _View(sorted(self._n.children, key=lambda s: s.encode('utf-8')))

    def __iter__(self):
        return iter(self.keys())

    def dv_len(self):
        return len(self._n.children)

    __len__ = dv_len

    def items(self):
        return _View([(k, wrap(self._n.children[k])) for k in self.keys()])

    def values(self):
        return _View([wrap(self._n.children[k]) for k in self.keys()])


class _View(list):
    pass


class File(Group):
    def __init__(self, name, mode='r', **k):
        fs = E().memo.setdefault('h5files', {})
        if not isinstance(name, str):
            raise Unsupported('HDF5 file handle')
        if mode in ('r', 'r+') and name not in fs:
            raise FileNotFoundError(name)
        if mode in ('w-', 'x') and name in fs:
            raise FileExistsError(name)
        if mode == 'w' or name not in fs:
            fs[name] = Node('group', '/', None)
        self._n = fs[name]
        self.mode = mode
        self.filename = name
        E().memo.setdefault('h5mode', {})[id(self._n)] = self

    @staticmethod
    def _of_root(n):
        while n.parent is not None:
            n = n.parent
        return File._of(n)

    @staticmethod
    def _of(n):
        return E().memo['h5mode'][id(n)]

    def close(self):
        pass

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def special_dtype(vlen=None, ref=None, **k):
    if vlen in (str,) or getattr(vlen, '__name__', '') == 'dv_str':
        return VLEN
    if ref is not None:
        return RefType()
    raise Unsupported('special HDF5 type')


def check_dtype(vlen=None, ref=None, **k):
    if ref is not None:
        return Reference if isinstance(ref, RefType) else None
    return str if isinstance(vlen, VlenStr) else None


def make_h5py(Mod):
    m = Mod('h5py', File=File, Group=Group, Dataset=Dataset, HLObject=HLObject, Reference=Reference, Empty=Empty,
            AttributeManager=Attrs, special_dtype=special_dtype, check_dtype=check_dtype, string_dtype=lambda *a, **k: VLEN,
            check_string_dtype=lambda d: d if isinstance(d, VlenStr) else None, check_vlen_dtype=lambda d: check_dtype(vlen=d),
            ref_dtype=RefType(), regionref_dtype=RefType())
    m.h5r = Mod('h5py.h5r', Reference=Reference)
    return m
