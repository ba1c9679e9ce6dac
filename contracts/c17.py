from dv.base import contract

FUN = ['to_hdf5', 'from_hdf5', '_to_hdf5', '_from_hdf5', '_decode', '_get_dtype', 'HDF5Serializable.__new__', 'HDF5Serializable.__init__']
CONT = ['dict', 'list', 'tuple', 'DvPair']
LEAF = ['number', 'flag', 'string', 'none', 'vector', 'matrix', 'series', 'strings', 'table', 'array of strings']


def setup(c):
    for m in (c.q.storage, c.q.util):
        if hasattr(m, 'get_version'):
            c.patch(m, 'get_version', lambda *a: 'version')
    if '_import_all' in vars(c.q.storage):
        c.patch(c.q.storage, '_import_all', lambda: None)
    reg = c.q.storage.serializables
    if 'DvPair' not in reg:
        def init(self, a=None, b=None):
            self.a, self.b = a, b
        c.q.storage.HDF5Serializable('DvPair', (object,), dict(__init__=init, to_hdf5=lambda self: dict(a=self.a, b=self.b)))

        def init2(self, items, extra):
            self.items, self.extra = list(items), dict(extra)
        # the constructor arguments are built anew when the object is stored
        c.q.storage.HDF5Serializable('DvFresh', (object,), dict(
            __init__=init2, to_hdf5=lambda self: dict(items=tuple(x for x in self.items), extra={k: v for k, v in self.extra.items()})))
    return reg


def leaf(c, kind, name):
    if kind == 'number':
        return c.real(name, nan=True, inf=True)
    if kind == 'integer':
        return c.int(name)
    if kind == 'flag':
        return c.flag(name)
    if kind == 'string':
        return c.name(name)
    if kind == 'none':
        return None
    if kind == 'vector':
        return c.vector(name, c.names(name + '_axis'))
    if kind == 'matrix':
        return c.mat_array(c.matrix(name, c.names(name + '_rows'), c.names(name + '_columns')))
    if kind == 'series':
        return c.series(name, c.names(name + '_labels'), nan=True)
    if kind == 'strings':
        return c.string_series(name, c.names(name + '_labels', size=2))
    if kind == 'array of strings':
        return c.string_array(c.name(name + '0'), c.name(name + '1'))
    if kind == 'table':
        return c.matrix(name, c.names(name + '_rows'), c.names(name + '_columns'))
    raise ValueError(kind)


def container(c, kind, *xs):
    if kind == 'dict':
        return {'ba'[i] if i < 2 else 'k%d' % i: x for i, x in enumerate(xs)}
    if kind == 'list':
        return list(xs)
    if kind == 'tuple':
        return tuple(xs)
    return c.q.storage.serializables[kind](*xs)


def parts(c, x):
    k = c.kind(x)
    if k == 'dict':
        return [x[key] for key in sorted(x)]
    if k in ('list', 'tuple'):
        return list(x)
    if k == 'DvPair':
        return [x.a, x.b]
    if k == 'DvFresh':
        return [x.items, x.extra]
    return None


def same_value(c, a, b):
    """equal content, labels, order and container type"""
    k = c.kind(a)
    if c.kind(b) != k:
        return False
    if k == 'none':
        return True
    if k in ('number', 'bool', 'str'):
        return c.eq(a, b)
    if k == 'series':
        return c.And(c.index_order_same(a.index, b.index), c.series_same(a, b))
    if k == 'table':
        return c.table_same(a, b)
    if k == 'array':
        return c.array_same(a, b)
    if k == 'dict' and sorted(a) != sorted(b):
        return False
    pa, pb = parts(c, a), parts(c, b)
    if pa is None or len(pa) != len(pb):
        return False
    return c.And(*[same_value(c, x, y) for x, y in zip(pa, pb)])


def round_trip(c, x, reserved=None, loaded=None, name='entry'):
    f = c.h5file()
    c.run(c.q.storage.to_hdf5, f, name, x, **({} if reserved is None else dict(reserved=reserved)))
    r = c.run(c.q.storage.from_hdf5, f, loaded)
    c.ensure('under its name', isinstance(r, dict) and name in r)
    return r[name]


@contract('C17', FUN, kind='bounded', note='one value of each kind in each kind of container; the value itself is arbitrary and arrays, series and '
          'tables have any size (series and arrays of strings two entries)')
def kinds(c):
    setup(c)
    x = leaf(c, LEAF[c.choice('kind', len(LEAF))], 'value')
    k = c.choice('container', len(CONT) + 1)
    orig = x if k == 0 else container(c, CONT[k - 1], x)
    old = orig if k == 0 else container(c, CONT[k - 1], c.snap(x))
    r = round_trip(c, orig)
    c.ensure('equal content, labels, order and container', same_value(c, old, r))
    c.ensure('writing changes nothing', same_value(c, old, orig))


@contract('C17', FUN, kind='bounded', note='two levels of containers with at most two members each')
def nested(c):
    setup(c)
    outer = CONT[c.choice('outer', len(CONT))]
    members = []
    for i in range(c.choice('members', 3)):
        k = c.choice('member', len(CONT) + 1)
        n = c.choice('numbers', 3) if k else 1
        xs = [c.real('number') for _ in range(n)]
        members.append(xs[0] if k == 0 else container(c, CONT[k - 1], *xs))
    x = container(c, outer, *members)
    r = round_trip(c, x)
    c.ensure('equal content, order and containers', same_value(c, x, r))


@contract('C17', FUN, kind='bounded', note='12 numbers')
def long_sequences(c):
    setup(c)
    xs = [c.real('number') for _ in range(12)]
    k = CONT[c.choice('container', 3)]
    r = round_trip(c, container(c, k, *xs))
    c.ensure('in their order', same_value(c, container(c, k, *xs), r))


SHARED = ['list', 'tuple', 'dict', 'DvPair', 'series', 'table', 'vector', 'string', 'none', 'array of strings', 'empty list']


def shareable(c, kind, name):
    if kind == 'empty list':
        return []
    if kind in CONT:
        return container(c, kind, c.real(name))
    return leaf(c, kind, name)


@contract('C17', FUN, kind='bounded', note='one object stored twice among at most four members, directly and inside another container')
def sharing(c):
    setup(c)
    kind = SHARED[c.choice('kind', len(SHARED))]
    x = shareable(c, kind, 'shared')
    inner = CONT[c.choice('inner', len(CONT))]
    where = c.choice('where', 3)
    if where == 0:
        obj = [x, x]
    elif where == 1:
        obj = [container(c, inner, x), x]
    else:
        obj = {'a': x, 'b': container(c, inner, container(c, 'tuple', c.real('other'), x))}
    r = round_trip(c, obj)
    c.ensure('equal content', same_value(c, obj, r))
    a, b = parts(c, r)
    if where == 1:
        a = parts(c, a)[0]
    if where == 2:
        b = parts(c, parts(c, b)[0])[1]
    if kind not in ('string', 'none'):
        c.ensure('one shared object', a is b)


@contract('C17', FUN, kind='bounded', note='two or three equal objects of each kind')
def distinct_objects(c):
    setup(c)
    kind = SHARED[c.choice('kind', len(SHARED))]
    if kind in ('string', 'none'):
        return
    x = shareable(c, kind, 'first')
    y = container(c, kind, *parts(c, x)) if kind in CONT else ([] if kind == 'empty list' else c.snap(x))
    z = shareable(c, kind, 'third')
    k = CONT[c.choice('container', 3)]
    obj = container(c, k, x, y, x, z)
    r = round_trip(c, obj)
    c.ensure('equal content', same_value(c, obj, r))
    p = dict(zip([i for i in sorted(obj)] if k == 'dict' else range(4), parts(c, r)))
    ids = [p[i] for i in (sorted(obj, key=lambda q: {'b': 0, 'a': 1, 'k2': 2, 'k3': 3}[q]) if k == 'dict' else range(4))]
    c.ensure('the shared object is shared', ids[0] is ids[2])
    if kind != 'tuple':
        c.ensure('distinct objects are not merged', ids[0] is not ids[1] and ids[0] is not ids[3] and ids[1] is not ids[3])


@contract('C17', FUN, kind='bounded', note='two objects whose constructor arguments are built when they are stored')
def temporaries(c):
    setup(c)
    fresh = c.q.storage.serializables['DvFresh']
    shared = [c.real('shared')]
    objs = [fresh([c.real('number'), shared], {'k': c.real('number'), 's': (c.real('number'),)}) for _ in range(3)]
    obj = [objs[0], objs[1], objs[2], objs[0]]
    r = round_trip(c, obj)
    for i in range(3):
        c.ensure('equal content', c.And(same_value(c, objs[i].items, r[i].items), same_value(c, objs[i].extra, r[i].extra)))
    c.ensure('the shared part is one object', r[0].items[1] is r[1].items[1] and r[1].items[1] is r[2].items[1])
    c.ensure('the shared object is one object', r[0] is r[3])
    c.ensure('others are not merged', r[0] is not r[1] and r[1] is not r[2] and r[0].items is not r[1].items and r[0].extra is not r[1].extra)


@contract('C17', FUN, kind='bounded', note='one reserved object at two places, one of them inside a container, and one which is not stored')
def reserved_objects(c):
    setup(c)
    kind = (SHARED + ['opaque'])[c.choice('kind', len(SHARED) + 1)]
    x = object() if kind == 'opaque' else shareable(c, kind, 'reserved')
    if kind in ('string', 'none'):
        return
    y = shareable(c, kind, 'similar') if kind != 'opaque' else c.real('similar')
    inner = CONT[c.choice('inner', len(CONT))]
    obj = [x, container(c, inner, x), y]
    new, other = object(), object()
    r = round_trip(c, obj, dict(device=x, unused=object()), dict(device=new, unused=other))
    c.ensure('the reserved object of the load', isinstance(r, list) and len(r) == 3 and r[0] is new and parts(c, r[1])[0] is new)
    c.ensure('anything else is stored', same_value(c, y, r[2]))


@contract('C17', FUN, kind='bounded', note='two entries of one file')
def several_entries(c):
    """entries of a file do not affect each other"""
    setup(c)
    f = c.h5file()
    x, y = shareable(c, SHARED[c.choice('kind', len(SHARED))], 'first'), c.series('second', c.names('labels'))
    c.run(c.q.storage.to_hdf5, f, 'one', x)
    c.run(c.q.storage.to_hdf5, f, 'two', [x, y])
    r = c.run(c.q.storage.from_hdf5, f, None)
    c.ensure('both entries', isinstance(r, dict) and {'one', 'two'} <= set(r))
    c.ensure('equal content', c.And(same_value(c, x, r['one']), same_value(c, [x, y], r['two'])))
    q = c.call(c.q.storage.to_hdf5, f, 'one', y)
    c.ensure('an entry is not overwritten', q.raised)
    r = c.run(c.q.storage.from_hdf5, f, None)
    c.ensure('and stays as it was', same_value(c, x, r['one']))


@contract('C17', FUN, kind='bounded', note='one value of each refused kind alone or in each kind of container')
def refused_kinds(c):
    setup(c)
    k = c.choice('kind', 8)
    x = [lambda: {1, 2}, lambda: b'bytes', lambda: frozenset([1]), lambda: (lambda: None), lambda: object(), lambda: {'a/b': c.real('number')},
         lambda: {'a\0b': c.real('number')}, lambda: 2 ** 70][k]()
    i = c.choice('container', len(CONT) + 1)
    obj = x if i == 0 else container(c, CONT[i - 1], c.real('number'), x)
    r = c.call(c.q.storage.to_hdf5, c.h5file(), 'entry', obj)
    c.ensure('refused', r.raised)


@contract('C17', FUN, kind='concrete', note='library values without representation: mixed and mixed-label tables, dates, categories, hierarchical labels')
def refused_library_kinds(c):
    import numpy as np
    import pandas as pd
    setup(c)
    bad = [{1: 2}, {b'a': 1}, {('a',): 1}, {None: 1}, pd.Series(['a', 1.5]), pd.Series(['a', None]), pd.DataFrame({'a': ['x', 'y']}),
           pd.DataFrame({'a': [1.], 'b': ['x']}), pd.Series([1., 2.], index=['a', 1]), pd.Series([1.], index=[('a', 'b')]), np.array([1, None], dtype=object),
           pd.Series([1, 2]).astype('category'), pd.Series(pd.to_datetime(['2020-01-01'])), pd.Series([1.], index=pd.MultiIndex.from_tuples([(1, 2)])),
           range(3), iter([1]), pd.Index(['a']), np.array(['2020'], dtype='M8[D]'), pd.Timestamp('2020'), slice(1), Ellipsis, type, 'a\0b', {'': 1}, {'.': 1}]
    x = bad[c.choice('kind', len(bad))]
    i = c.choice('container', len(CONT) + 1)
    obj = x if i == 0 else container(c, CONT[i - 1], c.real('number'), x)
    c.ensure('refused', c.call(c.q.storage.to_hdf5, c.h5file(), 'entry', obj).raised)


@contract('C17', FUN, kind='concrete', note='random nested values to depth 5 with up to 25 members, random sharing, every dtype and label type')
def random_structures(c):
    import numpy as np
    import pandas as pd
    setup(c)
    rng = np.random.default_rng(c.int('structure', 0, 2 ** 31))
    made = []
    text = ['', 'a', 'Ω', 'ab c', 'x\ny', '#type', 'nan', '0', 'index', 'list', 'ü' * 40]

    def index(n):
        m = rng.integers(4)
        if m == 0:
            return pd.Index([str(i) + str(rng.choice(text)) for i in rng.permutation(n)], dtype=object)
        if m == 1:
            return pd.RangeIndex(n)
        if m == 2:
            return pd.Index(rng.permutation(n) * 3 - 1)
        return pd.Index(rng.permutation(n) / 4.)

    def num(shape):
        m = rng.integers(6)
        a = rng.normal(size=shape)
        if m == 0:
            return (a * 5).astype(int)
        if m == 1:
            return a > 0
        if m == 2:
            return a.astype(np.float32)
        if m == 3:
            return a + 1j * a
        if m == 4:
            return np.where(a > 1, np.nan, a)
        return a

    def make(depth):
        if made and rng.random() < .15:
            return made[rng.integers(len(made))]
        m = rng.integers(16 if depth else 11)
        n = int(rng.integers(0, 6))
        if m == 0:
            return [None, True, False, 0, -3, 1.5, float('nan'), float('inf'), 1 + 2j, 2 ** 62, np.float32(.5), np.int8(3), np.bool_(True)][rng.integers(13)]
        if m in (1, 2):
            return str(rng.choice(text))
        if m in (3, 4):
            x = num((n,) * int(rng.integers(1, 4)))
        elif m == 5:
            n += 1
            x = np.array([str(rng.choice(text)) for _ in range(n)], dtype=object)
            if n % 2 == 0:
                x = x.reshape(2, n // 2)
        elif m in (6, 7):
            x = pd.Series(num(n), index=index(n))
        elif m == 8:
            x = pd.Series([str(rng.choice(text)) for _ in range(n)], index=index(n), dtype=object)
        elif m in (9, 10):
            k = int(rng.integers(0, 4))
            x = pd.DataFrame(num((n, k)), index=index(n), columns=index(k))
        elif m == 11:
            x = [make(depth - 1) for _ in range(n if rng.random() < .9 else 25)]
        elif m == 12:
            x = tuple(make(depth - 1) for _ in range(n if rng.random() < .9 else 13))
        elif m == 13:
            x = {str(i) + str(rng.choice(text)): make(depth - 1) for i in rng.permutation(n)}
        elif m == 14:
            x = c.q.storage.serializables['DvPair'](make(depth - 1), make(depth - 1))
        else:
            x = c.q.storage.serializables['DvFresh']([make(depth - 1) for _ in range(n)], {'a': make(depth - 1)})
        made.append(x)
        return x

    def types(x):
        if isinstance(x, pd.Series):
            return str(x.dtype), x.index.dtype.kind
        if isinstance(x, pd.DataFrame):
            return [str(t) for t in x.dtypes], x.index.dtype.kind if len(x.index) else '', x.columns.dtype.kind if len(x.columns) else ''
        if isinstance(x, np.ndarray):
            return str(x.dtype), x.shape

    fwd, back, ok, shared = {}, {}, [True], [True]

    def compare(a, b):
        if not same_value(c, a, b) or types(a) != types(b):
            ok[0] = False
            return
        k = c.kind(a)
        if k in ('list', 'dict', 'DvPair', 'DvFresh', 'series', 'table', 'array') or k == 'tuple' and len(a):
            if fwd.setdefault(id(a), b) is not b:
                shared[0] = False
            if k != 'tuple' and back.setdefault(id(b), a) is not a:
                shared[0] = False
        for x, y in zip(parts(c, a) or (), parts(c, b) or ()):
            if not (k == 'DvFresh'):
                compare(x, y)
        if k == 'DvFresh':
            for x, y in zip(a.items, b.items):
                compare(x, y)
            compare(a.extra['a'], b.extra['a'])
    x = [make(4), make(3), make(4)]
    f = c.h5file()
    c.run(c.q.storage.to_hdf5, f, 'entry', x)
    r = c.run(c.q.storage.from_hdf5, f, None)['entry']
    compare(x, r)
    c.ensure('equal content, labels, order, types', ok[0])
    c.ensure('the same objects are shared', shared[0])
