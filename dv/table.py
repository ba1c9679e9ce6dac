"""Tables of known shape with arbitrary cells (DataFrame as qtune.history uses it): assumed contract of the pandas operations.

Rows are numbered 0..n-1, columns are python strings.  Everything else raises Unsupported."""
from .core import Unsupported
from .val import NAN, SBool, isnan
from .coll import SFrame, SSeries, SIndex, SSet, Cell, Sym, _pick, core_of_items, lab, unlab, _scalar, E


def names_of(k):
    if isinstance(k, (list, tuple)):
        return list(k)
    return [x for x in k]


class Row(Sym):
    """one row: a Series over the column names whose entries may be any object"""

    def __init__(self, d):
        self.d = d

    @property
    def index(self):
        return Columns(self.d)

    def __getitem__(self, k):
        return self.d[k]

    def dv_names(self):
        return list(self.d)

    def series(self):
        c = core_of_items([lab(n) for n in self.d])
        return SSeries(c, Cell(_pick(c.items, list(self.d.values()))))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.series(), n)

    def __iter__(self):
        return iter(self.d.values())


class Columns(Sym):
    def __init__(self, names):
        self.l = list(names)

    def __iter__(self):
        return iter(self.l)

    def __contains__(self, x):
        return x in self.l

    def __getitem__(self, i):
        return self.l[i]

    @property
    def size(self):
        return len(self.l)

    def dv_len(self):
        return len(self.l)

    def __len__(self):
        return len(self.l)

    def tolist(self):
        return list(self.l)

    @property
    def empty(self):
        return not self.l

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(SIndex(core_of_items([lab(x) for x in self.l])), n)


class Rows(Columns):
    def __init__(self, n):
        self.l = list(range(n))


class Column(Sym):
    def __init__(self, t, name):
        self.t, self.name = t, name

    @property
    def cells(self):
        return self.t.cols[self.name]

    @property
    def index(self):
        return Rows(len(self.cells))

    @property
    def size(self):
        return len(self.cells)

    def __iter__(self):
        return iter(list(self.cells))

    def dv_len(self):
        return len(self.cells)

    def __len__(self):
        return len(self.cells)

    def __getitem__(self, i):
        if isinstance(i, int) and not isinstance(i, bool):
            if not 0 <= i < len(self.cells):
                raise KeyError(i)
            return self.cells[i]
        raise Unsupported('column indexing')

    def tolist(self):
        return list(self.cells)

    def apply(self, fn):
        return Column(STable(self.t.n, {self.name: [fn(x) for x in self.cells]}), self.name)

    @property
    def iloc(self):
        return _At(lambda i: list(self.cells)[i])
    loc = iloc


class _At:
    def __init__(self, get, set=None):
        self.get, self.set = get, set

    def __getitem__(self, k):
        return self.get(k)

    def __setitem__(self, k, v):
        if self.set is None:
            raise Unsupported('table assignment')
        self.set(k, v)


class STable(SFrame):
    def __new__(cls, n=0, cols=None):
        o = object.__new__(STable)
        o.__dict__['n'], o.__dict__['t'] = n, dict(cols or {})
        return o

    def __init__(self, *a, **k):
        pass

    @property
    def cols(self):
        return self.__dict__['t']

    @property
    def core(self):
        raise Unsupported('table as labelled frame')

    @property
    def index(self):
        return Rows(self.n)

    @property
    def columns(self):
        return Columns(self.cols)

    @columns.setter
    def columns(self, names):
        names = names_of(names)
        if len(names) != len(self.cols):
            raise ValueError('Length mismatch')
        if len(set(names)) != len(names) or not all(isinstance(x, (str, tuple)) for x in names):
            raise Unsupported('table with repeated column names')
        self.__dict__['t'] = dict(zip(names, self.cols.values()))

    @property
    def shape(self):
        return (self.n, len(self.cols))

    @property
    def empty(self):
        return self.n == 0 or not self.cols

    def dv_len(self):
        return self.n

    def __len__(self):
        return self.n

    def __iter__(self):
        return iter(list(self.cols))

    def __contains__(self, k):
        return k in self.cols

    def _name(self, k):
        if isinstance(k, (str, tuple)):
            if k not in self.cols:
                raise KeyError(k)
            return k
        raise Unsupported('table column %s' % type(k).__name__)

    def __getitem__(self, k):
        if isinstance(k, str) or isinstance(k, tuple) and k in self.cols:
            return Column(self, self._name(k))
        names = [self._name(x) for x in names_of(k)]
        return STable(self.n, {x: list(self.cols[x]) for x in names})

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise Unsupported('table assignment')
        if isinstance(v, (Column, list, tuple)):
            v = list(v)
        else:
            v = [v] * self.n
        if not self.cols and self.n == 0:
            self.__dict__['n'] = len(v)
        if len(v) != self.n:
            raise ValueError('Length of values does not match length of index')
        self.cols[k] = v

    def items(self):
        return [(n, Column(self, n)) for n in self.cols]

    def keys(self):
        return self.columns

    def copy(self, deep=True):
        return STable(self.n, {k: list(v) for k, v in self.cols.items()})

    def append(self, other, ignore_index=False, sort=False, **k):
        if not ignore_index or not isinstance(other, STable) or k:
            raise Unsupported('append to a table')
        names = list(self.cols) + [x for x in other.cols if x not in self.cols]
        if sort:
            names = sorted(names)
        return STable(self.n + other.n, {x: list(self.cols.get(x, [NAN] * self.n)) + list(other.cols.get(x, [NAN] * other.n)) for x in names})

    def reindex(self, index=None, columns=None, **k):
        if k:
            raise Unsupported('reindex of a table')
        r = self
        if index is not None:
            rows = list(index)
            if not all(isinstance(i, int) for i in rows) or rows != list(range(len(rows))):
                raise Unsupported('reindex of a table')
            r = STable(len(rows), {x: [v[i] if i < self.n else NAN for i in rows] for x, v in r.cols.items()})
        if columns is not None:
            r = STable(r.n, {x: list(r.cols.get(x, [NAN] * r.n)) for x in names_of(columns)})
        return r

    def _pos(self, i, labels):
        if not isinstance(i, int) or isinstance(i, bool):
            raise Unsupported('table row')
        if labels and not 0 <= i < self.n:
            raise KeyError(i)
        if not -self.n <= i < self.n:
            raise IndexError('single positional indexer is out-of-bounds')
        return i % self.n if self.n else i

    def _row(self, i):
        r = Row({x: v[i] for x, v in self.cols.items()})
        return r.series() if r.d and all(_scalar(x) for x in r.d.values()) else r

    @property
    def iloc(self):
        return _At(lambda i: self._row(self._pos(i, False)))

    @property
    def loc(self):
        def get(k):
            if isinstance(k, tuple) and len(k) == 2:
                i = self._pos(k[0], True)
                if isinstance(k[1], str):
                    return self.cols[self._name(k[1])][i]
                return Row({self._name(x): self.cols[x][i] for x in names_of(k[1])})
            return self._row(self._pos(k, True))

        def set(k, v):
            if not (isinstance(k, tuple) and len(k) == 2):
                raise Unsupported('table row assignment')
            i, c = k
            if not isinstance(i, int) or i < 0 or i >= self.n:
                raise Unsupported('table enlargement')
            if isinstance(c, str):
                if isinstance(v, (Row, SSeries, Column, list, dict)):
                    raise Unsupported('table cell assignment')
                if c not in self.cols:
                    self.cols[c] = [NAN] * self.n
                self.cols[c][i] = v
                return
            names = names_of(c)
            for x in names:
                if not isinstance(x, str):
                    raise Unsupported('table row assignment')
                self.cols.setdefault(x, [NAN] * self.n)
            if isinstance(v, Row):
                for x in names:
                    self.cols[x][i] = v.d.get(x, NAN)
            elif isinstance(v, SSeries):
                for x in names:
                    self.cols[x][i] = v.get(x, NAN)
            else:
                raise Unsupported('table row assignment')
        return _At(get, set)
    at = loc

    def filter(self, items=None, like=None, regex=None, axis=None):
        if regex is None or items is not None or like is not None:
            raise Unsupported('table filter')
        import re
        r = re.compile(regex)
        return STable(self.n, {x: list(v) for x, v in self.cols.items() if r.search(x) is not None})

    def rename(self, mapper=None, columns=None, axis=None, **k):
        f = columns if columns is not None else mapper
        if k or (columns is None and axis not in ('columns', 1)):
            raise Unsupported('table rename')
        fn = f if callable(f) else (lambda x: f.get(x, x))
        new = [fn(x) for x in self.cols]
        if len(set(new)) != len(new):
            raise Unsupported('table with repeated column names')
        return STable(self.n, dict(zip(new, [list(v) for v in self.cols.values()])))

    def drop(self, labels=None, axis=0, columns=None, index=None, **k):
        c = columns if columns is not None else labels if axis in (1, 'columns') else None
        if c is None or k:
            raise Unsupported('table drop')
        c = [c] if isinstance(c, str) else names_of(c)
        for x in c:
            self._name(x)
        return STable(self.n, {x: list(v) for x, v in self.cols.items() if x not in c})

    def isna(self):
        return STable(self.n, {x: [SBool(isnan(v)) if _scalar(v) else False for v in l] for x, l in self.cols.items()})
    isnull = isna

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in self.cols:
            return self[n]
        raise Unsupported('DataFrame.%s' % n)

    def __repr__(self):
        return '<table %s>' % list(self.cols)
    __str__ = __repr__

    def __deepcopy__(self, memo):
        return self.copy()


def _off(name):
    def f(self, *a, **k):
        raise Unsupported('DataFrame.%s' % name)
    return f


for _n in ('_col', '_map', 'notna', 'notnull', '__invert__', 'fillna', '_red', 'all', 'any', 'dropna', 'row', 'equals', 'iterrows', 'values', '_with_pres'):
    setattr(STable, _n, _off(_n) if _n != 'values' else property(_off(_n)))


class MultiIndex(Columns):
    """columns named by tuples"""

    @classmethod
    def from_tuples(cls, tuples, sortorder=None, names=None):
        tuples = [tuple(x) for x in tuples]
        if not tuples and names is None:
            raise TypeError('Cannot infer number of levels from empty list')
        return cls(tuples)


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SFrame)


class TableFrame(metaclass=_Meta):
    """pd.DataFrame for modules that build tables row by row"""

    def __new__(cls, data=None, index=None, columns=None, dtype=None, **k):
        if data is None and index is None and columns is None and not k:
            return STable()
        if isinstance(data, dict) and columns is None and not k and not any(isinstance(v, SSeries) for v in data.values()) and \
                all(isinstance(x, str) for x in data):
            if index is not None:
                rows = list(index)
                if rows == list(range(len(rows))):
                    return STable(len(rows), {x: _cells(v, len(rows)) for x, v in data.items()})
            elif data:
                n = {len(v) for v in data.values() if isinstance(v, (list, tuple, Column))}
                if len(n) == 1 and all(isinstance(v, (list, tuple, Column)) for v in data.values()):
                    return STable(n.pop(), {x: list(v) for x, v in data.items()})
            else:
                return STable()
        if isinstance(data, STable):
            if index is None and columns is not None:
                return data.reindex(columns=columns)
            return data.copy()
        return SFrame(data, index, columns, dtype, **k)


def _cells(v, n):
    if isinstance(v, (list, tuple, Column)):
        if len(v) != n:
            raise ValueError('Length of values does not match length of index')
        return list(v)
    return [NAN if v is None else v] * n
