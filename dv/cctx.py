"""Concrete interpretation of the contract scenarios on the real qtune with the real pandas/numpy (run under /opt/venv)."""
import copy
import math
import random
import traceback
import types
import numpy as np
import pandas as pd
from .base import BaseCtx, Outcome


class Discard(BaseException):
    """generated inputs violate the precondition"""


class Violated(BaseException):
    pass


GATES = ['RFB', 'BA', 'T', 'SB', 'N', 'CA']
GRID = [0., 1., -1., .5, -.5, 2., -2., 3., 4., -3., .25, -.75, 1.5, 8., -6., 5.]


def parse(v):
    if v == 'nan':
        return float('nan')
    if v == 'inf':
        return math.inf
    if v == '-inf':
        return -math.inf
    return float(v)


class ConCtx(BaseCtx):
    symbolic = False

    def __init__(self, q, scenario, values=None, seed=0, size=4):
        self.q = q
        self.scenario = scenario
        self._names = {}
        self._undo = []
        self.values = values
        self.rng = random.Random(seed)
        self.used = {}
        self.failures = []
        self.checked = 0
        self.maxsize = size
        self.notes = []

    def module(self, name, **stubs):
        import importlib
        import sys
        for n, m in stubs.items():
            if n not in sys.modules:
                todo = [(n, m)]
                while todo:
                    a, b = todo.pop()
                    sys.modules[a] = b
                    todo.extend((a + '.' + k, v) for k, v in vars(b).items() if isinstance(v, types.ModuleType))
        return importlib.import_module('qtune.' + name)

    # ------------------------------------------------------------ inputs
    def _get(self, name, gen):
        name = self.uniq(name)
        if self.values is not None and name in self.values:
            v = self.values[name]
        else:
            v = gen()
        self.used[name] = v
        return v

    def names(self, name, nonempty=False, distinct_from=(), size=None):
        def gen():
            bad = set(x for ix in distinct_from for x in ix)
            pool = [g for g in GATES if g not in bad]
            if len(pool) < 3:
                pool += ['x%d' % i for i in range(4)]
            if self.rng.random() < .7 and name.lower().startswith(('gate', 'all')):
                pool = pool[:max(self.maxsize, size or 0)]
            k = size if size is not None else self.rng.randint(1 if nonempty else 0, min(self.maxsize, len(pool)))
            if size is None and k == 0 and self.rng.random() < .8:
                k = 1
            return self.rng.sample(pool, k)
        v = self._get(name, gen)
        if size is not None and len(v) != size or nonempty and not v:
            raise Discard()
        if any(x in ix for ix in distinct_from for x in v):
            raise Discard()
        return self._ix(v)

    @staticmethod
    def _ix(l):
        return pd.Index(list(l), dtype=object)

    def subnames(self, name, of, nonempty=False):
        def gen():
            p = self.rng.choice([.3, .6, .9, 1.])
            l = [x for x in of if self.rng.random() < p]
            if nonempty and not l and len(of):
                l = [self.rng.choice(list(of))]
            return l
        v = [x for x in self._get(name, gen) if x in of]
        v = [x for x in of if x in v]
        if nonempty and not v:
            raise Discard()
        return self._ix(v)

    def permuted(self, name, of):
        def gen():
            l = list(of)
            self.rng.shuffle(l)
            return l
        v = [x for x in self._get(name, gen) if x in of]
        v += [x for x in of if x not in v]
        return self._ix(v)

    def shares(self, name, of, n):
        v = self._get(name, lambda: {x: self.rng.randrange(n) for x in of}) if n else {}
        if any(not 0 <= v.get(x, 0) < n for x in of):
            raise Discard()
        return lambda i: self._ix([x for x in of if v.get(x, 0) == i])

    def names_where(self, name, of, cond):
        l = [x for x in of if cond(x)]
        self.rng.shuffle(l)
        return self._ix(l)

    def super_names(self, name, of):
        def gen():
            l = list(of) + [g for g in GATES if g not in of and self.rng.random() < .3]
            self.rng.shuffle(l)
            return l
        v = list(self._get(name, gen))
        v += [x for x in of if x not in v]
        return self._ix(v)

    def union_of(self, a, b):
        return a.union(b)

    def name(self, name):
        return self._get(name, lambda: self.rng.choice(GATES))

    def focus(self, name, *positions):
        return self.name(name)

    def pick(self, name, index):
        if len(index) == 0:
            raise Discard()
        v = self._get(name, lambda: self.rng.choice(list(index)))
        if v not in index:
            raise Discard()
        return v

    def _num(self, nan=False, inf=False, positive=False, nonneg=False):
        x = self.rng.random()
        if nan and x < .15:
            return 'nan'
        if inf and x > .88:
            return self.rng.choice(['inf', '-inf'])
        v = self.rng.choice(GRID)
        if positive:
            v = abs(v) or .5
        if nonneg:
            v = abs(v)
        return v

    def series(self, name, index, nan=False, inf=False, positive=False):
        def gen():
            nn = nan and self.rng.random() < .6
            return {x: self._num(nn, inf and not (positive and self.rng.random() < .5), positive) for x in index}
        v = self._get(name, gen)
        if positive and not all(parse(v[x]) > 0 for x in index if x in v):
            raise Discard()
        return pd.Series([parse(v[x]) if x in v else float(positive) for x in index], index=self._ix(index), dtype=float)

    def name_series(self, name, index, nan=False, injective=False):
        def gen():
            l = list(GATES)
            self.rng.shuffle(l)
            return {x: (None if nan and self.rng.random() < .25 else l[i % len(l)]) for i, x in enumerate(index)}
        v = self._get(name, gen)
        there = [v.get(x) for x in index if v.get(x) is not None]
        if injective and len(set(there)) != len(there):
            raise Discard()
        return pd.Series([v.get(x) if v.get(x) is not None else np.nan for x in index], index=self._ix(index), dtype=object)

    def origin(self, series, x):
        for p in series.index:
            if isinstance(series[p], str) and series[p] == x:
                return True, p
        return False, None

    def real(self, name, nan=False, inf=False, positive=False, nonneg=False):
        v = parse(self._get(name, lambda: self._num(nan, inf, positive, nonneg)))
        if positive and not v > 0 or nonneg and not v >= 0:
            raise Discard()
        return v

    def int(self, name, lo=None, hi=None):
        l = 0 if lo is None else lo
        h = l + 5 if hi is None else hi
        if h < l:
            raise Discard()
        return self._get(name, lambda: self.rng.randint(l, h))

    def name_at(self, index, i):
        return index[i]

    def record(self, name, gates):
        n = self.int('number_of_' + name, lo=0)
        if n > 60:
            raise Discard()
        return [self.series('%s%d' % (name, i), gates) for i in range(n)]

    def lists_same(self, a, b):
        return self.And(len(a) == len(b), *[self.series_same(x, y) for x, y in zip(a, b)])

    def loops(self):
        return False

    def forget_loops(self, *stateless):
        pass

    def once_each(self, n, positions, wanted=lambda i: True):
        return sorted(positions) == [i for i in range(n) if wanted(i)]

    def gathered(self, x, n, values):
        x = list(x)
        return len(x) == n == len(values) and all(a is b for a, b in zip(x, values))

    def loops_may_fail(self):
        pass

    def count(self, n, wanted):
        return sum(bool(wanted(i)) for i in range(n))

    def rank(self, n, wanted, i):
        return sum(bool(wanted(k)) for k in range(i)) if wanted(i) else 0

    def each_place(self, n):
        return range(n)

    def passed(self, last):
        return list(range(last))

    def undecided(self, reason):
        pass

    def many(self, name, make, minimum=1, length=None):
        n = self.int(name, lo=minimum) if length is None else length
        if n > 60:
            raise Discard()
        return [make(i, i) for i in range(n)]

    def flag(self, name):
        return bool(self._get(name, lambda: self.rng.random() < .5))

    fork = flag

    def choice(self, name, n):
        return self._get(name, lambda: self.rng.randrange(n))

    def matrix(self, name, rows, cols):
        v = self._get(name, lambda: {r: {c: self.rng.choice(GRID) for c in cols} for r in rows})
        return pd.DataFrame([[float(v.get(r, {}).get(c, 0.)) for c in cols] for r in rows], index=self._ix(rows),
                            columns=self._ix(cols), dtype=float)

    def make_matrix(self, rows, cols, fn):
        return pd.DataFrame([[float(fn(r, k)) for k in cols] for r in rows], index=self._ix(rows), columns=self._ix(cols), dtype=float)

    def select(self, cases):
        for k, v in cases:
            if k:
                return v
        return cases[-1][1]

    def rows(self, m):
        return m.shape[0]

    def mat_iat(self, m, i, col):
        return m.iloc[i][col]

    def as_set(self, ix):
        return set(ix)

    def row_array(self, s):
        return np.asarray(s, dtype=float).reshape(1, -1)

    def flat_array(self, s):
        return np.array(s, dtype=float)

    def total(self, arr):
        return np.asarray(arr).size

    def flat_at(self, arr, i):
        return np.asarray(arr).ravel()[i]

    def mat_array(self, m):
        return np.array(m, dtype=float)

    def sym_matrix(self, name, index):
        def gen():
            n = len(index)
            b = np.array([[self.rng.choice([0., 1., -1., .5, 2., .25]) for _ in range(n)] for _ in range(n)]).reshape(n, n)
            m = b @ b.T / 2 * self.rng.choice([1., .1, 10.])
            return {r: {c: m[i, j] for j, c in enumerate(index)} for i, r in enumerate(index)}
        v = self._get(name, gen)
        m = np.array([[float(v.get(r, {}).get(c, 0.)) for c in index] for r in index], dtype=float).reshape(len(index), len(index))
        return pd.DataFrame(m + m.T, index=self._ix(index), columns=self._ix(index))

    def positional(self, x, names):
        a = np.asarray(x, dtype=float).ravel()
        return pd.Series(a, index=self._ix(names)) if a.size == len(names) else None

    def matrix_same(self, A, B, names):
        if not isinstance(A, pd.DataFrame) or set(A.index) != set(names) or set(A.columns) != set(names) or A.shape != (len(names),) * 2:
            return False
        return all(self.eq(A.loc[x, y], B.loc[x, y]) for x in names for y in names)

    def positional_matrix_same(self, A, B, names):
        A = np.asarray(A, dtype=float)
        if A.shape != (len(names),) * 2:
            return False
        return all(self.eq(A[i, j], B.loc[x, y]) for i, x in enumerate(names) for j, y in enumerate(names))

    def vector(self, name, index):
        self._vec = self.series(name, index)
        return self._vec.values.copy()

    def last_vector(self, index):
        return self._vec

    def item(self, arr, i, j):
        return np.asarray(arr)[i, j]

    def shape(self, arr):
        return np.asarray(arr).shape

    def only(self, x):
        a = np.asarray(x, dtype=float).ravel()
        return a[0] if a.size == 1 else np.nan

    def frame(self, index, cols):
        return pd.DataFrame({n: (v if isinstance(v, pd.Series) else pd.Series(v, index=index)) for n, v in cols.items()}, index=index)

    def table(self, n, cols):
        return pd.DataFrame({k: list(v) for k, v in cols.items()}, index=list(range(n)))

    def list_series(self, index, items):
        return pd.Series(list(items), index=index, dtype=float if len(index) == 0 else None)

    def make_series(self, index, fn):
        return pd.Series([fn(x) for x in index], index=index, dtype=float)

    def strs(self, *names):
        return pd.Index(list(names), dtype=object)

    def empty_series(self):
        return pd.Series(dtype=float)

    # ------------------------------------------------------------ logic
    def And(self, *xs): return all(bool(x) for x in xs)
    def Or(self, *xs): return any(bool(x) for x in xs)
    def Not(self, x): return not x
    def Implies(self, a, b): return (not a) or bool(b)
    def Iff(self, a, b): return bool(a) == bool(b)
    def ite(self, c, a, b): return a if c else b

    def all(self, index, fn):
        return all(bool(fn(x)) for x in index)

    def any(self, index, fn):
        return any(bool(fn(x)) for x in index)

    def has(self, index, n):
        if isinstance(index, (pd.Series, pd.DataFrame)):
            index = index.index
        return n in index

    def at(self, series, n):
        try:
            return series[n]
        except KeyError:
            return np.nan

    def mat_at(self, m, r, c):
        return m.loc[r, c]

    def isnan(self, x):
        return bool(pd.isna(x))

    def finite(self, x):
        return bool(np.isfinite(x))

    def _scal(self, x):
        if isinstance(x, np.ndarray) and x.shape == ():
            return x[()]
        return x

    def exact(self, a, b):
        a, b = self._scal(a), self._scal(b)
        if isinstance(a, str) or isinstance(b, str):
            return a == b
        if a is None or b is None:
            a = np.nan if a is None else a
            b = np.nan if b is None else b
        try:
            if a != a and b != b:
                return True
            return bool(a == b)
        except Exception:
            return False

    def eq(self, a, b):
        if self.exact(a, b):
            return True
        try:
            a, b = float(self._scal(a)), float(self._scal(b))
        except Exception:
            return False
        if not (math.isfinite(a) and math.isfinite(b)):
            return False
        return abs(a - b) <= 1e-9 * max(1., abs(a), abs(b))

    def near(self, a, b):
        """equal up to the rounding of an ill-conditioned computation"""
        a, b = float(self._scal(a)), float(self._scal(b))
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-6 * max(1., abs(a), abs(b))

    def is_true(self, x):
        return isinstance(x, (bool, np.bool_)) and bool(x)

    def is_false(self, x):
        return isinstance(x, (bool, np.bool_)) and not bool(x)

    def _ssame(self, a, b, f):
        if a is None or b is None:
            return a is b
        if not isinstance(a, pd.Series) or not isinstance(b, pd.Series):
            return False
        if not (a.index.is_unique and b.index.is_unique) or set(a.index) != set(b.index):
            return False
        return all(f(a[x], b[x]) for x in a.index)

    def series_same(self, a, b):
        return self._ssame(a, b, self.exact)

    def series_close(self, a, b):
        return self._ssame(a, b, self.eq)

    def series_exact(self, a, b):
        return self.series_same(a, b) and list(a.index) == list(b.index)

    def index_same(self, a, b):
        return set(a) == set(b) and len(list(a)) == len(list(b))

    def index_order_same(self, a, b):
        return list(a) == list(b)

    def subset(self, a, b):
        return set(a) <= set(b)

    def set_same(self, a, mem):
        if isinstance(a, (pd.Series, pd.DataFrame)):
            a = a.index
        uni = set(a) | set(GATES) | set(getattr(self, 'universe', ()))
        for v in self.used.values():
            if isinstance(v, list):
                uni |= set(x for x in v if isinstance(x, str))
            elif isinstance(v, dict):
                uni |= set(v)
            elif isinstance(v, str):
                uni.add(v)
        return all((n in a) == bool(mem(n)) for n in uni)

    def norm(self, s):
        return float(np.linalg.norm(np.asarray(s, dtype=float)))

    def size(self, index):
        return len(index)

    def floor_div(self, a, b):
        return int(math.floor(a / b))

    def lstsq(self, A, b):
        x = np.linalg.lstsq(np.asarray(A, dtype=float), np.asarray(b, dtype=float),
                            rcond=np.finfo(float).eps * max(A.shape))[0]
        return pd.Series(x, index=A.columns)

    def eigh(self, A):
        w, v = np.linalg.eigh(np.asarray(A, dtype=float))
        return w, v

    def eigen(self, m):
        w, V = np.linalg.eigh(np.asarray(m, dtype=float))
        names = {g: i for i, g in enumerate(m.index)}
        return range(len(w)), lambda k: w[k], lambda g, k: V[names[g], k]

    def column_norms(self, rows, cols, fn):
        return lambda k: float(np.linalg.norm([fn(r, k) for r in rows]))

    def arg_max(self, axis, fn):
        return max(axis, key=fn), False

    def null_basis(self, m):
        import sympy
        return [pd.Series([float(x) for x in v], index=m.columns) for v in sympy.Matrix(m).nullspace()]

    def quad(self, s, m):
        v = s.values.astype(float)
        return float(v @ m.loc[s.index, s.index].values.astype(float) @ v)

    def inverse(self, rows):
        a = np.array(rows, dtype=float)
        try:
            x = np.linalg.inv(a)
        except np.linalg.LinAlgError:
            return None
        if not np.all(np.isfinite(x)) or np.linalg.cond(a) > 1e4:
            raise Discard()
        return x.tolist()

    scratch_inverse = inverse

    def scale_inverse_identities(self, factors):
        pass

    def scale_null_identities(self):
        pass

    def avoid_ties(self, fn):
        for a, b in fn():
            if abs(a - b) <= 1e-6 * max(abs(a), abs(b)):
                raise Discard()

    def arr_at(self, arr, *n):
        return arr[n]

    def names_list(self, ix):
        return list(ix)

    def names_tuple(self, ix):
        return tuple(ix)

    def is_series(self, x):
        return isinstance(x, pd.Series)

    def is_frame(self, x):
        return isinstance(x, pd.DataFrame)

    scratch = None
    files = 0

    def folder(self, name, exists=None):
        import os
        import tempfile
        ex = self._get(name, lambda: self.rng.random() < .5)
        parent = self._get(name + '_parent', lambda: self.rng.random() < .5)
        d = tempfile.mkdtemp(prefix='f_', dir=self.scratch)
        self._folders = getattr(self, '_folders', []) + [d]
        p = os.path.join(d, 'outer', 'sub')
        if ex or parent:
            os.mkdir(os.path.dirname(p))
        if ex:
            os.mkdir(p)
        return p

    def h5file(self):
        import h5py
        ConCtx.files += 1
        return h5py.File('memory%d' % ConCtx.files, mode='w', driver='core', backing_store=False)

    def kind(self, x):
        if x is None:
            return 'none'
        if isinstance(x, (bool, np.bool_)):
            return 'bool'
        if isinstance(x, str):
            return 'str'
        if isinstance(x, (int, float, complex, np.number)):
            return 'number'
        for t, n in ((pd.Series, 'series'), (pd.DataFrame, 'table'), (np.ndarray, 'array')):
            if isinstance(x, t):
                return n
        return type(x).__name__

    def array_same(self, a, b):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and (a.dtype.kind == b.dtype.kind or a.size == 0) and all(self.exact(x, y) for x, y in zip(a.ravel(), b.ravel()))

    def table_same(self, a, b):
        return list(a.index) == list(b.index) and list(a.columns) == list(b.columns) and \
            all(self.exact(x, y) for x, y in zip(np.asarray(a).ravel(), np.asarray(b).ravel()))

    def string_series(self, name, index):
        return self.name_series(name, index)

    def string_array(self, *names):
        return np.array(list(names), dtype=object)

    def install_bench(self, b):
        import queue, threading, multiprocessing, logging
        for m, n, v in ((queue, 'Queue', b.Queue), (threading, 'Thread', b.Worker), (multiprocessing, 'JoinableQueue', b.Queue),
                        (multiprocessing, 'Queue', b.Queue), (multiprocessing, 'Process', b.Worker)):
            self.patch(m, n, v)
        self._errors = []
        me = self

        class H(logging.Handler):
            def emit(self, record):
                if record.levelno >= logging.ERROR:
                    me._errors.append(record.getMessage())
        self._handler = H()
        log = logging.getLogger('qtune')
        self._level = log.level
        log.setLevel(logging.ERROR)
        log.addHandler(self._handler)

    def errors_logged(self):
        return len(self._errors)

    def data_folder(self):
        import tempfile
        d = tempfile.mkdtemp(prefix='d_', dir=self.scratch)
        self._folders = getattr(self, '_folders', []) + [d]
        return d

    def is_dir(self, p):
        import os
        return os.path.isdir(p)

    def cleanup(self):
        import shutil
        super().cleanup()
        if hasattr(self, '_handler'):
            import logging
            logging.getLogger('qtune').removeHandler(self._handler)
            logging.getLogger('qtune').setLevel(self._level)
        for d in getattr(self, '_folders', []):
            shutil.rmtree(d, ignore_errors=True)

    def index_of(self, names):
        return pd.Index(list(names), dtype=object)

    # ------------------------------------------------------------ statements
    def assume(self, cond):
        if not bool(cond):
            raise Discard()

    def ensure(self, label, cond):
        self.checked += 1
        if not bool(cond):
            name = self.scenario + '/' + label
            if name not in self.failures:
                self.failures.append(name)

    lemma = ensure

    def reachable(self, label):
        pass

    def snap(self, x):
        if isinstance(x, (pd.Series, pd.DataFrame)):
            return x.copy(deep=True)
        if isinstance(x, np.ndarray):
            return x.copy()
        if isinstance(x, list):
            return [self.snap(v) for v in x]
        if isinstance(x, tuple):
            return tuple(self.snap(v) for v in x)
        if isinstance(x, dict):
            return {k: self.snap(v) for k, v in x.items()}
        if isinstance(x, set):
            return set(x)
        return x

    def call(self, f, *a, **k):
        try:
            return Outcome(value=f(*a, **k))
        except Exception as err:
            return Outcome(exc=err)

    def run(self, f, *a, **k):
        o = self.call(f, *a, **k)
        if o.exc is not None:
            self.notes.append(''.join(traceback.format_exception(type(o.exc), o.exc, o.exc.__traceback__))[-1500:])
            self.ensure('does not raise', False)
            raise Violated()
        self.checked += 1
        return o.value
