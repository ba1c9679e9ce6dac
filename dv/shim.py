"""Contracts of the libraries the code under verification imports, and the loader that brings /repo's modules
into the verifier.

The qtune modules are parsed and compiled from /repo's current source on every run.  The only rewrite of the
syntax tree is: iterables of comprehensions go through `dv_iter`, and `[x for x in xs if c(x)]` goes through
`dv_filter`, set comprehensions through `dv_set`, `not x` through `dv_not`, `any(..)`/`all(..)` over one generator
through `dv_any_of`/`dv_all_of`, `'..' % args` through `dv_text`, `type(x)` through `dv_type` (all are what python
does on ordinary python values).  Imports resolve to the models below, builtins that
must understand symbolic operands (len, set, sorted, zip, int, float, str, min, max, sum, ...) to their symbolic
counterparts.
"""
import ast
import builtins
import re
import numbers
import os as real_os
import sys
import types
import warnings as pywarnings
import z3
from . import core
from .core import Unsupported, Label
from .val import *
from .val import E, _rv
from .many import Many, Record, Zip, Gathered, positions
from . import many
from .coll import *
from .nl import rmul, rdiv
from .coll import _scalar, _pick, _num, memo1
from . import coll, h5

REPO = real_os.environ.get('QTUNE_REPO', '/repo')


# ------------------------------------------------------------------ unknown library members
class Placeholder:
    def __init__(self, name):
        self.__dict__['_n'] = name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Placeholder(self._n + '.' + n)

    def __call__(self, *a, **k):
        raise Unsupported('no model of %s' % self._n)

    def __repr__(self):
        return '<model-less %s>' % self._n

    def __bool__(self):
        raise Unsupported('truth of %s' % self._n)

    def __iter__(self):
        raise Unsupported('iteration of %s' % self._n)

    def __mro_entries__(self, bases):
        return (object,)

    def __or__(self, o):
        return self

    def __getitem__(self, k):
        return self


class Mod(types.ModuleType):
    def __init__(self, name, **kw):
        super().__init__(name)
        self.__path__ = []
        self.__dict__.update(kw)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        p = Placeholder(self.__name__ + '.' + n)
        return p


# ------------------------------------------------------------------ name lists of unbounded size
class Bulk:
    """all members of an ordered name set, in order (inside a list under construction)"""
    def __init__(self, c):
        self.core = c

    def __getattr__(self, n):
        raise Unsupported('operation on each name of an unbounded collection')
    __hash__ = None


def sort_items(items):
    """names in alphabetical order (an unspecified total order), forking on it"""
    out = []
    for t in items:
        E().ground(t)
        i = len(out)
        while i > 0 and bool(SLabel(t) < SLabel(out[i - 1])):
            i -= 1
        out.insert(i, t)
    return out


class SNames(Sym):
    """list of names: concatenation of ordered name sets"""

    def __init__(self, cores, sorted_=False):
        self.cores = list(cores)
        self.sorted = sorted_

    def _union_mem(self):
        ms = [c.mem for c in self.cores]
        return lambda t: Or_(*[m(t) for m in ms])

    def disjoint(self):
        r = []
        for i, a in enumerate(self.cores):
            for b in self.cores[:i]:
                r.append(all_labels(a, lambda t, b=b: Not_(b.mem(t)), 'disjoint'))
        return And_(*r)

    def dv_names(self):
        coll.require_disjoint(self.cores)
        if not self.sorted:
            return concat_core(self.cores) if self.cores else empty_core()
        if len(self.cores) == 1:
            return sort_core(self.cores[0])
        key = ('snames', id(self))
        if key not in E().memo:
            E().memo[key] = (Core(sorted_order(), self._union_mem(), False, 'names'), self)
        return E().memo[key][0]

    def dv_set(self):
        s = SSet(self._union_mem())
        s.src = (self.set_size, s.mem)
        return s

    def set_size(self):
        """number of distinct names: at most the length of the list, and equal exactly if there are no duplicates"""
        if len(self.cores) == 1:
            return self.cores[0].n()
        n = SSet(self._union_mem()).dv_len()
        total, dis = self.dv_len(), self.disjoint()
        E().fact(zi(n) <= zi(total))
        d = dis if not isinstance(dis, bool) else z3.BoolVal(dis)
        E().fact((zi(n) == zi(total)) == d)
        return n

    def dv_len(self):
        r = 0
        for c in self.cores:
            r = r + c.n()
        return r

    def __iter__(self):
        if self.sorted and all(c.items is not None for c in self.cores):
            return iter([unlab(t) for t in sort_items([t for c in self.cores for t in c.explicit()])])
        return iter(SIndex(self.dv_names()))

    def __getitem__(self, i):
        return SIndex(self.dv_names())[i]

    def __contains__(self, x):
        return is_name(x) and bool(SBool(self._union_mem()(E().ground(lab(x)))))

    def __eq__(self, o):
        if isinstance(o, (SNames, list)):
            oc = o.dv_names() if isinstance(o, SNames) else as_core(o)
            return SBool(index_equals(self.dv_names(), oc))
        return False

    def count(self, x):
        n = 0
        for c in self.cores:
            n = n + mki(If_(c.mem(lab(x)), z3.IntVal(1), z3.IntVal(0)))
        return n

    __hash__ = None

    def __add__(self, o):
        if isinstance(o, SNames):
            return SNames(self.cores + o.cores)
        if isinstance(o, (list, tuple)):
            return SNames(self.cores + [core_of_items([lab(x)]) for x in o])
        return NotImplemented

    def index(self, x):
        return SIndex(self.dv_names()).get_loc(x)

    def sort(self):
        self.sorted = True

    def copy(self):
        return SNames(self.cores, self.sorted)


def unbounded(x):
    if isinstance(x, SIndex):
        return x.core.items is None
    if isinstance(x, SSeries):
        return x.core.items is None
    if isinstance(x, SArr):
        return x.ndim == 1 and x.axes[0].items is None
    if isinstance(x, SNames):
        return any(c.items is None for c in x.cores)
    if isinstance(x, SSet):
        return x.items is None
    return False


def names_core(x):
    if isinstance(x, SIndex):
        return x.core
    if isinstance(x, SNames):
        return x.dv_names()
    if isinstance(x, SSet):
        return x.dv_names()
    return None


def dv_iter(x):
    """iteration inside a comprehension"""
    if isinstance(x, (Many, many.Positions)):
        raise Unsupported('comprehension over a sequence of unknown length')
    if isinstance(x, SMat):
        return iter([Bulk(x.cols)])
    if isinstance(x, (SIndex, SNames)) and unbounded(x):
        if isinstance(x, SNames):
            return iter([Bulk(c) for c in x.cores])
        return iter([Bulk(x.core)])
    if isinstance(x, SSet) and unbounded(x):
        return iter([Bulk(x.dv_names())])
    return iter(x)


class CondList(list):
    """[x for x in xs if cond(x)] whose conditions are not decided yet; decided when it is inspected"""

    def __init__(self, pairs):
        super().__init__()
        self.pairs = pairs
        self.done = False

    def force(self):
        if not self.done:
            self.done = True
            super().extend([x for x, c in self.pairs if (bool(c) if isinstance(c, SBool) else c)])
        return self

    def __iter__(self):
        self.force()
        return super().__iter__()

    def __len__(self):
        self.force()
        return super().__len__()

    def dv_len(self):
        self.force()
        return super().__len__()

    def __getitem__(self, i):
        self.force()
        return super().__getitem__(i)

    def __contains__(self, x):
        self.force()
        return super().__contains__(x)

    def __bool__(self):
        self.force()
        return super().__len__() > 0

    def append(self, x):
        self.force()
        super().append(x)

    def __eq__(self, o):
        self.force()
        return list(iter(self)) == o
    __hash__ = None


def dv_filter(xs, cond):
    if unbounded(xs):
        c = names_core(xs)
        if c is None:
            raise Unsupported('filter over an unbounded collection')
        m = memo1(lambda t: zb(cond(unlab(t))))
        return SNames([c.restrict(m)])
    pairs = []
    lazy = False
    for x in xs:
        c = cond(x)
        if isinstance(c, SBool) and not isinstance(c.e, bool):
            lazy = True
        elif not isinstance(c, SBool):
            c = bool(c)
        else:
            c = c.e
        pairs.append((x, c))
    if lazy:
        return CondList(pairs)
    return [x for x, c in pairs if c]


def flat(xs):
    """list possibly containing Bulk tokens -> list or SNames"""
    xs = list(xs)
    if any(isinstance(x, Bulk) for x in xs):
        cores = []
        for x in xs:
            if isinstance(x, Bulk):
                cores.append(x.core)
            else:
                cores.append(core_of_items([lab(x)]))
        return SNames(cores)
    return xs


# ------------------------------------------------------------------ builtins
def dv_len(x):
    f = getattr(type(x), 'dv_len', None)
    if f is not None:
        return f(x)
    if isinstance(x, Placeholder):
        raise Unsupported('len of %r' % x)
    return builtins.len(x)


def _seq(x):
    if isinstance(x, Many):
        return x
    if isinstance(x, Record):
        return x.copy()
    if unbounded(x):
        c = names_core(x)
        if c is None:
            raise Unsupported('list of an unbounded series')
        return SNames(x.cores, x.sorted) if isinstance(x, SNames) else SNames([c])
    return flat(x)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.list, SNames, Record))

    def __getitem__(cls, k):
        return cls


class dv_list(metaclass=_ListMeta):
    def __new__(cls, x=()):
        return _seq(x)


class _TupMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.tuple)

    def __getitem__(cls, k):
        return cls


class dv_tuple(metaclass=_TupMeta):
    def __new__(cls, x=()):
        r = _seq(x)
        return r if isinstance(r, (SNames, Many, Record)) else builtins.tuple(r)


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.set, SSet))


class dv_set(metaclass=_SetMeta):
    def __new__(cls, x=()):
        if isinstance(x, (SIndex, SSeries, SSet, SNames)):
            return SSet.of(x)
        x = flat(x)
        if isinstance(x, SNames):
            return SSet.of(x)
        if all(is_name(v) for v in x):
            return SSet.of(x)
        return builtins.set(x)


class _FSetMeta(_SetMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, SInt)) or isinstance(x, SBool)


class dv_int(metaclass=_IntMeta):
    def __new__(cls, *a):
        return s_int(*a)
    from_bytes = builtins.int.from_bytes


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, SVal))


class dv_float(metaclass=_FloatMeta):
    def __new__(cls, x=0.):
        if isinstance(x, SVal):
            return x
        if isinstance(x, (SInt, SBool)):
            return toV(x)
        if isinstance(x, SArr):
            return x.item()
        if isinstance(x, SSeries):
            return x.item()
        return builtins.float(x)


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.str, SLabel))


class dv_str(metaclass=_StrMeta):
    def __new__(cls, x='', *a):
        if isinstance(x, SLabel):
            return x
        if isinstance(x, SInt) and not a:
            return text_of(x)
        if isinstance(x, h5.SBytes) and a:
            return x.decode(*a)
        return builtins.str(x, *a)
    join = builtins.str.join
    format = builtins.str.format


class _BytesMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.bytes, h5.SBytes))


class dv_bytes(metaclass=_BytesMeta):
    def __new__(cls, *a):
        return builtins.bytes(*a)
    fromhex = builtins.bytes.fromhex


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.bool, SBool))


class dv_bool(metaclass=_BoolMeta):
    def __new__(cls, x=False):
        if isinstance(x, SBool):
            return x
        if isinstance(x, SArr) and x.ndim == 0:
            return dv_bool(x.item())
        return builtins.bool(x)


def dv_type(x, *a):
    if a:
        return builtins.type(x, *a)
    if isinstance(x, SVal):
        return dv_float
    if isinstance(x, SInt):
        return dv_int
    if isinstance(x, SBool):
        return dv_bool
    if isinstance(x, SLabel):
        return dv_str
    t = builtins.type(x)
    return {builtins.int: dv_int, builtins.float: dv_float, builtins.str: dv_str, builtins.bool: dv_bool,
            builtins.list: dv_list, builtins.tuple: dv_tuple, builtins.set: dv_set}.get(t, t)


def dv_round(x, n=None):
    return s_round(x, n)


def _minmax(mx, a, key=None, default=None, has_default=False):
    it = list(a)
    if not it:
        if has_default:
            return default
        raise ValueError('empty sequence')
    if key is not None:
        r, kr = it[0], key(it[0])
        for x in it[1:]:
            k = key(x)
            if (k > kr) if mx else (k < kr):
                r, kr = x, k
        return r
    r = it[0]
    for x in it[1:]:
        c = (x > r) if mx else (x < r)
        if isinstance(c, SBool):
            r = ite(c.e, x, r)
        else:
            r = x if c else r
    return r


_ND = object()


def dv_min(*a, key=None, default=_ND):
    return _mm(False, a, key, default)


def dv_max(*a, key=None, default=_ND):
    return _mm(True, a, key, default)


def _mm(mx, a, key, default):
    if len(a) == 1:
        x = a[0]
        if unbounded(x):
            if isinstance(x, (SSeries, SArr)):
                raise Unsupported('builtin min/max of an unbounded series')
            raise Unsupported('min/max of names')
        a = list(x)
    if default is _ND:
        return _minmax(mx, a, key)
    return _minmax(mx, a, key, default, True)


def dv_sum(x, start=0):
    if unbounded(x):
        raise Unsupported('builtin sum over an unbounded collection')
    r = start
    for v in x:
        r = r + v
    return r


def dv_any(x):
    if isinstance(x, (SSeries, SArr)) and unbounded(x):
        return x.any()
    x = builtins.list(x)
    if any(isinstance(v, Bulk) for v in x):
        raise Unsupported('any over an unbounded collection')
    if all(isinstance(v, (SBool, builtins.bool)) for v in x):
        return SBool(Or_(*[zb(v) for v in x])) if any(isinstance(v, SBool) for v in x) else builtins.any(x)
    return builtins.any(x)


def dv_all(x):
    if isinstance(x, (SSeries, SArr)) and unbounded(x):
        return x.all()
    x = builtins.list(x)
    if any(isinstance(v, Bulk) for v in x):
        raise Unsupported('all over an unbounded collection')
    if all(isinstance(v, (SBool, builtins.bool)) for v in x):
        return SBool(And_(*[zb(v) for v in x])) if any(isinstance(v, SBool) for v in x) else builtins.all(x)
    return builtins.all(x)


def _truth(v):
    return zb(v) if isinstance(v, (SBool, builtins.bool)) else builtins.bool(v)


def _core_of_iter(x):
    """labels and the element at each label of an unbounded collection that is iterated over"""
    if isinstance(x, (SSeries, SArr)):
        if isinstance(x, SArr) and x.ndim != 1:
            raise Unsupported('iteration over an array of rows')
        return (x.core if isinstance(x, SSeries) else x.axes[0]), x.f
    return names_core(x), unlab


def dv_all_of(x, f, cond):
    if unbounded(x):
        c, el = _core_of_iter(x)
        return SBool(all_labels(c, memo1(lambda t: Implies_(_truth(cond(el(t))), _truth(f(el(t)))))))
    r = []
    for v in x:
        c = cond(v)
        if c is not True and not c:
            continue
        b = f(v)
        if not isinstance(b, SBool):
            if not b:
                return False if not r else SBool(False)
            continue
        r.append(b.e)
    return SBool(And_(*r)) if r else True


def dv_any_of(x, f, cond):
    if unbounded(x):
        c, el = _core_of_iter(x)
        return SBool(any_labels(c, memo1(lambda t: And_(_truth(cond(el(t))), _truth(f(el(t)))))))
    r = []
    for v in x:
        c = cond(v)
        if c is not True and not c:
            continue
        b = f(v)
        if not isinstance(b, SBool):
            if b:
                return True if not r else SBool(True)
            continue
        r.append(b.e)
    return SBool(Or_(*r)) if r else False


def dv_sorted(x, key=None, reverse=False):
    if isinstance(x, SSet) and x.items is not None and all(isinstance(unlab(t), str) for t in x.items):
        return builtins.sorted(builtins.set(unlab(t) for t in x.items), key=key, reverse=reverse)
    if isinstance(x, (SIndex, SNames, SSet)):
        if key is not None or reverse:
            raise Unsupported('sorted with options')
        if isinstance(x, SNames):
            return SNames(x.cores, True)
        c = names_core(x)
        if c.items is None or True:
            return SNames([c], True)
    x = flat(x)
    if isinstance(x, SNames):
        return SNames(x.cores, True)
    if key is None and x and all(is_name(v) for v in x) and any(isinstance(v, SLabel) for v in x):
        return SNames([core_of_items([lab(v)]) for v in x], True)
    return builtins.sorted(x, key=key, reverse=reverse)


def dv_zip(*xs):
    if any(isinstance(x, many.Positions) for x in xs):
        raise Unsupported('zip of positions of a sequence of unknown length')
    if any(isinstance(x, Many) for x in xs):
        items = []
        for x in xs:
            if isinstance(x, Many):
                items.append(x)
                continue
            if not unbounded(x):
                raise Unsupported('zip of sequences of known and unknown length')
            c = x.core if isinstance(x, (SIndex, SSeries)) else x.axes[0] if isinstance(x, SArr) else names_core(x)
            if c is None:
                raise Unsupported('zip of unordered collections')
            items.append((c.n(), lambda i, x=x, c=c: unlab(c.at(i)) if isinstance(x, (SIndex, SNames)) else x.f(c.at(i))))
        return Zip(items)
    if not any(unbounded(x) for x in xs):
        return builtins.zip(*[iter(x) for x in xs])
    fixed = [builtins.list(x) for x in xs if not unbounded(x)]
    if not fixed:
        raise Unsupported('zip of unbounded collections')
    n = builtins.min(builtins.len(x) for x in fixed)

    def gen():
        for i in range(n):
            row, j = [], 0
            for x in xs:
                if unbounded(x):
                    c = x.core if isinstance(x, (SIndex, SSeries)) else x.axes[0] if isinstance(x, SArr) else names_core(x)
                    if not SBool(zi(c.n()) > i):
                        return
                    t = c.at(i)
                    row.append(unlab(t) if isinstance(x, (SIndex, SNames)) else x.f(t))
                else:
                    row.append(fixed[j][i])
                    j += 1
            yield builtins.tuple(row)
    return gen()


def dv_enumerate(x, start=0):
    if isinstance(x, (Many, many.Positions)):
        return many.Enumerated(x, start)
    if isinstance(x, SIndex) and unbounded(x):
        a = many.along(x.core)
        if a is not None:
            return many.Enumerated(a, start)
    return builtins.enumerate(iter(x), start)


def dv_range(*a):
    r = positions(a)
    if r is not None:
        return r
    out = []
    for v in a:
        if isinstance(v, SInt):
            out.append(v.__index__())
        else:
            out.append(v)
    return builtins.range(*out)


def dv_print(*a, **k):
    pass


def dv_dict(*a, **k):
    return builtins.dict(*a, **k)


class _DictMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.dict)


numbers.Number.register(SVal)
numbers.Number.register(SInt)
numbers.Integral.register(SInt)
numbers.Real.register(SVal)


# ------------------------------------------------------------------ numpy
def np_elem(name, g):
    def f(x, *a, **k):
        if _scalar(x) and not is_name(x):
            return g(toV(x))
        if isinstance(x, (SSeries, SArr, SMat, SFrame)):
            return x._map(lambda v: g(_num(v)))
        return as_arr(x)._map(lambda v: g(_num(v)))
    f.__name__ = name
    return f


FUN = {}


def _ufun(name):
    def g(v):
        v = toV(v)
        f = FUN.setdefault(name, z3.Function('np_' + name, z3.RealSort(), z3.RealSort()))
        if v.is_plain():
            return SVal(f(v.r))
        raise Unsupported('np.%s of a non-finite value' % name)
    return np_elem(name, g)


def np_zeros_like(x, *a, **k):
    if _scalar(x):
        return 0.
    a_ = as_arr(x)
    return SArr(a_.axes, lambda *t: SVal(ZERO))


def _shape_axes(shape):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    return [coll.axis_core(n) for n in shape]


def _filled(v):
    def f(shape, *a, **k):
        ax = _shape_axes(shape)
        r = SArr(ax, lambda *t: v)
        r.constant = True
        return r
    return f


def np_eye(n, *a, **k):
    c = coll.axis_core(n)
    return SArr((c, c), lambda i, j: SVal(If_(i == j if not i.eq(j) else True, ONE, ZERO)))


def _one(m):
    """the entry of a 1 x 1 matrix"""
    a = m.to_arr()
    if not all(coll.is_unit(c) for c in a.axes):
        raise Unsupported('array of matrices')
    return a.f(*[coll.unit_term()] * 2)


def np_array(x, dtype=None, copy=True, **k):
    if _scalar(x):
        return SArr((), lambda: x) if not is_name(x) else x
    if isinstance(x, SMatrixSp):
        return x.to_arr()
    if isinstance(x, (list, tuple)) and x and all(isinstance(v, SMatrixSp) for v in x):
        return np_array([_one(v) for v in x])
    if hasattr(type(x), 'dv_array'):
        return x.dv_array()
    if isinstance(x, (list, tuple)) and any(isinstance(v, h5.SBytes) for v in x):
        return SArr((coll.anon_core(len(x)),), None, lst=list(x))
    r = as_arr(x)
    return SArr(r.axes, r.f, constant=r.constant, namevals=r.namevals)


def np_asarray(x, dtype=None, **k):
    if isinstance(x, SArr):
        return x
    if isinstance(x, SSeries):
        return x.values
    return np_array(x)


def np_any(x, axis=None, **k):
    if isinstance(x, (SBool, bool)):
        return x
    if isinstance(x, (list, tuple)):
        return dv_any(x)
    return x.any(axis) if isinstance(x, SArr) else (x.any() if not isinstance(x, SFrame) else as_arr(x).any())


def np_all(x, axis=None, **k):
    if isinstance(x, (SBool, bool)):
        return x
    if isinstance(x, (list, tuple)):
        return dv_all(x)
    return x.all(axis) if isinstance(x, SArr) else (x.all() if not isinstance(x, SFrame) else as_arr(x).all())


def _arg(mx):
    def f(x, axis=None):
        """position of the first extremum (nan is treated as the extremum by numpy; such inputs are unsupported)"""
        a = np_array(x) if isinstance(x, (list, tuple)) else as_arr(x)
        if a.ndim == 0:
            return 0
        if axis is not None or a.ndim != 1:
            raise Unsupported('argmax axis')
        c, g = a.axes[0], memo1(lambda t: toV(a.f(t)))
        n = c.n()
        if (isinstance(n, int) and n == 0) or (not isinstance(n, int) and bool(n == 0)):
            raise ValueError('attempt to get argmax of an empty sequence')
        if SBool(any_labels(c, lambda t: g(t).nan)):
            raise Unsupported('argmax with nan')
        e = E()
        p = e.const(z3.IntSort(), 'argmax' if mx else 'argmin')
        e.fact(And_(p >= 0, p < zi(n)))
        w = c.at(SInt(p))
        v = g(w)
        if c.items is not None and c.full:
            for i, t in enumerate(c.items):
                e.fact(g(t)._le(v) if mx else v._le(g(t)))
                e.fact(Implies_(z3.IntVal(i) < p, g(t)._lt(v) if mx else v._lt(g(t))))
        else:
            e.universal(Label, lambda t: Implies_(c.mem(t), And_(g(t)._le(v) if mx else v._le(g(t)),
                                                                Implies_(c.pos(t) < p, g(t)._lt(v) if mx else v._lt(g(t))))))
        return SInt(p)
    return f


def _red(mx, nan_skip):
    def f(x, axis=None):
        if _scalar(x):
            return x
        a = as_arr(x)
        if a.ndim != 1 or axis not in (None, 0):
            raise Unsupported('reduction')
        r = smax(a.axes[0], a.f, mx)
        if nan_skip:
            return r
        return ite(any_labels(a.axes[0], lambda t: isnan(a.f(t))), NAN, r)
    return f


def np_sum(x, axis=None, **k):
    if isinstance(x, (SSeries,)):
        return x.sum()
    if isinstance(x, (list, tuple)) and all(_scalar(v) for v in x):
        return dv_sum(x)
    if isinstance(x, SArr):
        if x.ndim == 0:
            return x.item()
        return x.sum(axis)
    raise Unsupported('np.sum')


def np_norm(x, ord=None, axis=None):
    if ord not in (None, 2):
        raise Unsupported('norm order')
    if isinstance(x, SSeries):
        return norm_of(x.core, x.cell.f)
    a = as_arr(x)
    f = a.f
    if a.ndim == 0:
        return abs(toV(a.item()))
    if a.ndim == 1:
        return norm_of(a.axes[0], f)
    if axis == 0:
        return column_norms(a.axes[0], a.axes[1], f)
    if axis in (1, -1):
        return column_norms(a.axes[1], a.axes[0], lambda c, r: f(r, c))
    raise Unsupported('matrix norm')


def column_norms(R, C, f):
    """euclidean lengths of the columns: direct for enumerated rows, else a function of the labelled table (a non-negative number for
    each column)"""
    if R.elems is not None:
        return SArr((C,), memo1(lambda c: norm_of(R, lambda r: f(r, c))))
    e = E()
    if not e.valid(coll.all_pairs(R, C, lambda t, u: toV(f(t, u)).fin)):
        raise Unsupported('lengths of columns that may not be finite')
    lst = e.memo.setdefault('column_norms', [])
    for (R2, C2, f2, g) in lst:
        if e.valid(_same_fun2((R, C, f), (R2, C2, f2))):
            return SArr((C,), g)
    if lst:
        e.approx = True
    fn = z3.Function(e.fresh('length'), Label, z3.RealSort())
    e.universal(Label, lambda t: fn(t) >= 0)
    g = lambda c: SVal(fn(c))
    lst.append((R, C, f, g))
    return SArr((C,), g)


class LinAlgError(Exception):
    pass


def _same_fun2(a, b):
    """z3 truth: two labelled matrices are equal on the same name sets"""
    (r1, c1, f1), (r2, c2, f2) = a, b
    if len(a) != len(b):
        return False
    return And_(mem_equal(r1, r2), mem_equal(c1, c2),
                coll.all_pairs(r1, c1, lambda t, u: same(f1(t, u), f2(t, u))))


def np_lstsq(A, b, rcond=None):
    """assumed contract: a function of the labelled matrix and right hand side (exists; minimises |Ax-b|)"""
    A_, b_ = as_arr(A), as_arr(b)
    if A_.ndim != 2 or b_.ndim != 1:
        raise Unsupported('lstsq shape')
    p = coll.pairing(A_.axes[0], b_.axes[0])
    fb = b_.f
    g = lambda t: fb(p(t))
    e = E()
    R, C, f = A_.axes[0], A_.axes[1], A_.f
    r, s = (e.ground(e.const(Label, n)) for n in ('row', 'column'))
    clean = e.valid(Implies_(And_(R.mem(r), C.mem(s)), Not_(isnan(f(r, s)))))
    mayfail = SBool(Or_(any_labels(R, lambda t: isnan(g(t))), not clean and any_labels(R, lambda t: any_labels(C, lambda u: isnan(f(t, u))))))
    if mayfail:
        raise Unsupported('lstsq with nan')
    lst = e.memo.setdefault('lstsq', [])
    for (R2, C2, f2, g2, x2) in lst:
        if e.valid(And_(_same_fun2((R, C, f), (R2, C2, f2)), all_labels(R, lambda t: same(g(t), g2(t))))):
            return SArr((C,), x2), None, None, None
    k = e.fresh('lstsq')
    fx = z3.Function(k, Label, z3.RealSort())
    x = lambda t: SVal(fx(t))
    for (R2, C2, f2, g2, x2) in lst:
        eq = And_(_same_fun2((R, C, f), (R2, C2, f2)), all_labels(R, lambda t: same(g(t), g2(t))))
        e.fact(Implies_(eq, forall(Label, lambda t: True, lambda t: same(x(t), x2(t)))))
    lst.append((R, C, f, g, x))
    return SArr((C,), x), None, None, None


def np_eigh(A):
    """assumed contract: a function of the labelled matrix; eigenvectors are unit vectors"""
    a = as_arr(A)
    e = E()
    R, C, f = a.axes[0], a.axes[1], a.f
    lst = e.memo.setdefault('eigh', [])
    for (R2, C2, f2, w, V) in lst:
        if coll.same_positions(R, R2) and e.valid(_same_fun2((R, C, f), (R2, C2, f2))):
            return w, V
    if lst:
        e.approx = True
    k = e.fresh('eigh')
    ax = anon_core(R.n(), 'eig') if not isinstance(R.n(), int) else anon_core(R.n(), 'eig')
    fw = z3.Function('w_' + k, Label, z3.RealSort())
    fV = z3.Function('v_' + k, Label, Label, z3.RealSort())
    w = SArr((ax,), lambda t: SVal(fw(t)))
    V = SArr((R, ax), lambda r, c: SVal(fV(r, c)))
    lst.append((R, C, f, w, V))
    return w, V


def np_inv(A):
    """assumed contract: raises LinAlgError or returns the inverse, a function of the labelled matrix"""
    a = as_arr(A)
    e = E()
    if a.ndim == 2 and all(c.items is not None and c.full for c in a.axes) and len(a.axes[0].items) == len(a.axes[1].items):
        return _inv_grid(a)
    R, C, f = a.axes[0], a.axes[1], a.f
    lst = e.memo.setdefault('inv', [])
    for (R2, C2, f2, res) in lst:
        if e.valid(_same_fun2((R, C, f), (R2, C2, f2))):
            if res is None:
                raise LinAlgError('Singular matrix')
            return SArr((C, R), res)
    if lst:
        e.approx = True
    sing = e.const(z3.BoolSort(), 'singular')
    if SBool(sing):
        lst.append((R, C, f, None))
        raise LinAlgError('Singular matrix')
    k = e.fresh('inv')
    fi = z3.Function(k, Label, Label, z3.RealSort())
    res = lambda c, r: SVal(fi(c, r))
    lst.append((R, C, f, res))
    return SArr((C, R), res)


def _det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return rmul(M[0][0], M[1][1]) - rmul(M[0][1], M[1][0])
    return sum((-1) ** j * rmul(M[0][j], _det([[r[k] for k in range(n) if k != j] for r in M[1:]])) for j in range(n))


def _inv_grid(a):
    """inverse of a matrix of enumerated size: exists exactly if the determinant is not zero; A X = X A = 1"""
    e = E()
    R, C, f = a.axes[0], a.axes[1], a.f
    n = len(R.items)
    V = [[toV(f(r, c)) for c in C.items] for r in R.items]
    if not e.valid(And_(*[v.fin for r in V for v in r])):
        raise Unsupported('inverse of numbers that may not be finite')
    M = [[v.r for v in r] for r in V]
    lst = e.memo.setdefault('inv_grid', [])
    X = None
    for (M2, X2) in lst:
        if len(M2) == n and e.valid(And_(*[M[i][j] == M2[i][j] for i in range(n) for j in range(n)])):
            X = X2
            break
    else:
        if lst:
            e.approx = True
        sing = e.const(z3.BoolSort(), 'singular')
        if n <= 3:
            e.fact(sing == (_det(M) == 0))
        if SBool(sing):
            X = []
        else:
            k = e.fresh('inv')
            X = [[z3.Real('%s_%d_%d' % (k, i, j)) for j in range(n)] for i in range(n)]
            for t, u in inverse_facts(M, X):
                e.fact(t == u)
        lst.append((M, X))
    if not X:
        raise LinAlgError('Singular matrix')
    ri, ci = {t.get_id(): i for i, t in enumerate(R.items)}, {t.get_id(): i for i, t in enumerate(C.items)}

    def g(c, r):
        v = SVal(X[0][0])
        for i, x in enumerate(C.items):
            for j, y in enumerate(R.items):
                if x.eq(c) and y.eq(r):
                    return SVal(X[i][j])
                v = ite(And_(c == x, r == y), SVal(X[i][j]), v)
        return v
    return SArr((C, R), g)


def inverse_facts(M, X):
    n = len(M)
    for i in range(n):
        for j in range(n):
            one = z3.RealVal(1 if i == j else 0)
            yield z3.Sum([rmul(M[i][k], X[k][j]) for k in range(n)]), one
            yield z3.Sum([rmul(X[i][k], M[k][j]) for k in range(n)]), one


def np_diag(x):
    a = as_arr(x)
    if a.ndim != 1:
        raise Unsupported('diag of a matrix')
    c, f = a.axes[0], a.f
    return SArr((c, c), lambda i, j: f(i) if i.eq(j) else ite(i == j, f(i), SVal(ZERO)))


def np_mean(x, axis=None, **k):
    a = as_arr(x) if not isinstance(x, (SSeries,)) else x
    if isinstance(a, SSeries):
        return a.mean()
    if a.ndim == 1 and axis in (None, 0):
        return ssum(a.axes[0], a.f, skipna=False) / toV(a.axes[0].n())
    raise Unsupported('np.mean')


def np_var(x, axis=None, ddof=0, **k):
    a = as_arr(x) if not isinstance(x, SSeries) else SArr((x.core,), x.f)
    if a.ndim == 1 and axis in (None, 0) and not k:
        c, f, m = a.axes[0], a.f, np_mean(a)
        return ssum(c, lambda t: (f(t) - m) * (f(t) - m), skipna=False) / (toV(c.n()) - ddof)
    raise Unsupported('np.var')


def np_nanmean(x, axis=None, **k):
    a = as_arr(x)
    f = a.f
    if a.ndim == 1 and axis in (None, 0):
        c = a.axes[0]
        return ssum(c, f, True) / ssum(c, lambda t: SBool(Not_(isnan(f(t)))))
    if a.ndim == 2 and axis == 0:
        c = a.axes[0]
        return SArr((a.axes[1],), memo1(lambda u: ssum(c, lambda t: f(t, u), True) / ssum(c, lambda t: SBool(Not_(isnan(f(t, u)))))))
    raise Unsupported('np.nanmean')


def np_nanvar(x, axis=None, **k):
    a = as_arr(x)
    f = a.f
    if a.ndim == 2 and axis == 0:
        c = a.axes[0]

        def var(u):
            n = ssum(c, lambda t: SBool(Not_(isnan(f(t, u)))))
            m = ssum(c, lambda t: f(t, u), True) / n
            return ssum(c, lambda t: (toV(f(t, u)) - m) * (toV(f(t, u)) - m), True) / n
        return SArr((a.axes[1],), memo1(var))
    if a.ndim == 1:
        c = a.axes[0]
        n = ssum(c, lambda t: SBool(Not_(isnan(f(t)))))
        m = ssum(c, f, True) / n
        return ssum(c, lambda t: (toV(f(t)) - m) * (toV(f(t)) - m), True) / n
    raise Unsupported('np.nanvar')


def np_count_nonzero(x, axis=None, **k):
    a = as_arr(x)
    f = a.f
    if a.ndim == 2 and axis == 0:
        c = a.axes[0]
        return SArr((a.axes[1],), memo1(lambda u: ssum(c, lambda t: SBool(truth(f(t, u))))))
    if a.ndim == 1:
        return ssum(a.axes[0], lambda t: SBool(truth(f(t))))
    raise Unsupported('count_nonzero')


def np_isnan(x):
    if _scalar(x):
        return SBool(isnan(x)) if not isinstance(x, float) else x != x
    return x._map(lambda v: SBool(isnan(v))) if not isinstance(x, (list, tuple)) else as_arr(x)._map(lambda v: SBool(isnan(v)))


def np_where(c, a=None, b=None):
    if a is None:
        raise Unsupported('np.where')
    if isinstance(c, (SBool, bool)):
        return ite(zb(c), a, b)
    if isinstance(c, SSeries):
        c = as_arr(c)

    def ent(x):
        if _scalar(x):
            return lambda *t: x
        y = as_arr(x)
        ps = [coll.pairing(ca, cb) for ca, cb in zip(c.axes, y.axes)]
        return lambda *t: y.f(*[p(u) for p, u in zip(ps, t)])
    fa, fb, fc = ent(a), ent(b), c.f
    return SArr(c.axes, lambda *t: ite(zb(fc(*t)), fa(*t), fb(*t)))


def _np_pick(mx):
    def f(a, b):
        g = lambda x, y: ite(Or_(isnan(x), isnan(y)), NAN, ite(zb(x >= y if mx else x <= y), x, y))
        if _scalar(a) and _scalar(b):
            return g(toV(a), toV(b))
        if _scalar(a):
            a, b = b, a
        return a._bin(b, g)
    return f


class np_generic:
    pass


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SArr)


class np_ndarray(metaclass=_NdMeta):
    def __new__(cls, shape, *a, **k):
        """uninitialised memory: arbitrary content"""
        ax = _shape_axes(shape)
        e = E()
        f = z3.Function(e.fresh('uninit'), *([Label] * len(ax)), z3.RealSort())
        return SArr(ax, lambda *t: SVal(f(*t)))


def np_sqrt(x):
    return np_elem('sqrt', sqrt_)(x)


def np_isin(a, b):
    m = names_mem(b)
    if is_name(a):
        return SBool(m(lab(a)))
    return SIndex(a).isin(b)


def np_dot(a, b):
    return matmul(a, b)


def np_array_equal(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim != 1 or b.ndim != 1:
        raise Unsupported('array_equal')
    if not SBool(zi(a.axes[0].n()) == zi(b.axes[0].n())):
        return False
    p = coll.pairing(a.axes[0], b.axes[0])
    return SBool(all_labels(a.axes[0], lambda t: toV(a.f(t))._eq(toV(b.f(p(t))))))


def np_isclose(*a, **k):
    raise Unsupported('tolerant comparison')


def np_atleast_1d(x):
    a = as_arr(x)
    if a.ndim:
        return x if isinstance(x, SArr) else a
    f = a.f
    return SArr((anon_core(1),), lambda t: f())


def np_linspace(start, stop, num=50, **k):
    a, b, n = start, stop, num
    a, b = toV(a), toV(b)
    if not isinstance(n, int):
        if k or not isinstance(n, SInt):
            raise Unsupported('linspace of symbolic size')
        c = coll.axis_core(n)
        if bool(n <= 1):
            return SArr((c,), lambda t: a)
        return SArr((c,), lambda t: a + (b - a) * toV(SInt(c.pos(t))) / toV(n - 1))
    return SArr((anon_core(n),), None, lst=[a + (b - a) * i / (n - 1) if n > 1 else a for i in range(n)])


def make_numpy():
    fin = types.SimpleNamespace(eps=sys.float_info.epsilon, max=sys.float_info.max, tiny=sys.float_info.min)
    linalg = Mod('numpy.linalg', norm=np_norm, lstsq=np_lstsq, inv=np_inv, eigh=np_eigh, LinAlgError=LinAlgError)
    m = Mod('numpy', nan=float('nan'), NaN=float('nan'), inf=float('inf'), newaxis=None, pi=3.141592653589793,
            ndarray=np_ndarray, generic=np_generic, float64=dv_float, float_=dv_float, bool_=dv_bool, integer=dv_int,
            floating=dv_float, number=dv_float, linalg=linalg,
            zeros_like=np_zeros_like, ones_like=lambda x, **k: np_zeros_like(x) + 1.,
            zeros=_filled(SVal(ZERO)), ones=_filled(SVal(ONE)), eye=np_eye,
            full=lambda shape, fill_value, **k: _filled(fill_value)(shape), array=np_array, asarray=np_asarray,
            reshape=lambda x, shape, **k: reshape(np_asarray(x), shape if isinstance(shape, (tuple, list)) else (shape,)), squeeze=lambda x, **k: (squeeze(x.to_arr()) if isinstance(x, SMatrixSp) else squeeze(x)), stack=lambda l, axis=0: stack(list(l)) if axis == 0 else Placeholder('np.stack(axis)')(),
            dot=np_dot, matmul=np_dot, any=np_any, all=np_all, argmax=_arg(True), argmin=_arg(False),
            nanargmax=_arg(True), max=_red(True, False), min=_red(False, False), nanmax=_red(True, True),
            nanmin=_red(False, True), amax=_red(True, False), amin=_red(False, False),
            abs=np_elem('abs', abs), absolute=np_elem('abs', abs), fabs=np_elem('abs', abs), isnan=np_isnan,
            isfinite=np_elem('isfinite', lambda v: SBool(v.fin)),
            isinf=np_elem('isinf', lambda v: SBool(Or_(v.pinf, v.ninf))),
            sqrt=np_sqrt, square=np_elem('square', lambda v: v * v), negative=np_elem('neg', lambda v: -v),
            sign=np_elem('sign', lambda v: SVal(z3.If(v.r > 0, ONE, z3.If(v.r < 0, -ONE, ZERO)), v.nan)),
            exp=_ufun('exp'), tanh=_ufun('tanh'), cosh=_ufun('cosh'), sinh=_ufun('sinh'), sin=_ufun('sin'),
            log=_ufun('log'), finfo=lambda t: fin, diag=np_diag, sum=np_sum, mean=np_mean, var=np_var, nanmean=np_nanmean,
            nanvar=np_nanvar, count_nonzero=np_count_nonzero, where=np_where, maximum=_np_pick(True),
            minimum=_np_pick(False), isin=np_isin, in1d=np_isin, array_equal=np_array_equal,
            add=lambda a, b: a + b, subtract=lambda a, b: a - b, multiply=lambda a, b: a * b,
            divide=lambda a, b: a / b, transpose=lambda a: a.T, linspace=np_linspace, atleast_1d=np_atleast_1d,
            isscalar=lambda x: _scalar(x), shape=lambda x: as_arr(x).shape, size=lambda x: as_arr(x).size,
            ravel=lambda x: as_arr(x).ravel(), copy=lambda x: as_arr(x).copy())
    return m


# ------------------------------------------------------------------ pandas
def pd_concat(objs, axis=0, keys=None, sort=False, ignore_index=False, join='outer', **k):
    if isinstance(objs, many.Chosen):
        if axis not in (1, 'columns') or keys is not None or ignore_index or sort:
            raise Unsupported('concat options')
        return objs.dv_columns()
    if isinstance(objs, Gathered):
        if axis in (1, 'columns') and keys is not None and not ignore_index and not sort:
            return objs.dv_columns(keys)
        if axis not in (0, 'index') or keys is not None or ignore_index or sort:
            raise Unsupported('concat options')
        return objs.dv_concat()
    objs = [o for o in objs if o is not None]
    if not objs:
        raise ValueError('No objects to concatenate')
    if axis in (0, 'index'):
        if keys is not None or ignore_index:
            raise Unsupported('concat options')
        if all(isinstance(o, SSeries) for o in objs):
            return concat_series(objs)
        raise Unsupported('concat of frames')
    if all(isinstance(o, SSeries) for o in objs):
        return concat_columns(objs, keys)
    raise Unsupported('concat of frames')


def pd_isna(x):
    if _scalar(x):
        return SBool(isnan(x)) if not (x is None or isinstance(x, (float, str))) else (x is None or x != x)
    return x.isna()


def assert_index_equal(a, b, *x, **k):
    r = SIndex(a).equals(SIndex(b)) if not isinstance(a, SIndex) else a.equals(b)
    if not r:
        raise AssertionError('Index are different')


def make_pandas():
    testing = Mod('pandas.testing', assert_index_equal=assert_index_equal)
    return Mod('pandas', Series=SSeries, DataFrame=SFrame, Index=SIndex, concat=pd_concat, isna=pd_isna,
               isnull=pd_isna, notna=lambda x: SBool(Not_(zb(pd_isna(x)))) if _scalar(x) else x.notna(),
               notnull=lambda x: SBool(Not_(zb(pd_isna(x)))) if _scalar(x) else x.notna(), testing=testing,
               NA=None)


# ------------------------------------------------------------------ sympy
class SMatrixSp(Sym):
    """sympy.Matrix as used by qtune: rows of labelled numbers, or a column vector"""

    def __new__(cls, data):
        o = object.__new__(cls)
        if isinstance(data, SMatrixSp):
            o.rows = data.rows
            o.vec = data.vec
            return o
        if isinstance(data, SSeries):
            o.vec, o.rows = data, None
            return o
        if isinstance(data, SMat):
            o.vec, o.rows = None, as_arr(data)
            return o
        if isinstance(data, (list, tuple)) and data and all(isinstance(x, (SSeries, SArr)) for x in data):
            o.vec, o.rows = None, stack([as_arr(x) for x in data])
            return o
        if isinstance(data, SArr):
            if data.ndim == 1:
                o.vec, o.rows = SSeries(data.axes[0], Cell(data.f)), None
            else:
                o.vec, o.rows = None, data
            return o
        raise Unsupported('sympy.Matrix of %s' % type(data).__name__)

    def __init__(self, *a):
        pass

    def nullspace(self):
        """assumed contract: linearly independent non-zero vectors orthogonal to every row"""
        if self.rows is None:
            raise Unsupported('nullspace of a vector')
        e = E()
        R, C, f = self.rows.axes[0], self.rows.axes[1], self.rows.f
        lst = e.memo.setdefault('nullspace', [])
        for (R2, C2, f2, res) in lst:
            if coll.same_positions(C, C2) and e.valid(_same_fun2((R, C, f), (R2, C2, f2))):
                return list(res)
        if lst:
            e.approx = True
        if C.items is not None and C.full and R.items is not None and R.full:
            lo = max(0, len(C.items) - len(R.items))
            k = lo + e.choose(len(C.items) - lo + 1)
            if k < len(C.items):        # rank > 0
                e.assume(Or_(*[toV(f(t, u)).r != 0 for t in R.items for u in C.items]))
        else:
            k = e.choose(3)
        e.assume(zi(C.n()) >= k)
        res = []
        for i in range(k):
            g = z3.Function(e.fresh('null'), Label, z3.RealSort())
            s = SSeries(C, Cell(lambda t, g=g: SVal(g(t))))
            e.fact(any_labels(C, lambda t, g=g: g(t) != 0))
            its = R.items
            if its is not None:
                for t in its:
                    e.fact(sum_real(C, lambda u, g=g, t=t: rmul(toV(f(t, u)).r, g(u))) == 0)
            res.append(SMatrixSp(s))
        lst.append((R, C, f, res))
        return list(res)

    def norm(self):
        return norm_of(self.vec.core, self.vec.cell.f)

    def to_arr(self):
        if self.vec is None:
            return self.rows
        f = self.vec.cell.f
        u = core_of_items([unit_term()])
        return SArr((self.vec.core, u), lambda t, _: f(t))

    def __truediv__(self, o):
        return SMatrixSp(self.vec / o)

    def __mul__(self, o):
        if isinstance(o, SMatrixSp):
            raise Unsupported('sympy product')
        return SMatrixSp(self.vec * o)

    @property
    def T(self):
        if self.vec is None:
            raise Unsupported('sympy transpose')
        return SRowSp(self.vec, None)


class SRowSp(Sym):
    """transposed column vector, perhaps times a matrix: v.T, v.T * A; v.T * A * u is a 1 x 1 matrix"""

    def __init__(self, vec, mat):
        self.vec, self.mat = vec, mat

    def __mul__(self, o):
        if isinstance(o, SMatrixSp) and o.vec is None and self.mat is None:
            return SRowSp(self.vec, o.rows)
        if isinstance(o, (SArr, SMat)) and self.mat is None:
            return SRowSp(self.vec, as_arr(o))
        if isinstance(o, SMatrixSp) and o.vec is not None and self.mat is not None:
            v = bilinear(self.vec.core, self.vec.cell.f, self.mat, o.vec.core, o.vec.cell.f)
            u, w = core_of_items([unit_term()]), core_of_items([unit_term()])
            return SMatrixSp(SArr((u, w), lambda *_: v))
        raise Unsupported('sympy product')
    __matmul__ = __mul__


def bilinear(R, f, A, C, g):
    """f . A . g as a function of the labelled vectors and matrix (sums of products stay uninterpreted)"""
    if A.ndim != 2 or not (coll.same_positions(R, A.axes[0]) and coll.same_positions(C, A.axes[1])):
        raise Unsupported('product with a matrix of another order')
    e = E()
    fa = A.f
    fin = And_(all_labels(R, lambda t: toV(f(t)).fin), all_labels(C, lambda t: toV(g(t)).fin), coll.all_pairs(R, C, lambda t, u: toV(fa(t, u)).fin))
    if not e.valid(fin):
        raise Unsupported('product of numbers that may not be finite')
    lst = e.memo.setdefault('bilinear', [])
    key = []
    for (R2, f2, A2, C2, g2, v) in lst:
        eq = And_(_same_fun2((R, C, fa), (R2, C2, A2.f)), all_labels(R, lambda t: same(f(t), f2(t))), all_labels(C, lambda t: same(g(t), g2(t))))
        if e.valid(eq):
            return v
        key.append((eq, v))
    v = SVal(e.const(z3.RealSort(), 'product'))
    for eq, v2 in key:
        e.fact(Implies_(eq, v.r == v2.r))
    lst.append((R, f, A, C, g, v))
    return v


# ------------------------------------------------------------------ logging
class Logger:
    def __init__(self, name=None):
        self.name = name

    def _log(self, level, a):
        E().log.append((level, a))

    def info(self, *a, **k): self._log('info', a)
    def debug(self, *a, **k): self._log('debug', a)
    def warning(self, *a, **k): self._log('warning', a)
    warn = warning
    def error(self, *a, **k): self._log('error', a)
    def exception(self, *a, **k): self._log('exception', a)
    def critical(self, *a, **k): self._log('critical', a)
    def isEnabledFor(self, *a): return False


def make_logging():
    import logging
    return Mod('logging', getLogger=lambda *a, **k: Logger(*a, **k), Logger=Logger, DEBUG=10, INFO=20, WARNING=30,
               ERROR=40)


# ------------------------------------------------------------------ math
def make_math():
    import math

    def _m(f, g):
        return lambda x, *a: g(toV(x)) if isinstance(x, Sym) else f(x, *a)
    return Mod('math', isnan=lambda x: SBool(isnan(x)) if isinstance(x, Sym) else math.isnan(x),
               isfinite=_m(math.isfinite, lambda v: SBool(v.fin)),
               isinf=_m(math.isinf, lambda v: SBool(Or_(v.pinf, v.ninf))),
               sqrt=_m(math.sqrt, sqrt_), fabs=_m(math.fabs, abs), nan=math.nan, inf=math.inf, pi=math.pi,
               floor=_m(math.floor, lambda v: mki(z3.ToInt(v.r)) if v.is_plain() else Placeholder('floor')()),
               ceil=_m(math.ceil, lambda v: mki(-z3.ToInt(-v.r)) if v.is_plain() else Placeholder('ceil')()),
               trunc=_m(math.trunc, s_int))


# ------------------------------------------------------------------ os (recorded file system)
class FakePath:
    join = staticmethod(real_os.path.join)
    dirname = staticmethod(real_os.path.dirname)
    basename = staticmethod(real_os.path.basename)
    abspath = staticmethod(real_os.path.abspath)
    split = staticmethod(real_os.path.split)
    splitext = staticmethod(real_os.path.splitext)
    sep = '/'

    @staticmethod
    def _fs():
        return E().memo.setdefault('fs', dict(dirs={}, made=[]))

    @staticmethod
    def isdir(p):
        if not isinstance(p, str):
            raise Unsupported('path')
        p = real_os.path.normpath(p)
        if p in ('/', '/dv', '.'):
            return True
        d = FakePath._fs()['dirs']
        if p not in d:
            b = E().const(z3.BoolSort(), 'isdir')
            d[p] = SBool(b)
            E().assume(z3.Implies(b, zb(FakePath.isdir(real_os.path.dirname(p)))))
        return d[p]
    exists = isdir

    @staticmethod
    def isfile(p):
        raise Unsupported('os.path.isfile')


def fake_makedirs(p, *a, exist_ok=False, **k):
    if isinstance(exist_ok, bool) and not exist_ok and FakePath.isdir(p):
        raise FileExistsError(p)
    p = real_os.path.normpath(p)
    FakePath._fs()['made'].append(p)
    while p not in ('/', '/dv', '.'):
        FakePath.isdir(p)
        FakePath._fs()['dirs'][p] = SBool(True)
        p = real_os.path.dirname(p)


def fake_mkdir(p, *a, **k):
    if FakePath.isdir(p):
        raise FileExistsError(p)
    if not FakePath.isdir(real_os.path.dirname(real_os.path.normpath(p))):
        raise FileNotFoundError(p)
    fake_makedirs(p)


def make_os():
    path = Mod('os.path')
    for n in dir(FakePath):
        if not n.startswith('__'):
            path.__dict__[n] = getattr(FakePath, n)
    return Mod('os', path=path, makedirs=fake_makedirs, mkdir=fake_mkdir, sep='/', fspath=real_os.fspath)


class _BenchClass:
    """queue and worker classes of the standard library; their schedule belongs to the scenario (see workers.py)"""
    def __init__(self, n):
        self._cls = n

    def __call__(self, *a, **k):
        b = E().memo.get('bench')
        if b is None:
            raise Unsupported('workers')
        return getattr(b, self._cls)(*a, **k)

    def __getattr__(self, n):
        raise AttributeError(n)

    def __getitem__(self, k):
        return self

    def __or__(self, o):
        return self

    __ror__ = __or__


# ------------------------------------------------------------------ loader
def dv_text(form, args):
    """form % args where unknown integers become marks"""
    one = not isinstance(args, tuple)
    items = (args,) if one else args
    if any(isinstance(x, SInt) for x in items):
        kinds = re.findall(r'%([^a-zA-Z%]*)([a-zA-Z%])', form)
        if any(f for f, _ in kinds) or any(k not in 'dis%' for _, k in kinds):
            return form                                  # only shown to the user
        form = form.replace('%d', '%s').replace('%i', '%s')
        return form % tuple(str(x) if isinstance(x, SInt) else x for x in items)
    return form % args


def dv_not(x):
    return SBool(Not_(x.e)) if isinstance(x, SBool) else not x


def dv_flatten(xs, fn):
    """(y for x in xs for y in fn(x))"""
    if isinstance(xs, Many):
        return many.flatten(xs, fn)
    return (y for x in dv_iter(xs) for y in dv_iter(fn(x)))


def dv_map(xs, fn):
    """[fn(x) for x in xs]"""
    if isinstance(xs, Many):
        return many.gather(xs, fn)
    return flat([fn(x) for x in dv_iter(xs)])


def dv_select(xs, fn, cond):
    """[fn(x) for x in xs if cond(x)]"""
    if isinstance(xs, Many):
        return many.select(xs, fn, cond)
    return flat([fn(x) for x in dv_iter(xs) if cond(x)])


def dv_lazy(xs, fn):
    """(fn(x) for x in xs)"""
    if isinstance(xs, Many):
        return many.gather(xs, fn)
    return (fn(x) for x in dv_iter(xs))


class Rewriter(ast.NodeTransformer):
    def _mapped(self, node, name):
        g = node.generators[0]
        names = [g.target] if isinstance(g.target, ast.Name) else g.target.elts if isinstance(g.target, (ast.Tuple, ast.List)) else []
        if (len(node.generators) > 1 or len(g.ifs) > (name == 'dv_map__') or g.is_async or not names or not all(isinstance(x, ast.Name) for x in names)
                or len({x.id for x in names}) < len(names)
                or any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) or isinstance(x, ast.Name) and x.id in ('super', 'locals', '__class__')
                       for x in ast.walk(node))):
            return None
        self.generic_visit(node)
        lam = lambda body, *args: ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
        fns = []
        for x in [node.elt] + g.ifs:
            fn = lam(x, *[x.id for x in names])
            if not isinstance(g.target, ast.Name):
                fn = lam(ast.Call(func=fn, args=[ast.Starred(value=ast.Name(id='dv_x__', ctx=ast.Load()), ctx=ast.Load())], keywords=[]), 'dv_x__')
            fns.append(fn)
        return ast.copy_location(ast.Call(func=ast.Name(id='dv_select__' if g.ifs else name, ctx=ast.Load()), args=[g.iter] + fns, keywords=[]), node)

    def _gens(self, node):
        if (isinstance(node, (ast.GeneratorExp, ast.ListComp)) and len(node.generators) > 1 and isinstance(node.elt, ast.Name)
                and all(isinstance(g.target, ast.Name) and not g.ifs and not g.is_async for g in node.generators[-2:])
                and node.elt.id == node.generators[-1].target.id
                and not any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node))):
            self.generic_visit(node)
            a, b = node.generators[-2:]
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=b.iter)
            both = ast.Call(func=ast.Name(id='dv_flatten__', ctx=ast.Load()), args=[a.iter, lam], keywords=[])
            node.generators[-2:] = [ast.comprehension(target=b.target, iter=both, ifs=[], is_async=0)]
            for g in node.generators:
                g.iter = ast.Call(func=ast.Name(id='dv_iter__', ctx=ast.Load()), args=[g.iter], keywords=[])
            return node
        self.generic_visit(node)
        for g in node.generators:
            g.iter = ast.Call(func=ast.Name(id='dv_iter__', ctx=ast.Load()), args=[g.iter], keywords=[])
        return node

    def visit_ListComp(self, node):
        if (len(node.generators) == 1 and len(node.generators[0].ifs) == 1 and not node.generators[0].is_async
                and isinstance(node.generators[0].target, ast.Name) and isinstance(node.elt, ast.Name)
                and node.elt.id == node.generators[0].target.id
                and not any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)) for x in ast.walk(node))):
            self.generic_visit(node)
            g = node.generators[0]
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=g.target.id)], kwonlyargs=[],
                                                kw_defaults=[], defaults=[]), body=g.ifs[0])
            return ast.copy_location(ast.Call(func=ast.Name(id='dv_filter__', ctx=ast.Load()), args=[g.iter, lam],
                                              keywords=[]), node)
        mapped = self._mapped(node, 'dv_map__')
        if mapped is not None:
            return mapped
        self._gens(node)
        return ast.copy_location(ast.Call(func=ast.Name(id='dv_flat__', ctx=ast.Load()), args=[node], keywords=[]), node)

    def visit_Call(self, node):
        q = self._quantified(node)
        if q is not None:
            return self.generic_visit(q)
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == 'type' and len(node.args) == 1 and not node.keywords:
            node.func = ast.copy_location(ast.Name(id='dv_type__', ctx=ast.Load()), node.func)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(func=ast.Name(id='dv_text__', ctx=ast.Load()), args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(ast.Call(func=ast.Name(id='dv_not__', ctx=ast.Load()), args=[node.operand], keywords=[]), node)
        return node

    def _quantified(self, node):
        """any(e for x in xs) / all(e for x in xs)"""
        if not (isinstance(node.func, ast.Name) and node.func.id in ('any', 'all') and len(node.args) == 1 and not node.keywords
                and isinstance(node.args[0], (ast.GeneratorExp, ast.ListComp)) and len(node.args[0].generators) == 1):
            return None
        g = node.args[0].generators[0]
        if g.is_async or not isinstance(g.target, ast.Name) or any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node)):
            return None
        lam = lambda body: ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
        cond = ast.BoolOp(op=ast.And(), values=list(g.ifs)) if len(g.ifs) > 1 else g.ifs[0] if g.ifs else ast.Constant(value=True)
        return ast.copy_location(ast.Call(func=ast.Name(id='dv_%s_of__' % node.func.id, ctx=ast.Load()),
                                          args=[g.iter, lam(node.args[0].elt), lam(cond)], keywords=[]), node)

    def visit_SetComp(self, node):
        l = self.visit_ListComp(ast.copy_location(ast.ListComp(elt=node.elt, generators=node.generators), node))
        return ast.copy_location(ast.Call(func=ast.Name(id='dv_setc__', ctx=ast.Load()), args=[l], keywords=[]), node)

    def visit_GeneratorExp(self, node):
        mapped = self._mapped(node, 'dv_lazy__')
        return mapped if mapped is not None else self._gens(node)

    visit_DictComp = _gens


MODULES = ['util', 'storage', 'experiment', 'kalman_gradient', 'gradient', 'evaluator', 'solver', 'parameter_tuner',
           'autotuner']


TABLES = {'qtune.history'}      # modules whose tables grow row by row: their shape is known, their cells are arbitrary


class Loader:
    def __init__(self, extra=None):
        self.real = {}
        self.tables = make_pandas()
        from .table import TableFrame, MultiIndex
        self.tables.DataFrame, self.tables.MultiIndex = TableFrame, MultiIndex
        self.sources = {}
        self.models = {
            'numpy': make_numpy(), 'pandas': make_pandas(), 'logging': make_logging(), 'math': make_math(),
            'os': make_os(), 'sympy': Mod('sympy', Matrix=SMatrixSp), 'scipy': Mod('scipy', linalg=Mod('scipy.linalg', block_diag=coll.block_diag, inv=np_inv)),
            'h5py': h5.make_h5py(Mod), 'filterpy': Mod('filterpy'), 'matplotlib': Mod('matplotlib'),
            'subprocess': Mod('subprocess'), 'multiprocessing': Mod('multiprocessing', JoinableQueue=_BenchClass('Queue'), Queue=_BenchClass('Queue'), Process=_BenchClass('Worker')),
            'threading': Mod('threading', Thread=_BenchClass('Worker')), 'queue': Mod('queue', Queue=_BenchClass('Queue')),
            'warnings': Mod('warnings', warn=lambda *a, **k: None, catch_warnings=Placeholder('catch_warnings')),
        }
        self.models['os.path'] = self.models['os'].path
        self.models.update(extra or {})
        self.qtune = {}

    REALOK = {'typing', 'enum', 'itertools', 'datetime', 'time', 'numbers', 'copy', 'collections', 'functools',
              'operator', 're', 'abc', 'inspect', 'types', 'contextlib', 'string', 'dataclasses', '__future__',
              'collections.abc', 'random', 'io', 'uuid', 'sys', 'weakref'}

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = 'qtune'
            name = pkg + ('.' + name if name else '')
        top = name.split('.')[0]
        if top == 'qtune':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if name == 'qtune' and f != '*' and not hasattr(m, f):
                        setattr(m, f, self.load('qtune.' + f))
                return m
            return self.load('qtune')
        if name in self.REALOK or top in self.REALOK:
            return __import__(name, None, None, fromlist, 0)
        if name == 'pandas' and globals and globals.get('__name__') in TABLES:
            return self.tables
        if top in self.models:
            m = self.models[top]
            if name == top:
                return m
            if not fromlist:
                return m
            sub = self.models.get(name)
            if sub is None:
                sub = Mod(name)
                for part in [0]:
                    pass
                cur = m
                for part in name.split('.')[1:]:
                    nxt = getattr(cur, part)
                    cur = nxt
                sub = cur if isinstance(cur, types.ModuleType) else Mod(name)
            return sub
        raise Unsupported('import of %s' % name)

    def load(self, name):
        if name in self.qtune:
            return self.qtune[name]
        if name == 'qtune':
            path = REPO + '/qtune/__init__.py'
        else:
            path = REPO + '/' + name.replace('.', '/') + '.py'
        if not real_os.path.exists(path):
            raise ImportError(name)
        src = open(path, encoding='utf-8').read()
        self.sources[path] = src
        with pywarnings.catch_warnings():
            pywarnings.simplefilter('ignore', SyntaxWarning)
            tree = Rewriter().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        mod = types.ModuleType(name)
        mod.__file__ = path
        if name == 'qtune':
            mod.__path__ = []
        self.qtune[name] = mod
        if name != 'qtune':
            parent = self.load('qtune')
            setattr(parent, name.split('.')[1], mod)
        b = dict(vars(builtins))
        b.update(__import__=self.imp, len=dv_len, list=dv_list, tuple=dv_tuple, set=dv_set, int=dv_int, float=dv_float,
                 str=dv_str, bool=dv_bool, bytes=dv_bytes, round=dv_round, min=dv_min, max=dv_max, sum=dv_sum, any=dv_any, all=dv_all,
                 sorted=dv_sorted, zip=dv_zip, enumerate=dv_enumerate, range=dv_range, print=dv_print)
        g = mod.__dict__
        g['__builtins__'] = b
        g['dv_iter__'] = dv_iter
        g['dv_flatten__'] = dv_flatten
        g['dv_map__'], g['dv_lazy__'], g['dv_select__'] = dv_map, dv_lazy, dv_select
        g['dv_text__'] = dv_text
        g['dv_flat__'] = flat
        g['dv_not__'] = dv_not
        g['dv_setc__'] = dv_set
        g['dv_type__'] = dv_type
        g['dv_filter__'] = dv_filter
        g['dv_all_of__'] = dv_all_of
        g['dv_any_of__'] = dv_any_of
        with pywarnings.catch_warnings():
            pywarnings.simplefilter('ignore', SyntaxWarning)
            exec(compile(tree, path, 'exec', optimize=0), g)
        return mod

    def load_all(self, names=MODULES):
        for n in names:
            self.load('qtune.' + n)
        return types.SimpleNamespace(loader=self, **{n: self.qtune['qtune.' + n] for n in names})
