"""Symbolic labelled collections over an unbounded set of names: indexes, series, tables, labelled arrays, sets.

Every ordered collection of names is a subset `mem` of a total order (`Order` token); a series is a function from
names to entries; an array carries the index of each axis (an axis that came from nowhere gets an anonymous
index).  Positional pairing of two axes is the identity when both are the same subset of the same order.
"""
import z3
from . import core
from .core import Unsupported, Label
from .val import *
from .val import E, _rv
from .core import label_eq
from .nl import rmul, rdiv


# ------------------------------------------------------------------ quantifiers
def _ast(x):
    return x if isinstance(x, bool) else z3.simplify(x)


def forall(sort, dom, f, hint='all'):
    """truth value of: for all t of `sort` with dom(t): f(t)"""
    e = E()
    cache = e.memo.setdefault('forall', {})
    depth = e.memo.get('probe_depth', 0)
    probe = z3.Const('probe%d_%s' % (depth, sort.name()), sort)      # one constant per nesting level
    e.memo['probe_depth'] = depth + 1
    try:
        d0 = dom(probe)
        f0 = f(probe) if d0 is not False else True
    finally:
        e.memo['probe_depth'] = depth
    if d0 is False or f0 is True:
        return True
    d0, f0 = _ast(d0), _ast(f0)
    key = (d0 if isinstance(d0, bool) else d0.get_id(), f0 if isinstance(f0, bool) else f0.get_id())
    if key in cache:
        return cache[key][0]
    b = e.const(z3.BoolSort(), hint)
    cache[key] = (b, d0, f0)
    e.universal(sort, lambda t: Or_(Not_(b), Not_(dom(t)), f(t)))
    w = e.const(sort, 'w_' + hint)
    e.fact(Or_(b, And_(dom(w), Not_(f(w)))))
    e.ground(w)
    return b


def exists(sort, dom, f, hint='ex'):
    return Not_(forall(sort, dom, lambda t: Not_(f(t)), hint))


def all_labels(core_, f, hint='all'):
    if core_.items is not None:
        return And_(*[Implies_(core_.mem(t), f(t)) if not core_.full else f(t) for t in core_.items])
    return forall(Label, core_.mem, f, hint)


def all_pairs(a, b, f, hint='allp'):
    """f(t, u) for all t of a and u of b, with one pair of witnesses (a nested quantifier would create witnesses for each t)"""
    if a.items is not None:
        return all_labels(a, lambda t: all_labels(b, lambda u: f(t, u)), hint)
    if b.items is not None:
        return all_labels(a, lambda t: all_labels(b, lambda u: f(t, u)), hint)
    e = E()
    cache = e.memo.setdefault('forall2', {})
    depth = e.memo.get('probe_depth', 0)
    p, q = [z3.Const('probe%d_%s' % (depth + i, Label.name()), Label) for i in (0, 1)]
    e.memo['probe_depth'] = depth + 2
    try:
        d0, f0 = And_(a.mem(p), b.mem(q)), f(p, q)
    finally:
        e.memo['probe_depth'] = depth
    if d0 is False or f0 is True:
        return True
    d0, f0 = _ast(d0), _ast(f0)
    key = (d0 if isinstance(d0, bool) else d0.get_id(), f0 if isinstance(f0, bool) else f0.get_id())
    if key in cache:
        return cache[key][0]
    v = e.const(z3.BoolSort(), hint)
    cache[key] = (v, d0, f0)

    def one(t):
        d = a.mem(t)
        if d is False:
            return True

        def two(u):
            return Or_(Not_(v), Not_(d), Not_(b.mem(u)), f(t, u))
        e.universal(Label, two)
        return True
    e.universal(Label, one)
    w, x = e.const(Label, 'w_' + hint), e.const(Label, 'w_' + hint)
    e.fact(Or_(v, And_(a.mem(w), b.mem(x), Not_(f(w, x)))))
    e.ground(w)
    e.ground(x)
    return v


def any_labels(core_, f, hint='any'):
    return Not_(all_labels(core_, lambda t: Not_(f(t)), hint))


def mem_equal(a, b):
    if a is b:
        return True
    if a.items is not None and b.items is not None:
        return And_(*([b.mem(t) if a.full else Implies_(a.mem(t), b.mem(t)) for t in a.items] +
                      [a.mem(t) if b.full else Implies_(b.mem(t), a.mem(t)) for t in b.items]))
    return forall(Label, lambda t: True, lambda t: Iff_(a.mem(t), b.mem(t)), 'seteq')


def subset(a, b):
    if a is b:
        return True
    return all_labels(a, b.mem, 'subset')


class Order:
    __slots__ = ('items', 'tag')

    def __init__(self, items=None, tag=''):
        self.items = items
        self.tag = tag


def sorted_order():
    e = E()
    if 'sorted_order' not in e.memo:
        e.memo['sorted_order'] = Order(tag='sorted')
    return e.memo['sorted_order']


class Core:
    """an ordered set of names"""
    image = None

    def __init__(self, order, mem, full=False, name='ix'):
        self.order = order
        self.mem = mem
        self.full = full                      # order.items is known and all of them are members
        self.items = order.items              # candidate members, in order
        self.elems = order.items              # distinct candidate members in no particular order, if known
        self._n = None
        self._at = self._pos = None
        self.tag = name

    # ---- size
    def n(self):
        if self._n is None:
            e = E()
            if self.items is not None:
                if self.full:
                    self._n = len(self.items)
                else:
                    self._n = mki(z3.Sum([z3.IntVal(0)] + [If_(self.mem(t), z3.IntVal(1), z3.IntVal(0)) for t in self.items]))
            else:
                n = e.const(z3.IntSort(), 'n_' + self.tag)
                e.fact(n >= 0)
                self._n = SInt(n)
                emp = forall(Label, self.mem, lambda t: False, 'empty')
                e.fact((n == 0) == (emp if not isinstance(emp, bool) else z3.BoolVal(emp)))
                one = forall(Label, self.mem, lambda t: forall(Label, self.mem, lambda u: t == u, 'one2'), 'one') if False else None
            for c in e.memo.setdefault('sized', []):
                if c.items is not None and self.items is not None:
                    continue
                s1, s2 = subset(self, c), subset(c, self)
                e.fact(Implies_(s1, zi(self._n) <= zi(c._n)))
                e.fact(Implies_(s2, zi(c._n) <= zi(self._n)))
                e.fact(Implies_(And_(s1, zi(self._n) == zi(c._n)), s2))
                e.fact(Implies_(And_(s2, zi(self._n) == zi(c._n)), s1))
            e.memo['sized'].append(self)
        return self._n

    # ---- positions
    def _fun(self):
        if self._at is None:
            e = E()
            k = e.fresh('ord_' + self.tag)
            self._at = z3.Function('at_' + k, z3.IntSort(), Label)
            self._pos = z3.Function('pos_' + k, Label, z3.IntSort())
            n = zi(self.n())
            pos, at, mem = self._pos, self._at, self.mem
            e.universal(Label, lambda t: Implies_(mem(t), And_(pos(t) >= 0, pos(t) < n, at(pos(t)) == t)))
        return self._at, self._pos

    def at(self, i):
        """name at position i (no bounds check)"""
        if self.items is not None and self.full:
            if isinstance(i, int):
                return self.items[i]
            t = self.items[-1]
            for k in range(len(self.items) - 2, -1, -1):
                t = z3.If(zi(i) == k, self.items[k], t)
            E().ground(t)
            return t
        at, pos = self._fun()
        e = E()
        i = zi(i)
        t = at(i)
        e.fact(Implies_(And_(i >= 0, i < zi(self.n())), And_(self.mem(t), pos(t) == i)))
        e.ground(t)
        return t

    def pos(self, t):
        if self.items is not None and self.full:
            p = z3.IntVal(len(self.items) - 1)
            for k in range(len(self.items) - 2, -1, -1):
                p = z3.If(t == self.items[k], z3.IntVal(k), p)
            return p
        at, pos = self._fun()
        e = E()
        e.ground(t)
        return pos(t)

    def restrict(self, mem2, tag='sub'):
        m = self.mem
        c = Core(self.order, lambda t: And_(m(t), mem2(t)), False, tag)
        c.elems = self.elems
        return c

    def explicit(self):
        """members in order as a python list, forking on undetermined membership"""
        if self.items is None:
            raise Unsupported('iteration over an index of unbounded size: %s' % self.tag)
        if self.full:
            return list(self.items)
        return [t for t in self.items if E().decide(self.mem(t))]


def core_of_items(terms, tag='list'):
    terms = list(terms)
    o = Order(terms, tag)
    ids = {x.get_id() for x in terms}

    def mem(t):
        k = t.get_id()
        if k in ids:
            return True
        known = E().const_ids
        return Or_(*[t == x for x in terms if x.get_id() not in known]) if k in known else Or_(*[t == x for x in terms])
    return Core(o, mem, True, tag)


def empty_core():
    return core_of_items([], 'empty')


def anon_core(n, tag='axis'):
    """an axis without names"""
    e = E()
    if isinstance(n, int):
        key = ('anon', tag, n)
        items = [z3.Const(e.fresh('ax_%s' % tag), Label) for _ in range(n)]
        if n > 1:
            e.fact(z3.Distinct(*items))
        for t in items:
            e.ground(t)
        return core_of_items(items, tag)
    f = z3.Function(e.fresh('mem_' + tag), Label, z3.BoolSort())
    c = Core(Order(tag=tag), lambda t: f(t), False, tag)
    c._n = n
    e.memo.setdefault('sized', [])
    return c


def axis_core(n):
    """axis of an array of the given size; an ordered set already known to have this size serves as axis"""
    if not isinstance(n, int):
        k = z3.simplify(zi(n))
        if z3.is_int_value(k):
            return anon_core(k.as_long())
        for c in E().memo.get('sized', []):
            if c.items is None and z3.simplify(zi(c._n)).eq(k):
                return c
    return anon_core(n)


def same_positions(a, b):
    """True if the two ordered sets are provably the same sequence"""
    if a is b:
        return True
    if a.order is b.order:
        cache = E().memo.setdefault('samepos', {})
        k = (id(a), id(b))
        if k not in cache:
            cache[k] = (E().valid(mem_equal(a, b)), a, b)
        return cache[k][0]
    if a.items is not None and b.items is not None and a.full and b.full:
        return len(a.items) == len(b.items) and all(x.eq(y) for x, y in zip(a.items, b.items))
    return False


def pairing(a, b):
    """maps a name of a to the name of b at the same position"""
    if same_positions(a, b):
        return lambda t: t
    if a.image is not None and same_positions(a.image[0], b):
        return a.image[1]
    na, nb = a.n(), b.n()
    if not (na == nb):
        raise ValueError('operands could not be broadcast together / lengths differ')
    if a.items is not None and a.full and b.items is not None and b.full:
        def m(t):
            r = b.items[-1]
            for x, y in list(zip(a.items, b.items))[-2::-1]:
                r = y if t.eq(x) else (r if any(t.eq(z) for z in a.items) else z3.If(t == x, y, r))
            return r
        return m
    E().approx = True

    def mapped(t):
        return b.at(SInt(a.pos(t)))
    return mapped


def image_core(s):
    """the entries of a series of distinct names, in order"""
    e = E()
    key = ('image', id(s.core), id(s.cell.f))
    if key in e.memo:
        return e.memo[key][0]
    src, K = s.core, s.cell.f
    p, r = e.const(Label, 'p'), e.const(Label, 'r')
    e.ground(p)
    e.ground(r)
    kp, kr = K(p), K(r)
    if not isinstance(kp, SLabel):
        raise Unsupported('series of numbers used as list of names')
    if not e.valid(Implies_(src.mem(p), Not_(kp.null))):
        raise Unsupported('list of names with missing entries')
    if not e.valid(Implies_(And_(src.mem(p), src.mem(r), kp.t == kr.t), p == r)):
        raise Unsupported('list of names with duplicates')
    inv = z3.Function(e.fresh('inv'), Label, Label)
    e.universal(Label, lambda t: Implies_(src.mem(t), inv(lab(K(t))) == t))

    def back(t):
        u = inv(t)
        if t.num_args() == 0:
            e.ground(u)
        return u
    c = Core(Order(tag='image'), lambda t: And_(src.mem(back(t)), Not_(K(back(t)).null), K(back(t)).t == t), False, 'image')
    c.image = (src, back)
    e.memo[key] = (c, s.core, s.cell.f)
    return c


# ------------------------------------------------------------------ Index
def as_core(x):
    """ordered names -> Core"""
    if isinstance(x, SIndex):
        return x.core
    if isinstance(x, SSeries):
        if x.core.items is None:
            return image_core(x)
        return core_of_items([lab(x.f(t)) for t in x.core.explicit()])
    if isinstance(x, SSet):
        raise Unsupported('set used as an indexer')
    if isinstance(x, (list, tuple)):
        return core_of_items([lab(v) for v in x])
    if isinstance(x, SArr) and x.ndim == 1 and x.namevals:
        if x.f is unlab:
            return x.axes[0]
        if x.axes[0].items is None:
            return image_core(SSeries(x.axes[0], Cell(x.f)))
        return core_of_items([lab(x.f(t)) for t in x.axes[0].explicit()])
    if isinstance(x, (set, frozenset)):
        return core_of_items([lab(v) for v in sorted(x)])
    if isinstance(x, range):
        raise Unsupported('integer index')
    if hasattr(x, 'dv_names'):
        return x.dv_names()
    raise Unsupported('index from %s' % type(x).__name__)


class SIndex(Sym):
    def __new__(cls, data=None, *a, **k):
        o = object.__new__(cls)
        if isinstance(data, Core):
            o.core = data
        elif data is None:
            o.core = empty_core()
        else:
            o.core = as_core(data)
        return o

    def __init__(self, *a, **k):
        pass

    def mem(self, t):
        return self.core.mem(t)

    @property
    def size(self):
        return self.core.n()

    def dv_len(self):
        return self.core.n()

    @property
    def empty(self):
        return SBool(all_labels(self.core, lambda t: False, 'empty'))

    @property
    def shape(self):
        return (self.core.n(),)

    def __contains__(self, x):
        if not is_name(x):
            return False
        return bool(SBool(self.core.mem(E().ground(lab(x)))))

    def __iter__(self):
        from .many import along
        a = along(self.core)
        return iter(a) if a is not None else iter([unlab(t) for t in self.core.explicit()])

    def __getitem__(self, i):
        if isinstance(i, (int, SInt)) and not isinstance(i, bool):
            n = self.core.n()
            if isinstance(i, int) and i < 0:
                i = n + i
            inside = And_(zi(i) >= 0, zi(i) < zi(n))
            if not E().valid(inside) and not SBool(inside):
                raise IndexError('index out of bounds')
            if self.core.items is not None and not self.core.full:
                return unlab(self.core.explicit()[i])
            return unlab(self.core.at(i))
        if isinstance(i, slice):
            l = self.core.explicit()
            return SIndex(core_of_items(l[i]))
        m = mask_of(i, self.core)
        if m is not None:
            return SIndex(self.core.restrict(m))
        raise Unsupported('index indexing')

    def intersection(self, other, sort=False):
        o = names_mem(other)
        if isinstance(other, SIndex) and same_positions(self.core, other.core):
            return self
        r = self.core.restrict(o, 'isect')
        if (self.core.items is None or len(self.core.items) <= 4) and E().valid(all_labels(self.core, o)):
            return self
        return SIndex(r)
    __and__ = intersection

    def difference(self, other, sort=None):
        o = names_mem(other)
        m = self.core.mem
        if self.core.items is not None:
            return SIndex(self.core.restrict(lambda t: Not_(o(t)), 'diff'))
        return SIndex(Core(sorted_order(), lambda t: And_(m(t), Not_(o(t))), False, 'diff'))

    def union(self, other, sort=None):
        oc = as_core(other) if not isinstance(other, SSet) else Core(Order(), other.mem)
        return SIndex(union_core(self.core, oc))
    __or__ = union

    def append(self, other):
        return SIndex(concat_core([self.core, as_core(other)]))

    def isin(self, other):
        o = names_mem(other)
        return SArr((self.core,), lambda t: SBool(o(t)))

    def drop(self, labels):
        o = names_mem(as_list_names(labels))
        if not SBool(subset(as_core(as_list_names(labels)), self.core)):
            raise KeyError('labels not found in axis')
        return SIndex(self.core.restrict(lambda t: Not_(o(t))))

    def equals(self, other):
        if not isinstance(other, SIndex):
            return False
        return SBool(index_equals(self.core, other.core))

    def __eq__(self, other):
        if isinstance(other, SIndex):
            p = pairing(self.core, other.core)
            return SArr((self.core,), lambda t: SBool(t == p(t)))
        if is_name(other):
            x = lab(other)
            return SArr((self.core,), lambda t: SBool(t == x))
        raise Unsupported('index comparison')

    def __ne__(self, other):
        r = self.__eq__(other)
        return SArr(r.axes, lambda t: ~r.f(t))

    __hash__ = None

    def copy(self, *a, **k):
        return SIndex(self.core)

    def tolist(self):
        return list(self)
    to_list = tolist

    @property
    def values(self):
        return SArr((self.core,), unlab, namevals=True)

    def to_numpy(self):
        return self.values

    def sort_values(self):
        return SIndex(sort_core(self.core))

    def unique(self):
        return self

    @property
    def is_unique(self):
        return True

    @property
    def dtype(self):
        return 'O'

    def ravel(self, *a):
        return self

    def get_loc(self, x):
        if x not in self:
            raise KeyError(x)
        return mki(self.core.pos(lab(x)))

    def astype(self, *_):
        return self

    def to_series(self):
        return SSeries(self.core, Cell(unlab))

    def map(self, f):
        raise Unsupported('Index.map')

    def __repr__(self):
        return '<index>'
    __str__ = __repr__

    def __format__(self, s):
        return '<index>'

    def __sub__(self, o):
        raise Unsupported('index subtraction')

    def __bool__(self):
        raise ValueError('The truth value of a Index is ambiguous')


def unlab(t):
    """label term -> python str for named constants, SLabel otherwise"""
    for k, v in E().consts.items():
        if v.eq(t):
            return k
    return SLabel(t)


def sort_core(c):
    if c.items is not None and len(c.items) <= 1:
        return c
    if c.items is not None:
        names = [unlab(t) for t in c.items]
        if all(isinstance(x, str) for x in names):
            its = [lab(x) for x in sorted(names)]
            r = core_of_items(its)
            if not c.full:
                r = r.restrict(c.mem)
            return r
        key = ('sortcore', id(c))
        if key not in E().memo:
            r = Core(sorted_order(), c.mem, False, 'sorted')
            E().memo[key] = (r, c)
        return E().memo[key][0]
    return Core(sorted_order(), c.mem, False, 'sorted') if c.order is not sorted_order() else c


def names_mem(x):
    """membership predicate of a collection of names"""
    if isinstance(x, SIndex):
        return x.core.mem
    if isinstance(x, SSet):
        return x.mem
    if isinstance(x, SSeries):
        # values of the series, as pandas does for Index(series)
        c = x.core
        try:
            s = x.f(next(iter(E().terms.get('Label', [None]))) if E().terms.get('Label') else lab('dv_probe'))
        except Unsupported:
            raise
        if isinstance(s, (SVal, SBool, int, float)):
            return lambda t: False          # names never equal numbers
        if c.items is not None:
            vals = [x.f(t) for t in c.explicit()]
            return lambda t: Or_(*[t == lab(v) for v in vals])
        return lambda t: any_labels(c, lambda u: And_(Not_(x.f(u).null) if isinstance(x.f(u), SLabel) else True, lab(x.f(u)) == t))
    if isinstance(x, (list, tuple, set, frozenset)):
        terms = [lab(v) for v in x if is_name(v)]
        return lambda t: Or_(*[label_eq(t, u) for u in terms])
    if isinstance(x, dict):
        return names_mem(list(x))
    if isinstance(x, SFrame):
        raise Unsupported('frame as names')
    return names_mem(SIndex(as_core(x)))


def as_list_names(x):
    if is_name(x):
        return [x]
    return x


def index_equals(a, b):
    if same_positions(a, b):
        return True
    m = mem_equal(a, b)
    if a.order is b.order:
        return m
    if m is False or E().valid(Not_(m)):
        return False
    if a.items is not None and b.items is not None and a.full and b.full:
        if len(a.items) != len(b.items):
            return False
        return And_(*[x == y for x, y in zip(a.items, b.items)])
    E().approx = True
    return And_(m, forall(Label, a.mem, lambda t: a.pos(t) == b.pos(t), 'sameorder'))


def union_core(a, b):
    if same_positions(a, b):
        return a
    am, bm = a.mem, b.mem
    e = E()
    if e.valid(subset(b, a)) and (e.valid(subset(a, b)) and False):
        return a
    key = ('union', id(a), id(b))
    if key not in e.memo:
        if a.elems is not None and b.elems is not None and (a.items is None or b.items is None):
            c = Core(sorted_order(), lambda t: Or_(am(t), bm(t)), False, 'union')
            new = [t for t in b.elems if not any(t.eq(x) for x in a.elems)]
            if all(e.valid(And_(*[t != x for x in a.elems])) for t in new):
                c.elems = list(a.elems) + new
        elif a.items is not None and b.items is not None:
            # candidates: a's items then b's items not in a
            its = list(a.items)
            for t in b.items:
                if not any(t.eq(x) for x in its):
                    its.append(t)
            known = a.full and b.full and all(
                any(t.eq(x) for x in a.items) or e.valid(And_(*[t != x for x in a.items])) for t in b.items)
            if known:
                c = core_of_items(its, 'union')
                c.order.tag = 'union'
            else:
                c = Core(Order(tag='union'), lambda t: Or_(am(t), bm(t)), False, 'union')
        else:
            c = Core(sorted_order(), lambda t: Or_(am(t), bm(t)), False, 'union')
        e.memo[key] = (c, a, b)
    return e.memo[key][0]


def concat_core(cores):
    e = E()
    key = ('concat',) + tuple(id(c) for c in cores)
    if key not in e.memo:
        if len(cores) == 1:
            c = cores[0]
        else:
            if all(c.items is not None and c.full for c in cores):
                c = core_of_items([t for x in cores for t in x.items], 'concat')
            elif all(c.items is not None for c in cores) and all(
                    label_eq(t, u) is False for i, x in enumerate(cores) for y in cores[:i] for t in x.items for u in y.items):
                mems = [c.mem for c in cores]
                okey = ('concat_order',) + tuple(id(c.order) for c in cores)
                o = e.memo.setdefault(okey, (Order([t for x in cores for t in x.items], tag='concat'), cores))[0]
                c = Core(o, lambda t: Or_(*[m(t) for m in mems]), False, 'concat')
            else:
                mems = [c.mem for c in cores]
                okey = ('concat-order',) + tuple(id(c.order) for c in cores)
                o = e.memo.setdefault(okey, (Order(tag='concat'), cores))[0]
                c = Core(o, lambda t: Or_(*[m(t) for m in mems]), False, 'concat')
        e.memo[key] = (c, cores)
    return e.memo[key][0]


def require_disjoint(cores):
    for i, a in enumerate(cores):
        for b in cores[:i]:
            d = all_labels(a, lambda t: Not_(b.mem(t)), 'disjoint')
            if not SBool(d):
                raise Unsupported('duplicate labels')


def memo1(f):
    """cache a function of label terms (sums inside would otherwise be introduced anew at every use)"""
    cache = {}

    def g(*t):
        k = tuple(x.get_id() for x in t)
        if k not in cache:
            cache[k] = (f(*t), t)
        return cache[k][0]
    return g


# ------------------------------------------------------------------ masks
def mask_of(x, core_):
    """boolean indexer aligned with core_ -> predicate on labels"""
    if isinstance(x, SSeries) and x.is_bool():
        return lambda t: zb(x.f(t))
    if isinstance(x, SArr) and x.ndim == 1 and x.is_bool():
        p = pairing(core_, x.axes[0])
        return lambda t: zb(x.f(p(t)))
    if isinstance(x, list) and x and all(isinstance(v, (SBool, bool)) for v in x) and core_.items is not None:
        its = core_.explicit()
        return lambda t: Or_(*[And_(t == u, zb(v)) for u, v in zip(its, x)])
    return None


class Cell:
    """storage shared between views"""
    __slots__ = ('f', 'ver')

    def __init__(self, f):
        self.f = f
        self.ver = 0

    def set(self, f):
        self.f = f
        self.ver += 1


def _dtype(core_, f):
    """'O' if the entries are names"""
    if core_.items is not None:
        return 'O' if core_.items and any(is_name(f(t)) for t in core_.items) else 'f8'
    t = E().terms['Label'][0] if E().terms.get('Label') else lab('dv_probe')
    return 'O' if is_name(f(t)) else 'f8'


def _scalar(x):
    return x is None or is_name(x) or conv(x) is not None


class _Ops:
    """arithmetic shared by series and arrays; subclasses define _bin"""

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: b + a)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)
    def __pow__(self, o): return self._map(lambda a: toV(a) ** o) if not isinstance(o, (SSeries, SArr)) else self._nope()
    def __neg__(self): return self._map(lambda a: -toV(a))
    def __pos__(self): return self
    def __abs__(self): return self._map(lambda a: abs(toV(a)))
    def __lt__(self, o): return self._bin(o, lambda a, b: a < b, cmp=True)
    def __le__(self, o): return self._bin(o, lambda a, b: a <= b, cmp=True)
    def __gt__(self, o): return self._bin(o, lambda a, b: a > b, cmp=True)
    def __ge__(self, o): return self._bin(o, lambda a, b: a >= b, cmp=True)
    def __eq__(self, o): return self._bin(o, lambda a, b: _eqs(a, b), cmp=True, raw=True)
    def __ne__(self, o): return self._bin(o, lambda a, b: SBool(Not_(zb(_eqs(a, b)))), cmp=True, raw=True)
    def __and__(self, o): return self._bin(o, lambda a, b: SBool(And_(zb(a), zb(b))), raw=True)
    def __rand__(self, o): return self.__and__(o)
    def __or__(self, o): return self._bin(o, lambda a, b: SBool(Or_(zb(a), zb(b))), raw=True)
    def __invert__(self): return self._map(lambda a: SBool(Not_(zb(a))))
    def _nope(self): raise Unsupported('operation')
    __hash__ = None

    def __iadd__(self, o): return self._ibin(o, lambda a, b: a + b)
    def __isub__(self, o): return self._ibin(o, lambda a, b: a - b)
    def __imul__(self, o): return self._ibin(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._ibin(o, lambda a, b: a / b)

    def __bool__(self):
        raise ValueError('The truth value of a collection is ambiguous')


def _eqs(a, b):
    if is_name(a) or is_name(b):
        if is_name(a) and is_name(b):
            na = a.null if isinstance(a, SLabel) else False
            nb = b.null if isinstance(b, SLabel) else False
            return SBool(And_(Not_(na), Not_(nb), lab(a) == lab(b)))
        return SBool(False)
    return SBool(toV(a)._eq(toV(b)))


def _num(x):
    if isinstance(x, (SVal, SInt)) or (isinstance(x, (int, float)) and not isinstance(x, bool)):
        return toV(x)
    if x is None:
        return NAN
    if isinstance(x, (SBool, bool)):
        return toV(x)
    if isinstance(x, SLabel) and x.null is True:
        return NAN
    raise Unsupported('arithmetic on %s' % type(x).__name__)


# ------------------------------------------------------------------ Series
class SSeries(_Ops, Sym):
    _accessors = ()

    def __new__(cls, data=None, index=None, dtype=None, name=None, copy=False, **kw):
        o = object.__new__(cls)
        o.name = name
        if isinstance(data, Core):            # internal constructor
            o.core, o.cell = data, index
            return o
        if isinstance(data, SSeries) and index is None:
            o.core, o.cell = data.core, (Cell(data.cell.f) if copy else data.cell)
            o.name = name or data.name
            return o
        if isinstance(data, (list, tuple)):
            data = list(data)
            c = as_core(index) if index is not None else anon_core(len(data), 'rng')
            if c.items is not None and c.full:
                if len(c.items) != len(data):
                    raise ValueError('Length of values does not match length of index')
                o.core, o.cell = c, Cell(_pick(c.items, data))
                return o
            if len(data) == 1 and False:
                pass
            raise Unsupported('Series(list, unbounded index)')
        if isinstance(data, dict):
            keys = list(data)
            c0 = core_of_items([lab(k) for k in keys])
            f0 = _pick(c0.items, [data[k] for k in keys]) if keys else (lambda t: NAN)
            if index is None:
                o.core, o.cell = c0, Cell(f0)
            else:
                o.core = as_core(index)
                o.cell = Cell(lambda t: ite(c0.mem(t), f0(t), NAN) if keys else NAN)
            return o
        if isinstance(data, SArr) and data.ndim == 0:
            data = data.item()
        if isinstance(data, SArr):
            if data.ndim != 1:
                raise Unsupported('Series from %d-d array' % data.ndim)
            f = data.f
            if index is None:
                raise Unsupported('Series from an array without labels')
            c = as_core(index)
            p = pairing(c, data.axes[0])
            o.core, o.cell = c, Cell(lambda t: f(p(t)))
            return o
        if isinstance(data, SSeries):
            c = as_core(index)
            s, f = data.core, data.cell.f
            o.core = c
            o.cell = Cell(lambda t: ite(s.mem(t), f(t), NAN))
            return o
        if isinstance(data, SIndex):
            o.core = as_core(index) if index is not None else data.core
            p = pairing(o.core, data.core)
            o.cell = Cell(lambda t: unlab(p(t)))
            return o
        if _scalar(data):
            v = NAN if data is None else data
            o.core = as_core(index) if index is not None else (empty_core() if data is None else anon_core(1))
            o.cell = Cell(lambda t: v)
            return o
        raise Unsupported('Series from %s' % type(data).__name__)

    def __init__(self, *a, **k):
        pass

    # ---- basics
    def f(self, t):
        return self.cell.f(t)

    @property
    def index(self):
        return SIndex(self.core)

    @index.setter
    def index(self, ix):
        c = as_core(ix)
        p = pairing(c, self.core)
        f = self.cell.f
        self.core, self.cell = c, Cell(lambda t: f(p(t)))

    @property
    def size(self):
        return self.core.n()

    def dv_len(self):
        return self.core.n()

    @property
    def shape(self):
        return (self.core.n(),)

    @property
    def ndim(self):
        return 1

    @property
    def empty(self):
        return SBool(all_labels(self.core, lambda t: False, 'empty'))

    @property
    def values(self):
        return SArr((self.core,), self.cell.f, view=self)

    def to_numpy(self, *a, **k):
        return SArr((self.core,), self.cell.f)

    @property
    def array(self):
        return self.values

    @property
    def dtype(self):
        return _dtype(self.core, self.f)

    def ravel(self, *a):
        return self.values

    def is_bool(self):
        if self.core.items is not None and not self.core.items:
            return False
        t = E().terms['Label'][0] if E().terms.get('Label') else lab('dv_probe')
        return isinstance(self.f(t), (SBool, bool))

    def copy(self, deep=True):
        f = self.cell.f
        return SSeries(self.core, Cell(f)) if deep else SSeries(self.core, self.cell)

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def _map(self, g):
        f = self.cell.f
        return SSeries(self.core, Cell(lambda t: g(f(t))))

    def _bin(self, o, g, cmp=False, raw=False, fill=None):
        conv_ = (lambda x: x) if raw else _num
        if isinstance(o, SFrame):
            return NotImplemented
        f = self.cell.f
        if isinstance(o, SSeries):
            h = o.cell.f
            if cmp:
                if not SBool(index_equals(self.core, o.core)):
                    raise ValueError('Can only compare identically-labeled Series objects')
                return SSeries(self.core, Cell(lambda t: g(conv_(f(t)), conv_(h(t)))))
            if same_positions(self.core, o.core):
                if fill is None:
                    return SSeries(self.core, Cell(lambda t: g(conv_(f(t)), conv_(h(t)))))
                c = self.core
            else:
                c = union_core(self.core, o.core)
            am, bm = self.core.mem, o.core.mem

            def val(t):
                a, b = am(t), bm(t)
                if raw:
                    return ite(And_(a, b), g(f(t), h(t)), SBool(False))
                x = ite(a, _num(f(t)), NAN)
                y = ite(b, _num(h(t)), NAN)
                if fill is not None:
                    fv = toV(fill)
                    xn, yn = isnan(x), isnan(y)
                    x2 = ite(And_(xn, Not_(yn)), fv, x)
                    y2 = ite(And_(yn, Not_(xn)), fv, y)
                    x, y = x2, y2
                return g(x, y)
            return SSeries(c, Cell(val))
        if isinstance(o, SArr):
            if o.ndim == 0:
                v = o.item()
                return SSeries(self.core, Cell(lambda t: g(conv_(f(t)), conv_(v))))
            if o.ndim != 1:
                raise Unsupported('series op matrix')
            h = o.f
            p = pairing(self.core, o.axes[0]) if not o.constant else (lambda t: t)
            return SSeries(self.core, Cell(lambda t: g(conv_(f(t)), conv_(h(p(t))))))
        if isinstance(o, (list, tuple)):
            return self._bin(SArr((anon_core(len(o)),), None, lst=list(o)), g, cmp, raw)
        if _scalar(o):
            return SSeries(self.core, Cell(lambda t: g(conv_(f(t)), conv_(o))))
        return NotImplemented

    def _ibin(self, o, g):
        r = self._bin(o, g)
        if r is NotImplemented:
            return r
        rm, rf = r.core.mem, r.cell.f
        if r.core is self.core:
            self.cell.set(rf)
        else:
            self.cell.set(lambda t: ite(rm(t), rf(t), NAN))
        return self

    # ---- named arithmetic
    def add(self, o, fill_value=None): return self._bin(o, lambda a, b: a + b, fill=fill_value) if isinstance(o, SSeries) else self + o
    def sub(self, o, fill_value=None): return self._bin(o, lambda a, b: a - b, fill=fill_value) if isinstance(o, SSeries) else self - o
    subtract = sub
    def rsub(self, o, fill_value=None): return self._bin(o, lambda a, b: b - a, fill=fill_value) if isinstance(o, SSeries) else o - self
    def mul(self, o, fill_value=None): return self._bin(o, lambda a, b: a * b, fill=fill_value) if isinstance(o, SSeries) else self * o
    multiply = mul
    def div(self, o, fill_value=None): return self._bin(o, lambda a, b: a / b, fill=fill_value) if isinstance(o, SSeries) else self / o
    divide = truediv = div
    def pow(self, o): return self ** o
    def _cmpm(self, o, g):
        if isinstance(o, SSeries):
            # flex comparison aligns
            c = self.core if same_positions(self.core, o.core) else union_core(self.core, o.core)
            f, h, am, bm = self.cell.f, o.cell.f, self.core.mem, o.core.mem
            return SSeries(c, Cell(lambda t: g(ite(am(t), _num(f(t)), NAN), ite(bm(t), _num(h(t)), NAN))))
        return self._bin(o, g)
    def le(self, o): return self._cmpm(o, lambda a, b: a <= b)
    def lt(self, o): return self._cmpm(o, lambda a, b: a < b)
    def ge(self, o): return self._cmpm(o, lambda a, b: a >= b)
    def gt(self, o): return self._cmpm(o, lambda a, b: a > b)
    def eq(self, o): return self._cmpm(o, lambda a, b: SBool(a._eq(b)))
    def ne(self, o): return self._cmpm(o, lambda a, b: SBool(Not_(a._eq(b))))

    def between(self, l, r, inclusive='both'):
        if inclusive != 'both':
            raise Unsupported('between')
        return (self >= l) & (self <= r)

    # ---- elementwise
    def abs(self): return self.__abs__()
    def isna(self): return self._map(lambda a: SBool(isnan(a)))
    isnull = isna
    def notna(self): return self._map(lambda a: SBool(Not_(isnan(a))))
    notnull = notna

    def fillna(self, value=None, inplace=False, **k):
        if inplace or value is None:
            raise Unsupported('fillna variant')
        f = self.cell.f
        if isinstance(value, SSeries):
            m, h = value.core.mem, value.cell.f
            return SSeries(self.core, Cell(lambda t: ite(And_(isnan(f(t)), m(t)), h(t), f(t))))
        return SSeries(self.core, Cell(lambda t: ite(isnan(f(t)), value, f(t))))

    def dropna(self, *a, **k):
        f = self.cell.f
        return SSeries(self.core.restrict(lambda t: Not_(isnan(f(t)))), Cell(f))

    def apply(self, fn, *a, **k):
        return self._map(fn)
    map = apply

    def where(self, cond, other=None):
        other = NAN if other is None else other
        f, m = self.cell.f, mask_of(cond, self.core)
        if m is None:
            raise Unsupported('where')
        h = other.cell.f if isinstance(other, SSeries) else (lambda t: other)
        return SSeries(self.core, Cell(lambda t: ite(m(t), f(t), h(t))))

    def mask(self, cond, other=None):
        return self.where(~cond, other)

    def clip(self, lower=None, upper=None):
        r = self
        if lower is not None:
            r = r.where(~(r < lower), lower)
        if upper is not None:
            r = r.where(~(r > upper), upper)
        return r

    def astype(self, ty):
        return self.copy()

    def round(self, *a):
        raise Unsupported('round')

    def squeeze(self):
        return self

    # ---- reductions
    def any(self, *a, **k):
        f = self.cell.f
        return SBool(any_labels(self.core, lambda t: truth(f(t)), 'any'))

    def all(self, *a, **k):
        f = self.cell.f
        return SBool(all_labels(self.core, lambda t: truth(f(t)), 'all'))

    def sum(self, *a, **k):
        return ssum(self.core, self.cell.f, skipna=k.get('skipna', True))

    def dot(self, o):
        if isinstance(o, SSeries):
            if not SBool(mem_equal(self.core, o.core)):
                raise ValueError('matrices are not aligned')
            return ssum(self.core, (self * o).cell.f, skipna=False)
        if isinstance(o, SArr) and o.ndim == 1:
            return ssum(self.core, (self * o).cell.f, skipna=False)
        raise Unsupported('dot')
    __matmul__ = dot

    def mean(self, *a, **k):
        return self.sum() / self.notna().sum()

    def count(self):
        return s_int(self.notna().sum())

    def max(self, *a, **k):
        return smax(self.core, self.cell.f, True)

    def min(self, *a, **k):
        return smax(self.core, self.cell.f, False)

    # ---- selection
    def __getitem__(self, k):
        return _get(self, k)

    def get(self, k, default=None):
        if k in self.index:
            return self[k]
        return default

    def __contains__(self, k):
        return k in self.index

    def _getlist(self, c, strict=True):
        if c is self.core:
            return SSeries(self.core, Cell(self.cell.f))
        if strict and not SBool(subset(c, self.core)):
            raise KeyError('not in index')
        return SSeries(c, Cell(self.cell.f))

    def __setitem__(self, k, v):
        _set(self, k, v, align=False)

    @property
    def loc(self):
        return _Loc(self)

    @property
    def at(self):
        return _Loc(self)

    @property
    def iloc(self):
        return _ILoc(self)

    @property
    def iat(self):
        return _ILoc(self)

    def reindex(self, index=None, fill_value=None, **k):
        c = as_core(index)
        m, f = self.core.mem, self.cell.f
        fv = NAN if fill_value is None else fill_value
        return SSeries(c, Cell(lambda t: ite(m(t), f(t), fv)))

    def append(self, other, ignore_index=False, **k):
        if ignore_index:
            raise Unsupported('append ignore_index')
        others = other if isinstance(other, (list, tuple)) else [other]
        return concat_series([self] + list(others))

    def drop(self, labels=None, index=None, errors='raise', **k):
        labels = as_list_names(labels if labels is not None else index)
        m = names_mem(labels)
        if errors == 'raise':
            c = labels.core if isinstance(labels, SIndex) else as_core(labels)
            if not SBool(subset(c, self.core)):
                raise KeyError('not found in axis')
        return SSeries(self.core.restrict(lambda t: Not_(m(t))), Cell(self.cell.f))

    def sort_index(self, **k):
        if k:
            raise Unsupported('sort_index options')
        return SSeries(sort_core(self.core), Cell(self.cell.f))

    def combine_first(self, o):
        c = self.core if same_positions(self.core, o.core) else union_core(self.core, o.core)
        f, h, am, bm = self.cell.f, o.cell.f, self.core.mem, o.core.mem
        return SSeries(c, Cell(lambda t: ite(And_(am(t), Not_(isnan(f(t)))), f(t), ite(bm(t), h(t), NAN))))

    def update(self, o):
        f, h, m = self.cell.f, o.cell.f, o.core.mem
        self.cell.set(lambda t: ite(And_(m(t), Not_(isnan(h(t)))), h(t), f(t)))

    def equals(self, o):
        if not isinstance(o, SSeries):
            return False
        f, h = self.cell.f, o.cell.f
        return SBool(And_(index_equals(self.core, o.core), all_labels(self.core, lambda t: same(f(t), h(t)))))

    def items(self):
        return [(unlab(t), self.f(t)) for t in self.core.explicit()]
    iteritems = items

    def keys(self):
        return self.index

    def to_dict(self):
        return dict(self.items())

    def tolist(self):
        return [self.f(t) for t in self.core.explicit()]
    to_list = tolist

    def __iter__(self):
        return iter(self.tolist())

    def ravel(self):
        return self.values

    def item(self):
        (t,) = self.core.explicit()
        return self.f(t)

    def rename(self, *a, **k):
        raise Unsupported('rename')

    def __getattr__(self, n):
        if n.startswith('__') or n in ('core', 'cell', 'name', 'dv_names', 'dv_seq'):
            raise AttributeError(n)
        c = self.__dict__.get('core')
        if c is not None and c.items is not None and n in E().consts and any(t.eq(E().consts[n]) for t in c.items):
            return self[n]
        raise Unsupported('Series.%s' % n)

    def __repr__(self):
        return '<series>'
    __str__ = __repr__

    def __format__(self, s):
        return '<series>'

    def __round__(self, *a):
        raise Unsupported('round')

    def __array__(self, *a, **k):
        raise Unsupported('real numpy conversion')


def truth(x):
    if isinstance(x, (SBool, bool)):
        return zb(x)
    if is_name(x):
        return True
    v = toV(x)
    return Not_(v._eq(SVal(ZERO)))


def pick1(u, t, v, f):
    w = label_eq(u, t)
    return v if w is True else f(u) if w is False else ite(w, v, f(u))


def _pick(items, data):
    data = list(data)
    items = list(items)
    byid = {}
    for u, v in zip(items, data):
        byid.setdefault(u.get_id(), v)

    def f(t):
        if not data:
            return NAN
        k = t.get_id()
        if k in byid:
            return byid[k]
        r = data[-1]
        for u, v in list(zip(items, data))[-2::-1]:
            w = label_eq(t, u)
            r = r if w is False else ite(w, v, r)
        return r
    return f


def _get(s, k):
    if is_name(k):
        t = E().ground(lab(k))
        if not SBool(s.core.mem(t)):
            raise KeyError(k)
        return s.f(t)
    if isinstance(k, (int, SInt)) and not isinstance(k, bool):
        return _ILoc(s)[k]
    m = mask_of(k, s.core)
    if m is not None:
        return SSeries(s.core.restrict(m), Cell(s.cell.f))
    if isinstance(k, slice):
        if k == slice(None):
            return SSeries(s.core, s.cell)
        return SSeries(core_of_items(s.core.explicit()[k]), s.cell)
    if isinstance(k, SSet):
        return s._getlist(Core(Order(tag='set'), k.mem))
    return s._getlist(as_core(k))


def _set(s, k, v, align):
    f = s.cell.f
    if is_name(k):
        t = E().ground(lab(k))
        if isinstance(v, SArr) and v.ndim == 0:
            v = v.item()
        if not _scalar(v):
            raise Unsupported('assigning %s to an entry' % type(v).__name__)
        if v is None:
            v = NAN
        if SBool(s.core.mem(t)):
            s.cell.set(lambda u: pick1(u, t, v, f))
        else:
            c = s.core
            if c.items is not None and c.full:
                s.core = core_of_items(c.items + [t], 'grown')
            else:
                m = c.mem
                s.core = Core(Order(tag='grown'), lambda u: Or_(m(u), label_eq(u, t)), False, 'grown')
            nf = lambda u: pick1(u, t, v, f) if not (c.items is not None and not c.items) else v
            s.cell = Cell(nf)
        return
    if isinstance(k, (int, SInt)) and not isinstance(k, bool):
        t = s.core.at(k)
        s.cell.set(lambda u: pick1(u, t, v, f))
        return
    m = mask_of(k, s.core)
    if m is not None:
        if isinstance(v, SSeries):
            h = v.cell.f
            s.cell.set(lambda u: ite(m(u), h(u), f(u)))
        elif _scalar(v):
            s.cell.set(lambda u: ite(m(u), v, f(u)))
        else:
            raise Unsupported('mask assignment of array')
        return
    if isinstance(k, slice) and k == slice(None):
        c = s.core
    else:
        c = as_core(k)
        if not SBool(subset(c, s.core)):
            raise KeyError('not in index')
    if _scalar(v):
        if c is s.core:
            s.cell.set(lambda u: v)
        else:
            s.cell.set(lambda u: ite(c.mem(u), v, f(u)))
        return
    if isinstance(v, (list, tuple)):
        v = SArr((anon_core(len(v)),), None, lst=list(v))
    if isinstance(v, SSeries):
        vf = v.cell.f
        if align:
            vm = v.core.mem
            s.cell.set(lambda u: ite(c.mem(u), ite(vm(u), vf(u), NAN), f(u)))
            return
        p = pairing(c, v.core)
    elif isinstance(v, SArr) and v.ndim == 1:
        vf = v.f
        p = (lambda t: t) if v.constant else pairing(c, v.axes[0])
    elif isinstance(v, SArr) and v.ndim == 0:
        it = v.item()
        s.cell.set(lambda u: ite(c.mem(u), it, f(u)))
        return
    else:
        raise Unsupported('assignment of %s' % type(v).__name__)
    if c is s.core:
        s.cell.set(lambda u: vf(p(u)))
    else:
        s.cell.set(lambda u: ite(c.mem(u), vf(p(u)), f(u)))


class _Loc:
    def __init__(self, o):
        self.o = o

    def __getitem__(self, k):
        if isinstance(k, slice) and k != slice(None):
            raise Unsupported('label slice')
        if isinstance(k, (int, SInt)):
            raise Unsupported('integer label')
        return _get(self.o, k)

    def __setitem__(self, k, v):
        if isinstance(k, (int, SInt)):
            raise Unsupported('integer label')
        _set(self.o, k, v, align=True)


class _ILoc:
    def __init__(self, o):
        self.o = o

    def _t(self, i):
        s = self.o
        n = s.core.n()
        if isinstance(i, int) and i < 0:
            i = n + i
        if not SBool(And_(zi(i) >= 0, zi(i) < zi(n))):
            raise IndexError('single positional indexer is out-of-bounds')
        if s.core.items is not None and not s.core.full:
            return s.core.explicit()[i]
        return s.core.at(i)

    def __getitem__(self, i):
        s = self.o
        if isinstance(i, (int, SInt)) and not isinstance(i, bool):
            return s.f(self._t(i))
        if isinstance(i, slice):
            if i == slice(None):
                return SSeries(s.core, s.cell)
            return SSeries(core_of_items(s.core.explicit()[i]), Cell(s.cell.f))
        raise Unsupported('iloc')

    def __setitem__(self, i, v):
        s = self.o
        if isinstance(i, slice) and i == slice(None):
            _set(s, i, v, align=False)
            return
        if isinstance(i, (int, SInt)):
            t = self._t(i)
            f = s.cell.f
            s.cell.set(lambda u: pick1(u, t, v, f))
            return
        raise Unsupported('iloc assignment')


def concat_series(lst):
    lst = [x for x in lst]
    cores = [x.core for x in lst]
    nonempty = [(x.core, x.cell.f) for x in lst if not (x.core.items is not None and not x.core.items)]
    require_disjoint([c for c, _ in nonempty])
    if not nonempty:
        return SSeries(empty_core(), Cell(lambda t: NAN))
    c = concat_core([c for c, _ in nonempty])

    def f(t):
        r = nonempty[-1][1](t)
        for cc, g in nonempty[-2::-1]:
            r = ite(cc.mem(t), g(t), r)
        return r
    return SSeries(c, Cell(f))


# ------------------------------------------------------------------ reductions over reals
def sum_real(core_, g, hint='sum'):
    """sum of real z3 terms g(t) over the members of core_ (uninterpreted with extensionality and sign facts)"""
    e = E()
    if core_.elems is not None:
        terms = [g(t) if core_.full else z3.If(core_.mem(t), g(t), ZERO) for t in core_.elems]
        return z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else ZERO)
    lst = e.memo.setdefault('sums', [])
    eqs = []
    for c2, g2, s2 in lst:
        if c2 is core_:
            eq = all_labels(core_, lambda t: g(t) == g2(t), 'sumeq')
        else:
            eq = And_(forall(Label, lambda t: True, lambda t: And_(Iff_(core_.mem(t), c2.mem(t)),
                                                                    Implies_(core_.mem(t), g(t) == g2(t))), 'sumeq'))
        if e.valid(eq):
            return s2
        eqs.append((eq, s2))
    s = e.const(z3.RealSort(), hint)
    for eq, s2 in eqs:
        e.fact(Implies_(eq, s == s2))
    lst.append((core_, g, s))
    nonneg = all_labels(core_, lambda t: g(t) >= 0, 'nonneg')
    e.fact(Implies_(nonneg, s >= 0))
    allz = all_labels(core_, lambda t: g(t) == 0, 'allz')
    e.fact(Implies_(allz, s == 0))
    e.fact(Implies_(And_(nonneg, Not_(allz)), s > 0))
    return s


def settled(c):
    """the truth value of a condition if the path determines it, else the condition"""
    if isinstance(c, bool):
        return c
    if E().valid(c):
        return True
    if E().valid(z3.Not(c)):
        return False
    return c


def ssum(core_, f, skipna=True):
    if core_.elems is not None and len(core_.elems) <= 6 and skipna:
        # a known finite collection: drop the members and entries which the path excludes
        terms = []
        for t in core_.elems:
            if not core_.full and settled(core_.mem(t)) is False:
                continue
            x = f(t)
            if isinstance(x, SBool):
                b = settled(zb(x))
                terms.append((t, SVal(z3.RealVal(int(b))) if isinstance(b, bool) else toV(x)))
                continue
            v = toV(x)
            nan = settled(v.nan)
            if nan is not True:
                terms.append((t, v if nan is v.nan else SVal(v.r, nan, v.pinf, v.ninf)))
        vals = {id(t): v for t, v in terms}
        if all(v.nan is False for v in vals.values()) and all(v.pinf is False and v.ninf is False for v in vals.values()):
            sub = core_of_items([t for t, _ in terms])
            if not core_.full:
                m = core_.mem
                sub = Core(sub.order, lambda t: m(t), False)
            return SVal(sum_real(sub, lambda t: next(v.r for u, v in terms if u.eq(t))))
    if skipna:
        fin = lambda t: toV(f(t))
        inf = any_labels(core_, lambda t: Or_(toV(f(t)).pinf, toV(f(t)).ninf)) if _mayinf(core_, f) else False
        if inf is not False:
            if E().decide(inf):
                raise Unsupported('sum with infinite entries')
        s = sum_real(core_, lambda t: If_(toV(f(t)).nan, ZERO, toV(f(t)).r))
        return SVal(s)
    nan = any_labels(core_, lambda t: toV(f(t)).nan)
    if _mayinf(core_, f):
        inf = any_labels(core_, lambda t: Or_(toV(f(t)).pinf, toV(f(t)).ninf))
        if E().decide(inf):
            raise Unsupported('sum with infinite entries')
    s = sum_real(core_, lambda t: toV(f(t)).r)
    return SVal(s, nan)


def _mayinf(core_, f):
    t = core_.items[0] if core_.items else z3.Const('dv_generic', Label)
    v = toV(f(t))
    return not (v.pinf is False and v.ninf is False)


def smax(core_, f, mx=True):
    """maximum / minimum, skipping nan; nan when there is none"""
    e = E()
    w = e.const(Label, 'argmax' if mx else 'argmin')
    v = toV(f(w))
    some = any_labels(core_, lambda t: Not_(toV(f(t)).nan))
    e.fact(Implies_(some, And_(core_.mem(w), Not_(v.nan))))
    e.universal(Label, lambda t: Implies_(And_(some, core_.mem(t), Not_(toV(f(t)).nan)),
                                          toV(f(t))._le(v) if mx else v._le(toV(f(t)))))
    e.ground(w)
    return ite(some, v, NAN)


SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())


def sqrt_(x):
    x = toV(x)
    r = SQRT(x.r)
    e = E()
    key = ('sqrt', x.r.get_id())
    if key not in e.memo:
        e.memo[key] = x.r
        e.fact(z3.Implies(x.r >= 0, z3.And(r >= 0, rmul(r, r) == x.r)))
    return SVal(r, Or_(x.nan, x.ninf, And_(x.fin, x.r < 0)), x.pinf, False)


def norm_of(core_, f):
    """euclidean length"""
    nan = any_labels(core_, lambda t: toV(f(t)).nan)
    inf = False
    if _mayinf(core_, f):
        inf = And_(Not_(nan), any_labels(core_, lambda t: Or_(toV(f(t)).pinf, toV(f(t)).ninf)))
    s = sum_real(core_, lambda t: rmul(toV(f(t)).r, toV(f(t)).r), 'sumsq')
    e = E()
    e.fact(s >= 0)
    r = sqrt_(SVal(s))

    def bound(t):
        v = toV(f(t))
        return Implies_(And_(core_.mem(t), v.fin), And_(v.r <= r.r, -v.r <= r.r))
    e.universal(Label, bound)
    return SVal(r.r, nan, inf, False)


# ------------------------------------------------------------------ labelled arrays
class SArr(_Ops, Sym):
    """n-dimensional array (n <= 2) whose axes are ordered name sets"""

    def __init__(self, axes, f, lst=None, constant=False, namevals=False, view=None):
        self.axes = tuple(axes)
        if lst is not None:
            items = self.axes[0].items
            f = _pick(items, lst)
        self._f = f
        self.constant = constant
        self.namevals = namevals
        self.view = view                     # series whose storage this array shares

    @property
    def f(self):
        return self._f if self.view is None else self.view.cell.f

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def shape(self):
        return tuple(a.n() for a in self.axes)

    @property
    def size(self):
        r = 1
        for a in self.axes:
            r = r * a.n()
        return r

    def dv_len(self):
        if not self.axes:
            raise TypeError('len() of unsized object')
        return self.axes[0].n()

    @property
    def dtype(self):
        if self.namevals:
            return 'O'
        return _dtype(self.axes[0], self.f) if self.ndim == 1 else 'f8'

    def is_bool(self):
        ts = [E().terms['Label'][0] if E().terms.get('Label') else lab('dv_probe')] * self.ndim
        try:
            return isinstance(self.f(*ts), (SBool, bool))
        except Unsupported:
            return False

    def item(self, *a):
        if self.ndim == 0:
            return self.f()
        ts = [c.explicit() for c in self.axes]
        if all(len(x) == 1 for x in ts):
            return self.f(*[x[0] for x in ts])
        raise ValueError('can only convert an array of size 1 to a Python scalar')

    def copy(self):
        f = self.f
        return SArr(self.axes, f, constant=self.constant, namevals=self.namevals)

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, *a, **k):
        return self.copy()

    def _map(self, g):
        f = self.f
        return SArr(self.axes, lambda *t: g(f(*t)), constant=self.constant)

    def _bin(self, o, g, cmp=False, raw=False):
        conv_ = (lambda x: x) if raw else _num
        f = self.f
        if isinstance(o, (SSeries, SFrame, SMat)):
            return NotImplemented
        if isinstance(o, (list, tuple)):
            o = SArr((anon_core(len(o)),), None, lst=list(o))
        if _scalar(o):
            return SArr(self.axes, lambda *t: g(conv_(f(*t)), conv_(o)), constant=self.constant)
        if isinstance(o, SArr):
            h = o.f
            if o.ndim == 0:
                v = o.item()
                return SArr(self.axes, lambda *t: g(conv_(f(*t)), conv_(v)), constant=self.constant)
            if self.ndim == 0:
                v = self.item()
                return SArr(o.axes, lambda *t: g(conv_(v), conv_(h(*t))), constant=o.constant)
            A, B = list(self.axes), list(o.axes)
            nd = max(len(A), len(B))
            A = [None] * (nd - len(A)) + A
            B = [None] * (nd - len(B)) + B
            axes, ma, mb = [], [], []
            for a, b in zip(A, B):
                if a is None:
                    axes.append(b); ma.append('skip'); mb.append(lambda t: t)
                elif b is None:
                    axes.append(a); ma.append(lambda t: t); mb.append('skip')
                elif is_unit(a) and not is_unit(b):
                    axes.append(b); u = a.items[0]; ma.append(lambda t, u=u: u); mb.append(lambda t: t)
                elif is_unit(b) and not is_unit(a):
                    axes.append(a); u = b.items[0]; mb.append(lambda t, u=u: u); ma.append(lambda t: t)
                else:
                    axes.append(a); ma.append(lambda t: t)
                    mb.append((lambda t: t) if o.constant else pairing(a, b))

            def val(*t):
                ta = [m(x) for m, x in zip(ma, t) if m != 'skip']
                tb = [m(x) for m, x in zip(mb, t) if m != 'skip']
                return g(conv_(f(*ta)), conv_(h(*tb)))
            return SArr(axes, val)
        return NotImplemented

    def _ibin(self, o, g):
        if isinstance(o, SSeries):
            o = o.to_numpy()
        r = self._bin(o, g)
        if r is NotImplemented:
            return r
        rf = r.f
        if self.view is not None:
            self.view.cell.set(rf)
        else:
            self._f = rf
        return self

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def dot(self, o):
        return matmul(self, o)

    @property
    def T(self):
        if self.ndim < 2:
            return self
        f = self.f
        return SArr((self.axes[1], self.axes[0]), lambda a, b: f(b, a))

    def transpose(self):
        return self.T

    def any(self, axis=None):
        if axis is not None:
            raise Unsupported('any(axis)')
        return SBool(Not_(self._allf(lambda v: Not_(truth(v)))))

    def all(self, axis=None):
        if axis is not None:
            raise Unsupported('all(axis)')
        return SBool(self._allf(truth))

    def _allf(self, g):
        f = self.f
        if self.ndim == 0:
            return g(f())
        if self.ndim == 1:
            return all_labels(self.axes[0], lambda t: g(f(t)))
        return all_labels(self.axes[0], lambda t: all_labels(self.axes[1], lambda u: g(f(t, u))))

    def sum(self, axis=None, **k):
        f = self.f
        if self.ndim == 1:
            return ssum(self.axes[0], f, skipna=False)
        raise Unsupported('sum')

    def max(self, *a, **k):
        if self.ndim == 1:
            return smax(self.axes[0], self.f, True)
        raise Unsupported('max')

    def min(self, *a, **k):
        if self.ndim == 1:
            return smax(self.axes[0], self.f, False)
        raise Unsupported('min')

    def ravel(self):
        if self.ndim == 1:
            return self
        raise Unsupported('ravel')
    flatten = ravel

    def squeeze(self):
        return squeeze(self)

    def reshape(self, *shape):
        return reshape(self, shape)

    def __getitem__(self, k):
        f = self.f
        if isinstance(k, tuple):
            return self._getmulti(k)
        if isinstance(k, (int, SInt)) and not isinstance(k, bool):
            t = self._at(0, k)
            if self.ndim == 1:
                return f(t)
            return SArr(self.axes[1:], lambda *r: f(t, *r))
        if self.ndim == 1:
            m = mask_of(k, self.axes[0])
            if m is not None:
                return SArr((self.axes[0].restrict(m),), f)
            if isinstance(k, slice):
                if k == slice(None):
                    return self
                return SArr((core_of_items(self.axes[0].explicit()[k]),), f)
        if k is None:
            return self._getmulti((None,) + (slice(None),) * self.ndim)
        raise Unsupported('array indexing')

    def _at(self, ax, i):
        c = self.axes[ax]
        n = c.n()
        if isinstance(i, int) and i < 0:
            i = n + i
        if not SBool(And_(zi(i) >= 0, zi(i) < zi(n))):
            raise IndexError('index out of bounds')
        return c.at(i)

    def _getmulti(self, k):
        f = self.f
        axes, pick, src = [], [], 0
        for x in k:
            if x is None:
                axes.append(core_of_items([unit_term()]))
                pick.append(('drop', None))
            elif isinstance(x, slice) and x == slice(None):
                axes.append(self.axes[src]); pick.append(('keep', None)); src += 1
            elif isinstance(x, (int, SInt)):
                pick.append(('fix', self._at(src, x))); src += 1
            else:
                raise Unsupported('array indexing')
        while src < self.ndim:
            axes.append(self.axes[src]); pick.append(('keep', None)); src += 1

        def val(*t):
            t = list(t)
            out = []
            for kind, v in pick:
                if kind == 'drop':
                    t.pop(0)
                elif kind == 'keep':
                    out.append(t.pop(0))
                else:
                    out.append(v)
            return f(*out)
        if not axes:
            return val()
        return SArr(axes, val)

    def __setitem__(self, k, v):
        f = self.f

        def put(nf):
            if self.view is not None:
                self.view.cell.set(nf)
            else:
                self._f = nf
        self.constant = False
        if isinstance(k, (int, SInt)) and self.ndim == 1:
            t = self._at(0, k)
            put(lambda u: pick1(u, t, v, f))
            return
        if isinstance(k, slice) and k == slice(None):
            if _scalar(v):
                put(lambda *u: v)
                return
            if isinstance(v, SArr) and v.ndim == self.ndim == 1:
                p, h = pairing(self.axes[0], v.axes[0]), v.f
                put(lambda u: h(p(u)))
                return
        if self.ndim == 1:
            m = mask_of(k, self.axes[0])
            if m is not None and _scalar(v):
                put(lambda u: ite(m(u), v, f(u)))
                return
        put(self._patched(k if isinstance(k, tuple) else (k,), v))

    def _patched(self, k, v):
        """contents after the assignment of v to the block given by integers and slices"""
        f = self.f
        if len(k) > self.ndim or not all(isinstance(x, (int, SInt, slice)) and not isinstance(x, bool) for x in k):
            raise Unsupported('array assignment')
        k = tuple(k) + (slice(None),) * (self.ndim - len(k))
        conds, subs = [], []
        for ax, x in enumerate(k):
            core_ = self.axes[ax]
            if not isinstance(x, slice):
                t = self._at(ax, x)
                conds.append(lambda u, t=t: label_eq(u, t))
                continue
            if x.step is not None:
                raise Unsupported('array assignment')
            n = core_.n()
            a, b = [d if w is None else w if not (isinstance(w, int) and w < 0) else n + w for w, d in ((x.start, 0), (x.stop, n))]
            if not all(isinstance(w, (int, SInt)) for w in (a, b)):
                raise Unsupported('array assignment')
            if SBool(And_(zi(a) == 0, zi(b) == zi(n))):
                conds.append(None)
                subs.append((ax, core_, None))
            elif core_.items is not None and core_.full and isinstance(a, int) and isinstance(b, int):
                its = core_.items[a:b]
                conds.append(lambda u, its=its: Or_(*[label_eq(u, t) for t in its]))
                subs.append((ax, core_of_items(its), None))
            else:
                if not SBool(And_(zi(a) >= 0, zi(a) <= zi(b), zi(b) <= zi(n))):
                    raise Unsupported('array assignment')
                conds.append(lambda u, a=a, b=b, c=core_: And_(c.pos(u) >= zi(a), c.pos(u) < zi(b)))
                subs.append((ax, core_, (a, b)))
        if _scalar(v):
            def value(us):
                return v
        elif isinstance(v, SArr) and v.ndim <= len(subs):
            maps = []
            for (ax, core_, part), w in zip(subs[len(subs) - v.ndim:], v.axes):
                if part is None:
                    maps.append((ax, pairing(core_, w)))
                    continue
                if not SBool(zi(w.n()) == zi(part[1]) - zi(part[0])):
                    raise ValueError('could not broadcast input array')
                E().approx = True
                maps.append((ax, lambda u, c=core_, w=w, a=part[0]: w.at(SInt(c.pos(u) - zi(a)))))
            h = v.f

            def value(us):
                return h(*[m(us[ax]) for ax, m in maps])
        else:
            raise Unsupported('array assignment')

        def nf(*us):
            w = [c(u) for c, u in zip(conds, us) if c is not None]
            w = True if not w else And_(*w) if len(w) > 1 else w[0]
            return value(us) if w is True else f(*us) if w is False else ite(w, value(us), f(*us))
        return nf

    def tolist(self):
        if self.ndim == 1:
            return [self.f(t) for t in self.axes[0].explicit()]
        raise Unsupported('tolist')

    def __iter__(self):
        if self.ndim == 1:
            return iter(self.tolist())
        if self.ndim == 2:
            return iter([self[i] for i in range(len(self.axes[0].explicit()))])
        raise TypeError('iteration over a 0-d array')

    def __getattr__(self, n):
        if n.startswith('__') or n in ('dv_names', 'dv_seq'):
            raise AttributeError(n)
        raise Unsupported('ndarray.%s' % n)

    def __repr__(self):
        return '<array>'
    __str__ = __repr__

    def __format__(self, s):
        return '<array>'

    def __bool__(self):
        if self.ndim == 0:
            return bool(self.item())
        raise ValueError('The truth value of an array is ambiguous')


def is_unit(c):
    return c.items is not None and c.full and len(c.items) == 1


def unit_term():
    e = E()
    if 'unit' not in e.memo:
        e.memo['unit'] = z3.Const('ax_unit', Label)
        e.ground(e.memo['unit'])
    return e.memo['unit']


def as_arr(x):
    """anything array-like -> SArr (or scalar unchanged)"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, SSeries):
        return SArr((x.core,), x.cell.f)
    if isinstance(x, SMat):
        return SArr((x.rows, x.cols), x.f)
    if isinstance(x, SFrame):
        c = core_of_items([lab(n) for n in x.cols])
        return SArr((x.core, c), lambda r, t: _pick(c.items, [cell.f(r) for cell in x.cols.values()])(t))
    if isinstance(x, (list, tuple)):
        if all(_scalar(v) for v in x):
            return SArr((anon_core(len(x)),), None, lst=list(x))
        return stack(list(x))
    if isinstance(x, SIndex):
        return x.values
    raise Unsupported('array from %s' % type(x).__name__)


def stack(lst):
    arrs = [as_arr(x) if not _scalar(x) else x for x in lst]
    if all(_scalar(x) for x in arrs):
        return SArr((anon_core(len(arrs)),), None, lst=list(arrs))
    a0 = arrs[0]
    if any(a.ndim != 1 for a in arrs):
        raise Unsupported('stack of matrices')
    ps = [pairing(a0.axes[0], a.axes[0]) for a in arrs]
    fs = [a.f for a in arrs]
    rows = anon_core(len(arrs))

    def f(r, c):
        return _pick(rows.items, [fs[i](ps[i](c)) for i in range(len(arrs))])(r)
    return SArr((rows, a0.axes[0]), f)


def squeeze(x):
    if _scalar(x):
        return x
    if isinstance(x, SSeries):
        return x
    x = as_arr(x)
    f = x.f
    keep = []
    for i, c in enumerate(x.axes):
        n = c.n()
        if is_unit(c) or (not isinstance(n, int) and bool(n == 1)):
            continue
        keep.append(i)
    if len(keep) == x.ndim:
        return x
    units = {i: (c.items[0] if c.items is not None and c.full else c.at(0)) for i, c in enumerate(x.axes) if i not in keep}

    def val(*t):
        t = list(t)
        return f(*[units[i] if i in units else t.pop(0) for i in range(x.ndim)])
    if not keep:
        return SArr((), val)
    return SArr([x.axes[i] for i in keep], val)


def reshape(x, shape):
    """same elements in the same (row-major) order"""
    if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
        shape = tuple(shape[0])
    if x.ndim > 2 or len(shape) > 2:
        raise Unsupported('reshape')
    f = x.f
    src = [i for i, c in enumerate(x.axes) if not is_unit(c)]
    if any(isinstance(d, int) and d == -1 for d in shape):
        if len(shape) - 1 != sum(1 for d in shape if isinstance(d, int) and d == 1):
            raise Unsupported('reshape')
        shape = tuple(x.size if isinstance(d, int) and d == -1 else d for d in shape)
    dst = [i for i, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]
    total = 1
    for d in shape:
        total = total * d
    if not SBool(zi(total) == zi(x.size)):
        raise ValueError('cannot reshape array')
    if not src and len(dst) == 1 or not dst and len(src) == 1:
        # sizes agree, so that the only axis has one element
        (src if src else dst).clear()
    if len(src) == len(dst) and all(SBool(zi(x.axes[i].n()) == zi(shape[j])) for i, j in zip(src, dst)):
        u = unit_term()
        axes = [None] * len(shape)
        for i, j in zip(src, dst):
            axes[j] = x.axes[i]
        axes = [core_of_items([u]) if a is None else a for a in axes]
        units = [c.items[0] if is_unit(c) else c.at(0) if i not in src else None for i, c in enumerate(x.axes)]

        def val(*t):
            a = list(units)
            for i, j in zip(src, dst):
                a[i] = t[j]
            return f(*a)
        return SArr(axes, val, constant=x.constant)
    ex = [c.explicit() for c in x.axes]
    flat = [f(t) for t in ex[0]] if x.ndim == 1 else [f(t, u) for t in ex[0] for u in ex[1]] if x.ndim == 2 else [f()]
    if not all(isinstance(d, int) for d in shape):
        raise Unsupported('reshape')
    if len(shape) == 1:
        return SArr((anon_core(shape[0]),), None, lst=flat)
    rows, cols = anon_core(shape[0]), anon_core(shape[1])
    data = [flat[i * shape[1]:(i + 1) * shape[1]] for i in range(shape[0])]
    return SArr((rows, cols), lambda r, c: _pick(rows.items, [_pick(cols.items, d)(c) for d in data])(r))


def block_diag(*blocks):
    """matrix with the given rows along its diagonal, zeros elsewhere"""
    arrs = [as_arr(b) for b in blocks]
    if any(a.ndim != 1 for a in arrs):
        raise Unsupported('block_diag')
    if len(arrs) == 1:
        f = arrs[0].f
        return SArr((core_of_items([unit_term()]), arrs[0].axes[0]), lambda _, t: f(t))
    vals = [[a.f(t) for t in a.axes[0].explicit()] for a in arrs]
    n = sum(len(v) for v in vals)
    data, k = [], 0
    for v in vals:
        data.append([SVal(ZERO)] * k + v + [SVal(ZERO)] * (n - k - len(v)))
        k += len(v)
    rows, cols = anon_core(len(vals)), anon_core(n)
    return SArr((rows, cols), lambda r, c: _pick(rows.items, [_pick(cols.items, d)(c) for d in data])(r))


def matmul(a, b):
    """product; entries are sums over the shared axis"""
    wrap = None
    if isinstance(a, SMat) and isinstance(b, SSeries):
        wrap = a.rows
    a, b = as_arr(a), as_arr(b)
    fa, fb = a.f, b.f
    ax = a.axes[-1]
    bx = b.axes[0] if b.ndim > 1 or True else None
    p = pairing(ax, bx)
    if a.ndim == 1 and b.ndim == 1:
        return ssum(ax, lambda t: toV(fa(t)) * toV(fb(p(t))), skipna=False)
    if a.ndim == 2 and b.ndim == 1:
        return SArr((a.axes[0],), memo1(lambda r: ssum(ax, lambda t: toV(fa(r, t)) * toV(fb(p(t))), skipna=False)))
    if a.ndim == 1 and b.ndim == 2:
        return SArr((b.axes[1],), memo1(lambda c: ssum(ax, lambda t: toV(fa(t)) * toV(fb(p(t), c)), skipna=False)))
    return SArr((a.axes[0], b.axes[1]), memo1(lambda r, c: ssum(ax, lambda t: toV(fa(r, t)) * toV(fb(p(t), c)), skipna=False)))


# ------------------------------------------------------------------ tables
class SFrame(Sym):
    """table with python-known column names (DataFrame)"""

    def __new__(cls, data=None, index=None, columns=None, dtype=None, **k):
        if isinstance(data, Core):
            o = object.__new__(SFrame)
            o.core, o.cols = data, index
            return o
        if data is None or isinstance(data, dict):
            data = data or {}
            if index is None and not any(isinstance(v, SSeries) for v in data.values()):
                if data:
                    raise Unsupported('DataFrame without index')
                o = object.__new__(SFrame)
                o.core = as_core(index) if index is not None else empty_core()
                o.cols = {}
                o.fresh = index is None
                return o
            if index is not None:
                c = as_core(index)
            else:
                cores = [v.core for v in data.values() if isinstance(v, SSeries)]
                c = cores[0]
                for x in cores[1:]:
                    if not same_positions(c, x):
                        c = union_core(c, x)
            cols = {}
            for n, v in data.items():
                cols[n] = Cell(_colfun(v, c))
            o = object.__new__(SFrame)
            o.core, o.cols = c, cols
            return o
        if isinstance(data, (SArr, SMat, SFrame)) or isinstance(data, (list, tuple)):
            if isinstance(data, (list, tuple)):
                if data and all(isinstance(x, SSeries) for x in data) and index is None and columns is None:
                    m = concat_columns(list(data), None)
                    return m.T
                raise Unsupported('DataFrame from list')
            if isinstance(data, SMat) and (index is not None or columns is not None):
                rows = as_core(index) if index is not None else data.rows
                cs = as_core(columns) if columns is not None else data.cols
                f = data.f
                rm, cm = data.rows.mem, data.cols.mem
                return SMat(rows, cs, lambda r, c: ite(And_(rm(r), cm(c)), f(r, c), NAN))
            a = as_arr(data)
            if a.ndim != 2:
                raise Unsupported('DataFrame from %d-d array' % a.ndim)
            rows = as_core(index) if index is not None else a.axes[0]
            cs = as_core(columns) if columns is not None else a.axes[1]
            p, q = pairing(rows, a.axes[0]), pairing(cs, a.axes[1])
            f = a.f
            if columns is not None and cs.items and cs.full:
                known = [unlab(t) for t in cs.items]
                if all(isinstance(x, str) for x in known):
                    return SFrame(rows, {x: Cell(lambda r, t=t: f(p(r), q(t))) for x, t in zip(known, cs.items)})
            return SMat(rows, cs, lambda r, c: f(p(r), q(c)))
        raise Unsupported('DataFrame from %s' % type(data).__name__)

    def __init__(self, *a, **k):
        pass

    fresh = False
    _pres = None            # column -> condition under which it is present (None: all present)

    @property
    def cols(self):
        """columns by name; undetermined presence of columns is decided here"""
        if self._pres:
            pres, self._pres = self._pres, None
            self._cols = {n: c for n, c in self._cols.items() if n not in pres or SBool(pres[n])}
        return self._cols

    @cols.setter
    def cols(self, v):
        self._cols = v

    def _with_pres(self, core_, pres):
        o = SFrame(core_, {n: Cell(c.f) for n, c in self._cols.items()})
        o._pres = {n: c for n, c in pres.items() if c is not True} or None
        o._cols = {n: c for n, c in o._cols.items() if pres.get(n, True) is not False}
        return o

    @property
    def index(self):
        return SIndex(self.core)

    @property
    def columns(self):
        return SIndex(core_of_items([lab(c) for c in self.cols]))

    @property
    def shape(self):
        return (self.core.n(), len(self.cols))

    @property
    def empty(self):
        return SBool(True) if not self.cols else SBool(all_labels(self.core, lambda t: False))

    def dv_len(self):
        return self.core.n()

    def _col(self, k):
        if isinstance(k, SLabel):
            for n in self.cols:
                if SBool(lab(n) == k.t):
                    return n
            raise KeyError(k)
        if k not in self.cols:
            raise KeyError(k)
        return k

    def __getitem__(self, k):
        if is_name(k):
            return SSeries(self.core, self.cols[self._col(k)])
        if hasattr(k, 'pairs') and not k.done and [n for n, _ in k.pairs] == [n for n in self._cols if n in dict(k.pairs)]:
            conds = dict(k.pairs)
            old = self._pres or {}
            if all(old.get(n, True) is True or E().valid(Implies_(zb(conds[n]), old[n])) for n in conds):
                pres = {n: And_(old.get(n, True), zb(conds[n])) if n in conds else False for n in self._cols}
                return self._with_pres(self.core, pres)
        if isinstance(k, (list, SIndex)):
            names = [self._col(c) for c in k]
            return SFrame(self.core, {n: Cell(self.cols[n].f) for n in names})
        m = mask_of(k, self.core)
        if m is not None:
            return SFrame(self.core.restrict(m), {n: Cell(c.f) for n, c in self.cols.items()})
        raise Unsupported('DataFrame indexing')

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise Unsupported('DataFrame assignment')
        if self.fresh:
            if isinstance(v, SSeries):
                self.core, self.fresh = v.core, False
            else:
                raise Unsupported('DataFrame assignment')
        self.cols[k] = Cell(_colfun(v, self.core))

    def __getattr__(self, n):
        if n.startswith('__') or n in ('core', 'cols', '_cols', 'dv_names', 'dv_seq'):
            raise AttributeError(n)
        if n in self.cols:
            return self[n]
        raise Unsupported('DataFrame.%s' % n)

    def __contains__(self, k):
        return bool(any(SBool(lab(n) == k.t) for n in self.cols)) if isinstance(k, SLabel) else k in self.cols

    def __iter__(self):
        return iter(list(self.cols))

    def keys(self):
        return self.columns

    def get(self, k, default=None):
        return self[k] if k in self else default

    def items(self):
        return [(n, self[n]) for n in self.cols]

    def copy(self, deep=True):
        return SFrame(self.core, {n: Cell(c.f) for n, c in self.cols.items()})

    def __deepcopy__(self, memo):
        return self.copy()

    def _map(self, g):
        return SFrame(self.core, {n: Cell(lambda t, f=c.f: g(f(t))) for n, c in self.cols.items()})

    def isna(self): return self._map(lambda a: SBool(isnan(a)))
    isnull = isna
    def notna(self): return self._map(lambda a: SBool(Not_(isnan(a))))
    notnull = notna
    def __invert__(self): return self._map(lambda a: SBool(Not_(zb(a))))

    def fillna(self, value):
        if isinstance(value, dict):
            return SFrame(self.core, {n: Cell((lambda t, f=c.f, n=n: ite(isnan(f(t)), value[n], f(t))) if n in value else c.f)
                                      for n, c in self.cols.items()})
        return self._map(lambda a: ite(isnan(a), value, a))

    def _red(self, g, axis):
        if axis in (0, 'index', None):
            names = list(self.cols)
            c = core_of_items([lab(n) for n in names])
            vals = [g(SSeries(self.core, self.cols[n])) for n in names]
            return SSeries(c, Cell(_pick(c.items, vals)))
        fs = [c.f for c in self.cols.values()]
        if g is _gall:
            return SSeries(self.core, Cell(lambda t: SBool(And_(*[truth(f(t)) for f in fs]))))
        return SSeries(self.core, Cell(lambda t: SBool(Or_(*[truth(f(t)) for f in fs]))))

    def all(self, axis=0, **k): return self._red(_gall, axis)
    def any(self, axis=0, **k): return self._red(_gany, axis)

    def drop(self, labels=None, axis=0, columns=None, index=None, **k):
        if columns is not None or axis in (1, 'columns'):
            l = columns if columns is not None else labels
            if hasattr(l, 'pairs') and not l.done and all(isinstance(n, str) and n in self._cols for n, _ in l.pairs):
                pres = dict(self._pres or {})
                for n, cond in l.pairs:
                    pres[n] = And_(pres.get(n, True), Not_(zb(cond)))
                return self._with_pres(self.core, pres)
            names = as_list_names(columns if columns is not None else labels)
            names = [n if isinstance(n, str) else self._col(n) for n in names]
            for n in names:
                if n not in self.cols:
                    raise KeyError(n)
            return SFrame(self.core, {n: Cell(c.f) for n, c in self.cols.items() if n not in names})
        labels = as_list_names(labels if labels is not None else index)
        m = names_mem(labels)
        return SFrame(self.core.restrict(lambda t: Not_(m(t))), {n: Cell(c.f) for n, c in self.cols.items()})

    def dropna(self, axis=0, how='any', subset=None, thresh=None, **k):
        if k and any(v for v in k.values()) or thresh is not None:
            raise Unsupported('dropna options')
        if axis in (1, 'columns'):
            pres = dict(self._pres or {})
            for n, c in self._cols.items():
                nn = all_labels(self.core, lambda t: Not_(isnan(c.f(t)))) if how == 'any' else \
                    any_labels(self.core, lambda t: Not_(isnan(c.f(t))))
                pres[n] = And_(pres.get(n, True), nn)
            return self._with_pres(self.core, pres)
        if subset is None and self._pres and how == 'any':
            fs = [(self._pres.get(n, True), c.f) for n, c in self._cols.items()]
            return self._with_pres(self.core.restrict(lambda t: And_(*[Implies_(p, Not_(isnan(f(t)))) for p, f in fs])), self._pres)
        names = list(subset) if subset is not None else list(self.cols)
        fs = [self.cols[n].f for n in names]
        if how == 'any':
            c = self.core.restrict(lambda t: And_(*[Not_(isnan(f(t))) for f in fs]))
        else:
            c = self.core.restrict(lambda t: Or_(*[Not_(isnan(f(t))) for f in fs])) if fs else self.core
        return SFrame(c, {n: Cell(cc.f) for n, cc in self.cols.items()})

    @property
    def loc(self):
        return _FLoc(self)

    @property
    def at(self):
        return _FLoc(self)

    @property
    def iloc(self):
        return _FILoc(self)

    def row(self, t):
        c = core_of_items([lab(n) for n in self.cols])
        return SSeries(c, Cell(_pick(c.items, [cell.f(t) for cell in self.cols.values()])))

    @property
    def values(self):
        return as_arr(self)

    def reindex(self, index=None, **k):
        c, m = as_core(index), self.core.mem
        return SFrame(c, {n: Cell(lambda t, f=cc.f: ite(m(t), f(t), NAN)) for n, cc in self.cols.items()})

    def equals(self, o):
        if list(self.cols) != list(o.cols):
            return SBool(False)
        return SBool(And_(*[zb(self[n].equals(o[n])) for n in self.cols]))

    def iterrows(self):
        return [(unlab(t), self.row(t)) for t in self.core.explicit()]

    def __repr__(self):
        return '<frame>'
    __str__ = __repr__

    def __format__(self, s):
        return '<frame>'
    __hash__ = None


def _gall(s):
    return s.all()


def _gany(s):
    return s.any()


def _colfun(v, c):
    if isinstance(v, SSeries):
        m, f = v.core.mem, v.cell.f
        if same_positions(v.core, c):
            return f
        return lambda t: ite(m(t), f(t), NAN)
    if _scalar(v):
        v = NAN if v is None else v
        return lambda t: v
    if isinstance(v, SArr):
        p, f = pairing(c, v.axes[0]), v.f
        return lambda t: f(p(t))
    if isinstance(v, list):
        return _colfun(SArr((anon_core(len(v)),), None, lst=v), c)
    raise Unsupported('column from %s' % type(v).__name__)


class _FLoc:
    def __init__(self, o):
        self.o = o

    def __getitem__(self, k):
        d = self.o
        if isinstance(k, tuple) and len(k) == 2:
            r, c = k
            if isinstance(r, slice) and r == slice(None):
                return d[c]
            if is_name(c):
                return d[c].loc[r] if is_name(r) else _get(d[c], r)
            return d[c].loc[r]
        if is_name(k):
            t = E().ground(lab(k))
            if not SBool(d.core.mem(t)):
                raise KeyError(k)
            return d.row(t)
        m = mask_of(k, d.core)
        if m is not None:
            return d[k]
        c = as_core(k)
        if not SBool(subset(c, d.core)):
            raise KeyError('not in index')
        return SFrame(c, {n: Cell(cc.f) for n, cc in d.cols.items()})

    def __setitem__(self, k, v):
        d = self.o
        if isinstance(k, tuple) and len(k) == 2 and is_name(k[1]):
            col = k[1]
            if isinstance(col, str) and col not in d.cols:
                d.cols[col] = Cell(lambda t: NAN)
            s = d[col]
            r = k[0]
            if isinstance(r, slice) and r == slice(None):
                r = d.index
            _set(s, r, v, align=True)
            if s.core is not d.core:
                raise Unsupported('table enlargement')
            return
        raise Unsupported('DataFrame.loc assignment')


class _FILoc:
    def __init__(self, o):
        self.o = o

    def __getitem__(self, i):
        d = self.o
        if isinstance(i, (int, SInt)):
            t = _ILoc(SSeries(d.core, Cell(lambda t: NAN)))._t(i)
            return d.row(t)
        raise Unsupported('DataFrame.iloc')


class SMat(SFrame):
    """table with unbounded columns: a matrix over two name sets"""

    def __new__(cls, rows, cols, f):
        o = object.__new__(SMat)
        o.rows, o.cols, o._mf = rows, cols, f
        return o

    def f(self, r, c):
        return self._mf(r, c)

    @property
    def core(self):
        return self.rows

    @property
    def index(self):
        return SIndex(self.rows)

    @property
    def columns(self):
        return SIndex(self.cols)

    @property
    def shape(self):
        return (self.rows.n(), self.cols.n())

    @property
    def size(self):
        return self.rows.n() * self.cols.n()

    @property
    def empty(self):
        return SBool(Or_(zb(self.index.empty), zb(self.columns.empty)))

    @property
    def T(self):
        f = self._mf
        return SMat(self.cols, self.rows, lambda r, c: f(c, r))

    def transpose(self):
        return self.T

    @property
    def values(self):
        return SArr((self.rows, self.cols), self._mf)

    def to_numpy(self):
        return self.values

    def copy(self, deep=True):
        return SMat(self.rows, self.cols, self._mf)

    def __deepcopy__(self, memo):
        return self.copy()

    def __getitem__(self, k):
        f = self._mf
        if is_name(k):
            t = E().ground(lab(k))
            if not SBool(self.cols.mem(t)):
                raise KeyError(k)
            return SSeries(self.rows, Cell(lambda r: f(r, t)))
        c = as_core(k)
        if not SBool(subset(c, self.cols)):
            raise KeyError('not in columns')
        return SMat(self.rows, c, f)

    @property
    def loc(self):
        return _MLoc(self)

    @property
    def iloc(self):
        raise Unsupported('matrix iloc')

    def reindex(self, index=None, columns=None, **k):
        f, rm, cm = self._mf, self.rows.mem, self.cols.mem
        return SMat(as_core(index) if index is not None else self.rows,
                    as_core(columns) if columns is not None else self.cols,
                    lambda r, c: ite(And_(rm(r), cm(c)), f(r, c), NAN))

    def mean(self, axis=0, **k):
        f = self._mf
        if axis in (0, 'index'):
            rows = self.rows
            return SSeries(self.cols, Cell(lambda c: ssum(rows, lambda r: f(r, c)) / ssum(rows, lambda r: SBool(Not_(isnan(f(r, c)))))))
        raise Unsupported('mean')

    def dot(self, o):
        if isinstance(o, SSeries):
            r = matmul(self, o[SIndex(self.cols)])
            return SSeries(self.rows, Cell(r.f))
        return matmul(self, o)
    __matmul__ = dot

    def _map(self, g):
        f = self._mf
        return SMat(self.rows, self.cols, lambda r, c: g(f(r, c)))

    def isna(self): return self._map(lambda a: SBool(isnan(a)))
    isnull = isna

    def _nope(self, *a, **k):
        raise Unsupported('matrix operation')
    __setitem__ = drop = dropna = _red = fillna = iterrows = get = _nope

    def items(self):
        f = self._mf
        return [(unlab(t), SSeries(self.rows, Cell(lambda r, t=t: f(r, t)))) for t in self.cols.explicit()]

    def __iter__(self):
        return iter(self.columns)

    def __contains__(self, k):
        return k in self.columns

    def __mul__(self, o):
        if _scalar(o):
            return self._map(lambda a: _num(a) * o)
        raise Unsupported('matrix arithmetic')
    __rmul__ = __mul__

    def dv_len(self):
        return self.rows.n()

    def __getattr__(self, n):
        if n.startswith('__') or n in ('rows', 'cols', '_mf', 'dv_names', 'dv_seq'):
            raise AttributeError(n)
        raise Unsupported('DataFrame.%s' % n)


class _MLoc:
    def __init__(self, o):
        self.o = o

    def __getitem__(self, k):
        m = self.o
        f = m._mf
        if isinstance(k, tuple) and len(k) == 2:
            r, c = k
            if is_name(r) and is_name(c):
                tr, tc = E().ground(lab(r)), E().ground(lab(c))
                if not SBool(And_(m.rows.mem(tr), m.cols.mem(tc))):
                    raise KeyError(k)
                return f(tr, tc)
            if is_name(r):
                return m.loc[r][c] if not (isinstance(c, slice)) else m.loc[r]
            rc = m.rows if isinstance(r, slice) and r == slice(None) else as_core(r)
            cc = m.cols if isinstance(c, slice) and c == slice(None) else (as_core(c) if not is_name(c) else None)
            if cc is None:
                return _get(m[c], r)
            if not SBool(And_(subset(rc, m.rows), subset(cc, m.cols))):
                raise KeyError('not in index')
            return SMat(rc, cc, f)
        if is_name(k):
            t = E().ground(lab(k))
            if not SBool(m.rows.mem(t)):
                raise KeyError(k)
            return SSeries(m.cols, Cell(lambda c: f(t, c)))
        rc = as_core(k)
        if not SBool(subset(rc, m.rows)):
            raise KeyError('not in index')
        return SMat(rc, m.cols, f)


def concat_columns(lst, keys):
    """pd.concat(list of series, axis=1, keys=...)"""
    cores = [x.core for x in lst]
    rows = cores[0]
    for c in cores[1:]:
        if not same_positions(rows, c):
            rows = union_core(rows, c)
    if keys is None:
        cols = anon_core(len(lst), 'rng')
        its = cols.items
    else:
        kc = as_core(keys)
        if kc.items is not None and kc.full:
            if len(kc.items) != len(lst):
                raise Unsupported('concat keys of another length')
            cols, its = kc, kc.items
        else:
            if not SBool(zi(kc.n()) == len(lst)):
                raise Unsupported('concat keys of another length')
            its = [kc.at(i) for i in range(len(lst))]
            cols = kc
    fs = [(lambda r, m=x.core.mem, f=x.cell.f: ite(m(r), f(r), NAN)) for x in lst]

    def f(r, c):
        return _pick(its, [g(r) for g in fs])(c)
    return SMat(rows, cols, f)


# ------------------------------------------------------------------ sets of names
class SSet(Sym):
    src = None

    def __init__(self, mem, items=None):
        self.mem = mem
        self.items = items

    @staticmethod
    def of(x):
        if isinstance(x, SSet):
            return x
        if isinstance(x, SIndex):
            return SSet(x.core.mem, list(x.core.items) if x.core.items is not None and x.core.full else None)
        if isinstance(x, (set, frozenset, list, tuple)):
            ts = [lab(v) for v in x]
            return SSet(lambda t: Or_(*[label_eq(t, u) for u in ts]), ts)
        if isinstance(x, SSeries):
            return SSet(names_mem(x))
        if hasattr(x, 'dv_set'):
            return x.dv_set()
        if isinstance(x, (dict,)) or hasattr(x, '__iter__'):
            return SSet.of(list(x))
        raise Unsupported('set from %s' % type(x).__name__)

    def union(self, *os):
        ms = [self.mem] + [SSet.of(o).mem for o in os]
        return SSet(lambda t: Or_(*[m(t) for m in ms]))

    def __or__(self, o): return self.union(o)
    __ror__ = __or__

    def intersection(self, *os):
        ms = [self.mem] + [SSet.of(o).mem for o in os]
        return SSet(lambda t: And_(*[m(t) for m in ms]))

    def __and__(self, o): return self.intersection(o)
    __rand__ = __and__

    def difference(self, *os):
        m, ms = self.mem, [SSet.of(o).mem for o in os]
        return SSet(lambda t: And_(m(t), *[Not_(x(t)) for x in ms]))

    def __sub__(self, o): return self.difference(o)

    def __rsub__(self, o): return SSet.of(o) - self

    def symmetric_difference(self, o):
        m, n = self.mem, SSet.of(o).mem
        return SSet(lambda t: Not_(Iff_(m(t), n(t))))
    __xor__ = symmetric_difference

    def issubset(self, o):
        m = SSet.of(o).mem
        return SBool(forall(Label, self.mem, m, 'subset'))
    def __le__(self, o): return self.issubset(o)
    def issuperset(self, o): return SSet.of(o).issubset(self)
    def __ge__(self, o): return self.issuperset(o)

    def isdisjoint(self, o):
        m = SSet.of(o).mem
        return SBool(forall(Label, self.mem, lambda t: Not_(m(t)), 'disjoint'))

    def __eq__(self, o):
        if not isinstance(o, (SSet, set, frozenset)):
            return False
        m, n = self.mem, SSet.of(o).mem
        return SBool(forall(Label, lambda t: True, lambda t: Iff_(m(t), n(t)), 'seteq'))

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(Not_(zb(r)))

    def __contains__(self, x):
        if not is_name(x):
            return False
        return bool(SBool(self.mem(E().ground(lab(x)))))

    def __bool__(self):
        return bool(SBool(Not_(forall(Label, self.mem, lambda t: False, 'empty'))))

    def add(self, x):
        t, m = E().ground(lab(x)), self.mem
        self.mem = lambda u: Or_(m(u), label_eq(u, t))
        self.items = None

    def update(self, *os):
        r = self.union(*os)
        self.mem, self.items = r.mem, None

    def __ior__(self, o):
        self.update(o)
        return self

    def discard(self, x):
        t, m = E().ground(lab(x)), self.mem
        self.mem = lambda u: And_(m(u), Not_(label_eq(u, t)))
        self.items = None

    def copy(self):
        return SSet(self.mem, self.items)

    def __deepcopy__(self, memo):
        return self.copy()

    def dv_names(self):
        return Core(Order(tag='set'), self.mem, False, 'set')

    def dv_len(self):
        c = getattr(self, '_c', None)
        if self.items is not None:
            n = 0
            for i, t in enumerate(self.items):
                n = n + mki(If_(And_(*[Not_(t == u) if not t.eq(u) else False for u in self.items[:i]]), z3.IntVal(1), z3.IntVal(0)))
            return n
        src = self.src
        if src is not None and src[1] is self.mem:
            return src[0]()
        return self.dv_names().n()

    def __iter__(self):
        if self.items is not None:
            out = []
            for t in self.items:
                if not any(t.eq(u) or E().decide(t == u) for u in out):
                    out.append(t)
            return iter([unlab(t) for t in out])
        raise Unsupported('iteration over a set of unbounded size')

    __hash__ = None

    def __repr__(self):
        return '<set>'
    __str__ = __repr__

    def __format__(self, s):
        return '<set>'
