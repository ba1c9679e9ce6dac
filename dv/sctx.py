"""Symbolic interpretation of the contract scenarios."""
import traceback
import types
from fractions import Fraction
from os.path import dirname as real_dirname
import z3
from . import core, coll, shim, nl, many, table
from .core import Unsupported, PathEnd, Undecided, Label
from .val import *
from .val import E
from .coll import *
from .coll import _scalar
from .base import BaseCtx, Outcome


def freeze(fn, memo=None):
    """the function with its captured variables as they are now (contracts are evaluated lazily)"""
    if not isinstance(fn, types.FunctionType) or not fn.__closure__ or not fn.__module__.startswith('contracts'):
        return fn
    memo = {} if memo is None else memo
    if id(fn) in memo:
        return memo[id(fn)]
    cells = tuple(types.CellType() for _ in fn.__closure__)
    g = types.FunctionType(fn.__code__, fn.__globals__, fn.__name__, fn.__defaults__, cells)
    g.__kwdefaults__ = fn.__kwdefaults__
    memo[id(fn)] = g
    for new, old in zip(cells, fn.__closure__):
        try:
            v = old.cell_contents
        except ValueError:
            continue
        new.cell_contents = freeze(v, memo)
    return g


def term_list(e):
    return e.terms.get('Label', [])


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, q, scenario):
        self.q = q
        self.scenario = scenario
        self._names = {}
        self._undo = []
        self.inputs = []            # (name, kind, payload)
        self.failed_names = []
        self.origins = {}

    def module(self, name, **stubs):
        """module of qtune which needs libraries that are not installed; `stubs` are their assumed contracts"""
        L = self.q.loader
        for n, m in stubs.items():
            L.models.setdefault(n, m)
        return L.load('qtune.' + name)

    def int_of_text(self, mark):
        return E().memo['marks'][int(mark)]

    # ------------------------------------------------------------ inputs
    def names(self, name, nonempty=False, distinct_from=(), size=None):
        """arbitrary ordered finite set of names"""
        name = self.uniq(name)
        e = E()
        if size is not None:
            items = [z3.Const('%s_%d' % (name, i), Label) for i in range(size)]
            if size > 1:
                e.fact(z3.Distinct(*items))
            for t in items:
                e.ground(t)
            c = core_of_items(items, name)
        else:
            f = z3.Function('in_' + name, Label, z3.BoolSort())
            c = Core(Order(tag=name), lambda t: f(t), False, name)
            if nonempty:
                w = e.const(Label, 'some_' + name)
                e.ground(w)
                e.fact(f(w))
        self.inputs.append((name, 'names', c))
        for ix in distinct_from:
            self.assume(SBool(forall(Label, c.mem, lambda t, m=ix.core.mem: Not_(m(t)), 'disj')))
        return SIndex(c)

    def subnames(self, name, of, nonempty=False):
        """arbitrary subset in the same order"""
        name = self.uniq(name)
        f = z3.Function('in_' + name, Label, z3.BoolSort())
        c = of.core.restrict(lambda t: f(t), name)
        self.inputs.append((name, 'names', c))
        if nonempty:
            w = E().const(Label, 'some_' + name)
            E().ground(w)
            E().fact(c.mem(w))
        return SIndex(c)

    def permuted(self, name, of):
        """the same names in an arbitrary order"""
        name = self.uniq(name)
        m = of.core.mem
        if of.core.items is not None:
            if len(of.core.items) < 2:
                c = of.core
            else:
                c = Core(Order(tag=name), m, False, name)
                c._n = of.core.n()
                c.elems = of.core.elems
        else:
            c = Core(Order(tag=name), m, False, name)
        if getattr(of.core, 'block', None) is not None:
            c.block = of.core.block
        self.inputs.append((name, 'names', c))
        return SIndex(c)

    def shares(self, name, of, n):
        """names divided among n elements; gives the function from the position of an element to its (ordered) share"""
        name = self.uniq(name)
        owner = z3.Function('owner_' + name, Label, z3.IntSort())
        E().universal(Label, lambda t, m=of.core.mem: Implies_(m(t), z3.And(owner(t) >= 0, owner(t) < zi(n))))
        self.inputs.append((name, 'shares', (of.core, owner)))

        def share(i):
            m = of.core.mem
            c = Core(Order(tag='share'), lambda t: And_(m(t), owner(t) == zi(i)), False, 'share')
            c.block = (of.core, i, n)
            return SIndex(c)
        return share

    def union_of(self, a, b):
        return a.union(b)

    def names_where(self, name, of, cond):
        """those names that meet a condition, in an arbitrary order"""
        cond, m = freeze(cond), of.core.mem
        return SIndex(Core(Order(tag=self.uniq(name)), lambda t: And_(m(t), zb(cond(unlab(t)))), False, name))

    def super_names(self, name, of):
        """arbitrary ordered superset"""
        name = self.uniq(name)
        f = z3.Function('in_' + name, Label, z3.BoolSort())
        m = of.core.mem
        c = Core(Order(tag=name), lambda t: Or_(m(t), f(t)), False, name)
        self.inputs.append((name, 'names', c))
        return SIndex(c)

    def name(self, name):
        name = self.uniq(name)
        t = z3.Const('lab_' + name, Label)
        E().ground(t)
        self.inputs.append((name, 'name', t))
        return SLabel(t)

    def focus(self, name, *positions):
        """an arbitrary name, for which sets collected by loops over sequences of unknown length are decided; positions: of
        elements under observation"""
        x = self.name(name)
        E().memo['many_focus'] = x.t
        E().memo['many_observed'] = list(positions)
        return x

    def pick(self, name, index):
        x = self.name(name)
        self.assume(SBool(index.core.mem(x.t)))
        return x

    def series(self, name, index, nan=False, inf=False, positive=False):
        name = self.uniq(name)
        c = index.core
        fr = z3.Function('val_' + name, Label, z3.RealSort())
        fn = z3.Function('nan_' + name, Label, z3.BoolSort()) if nan else None
        fp = z3.Function('pinf_' + name, Label, z3.BoolSort()) if inf else None
        fm = z3.Function('ninf_' + name, Label, z3.BoolSort()) if inf else None

        def f(t):
            n = fn(t) if nan else False
            if not inf:
                return SVal(fr(t), n)
            p = And_(Not_(n), fp(t))
            return SVal(fr(t), n, p, And_(Not_(n), Not_(p), fm(t)))
        s = SSeries(c, Cell(f))
        self.inputs.append((name, 'series', (c, f)))
        if positive:
            self.assume(self.all(index, lambda g: self.at(s, g) > 0))
        return s

    def name_series(self, name, index, nan=False, injective=False):
        """series whose entries are names (different names, if injective)"""
        name = self.uniq(name)
        c = index.core
        fl = z3.Function('lab_' + name, Label, Label)
        fn = z3.Function('nan_' + name, Label, z3.BoolSort()) if nan else None
        f = lambda t: SLabel(fl(t), fn(t) if nan else False)
        if injective:
            inv = z3.Function('origin_' + name, Label, Label)
            E().universal(Label, lambda t: Implies_(And_(c.mem(t), Not_(f(t).null)), inv(fl(t)) == t))
            self.origins[name] = (c, f, inv)
        s = SSeries(c, Cell(f))
        s.origin = name
        self.inputs.append((name, 'names_series', (c, f)))
        return s

    def origin(self, series, x):
        """(is x an entry of the injective series of names, the name it is the entry of)"""
        c, f, inv = self.origins[series.origin]
        u = inv(lab(x))
        if lab(x).num_args() == 0:
            E().ground(u)
        return SBool(And_(c.mem(u), Not_(f(u).null), f(u).t == lab(x))), SLabel(u)

    def real(self, name, nan=False, inf=False, positive=False, nonneg=False):
        name = self.uniq(name)
        r = z3.Real('r_' + name)
        v = SVal(r, z3.Bool('nan_' + name) if nan else False, False, False)
        if inf:
            p, m = z3.Bool('pinf_' + name), z3.Bool('ninf_' + name)
            p = And_(Not_(v.nan), p)
            v = SVal(r, v.nan, p, And_(Not_(v.nan), Not_(p), m))
        self.inputs.append((name, 'real', v))
        if positive:
            E().fact(r > 0)
        if nonneg:
            E().fact(r >= 0)
        return v

    def int(self, name, lo=None, hi=None):
        name = self.uniq(name)
        i = z3.Int('i_' + name)
        if lo is not None:
            E().fact(i >= zi(lo))
        if hi is not None:
            E().fact(i <= zi(hi))
        self.inputs.append((name, 'int', i))
        return SInt(i)

    def many(self, name, make, minimum=1, length=None):
        """sequence of arbitrary length; make(k, i) makes the k-th element looked at, which is at position i"""
        return many.Many(self.int(name, lo=minimum) if length is None else length, make, shim.REPO)

    def record(self, name, gates):
        """list of any number of voltages recorded earlier"""
        r = many.Record(self.int('number_of_' + name, lo=0), None)

        def make(i):
            return self.series('%s_at%d' % (name, len(r.seen)), gates)
        r.make = make
        self.inputs.append((name, 'record', r))
        return r

    def lists_same(self, a, b):
        if isinstance(a, many.Record) or isinstance(b, many.Record):
            a, b = (a, b) if isinstance(a, many.Record) else (b, a)
            return self.And(*a.same(b, self.series_same))
        return self.And(len(a) == len(b), *[self.series_same(x, y) for x, y in zip(a, b)])

    def loops(self):
        """has a loop over a sequence of unknown length been verified by its body on this path?"""
        return bool(E().memo.get('many_loops'))

    def name_at(self, index, i):
        return SLabel(index.core.at(i))

    def forget_loops(self, *stateless):
        """... and the elements made so far of sequences of stateless collaborators"""
        E().memo['many_loops'] = []
        for m in stateless:
            del m.seen[:]

    def once_each(self, n, positions, wanted=lambda i: True):
        """does every element (at 0 .. n-1) that is wanted, and no other, occur once among the positions?"""
        pairs = [SBool(zi(a) != zi(b)) for k, a in enumerate(positions) for b in positions[:k]]
        ok = self.And(*pairs, *[self.And(wanted(p)) for p in positions])
        loops = E().memo.get('many_loops', [])
        every = self.Or(False, *[self.And(SBool(zi(visits.n) == zi(n)), *[self.Or(self.Not(wanted(g)), *[SBool(zi(p) == zi(g)) for p in positions]) for g in visits])
                                 for visits in loops])
        return self.And(ok, self.Or(every, SBool(zi(n) == len(positions))))

    def gathered(self, x, n, values):
        """is x the list of n values, of which these were given out at the elements looked at?"""
        if isinstance(x, many.Gathered):
            return self.And(x.n == n, len(values) == 1 and x.value is values[0])
        if isinstance(x, (list, tuple)):
            return self.And(SBool(zi(n) == len(x)), len(x) == len(values), all(a is b for a, b in zip(x, values)))
        raise Unsupported('list of results')

    def loops_may_fail(self):
        """exceptions may leave loops over sequences of unknown length"""
        E().memo['many_fail'] = True

    def count(self, n, wanted):
        """how many of the positions 0 .. n-1 are wanted"""
        return many.choice(n, wanted).count

    def rank(self, n, wanted, i):
        """how many wanted positions come before the wanted position i"""
        return SInt(many.choice(n, wanted).rank(i))

    def each_place(self, n):
        """the positions 0 .. n-1 (an arbitrary one stands for all)"""
        e = E()
        p = e.const(z3.IntSort(), 'place')
        if not bool(SBool(zi(n) > 0)):
            return []
        e.fact(z3.And(p >= 0, p < zi(n)))
        return [SInt(p)]

    def passed(self, last):
        """positions of the elements a loop went through before it was left at the last one"""
        return list(E().memo.get('many_left', ()))

    def undecided(self, reason):
        raise Unsupported(reason)

    def flag(self, name):
        name = self.uniq(name)
        b = z3.Bool('b_' + name)
        self.inputs.append((name, 'flag', b))
        return SBool(b)

    def fork(self, name):
        """a boolean decided now"""
        return bool(self.flag(name))

    def choice(self, name, n):
        name = self.uniq(name)
        k = E().choose(n)
        self.inputs.append((name, 'choice', k))
        return k

    def matrix(self, name, rows, cols):
        name = self.uniq(name)
        f = z3.Function('mat_' + name, Label, Label, z3.RealSort())
        g = lambda r, c: SVal(f(r, c))
        self.inputs.append((name, 'matrix', (rows.core, cols.core, g)))
        return SMat(rows.core, cols.core, g)

    def make_matrix(self, rows, cols, fn):
        fn = freeze(fn)
        return SMat(rows.core, cols.core, lambda r, c: fn(unlab(r), unlab(c)))

    def select(self, cases):
        """value of the first case which holds (one must hold)"""
        x = cases[-1][1]
        for k, v in cases[-2::-1]:
            x = ite(zb(k), v, x)
        return x

    def rows(self, m):
        return m.rows.n()

    def mat_iat(self, m, i, col):
        return m.f(m.rows.at(i), lab(col))

    def as_set(self, ix):
        return SSet.of(ix)

    def row_array(self, s):
        """1 x n array"""
        u, f = core_of_items([coll.unit_term()]), s.f
        return SArr((u, s.core), lambda _, t: f(t))

    def flat_array(self, s):
        f = s.f
        return SArr((s.core,), lambda t: f(t))

    def total(self, arr):
        return arr.size

    def flat_at(self, arr, i):
        while arr.ndim > 1:
            arr = arr[0] if SBool(zi(arr.shape[0]) == 1) else arr.squeeze()
        return arr.f(arr.axes[0].at(i))

    def mat_array(self, m):
        return m.values

    def sym_matrix(self, name, index):
        """symmetric positive semidefinite matrix (only the symmetry is used)"""
        m = self.matrix(name, index, index)
        return SMat(m.rows, m.cols, lambda r, c: m.f(r, c) + m.f(c, r))

    def positional(self, x, names):
        """series of the entries of a vector in the order of the names (None: wrong size)"""
        a = as_arr(x) if not isinstance(x, shim.SMatrixSp) else x.to_arr()
        if not SBool(zi(a.size) == zi(names.core.n())):
            return None
        return SSeries(coll.reshape(a, (names.core.n(),)), index=names)

    def matrix_same(self, A, B, names):
        """tables with the same names on both axes and equal entries"""
        if not isinstance(A, SMat):
            return SBool(False)
        return SBool(And_(mem_equal(A.rows, names.core), mem_equal(A.cols, names.core),
                          all_labels(names.core, lambda t: all_labels(names.core, lambda u: same(A.f(t, u), B.f(t, u))))))

    def positional_matrix_same(self, A, B, names):
        """square array whose entries in the order of the names are those of the table B"""
        a = as_arr(A)
        n = names.core.n()
        if a.ndim != 2 or not SBool(And_(zi(a.axes[0].n()) == zi(n), zi(a.axes[1].n()) == zi(n))):
            return SBool(False)
        p, q = coll.pairing(names.core, a.axes[0]), coll.pairing(names.core, a.axes[1])
        return SBool(all_labels(names.core, lambda t: all_labels(names.core, lambda u: same(a.f(p(t), q(u)), B.f(t, u)))))

    def vector(self, name, index):
        """array with one entry for each name"""
        s = self.series(name, index)
        self._vec = s
        return s.values

    def last_vector(self, index):
        return self._vec

    def item(self, arr, i, j):
        return arr.f(arr.axes[0].at(i), arr.axes[1].at(j))

    def shape(self, arr):
        return arr.shape

    def only(self, x):
        """the only entry"""
        if isinstance(x, (list, tuple)):
            return x[0] if len(x) == 1 else NAN
        return shim.np_array(x).item() if not _scalar(x) else x

    def frame(self, index, cols):
        return SFrame(index.core, {n: Cell(coll._colfun(v, index.core)) for n, v in cols.items()})

    def table(self, n, cols):
        """table of n rows with the given columns (python names)"""
        return table.STable(n, {k: list(v) for k, v in cols.items()})

    def list_series(self, index, items):
        return SSeries(list(items), index=index)

    def make_series(self, index, fn):
        """series with entry fn(name)"""
        fn = freeze(fn)
        return SSeries(index.core, Cell(memo1(lambda t: fn(unlab(t)))))

    def strs(self, *names):
        return SIndex(core_of_items([lab(n) for n in names]))

    def empty_series(self):
        return SSeries(empty_core(), Cell(lambda t: NAN))

    # ------------------------------------------------------------ logic
    def And(self, *xs): return SBool(And_(*[zb(x) for x in xs]))
    def Or(self, *xs): return SBool(Or_(*[zb(x) for x in xs]))
    def Not(self, x): return SBool(Not_(zb(x)))
    def Implies(self, a, b): return SBool(Implies_(zb(a), zb(b)))
    def Iff(self, a, b): return SBool(Iff_(zb(a), zb(b)))
    def ite(self, c, a, b): return ite(zb(c), a, b)

    def all(self, index, fn):
        fn = freeze(fn)
        return SBool(all_labels(index.core, lambda t: zb(fn(unlab(t)))))

    def any(self, index, fn):
        fn = freeze(fn)
        return SBool(any_labels(index.core, lambda t: zb(fn(unlab(t)))))

    def has(self, index, n):
        if isinstance(index, (SSeries, SFrame)):
            index = index.index
        if isinstance(index, SSet):
            return SBool(index.mem(lab(n)))
        return SBool(names_mem(index)(lab(n)))

    def at(self, series, n):
        return series.f(lab(n))

    def mat_at(self, m, r, c):
        return m.f(lab(r), lab(c))

    def isnan(self, x):
        return SBool(isnan(x))

    def finite(self, x):
        return SBool(toV(x).fin)

    def eq(self, a, b):
        """nan-aware equality of scalars / names"""
        return SBool(same(a, b))

    exact = eq

    def near(self, a, b):
        return self.eq(a, b)

    def is_true(self, x):
        """x is the boolean True"""
        if isinstance(x, SBool):
            return x
        return SBool(x is True)

    def is_false(self, x):
        if isinstance(x, SBool):
            return SBool(Not_(x.e))
        return SBool(x is False)

    def series_same(self, a, b):
        if a is None or b is None:
            return SBool(a is b)
        if not isinstance(a, SSeries) or not isinstance(b, SSeries):
            return SBool(False)
        return SBool(And_(mem_equal(a.core, b.core), all_labels(a.core, lambda t: same(a.f(t), b.f(t)))))

    series_close = series_same

    def series_exact(self, a, b):
        """same names in the same order with the same values"""
        return a.equals(b)

    def index_same(self, a, b):
        return SBool(mem_equal(SIndex(a).core, SIndex(b).core))

    def index_order_same(self, a, b):
        return SBool(index_equals(SIndex(a).core, SIndex(b).core))

    def subset(self, a, b):
        return SBool(subset(SIndex(a).core, SIndex(b).core))

    def set_same(self, a, mem):
        """the set of names a is exactly {n : mem(n)}"""
        m, mem = names_mem(a), freeze(mem)
        return SBool(forall(Label, lambda t: True, lambda t: Iff_(m(t), zb(mem(unlab(t)))), 'seteq'))

    def norm(self, s):
        return norm_of(s.core, s.cell.f)

    def size(self, index):
        return index.core.n() if isinstance(index, SIndex) else len(index) if isinstance(index, list) else index.dv_len()

    def floor_div(self, a, b):
        """floor(a/b) of reals as an integer"""
        return mki(z3.ToInt((toV(a) / toV(b)).r))

    def lstsq(self, A, b):
        return shim.np_lstsq(A, b)[0]

    def eigh(self, A):
        return shim.np_eigh(A)

    def eigen(self, m):
        """eigensystem of a symmetric table: the numbers of the eigenpairs, value(k), entry(name, k)"""
        w, V = shim.np_eigh(m.values)
        return SIndex(w.axes[0]), lambda k: w.f(lab(k)), lambda g, k: V.f(lab(g), lab(k))

    def column_norms(self, rows, cols, fn):
        """euclidean lengths of the columns of a table"""
        m = self.make_matrix(rows, cols, fn)
        a = shim.column_norms(m.rows, m.cols, m.f)
        return lambda k: a.f(lab(k))

    def arg_max(self, axis, fn):
        """first element of the axis with the largest fn, and whether another one shares it"""
        fn = freeze(fn)
        k = axis.core.at(shim._arg(True)(SArr((axis.core,), memo1(lambda t: toV(fn(unlab(t)))))))
        top = toV(fn(unlab(k)))
        return unlab(k), SBool(any_labels(axis.core, lambda t: And_(t != k, same(toV(fn(unlab(t))), top))))

    def null_basis(self, m):
        """the computed basis of the null space of a table (series by column)"""
        return [v.vec for v in shim.SMatrixSp(m).nullspace()]

    def quad(self, s, m):
        """s . m . s"""
        f = lambda t: s.cell.f(t)
        return shim.bilinear(s.core, f, SArr((s.core, s.core), m.f), s.core, f)

    def inverse(self, rows):
        """inverse of a square list of rows as a list of rows (None: singular)"""
        n = len(rows)
        R, C = coll.anon_core(n), coll.anon_core(n)
        a = SArr((R, C), lambda r, c: coll._pick(R.items, [coll._pick(C.items, [toV(x) for x in row])(c) for row in rows])(r))
        try:
            x = shim.np_inv(a)
        except shim.LinAlgError:
            return None
        return [[x.f(C.items[i], R.items[j]) for j in range(n)] for i in range(n)]

    scratch_inverse = lambda self, rows: None

    def scale_inverse_identities(self, factors):
        """consequences of A inv(A) = 1: both sides times each factor"""
        for M, X in E().memo.get('inv_grid', []):
            if X:
                for t, u in shim.inverse_facts(M, X):
                    for x in factors:
                        E().fact(nl.rmul(toV(x).r, t) == nl.rmul(toV(x).r, u))

    def scale_null_identities(self):
        """consequences of row . v = 0 and |v|^2 = v . v for every computed null vector v: both sides over |v| and |v|^2"""
        for R, C, f, res in E().memo.get('nullspace', []):
            if C.items is None or R.items is None:
                continue
            for m in res:
                v = m.vec.cell.f
                n = shim.norm_of(C, v)
                inv = (SVal(z3.RealVal(1)) / n).r
                for t in R.items:
                    s_ = z3.Sum([nl.rmul(toV(f(t, u)).r, toV(v(u)).r) for u in C.items])
                    E().fact(nl.rmul(inv, s_) == 0)
                s_ = z3.Sum([nl.rmul(toV(v(u)).r, toV(v(u)).r) for u in C.items])
                E().fact(nl.rmul(nl.rmul(inv, inv), s_) == nl.rmul(nl.rmul(inv, inv), nl.rmul(n.r, n.r)))

    def avoid_ties(self, fn):
        """rounding decides ties: inputs with ties are not executed"""

    def arr_at(self, arr, *n):
        return arr.f(*[lab(x) for x in n])

    def names_list(self, ix):
        """the names as a list"""
        return shim.SNames([ix.core]) if ix.core.items is None or not ix.core.full else list(ix)

    names_tuple = names_list

    def is_series(self, x):
        return isinstance(x, SSeries)

    def is_frame(self, x):
        return isinstance(x, SFrame)

    def folder(self, name, exists=None):
        """a path whose existence is arbitrary"""
        name = self.uniq(name)
        p = '/dv/outer_%s/%s' % (name, name)
        self.inputs.append((name, 'flag', zb(shim.FakePath.isdir(p))))
        self.inputs.append((name + '_parent', 'flag', zb(shim.FakePath.isdir(real_dirname(p)))))
        return p

    def h5file(self):
        """an empty HDF5 file in memory"""
        return self.q.storage.h5py.File(self.uniq('/dv/memory.h5'), mode='w')

    def kind(self, x):
        """the kind of a stored value"""
        if x is None:
            return 'none'
        if isinstance(x, (SBool, bool)):
            return 'bool'
        if isinstance(x, SLabel) or isinstance(x, str):
            return 'str'
        if isinstance(x, (SVal, SInt, int, float)):
            return 'number'
        for t, n in ((SSeries, 'series'), (SFrame, 'table'), (SArr, 'array')):
            if isinstance(x, t):
                return n
        return type(x).__name__

    def array_same(self, a, b):
        """same shape and entries"""
        if a.ndim != b.ndim:
            return SBool(False)
        sh = And_(*[zi(m) == zi(n) for m, n in zip(a.shape, b.shape)])
        if not E().valid(sh):
            return SBool(False)
        ps = [coll.pairing(m, n) for m, n in zip(a.axes, b.axes)]
        if a.ndim == 0:
            return SBool(same(a.item(), b.item()))
        if a.ndim == 1:
            return SBool(all_labels(a.axes[0], lambda t: same(a.f(t), b.f(ps[0](t)))))
        return SBool(all_labels(a.axes[0], lambda t: all_labels(a.axes[1], lambda u: same(a.f(t, u), b.f(ps[0](t), ps[1](u))))))

    def table_same(self, a, b):
        """same labels in the same order on both axes, same entries"""
        return SBool(And_(zb(self.index_order_same(a.index, b.index)), zb(self.index_order_same(a.columns, b.columns)),
                          zb(self.array_same(coll.as_arr(a), coll.as_arr(b)))))

    def string_series(self, name, index):
        """series of strings"""
        return self.name_series(name, index)

    def string_array(self, *names):
        return SArr((coll.anon_core(len(names)),), None, lst=list(names), namevals=True)

    def install_bench(self, b):
        E().memo['bench'] = b

    def errors_logged(self):
        return len([x for x in E().log if x[0] in ('error', 'exception', 'critical')])

    def data_folder(self):
        """an existing folder"""
        return '/dv/data'

    def is_dir(self, p):
        return SBool(zb(shim.FakePath.isdir(p)))

    def index_of(self, names):
        return SIndex(names if not isinstance(names, shim.SNames) else names.dv_names())

    # ------------------------------------------------------------ verification statements
    def assume(self, cond):
        E().assume(zb(cond))

    def ensure(self, label, cond):
        e = E()
        o = zb(cond)
        r = e.oblige(self.scenario + '/' + label, o, self.concretise)
        if not r and o is False:
            raise PathEnd()

    def lemma(self, label, cond):
        """obligation that is assumed afterwards"""
        self.ensure(label, cond)
        E().fact(zb(cond))

    def reachable(self, label):
        E().covered.add('reach:' + self.scenario + '/' + label)

    def snap(self, x):
        if isinstance(x, (SSeries, SFrame, SArr, SSet, many.Record)):
            return x.copy()
        if isinstance(x, list):
            return [self.snap(v) for v in x]
        if isinstance(x, tuple):
            return tuple(self.snap(v) for v in x)
        if isinstance(x, dict):
            return {k: self.snap(v) for k, v in x.items()}
        return x

    def call(self, f, *a, **k):
        try:
            v = f(*a, **k)
            many.check()
            return Outcome(value=v)
        except (TypeError, AttributeError, RecursionError) as err:
            if getattr(err, 'dv_model', False):
                return Outcome(exc=err)
            tb = traceback.extract_tb(err.__traceback__)[-1]
            raise Unsupported('%s at %s:%s: %s' % (type(err).__name__, tb.filename.split('/')[-1], tb.lineno, err))
        except Exception as err:
            many.check()
            return Outcome(exc=err)

    def run(self, f, *a, **k):
        """call that must not raise"""
        o = self.call(f, *a, **k)
        if o.exc is not None:
            tb = traceback.extract_tb(o.exc.__traceback__)[-1]
            E().log.append(('raise', '%r at %s:%s' % (o.exc, tb.filename, tb.lineno)))
            import os as _o; _o.environ.get('DVTB') and traceback.print_exception(o.exc)
            self.ensure('does not raise', False)
            raise PathEnd()
        return o.value

    # ------------------------------------------------------------ countermodels
    def concretise(self, m):
        e = E()
        elems = {}
        strings = {}

        def ev(t):
            return m.eval(t, model_completion=True)

        def key(t):
            return str(ev(t))
        for n, t in e.consts.items():
            strings[key(t)] = n
        cats = [(k, v) for k, v in e.memo.items() if isinstance(k, tuple) and k and k[0] == 'cat']
        ground = list(term_list(e))
        for t in ground:
            elems.setdefault(key(t), t)
        fresh = 0
        todo = list(elems)
        for k in todo:
            if k not in strings:
                strings[k] = None
        # names built by concatenation
        for _ in range(3):
            for (_, pre, post), args in cats:
                f = z3.Function('cat_%s_%s' % (pre, post), Label, Label)
                for a in args:
                    ka, kr = key(a), key(f(a))
                    if strings.get(ka) is None:
                        strings[ka] = 'n%d' % fresh
                        fresh += 1
                    strings[kr] = pre + strings[ka] + post
        if 'label_rank' in e.memo:
            todo.sort(key=lambda k: Fraction(str(ev(e.memo['label_rank'](elems[k])))) if k in elems else 0)
        for k in todo:
            if strings[k] is None:
                strings[k] = 'n%d' % fresh
                fresh += 1

        def truth_(x):
            if isinstance(x, bool):
                return x
            return z3.is_true(ev(x))

        def num(v):
            if truth_(v.nan):
                return 'nan'
            if truth_(v.pinf):
                return 'inf'
            if truth_(v.ninf):
                return '-inf'
            return realnum(v.r)

        def realnum(r):
            x = ev(r)
            if z3.is_rational_value(x):
                fr = Fraction(x.numerator_as_long(), x.denominator_as_long())
                return float(fr)
            if z3.is_algebraic_value(x):
                x = x.approx(30)
                return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
            raise Unsupported('value %s' % x)
        reps = dict(elems)
        poskeys = {}

        def members(c):
            if c.items is not None:
                return [t for t in c.items if truth_(c.mem(t))]
            out = [t for k, t in sorted(reps.items()) if truth_(c.mem(t))]
            src = c
            if c._pos is not None:
                out.sort(key=lambda t: ev(c._pos(t)).as_long())
            elif id(c.order) in poskeys:
                p = poskeys[id(c.order)]
                out.sort(key=lambda t: ev(p(t)).as_long())
            elif c.order.tag == 'sorted':
                out.sort(key=lambda t: strings[key(t)])
            return out
        for name, kind, p in self.inputs:
            if kind == 'names' and p._pos is not None:
                poskeys.setdefault(id(p.order), p._pos)
        res = {}
        pad = 0
        for name, kind, p in self.inputs:
            if kind == 'names':
                l = [strings[key(t)] for t in members(p)]
                seen = []
                for s in l:
                    if s not in seen:
                        seen.append(s)
                if p._n is not None and not isinstance(p._n, int) and p.items is None:
                    n = ev(zi(p._n)).as_long()
                    while len(seen) < n and n < 12:
                        seen.append('pad%d' % pad)
                        pad += 1
                res[name] = seen
            elif kind == 'name':
                res[name] = strings[key(p)]
            elif kind == 'series':
                c, f = p
                res[name] = {strings[key(t)]: num(toV(f(t))) for t in members(c)}
            elif kind == 'record':
                for i, o, was in p.seen:
                    res['%s%d' % (name, ev(zi(i)).as_long())] = {strings[key(t)]: num(toV(was.cell.f(t))) for t in members(was.core)}
            elif kind == 'shares':
                c, f = p
                res[name] = {strings[key(t)]: ev(f(t)).as_long() for t in members(c)}
            elif kind == 'names_series':
                c, f = p
                d = {}
                for t in members(c):
                    x = f(t)
                    d[strings[key(t)]] = None if truth_(x.null) else strings.get(key(x.t)) or 'n_other'
                res[name] = d
            elif kind == 'matrix':
                r, c, f = p
                res[name] = {strings[key(t)]: {strings[key(u)]: num(f(t, u)) for u in members(c)} for t in members(r)}
            elif kind == 'real':
                res[name] = num(p)
            elif kind == 'int':
                res[name] = ev(p).as_long()
            elif kind == 'flag':
                res[name] = truth_(p)
            elif kind == 'choice':
                res[name] = p
        return res
