"""Sequences of collaborators of arbitrary length.

Elements are made on first access; two accesses at indices which may be equal are decided by forking. A `for` statement over the
sequence is verified by its body at one arbitrary element a. That covers all elements if no state is carried from one iteration to the
next: the rule checks that the body leaves every local variable, every attribute of the objects they refer to and the contents of
containers among these as they were, that other names assigned in the loop are temporary, and that the loop runs to its end. If the body
does change the state, a stands for the first element that does, and the body is run for one more arbitrary element, which must leave
the changed state as it is (as `ok = False` does); then the state after the loop is the one after a. So on paths without a change a is
arbitrary and no element changes the state; on paths with a change a is the first one, and the elements after it are arbitrary.
Sets collected by a loop are decided for one arbitrary name, the focus, if the scenario names one: before the body runs, a set that the
loop binds anew is replaced by an arbitrary set that agrees with it on the focus; a loop changes it if the focus enters or leaves it; after
the loop it is an arbitrary set that agrees with the collected one on the focus. On paths without a change the body is also run for the
positions the scenario has under observation (those not yet visited), which by assumption change nothing either.
A list to which every element appends exactly one value (the body decides nothing and changes nothing else) becomes a `Gathered` list, described by
the value of the arbitrary element; series labelled by the element's share of a partition of names can be concatenated.
A list comprehension is treated as a loop that appends; elements looked at before are evaluated as they are, and the arbitrary one stands for
all others. With a condition, all outcomes of its decisions make a formula about the arbitrary element (`formula`); the result is described by
uninterpreted functions for the count of the chosen positions, the k-th of them, and how many come before one (`Choice`). Series gathered or
chosen like this can be put side by side as a table. Going through gathered values again concerns the same element, and must decide and
change nothing.
A loop that can be left early (return or break in its body, or an exception where the scenario says so) has two more cases: it is left at the
first element, or at a later one g; then the body first runs for an arbitrary h < g, which must not leave the loop and must change nothing.
Everything else (unpacking, an exception in the body) is refused as unsupported."""
import ast
import ctypes
import dis
import sys
import z3
from .core import Unsupported, PathEnd
from .val import E, SInt, SBool, SVal, Sym, Label, And_, Or_, Not_, Implies_, Iff_, zi

_trees = {}


def _loop(frame, repo):
    code = frame.f_code
    if not code.co_filename.startswith(repo):
        raise Unsupported('iteration over a sequence of unknown length')
    at = frame.f_lasti
    while dis.opname[code.co_code[at]] == 'CACHE':
        at -= 2
    if dis.opname[code.co_code[at]] != 'FOR_ITER':
        raise Unsupported('unpacking of a sequence of unknown length')
    tree = _trees.get(code.co_filename)
    if tree is None:
        tree = _trees[code.co_filename] = ast.parse(open(code.co_filename, encoding='utf-8').read())
    best = None
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)) and fn.name == code.co_name:
            for node in ast.walk(fn):
                if isinstance(node, ast.For) and node.lineno <= frame.f_lineno <= node.iter.end_lineno:
                    best = fn, node
    if best is None:
        raise Unsupported('loop not found')
    # iterators in between which may stop or skip
    if STATEFUL & {x.id if isinstance(x, ast.Name) else x.attr for x in ast.walk(best[0]) if isinstance(x, (ast.Name, ast.Attribute))}:
        raise Unsupported('iterators over a sequence of unknown length')
    return best


STATEFUL = {'islice', 'takewhile', 'dropwhile', 'accumulate', 'pairwise', 'batched', 'chain', 'cycle', 'compress', 'next', 'iter'}


def _names(node, ctx):
    return [x for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)]


def _roles(fn, loop, present):
    """names that may carry state (they exist before the loop); all other names the loop binds are checked to be temporary: bound
    before they are read in every iteration, and not read outside of the loop unless another loop binds them"""
    own = set()
    bound = set()                       # reads of a loop's target in its body
    for l in ast.walk(fn):
        if isinstance(l, ast.For):
            t = {x.id for x in _names(l.target, ast.Store)}
            bound.update((id(x), x.id) for b in l.body for x in _names(b, ast.Load) if x.id in t)
            if l is not loop:
                for st in l.body:       # assigned in its body before
                    if isinstance(st, ast.Assign):
                        t = {x.id for y in st.targets for x in _names(y, ast.Store)}
                        bound.update((id(x), x.id) for b in l.body for x in _names(b, ast.Load) if x.id in t and x.lineno > st.end_lineno)
        elif isinstance(l, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):     # have their own variables
            t = {x.id for g in l.generators for x in _names(g.target, ast.Store)}
            bound.update((id(x), x.id) for x in _names(l, ast.Load) if x.id in t and
                         not any(x is y for y in _names(l.generators[0].iter, ast.Load)))
            own.update(id(x) for g in l.generators for x in _names(g.target, ast.Store))
    targets = {x.id for x in _names(loop.target, ast.Store)}
    stored = {x.id for x in _names(loop, (ast.Store, ast.Del)) if id(x) not in own}
    state = {n for n in stored if n in present and n not in targets}
    inside = set(map(id, ast.walk(loop)))
    for x in _names(fn, ast.Load):
        if x.id in stored - state and id(x) not in inside and (id(x), x.id) not in bound:
            raise Unsupported('%s is used after the loop' % x.id)
    done = set()                        # reads after a plain assignment in the same block, or in a block around it
    for l in ast.walk(loop):
        for block in [v for _, v in ast.iter_fields(l) if isinstance(v, list) and v and isinstance(v[0], ast.stmt)]:
            have = set()
            for st in block:
                done.update(id(x) for x in _names(st, ast.Load) if x.id in have)
                if isinstance(st, ast.Assign):
                    have.update(x.id for t in st.targets for x in _names(t, ast.Store))
    for x in _names(loop, ast.Load):
        if x.id in stored - state - targets and (id(x), x.id) not in bound and id(x) not in done:
            raise Unsupported('%s may be carried by the loop' % x.id)
    return stored - state


def _snapshot(frame, free):
    keep, state = [], {}

    def shallow(x):
        keep.append(x)
        if isinstance(x, dict):
            return [(id(k), id(v)) for k, v in x.items()]
        if isinstance(x, (list, tuple, set, frozenset)):
            return [id(v) for v in x]
        return None
    for n, v in frame.f_locals.items():
        if n in free or isinstance(v, (Many, Positions)):
            continue
        keep.append(v)
        attrs = None
        if type(v).__module__.startswith(('qtune', 'dv', 'contracts')) and isinstance(getattr(v, '__dict__', None), dict):
            attrs = {a: (id(w), shallow(w)) for a, w in vars(v).items()}
            keep.extend(vars(v).values())
        state[n] = (id(v), shallow(v), attrs)
    return keep, state


class Collected:
    """the sets a loop binds anew, as far as the focus goes"""

    def __init__(self, frame, loop):
        from .coll import SSet
        self.frame, self.focus = frame, E().memo.get('many_focus')
        stored = {x.id for x in _names(loop, (ast.Store, ast.Del))}
        self.names = [] if self.focus is None else [n for n, v in frame.f_locals.items() if n in stored and isinstance(v, (SSet, set, frozenset))]
        self.now = {}

    def _has(self, n):
        from .coll import SSet
        v = self.frame.f_locals.get(n)
        if not isinstance(v, (SSet, set, frozenset)):
            raise Unsupported('a loop over a sequence of unknown length turns a set into something else')
        return SSet.of(v).mem(self.focus)

    def blur(self):
        """only the membership of the focus is kept"""
        from .coll import SSet
        from .val import Label, Iff_
        e = E()
        had = {n: self._has(n) for n in self.names}
        new = {}
        for n in self.names:
            k = e.memo['many_sets'] = e.memo.get('many_sets', 0) + 1
            f = z3.Function('collected_%d' % k, Label, z3.BoolSort())
            e.fact(Iff_(f(self.focus), had[n]))
            new[n] = SSet(lambda t, f=f: f(t))
        if new:
            self.now = had
            self.frame.f_locals.update(new)
            ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(self.frame), ctypes.c_int(0))

    def changed(self):
        from .val import Iff_, Not_
        r = False
        for n in self.names:
            new = self._has(n)
            if bool(SBool(Not_(Iff_(new, self.now[n])))):
                r = True
        return r


class Appended:
    """local lists to which the body appends one value; it must be the same for every element: nothing is decided in between"""

    def __init__(self, frame, loop, repo):
        stored = {x.id for x in _names(loop, (ast.Store, ast.Del))}
        self.frame, self.repo = frame, repo
        self.lists = {n: v for n, v in frame.f_locals.items() if type(v) is list and not v and n not in stored}
        for n, v in list(self.lists.items()):
            if any(w is v for m, w in frame.f_locals.items() if m != n) or any(
                    w is v for o in frame.f_locals.values() if isinstance(getattr(o, '__dict__', None), dict) for w in vars(o).values()):
                del self.lists[n]
        e = E()
        self.mark = len(e.taken), e.assumed

    def take(self, lost=False):
        """what the body appended, by name; the lists are emptied again"""
        e = E()
        new = {}
        for n, v in self.lists.items():
            if self.frame.f_locals.get(n) is not v:
                raise Unsupported('a loop over a sequence of unknown length binds %s anew' % n)
            if v:
                if len(v) > 1:
                    raise Unsupported('a loop over a sequence of unknown length appends several values')
                if (len(e.taken), e.assumed) != self.mark:
                    if not lost:
                        raise Unsupported('a loop over a sequence of unknown length appends under a condition')
                    v[:] = [Unknown()]
                new[n] = v.pop()
        return new

    def lose(self, names):
        self.frame.f_locals.update({k: Unknown() for k in names})
        ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(self.frame), ctypes.c_int(0))

    def bind(self, new, n, g):
        if new:
            self.frame.f_locals.update({k: v if isinstance(v, Unknown) else Gathered(n, g, v, self.repo) for k, v in new.items()})
            ctypes.pythonapi.PyFrame_LocalsToFast(ctypes.py_object(self.frame), ctypes.c_int(0))


class Unknown:
    """a list whose contents are not known"""

    def _no(self, *a, **k):
        raise Unsupported('use of a list a loop over a sequence of unknown length appended to')
    __iter__ = __len__ = __bool__ = __getitem__ = __setitem__ = __contains__ = __eq__ = __add__ = __radd__ = __getattr__ = __deepcopy__ = __copy__ = _no
    __hash__ = None


def leaves(loop):
    """can the body leave the loop early (other than by an exception)?"""
    todo = list(loop.body)
    inner = 0
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Return, ast.Break)):
            return True
        if isinstance(x, (ast.For, ast.While)):
            if any(isinstance(y, ast.Return) for y in ast.walk(x)):
                return True
            todo.extend(x.orelse)
            continue
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            todo.extend(ast.iter_child_nodes(x))
    return False


def mentions(e, g):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(g):
            return True
        todo.extend(x.children())
    return False


def parts(x):
    """the terms of a symbolic value"""
    return [v for v in (getattr(x, n) for k in type(x).__mro__ for n in getattr(k, '__slots__', ())) if z3.is_expr(v)] if isinstance(x, Sym) else [x]


def moved(x, g, t):
    """the number x, given for the element at g, at position t"""
    from .val import toV
    x = toV(x)
    return SVal(*[z3.substitute(v, (g, t)) if z3.is_expr(v) else v for v in (x.r, x.nan, x.pinf, x.ninf)])


class Visits(list):
    """positions at which a loop over n elements was verified"""

    def __init__(self, positions, n):
        super().__init__(positions)
        self.n = n


def whole_of(core, g, n):
    """the set of names divided among n elements, if core is the share of the element at g"""
    b = getattr(core, 'block', None)
    return b[0] if b is not None and (zi(b[2]).eq(zi(n)) or E().valid(zi(b[2]) == zi(n))) and (zi(b[1]).eq(zi(g)) or E().valid(zi(b[1]) == zi(g))) else None


def flatten(xs, fn):
    """the names in fn(x) for all x in xs, or None"""
    from .coll import SIndex
    from .shim import SNames
    e = E()
    g = xs.arbitrary()
    x = xs.at(g)
    mark = len(e.taken), e.assumed
    inner = fn(x)
    core = inner.core if isinstance(inner, SIndex) else inner.cores[0] if isinstance(inner, SNames) and len(inner.cores) == 1 else None
    whole = whole_of(core, g, xs.n) if core is not None else None
    if whole is None or (len(e.taken), e.assumed) != mark:
        raise Unsupported('comprehension over a sequence of unknown length')
    return SNames([whole])


class Many:
    """make(k, i): k-th element accessed, at position i"""

    def __init__(self, n, make, repo):
        self.n, self.make, self.repo, self.seen, self.made = n, make, repo, [], 0
        if isinstance(n, SInt):
            E().memo.setdefault('many_lengths', []).append((n, repo))

    def dv_len(self):
        return self.n

    def __bool__(self):
        return bool(self.n > 0)

    def at(self, i):
        if isinstance(i, int) and i < 0:
            i = self.n + i
        for j, o in self.seen:
            if bool(j == i):
                return o
        if not bool(SBool(z3.And(zi(i) >= 0, zi(i) < zi(self.n)))):
            raise IndexError('list index out of range')
        o = self.new(i)
        self.seen.append((i, o))
        return o

    def new(self, i):
        self.made += 1
        return self.make(self.made - 1, i)

    def __getitem__(self, i):
        if not isinstance(i, (int, SInt)):
            return part(self, i)
        return self.at(i)

    def arbitrary(self):
        e = E()
        k = e.memo['many'] = e.memo.get('many', 0) + 1
        g = z3.Int('any_%d' % k)
        e.fact(z3.And(g >= 0, g < zi(self.n)))
        return SInt(g)

    def _each(self, start):
        frame = sys._getframe(1)
        fn, loop = _loop(frame, self.repo)
        free = _roles(fn, loop, set(frame.f_locals))
        if self.n == 0:
            return
        sets = Collected(frame, loop)
        free = free | set(sets.names)
        give = lambda i: self.at(i) if start is None else (i + start, self.at(i))
        fail = E().memo.get('many_fail', False)
        early = leaves(loop) or fail
        if early and any(isinstance(x, ast.Try) and loop in ast.walk(x) for x in ast.walk(fn)):
            raise Unsupported('a loop over a sequence of unknown length inside of try is left early')
        if early and E().choose(2):
            yield from self._left_later(frame, loop, free, sets, give)
        left, visits = True, ()
        try:
            sets.blur()
            keep, before = _snapshot(frame, free)
            g = self.arbitrary()
            visits = Visits([g], self.n)
            E().memo.setdefault('many_loops', []).append(visits)
            first = give(g)
            lists = Appended(frame, loop, self.repo)
            yield first
            new = lists.take(lost=fail)
            keep2, after = _snapshot(frame, free)
            if new and (sets.changed() or after != before):
                raise Unsupported('a loop over a sequence of unknown length accumulates')
            if sets.changed() or after != before:   # the first element that changes something: the others must leave that alone
                sets.blur()
                h = self.arbitrary()
                visits.append(h)
                yield give(h)
                keep3, last = _snapshot(frame, free)
                for n in last:
                    if last[n] != after.get(n):
                        raise Unsupported('a loop over a sequence of unknown length accumulates %r' % n)
                if sets.changed():
                    raise Unsupported('a loop over a sequence of unknown length accumulates a set')
            elif sets.names:
                for k in self.observed():
                    if all(not bool(k == i) for i in visits):
                        sets.blur()
                        visits.append(k)
                        yield give(k)
                        keep3, last = _snapshot(frame, free)
                        if last != before or sets.changed():
                            raise PathEnd('this element changes something')     # the case of the first element that does
            sets.blur()
            lists.bind(new, self.n, g)
            left = False
        finally:
            if left and early and len(visits) == 1 and not sets.names:
                # left at the first element: nothing came before; leaving later is another case
                E().fact(zi(g) == 0)
                E().memo['many_loops'].remove(visits)
            elif left:
                E().memo['many_broken'] = True

    def _left_later(self, frame, loop, free, sets, give):
        """the loop is left at g > 0: an arbitrary earlier element was gone through before and has changed nothing (hence none of them has)"""
        e = E()
        if sets.names:
            raise Unsupported('a loop over a sequence of unknown length that collects a set is left early')
        keep, before = _snapshot(frame, free)
        h, g = self.arbitrary(), self.arbitrary()
        e.assume(zi(h) < zi(g))
        lists = Appended(frame, loop, self.repo)
        earlier = True
        try:
            yield give(h)
            earlier = False
        finally:
            if earlier:                 # left before: not this case
                e.memo['many_dead'] = True
        new = lists.take(lost=True)
        keep2, after = _snapshot(frame, free)
        if after != before:
            raise Unsupported('a loop over a sequence of unknown length changes something before it is left')
        lists.lose(new)
        e.memo.setdefault('many_left', []).append(h)
        yield give(g)
        raise PathEnd('not left')

    def observed(self):
        """positions under observation that are visited by a loop"""
        return [k for k in E().memo.get('many_observed', ()) if bool(SBool(z3.And(zi(k) >= 0, zi(k) < zi(self.n))))]

    def __iter__(self):
        return self._each(None)

    def dv_enumerate(self, start):
        return self._each(start)

    def __reversed__(self):
        raise Unsupported('reversed sequence of unknown length')

    def __contains__(self, x):
        raise Unsupported('membership in a sequence of unknown length')


class Gathered(Many):
    """list of one value per element of a sequence of unknown length; value: that of the arbitrary element at g. It can be gone through
    again for that element, if nothing is decided and nothing changes on the way"""

    def __init__(self, n, g, value, repo, known=()):
        self.n, self.g, self.value, self.repo, self.seen, self.known = n, g, value, repo, [], known

    def at(self, i):
        self.plain()
        if i is self.g or not isinstance(i, int) and E().valid(zi(i) == zi(self.g)):
            return self.value
        raise Unsupported('values gathered over a sequence of unknown length are looked at one by one')

    def plain(self):
        if self.known:
            raise Unsupported('values gathered over a sequence of which some elements are known')

    def arbitrary(self):
        self.plain()
        return self.g

    def _each(self, start):
        self.plain()
        e = E()
        mark = len(e.taken), e.assumed
        frame = sys._getframe(1)
        fn, loop = _loop(frame, self.repo)
        free = _roles(fn, loop, set(frame.f_locals))
        left = True
        try:
            sets = Collected(frame, loop)
            if sets.names:
                raise Unsupported('a loop over gathered values binds a set')
            keep, before = _snapshot(frame, free)
            e.memo.setdefault('many_loops', []).append(Visits([self.g], self.n))
            lists = Appended(frame, loop, self.repo)
            yield self.value if start is None else (self.g + start, self.value)
            new = lists.take()
            keep2, after = _snapshot(frame, free)
            if after != before or (len(e.taken), e.assumed) != mark:
                raise Unsupported('a loop over gathered values decides or changes something')
            lists.bind(new, self.n, self.g)
            left = False
        finally:
            if left:
                e.memo['many_broken'] = True

    def observed(self):
        return []

    def _no(self, *a):
        raise Unsupported('values gathered over a sequence of unknown length are looked at one by one')
    __len__ = append = extend = __add__ = _no

    def dv_concat(self):
        """the series of all shares of a partition as one"""
        from .coll import SSeries, Core, Order, Cell
        self.plain()
        v = self.value
        whole = whole_of(v.core, self.g, self.n) if isinstance(v, SSeries) else None
        if whole is None:
            raise Unsupported('concat of series gathered over a sequence of unknown length')
        f, g = v.cell.f, zi(self.g)

        def value(t):
            x = f(t)
            for part in parts(x):
                if z3.is_expr(part) and mentions(part, g):
                    raise Unsupported('values that depend on the position in a sequence of unknown length')
            return x
        return SSeries(Core(Order(tag='gathered'), whole.mem, False, 'gathered'), Cell(value))


    def dv_columns(self, keys):
        """the series side by side, as columns named by the keys in order"""
        from .coll import SSeries, SIndex, SMat
        from .val import ite, NAN
        v, e, g = self.value, E(), zi(self.g)
        if not isinstance(v, SSeries) or not isinstance(keys, SIndex) or keys.core.items is not None or keys.core.order is None:
            raise Unsupported('concat of series gathered over a sequence of unknown length')
        k = keys.core
        if not e.valid(zi(k.n()) == zi(self.n)):
            raise Unsupported('concat keys of another length')
        shares = [(zi(j), y.core, y.cell.f) for j, y in self.known]
        core, member = rows_of(v.core, g, [c for _, c, _ in shares])

        def value(row, col):
            t = k.pos(col)
            x = ite(moved_f(member, g, t, row), moved(v.cell.f(row), g, t), NAN)
            for j, c, h in shares:
                x = ite(t == j, ite(c.mem(row), h(row), NAN), x)
            return x
        return SMat(core, k, value)


def moved_f(member, g, t, row):
    m = member(row)
    return z3.substitute(m, (g, t)) if z3.is_expr(m) else m


def rows_of(core, g, others=()):
    """all names of series put side by side: those of the series of the arbitrary element at g and of the others"""
    from .coll import Core, Order
    e = E()
    r = e.const(Label, 'row')
    m = core.mem(r)
    if not (z3.is_expr(m) and mentions(m, g)) and all(e.valid(Iff_(c.mem(r), m)) for c in others):
        return Core(Order(tag='rows'), core.mem, False, 'rows'), lambda t: True
    k = e.memo['many_rows'] = e.memo.get('many_rows', 0) + 1
    f = z3.Function('rows_%d' % k, Label, z3.BoolSort())
    for c in [core, *others]:
        e.universal(Label, lambda t, c=c: Implies_(c.mem(t), f(t)))
    return Core(Order(tag='rows'), lambda t: f(t), False, 'rows'), core.mem


def gather(xs, fn, frame=None):
    """[fn(x) for x in xs], evaluated for one arbitrary element like the body of a loop that appends fn(x)"""
    frame = frame or sys._getframe(2)
    e = E()
    if isinstance(xs, Chosen):
        mark = len(e.taken), e.assumed
        keep, before = _snapshot(frame, set())
        r = xs.mapped(fn)
        keep2, after = _snapshot(frame, set())
        if after != before or (len(e.taken), e.assumed) != mark:
            raise Unsupported('a comprehension over a sequence of unknown length decides or changes something')
        return r
    g = xs.arbitrary()
    if not isinstance(xs, Gathered):
        e.memo.setdefault('many_loops', []).append(Visits([g], xs.n))
    keep, before = _snapshot(frame, set())
    # elements looked at before are evaluated as they are; the arbitrary one stands for all others
    seen = list(xs.seen) if type(xs) is Many else []
    x = xs.new(g) if seen else xs.at(g)
    mark = len(e.taken), e.assumed
    known = [(j, fn(o)) for j, o in seen]
    y = fn(x)
    keep2, after = _snapshot(frame, set())
    if after != before or (len(e.taken), e.assumed) != mark:
        raise Unsupported('a comprehension over a sequence of unknown length decides or changes something')
    return Gathered(xs.n, g, y, xs.repo, known)


class Outcomes:
    """outcomes of the decisions of a condition, as prescribed; those after them are yes"""

    def __init__(self, prefix):
        self.prefix, self.made = prefix, []

    def decide(self, x):
        k = len(self.made)
        v = self.prefix[k] if k < len(self.prefix) else True
        self.made.append((x, v))
        return v


def formula(cond, x):
    """the condition of x as one formula: all outcomes of the decisions it makes"""
    e = E()
    todo, cases = [[]], []
    while todo:
        o = Outcomes(todo.pop())
        e.outcomes = o
        try:
            c = cond(x)
            c = c.e if isinstance(c, SBool) else bool(c)
        except Unsupported:
            raise
        except Exception:
            e.outcomes = None
            if not e.valid(Not_(And_(*[d if v else Not_(d) for d, v in o.made]))):
                raise Unsupported('condition of a comprehension that raises')
            c = False                   # these outcomes are impossible
        finally:
            e.outcomes = None
        if len(o.made) > 6:
            raise Unsupported('condition of a comprehension with many cases')
        for k in range(len(o.prefix), len(o.made)):
            todo.append([v for _, v in o.made[:k]] + [False])
        cases.append(And_(c, *[d if v else Not_(d) for d, v in o.made]))
    return Or_(*cases)


class Choice:
    """the positions 0 .. n-1 at which c holds (given for g), in order: count of them, the k-th of them, and how many come before one"""

    def __init__(self, n, g, c):
        e = E()
        k = e.fresh('chosen')
        self.n, self.g, self.c = n, zi(g), c
        self.kth, self.before = z3.Function('kth_' + k, z3.IntSort(), z3.IntSort()), z3.Function('before_' + k, z3.IntSort(), z3.IntSort())
        m = e.const(z3.IntSort(), 'count_' + k)
        e.fact(z3.And(m >= 0, m <= zi(n)))
        self.count = SInt(m)
        self.rank(self.g)

    def at(self, p):
        return z3.substitute(self.c, (self.g, p)) if z3.is_expr(self.c) else self.c

    def place(self, k):
        """position of the k-th"""
        k = zi(k)
        p = self.kth(k)
        E().fact(Implies_(z3.And(k >= 0, k < zi(self.count)), And_(p >= 0, p < zi(self.n), self.at(p), self.before(p) == k)))
        return p

    def rank(self, p):
        """how many come before p, if it is one of them"""
        p = zi(p)
        k = self.before(p)
        E().fact(Implies_(And_(p >= 0, p < zi(self.n), self.at(p)), z3.And(k >= 0, k < zi(self.count), self.kth(k) == p)))
        return k


def choice(n, wanted):
    """the choice of the wanted positions: one made before with the same condition, or a new one"""
    e = E()
    p = e.const(z3.IntSort(), 'position')
    w = wanted(SInt(p))
    w = w.e if isinstance(w, SBool) else w
    for c in e.memo.get('choices', []):
        if e.valid(And_(zi(n) == zi(c.n), Implies_(z3.And(p >= 0, p < zi(n)), Iff_(w, c.at(p))))):
            return c
    e.approx = True
    c = Choice(n, p, w)
    e.memo.setdefault('choices', []).append(c)
    return c


class Chosen(Many):
    """fn(x) for those elements of a sequence of unknown length that meet a condition; value: that of the arbitrary element at g"""

    def __init__(self, chosen, g, value, repo):
        self.chosen, self.n, self.g, self.value, self.repo, self.seen = chosen, chosen.count, g, value, repo, []

    def mapped(self, fn):
        return Chosen(self.chosen, self.g, fn(self.value), self.repo)

    def _no(self, *a):
        raise Unsupported('elements chosen from a sequence of unknown length are looked at one by one')
    at = arbitrary = _each = observed = __len__ = append = extend = __add__ = __getitem__ = __iter__ = dv_enumerate = _no

    def dv_columns(self):
        """the series side by side, as columns numbered in order"""
        from .coll import SSeries, SMat, anon_core
        from .val import ite, NAN
        v, e, g = self.value, E(), zi(self.g)
        if not isinstance(v, SSeries):
            raise Unsupported('concat of what is chosen from a sequence of unknown length')
        if self.n == 0:
            raise ValueError('No objects to concatenate')
        f, k = v.cell.f, anon_core(self.n, 'chosen')
        core, member = rows_of(v.core, g)

        def value(row, col):
            t = self.chosen.place(k.pos(col))
            return ite(moved_f(member, g, t, row), moved(f(row), g, t), NAN)
        return SMat(core, k, value)


def select(xs, fn, cond):
    """[fn(x) for x in xs if cond(x)]"""
    frame = sys._getframe(2)
    e = E()
    if type(xs) not in (Many, Enumerated) or getattr(xs.base if type(xs) is Enumerated else xs, 'seen', None):
        raise Unsupported('filter over a sequence of unknown length')
    keep, before = _snapshot(frame, set())
    g = xs.arbitrary()
    x = xs.at(g)
    mark = len(e.taken), e.assumed
    c = formula(cond, x)
    if e.valid(c):
        c = True
    elif e.valid(Not_(c)):
        c = False
    y = fn(x) if c is not False else None
    keep2, after = _snapshot(frame, set())
    if after != before or (len(e.taken), e.assumed) != mark:
        raise Unsupported('a comprehension over a sequence of unknown length decides or changes something')
    if c is False:
        return []
    if c is True:
        e.memo.setdefault('many_loops', []).append(Visits([g], xs.n))
        return Gathered(xs.n, g, y, xs.repo)
    chosen = Choice(xs.n, g, c)
    e.memo.setdefault('choices', []).append(chosen)
    return Chosen(chosen, g, y, xs.repo)


class Record:
    """list of arbitrary earlier entries followed by known ones; entries are made when they are looked at"""

    def __init__(self, n, make, seen=None, tail=()):
        self.n, self.make, self.seen, self.tail = n, make, [] if seen is None else seen, list(tail)

    def copy(self):
        return Record(self.n, self.make, self.seen, self.tail)

    def dv_len(self):
        return self.n + len(self.tail)

    def __bool__(self):
        return bool(self.tail) or bool(self.n > 0)

    def append(self, x):
        self.tail.append(x)

    def extend(self, other):
        if not isinstance(other, (list, tuple)):
            raise Unsupported('a list of unknown length is extended')
        self.tail.extend(other)

    def __iadd__(self, other):
        self.extend(other)
        return self

    def __add__(self, other):
        if not isinstance(other, list):
            raise Unsupported('sum of a list of unknown length')
        return Record(self.n, self.make, self.seen, self.tail + other)

    def __getitem__(self, i):
        if not isinstance(i, (int, SInt)):
            raise Unsupported('slice of a list of unknown length')
        if isinstance(i, int) and i < 0:
            if -i <= len(self.tail):
                return self.tail[i]
            i = self.n + (i + len(self.tail))
        for k in range(len(self.tail)):
            if bool(self.n + k == i):
                return self.tail[k]
        if not bool(SBool(z3.And(zi(i) >= 0, zi(i) < zi(self.n)))):
            raise IndexError('list index out of range')
        for j, o, was in self.seen:
            if bool(j == i):
                return o
        o = self.make(i)
        self.seen.append((i, o, o.copy()))
        return o

    def _no(self, *a, **k):
        raise Unsupported('operation on a list of unknown length')
    __iter__ = __contains__ = __setitem__ = __delitem__ = __len__ = __eq__ = insert = pop = remove = clear = sort = reverse = index = count = _no
    __radd__ = __mul__ = __reversed__ = _no
    __hash__ = None

    def same(self, other, same):
        """same earlier entries with their first values, and pairwise the same known ones (terms of `same`)"""
        if isinstance(other, list):
            if len(other) != len(self.tail):
                if len(other) > len(self.tail) and bool(self.dv_len() == len(other)):
                    raise Unsupported('comparison of lists of unknown length')
                return [False]
            return [self.n == 0] + [same(x, y) for x, y in zip(self.tail, other)]
        if not isinstance(other, Record) or other.seen is not self.seen:
            raise Unsupported('comparison of lists of unknown length')
        if len(self.tail) != len(other.tail):
            return [False]
        return [same(o, was) for j, o, was in self.seen] + [same(x, y) for x, y in zip(self.tail, other.tail)]


class Zip(Many):
    """sequences of unknown length side by side; the others are given as (length, element at a position)"""

    def __init__(self, items):
        base = next(x for x in items if isinstance(x, Many))
        super().__init__(base.n, None, base.repo)
        for x in items:
            if not bool(SBool(zi(x.n if isinstance(x, Many) else x[0]) == zi(base.n))):
                raise Unsupported('zip of sequences of different unknown lengths')
        self.items = items

        if any(isinstance(x, Gathered) for x in items):
            raise Unsupported('zip of gathered values')

    def at(self, i):
        return tuple(x.at(i) if isinstance(x, Many) else x[1](i) for x in self.items)


class Enumerated(Many):
    """a sequence of unknown length with its positions"""

    def __init__(self, base, start):
        super().__init__(base.n, None, base.repo)
        self.base, self.start = base, start

    def at(self, i):
        return (i + self.start, self.base.at(i))

    def observed(self):
        return self.base.observed()

    def arbitrary(self):
        return self.base.arbitrary()

    def __iter__(self):
        return self.base.dv_enumerate(self.start)

    def dv_enumerate(self, start):
        raise Unsupported('enumeration of an enumeration')
    __getitem__ = __len__ = __bool__ = dv_len = lambda self, *a: self.dv_enumerate(0)


class Along(Many):
    """the names of an ordered index that is as long as a sequence of unknown length, one after the other"""

    def __init__(self, core, repo):
        from .coll import unlab
        super().__init__(core.n(), None, repo)
        self.at = lambda i: unlab(core.at(i))


def along(core):
    if core.items is None and core.order is not None:
        n = core.n()
        for m, repo in E().memo.get('many_lengths', ()):
            if n is m or E().valid(zi(n) == zi(m)):
                return Along(core, repo)
    return None


class Part(Many):
    """n neighbouring elements of a sequence from position a on"""

    def __init__(self, base, a, n):
        super().__init__(n, None, base.repo)
        self.base, self.a = base, a

    def observed(self):
        return [k - self.a for k in E().memo.get('many_observed', ()) if bool(SBool(z3.And(zi(k) >= zi(self.a), zi(k) < zi(self.a) + zi(self.n))))]

    def at(self, i):
        if isinstance(i, int) and i < 0:
            i = self.n + i
        if not bool(SBool(z3.And(zi(i) >= 0, zi(i) < zi(self.n)))):
            raise IndexError('list index out of range')
        return self.base.at(self.a + i)


def part(base, k):
    if not isinstance(k, slice) or k.step is not None:
        raise Unsupported('slice of a sequence of unknown length')
    a, b = [d if w is None else base.n + w if isinstance(w, int) and w < 0 else w for w, d in ((k.start, 0), (k.stop, base.n))]
    if not all(isinstance(w, (int, SInt)) for w in (a, b)) or not bool(SBool(z3.And(zi(a) >= 0, zi(a) <= zi(b), zi(b) <= zi(base.n)))):
        raise Unsupported('slice of a sequence of unknown length')
    return Part(base, a, b - a)


class Positions:
    """range over positions of a sequence of unknown length; a `for` statement over it is verified as one over the sequence"""
    _each = Many._each

    def __init__(self, n, repo, first=0):
        self.n, self.repo, self.first = n, repo, first

    arbitrary = Many.arbitrary

    def at(self, i):
        return i + self.first if not (isinstance(self.first, int) and self.first == 0) else i

    def observed(self):
        return [k - self.first for k in E().memo.get('many_observed', ()) if bool(SBool(z3.And(zi(k) >= zi(self.first), zi(k) < zi(self.first) + zi(self.n))))]

    def __iter__(self):
        return self._each(None)

    def dv_enumerate(self, start):
        return self._each(start)

    def dv_len(self):
        return self.n

    def __reversed__(self):
        raise Unsupported('reversed positions of a sequence of unknown length')

    def __contains__(self, x):
        raise Unsupported('membership in positions of a sequence of unknown length')


def positions(a):
    """range(*a), if this is the range of the positions of a sequence of unknown length"""
    for n, repo in E().memo.get('many_lengths', ()):
        if (len(a) == 1 or len(a) == 2 and isinstance(a[0], int) and a[0] == 0) and isinstance(a[-1], SInt) and a[-1].e.eq(n.e):
            return Positions(n, repo)
    lengths = E().memo.get('many_lengths', ())
    if lengths and len(a) < 3 and all(isinstance(x, (int, SInt)) for x in a) and E().memo.get('many_focus') is not None:
        lo, hi = (0, a[0]) if len(a) == 1 else a
        if bool(SBool(zi(hi) <= zi(lo))):
            return range(0)
        return Positions(hi - lo, lengths[0][1], lo)
    return None


def check():
    if E().memo.get('many_dead'):
        raise PathEnd('left at another element')
    if E().memo.get('many_broken'):
        raise Unsupported('a loop over a sequence of unknown length was left')
