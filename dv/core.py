"""Path exploration, ground quantifier instantiation and obligations (z3).

The verifier executes the real functions of /repo with symbolic operands (dv.sym, dv.shim).  Every truth
test on a symbolic value calls `decide`, which forks the execution.  Universal facts (`universal`) are
instantiated on every ground term of their sort, existential ones are skolemised, so that all queries are
quantifier free; an `unsat` answer is a proof whatever the instantiation, a `sat` answer is a candidate
countermodel which the driver replays on the real code.
"""
import time
import z3


class Unsupported(BaseException):
    """The code uses something the verifier has no model for."""


class PathEnd(BaseException):
    """The current path is infeasible or deliberately cut."""


class Undecided(BaseException):
    """Resource limit."""


z3.set_param('smt.random_seed', 0)
z3.z3.Z3_DEBUG = False
Label = z3.DeclareSort('Label')
ENGINE = None


def eng():
    return ENGINE


def label_eq(t, u):
    """t == u; different names of the program are different labels"""
    i, j = t.get_id(), u.get_id()
    if i == j:
        return True
    ids = ENGINE.const_ids
    if i in ids and j in ids:
        return False
    return t == u


class Obligation:
    __slots__ = ('name', 'status', 'paths', 'model', 'detail', 'approx')

    def __init__(self, name):
        self.name = name
        self.status = 'discharged'
        self.paths = 0
        self.model = None
        self.detail = ''
        self.approx = False


class Engine:
    def __init__(self, query_timeout=8.0, budget=120.0, max_paths=6000, max_depth=400, second=None):
        self.query_timeout = query_timeout
        self.deadline = time.time() + budget
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.obls = {}
        self.order = []
        self.stats = dict(paths=0, queries=0, solver_s=0.0, infeasible=0, second_checked=0, second_agree=0)
        self.aux_failed = []
        self.covered = set()
        self.undecided = []
        self.second = second
        self.assumption_log = {}

    # -------------------------------------------------------------- per path
    def reset(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.outcomes = None             # prescribed outcomes, while a condition is turned into a formula
        self.solver = z3.SolverFor('QF_UFLIRA') if False else z3.Solver()
        self.solver.set('timeout', int(self.query_timeout * 1000))
        self.terms = {}
        self.term_keys = {}
        self.univ = {}
        self.consts = {}
        self.const_ids = set()
        self.counters = {}
        self.inputs = {}
        self.hyps = []
        self.memo = {}
        self.depth = 0
        self.path_note = []
        self.approx = False
        self.log = []
        self.concrete_hints = []
        self.inst_depth = 0
        self.open_query = False
        self.assumed = 0

    def fresh(self, base):
        n = self.counters.get(base, 0)
        self.counters[base] = n + 1
        return '%s!%d' % (base, n)

    def const(self, sort, base):
        name = self.fresh(base)
        c = z3.Const(name, sort)
        return c

    # -------------------------------------------------------------- ground terms / universals
    def ground(self, t):
        """register a ground term so that universal facts are instantiated on it"""
        s = t.sort().name()
        keys = self.term_keys.setdefault(s, set())
        k = t.get_id()
        if k in keys:
            return t
        keys.add(k)
        lst = self.terms.setdefault(s, [])
        if len(lst) > 260:
            raise Undecided('too many ground terms')
        lst.append(t)
        for fn in list(self.univ.get(s, ())):
            self._inst(fn, t)
        return t

    def _inst(self, fn, t):
        self.inst_depth += 1
        try:
            if self.inst_depth > 12:
                self.approx = True
                return
            f = fn(t)
            if f is True:
                return
            if f is False:
                f = z3.BoolVal(False)
            self.solver.add(f)
        finally:
            self.inst_depth -= 1

    def universal(self, sort, fn):
        self.univ.setdefault(sort.name(), []).append(fn)
        for t in list(self.terms.get(sort.name(), ())):
            self._inst(fn, t)

    def fact(self, e):
        """add a fact that follows from the theory (definition of a fresh symbol, axiom of an operation)"""
        if e is True:
            return
        if e is False:
            e = z3.BoolVal(False)
        self.solver.add(e)

    def label_const(self, name):
        if name not in self.consts:
            c = z3.Const('L_' + name, Label)
            for other in self.consts.values():
                self.solver.add(c != other)
            self.consts[name] = c
            self.const_ids.add(c.get_id())
            self.ground(c)
        return self.consts[name]

    # -------------------------------------------------------------- queries
    def _check(self, *extra):
        if time.time() > self.deadline:
            raise Undecided('time budget exhausted')
        t = time.time()
        self.stats['queries'] += 1
        r = self.solver.check(*extra)
        self.stats['solver_s'] += time.time() - t
        return str(r)

    def _feasible(self, e):
        """may e hold? (an open answer counts as yes; once one was open on this path the next ones get less time)"""
        if self.open_query:
            self.solver.set('timeout', int(self.query_timeout * 250))
        r = self._check(e)
        if self.open_query:
            self.solver.set('timeout', int(self.query_timeout * 1000))
        if r == 'unknown':
            self.open_query = True
        return r != 'unsat'

    def valid(self, e):
        """is e implied by the path? (True only on a proof)"""
        if e is True or e is False:
            return e
        return self._check(z3.Not(e)) == 'unsat'

    def assume(self, e):
        if e is True:
            return
        if e is False:
            raise PathEnd()
        self.assumed += 1
        self.solver.add(e)
        if self._check() == 'unsat':
            self.stats['infeasible'] += 1
            raise PathEnd()

    def decide(self, e):
        if e is True or e is False:
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.outcomes is not None:
            return self.outcomes.decide(e)
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.taken.append(v)
            self.solver.add(e if v else z3.Not(e))
            return v
        if i > self.max_depth:
            raise Undecided('path too deep')
        t = self._feasible(e)
        f = self._feasible(z3.Not(e))
        if not t and not f:
            self.stats['infeasible'] += 1
            raise PathEnd()
        if t and f:
            self.worklist.append(self.taken + [False])
            v = True
        else:
            v = t
        self.taken.append(v)
        self.solver.add(e if v else z3.Not(e))
        return v

    def choose(self, n, label='choice'):
        """non-deterministic choice among n alternatives (no solver involved)"""
        for k in range(n - 1):
            i = len(self.taken)
            if i < len(self.prefix):
                v = self.prefix[i]
            else:
                self.worklist.append(self.taken + [False])
                v = True
            self.taken.append(v)
            if v:
                return k
        return n - 1

    # -------------------------------------------------------------- obligations
    def oblige(self, name, e, concretise=None, aux=False):
        o = self.obls.get(name)
        if o is None:
            o = self.obls[name] = Obligation(name)
            self.order.append(name)
        o.paths += 1
        self.covered.add(name)
        if o.status == 'refuted':
            return False
        if e is True:
            return True
        if e is False:
            e = z3.BoolVal(False)
        neg = z3.Not(e)
        r = self._check(neg)
        cand = None
        pushed = False
        if r == 'sat' and 'nl' in self.memo:
            from .nl import definitions
            defs = definitions()
            if defs:
                cand = self.solver.model()
                self.solver.push()
                pushed = True
                self.solver.add(*defs)
                self.stats['nonlinear'] = self.stats.get('nonlinear', 0) + 1
                r = self._check(neg)
        try:
            return self._settle(o, neg, r, cand, concretise, aux)
        finally:
            if pushed:
                self.solver.pop()

    def _settle(self, o, neg, r, cand, concretise, aux):
        if r == 'unsat':
            if self.second is not None:
                ok = self.second(self.solver, neg)
                self.stats['second_checked'] += 1
                if ok == 'unsat':
                    self.stats['second_agree'] += 1
                elif ok == 'sat':
                    o.status = 'unknown'
                    o.detail = 'back ends disagree'
                    return False
            return True
        if r == 'sat':
            if aux:
                o.status = 'aux-refuted' if o.status == 'discharged' else o.status
                return False
            o.status = 'refuted'
            o.approx = self.approx
            try:
                o.model = concretise(self.solver.model()) if concretise else None
            except Unsupported as err:
                o.detail = 'countermodel not concretisable: %s' % err
            except Exception as err:
                o.detail = 'countermodel not concretisable: %r' % err
            return False
        if o.status == 'discharged':
            o.status = 'unknown'
            o.detail = self.solver.reason_unknown()
            if cand is not None and concretise and o.model is None:
                try:
                    o.model = concretise(cand)
                except (Unsupported, Exception):
                    pass
        return False

    # -------------------------------------------------------------- exploration
    def explore(self, fn, prefixes=((),), slice_s=1e9):
        """explore the paths below the given decision prefixes for about `slice_s`; returns the prefixes left"""
        global ENGINE
        old, ENGINE = ENGINE, self
        self.worklist = [list(p) for p in prefixes]
        t0 = time.time()
        try:
            while self.worklist:
                if self.stats['paths'] and time.time() - t0 > slice_s:
                    return self.worklist
                prefix = self.worklist.pop()
                if self.stats['paths'] >= self.max_paths:
                    self.undecided.append('path limit')
                    break
                if time.time() > self.deadline:
                    self.undecided.append('time budget')
                    break
                self.reset(prefix)
                self.stats['paths'] += 1
                try:
                    fn()
                except PathEnd:
                    pass
                except Undecided as err:
                    self.undecided.append(str(err))
                    if time.time() > self.deadline:
                        break
                except Unsupported as err:
                    self.undecided.append('unsupported: %s' % err)
                    if len(self.undecided) > 8:
                        break
                except z3.Z3Exception as err:
                    self.undecided.append('z3: %s' % str(err)[:200])
                    if len(self.undecided) > 8:
                        break
            return []
        finally:
            ENGINE = old
