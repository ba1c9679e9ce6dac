"""A stored object and its original behave alike.

The object is brought into an arbitrary state (arbitrary constructor arguments, then an operation), written to a file and
loaded; its collaborators are reserved objects, replaced by twins that give the same answers. Both objects then go through
the same operations and must give the same results, ask their collaborators the same questions and end in the same state."""
from dv.base import contract
from .common import *
from .c17 import setup, same_value, leaf


class Oracle:
    """the same answer to the n-th question of its kind, whoever asks"""
    def __init__(self, c):
        self.c, self.memo = c, {}

    def side(self):
        return Side(self)


class Side:
    def __init__(self, oracle):
        self.o, self.n, self.log, self.state = oracle, {}, [], {}

    def ask(self, key, make):
        k = self.n.get(key, 0)
        self.n[key] = k + 1
        m = self.o.memo
        if (key, k) not in m:
            m[key, k] = make()
        return self.o.c.snap(m[key, k])

    def tell(self, *what):
        self.log.append(tuple(self.o.c.snap(x) for x in what))


def near(a, b):
    """equal up to rounding: the memory layout of an array decides the order in which the linear algebra adds"""
    import numpy as np
    for l in ('index', 'columns'):
        if list(getattr(a, l, ())) != list(getattr(b, l, ())):
            return False
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape or x.dtype != y.dtype:
        return False
    if x.dtype.kind != 'f':
        return bool(np.all(x == y))
    return bool(np.allclose(x, y, rtol=1e-6, atol=1e-9, equal_nan=True))


class Twins:
    """stubs of both sides"""
    rounding = False

    def __init__(self, c):
        setup(c)
        self.c, self.o = c, Oracle(c)
        self.a, self.b = self.o.side(), self.o.side()
        self.pairs, self.now = [], self.a

    def make(self, fn):
        x, y = fn(self.a), fn(self.b)
        self.pairs.append((x, y))
        return x

    def sync(self):
        """the collaborators of the copy take over the state of the original ones"""
        self.b.n.update(self.a.n)
        self.b.state = {k: self.c.snap(v) for k, v in self.a.state.items()}
        del self.a.log[:]

    def reload(self, obj):
        c, f = self.c, self.c.h5file()
        c.run(c.q.storage.to_hdf5, f, 'entry', obj, reserved={'reserved%d' % i: x for i, (x, _) in enumerate(self.pairs)})
        r = c.run(c.q.storage.from_hdf5, f, {'reserved%d' % i: y for i, (_, y) in enumerate(self.pairs)})
        c.ensure('under its name', isinstance(r, dict) and 'entry' in r)
        return r['entry']

    def logs(self):
        c = self.c
        la, lb = self.a.log, self.b.log
        c.ensure('the same questions to the collaborators', len(la) == len(lb) and c.And(*[
            self.alike(x, y) for x, y in zip(la, lb)]))
        del la[:], lb[:]

    def alike(self, a, b, pairs=None):
        c = self.c
        for x, y in self.pairs if pairs is None else pairs:
            if a is x or b is y:
                return a is x and b is y
        if callable(a):
            return a is b
        if hasattr(type(a), 'to_hdf5'):
            return type(a) is type(b) and self.alike(c.run(a.to_hdf5), c.run(b.to_hdf5), pairs)
        k = c.kind(a)
        if {'SNames', 'SIndex', 'Index'} & {k, c.kind(b)}:
            return c.index_order_same(c.index_of(a), c.index_of(b))
        if k in ('set', 'SSet'):
            return c.kind(b) == k and c.set_same(a, lambda n: c.has(b, n))
        if k in ('list', 'tuple', 'dict'):
            if c.kind(b) != k or len(a) != len(b) or k == 'dict' and sorted(a) != sorted(b):
                return False
            if k == 'dict':
                a, b = [a[i] for i in sorted(a)], [b[i] for i in sorted(b)]
            return c.And(*[self.alike(x, y, pairs) for x, y in zip(a, b)])
        if self.rounding and k in ('number', 'series', 'table', 'array') and c.kind(b) == k and not c.symbolic:
            return near(a, b)
        return same_value(c, a, b)

    def restored(self, obj):
        """the object loaded from a file that obj was stored in"""
        c = self.c
        new = self.reload(obj)
        c.ensure('an object of its class', type(new) is type(obj))
        c.ensure('with the same stored state', self.alike(obj, new))
        d = c.run(lambda: type(obj)(**obj.to_hdf5()))
        c.ensure('the stored arguments rebuild it', self.alike(obj, d, [(x, x) for x, _ in self.pairs]))
        self.logs()
        return new

    def both(self, what, x, y, fn, args):
        """the same operation on both"""
        c = self.c
        self.now = self.a
        r = c.call(fn, x, *[c.snap(v) for v in args])
        self.now = self.b
        s = c.call(fn, y, *[c.snap(v) for v in args])
        if r.raised or s.raised:
            c.ensure(what + ': refused alike', r.raised and s.raised and r.why == s.why)
            return
        c.ensure(what + ': the same result', self.alike(r.value, s.value))
        self.logs()
        c.ensure(what + ': the same state', self.alike(x, y))


def deterministic(c, T, module, name, answer):
    """contract of a function as far as needed here: the same arguments give the same result"""
    if not c.symbolic or name not in vars(module):
        return

    def fn(*a, **k):
        T.now.tell(name, a, k)
        return T.now.ask(name, answer)
    c.patch(module, name, fn)


def solver_stub(c, T, gates, target, name='solver'):
    position = c.series(name + '_position', gates)

    def mk(side):
        side.state[name] = c.snap(position)
        tab = target.copy()

        def suggest(self, tuned_parameters=None):
            side.tell('suggest', tuned_parameters)
            return side.ask(name + 'suggest', lambda: c.series('suggestion', gates))

        def setpos(self, v):
            side.tell('position', v)
            side.state[name] = c.make_series(gates, lambda g: c.ite(c.has(v, g), c.at(v, g), c.at(position, g)))
        return c.make(c.q.solver.Solver, suggest_next_position=suggest, target=property(lambda self: tab),
                      update_after_step=lambda self, p, v, w: side.tell('update', p, v, w), restart=lambda self, v: side.tell('restart', v),
                      current_position=property(lambda self: side.state[name], setpos), to_hdf5=lambda self: {})
    return T.make(mk)


def evaluator_stub(c, T, params, name):
    def mk(side):
        def evaluate(self):
            side.tell('evaluate', name)
            return side.ask(name, lambda: (c.series('values', params, nan=True), c.series('variances', params, nan=True)))
        return c.make(c.q.evaluator.Evaluator, evaluate=evaluate, parameters=property(lambda self: c.names_tuple(params)),
                      name=property(lambda self: 'evaluator'), to_hdf5=lambda self: {})
    return T.make(mk)


def tuner_ops(c, gates):
    k = c.choice('operation', 3)
    if k == 0:
        return 'evaluation', lambda t, v: t.is_tuned(v), [c.series('voltages', gates)]
    if k == 1:
        return 'proposal', lambda t, p: t.get_next_voltages(tuned_parameters=p), [c.as_set(c.names('tuned_parameters'))]
    return 'restart', lambda t, v: t.restart(v), [c.series('voltages', gates)]


def history(c, name, gates, n):
    return [c.series('%s%d' % (name, i), gates) for i in range(n)]


@contract('C18', ['SubsetTuner.to_hdf5', 'SubsetTuner.__init__', 'ParameterTuner.to_hdf5', 'ParameterTuner.__init__', 'SubsetTuner.is_tuned',
                  'SubsetTuner.get_next_voltages', 'SubsetTuner.restart', 'to_hdf5', 'from_hdf5'], kind='bounded', budget=900,
          note='an operation before the object is stored and one afterwards; at most two tunable gates and one recorded voltage')
def subset_tuner(c):
    T = Twins(c)
    tun = c.names('tunable', size=1 + c.choice('tunable_gates', 2))
    gates = c.super_names('gates', tun)
    params = c.names('params')
    target = target_frame(c, 'target', params, full=True)
    sol = solver_stub(c, T, tun, target)
    ev = evaluator_stub(c, T, params, 'values')
    m = c.choice('recorded_voltages', 2)
    t = c.run(c.q.parameter_tuner.SubsetTuner, evaluators=[ev], gates=list(tun), maximal_step_size=c.real('maximal_step_size', nan=True, positive=True),
              maximal_step_number=c.int('maximal_step_number', lo=1), number_queued_steps=c.int('queued_steps', lo=0), solver=sol,
              tuned_voltages=history(c, 'tuned', gates, m), last_voltage=c.series('last_voltage', gates), last_parameter_values=c.series('last_values', params, nan=True),
              last_parameters_variances=c.series('last_variances', params, nan=True), last_evaluation_failed=c.flag('failed'),
              evaluatable_voltages=history(c, 'evaluatable', gates, m))
    if c.choice('before', 2):
        _, f, a = tuner_ops(c, gates)
        if c.call(f, t, *a).raised:
            return
        T.sync()
    new = T.restored(t)
    T.both(*tuner_both(c, t, new, gates))


def tuner_both(c, t, new, gates):
    n, f, a = tuner_ops(c, gates)
    return n, t, new, f, a


@contract('C18', ['SensingDotTuner.to_hdf5', 'SensingDotTuner.__init__', 'ParameterTuner.__init__', 'SensingDotTuner.is_tuned',
                  'SensingDotTuner.get_next_voltages', 'ParameterTuner.restart', 'to_hdf5', 'from_hdf5'], kind='bounded', budget=900,
          note='an operation before the object is stored and one afterwards; at most two tunable gates and one recorded voltage')
def sensing_dot_tuner(c):
    T = Twins(c)
    tun = c.names('tunable', size=1 + c.choice('tunable_gates', 2))
    gates = c.super_names('gates', tun)
    params = c.names('params')
    xparams = c.names('expensive_params')
    target = target_frame(c, 'target', params, full=True)
    sol = solver_stub(c, T, tun, target)
    ev = [evaluator_stub(c, T, params, 'cheap')]
    xev = [evaluator_stub(c, T, xparams, 'expensive')]
    allp = c.union_of(params, xparams)
    m = c.choice('recorded_voltages', 2)
    t = c.run(c.q.parameter_tuner.SensingDotTuner, cheap_evaluators=ev, expensive_evaluators=xev, gates=list(tun), solver=sol,
              cheap_evaluation_only=c.flag('cheap_evaluation_only'),
              tuned_voltages=history(c, 'tuned', gates, m), last_voltage=c.series('last_voltage', gates), last_parameter_values=c.series('last_values', allp, nan=True),
              last_parameters_variances=c.series('last_variances', allp, nan=True), last_evaluation_failed=c.flag('failed'),
              evaluatable_voltages=history(c, 'evaluatable', gates, m))
    if c.choice('before', 2):
        _, f, a = tuner_ops(c, gates)
        if c.call(f, t, *a).raised:
            return
        T.sync()
    new = T.restored(t)
    c.ensure('the same choice of evaluation', c.Iff(c.is_true(t.cheap_evaluation_only), c.is_true(new.cheap_evaluation_only == True)))
    T.both(*tuner_both(c, t, new, gates))


def estimator_stub(c, T, gates, name):
    """estimator over its gates; it may request a measurement"""
    pos = c.series(name + '_position', gates)

    def mk(side):
        def require_measurement(self, gates=None, tuned_jacobian=None):
            side.tell('require', name, gates)
            return side.ask(name + 'require', lambda: c.series('requested', c.subnames('requested_gates', pos.index)) if c.fork('requests') else None)
        return c.make(c.q.gradient.GradientEstimator, estimate=lambda self: side.ask(name + 'estimate', lambda: c.series('gradient', pos.index)),
                      require_measurement=require_measurement, restart=lambda self, v: side.tell('restart', name, v),
                      update=lambda self, p, v, w, is_new_position=False: side.tell('update', name, p, v, w, is_new_position),
                      current_position=property(lambda self: c.snap(pos)), to_hdf5=lambda self: {})
    return T.make(mk)


def solver_ops(c, gates, params, extra=True):
    k = c.choice('operation', 3)
    g = c.super_names('measured_gates', gates) if extra else gates
    if k == 0:
        return 'update', lambda s, p, v, w: s.update_after_step(p, v, w), [c.series('measured', g), c.series('values', params), c.series('variances', params)]
    if k == 1:
        return 'suggestion', lambda s, p: s.suggest_next_position(tuned_parameters=p), [c.as_set(c.subnames('tuned_parameters', params))]
    return 'restart', lambda s, p: s.restart(p), [c.series('new_position', g)]


def solver_life(c, T, s, gates, params, before=1, after=1):
    for _ in range(c.choice('before', before + 1)):
        _, f, a = solver_ops(c, gates, params)
        if c.call(f, s, *a).raised:
            return
    T.sync()
    new = T.restored(s)
    for _ in range(after):
        n, f, a = solver_ops(c, gates, params)
        T.both(n, s, new, f, a)


@contract('C18', ['NewtonSolver.to_hdf5', 'NewtonSolver.__init__', 'NewtonSolver.update_after_step', 'NewtonSolver.suggest_next_position',
                  'NewtonSolver.restart', 'to_hdf5', 'from_hdf5'], kind='bounded', budget=900,
          note='up to two parameters; an operation before the object is stored and one afterwards')
def newton_solver(c):
    T = Twins(c)
    n = 1 + c.choice('number_of_parameters', 2)
    params = c.names('params', size=n)
    gates = c.names('gates', nonempty=True)
    c.assume(c.size(gates) >= n)
    target = target_frame(c, 'target', params)
    ests = [estimator_stub(c, T, gates, 'estimator%d' % k) for k in range(n)]
    s = c.run(c.q.solver.NewtonSolver, target, ests, c.series('position', gates), c.series('current_values', params) if c.fork('values_given') else None)
    solver_life(c, T, s, gates, params)


@contract('C18', ['ForwardingSolver.to_hdf5', 'ForwardingSolver.__init__', 'ForwardingSolver.update_after_step', 'ForwardingSolver.suggest_next_position',
                  'Solver.restart', 'to_hdf5', 'from_hdf5'], kind='bounded', budget=200,
          note='up to two mapped parameters; an operation before the object is stored and one afterwards')
def forwarding_solver(c):
    T = Twins(c)
    gates = c.names('gates', nonempty=True)
    params = c.names('params')
    k = 1 + c.choice('mapped_params', 2)
    mp = c.names('mapped', size=k)
    target = target_frame(c, 'target', params)
    mapping = c.name_series('mapping', mp)
    c.assume(c.all(mp, lambda p: c.has(gates, c.at(mapping, p))))
    if k == 2:
        c.assume(c.Not(c.eq(c.at(mapping, mp[0]), c.at(mapping, mp[1]))))
    s = c.run(c.q.solver.ForwardingSolver, target, mapping, c.series('position', gates), c.series('next_position', gates) if c.fork('next_position_given') else None)
    solver_life(c, T, s, gates, params)


@contract('C18', ['NelderMeadSolver.to_hdf5', 'NelderMeadSolver.__init__', 'NelderMeadSolver.update_after_step', 'NelderMeadSolver.suggest_next_position',
                  'Solver.restart', 'to_hdf5', 'from_hdf5'], kind='bounded', budget=300,
          note='up to two gates; the cost is the entry of an arbitrary parameter; an operation before the object is stored and one afterwards')
def nelder_mead_solver(c):
    T = Twins(c)
    n = 1 + c.choice('dimension', 2)
    gates = c.names('gates', size=n)
    params = c.names('params', nonempty=True)
    p0 = c.pick('costly', params)
    target = target_frame(c, 'target', params, full=True)
    cost = lambda v: c.at(v, p0)
    deterministic(c, T, c.q.solver, 'get_orthogonal_vector', lambda: c.vector('orthogonal', gates))
    T.pairs.append((cost, cost))
    phase = ['built_up', 'start_iteration', 'reflect', 'expand', 'contract_outside', 'contract_inside', 'shrink'][c.choice('phase', 7)]
    pt = lambda name: (c.series(name + '_position', gates), c.series(name + '_values', params))
    simplex = [pt('vertex%d' % i) for i in range(n + 1 if phase != 'built_up' else 1 + c.choice('vertices', n))]
    refl = pt('reflected') if phase in ('expand', 'contract_outside', 'contract_inside', 'shrink') else None
    shrunk = [pt('shrunk%d' % i) for i in range(c.choice('number_shrunk', n))] if phase == 'shrink' else []
    s = c.run(c.q.solver.NelderMeadSolver, target=target, simplex=simplex, span=c.series('span', gates), current_position=c.series('position', gates),
              current_values=c.series('current_values', params), reflected_point=refl, shrunk_points=shrunk, cost_function=cost, state=phase)
    solver_life(c, T, s, gates, params)


@contract('C18', ['ParameterTuner.target', 'Solver.target', 'SubsetTuner.to_hdf5', 'SubsetTuner.__init__', 'ParameterTuner.to_hdf5', 'ParameterTuner.__init__',
                  'to_hdf5', 'from_hdf5'], kind='bounded', budget=200,
          note='the targets are changed before the object is stored; an operation follows')
def retargeted_tuner(c):
    T = Twins(c)
    gates = c.names('gates', size=1 + c.choice('number_of_gates', 2))
    params = c.names('params')
    target = target_frame(c, 'target', params)
    ev = evaluator_stub(c, T, params, 'values')
    mp = c.names('mapped', size=1)
    mapping = c.name_series('mapping', mp)
    c.assume(c.all(mp, lambda p: c.has(gates, c.at(mapping, p))))
    sol = c.run(c.q.solver.ForwardingSolver, target, mapping, c.series('position', gates))
    t = c.run(c.q.parameter_tuner.SubsetTuner, evaluators=[ev], gates=list(gates), solver=sol, last_voltage=c.series('last_voltage', gates))
    cat = ['desired', 'tolerance'][c.choice('category', 2)]

    def change(t, v):
        t.target = {cat: v}
    c.run(change, t, c.series('new_target', c.subnames('changed', params), nan=True))
    new = T.restored(t)
    T.both('evaluation', t, new, lambda t, v: t.is_tuned(v), [c.series('voltages', gates)])


def estimator_ops(c, gates):
    k = c.choice('operation', 3)
    if k == 0:
        g = c.super_names('measured_gates', gates)
        new = c.flag('new_position')
        return 'update', lambda e, p, v, w: e.update(p, v, w, is_new_position=new), [c.series('measured', g), c.real('value'), c.real('variance', positive=True)]
    if k == 1:
        return 'request', lambda e: e.require_measurement(), []
    return 'restart', lambda e, p: e.restart(p), [c.series('new_position', c.super_names('new_gates', gates))]


def estimator_life(c, T, e, gates):
    if c.choice('before', 2):
        _, f, a = estimator_ops(c, gates)
        if c.call(f, e, *a).raised:
            return
        T.sync()
    new = T.restored(e)
    c.ensure('the same position', T.alike(e.current_position, new.current_position))
    c.ensure('the same gradient', T.alike(e.estimate(), new.estimate()))
    c.ensure('the same covariance', T.alike(e.covariance(), new.covariance()))
    n, f, a = estimator_ops(c, gates)
    T.both(n, e, new, f, a)
    c.ensure('afterwards the same gradient', T.alike(e.estimate(), new.estimate()))


@contract('C18', ['FiniteDifferencesGradientEstimator.to_hdf5', 'FiniteDifferencesGradientEstimator.__init__', 'FiniteDifferencesGradientEstimator.update',
                  'FiniteDifferencesGradientEstimator.require_measurement', 'GradientEstimator.restart', 'to_hdf5', 'from_hdf5'], kind='bounded', budget=200,
          note='up to two gates; an operation before the object is stored and one afterwards')
def finite_differences(c):
    T = Twins(c)
    n = 1 + c.choice('dimension', 2)
    gates = c.names('gates', size=n)
    deterministic(c, T, c.q.gradient, 'get_orthogonal_vector', lambda: c.vector('orthogonal', gates))
    deterministic(c, T, c.q.gradient, 'calculate_gradient_non_orthogonal', lambda: (c.flat_array(c.series('gradient', gates)), c.mat_array(c.matrix('covariance', gates, gates))))
    sym = c.fork('symmetric')
    known = c.fork('known')
    m = c.choice('stored', (2 * n if sym else n + 1)) if not known else 0
    points = [(c.series('point%d' % i, gates), c.real('point_value%d' % i), c.real('point_variance%d' % i, positive=True)) for i in range(m)]
    requested = [c.series('requested%d' % i, gates) for i in range(c.choice('number_requested', 2))]
    e = c.run(c.q.gradient.FiniteDifferencesGradientEstimator, current_position=c.series('position', gates), epsilon=c.series('epsilon', c.permuted('epsilon_order', gates)),
              symmetric=sym, current_estimate=c.series('estimate', gates) if known else None, covariance=c.matrix('known_covariance', gates, gates) if known else None,
              stored_measurements=points, requested_measurements=requested)
    estimator_life(c, T, e, gates)


def filter_twins(c, T, gates):
    g0, P0 = c.series('filter_gradient', gates), c.sym_matrix('filter_covariance', gates)

    def mk(side):
        side.state['filter'] = (g0, P0)

        def update(self, diff_position, diff_values, measurement_covariance=None, process_covariance=None, predict=True):
            side.tell('filter', diff_position, diff_values, measurement_covariance, process_covariance, predict)
            side.state['filter'] = side.ask('filtered', lambda: (c.series('filter_gradient', gates), c.sym_matrix('filter_covariance', gates)))
        return c.make(c.q.kalman_gradient.KalmanGradient, update=update, grad=property(lambda self: c.row_array(side.state['filter'][0])),
                      cov=property(lambda self: c.mat_array(side.state['filter'][1])), to_hdf5=lambda self: {})
    return T.make(mk)


@contract('C18', ['KalmanGradientEstimator.to_hdf5', 'KalmanGradientEstimator.__init__', 'KalmanGradientEstimator.update',
                  'KalmanGradientEstimator.require_measurement', 'KalmanGradientEstimator.restart', 'to_hdf5', 'from_hdf5'], kind='bounded', budget=200,
          note='an operation before the object is stored and one afterwards; the filter is replaced by its contract')
def kalman_estimator(c):
    T = Twins(c)
    gates = c.names('gates', size=1 + c.choice('dimension', 2))
    f = filter_twins(c, T, gates)
    limit = c.series('limit', c.permuted('limit_order', gates))
    c.assume(c.all(gates, lambda g: c.at(limit, g) > 0))
    e = c.run(c.q.gradient.KalmanGradientEstimator, f, c.series('position', gates), limit, c.series('epsilon', c.permuted('epsilon_order', gates)),
              c.real('value') if c.fork('has_value') else None)
    estimator_life(c, T, e, gates)


def library_twins(c, T, n, m):
    """contract of filterpy's KalmanFilter: prediction and update replace state and covariance, depending on all matrices"""
    if not c.symbolic:
        return
    d = c.names('states', size=n * m)
    v = c.names('outputs', size=m)

    class Filter:
        def __init__(self, dim_x, dim_z):
            self.x = c.flat_array(c.make_series(d, lambda g: 0.)).reshape(n * m, 1)
            self.P = self.Q = self.F = c.mat_array(c.make_matrix(d, d, lambda a, b: c.ite(c.eq(a, b), 1., 0.)))
            self.R = c.mat_array(c.make_matrix(v, v, lambda a, b: c.ite(c.eq(a, b), 1., 0.)))
            self.alpha = 1.

        def replace(self, what, *more):
            T.now.tell(what, self.x, self.P, self.Q, self.F, self.R, self.alpha, *more)
            self.x, self.P = T.now.ask(what, lambda: (c.flat_array(c.series('state', d)).reshape(n * m, 1), c.mat_array(c.sym_matrix('state_covariance', d))))

        def predict(self, Q=None):
            self.replace('predict', Q)

        def update(self, z, R=None, H=None):
            self.replace('update', z, R, H)
    c.patch(c.q.kalman_gradient, 'KalmanFilter', Filter)


@contract('C18', ['KalmanGradient.to_hdf5', 'KalmanGradient.__init__', 'KalmanGradient.update', 'to_hdf5', 'from_hdf5'], kind='bounded', budget=200,
          note='up to two gates and two values; an update before the filter is stored and one afterwards')
def kalman_filter(c):
    T = Twins(c)
    n, m = [(1, 1), (2, 1), (1, 2)][c.choice('dimensions', 3)]
    library_twins(c, T, n, m)
    d, v, gates = c.names('all_states', size=n * m), c.names('values', size=m), c.names('gates', size=n)
    opts = dict(initial_gradient=c.series('gradient', d), initial_covariance_matrix=spd(c, 'covariance', d), measurement_covariance_matrix=spd(c, 'variances', v),
                process_noise=c.sym_matrix('noise', d), state_transition_function=c.matrix('dynamics', d, d))
    if c.fork('defaults'):
        opts = {}
    alpha = c.real('alpha', positive=True)
    c.assume(alpha >= 1)
    k = c.run(c.q.kalman_gradient.KalmanGradient, n, m, alpha=alpha, **opts)
    fn = lambda k, z, w, R, Q: k.update(z, w, R, Q)
    data = lambda: [c.flat_array(c.series('difference', gates)), c.flat_array(c.series('changes', v)),
                    c.mat_array(spd(c, 'given_variances', v)) if c.fork('variance_given') else None,
                    c.mat_array(c.sym_matrix('given_noise', d)) if c.fork('noise_given') else None]
    if c.choice('before', 2):
        if c.call(fn, k, *data()).raised:
            return
        T.sync()
    new = T.restored(k)
    c.ensure('the same gradient', T.alike(k.grad, new.grad))
    c.ensure('the same covariance', T.alike(k.cov, new.cov))
    T.both('update', k, new, fn, data())
    c.ensure('afterwards the same gradient', T.alike(k.grad, new.grad))
    c.ensure('afterwards the same covariance', T.alike(k.cov, new.cov))


def spd(c, name, ix):
    """covariance matrix; positive definite where real code inverts it"""
    P = c.sym_matrix(name, ix)
    if c.symbolic:
        return P
    import numpy as np
    return P @ P.T + np.eye(len(P))


@contract('C18', ['SelfInitializingKalmanEstimator.to_hdf5', 'SelfInitializingKalmanEstimator.__init__', 'SelfInitializingKalmanEstimator.update',
                  'SelfInitializingKalmanEstimator.require_measurement', 'SelfInitializingKalmanEstimator.restart', 'to_hdf5', 'from_hdf5'], kind='bounded', budget=200,
          note='up to two gates; an operation before the object is stored and one afterwards; both estimators and the filter library are replaced by their contracts')
def self_initializing(c):
    T = Twins(c)
    n = 1 + c.choice('dimension', 2)
    gates = c.names('gates', size=n)
    library_twins(c, T, n, 1)

    def stub(base, name, ready):
        g0, P0, pos = c.series(name + '_gradient', gates), c.sym_matrix(name + '_covariance', gates), c.series(name + '_position', gates)

        def mk(side):
            side.state[name] = ready
            side.state[name + 'position'] = pos

            def update(self, position, value, variance, is_new_position=False):
                side.tell(name, 'update', position, value, variance, is_new_position)
                if not side.state[name]:
                    side.state[name] = side.ask(name, lambda: c.fork('complete'))

            def require(self, gates=None, tuned_jacobian=None):
                side.tell(name, 'require', gates)
                return side.ask(name + 'require', lambda: c.series('request', gates_of))

            def setpos(self, v):
                side.tell(name, 'position', v)
            return c.make(base, update=update, require_measurement=require, estimate=lambda self: c.snap(g0) if side.state[name] else None,
                          covariance=lambda self: c.snap(P0) if side.state[name] else None, restart=lambda self, v: side.tell(name, 'restart', v),
                          current_position=property(lambda self: c.snap(pos), setpos), to_hdf5=lambda self: {})
        gates_of = gates
        return T.make(mk)
    grad = c.q.gradient
    after = c.fork('handed_over')
    f = stub(grad.FiniteDifferencesGradientEstimator, 'fd', after)
    k = stub(grad.KalmanGradientEstimator, 'kalman', True) if after else None

    limit, eps, alpha = c.series('limit', c.permuted('limit_order', gates)), c.series('epsilon', c.permuted('epsilon_order', gates)), c.real('alpha', positive=True)
    c.assume(c.And(alpha >= 1, c.all(gates, lambda g: c.at(limit, g) > 0)))
    opts = [None, dict(alpha=alpha), dict(alpha=alpha, process_noise=c.mat_array(c.sym_matrix('noise', gates)))][c.choice('options', 3)]
    e = c.run(grad.SelfInitializingKalmanEstimator, f, k, dict(maximum_covariance=limit, epsilon=eps), opts)
    estimator_life(c, T, e, gates)


EVALUATORS = dict(
    Evaluator='', FittingEvaluator='fit', LeadTunnelTimePrefitVersion='fit sample_rate evaluation_arguments', LeadTunnelTimeByLeadScan='fit sample_rate evaluation_arguments',
    InterDotTCByLineScan='fit intermediate_fit_arguments', NewLoadTime='fit initial_curvature',
    LeadTransition='shifting_gates charge_diagram_width transition_width transition_positions',
    SensingDot1D='sweeping_gate current_signal optimal_signal optimal_position rising_flank', SensingDot2D='sweeping_gates scan_range new_voltages rising_flank')


def evaluator_arguments(c, kind, defaults):
    """arbitrary constructor arguments; the public attributes may change later"""
    fits = c.names('fit_names', nonempty=True)
    number = lambda n: lambda: c.real(n)
    maybe = lambda f: lambda: f() if c.fork('given') else None
    series = lambda n: lambda: c.series(n, fits, nan=True)
    make = dict(fit_results=maybe(series('fit_results')), initial_fit_arguments=maybe(series('initial_fit_arguments')), sample_rate=number('sample_rate'),
                evaluation_arguments=lambda: series('evaluation_arguments')() if c.fork('labelled') else dict(t_fall=c.real('t_fall'), t_rise=c.real('t_rise')),
                intermediate_fit_arguments=series('intermediate'), initial_curvature=number('curvature'), shifting_gates=lambda: ('A', 'RFB'),
                charge_diagram_width=number('charge_diagram_width'), transition_width=number('transition_width'), transition_positions=series('transition_positions'),
                sweeping_gate=lambda: 'SDB1', current_signal=maybe(number('current_signal')), optimal_signal=number('optimal_signal'),
                optimal_position=number('optimal_position'), rising_flank=lambda: bool(c.fork('rising')), sweeping_gates=lambda: ('SDB1', 'X'),
                scan_range=number('scan_range'), new_voltages=series('new_voltages'))
    names = EVALUATORS[kind].split()
    if names and names[0] == 'fit':
        names[:1] = ['fit_results', 'initial_fit_arguments']
    if kind not in ('Evaluator', 'FittingEvaluator'):
        names = [n for n in names if n in MUTABLE or not defaults]
    return {n: make[n]() for n in names}


MUTABLE = ('evaluation_arguments', 'sample_rate', 'intermediate_fit_arguments', 'initial_curvature', 'transition_width', 'transition_positions', 'current_signal',
           'optimal_signal', 'optimal_position')


@contract('C18', [k + s for k in EVALUATORS for s in ('.to_hdf5', '.__init__')] + ['Measurement.to_hdf5', 'Measurement.__init__', 'to_hdf5', 'from_hdf5'], kind='bounded', budget=200,
          note='arbitrary constructor arguments and attribute values; up to two measurements')
def evaluators(c):
    T = Twins(c)
    kind = list(EVALUATORS)[c.choice('class', len(EVALUATORS))]
    exp = T.make(lambda side: c.make(c.q.experiment.Experiment, to_hdf5=lambda self: {}))
    cls = getattr(c.q.evaluator, kind)
    given = c.fork('arguments_given') or kind in ('Evaluator', 'FittingEvaluator')
    args = evaluator_arguments(c, kind, not given)
    late = dict() if given else args
    pts = c.names('points', nonempty=True)
    raw = lambda n: [None, lambda: c.flat_array(c.series(n, pts, nan=True)), lambda: [c.flat_array(c.series(n + '0', pts)), c.flat_array(c.series(n + '1', pts))]]
    kw = {}
    if given:
        M = c.q.experiment.Measurement
        k = 1 + c.choice('measurements', 2)
        kw = dict(args, measurements=tuple(c.run(M, 'scan%d' % i, center=c.real('center') if i else None, range=c.real('range'), gate='RFA', N_points=100 + i) for i in range(k)),
                  parameters=('parameter_a', 'parameter_b'), name='some name')
        for n in ('raw_x_data', 'raw_y_data'):
            f = raw(n)[c.choice(n + '_kind', 3)]
            kw[n] = f() if f else None
    e = c.run(cls, experiment=exp, **kw)
    for n, v in late.items():
        setattr(e, n, v)
    new = T.restored(e)
    c.ensure('the same experiment', T.alike(e.experiment, new.experiment))
    c.ensure('the same name', e.name == new.name)
    c.ensure('the same parameters', tuple(e.parameters) == tuple(new.parameters))
    c.ensure('the same measurements', T.alike(tuple(e.measurements), tuple(new.measurements)))
    c.ensure('the same data', T.alike(e.raw_data, new.raw_data))
    for n in args:
        if n in MUTABLE:
            c.ensure('the same settings', T.alike(getattr(e, n), getattr(new, n)))


@contract('C18', ['AveragingEvaluator.to_hdf5', 'AveragingEvaluator.__init__', 'AveragingEvaluator.evaluate', 'to_hdf5', 'from_hdf5'], kind='bounded', budget=200,
          note='1..2 repetitions; an evaluation before the object is stored and one afterwards')
def averaging(c):
    T = Twins(c)
    params = c.names('params', size=1)
    pts = c.names('points', nonempty=True)

    def mk(side):
        def evaluate(self):
            v, w, x, y = side.ask('evaluate', lambda: (c.series('value', params), c.series('error', params), c.flat_array(c.series('x', pts)), c.flat_array(c.series('y', pts))))
            self._raw_x_data, self._raw_y_data = x, y
            return v, w
        return c.make(c.q.evaluator.Evaluator, evaluate=evaluate, to_hdf5=lambda self: {},
                      _attrs=dict(_parameters=tuple(params), _experiment=None, _measurements=(), _name='inner', _raw_x_data=None, _raw_y_data=None))
    inner = T.make(mk)
    e = c.run(c.q.evaluator.AveragingEvaluator, inner, 1 + c.choice('repetitions', 2), name='mean' if c.fork('named') else None)
    if c.choice('before', 2):
        c.run(e.evaluate)
        T.sync()
    new = T.restored(e)
    c.ensure('the same name', e.name == new.name)
    c.ensure('the same data', T.alike(e.raw_data, new.raw_data))
    T.both('evaluation', e, new, lambda e: e.evaluate(), [])


def scan_data(c, kind, rng, N):
    import numpy as np
    x = np.linspace(-2e-3, 2e-3, N)
    if kind == 'InterDotTCByLineScan':
        return np.tanh((x - rng.uniform(-1e-4, 1e-4)) / 2e-4) + .01 * rng.rand(N)
    if kind == 'NewLoadTime':
        t = np.arange(N) * 5.
        return np.stack([np.exp(-t / rng.uniform(10, 60)) + .01 * rng.rand(N), t])
    if kind == 'LeadTransition':
        return np.sign(x - rng.uniform(-1e-3, 1e-3)) + .1 * rng.rand(N)
    if kind == 'SensingDot2D':
        return np.cumsum(rng.rand(6, 104) - .5, axis=1)
    if kind == 'SensingDot1D':
        return np.cumsum(rng.rand(N) - .5)
    t = np.arange(N) / 1e8
    y = np.where((t > 7e-8) & (t < 2.07e-6), 1. - np.exp(-(t - 7e-8) / 5e-8), np.exp(-np.abs(t - 2.07e-6) / 5e-8))
    return np.stack([np.zeros(N), y + .01 * rng.rand(N)])


@contract('C18', [k + '.evaluate' for k in EVALUATORS if 'Evaluator' not in k] + ['to_hdf5', 'from_hdf5'], kind='concrete', reps=.3,
          note='real scans and fits; none or one evaluation before the object is stored and one afterwards')
def evaluations(c):
    import numpy as np
    T = Twins(c)
    kind = [k for k in EVALUATORS if 'Evaluator' not in k][c.choice('class', 7)]
    lead = kind.startswith('LeadTunnel')
    N = 420 if lead else 60 + c.choice('points', 60)
    rng = np.random.RandomState(c.choice('data', 10 ** 6))
    gates = c.index_of(['A', 'B', 'RFA', 'RFB', 'SDB1', 'SDB2', 'X'])
    volts = c.series('voltages', gates)
    c.patch(c.q.util, 'plot_raw_data_fit', lambda *a, **k: None)

    def mk(side):
        side.state['v'] = volts

        def put(self, v):
            side.tell('set', v)
            new = c.snap(side.state['v'])
            new[v.index] = v
            side.state['v'] = new
        def measure(self, m):
            side.tell('measure', m.name, dict(m.options), side.state['v'])
            return side.ask('measure', lambda: scan_data(c, kind, rng, N))
        return c.make(c.q.experiment.Experiment, read_gate_voltages=lambda self: c.snap(side.state['v']), set_gate_voltages=put, measure=measure, to_hdf5=lambda self: {})
    exp = T.make(mk)
    M = c.q.experiment.Measurement
    own = c.fork('arguments_given')
    kw = {}
    if own:
        kw = dict(parameters=('a', 'b'), name='own')
        if kind == 'LeadTransition':
            kw.update(shifting_gates=('A', 'X'), sweeping_gates=('RFA', 'X'), charge_diagram_width=5e-3, transition_width=1e-4, measurements=[M('line_scan', center=1., range=3e-3, N_points=N)] * 2)
        elif kind == 'SensingDot1D':
            kw.update(sweeping_gate='X', rising_flank=bool(c.fork('rising')), measurements=(M('line_scan', center=None, range=1e-3, N_points=N, gate='X'),))
        elif kind == 'SensingDot2D':
            kw.update(sweeping_gates=('X', 'A'), scan_range=2e-3, rising_flank=bool(c.fork('rising')))
        elif kind == 'NewLoadTime':
            kw.update(initial_curvature=20.)
        elif kind == 'InterDotTCByLineScan':
            kw.update(measurements=(M('detune_scan', center=0., range=2e-3, N_points=N),))
        else:
            kw.update(sample_rate=1.01e8, evaluation_arguments={'t_fall': 4e-8, 't_rise': 6e-8, 'begin_rise': 8e-8, 'begin_fall': 2e-6})
    e = c.run(getattr(c.q.evaluator, kind), exp, **kw)
    if c.fork('before'):
        if c.call(e.evaluate).raised:
            return
        T.sync()
    new = T.restored(e)
    T.both('evaluation', e, new, lambda e: e.evaluate(), [])


def group_twins(c, T, k, gates):
    params = c.names('params%d' % k)
    target = target_frame(c, 'target%d' % k, params)
    last = c.series('last_voltages%d' % k, gates)
    values, variances = c.series('last_values%d' % k, params, nan=True), c.series('last_variances%d' % k, params, nan=True)
    position = c.series('solver_position%d' % k, c.subnames('solver_gates%d' % k, gates))
    key = 'group%d' % k

    def mk(side):
        side.state[key] = last

        def is_tuned(self, voltages):
            side.tell(key, 'evaluate', voltages)
            side.state[key] = c.snap(voltages)
            return side.ask(key + 'verdict', lambda: c.fork('verdict'))

        def get_next_voltages(self, tuned_parameters=None):
            side.tell(key, 'propose', tuned_parameters)
            return side.ask(key + 'proposal', lambda: c.series('proposal', c.subnames('proposal_gates', gates), nan=True))

        def restart(self, v):
            side.tell(key, 'restart', v)
            side.state[key] = c.snap(v)
        sol = plain_solver(c, position, target)
        return c.make(c.q.parameter_tuner.ParameterTuner, is_tuned=is_tuned, get_next_voltages=get_next_voltages, restart=restart,
                      target=property(lambda self: target, lambda self, ch: side.tell(key, 'target', ch)), solver=property(lambda self: sol),
                      last_voltages=property(lambda self: side.state[key]), last_parameters_and_variances=property(lambda self: (values, variances)),
                      to_hdf5=lambda self: {})
    return T.make(mk)


def program_ops(c, n):
    k = c.choice('operation', 4)
    if k < 2:
        return 'iteration', lambda at: at.iterate()
    if k == 2:
        return 'restart', lambda at: at.restart()
    new = [{'desired': c.series('new_target%d' % i, c.names('changed%d' % i))} for i in range(1 + c.choice('changed_groups', n))]
    return 'new targets', lambda at: at.change_targets(c.snap(new))


@contract('C18', ['Autotuner.to_hdf5', 'Autotuner.__init__', 'Autotuner.iterate', 'Autotuner.restart', 'Autotuner.change_targets', 'Autotuner.is_tuning_complete',
                  'to_hdf5', 'from_hdf5'], kind='bounded', budget=400, paths=20000,
          note='1..2 groups in any state; an operation before the autotuner is stored and two afterwards')
def autotuner_program(c):
    T = Twins(c)
    gates = c.names('gates', nonempty=True)
    n = 1 + c.choice('number_of_groups', 2)
    volts = c.series('voltages', gates)

    def mk(side):
        side.state['voltages'] = volts

        def put(self, v):
            side.tell('set', v)
            side.state['voltages'] = side.ask('set', lambda: c.series('voltages', gates))
            return c.snap(side.state['voltages'])
        return c.make(c.q.experiment.Experiment, read_gate_voltages=lambda self: c.snap(side.state['voltages']), set_gate_voltages=put,
                      gate_voltage_names=property(lambda self: tuple(gates)), to_hdf5=lambda self: {})
    exp = T.make(mk)
    groups = [group_twins(c, T, k, gates) for k in range(n)]
    idx = c.choice('position', n + 1)
    pending, status = None, False
    if idx < n:
        mode = c.choice('mode', 3)
        if mode == 0:
            pending = c.series('pending', c.subnames('pending_gates', gates), nan=True)
        status = mode == 1
    at = c.run(c.q.autotuner.Autotuner, exp, groups, current_tuner_index=idx, current_tuner_status=status, voltage_to_set=pending,
               last_save_file=[None, 'some file'][c.choice('saved', 2)])
    if c.choice('before', 2):
        if c.call(program_ops(c, n)[1], at).raised:
            return
        T.sync()
    new = T.restored(at)
    same = lambda: c.ensure('the same position in the tuning', c.And(at.current_tuner_index == new.current_tuner_index, c.Iff(c.is_true(at.current_tuner_status), c.is_true(new.current_tuner_status)),
                                                                      c.is_true(at.is_tuning_complete()) == c.is_true(new.is_tuning_complete()), T.alike(at.voltages_to_set, new.voltages_to_set)))
    same()
    for _ in range(2):
        what, fn = program_ops(c, n)
        T.both(what, at, new, fn, [])
        same()


def program_evaluator(c):
    """evaluator of a simulated device: affine parameters of the present voltages, sometimes missing; all its state is stored"""
    class ProgramEvaluator(c.q.evaluator.Evaluator):
        def __init__(self, experiment, slopes, offset, fails, name='program evaluator', count=0, raw_x_data=None, raw_y_data=None):
            super().__init__(experiment, (), list(offset.index), raw_x_data, raw_y_data, name)
            self.slopes, self.offset, self.fails, self.count = slopes, offset, fails, count

        def evaluate(self):
            self.count += 1
            v = self.experiment.read_gate_voltages()[self.slopes.columns]
            r = self.offset + self.slopes @ v + 1e-3 * self.count
            self._raw_x_data, self._raw_y_data = [0.], [float(self.count)]
            if self.count in self.fails:
                r = r * float('nan')
            self.experiment.log.append(('evaluate', tuple(r.index)))
            return r, r * 0. + .25

        def to_hdf5(self):
            return dict(experiment=self.experiment, slopes=self.slopes, offset=self.offset, fails=self.fails, count=self.count, name=self.name,
                        raw_x_data=self._raw_x_data, raw_y_data=self._raw_y_data)
    return ProgramEvaluator


def pd_series(index, values):
    import pandas as pd
    return pd.Series(list(values), index=list(index))


def program_group(c, exp, cls, k, gates, params):
    import numpy as np
    q = c.q
    start = exp.read_gate_voltages()
    slopes = c.matrix('slopes%d' % k, params, gates)
    off = c.series('offset%d' % k, params)
    fails = sorted(set(2 + c.choice('fails', 12) for _ in range(c.choice('failures', 4))))
    ev = lambda ps: cls(exp, slopes.loc[ps], off[ps], fails, 'evaluator%d' % k)
    if c.choice('sensing_dot', 5) == 0:
        cheap, costly = params[:1], ['position%d_%s' % (k, g) for g in gates]
        slopes2, off2 = c.matrix('slopes2%d' % k, c.index_of(costly), gates), c.series('offset2%d' % k, c.index_of(costly))
        names = list(cheap) + costly
        cols = {n: c.series(n + str(k), c.index_of(names)) for n in ('minimum', 'cost_threshold')}
        cols['minimum'][costly] = np.nan
        target = c.frame(c.index_of(names), dict(cols, desired=cols['minimum'] * np.nan, rescaling_factor=c.make_series(c.index_of(names), lambda g: 2.)))
        sol = c.run(q.solver.ForwardingSolver, target, pd_series(costly, gates), start[gates])
        return c.run(q.parameter_tuner.SensingDotTuner, cheap_evaluators=[ev(cheap)], expensive_evaluators=[cls(exp, slopes2, off2, fails, 'costly%d' % k)],
                     gates=list(gates), solver=sol, last_voltage=start.copy(), tuned_voltages=[start.copy()])
    target = c.frame(params, dict(desired=c.series('desired%d' % k, params), tolerance=c.make_series(params, lambda p: .4567),
                                  rescaling_factor=c.make_series(params, lambda p: 2.)))
    kind = c.choice('solver', 5)
    pos = start[gates]
    one = c.make_series(gates, lambda g: 1.)
    if kind == 4:
        sol = c.run(q.solver.NelderMeadSolver.from_scratch, target, one, pos.copy(), off)
    else:
        ests = []
        for p in params:
            j = (kind if kind < 3 else c.choice('estimator', 3))
            if j == 0:
                e = c.run(q.gradient.FiniteDifferencesGradientEstimator, current_position=pos.copy(), epsilon=one, symmetric=bool(c.fork('symmetric')))
            elif j == 1:
                f = c.run(q.kalman_gradient.KalmanGradient, len(gates), 1, initial_gradient=slopes.loc[p] + .5, initial_covariance_matrix=np.eye(len(gates)) * 4, alpha=1.02)
                e = c.run(q.gradient.KalmanGradientEstimator, f, pos.copy(), c.make_series(gates, lambda g: 3.), one)
            else:
                e = c.run(q.gradient.SelfInitializingKalmanEstimator.from_scratch, pos.copy(), one, 3., bool(c.fork('symmetric')))
            ests.append(e)
        sol = c.run(q.solver.NewtonSolver, target, ests, pos.copy())
    return c.run(q.parameter_tuner.SubsetTuner, evaluators=[ev(params)], gates=list(gates), solver=sol, last_voltage=start.copy(), evaluatable_voltages=[start.copy()],
                 maximal_step_size=[float('nan'), 1.4321][c.choice('limited', 2)], maximal_step_number=3)


@contract('C18', ['Autotuner.save_current_status', 'load_auto_tuner', 'to_hdf5', 'from_hdf5', 'AsynchronousHDF5Writer.write'], kind='concrete', reps=.15,
          note='complete programs of 1..3 groups with real solvers, estimators and filters on a simulated device, saved by the background writer, loaded at some point of the run and continued')
def whole_program(c):
    import os
    q = c.q
    n = 1 + c.choice('number_of_groups', 3)
    gates = c.names('gates', size=1 + c.choice('number_of_gates', 3))
    volts = c.series('voltages', gates)

    class Device(q.experiment.Experiment):
        def __init__(self, v):
            self.v, self.log = v, []

        def read_gate_voltages(self):
            return self.v.copy()

        def set_gate_voltages(self, new):
            self.log.append(('set', new.copy()))
            self.v[new.index] = new
            return self.v.copy()
    exp = Device(volts.copy())
    cls = program_evaluator(c)
    groups = []
    for k in range(n):
        g = gates[:1 + c.choice('group_gates', len(gates))]
        groups.append(program_group(c, exp, cls, k, g, c.index_of(['p%d_%d' % (k, i) for i in range(1 + c.choice('parameters', len(g)))])))
    folder = c.folder('storage')
    at = c.run(q.autotuner.Autotuner, exp, groups, hdf5_storage_path=folder)
    steps = c.choice('steps_before', 30)
    for i in range(steps):
        if at.is_tuning_complete():
            break
        if c.call(at.iterate).raised:       # a failed iteration is not saved
            return
    if at.last_save_file is None:
        return
    saved = at.to_hdf5()
    at.asynchrone_writer.join()
    ok = os.path.exists(at.last_save_file)
    c.ensure('the state is saved', ok)
    if not ok:
        return
    twin = Device(exp.v.copy())
    new = c.run(q.autotuner.load_auto_tuner, at.last_save_file, {'experiment': twin})
    T = Twins(c)
    T.rounding = True
    T.pairs.append((exp, twin))
    storage = lambda d: {k: v for k, v in d.items() if k not in ('hdf5_storage_path', 'last_save_file')}
    c.ensure('the loaded autotuner has the stored state', T.alike(storage(saved), storage(c.run(new.to_hdf5))))
    c.ensure('and the save file', new.last_save_file == at.last_save_file)
    # continue both without saving
    at, new = [c.run(q.autotuner.Autotuner, **dict(x.to_hdf5(), hdf5_storage_path=None)) for x in (at, new)]
    del exp.log[:]
    for i in range(c.choice('steps_after', 20)):
        k = c.choice('operation', 8)
        if k == 0:
            v = c.series('set_by_hand', gates)
            for d in (exp, twin):
                d.v = v.copy()
            fn = lambda a: a.restart()
        elif k == 1:
            j = c.choice('changed', n)
            ix = groups[j].target.index
            ch = [{} for _ in range(j)] + [{'desired': c.series('new_target', ix)}]
            fn = lambda a: a.change_targets([{a: b.copy() for a, b in d.items()} for d in ch])
        else:
            fn = lambda a: a.iterate()
        r, s = c.call(fn, at), c.call(fn, new)
        c.ensure('the same outcome', T.alike(r.value, s.value) and r.raised == s.raised and (not r.raised or r.why == s.why))
        c.ensure('the same actions', T.alike(exp.log, twin.log))
        c.ensure('the same state', T.alike(storage(at.to_hdf5()), storage(new.to_hdf5())))
        if r.raised or s.raised:
            return
