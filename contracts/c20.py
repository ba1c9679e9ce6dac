from dv.base import contract
from .tuners import *
from .dots import dot_tuner
from .newton import newton, any_newton
from .estim import *


def rebased(c, old, new):
    """old with the entries of new for all names it has (same names)"""
    return c.make_series(old.index, lambda g: c.ite(c.has(new, g), c.at(new, g), c.at(old, g)))


@contract('C20', ['Autotuner.restart'], kind='bounded', note='hierarchies of 1..3 groups are enumerated; gates are unbounded',
          cross='restart_any_program')
def restart_program(c):
    s = autotuner(c, 3, pending_nan=True)
    at, log = s['at'], s['log']
    c.forget_loops()
    c.run(at.restart)
    now = c.snap(s['state']['now'])
    c.ensure('every group is restarted exactly once and nothing else happens',
             sorted(e[1] for e in acts(log) if e[0] == 'restart') == list(range(s['n'])) and len(acts(log)) == s['n'])
    c.ensure('with the voltages the experiment reports', c.And(*[c.series_same(e[2], now) for e in log if e[0] == 'restart']))
    c.ensure('at the bottom, nothing evaluated', c.And(at.current_tuner_index == 0, c.is_false(at.current_tuner_status)))
    c.ensure('nothing pending', at.voltages_to_set is None)


@contract('C20', ['Autotuner.restart'], note='any number of groups')
def restart_any_program(c):
    s = any_autotuner(c, pending_nan=True)
    at, log = s['at'], s['log']
    c.run(at.restart)
    now = c.snap(s['state']['now'])
    again = [e for e in acts(log) if e[0] == 'restart']
    c.ensure('nothing else happens', len(again) == len(acts(log)))
    c.ensure('every group is restarted exactly once', c.once_each(s['n'], [s['where'][e[1]] for e in again]))
    c.ensure('with the voltages the experiment reports', c.And(*[c.series_same(e[2], now) for e in again]))
    c.ensure('at the bottom, nothing evaluated', c.And(at.current_tuner_index == 0, c.is_false(at.current_tuner_status)))
    c.ensure('nothing pending', at.voltages_to_set is None)


def group_rebased(c, s, t, log):
    new = c.series('new_voltages', c.permuted('new_order', c.super_names('all_gates', s['gates'])))
    nsnap = c.snap(new)
    before = t.to_hdf5()
    lv, lw = t.last_parameters_and_variances
    lv, lw = c.snap(lv), c.snap(lw)
    c.run(t.restart, new)
    c.ensure('the last voltages are the new ones for all gates of the group', c.series_same(t.last_voltages, rebased(c, s['last'], nsnap)))
    r = [e for e in log if e[0] == 'restart']
    c.ensure('the solver is restarted once with the new voltages', len(r) == 1 and len(log) == 1)
    for e in r:
        c.ensure('with the voltages of all gates', c.series_same(e[1], nsnap))
    d = t.to_hdf5()
    c.ensure('tuned voltages are untouched', lists_same(c, d['tuned_voltages'], s['tuned']))
    c.ensure('the given voltages are untouched', c.series_same(new, nsnap))
    v, w = t.last_parameters_and_variances
    c.ensure('the last values are untouched', c.And(c.series_same(v, lv), c.series_same(w, lw)))
    return d


def watch(c, sol, log):
    type(sol).restart = lambda self, v: log.append(('restart', c.snap(v)))


@contract('C20', ['SubsetTuner.restart', 'ParameterTuner.restart', 'ParameterTuner.last_voltages'])
def restart_subset_group(c):
    s = subset_tuner(c, nev=1)
    t, log = s['t'], s['log']
    watch(c, s['sol'], log)
    d = group_rebased(c, s, t, log)
    c.ensure('evaluatable voltages are untouched', lists_same(c, d['evaluatable_voltages'], s['good']))
    c.ensure('no sub-steps are left', c.eq(d['number_queued_steps'], 0))


@contract('C20', ['ParameterTuner.restart', 'ParameterTuner.last_voltages'])
def restart_sensing_dot(c):
    s = dot_tuner(c, ncheap=1, nexp=1)
    watch(c, s['sol'], s['log'])
    group_rebased(c, s, s['t'], s['log'])


@contract('C20', ['ParameterTuner.last_voltages'])
def restart_without_voltages(c):
    """a group which has no voltages yet takes all of them"""
    gates = c.names('gates', nonempty=True)
    log = []
    params = c.names('params')
    target = target_frame(c, 'target', params)
    sol = solver(c, gates, target, log)
    watch(c, sol, log)
    last = None if c.choice('last', 2) else c.empty_series()
    t = c.run(c.q.parameter_tuner.SubsetTuner, evaluators=[evaluator(c, 0, params, log)], gates=c.names_list(gates), maximal_step_size=1.,
              maximal_step_number=1, solver=sol, last_voltage=last)
    new = c.series('new_voltages', gates)
    nsnap = c.snap(new)
    c.run(t.restart, new)
    c.ensure('the last voltages are the new ones', c.series_same(t.last_voltages, nsnap))


@contract('C20', ['NewtonSolver.restart', 'Solver.restart', 'Solver.current_position'], kind='bounded', note='1..2 estimators are enumerated',
          cross='restart_any_newton')
def restart_newton(c):
    s = newton(c, 2)
    sol, log = s['s'], s['log']
    new = c.series('new_voltages', c.permuted('new_order', c.super_names('all_gates', s['gates'])))
    nsnap = c.snap(new)
    T = c.snap(s['target'])
    c.run(sol.restart, new)
    c.ensure('every estimator is restarted once', sorted(e[1] for e in log) == list(range(s['n'])) and all(e[0] == 'restart' for e in log))
    c.ensure('with the voltages of all gates', c.And(*[c.series_same(e[2], nsnap) for e in log if e[0] == 'restart']))
    c.ensure('the position is the new one for all gates of the solver', c.series_same(sol.current_position, rebased(c, s['pos'], nsnap)))
    c.ensure('the target is unchanged', c.frame_same(T, sol.target, CATS))
    c.ensure('the given voltages are untouched', c.series_same(new, nsnap))


@contract('C20', ['NewtonSolver.restart', 'Solver.restart', 'Solver.current_position'], note='any number of estimators')
def restart_any_newton(c):
    s = any_newton(c)
    sol, log = s['s'], s['log']
    new = c.series('new_voltages', c.permuted('new_order', c.super_names('all_gates', s['gates'])))
    nsnap = c.snap(new)
    c.forget_loops()
    c.run(sol.restart, new)
    c.ensure('every estimator is restarted once', c.And(all(e[0] == 'restart' for e in log), c.once_each(s['n'], [s['where'][e[1]] for e in log])))
    c.ensure('with the voltages of all gates', c.And(*[c.series_same(e[2], nsnap) for e in log if e[0] == 'restart']))
    c.ensure('the position is the new one for all gates of the solver', c.series_same(sol.current_position, rebased(c, s['pos'], nsnap)))


@contract('C20', ['Solver.restart', 'Solver.current_position'])
def restart_forwarding(c):
    gates = c.names('gates', nonempty=True)
    target = target_frame(c, 'target', c.names('params'))
    pos = c.series('position', gates)
    mapping = c.name_series('mapping', c.names('values'), nan=True)
    sol = c.run(c.q.solver.ForwardingSolver, target, mapping, c.snap(pos))
    new = c.series('new_voltages', c.permuted('new_order', c.super_names('all_gates', gates)))
    c.run(sol.restart, new)
    c.ensure('the position is the new one', c.series_same(sol.current_position, rebased(c, pos, new)))


@contract('C20', ['Solver.restart', 'Solver.current_position'], note='any number of vertices')
def restart_nelder_mead(c):
    gates = c.names('gates', nonempty=True)
    params = c.names('params', nonempty=True)
    target = target_frame(c, 'target', params)
    pos = c.series('position', gates)
    vals = c.series('values', params)
    simplex = c.many('number_of_vertices', lambda k, i: (c.series('vertex%d' % k, gates), c.series('vertex_values%d' % k, params)))
    n = c.size(simplex)
    i = c.int('vertex', 0)
    c.assume(i < n)
    was = c.snap(simplex[i])
    sol = c.run(c.q.solver.NelderMeadSolver, target, simplex, c.series('span', gates), pos, vals)
    new = c.series('new_voltages', c.permuted('new_order', c.super_names('all_gates', gates)))
    want = rebased(c, c.snap(pos), c.snap(new))
    c.run(sol.restart, new)
    c.ensure('the position is the new one', c.series_same(sol.current_position, want))
    c.ensure('no vertex is lost', c.size(sol.simplex) == n)
    c.ensure('every measured vertex keeps its position and values', c.And(c.series_same(sol.simplex[i][0], was[0]), c.series_same(sol.simplex[i][1], was[1])))


@contract('C20', ['GradientEstimator.restart', 'GradientEstimator.current_position'], note='any number of collected measurements')
def restart_finite_differences(c):
    gates = c.names('gates', nonempty=True)
    pos = c.series('position', gates)
    est = c.series('estimate', gates) if c.fork('known') else None
    cov = c.matrix('covariance', gates, gates) if est is not None else None
    points = c.many('collected', lambda k, i: (c.series('point%d' % k, gates), c.real('value%d' % k), c.real('variance%d' % k, positive=True)), 0)
    n = c.size(points)
    some = c.fork('some')
    if some:
        i = c.int('measurement', 0)
        c.assume(i < n)
        was = c.snap(points[i])
    e = c.run(c.q.gradient.FiniteDifferencesGradientEstimator, current_position=c.snap(pos), epsilon=c.series('epsilon', c.permuted('epsilon_order', gates)),
              symmetric=c.fork('symmetric'), current_estimate=c.snap(est), covariance=cov, stored_measurements=points)
    new = c.series('new_voltages', c.permuted('new_order', c.super_names('all_gates', gates)))
    c.run(e.restart, new)
    c.ensure('the position is the new one', c.series_same(e.current_position, rebased(c, pos, new)))
    d = e.to_hdf5()['stored_measurements']
    c.ensure('no collected measurement is lost', c.size(d) == n)
    if some:
        c.ensure('the measurements collected so far keep their positions', c.And(c.series_same(d[i][0], was[0]), c.eq(d[i][1], was[1]), c.eq(d[i][2], was[2])))
    c.ensure('the estimate is kept', e.estimate() is None if est is None else c.series_same(e.estimate(), est))


@contract('C20', ['KalmanGradientEstimator.restart', 'KalmanGradientEstimator.update'])
def restart_kalman(c):
    gates = c.names('gates', nonempty=True)
    log = []
    s = kalman_estimator(c, gates, log)
    e = s['e']
    est = c.series_same
    new = c.series('new_voltages', c.permuted('new_order', c.super_names('all_gates', gates)))
    c.run(e.restart, new)
    c.ensure('the position is the new one', c.series_same(e.current_position, rebased(c, s['pos'], new)))
    c.ensure('restarting feeds nothing', not log)
    # the next measurement only sets the baseline
    p1 = c.series('measured', c.permuted('measured_order', c.super_names('measured_gates', gates)))
    v1 = c.real('measured_value')
    c.run(e.update, p1, v1, c.real('variance', positive=True), is_new_position=c.fork('new_position'))
    c.ensure('the first measurement after a restart is no difference', not log)
    c.ensure('it is the baseline position', c.And(c.index_same(e.current_position.index, gates), c.all(gates, lambda g: c.eq(c.at(e.current_position, g), c.at(p1, g)))))
    p2 = c.series('measured', c.permuted('measured_order', c.super_names('measured_gates', gates)))
    v2 = c.real('measured_value')
    c.run(e.update, p2, v2, c.real('variance', positive=True), is_new_position=True)
    f = [x for x in log if x[0] == 'filter']
    c.ensure('at most one measurement is fed', len(f) <= 1)
    for x in f:
        c.ensure('relative to the measurement after the restart', c.eq(c.only(x[2]), v2 - v1))


@contract('C20', ['SelfInitializingKalmanEstimator.restart'])
def restart_self_initializing(c):
    gates = c.names('gates', nonempty=True)
    log = []
    have = c.fork('handed_over')
    f = finite_estimator(c, gates, 0, have)
    k = kalman_estimator(c, gates, log, True)['e'] if have else None
    e = c.run(c.q.gradient.SelfInitializingKalmanEstimator, f['e'], k)
    old = c.snap(e.current_position)
    new = c.series('new_voltages', c.permuted('new_order', c.super_names('all_gates', gates)))
    c.run(e.restart, new)
    c.ensure('the position is the new one', c.series_same(e.current_position, rebased(c, old, new)))
    c.ensure('also of the finite differences', c.series_same(e.finite_difference_estimator.current_position, rebased(c, f['pos'], new)))
    if have:
        p1 = c.series('measured', c.permuted('measured_order', c.super_names('measured_gates', gates)))
        c.run(e.update, p1, c.real('measured_value'), c.real('variance', positive=True), True)
        c.ensure('the first measurement after a restart is no difference', not log)


def changes(c, params, k, most):
    """arbitrary changes of up to `most` categories for some of the parameters"""
    cats = []
    for j in range(c.choice('number_of_changes%d' % k, most + 1)):
        left = [x for x in ('desired', 'tolerance', 'minimum') if x not in cats]
        cats.append(left[c.choice('category', len(left))])
    return {x: c.series('new_%s%d' % (x, k), c.permuted('order_%s%d' % (x, k), c.subnames('changed_%s%d' % (x, k), params)), nan=True) for x in cats}


def retarget(c, n, most):
    sols = []
    gates = c.names('gates', nonempty=True)
    exp, state, log = experiment(c, gates)
    hierarchy = []
    for k in range(n):
        params = c.names('params%d' % k)
        target = target_frame(c, 'target%d' % k, params)
        sol = c.run(c.q.solver.ForwardingSolver, target, c.name_series('mapping%d' % k, params, nan=True), c.series('pos%d' % k, gates))
        hierarchy.append(c.run(c.q.parameter_tuner.SubsetTuner, evaluators=[evaluator(c, k, params, log)], gates=c.names_list(gates),
                               maximal_step_size=1., maximal_step_number=1, solver=sol, last_voltage=c.series('last%d' % k, gates)))
        sols.append((sol, params, c.snap(target)))
    idx = c.choice('position', n + 1)
    mode = c.choice('mode', 3) if idx < n else 2
    pending = c.series('pending', gates) if mode == 0 else None
    at = c.run(c.q.autotuner.Autotuner, exp, hierarchy, current_tuner_index=idx, current_tuner_status=mode == 1, voltage_to_set=pending,
               append_time_to_path=False)
    del log[:]
    m = c.choice('groups_changed', n + 1)
    ch = [changes(c, sols[k][1], k, most) for k in range(m)]
    chs = c.snap(ch)
    c.run(at.change_targets, ch)
    c.ensure('nothing is measured or set', len(acts(log)) == 0)
    c.ensure('at the bottom, nothing evaluated', c.And(at.current_tuner_index == 0, c.is_false(at.current_tuner_status)))
    c.ensure('nothing pending', at.voltages_to_set is None)
    for k, (sol, params, old) in enumerate(sols):
        c.ensure('the parameters stay the same', c.index_order_same(sol.target.index, old.index))
        for cat in CATS:
            compare_category(c, params, sol.target[cat], old[cat], chs[k].get(cat) if k < m else None)


def compare_category(c, params, now, old, new):
    if new is None:
        c.ensure('nothing else changes', c.all(params, lambda p: c.eq(c.at(now, p), c.at(old, p))))
    else:
        c.ensure('exactly the named entries change', c.all(params, lambda p: c.eq(c.at(now, p), c.ite(c.has(new, p), c.at(new, p), c.at(old, p)))))


@contract('C20', ['Autotuner.change_targets'], note='any number of groups; the target of a group is replaced by its contract')
def retarget_any_program(c):
    s = any_autotuner(c, pending_nan=True)
    at, log, n = s['at'], s['log'], s['n']
    where, content = [], []

    def make(k, i):
        where.append(i)
        content.append(c.series('new_desired%d' % k, c.names('changed%d' % k)))
        return {'desired': c.snap(content[-1])}
    changed = c.many('number_of_changes', make, 0)
    m = c.size(changed)
    c.assume(m <= n)
    c.forget_loops()
    c.run(at.change_targets, changed)
    r = [e for e in log if e[0] == 'target']
    c.ensure('nothing is measured or set', len(acts(log)) == len(r))
    c.ensure('exactly the named groups are changed, once', c.once_each(m, [s['where'][e[1]] for e in r]))
    c.ensure('each by its own changes', c.And(*[c.Or(False, *[c.And(w == s['where'][e[1]], c.series_same(e[2]['desired'], x)) for w, x in zip(where, content)])
                                                for e in r]))
    c.ensure('at the bottom, nothing evaluated', c.And(at.current_tuner_index == 0, c.is_false(at.current_tuner_status)))
    c.ensure('nothing pending', at.voltages_to_set is None)


@contract('C20', ['ParameterTuner.target'])
def retarget_group(c):
    """the group hands the changes to its solver, and changes nothing else"""
    dot = c.fork('sensing_dot')
    s = dot_tuner(c, ncheap=1, nexp=1) if dot else subset_tuner(c, nev=1)
    t, log = s['t'], s['log']
    params = t.target.index
    box = dict(target=t.target)

    def given(self, changes):
        log.append(('target', {k: c.snap(v) for k, v in changes.items()}))
        box['target'] = target_frame(c, 'later_target', params)
    type(s['sol']).target = property(lambda self: box['target'], given)
    new = {'desired': c.series('new_desired', c.subnames('changed', params), nan=True)}
    snap = c.snap(new['desired'])
    lv, lw = [c.snap(x) for x in t.last_parameters_and_variances]
    c.run(setattr, t, 'target', new)
    c.ensure('the solver is given exactly the changes, once', len(log) == 1 and log[0][0] == 'target' and set(log[0][1]) == {'desired'}
             and c.series_same(log[0][1]['desired'], snap))
    c.ensure('the last voltages stay', c.series_same(t.last_voltages, s['last']))
    v, w = t.last_parameters_and_variances
    c.ensure('the last values and variances stay', c.And(c.all(lv.index, lambda p: c.And(c.has(v, p), c.has(w, p), c.eq(c.at(v, p), c.at(lv, p)), c.eq(c.at(w, p), c.at(lw, p))))))


@contract('C20', ['Solver.target'], note='every subset of the six categories is enumerated')
def retarget_solver(c):
    gates = c.names('gates', nonempty=True)
    params = c.names('params')
    target = target_frame(c, 'target', params)
    sol = c.run(c.q.solver.ForwardingSolver, target, c.name_series('mapping', params, nan=True), c.series('position', gates))
    old = c.snap(sol.target)
    cats = [k for k in CATS if c.fork('change_' + k)]
    if c.fork('other_order'):
        cats = cats[::-1]
    ch = {x: c.series('new_' + x, c.permuted('order_' + x, c.subnames('changed_' + x, params)), nan=True) for x in cats}
    chs = {k: c.snap(v) for k, v in ch.items()}
    pos = c.snap(sol.current_position)
    c.run(setattr, sol, 'target', ch)
    c.ensure('the parameters stay the same', c.index_order_same(sol.target.index, old.index))
    for cat in CATS:
        compare_category(c, params, sol.target[cat], old[cat], chs.get(cat))
    c.ensure('the position stays', c.series_same(sol.current_position, pos))


RET = ['Autotuner.change_targets', 'ParameterTuner.target', 'Solver.target']


@contract('C20', RET, kind='bounded', note='one group, changes of 0..2 categories are enumerated; parameters are unbounded', budget=150,
          cross='retarget_any_program, retarget_group, retarget_solver')
def change_targets_one_group(c):
    retarget(c, 1, 2)


@contract('C20', RET, kind='bounded', note='two groups, changes of 0..1 categories are enumerated; parameters are unbounded', budget=150,
          cross='retarget_any_program, retarget_group, retarget_solver')
def change_targets_two_groups(c):
    retarget(c, 2, 1)
