from dv.base import contract
from .estim import *
from .c14 import measurement

FUN = ['SelfInitializingKalmanEstimator.update', 'SelfInitializingKalmanEstimator.active_estimator', 'SelfInitializingKalmanEstimator.estimate',
       'SelfInitializingKalmanEstimator.covariance', 'SelfInitializingKalmanEstimator.require_measurement', 'SelfInitializingKalmanEstimator.__init__']


def estimator_stub(c, base, tag, gates, log, ready=None, position=None):
    """contract of an estimator: an estimate (missing until ready), a covariance, requests, updates"""
    box = dict(ready=True if ready is None else ready, g=c.series(tag + '_gradient', gates), P=c.sym_matrix(tag + '_cov', gates),
               pos=position if position is not None else c.series(tag + '_position', gates))

    def update(self, position, value, variance, is_new_position=False):
        log.append((tag, 'update', c.snap(position), value, variance, is_new_position))
        if not box['ready']:
            box['ready'] = c.fork('complete')

    def require(self, gates=None, tuned_jacobian=None):
        log.append((tag, 'require', gates, tuned_jacobian))
        return box['request']
    box['request'] = c.series(tag + '_request', gates)
    e = c.make(base, update=update, require_measurement=require, estimate=lambda self: c.snap(box['g']) if box['ready'] else None,
               covariance=lambda self: c.snap(box['P']) if box['ready'] else None,
               current_position=property(lambda self: box['pos'], lambda self, v: log.append((tag, 'position', c.snap(v)))),
               change_position=lambda self, v: log.append((tag, 'change', c.snap(v))), restart=lambda self, v: log.append((tag, 'restart', c.snap(v))),
               to_hdf5=lambda self: {})
    return e, box


def library(c, log):
    """contract of the Kalman filter of the program: gradient and covariance are the initial ones until it is updated"""
    def make(*a, **k):
        log.append(('new', a, {x: c.snap(v) for x, v in k.items()}))
        g, P = k.get('initial_gradient'), k.get('initial_covariance_matrix')

        class F:
            grad = property(lambda self: c.row_array(g))
            cov = property(lambda self: c.mat_array(P))

            def update(self, *a, **k):
                log.append(('fed', a, k))
        return F()
    for m in (c.q.gradient, c.q.kalman_gradient):
        c.patch(m, 'KalmanGradient', make)


@contract('C27', FUN, budget=120)
def hand_over(c):
    gates = c.names('gates', nonempty=True)
    log = []
    library(c, log)
    f, box = estimator_stub(c, c.q.gradient.FiniteDifferencesGradientEstimator, 'fd', c.permuted('fd_order', gates), log, ready=False)
    limit = c.series('limit', c.permuted('limit_order', gates))
    eps = c.series('epsilon', c.permuted('epsilon_order', gates))
    alpha = c.real('alpha', positive=True)
    noisy = c.fork('noisy')
    noise = c.sym_matrix('noise', gates)
    opts = dict(alpha=alpha, process_noise=noise) if noisy else dict(alpha=alpha)
    e = c.run(c.q.gradient.SelfInitializingKalmanEstimator, f, None, dict(maximum_covariance=limit, epsilon=eps), dict(opts))
    c.ensure('no Kalman estimator yet', e.kalman_estimator is None)
    r = c.run(e.require_measurement, gates=gates)
    c.ensure('requests of the finite differences', c.And(c.series_same(r, box['request']), [x[:2] for x in log] == [('fd', 'require')]))
    c.ensure('for the given gates', all(c.is_true(c.index_same(x[2], gates)) for x in log))
    c.ensure('no estimate yet', c.And(e.estimate() is None, e.covariance() is None))
    del log[:]
    p, v, w = measurement(c, gates)
    psnap = c.snap(p)
    flag = c.fork('new_position')
    c.run(e.update, p, v, w, is_new_position=flag)
    ups = [x for x in log if x[:2] == ('fd', 'update')]
    c.ensure('the finite differences learn the measurement once', len(ups) == 1)
    for x in ups:
        c.ensure('exactly this measurement', c.And(c.series_same(x[2], psnap), c.eq(x[3], v), c.eq(x[4], w)))
    c.ensure('nothing is fed to a filter', not [x for x in log if x[0] == 'fed'])
    new = [x for x in log if x[0] == 'new']
    if not box['ready']:
        c.ensure('no hand-over before the set is complete', c.And(e.kalman_estimator is None, len(new) == 0))
        c.ensure('still the finite differences', c.And(e.active_estimator is f, e.estimate() is None))
        return
    k = e.kalman_estimator
    c.ensure('exactly one filter is started', len(new) == 1)
    c.ensure('handed over', k is not None)
    if k is None or len(new) != 1:
        return
    c.ensure('the Kalman estimator is active', e.active_estimator is k)
    _, a, kw = new[0]
    dims = (list(a) + [kw.get('n_pos_dim'), kw.get('n_values')] if not a else list(a) + [kw.get('n_values')])[:2]
    c.ensure('one dimension for each gate, one value', c.And(c.eq(dims[0], c.size(gates)), c.eq(dims[1], 1)))
    c.ensure('with the configured Kalman options', c.And(set(kw) - {'n_pos_dim', 'n_values', 'initial_gradient', 'initial_covariance_matrix'} == set(opts),
                                                         c.eq(kw.get('alpha'), alpha)))
    if noisy and 'process_noise' in kw:
        c.ensure('with the configured noise', c.matrix_same(kw['process_noise'], noise, gates))
    c.ensure('it starts with the gradient', c.series_same(e.estimate(), box['g']))
    c.ensure('it starts with the covariance', c.matrix_same(e.covariance(), box['P'], gates))
    c.ensure('based at the measured position', c.And(c.index_same(k.current_position.index, gates), c.all(gates, lambda g: c.eq(c.at(k.current_position, g), c.at(psnap, g)))))
    d = k.to_hdf5()
    c.ensure('based at the measured value', c.eq(d['current_value'], v))
    c.ensure('with the configured limit', c.series_same(d['maximum_covariance'], limit))
    c.ensure('with the configured step', c.series_same(d['epsilon'], eps))
    # and never again
    del log[:]
    c.run(e.update, *measurement(c, gates), is_new_position=True)
    c.ensure('handed over only once', c.And(e.kalman_estimator is k, not [x for x in log if x[0] == 'new']))


@contract('C27', FUN)
def after_hand_over(c):
    gates = c.names('gates', nonempty=True)
    log = []
    library(c, log)
    f, fbox = estimator_stub(c, c.q.gradient.FiniteDifferencesGradientEstimator, 'fd', gates, log, ready=c.fork('fd_ready'))
    k, box = estimator_stub(c, c.q.gradient.KalmanGradientEstimator, 'kalman', gates, log)
    e = c.run(c.q.gradient.SelfInitializingKalmanEstimator, f, k, dict(maximum_covariance=1., epsilon=1.), None)
    c.ensure('the Kalman estimator is active', e.active_estimator is k)
    c.ensure('its gradient', c.series_same(e.estimate(), box['g']))
    c.ensure('its covariance', c.matrix_same(e.covariance(), box['P'], gates))
    c.ensure('its position', c.series_same(e.current_position, box['pos']))
    J = c.matrix('tuned', c.names('tuned_params', nonempty=True), gates) if c.fork('tuned_given') else None
    some = c.permuted('some_order', c.subnames('some_gates', gates))
    r = c.run(e.require_measurement, gates=some, tuned_jacobian=J)
    c.ensure('its request', c.series_same(r, box['request']))
    q = [x for x in log if x[:2] == ('kalman', 'require')]
    c.ensure('asked once', len(q) == 1)
    for x in q:
        c.ensure('for the given gates in their order', c.index_order_same(x[2], some))
        c.ensure('with the given gradients', (x[3] is None) if J is None else (x[3] is not None))
    del log[:]
    p, v, w = measurement(c, gates)
    psnap = c.snap(p)
    flag = c.choice('flag', 3)
    c.run(e.update, p, v, w, **({} if flag == 0 else dict(is_new_position=flag == 2)))
    ups = [x for x in log if x[:2] == ('kalman', 'update')]
    c.ensure('it learns the measurement once', len(ups) == 1)
    for x in ups:
        c.ensure('exactly this measurement', c.And(c.series_same(x[2], psnap), c.eq(x[3], v), c.eq(x[4], w), c.eq(x[5], flag == 2)))
    c.ensure('no new hand-over', c.And(e.kalman_estimator is k, not [x for x in log if x[0] == 'new']))
    del log[:]
    c.run(e.change_position, psnap)
    c.ensure('position changes reach it', len([x for x in log if x[:2] == ('kalman', 'change')]) == 1)


@contract('C27', FUN + ['SelfInitializingKalmanEstimator.from_scratch', 'FiniteDifferencesGradientEstimator.update'], kind='concrete',
          note='complete programs with 1..3 gates on affine functions, real finite differences and real filter')
def complete_program(c):
    import numpy as np
    n = 1 + c.choice('dimension', 3)
    gates = c.names('gates', size=n)
    pos = c.series('position', gates)
    eps = c.make_series(gates, lambda g: 1. + abs(c.at(pos, g)))
    slope = c.series('slope', gates)
    off = c.real('offset')
    sym = c.fork('symmetric')
    e = c.run(c.q.gradient.SelfInitializingKalmanEstimator.from_scratch, c.snap(pos), eps, 1., sym)
    need = 2 * n if sym else n + 1
    val = lambda p: off + sum(p[g] * slope[g] for g in gates)
    for i in range(need):
        c.ensure('finite differences until complete', e.kalman_estimator is None)
        p = c.run(e.require_measurement)
        c.ensure('a measurement is requested', p is not None and set(p.index) == set(gates))
        if p is None:
            return
        c.run(e.update, p, val(p), .5, is_new_position=c.fork('new'))
    k = e.kalman_estimator
    c.ensure('handed over with the complete set', k is not None)
    if k is None:
        return
    scale = max(1., np.abs(slope).max())
    c.ensure('with the true gradient', np.allclose(e.estimate()[gates], slope[gates], rtol=1e-6, atol=1e-7 * scale))
    c.ensure('with the covariance of the finite differences', np.allclose(e.covariance(), e.finite_difference_estimator.covariance()))
    c.ensure('based at the last measurement', np.allclose(k.current_position[gates], p[gates]) and abs(k.to_hdf5()['current_value'] - val(p)) < 1e-9 * max(1., abs(val(p))))
