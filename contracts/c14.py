from dv.base import contract
from .estim import *

FUN = ['KalmanGradientEstimator.update', 'KalmanGradientEstimator.__init__', 'KalmanGradientEstimator.estimate', 'KalmanGradientEstimator.covariance']


def measurement(c, gates):
    p = c.series('measured', c.permuted('measured_order', c.super_names('measured_gates', gates)))
    return p, c.real('measured_value'), c.real('measured_variance', positive=True)


def one_update(c, s, e, log, gates, base_p, base_v):
    """an update with base_v None (no baseline) or a number; returns the expected baseline"""
    p, v, w = measurement(c, gates)
    psnap = c.snap(p)
    mode = c.choice('flag', 3)
    est = c.snap(e.estimate())
    del log[:]
    if mode == 0:
        c.run(e.update, p, v, w)
    else:
        c.run(e.update, p, v, w, is_new_position=mode == 2)
    fed = [x for x in log if x[0] == 'filter']
    diff = c.make_series(gates, lambda g: c.at(psnap, g) - c.at(base_p, g))
    if base_v is None:
        c.ensure('without baseline nothing is fed', len(fed) == 0)
    else:
        c.ensure('at most one measurement is fed', len(fed) <= 1)
        c.ensure('nothing is fed if the position did not move', c.Implies(c.all(gates, lambda g: c.eq(c.at(diff, g), 0.)), len(fed) == 0))
        c.ensure('a measurement is fed if the position moved', c.Implies(c.any(gates, lambda g: abs(c.at(diff, g)) > 1e-6), len(fed) == 1))
        for _, dp, dv, cov, pcov, predict in fed:
            d = c.positional(dp, gates)
            c.ensure('one entry for each gate', d is not None)
            if d is not None:
                c.ensure('the change of position since the baseline', c.series_close(d, diff))
            c.ensure('the change of value since the baseline', c.eq(c.only(dv), v - base_v))
            c.ensure('the given variance', c.eq(c.only(cov), w))
            c.ensure('no other process noise', pcov is None)
    new = mode == 2 or base_v is None
    want_p, want_v = (psnap, v) if new else (base_p, base_v)
    c.ensure('the baseline position is replaced exactly if asked for or missing',
             c.And(c.index_same(e.current_position.index, gates), c.all(gates, lambda g: c.eq(c.at(e.current_position, g), c.at(want_p, g)))))
    c.ensure('the baseline value is replaced exactly if asked for or missing', c.eq(e.to_hdf5()['current_value'], want_v))
    c.ensure('the measured position is untouched', c.series_same(p, psnap))
    g = e.estimate()
    c.ensure('the estimate is the gradient of the filter', c.series_same(g, s['box']['g']))
    if not fed:
        c.ensure('the estimate is unchanged', c.series_same(g, est))
    C = e.covariance()
    c.ensure('the covariance is the one of the filter', c.matrix_same(C, s['box']['P'], gates))
    return want_p, want_v


@contract('C14', FUN, budget=120)
def kalman_update(c):
    gates = c.names('gates', nonempty=True)
    log = []
    s = kalman_estimator(c, gates, log)
    one_update(c, s, s['e'], log, gates, s['pos'], s['value'])


@contract('C14', FUN, kind='bounded', note='two successive updates', budget=150)
def two_updates(c):
    gates = c.names('gates', nonempty=True)
    log = []
    s = kalman_estimator(c, gates, log)
    p, v = one_update(c, s, s['e'], log, gates, s['pos'], s['value'])
    one_update(c, s, s['e'], log, gates, p, v)


def library_filter(c, log):
    """contract of filterpy's KalmanFilter: prediction and update replace state and covariance"""
    class Filter:
        def __init__(self, dim_x, dim_z, *a, **k):
            log.append(('new', dim_x, dim_z))
            self.dims = (dim_x, dim_z)

        def predict(self, *a, **k):
            log.append(('predict', a, dict(k)))

        def update(self, z, R=None, H=None):
            log.append(('update', z, R, H))
    for m in ('kalman_gradient',):
        c.patch(getattr(c.q, m), 'KalmanFilter', Filter)


KF = ['KalmanGradient.update', 'KalmanGradient.__init__', 'KalmanGradient.grad', 'KalmanGradient.cov']


@contract('C14', KF)
def filter_of_one_value(c):
    gates = c.names('gates', nonempty=True)
    log = []
    library_filter(c, log)
    g0, P0 = c.series('gradient', gates), c.sym_matrix('covariance', gates)
    n = c.size(gates)
    alpha = c.real('alpha', positive=True)
    noise = c.sym_matrix('noise', gates) if c.fork('noisy') else None
    R0 = c.real('default_variance', positive=True) if c.fork('default') else None
    k = c.run(c.q.kalman_gradient.KalmanGradient, n, 1, initial_gradient=g0, initial_covariance_matrix=P0,
              process_noise=noise, measurement_covariance_matrix=None if R0 is None else c.row_array(c.list_series(c.strs('x'), [R0])), alpha=alpha)
    g = c.positional(k.grad, gates)
    c.ensure('the initial gradient', c.And(g is not None, c.series_same(g, g0)))
    c.ensure('the shape of the gradient', c.And(c.eq(c.shape(k.grad)[0], 1), c.eq(c.shape(k.grad)[1], n)))
    c.ensure('the initial covariance', c.positional_matrix_same(k.cov, P0, gates))
    f = k.filter
    c.ensure('the filter has one state for each gate', c.And(c.eq(f.dims[0], n), c.eq(f.dims[1], 1)))
    c.ensure('no dynamics', c.positional_matrix_same(f.F, c.make_matrix(gates, gates, lambda a, b: c.ite(c.eq(a, b), 1., 0.)), gates))
    c.ensure('the process noise', c.positional_matrix_same(f.Q, noise if noise is not None else c.make_matrix(gates, gates, lambda a, b: 0.), gates))
    c.ensure('the fading memory', c.eq(f.alpha, alpha))
    if R0 is not None:
        c.ensure('the default variance', c.eq(c.only(f.R), R0))
    d, v, w = c.series('difference', gates), c.real('value'), c.real('variance', positive=True)
    given = c.fork('variance_given')
    options = dict(predict=False) if c.fork('without_prediction') else {}
    c.run(k.update, diff_position=d, diff_values=[v], measurement_covariance=w if given else None, **options)
    one_library_update(c, log, not options)
    ups = [x for x in log if x[0] == 'update']
    for _, z, R, H in ups:
        c.ensure('the change of the value', c.eq(c.only(z), v))
        c.ensure('the given variance', c.eq(c.only(R), w) if given else R is None)
        h = c.positional(H, gates)
        c.ensure('applied to the gradient of the value', c.And(h is not None, c.eq(c.shape(H)[0], 1), c.series_same(h, d)))


def one_library_update(c, log, predicted=True):
    pre, ups = [x for x in log if x[0] == 'predict'], [x for x in log if x[0] == 'update']
    c.ensure('exactly one update of the filter', len(ups) == 1)
    c.ensure('exactly one prediction before it, unless none is wanted', [x[0] for x in log if x[0] != 'new'] == ['predict'] * predicted + ['update'])
    c.ensure('with the configured process noise', all(not x[1] and x[2].get('Q') is None and set(x[2]) <= {'Q'} for x in pre))


@contract('C14', KF, kind='bounded', note='2..3 values and 1..3 gates are enumerated')
def filter_of_several_values(c):
    m, n = 2 + c.choice('values', 2), 1 + c.choice('dimension', 3)
    values, gates = c.names('values', size=m), c.names('gates', size=n)
    log = []
    library_filter(c, log)
    k = c.run(c.q.kalman_gradient.KalmanGradient, n, m)
    d, v = c.series('difference', gates), c.series('changes', values)
    R = c.sym_matrix('variances', values) if c.fork('given') else None
    c.run(k.update, d.values, v.values, R)
    one_library_update(c, log)
    for _, z, r, H in [x for x in log if x[0] == 'update']:
        zs = c.positional(z, values)
        c.ensure('the changes of the values', c.And(zs is not None, c.series_same(zs, v)))
        c.ensure('the given covariance', r is None if R is None else c.positional_matrix_same(r, R, values))
        ok = [c.eq(c.shape(H)[0], m), c.eq(c.shape(H)[1], m * n)]
        c.ensure('one row for each value', c.And(*ok))
        gl = [gates[i] for i in range(n)]
        c.ensure('each value acts on its own gradient entries',
                 c.And(*[c.eq(c.item(H, i, j), c.at(d, gl[j - i * n]) if i * n <= j < (i + 1) * n else 0.) for i in range(m) for j in range(m * n)]))


@contract('C14', KF, kind='concrete', note='the real filter of the library against the textbook posterior')
def posterior(c):
    import numpy as np
    m, n = 1 + c.choice('values', 2), 1 + c.choice('dimension', 3)
    gates = c.names('states', size=m * n)
    P0 = np.array(c.sym_matrix('covariance', gates)) + np.eye(m * n)
    x0 = np.array(c.series('gradient', gates), dtype=float)
    Q = np.array(c.sym_matrix('noise', gates)) if c.fork('noisy') else np.zeros((m * n, m * n))
    alpha = 1. if c.fork('no_fading') else 1.02
    k = c.run(c.q.kalman_gradient.KalmanGradient, n, m, initial_gradient=x0, initial_covariance_matrix=P0, process_noise=Q, alpha=alpha)
    x, P = x0.copy(), P0.copy()
    for step in range(2):
        d = np.array([c.real('d%d' % i) for i in range(n)])
        z = np.array([c.real('z%d' % i) for i in range(m)])
        R = np.diag([c.real('r%d' % i, positive=True) for i in range(m)])
        if c.fork('without_prediction'):
            c.run(k.update, d, z, R, predict=False)
        else:
            c.run(k.update, d, z, R)
            P = alpha ** 2 * P + Q
        H = np.zeros((m, m * n))
        for i in range(m):
            H[i, i * n:(i + 1) * n] = d
        S = H @ P @ H.T + R
        K = P @ H.T @ np.linalg.inv(S)
        x = x + K @ (z - H @ x)
        I = np.eye(m * n) - K @ H
        P = I @ P @ I.T + K @ R @ K.T
        c.ensure('the posterior gradient', k.grad.shape == (m, n) and np.allclose(k.grad.ravel(), x, rtol=1e-6, atol=1e-7 * max(1., np.abs(x).max())))
        c.ensure('the posterior covariance', k.cov.shape == P.shape and np.allclose(k.cov, P, rtol=1e-6, atol=1e-7 * max(1., np.abs(P).max())))
