"""Builders of gradient estimators."""
from .common import *


def filter_stub(c, gates, log, name='filter'):
    """Kalman filter contract: an arbitrary gradient and covariance (in the order of its gates); an update replaces them"""
    box = dict(g=c.series(name + '_gradient', gates), P=c.sym_matrix(name + '_covariance', gates), n=0)

    def update(self, diff_position, diff_values, measurement_covariance=None, process_covariance=None, predict=True):
        log.append(('filter', c.snap(diff_position), c.snap(diff_values), c.snap(measurement_covariance), process_covariance, predict))
        box['n'] += 1
        box['g'] = c.series(name + '_gradient', gates)
        box['P'] = c.sym_matrix(name + '_covariance', gates)
    f = c.make(c.q.kalman_gradient.KalmanGradient, update=update, grad=property(lambda self: c.row_array(box['g'])),
               cov=property(lambda self: c.mat_array(box['P'])), to_hdf5=lambda self: {})
    return f, box


def kalman_estimator(c, gates, log, value=None, inf=False, name='kalman'):
    """real Kalman estimator over the filter contract; value: None arbitrary, True given, False missing"""
    f, box = filter_stub(c, gates, log, name + '_filter')
    pos = c.series(name + '_position', gates)
    limit = c.series(name + '_limit', c.permuted(name + '_limit_order', gates), inf=inf, positive=True)
    eps = c.series(name + '_epsilon', c.permuted(name + '_epsilon_order', gates))
    have = c.fork(name + '_has_value') if value is None else value
    v = c.real(name + '_value') if have else None
    e = c.run(c.q.gradient.KalmanGradientEstimator, f, c.snap(pos), limit, eps, v)
    return dict(e=e, filter=f, box=box, pos=pos, limit=limit, eps=eps, value=v)


def finite_estimator(c, gates, stored=0, known=None, name='fd'):
    """real finite-difference estimator; stored: number of measurements collected so far"""
    pos = c.series(name + '_position', gates)
    eps = c.series(name + '_epsilon', c.permuted(name + '_epsilon_order', gates))
    sym = c.fork(name + '_symmetric')
    points = [(c.series(name + '_point%d' % i, gates), c.real(name + '_value%d' % i), c.real(name + '_variance%d' % i, positive=True))
              for i in range(stored)]
    est = c.series(name + '_estimate', gates) if known else None
    cov = c.matrix(name + '_covariance', gates, gates) if known else None
    e = c.run(c.q.gradient.FiniteDifferencesGradientEstimator, current_position=c.snap(pos), epsilon=eps, symmetric=sym, current_estimate=est,
              covariance=cov, stored_measurements=[(c.snap(p), v, w) for p, v, w in points])
    return dict(e=e, pos=pos, eps=eps, sym=sym, points=points, est=est, cov=cov)
