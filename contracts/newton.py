"""Builder of Newton solvers over estimators replaced by their contracts."""
from .common import *


def newton(c, nmax=3, est_more=True):
    log = []
    n = 1 + c.choice('number_of_parameters', nmax)
    params = c.names('params', size=n)
    gates = c.names('gates', nonempty=True)
    c.assume(c.size(gates) >= n)
    target = target_frame(c, 'target', params)
    ests = []
    for k in range(n):
        eg = c.super_names('estimator_gates%d' % k, gates)
        grad = c.series('gradient%d' % k, eg)
        ests.append(estimator(c, k, eg, grad, gates, log))
    pos = c.series('position', gates)
    cur = c.series('values', c.permuted('values_order', params))
    given = c.fork('values_given')
    s = c.run(c.q.solver.NewtonSolver, target, [e[0] for e in ests], c.snap(pos), c.snap(cur) if given else None)
    del log[:]
    return dict(s=s, log=log, n=n, params=params, plist=[params[i] for i in range(n)], gates=gates, target=target, ests=ests, pos=pos,
                cur=cur if given else None)


def any_newton(c, given_gradients=False):
    """Newton solver of any number of parameters; given_gradients: the gradients are entries of a table and the gates of an estimator too"""
    log, where = [], []
    params = c.names('params', nonempty=True)
    gates = c.names('gates', nonempty=True)
    n = c.size(params)
    c.assume(c.size(gates) >= n)
    target = target_frame(c, 'target', params)
    known = c.super_names('estimator_gates', gates) if given_gradients else None
    slopes, more = (c.matrix('gradients', params, known), c.matrix('known_if_positive', params, known)) if given_gradients else (None, None)

    def make(k, i):
        where.append(i)
        if given_gradients:
            p = c.name_at(params, i)
            eg = c.names_where('gates_of_estimator%d' % k, known, lambda g: c.Or(c.has(gates, g), c.mat_at(more, p, g) > 0))
            return estimator(c, k, eg, c.make_series(eg, lambda g: c.mat_at(slopes, p, g)), gates, log)[0]
        eg = c.super_names('estimator_gates%d' % k, gates)
        return estimator(c, k, eg, c.series('gradient%d' % k, eg), gates, log)[0]
    ests = c.many('estimators', make, length=n)
    pos, cur = c.series('position', gates), c.series('values', c.permuted('values_order', params))
    given = c.fork('values_given')
    s = c.run(c.q.solver.NewtonSolver, target, ests, c.snap(pos), c.snap(cur) if given else None)
    del log[:]
    return dict(s=s, log=log, n=n, params=params, gates=gates, target=target, where=where, pos=pos, ests=ests, cur=cur if given else None, slopes=slopes)


def estimator(c, k, eg, grad, gates, log):
    """contract of a gradient estimator: an estimate, perhaps a measurement request, an update"""
    kinds = {}

    def estimate(self):
        return c.snap(grad)

    def require_measurement(self, gates=None, tuned_jacobian=None):
        kind = c.choice('request%d' % k, 3)
        if kind == 0:
            r = None
        elif kind == 1:
            r = c.empty_series()
        else:
            r = c.series('requested%d' % k, c.subnames('requested_gates%d' % k, eg, nonempty=True))
        log.append(('require', k, gates, c.snap(tuned_jacobian), r, c.snap(r), kind))
        return r

    def update(self, position, value, variance, is_new_position=False):
        log.append(('update', k, c.snap(position), value, variance, is_new_position))

    def restart(self, new_position):
        log.append(('restart', k, c.snap(new_position)))
    e = c.make(c.q.gradient.GradientEstimator, estimate=estimate, require_measurement=require_measurement, update=update, restart=restart,
               current_position=property(lambda self: c.snap(grad)), to_hdf5=lambda self: {})
    return e, eg, grad
