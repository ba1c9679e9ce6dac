from dv.base import contract
from .estim import *

FUN = ['KalmanGradientEstimator.require_measurement', 'KalmanGradientEstimator.__init__']


def state(c, e):
    h = e.to_hdf5()
    return c.snap(h['current_position']), h['current_value'], c.snap(h['epsilon']), c.snap(h['maximum_covariance'])


def same_state(c, a, b):
    v = c.is_true(a[1] is None) and c.is_true(b[1] is None) if a[1] is None or b[1] is None else c.eq(a[1], b[1])
    return c.And(c.series_same(a[0], b[0]), v, c.series_same(a[2], b[2]), c.series_same(a[3], b[3]))


@contract('C15', FUN, budget=200)
def request_by_uncertainty(c):
    """no tuned gradients: the request is decided by the covariance restricted to the given gates"""
    gates = c.names('gates', nonempty=True)
    log = []
    s = kalman_estimator(c, gates, log, value=True, inf=True)
    e, P, eps, limit = s['e'], s['box']['P'], s['eps'], s['limit']
    if c.fork('gates_given'):
        sub = c.permuted('used_order', c.subnames('used', gates, nonempty=True))
        given = [c.names_list(sub)]
    else:
        sub, given = gates, []
    before = state(c, e)
    axis, w, V = c.eigen(c.make_matrix(sub, sub, lambda g, h: c.mat_at(P, g, h)))

    length = c.column_norms(sub, axis, lambda g, k: w(k) * V(g, k) / c.at(limit, g))
    c.avoid_ties(lambda: [(length(k), 1.) for k in axis] + [(x, y) for k in axis for j in axis if j < k
                                                            for x, y in ((length(k), length(j)), (w(k), w(j)))])
    r = c.run(e.require_measurement, *given)
    need = c.any(axis, lambda k: length(k) > 1)
    c.ensure('requested exactly if the scaled uncertainty exceeds the limit', c.Iff(need, r is not None))
    if r is not None:
        c.ensure('all gates of the estimator', c.index_same(r.index, gates))
        c.ensure('gates not given do not move', c.all(gates, lambda g: c.Implies(c.Not(c.has(sub, g)), c.eq(c.at(r, g), c.at(s['pos'], g)))))

        def along(k, sign):
            return c.all(sub, lambda g: c.eq(c.at(r, g), c.at(s['pos'], g) + sign * c.at(eps, g) * V(g, k)))
        k, tie = c.arg_max(axis, length)
        c.ensure('displaced along the direction of the largest scaled uncertainty', c.Or(tie, along(k, 1), along(k, -1)))
        c.reachable('request')
    else:
        c.reachable('no request')
    c.ensure('no state changes', same_state(c, before, state(c, e)))
    c.ensure('the filter is not updated', not log)


@contract('C15', FUN, kind='bounded', note='at most 2 null vectors are enumerated; tuned parameters, gates, orders and all numbers are unbounded', budget=200)
def request_beside_tuned_gradients(c):
    """with the gradients of tuned parameters: the request is decided by the variance along their null space"""
    gates = c.names('gates', nonempty=True)
    log = []
    s = kalman_estimator(c, gates, log, value=True, inf=True)
    e, P, eps, limit = s['e'], s['box']['P'], s['eps'], s['limit']
    cols = c.permuted('columns_order', c.subnames('columns', gates, nonempty=True))
    J = c.matrix('tuned', c.names('tuned_parameters', nonempty=True), cols)
    J0 = c.snap(J)
    before = state(c, e)
    units = []
    for v in c.null_basis(J):
        n = c.norm(v)
        full = c.make_series(gates, lambda g, v=v, n=n: c.ite(c.has(cols, g), c.at(v, g) / n, 0.))
        units.append((full, c.quad(full, P)))
    top = c.at(limit, c.arg_max(gates, lambda g: c.at(limit, g))[0])
    c.avoid_ties(lambda: [(q, top) for _, q in units] + [(units[i][1], units[j][1]) for i in range(len(units)) for j in range(i)])
    r = c.run(e.require_measurement, c.names_list(cols), tuned_jacobian=J)
    need = c.Or(*[q > top for _, q in units])
    c.ensure('requested exactly if the variance along a null direction exceeds the largest limit', c.Iff(need, r is not None))
    if r is not None:
        c.ensure('all gates of the estimator', c.index_same(r.index, gates))
        best, tie = 0, False
        for i in range(1, len(units)):
            if units[i][1] > units[best][1]:
                best = i
        for i in range(len(units)):
            if i != best:
                tie = c.Or(tie, c.eq(units[i][1], units[best][1]))
        u = units[best][0] if units else s['pos']
        c.ensure('displaced along the null direction of largest variance', c.Or(
            tie, c.all(gates, lambda g: c.eq(c.at(r, g), c.at(s['pos'], g) + c.at(eps, g) * c.at(u, g)))))
        c.ensure('other gates do not move', c.all(gates, lambda g: c.Implies(c.Not(c.has(cols, g)), c.eq(c.at(r, g), c.at(s['pos'], g)))))
        c.reachable('request')
    else:
        c.reachable('no request')
    c.ensure('no state changes', same_state(c, before, state(c, e)))
    c.ensure('the gradients are untouched', c.And(c.index_order_same(J.index, J0.index), c.index_order_same(J.columns, J0.columns), c.all(
        J0.index, lambda p: c.all(J0.columns, lambda g: c.eq(c.mat_at(J, p, g), c.mat_at(J0, p, g))))))
    c.ensure('the filter is not updated', not log)
