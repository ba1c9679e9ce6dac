from dv.base import contract
from .estim import *

FUN = ['calculate_gradient_non_orthogonal', 'gradient_min_evaluations']
EST = ['FiniteDifferencesGradientEstimator.update', 'FiniteDifferencesGradientEstimator.estimate', 'FiniteDifferencesGradientEstimator.covariance',
       'calculate_gradient_non_orthogonal']
DIMS = 3


def points(c, gates, slope, n, twice=True):
    """n arbitrary positions with values that depend affinely on them; perhaps one position is measured twice"""
    off = c.real('offset')
    same = n > 1 and twice and c.fork('a_position_twice')
    pos = []
    for i in range(n):
        pos.append(c.snap(pos[-1]) if same and i == n - 1 else c.series('point%d' % i, gates))
    val = [sum([c.at(slope, g) * c.at(p, g) for g in gates], off) for p in pos]
    var = [c.real('variance%d' % i, positive=True) for i in range(n)]
    return pos, val, var


def table(c, gates, pos, pairs):
    return [[c.at(pos[j], g) - c.at(pos[i], g) for i, j in pairs] for g in gates]


def propagated(c, X, w):
    """inv(D)^T diag(w) inv(D)"""
    n = len(X)
    return [[sum([X[k][i] * w[k] * X[k][j] for k in range(1, n)], X[0][i] * w[0] * X[0][j]) for j in range(n)] for i in range(n)]


def pairings(n, symmetric):
    if symmetric:
        return [(2 * i, 2 * i + 1) for i in range(n)]
    return [(0, i) for i in range(1, n + 1)]


@contract('C13', FUN, kind='bounded', note='1..3 dimensions are enumerated; positions, slopes, offsets and variances are unbounded', budget=250)
def gradient_of_affine_values(c):
    n = 1 + c.choice('dimensions', DIMS)
    gates = c.names('gates', size=n)
    names = c.names_list(gates)
    slope = c.series('slope', gates)
    symmetric = c.fork('symmetric')
    number = (2 * n if symmetric else n + 1) + [0, 1, -1][c.choice('number', 3)]
    right = number in (n + 1, 2 * n)
    if number < 1:
        return
    pos, val, var = points(c, gates, slope, number)
    kind = c.choice('function', 3)
    arrs = [c.snap(p) if kind == 2 else c.flat_array(p) for p in pos]
    if kind == 0:
        o = c.call(c.q.util.gradient_min_evaluations, val, arrs)
    elif kind == 1:
        o = c.call(c.q.util.calculate_gradient_non_orthogonal, arrs, val)
    else:
        o = c.call(c.q.util.calculate_gradient_non_orthogonal, arrs, val, var)
    if not right:
        c.ensure('a wrong number of points is a runtime error', isinstance(o.exc, RuntimeError))
        return
    pairs = pairings(n, number != n + 1)
    X = c.inverse(table(c, names, pos, pairs))
    if X is None:
        c.ensure('degenerate differences are an evaluation error', isinstance(o.exc, c.q.util.EvaluationError))
        c.reachable('degenerate')
        return
    c.ensure('independent differences are accepted', o.exc is None)
    if o.exc is not None:
        return
    c.scale_inverse_identities([c.at(slope, g) for g in names])
    grad = o.value[0] if kind == 2 else o.value
    grad = c.positional(grad, gates)
    c.ensure('one entry for each gate', grad is not None)
    if grad is not None:
        c.ensure('the gradient is the slope', c.And(*[c.near(c.at(grad, g), c.at(slope, g)) for g in names]))
    if kind == 2:
        w = [var[i] + var[j] for i, j in pairs]
        want = propagated(c, X, w)
        got = o.value[1]
        c.ensure('the propagated covariance', c.And(c.eq(c.shape(got)[0], n), c.eq(c.shape(got)[1], n), *[
            c.near(c.item(got, i, j), want[i][j]) for i in range(n) for j in range(n)]))


@contract('C13', ['get_orthogonal_vector'], kind='bounded', note='2..3 dimensions and up to 2 vectors are enumerated; their entries are unbounded', budget=250)
def orthogonal_direction(c):
    n = 2 + c.choice('dimensions', 2)
    gates = c.names('gates', size=n)
    names = c.names_list(gates)
    k = 1 + c.choice('vectors', n - 1)
    vs = [c.series('vector%d' % i, gates) for i in range(k)]
    series = c.fork('labelled')
    given = [c.snap(v) if series else c.flat_array(v) for v in vs]
    r = c.run(c.q.util.get_orthogonal_vector, given)
    r = c.positional(r, gates)
    c.ensure('one entry for each gate', r is not None)
    if r is None:
        return
    c.scale_null_identities()
    sq = [c.at(r, g) * c.at(r, g) for g in names]
    c.ensure('a unit vector', c.near(sum(sq[1:], sq[0]), 1.))
    for v in vs:
        prod = [c.at(r, g) * c.at(v, g) for g in names]
        c.ensure('orthogonal to every given vector', c.near(sum(prod[1:], prod[0]), 0.))


def estimator(c, n, stored, slope, known=False):
    """real estimator with some measurements of affine values collected so far"""
    gates = slope.index
    symmetric = c.fork('symmetric')
    pos, eps = c.series('position', gates), c.series('epsilon', c.permuted('epsilon_order', gates))
    c.assume(c.all(gates, lambda g: c.at(eps, g) > 0))
    off = c.real('offset')
    value = lambda p: sum([c.at(slope, g) * c.at(p, g) for g in c.names_list(gates)], off)
    m = stored(2 * n if symmetric else n + 1)
    ps = [c.series('stored%d' % i, gates) for i in range(m)]
    ws = [c.real('variance%d' % i, positive=True) for i in range(m)]
    e = c.run(c.q.gradient.FiniteDifferencesGradientEstimator, current_position=c.snap(pos), epsilon=eps, symmetric=symmetric,
              stored_measurements=[(c.snap(p), value(p), w) for p, w in zip(ps, ws)])
    return dict(e=e, pos=pos, eps=eps, symmetric=symmetric, ps=ps, ws=ws, value=value, full=2 * n if symmetric else n + 1)


@contract('C13', EST, kind='bounded', note='1..3 dimensions and the number of collected measurements are enumerated; all numbers and orders are unbounded', budget=250)
def estimate_from_collected_measurements(c):
    n = 1 + c.choice('dimensions', DIMS)
    gates = c.names('gates', size=n)
    names = c.names_list(gates)
    slope = c.series('slope', gates)
    s = estimator(c, n, lambda full: full - 1 - c.choice('missing', 2 if n > 1 or full > 1 else 1), slope)
    e = s['e']
    last = c.series('measured', c.permuted('measured_order', c.super_names('measured_gates', gates)))
    centre = c.And(*[c.eq(c.at(last, g), c.at(s['pos'], g)) for g in names])
    if s['symmetric']:
        c.assume(c.Not(centre))
    w = c.real('measured_variance', positive=True)
    last0 = c.snap(last)
    if s['symmetric'] and c.fork('centre_measured'):
        # the tuner reports the evaluation of the centre itself as well
        c.ensure('the centre does not complete a symmetric set', c.And(
            c.call(e.update, c.snap(s['pos']), s['value'](s['pos']), c.real('centre_variance', positive=True)).ok, e.estimate() is None))
    o = c.call(e.update, last, s['value'](last), w)
    ps, ws = s['ps'] + [last], s['ws'] + [w]
    c.ensure('the measured position is untouched', c.series_same(last, last0))
    if len(ps) < s['full']:
        c.ensure('nothing is estimated from an incomplete set', c.And(o.exc is None, e.estimate() is None, e.covariance() is None))
        return
    c.reachable('full')
    pairs = pairings(n, True) if s['symmetric'] else [(n, n - 1 - i) for i in range(n)]
    X = c.inverse(table(c, names, ps, pairs))
    if X is None:
        c.ensure('degenerate differences are an evaluation error', isinstance(o.exc, c.q.util.EvaluationError))
        c.ensure('and leave no estimate', c.And(e.estimate() is None, e.covariance() is None))
        return
    c.ensure('independent differences are accepted', o.exc is None)
    if o.exc is not None:
        return
    c.scale_inverse_identities([c.at(slope, g) for g in names])
    grad, cov = e.estimate(), e.covariance()
    c.ensure('the estimate is known', c.And(c.is_series(grad), c.is_frame(cov)))
    if not c.is_series(grad) or not c.is_frame(cov):
        return
    c.ensure('the estimate has the gates of the estimator', c.index_same(grad.index, gates))
    c.ensure('the estimate is the slope', c.And(*[c.near(c.at(grad, g), c.at(slope, g)) for g in names]))
    c.ensure('the covariance has the gates of the estimator', c.And(c.index_same(cov.index, gates), c.index_same(cov.columns, gates)))
    want = propagated(c, X, [ws[i] + ws[j] for i, j in pairs])
    same = c.And(*[c.near(c.mat_at(cov, g, h), want[i][j]) for i, g in enumerate(names) for j, h in enumerate(names)])
    if not s['symmetric'] and n > 1:
        # differences to the first measurement are as good as differences to the last one
        alt = c.scratch_inverse(table(c, names, ps, pairings(n, False)))
        if alt is not None:
            want = propagated(c, alt, [ws[i] + ws[j] for i, j in pairings(n, False)])
            same = c.Or(same, c.And(*[c.near(c.mat_at(cov, g, h), want[i][j]) for i, g in enumerate(names) for j, h in enumerate(names)]))
    c.ensure('the propagated covariance', same)
    g0, v0 = c.snap(grad), c.snap(cov)
    c.run(e.update, c.snap(last), c.real('another_value'), w)
    c.ensure('a known estimate is kept', c.And(c.series_same(e.estimate(), g0), c.matrix_same(e.covariance(), v0, gates)))
    c.ensure('nothing is requested once the estimate is known', c.run(e.require_measurement) is None)


@contract('C13', ['FiniteDifferencesGradientEstimator.require_measurement', 'get_orthogonal_vector'], kind='bounded',
          note='1..3 dimensions and the number of collected measurements are enumerated; all numbers and orders are unbounded', budget=250)
def requests_leave_the_measured_span(c):
    n = 1 + c.choice('dimensions', DIMS)
    gates = c.names('gates', size=n)
    names = c.names_list(gates)
    slope = c.series('slope', gates)
    s = estimator(c, n, lambda full: c.choice('stored', full), slope)
    e, m, ps = s['e'], len(s['ps']), s['ps']
    r = c.run(e.require_measurement)
    c.ensure('a measurement is requested', r is not None)
    if r is None:
        return
    c.ensure('at the gates of the estimator', c.index_same(r.index, gates))
    step = [(c.at(r, g) - c.at(s['pos'], g)) / c.at(s['eps'], g) for g in names]
    c.scale_null_identities()
    if not s['symmetric'] and m == 0:
        c.ensure('the first measurement is the base point', c.And(*[c.near(x, 0.) for x in step]))
        return
    if s['symmetric'] and m % 2:
        c.ensure('the second of a pair is opposite of the first', c.And(*[
            c.near(c.at(r, g) - c.at(s['pos'], g), c.at(s['pos'], g) - c.at(ps[-1], g)) for g in names]))
        return
    sq = [x * x for x in step]
    c.ensure('a unit step in units of epsilon', c.near(sum(sq[1:], sq[0]), 1.))
    for i, j in ([(i, i + 1) for i in range(0, m, 2)] if s['symmetric'] else [(0, i) for i in range(1, m)]):
        prod = [x * (c.at(ps[j], g) - c.at(ps[i], g)) for x, g in zip(step, names)]
        c.ensure('orthogonal to every difference measured so far', c.near(sum(prod[1:], prod[0]), 0.))


@contract('C13', EST + ['FiniteDifferencesGradientEstimator.require_measurement', 'get_orthogonal_vector'], kind='concrete',
          note='executed with generated slopes, positions and step sizes; up to 5 dimensions')
def requested_sets_are_never_degenerate(c):
    n = 1 + c.choice('dimensions', 5)
    gates = c.names('gates', size=n)
    names = c.names_list(gates)
    slope = c.series('slope', gates)
    pos = c.series('position', gates)
    eps = {g: 0.25 * 2 ** c.choice('epsilon', 4) for g in names}
    eps = c.make_series(gates, lambda g: eps[g])
    symmetric = c.fork('symmetric')
    off = c.real('offset')
    later = c.fork('position_known_later')
    e = c.run(c.q.gradient.FiniteDifferencesGradientEstimator, current_position=None if later else c.snap(pos), epsilon=eps, symmetric=symmetric)
    if later:
        # the first evaluation tells the position; it is the base point of one-sided differences and no part of a symmetric set
        c.run(e.update, c.snap(pos), sum([c.at(slope, g) * c.at(pos, g) for g in names], off), 1.)
    for i in range(2 * n if symmetric else n + 1 - later):
        if symmetric and c.choice('centre_measured', 4) == 0:
            c.run(e.update, c.snap(pos), sum([c.at(slope, g) * c.at(pos, g) for g in names], off), 1.)
        c.ensure('no estimate before the last measurement', e.estimate() is None)
        r = c.run(e.require_measurement, names) if c.fork('gates_given') else c.run(e.require_measurement)
        if r is None:
            c.ensure('a measurement is requested', False)
            return
        v = sum([c.at(slope, g) * c.at(r, g) for g in names], off)
        c.run(e.update, r, v, 1.)
    g = e.estimate()
    c.ensure('the requested measurements give the slope', c.And(g is not None, *[c.near(c.at(g, x), c.at(slope, x)) for x in names]) if g is not None else False)
