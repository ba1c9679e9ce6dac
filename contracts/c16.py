"""Nelder-Mead: one step of the search from an arbitrary state of its invariant.

The cost function is the entry of an arbitrary parameter, so that the costs of different points are arbitrary."""
from dv.base import contract
from .common import *

FUN = ['NelderMeadSolver.update_after_step', 'NelderMeadSolver.suggest_next_position', 'NelderMeadSolver._insert_into_simplex',
       'NelderMeadSolver._get_sorted_simplex', 'NelderMeadSolver.get_costs', 'NelderMeadSolver.cost_function', 'NelderMeadSolver.__init__']
PHASES = ['start_iteration', 'reflect', 'expand', 'contract_outside', 'contract_inside', 'shrink']


def setting(c, nmax=3):
    n = 1 + c.choice('dimension', nmax)
    gates = c.names('gates', size=n)
    params = c.names('params', nonempty=True)
    p0 = c.pick('costly', params)
    target = target_frame(c, 'target', params)
    desired = c.snap(target['desired'])
    c.assume(c.all(params, lambda p: c.Not(c.isnan(c.at(desired, p)))))
    cost = lambda v: c.at(v, p0) - c.at(desired, p0)
    span = c.series('span', c.permuted('span_order', gates))
    return dict(n=n, gates=gates, params=params, p0=p0, target=target, desired=desired, cost=cost, span=span)


def point(c, s, name, extra=False):
    """position and values measured there"""
    g = c.super_names(name + '_gates', s['gates']) if extra else s['gates']
    p = c.super_names(name + '_params', s['params']) if extra else s['params']
    return c.series(name + '_position', g), c.series(name + '_values', p)


def same_point(c, s, a, b):
    return c.And(*[c.eq(c.at(a[0], g), c.at(b[0], g)) for g in s['gates']], c.all(s['params'], lambda p: c.eq(c.at(a[1], p), c.at(b[1], p))))


def solver(c, s, phase, simplex, reflected=None, shrunk=None):
    return c.run(c.q.solver.NelderMeadSolver, target=s['target'], simplex=[(c.snap(a), c.snap(b)) for a, b in simplex], span=s['span'],
                 current_position=c.snap(simplex[0][0]), current_values=c.snap(simplex[0][1]), reflected_point=reflected,
                 shrunk_points=shrunk, cost_function=lambda v: c.at(v, s['p0']), state=phase)


def built(c, s):
    """sorted complete simplex"""
    n = s['n']
    pts = [point(c, s, 'vertex%d' % i) for i in range(n + 1)]
    for a, b in zip(pts, pts[1:]):
        c.assume(s['cost'](a[1]) <= s['cost'](b[1]))
    return pts


def state_of(c, s, phase=None):
    """arbitrary state of the search once the simplex is built"""
    pts = built(c, s)
    f = s['cost']
    ph = PHASES[c.choice('phase', 6)] if phase is None else phase
    refl, shrunk = None, []
    if ph in ('expand', 'contract_outside', 'contract_inside', 'shrink'):
        refl = point(c, s, 'reflected')
        r = f(refl[1])
        if ph == 'expand':
            c.assume(r < f(pts[0][1]))
        elif ph == 'contract_outside':
            c.assume(c.And(r >= f(pts[-2][1]), r < f(pts[-1][1])))
        elif ph == 'contract_inside':
            c.assume(r >= f(pts[-1][1]))
        else:
            c.assume(r >= f(pts[-2][1]))
    if ph == 'shrink':
        shrunk = [point(c, s, 'shrunk%d' % i) for i in range(c.choice('number_shrunk', s['n']))]
    e = solver(c, s, ph, pts, refl, list(shrunk))
    return e, ph, pts, refl, shrunk


def vertices(c, s, e):
    out = []
    for x in e.simplex:
        ok = c.And(len(x) == 2, c.is_series(x[0]), c.is_series(x[1]))
        c.ensure('every vertex is a position with values', ok)
        c.ensure('on exactly the gates of the solver', c.index_same(x[0].index, s['gates']))
        c.ensure('with values of exactly the parameters', c.index_same(x[1].index, s['params']))
        out.append((x[0], x[1]))
    return out


def sorted_complete(c, s, vs):
    c.ensure('one more vertex than there are gates', len(vs) == s['n'] + 1)
    f = s['cost']
    for a, b in zip(vs, vs[1:]):
        c.ensure('sorted by cost', f(a[1]) <= f(b[1]))


def one_step(c, s, e, ph, pts, refl, shrunk):
    """one measured point in the given phase"""
    f = s['cost']
    pos, val = point(c, s, 'measured', extra=True)
    x = (c.snap(pos), c.snap(val))
    var = c.series('variances', s['params'])
    c.run(e.update_after_step, pos, val, var)
    vs = vertices(c, s, e)
    sorted_complete(c, s, vs)
    cand = pts + [x] + ([refl] if refl else []) + shrunk
    for v in vs:
        c.ensure('every vertex was measured', c.Or(*[same_point(c, s, v, k) for k in cand]))
    c.ensure('the best cost never increases', f(vs[0][1]) <= f(pts[0][1]))
    entered = c.Or(*[same_point(c, s, v, x) for v in vs])
    cx, worst = f(x[1]), f(pts[-1][1])
    if ph == 'start_iteration':
        c.ensure('a better point given unrequested enters', c.Implies(cx < worst, entered))
    elif ph == 'reflect':
        c.ensure('an accepted reflection enters', c.Implies(c.And(f(pts[0][1]) <= cx, cx < f(pts[-2][1])), entered))
    elif ph == 'expand':
        both = [c.Or(*[same_point(c, s, v, k) for v in vs]) for k in (x, refl)]
        c.ensure('the better one of reflection and expansion enters', c.And(c.Implies(cx < f(refl[1]), both[0]), c.Implies(cx >= f(refl[1]), both[1])))
    elif ph == 'contract_outside':
        c.ensure('a contraction better than the reflected point enters', c.Implies(cx < f(refl[1]), entered))
    elif ph == 'contract_inside':
        c.ensure('a contraction better than the worst vertex enters', c.Implies(cx < worst, entered))
    elif ph == 'shrink':
        done = len(shrunk) + 1 == s['n']
        if done:
            keep = [k for k in shrunk + [x]]
            for k in keep:
                c.ensure('shrunk points better than the worst vertex enter', c.Or(f(k[1]) >= f(vs[-1][1]), *[same_point(c, s, v, k) for v in vs]))
        else:
            c.ensure('the simplex waits for all shrunk points', c.And(*[same_point(c, s, a, b) for a, b in zip(vs, pts)]))
    c.ensure('the target is untouched', c.series_same(s['target']['desired'], s['desired']))
    c.ensure('the measured point is untouched', c.And(c.series_same(pos, x[0]), c.series_same(val, x[1])))
    return vs, x


def suggestion(c, s, e, ph, vs, nshrunk=0):
    """the next position is computed from the present simplex"""
    r = c.run(e.suggest_next_position, *([None] if c.fork('explicit') else []))
    c.ensure('covers exactly the gates', c.And(c.is_series(r), c.index_same(r.index, s['gates'])))
    n = s['n']
    for g in s['gates']:
        w = c.at(vs[-1][0], g)
        m = sum([c.at(v[0], g) for v in vs[1:]], c.at(vs[0][0], g)) / (n + 1)
        want = {'start_iteration': 2 * m - w, 'reflect': 2 * m - w, 'expand': m + 2 * (m - w), 'contract_outside': m + (m - w) / 2,
                'contract_inside': m + (w - m) / 2}.get(ph)
        if ph == 'shrink':
            want = (c.at(vs[0][0], g) + c.at(vs[nshrunk + 1][0], g)) / 2
        c.ensure('suggestion of the phase ' + ph, c.eq(c.at(r, g), want))
    now = vertices(c, s, e)
    c.ensure('a suggestion does not change the simplex', c.And(len(now) == len(vs), *[same_point(c, s, a, b) for a, b in zip(now, vs)]))
    return r


def next_phase(c, s, ph, pts, x, refl, nshrunk):
    """phase after the measurement x (each decision of the costs is a fork)"""
    f = s['cost']
    cx = f(x[1])
    if ph in ('start_iteration', 'expand'):
        return 'start_iteration', 0
    if ph == 'reflect':
        if cx < f(pts[0][1]):
            return 'expand', 0
        if cx >= f(pts[-2][1]):
            return ('contract_outside' if cx < f(pts[-1][1]) else 'contract_inside'), 0
        return None, 0
    if ph == 'contract_outside':
        return ('start_iteration' if cx < f(refl[1]) else 'shrink'), 0
    if ph == 'contract_inside':
        return ('start_iteration' if cx < f(pts[-1][1]) else 'shrink'), 0
    return ('shrink', nshrunk + 1) if nshrunk + 1 < s['n'] else ('start_iteration', 0)


@contract('C16', FUN, kind='bounded', note='1..3 gates are enumerated; any number of parameters, any position, any costs, every phase', budget=200, paths=40000)
def step_of_the_search(c):
    s = setting(c)
    e, ph, pts, refl, shrunk = state_of(c, s)
    one_step(c, s, e, ph, pts, refl, shrunk)


@contract('C16', FUN, kind='bounded', note='1..3 gates are enumerated', budget=120, paths=20000)
def suggestion_of_a_phase(c):
    s = setting(c)
    e, ph, pts, refl, shrunk = state_of(c, s)
    suggestion(c, s, e, ph, pts, len(shrunk))


@contract('C16', FUN, kind='bounded', note='1..2 gates, a measurement followed by a suggestion', budget=200, paths=40000)
def step_and_suggestion(c):
    s = setting(c, 2)
    e, ph, pts, refl, shrunk = state_of(c, s)
    vs, x = one_step(c, s, e, ph, pts, refl, shrunk)
    nxt, k = next_phase(c, s, ph, pts, x, refl, len(shrunk))
    suggestion(c, s, e, nxt or 'reflect', vs, k)


@contract('C16', FUN + ['NelderMeadSolver.from_scratch'], kind='bounded', note='1..3 gates are enumerated')
def build_up(c):
    s = setting(c)
    n = s['n']
    scratch = c.fork('from_scratch')
    pts = [point(c, s, 'start%d' % i) for i in range(1 if scratch else 1 + c.choice('collected', n))]
    k = len(pts)
    asked = []

    def orth(vectors):
        asked.append([c.snap(v) for v in vectors])
        return c.vector('direction', s['gates'])
    c.patch(c.q.solver, 'get_orthogonal_vector', orth)
    if scratch:
        e = c.run(c.q.solver.NelderMeadSolver.from_scratch, s['target'], s['span'], c.snap(pts[0][0]), c.snap(pts[0][1]))
    else:
        e = solver(c, s, 'built_up', pts)
    r = c.run(e.suggest_next_position)
    c.ensure('a direction orthogonal to the collected differences is used', len(asked) == 1)
    d = c.last_vector(s['gates'])
    for a in asked:
        ok = [c.Or(*[c.And(*[c.eq(c.at(v, g), c.at(p[0], g) - c.at(pts[0][0], g)) for g in s['gates']]) for v in a]) for p in pts[1:]]
        c.ensure('orthogonal to every collected difference', c.And(*ok))
    c.ensure('covers exactly the gates', c.index_same(r.index, s['gates']))
    for g in s['gates']:
        c.ensure('the start displaced by the span in that direction', c.eq(c.at(r, g), c.at(pts[0][0], g) + c.at(d, g) * c.at(s['span'], g)))
    pos, val = point(c, s, 'measured', extra=True)
    x = (c.snap(pos), c.snap(val))
    c.run(e.update_after_step, pos, val, c.series('variances', s['params']))
    vs = vertices(c, s, e)
    c.ensure('the measured point is collected', len(vs) == k + 1)
    for p in pts + [x]:
        c.ensure('nothing is lost while building up', c.Or(*[same_point(c, s, v, p) for v in vs]))
    if k + 1 == n + 1 and not scratch:
        sorted_complete(c, s, vs)


@contract('C16', ['NelderMeadSolver.cost_function', 'NelderMeadSolver.get_costs'], kind='bounded', note='1..3 parameters are enumerated')
def default_cost(c):
    m = 1 + c.choice('parameters', 3)
    gates, params = c.names('gates', size=1), c.names('params', size=m)
    target = target_frame(c, 'target', params)
    d = c.snap(target['desired'])
    c.assume(c.all(params, lambda p: c.Not(c.isnan(c.at(d, p)))))
    p, v = c.series('position', gates), c.series('values', c.permuted('order', params))
    e = c.run(c.q.solver.NelderMeadSolver, target=target, simplex=[(p, v)], span=c.series('span', gates), current_position=p, current_values=v)
    want = 0.
    for x in params:
        want = want + (c.at(v, x) - c.at(d, x)) * (c.at(v, x) - c.at(d, x))
    costs = c.run(e.get_costs)
    c.ensure('one cost for each vertex', len(costs) == 1)
    c.ensure('the squared distance to the desired values', c.eq(costs[0], want))


@contract('C16', FUN + ['NelderMeadSolver.from_scratch'], kind='concrete', note='searches of up to 40 steps with 1..3 gates, requested and unrequested points, real direction choice')
def complete_search(c):
    import numpy as np
    n = 1 + c.choice('dimension', 3)
    gates = c.names('gates', size=n)
    params = c.names('params', size=2)
    target = target_frame(c, 'target', params, full=True)
    a = c.matrix('slopes', params, gates)
    off = c.series('offset', params)
    sq = c.fork('quadratic')

    def f(p):
        v = off + a @ (p[gates] if isinstance(p, type(off)) else p)
        return v + (p[gates] ** 2).sum() if sq else v
    p0 = c.series('start', gates)
    span = c.make_series(gates, lambda g: 1.)
    e = c.run(c.q.solver.NelderMeadSolver.from_scratch, target, span, p0, f(p0))
    best, seen = np.inf, [(p0.copy(), f(p0))]
    d = target['desired']
    cost = lambda v: ((v - d) ** 2).sum()
    close = lambda x, y: np.allclose(x[0][gates], y[0][gates]) and np.allclose(x[1][params], y[1][params])
    for i in range(6 + c.choice('steps', 34)):
        jump = len(e.simplex) == n + 1 and c.choice('jump', 6) == 0
        if jump:
            p = c.series('jump', gates)
            if c.fork('reload'):
                e = c.run(c.q.solver.NelderMeadSolver, **e.to_hdf5())
            before = e.to_hdf5()['state']
        else:
            p = c.run(e.suggest_next_position)
        c.ensure('exactly the gates', set(p.index) == set(gates))
        c.run(e.update_after_step, p.copy(), f(p), f(p) * 0.)
        seen.append((p.copy(), f(p)))
        if len(e.simplex) == n + 1:
            costs = [cost(v) for _, v in e.simplex]
            c.ensure('sorted by cost', all(x <= y + 1e-9 * max(1, abs(y)) for x, y in zip(costs, costs[1:])))
            c.ensure('the best cost never increases', costs[0] <= best + 1e-9 * max(1, abs(best)))
            best = costs[0]
        else:
            c.ensure('complete', len(e.simplex) < n + 1 and i + 2 <= n)
        for v in e.simplex:
            c.ensure('every vertex was measured', any(close(v, k) for k in seen))
