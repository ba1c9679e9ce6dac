from dv.base import contract
from .newton import *

FUN = ['NewtonSolver.suggest_next_position', 'NewtonSolver.jacobian', 'NewtonSolver.__init__']


@contract('C09', FUN, kind='bounded', note='1..3 parameters are enumerated; gates and all numbers are unbounded', budget=200,
          cross='newton_step_any')
def newton_step(c):
    s = newton(c, 3)
    sol, log, n, gates, T = s['s'], s['log'], s['n'], s['gates'], s['target']
    c.assume(s['cur'] is not None)
    tuned = c.names('tuned_parameters')
    which = c.choice('tuned_given', 2)
    own = [c.has(tuned, p) if which else False for p in s['plist']]
    r = c.run(sol.suggest_next_position, tuned_parameters=c.as_set(tuned) if which else None)
    asked = [e for e in log if e[0] == 'require']
    wanted = [k for k in range(n) if c.is_true(c.Not(c.isnan(c.at(T['desired'], s['plist'][k]))))]
    req = [e for e in asked if e[6] == 2]
    if req:
        upto = wanted[:wanted.index(req[0][1]) + 1] if req[0][1] in wanted else []
        c.ensure('estimators of parameters with desired value are asked in order up to the first request', [e[1] for e in asked] == upto)
        c.ensure('the first request is returned unchanged', c.And(c.series_same(r, req[0][5]), c.series_same(req[0][4], req[0][5])))
    else:
        c.ensure('every estimator with a desired value is asked once in order', [e[1] for e in asked] == wanted)
    own = [k for k in range(n) if which and c.is_true(c.has(tuned, s['plist'][k]))]
    for e in asked:
        c.ensure('asked for the gates of the solver', c.index_order_same(e[2], gates))
        J = e[3]
        if not own:
            c.ensure('no gradients are given if none of its parameters is tuned', J is None)
            continue
        c.ensure('gradients are given if its parameters are tuned', c.is_frame(J))
        if not c.is_frame(J):
            continue
        c.ensure('one gradient for each tuned own parameter', c.rows(J) == len(own))
        if c.rows(J) == len(own):
            c.ensure('the gradients of exactly the tuned own parameters on the gates',
                     c.And(c.index_same(J.columns, gates),
                           *[c.all(gates, lambda g, i=i, k=k: c.eq(c.mat_iat(J, i, g), c.at(s['ests'][k][2], g))) for i, k in enumerate(own)]))
    if req:
        return
    c.ensure('a position for exactly the gates of the solver', c.And(c.is_series(r), c.index_same(r.index, gates)))
    if not c.is_series(r):
        return
    A = c.make_matrix(s['params'], gates, lambda p, g: c.select([(c.eq(p, s['plist'][k]), c.at(s['ests'][k][2], g)) for k in range(n)]))

    def diff(p):
        d = c.at(T['desired'], p)
        return c.ite(c.isnan(d), 0., d - c.at(s['cur'], p))
    b = c.make_series(s['params'], diff)
    x = c.lstsq(A, b)
    c.ensure('the least squares step is made', c.all(gates, lambda g: c.eq(c.at(r, g), c.at(s['pos'], g) + c.at(x, g))))
    c.ensure('position and values are unchanged', c.And(c.series_same(sol.current_position, s['pos']), c.series_same(sol.to_hdf5()['current_values'], s['cur'])))


@contract('C09', FUN, note='any number of parameters and gates, any of them tuned; every estimator knows the gates of the solver and any others', budget=200)
def newton_step_any(c):
    s = any_newton(c, given_gradients=True)
    sol, log, n, gates, T, params, where = s['s'], s['log'], s['n'], s['gates'], s['target'], s['params'], s['where']
    c.assume(s['cur'] is not None)
    c.forget_loops(s['ests'])
    tuned = c.names('tuned_parameters')
    which = c.choice('tuned_given', 2)
    own = (lambda i: c.has(tuned, c.name_at(params, i))) if which else lambda i: False
    r = c.run(sol.suggest_next_position, tuned_parameters=c.as_set(tuned) if which else None)
    asked = [e for e in log if e[0] == 'require']
    place = lambda e: where[e[1]]
    wanted = lambda i: c.Not(c.isnan(c.at(T['desired'], c.name_at(params, i))))
    req = [e for e in asked if e[6] == 2]
    for e in asked:
        c.ensure('only estimators of parameters with desired value are asked', wanted(place(e)))
        c.ensure('asked for the gates of the solver', c.index_order_same(e[2], gates))
        J, number = e[3], c.count(n, own) if which else 0
        if J is None:
            c.ensure('gradients are given if its parameters are tuned', c.eq(number, 0))
            continue
        c.ensure('no gradients are given if none of its parameters is tuned', number > 0)
        c.ensure('one gradient for each tuned own parameter', c.And(c.is_frame(J), c.eq(c.rows(J), number)))
        if which and c.is_frame(J) and c.is_true(c.eq(c.rows(J), number)):
            c.ensure('the gradients are given for exactly the gates', c.index_same(J.columns, gates))
            for i in c.each_place(n):
                p, row = c.name_at(params, i), c.rank(n, own, i)
                c.ensure('the gradients of the tuned own parameters, in order', c.Or(c.Not(own(i)), c.all(
                    gates, lambda g: c.eq(c.mat_iat(J, row, g), c.mat_at(s['slopes'], p, g)))))
    for a, b in zip(asked, asked[1:]):
        c.ensure('asked in order', place(a) < place(b))
    if req:
        c.ensure('nothing is asked after the first request', c.And(len(req) == 1, asked[-1] is req[0]))
        c.ensure('all estimators of parameters with desired value before are asked', c.And(*[
            c.Or(c.Not(wanted(i)), *[place(e) == i for e in asked]) for i in c.passed(place(asked[-1]))]))
        c.ensure('the first request is returned unchanged', c.And(c.series_same(r, req[0][5]), c.series_same(req[0][4], req[0][5])))
        return
    c.ensure('every estimator with a desired value is asked once', c.once_each(n, [place(e) for e in asked], wanted))
    c.ensure('a position for exactly the gates of the solver', c.And(c.is_series(r), c.index_same(r.index, gates)))
    if not c.is_series(r):
        return
    A = c.make_matrix(params, gates, lambda p, g: c.mat_at(s['slopes'], p, g))

    def diff(p):
        d = c.at(T['desired'], p)
        return c.ite(c.isnan(d), 0., d - c.at(s['cur'], p))
    x = c.lstsq(A, c.make_series(params, diff))
    c.ensure('the least squares step is made', c.all(gates, lambda g: c.eq(c.at(r, g), c.at(s['pos'], g) + c.at(x, g))))
    c.ensure('position and values are unchanged', c.And(c.series_same(sol.current_position, s['pos']), c.series_same(sol.to_hdf5()['current_values'], s['cur'])))
