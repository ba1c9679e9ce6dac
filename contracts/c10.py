from dv.base import contract
from .newton import *

FUN = ['NewtonSolver.update_after_step', 'NewtonSolver.__init__']


@contract('C10', FUN, kind='bounded', note='1..3 parameters are enumerated; gates, orders and all numbers are unbounded', budget=200, cross='updates_of_any_number')
def updates_reach_their_estimator(c):
    s = newton(c, 3)
    sol, log, n, gates, T = s['s'], s['log'], s['n'], s['gates'], s['target']
    measured = c.super_names('measured_gates', gates)
    m = c.series('measured_position', measured)
    v = c.series('measured_values', c.super_names('value_names', c.permuted('value_order', s['params'])))
    w = c.series('measured_variances', c.super_names('variance_names', c.permuted('variance_order', s['params'])))
    m0, v0, w0, T0 = c.snap(m), c.snap(v), c.snap(w), c.snap(T)
    c.run(sol.update_after_step, m, v, w)
    ups = [e for e in log if e[0] == 'update']
    wanted = [k for k in range(n) if c.is_true(c.Not(c.isnan(c.at(T0['desired'], s['plist'][k]))))]
    c.ensure('exactly the estimators of parameters with desired value, once each', sorted(e[1] for e in ups) == wanted)
    c.ensure('nothing else', len(log) == len(ups))
    for e in ups:
        p = s['plist'][e[1]]
        c.ensure('with the measured position', c.series_same(e[2], m0))
        c.ensure('with the value of its parameter', c.eq(e[3], c.at(v0, p)))
        c.ensure('with the variance of its parameter', c.eq(e[4], c.at(w0, p)))
        c.ensure('flagged as new position', c.is_true(e[5]))
    cp, cv = sol.current_position, sol.to_hdf5()['current_values']
    c.ensure('the position of exactly its gates', c.And(c.index_same(cp.index, gates), c.all(gates, lambda g: c.eq(c.at(cp, g), c.at(m0, g)))))
    c.ensure('the values of exactly its parameters', c.And(c.index_same(cv.index, s['params']),
                                                          *[c.eq(c.at(cv, p), c.at(v0, p)) for p in s['plist']]))
    c.ensure('the target is unchanged', c.frame_same(T0, T, CATS))
    c.ensure('the measurement is not changed', c.And(c.series_same(m, m0), c.series_same(v, v0), c.series_same(w, w0)))


@contract('C10', FUN, note='any number of parameters')
def updates_of_any_number(c):
    s = any_newton(c)
    sol, log, gates, T, params, where = s['s'], s['log'], s['gates'], s['target'], s['params'], s['where']
    m = c.series('measured_position', c.super_names('measured_gates', gates))
    v = c.series('measured_values', c.super_names('value_names', c.permuted('value_order', params)))
    w = c.series('measured_variances', c.super_names('variance_names', c.permuted('variance_order', params)))
    m0, v0, w0, T0 = c.snap(m), c.snap(v), c.snap(w), c.snap(T)
    c.forget_loops()
    c.run(sol.update_after_step, m, v, w)
    c.ensure('exactly the estimators of parameters with desired value, once each', c.And(
        all(e[0] == 'update' for e in log),
        c.once_each(s['n'], [where[e[1]] for e in log], lambda i: c.Not(c.isnan(c.at(T0['desired'], c.name_at(params, i)))))))
    for e in log:
        p = c.name_at(params, where[e[1]])
        c.ensure('with the measured position', c.series_same(e[2], m0))
        c.ensure('with the value of its parameter', c.eq(e[3], c.at(v0, p)))
        c.ensure('with the variance of its parameter', c.eq(e[4], c.at(w0, p)))
        c.ensure('flagged as new position', c.is_true(e[5]))
    cp, cv = sol.current_position, sol.to_hdf5()['current_values']
    c.ensure('the position of exactly its gates', c.And(c.index_same(cp.index, gates), c.all(gates, lambda g: c.eq(c.at(cp, g), c.at(m0, g)))))
    c.ensure('the values of exactly its parameters', c.And(c.index_same(cv.index, params), c.all(params, lambda p: c.eq(c.at(cv, p), c.at(v0, p)))))
    c.ensure('the target is unchanged', c.frame_same(T0, T, CATS))
    c.ensure('the measurement is not changed', c.And(c.series_same(m, m0), c.series_same(v, v0), c.series_same(w, w0)))
