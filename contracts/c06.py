from dv.base import contract
from .tuners import *

FUN = ['SubsetTuner.is_tuned', 'ParameterTuner.evaluate', 'Solver.rescale_values', 'SubsetTuner.__init__', 'ParameterTuner.__init__']


def measured(c, s, log):
    """by-name raw values and variances of the evaluations in the log"""
    ev = [e for e in log if e[0] == 'evaluate']

    def val(p, i):
        x = c.at(ev[-1][i], p)
        for e in ev[:-1]:
            x = c.ite(c.has(e[i], p), c.at(e[i], p), x)
        return x
    f = s['target']['rescaling_factor']
    v = c.make_series(s['params'], lambda p: val(p, 2) / c.at(f, p))
    w = c.make_series(s['params'], lambda p: val(p, 3) / (c.at(f, p) * c.at(f, p)))
    return v, w


@contract('C06', FUN, kind='bounded', note='1..2 evaluators are enumerated, parameters are unbounded', budget=150,
          cross='verdict_on_an_evaluation, evaluate_any_number')
def verdict(c):
    judged(c, subset_tuner(c, nev=2, queued=0))


@contract('C06', ['SubsetTuner.is_tuned', 'Solver.rescale_values', 'SubsetTuner.__init__', 'ParameterTuner.__init__'],
          note='the evaluation by all evaluators is replaced by its contract (evaluate_any_number)')
def verdict_on_an_evaluation(c):
    judged(c, subset_tuner(c, nev=1, queued=0, replaced=True))


def judged(c, s):
    t, log = s['t'], s['log']
    tsnap = c.snap(s['target'])
    volts = c.series('voltages', s['gates'])
    vsnap = c.snap(volts)
    r = c.run(t.is_tuned, volts)
    ev = [e for e in log if e[0] == 'evaluate']
    c.ensure('every evaluator is used exactly once', sorted(e[1] for e in ev) == list(range(s['n'])))
    if len(ev) != s['n']:
        return
    v, w = measured(c, s, log)
    c.assume(c.all(s['relevant'], lambda p: c.Not(c.isnan(c.at(v, p)))))
    T = tsnap

    def met(p):
        d = c.at(T['desired'], p) - c.at(v, p)
        tol = c.at(T['tolerance'], p)
        a = c.ite(c.isnan(d), 0., abs(d))
        return c.Or(c.isnan(tol), a < tol)
    allmet = c.all(s['params'], met)
    c.ensure('the verdict is a truth value', c.Or(c.is_true(r), c.is_false(r)))
    c.ensure('tuned if and only if every distance is below its tolerance', c.Iff(c.is_true(r), allmet))
    ups = [e for e in log if e[0] == 'update']
    c.ensure('the solver learns the evaluation once', len(ups) == 1)
    c.ensure('the solver is not moved otherwise', not [e for e in log if e[0] in ('position', 'suggest')])
    if len(ups) == 1:
        c.ensure('at these voltages', c.series_same(ups[0][1], vsnap))
        c.ensure('exactly the rescaled values', c.series_close(ups[0][2], v))
        c.ensure('exactly the rescaled variances', c.series_close(ups[0][3], w))
    d = t.to_hdf5()
    tv = d['tuned_voltages']
    c.ensure('recorded as tuned only if tuned', c.Implies(c.Not(c.is_true(r)), lists_same(c, tv, s['tuned'])))
    c.ensure('recorded as tuned if tuned', c.Implies(c.is_true(r), lists_same(c, tv, s['tuned'] + [vsnap])))
    c.ensure('recorded as evaluatable', lists_same(c, d['evaluatable_voltages'], s['good'] + [vsnap]))
    c.ensure('the last voltages are these', c.series_same(t.last_voltages, vsnap))
    c.ensure('the evaluation has not failed', c.is_false(t.last_evaluation_failed))
    lv, lw = t.last_parameters_and_variances
    c.ensure('last values are the rescaled ones', c.And(c.index_same(lv.index, s['relevant']), c.all(s['relevant'], lambda p: c.eq(c.at(lv, p), c.at(v, p)))))
    c.ensure('last variances are the rescaled ones', c.And(c.index_same(lw.index, s['relevant']), c.all(s['relevant'], lambda p: c.eq(c.at(lw, p), c.at(w, p)))))
    c.ensure('the target is unchanged', c.frame_same(tsnap, s['target'], CATS))


@contract('C06', FUN)
def queued_steps(c):
    s = subset_tuner(c, nev=1)
    c.assume(c.Not(c.eq(s['q0'], 0)))
    t, log = s['t'], s['log']
    volts = c.series('voltages', s['gates'])
    vsnap = c.snap(volts)
    r = c.run(t.is_tuned, volts)
    c.ensure('not tuned', c.is_false(r))
    c.ensure('nothing is evaluated', not [e for e in log if e[0] in ('evaluate', 'update', 'suggest')])
    mv = [e for e in log if e[0] == 'position']
    c.ensure('the solver is moved to the voltages', len(mv) == 1)
    if len(mv) == 1:
        c.ensure('to exactly these voltages', c.series_same(mv[0][1], vsnap))
    d = t.to_hdf5()
    c.ensure('the queue is unchanged', c.eq(d['number_queued_steps'], s['q0']))
    c.ensure('no records', c.And(lists_same(c, d['evaluatable_voltages'], s['good']), lists_same(c, d['tuned_voltages'], s['tuned'])))
    c.ensure('the last voltages are these', c.series_same(t.last_voltages, vsnap))
    lv, lw = t.last_parameters_and_variances
    c.ensure('last values unchanged', c.And(c.series_same(lv, s['lastv']), c.series_same(lw, s['lastw'])))


@contract('C06', ['SubsetTuner.is_tuned', 'SubsetTuner.get_next_voltages'])
def records_are_not_aliased(c):
    """recorded voltages keep their values when the group moves on"""
    s = subset_tuner(c, nev=1, queued=0, failed=False)
    t = s['t']
    volts = c.series('voltages', s['gates'])
    vsnap = c.snap(volts)
    r = c.run(t.is_tuned, volts)
    n1 = c.size(t.to_hdf5()['evaluatable_voltages'])
    if n1 != c.size(s['good']) + 1:
        return
    c.run(t.get_next_voltages)
    c.run(t.restart, c.series('other_voltages', s['gates']))
    d = t.to_hdf5()
    c.ensure('evaluatable voltages keep their values', lists_same(c, d['evaluatable_voltages'], s['good'] + [vsnap]))
    c.ensure('tuned voltages keep their values', lists_same(c, d['tuned_voltages'], s['tuned'] + ([vsnap] if c.size(d['tuned_voltages']) > c.size(s['tuned']) else [])))


@contract('C06', ['ParameterTuner.evaluate', 'ParameterTuner.__init__'], note='any number of evaluators, any parameters, some of them without target')
def evaluate_any_number(c):
    gates = c.names('gates', nonempty=True)
    log = []
    measured_names = c.names('evaluator_params', nonempty=True)
    evs, n, where = any_evaluators(c, 'all', measured_names, log)
    params = c.permuted('params', c.subnames('target_params', measured_names))
    target = target_frame(c, 'target', params)
    ok = not_na_params(c, target, params)
    relevant = c.subnames('relevant', params)
    c.assume(c.all(params, lambda p: c.Implies(ok(p), c.has(relevant, p))))
    lv, lw = [c.series(x, relevant, nan=True) for x in ('last_values', 'last_variances')]
    t = c.run(c.q.parameter_tuner.SubsetTuner, evaluators=evs, gates=c.names_list(gates), solver=solver(c, gates, target, log),
              last_voltage=c.series('last_voltage', gates), last_parameter_values=lv, last_parameters_variances=lw)
    c.forget_loops(evs)
    del log[:]
    r = c.call(t.evaluate)
    reported(c, r, log, n, where, lambda ix: c.index_same(ix, params))
