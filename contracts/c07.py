from dv.base import contract
from .tuners import *
from .c06 import measured
from .dots import dot_tuner
from .c08 import joined, factor

FUN = ['SubsetTuner.is_tuned', 'SubsetTuner.get_next_voltages', 'ParameterTuner.evaluate', 'Solver.rescale_values']


EVALUATION = 'the evaluation by all evaluators is replaced by its contract (evaluate_any_number of C06 and C08)'


@contract('C07', FUN, kind='bounded', note='1..2 evaluators are enumerated, parameters are unbounded', budget=120,
          cross='subset_failed_evaluation')
def subset_failure(c):
    failed_subset(c, subset_tuner(c, nev=2, queued=0))


@contract('C07', [f for f in FUN if 'evaluate' not in f], note=EVALUATION)
def subset_failed_evaluation(c):
    failed_subset(c, subset_tuner(c, nev=1, queued=0, replaced=True))


def failed_subset(c, s):
    t, log = s['t'], s['log']
    volts = c.series('voltages', s['gates'])
    vsnap = c.snap(volts)
    r = c.run(t.is_tuned, volts)
    ev = [e for e in log if e[0] == 'evaluate']
    c.ensure('evaluated', len(ev) == s['n'])
    if len(ev) != s['n']:
        return
    v, w = measured(c, s, log)
    c.assume(c.any(s['relevant'], lambda p: c.isnan(c.at(v, p))))
    c.reachable('failed evaluation')
    c.ensure('not tuned', c.is_false(r))
    c.ensure('the failure is recorded', c.is_true(t.last_evaluation_failed))
    c.ensure('the solver does not get the values', not [e for e in log if e[0] in ('update', 'position', 'suggest')])
    d = t.to_hdf5()
    c.ensure('not recorded as tuned', lists_same(c, d['tuned_voltages'], s['tuned']))
    c.ensure('not recorded as evaluatable', lists_same(c, d['evaluatable_voltages'], s['good']))
    c.ensure('the last voltages are these', c.series_same(t.last_voltages, vsnap))
    if not s['good']:
        return
    del log[:]
    p = c.run(t.get_next_voltages, tuned_parameters=set())
    g = s['good'][-1]
    c.ensure('retreat to the midpoint', c.And(c.is_series(p), c.index_same(p.index, s['gates']),
                                             c.all(s['gates'], lambda x: c.eq(c.at(p, x), (c.at(g, x) + c.at(vsnap, x)) * 0.5))))
    c.ensure('the solver is not asked', not log)
    d = t.to_hdf5()
    c.ensure('the retreat records nothing', c.And(lists_same(c, d['tuned_voltages'], s['tuned']), lists_same(c, d['evaluatable_voltages'], s['good'])))
    c.ensure('the failure state remains until an evaluation succeeds', c.is_true(t.last_evaluation_failed))


@contract('C07', [f for f in FUN if 'evaluate' not in f], note=EVALUATION)
def subset_recovery(c):
    s = subset_tuner(c, nev=1, queued=0, failed=True, replaced=True)
    t, log = s['t'], s['log']
    volts = c.series('voltages', s['gates'])
    c.run(t.is_tuned, volts)
    ev = [e for e in log if e[0] == 'evaluate']
    if len(ev) != s['n']:
        return
    v, w = measured(c, s, log)
    c.assume(c.all(s['relevant'], lambda p: c.Not(c.isnan(c.at(v, p)))))
    c.ensure('a successful evaluation ends the failure', c.is_false(t.last_evaluation_failed))
    del log[:]
    c.run(t.get_next_voltages)
    c.ensure('the solver is asked again', [e[0] for e in log] == ['suggest'])


@contract('C07', ['SubsetTuner.get_next_voltages'])
def subset_failed_state(c):
    """from any stored failure state"""
    s = subset_tuner(c, nev=1, failed=True)
    t, log = s['t'], s['log']
    c.assume(c.size(s['good']) > 0)
    p = c.run(t.get_next_voltages, tuned_parameters=None)
    g = s['good'][-1]
    c.ensure('midpoint between the last and the last evaluatable voltages',
             c.And(c.is_series(p), c.index_same(p.index, s['gates']),
                   c.all(s['gates'], lambda x: c.eq(c.at(p, x), (c.at(g, x) + c.at(s['last'], x)) * 0.5))))
    c.ensure('the solver is not asked', not log)
    c.ensure('the record is unchanged', c.And(lists_same(c, t.to_hdf5()['evaluatable_voltages'], s['good']), c.series_same(t.last_voltages, s['last'])))


DOT = ['SensingDotTuner.is_tuned', 'SensingDotTuner.get_next_voltages', 'SensingDotTuner.evaluate', 'Solver.rescale_values']


def failed_dot(c, s, volts, r):
    t, log = s['t'], s['log']
    c.ensure('not tuned', c.is_false(r))
    c.ensure('the failure is recorded', c.is_true(t.last_evaluation_failed))
    c.ensure('the solver does not get the values', not [e for e in log if e[0] in ('update', 'position', 'suggest')])
    d = t.to_hdf5()
    c.ensure('not recorded as tuned', lists_same(c, d['tuned_voltages'], s['tuned']))
    c.ensure('the last voltages are these', c.series_same(t.last_voltages, volts))
    if not s['tuned']:
        return
    del log[:]
    p = c.run(t.get_next_voltages, tuned_parameters=set())
    g = s['tuned'][-1]
    c.ensure('retreat to the midpoint', c.And(c.is_series(p), c.index_same(p.index, s['gates']),
                                             c.all(s['gates'], lambda x: c.eq(c.at(p, x), (c.at(g, x) + c.at(volts, x)) * 0.5))))
    c.ensure('the solver is not asked', not log)
    c.ensure('the retreat records nothing', lists_same(c, t.to_hdf5()['tuned_voltages'], s['tuned']))
    c.ensure('the failure state remains until an evaluation succeeds', c.is_true(t.last_evaluation_failed))


@contract('C07', DOT, kind='bounded', note='1..2 cheap and one expensive evaluator, parameters are unbounded', budget=120,
          cross='dot_failed_evaluation')
def dot_cheap_failure(c):
    cheap_failure(c, dot_tuner(c, 2, 1))


@contract('C07', [f for f in DOT if 'evaluate' not in f], note=EVALUATION, budget=120)
def dot_failed_evaluation(c):
    s = dot_tuner(c, 1, 1, replaced=True)
    if c.fork('cheap_fails'):
        cheap_failure(c, s)
    else:
        expensive_failure(c, s)


def cheap_failure(c, s):
    t, log = s['t'], s['log']
    volts = c.series('voltages', s['gates'])
    vsnap = c.snap(volts)
    r = c.run(t.is_tuned, volts)
    ev = [e for e in log if e[0] == 'evaluate']
    cheap = [e for e in ev if e[1][0] == 'cheap']
    if len(cheap) != s['n']:
        return
    raw = joined(c, cheap, 2)
    c.assume(c.any(s['cheap_params'], lambda p: c.isnan(raw(p))))
    c.reachable('failed evaluation')
    c.ensure('no expensive evaluation after a failure', len(ev) == len(cheap))
    failed_dot(c, s, vsnap, r)


@contract('C07', DOT, kind='bounded', note='one cheap and 1..2 expensive evaluators, parameters are unbounded', budget=120,
          cross='dot_failed_evaluation')
def dot_expensive_failure(c):
    expensive_failure(c, dot_tuner(c, 1, 2))


def expensive_failure(c, s):
    t, log = s['t'], s['log']
    volts = c.series('voltages', s['gates'])
    vsnap = c.snap(volts)
    r = c.run(t.is_tuned, volts)
    exp = [e for e in log if e[0] == 'evaluate' and e[1][0] == 'expensive']
    c.assume(len(exp) == s['m'])
    raw = joined(c, exp, 2)
    c.assume(c.any(s['expensive_params'], lambda p: c.isnan(raw(p))))
    c.reachable('failed evaluation')
    failed_dot(c, s, vsnap, r)


@contract('C07', [f for f in DOT if 'evaluate' not in f], note=EVALUATION, budget=120)
def dot_recovery(c):
    """a successful evaluation ends the failure state"""
    s = dot_tuner(c, 1, 1, replaced=True)
    t, log = s['t'], s['log']
    volts = c.series('voltages', s['gates'])
    r = c.run(t.is_tuned, volts)
    for e in [e for e in log if e[0] == 'evaluate']:
        c.assume(c.all(e[2].index, lambda p: c.Not(c.isnan(c.at(e[2], p)))))
    c.ensure('a successful evaluation ends the failure', c.is_false(t.last_evaluation_failed))
    del log[:]
    if c.is_true(r):
        return
    p = c.run(t.get_next_voltages, tuned_parameters=set())
    c.ensure('the solver is asked again', [e[0] for e in log] == ['suggest'])
    c.ensure('its suggestion is returned', c.series_same(p, log[0][1]))


@contract('C07', ['SensingDotTuner.get_next_voltages'])
def dot_failed_state(c):
    """from any stored state"""
    s = dot_tuner(c, 1, 1)
    t, log = s['t'], s['log']
    c.assume(c.size(s['tuned']) > 0)
    failed = c.is_true(t.last_evaluation_failed)
    p = c.run(t.get_next_voltages, tuned_parameters=None)
    g = s['tuned'][-1]
    if failed:
        c.ensure('midpoint between the last and the last tuned voltages',
                 c.And(c.is_series(p), c.index_same(p.index, s['gates']),
                       c.all(s['gates'], lambda x: c.eq(c.at(p, x), (c.at(g, x) + c.at(s['last'], x)) * 0.5))))
        c.ensure('the solver is not asked', not log)
    else:
        c.ensure('the solver is asked once', [e[0] for e in log] == ['suggest'])
        c.ensure('its suggestion is returned', len(log) == 1 and c.series_same(p, log[0][1]))
    c.ensure('the record is unchanged', c.And(lists_same(c, t.to_hdf5()['tuned_voltages'], s['tuned']), c.series_same(t.last_voltages, s['last'])))
