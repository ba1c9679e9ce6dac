from dv.base import contract
from .tuners import *

FUN = ['SubsetTuner.get_next_voltages', 'SubsetTuner.__init__', 'ParameterTuner.__init__']


@contract('C05', FUN)
def limited_step(c):
    s = subset_tuner(c, nev=1, failed=False)
    t, log, last, size = s['t'], s['log'], s['last'], s['size']
    tuned = object()
    r = c.run(t.get_next_voltages, tuned_parameters=tuned)
    c.ensure('the solver is asked once', len(log) == 1 and log[0][0] == 'suggest')
    if not (len(log) == 1 and log[0][0] == 'suggest'):
        return
    c.ensure('with the tuned parameters', log[0][2] is tuned)
    sug = log[0][1]
    c.ensure('a voltage for every gate', c.And(c.is_series(r), c.index_same(r.index, s['gates'])))
    step = c.make_series(s['gates'], lambda g: c.ite(c.has(sug, g), c.at(sug, g) - c.at(last, g), 0.))
    length = c.norm(step)
    long = length > size
    q1 = t.to_hdf5()['number_queued_steps']
    c.ensure('gates which the solver does not suggest keep their value',
             c.all(s['gates'], lambda g: c.Implies(c.Not(c.has(sug, g)), c.eq(c.at(r, g), c.at(last, g)))))
    if long:
        c.reachable('shortened')
        c.ensure('shortened to the maximal size in the same direction',
                 c.all(s['gates'], lambda g: c.eq(c.at(r, g), c.at(last, g) + c.at(step, g) * (size / length))))
        if s['q0'] == 0:
            c.ensure('fewer further sub-steps than the maximal number', q1 < s['number'])
            c.ensure('fewer further sub-steps than maximal steps in the full step', q1 < c.floor_div(length, size))
            c.ensure('the number of sub-steps is not negative', q1 >= 0)
            c.ensure('as many sub-steps as allowed', c.Or(c.eq(q1 + 1, s['number']), c.eq(q1 + 1, c.floor_div(length, size))))
        else:
            c.ensure('one sub-step less', c.eq(q1, s['q0'] - 1))
    else:
        c.reachable('full step')
        c.ensure('a short step is taken unchanged', c.all(s['gates'], lambda g: c.eq(c.at(r, g), c.at(last, g) + c.at(step, g))))
        c.ensure('no sub-steps remain', c.eq(q1, 0))
    d = t.to_hdf5()
    c.ensure('the last voltages are unchanged', c.series_same(t.last_voltages, last))
    c.ensure('the records are unchanged', c.And(lists_same(c, d['evaluatable_voltages'], s['good']), lists_same(c, d['tuned_voltages'], s['tuned'])))
