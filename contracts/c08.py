from dv.base import contract
from .dots import *

FUN = ['SensingDotTuner.is_tuned', 'SensingDotTuner.evaluate', 'SensingDotTuner.__init__', 'Solver.rescale_values']


def factor(c, T, p):
    return c.ite(c.has(T['rescaling_factor'], p), c.at(T['rescaling_factor'], p), 1.)


def joined(c, evs, i):
    """by-name combination of the evaluation results"""
    def val(p):
        x = c.at(evs[-1][i], p)
        for e in evs[:-1]:
            x = c.ite(c.has(e[i], p), c.at(e[i], p), x)
        return x
    return val


def known(c, evs, p):
    return c.Or(*[c.has(e[2], p) for e in evs])


@contract('C08', FUN, kind='bounded', note='1..2 cheap and 1..2 expensive evaluators are enumerated, parameters are unbounded', budget=200,
          cross='judged_on_evaluations, evaluate_any_number')
def judged_by_minima(c):
    judged(c, dot_tuner(c, 2, 2))


@contract('C08', ['SensingDotTuner.is_tuned', 'SensingDotTuner.__init__', 'Solver.rescale_values'], budget=200,
          note='the evaluations by all cheap and all expensive evaluators are replaced by their contract (evaluate_any_number)')
def judged_on_evaluations(c):
    judged(c, dot_tuner(c, 1, 1, replaced=True))


def judged(c, s):
    t, log, T = s['t'], s['log'], c.snap(s['target'])
    volts = c.series('voltages', s['gates'])
    vsnap = c.snap(volts)
    r = c.run(t.is_tuned, volts)
    ev = [e for e in log if e[0] == 'evaluate']
    cheap = [e for e in ev if e[1][0] == 'cheap']
    exp = [e for e in ev if e[1][0] == 'expensive']
    c.ensure('each cheap evaluator is used exactly once', sorted(e[1][1] for e in cheap) == list(range(s['n'])))
    if len(cheap) != s['n']:
        return
    raw, rawv = joined(c, cheap, 2), joined(c, cheap, 3)
    cp = s['cheap_params']
    v = c.make_series(cp, lambda p: raw(p) / factor(c, T, p))
    w = c.make_series(cp, lambda p: rawv(p) / (factor(c, T, p) * factor(c, T, p)))
    c.assume(c.all(cp, lambda p: c.Not(c.isnan(c.at(v, p)))))

    def limit(k, p):
        return c.And(c.has(T[k], p), c.at(v, p) <= c.at(T[k], p))
    low = c.any(cp, lambda p: limit('minimum', p))
    costly = c.any(cp, lambda p: limit('cost_threshold', p))
    c.ensure('tuned if and only if every parameter is above its minimum', c.Iff(c.is_true(r), c.Not(low)))
    c.ensure('the verdict is a truth value', c.Or(c.is_true(r), c.is_false(r)))
    c.ensure('expensive evaluators if and only if needed', c.Iff(len(exp) > 0, c.And(low, costly)))
    c.ensure('each expensive evaluator at most once', sorted(e[1][1] for e in exp) in ([], list(range(s['m']))))
    ups = [e for e in log if e[0] == 'update']
    d = t.to_hdf5()
    lv, lw = t.last_parameters_and_variances
    if exp:
        if len(exp) != s['m']:
            return
        xp = s['expensive_params']
        xraw, xrawv = joined(c, exp, 2), joined(c, exp, 3)
        xv = c.make_series(xp, lambda p: xraw(p) / factor(c, T, p))
        xw = c.make_series(xp, lambda p: xrawv(p) / (factor(c, T, p) * factor(c, T, p)))
        c.assume(c.all(xp, lambda p: c.Not(c.isnan(c.at(xv, p)))))
    else:
        xp, xv, xw = cp, v, w
    if c.is_true(r):
        c.ensure('a tuned dot does not move the solver', not ups)
        c.ensure('tuned voltages are recorded', lists_same(c, d['tuned_voltages'], s['tuned'] + [vsnap]))
    else:
        c.ensure('nothing is recorded as tuned', lists_same(c, d['tuned_voltages'], s['tuned']))
        c.ensure('the solver learns the last measurement once', len(ups) == 1)
        if len(ups) == 1:
            c.ensure('at these voltages', c.series_same(ups[0][1], vsnap))
            c.ensure('the rescaled values', c.series_close(ups[0][2], xv))
            c.ensure('the rescaled variances', c.series_close(ups[0][3], xw))
    allp = s['all_params']

    def last(p, x, c_, old):
        r_ = c.ite(c.has(cp, p), c.at(c_, p), c.at(old, p))
        return c.ite(c.has(xp, p), c.at(x, p), r_) if exp else r_
    c.ensure('exactly the measured parameters are updated', c.And(c.index_same(lv.index, allp), c.index_same(lw.index, allp)))
    c.ensure('last values', c.all(allp, lambda p: c.eq(c.at(lv, p), last(p, xv, v, s['lastv']))))
    c.ensure('last variances', c.all(allp, lambda p: c.eq(c.at(lw, p), last(p, xw, w, s['lastw']))))
    c.ensure('the last voltages are these', c.series_same(t.last_voltages, vsnap))
    c.ensure('the evaluation has not failed', c.is_false(t.last_evaluation_failed))
    c.ensure('the target is unchanged', c.frame_same(T, s['target'], CATS))
    c.ensure('the solver is not asked', not [e for e in log if e[0] in ('suggest', 'position')])


@contract('C08', ['SensingDotTuner.evaluate', 'SensingDotTuner.__init__', 'ParameterTuner.__init__'],
          note='any number of cheap and of expensive evaluators')
def evaluate_any_number(c):
    gates = c.names('gates', nonempty=True)
    log = []
    cp, xp = c.names('cheap_params', nonempty=True), c.names('expensive_params', nonempty=True)
    cheap, n, where = any_evaluators(c, 'cheap', cp, log)
    exp, m, xwhere = any_evaluators(c, 'expensive', xp, log)
    tparams = c.names('target_params')
    target = target_frame(c, 'target', tparams)
    ok = not_na_params(c, target, tparams)
    c.assume(c.all(tparams, lambda p: c.Implies(ok(p), c.has(cp, p))))
    c.assume(c.all(tparams, lambda p: c.Implies(c.And(*[c.Not(c.isnan(c.at(target[k], p))) for k in CATS]), c.has(cp, p))))
    t = c.run(c.q.parameter_tuner.SensingDotTuner, cheap_evaluators=cheap, expensive_evaluators=exp, gates=c.names_list(gates),
              solver=solver(c, gates, target, log), last_voltage=c.series('last_voltage', gates))
    lv, lw = t.last_parameters_and_variances
    c.ensure('all parameters are recorded', c.And(c.all(cp, lambda p: c.has(lv, p)), c.all(xp, lambda p: c.has(lv, p)),
                                                  c.all(lv.index, lambda p: c.Or(c.has(cp, p), c.has(xp, p))), c.index_same(lv.index, lw.index)))
    c.forget_loops(cheap, exp)
    del log[:]
    if c.fork('cheap'):
        r = c.call(t.evaluate, cheap=True)
        reported(c, r, log, n, where, lambda ix: same_names(c, ix, cp))
        c.ensure('only cheap evaluators', all(e[1][0] == 'cheap' for e in log))
    else:
        r = c.call(t.evaluate, cheap=False)
        reported(c, r, log, m, xwhere, lambda ix: same_names(c, ix, xp))
        c.ensure('only expensive evaluators', all(e[1][0] == 'expensive' for e in log))


def same_names(c, a, b):
    return c.And(c.all(a, lambda p: c.has(b, p)), c.all(b, lambda p: c.has(a, p)))
