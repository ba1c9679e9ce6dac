"""Builder of sensing dot tuners."""
from .tuners import *


def dot_tuner(c, ncheap=2, nexp=2, replaced=False):
    """replaced: the evaluation by all cheap or all expensive evaluators is replaced by its contract (C08 evaluate_any_number)"""
    gates = c.names('gates', nonempty=True)
    tun = c.subnames('tunable_gates', gates)
    log = []
    n = 1 + c.choice('number_of_cheap_evaluators', ncheap) if ncheap > 1 else 1
    m = 1 + c.choice('number_of_expensive_evaluators', nexp) if nexp > 1 else 1
    cg = []
    for k in range(n):
        cg.append(c.names('cheap_params%d' % k, distinct_from=cg))
    xg = []
    for k in range(m):
        # expensive evaluators may measure cheap parameters again
        xg.append(c.names('expensive_params%d' % k, distinct_from=xg))
    cp = cg[0] if n == 1 else c.union_of(cg[0], cg[1])
    xp = xg[0] if m == 1 else c.union_of(xg[0], xg[1])
    allp = c.union_of(cp, xp)
    tparams = c.names('target_params')
    target = target_frame(c, 'target', tparams)
    ok = not_na_params(c, target, tparams)
    # fully specified target parameters are measured by the cheap evaluators (checked by the constructor)
    c.assume(c.all(tparams, lambda p: c.Implies(ok(p), c.has(cp, p))))
    c.assume(c.all(tparams, lambda p: c.Implies(c.And(*[c.Not(c.isnan(c.at(target[k], p))) for k in CATS]), c.has(cp, p))))
    sol = solver(c, tun, target, log)
    cheap = [evaluator(c, ('cheap', k), cg[k], log) for k in range(n)]
    exp = [evaluator(c, ('expensive', k), xg[k], log) for k in range(m)]
    tuned = c.record('tuned', gates)
    last = c.series('last_voltage', gates)
    lastv = c.series('last_values', allp, nan=True)
    lastw = c.series('last_variances', allp, nan=True)
    fl = c.flag('last_evaluation_failed')

    def evaluate(self, cheap=True, **kw):
        kind, names = ('cheap', cp) if cheap else ('expensive', xp)
        order = c.permuted(kind + '_order', names)
        v, w = [c.series(kind + x, order, nan=True) for x in ('_values', '_variances')]
        log.append(('evaluate', (kind, 0), c.snap(v), c.snap(w)))
        return v, w
    t = c.make(c.q.parameter_tuner.SensingDotTuner, **(dict(evaluate=evaluate) if replaced else {}))
    c.run(t.__init__, cheap_evaluators=cheap, expensive_evaluators=exp, gates=c.names_list(tun), solver=sol,
          tuned_voltages=c.snap(tuned), last_voltage=last, last_parameter_values=c.snap(lastv), last_parameters_variances=c.snap(lastw),
          last_evaluation_failed=fl)
    del log[:]
    return dict(t=t, gates=gates, tun=tun, log=log, n=n, m=m, cheap_params=cp, expensive_params=xp, all_params=allp, target=target,
                tuned=tuned, last=c.snap(last), lastv=lastv, lastw=lastw, sol=sol)
