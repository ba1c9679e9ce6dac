"""Builders for gate groups: the real tuner classes with evaluators and solvers replaced by their contracts."""
from .common import *


def not_na_params(c, target, params):
    """parameters whose every used category is specified"""
    used = {k: c.any(params, lambda x, k=k: c.Not(c.isnan(c.at(target[k], x)))) for k in CATS}
    return lambda p: c.And(*[c.Implies(used[k], c.Not(c.isnan(c.at(target[k], p)))) for k in CATS])


def evaluator(c, k, params, log, nan=True):
    """evaluation contract: arbitrary values (possibly NaN) and variances of exactly its parameters, in any order"""
    tag = '%s%d' % k if isinstance(k, tuple) else str(k)

    def evaluate(self):
        v = c.series('values_' + tag, c.permuted('value_order_' + tag, params), nan=nan)
        w = c.series('variances_' + tag, c.permuted('variance_order_' + tag, params), nan=nan)
        log.append(('evaluate', k, c.snap(v), c.snap(w)))
        return v, w
    return c.make(c.q.evaluator.Evaluator, evaluate=evaluate, parameters=property(lambda self: c.names_tuple(params)),
                  name=property(lambda self: 'evaluator'), to_hdf5=lambda self: {})


def solver(c, gates, target, log, position=None):
    """solver contract: suggests an arbitrary position on some of its gates"""
    box = dict(pos=position if position is not None else c.series('solver_position', gates))

    def suggest(self, tuned_parameters=None):
        sg = c.subnames('suggested_gates', gates)
        p = c.series('suggestion', c.permuted('suggested_order', sg))
        log.append(('suggest', c.snap(p), tuned_parameters))
        return p

    def update(self, position, values, variances):
        log.append(('update', c.snap(position), c.snap(values), c.snap(variances)))

    def setpos(self, v):
        log.append(('position', c.snap(v)))
        box['pos'] = v
    s = c.make(c.q.solver.Solver, suggest_next_position=suggest, update_after_step=update, target=property(lambda self: target),
               current_position=property(lambda self: box['pos'], setpos), to_hdf5=lambda self: {})
    return s


def subset_tuner(c, nev=2, queued=None, failed=None, replaced=False):
    """replaced: the evaluation by all evaluators is replaced by its contract (C06 evaluate_any_number)"""
    gates = c.names('gates', nonempty=True)
    tun = c.subnames('tunable_gates', gates)
    log = []
    n = 1 + c.choice('number_of_evaluators', nev) if nev > 1 else 1
    groups, seen = [], []
    for k in range(n):
        g = c.names('evaluator_params%d' % k, distinct_from=seen)
        seen.append(g)
        groups.append(g)
    allp = groups[0] if n == 1 else c.union_of(groups[0], groups[1])
    params = c.permuted('params', allp)
    target = target_frame(c, 'target', params)
    ok = not_na_params(c, target, params)
    relevant = c.subnames('relevant', params)
    c.assume(c.all(params, lambda p: c.Implies(ok(p), c.has(relevant, p))))
    sol = solver(c, tun, target, log)
    evs = [evaluator(c, k, groups[k], log) for k in range(n)]
    size = c.real('maximal_step_size', nan=True, positive=True)
    number = c.int('maximal_step_number', lo=1)
    q0 = c.int('queued_steps', lo=0) if queued is None else queued
    fl = c.flag('last_evaluation_failed') if failed is None else failed
    good, tuned = c.record('evaluatable', gates), c.record('tuned', gates)
    last = c.series('last_voltage', gates)
    lastv = c.series('last_values', relevant, nan=True)
    lastw = c.series('last_variances', relevant, nan=True)

    def evaluate(self):
        v, w = [c.series(x, params, nan=True) for x in ('all_values', 'all_variances')]
        log.append(('evaluate', 0, c.snap(v), c.snap(w)))
        return v, w
    t = c.make(c.q.parameter_tuner.SubsetTuner, **(dict(evaluate=evaluate) if replaced else {}))
    c.run(t.__init__, evaluators=evs, gates=c.names_list(tun), maximal_step_size=size, maximal_step_number=number,
          number_queued_steps=q0, solver=sol, tuned_voltages=c.snap(tuned), last_voltage=last, last_parameter_values=lastv,
          last_parameters_variances=lastw, last_evaluation_failed=fl, evaluatable_voltages=c.snap(good))
    del log[:]
    return dict(t=t, gates=gates, tun=tun, log=log, n=n, params=params, target=target, relevant=relevant, size=size, number=number,
                q0=q0, failed=fl, good=good, tuned=tuned, last=c.snap(last), lastv=c.snap(lastv),
                lastw=c.snap(lastw), sol=sol)


def any_evaluators(c, name, names, log):
    """any number of evaluators that share the names among them; (evaluators, their number, positions of those made)"""
    n = c.int('number_of_%s_evaluators' % name, 1)
    share = c.shares(name + '_share', names, n)
    where = []

    def make(k, i):
        where.append(i)
        return evaluator(c, (name, len(where) - 1), share(i), log)
    return c.many('', make, length=n), n, where


def reported(c, r, log, n, where, expected):
    """the result of an evaluation by any number of evaluators"""
    c.ensure('evaluates', r.ok)
    if not r.ok:
        return
    ev = [e for e in log if e[0] == 'evaluate']
    c.ensure('every evaluator is used exactly once', c.once_each(n, [where[e[1][1]] for e in ev]))
    v, w = r.value
    c.ensure('exactly the parameters are reported', c.And(expected(v.index), expected(w.index)))
    for e in ev:        # of an arbitrary evaluator
        c.ensure('each value is the one its evaluator measured', c.all(e[2].index, lambda p: c.Implies(c.has(v, p), c.eq(c.at(v, p), c.at(e[2], p)))))
        c.ensure('each variance is the one its evaluator measured', c.all(e[3].index, lambda p: c.Implies(c.has(w, p), c.eq(c.at(w, p), c.at(e[3], p)))))


def lists_same(c, a, b):
    return c.lists_same(a, b)


def scaled(c, target, raw, power):
    """by-name division by the factor"""
    f = target['rescaling_factor']
    return lambda p: c.at(raw, p) / (c.at(f, p) if power == 1 else c.at(f, p) * c.at(f, p))
