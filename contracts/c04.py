from dv.base import contract
from .common import *


@contract('C04', ['Autotuner.tuned_parameters', 'Autotuner.iterate'], kind='bounded',
          note='hierarchies of 1..3 groups are enumerated', budget=90,
          cross='given_parameters_any_hierarchy')
def given_parameters(c):
    gates = c.names('gates', nonempty=True)
    n = 1 + c.choice('number_of_groups', 3)
    exp, state, log = experiment(c, gates)
    params = [c.names('params%d' % k) for k in range(n)]
    targets = [target_frame(c, 'target%d' % k, params[k]) for k in range(n)]
    h = [tuner(c, k, gates, log, params=params[k], target=targets[k]) for k in range(n)]
    snap = [c.snap(t) for t in targets]
    idx = c.choice('position', n)
    at = c.run(c.q.autotuner.Autotuner, exp, h, current_tuner_index=idx, current_tuner_status=True)
    del log[:]
    r = c.call(at.iterate)
    a = acts(log)
    c.ensure('voltages are asked', r.ok and len(a) == 1 and a[0][0] == 'propose' and a[0][1] == idx)
    if not (r.ok and len(a) == 1 and a[0][0] == 'propose'):
        return
    given = a[0][4]
    c.ensure('tuned parameters are given', given is not None)
    if given is None:
        return

    def specified(k, p):
        t = snap[k]
        return c.And(c.has(params[k], p),
                     *[c.Implies(c.any(params[k], lambda x, cat=cat: c.Not(c.isnan(c.at(t[cat], x)))),
                                 c.Not(c.isnan(c.at(t[cat], p)))) for cat in CATS])
    c.ensure('exactly the completely specified parameters of the groups below',
             c.set_same(given, lambda p: c.Or(*[specified(k, p) for k in range(idx)])))
    if idx == 0:
        c.ensure('nothing is given to the lowest group', c.set_same(given, lambda p: False))
    c.ensure('targets are untouched', c.And(*[c.frame_same(snap[k], targets[k], CATS) for k in range(n)]))


@contract('C04', ['Autotuner.tuned_parameters', 'Autotuner.iterate', 'Autotuner.__init__'],
          note='any number of groups; an arbitrary parameter name and an arbitrary group; the readiness check (C23) is replaced by its contract')
def given_parameters_any_hierarchy(c):
    gates = c.names('gates', nonempty=True)
    exp, state, log = experiment(c, gates)
    where, params, targets, snap = [], [], [], []

    def make(k, i):
        where.append(i)
        params.append(c.names('params'))
        targets.append(target_frame(c, 'target', params[k]))
        snap.append(c.snap(targets[k]))
        return tuner(c, k, gates, log, params=params[k], target=targets[k])
    groups = c.many('number_of_groups', make)
    n = c.size(groups)
    idx = c.int('position', 0, n - 1)
    k = c.int('group', 0, n - 1)
    groups[k]
    p = c.focus('parameter', k)
    at = c.make(c.q.autotuner.Autotuner, ready_to_tune=lambda self: True)
    c.run(at.__init__, exp, groups, current_tuner_index=idx, current_tuner_status=True)
    del log[:]
    r = c.call(at.iterate)
    a = acts(log)
    c.ensure('voltages are asked', r.ok and len(a) == 1 and a[0][0] == 'propose' and where[a[0][1]] == idx)
    if not (r.ok and len(a) == 1 and a[0][0] == 'propose'):
        return
    given = a[0][4]
    c.ensure('tuned parameters are given', given is not None)
    if given is None:
        return
    has = c.has(given, p)

    def specified(j):
        t = snap[j]
        return c.And(c.has(params[j], p),
                     *[c.Implies(c.any(params[j], lambda x, cat=cat: c.Not(c.isnan(c.at(t[cat], x)))),
                                 c.Not(c.isnan(c.at(t[cat], p)))) for cat in CATS])
    made = range(len(where))
    c.ensure('every completely specified parameter of a group below is given',
             c.Implies(c.And(k < idx, *[specified(j) for j in made if bool(where[j] == k)]), has))
    c.ensure('nothing else is given', c.Implies(has, c.Or(*[c.And(where[j] < idx, specified(j)) for j in made])))
    c.ensure('targets are untouched', c.And(*[c.frame_same(snap[j], targets[j], CATS) for j in made]))
