from dv.base import contract
from .common import *

NOTE = 'hierarchies of 1..3 groups are enumerated'
FUN = ['Autotuner.iterate', 'Autotuner.ready_to_tune', 'Autotuner.__init__']


def sets(log):
    return [e for e in log if e[0] == 'set']


@contract('C03', FUN, kind='bounded', note=NOTE, cross='propose_then_apply_any_hierarchy')
def propose_then_apply(c):
    """the proposal of the current group reaches the experiment unchanged, once"""
    s = autotuner(c, nmax=2)
    handed_over(c, s)


@contract('C03', ['Autotuner.iterate', 'Autotuner.__init__'],
          note='any number of groups; the readiness check (C23) and the set of tuned parameters (C04) are replaced by their contracts')
def propose_then_apply_any_hierarchy(c):
    handed_over(c, any_autotuner(c))


@contract('C03', ['Autotuner.iterate', 'Autotuner.__init__'],
          note='any number of groups; NaN among the pending voltages; the readiness check (C23) and the set of tuned parameters (C04) are replaced by their contracts')
def refuse_nan_any_hierarchy(c):
    s = any_autotuner(c, pending_nan=True)
    pending = s['pending']
    c.assume(pending is not None)
    c.assume(c.any(pending.index, lambda g: c.isnan(c.at(pending, g))))
    r = c.call(s['at'].iterate)
    c.ensure('a broken proposal is refused', r.raised)
    c.ensure('nothing is sent', len(acts(s['log'])) == 0)
    i, st, p = at_state(s['at'])
    c.ensure('state unchanged', c.And(i == s['idx'], c.is_false(st), same_pending(c, p, pending)))


@contract('C03', ['Autotuner.iterate', 'Autotuner.__init__'],
          note='any number of groups; an unknown gate among the pending voltages; the readiness check (C23) and the set of tuned parameters (C04) are replaced by their contracts')
def refuse_unknown_any_hierarchy(c):
    s = any_autotuner(c, pending_nan=True, pending_unknown=True)
    r = c.call(s['at'].iterate)
    c.ensure('a proposal for a gate that does not exist is refused', r.raised)
    c.ensure('nothing is sent', len(acts(s['log'])) == 0)
    i, st, p = at_state(s['at'])
    c.ensure('state unchanged', c.And(i == s['idx'], c.is_false(st), same_pending(c, p, s['pending'])))


def handed_over(c, s):
    c.assume(s['status'])
    group = lambda k: s['where'][k] if 'where' in s else k
    at, log = s['at'], s['log']
    r = c.call(at.iterate)
    c.ensure('asking for voltages succeeds', r.ok)
    a = acts(log)
    c.ensure('one proposal by the current group and nothing set', c.And(len(a) == 1 and a[0][0] == 'propose', *[group(e[1]) == s['idx'] for e in a[:1]]))
    if not r.ok or len(a) != 1 or a[0][0] != 'propose':
        return
    prop = a[0][3]
    bad = c.any(prop.index, lambda g: c.isnan(c.at(prop, g)))
    c.assume(c.Not(bad))
    c.reachable('intact proposal')
    r = c.call(at.iterate)
    a = acts(log)[1:]
    c.ensure('the proposal is applied', r.ok)
    c.ensure('set exactly once', len(sets(a)) == 1 and len(a) == 1)
    if len(sets(a)) != 1:
        return
    c.ensure('exactly the proposed voltages', c.series_same(sets(a)[0][1], prop))
    mark = len(log)
    c.call(at.iterate)
    c.ensure('not applied a second time', len(sets(log[mark:])) == 0)


@contract('C03', FUN, kind='bounded', note=NOTE, cross='refuse_nan_any_hierarchy, refuse_unknown_any_hierarchy')
def refuse(c):
    """a pending proposal with NaN or an unknown gate is refused"""
    gates = c.names('gates', nonempty=True)
    n = 1 + c.choice('number_of_groups', 2)
    exp, state, log = experiment(c, gates)
    h = [tuner(c, k, gates, log) for k in range(n)]
    idx = c.choice('position', n)
    unknown = c.fork('unknown_gate')
    if unknown:
        pg = c.names('pending_gates')
        c.assume(c.any(pg, lambda g: c.Not(c.has(gates, g))))
    else:
        pg = c.subnames('pending_gates', gates)
    pending = c.series('pending', pg, nan=True)
    if not unknown:
        c.assume(c.any(pg, lambda g: c.isnan(c.at(pending, g))))
    at = c.run(c.q.autotuner.Autotuner, exp, h, current_tuner_index=idx, voltage_to_set=c.snap(pending))
    del log[:]
    r = c.call(at.iterate)
    c.ensure('a broken proposal is refused', r.raised)
    c.ensure('nothing is sent', len(acts(log)) == 0)
    i, st, p = at_state(at)
    c.ensure('state unchanged', c.And(i == idx, c.is_false(st), same_pending(c, p, pending)))


@contract('C03', ['Autotuner.restart', 'Autotuner.change_targets', 'Autotuner.ready_to_tune', 'Autotuner.tuned_parameters',
                  'Autotuner.all_estimators_ready', 'Autotuner.is_tuning_complete', 'Autotuner.to_hdf5',
                  'Autotuner.save_current_status', 'Autotuner.__init__'], kind='bounded', note=NOTE,
          cross='nothing_else_sets_any_hierarchy')
def nothing_else_sets(c):
    gates = c.names('gates', nonempty=True)
    n = 1 + c.choice('number_of_groups', 2)
    exp, state, log = experiment(c, gates)
    h = [tuner(c, k, gates, log) for k in range(n)]
    idx = c.choice('position', n + 1)
    pending = c.series('pending', c.subnames('pending_gates', gates), nan=True) if idx < n and c.fork('pending?') else None
    at = c.call(c.q.autotuner.Autotuner, exp, h, current_tuner_index=idx, voltage_to_set=pending)
    c.ensure('construction sets nothing', len(sets(log)) == 0)
    if not at.ok:
        return
    at = at.value
    op = c.choice('operation', 8)
    if op == 0:
        c.call(at.restart)
    elif op == 1:
        c.call(at.change_targets, [{'desired': c.series('new_desired', c.names('changed'))}])
    elif op == 2:
        c.call(at.ready_to_tune)
    elif op == 3:
        c.call(lambda: at.tuned_parameters)
    elif op == 4:
        c.call(lambda: at.all_estimators_ready)
    elif op == 5:
        c.call(at.is_tuning_complete)
    elif op == 6:
        c.call(at.to_hdf5)
    else:
        c.call(at.save_current_status)
    c.ensure('no other operation sets voltages', len(sets(log)) == 0)


@contract('C03', ['Autotuner.restart', 'Autotuner.change_targets', 'Autotuner.ready_to_tune', 'Autotuner.tuned_parameters',
                  'Autotuner.all_estimators_ready', 'Autotuner.is_tuning_complete', 'Autotuner.to_hdf5',
                  'Autotuner.save_current_status', 'Autotuner.__init__'], note='any number of groups and of changed targets')
def nothing_else_sets_any_hierarchy(c):
    gates = c.names('gates', nonempty=True)
    exp, state, log = experiment(c, gates)
    h = c.many('number_of_groups', lambda k, i: tuner(c, k, gates, log))
    n = c.size(h)
    idx = c.int('position', 0, n)
    pending = None
    if bool(idx < n) and c.fork('pending?'):
        pending = c.series('pending', c.subnames('pending_gates', gates), nan=True)
    at = c.call(c.q.autotuner.Autotuner, exp, h, current_tuner_index=idx, voltage_to_set=pending)
    c.ensure('construction sets nothing', len(sets(log)) == 0)
    if not at.ok:
        return
    at = at.value
    op = c.choice('operation', 8)
    if op == 0:
        c.call(at.restart)
    elif op == 1:
        changes = c.many('number_of_changes', lambda j, i: {'desired': c.series('new_desired', c.names('changed'))}, 0)
        c.assume(c.size(changes) <= n)
        c.call(at.change_targets, changes)
    elif op == 2:
        c.call(at.ready_to_tune)
    elif op == 3:
        c.focus('parameter')
        c.call(lambda: at.tuned_parameters)
    elif op == 4:
        c.call(lambda: at.all_estimators_ready)
    elif op == 5:
        c.call(at.is_tuning_complete)
    elif op == 6:
        c.call(at.to_hdf5)
    else:
        c.call(at.save_current_status)
    c.ensure('no other operation sets voltages', len(sets(log)) == 0)
