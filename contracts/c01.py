from dv.base import contract
from .common import *

AT = ['Autotuner.iterate', 'Autotuner.ready_to_tune', 'Autotuner.is_tuning_complete', 'Autotuner.get_current_tuner',
      'Autotuner.tuned_parameters', 'Autotuner.save_current_status', 'Autotuner.__init__']
HIER = 'hierarchies of 1..3 groups are enumerated; all names, voltages, targets and verdicts are unbounded'


@contract('C01', AT, kind='bounded', note=HIER, cross='one_step_of_any_hierarchy')
def one_step(c):
    s = autotuner(c)
    step(c, s)


@contract('C01', ['Autotuner.iterate', 'Autotuner.is_tuning_complete', 'Autotuner.get_current_tuner', 'Autotuner.__init__'],
          note='any number of groups; the readiness check (C23) and the set of tuned parameters (C04) are replaced by their contracts')
def one_step_of_any_hierarchy(c):
    s = any_autotuner(c)
    step(c, s)


def step(c, s):
    at, log, idx, n, status, pending = (s[k] for k in ('at', 'log', 'idx', 'n', 'status', 'pending'))
    before = c.snap(s['state']['now'])
    r = c.call(at.iterate)
    a = acts(log)
    if idx == n:
        c.ensure('complete: iterate raises', r.raised)
        c.ensure('complete: nothing happens', len(a) == 0)
        i, st, p = at_state(at)
        c.ensure('complete: state unchanged', c.And(i == idx, c.is_false(st), p is None))
        return
    c.ensure('a legal step does not raise', r.ok)
    c.ensure('exactly one action', len(a) == 1)
    if len(a) != 1 or not r.ok:
        return
    kind = a[0][0]
    group = lambda k: s['where'][k] if 'where' in s else k
    i, st, p = at_state(at)
    if pending is not None:
        c.ensure('pending voltages are applied', kind == 'set')
        if kind != 'set':
            return
        c.ensure('exactly the pending voltages', c.series_same(a[0][1], pending))
        c.ensure('back to the bottom', i == 0)
        c.ensure('nothing pending afterwards', p is None)
        c.ensure('not evaluated afterwards', c.is_false(st))
    elif not status:
        c.ensure('the group is evaluated', kind == 'eval')
        if kind != 'eval':
            return
        c.ensure('the current group is evaluated', group(a[0][1]) == idx)
        c.ensure('evaluated at the reported voltages', c.series_same(a[0][2], before))
        v = a[0][3]
        c.ensure('nothing becomes pending', p is None)
        if v:
            c.ensure('tuned: one up', i == idx + 1)
            c.ensure('tuned: next group not evaluated', c.is_false(st))
        else:
            c.ensure('not tuned: position kept', i == idx)
            c.ensure('not tuned: recorded', c.is_true(st))
    else:
        c.ensure('new voltages are requested', kind == 'propose')
        if kind != 'propose':
            return
        c.ensure('from the current group', group(a[0][1]) == idx)
        c.ensure('the proposal is pending', p is not None and c.is_series(p))
        if p is None:
            return
        c.ensure('the proposal is pending unchanged', c.series_same(p, a[0][3]))
        c.ensure('position kept by a proposal', i == idx)
        c.ensure('not evaluated after a proposal', c.is_false(st))
