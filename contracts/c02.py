from dv.base import contract
from .common import *

NOTE = 'hierarchies of 1..3 groups are enumerated; the invariant is inductive over any number of calls'
FUN = ['Autotuner.iterate', 'Autotuner.is_tuning_complete', 'Autotuner.change_targets', 'Autotuner.restart',
       'Autotuner.__init__']


def ghost_state(c, s):
    """ghost: verdict of every group since the last voltage change, target change or restart (None: no evaluation),
    and the time of that evaluation.  Invariant: groups below the position were found tuned, in order; an evaluated
    group was found untuned."""
    n, idx = s['n'], s['idx']
    ev = []
    for k in range(n):
        if k < idx:
            ev.append((k, True))
        elif k == idx and s['status']:
            ev.append((n + k, False))
        else:
            o = c.choice('other_verdict', 3) if k == idx else 0
            ev.append([None, (n + k, True), (n + k, False)][o])
    return ev


def update(ev, log, clock=100):
    for e in log:
        clock += 1
        if e[0] == 'eval':
            ev[e[1]] = (clock, bool(e[3]))
        elif e[0] in ('set', 'target', 'restart'):
            for k in range(len(ev)):
                ev[k] = None


def invariant(c, at, ev, n, tag):
    i, st, p = at_state(at)
    c.ensure(tag + ': position in the hierarchy', isinstance(i, int) and 0 <= i <= n)
    if not (isinstance(i, int) and 0 <= i <= n):
        return
    c.ensure(tag + ': groups below the position were found tuned since the last change', all(ev[k] is not None and ev[k][1] for k in range(i)))
    c.ensure(tag + ': in order', all(ev[k] and ev[k + 1] and ev[k][0] < ev[k + 1][0] for k in range(i - 1)))
    if i < n:
        c.ensure(tag + ': evaluated means found untuned since the last change', c.Implies(c.Not(c.is_false(st)), ev[i] is not None and not ev[i][1]))
    else:
        c.ensure(tag + ': complete has nothing to do', c.And(c.is_false(st), p is None))
    c.ensure(tag + ': pending excludes evaluated', c.Or(p is None, c.is_false(st)))
    done = c.run(at.is_tuning_complete)
    if bool(done):
        c.ensure(tag + ': complete only if every group was found tuned, in order, since the last change',
                 all(x is not None and x[1] for x in ev) and all(ev[k][0] < ev[k + 1][0] for k in range(n - 1)))


@contract('C02', FUN, kind='bounded', note=NOTE, cross='fresh_any_hierarchy')
def fresh(c):
    gates = c.names('gates', nonempty=True)
    n = 1 + c.choice('number_of_groups', 3)
    exp, state, log = experiment(c, gates)
    h = [tuner(c, k, gates, log) for k in range(n)]
    at = c.run(c.q.autotuner.Autotuner, exp, h)
    invariant(c, at, [None] * n, n, 'fresh')
    c.ensure('a fresh autotuner is not complete', c.Not(c.run(at.is_tuning_complete)))


@contract('C02', FUN, kind='bounded', note=NOTE, cross='iterate_any_hierarchy, order_any_hierarchy')
def iterate_step(c):
    s = autotuner(c, pending_nan=True)
    ev = ghost_state(c, s)
    old = list(ev)
    r = c.call(s['at'].iterate)
    a = acts(s['log'])
    for e in a:
        if e[0] == 'propose':
            k = e[1]
            c.ensure('voltages are asked only of a group found untuned since the last change', old[k] is not None and not old[k][1])
    update(ev, a)
    invariant(c, s['at'], ev, s['n'], 'iterate')


def any_invariant(c, s, k, found, tag):
    """the invariant for one arbitrary group k; found: its verdict since the last change of voltages or targets (None: not evaluated)"""
    at, n = s['at'], s['n']
    i, st, p = at_state(at)
    c.ensure(tag + ': position in the hierarchy', c.And(i >= 0, i <= n))
    c.ensure(tag + ': groups below the position were found tuned since the last change', c.Implies(k < i, found is True))
    c.ensure(tag + ': evaluated means found untuned since the last change', c.Implies(c.And(k == i, c.Not(c.is_false(st))), found is False))
    c.ensure(tag + ': complete has nothing to do', c.Implies(i == n, c.And(c.is_false(st), p is None)))
    c.ensure(tag + ': pending excludes evaluated', c.Or(p is None, c.is_false(st)))
    c.ensure(tag + ': complete only if every group was found tuned since the last change', c.Implies(c.run(at.is_tuning_complete), found is True))


@contract('C02', ['Autotuner.iterate', 'Autotuner.is_tuning_complete', 'Autotuner.__init__'],
          note='any number of groups; the readiness check (C23) and the set of tuned parameters (C04) are replaced by their contracts')
def iterate_any_hierarchy(c):
    s = any_autotuner(c, pending_nan=True)
    k = c.int('group', 0, s['n'] - 1)
    below = bool(k < s['idx'])
    found = True if below else [None, True, False][c.choice('other_verdict', 3)]
    if s['status'] and bool(k == s['idx']):
        found = False
    r = c.call(s['at'].iterate)
    for e in acts(s['log']):
        if e[0] == 'eval' and bool(s['where'][e[1]] == k):
            found = bool(e[3])
        elif e[0] == 'propose' and bool(s['where'][e[1]] == k):
            c.ensure('voltages are asked only of a group found untuned since the last change', found is False)
        elif e[0] in ('set', 'target', 'restart'):
            found = None
    any_invariant(c, s, k, found, 'iterate')


@contract('C02', ['Autotuner.iterate', 'Autotuner.__init__'],
          note='any number of groups, two arbitrary ones of them; the readiness check (C23) and the set of tuned parameters (C04) are replaced by their contracts')
def order_any_hierarchy(c):
    s = any_autotuner(c, pending_nan=True)
    low, high = c.int('group', 0, s['n'] - 1), c.int('later_group', 0, s['n'] - 1)
    c.assume(low < high)
    when = {}                           # of the last evaluation, before the present time 0; None: not since the last change
    for k, name in ((low, 'time'), (high, 'later_time')):
        when[name] = -c.int(name, 1, None if c.symbolic else 9)
    c.assume(c.Implies(high < s['idx'], when['time'] < when['later_time']))
    c.call(s['at'].iterate)
    clock, changed = 0, False
    for e in acts(s['log']):
        clock += 1
        if e[0] == 'eval':
            for k, name in ((low, 'time'), (high, 'later_time')):
                if bool(s['where'][e[1]] == k):
                    when[name] = clock
        elif e[0] in ('set', 'target', 'restart'):
            changed = True
    i = at_state(s['at'])[0]
    c.ensure('two groups below the position were found tuned in their order', c.Implies(high < i, when['time'] < when['later_time']))
    c.ensure('no group is below the position after a change', c.Implies(changed, i == 0))


@contract('C02', ['Autotuner.is_tuning_complete', 'Autotuner.__init__'], note='any number of groups')
def fresh_any_hierarchy(c):
    gates = c.names('gates', nonempty=True)
    exp, state, log = experiment(c, gates)
    groups = c.many('number_of_groups', lambda k, i: tuner(c, k, gates, log))
    at = c.run(c.q.autotuner.Autotuner, exp, groups)
    any_invariant(c, dict(at=at, n=c.size(groups)), c.int('group', 0, c.size(groups) - 1), None, 'fresh')
    c.ensure('a fresh autotuner is not complete', c.Not(c.run(at.is_tuning_complete)))


@contract('C02', ['Autotuner.restart', 'Autotuner.change_targets', 'Autotuner.is_tuning_complete', 'Autotuner.__init__'],
          note='any number of groups and of changed targets')
def reset_any_hierarchy(c):
    s = any_autotuner(c)
    k = c.int('group', 0, s['n'] - 1)
    if c.fork('restart'):
        c.run(s['at'].restart)
    else:
        changes = c.many('number_of_changes', lambda j, i: {'desired': c.series('new_desired', c.names('changed'))}, 0)
        c.assume(c.size(changes) <= s['n'])
        c.run(s['at'].change_targets, changes)
    any_invariant(c, s, k, None, 'reset')


@contract('C02', FUN, kind='bounded', note=NOTE, cross='reset_any_hierarchy')
def change_targets(c):
    s = autotuner(c)
    ev = ghost_state(c, s)
    m = c.choice('number_of_changes', s['n'] + 1)
    changes = []
    for k in range(m):
        changes.append({'desired': c.series('new_desired', c.names('changed'))})
    c.run(s['at'].change_targets, changes)
    for k in range(len(ev)):
        ev[k] = None
    invariant(c, s['at'], ev, s['n'], 'target change')


@contract('C02', FUN, kind='bounded', note=NOTE, cross='reset_any_hierarchy')
def restart(c):
    s = autotuner(c)
    c.run(s['at'].restart)
    invariant(c, s['at'], [None] * s['n'], s['n'], 'restart')


@contract('C02', FUN, kind='concrete', note='2 to 4 groups, up to 40 operations', reps=.5,
          cross='iterate_any_hierarchy, order_any_hierarchy, reset_any_hierarchy')
def history(c):
    """whole histories of iterate, change_targets and restart on the real autotuner (bounded cross-check)"""
    gates = c.names('gates', nonempty=True)
    n = 1 + c.choice('number_of_groups', 4)
    exp, state, log = experiment(c, gates)
    h = [tuner(c, k, gates, log, verdict=lambda: c.fork('verdict')) for k in range(n)]
    at = c.run(c.q.autotuner.Autotuner, exp, h)
    ev = [None] * n
    clock = 100
    for step in range(c.choice('length', 40)):
        op = c.choice('operation', 12)
        mark = len(log)
        if op == 0:
            c.run(at.restart)
            ev = [None] * n
        elif op == 1:
            c.run(at.change_targets, [])
            ev = [None] * n
        else:
            done = at.is_tuning_complete()
            r = c.call(at.iterate)
            c.ensure('complete iff iterate refuses (or the proposal is broken)', c.Implies(done, r.raised))
            a = acts(log[mark:])
            for e in a:
                if e[0] == 'propose':
                    c.ensure('voltages are asked only of a group found untuned', ev[e[1]] is not None and not ev[e[1]][1])
            clock += 10
            update(ev, a, clock)
        invariant(c, at, ev, n, 'history')
