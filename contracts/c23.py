from dv.base import contract
from .common import *

FUN = ['Autotuner.ready_to_tune', 'Autotuner.iterate']


def built(c, nmax, emax, anystate=True):
    """groups of any kind with arbitrary, possibly incoherent names"""
    q = c.q
    gates = c.names('gates')
    n = 1 + c.choice('number_of_groups', nmax)
    exp, state, log = experiment(c, gates)
    h, good = [], []
    for k in range(n):
        def estimators(c, k, make):
            return [make(j) for j in range(c.choice('number_of_estimators%d' % k, emax + 1))]
        h.append(group(c, k, gates, log, good, estimators))
    idx = c.choice('position', n) if anystate else 0
    mode = c.choice('mode', 3) if anystate else 1
    pending = None
    if mode == 0:
        pending = c.series('pending', c.subnames('pending_gates', gates))
    at = c.run(q.autotuner.Autotuner, exp, h, current_tuner_index=idx, current_tuner_status=mode == 1, voltage_to_set=pending)
    del log[:]
    return at, log, c.And(*good), idx, mode, pending


def group(c, k, gates, log, good, estimators):
    q = c.q
    lg = c.names('last_gates%d' % k)
    last = c.series('last%d' % k, lg)
    sg = c.names('solver_gates%d' % k)
    pos = c.series('solver_position%d' % k, sg)
    newton = c.fork('newton%d' % k)
    subset = c.fork('subset%d' % k)
    tun = c.names('tunable%d' % k)
    params = c.names('params%d' % k)
    target = target_frame(c, 'target%d' % k, params)
    ok = [c.subset(lg, gates), c.subset(sg, gates)]
    if newton:
        def estimator(j):
            eg = c.names('estimator_gates%d_%d' % (k, j))
            ep = c.series('estimator_position%d_%d' % (k, j), eg)
            good.append(c.subset(eg, gates))
            if subset:
                good.append(c.subset(tun, eg))
            return c.make(q.gradient.GradientEstimator, current_position=property(lambda self, ep=ep: ep))
        ests = estimators(c, k, estimator)
        solver = c.make(q.solver.NewtonSolver, current_position=property(lambda self, pos=pos: pos),
                        target=property(lambda self, t=target: t),
                        gradient_estimators=property(lambda self, l=ests: list(l) if isinstance(l, list) else l))
    else:
        solver = c.make(q.solver.Solver, current_position=property(lambda self, pos=pos: pos),
                        target=property(lambda self, t=target: t))
    base = q.parameter_tuner.SubsetTuner if subset else q.parameter_tuner.SensingDotTuner

    def is_tuned(self, v, k=k):
        log.append(('eval', k))
        return c.fork('verdict')

    def nxt(self, tuned_parameters=None, k=k):
        log.append(('propose', k))
        return c.series('proposal', c.subnames('proposal_gates', gates))
    vals = c.series('last_values%d' % k, params, nan=True)
    good.extend(ok)
    return c.make(base, last_voltages=property(lambda self, l=last: l), solver=property(lambda self, s=solver: s),
                    tunable_gates=property(lambda self, t=tun: list(t)) if not c.symbolic else property(lambda self, t=tun: t),
                    target=property(lambda self, t=target: t), is_tuned=is_tuned, get_next_voltages=nxt,
                    last_parameters_and_variances=property(lambda self, v=vals: (v, v)))


def ready(c, groups, estimators):
    at, log, good, idx, mode, pending = built(c, groups, estimators, False)
    r = c.run(at.ready_to_tune)
    c.ensure('ready if and only if the names are coherent', c.Iff(c.is_true(r), good))
    c.ensure('the answer is a truth value', c.Or(c.is_true(r), c.is_false(r)))
    c.ensure('asking has no effect', len(acts(log)) == 0)


@contract('C23', FUN[:1], kind='bounded', note='1 group with up to 3 gradient estimators is enumerated', budget=120,
          cross='ready_any_hierarchy')
def ready_one_group(c):
    ready(c, 1, 3)


@contract('C23', FUN[:1], kind='bounded', note='2 groups with up to 1 gradient estimator are enumerated', budget=120,
          cross='ready_any_hierarchy')
def ready_two_groups(c):
    ready(c, 2, 1)


@contract('C23', FUN, kind='bounded', note='1 group with up to 2 gradient estimators is enumerated', budget=120,
          cross='ready_any_hierarchy, refused_if_not_ready')
def incoherent_refused(c):
    at, log, good, idx, mode, pending = built(c, 1, 2)
    c.assume(c.Not(good))
    r = c.call(at.iterate)
    c.ensure('iterate raises', r.raised)
    c.ensure('nothing is evaluated, computed or set', len(acts(log)) == 0)
    i, st, p = at_state(at)
    c.ensure('state unchanged', c.And(i == idx, c.eq(st, mode == 1), same_pending(c, p, pending)))


@contract('C23', FUN[:1], note='any number of groups with any number of gradient estimators', budget=900, paths=40000)
def ready_any_hierarchy(c):
    gates = c.names('gates')
    exp, state, log = experiment(c, gates)
    good = []

    def estimators(c, k, make):
        return c.many('number_of_estimators', lambda j, i: make(j)) if c.fork('estimators') else []
    groups = c.many('number_of_groups', lambda k, i: group(c, k, gates, log, good, estimators))
    at = c.run(c.q.autotuner.Autotuner, exp, groups)
    if c.symbolic:
        del groups.seen[:], good[:]
    del log[:]
    r = c.run(at.ready_to_tune)
    # symbolically `good` is about arbitrary groups and estimators: those the loops ran for
    c.ensure('ready if and only if the names are coherent', c.Iff(c.is_true(r), c.And(*good)))
    c.ensure('the answer is a truth value', c.Or(c.is_true(r), c.is_false(r)))
    c.ensure('asking has no effect', len(acts(log)) == 0)


@contract('C23', ['Autotuner.iterate'], note='any number of groups; the readiness check is replaced by its contract (ready_any_hierarchy) and says no')
def refused_if_not_ready(c):
    asked = []

    def ready(self):
        asked.append(self)
        return False
    s = any_autotuner(c, ready=ready)
    r = c.call(s['at'].iterate)
    if not asked:
        return                      # the check was made in another way: left to the scenarios with the real check
    c.ensure('iterate raises', r.raised)
    c.ensure('nothing is evaluated, computed or set', len(acts(s['log'])) == 0)
    i, st, p = at_state(s['at'])
    c.ensure('state unchanged', c.And(i == s['idx'], c.eq(st, s['status']), same_pending(c, p, s['pending'])))
