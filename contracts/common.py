"""Contracts of the collaborators, used in place of their code (a caller is checked against the callee's contract)."""

CATS = ('desired', 'minimum', 'maximum', 'tolerance', 'cost_threshold', 'rescaling_factor')


def target_frame(c, name, params, full=False):
    """arbitrary target table (rescaling factors finite and non zero)"""
    cols = {k: c.series(name + '.' + k, params, nan=not full) for k in CATS[:-1]}
    cols['rescaling_factor'] = c.series(name + '.rescaling_factor', params)
    f = cols['rescaling_factor']
    c.assume(c.all(params, lambda p: c.Not(c.eq(c.at(f, p), 0.))))
    return c.frame(params, cols)


def experiment(c, gates, name='experiment', log=None):
    """experiment contract: reading returns the present voltages; after setting, the hardware may round, so the
    voltages read afterwards are arbitrary"""
    log = [] if log is None else log
    state = dict(now=c.series(name + '.voltages', gates), n=0)

    def read_gate_voltages(self):
        log.append(('read',))
        return c.snap(state['now'])

    def set_gate_voltages(self, new):
        log.append(('set', c.snap(new), new))
        state['n'] += 1
        state['now'] = c.series(name + '.voltages', gates)
        return c.snap(state['now'])

    def measure(self, measurement):
        log.append(('measure', measurement))
        raise AssertionError('unexpected measurement')
    e = c.make(c.q.experiment.Experiment, read_gate_voltages=read_gate_voltages, set_gate_voltages=set_gate_voltages,
               gate_voltage_names=property(lambda self: tuple(gates)), measure=measure, to_hdf5=lambda self: {})
    return e, state, log


def plain_solver(c, position, target=None):
    """solver contract as far as the autotuner depends on it"""
    return c.make(c.q.solver.Solver, current_position=property(lambda self: position),
                  target=property(lambda self: target))


def tuner(c, k, gates, log, base=None, params=None, target=None, last=None, verdict=None):
    """group contract: is_tuned gives an arbitrary verdict, get_next_voltages an arbitrary proposal"""
    base = base or c.q.parameter_tuner.ParameterTuner
    params = params if params is not None else c.names('params%d' % k)
    target = target if target is not None else target_frame(c, 'target%d' % k, params)
    box = dict(last=last if last is not None else c.series('last_voltages%d' % k, gates))
    sgates = c.subnames('solver_gates%d' % k, gates)
    values = c.series('last_values%d' % k, params, nan=True)
    variances = c.series('last_variances%d' % k, params, nan=True)
    solver = plain_solver(c, c.series('solver_position%d' % k, sgates), target)

    def is_tuned(self, voltages):
        v = verdict() if verdict is not None else c.fork('verdict')
        log.append(('eval', k, c.snap(voltages), v))
        box['last'] = c.snap(voltages)
        return v

    def get_next_voltages(self, tuned_parameters=None):
        pg = c.subnames('proposal_gates', gates)
        p = c.series('proposal', pg, nan=True)
        log.append(('propose', k, p, c.snap(p), c.snap(tuned_parameters)))
        return p

    def restart(self, v):
        log.append(('restart', k, c.snap(v)))
        box['last'] = c.snap(v)
    return c.make(base, is_tuned=is_tuned, get_next_voltages=get_next_voltages, restart=restart,
                  target=property(lambda self: target, lambda self, ch: log.append(('target', k, ch))),
                  solver=property(lambda self: solver),
                  last_voltages=property(lambda self: box['last']),
                  last_parameters_and_variances=property(lambda self: (values, variances)),
                  to_hdf5=lambda self: {})


def autotuner(c, nmax=3, wf=True, storage=None, pending_nan=False, mk=None, minimum=1):
    """autotuner in an arbitrary state of its invariant: pending => group selected and not evaluated;
    evaluated => group selected"""
    gates = c.names('gates', nonempty=True)
    n = minimum + c.choice('number_of_groups', nmax + 1 - minimum)
    exp, state, log = experiment(c, gates)
    hierarchy = [(mk or tuner)(c, k, gates, log) for k in range(n)]
    idx = c.choice('position', n + 1)
    pending, status = None, False
    if idx < n:
        mode = c.choice('mode', 3)
        if mode == 0:
            pg = c.subnames('pending_gates', gates)
            pending = c.series('pending', pg, nan=pending_nan)
        status = mode == 1
    at = c.run(c.q.autotuner.Autotuner, exp, hierarchy, current_tuner_index=idx, current_tuner_status=status,
               voltage_to_set=c.snap(pending) if pending is not None else None, hdf5_storage_path=storage,
               append_time_to_path=False)
    del log[:]
    return dict(at=at, gates=gates, n=n, exp=exp, state=state, log=log, hierarchy=hierarchy, idx=idx,
                pending=pending, status=status)


def acts(log):
    """the observable actions (reading voltages is free)"""
    return [e for e in log if e[0] != 'read']


def at_state(at):
    return at.current_tuner_index, at.current_tuner_status, at.voltages_to_set


def same_pending(c, a, b):
    if a is None or b is None:
        return a is b
    return c.series_same(a, b)


def any_autotuner(c, pending_nan=False, storage=None, timed=False, pending_unknown=False, ready=lambda self: True):
    """autotuner with any number of groups, in an arbitrary state of its invariant; the readiness check and the set of tuned
    parameters are replaced by their contracts (C23: names are known; C04: some set of names)"""
    gates = c.names('gates', nonempty=True)
    exp, state, log = experiment(c, gates)
    where = []

    def make(k, i):
        where.append(i)
        return tuner(c, k, gates, log)
    groups = c.many('number_of_groups', make)
    n = c.size(groups)
    tuned = c.as_set(c.names('tuned_parameters'))
    idx = c.int('position', 0, n)
    pending, status = None, False
    if pending_unknown:
        c.assume(idx < n)
        pg = c.names('pending_gates')
        c.assume(c.any(pg, lambda g: c.Not(c.has(gates, g))))
        pending = c.series('pending', pg, nan=pending_nan)
    elif idx < n:
        mode = c.choice('mode', 3)
        if mode == 0:
            pending = c.series('pending', c.subnames('pending_gates', gates), nan=pending_nan)
        status = mode == 1
    at = c.make(c.q.autotuner.Autotuner, ready_to_tune=ready, tuned_parameters=property(lambda self: tuned))
    c.run(at.__init__, exp, groups, current_tuner_index=idx, current_tuner_status=status,
          voltage_to_set=c.snap(pending) if pending is not None else None, hdf5_storage_path=storage, append_time_to_path=timed)
    del log[:]
    return dict(at=at, gates=gates, n=n, exp=exp, state=state, log=log, hierarchy=groups, idx=idx, pending=pending, status=status,
                where=where, tuned=tuned)
