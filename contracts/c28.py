"""Rows of the tuning history against a model fed from the autotuner's groups."""
from dv.base import contract
from .common import *
from .c18 import program_evaluator, program_group

FUN = ['History.append_autotuner', 'History.read_autotuner_to_data_frame', 'extract_voltages_from_hierarchy', 'extract_parameters_from_hierarchy',
       'extract_gradients_from_hierarchy', 'read_evaluator_data_from_autotuner', 'History.get_gate_values', 'History.get_parameter_values',
       'History.get_parameter_std', 'History.get_gradients', 'History.get_gradient_variances', 'History.get_gradient_covariances', 'History.get_reload_path']


class Model:
    """one row per maximal run of states with equal voltages"""
    def __init__(self, c, at):
        self.c, self.at, self.rows = c, at, []
        self.fresh = set()          # groups evaluated since the last state was appended

    def relevant(self, k):
        t = self.at.tuning_hierarchy[k]
        v, w = t.last_parameters_and_variances
        if isinstance(t, self.c.q.parameter_tuner.SubsetTuner):
            d = t.target['desired']
            keep = [p for p in v.index if d[p] == d[p]]
        else:
            keep = list(v.index)
        return {p: v[p] for p in keep}, {p: w[p] for p in keep}

    def gradients(self, k):
        r = {}
        s = self.at.tuning_hierarchy[k].solver
        if isinstance(s, self.c.q.solver.NewtonSolver):
            for p, e in zip(s.target.index, s.gradient_estimators):
                g, cov = e.estimate(), e.covariance()
                if g is not None and cov is not None:
                    r[p] = {n: (g[n], {m: cov.loc[n, m] for m in g.index}) for n in g.index}
        return r

    def evaluators(self, k):
        t = self.at.tuning_hierarchy[k]
        return t.cheap_evaluators if isinstance(t, self.c.q.parameter_tuner.SensingDotTuner) else t.evaluators

    def append(self, path):
        v = self.at.tuning_hierarchy[0].last_voltages
        same = lambda a, b: set(a.index) == set(b.index) and all(a[g] == b[g] or a[g] != a[g] and b[g] != b[g] for g in a.index)
        if not self.rows or not same(self.rows[-1]['voltages'], v):
            self.rows.append(dict(voltages=v.copy(), values={}, std={}, gradients={}, raw={}))
            if len(self.rows) == 1:
                self.fresh |= set(range(len(self.at.tuning_hierarchy)))
        row = self.rows[-1]
        row['path'] = path
        for k in sorted(self.fresh):
            a, b = self.relevant(k)
            row['values'].update(a)
            row['std'].update({p: b[p] ** .5 for p in b})
            row['gradients'].update(self.gradients(k))
            row['raw'].update({e.name: list(e.raw_data[1]) for e in self.evaluators(k) if e.raw_data[1] is not None})
        self.fresh.clear()


def alike(a, b):
    return a == b or a != a and b != b or abs(a - b) <= 1e-9 * max(abs(a), abs(b))


# kind of every group, number of its parameters, whether it has a Newton solver
STATES = [[('subset', 2, True)], [('parameter', 1, False)], [('sensing', 2, False)], [('parameter', 1, True)],
          [('sensing', 1, False), ('subset', 1, True)], [('subset', 1, False), ('subset', 1, True)], [('subset', 1, True), ('parameter', 1, False)]]


def state_group(c, k, gates, exact, config):
    """a group of arbitrary state; evaluation gives it new arbitrary results"""
    q = c.q
    kind, number, newton = config
    params = [x + 'p(%d)' % k for x in ('', 'a')[:number]]     # a name may be part of another one
    index = c.index_of(params)
    box = {}

    def renew(i):
        tag = '%d_%d' % (k, i)
        box['values'] = c.series('values_' + tag, index, nan=True)
        w = {p: c.real('variance_%s_%s' % (tag, p), nonneg=True) for p in params}
        box['variances'] = c.list_series(index, [w[p] for p in params])
        box['estimates'] = [(c.series('gradient_%s_%s' % (tag, p), c.index_of(gates)), cov_table(c, 'covariance_%s_%s' % (tag, p), gates))
                            if i or box['measured'] else (None, None) for p in params]
        box['raw'] = [[c.real('raw_%s_%d' % (tag, j))] if i or box['measured'] else None for j in range(2)]
    box['measured'] = c.fork('evaluated_before')
    desired = c.series('desired%d' % k, index, nan=kind == 'subset')
    target = c.frame(index, dict(desired=desired))
    ests = []
    for j, p in enumerate(params):
        ests.append(c.make(q.gradient.GradientEstimator, estimate=lambda self, j=j: c.snap(box['estimates'][j][0]) if box['estimates'][j][0] is not None else None,
                           covariance=lambda self, j=j: c.snap(box['estimates'][j][1]) if box['estimates'][j][1] is not None else None, to_hdf5=lambda self: {}))
    sol = c.make(q.solver.NewtonSolver if newton else q.solver.Solver, target=property(lambda self: target),
                 gradient_estimators=property(lambda self: tuple(ests)), to_hdf5=lambda self: {})
    evs = []
    for j in range(2 if kind == 'sensing' else 1):
        evs.append(c.make(q.evaluator.Evaluator, name=property(lambda self, j=j: 'e%d%d' % (k, j)),
                          raw_data=property(lambda self, j=j: (box['raw'][j], box['raw'][j])),
                          to_hdf5=lambda self, j=j: dict(name='e%d%d' % (k, j), raw_x_data=box['raw'][j], raw_y_data=box['raw'][j])))
    ns = dict(last_parameters_and_variances=property(lambda self: (c.snap(box['values']), c.snap(box['variances']))),
              solver=property(lambda self: sol), target=property(lambda self: target), parameters=property(lambda self: tuple(params)),
              evaluators=property(lambda self: tuple(evs)), last_voltages=property(lambda self: exact['voltages']), to_hdf5=lambda self: {})
    if kind == 'sensing':
        ns.update(cheap_evaluators=property(lambda self: tuple(evs[:1])), expensive_evaluators=property(lambda self: tuple(evs[1:])),
                  cheap_evaluation_only=property(lambda self: box['cheap']))
    box['cheap'] = True
    cls = {'subset': q.parameter_tuner.SubsetTuner, 'parameter': q.parameter_tuner.ParameterTuner, 'sensing': q.parameter_tuner.SensingDotTuner}[kind]
    return dict(t=c.make(cls, **ns), params=params, kind=kind, box=box, newton=newton, target=target, renew=renew, evs=evs)


def cov_table(c, name, gates):
    ix = c.index_of(gates)
    return c.matrix(name, ix, ix)


@contract('C28', FUN, kind='bounded', budget=200, note='1..2 groups of 1..2 parameters, two gates and up to 3 states (2 for two groups) are enumerated; all voltages, values, variances, gradients and data are arbitrary')
def arbitrary_states(c):
    q = c.q
    history = c.module('history')
    gates = ['ga', 'g-b']
    exact = dict(voltages=c.series('voltages0', c.index_of(gates[::-1])))
    configs = STATES[c.choice('groups', len(STATES))]
    n = len(configs)
    groups = [state_group(c, k, gates, exact, x) for k, x in enumerate(configs)]
    st = {}
    at = c.make(q.autotuner.Autotuner, tuning_hierarchy=property(lambda self: [g['t'] for g in groups]), current_tuner_index=property(lambda self: st['index']),
                current_tuner_status=property(lambda self: st['status']), voltages_to_set=property(lambda self: st['pending']),
                last_save_file=property(lambda self: st['file']), to_hdf5=lambda self: {})
    h = c.run(history.History, None)
    rows = []
    number = 1 + c.choice('number_of_states', 3 if n == 1 else 2)
    for i in range(number):
        if i and c.fork('moved'):
            exact['voltages'] = c.series('voltages%d' % i, c.index_of(gates))
            c.assume(c.Not(c.And(*[c.eq(c.at(exact['voltages'], g), c.at(rows[-1]['voltages'], g)) for g in gates])))
            new = True
        else:
            new = not i
        st['index'] = c.choice('index', n + 1)
        busy = c.choice('busy', 3) if st['index'] < n and i == number - 1 else 0
        st['status'], st['pending'] = busy == 1, exact['voltages'] if busy == 2 else None
        st['file'] = 'file%d' % i
        e = st['index'] + (busy > 0)
        for k, g in enumerate(groups):
            if not i or k < e:
                g['renew'](i)
        c.run(h.append_autotuner, at)
        if new:
            rows.append(dict(voltages=c.snap(exact['voltages']), groups={}))
        row = rows[-1]
        row['file'] = st['file']
        for k, g in enumerate(groups):
            if k < e or not i:
                row['groups'][k] = dict(values=c.snap(g['box']['values']), variances=c.snap(g['box']['variances']), estimates=list(g['box']['estimates']), raw=list(g['box']['raw']))
    n_rows = len(rows)
    c.ensure('one row per voltage setting', h.number_of_stored_iterations == n_rows)
    if h.number_of_stored_iterations != n_rows:
        return
    for g in gates:
        col = list(c.run(h.get_gate_values, g))
        c.ensure('the voltages of the rows', c.And(len(col) == n_rows, *[c.eq(x, c.at(r['voltages'], g)) for x, r in zip(col, rows)]))
    c.ensure('the path of the last state of the row', [h.get_reload_path(i) for i in range(n_rows)] == [r['file'] for r in rows])
    for k, g in enumerate(groups):
        for j, p in enumerate(g['params']):
            if g['kind'] == 'subset' and c.isnan(c.at(g["target"]["desired"], p)):
                continue
            col, std = list(c.run(h.get_parameter_values, p)), list(c.run(h.get_parameter_std, p))
            c.ensure('the last values of the groups evaluated', c.And(len(col) == n_rows, *[
                c.eq(x, c.at(r['groups'][k]['values'], p)) for x, r in zip(col, rows) if k in r['groups']]))
            c.ensure('and their deviations', c.And(len(std) == n_rows, *[
                c.And(x >= 0, c.near(x * x, c.at(r['groups'][k]['variances'], p))) for x, r in zip(std, rows) if k in r['groups']]))
            if not g['newton'] or not any(k in r['groups'] and r['groups'][k]['estimates'][j][0] is not None for r in rows):
                continue
            grad, var, cov = c.run(h.get_gradients, p), c.run(h.get_gradient_variances, p), c.run(h.get_gradient_covariances, p)
            for i, r in enumerate(rows):
                if k not in r['groups'] or r['groups'][k]['estimates'][j][0] is None:
                    continue
                x, y = r['groups'][k]['estimates'][j]
                for a in gates:
                    ok = list(grad.columns).count(a) == 1 and list(var.columns).count(a) == 1
                    c.ensure('the gradients of the groups evaluated and their variances', c.And(ok, c.eq(
                        list(grad[a])[i], c.at(x, a)), c.eq(list(var[a])[i], c.mat_at(y, a, a))) if ok else False)
                    for b in gates:
                        one = list(cov.columns).count((a, b)) == 1
                        c.ensure('and the covariances of the gradients', c.Or(
                            c.eq(list(cov[(a, b)])[i], c.mat_at(y, a, b)), c.eq(list(cov[(a, b)])[i], c.mat_at(y, b, a))) if one else False)
        for j, ev in enumerate(g['evs'][:1]):
            if any(k in r['groups'] and r['groups'][k]['raw'][j] is not None for r in rows):
                data = list(c.run(h.get_evaluator_data, [ev.name])[ev.name])
                for i, r in enumerate(rows):
                    if k in r['groups'] and r['groups'][k]['raw'][j] is not None:
                        c.ensure('the raw data of the groups evaluated', isinstance(data[i], dict) and data[i]['raw_y_data'] is r['groups'][k]['raw'][j])


def compare(c, h, m, gates):
    n = len(m.rows)
    c.ensure('one row per voltage setting', h.number_of_stored_iterations == n)
    if h.number_of_stored_iterations != n:
        return False
    for g in gates:
        col = list(c.run(h.get_gate_values, g))
        c.ensure('the voltages of the rows', len(col) == n and all(alike(x, r['voltages'][g]) for x, r in zip(col, m.rows)))
    for i, r in enumerate(m.rows):
        c.ensure('the path of the last state of the row', h.get_reload_path(i) == r['path'])
    for p in sorted(set(x for r in m.rows for x in r['values'])):
        col, std = list(c.run(h.get_parameter_values, p)), list(c.run(h.get_parameter_std, p))
        c.ensure('the last values of the groups evaluated', len(col) == n and all(p not in r['values'] or alike(x, r['values'][p]) for x, r in zip(col, m.rows)))
        c.ensure('and their deviations', len(std) == n and all(p not in r['std'] or alike(x, r['std'][p]) for x, r in zip(std, m.rows)))
    for p in sorted(set(x for r in m.rows for x in r['gradients'])):
        grad, var, cov = c.run(h.get_gradients, p), c.run(h.get_gradient_variances, p), c.run(h.get_gradient_covariances, p)
        ok = both = True
        for i, r in enumerate(m.rows):
            for g, (x, y) in r['gradients'].get(p, {}).items():
                ok = ok and list(grad.columns).count(g) == 1 and list(var.columns).count(g) == 1 and alike(grad[g].iloc[i], x) and alike(var[g].iloc[i], y[g])
                for b in y:
                    both = both and list(cov.columns).count((g, b)) == 1 and alike(cov[(g, b)].iloc[i], y[b])
        c.ensure('the gradients of the groups evaluated and their variances', ok)
        c.ensure('and the covariances of the gradients', both)
    data = c.run(h.get_evaluator_data, sorted(set(x for r in m.rows for x in r['raw'])))
    c.ensure('the raw data of the groups evaluated', len(data) == n and all(
        isinstance(data[e].iloc[i], dict) and list(data[e].iloc[i]['raw_y_data']) == y for i, r in enumerate(m.rows) for e, y in r['raw'].items()))
    return True


def simulated(c, folder=None, noisy=True):
    q = c.q
    n = 1 + c.choice('number_of_groups', 3)
    gates = c.names('gates', size=1 + c.choice('number_of_gates', 3))
    volts = c.series('voltages', gates)

    class Device(q.experiment.Experiment):
        def __init__(self, v):
            self.v, self.log = v, []

        def read_gate_voltages(self):
            return self.v.copy()

        def set_gate_voltages(self, new):
            self.v[new.index] = new
            return self.v.copy()
    exp = Device(volts.copy())
    cls = program_evaluator(c)
    groups = []
    for k in range(n):
        g = gates[:1 + c.choice('group_gates', len(gates))]
        groups.append(program_group(c, exp, cls, k, g, c.index_of(['x' * i + 'p(%d)' % k for i in range(1 + c.choice('parameters', len(g)))])))
    return exp, c.run(q.autotuner.Autotuner, exp, groups, hdf5_storage_path=folder)


@contract('C28', FUN, kind='concrete', reps=.6, note='states of simulated programs of 1..3 groups over up to 40 operations, appended after every operation')
def appended_states(c):
    q = c.q
    exp, at = simulated(c)
    gates = list(exp.v.index)
    h = c.run(q.history.History, None)
    m = Model(c, at)
    counts = lambda: [sum(e.count for e in t.evaluators) for t in at.tuning_hierarchy]
    for i in range(1 + c.choice('steps', 40)):
        k = c.choice('operation', 12) if i else 3
        before = counts()
        if i == 0:
            pass
        elif k == 0:
            exp.v = c.series('set_by_hand', c.index_of(gates)) if c.fork('moved') else exp.v
            at.restart()
            m.fresh.clear()
        elif k == 1:
            j = c.choice('changed', len(at.tuning_hierarchy))
            t = at.tuning_hierarchy[j]
            if 'desired' in t.target and t.target['desired'].notna().all():
                at.change_targets([{} for _ in range(j)] + [{'desired': c.series('new_target', t.target.index)}])
        elif at.is_tuning_complete() or c.call(at.iterate).raised:
            return
        after = counts()
        m.fresh |= {j for j in range(len(after)) if after[j] != before[j]}
        if i and k < 2 and c.fork('not_appended'):     # the program itself only stores states after iterations
            continue
        path = 'file%d' % i
        if c.choice('given', 2):
            at.last_save_file = 'elsewhere'
            c.run(h.append_autotuner, at, path)
        else:
            at.last_save_file = path
            c.run(h.append_autotuner, at)
        m.append(path)
        if not compare(c, h, m, gates):
            return


@contract('C28', FUN + ['History.load_directory', 'History.load_file', 'read_files'], kind='concrete', reps=.3,
          note='programs of 1..3 groups of up to 30 iterations, stored by the background writer and read back')
def stored_states(c):
    import os
    q = c.q
    folder = c.folder('storage', exists=True)
    exp, at = simulated(c, folder)
    gates = list(exp.v.index)
    m = Model(c, at)
    counts = lambda: [sum(e.count for e in t.evaluators) for t in at.tuning_hierarchy]
    files = []
    for i in range(1 + c.choice('steps', 30)):
        if i and c.choice('operation', 8) == 0:
            if c.fork('moved'):
                exp.v = c.series('set_by_hand', c.index_of(gates))
            at.restart()
            m.fresh.clear()
        before = counts()
        if at.is_tuning_complete() or c.call(at.iterate).raised:
            break
        after = counts()
        m.fresh |= {j for j in range(len(after)) if after[j] != before[j]}
        files.append(at.last_save_file)
        m.append(at.last_save_file)
    at.asynchrone_writer.join()
    if not files:
        return
    h = c.run(q.history.History, os.path.dirname(files[0]), experiment=exp)
    compare(c, h, m, gates)
    if c.fork('one_by_one'):
        h = c.run(q.history.History, None, experiment=exp)
        for f in files:
            c.run(h.load_file, f)
        compare(c, h, m, gates)
