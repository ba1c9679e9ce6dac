from dv.base import contract
from .common import *

LEAD = ['LeadTransition.evaluate']
FIT = ['InterDotTCByLineScan.evaluate', 'NewLoadTime.evaluate']


def bench(c, gates, data):
    """experiment contract: setting changes exactly the named gates, a measurement gives arbitrary data"""
    log = []
    box = dict(now=c.series('voltages', gates), k=0)

    def read_gate_voltages(self):
        return c.snap(box['now'])

    def set_gate_voltages(self, new):
        c.ensure('only known gates are set', c.subset(new.index, gates))
        old, new = box['now'], c.snap(new)
        box['now'] = c.make_series(gates, lambda g: c.ite(c.has(new.index, g), c.at(new, g), c.at(old, g)))
        log.append(('set', box['now']))
        return c.snap(box['now'])

    def measure(self, measurement):
        log.append(('measure', box['now'], measurement))
        box['k'] += 1
        return data(box['k'] - 1)
    e = c.make(c.q.experiment.Experiment, read_gate_voltages=read_gate_voltages, set_gate_voltages=set_gate_voltages, measure=measure,
               gate_voltage_names=property(lambda self: tuple(gates)), to_hdf5=lambda self: {})
    return e, box, log


def displaced(c, before, now, gates, gate, width):
    """now is before with minus width on exactly the gate"""
    return c.all(gates, lambda g: c.eq(c.at(now, g), c.at(before, g) - (c.ite(c.has(c.index_of([gate]), g), width, 0. * width))))


def restored(c, n, gates, before, box, log, shifting, width, scans):
    c.ensure('the voltages are as before', c.all(gates, lambda g: c.eq(c.at(box['now'], g), c.at(before, g))))
    m = [e for e in log if e[0] == 'measure']
    c.ensure('each measurement exactly once, in order', c.And(len(m) == n, all(e[2] is s for e, s in zip(m, scans))))
    for e, g in zip(m, shifting):
        c.ensure('measured displaced on exactly the assigned gate', displaced(c, before, e[1], gates, g, width))
    k = 0
    for e in log:
        if e[0] == 'measure':
            k += 1
            continue
        ok = [c.all(gates, lambda g: c.eq(c.at(e[1], g), c.at(before, g)))]
        ok += [displaced(c, before, e[1], gates, g, width) for g in shifting[max(0, k - 1):k + 1]]
        c.ensure('nothing else is changed', c.Or(*ok))


@contract('C22', LEAD, note='any number of measurements; every measurement starts from voltages the one before has restored')
def lead_transition_any(c):
    gates = c.names('gates', nonempty=True)
    n = c.int('measurements', lo=1)
    where = {}

    def gate(k, i):
        return c.pick('shifting_gate', gates)
    width = c.real('charge_diagram_width')

    def scan(k, i):
        s = c.q.experiment.Measurement('line_scan', center=0., range=4e-3, N_points=40)
        where[id(s)] = i
        return s
    shifting, scans = c.many('shifting_gates', gate, length=n), c.many('scans', scan, length=n)
    raw = {}

    def data(k):
        raw[k] = object()
        return raw[k]
    exp, box, log = bench(c, gates, data)
    before = c.snap(box['now'])
    here = lambda v: c.all(gates, lambda g: c.eq(c.at(v, g), c.at(before, g)))
    ev = c.run(c.q.evaluator.LeadTransition, exp, shifting_gates=shifting, charge_diagram_width=width, measurements=scans, parameters=('position',))
    measured = lambda: [e for e in log if e[0] == 'measure']
    seen = []
    res = (object(), object())

    def process(raw_data):
        if not here(box['now']):
            c.undecided('the voltages are not restored after every measurement')
        seen.append(raw_data)
        return res
    ev.process_raw_data = process
    r = c.run(ev.evaluate)
    m = measured()
    c.ensure('the voltages are as before', here(box['now']))
    c.ensure('each measurement exactly once', c.once_each(n, [where[id(e[2])] for e in m]))
    for e in m:
        c.ensure('measured displaced on exactly the assigned gate', displaced(c, before, e[1], gates, shifting[where[id(e[2])]], width))
    for e in log:
        if e[0] == 'set':
            c.ensure('nothing else is changed', c.Or(here(e[1]), *[displaced(c, before, e[1], gates, shifting[where[id(x[2])]], width) for x in m]))
    c.ensure('the data of every measurement is processed in order', c.And(len(seen) == 1, *[c.gathered(x, n, [raw[k] for k in sorted(raw)]) for x in seen]))
    c.ensure('the result is returned', c.And(r[0] is res[0], r[1] is res[1]))


@contract('C22', LEAD, kind='bounded', note='1..3 measurements are enumerated; any gates and voltages', cross='lead_transition_any')
def lead_transition(c):
    gates = c.names('gates', nonempty=True)
    n = 1 + c.choice('measurements', 3)
    shifting = [c.pick('shifting_gate', gates) for _ in range(n)]
    width = c.real('charge_diagram_width')
    scans = [c.q.experiment.Measurement('line_scan', center=0., range=4e-3, N_points=40) for _ in range(n)]
    raw = [object() for _ in range(n)]
    exp, box, log = bench(c, gates, lambda k: raw[k] if k < n else None)
    before = c.snap(box['now'])
    ev = c.run(c.q.evaluator.LeadTransition, exp, shifting_gates=tuple(shifting), charge_diagram_width=width, measurements=scans,
               parameters=tuple('position_%d' % k for k in range(n)))
    seen = []
    res = (object(), object())

    def process(raw_data):
        seen.append(list(raw_data))
        return res
    ev.process_raw_data = process
    r = c.run(ev.evaluate)
    restored(c, n, gates, before, box, log, shifting, width, scans)
    c.ensure('the data of every measurement is processed', c.And(len(seen) == 1, len(seen[0]) == n, all(a is b for a, b in zip(seen[0], raw))))
    c.ensure('the result is returned', c.And(r[0] is res[0], r[1] is res[1]))


@contract('C22', LEAD + ['LeadTransition.process_raw_data'], kind='concrete', note='1..3 measurements of 20..120 points, one or several lines')
def lead_transition_scans(c):
    import numpy as np
    gates = c.names('gates', nonempty=True)
    n = 1 + c.choice('measurements', 3)
    shifting = [c.pick('shifting_gate', gates) for _ in range(n)]
    width = c.real('charge_diagram_width')
    N = 40 + c.choice('points', 80)
    scans = [c.q.experiment.Measurement('line_scan', center=0., range=4e-3, N_points=N) for _ in range(n)]
    rng = np.random.RandomState(c.choice('data', 10 ** 6))
    raw = [rng.rand(N) if rng.rand() < .5 else rng.rand(3, N) for _ in range(n)]
    exp, box, log = bench(c, gates, lambda k: raw[k])
    before = c.snap(box['now'])
    ev = c.run(c.q.evaluator.LeadTransition, exp, shifting_gates=tuple(shifting), charge_diagram_width=width, measurements=scans,
               parameters=tuple('position_' + g for g in shifting))
    for rep in range(2):
        del log[:]
        box['k'] = 0
        v, e = c.run(ev.evaluate)
        restored(c, n, gates, before, box, log, shifting, width, scans)
        c.ensure('one position for every shifting gate', set(v.index) == set('position_' + g for g in shifting))


def fit_error(c):
    return [RuntimeError, c.q.util.EvaluationError][c.choice('kind_of_failure', 2)]


def missing(c, r, name):
    v, w = r
    ix = c.strs(name)
    c.ensure('exactly its parameter', c.And(c.is_series(v), c.is_series(w), c.index_same(v.index, ix), c.index_same(w.index, ix)))
    for x in ix:
        c.ensure('reported as missing', c.And(c.isnan(c.at(v, x)), c.isnan(c.at(w, x))))


@contract('C22', ['InterDotTCByLineScan.evaluate'], note='scans of any number of points, one line or two')
def tunnel_coupling_fit_fails(c):
    gates = c.names('gates', nonempty=True)
    ix = c.names('points', nonempty=True)
    s = c.series('scan', ix)
    data = c.row_array(s) if c.fork('row') else c.flat_array(s)
    exp, box, log = bench(c, gates, lambda k: data)
    ev = c.run(c.q.evaluator.InterDotTCByLineScan, exp)
    err = fit_error(c)
    seen = []

    def process(raw_data):
        seen.append(raw_data)
        raise err('no fit')
    ev.process_raw_data = process
    r = c.run(ev.evaluate)
    c.ensure('the data is processed', len(seen) == 1)
    missing(c, r, 'parameter_tunnel_coupling')


@contract('C22', ['NewLoadTime.evaluate'], note='scans of any number of points')
def load_time_fit_fails(c):
    gates = c.names('gates', nonempty=True)
    ix = c.names('points', nonempty=True)
    rows = c.strs('signal', 'time')
    data = c.mat_array(c.matrix('scan', rows, ix))
    exp, box, log = bench(c, gates, lambda k: data)
    ev = c.run(c.q.evaluator.NewLoadTime, exp)
    err = fit_error(c)
    seen = []

    def process(raw_data):
        seen.append(raw_data)
        raise err('no fit')
    ev.process_raw_data = process
    r = c.run(ev.evaluate)
    c.ensure('the data is processed', len(seen) == 1)
    missing(c, r, 'parameter_time_load')


@contract('C22', FIT + ['InterDotTCByLineScan.process_raw_data', 'NewLoadTime.process_raw_data'], kind='concrete', reps=.5,
          note='scans of 20..100 points; the optimiser gives up at any of its calls')
def optimiser_gives_up(c):
    import numpy as np
    gates = c.names('gates', nonempty=True)
    N = 20 + c.choice('points', 80)
    rng = np.random.RandomState(c.choice('data', 10 ** 6))
    inter = c.fork('tunnel_coupling')
    x = np.linspace(-2e-3, 2e-3, N)
    if inter:
        data = np.tanh((x - rng.uniform(-1e-4, 1e-4)) / 2e-4) + .01 * rng.rand(N)
        if c.fork('lines'):
            data = np.stack([data, data + .01 * rng.rand(N)])
    else:
        t = np.arange(N) * 5.
        data = np.stack([np.exp(-t / rng.uniform(10, 60)) + .01 * rng.rand(N), t])
    exp, box, log = bench(c, gates, lambda k: data)
    ev = c.run(c.q.evaluator.InterDotTCByLineScan if inter else c.q.evaluator.NewLoadTime, exp)
    fail_at = c.choice('fail_at', 3)
    calls = []
    real = c.q.evaluator.optimize.curve_fit

    def curve_fit(*a, **k):
        calls.append(1)
        if len(calls) - 1 == fail_at:
            raise RuntimeError('Optimal parameters not found')
        return real(*a, **k)
    c.patch(c.q.evaluator.optimize, 'curve_fit', curve_fit)
    r = c.run(ev.evaluate)
    if len(calls) > fail_at:
        missing(c, r, 'parameter_tunnel_coupling' if inter else 'parameter_time_load')
    else:
        c.ensure('exactly its parameter', [list(x.index) for x in r] == [['parameter_tunnel_coupling' if inter else 'parameter_time_load']] * 2)


@contract('C22', LEAD, kind='bounded', note='1..3 measurements are enumerated; any gates and voltages; any of them fails, with any kind of exception')
def lead_transition_interrupted(c):
    gates = c.names('gates', nonempty=True)
    n = 1 + c.choice('measurements', 3)
    shifting = [c.pick('shifting_gate', gates) for _ in range(n)]
    width = c.real('charge_diagram_width')
    scans = [c.q.experiment.Measurement('line_scan', center=0., range=4e-3, N_points=40) for _ in range(n)]
    bad = c.choice('failing', n)

    class Interrupted(Exception):
        pass
    err = [RuntimeError, ValueError, KeyError, OSError, Interrupted, c.q.util.EvaluationError][c.choice('kind_of_failure', 6)]

    def data(k):
        if k >= bad:
            raise err('no data')
        return object()
    exp, box, log = bench(c, gates, data)
    before = c.snap(box['now'])
    ev = c.run(c.q.evaluator.LeadTransition, exp, shifting_gates=tuple(shifting), charge_diagram_width=width, measurements=scans,
               parameters=tuple('position_%d' % k for k in range(n)))
    r = c.call(ev.evaluate)
    c.ensure('voltages as before also after a failed measurement', c.all(gates, lambda g: c.eq(c.at(box['now'], g), c.at(before, g))))
