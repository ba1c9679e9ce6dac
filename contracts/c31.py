"""Scan evaluations: measurements requested, gates left alone, results of the fit or the scan under the right names.

`device` scenarios run the real fits on scans that follow the model exactly (bounded stand-in: floating-point fits).
`lead_scan` and the `fitted_*` scenarios are symbolic in gates, voltages and scan values, with the index search
and the least-squares fit replaced by their contracts (any index, any fit result)."""
from dv.base import contract
from .common import *

WIDTH = .2e-3


class Device:
    """experiment that records what is asked of it; `scan(measurement, voltages)` answers measurements"""
    def __init__(self, c, volts, scan):
        self.c, self.v, self.scan, self.log = c, volts, scan, []

        def put(x, new):
            v = c.snap(self.v)
            self.v = c.make_series(v.index, lambda g: c.ite(c.has(new, g), c.at(new, g), c.at(v, g)))
            return c.snap(self.v)

        def measure(x, m):
            self.log.append((m.name, dict(m.options), c.snap(self.v)))
            return self.scan(m, self.v)
        self.exp = c.make(c.q.experiment.Experiment, read_gate_voltages=lambda x: c.snap(self.v), set_gate_voltages=put, measure=measure,
                          gate_voltage_names=property(lambda x: tuple(volts.index)), to_hdf5=lambda x: {})


def labelled(c, r, names):
    """values and variances carry exactly these labels"""
    return c.And(c.index_same(r[0].index, c.index_of(names)), c.index_same(r[1].index, c.index_of(names)))


def evaluated(c, e, dev, names, scans=1):
    volts = c.snap(dev.v)
    r = c.run(e.evaluate)
    c.ensure('the gates are left as they were', c.series_same(dev.v, volts))
    c.ensure('every configured measurement once', len(dev.log) == scans)
    c.ensure('values and variances of exactly its parameters', labelled(c, r, names))
    return r


# ------------------------------------------------------------------ lead transition
def lead_evaluator(c, exp, gates, center, ranges, points, **kw):
    M = c.q.experiment.Measurement
    ms = [M('line_scan', center=center[i], range=ranges[i], gate=g, N_points=points[i]) for i, g in enumerate(gates)]
    return c.run(c.q.evaluator.LeadTransition, exp, shifting_gates=list(gates), sweeping_gates=list(gates), measurements=ms,
                 parameters=['position_' + g for g in gates], **kw)


def lead_log(c, dev, gates, volts, width, ranges):
    """each scan is taken with its gate moved by the width of the charge diagram and everything else untouched"""
    for i, g in enumerate(gates):
        if i >= len(dev.log):
            return
        _, o, v = dev.log[i]
        c.ensure('the configured scan', c.And(c.eq(o['range'], ranges[i]), o['gate'] == g))
        c.ensure('across the transition of its gate', c.all(volts.index, lambda h: c.eq(c.at(v, h), c.ite(h == g, c.at(volts, h) - width, c.at(volts, h)))))


def steepest(c, xs, n):
    """candidates for the centre of the window with the largest difference"""
    d = [abs(xs[i] - xs[i + n]) for i in range(len(xs) - n - 1)]
    m = max(d)
    return [i + int(round(n / 2)) for i, v in enumerate(d) if v >= m - 1e-9]


@contract('C31', ['LeadTransition.evaluate', 'LeadTransition.process_raw_data'], kind='concrete', reps=.5,
          note='scans of 20..120 points on 1..3 gates with the real index search')
def lead_device(c):
    import numpy as np
    rng = np.random.RandomState(c.choice('data', 10 ** 6))
    n = 1 + c.choice('number_of_gates', 3)
    gates = c.names('gates', size=n)
    volts = c.series('voltages', c.super_names('all_gates', gates))
    pts = [20 + c.choice('points', 100) for _ in gates]
    ranges = [(1. + c.choice('range', 8)) * 1e-3 for _ in gates]
    center = [float(c.choice('center', 3)) * 1e-3 for _ in gates]
    lines = c.choice('lines', 3)
    wd = [WIDTH, 4e-4][c.choice('width', 2)]
    diagram = c.real('charge_diagram_width')
    scans = []

    def scan(m, v):
        N = m.options['N_points']
        y = np.where(np.arange(N) > rng.randint(N), 1., 0.) + .3 * rng.rand(max(1, lines), N)
        scans.append(y if lines else y[0])
        return scans[-1].copy()
    dev = Device(c, volts, scan)
    e = lead_evaluator(c, dev.exp, gates, center, ranges, pts, charge_diagram_width=diagram, **({} if wd == WIDTH else dict(transition_width=wd)))
    r = evaluated(c, e, dev, ['position_' + g for g in gates], n)
    lead_log(c, dev, gates, volts, diagram, ranges)
    for i, g in enumerate(gates):
        y = scans[i] if scans[i].ndim == 1 else scans[i].mean(0)
        x = np.linspace(center[i] - ranges[i], center[i] + ranges[i], pts[i])
        w = wd / ranges[i] * pts[i]
        c.ensure('the position of the steepest window of its own scan', any(abs(x[k] - r[0]['position_' + g]) < 1e-9 for v in {int(w - 1e-9), int(w + 1e-9)}
                                                                            for k in steepest(c, list(y), v)))
        c.ensure('a positive variance', r[1]['position_' + g] > 0)


@contract('C31', ['LeadTransition.evaluate', 'LeadTransition.process_raw_data'], kind='bounded', budget=120,
          note='1..2 scanned gates, scans of 3..4 points; arbitrary gates, voltages, scan values and scan ranges', assumes=['contract of new_find_lead_transition_index (C24)'])
def lead_scan(c):
    n = 1 + c.choice('number_of_gates', 2)
    gates = c.names('gates', size=n)
    volts = c.series('voltages', c.super_names('all_gates', gates))
    pts = [3 + c.choice('points', 2) for _ in gates]
    ranges, center = [c.real('range', positive=True) for _ in gates], [c.real('center') for _ in gates]
    diagram, wd = c.real('charge_diagram_width'), c.real('transition_width', positive=True)
    calls = []

    def index(data, width_in_index_points):
        i = c.choice('index', pts[min(len(calls), n - 1)])
        calls.append((data, width_in_index_points, i))
        return i
    c.patch(c.q.util, 'new_find_lead_transition_index', index)
    scans = [c.vector('scan%d' % i, c.names('samples%d' % i, size=pts[i])) for i in range(n)]
    dev = Device(c, volts, lambda m, v: scans[min(len(dev.log), n) - 1])
    e = lead_evaluator(c, dev.exp, gates, center, ranges, pts, charge_diagram_width=diagram, transition_width=wd)
    r = evaluated(c, e, dev, ['position_' + g for g in gates], n)
    lead_log(c, dev, gates, volts, diagram, ranges)
    if len(calls) != n:       # the index is found some other way: lead_device decides
        return
    for i, g in enumerate(gates):
        data, w, k = calls[i]
        c.ensure('its own scan is searched', c.array_same(data, scans[i]))
        c.ensure('with the configured width', c.eq(w, c.floor_div(wd / ranges[i] * pts[i], 1)))
        c.ensure('the scan position of the transition', c.near(c.at(r[0], 'position_' + g), center[i] - ranges[i] + 2 * ranges[i] * k / (pts[i] - 1)))


@contract('C31', ['LeadTransition.evaluate'], kind='bounded', budget=60, note='1..3 scanned gates, one of the scans fails')
def lead_failure(c):
    n = 1 + c.choice('number_of_gates', 3)
    gates = c.names('gates', size=n)
    volts = c.series('voltages', c.super_names('all_gates', gates))
    bad = c.choice('failing', n)

    def scan(m, v):
        if len(dev.log) > bad:
            raise RuntimeError('no data')
        return c.vector('scan', c.names('samples', size=4))
    dev = Device(c, volts, scan)
    e = lead_evaluator(c, dev.exp, gates, [0.] * n, [1e-3] * n, [4] * n)
    c.call(e.evaluate)
    c.ensure('a failed scan leaves the gates as they were', c.series_same(dev.v, volts))


# ------------------------------------------------------------------ fits
def close(a, b, rel):
    return abs(a - b) <= rel * abs(b)


@contract('C31', ['InterDotTCByLineScan.evaluate', 'InterDotTCByLineScan.process_raw_data', 'func_inter_dot_coupling'], kind='concrete', reps=.4,
          note='noise-free transitions of 60..160 points, one or several lines')
def coupling_device(c):
    import numpy as np
    rng = np.random.RandomState(c.choice('data', 10 ** 6))
    n, r, m = rng.randint(60, 160), rng.uniform(1e-3, 3e-3), rng.uniform(-1e-3, 1e-3)
    x = np.linspace(m - r, m + r, n)
    w, p, h = rng.uniform(.03, .15) * r, m + rng.uniform(-.3, .3) * r, rng.choice([-1, 1]) * rng.uniform(.5, 2)
    y = rng.uniform(-1, 1) + rng.uniform(-.1, .1) * abs(h) / r * x + .5 * h * (1 + np.tanh((x - p) / w))
    lines = c.choice('lines', 3)
    if lines > 1:
        d = rng.uniform(-1, 1, (lines, n))
        y2 = y + d - d.mean(0)
    else:
        y2 = y[None, :] if lines else y
    dev = Device(c, c.series('voltages', c.names('gates', nonempty=True)), lambda m, v: y2.copy())
    e = c.run(c.q.evaluator.InterDotTCByLineScan, dev.exp, measurements=(c.q.experiment.Measurement('detune_scan', center=m, range=r, N_points=n),))
    for _ in range(1 + c.choice('again', 2)):
        del dev.log[:]
        v = evaluated(c, e, dev, ['parameter_tunnel_coupling'])
        c.ensure('the width of the transition', close(v[0]['parameter_tunnel_coupling'], w, 1e-2))


@contract('C31', ['NewLoadTime.evaluate', 'NewLoadTime.process_raw_data', 'func_load_time'], kind='concrete', reps=.4, note='noise-free decays of 40..160 points')
def load_device(c):
    import numpy as np
    rng = np.random.RandomState(c.choice('data', 10 ** 6))
    n = rng.randint(40, 160)
    t = np.linspace(0, rng.uniform(100, 300), n)
    k = rng.uniform(5, .5 * t[-1])
    y = rng.uniform(-1, 1) + rng.choice([-1, 1]) * rng.uniform(.3, 2) * np.exp(-t / k)
    dev = Device(c, c.series('voltages', c.names('gates', nonempty=True)), lambda m, v: np.stack([y, t]))
    e = c.run(c.q.evaluator.NewLoadTime, dev.exp, **({} if c.fork('default') else dict(initial_curvature=rng.uniform(10, 60))))
    for _ in range(1 + c.choice('again', 2)):
        del dev.log[:]
        v = evaluated(c, e, dev, ['parameter_time_load'])
        c.ensure('the decay time', close(v[0]['parameter_time_load'], k, 1e-2))
        c.ensure('the raw data of the scan', np.array_equal(np.ravel(e.raw_data[0]), t) and np.array_equal(np.ravel(e.raw_data[1]), y))


def pulsed(x, h, tf, tr, br, bf, o):
    """relaxation to two levels under a square pulse with half period T"""
    import numpy as np
    T = 2e-6
    relax = lambda t, tau: (np.cosh(T / 2 / tau) - np.exp((T - 2 * t) / 2 / tau)) / np.sinh(T / 2 / tau) / 2
    s = np.where(x < br, x + x[-1], x)
    return np.where((x >= br) & (x < bf), o + h * relax(x - br, tr), o - h * relax(s - bf, tf))


@contract('C31', ['LeadTunnelTimePrefitVersion.evaluate', 'LeadTunnelTimePrefitVersion.process_raw_data', 'func_lead_times_v1'], kind='concrete', reps=.15,
          note='noise-free pulsed scans of 320..480 points')
def lead_time_device(c):
    import numpy as np
    rng = np.random.RandomState(c.choice('data', 10 ** 6))
    rate = rng.uniform(.8e8, 1.2e8)
    n = int(4e-6 * rate)
    x = np.arange(n) / rate
    (tf, tr), br = rng.uniform(2e-8, 3e-7, 2), rng.uniform(5e-8, 9e-8)
    y = pulsed(x, rng.choice([-1, 1]) * rng.uniform(.5, 2), tf, tr, br, br + 2e-6, rng.uniform(-1, 1))
    base = rng.uniform(-1, 1, n)
    dev = Device(c, c.series('voltages', c.names('gates', nonempty=True)), lambda m, v: np.stack([base, base + y]))
    e = c.run(c.q.evaluator.LeadTunnelTimePrefitVersion, dev.exp, sample_rate=rate)
    v = evaluated(c, e, dev, ['parameter_time_rise', 'parameter_time_fall'])
    c.ensure('the time constants of the rise and the fall', close(v[0]['parameter_time_rise'], tr, .03) and close(v[0]['parameter_time_fall'], tf, .03))


FITS = {'LeadTunnelTimeByLeadScan': ('func_lead_times_v2', {'parameter_time_rise': 't_rise', 'parameter_time_fall': 't_fall'}),
        'LeadTunnelTimePrefitVersion': ('func_lead_times_v1', {'parameter_time_rise': 't_rise', 'parameter_time_fall': 't_fall'}),
        'InterDotTCByLineScan': ('func_inter_dot_coupling', {'parameter_tunnel_coupling': 'width'}),
        'NewLoadTime': ('func_load_time', {'parameter_time_load': 'curvature'})}


@contract('C31', [k + '.evaluate' for k in FITS], kind='concrete', reps=.3, assumes=['contract of scipy.optimize.curve_fit: any parameters, in the order of the arguments of the model'],
          note='scans of 420 points; the fit gives arbitrary parameters or fails')
def fits(c):
    import inspect
    import numpy as np
    import scipy.optimize
    rng = np.random.RandomState(c.choice('data', 10 ** 6))
    kind = sorted(FITS)[c.choice('class', 4)]
    model, names = FITS[kind]
    N = 420
    rate = rng.uniform(.9e8, 1.1e8)
    seen = []
    fails = c.choice('fails', 4)

    def curve_fit(f, xdata, ydata, p0=None, **kw):
        args = list(inspect.signature(f).parameters)[1:]
        if fails == len(seen) + 1:
            seen.append(None)
            raise RuntimeError('no convergence')
        popt = rng.uniform(1e-6, 2e-6, len(args)) * (1e6 if kind in ('NewLoadTime',) else 1.)
        seen.append((dict(zip(args, popt)), np.array(xdata), np.array(ydata)))
        return popt.copy(), np.eye(len(args))
    c.patch(scipy.optimize, 'curve_fit', curve_fit)
    c.patch(c.q.util, 'plot_raw_data_fit', lambda *a, **k: None)
    x = np.linspace(-1e-3, 1e-3, N)
    data = {'InterDotTCByLineScan': np.tanh(x / 2e-4) + .1 * rng.rand(N)}.get(kind)
    if data is None:
        data = rng.rand(2, N)
    dev = Device(c, c.series('voltages', c.names('gates', nonempty=True)), lambda m, v: data.copy())
    kw = dict(sample_rate=rate) if 'Tunnel' in kind else {}
    if kind == 'InterDotTCByLineScan':
        kw['measurements'] = (c.q.experiment.Measurement('detune_scan', center=0., range=1e-3, N_points=N),)
    e = c.run(getattr(c.q.evaluator, kind), dev.exp, **kw)
    volts = c.snap(dev.v)
    r = c.call(e.evaluate)
    if not seen:                    # fitted some other way
        return
    c.ensure('the gates are left as they were', c.series_same(dev.v, volts))
    c.ensure('every configured measurement once', len(dev.log) == 1)
    if None in seen and 'Tunnel' in kind:
        return
    c.ensure('an evaluation gives a result', r.ok)
    if r.raised:
        return
    c.ensure('values and variances of exactly its parameters', labelled(c, r.value, list(names)))
    if None in seen:
        if seen[-1] is None:
            c.ensure('a failed fit is reported as missing', all(np.isnan(r.value[0][p]) for p in names))
        return
    last, xs, ys = seen[-1]
    if not set(names.values()) <= set(last):
        return
    for p, a in names.items():
        c.ensure('the result of the last fit under its name', r.value[0][p] == last[a])
    if 'Tunnel' in kind:
        c.ensure('the difference of the two lines over time', np.allclose(ys, data[1] - data[0]) and np.allclose(xs, np.arange(N) / rate))
    elif kind == 'NewLoadTime':
        c.ensure('the signal over the waiting time', np.allclose(ys, data[0]) and np.allclose(xs, data[1]))
    else:
        c.ensure('the signal over the detuning', np.allclose(ys, data) and np.allclose(xs, x))


# ------------------------------------------------------------------ sensing dot
def smooth_line(rng, rich):
    """random smooth signal on [-1, 1] and its slope"""
    import numpy as np
    a, b = rng.uniform(-1, 1, 2)
    if not rich:
        f = np.polynomial.Polynomial([rng.uniform(-1, 1), a, b, rng.uniform(-1, 1)])
        return f, f.deriv()
    w, p = rng.uniform(1, 4), rng.uniform(0, 6)
    return (lambda u: a * u + np.sin(w * u + p)), (lambda u: a + w * np.cos(w * u + p))


@contract('C31', ['SensingDot1D.evaluate', 'SensingDot1D.process_raw_data'], kind='concrete', reps=.5,
          note='smooth noise-free scans of 100..400 points')
def sensing_line(c):
    import numpy as np
    rng = np.random.RandomState(c.choice('data', 10 ** 6))
    gates = c.names('gates', nonempty=True, size=1 + c.choice('number_of_gates', 3))
    g = gates[0]
    volts = c.series('voltages', gates)
    rich = c.fork('rich')
    volts[g] = 0. if rich else rng.uniform(-.5, .5)
    N, r = 100 + c.choice('points', 300), rng.uniform(2e-3, 8e-3)
    f, slope = smooth_line(rng, rich)
    u = np.linspace(-1, 1, N)
    dev = Device(c, volts, lambda m, v: f(u) if lines == 0 else f(u)[None, :])
    lines = c.choice('lines', 2)
    up = bool(c.fork('rising'))
    e = c.run(c.q.evaluator.SensingDot1D, dev.exp, sweeping_gate=g, rising_flank=up, parameters=('position_' + g, 'current_signal', 'optimal_signal'),
              measurements=(c.q.experiment.Measurement('line_scan', center=None, range=r, N_points=N, gate='other'),))
    for i in range(1 + c.choice('again', 2)):
        if i:
            dev.v[g] += 1e-3
            del dev.log[:]
        now = c.snap(dev.v)
        v, w = evaluated(c, e, dev, ['position_' + g, 'current_signal', 'optimal_signal'])
        if not dev.log:
            return
        o = dev.log[0][1]
        c.ensure('a scan of its gate around the present voltage', o['gate'] == g and abs(o['center'] - now[g]) < 1e-9 and o['range'] == r)
        s = slope(u) if up else -slope(u)
        span = s.max() - s.min() + abs(s).max()
        step = (2. / (N - 1)) * (1. if up else -1.)
        pos = (v['position_' + g] - now[g]) / r
        m = len(u) // 16
        inner = s[m:len(u) - m]
        at = slope(pos) if up else -slope(pos)
        c.ensure('the steepest point inside the margins', abs(pos) <= 1 - 2. * (m - 2) / (N - 1) and at >= inner.max() - .04 * span)
        c.ensure('the best signal', abs(v['optimal_signal'] / step - s.max()) <= .06 * span)
        c.ensure('the signal at the present voltage', abs(v['current_signal'] / step - (slope(0.) if up else -slope(0.))) <= .06 * span)


def peak_line(rng):
    """a coulomb peak and its slope"""
    import numpy as np
    h, p, w = rng.uniform(.3, 1), rng.uniform(-.8, .8), rng.uniform(.1, .18)
    return (lambda u: h * np.exp(-((u - p) / w) ** 2 / 2)), (lambda u: -h * (u - p) / w ** 2 * np.exp(-((u - p) / w) ** 2 / 2))


@contract('C31', ['SensingDot2D.evaluate', 'SensingDot2D.process_raw_data'], kind='concrete', reps=.25, note='smooth noise-free scans or coulomb peaks in 5..20 lines of 104..200 points')
def sensing_plane(c):
    import numpy as np
    rng = np.random.RandomState(c.choice('data', 10 ** 6))
    gates = c.names('gates', size=2 + c.choice('more_gates', 2))
    a, b = gates[0], gates[1]
    volts = c.series('voltages', gates)
    volts[a], volts[b] = rng.uniform(-.5, .5), 0.
    N, L, r = 104 + c.choice('points', 100), 5 + c.choice('lines', 16), rng.uniform(5e-3, 2e-2)
    peaks = c.fork('peaks')
    fs = [peak_line(rng) if peaks else smooth_line(rng, True) for _ in range(L)]
    u = np.linspace(-1, 1, N)
    data = np.array([f(u) for f, _ in fs])
    dev = Device(c, volts, lambda m, v: data.copy())
    up = bool(c.fork('rising'))
    e = c.run(c.q.evaluator.SensingDot2D, dev.exp, sweeping_gates=(a, b), scan_range=r, rising_flank=up, parameters=('position_' + a, 'position_' + b))
    now = c.snap(dev.v)
    v, w = evaluated(c, e, dev, ['position_' + a, 'position_' + b])
    if not dev.log:
        return
    o = dev.log[0][1]
    c.ensure('a scan of its gates around the present voltages', o['gate1'] == a and o['gate2'] == b and abs(o['center'][0] - now[a]) < 1e-9 and
             abs(o['center'][1] - now[b]) < 1e-9 and o['range'] == r)
    s = np.array([d(u) for _, d in fs]) * (-1. if up else 1.)
    m = N // 25
    inner = s[:, m:N - m]
    line = (v['position_' + a] - now[a] + r) / (2 * r) * (L - 1)
    pos = (v['position_' + b] - now[b]) / r
    k = int(round(line))
    ok = abs(line - k) < 1e-6 and 0 <= k < L
    c.ensure('one of the scanned lines', ok)
    if ok:
        at = fs[k][1](pos) * (-1. if up else 1.)
        c.ensure('the steepest point of the plane inside the margins', abs(pos) <= 1 and at >= inner.max() - .04 * (s.max() - s.min()))
