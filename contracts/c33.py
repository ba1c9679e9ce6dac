"""Evaluators of the quadruple-dot backend: the analysis MATLAB returns, reported under the parameter names.

Measuring is the assumed contract (see C32): the measurement answers with arbitrary analysis values."""
import types
from dv.base import contract
from .common import *
from .c17 import setup
from .c32 import qqd

NAN = float('nan')
PARAMS = ['p0', 'p1', 'p2']


class Analysis:
    """the MATLAB structure of one measurement"""

    def __init__(self, ana):
        self.ana, self.args = ana, types.SimpleNamespace(fullFile='file_1')


def bench(c, cls, ana, n, **options):
    """evaluator of n parameters on an experiment whose every measurement gives this analysis; measurements made"""
    mod = qqd(c)
    log = []
    data = {'data': Analysis(ana)}
    if not c.symbolic:
        import pandas as pd
        data = pd.Series(data)
    exp = c.make(c.q.experiment.Experiment, measure=lambda x, m: (log.append(m), data)[1], to_hdf5=lambda x: {},
                 gate_voltage_names=property(lambda x: ()), read_gate_voltages=lambda x: c.empty_series(), set_gate_voltages=lambda x, v: v)
    M = c.q.experiment.Measurement
    ms = [M('first', index=1), M('second', index=2)][:1 + c.choice('measurements', 2)]
    e = c.run(getattr(mod, cls), exp, ms, PARAMS[:n], 'evaluator', **options)
    how = c.choice('stored', 3)
    if how:
        if how == 2:
            c.run(e.evaluate)
            del log[:]
        setup(c)
        f = c.h5file()
        c.run(c.q.storage.to_hdf5, f, 'entry', e, reserved={'experiment': exp})
        e = c.run(c.q.storage.from_hdf5, f, {'experiment': exp})['entry']
    return e, log, ms


def evaluated(c, e, log, ms, n):
    r = c.call(e.evaluate)
    c.ensure('evaluates', r.exc is None)
    c.ensure('its measurement is made once', len(log) == 1 and log[0].name == ms[0].name)
    if r.exc is not None:
        return None
    values, variances = r.value
    names = c.index_of(PARAMS[:n])
    ok = c.And(c.index_same(values.index, names), c.index_same(variances.index, names))
    c.ensure('values and variances of exactly its parameters', ok)
    return [c.at(values, p) for p in PARAMS[:n]], [c.at(variances, p) for p in PARAMS[:n]]


def bounds(c, name):
    """optional lower and upper bound: options, test of a value"""
    low = c.real(name + '_low') if c.fork('lower_bound') else None
    high = c.real(name + '_high') if c.fork('upper_bound') else None
    inside = lambda v: c.And(*([c.Not(v < low)] if low is not None else []), *([c.Not(v > high)] if high is not None else []))
    return low, high, inside


def settings(low, high, small='minimal_value', large='maximal_value'):
    kw = {}
    if low is not None:
        kw[small] = low
    if high is not None:
        kw[large] = high
    return kw


@contract('C33', ['QQDLine.evaluate', 'QQDLine.process_raw_data', 'QQDLine.to_hdf5'], kind='bounded', note='1..4 repetitions, arbitrary widths, with or without bounds')
def line(c):
    n = 1 + c.choice('repetitions', 4)
    w = [c.real('width') for _ in range(n)]
    low, high, inside = bounds(c, 'width')
    e, log, ms = bench(c, 'QQDLine', [types.SimpleNamespace(width=x) for x in w], 1, **settings(low, high))
    r = evaluated(c, e, log, ms, 1)
    if r is None:
        return
    mean = sum(w[1:], w[0]) / n
    var = sum([(x - mean) * (x - mean) for x in w[1:]], (w[0] - mean) * (w[0] - mean)) / (n * n)
    c.ensure('the average width, NaN if out of bounds', c.near(r[0][0], c.ite(inside(mean), mean, NAN)))
    c.ensure('its variance', c.near(r[1][0], var))


@contract('C33', ['QQDLead.evaluate', 'QQDLead.process_raw_data', 'QQDLead.to_hdf5'], kind='bounded', note='arbitrary fit results, with or without bounds and error scale')
def lead(c):
    fit = [[c.real('fit', nan=True) for _ in range(4)] for _ in range(2)]
    residuals = c.real('residuals', nonneg=True)
    low, high, inside = bounds(c, 'fit')
    kw = settings(low, high)
    error, reference = 1., 1.
    if c.fork('scaled'):
        error, reference = c.real('error', positive=True), c.real('reference', positive=True)
        kw.update(error=error, reference_residual_sum=reference)
    e, log, ms = bench(c, 'QQDLead', types.SimpleNamespace(fitParams=fit, sumResiduals=residuals), 1, **kw)
    r = evaluated(c, e, log, ms, 1)
    if r is None:
        return
    c.ensure('the fitted value, NaN if out of bounds', c.eq(r[0][0], c.ite(inside(fit[1][3]), fit[1][3], NAN)))
    c.ensure('its error scales with the residuals', c.near(r[1][0] * reference, error * residuals))


@contract('C33', ['QQDSensor1D.evaluate', 'QQDSensor2D.evaluate', 'QQDSensor1D.process_raw_data', 'QQDSensor2D.process_raw_data'], note='arbitrary positions and slopes; one and two dimensions')
def sensor(c):
    two = c.fork('two_dimensions')
    x, y, s = c.real('x', nan=True), c.real('y', nan=True), c.real('slope')
    ana = types.SimpleNamespace(xVal=x, yVal=y, minGradData=s) if two else types.SimpleNamespace(xVal=x, minGradData=s)
    n = 3 if two else 2
    e, log, ms = bench(c, 'QQDSensor2D' if two else 'QQDSensor1D', ana, n)
    r = evaluated(c, e, log, ms, n)
    if r is None:
        return
    c.ensure('the position', c.And(c.eq(r[0][0], x), c.eq(r[0][1], y) if two else True))
    c.ensure('the size of the slope', c.eq(r[0][-1], c.ite(s < 0., -s, s)))
    c.ensure('no variances', c.And(*[c.isnan(v) for v in r[1]]))


@contract('C33', ['QQDCharge.evaluate', 'QQDCharge.process_raw_data', 'QQDCharge.to_hdf5'], note='arbitrary positions in a row or column; default or given error')
def charge(c):
    o = [c.real('position', nan=True) for _ in range(2)]
    error, kw = 1., {}
    if c.fork('error_given'):
        error = c.real('error', positive=True)
        kw = dict(error=error)
    e, log, ms = bench(c, 'QQDCharge', types.SimpleNamespace(O=[o] if c.fork('row') else [[o[0]], [o[1]]]), 2, **kw)
    r = evaluated(c, e, log, ms, 2)
    if r is None:
        return
    c.ensure('the positions in order', c.And(c.eq(r[0][0], o[0]), c.eq(r[0][1], o[1])))
    c.ensure('the given error', c.And(c.eq(r[1][0], error), c.eq(r[1][1], error)))


@contract('C33', ['QQDDistTP.evaluate', 'QQDDistTP.process_raw_data', 'QQDDistTP.to_hdf5'], note='arbitrary triple points; default or given error')
def distance(c):
    a, b = [c.real('left') for _ in range(2)], [c.real('right') for _ in range(2)]
    error, kw = 1., {}
    if c.fork('error_given'):
        error = c.real('error', positive=True)
        kw = dict(error=error)
    e, log, ms = bench(c, 'QQDDistTP', types.SimpleNamespace(triplePointLeft=a, triplePointRight=b), 1, **kw)
    r = evaluated(c, e, log, ms, 1)
    if r is None:
        return
    d = r[0][0]
    dx, dy = b[0] - a[0], b[1] - a[1]
    c.ensure('the distance of the triple points', c.And(d >= 0., c.near(d * d, dx * dx + dy * dy)))
    c.ensure('the given error', c.eq(r[1][0], error))


@contract('C33', ['QQDResp.__init__', 'QQDResp.evaluate', 'QQDResp.process_raw_data', 'QQDResp.to_hdf5'],
          note='arbitrary positions and visibilities; each limit absent, one number or one number per parameter')
def response(c):
    pos, vis = [c.real('position', nan=True) for _ in range(2)], [c.real('visibility') for _ in range(2)]
    names = c.index_of(PARAMS[:2])

    def limit(name):
        how = c.choice(name, 3)
        if how == 0:
            return None, None
        if how == 1:
            v = c.real(name)
            return v, [v, v]
        v = [c.real(name), c.real(name)]
        return c.list_series(names, v), v
    low, lows = limit('min_position')
    high, highs = limit('max_position')
    kw = settings(low, high, 'min_position', 'max_position')
    error, errors = limit('error')
    if error is not None:
        kw['error'] = error
    errors = errors or [1., 1.]
    height = c.real('min_transition_height') if c.fork('height') else None
    if height is not None:
        kw['min_transition_height'] = height
    ana = [types.SimpleNamespace(position=p, visiblity=v) for p, v in zip(pos, vis)]
    e, log, ms = bench(c, 'QQDResp', ana, 2, **kw)
    r = evaluated(c, e, log, ms, 2)
    if r is None:
        return
    for i in range(2):
        bad = c.Or(*([vis[i] < height] if height is not None else []), *([pos[i] < lows[i]] if lows else []), *([pos[i] > highs[i]] if highs else []))
        c.ensure('position %d, NaN if outside or too low' % i, c.eq(r[0][i], c.ite(bad, NAN, pos[i])))
        c.ensure('the given error %d' % i, c.eq(r[1][i], errors[i]))
