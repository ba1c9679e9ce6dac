from dv.base import contract
from .common import *

FUN = ['AveragingEvaluator.evaluate', 'AveragingEvaluator.__init__']


def inner(c, params, log, extra):
    """contract of an evaluator: each evaluation gives arbitrary values (in any order, possibly more) and new raw data"""
    def evaluate(self):
        k = len(log)
        order = c.super_names('result_names', params) if extra else c.permuted('result_order', params)
        v = c.series('result', order, nan=True)
        w = c.series('error', order)
        for p in params:
            if c.isnan(c.at(v, p)):
                pass
        self._raw_x_data, self._raw_y_data = ('x', k), ('y', k)
        log.append((c.snap(v), w))
        return v, w
    return c.make(c.q.evaluator.Evaluator, evaluate=evaluate, to_hdf5=lambda self: {},
                  _attrs=dict(_parameters=tuple(params), _experiment=None, _measurements=(), _name='inner', _raw_x_data='old', _raw_y_data='old'))


def mean_and_error(c, xs):
    """mean of the numbers among xs and population variance divided by their number"""
    there = [x for x in xs if not c.isnan(x)]
    n = len(there)
    if n == 0:
        return None, None
    m = sum(there[1:], there[0]) / n
    d = [(x - m) * (x - m) for x in there]
    return m, sum(d[1:], d[0]) / n / n


def check(c, av, params, log, before, reps, first):
    r = c.run(av.evaluate)
    c.ensure('exactly the requested number of evaluations', len(log) - before == reps)
    new = log[before:]
    mean, err = r
    c.ensure('exactly the parameters', c.And(c.index_same(mean.index, params), c.index_same(err.index, params)))
    for p in params:
        m, e = mean_and_error(c, [c.at(v, p) for v, _ in new])
        if m is None:
            c.ensure('only missing results give a missing mean', c.And(c.isnan(c.at(mean, p)), c.isnan(c.at(err, p))))
        else:
            c.ensure('the mean of the results', c.eq(c.at(mean, p), m))
            c.ensure('the variance of the mean', c.eq(c.at(err, p), e))
    x, y = av.raw_data
    c.ensure('the raw data of every repetition in order', c.And(list(x) == [('x', before + i) for i in range(reps)], list(y) == [('y', before + i) for i in range(reps)]))
    return mean, err


@contract('C21', FUN, kind='bounded', note='1..4 repetitions and 1..2 parameters are enumerated; any results', budget=150)
def averaged(c):
    params = c.names('params', size=1 + c.choice('parameters', 2))
    reps = 1 + c.choice('repetitions', 4)
    if reps > 2:
        c.assume(len(list(params)) == 1)
    log = []
    av = c.run(c.q.evaluator.AveragingEvaluator, inner(c, params, log, c.fork('extra')), reps)
    check(c, av, params, log, 0, reps, True)


@contract('C21', FUN, kind='bounded', note='two successive evaluations of 1..2 repetitions')
def fresh_for_each_evaluation(c):
    params = c.names('params', size=1)
    reps = 1 + c.choice('repetitions', 2)
    log = []
    av = c.run(c.q.evaluator.AveragingEvaluator, inner(c, params, log, False), reps)
    mean, err = check(c, av, params, log, 0, reps, True)
    m0, e0 = c.snap(mean), c.snap(err)
    check(c, av, params, log, reps, reps, False)
    c.ensure('earlier results are kept', c.And(c.series_same(mean, m0), c.series_same(err, e0)))


@contract('C21', FUN, kind='concrete', note='up to 12 repetitions and 4 parameters')
def many_repetitions(c):
    params = c.names('params', nonempty=True)
    reps = 1 + c.choice('repetitions', 12)
    log = []
    av = c.run(c.q.evaluator.AveragingEvaluator, inner(c, params, log, c.fork('extra')), reps)
    for k in range(2):
        check(c, av, params, log, k * reps, reps, k == 0)
