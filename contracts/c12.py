from dv.base import contract
from .common import *

FUN = ['Solver.rescale_values', 'Solver.descale_values']


def setup(c):
    tp = c.names('target_params')
    target = target_frame(c, 'target', tp)
    vp = c.names('value_params')
    v = c.series('values', vp, nan=True)
    w = c.series('variances', c.permuted('variance_order', vp), nan=True)
    s = c.make(c.q.solver.Solver, target=property(lambda self: target))
    return s, target, vp, v, w


def factor(c, T, p):
    return c.ite(c.has(T['rescaling_factor'], p), c.at(T['rescaling_factor'], p), 1.)


@contract('C12', FUN[:1])
def rescaling_divides(c):
    s, T, vp, v, w = setup(c)
    v0, w0, T0 = c.snap(v), c.snap(w), c.snap(T)
    c.run(s.rescale_values, v, w)
    c.ensure('names unchanged', c.And(c.index_same(v.index, vp), c.index_same(w.index, vp)))
    c.ensure('values are divided by the factor', c.all(vp, lambda p: c.eq(c.at(v, p), c.at(v0, p) / factor(c, T0, p))))
    c.ensure('variances are divided by the squared factor',
             c.all(vp, lambda p: c.eq(c.at(w, p), c.at(w0, p) / (factor(c, T0, p) * factor(c, T0, p)))))
    c.ensure('the target is unchanged', c.frame_same(T0, T, CATS))


@contract('C12', FUN[1:])
def descaling_multiplies(c):
    s, T, vp, v, w = setup(c)
    v0, w0, T0 = c.snap(v), c.snap(w), c.snap(T)
    c.run(s.descale_values, v, w)
    c.ensure('names unchanged', c.And(c.index_same(v.index, vp), c.index_same(w.index, vp)))
    c.ensure('values are multiplied by the factor', c.all(vp, lambda p: c.eq(c.at(v, p), c.at(v0, p) * factor(c, T0, p))))
    c.ensure('variances are multiplied by the squared factor',
             c.all(vp, lambda p: c.eq(c.at(w, p), c.at(w0, p) * (factor(c, T0, p) * factor(c, T0, p)))))
    c.ensure('the target is unchanged', c.frame_same(T0, T, CATS))


@contract('C12', FUN)
def round_trip(c):
    s, T, vp, v, w = setup(c)
    v0, w0 = c.snap(v), c.snap(w)
    if c.fork('rescale_first'):
        c.run(s.rescale_values, v, w)
        c.run(s.descale_values, v, w)
    else:
        c.run(s.descale_values, v, w)
        c.run(s.rescale_values, v, w)
    c.ensure('values are restored', c.all(vp, lambda p: c.eq(c.at(v, p), c.at(v0, p))))
    c.ensure('variances are restored', c.all(vp, lambda p: c.eq(c.at(w, p), c.at(w0, p))))
