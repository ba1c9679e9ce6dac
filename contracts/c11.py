from dv.base import contract
from .common import *

FUN = ['ForwardingSolver.update_after_step', 'ForwardingSolver.suggest_next_position', 'ForwardingSolver.__init__', 'Solver.descale_values']


def forwarding(c):
    """solver with an injective mapping into its gates"""
    gates = c.names('gates', nonempty=True)
    tp = c.names('target_params')
    target = target_frame(c, 'target', tp)
    mp = c.names('mapped_params')
    mapping = c.name_series('mapping', mp, nan=True, injective=True)
    c.assume(c.all(mp, lambda p: c.Or(c.isnan(c.at(mapping, p)), c.has(gates, c.at(mapping, p)))))
    pos = c.series('position', gates)
    nxt = None
    if c.fork('next_position_given'):
        nxt = c.series('next_position', c.permuted('next_order', gates))
    s = c.run(c.q.solver.ForwardingSolver, target, mapping, c.snap(pos), None if nxt is None else c.snap(nxt))
    return s, gates, target, mp, mapping, pos, nxt if nxt is not None else pos


def factor(c, T, p):
    return c.ite(c.has(T['rescaling_factor'], p), c.at(T['rescaling_factor'], p), 1.)


@contract('C11', FUN)
def forwards_mapped_values(c):
    s, gates, T, mp, mapping, pos, nxt = forwarding(c)
    mg = c.names('measured_gates')
    meas = c.series('measured_position', mg)
    vp = c.names('value_params')
    v = c.series('values', vp, nan=True)
    w = c.series('variances', vp, nan=True)
    v0, m0, T0 = c.snap(v), c.snap(meas), c.snap(T)
    c.run(s.update_after_step, meas, v, w)
    r = c.run(s.suggest_next_position, tuned_parameters=set())
    c.ensure('covers exactly its gates', c.And(c.is_series(r), c.index_same(r.index, gates)))
    if not c.is_series(r):
        return

    def hit(g):
        """some measured parameter is mapped to gate g"""
        known, p = c.origin(mapping, g)
        return c.And(known, c.has(vp, p))
    c.ensure('mapped gates get the descaled value',
             c.all(mp, lambda p: c.Implies(c.And(c.has(vp, p), c.Not(c.isnan(c.at(mapping, p)))),
                                           c.eq(c.at(r, c.at(mapping, p)), c.at(v0, p) * factor(c, T0, p)))))
    c.ensure('other gates follow the measured position or keep the suggestion',
             c.all(gates, lambda g: c.Implies(c.Not(hit(g)),
                                              c.eq(c.at(r, g), c.ite(c.has(mg, g), c.at(m0, g), c.at(nxt, g))))))
    cp = s.current_position
    c.ensure('the position follows the measurement', c.And(c.index_same(cp.index, gates), c.all(gates, lambda g: c.eq(
        c.at(cp, g), c.ite(c.has(mg, g), c.at(m0, g), c.at(pos, g))))))
    c.ensure('the target is unchanged', c.frame_same(T0, T, CATS))
    c.ensure('the measured position is not changed', c.series_same(meas, m0))


@contract('C11', FUN)
def suggestion_without_update(c):
    s, gates, T, mp, mapping, pos, nxt = forwarding(c)
    r = c.run(s.suggest_next_position, tuned_parameters=None)
    c.ensure('the stored suggestion', c.series_same(r, nxt))
    r2 = c.run(s.suggest_next_position, tuned_parameters=None)
    c.ensure('asking twice changes nothing', c.series_same(r2, nxt))


@contract('C11', FUN)
def two_updates(c):
    """gates mapped from parameters which are not measured any more follow the measured position"""
    s, gates, T, mp, mapping, pos, nxt = forwarding(c)
    vp1, vp2 = c.names('value_params1'), c.names('value_params2')
    m1 = c.series('measured1', gates)
    m2 = c.series('measured2', gates)
    v1, v2 = c.series('values1', vp1), c.series('values2', vp2)
    w1, w2 = c.series('variances1', vp1), c.series('variances2', vp2)
    c.run(s.update_after_step, c.snap(m1), c.snap(v1), w1)
    c.run(s.update_after_step, c.snap(m2), c.snap(v2), w2)
    r = c.run(s.suggest_next_position, tuned_parameters=set())
    c.ensure('mapped gates get the last descaled value',
             c.all(mp, lambda p: c.Implies(c.And(c.has(vp2, p), c.Not(c.isnan(c.at(mapping, p)))),
                                           c.eq(c.at(r, c.at(mapping, p)), c.at(v2, p) * factor(c, T, p)))))
    def hit(g):
        known, p = c.origin(mapping, g)
        return c.And(known, c.has(vp2, p))
    c.ensure('other gates follow the last measured position',
             c.all(gates, lambda g: c.Implies(c.Not(hit(g)),
                                              c.eq(c.at(r, g), c.at(m2, g)))))
