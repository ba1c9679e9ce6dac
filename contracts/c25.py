from dv.base import contract
from .common import CATS

FUN = ['make_target']
ORDER = ('desired', 'maximum', 'minimum', 'tolerance')


@contract('C25', FUN)
def aligned_by_name(c):
    names = c.names('params', nonempty=True)
    kw, given = {}, {}
    first = None
    for k in ORDER + ('cost_threshold', 'rescaling_factor'):
        kind = c.choice(k + '_kind', 3)
        if kind == 0:
            ix = c.permuted(k + '_order', names) if (first is not None or k not in ORDER) else names
            more = c.super_names(k + '_names', ix) if first is not None else ix
            s = c.series(k, more, nan=True)
            kw[k] = s
            given[k] = ('series', c.snap(s))
            if first is None and k in ORDER:
                first = k
        elif kind == 1:
            x = c.real(k, nan=True)
            kw[k] = x
            given[k] = ('number', x)
    r = c.call(c.q.solver.make_target, **kw)
    if first is None:
        c.ensure('raises without any per-parameter specification', r.raised)
        return
    c.ensure('builds a table', r.ok and c.is_frame(r.value))
    if not r.ok:
        return
    T = r.value
    c.ensure('the parameters of the first specification in order', c.index_order_same(T.index, names))
    for k in CATS:
        if k in given and given[k][0] == 'series':
            want = lambda p, k=k: c.at(given[k][1], p)
        elif k in given:
            d = given[k][1]
            want = lambda p, d=d, k=k: c.ite(c.isnan(d), 1., d) if k == 'rescaling_factor' else d
        else:
            want = lambda p, k=k: 1. if k == 'rescaling_factor' else float('nan')
        c.ensure('entries of ' + k, c.all(names, lambda p: c.eq(c.at(T[k], p), want(p))))
