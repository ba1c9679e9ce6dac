"""Products and quotients of unknown reals.

A product of two non-constant terms becomes an application of the uninterpreted function `mul` in a canonical
polynomial normal form (so ring identities are linear), together with ground sign facts; a quotient uses `inv`.
Queries are first decided in this abstraction (an `unsat` is a proof).  If the abstraction is satisfiable, the
definitions mul(x, y) = x * y are added and the query is decided again in real arithmetic.
"""
import functools
from fractions import Fraction
import z3
from . import core

R = z3.RealSort()
MUL = z3.Function('mul', R, R, R)
INV = z3.Function('inv', R, R)
ZERO, ONE = z3.RealVal(0), z3.RealVal(1)


def _frac(t):
    return Fraction(t.numerator_as_long(), t.denominator_as_long())


@functools.lru_cache(4096)
def _num(c):
    return z3.RealVal('%d/%d' % (c.numerator, c.denominator))


def _tab():
    return core.ENGINE.memo.setdefault('nl', dict(poly={}, mul={}, inv={}, keep=[], defs=[]))


def _key(t):
    return t.get_id()


def _rank(t):
    """order of the factors: by function first, so that products stay congruent when an argument is replaced by an equal one"""
    return (t.decl().name() if z3.is_app(t) else '', t.get_id())


def poly(t):
    """{tuple of atom ids: (coefficient, atoms)}"""
    tab = _tab()['poly']
    k = t.get_id()
    if k in tab:
        return tab[k][0]
    r = _poly(t)
    tab[k] = (r, t)
    return r


def _add(a, b, c=Fraction(1)):
    r = dict(a)
    for m, (q, ats) in b.items():
        x = r[m][0] + q * c if m in r else q * c
        if x == 0:
            r.pop(m, None)
        else:
            r[m] = (x, ats)
    return r


def _poly(t):
    if z3.is_rational_value(t):
        c = _frac(t)
        return {(): (c, ())} if c else {}
    if z3.is_app(t):
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for x in ch:
                r = _add(r, poly(x))
            return r
        if k == z3.Z3_OP_SUB:
            r = dict(poly(ch[0]))
            for x in ch[1:]:
                r = _add(r, poly(x), Fraction(-1))
            return r
        if k == z3.Z3_OP_UMINUS:
            return _add({}, poly(ch[0]), Fraction(-1))
        if k == z3.Z3_OP_MUL:
            r = poly(ch[0])
            for x in ch[1:]:
                r = _pmul(r, poly(x))
            return r
        if k == z3.Z3_OP_DIV and z3.is_rational_value(ch[1]) and _frac(ch[1]) != 0:
            return _add({}, poly(ch[0]), 1 / _frac(ch[1]))
        if t.decl().eq(MUL):
            return _pmul(poly(ch[0]), poly(ch[1]))
        if k == z3.Z3_OP_TO_REAL and z3.is_int_value(ch[0]):
            c = Fraction(ch[0].as_long())
            return {(): (c, ())} if c else {}
    return {(_key(t),): (Fraction(1), (t,))}


def _inv_of(at):
    """t if the atom is inv(t)"""
    return at.arg(0) if z3.is_app(at) and at.num_args() == 1 and at.decl().eq(INV) else None


def _pmul(a, b):
    r = {}
    for m1, (c1, x1) in a.items():
        for m2, (c2, x2) in b.items():
            ats = sorted(list(x1) + list(x2), key=_rank)
            # t * inv(t) = (t != 0)
            drop = True
            while drop:
                drop = False
                for i, u in enumerate(ats):
                    v = _inv_of(u)
                    if v is None:
                        continue
                    for j, w in enumerate(ats):
                        if j != i and w.eq(v):
                            rest = [x for n, x in enumerate(ats) if n not in (i, j)]
                            ats = sorted(rest + [nonzero(v)], key=_rank)
                            drop = True
                            break
                    if drop:
                        break
            # nonzero flags are idempotent and absorbed by the factor or its inverse
            out = []
            for i, u in enumerate(ats):
                nz = _nz_of(u)
                if nz is not None:
                    if any(x.eq(u) for x in out) or any(x.eq(nz) or (_inv_of(x) is not None and _inv_of(x).eq(nz)) for x in ats):
                        continue
                out.append(u)
            m = tuple(_key(u) for u in out)
            r = _add(r, {m: (c1 * c2, tuple(out))})
    return r


NZ = z3.Function('nz', R, R)


def nonzero(t):
    """1 if t != 0 else 0"""
    u = NZ(t)
    tab = _tab()
    k = ('nz', t.get_id())
    if k not in tab['inv']:
        tab['inv'][k] = t
        core.ENGINE.fact(z3.And(z3.Implies(t == 0, u == 0), z3.Implies(t != 0, u == 1)))
    return u


def _nz_of(at):
    return at.arg(0) if z3.is_app(at) and at.num_args() == 1 and at.decl().eq(NZ) else None


def mono(ats):
    if not ats:
        return ONE
    t = ats[-1]
    for x in ats[-2::-1]:
        t = _mul2(x, t)
    return t


def _mul2(x, y):
    tab = _tab()
    k = (x.get_id(), y.get_id())
    if k in tab['mul']:
        return tab['mul'][k][0]
    m = MUL(x, y)
    tab['mul'][k] = (m, x, y)
    e = core.ENGINE
    e.fact((m == 0) == z3.Or(x == 0, y == 0))
    if x.eq(y):
        e.fact(m >= 0)
    else:
        e.fact((m > 0) == z3.Or(z3.And(x > 0, y > 0), z3.And(x < 0, y < 0)))
        e.fact(m == MUL(y, x))
    e.fact(z3.And(z3.Implies(x == 1, m == y), z3.Implies(y == 1, m == x)))
    for u, v in ((x, y), (y, x)):
        d = _inv_of(u)
        if d is not None:
            e.fact(z3.Implies(d > 0, z3.And((m > 1) == (v > d), (m == 1) == (v == d))))
    tab['defs'].append(m == x * y)
    return m


def build(p):
    terms = []
    for m in sorted(p):
        c, ats = p[m]
        t = mono(ats)
        if not ats:
            terms.append(_num(c))
        elif c == 1:
            terms.append(t)
        else:
            terms.append(_num(c) * t)
    if not terms:
        return ZERO
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def rmul(a, b):
    tab = _tab().setdefault('rmul', {})
    k = (a.get_id(), b.get_id())
    r = tab.get(k)
    if r is None:
        r = tab[k] = (_rmul(a, b), a, b)
    return r[0]


def _rmul(a, b):
    if z3.is_rational_value(a):
        if z3.is_rational_value(b):
            return z3.simplify(a * b)
        a, b = b, a
    if z3.is_rational_value(b):
        c = _frac(b)
        if c == 0:
            return ZERO
        if c == 1:
            return a
        return b * a
    return _split(lambda x, y: build(_pmul(poly(x), poly(y))), a, b)


def _ites(t, out):
    for c, ats in poly(t).values():
        for u in ats:
            if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE and not any(u.eq(v) for v in out):
                out.append(u)
    return out


def _under(t, ites, val):
    for u in ites:
        t = z3.substitute(t, (u, u.arg(1) if val else u.arg(2)))
    return t


def _split(op, *args, depth=0):
    """lift case distinctions out of a product"""
    ites = []
    for a in args:
        _ites(a, ites)
    if not ites or depth > 3:
        return op(*args)
    c = ites[0].arg(0)
    same = [u for u in ites if u.arg(0).eq(c)]
    t = _split(op, *[_under(a, same, True) for a in args], depth=depth + 1)
    f = _split(op, *[_under(a, same, False) for a in args], depth=depth + 1)
    return t if t.eq(f) else z3.If(c, t, f)


def rinv(b):
    """1/b with 1/0 = 0"""
    tab = _tab().setdefault('rinv', {})
    r = tab.get(b.get_id())
    if r is None:
        r = tab[b.get_id()] = (_split(_rinv, b), b)
    return r[0]


def _rinv(b):
    if z3.is_rational_value(b):
        c = _frac(b)
        return _num(1 / c) if c else ZERO
    p = poly(b)
    if not p:
        return ZERO
    if len(p) == 1:
        (c, ats), = p.values()
        r = {(): (1 / c, ())}
        for t in ats:
            r = _pmul(r, poly(_inv1(t)))
        return build(r)
    lead = p[sorted(p)[0]][0]
    t = build({m: (c / lead, a) for m, (c, a) in p.items()})
    u = _inv1(t)
    return u if lead == 1 else _num(1 / lead) * u


def _inv1(t):
    v = _inv_of(t)
    if v is not None:
        return v
    if _nz_of(t) is not None:
        return t
    u = INV(t)
    tab = _tab()
    k = t.get_id()
    if k not in tab['inv']:
        tab['inv'][k] = t
        e = core.ENGINE
        e.fact(z3.And(z3.Implies(t == 0, u == 0), (t > 0) == (u > 0), (t < 0) == (u < 0), z3.Implies(t == 1, u == 1),
                      z3.Implies(t > 1, u < 1), z3.Implies(z3.And(t > 0, t < 1), u > 1)))
        tab['defs'].append(z3.Implies(t != 0, u * t == 1))
    return u


def rdiv(a, b):
    return rmul(a, rinv(b))


def definitions():
    return list(_tab()['defs'])
