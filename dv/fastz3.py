"""Less argument checking in the z3 Python binding (the terms built are the same)."""
import ctypes
import z3
from z3 import z3 as m
from z3.z3core import Z3_mk_and, Z3_mk_or, Z3_mk_app, Z3_get_sort, Z3_get_sort_kind, Z3_mk_not, Z3_mk_eq
from z3.z3types import Ast

m.Z3_DEBUG = False
CTX = z3.main_ctx()
REF = CTX.ref()
BoolRef, ArithRef, ExprRef = z3.BoolRef, z3.ArithRef, z3.ExprRef
_slow_call = z3.FuncDeclRef.__call__
_slow_coerce = m._coerce_exprs
_ARR = [Ast * n for n in range(12)]


def _array(xs):
    n = len(xs)
    a = (_ARR[n] if n < 12 else Ast * n)()
    for i, x in enumerate(xs):
        a[i] = x.ast
    return a


def and_(xs):
    return BoolRef(Z3_mk_and(REF, len(xs), _array(xs)), CTX)


def or_(xs):
    return BoolRef(Z3_mk_or(REF, len(xs), _array(xs)), CTX)


def not_(x):
    return BoolRef(Z3_mk_not(REF, x.ast), CTX)


_range = {}


def _call(self, *args):
    for a in args:
        if not isinstance(a, ExprRef):
            return _slow_call(self, *args)
    k = self.get_id()
    w = _range.get(k)
    if w is None or w[0] is not self and not w[0].eq(self):
        s = self.range().kind()
        sorts = [self.domain(i) for i in range(self.arity())]
        w = _range[k] = (self, BoolRef if s == z3.Z3_BOOL_SORT else ArithRef if s in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT) else None, sorts)
    if w[1] is None and self.range().kind() != z3.Z3_UNINTERPRETED_SORT:
        return _slow_call(self, *args)
    if len(args) != len(w[2]):
        return _slow_call(self, *args)
    for a, s in zip(args, w[2]):
        if ctypes.addressof(Z3_get_sort(REF, a.ast)) if False else Z3_get_sort(REF, a.ast).value != s.ast.value:
            return _slow_call(self, *args)
    return (w[1] or ExprRef)(Z3_mk_app(REF, self.ast, len(args), _array(args)), CTX)


def _coerce(a, b, ctx=None):
    if isinstance(a, ExprRef) and isinstance(b, ExprRef) and Z3_get_sort(REF, a.ast).value == Z3_get_sort(REF, b.ast).value:
        return a, b
    return _slow_coerce(a, b, ctx)


z3.FuncDeclRef.__call__ = _call
m._coerce_exprs = _coerce

# queries that cannot fail need no error check
from z3 import z3core as _zc
for _n in ('Z3_inc_ref', 'Z3_dec_ref', 'Z3_get_sort', 'Z3_get_ast_kind', 'Z3_is_eq_ast', 'Z3_get_sort_kind', 'Z3_get_ast_id',
           'Z3_get_app_num_args', 'Z3_get_app_arg', 'Z3_get_app_decl', 'Z3_get_decl_kind', 'Z3_is_eq_sort', 'Z3_is_numeral_ast', 'Z3_is_app'):
    if hasattr(m, _n):
        setattr(m, _n, getattr(_zc, _n).__defaults__[0].f)
Z3_get_sort = m.Z3_get_sort
