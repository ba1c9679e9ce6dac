"""Symbolic scalars: floats (mathematical reals extended by nan, +inf, -inf), booleans, integers, labels."""
import functools
import math
import numbers
import z3
from . import fastz3
from . import core
from .core import Unsupported, Label
from .nl import rmul, rdiv


def E():
    return core.ENGINE


# ------------------------------------------------------------------ boolean helpers with constant folding
def And_(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else fastz3.and_(out)


def Or_(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else fastz3.or_(out)


def Not_(x):
    if x is True:
        return False
    if x is False:
        return True
    if z3.is_not(x):
        return x.arg(0)
    return fastz3.not_(x)


def Implies_(a, b):
    return Or_(Not_(a), b)


def Iff_(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False:
        return Not_(b)
    if b is False:
        return Not_(a)
    if a.eq(b):
        return True
    return a == b


def IfB_(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else Not_(c)
    if a is True:
        return Or_(c, b)
    if a is False:
        return And_(Not_(c), b)
    if b is True:
        return Or_(Not_(c), a)
    if b is False:
        return And_(c, a)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def If_(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def zb(x):
    """z3 boolean / python bool of a truth value without forking"""
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, bool):
        return x
    if isinstance(x, z3.BoolRef):
        return x
    raise Unsupported('truth value of %s' % type(x).__name__)


class Sym:
    """marker"""
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __getattr__(self, n):
        if n.startswith('_') or n.startswith('dv_'):
            raise AttributeError(n)
        raise Unsupported('%s.%s' % (type(self).__name__, n))


class SBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return E().decide(self.e)

    def __and__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(And_(self.e, zb(o)))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(Or_(self.e, zb(o)))
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        return SBool(Not_(Iff_(self.e, zb(o))))
    __rxor__ = __xor__

    def __invert__(self):
        return SBool(Not_(self.e))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(Iff_(self.e, zb(o)))
        if isinstance(o, (SVal, SInt, int, float)):
            return toV(self) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(Not_(zb(r)))

    def __hash__(self):
        raise Unsupported('hash of symbolic bool')

    def _n(self):
        return toV(self)

    def __add__(self, o):
        return self._n() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._n() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._n() - o

    def __repr__(self):
        return '<sbool>'

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def item(self):
        return self


def mkb(e):
    return SBool(e)


@functools.lru_cache(4096)
def _rv(x):
    """z3 real constant of the number a python number stands for"""
    if isinstance(x, int):
        return z3.RealVal(x)
    from fractions import Fraction
    f = Fraction(x)
    if f.denominator > 1:                    # the decimal or ratio the float stands for (machine arithmetic read as mathematical)
        g = f.limit_denominator(10**6) if abs(f) > 1e-9 else Fraction(repr(x))
        if float(g) != x:
            g = Fraction(repr(x))
        f = g if float(g) == x else f
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator))


ZERO = z3.RealVal(0)
ONE = z3.RealVal(1)


class SVal(Sym):
    """extended real"""
    __slots__ = ('nan', 'pinf', 'ninf', 'r')

    def __init__(self, r, nan=False, pinf=False, ninf=False):
        self.r = r
        self.nan = nan
        self.pinf = pinf
        self.ninf = ninf

    # --- classification
    @property
    def fin(self):
        return And_(Not_(self.nan), Not_(self.pinf), Not_(self.ninf))

    def is_plain(self):
        return self.nan is False and self.pinf is False and self.ninf is False

    # --- arithmetic
    def __neg__(self):
        return SVal(-self.r, self.nan, self.ninf, self.pinf)

    def __pos__(self):
        return self

    def __abs__(self):
        return SVal(z3.If(self.r < 0, -self.r, self.r), self.nan, Or_(self.pinf, self.ninf), False)

    def __add__(self, o):
        o = conv(o)
        if o is None:
            return NotImplemented
        nan = Or_(self.nan, o.nan, And_(self.pinf, o.ninf), And_(self.ninf, o.pinf))
        return SVal(self.r + o.r, nan, And_(Or_(self.pinf, o.pinf), Not_(nan)) if not (self.pinf is False and o.pinf is False) else False,
                    And_(Or_(self.ninf, o.ninf), Not_(nan)) if not (self.ninf is False and o.ninf is False) else False)

    def __radd__(self, o):
        o = conv(o)
        return NotImplemented if o is None else o + self

    def __sub__(self, o):
        o = conv(o)
        return NotImplemented if o is None else self + (-o)

    def __rsub__(self, o):
        o = conv(o)
        return NotImplemented if o is None else o + (-self)

    def __mul__(self, o):
        o = conv(o)
        if o is None:
            return NotImplemented
        if self.is_plain() and o.is_plain():
            return SVal(rmul(self.r, o.r))
        si, oi = Or_(self.pinf, self.ninf), Or_(o.pinf, o.ninf)
        z_s, z_o = And_(self.fin, self.r == 0), And_(o.fin, o.r == 0)
        nan = Or_(self.nan, o.nan, And_(si, z_o), And_(oi, z_s))
        inf = And_(Or_(si, oi), Not_(nan))
        if inf is False:
            return SVal(rmul(self.r, o.r), nan)
        neg_s = Or_(self.ninf, And_(self.fin, self.r < 0))
        neg_o = Or_(o.ninf, And_(o.fin, o.r < 0))
        neg = Not_(Iff_(neg_s, neg_o))
        return SVal(rmul(self.r, o.r), nan, And_(inf, Not_(neg)), And_(inf, neg))

    def __rmul__(self, o):
        o = conv(o)
        return NotImplemented if o is None else o * self

    def __truediv__(self, o):
        o = conv(o)
        if o is None:
            return NotImplemented
        return _div(self, o)

    def __rtruediv__(self, o):
        o = conv(o)
        return NotImplemented if o is None else _div(o, self)

    def __pow__(self, k):
        if isinstance(k, float) and k == int(k):
            k = int(k)
        if isinstance(k, int) and not isinstance(k, bool):
            if k == 2:
                return self * self
            if k == 1:
                return self
            if k == 0:
                return SVal(ONE)
            if k == -1:
                return SVal(ONE) / self
            if k == -2:
                return SVal(ONE) / (self * self)
        if isinstance(k, float) and k == .5:
            from .coll import sqrt_
            return sqrt_(self)
        raise Unsupported('power %r' % (k,))

    def __floordiv__(self, o):
        raise Unsupported('float floor division')

    def __mod__(self, o):
        raise Unsupported('float modulo')

    def __rpow__(self, o):
        raise Unsupported('power')

    # --- comparisons (IEEE: nan compares false)
    def _lt(self, o):
        return And_(Not_(self.nan), Not_(o.nan),
                    Or_(And_(self.ninf, Not_(o.ninf)), And_(o.pinf, Not_(self.pinf)),
                        And_(self.fin, o.fin, self.r < o.r)))

    def _le(self, o):
        return Or_(self._lt(o), self._eq(o))

    def _eq(self, o):
        return And_(Not_(self.nan), Not_(o.nan),
                    Or_(And_(self.ninf, o.ninf), And_(self.pinf, o.pinf),
                        And_(self.fin, o.fin, self.r == o.r)))

    def __lt__(self, o):
        o = conv(o)
        return NotImplemented if o is None else SBool(self._lt(o))

    def __le__(self, o):
        o = conv(o)
        return NotImplemented if o is None else SBool(self._le(o))

    def __gt__(self, o):
        o = conv(o)
        return NotImplemented if o is None else SBool(o._lt(self))

    def __ge__(self, o):
        o = conv(o)
        return NotImplemented if o is None else SBool(o._le(self))

    def __eq__(self, o):
        if o is None or isinstance(o, (str, SLabel)):
            return SBool(False)
        o = conv(o)
        return NotImplemented if o is None else SBool(self._eq(o))

    def __ne__(self, o):
        if o is None or isinstance(o, (str, SLabel)):
            return SBool(True)
        o = conv(o)
        return NotImplemented if o is None else SBool(Not_(self._eq(o)))

    def __hash__(self):
        raise Unsupported('hash of a symbolic float')

    def __bool__(self):
        return E().decide(Not_(self._eq(SVal(ZERO))))

    def __int__(self):
        raise Unsupported('int() of symbolic float outside shadowed builtins')

    def __float__(self):
        raise Unsupported('float() of symbolic float outside shadowed builtins')

    def __round__(self, n=None):
        return s_round(self, n)

    def is_integer(self):
        return SBool(And_(self.fin, z3.IsInt(self.r)))

    def __repr__(self):
        return '<sval>'

    __str__ = __repr__

    def __format__(self, spec):
        return '<sval>'

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def astype(self, *_):
        return self


def _div(a, b):
    if a.is_plain() and b.is_plain() and z3.is_rational_value(b.r) and not b.r.eq(ZERO):
        return SVal(rdiv(a.r, b.r))
    bz = And_(b.fin, b.r == 0)
    ai, bi = Or_(a.pinf, a.ninf), Or_(b.pinf, b.ninf)
    nan = Or_(a.nan, b.nan, And_(ai, bi), And_(bz, a.fin, a.r == 0))
    inf = And_(Not_(nan), Or_(ai, bz))
    neg_a = Or_(a.ninf, And_(a.fin, a.r < 0))
    neg_b = Or_(b.ninf, And_(b.fin, b.r < 0))
    neg = Not_(Iff_(neg_a, neg_b))
    r = rdiv(a.r, b.r)
    if bi is not False:
        r = z3.If(bi, ZERO, r) if bi is not True else ZERO
    return SVal(r, nan, And_(inf, Not_(neg)), And_(inf, neg))


NAN = SVal(ZERO, True)
PINF = SVal(ZERO, False, True, False)
NINF = SVal(ZERO, False, False, True)


def conv(x):
    """number-like -> SVal, else None"""
    if isinstance(x, SVal):
        return x
    if isinstance(x, bool):
        return SVal(ONE if x else ZERO)
    if isinstance(x, int):
        return SVal(z3.RealVal(x))
    if isinstance(x, float):
        if x != x:
            return NAN
        if x == math.inf:
            return PINF
        if x == -math.inf:
            return NINF
        return SVal(_rv(x))
    if isinstance(x, SInt):
        return SVal(z3.ToReal(x.e))
    if isinstance(x, SBool):
        return SVal(If_(x.e, ONE, ZERO))
    return None


def toV(x):
    if x is None:
        return NAN
    v = conv(x)
    if v is None:
        raise Unsupported('number expected, got %s' % type(x).__name__)
    return v


# ------------------------------------------------------------------ integers
class SInt(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def _o(self, o):
        if isinstance(o, SInt):
            return o.e
        if isinstance(o, bool):
            return z3.IntVal(int(o))
        if isinstance(o, int):
            return z3.IntVal(o)
        if isinstance(o, SBool):
            return If_(o.e, z3.IntVal(1), z3.IntVal(0))
        return None

    def __add__(self, o):
        e = self._o(o)
        return mki(self.e + e) if e is not None else (toV(self) + o if conv(o) is not None else NotImplemented)
    __radd__ = __add__

    def __sub__(self, o):
        e = self._o(o)
        return mki(self.e - e) if e is not None else (toV(self) - o if conv(o) is not None else NotImplemented)

    def __rsub__(self, o):
        e = self._o(o)
        return mki(e - self.e) if e is not None else (toV(o) - self if conv(o) is not None else NotImplemented)

    def __mul__(self, o):
        e = self._o(o)
        return mki(self.e * e) if e is not None else (toV(self) * o if conv(o) is not None else NotImplemented)
    __rmul__ = __mul__

    def __neg__(self):
        return mki(-self.e)

    def __abs__(self):
        return mki(z3.If(self.e < 0, -self.e, self.e))

    def __truediv__(self, o):
        return toV(self) / o if conv(o) is not None else NotImplemented

    def __rtruediv__(self, o):
        return toV(o) / toV(self) if conv(o) is not None else NotImplemented

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mki(self.e / z3.IntVal(o))
        raise Unsupported('symbolic floor division')

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mki(self.e % z3.IntVal(o))
        raise Unsupported('symbolic modulo')

    def __pow__(self, k):
        if k == 2:
            return self * self
        raise Unsupported('power')

    def _c(self, o, f):
        e = self._o(o)
        if e is not None:
            return SBool(f(self.e, e))
        v = conv(o)
        if v is None:
            return NotImplemented
        return None

    def __lt__(self, o):
        r = self._c(o, lambda a, b: a < b)
        return toV(self) < o if r is None else r

    def __le__(self, o):
        r = self._c(o, lambda a, b: a <= b)
        return toV(self) <= o if r is None else r

    def __gt__(self, o):
        r = self._c(o, lambda a, b: a > b)
        return toV(self) > o if r is None else r

    def __ge__(self, o):
        r = self._c(o, lambda a, b: a >= b)
        return toV(self) >= o if r is None else r

    def __eq__(self, o):
        if o is None or isinstance(o, (str, SLabel)):
            return SBool(False)
        r = self._c(o, lambda a, b: a == b)
        return toV(self) == o if r is None else r

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return SBool(Not_(zb(r)))

    def __hash__(self):
        raise Unsupported('hash of a symbolic int')

    def __bool__(self):
        return E().decide(self.e != 0)

    def __index__(self):
        """concretise by forking over a small range"""
        s = z3.simplify(self.e)
        if z3.is_int_value(s):
            return s.as_long()
        for i in range(9):
            if E().decide(self.e == i):
                return i
        raise Unsupported('symbolic int used as a concrete index')

    def __round__(self, n=None):
        return self

    def __repr__(self):
        return '<sint>'

    def __str__(self):
        return text_of(self)

    def __format__(self, spec):
        return text_of(self) if spec in ('', 'd') else '<sint>'

    def item(self):
        return self


def text_of(x):
    """the decimal text of an unknown integer: a mark which stands for it"""
    marks = E().memo.setdefault('marks', [])
    marks.append(x)
    return '\u27e8%d\u27e9' % (len(marks) - 1)


def mki(e):
    if isinstance(e, int):
        return e
    s = z3.simplify(e)
    if z3.is_int_value(s):
        return s.as_long()
    return SInt(e)


def zi(x):
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, z3.ArithRef):
        return x
    raise Unsupported('integer expected, got %s' % type(x).__name__)


# ------------------------------------------------------------------ labels (gate and parameter names)
class SLabel(Sym):
    """a name; `null` marks a missing (NaN) entry in a series of names"""
    __slots__ = ('t', 'null')

    def __init__(self, t, null=False):
        self.t = t
        self.null = null

    def __eq__(self, o):
        if isinstance(o, SLabel):
            return SBool(And_(Not_(self.null), Not_(o.null), True if self.t.eq(o.t) else self.t == o.t))
        if isinstance(o, str):
            return SBool(And_(Not_(self.null), self.t == lab(o)))
        if o is None or isinstance(o, (int, float, SVal, SInt, tuple, list)):
            return SBool(False)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SBool(Not_(r.e))

    def __lt__(self, o):
        f = E().memo.setdefault('label_rank', z3.Function('label_rank', Label, z3.RealSort()))
        a, b = self.t, lab(o)
        E().fact(z3.Implies(f(a) == f(b), a == b))
        return SBool(f(a) < f(b))

    def __gt__(self, o):
        return (o if isinstance(o, SLabel) else SLabel(lab(o))) < self

    def __hash__(self):
        raise Unsupported('hash of a symbolic name')

    def __add__(self, o):
        if isinstance(o, str):
            return self._cat('', o)
        raise Unsupported('string concatenation')

    def __radd__(self, o):
        if isinstance(o, str):
            return self._cat(o, '')
        raise Unsupported('string concatenation')

    def _cat(self, pre, post):
        """concatenation with fixed strings: injective"""
        e = E()
        key = ('cat', pre, post)
        f = z3.Function('cat_%s_%s' % (pre, post), Label, Label)
        t = f(self.t)
        lst = e.memo.setdefault(key, [])
        for a in lst:
            if not a.eq(self.t):
                e.fact(z3.Implies(f(a) == t, a == self.t))
        lst.append(self.t)
        e.ground(t)
        return SLabel(t)

    def startswith(self, p):
        raise Unsupported('string inspection')

    def __repr__(self):
        """a text token that `lab` turns back into a term (so that names built by formatting keep their identity)"""
        toks = E().memo.setdefault('tokens', [])
        for i, t in enumerate(toks):
            if t.eq(self.t):
                break
        else:
            toks.append(self.t)
            i = len(toks) - 1
        return '\u27e6%d\u27e7' % i
    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def __bool__(self):
        return True


def lab(x):
    """z3 label term of a name"""
    if isinstance(x, SLabel):
        return x.t
    if isinstance(x, str):
        if '\u27e6' in x:
            return untoken(x).t
        return E().label_const(x)
    if type(x) is z3.ExprRef and x.sort() == Label:
        return x
    raise Unsupported('name expected, got %s' % type(x).__name__)


def untoken(x):
    pre, rest = x.split('\u27e6', 1)
    num, post = rest.split('\u27e7', 1)
    if '\u27e6' in post:
        raise Unsupported('name composed of several names')
    base = SLabel(E().memo['tokens'][int(num)])
    return base if not pre and not post else base._cat(pre, post)


def is_name(x):
    return isinstance(x, (str, SLabel)) or (type(x) is z3.ExprRef and x.sort() == Label)


# ------------------------------------------------------------------ generic scalar ite / equality
def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return SBool(IfB_(c, zb(a), zb(b)))
    if is_name(a) or is_name(b):
        if is_name(a) and is_name(b):
            na = a.null if isinstance(a, SLabel) else False
            nb = b.null if isinstance(b, SLabel) else False
            return SLabel(If_(c, lab(a), lab(b)), IfB_(c, na, nb))
        x = a if is_name(a) else b
        y = b if is_name(a) else a
        y = conv(y) if y is not None else NAN
        if y is not None and y.nan is True:
            nx = x.null if isinstance(x, SLabel) else False
            return SLabel(lab(x), IfB_(c, nx, True) if x is a else IfB_(c, True, nx))
        raise Unsupported('mixed name/number entry')
    if isinstance(a, SInt) and isinstance(b, (SInt, int)) or isinstance(b, SInt) and isinstance(a, (SInt, int)):
        return mki(If_(c, zi(a), zi(b)))
    va = conv(a) if a is not None else NAN
    vb = conv(b) if b is not None else NAN
    if va is None or vb is None:
        raise Unsupported('cannot merge %s and %s' % (type(a).__name__, type(b).__name__))
    return SVal(If_(c, va.r, vb.r), IfB_(c, va.nan, vb.nan), IfB_(c, va.pinf, vb.pinf), IfB_(c, va.ninf, vb.ninf))


def same(a, b):
    """entry equality where nan equals nan (z3/py bool)"""
    if a is b:
        return True
    if is_name(a) or is_name(b):
        if is_name(a) and is_name(b):
            na = a.null if isinstance(a, SLabel) else False
            nb = b.null if isinstance(b, SLabel) else False
            ta, tb = lab(a), lab(b)
            return Or_(And_(na, nb), And_(Not_(na), Not_(nb), core.label_eq(ta, tb)))
        x, y = (a, b) if is_name(a) else (b, a)
        y = conv(y) if y is not None else NAN
        if y is None:
            return False
        return And_(x.null if isinstance(x, SLabel) else False, y.nan)
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return Iff_(zb(a), zb(b))
    va = conv(a) if a is not None else NAN
    vb = conv(b) if b is not None else NAN
    if va is None or vb is None:
        return False
    return Or_(And_(va.nan, vb.nan),
               And_(Not_(va.nan), Not_(vb.nan),
                    Or_(And_(va.pinf, vb.pinf), And_(va.ninf, vb.ninf),
                        And_(va.fin, vb.fin, True if va.r.eq(vb.r) else va.r == vb.r))))


def isnan(x):
    """z3/py bool"""
    if x is None:
        return True
    if isinstance(x, SLabel):
        return x.null
    if isinstance(x, (str, SBool, bool)):
        return False
    v = conv(x)
    if v is None:
        return False
    return v.nan


def s_int(x=0, *a):
    """int(): truncation towards zero"""
    if a:
        return int(x, *a)
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return mki(If_(x.e, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(x, SVal):
        if E().decide(Not_(x.fin)):
            if E().decide(x.nan):
                raise ValueError('cannot convert float NaN to integer')
            raise OverflowError('cannot convert float infinity to integer')
        return mki(z3.If(x.r >= 0, z3.ToInt(x.r), -z3.ToInt(-x.r)))
    return int(x)


def s_round(x, n=None):
    if isinstance(x, SVal):
        if n not in (None, 0):
            raise Unsupported('round to digits')
        if E().decide(Not_(x.fin)):
            raise ValueError('cannot convert float NaN to integer')
        lo = z3.ToInt(x.r)
        frac = x.r - z3.ToReal(lo)
        return mki(z3.If(frac < z3.RealVal('1/2'), lo,
                         z3.If(frac > z3.RealVal('1/2'), lo + 1, z3.If(lo % 2 == 0, lo, lo + 1))))
    if isinstance(x, SInt):
        return x
    return round(x) if n is None else round(x, n)
