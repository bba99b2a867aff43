"""Symbolic scalars: booleans, integers, reals (floats are treated as reals), complex pairs."""
from __future__ import annotations

import math
import numbers

import z3

from . import core
from .core import Unsupported, ctx, rv, unary_facts, pair_facts, z3b

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
ORDER = {"b": 0, "i": 1, "r": 2, "c": 3}

F = {}
for _n, _a in [("sqrt", 1), ("exp", 1), ("log", 1), ("sin", 1), ("cos", 1), ("tanh", 1), ("erf", 1),
               ("asin", 1), ("atan2", 2), ("pow", 2)]:
    F[_n] = z3.Function(_n, *([R] * (_a + 1)))
PI = z3.Const("pi", R)
ZERO_R = z3.RealVal(0)


def _sqrt_u(a):
    t = a.arg(0)
    return [z3.Implies(t >= 0, z3.And(a >= 0, a * a == t))]


unary_facts("sqrt", _sqrt_u)
pair_facts("sqrt", lambda a, b: [z3.Implies(z3.And(a.arg(0) >= 0, a.arg(0) < b.arg(0)), a < b)])
unary_facts("exp", lambda a: [a > 0, z3.Implies(a.arg(0) == 0, a == 1), a >= 1 + a.arg(0), F["log"](a) == a.arg(0),
                              z3.Implies(a.arg(0) < 0, a < 1)]
            if not (z3.is_app(a.arg(0)) and a.arg(0).decl().name() == "log") else
            [a > 0, z3.Implies(a.arg(0).arg(0) > 0, a == a.arg(0).arg(0))])
pair_facts("exp", lambda a, b: [z3.Implies(a.arg(0) < b.arg(0), a < b)])
unary_facts("log", lambda a: [z3.Implies(a.arg(0) > 0, F["exp"](a) == a.arg(0)), z3.Implies(a.arg(0) == 1, a == 0)]
            if not (z3.is_app(a.arg(0)) and a.arg(0).decl().name() == "exp") else [a == a.arg(0).arg(0)])
pair_facts("log", lambda a, b: [z3.Implies(z3.And(a.arg(0) > 0, a.arg(0) < b.arg(0)), a < b)])


def _sin_u(a):
    t = a.arg(0)
    c = F["cos"](t)
    return [a * a + c * c == 1, a <= 1, a >= -1, z3.Implies(t == 0, a == 0),
            z3.Implies(z3.And(t > 0, t < PI), a > 0), z3.Implies(z3.And(t < 0, t > -PI), a < 0)]


def _cos_u(a):
    t = a.arg(0)
    s = F["sin"](t)
    return [a * a + s * s == 1, a <= 1, a >= -1, z3.Implies(t == 0, a == 1),
            z3.Implies(z3.And(t >= -PI / 2, t <= PI / 2), a >= 0),
            z3.Implies(z3.And(t > -PI / 2, t < PI / 2), a > 0)]


unary_facts("sin", _sin_u)
unary_facts("cos", _cos_u)


def _atan2_u(a):
    y, x = a.arg(0), a.arg(1)
    r = F["sqrt"](z3.simplify(x * x + y * y))
    return [a > -PI, a <= PI, x == r * F["cos"](a), y == r * F["sin"](a),
            z3.Implies(x > 0, z3.And(a > -PI / 2, a < PI / 2)),
            z3.Implies(x >= 0, z3.And(a >= -PI / 2, a <= PI / 2)),
            z3.Implies(y > 0, z3.And(a > 0, a < PI)), z3.Implies(y < 0, a < 0),
            z3.Implies(z3.And(y == 0, x >= 0), a == 0), z3.Implies(z3.And(y == 0, x < 0), a == PI), r >= 0, r * r == x * x + y * y]


unary_facts("atan2", _atan2_u)
unary_facts("asin", lambda a: [z3.Implies(z3.And(a.arg(0) >= -1, a.arg(0) <= 1),
                                          z3.And(a >= -PI / 2, a <= PI / 2, F["sin"](a) == a.arg(0)))])
unary_facts("tanh", lambda a: [a > -1, a < 1, z3.Implies(a.arg(0) > 0, z3.And(a > 0, a < a.arg(0))),
                               z3.Implies(a.arg(0) == 0, a == 0), z3.Implies(a.arg(0) < 0, a < 0)])
pair_facts("tanh", lambda a, b: [z3.Implies(a.arg(0) < b.arg(0), a < b)])
unary_facts("erf", lambda a: [a > -1, a < 1, z3.Implies(a.arg(0) > 0, a > 0), z3.Implies(a.arg(0) == 0, a == 0),
                              z3.Implies(a.arg(0) < 0, a < 0)])
pair_facts("erf", lambda a, b: [z3.Implies(a.arg(0) < b.arg(0), a < b), z3.Implies(a.arg(0) == -b.arg(0), a == -b)])
unary_facts("pow", lambda a: [z3.Implies(a.arg(0) > 0, z3.And(a > 0, a == F["exp"](z3.simplify(a.arg(1) * F["log"](a.arg(0)))))),
                              z3.Implies(z3.And(a.arg(0) == 0, a.arg(1) > 0), a == 0),
                              z3.Implies(a.arg(1) == 0, a == 1),
                              z3.Implies(a.arg(0) >= 0, a >= 0)])


def isnum(e):
    return z3.is_int_value(e) or z3.is_rational_value(e)


def is0(e):
    return isnum(e) and e.as_fraction() == 0 if z3.is_rational_value(e) else (z3.is_int_value(e) and e.as_long() == 0)


def is1(e):
    return (z3.is_rational_value(e) and e.as_fraction() == 1) or (z3.is_int_value(e) and e.as_long() == 1)


def add(a, b):
    if is0(a):
        return b
    if is0(b):
        return a
    if isnum(a) and isnum(b):
        return z3.simplify(a + b)
    return a + b


def sub(a, b):
    if is0(b):
        return a
    if isnum(a) and isnum(b):
        return z3.simplify(a - b)
    if a.eq(b):
        return z3.IntVal(0) if a.sort() == I else ZERO_R
    return a - b


def mul(a, b):
    if is0(a):
        return a
    if is0(b):
        return b
    if is1(a):
        return b
    if is1(b):
        return a
    if isnum(a) and isnum(b):
        return z3.simplify(a * b)
    return a * b


def neg(a):
    if isnum(a):
        return z3.simplify(-a)
    return -a


def div(a, b):
    if is0(a) and isnum(b) and not is0(b):
        return a
    if is1(b):
        return a
    if isnum(a) and isnum(b) and not is0(b):
        return z3.simplify(a / b)
    return a / b


def toreal(e):
    if e.sort() == R:
        return e
    if z3.is_int_value(e):
        return z3.RealVal(e.as_long())
    if e.sort() == B:
        return z3.If(e, z3.RealVal(1), z3.RealVal(0))
    return z3.ToReal(e)


class DT:
    """dtype tag."""

    def __init__(self, name, k):
        self.name, self.k = name, k

    def __eq__(self, o):
        return isinstance(o, DT) and o.k == self.k or (o is float and self.k == "r") or (o is int and self.k == "i") or \
            (o is complex and self.k == "c") or (o is bool and self.k == "b")

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return self.name


DTYPES = {"b": DT("bool", "b"), "i": DT("int64", "i"), "r": DT("float64", "r"), "c": DT("complex128", "c")}


def dtk(d):
    if d is None:
        return None
    if isinstance(d, DT):
        return d.k
    if d is float or d in ("float", "d", "f8"):
        return "r"
    if d is int or d == "int":
        return "i"
    if d is complex:
        return "c"
    if d is bool:
        return "b"
    nm = getattr(d, "name", None) or getattr(d, "__name__", "")
    if "float" in nm:
        return "r"
    if "complex" in nm:
        return "c"
    if "int" in nm:
        return "i"
    if "bool" in nm:
        return "b"
    raise Unsupported(f"dtype {d!r}")


class Sc:
    """A scalar.  `xp` is set when it is an array scalar (0-d array) of a backend."""

    __slots__ = ("k", "re", "im", "xp", "inf")

    def __init__(self, k, re, im=None, xp=None, inf=None):
        self.k, self.re, self.im, self.xp, self.inf = k, re, im, xp, inf

    # array-scalar interface -------------------------------------------------
    @property
    def shape(self):
        self._arr("shape")
        return ()

    @property
    def ndim(self):
        self._arr("ndim")
        return 0

    @property
    def size(self):
        self._arr("size")
        return 1

    @property
    def dtype(self):
        self._arr("dtype")
        return DTYPES[self.k]

    @property
    def T(self):
        self._arr("T")
        return self

    def _arr(self, n):
        if self.xp is None:
            raise AttributeError(n)

    def __getattr__(self, n):
        if n == "__array_namespace__" and self.xp is not None:
            return lambda *a, **k: self.xp
        if n in ("astype", "item", "reshape") and self.xp is not None:
            from . import arr
            return getattr(arr.asarr(self, self.xp), n)
        raise AttributeError(n)

    @property
    def real(self):
        return Sc("r", toreal(self.re), xp=self.xp)

    @property
    def imag(self):
        return Sc("r", self.im if self.im is not None else ZERO_R, xp=self.xp)

    def conjugate(self):
        return conj(self)

    def __getitem__(self, key):
        from . import arr
        if self.xp is None:
            raise TypeError("scalar is not subscriptable")
        return arr.asarr(self, self.xp)[key]

    def __repr__(self):
        return f"Sc({self.re}{', ' + str(self.im) if self.im is not None else ''})"

    def __hash__(self):
        if isnum(self.re) and self.im is None:
            return hash(self.concrete())
        raise Unsupported("hash of symbolic scalar")

    def concrete(self):
        if self.im is not None:
            raise Unsupported("complex to concrete")
        e = z3.simplify(self.re)
        if z3.is_int_value(e):
            return e.as_long()
        if z3.is_rational_value(e):
            f = e.as_fraction()
            return float(f)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return None

    def __bool__(self):
        if self.k == "b":
            return ctx().decide(self.re)
        c = self.re != 0
        if self.im is not None:
            c = z3.Or(c, self.im != 0)
        return ctx().decide(c)

    def __index__(self):
        c = self.concrete()
        if isinstance(c, int):
            return c
        raise Unsupported("symbolic value where Python needs a concrete integer")

    def __int__(self):
        c = self.concrete()
        if c is not None:
            return int(c)
        raise Unsupported("int() of symbolic value through the C interface")

    def __float__(self):
        c = self.concrete()
        if c is not None:
            return float(c)
        raise Unsupported("float() of symbolic value through the C interface")

    def __format__(self, spec):
        return f"<{self.re}>"


def _bin(op):
    def f(self, o):
        from .arr import SArr
        if isinstance(o, SArr):
            return NotImplemented
        b = lift(o)
        if b is None:
            return NotImplemented
        return op(self, b)

    def rf(self, o):
        a = lift(o)
        if a is None:
            return NotImplemented
        return op(a, self)

    return f, rf


def lift(x):
    """Python number / scalar / 0-d array -> Sc; None when it is not a scalar."""
    if isinstance(x, Sc):
        return x
    if isinstance(x, bool):
        return Sc("b", z3.BoolVal(x))
    if isinstance(x, int):
        return Sc("i", z3.IntVal(x))
    if isinstance(x, float):
        if math.isinf(x) and x > 0:
            return Sc("r", ZERO_R, inf=z3.BoolVal(True))
        if math.isnan(x) or math.isinf(x):
            raise Unsupported("nan/-inf in arithmetic")
        return Sc("r", rv(x))
    if isinstance(x, complex):
        return Sc("c", rv(x.real), rv(x.imag))
    if isinstance(x, z3.BoolRef):
        return Sc("b", x)
    if isinstance(x, z3.ArithRef):
        return Sc("i" if x.sort() == I else "r", x)
    from .arr import SArr
    if isinstance(x, SArr):
        if x.ndim == 0:
            return x.scalar()
        return None
    if isinstance(x, numbers.Number):
        return lift(x.item() if hasattr(x, "item") else float(x))
    return None


def sc(x):
    s = lift(x)
    if s is None:
        raise Unsupported(f"not a scalar: {type(x).__name__}")
    return s


def promote(a, b):
    k = a.k if ORDER[a.k] >= ORDER[b.k] else b.k
    return cast(a, k), cast(b, k), k


def cast(a, k):
    if a.k == k:
        return a
    if k == "i":
        if a.k == "b":
            return Sc("i", z3.If(a.re, z3.IntVal(1), z3.IntVal(0)) if not isnum_b(a.re) else z3.IntVal(1 if z3.is_true(a.re) else 0), xp=a.xp)
        raise Unsupported("lossy cast")
    if k == "r":
        if a.k == "c":
            raise Unsupported("lossy cast")
        return Sc("r", toreal(a.re), xp=a.xp, inf=a.inf)
    if k == "c":
        return Sc("c", toreal(a.re), ZERO_R, xp=a.xp)
    if k == "b":
        return Sc("b", a.re != 0, xp=a.xp)
    raise Unsupported(k)


def isnum_b(e):
    return z3.is_true(e) or z3.is_false(e)


def _xp(a, b):
    return a.xp if a.xp is not None else b.xp


def s_add(a, b):
    a, b, k = promote(a, b)
    if k == "b":
        a, b, k = cast(a, "i"), cast(b, "i"), "i"
    inf = _or(a.inf, b.inf)
    return Sc(k, add(a.re, b.re), add(a.im, b.im) if k == "c" else None, _xp(a, b), inf)


def _or(p, q):
    if p is None:
        return q
    if q is None:
        return p
    return z3.simplify(z3.Or(p, q))


def s_sub(a, b):
    a, b, k = promote(a, b)
    if k == "b":
        a, b, k = cast(a, "i"), cast(b, "i"), "i"
    return Sc(k, sub(a.re, b.re), sub(a.im, b.im) if k == "c" else None, _xp(a, b), a.inf)


def s_mul(a, b):
    if a.k == "c" or b.k == "c":
        x = _xp(a, b)
        if a.k != "c":
            r = toreal(a.re)
            return Sc("c", mul(r, b.re), mul(r, b.im), x)
        if b.k != "c":
            r = toreal(b.re)
            return Sc("c", mul(a.re, r), mul(a.im, r), x)
        return Sc("c", sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)), x)
    a, b, k = promote(a, b)
    if k == "b":
        return Sc("b", z3.And(a.re, b.re), xp=_xp(a, b))
    return Sc(k, mul(a.re, b.re), None, _xp(a, b), _or(a.inf, b.inf))


def s_truediv(a, b):
    if a.xp is None and b.xp is None and b.k != "c" and not b.re.eq(PI):
        if ctx().decide(toreal(b.re) == 0):
            raise ZeroDivisionError("division by zero")
    return s_divarr(a, b)


def s_divarr(a, b):
    """Division of array elements: never raises (the quotient by zero is an arbitrary value)."""
    if b.k == "c":
        d = b.re * b.re + b.im * b.im
        n = s_mul(a, conj(b))
        n = cast(n, "c")
        return Sc("c", div(n.re, d), div(n.im, d), _xp(a, b))
    rb = toreal(b.re)
    if a.k == "c":
        return Sc("c", div(a.re, rb), div(a.im, rb), _xp(a, b))
    return Sc("r", div(toreal(a.re), rb), None, _xp(a, b), a.inf)


def s_floordiv(a, b):
    a, b, k = promote(a, b)
    if k not in "i":
        if k == "b":
            raise Unsupported("//")
        q = s_truediv(a, b)
        return Sc("r", z3.ToReal(z3.ToInt(q.re)), xp=q.xp)
    if isnum(a.re) and isnum(b.re):
        return Sc("i", z3.IntVal(a.re.as_long() // b.re.as_long()), xp=_xp(a, b))
    if not (isnum(b.re) and b.re.as_long() > 0):
        if not ctx().decide(b.re > 0):
            raise Unsupported("floor division by a non-positive divisor")
    return Sc("i", a.re / b.re, None, _xp(a, b))


def s_mod(a, b):
    a, b, k = promote(a, b)
    if k != "i":
        q = s_truediv(a, b)
        return Sc("r", a.re - b.re * z3.ToReal(z3.ToInt(q.re)), xp=_xp(a, b))
    if not (isnum(b.re) and b.re.as_long() > 0):
        if not ctx().decide(b.re > 0):
            raise Unsupported("modulo by a non-positive divisor")
    return Sc("i", a.re % b.re, None, _xp(a, b))


def s_pow(a, b):
    e = b.concrete() if b.k in "ri" else None
    if e is not None:
        if float(e) == int(e) and abs(e) <= 12:
            n = int(e)
            if n == 0:
                return s_add(s_mul(a, Sc("i", z3.IntVal(0))), Sc("i", z3.IntVal(1)))
            r = a
            if a.k == "b":
                r = cast(a, "i")
            base = r
            for _ in range(abs(n) - 1):
                r = s_mul(r, base)
            if n < 0:
                r = s_truediv(Sc("i", z3.IntVal(1)), r)
            if b.k == "r" and r.k == "i":
                r = cast(r, "r")
            return Sc(r.k, r.re, r.im, _xp(a, b))
        if e == 0.5:
            r = s_sqrt(a)
            return Sc(r.k, r.re, r.im, _xp(a, b))
    if a.k == "c" or b.k == "c":
        raise Unsupported("complex power")
    return Sc("r", F["pow"](toreal(a.re), toreal(b.re)), None, _xp(a, b))


def _cmp(fn):
    def op(a, b):
        if a.k == "c" or b.k == "c":
            raise Unsupported("ordering complex numbers")
        inf_a, inf_b = a.inf, b.inf
        a2, b2, k = promote(a, b)
        if k == "b":
            a2, b2 = cast(a2, "i"), cast(b2, "i")
        e = fn(a2.re, b2.re)
        if inf_a is not None or inf_b is not None:
            ia = inf_a if inf_a is not None else z3.BoolVal(False)
            ib = inf_b if inf_b is not None else z3.BoolVal(False)
            # order on reals plus +infinity
            e = fn.inf(ia, ib, e)
        return Sc("b", z3.simplify(e) if isnum(a2.re) and isnum(b2.re) else e, None, _xp(a, b))

    return op


def _lt(x, y):
    return x < y


def _le(x, y):
    return x <= y


def _gt(x, y):
    return x > y


def _ge(x, y):
    return x >= y


_lt.inf = lambda ia, ib, e: z3.simplify(z3.And(z3.Not(ia), z3.Or(ib, e)))
_le.inf = lambda ia, ib, e: z3.simplify(z3.Or(ib, z3.And(z3.Not(ia), e)))
_gt.inf = lambda ia, ib, e: z3.simplify(z3.And(z3.Not(ib), z3.Or(ia, e)))
_ge.inf = lambda ia, ib, e: z3.simplify(z3.Or(ia, z3.And(z3.Not(ib), e)))
s_lt, s_le, s_gt, s_ge = _cmp(_lt), _cmp(_le), _cmp(_gt), _cmp(_ge)


def s_eq(a, b):
    a2, b2, k = promote(a, b)
    e = a2.re == b2.re
    if k == "c":
        e = z3.And(e, a2.im == b2.im)
    if a.inf is not None or b.inf is not None:
        ia = a.inf if a.inf is not None else z3.BoolVal(False)
        ib = b.inf if b.inf is not None else z3.BoolVal(False)
        e = z3.Or(z3.And(ia, ib), z3.And(z3.Not(ia), z3.Not(ib), e))
    return Sc("b", z3.simplify(e) if (k != "c" and a2.re.num_args() == 0 and b2.re.num_args() == 0) else e, None, _xp(a, b))


def s_ne(a, b):
    r = s_eq(a, b)
    return Sc("b", z3.simplify(z3.Not(r.re)), None, r.xp)


def s_and(a, b):
    if a.k == "b" and b.k == "b":
        return Sc("b", z3.And(a.re, b.re), None, _xp(a, b))
    ca, cb = a.concrete(), b.concrete()
    if ca is not None and cb is not None:
        return Sc("i", z3.IntVal(int(ca) & int(cb)), None, _xp(a, b))
    if cb is not None and isinstance(cb, int) and cb == 1:
        return Sc("i", a.re % 2, None, _xp(a, b))
    raise Unsupported("bitwise and on symbolic integers")


def s_or(a, b):
    if a.k == "b" and b.k == "b":
        return Sc("b", z3.Or(a.re, b.re), None, _xp(a, b))
    ca, cb = a.concrete(), b.concrete()
    if ca is not None and cb is not None:
        return Sc("i", z3.IntVal(int(ca) | int(cb)), None, _xp(a, b))
    if cb in (1, 2) and not isinstance(cb, bool):
        # set one bit of a non-negative integer
        bit = (a.re / cb) % 2
        return Sc("i", z3.If(bit == 1, a.re, a.re + cb), None, _xp(a, b))
    raise Unsupported("bitwise or on symbolic integers")


def s_xor(a, b):
    if a.k == "b" and b.k == "b":
        return Sc("b", z3.Xor(a.re, b.re), None, _xp(a, b))
    raise Unsupported("xor")


def s_neg(a):
    if a.k == "b":
        a = cast(a, "i")
    return Sc(a.k, neg(a.re), neg(a.im) if a.im is not None else None, a.xp)


def s_abs(a):
    if a.k == "c":
        return s_hypot(Sc("r", a.re, xp=a.xp), Sc("r", a.im, xp=a.xp))
    if a.k == "b":
        return cast(a, "i")
    if isnum(a.re):
        return Sc(a.k, z3.simplify(z3.If(a.re >= 0, a.re, -a.re)), None, a.xp)
    return Sc(a.k, z3.If(a.re >= 0, a.re, -a.re), None, a.xp)


def s_not(a):
    if a.k == "b":
        return Sc("b", z3.simplify(z3.Not(a.re)) if isnum_b(a.re) else z3.Not(a.re), None, a.xp)
    if a.k == "i":
        return Sc("i", -a.re - 1, None, a.xp)
    raise Unsupported("~")


def _mk(name):
    def f(a):
        if a.k == "c":
            raise Unsupported(f"{name} of complex")
        return Sc("r", F[name](toreal(a.re)), None, a.xp)

    return f


def s_sqrt(a):
    if a.k == "c":
        raise Unsupported("sqrt of complex")
    e = toreal(a.re)
    if z3.is_rational_value(e):
        f = e.as_fraction()
        if f >= 0:
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return Sc("r", z3.Q(n, d), None, a.xp)
    return Sc("r", F["sqrt"](e), None, a.xp)


def s_exp(a):
    if a.k == "c":
        if is0(a.re):
            return Sc("c", F["cos"](a.im), F["sin"](a.im), a.xp)
        m = F["exp"](a.re)
        return Sc("c", m * F["cos"](a.im), m * F["sin"](a.im), a.xp)
    e = toreal(a.re)
    if is0(e):
        return Sc("r", z3.RealVal(1), None, a.xp)
    return Sc("r", F["exp"](e), None, a.xp)


def s_log(a):
    e = toreal(a.re)
    if is1(e):
        return Sc("r", ZERO_R, None, a.xp)
    return Sc("r", F["log"](e), None, a.xp)


def cancel_pi(e):
    """Normal form of an angle: factors of pi in numerator and denominator cancel."""
    if not any(x.eq(PI) for x in core.consts(e)):
        return e
    from . import sums
    terms = []
    sums._flatten_add(z3.simplify(e, som=True) if sums._small(e, 200) else z3.simplify(e), 1, terms)
    total = None
    for sign, t in terms:
        fac = []
        sums._flatten_mul(t, fac, False)
        npi = sum((-1 if inv else 1) for f, inv in fac if f.eq(PI))
        r = None
        for f, inv in fac:
            if f.eq(PI):
                continue
            if inv:
                r = (z3.RealVal(1) if r is None else r) / f
            else:
                r = f if r is None else r * f
        r = z3.RealVal(1) if r is None else r
        for _ in range(abs(npi)):
            r = r * PI if npi > 0 else r / PI
        r = -r if sign < 0 else r
        total = r if total is None else total + r
    return z3.simplify(total)


def s_trig(name):
    g = _mk(name)

    def f(a):
        if a.k != "c":
            e = toreal(a.re)
            if is0(e):
                return Sc("r", z3.RealVal(1 if name == "cos" else 0), None, a.xp)
            return Sc("r", F[name](cancel_pi(e)), None, a.xp)
        return g(a)

    return f


s_sin, s_cos = s_trig("sin"), s_trig("cos")
s_tanh, s_erf, s_asin = _mk("tanh"), _mk("erf"), _mk("asin")
ONE = Sc("i", z3.IntVal(1))


def s_expm1(a):
    return s_sub(s_exp(a), ONE)


def s_log1p(a):
    return s_log(s_add(ONE, a))


def s_hypot(a, b):
    x, y = toreal(a.re), toreal(b.re)
    return Sc("r", F["sqrt"](z3.simplify(x * x + y * y)), None, _xp(a, b))


def s_atan2(a, b):
    return Sc("r", F["atan2"](toreal(a.re), toreal(b.re)), None, _xp(a, b))


def conj(a):
    if a.k != "c":
        return a
    return Sc("c", a.re, neg(a.im), a.xp)


def s_real(a):
    return Sc("r" if a.k in "rc" else a.k, a.re, None, a.xp)


def s_imag(a):
    return Sc("r", a.im if a.im is not None else ZERO_R, None, a.xp)


def ite(c, a, b):
    """Scalar merge; c is a z3 condition."""
    c = z3b(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    a2, b2, k = promote(a, b)
    inf = None
    if a.inf is not None or b.inf is not None:
        ia = a.inf if a.inf is not None else z3.BoolVal(False)
        ib = b.inf if b.inf is not None else z3.BoolVal(False)
        inf = z3.simplify(z3.If(c, ia, ib))
    re = a2.re if a2.re.eq(b2.re) else z3.If(c, a2.re, b2.re)
    im = None
    if k == "c":
        im = a2.im if a2.im.eq(b2.im) else z3.If(c, a2.im, b2.im)
    return Sc(k, re, im, _xp(a, b), inf)


def s_min(a, b):
    r = s_le(a, b)
    return ite(r.re, a, b)


def s_max(a, b):
    r = s_ge(a, b)
    return ite(r.re, a, b)


RINT = z3.Function("rint", R, z3.IntSort())


def _rint_u(a):
    e = a.arg(0)
    half = z3.Q(1, 2)
    d = z3.ToReal(a) - e
    return [z3.And(d <= half, d >= -half), z3.Implies(z3.Or(d == half, d == -half), a % 2 == 0)]


core.unary_facts("rint", _rint_u)


def s_round(a):
    """Round half to even (value as real)."""
    e = z3.simplify(toreal(a.re))
    if z3.is_rational_value(e):
        return Sc("r", z3.RealVal(round(e.as_fraction())), None, a.xp)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL:
        return Sc("r", e, None, a.xp)
    return Sc("r", z3.ToReal(RINT(e)), None, a.xp)


def _whole(e):
    """The integer term of an integer-valued real term, or None."""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL:
        return e.arg(0)
    if z3.is_rational_value(e) and e.denominator_as_long() == 1:
        return z3.IntVal(e.numerator_as_long())
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        x, y = _whole(e.arg(1)), _whole(e.arg(2))
        if x is not None and y is not None:
            return z3.If(e.arg(0), x, y)
    return None


_OPQ = {}


def opaque(e):
    """The term as an application of a function symbol with the defining equation (so that proofs treat it as a unit)."""
    e = z3.simplify(e)
    params = []
    tmpl = _leaves(e, params)
    key = tmpl.sexpr() + "|" + ",".join(str(p.sort()) for p, _ in params)
    if key not in _OPQ:
        d = _OPQ[key] = z3.Function(f"opq#{len(_OPQ)}", *[p.sort() for p, _ in params], e.sort())
        ps = [p for p, _ in params]
        core.unary_facts(d.name(), lambda a: [a == z3.substitute(tmpl, *zip(ps, a.children()))])
    return _OPQ[key](*[t for _, t in params])


def _leaves(e, params):
    """Template of e with its maximal uninterpreted subterms as parameters."""
    hit = {}

    def walk(t):
        k = t.get_id()
        if k in hit:
            return hit[k]
        if z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t):
            r = t
        elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = z3.Const(f"!q{len(params)}{t.sort()}", t.sort())
            params.append((r, t))
        else:
            ch = [walk(x) for x in t.children()]
            r = z3.substitute(t, *[(a, b) for a, b in zip(t.children(), ch) if not a.eq(b)])
        hit[k] = r
        return r

    return walk(e)


def s_trunc(a):
    """int(x)."""
    if a.k in "ib":
        return cast(a, "i")
    e = z3.simplify(a.re) if isnum(a.re) else a.re
    w = _whole(e)
    if w is not None:
        return Sc("i", opaque(w) if z3.is_app(w) and w.decl().kind() == z3.Z3_OP_ITE else w)
    if z3.is_rational_value(e):
        return Sc("i", z3.IntVal(int(e.as_fraction())))
    return Sc("i", z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))


def s_floor(a):
    if a.k == "i":
        return a
    return Sc("i", z3.ToInt(toreal(a.re)))


def s_ceil(a):
    if a.k == "i":
        return a
    return Sc("i", -z3.ToInt(-toreal(a.re)))


for _nm, _op in [("add", s_add), ("sub", s_sub), ("mul", s_mul), ("truediv", s_truediv), ("floordiv", s_floordiv),
                 ("mod", s_mod), ("pow", s_pow), ("and", s_and), ("or", s_or), ("xor", s_xor)]:
    _f, _rf = _bin(_op)
    setattr(Sc, f"__{_nm}__", _f)
    setattr(Sc, f"__r{_nm}__", _rf)
for _nm, _op in [("lt", s_lt), ("le", s_le), ("gt", s_gt), ("ge", s_ge)]:
    setattr(Sc, f"__{_nm}__", _bin(_op)[0])


def _eq(self, o):
    from .arr import SArr
    if isinstance(o, SArr):
        return NotImplemented
    try:
        b = lift(o)
    except Unsupported:
        return NotImplemented
    if b is None:
        return NotImplemented
    return s_eq(self, b)


def _ne(self, o):
    r = _eq(self, o)
    return r if r is NotImplemented else s_not(r)


Sc.__eq__ = _eq
Sc.__ne__ = _ne
Sc.__neg__ = s_neg
Sc.__pos__ = lambda a: a
Sc.__abs__ = s_abs
Sc.__invert__ = s_not
Sc.__round__ = lambda a, n=None: s_trunc(s_round(a)) if n is None else (_ for _ in ()).throw(Unsupported("round(x, n)"))
Sc.__floor__ = s_floor
Sc.__ceil__ = s_ceil
Sc.__trunc__ = s_trunc
Sc.__matmul__ = lambda a, b: NotImplemented


def simp_dim(d):
    """Normal form of a dimension / integer: Python int when it is a numeral."""
    if isinstance(d, bool):
        return int(d)
    if isinstance(d, int):
        return d
    s = sc(d)
    s = cast(s, "i") if s.k == "b" else s
    e = z3.simplify(s.re)
    if z3.is_int_value(e):
        return e.as_long()
    return Sc("i", e)
