"""Symbolic values used to execute the real /repo functions under CPython.

Numbers are mathematical reals / integers (assumption A-REAL: IEEE rounding is
not modelled).  Transcendental functions are uninterpreted, constrained only by
the axioms listed in `AXIOMS` (each use adds its axiom to the path).
"""
import sys
from fractions import Fraction

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
import numpy as np

AXIOMS = [
    "cos(t)^2 + sin(t)^2 = 1",
    "sqrt(x) = r with r >= 0 and r*r = x, for x >= 0 (raises / NaN below 0)",
    "exp(t) > 0, exp(0) = 1",
    "log is the inverse of exp on the terms it is applied to (exp(log x) = x for x > 0)",
    "atan2(y,x)=t: -pi <= t <= pi and r cos t = x, r sin t = y, r = sqrt(x^2+y^2)",
    "acos(x)=t in [0,pi], cos t = x;  asin(x)=t in [-pi/2,pi/2], sin t = x; atan(x)=t in (-pi/2,pi/2), tan t = x",
    "pi is the exact rational 3.141592653589793",
]


class Unsupported(BaseException):
    """A construct outside the verifier's reach (never a verdict)."""


class PathEnd(BaseException):
    """The current path is finished (assumption failed, cut point reached)."""


class Infeasible(PathEnd):
    pass


_CTX = [None]


def ctx():
    c = _CTX[0]
    if c is None:
        raise Unsupported("symbolic operation outside of an exploration")
    return c


R = z3.RealSort()
COS = z3.Function("cos", R, R)
SIN = z3.Function("sin", R, R)
EXP = z3.Function("exp", R, R)
LOG = z3.Function("log", R, R)
ATAN2 = z3.Function("atan2", R, R, R)
ACOS = z3.Function("acos", R, R)
ASIN = z3.Function("asin", R, R)
ATAN = z3.Function("atan", R, R)
SQRT = z3.Function("sqrt", R, R)
POW = z3.Function("pow", R, R, R)
PI = z3.RealVal("3.141592653589793")  # exact constant: keeps degree/radian conversions linear


def is_sym(x):
    return isinstance(x, (SymReal, SymInt, SymBool))


def rv(x):
    """python / numpy number -> z3 real numeral or term"""
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if f != f or f in (float("inf"), float("-inf")):
            raise Unsupported("non finite constant in symbolic arithmetic")
        # shortest decimal that denotes the literal: 0.1 means 1/10
        return z3.RealVal(str(Fraction(repr(f))))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, np.ndarray) and x.size == 1:
        return rv(x.item() if x.dtype != object else x.reshape(-1)[0])
    if hasattr(x, "__symreal__"):
        return rv(x.__symreal__())
    raise Unsupported("cannot lift %r to a real" % type(x))


def iv(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, int, np.integer, np.bool_)):
        return z3.IntVal(int(x))
    raise Unsupported("cannot lift %r to an int" % type(x))


def _num(x):
    return isinstance(x, (SymReal, SymInt, SymBool, int, float, np.integer, np.floating, np.bool_, Fraction))


def lift(x):
    if is_sym(x):
        return x
    if isinstance(x, (bool, np.bool_)):
        return x
    return x


class SymBool:
    __slots__ = ("e",)
    __array_priority__ = -100

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    def __and__(self, o):
        return SymBool(z3.And(self.e, bv(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, bv(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, bv(o)))

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def logical_not(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return SymBool(self.e == bv(o))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            return SymBool(self.e != bv(o))
        return NotImplemented

    def _r(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._r() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._r() * o

    __rmul__ = __mul__

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "SymBool(%s)" % self.e

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def bv(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, SymInt):
        return x.e != 0
    if isinstance(x, SymReal):
        return x.e != 0
    if z3.is_bool(x):
        return x
    raise Unsupported("cannot lift %r to a bool" % type(x))


def _fold(lohi, b, op):
    """comparison of an input with a number outside its range"""
    lo, hi = lohi
    if lo is not None and lo > b:
        return op in ("gt", "ge", "ne")
    if hi is not None and hi < b:
        return op in ("lt", "le", "ne")
    return None


def _cmp(op):
    def f(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            r = np.empty(o.shape, dtype=object)
            for ix in np.ndindex(*o.shape):
                r[ix] = f(self, o[ix])
            return r.view(type(o)) if o.dtype == object else r
        if isinstance(o, (float, np.floating)) and (o != o or o in (float("inf"), float("-inf"))):
            # symbolic reals are finite
            if o != o:
                return op == "ne"
            if op == "eq":
                return False
            if op == "ne":
                return True
            return (o > 0) == (op in ("lt", "le"))
        if not _num(o) and not hasattr(o, "__symreal__") and not (isinstance(o, np.ndarray) and o.size == 1):
            if op == "eq":
                return False
            if op == "ne":
                return True
            if isinstance(o, Opaque):
                raise Unsupported("comparison with opaque value")
            return NotImplemented
        if isinstance(self, SymInt) and isinstance(o, (SymInt, int, np.integer)):
            a, b = self.e, iv(o)
        else:
            a, b = rv(self), rv(o)
            if z3.is_rational_value(b) and _CTX[0] is not None and a.get_id() in _CTX[0].bounds:
                r = _fold(_CTX[0].bounds[a.get_id()], Fraction(b.numerator_as_long(), b.denominator_as_long()), op)
                if r is not None:
                    return SymBool(z3.BoolVal(r))
        return SymBool({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[op])

    return f


class Opaque:
    pass


def const_of(e):
    """Fraction if the term is a numeral (after simplification) else None"""
    if not (z3.is_rational_value(e) or z3.is_int_value(e)):
        if e.num_args() == 0:
            return None
        e = z3.simplify(e)
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


class SymNum:
    __slots__ = ("e",)
    __array_priority__ = -100
    __lt__ = _cmp("lt")
    __le__ = _cmp("le")
    __gt__ = _cmp("gt")
    __ge__ = _cmp("ge")
    __eq__ = _cmp("eq")
    __ne__ = _cmp("ne")

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        # hashing by structure would be unsound for dict look-ups of unequal
        # terms that may be equal; forbid it
        raise Unsupported("hash of a symbolic number")

    def __bool__(self):
        return ctx().decide(self.e != 0)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __float__(self):
        c = const_of(self.e)
        if c is not None:
            return float(c)
        raise Unsupported("float() of a symbolic number by foreign code")

    def __index__(self):
        return ctx().concretise(self)

    def __str__(self):
        return ctx().token(self, None)

    __repr__ = lambda self: "<%s %s>" % (type(self).__name__, self.e)

    def __format__(self, spec):
        return ctx().token(self, spec)

    def __pos__(self):
        return self

    def conjugate(self):
        return self

    def copy(self):
        return self

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self

    def item(self):
        return self

    # numpy object-array ufunc fall-backs
    def cos(self):
        return s_cos(self)

    def sin(self):
        return s_sin(self)

    def tan(self):
        return s_tan(self)

    def sqrt(self):
        return s_sqrt(self)

    def exp(self):
        return s_exp(self)

    def log(self):
        return s_log(self)

    def arctan2(self, o):
        return s_atan2(self, o)

    def arccos(self):
        return s_acos(self)

    def arcsin(self):
        return s_asin(self)

    def arctan(self):
        return s_atan(self)

    def degrees(self):
        return s_degrees(self)

    def radians(self):
        return s_radians(self)

    rad2deg = degrees
    deg2rad = radians

    def floor(self):
        return s_floor(self)

    def ceil(self):
        return s_ceil(self)

    def rint(self):
        return s_round(self)

    def fabs(self):
        return abs(self)

    def square(self):
        return self * self

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    def logical_not(self):
        return SymBool(self.e == 0)

    def is_integer(self):
        return SymBool(z3.IsInt(rv(self)))


def _arr(o):
    return isinstance(o, np.ndarray) and o.ndim > 0


def _bad(o):
    return not _num(o) and not hasattr(o, "__symreal__") and not isinstance(o, np.ndarray)


class SymReal(SymNum):
    __slots__ = ()

    def __add__(self, o):
        if _arr(o) or _bad(o):
            return NotImplemented
        return SymReal(self.e + rv(o))

    def __radd__(self, o):
        if _arr(o) or _bad(o):
            return NotImplemented
        return SymReal(rv(o) + self.e)

    def __sub__(self, o):
        if _arr(o) or _bad(o):
            return NotImplemented
        return SymReal(self.e - rv(o))

    def __rsub__(self, o):
        if _arr(o) or _bad(o):
            return NotImplemented
        return SymReal(rv(o) - self.e)

    def __mul__(self, o):
        if _arr(o) or _bad(o):
            return NotImplemented
        return SymReal(self.e * rv(o))

    def __rmul__(self, o):
        if _arr(o) or _bad(o):
            return NotImplemented
        return SymReal(rv(o) * self.e)

    def __truediv__(self, o):
        if _arr(o) or _bad(o):
            return NotImplemented
        return s_div(self, o)

    def __rtruediv__(self, o):
        if _arr(o) or _bad(o):
            return NotImplemented
        return s_div(o, self)

    def __floordiv__(self, o):
        if _arr(o) or _bad(o):
            return NotImplemented
        d = s_div(self, o)
        return SymReal(z3.ToReal(z3.ToInt(d.e)))

    def __rfloordiv__(self, o):
        if _arr(o) or _bad(o):
            return NotImplemented
        d = s_div(o, self)
        return SymReal(z3.ToReal(z3.ToInt(d.e)))

    def __mod__(self, o):
        if _arr(o) or _bad(o):
            return NotImplemented
        q = s_div(self, o)
        return SymReal(self.e - rv(o) * z3.ToReal(z3.ToInt(q.e)))

    def __rmod__(self, o):
        if _arr(o) or _bad(o):
            return NotImplemented
        q = s_div(o, self)
        return SymReal(rv(o) - self.e * z3.ToReal(z3.ToInt(q.e)))

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return SymReal(-self.e)

    def __abs__(self):
        return SymReal(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o):
        if _arr(o) or _bad(o):
            return NotImplemented
        return s_pow(self, o)

    def __rpow__(self, o):
        if _arr(o) or _bad(o):
            return NotImplemented
        return s_pow(o, self)

    def __int__(self):
        raise Unsupported("int() of a symbolic real by foreign code")

    def __trunc__(self):
        return s_trunc(self)

    def __floor__(self):
        return s_floor_int(self)

    def __ceil__(self):
        return -s_floor_int(-self)

    def __round__(self, n=None):
        if n is None:
            return SymInt(z3.ToInt(s_round(self).e))
        k = 10 ** n
        return s_round(self * k) / k


class SymInt(SymNum):
    __slots__ = ()

    def _bin(self, o, fi, fr, swap=False):
        if _arr(o) or _bad(o):
            return NotImplemented
        if isinstance(o, (SymInt, int, np.integer, SymBool, np.bool_)):
            a, b = (iv(o), self.e) if swap else (self.e, iv(o))
            return SymInt(fi(a, b))
        a, b = (rv(o), rv(self)) if swap else (rv(self), rv(o))
        return SymReal(fr(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (list, str, tuple)):
            return self._repeat(o)
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    def _repeat(self, o):
        if isinstance(o, list) and len(o) == 1:
            from .symlist import SymRepeat

            return SymRepeat(o[0], self)
        raise Unsupported("sequence repetition by symbolic int")

    def __rmul__(self, o):
        if isinstance(o, (list, str, tuple)):
            return self._repeat(o)
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b, True)

    def __truediv__(self, o):
        if _arr(o) or _bad(o):
            return NotImplemented
        return s_div(self, o)

    def __rtruediv__(self, o):
        if _arr(o) or _bad(o):
            return NotImplemented
        return s_div(o, self)

    def _idiv(self, a, b, mod):
        # python floor semantics; z3 div is euclidean
        if ctx().decide(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        q = z3.If(b > 0, a / b, (-a) / (-b))
        return SymInt(a - b * q if mod else q)

    def __floordiv__(self, o):
        if isinstance(o, (SymInt, int, np.integer)):
            return self._idiv(self.e, iv(o), False)
        return SymReal(rv(self)) // o

    def __rfloordiv__(self, o):
        if isinstance(o, (SymInt, int, np.integer)):
            return self._idiv(iv(o), self.e, False)
        return NotImplemented

    def __mod__(self, o):
        if isinstance(o, (SymInt, int, np.integer)):
            return self._idiv(self.e, iv(o), True)
        return SymReal(rv(self)) % o

    def __rmod__(self, o):
        if isinstance(o, (SymInt, int, np.integer)):
            return self._idiv(iv(o), self.e, True)
        return NotImplemented

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return SymInt(-self.e)

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o):
        if isinstance(o, (int, np.integer)) and 0 <= o <= 8:
            r = z3.IntVal(1)
            for _ in range(int(o)):
                r = r * self.e
            return SymInt(r)
        return s_pow(SymReal(rv(self)), o)

    def __rpow__(self, o):
        return s_pow(o, SymReal(rv(self)))

    def __lshift__(self, o):
        if isinstance(o, (int, np.integer)):
            return SymInt(self.e * (1 << int(o)))
        raise Unsupported("symbolic shift amount")

    def __rshift__(self, o):
        if isinstance(o, (int, np.integer)):
            return SymInt(self.e / (1 << int(o)))
        raise Unsupported("symbolic shift amount")

    def _bits(self, o, f):
        w = 40
        a = z3.Int2BV(self.e, w)
        b = z3.Int2BV(iv(o), w)
        return SymInt(z3.BV2Int(f(a, b)))

    def __and__(self, o):
        if isinstance(o, (int, np.integer)) and o >= 0 and (int(o) + 1) & int(o) == 0:
            return SymInt(self.e % (int(o) + 1))
        if isinstance(o, (int, np.integer)) and o > 0:
            low = int(o) & -int(o)
            top = int(o) // low
            if (top + 1) & top == 0:
                return SymInt(((self.e / low) % (top + 1)) * low)
        return self._bits(o, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        return self._bits(o, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bits(o, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __int__(self):
        return ctx().concretise(self)

    def __trunc__(self):
        return self

    __floor__ = __trunc__
    __ceil__ = __trunc__

    def __round__(self, n=None):
        return self


# ---------------------------------------------------------------- operations
def _conc(x):
    return not is_sym(x)


def s_div(a, b):
    be = rv(b)
    if z3.is_rational_value(be):
        zero = be.numerator_as_long() == 0
    else:
        zero = ctx().decide(be == 0)
    if zero:
        raise ZeroDivisionError("division by zero")
    return SymReal(rv(a) / be)


def _trig(x):
    """(cos, sin) terms of the canonical argument; even/odd symmetry applied"""
    e = ctx().norm_arg(rv(x))
    c0 = const_of(e)
    if c0 is not None and c0 == 0:
        return z3.RealVal(1), z3.RealVal(0)
    neg = ctx().leading_negative(e)
    if neg:
        e = ctx().norm_arg(-e)
    c, s = COS(e), SIN(e)
    ctx().axiom(("trig", e.get_id()), c * c + s * s == 1)
    return c, (-s if neg else s)


def s_cos(x):
    return SymReal(_trig(x)[0])


def s_sin(x):
    return SymReal(_trig(x)[1])


def s_tan(x):
    return s_div(s_sin(x), s_cos(x))


def s_sqrt(x):
    e = ctx().norm_arg(rv(x))
    if not ctx().ring.nonnegative(e) and ctx().decide(e < 0):
        raise ValueError("math domain error (sqrt of a negative number)")
    r = SQRT(e)
    ctx().axiom(("sqrt", e.get_id()), z3.And(r >= 0, r * r == e))
    return SymReal(r)


def s_exp(x):
    e = ctx().norm_arg(rv(x))
    if z3.is_app(e) and e.decl().eq(LOG):
        return SymReal(e.arg(0))
    r = EXP(e)
    ctx().axiom(("exp", e.get_id()), z3.And(r > 0, z3.Implies(e == 0, r == 1)))
    return SymReal(r)


def s_log(x):
    e = ctx().norm_arg(rv(x))
    if ctx().decide(e <= 0):
        raise ValueError("math domain error (log)")
    if z3.is_app(e) and e.decl().eq(EXP):
        return SymReal(e.arg(0))
    r = LOG(e)
    ctx().axiom(("log", e.get_id()), z3.And(EXP(r) == e, z3.Implies(e == 1, r == 0)))
    return SymReal(r)


def s_atan2(y, x):
    ye, xe = ctx().norm_arg(rv(y)), ctx().norm_arg(rv(x))
    t = ATAN2(ye, xe)
    r = SQRT(ctx().norm_arg(xe * xe + ye * ye))
    c, s = COS(t), SIN(t)
    ctx().axiom(
        ("atan2", t.get_id()),
        z3.And(t <= PI, t >= -PI, r >= 0, r * r == xe * xe + ye * ye, r * c == xe, r * s == ye, c * c + s * s == 1),
    )
    return SymReal(t)


def s_acos(x):
    e = ctx().norm_arg(rv(x))
    if ctx().decide(z3.Or(e > 1, e < -1)):
        raise ValueError("math domain error (acos)")
    t = ACOS(e)
    c, s = COS(t), SIN(t)
    ctx().axiom(("acos", t.get_id()), z3.And(t >= 0, t <= PI, c == e, s >= 0, c * c + s * s == 1))
    return SymReal(t)


def s_asin(x):
    e = ctx().norm_arg(rv(x))
    if ctx().decide(z3.Or(e > 1, e < -1)):
        raise ValueError("math domain error (asin)")
    t = ASIN(e)
    c, s = COS(t), SIN(t)
    ctx().axiom(("asin", t.get_id()), z3.And(2 * t >= -PI, 2 * t <= PI, s == e, c >= 0, c * c + s * s == 1))
    return SymReal(t)


def s_atan(x):
    e = ctx().norm_arg(rv(x))
    t = ATAN(e)
    c, s = COS(t), SIN(t)
    ctx().axiom(("atan", t.get_id()), z3.And(2 * t > -PI, 2 * t < PI, s == e * c, c > 0, c * c + s * s == 1))
    return SymReal(t)


def s_degrees(x):
    return SymReal(rv(x) * 180 / PI)


def s_radians(x):
    return SymReal(rv(x) * PI / 180)


def integral(e):
    """the integer term a real term plainly is, or None"""
    if z3.is_int(e):
        return e
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return e.arg(0)
    if z3.is_rational_value(e):
        return z3.IntVal(e.numerator_as_long()) if e.denominator_as_long() == 1 else None
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        vs = [integral(e.arg(i)) for i in range(e.num_args())]
        if any(v is None for v in vs):
            return None
        r = vs[0]
        if k == z3.Z3_OP_UMINUS:
            return -r
        for v in vs[1:]:
            r = r + v if k == z3.Z3_OP_ADD else r - v if k == z3.Z3_OP_SUB else r * v
        return r
    return None


def s_floor(x):
    if isinstance(x, SymInt):
        return x
    i = integral(z3.simplify(rv(x)))
    if i is not None:
        return SymReal(z3.ToReal(i))
    return SymReal(z3.ToReal(z3.ToInt(rv(x))))


def s_floor_int(x):
    if isinstance(x, SymInt):
        return x
    i = integral(z3.simplify(rv(x)))
    return SymInt(z3.ToInt(rv(x)) if i is None else i)


def s_ceil(x):
    return -s_floor(-x)


def s_trunc(x):
    if isinstance(x, SymInt):
        return x
    e = rv(x)
    i = integral(z3.simplify(e))
    if i is not None:
        return SymInt(i)
    return SymInt(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))


def s_round(x):
    """round half to even"""
    e = rv(x)
    f = z3.ToInt(e)
    d = e - z3.ToReal(f)
    half = z3.Q(1, 2)
    up = z3.Or(d > half, z3.And(d == half, f % 2 != 0))
    return SymReal(z3.ToReal(z3.If(up, f + 1, f)))


def s_pow(a, b):
    if _conc(b):
        bf = Fraction(repr(float(b))) if not isinstance(b, (int, np.integer)) else Fraction(int(b))
        if bf.denominator == 1 and abs(bf) <= 12:
            n = int(bf)
            r = SymReal(z3.RealVal(1))
            base = SymReal(rv(a))
            for _ in range(abs(n)):
                r = r * base if not r.e.eq(z3.RealVal(1)) else base
            return r if n >= 0 else s_div(1, r)
        if bf == Fraction(1, 2):
            return s_sqrt(SymReal(rv(a)))
        if bf == Fraction(-1, 2):
            return s_div(1, s_sqrt(SymReal(rv(a))))
    ea, eb = ctx().norm_arg(rv(a)), ctx().norm_arg(rv(b))
    if _conc(a) and _conc(b):
        return float(a) ** float(b)
    r = POW(ea, eb)
    ctx().axiom(
        ("pow", r.get_id()),
        z3.And(
            z3.Implies(ea >= 0, r >= 0),
            z3.Implies(ea == 1, r == 1),
            z3.Implies(z3.And(ea >= 0, ea <= 1, eb > 0), r <= 1),
            z3.Implies(z3.And(ea == 0, eb > 0), r == 0),
        ),
    )
    return SymReal(r)


def s_min(*a):
    r = a[0]
    for x in a[1:]:
        r = s_ite(x < r, x, r)
    return r


def s_max(*a):
    r = a[0]
    for x in a[1:]:
        r = s_ite(x > r, x, r)
    return r


def s_ite(c, a, b):
    if not isinstance(c, SymBool):
        return a if c else b
    if z3.is_true(c.e):
        return a
    if z3.is_false(c.e):
        return b
    if isinstance(a, SymBool) or isinstance(b, SymBool) or (isinstance(a, bool) and isinstance(b, bool)):
        return SymBool(z3.If(c.e, bv(a), bv(b)))
    if isinstance(a, (SymInt, int)) and isinstance(b, (SymInt, int)):
        return SymInt(z3.If(c.e, iv(a), iv(b)))
    return SymReal(z3.If(c.e, rv(a), rv(b)))
