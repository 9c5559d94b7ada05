"""Symbolic stand-ins for the builtins, `math`, `numpy`, `numba` and `random`
names the repository code uses.  On concrete arguments every shim defers to the
original."""
import builtins as B
import math
import types

import numpy as np

from . import sym, genpix
from .sym import SymReal, SymInt, SymBool, Unsupported, is_sym, rv, iv, bv, z3, s_ite
from .symlist import SymList, SymRange, is_symseq


def anysym(*a):
    for x in a:
        if is_sym(x):
            return True
        if isinstance(x, np.ndarray) and x.dtype == object:
            if any(is_sym(y) for y in x.reshape(-1)):
                return True
        elif isinstance(x, (list, tuple)) and any(anysym(y) for y in x):
            return True
    return False


# ------------------------------------------------------------------ builtins
def s_len(x):
    if is_symseq(x):
        return x.sym_len()
    if B.isinstance(x, genpix.GenArray):
        return x.shape[0]
    return B.len(x)


def s_range(*a):
    if any(isinstance(x, SymInt) and sym.const_of(x.e) is None for x in a):
        return SymRange(*a)
    return B.range(*[int(x) if isinstance(x, SymInt) else x for x in a])


def s_abs(x):
    return abs(x)


def _agg(args, kw, f, orig):
    if "default" in kw or "key" in kw:
        xs = list(args[0]) if B.len(args) == 1 else list(args)
        if "key" in kw and anysym([kw["key"](x) for x in xs]):
            # keep python semantics (first extremum); forks on comparisons
            return orig(*args, **kw)
        if not anysym(xs):
            return orig(*args, **kw)
        if not xs:
            return kw["default"]
        if "key" in kw:
            return orig(*args, **kw)
        return f(*xs)
    if B.len(args) == 1:
        if is_symseq(args[0]):
            raise Unsupported("min/max of a symbolic-length sequence")
        xs = list(args[0])
    else:
        xs = list(args)
    if anysym(xs) and xs:
        if B.len(xs) == 1:
            return xs[0]
        if B.any(isinstance(x, (tuple, list)) for x in xs):
            return orig(xs)  # lexicographic comparison forks
        return f(*xs)
    return orig(*xs) if B.len(args) > 1 else orig(xs)


def s_minb(*a, **k):
    return _agg(a, k, sym.s_min, B.min)


def s_maxb(*a, **k):
    return _agg(a, k, sym.s_max, B.max)


def s_sum(xs, start=0):
    if is_symseq(xs):
        raise Unsupported("sum of a symbolic-length sequence")
    r = start
    for x in xs:
        r = r + x
    return r


def _sym_inst(x, orig):
    if B.isinstance(x, SymReal):
        return orig in (float, np.floating, np.float64) or orig.__name__ in ("Number", "Real", "Complex")
    if B.isinstance(x, SymInt):
        return orig in (int, np.integer) or orig.__name__ in ("Number", "Real", "Integral")
    if B.isinstance(x, SymBool):
        return orig in (bool, int, np.bool_)
    if orig is list and B.isinstance(x, SymList):
        return True
    return False


def c_float(x=0.0):
    if is_sym(x):
        return SymReal(rv(x))
    if B.isinstance(x, str) and sym._CTX[0] is not None:
        t = sym._CTX[0].untoken(x)
        if t is not None:
            return SymReal(rv(t))
        if symtime.has(x):
            return symtime.to_float(x)
    if B.isinstance(x, np.ndarray) and x.dtype == object:
        return c_float(x.reshape(-1)[0]) if x.size == 1 else B.float(x)
    return B.float(x)


def c_int(x=0, *a):
    if is_sym(x):
        if B.isinstance(x, SymBool):
            return x._r()
        return sym.s_trunc(x)
    if B.isinstance(x, str) and sym._CTX[0] is not None:
        t = sym._CTX[0].untoken(x)
        if t is not None:
            if B.isinstance(t, SymInt):
                return t
            raise ValueError("invalid literal for int()")
        if symtime.has(x):
            return symtime.to_int(x)
    if B.isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return c_int(x.reshape(-1)[0])
    return B.int(x, *a)


def c_str(x="", *a):
    return B.str(x, *a)


def c_bool(x=False):
    if B.isinstance(x, SymBool):
        return x
    if B.isinstance(x, (SymReal, SymInt)):
        return SymBool(bv(x))
    if is_symseq(x):
        return SymBool(x.sym_len().e > 0)
    return B.bool(x)


def c_list(*a):
    if a and is_symseq(a[0]):
        return a[0].copy() if hasattr(a[0], "copy") else a[0]
    return B.list(*a)




def s_isinstance(x, t):
    ts = t if B.isinstance(t, tuple) else (t,)
    for q in ts:
        o = getattr(q, "__orig__", q)
        if o is np.ndarray and B.isinstance(x, genpix.GenArray):
            return True
        try:
            if B.isinstance(x, o):
                return True
        except TypeError:
            return B.isinstance(x, t)
        if B.isinstance(o, type) and _sym_inst(x, o):
            return True
    return False


def s_issubclass(c, t):
    ts = t if B.isinstance(t, tuple) else (t,)
    return B.issubclass(getattr(c, "__orig__", c), tuple(getattr(q, "__orig__", q) for q in ts))


def s_round(x, n=None):
    if is_sym(x):
        return x.__round__(n)
    return B.round(x, n) if n is not None else B.round(x)


def s_pow(a, b, *m):
    if is_sym(a) or is_sym(b):
        return a ** b
    return B.pow(a, b, *m)


def s_sorted(xs, key=None, reverse=False):
    if is_symseq(xs):
        return xs.sorted_copy(key, reverse)
    return B.sorted(xs, key=key, reverse=reverse)


def s_enumerate(xs, start=0):
    if is_symseq(xs):
        from .symlist import SymZip
        return SymZip(SymRange(start, start + xs.sym_len()), xs)
    return B.enumerate(xs, start)


def s_zip(*xs, **k):
    if any(is_symseq(x) for x in xs):
        from .symlist import SymZip
        return SymZip(*xs)
    return B.zip(*xs, **k)


def s_reversed(xs):
    if is_symseq(xs):
        raise Unsupported("reversed symbolic sequence")
    return B.reversed(xs)


def s_all(xs):
    held = genpix.over_cells(xs)
    if held is not None:
        return B.bool(genpix.every(held))
    xs = list(xs) if not B.isinstance(xs, np.ndarray) else list(xs.reshape(-1))
    for x in xs:
        if not x:
            return False
    return True


def s_any(xs):
    held = genpix.over_cells(xs)
    if held is not None:
        return not B.bool(genpix.every([~x if is_sym(x) else not x for x in held]))
    xs = list(xs) if not B.isinstance(xs, np.ndarray) else list(xs.reshape(-1))
    for x in xs:
        if x:
            return True
    return False


def s_print(*a, **k):
    pass


# ---------------------------------------------------------------------- math
class SymMath(types.ModuleType):
    def __init__(self):
        super().__init__("math")
        for k in dir(math):
            setattr(self, k, getattr(math, k))
        self.pi = SymReal(sym.PI)

        def u(name, f):
            o = getattr(math, name)
            setattr(self, name, lambda x, _o=o, _f=f: _f(_one(x)) if is_sym(_one(x)) else _o(x))

        u("cos", sym.s_cos)
        u("sin", sym.s_sin)
        u("tan", sym.s_tan)
        u("sqrt", sym.s_sqrt)
        u("exp", sym.s_exp)
        u("log", sym.s_log)
        u("acos", sym.s_acos)
        u("asin", sym.s_asin)
        u("atan", sym.s_atan)
        u("floor", sym.s_floor_int)
        u("ceil", lambda x: -sym.s_floor_int(-x))
        u("trunc", sym.s_trunc)
        u("fabs", abs)
        self.degrees = lambda x: sym.s_degrees(_one(x))
        self.radians = lambda x: sym.s_radians(_one(x))
        self.isnan = lambda x: False if is_sym(x) else math.isnan(x)
        self.isfinite = lambda x: True if is_sym(x) else math.isfinite(x)
        self.isinf = lambda x: False if is_sym(x) else math.isinf(x)
        self.atan2 = lambda y, x: sym.s_atan2(_one(y), _one(x)) if anysym(y, x) else math.atan2(y, x)
        self.pow = lambda a, b: a ** b if anysym(a, b) else math.pow(a, b)
        self.hypot = lambda *a: sym.s_sqrt(s_sum([x * x for x in a])) if anysym(*a) else math.hypot(*a)
        self.copysign = lambda a, b: s_ite(b < 0, -abs(a), abs(a)) if anysym(a, b) else math.copysign(a, b)
        self.fmod = self._fmod

    def _fmod(self, a, b):
        if not anysym(a, b):
            return math.fmod(a, b)
        q = sym.s_trunc(sym.s_div(a, b))
        return a - b * q


def _one(x):
    if B.isinstance(x, np.ndarray) and x.size == 1:
        return x.reshape(-1)[0]
    return x


# --------------------------------------------------------------------- numpy
class SymArray(np.ndarray):
    """object ndarray whose elements may be symbolic numbers"""

    def __array_finalize__(self, obj):
        self.vtype = getattr(obj, "vtype", None)

    def astype(self, t, *a, **k):
        n = _dt(t)
        if n is None or n == "float":
            r = SA(np.array(self, dtype=object, copy=True))
            r.vtype = None
            return r
        if n == "object":
            return self.copy()
        if n.startswith("uint") or n.startswith("int"):
            r = SA(np.array(self, dtype=object, copy=True))
            f = r.reshape(-1)
            for i in range(f.size):
                x = f[i]
                f[i] = _cast_int(x, n)
            r.vtype = n
            return r
        if n == "bool":
            r = SA(np.array(self, dtype=object, copy=True))
            f = r.reshape(-1)
            for i in range(f.size):
                f[i] = c_bool(f[i])
            return r
        raise Unsupported("astype(%r)" % (t,))

    def __setitem__(self, k, v):
        m = _mask(k)
        if m is not None:
            flat_v = np.broadcast_to(np.asarray(v, dtype=object), self.shape) if not (isinstance(v, np.ndarray) and v.ndim and v.shape != self.shape) else None
            if flat_v is None:
                # compressed value: fork on every mask element
                idx = np.array([bool(x) for x in m.reshape(-1)], dtype=bool).reshape(m.shape)
                np.ndarray.__setitem__(self, idx, v)
                return
            it = np.ndindex(*m.shape)
            for ix in it:
                if is_sym(m[ix]) and sym.ctx().valid(~m[ix]):
                    continue
                if m.ndim == self.ndim:
                    cur = np.ndarray.__getitem__(self, ix)
                    np.ndarray.__setitem__(self, ix, s_ite(m[ix], flat_v[ix], cur))
                else:
                    for jx in np.ndindex(*self.shape[m.ndim:]):
                        cur = np.ndarray.__getitem__(self, ix + jx)
                        np.ndarray.__setitem__(self, ix + jx, s_ite(m[ix], flat_v[ix + jx], cur))
            return
        np.ndarray.__setitem__(self, _ix(k), v)

    def __getitem__(self, k):
        m = _mask(k)
        if m is not None:
            # fork on every mask element
            idx = np.array([bool(x) for x in m.reshape(-1)], dtype=bool).reshape(m.shape)
            return np.ndarray.__getitem__(self, idx)
        return np.ndarray.__getitem__(self, _ix(k))

    def _cmp(self, o, uf, name):
        if anysym(self, o):
            return _wrap(uf(np.asarray(self), o, dtype=object))
        return getattr(np.ndarray, name)(self, o)

    def __lt__(self, o):
        return self._cmp(o, np.less, "__lt__")

    def __le__(self, o):
        return self._cmp(o, np.less_equal, "__le__")

    def __gt__(self, o):
        return self._cmp(o, np.greater, "__gt__")

    def __ge__(self, o):
        return self._cmp(o, np.greater_equal, "__ge__")

    def __eq__(self, o):
        return self._cmp(o, np.equal, "__eq__") if B.isinstance(o, np.ndarray) or is_sym(o) or B.isinstance(o, (int, float, np.number)) else np.ndarray.__eq__(self, o)

    def __ne__(self, o):
        return self._cmp(o, np.not_equal, "__ne__") if B.isinstance(o, np.ndarray) or is_sym(o) or B.isinstance(o, (int, float, np.number)) else np.ndarray.__ne__(self, o)

    __hash__ = None

    def mean(self, axis=None, **k):
        return SN.mean(self, axis=axis, **k)

    def std(self, axis=None, **k):
        return SN.std(self, axis=axis, **k)

    def var(self, axis=None, **k):
        return SN.var(self, axis=axis, **k)

    def max(self, axis=None, **k):
        return SN.max(self, axis=axis)

    def min(self, axis=None, **k):
        return SN.min(self, axis=axis)

    def clip(self, a=None, b=None, **k):
        return SN.clip(self, a, b)

    def any(self, axis=None, **k):
        return SN.any(self)

    def all(self, axis=None, **k):
        return SN.all(self)

    def round(self, n=0):
        return SN.round(self, n)

    def tobytes(self, *a, **k):
        raise Unsupported("tobytes of a symbolic array")


class SymMatrix(SymArray):
    """numpy.matrix: * is the matrix product"""

    __array_priority__ = 10.0

    def __mul__(self, o):
        if B.isinstance(o, (np.ndarray, list, tuple)) and np.ndim(o):
            return np.matmul(np.asarray(self, dtype=object).view(SymArray), np.asarray(o, dtype=object)).view(SymMatrix)
        return (np.asarray(self, dtype=object) * o).view(SymMatrix)

    def __rmul__(self, o):
        if B.isinstance(o, (np.ndarray, list, tuple)) and np.ndim(o):
            return np.matmul(np.asarray(o, dtype=object), np.asarray(self, dtype=object)).view(SymMatrix)
        return (o * np.asarray(self, dtype=object)).view(SymMatrix)

    def astype(self, t, *a, **k):
        return SymArray.astype(self, t, *a, **k).view(SymMatrix)

    @property
    def I(self):
        return SN.linalg.inv(self).view(SymMatrix)

    def flatten(self, *a):
        return np.asarray(self, dtype=object).flatten(*a).reshape(1, -1).view(SymMatrix)

    ravel = flatten


_RANGE = {"uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64}


def _cast_int(x, n):
    if not is_sym(x):
        return int(np.array(x).astype(n))
    t = sym.s_trunc(x) if not B.isinstance(x, SymBool) else x._r()
    if n in _RANGE:
        w = _RANGE[n]
        c = sym.const_of(t.e)
        inr = z3.And(t.e >= 0, t.e < 2 ** w)
        # wrap-around modelled only when it can happen
        if sym._CTX[0] is not None and sym._CTX[0].valid(SymBool(inr)):
            return t
        return SymInt(t.e % (2 ** w))
    return t


def _dt(t):
    if t is None:
        return None
    t = getattr(t, "__orig__", t)
    try:
        d = np.dtype(t)
    except TypeError:
        return str(t)
    if d == object:
        return "object"
    if d.kind == "f":
        return "float"
    if d.kind == "b":
        return "bool"
    return d.name


def _mask(k):
    if B.isinstance(k, np.ndarray) and k.dtype == object and k.size and B.isinstance(k.reshape(-1)[0], (SymBool, bool, np.bool_)):
        return k
    return None


def _ix(k):
    def one(x):
        if B.isinstance(x, SymInt):
            return sym.ctx().concretise(x)
        if B.isinstance(x, slice):
            return slice(*[one(y) if y is not None else None for y in (x.start, x.stop, x.step)])
        if B.isinstance(x, np.ndarray) and x.dtype == object:
            f = [one(y) for y in x.reshape(-1)]
            if all(B.isinstance(y, (bool, np.bool_)) for y in f):
                return np.array(f, dtype=bool).reshape(x.shape)
            return np.array(f, dtype=int).reshape(x.shape)
        return x

    if B.isinstance(k, tuple):
        return tuple(one(x) for x in k)
    return one(k)


def SA(x):
    if B.isinstance(x, SymArray):
        return x
    return np.asarray(x, dtype=object).view(SymArray)


def _wrap(r):
    if B.isinstance(r, np.ndarray) and r.dtype == object and not B.isinstance(r, SymArray):
        return r.view(SymArray)
    return r


class SeqArray:
    """numpy array made of a list of any length: only handed on"""

    def __init__(self, seq):
        self.seq = seq

    def _no(self, *a, **k):
        raise Unsupported("an array of any length is used")

    __getattr__ = __getitem__ = __len__ = __iter__ = __bool__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __lt__ = __gt__ = _no


class _NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        self.__dict__["_real"] = np
        self.pi = SymReal(sym.PI)
        self.ndarray = np.ndarray
        self.linalg = _Linalg()
        for n, f in {
            "cos": sym.s_cos, "sin": sym.s_sin, "tan": sym.s_tan, "sqrt": sym.s_sqrt, "exp": sym.s_exp,
            "log": sym.s_log, "arccos": sym.s_acos, "arcsin": sym.s_asin, "arctan": sym.s_atan,
            "floor": sym.s_floor, "ceil": sym.s_ceil, "rint": sym.s_round, "abs": abs, "absolute": abs, "fabs": abs,
            "degrees": sym.s_degrees, "rad2deg": sym.s_degrees, "radians": sym.s_radians, "deg2rad": sym.s_radians,
            "square": lambda x: x * x, "isnan": lambda x: np.False_, "isfinite": lambda x: np.True_, "isinf": lambda x: np.False_,
            "sign": lambda x: s_ite(x > 0, 1.0, s_ite(x < 0, -1.0, 0.0)),
        }.items():
            setattr(self, n, self._u(n, f))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        o = getattr(np, n)
        if callable(o) and not B.isinstance(o, type) and not B.isinstance(o, types.ModuleType):
            def f(*a, **k):
                if genpix.has_gen(*a, *k.values()):
                    raise Unsupported("numpy.%s of an array of any size" % n)
                if "dtype" in k:
                    k = dict(k)
                    k["dtype"] = getattr(k["dtype"], "__orig__", k["dtype"])
                try:
                    return _wrap(o(*a, **k))
                except (TypeError, AttributeError) as e:
                    if anysym(*a, *k.values()):
                        raise Unsupported("numpy.%s on symbolic data: %s" % (n, e))
                    raise
            f.__name__ = n
            return f
        return o

    def _u(self, n, f):
        o = getattr(np, n)

        def g(x, *a, **k):
            if is_sym(x):
                return f(x)
            if B.isinstance(x, np.ndarray) and x.dtype == object or (B.isinstance(x, (list, tuple)) and anysym(x)):
                arr = SA(np.array(x, dtype=object, copy=True))
                fl = arr.reshape(-1)
                for i in range(fl.size):
                    fl[i] = f(fl[i]) if is_sym(fl[i]) else o(fl[i])
                if n.startswith("is"):
                    return arr.astype("O") if False else np.array([bool(v) for v in fl]).reshape(arr.shape)
                return arr
            return o(x, *a, **k)

        return g

    # creation: object arrays, so that symbolic values can be stored
    def _mk(self, shape, val, dtype=None):
        shape = tuple(int(s) for s in shape) if B.isinstance(shape, (tuple, list)) else (int(shape),)
        n = _dt(dtype)
        a = np.empty(shape, dtype=object).view(SymArray)
        a[...] = val
        return a

    def zeros(self, shape, dtype=None, **k):
        n = _dt(dtype)
        return self._mk(shape, 0 if n and n not in ("float", "object") else 0.0, dtype)

    def ones(self, shape, dtype=None, **k):
        return self._mk(shape, 1.0, dtype)

    def empty(self, shape, dtype=None, **k):
        return self._mk(shape, 0.0, dtype)

    def full(self, shape, v, dtype=None, **k):
        return self._mk(shape, v, dtype)

    def zeros_like(self, a, dtype=None, **k):
        return self._mk(np.shape(a), 0.0)

    def ones_like(self, a, dtype=None, **k):
        return self._mk(np.shape(a), 1.0)

    def empty_like(self, a, dtype=None, **k):
        return self._mk(np.shape(a), 0.0)

    def full_like(self, a, v, dtype=None, **k):
        return self._mk(np.shape(a), v)

    def eye(self, n, m=None, **k):
        a = self._mk((n, m or n), 0.0)
        for i in range(min(n, m or n)):
            a[i, i] = 1.0
        return a

    def identity(self, n, **k):
        return self.eye(n)

    def array(self, x, dtype=None, copy=True, **k):
        if is_symseq(x):
            return SeqArray(x)
        if anysym(x) or (B.isinstance(x, np.ndarray) and x.dtype == object):
            r = SA(np.array(x, dtype=object))
            if r.ndim and r.size and any(B.isinstance(v, np.ndarray) for v in r.reshape(-1)):
                r = SA(np.array([[_one(v) for v in row] if B.isinstance(row, (list, tuple, np.ndarray)) else _one(row) for row in x], dtype=object))
            if dtype is not None:
                return r.astype(dtype)
            return r
        r = np.array(x, dtype=getattr(dtype, "__orig__", dtype), **k)
        if r.dtype.kind in "f":
            return SA(r.astype(object))
        if r.dtype.kind in "iub" and k.get("keep") is None and r.dtype.kind == "i" and r.ndim >= 1 and dtype is None:
            return SA(r.astype(object))
        return r

    def asarray(self, x, dtype=None, **k):
        if B.isinstance(x, SymArray) and dtype is None:
            return x
        return self.array(x, dtype=dtype)

    def mat(self, x, dtype=None, **k):
        a = np.asarray(x, dtype=object)
        if a.ndim == 1:
            a = a.reshape(1, -1)
        return a.view(SymMatrix)

    asmatrix = mat

    def matrix(self, x, dtype=None, copy=True):
        return self.mat(np.array(x, dtype=object, copy=True))

    asanyarray = asarray
    ascontiguousarray = asarray

    def copy(self, x, **k):
        return _wrap(np.array(x, copy=True))

    # reductions
    def _red(self, x, axis, f):
        a = np.asarray(x, dtype=object)
        if axis is None:
            return f(list(a.reshape(-1)))
        r = np.apply_along_axis if False else None
        if B.isinstance(axis, tuple):
            ax = sorted([v % a.ndim for v in axis])
            rest = [i for i in range(a.ndim) if i not in ax]
            b = a.transpose(rest + ax).reshape([a.shape[i] for i in rest] + [-1])
            axis = b.ndim - 1
            a = b
        axis = axis % a.ndim
        b = np.moveaxis(a, axis, -1)
        out = np.empty(b.shape[:-1], dtype=object)
        for ix in np.ndindex(*out.shape):
            out[ix] = f(list(b[ix]))
        return out.view(SymArray) if out.ndim else out[()]

    def _isobj(self, x):
        return anysym(x) or (B.isinstance(x, np.ndarray) and x.dtype == object)

    def sum(self, x, axis=None, **k):
        if not self._isobj(x):
            return np.sum(x, axis=axis, **k)
        return self._red(x, axis, lambda v: s_sum(v))

    def mean(self, x, axis=None, **k):
        if not self._isobj(x):
            return np.mean(x, axis=axis, **k)
        return self._red(x, axis, lambda v: s_sum(v) / B.len(v) if v else float("nan"))

    average = mean

    def var(self, x, axis=None, ddof=0, **k):
        if not self._isobj(x):
            return np.var(x, axis=axis, ddof=ddof, **k)

        def f(v):
            m = s_sum(v) / B.len(v)
            return s_sum([(q - m) * (q - m) for q in v]) / (B.len(v) - ddof)

        return self._red(x, axis, f)

    def std(self, x, axis=None, ddof=0, **k):
        if not self._isobj(x):
            return np.std(x, axis=axis, ddof=ddof, **k)

        def f(v):
            m = s_sum(v) / B.len(v)
            q = s_sum([(q - m) * (q - m) for q in v]) / (B.len(v) - ddof)
            return sym.s_sqrt(q) if is_sym(q) else math.sqrt(q)

        return self._red(x, axis, f)

    def max(self, x, axis=None, **k):
        if not self._isobj(x):
            return np.max(x, axis=axis, **k)
        return self._red(x, axis, lambda v: s_maxb(v))

    def min(self, x, axis=None, **k):
        if not self._isobj(x):
            return np.min(x, axis=axis, **k)
        return self._red(x, axis, lambda v: s_minb(v))

    amax = max
    amin = min
    nanmax = max
    nanmin = min
    nanmean = mean
    nanstd = std

    def any(self, x, axis=None, **k):
        a = np.asarray(x)
        if a.dtype != object:
            return np.any(x, axis=axis, **k)
        return SymBool(z3.Or(*[bv(v) for v in a.reshape(-1)]))

    def all(self, x, axis=None, **k):
        a = np.asarray(x)
        if a.dtype != object:
            return np.all(x, axis=axis, **k)
        return SymBool(z3.And(*[bv(v) for v in a.reshape(-1)]))

    def where(self, c, *ab):
        if not ab:
            a = np.asarray(c)
            if a.dtype == object:
                a = np.array([bool(v) for v in a.reshape(-1)]).reshape(a.shape)
            return np.where(a)
        a, b = ab
        if anysym(c, a, b) or self._isobj(c):
            cc, aa, bb = np.broadcast_arrays(np.asarray(c, dtype=object), np.asarray(a, dtype=object), np.asarray(b, dtype=object))
            out = np.empty(cc.shape, dtype=object)
            for ix in np.ndindex(*cc.shape):
                out[ix] = s_ite(cc[ix], aa[ix], bb[ix])
            return out.view(SymArray) if out.ndim else out[()]
        return np.where(c, a, b)

    def _bc2(self, f, a, b):
        if is_sym(a) and not B.isinstance(b, np.ndarray) or is_sym(b) and not B.isinstance(a, np.ndarray):
            return f(a, b)
        aa, bb = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        out = np.empty(aa.shape, dtype=object)
        for ix in np.ndindex(*aa.shape):
            out[ix] = f(aa[ix], bb[ix])
        return out.view(SymArray) if out.ndim else out[()]

    def maximum(self, a, b, **k):
        if not anysym(a, b):
            return np.maximum(a, b)
        return self._bc2(lambda x, y: sym.s_max(x, y), a, b)

    def minimum(self, a, b, **k):
        if not anysym(a, b):
            return np.minimum(a, b)
        return self._bc2(lambda x, y: sym.s_min(x, y), a, b)

    fmax = maximum
    fmin = minimum

    def clip(self, x, lo=None, hi=None, out=None, **k):
        if not self._isobj(x) and not anysym(lo, hi):
            return np.clip(x, lo, hi, out=out)
        r = x
        if lo is not None:
            r = self.maximum(r, lo) if anysym(r, lo) else SA(np.maximum(np.asarray(r, dtype=float), lo).astype(object))
        if hi is not None:
            r = self.minimum(r, hi) if anysym(r, hi) else SA(np.minimum(np.asarray(r, dtype=float), hi).astype(object))
        if out is not None:
            out[...] = r
            return out
        return r

    def round(self, x, n=0, **k):
        if not self._isobj(x):
            return np.round(x, n)
        if is_sym(x):
            return s_round(x, n) if n else sym.s_round(x)
        a = SA(np.array(x, dtype=object, copy=True))
        f = a.reshape(-1)
        for i in range(f.size):
            f[i] = sym.s_round(f[i] * 10 ** n) / 10 ** n if n else sym.s_round(f[i])
        return a

    around = round

    def arctan2(self, y, x):
        if not anysym(y, x):
            return np.arctan2(y, x)
        return self._bc2(lambda a, b: sym.s_atan2(a, b) if anysym(a, b) else math.atan2(a, b), y, x)

    def hypot(self, y, x):
        if not anysym(y, x):
            return np.hypot(y, x)
        return self._bc2(lambda a, b: sym.s_sqrt(a * a + b * b), y, x)

    def power(self, a, b):
        if not anysym(a, b):
            return np.power(a, b)
        return self._bc2(lambda x, y: x ** y, a, b)

    def _bcf(self, f, a, b):
        return self._bc2(f, a, b)

    def add(self, a, b, **k):
        return self._bc2(lambda x, y: x + y, a, b) if anysym(a, b) else np.add(a, b)

    def subtract(self, a, b, **k):
        return self._bc2(lambda x, y: x - y, a, b) if anysym(a, b) else np.subtract(a, b)

    def multiply(self, a, b, **k):
        return self._bc2(lambda x, y: x * y, a, b) if anysym(a, b) else np.multiply(a, b)

    def divide(self, a, b, **k):
        return self._bc2(lambda x, y: x / y, a, b) if anysym(a, b) else np.divide(a, b)

    true_divide = divide

    def mod(self, a, b):
        return self._bc2(lambda x, y: x % y, a, b) if anysym(a, b) else np.mod(a, b)

    remainder = mod

    def logical_and(self, a, b):
        return self._bc2(lambda x, y: SymBool(z3.And(bv(x), bv(y))), a, b) if anysym(a, b) else np.logical_and(a, b)

    def logical_or(self, a, b):
        return self._bc2(lambda x, y: SymBool(z3.Or(bv(x), bv(y))), a, b) if anysym(a, b) else np.logical_or(a, b)

    def logical_not(self, a):
        if not anysym(a):
            return np.logical_not(a)
        return self._bc2(lambda x, y: SymBool(z3.Not(bv(x))), a, 0)

    def cross(self, a, b, **k):
        if not anysym(a, b):
            return np.cross(np.asarray(a, dtype=float), np.asarray(b, dtype=float), **k)
        a = list(np.asarray(a, dtype=object).reshape(-1))
        b = list(np.asarray(b, dtype=object).reshape(-1))
        if B.len(a) != 3:
            raise Unsupported("cross of non 3-vectors")
        return SA(np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=object))

    def dot(self, a, b, **k):
        return _wrap(np.dot(np.asarray(a, dtype=object) if self._isobj(a) or self._isobj(b) else a, np.asarray(b, dtype=object) if self._isobj(a) or self._isobj(b) else b))

    def matmul(self, a, b, **k):
        return self.dot(a, b)

    def inner(self, a, b):
        return self.dot(a, b)

    def allclose(self, a, b, **k):
        if anysym(a, b):
            raise Unsupported("allclose on symbolic data")
        return np.allclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), **k)

    def interp(self, x, xp, fp, **k):
        if not anysym(x, xp, fp):
            return np.interp(x, xp, fp, **k)
        raise Unsupported("np.interp on symbolic data")

    def errstate(self, **k):
        return np.errstate(**k)


def inv_small(M):
    n = M.shape[0]
    if n == 1:
        return SA(np.array([[1.0 / M[0, 0] if not is_sym(M[0, 0]) else sym.s_div(1, M[0, 0])]], dtype=object))

    def det(A):
        if A.shape[0] == 1:
            return A[0, 0]
        if A.shape[0] == 2:
            return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
        r = 0
        for j in range(A.shape[0]):
            if not is_sym(A[0, j]) and A[0, j] == 0:
                continue
            r = r + (-1) ** j * A[0, j] * det(np.delete(np.delete(A, 0, 0), j, 1))
        return r

    d = det(M)
    if is_sym(d):
        if sym.ctx().decide(rv(d) == 0):
            raise np.linalg.LinAlgError("Singular matrix")
    elif d == 0:
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            c = det(np.delete(np.delete(M, i, 0), j, 1)) * (-1) ** (i + j)
            out[j, i] = c / d
    return out.view(SymArray)


class _Linalg(types.ModuleType):
    def __init__(self):
        super().__init__("numpy.linalg")
        self.LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        o = getattr(np.linalg, n)

        def f(*a, **k):
            if any(anysym(x) for x in a):
                raise Unsupported("numpy.linalg.%s on symbolic data" % n)
            a = [np.asarray(x, dtype=float) if B.isinstance(x, np.ndarray) and x.dtype == object else x for x in a]
            return o(*a, **k)

        return f

    def inv(self, M):
        M = np.asarray(M)
        if not anysym(M):
            return SA(np.linalg.inv(np.asarray(M, dtype=float)).astype(object))
        h = sym.ctx().scratch.get("linalg_inv")
        if h is not None:
            return h(M)
        if M.shape[0] <= 3:
            return inv_small(M)
        raise Unsupported("symbolic inverse of a %dx%d matrix" % M.shape)

    def solve(self, A, b):
        if not anysym(A, b):
            return np.linalg.solve(np.asarray(A, dtype=float), np.asarray(b, dtype=float))
        return SN.dot(self.inv(A), b)

    def norm(self, x, ord=None, axis=None, **k):
        if not anysym(x):
            return np.linalg.norm(np.asarray(x, dtype=float), ord, axis, **k)
        if ord not in (None, 2):
            raise Unsupported("norm ord")

        def f(v):
            q = s_sum([z * z for z in v])
            return sym.s_sqrt(q) if is_sym(q) else math.sqrt(q)

        return SN._red(x, axis, f)

    def det(self, M):
        if not anysym(M):
            return np.linalg.det(np.asarray(M, dtype=float))
        M = np.asarray(M, dtype=object)
        if M.shape[0] == 2:
            return M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
        if M.shape[0] == 3:
            return (
                M[0, 0] * (M[1, 1] * M[2, 2] - M[1, 2] * M[2, 1])
                - M[0, 1] * (M[1, 0] * M[2, 2] - M[1, 2] * M[2, 0])
                + M[0, 2] * (M[1, 0] * M[2, 1] - M[1, 1] * M[2, 0])
            )
        raise Unsupported("det")


SN = _NumpyShim()
genpix.install(SN)
SM = SymMath()


class _Numba(types.ModuleType):
    """njit and friends as identity decorators: the verified text is the Python
    source of the function (assumption A-NUMBA: numba implements it)."""

    def __init__(self):
        super().__init__("numba")
        self.prange = s_range

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        import numba

        if n in ("njit", "jit", "vectorize"):
            def deco(*a, **k):
                if B.len(a) == 1 and callable(a[0]) and not k:
                    return a[0]
                return lambda f: f
            return deco
        return getattr(numba, n)


NUMBA = _Numba()

class SymSet(list):
    """a set of (partly symbolic) numbers: equality decided per pair"""

    def __init__(self, it=()):
        super().__init__()
        for x in it:
            self.add(x)

    def add(self, x):
        if not any(x == y for y in self):
            self.append(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def __contains__(self, x):
        return any(x == y for y in list(self))

    def __or__(self, o):
        r = SymSet(self)
        r.update(o)
        return r


def c_set(*a):
    items = list(a[0]) if a else []
    if any(sym.is_sym(x) for x in items):
        return SymSet(items)
    return set(items)


BUILTINS = dict(B.__dict__)
BUILTINS.update(
    len=s_len, range=s_range, abs=s_abs, min=s_minb, max=s_maxb, sum=s_sum,
    _vc_float=c_float, _vc_int=c_int, _vc_bool=c_bool, _vc_list=c_list, _vc_set=c_set, isinstance=s_isinstance, issubclass=s_issubclass, round=s_round, pow=s_pow, sorted=s_sorted,
    enumerate=s_enumerate, zip=s_zip, all=s_all, any=s_any, print=s_print,
)

class _Json:
    """json with symbolic numbers: printed as faithful text tokens"""

    import json as _j

    def __getattr__(self, n):
        return getattr(self._j, n)

    @staticmethod
    def _plain(x):
        if sym.is_sym(x):
            return B.str(x)
        if is_symseq(x):  # a list of any length: the file holds it as it is now
            from .symlist import frozen

            fs = sym.ctx().scratch.setdefault("files", [])
            fs.append((x, frozen(x)))
            return "@@list%d" % (len(fs) - 1)
        if B.isinstance(x, dict):
            return {k: _Json._plain(v) for k, v in x.items()}
        if B.isinstance(x, (list, tuple)):
            return [_Json._plain(v) for v in x]
        return x

    @staticmethod
    def _back(x):
        if B.isinstance(x, str) and x.startswith("@@list") and sym._CTX[0] is not None:
            from .symlist import frozen

            q, was = sym._CTX[0].scratch["files"][int(x[6:])]
            if frozen(q) != was:
                raise sym.Unsupported("a list of symbolic length changed after it was written")
            return q
        if B.isinstance(x, str):
            t = sym._CTX[0].untoken(x) if sym._CTX[0] is not None and x.startswith("@") else None
            return x if t is None else t
        if B.isinstance(x, dict):
            return {k: _Json._back(v) for k, v in x.items()}
        if B.isinstance(x, list):
            return [_Json._back(v) for v in x]
        return x

    def dump(self, x, f, **k):
        return self._j.dump(self._plain(x), f, **k)

    def dumps(self, x, **k):
        return self._j.dumps(self._plain(x), **k)

    def load(self, f, **k):
        return self._back(self._j.load(f, **k))

    def loads(self, s, **k):
        return self._back(self._j.loads(s, **k))


SJ = _Json()
from . import symtime

REPLACED = {"numpy": SN, "math": SM, "numba": NUMBA, "cmath": None, "json": SJ, "datetime": symtime.DATETIME, "time": symtime.TIME, "calendar": symtime.CAL}


def s_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if name in ("numpy", "math", "numba", "json", "datetime", "time", "calendar"):
            return REPLACED[name]
        if name.startswith("numpy."):
            if fromlist:
                o = SN
                for p in name.split(".")[1:]:
                    o = getattr(o, p)
                return o
            return SN
    return B.__import__(name, globals, locals, fromlist, level)


BUILTINS["__import__"] = s_import
