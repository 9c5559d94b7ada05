"""Arrays of any size, seen at one arbitrary cell.

A GenArray stands for a numpy array whose generic axes have any length. It holds the
values at ONE arbitrary index of those axes (the same index for every array that has
the axis); the other axes (channels, parameters) are held in full. Pointwise
operations act on the held values; a boolean mask selects (or not) the held cell.
Every operation that would combine different cells of a generic axis (reductions,
shifts, partial slices, iteration, ...) is Unsupported: it ends the proof as out of
reach, it is never approximated. What is proved about the held cell is proved about
every cell, since the index is arbitrary.

axes: per axis of the array () for an ordinary axis, or the tuple of the atomic
generic axes it runs over (two for a flattened height x width), with the number of
channels behind them where those are flattened too."""
import numpy as np

from . import sym
from .sym import SymInt, SymBool, SymReal, Unsupported, iv, z3, s_ite, is_sym

_DIMS = {}


def dim(name):
    """the length of a generic axis: any integer greater than one"""
    c = sym.ctx()
    d = c.scratch.setdefault("gen-dims", {})
    if name not in d:
        d[name] = c.int("size_" + name, lo=2)
    return d[name]


def _len(axis, size):
    if not axis:
        return size
    e = dim(axis[0]).e if isinstance(axis[0], str) else z3.IntVal(axis[0])
    for a in axis[1:]:
        e = e * (dim(a).e if isinstance(a, str) else a)
    return SymInt(z3.simplify(e))


def pos(axis):
    """where the held cell lies on a generic axis"""
    c = sym.ctx()
    if not all(isinstance(a, str) for a in axis):
        raise Unsupported("index into an axis over cells and channels")
    d = c.scratch.setdefault("gen-pos", {})
    for a in axis:
        if a not in d:
            d[a] = c.int("pos_" + a, lo=0)
            c.assume(d[a] < dim(a))
    if len(axis) == 1:
        return d[axis[0]]
    if axis not in d:
        # position in the flattened axis: some number within its length (row major)
        p = d[axis] = SymInt(z3.Int("pos_" + "_".join(axis)))
        c.assume(p >= 0)
        c.assume(p < _len(axis, 1))
        e = d[axis[0]].e
        for a in axis[1:]:
            e = e * dim(a).e + d[a].e
        c.assume(SymBool(p.e == e))
    return d[axis]


def _same(a, b):
    return z3.simplify(iv(a) - iv(b)).eq(z3.IntVal(0)) if not (isinstance(a, int) and isinstance(b, int)) else a == b


def has_gen(*xs):
    for x in xs:
        if isinstance(x, (GenArray, Picked)):
            return True
        if isinstance(x, (list, tuple)) and has_gen(*x):
            return True
    return False


def gen_shape(shape):
    if isinstance(shape, SymInt):
        return True
    return isinstance(shape, (list, tuple)) and any(isinstance(s, SymInt) for s in shape)


class Picked:
    """the cells of an array that a mask selects"""

    def __init__(self, arr, mask):
        self.arr, self.mask = arr, mask

    def _no(self, *a, **k):
        raise Unsupported("masked cells of an array of any size used as an array")

    __getattr__ = _no
    __iter__ = __len__ = __getitem__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __lt__ = __gt__ = __bool__ = _no


class GenArray:
    __array_priority__ = 1000.0
    __array_ufunc__ = None
    turned = False  # a transposed array flattens to a copy, not a view: out of reach

    def __init__(self, v, axes, vtype=None):
        from .shims import SA

        self.v, self.axes, self.vtype = SA(v), tuple(axes), vtype
        assert self.v.ndim == len(self.axes)

    # ---------------------------------------------------------------- shape
    @property
    def shape(self):
        return tuple(_len(a, s) for a, s in zip(self.axes, self.v.shape))

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = s * r
        return r

    @property
    def dtype(self):
        return np.dtype(self.vtype or "float32")

    @property
    def T(self):
        return self.transpose()

    def sym_len(self):
        return self.shape[0]

    def __len__(self):
        if self.axes[0]:
            raise Unsupported("len of an array of any size")
        return self.v.shape[0]

    def transpose(self, *p):
        p = p[0] if len(p) == 1 and isinstance(p[0], (tuple, list)) else p
        p = tuple(p) if p else tuple(reversed(range(self.ndim)))
        r = GenArray(self.v.transpose(p), [self.axes[i] for i in p], self.vtype)
        r.turned = self.turned or p != tuple(range(self.ndim))
        return r

    def copy(self, *a, **k):
        return GenArray(self.v.copy(), self.axes, self.vtype)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def squeeze(self, axis=None):
        keep = [i for i in range(self.ndim) if self.axes[i] or self.v.shape[i] != 1]
        if axis is not None:
            ax = [a % self.ndim for a in (axis if isinstance(axis, (list, tuple)) else [axis])]
            if any(i in keep for i in ax):
                raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
            keep = [i for i in range(self.ndim) if i not in ax]
        return GenArray(self.v.reshape([self.v.shape[i] for i in keep]), [self.axes[i] for i in keep], self.vtype)

    def ravel(self, *a):
        return self.reshape(-1)

    def flatten(self, *a):
        return self.copy().reshape(-1)

    def reshape(self, *shape):
        if self.turned:
            raise Unsupported("reshape of a transposed array of any size")
        shape = shape[0] if len(shape) == 1 and isinstance(shape[0], (list, tuple)) else shape
        shape = [int(s) if isinstance(s, (int, np.integer)) else s for s in shape]
        # the old axes as a sequence of atoms: generic names and ordinary sizes
        atoms = []
        for a, s in zip(self.axes, self.v.shape):
            atoms += list(a) if a else ([s] if s != 1 else [])
        axes, sizes = [], []
        for i, s in enumerate(shape):
            take = []
            if isinstance(s, int) and s == -1:
                tail = shape[i + 1:]
                if tail and any(x == -1 for x in tail if isinstance(x, int)):
                    raise ValueError("can only specify one unknown dimension")
                n = len(atoms)
                # the atoms of the axes behind it stay
                m = 0
                for x in reversed(tail):
                    if isinstance(x, int) and x == 1:
                        continue
                    m += 1
                take, atoms = atoms[: n - m], atoms[n - m :]
            elif not (isinstance(s, int) and s == 1):
                while atoms:
                    take.append(atoms.pop(0))
                    p = SymInt(z3.IntVal(1))
                    for t in take:
                        p = p * (dim(t) if isinstance(t, str) else t)
                    if _same(p, s):
                        break
                else:
                    raise Unsupported("reshape of an array of any size")
            names = [t for t in take if isinstance(t, str)]
            axes.append(tuple(take) if names else ())
            n = 1
            for t in take:
                n *= 1 if isinstance(t, str) else t
            sizes.append(n)
        if atoms:
            raise Unsupported("reshape of an array of any size")
        return GenArray(self.v.reshape(sizes), axes, self.vtype)

    def astype(self, t, *a, **k):
        from .shims import _dt

        n = _dt(t)
        return GenArray(self.v.astype(t).reshape(self.v.shape), self.axes, n if n and n not in ("float", "object") else None)

    # ---------------------------------------------------------------- cells
    def at(self, *ix):
        """the held value (of the given channel, ...)"""
        k, j = [], 0
        for a in self.axes:
            if a and all(isinstance(x, str) for x in a):
                k.append(0)
            else:
                k.append(ix[j])
                j += 1
        return self.v[tuple(k)]

    def _key(self, k):
        """-> (index into v, axes of the result, another cell than the held one?)"""
        miss = False
        k = k if isinstance(k, tuple) else (k,)
        if any(x is Ellipsis for x in k):
            i = [x is Ellipsis for x in k].index(True)
            k = k[:i] + (slice(None),) * (self.ndim - (len(k) - 1)) + k[i + 1 :]
        out, axes, n = [], [], 0
        for x in k:
            if x is None:
                out.append(None)
                axes.append(())
                continue
            if n >= self.ndim:
                raise IndexError("too many indices for array")
            a = self.axes[n]
            if a:
                full = isinstance(x, slice) and x.start in (None, 0) and x.step in (None, 1) and (x.stop is None or isinstance(x.stop, SymInt) and _same(x.stop, _len(a, 1)))
                if full:
                    out.append(slice(None))
                    axes.append(a)
                elif isinstance(x, SymInt):
                    c, n_ = sym.ctx(), _len(a, 1)
                    if c.decide(x.e < 0):
                        raise Unsupported("negative index on a generic axis")
                    if c.decide(x.e >= n_.e):
                        raise IndexError("index is out of bounds")
                    if not c.decide(x.e == pos(a).e):
                        miss = True
                    out.append(0)
                else:
                    raise Unsupported("part of a generic axis is used")
            else:
                if isinstance(x, SymInt):
                    x = sym.ctx().concretise(x)
                if not isinstance(x, (slice, int, np.integer)):
                    raise Unsupported("index of an array of any size")
                out.append(x)
                if isinstance(x, slice):
                    axes.append(())
            n += 1
        return tuple(out), axes + list(self.axes[n:]), miss

    def __getitem__(self, k):
        if isinstance(k, GenArray):
            if k.axes != self.axes:
                raise Unsupported("mask of another shape")
            return Picked(self, k)
        k, axes, miss = self._key(k)
        r = self.v[k]
        if miss:
            # another cell: nothing is known of it
            from .shims import SA

            r = np.array(r, dtype=object)
            for ix in np.ndindex(*r.shape):
                r[ix] = sym.ctx().fresh_real("othercell")
            r = SA(r) if r.ndim else r[()]
        return GenArray(r, axes, self.vtype) if any(axes) else r

    def __setitem__(self, k, x):
        if isinstance(k, GenArray):
            if k.axes != self.axes[: len(k.axes)] or k.v.shape != self.v.shape[: k.v.ndim]:
                raise Unsupported("mask of another shape")
            if isinstance(x, Picked):
                if x.mask.axes != k.axes or not _equal_masks(x.mask, k):
                    raise Unsupported("cells of another mask are assigned")
                x = x.arr
            if isinstance(x, GenArray):
                if x.axes != self.axes:
                    raise Unsupported("array of another shape under a mask")
                x = x.v
            elif isinstance(x, np.ndarray) and x.ndim:
                raise Unsupported("array under a mask")
            for ix in np.ndindex(*self.v.shape):
                new = x[ix] if isinstance(x, np.ndarray) else x
                m = k.v[ix[: k.v.ndim]]
                self.v[ix] = s_ite(m, new, self.v[ix]) if is_sym(m) else (new if m else self.v[ix])
            return
        k, axes, miss = self._key(k)
        if isinstance(x, Picked):
            raise Unsupported("masked cells assigned to whole axes")
        if miss:
            return
        cur = GenArray(self.v[k], axes) if axes else None
        if isinstance(x, GenArray):
            if cur is None:
                raise Unsupported("array assigned to a cell")
            x = _align(x, axes)
        elif isinstance(x, np.ndarray) and x.ndim:
            _plain_ok(x, axes)
        self.v[k] = x

    def __iter__(self):
        if self.axes[0]:
            if self.ndim == 1:
                return Cells(list(self.v))
            raise Unsupported("iteration over an array of any size")
        return iter([self[i] for i in range(self.v.shape[0])])

    def __contains__(self, x):
        raise Unsupported("membership in an array of any size")

    def __bool__(self):
        raise Unsupported("truth of an array of any size")

    # ---------------------------------------------------------------- pointwise
    def map(self, f):
        r = self.v.copy()
        for ix in np.ndindex(*r.shape):
            r[ix] = f(r[ix])
        return GenArray(r, self.axes)

    def _bin(self, o, f, swap=False):
        return pointwise(f, o, self) if swap else pointwise(f, self, o)

    def _ibin(self, o, f):
        r = pointwise(f, self, o)
        if r.axes != self.axes or r.v.shape != self.v.shape:
            raise ValueError("non-broadcastable output operand")
        self.v[...] = r.v
        return self

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s of an array of any size" % n)

    def forget(self, tag):
        """the held cell takes any values, here and in every view of the array"""
        for ix in np.ndindex(*self.v.shape):
            self.v[ix] = sym.ctx().fresh_real(tag)

    def all(self, *a, **k):
        if a or k:
            raise Unsupported("all along an axis of an array of any size")
        return every(list(self.v.reshape(-1)))

    def any(self, *a, **k):
        if a or k:
            raise Unsupported("any along an axis of an array of any size")
        return ~every([~x if is_sym(x) else not x for x in self.v.reshape(-1)])

    def __abs__(self):
        return self.map(abs)

    def __neg__(self):
        return self.map(lambda x: -x)

    def __invert__(self):
        return self.map(lambda x: ~x if is_sym(x) else not x)

    def dot(self, m):
        """with an ordinary matrix or vector, over the last (ordinary) axis"""
        if isinstance(m, (GenArray, Picked)) or self.axes[-1] or not isinstance(m, np.ndarray) or m.ndim not in (1, 2):
            raise Unsupported("dot of an array of any size")
        if m.shape[0] != self.v.shape[-1]:
            raise ValueError("shapes not aligned")
        cols = [m] if m.ndim == 1 else [m[:, j] for j in range(m.shape[1])]
        r = np.empty(self.v.shape[:-1] + (len(cols),), dtype=object)
        for ix in np.ndindex(*r.shape):
            t = 0
            for q in range(m.shape[0]):
                t = t + self.v[ix[:-1] + (q,)] * cols[ix[-1]][q]
            r[ix] = t
        return GenArray(r[..., 0], self.axes[:-1]) if m.ndim == 1 else GenArray(r, self.axes)

    __matmul__ = dot

    def clip(self, lo=None, hi=None, out=None, **k):
        return gclip(self, lo, hi, out)

    def item(self, *a):
        raise Unsupported("item of an array of any size")


class Cells:
    """iterator over the cells of a flattened array: usable under all() / any() only"""

    def __init__(self, held):
        self.held, self.allowed = held, False

    def __iter__(self):
        return self

    def __next__(self):
        if not self.allowed:
            raise Unsupported("iteration over an array of any size")
        if not self.held:
            raise StopIteration
        return self.held.pop(0)


def over_cells(gen):
    """the predicate of `all(pred(i) for i in flat_array)` at the held cell, or None"""
    f = getattr(gen, "gi_frame", None)
    it = gen if isinstance(gen, Cells) else f.f_locals.get(".0") if f is not None else None
    if not isinstance(it, Cells):
        return None
    it.allowed, n = True, len(it.held)
    out = list(gen)
    if len(out) != n:
        raise Unsupported("filtered iteration over an array of any size")
    return out


def every(ps):
    """`all` of a predicate over all cells, of which the held one is ps (all its
    channels): a truth value that implies ps. Equivalent predicates share it."""
    c = sym.ctx()
    e = z3.simplify(z3.And([sym.bv(p) if is_sym(p) else z3.BoolVal(bool(p)) for p in ps]))
    known = c.scratch.setdefault("gen-every", [])
    for q, b in known:
        if q.eq(e):
            return b
        s = z3.Solver()
        s.set("timeout", 2000)
        s.add(z3.Xor(q, e))
        if s.check() == z3.unsat:
            return b
    b = c.fresh_bool("every")
    c.assume(SymBool(z3.Implies(b.e, e)))
    known.append((e, b))
    return b


def _ops():
    import operator as op

    def b(f):
        return lambda x, y: f(x, y)

    for n in ("add", "sub", "mul", "truediv", "pow", "mod", "floordiv"):
        f = getattr(op, n)
        setattr(GenArray, "__%s__" % n, lambda s, o, f=f: s._bin(o, f))
        setattr(GenArray, "__r%s__" % n, lambda s, o, f=f: s._bin(o, f, True))
        setattr(GenArray, "__i%s__" % n, lambda s, o, f=f: s._ibin(o, f))
    for n in ("lt", "le", "gt", "ge", "eq", "ne"):
        f = getattr(op, n)
        setattr(GenArray, "__%s__" % n, lambda s, o, f=f: s._bin(o, f))
    for n, f in (("and", lambda x, y: SymBool(z3.And(sym.bv(x), sym.bv(y)))), ("or", lambda x, y: SymBool(z3.Or(sym.bv(x), sym.bv(y))))):
        setattr(GenArray, "__%s__" % n, lambda s, o, f=f: s._bin(o, f))
        setattr(GenArray, "__r%s__" % n, lambda s, o, f=f: s._bin(o, f, True))
    GenArray.__hash__ = None


_ops()


def _equal_masks(a, b):
    for x, y in zip(a.v.reshape(-1), b.v.reshape(-1)):
        if x is y:
            continue
        if is_sym(x) and is_sym(y) and sym.bv(x).eq(sym.bv(y)):
            continue
        if is_sym(x) or is_sym(y):
            if sym.ctx().valid(SymBool(sym.bv(x) == sym.bv(y))):
                continue
            return False
        if bool(x) != bool(y):
            return False
    return True


def _plain_ok(x, axes):
    """an ordinary array broadcast against generic axes must not extend over them"""
    x = np.asarray(x)
    if x.ndim > len(axes):
        if any(s != 1 for s in x.shape[: x.ndim - len(axes)]):
            return
    for s, a in zip(reversed(x.shape), reversed(axes)):
        if a and s != 1:
            raise Unsupported("an array of fixed size meets an axis of any size")


def _align(x, axes):
    """x.v, once its generic axes are known to lie on the same axes"""
    for i in range(1, x.ndim + 1):
        a = x.axes[-i]
        b = axes[-i] if i <= len(axes) else ()
        if a != b and a:
            raise Unsupported("generic axes do not match: %s and %s" % (a, b))
        if b and not a and x.v.shape[-i] != 1:
            raise Unsupported("an array of fixed size meets an axis of any size")
    return x.v


def _axes_of(xs):
    n = max(len(x.axes) if isinstance(x, GenArray) else np.ndim(x) for x in xs)
    out = []
    for i in range(n, 0, -1):
        names = {x.axes[-i] for x in xs if isinstance(x, GenArray) and i <= len(x.axes) and x.axes[-i]}
        if len(names) > 1:
            raise Unsupported("generic axes do not match: %s" % names)
        out.append(names.pop() if names else ())
    return out


def pointwise(f, *xs):
    for x in xs:
        if isinstance(x, Picked):
            raise Unsupported("masked cells of an array of any size used as an array")
    xs = [np.asarray(x, dtype=object) if isinstance(x, (list, tuple)) else x for x in xs]
    axes = _axes_of(xs)
    vs = []
    for x in xs:
        if isinstance(x, GenArray):
            vs.append(np.asarray(_align(x, axes), dtype=object))
        elif isinstance(x, np.ndarray) and x.ndim:
            _plain_ok(x, axes)
            vs.append(np.asarray(x, dtype=object))
        else:
            a = np.empty((), dtype=object)
            a[()] = x
            vs.append(a)
    bs = np.broadcast_arrays(*vs)
    out = np.empty(bs[0].shape, dtype=object)
    for ix in np.ndindex(*out.shape):
        out[ix] = f(*[b[ix] for b in bs])
    return GenArray(out, axes)


def gclip(x, lo=None, hi=None, out=None, **k):
    r = x
    if lo is not None:
        r = pointwise(lambda a, b: sym.s_max(a, b), r, lo)
    if hi is not None:
        r = pointwise(lambda a, b: sym.s_min(a, b), r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def make(shape, val, vtype=None):
    shape = [shape] if isinstance(shape, SymInt) else list(shape)
    c = sym.ctx()
    names = list(c.scratch.get("gen-dims", {}))
    axes, sizes = [], []
    for s in shape:
        if not isinstance(s, SymInt):
            axes.append(())
            sizes.append(int(s))
            continue
        hit = [n for n in names if _same(dim(n), s)]
        two = [(a, b) for a in names for b in names if a != b and names.index(a) < names.index(b) and _same(dim(a) * dim(b), s)]
        if hit:
            axes.append((hit[0],))
        elif two:
            axes.append(two[0])
        else:
            raise Unsupported("array of an unknown length")
        sizes.append(1)
    v = np.empty(sizes, dtype=object)
    v[...] = val
    return GenArray(v, axes, vtype)


def cells(tag, axes, lo=None, hi=None):
    """an arbitrary array: axes are names (generic) or sizes"""
    c = sym.ctx()
    v = np.empty([1 if isinstance(a, str) else a for a in axes], dtype=object)
    for a in axes:
        if isinstance(a, str):
            dim(a)
    for ix in np.ndindex(*v.shape):
        v[ix] = c.real("%s_%s" % (tag, "_".join(str(i) for i, a in zip(ix, axes) if not isinstance(a, str))), lo=lo, hi=hi)
    return GenArray(v, [(a,) if isinstance(a, str) else () for a in axes])


# ------------------------------------------------------------------ numpy functions
def install(SN):
    """numpy functions on GenArrays; everything else is Unsupported there"""
    import types

    from .shims import _dt

    def unary(n):
        o = getattr(SN, n)
        return lambda x, *a, **k: x.map(lambda y: o(y))

    un = {n: unary(n) for n in ("exp", "sqrt", "log", "abs", "absolute", "fabs", "square", "floor", "ceil", "rint", "sign", "cos", "sin", "tan")}
    fs = {
        "power": lambda a, b, **k: pointwise(lambda x, y: x ** y, a, b),
        "add": lambda a, b, **k: pointwise(lambda x, y: x + y, a, b),
        "subtract": lambda a, b, **k: pointwise(lambda x, y: x - y, a, b),
        "multiply": lambda a, b, **k: pointwise(lambda x, y: x * y, a, b),
        "divide": lambda a, b, **k: pointwise(lambda x, y: x / y, a, b),
        "true_divide": lambda a, b, **k: pointwise(lambda x, y: x / y, a, b),
        "maximum": lambda a, b, **k: pointwise(lambda x, y: sym.s_max(x, y), a, b),
        "minimum": lambda a, b, **k: pointwise(lambda x, y: sym.s_min(x, y), a, b),
        "clip": gclip,
        "where": lambda c, a, b: pointwise(lambda m, x, y: s_ite(m, x, y) if is_sym(m) else (x if m else y), c, a, b),
        "copy": lambda x, **k: x.copy(),
        "asarray": lambda x, dtype=None, **k: x if dtype is None else x.astype(dtype),
        "array": lambda x, dtype=None, **k: (x.copy() if dtype is None else x.astype(dtype)) if isinstance(x, GenArray) else _no("array"),
        "squeeze": lambda x, axis=None: x.squeeze(axis),
        "ravel": lambda x, **k: x.ravel(),
        "reshape": lambda x, s, **k: x.reshape(s),
        "transpose": lambda x, axes=None: x.transpose(*(axes or ())),
        "shape": lambda x: x.shape,
        "ndim": lambda x: x.ndim,
        "zeros_like": lambda x, dtype=None, **k: x.map(lambda y: 0.0),
        "ones_like": lambda x, dtype=None, **k: x.map(lambda y: 1.0),
        "empty_like": lambda x, dtype=None, **k: x.map(lambda y: sym.ctx().fresh_real("garbage")),
        "full_like": lambda x, v, dtype=None, **k: x.map(lambda y: v),
        "isnan": lambda x: x.map(lambda y: False),
        "isfinite": lambda x: x.map(lambda y: True),
        "dot": lambda a, b: a.dot(b) if isinstance(a, GenArray) else _no("dot"),
        "matmul": lambda a, b: a.dot(b) if isinstance(a, GenArray) else _no("matmul"),
        "all": lambda x, **k: x.all(**k),
        "any": lambda x, **k: x.any(**k),
        "logical_and": lambda a, b: a & b,
        "logical_or": lambda a, b: a | b,
        "logical_not": lambda a: ~a,
        "greater": lambda a, b: pointwise(lambda x, y: x > y, a, b),
        "less": lambda a, b: pointwise(lambda x, y: x < y, a, b),
    }
    fs.update(un)

    def _no(n):
        raise Unsupported("numpy.%s of an array of any size" % n)

    def wrap(n, o):
        def f(*a, **k):
            if has_gen(*a, *k.values()):
                return fs[n](*a, **k) if n in fs else _no(n)
            return o(*a, **k)

        f.__name__ = n
        return f

    def creation(n, o, val):
        def f(shape, *a, **k):
            if gen_shape(shape):
                v = a[0] if n == "full" else val
                return make(shape, v() if callable(v) else v)
            return o(shape, *a, **k)

        f.__name__ = n
        return f

    names = set(fs) | {n for c in type(SN).__mro__ for n in vars(c) if not n.startswith("_")}
    for n in names:
        if n in ("linalg", "pi", "ndarray", "errstate"):
            continue
        o = getattr(SN, n, None)
        if callable(o) and not isinstance(o, type):
            SN.__dict__[n] = wrap(n, o)
    for n, v in (("zeros", 0.0), ("ones", 1.0), ("empty", lambda: sym.ctx().fresh_real("garbage")), ("full", None)):
        SN.__dict__[n] = creation(n, SN.__dict__[n], v)
