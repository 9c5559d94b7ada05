"""Sequences of symbolic length.

SymList     an input list: item i is a record whose fields are uninterpreted
            functions of the index (a list of any length with any contents)
AbsList     a list under construction by a cut loop (loops.py): its contents are
            what the invariant says after k iterations, followed by what the
            current iteration appended
Item access forks on the bounds (IndexError on the out-of-range branch) and on
aliasing between index expressions, so reads and writes through different
indices are exact."""
from . import sym
from .sym import SymInt, SymReal, SymBool, Unsupported, iv, z3


def is_symseq(x):
    return isinstance(x, (SymSeq, SymRange, SymZip))


def ctx():
    return sym.ctx()


class SymRange:
    def __init__(self, a, b=None, c=1):
        if b is None:
            a, b = 0, a
        if not isinstance(c, int) or c not in (1, -1):
            raise Unsupported("range step")
        self.a, self.b, self.c = a, b, c

    def sym_len(self):
        d = (iv(self.b) - iv(self.a)) * self.c
        return SymInt(z3.If(d > 0, d, z3.IntVal(0)))

    def item(self, k):
        return SymInt(z3.simplify(iv(self.a) + self.c * iv(k)))

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic range")

    def __contains__(self, x):
        raise Unsupported("membership in a symbolic range")


class SymZip:
    def __init__(self, *xs):
        self.xs = xs

    def sym_len(self):
        ls = [x.sym_len() if is_symseq(x) else SymInt(z3.IntVal(len(x))) for x in self.xs]
        r = ls[0]
        for x in ls[1:]:
            r = SymInt(z3.If(r.e <= x.e, r.e, x.e))
        return r

    def item(self, k):
        return tuple(x.item(k) if is_symseq(x) else x[k] for x in self.xs)

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic zip")


class SymSeq:
    """common list protocol over item(k) / sym_len()"""

    def _index(self, i):
        n = self.sym_len()
        if not isinstance(i, SymInt):
            i = int(i)
            if i < 0:
                i = n + i
            else:
                i = SymInt(z3.IntVal(i))
        elif ctx().decide(i.e < 0):
            i = n + i
        if ctx().decide(z3.Or(i.e < 0, i.e >= n.e)):
            raise IndexError("list index out of range")
        return SymInt(z3.simplify(i.e))

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported("slice step of a symbolic list")
            return SymSlice(self, i.start, i.stop)
        return self.item(self._index(i))

    def __bool__(self):
        return ctx().decide(self.sym_len().e > 0)

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic list")

    def __len__(self):
        raise Unsupported("native len of a symbolic list")

    def __add__(self, o):
        return SymConcat([self, o])

    def __radd__(self, o):
        return SymConcat([o, self])

    def copy(self):
        return SymSlice(self, None, None)

    def __deepcopy__(self, memo):
        raise Unsupported("deepcopy of a symbolic list")

    def sorted_copy(self, key, reverse):
        if reverse or key is None:
            raise Unsupported("sorted() without a key, or reversed, on a symbolic list")
        return SymSorted(self, key)

    def __eq__(self, o):
        if self is o:
            return True
        raise Unsupported("comparison of symbolic lists")

    __hash__ = object.__hash__

    def __contains__(self, x):
        raise Unsupported("membership in a symbolic list")


class SymList(SymSeq):
    """n items; make(index expression) builds item i; times(index) is the sort key"""

    def __init__(self, name, make, n=None, key=None, strict=True):
        self.name, self.make, self.key, self.strict = name, make, key, strict
        c = ctx()
        self.n = c.int("len_" + name, lo=0) if n is None else n
        self.cache = []  # (index expression, item, frozen copy of its fields)

    def sym_len(self):
        return self.n if isinstance(self.n, SymInt) else SymInt(z3.IntVal(self.n))

    def item(self, k):
        e = z3.simplify(iv(k))
        for f, x, _ in self.cache:
            if f.eq(e):
                return x
        c = ctx()
        if self.key is not None:
            for f, x, _ in self.cache:
                a, b = self.key(e), self.key(f)
                lt = (lambda p, q: p < q) if self.strict else (lambda p, q: p <= q)
                c.axiom(("ord", self.name, e.get_id(), f.get_id()),
                        z3.And(z3.Implies(e < f, lt(a, b)), z3.Implies(f < e, lt(b, a)), z3.Implies(e == f, a == b)))
        for f, x, fr in self.cache:
            if _fields(x) != fr and c.decide(e == f):  # changed through another index: aliases are exact
                return x
        x = self.make(e)
        try:
            x.__dict__["_vc_src"] = (self, e)
        except AttributeError:
            pass
        self.cache.append((e, x, _fields(x)))
        return x

    def touched(self):
        return [e for e, x, fr in self.cache if _fields(x) != fr]


def _fields(x):
    if hasattr(x, "__dict__"):
        d = {k: _val(v) for k, v in vars(x).items() if k != "_vc_src"}
        return d
    return _val(x)


def _val(v):
    if isinstance(v, (SymReal, SymInt, SymBool)):
        return ("sym", v.e.get_id(), v)
    if isinstance(v, dict):
        return {k: _val(y) for k, y in v.items()}
    if isinstance(v, (list, tuple)):
        return [_val(y) for y in v]
    if isinstance(v, (int, float, str, bool, type(None))):
        return v
    return ("obj", id(v))


class SymRepeat(SymSeq):
    """[x] * n (read only: a loop that writes into it needs an invariant that
    replaces it)"""

    def __init__(self, x, n):
        self.x = x
        self.n = SymInt(z3.If(n.e > 0, n.e, z3.IntVal(0)))

    def sym_len(self):
        return self.n

    def item(self, k):
        return self.x


class SymBins(SymSeq):
    """n bins, each None or a list; only how many entries each bin holds is known:
    size(index) at the generic iteration, then what the body does to it"""

    def __init__(self, n, size):
        self.n, self.size, self.writes = n, size, []

    def sym_len(self):
        return self.n

    def count(self, i):
        for j, c in reversed(self.writes):
            if ctx().decide(iv(j) == iv(i)):
                return c
        return self.size(SymInt(z3.simplify(iv(i))))

    def item(self, k):
        return None if ctx().decide(iv(self.count(k)) == 0) else SymBin(self, k)

    def __setitem__(self, i, x):
        i = self._index(i)
        if x is None:
            n = 0
        elif isinstance(x, list) and x:
            n = len(x)
        else:
            raise Unsupported("a bin that is neither None nor a list with entries")
        self.writes.append((i, SymInt(z3.IntVal(n))))


class SymBin(SymSeq):
    def __init__(self, bins, i):
        self.bins, self.i = bins, i

    def sym_len(self):
        return self.bins.count(self.i)

    def item(self, k):
        raise Unsupported("entries of a bin")

    def append(self, x):
        self.bins.writes.append((self.i, self.sym_len() + 1))


class SymSlice(SymSeq):
    """a fixed window of a list (a copy: appends do not reach the original)"""

    def __init__(self, seq, a, b):
        n = seq.sym_len()

        def pos(i, d):
            if i is None:
                return d
            i = SymInt(z3.simplify(iv(i)))
            if ctx().decide(i.e < 0):
                i = SymInt(z3.simplify(n.e + i.e))
                if ctx().decide(i.e < 0):
                    i = SymInt(z3.IntVal(0))
            return n if ctx().decide(i.e > n.e) else i

        self.seq, self.a = seq, pos(a, SymInt(z3.IntVal(0)))
        b = pos(b, n)
        self.n = SymInt(z3.simplify(b.e - self.a.e)) if ctx().decide(b.e >= self.a.e) else SymInt(z3.IntVal(0))
        self.ref = len(getattr(seq, "appended", []))

    def sym_len(self):
        return self.n

    def item(self, k):
        return self.seq.item(SymInt(z3.simplify(self.a.e + iv(k))))


class SymWindow(SymSeq):
    """a list object holding items a..b-1 of `seq`, from which the ends can be deleted"""

    def __init__(self, seq):
        self.seq, self.a, self.b = seq, SymInt(z3.IntVal(0)), seq.sym_len()

    def sym_len(self):
        return SymInt(z3.simplify(self.b.e - self.a.e))

    def item(self, k):
        return self.seq.item(SymInt(z3.simplify(self.a.e + iv(k))))

    def __delitem__(self, s):
        if not isinstance(s, slice) or s.step not in (None, 1):
            raise Unsupported("deletion from a symbolic list")
        w = SymSlice(self, s.start, s.stop)
        n = self.sym_len()
        if s.stop is None:
            self.b = SymInt(z3.simplify(self.a.e + w.a.e))
        elif w.a.e.eq(z3.IntVal(0)) or ctx().decide(w.a.e == 0):
            self.a = SymInt(z3.simplify(self.a.e + w.n.e))
        elif ctx().decide(w.a.e + w.n.e == n.e):
            self.b = SymInt(z3.simplify(self.a.e + w.a.e))
        elif not ctx().decide(w.n.e == 0):
            raise Unsupported("deletion from the middle of a symbolic list")


def base_list(x):
    while isinstance(x, (SymWindow, SymSlice)):
        x = x.seq
    return x


class SymMap(SymSeq):
    """[f(x) for x in seq]"""

    def __init__(self, seq, f):
        self.seq, self.f = seq, f

    def sym_len(self):
        return self.seq.sym_len()

    def item(self, k):
        return self.f(self.seq.item(k))


class SymSorted(SymSeq):
    """sorted(seq, key=...): the contract of sorted() - a permutation that puts the
    keys in order and keeps the order of equal keys"""

    def __init__(self, seq, key):
        self.seq, self.key = seq, key
        c = ctx()
        c.scratch["sorted"] = c.scratch.get("sorted", 0) + 1
        n = "order_%d" % c.scratch["sorted"]
        self.pi = z3.Function(n, z3.IntSort(), z3.IntSort())
        self.inv = z3.Function(n + "_inverse", z3.IntSort(), z3.IntSort())
        self.seen = []
        c.scratch.setdefault("sorts", []).append(self)

    def sym_len(self):
        return self.seq.sym_len()

    def source(self, k):
        c = ctx()
        e = z3.simplify(iv(k))
        p = self.pi(e)
        if not any(f.eq(e) for f in self.seen):
            n = self.sym_len().e
            c.axiom(("perm", str(self.pi), e.get_id()), z3.Implies(z3.And(e >= 0, e < n), z3.And(p >= 0, p < n, self.inv(p) == e)))
            me = sym.rv(self.key(self.seq.item(SymInt(p))))
            for f in self.seen:
                q = self.pi(f)
                ot = sym.rv(self.key(self.seq.item(SymInt(q))))
                both = z3.And(e >= 0, e < n, f >= 0, f < n)
                c.axiom(("order", str(self.pi), e.get_id(), f.get_id()),
                        z3.Implies(both, z3.And(z3.Implies(e < f, z3.And(me <= ot, z3.Implies(me == ot, p < q))), z3.Implies(f < e, z3.And(ot <= me, z3.Implies(me == ot, q < p))),
                                                z3.Implies(e == f, p == q))))
            self.seen.append(e)
        return SymInt(p)

    def position(self, k):
        """where item k of the original list went"""
        e = z3.simplify(iv(k))
        p = self.inv(e)
        n = self.sym_len().e
        ctx().axiom(("permi", str(self.pi), e.get_id()), z3.Implies(z3.And(e >= 0, e < n), z3.And(p >= 0, p < n, self.pi(p) == e)))
        return SymInt(p)

    def item(self, k):
        return self.seq.item(self.source(k))


class SymConcat(SymSeq):
    def __init__(self, parts):
        self.parts = []
        for p in parts:
            self.parts += p.parts if isinstance(p, SymConcat) else [p]

    def extend(self, x):
        self.parts.append(x)

    def append(self, x):
        self.parts.append([x])

    def sym_len(self):
        r = SymInt(z3.IntVal(0))
        for p in self.parts:
            r = r + (p.sym_len() if is_symseq(p) else len(p))
        return r

    def item(self, k):
        k = SymInt(iv(k))
        for p in self.parts:
            if is_symseq(p):
                n = p.sym_len()
                if ctx().decide(k.e < n.e):
                    return p.item(SymInt(z3.simplify(k.e)))
                k = k - n
            else:
                for x in p:
                    if ctx().decide(k.e == 0):
                        return x
                    k = k - 1
        raise IndexError("list index out of range")


class AbsList(SymSeq):
    """what `acc` says the list holds after k iterations, plus new entries"""

    def __init__(self, acc, k):
        self.acc, self.k, self.appended = acc, SymInt(iv(k)), []

    def append(self, x):
        self.appended.append(x)

    def extend(self, xs):
        if is_symseq(xs):
            raise Unsupported("extend by a symbolic list")
        self.appended.extend(xs)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def base_len(self):
        return self.acc.length(self.k)

    def sym_len(self):
        return self.base_len() + len(self.appended)

    def item(self, j):
        j = SymInt(iv(j))
        if self.appended:
            n = self.base_len()
            for a, x in enumerate(self.appended):
                if ctx().decide(j.e == n.e + a):
                    return x
        return self.acc.item(j, self.k)


class Acc:
    """Specification of a list built by a loop: iteration i appends elem(i), a
    (possibly empty) list. `one`: always exactly one element (a map)."""

    def __init__(self, name, elem, one=False, start=0, match=None):
        self.name, self.elem, self.one, self.start = name, elem, one, start
        self.match_item = match or same_item
        self.cnt = z3.Function("cnt_" + name, z3.IntSort(), z3.IntSort())
        self.idx = z3.Function("idx_" + name, z3.IntSort(), z3.IntSort())
        self.seen = []

    def length(self, k):
        if self.one:
            return SymInt(z3.simplify(iv(k) - self.start))
        c = ctx()
        e = self.cnt(iv(k))
        c.axiom(("cnt", self.name, iv(k).get_id()), z3.And(e >= 0, z3.Implies(iv(k) >= self.start, e <= iv(k) - self.start), z3.Implies(iv(k) <= self.start, e == 0)))
        return SymInt(e)

    def item(self, j, k):
        if self.one:
            return self.elem(SymInt(z3.simplify(iv(j) + self.start)))[0]
        c = ctx()
        e = self.source(j)
        c.axiom(("idxk", self.name, iv(j).get_id(), iv(k).get_id()), z3.Implies(iv(j) < self.length(k).e, e.e < iv(k)))
        r = self.elem(e)
        if not r:  # idx points at iterations that append something
            raise sym.Infeasible()
        return r[0]

    def source(self, j):
        """the iteration that produced item j (of a filter: at most one per iteration)"""
        c = ctx()
        ej = z3.simplify(iv(j))
        e = self.idx(ej)
        c.axiom(("idx", self.name, ej.get_id()), z3.And(e >= self.start, e >= ej + self.start))
        for f in self.seen:
            c.axiom(("idxo", self.name, f.get_id(), ej.get_id()), z3.And(z3.Implies(f < ej, self.idx(f) < e), z3.Implies(ej < f, e < self.idx(f))))
        self.seen.append(ej)
        return SymInt(e)

    def state(self, k):
        return AbsList(self, k)

    def holds(self, lst, k):
        """the list holds what the specification says after iterations start..k-1"""
        c = ctx()
        k = SymInt(iv(k))
        if isinstance(lst, list):
            if lst:
                raise Unsupported("a loop whose list is not empty at entry")
            return SymBool(k.e == self.start)
        if not isinstance(lst, AbsList) or lst.acc is not self:
            return False
        if c.decide(z3.simplify(k.e == lst.k.e)):
            return len(lst.appended) == 0
        if not c.decide(z3.simplify(k.e == lst.k.e + 1)):
            return False
        want = self.elem(lst.k)
        if len(want) != len(lst.appended):
            return False
        r = True
        for a, b in zip(lst.appended, want):
            m = self.match_item(a, b)
            r = m if r is True else SymBool(z3.And(sym.bv(r), sym.bv(m)))
        return r


def same_item(a, b):
    """the same object (or the same number)"""
    if a is b:
        return True
    sa, sb = getattr(a, "_vc_src", None), getattr(b, "_vc_src", None)
    if sa is not None and sb is not None:
        if sa[0] is not sb[0]:
            return False
        return SymBool(sa[1] == sb[1])
    if sym._num(a) and sym._num(b):
        return SymBool(sym.rv(a) == sym.rv(b))
    return False


def frozen(x):
    """what a later change of the sequence (or of its items) would alter"""
    if isinstance(x, SymConcat):
        return [frozen(p) for p in x.parts]
    if isinstance(x, SymMap):
        return frozen(x.seq)
    if isinstance(x, SymSorted):
        return frozen(x.seq)
    if isinstance(x, SymZip):
        return [frozen(p) for p in x.xs]
    if isinstance(x, AbsList):
        return (id(x.acc), x.k.e.get_id(), [_fields(a) for a in x.appended])
    if isinstance(x, SymWindow):
        return (x.a.e.get_id(), x.b.e.get_id(), frozen(x.seq))
    if isinstance(x, SymSlice):
        return frozen(x.seq)
    if isinstance(x, SymList):
        return [(e.get_id(), _fields(y)) for e, y, fr in x.cache if _fields(y) != fr]
    return _val(x)
