"""Ring back end: rational-function normal form of z3 real terms, modulo
s^2 = 1 - c^2 for every (cos, sin) pair and r^2 = x for every sqrt(x).

`equal(a, b)` is a complete decision for polynomial identities in the atoms and
a sound "yes" for rational functions (denominators are proved non-zero by the
definedness obligations of the execution that built them)."""
from fractions import Fraction
import z3
from . import sym

LIMIT = 8000
PRIME = (1 << 61) - 1


class TooBig(Exception):
    pass


class Ring:
    def __init__(self):
        self.atoms = {}
        self.terms = []
        self.cache = {}
        self.sin_of = {}  # atom index of sin -> atom index of cos
        self.sq_of = {}  # atom index of sqrt -> radicand z3
        self.keep = []
        self.opaque = ()
        self.limit = LIMIT
        self.points = []

    def atom(self, e):
        k = e.get_id()
        if k not in self.atoms:
            self.atoms[k] = len(self.terms)
            self.terms.append(e)
            self.keep.append(e)
            i = self.atoms[k]
            if z3.is_app(e) and e.num_args() == 1:
                d = e.decl()
                if d.eq(sym.SIN):
                    self.sin_of[i] = self.atom(sym.COS(e.arg(0)))
                elif d.eq(sym.SQRT):
                    self.sq_of[i] = e.arg(0)
        return self.atoms[k]

    # polynomials: dict monomial(tuple of (atom,exp) sorted) -> Fraction
    def const(self, c):
        return {(): Fraction(c)} if c else {}

    def var(self, i):
        return {((i, 1),): Fraction(1)}

    def add(self, p, q, s=1):
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + s * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mul(self, p, q):
        if len(p) * len(q) > self.limit * 8:
            raise TooBig()
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = self._mm(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        if len(r) > self.limit:
            raise TooBig()
        return self.reduce(r)

    @staticmethod
    def _mm(a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for k, e in b:
            d[k] = d.get(k, 0) + e
        return tuple(sorted(d.items()))

    def reduce(self, p):
        """replace sin^2 by 1 - cos^2 and sqrt^2 by its radicand"""
        while True:
            hit = None
            for m in p:
                for k, e in m:
                    if e >= 2 and (k in self.sin_of or k in self.sq_of):
                        hit = (m, k, e)
                        break
                if hit:
                    break
            if not hit:
                return p
            m, k, e = hit
            c = p[m]
            p = dict(p)
            del p[m]
            rest = {tuple((a, x) if a != k else (a, e - 2) for a, x in m if not (a == k and e == 2)): c}
            if k in self.sin_of:
                co = self.sin_of[k]
                sub = {(): Fraction(1), ((co, 2),): Fraction(-1)}
            else:
                n, d = self.rat(self.sq_of[k])
                if d != self.const(1):
                    raise TooBig()
                sub = n
            r = {}
            for m1, c1 in rest.items():
                for m2, c2 in sub.items():
                    mm = self._mm(m1, m2)
                    r[mm] = r.get(mm, 0) + c1 * c2
            p = self.add(p, {a: b for a, b in r.items() if b})

    def radd(self, a, b, s=1):
        (n1, d1), (n2, d2) = a, b
        if d1 == d2:
            return self.add(n1, n2, s), d1
        return self.add(self.mul(n1, d2), self.mul(n2, d1), s), self.mul(d1, d2)

    def nonnegative(self, e):
        """True if e is a polynomial of degree two that is a sum of squares (exact
        elimination over the rationals); None if that cannot be said"""
        try:
            n, d = self.rat(e)
        except (TooBig, RecursionError):
            return None
        if len(d) != 1 or () not in d:
            return None
        if d[()] < 0:
            n = {m: -c for m, c in n.items()}
        Q = {}
        for m, c in n.items():
            v = [k for k, x in m for _ in range(x)]
            if len(v) > 2:
                return None
            v += [-1] * (2 - len(v))
            i, j = sorted(v)
            if i == j:
                Q.setdefault(i, {})[i] = c
            else:
                Q.setdefault(i, {})[j] = c / 2
                Q.setdefault(j, {})[i] = c / 2
        while Q:
            i = next(iter(Q))
            row = Q.pop(i)
            p = row.get(i, 0)
            row = {j: c for j, c in row.items() if j != i and c}
            if p < 0 or (p == 0 and row):
                return None
            for a in row:
                Q[a].pop(i, None)
            if p:
                for a in row:
                    for b in row:
                        Q[a][b] = Q[a].get(b, 0) - row[a] * row[b] / p
        return True

    def rat(self, e):
        k = e.get_id()
        if k in self.cache:
            return self.cache[k]
        r = self._rat(e) if k not in self.opaque else (self.var(self.atom(e)), self.const(1))
        self.cache[k] = r
        self.keep.append(e)
        return r

    def _rat(self, e):
        one = self.const(1)
        if z3.is_rational_value(e):
            return self.const(Fraction(e.numerator_as_long(), e.denominator_as_long())), one
        if z3.is_int_value(e):
            return self.const(e.as_long()), one
        if z3.is_add(e):
            r = self.rat(e.arg(0))
            for i in range(1, e.num_args()):
                r = self.radd(r, self.rat(e.arg(i)))
            return r
        if z3.is_sub(e):
            r = self.rat(e.arg(0))
            for i in range(1, e.num_args()):
                r = self.radd(r, self.rat(e.arg(i)), -1)
            return r
        if z3.is_mul(e):
            n, d = self.rat(e.arg(0))
            for i in range(1, e.num_args()):
                n2, d2 = self.rat(e.arg(i))
                n, d = self.mul(n, n2), (self.mul(d, d2) if d2 != one else d)
            return n, d
        if z3.is_div(e):
            n1, d1 = self.rat(e.arg(0))
            n2, d2 = self.rat(e.arg(1))
            if len(n2) == 1 and () in n2:
                c = n2[()]
                return {m: v / c for m, v in self.mul(n1, d2).items()}, d1
            if not n2:
                return self.var(self.atom(e)), one
            return self.mul(n1, d2), self.mul(d1, n2)
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UMINUS:
            n, d = self.rat(e.arg(0))
            return {m: -c for m, c in n.items()}, d
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(e.arg(1)) or (
            z3.is_app(e) and e.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).denominator_as_long() == 1
        ):
            k = e.arg(1).numerator_as_long() if z3.is_rational_value(e.arg(1)) else e.arg(1).as_long()
            if 0 <= k <= 12:
                n, d = one, one
                bn, bd = self.rat(e.arg(0))
                for _ in range(k):
                    n, d = self.mul(n, bn), self.mul(d, bd)
                return n, d
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL:
            a = e.arg(0)
            if z3.is_add(a) or z3.is_mul(a) or z3.is_sub(a) or z3.is_int_value(a) or a.decl().kind() == z3.Z3_OP_UMINUS:
                return self.rat(a)
            return self.var(self.atom(a)), one
        return self.var(self.atom(e)), one

    @staticmethod
    def _sub(e):
        seen, st = {}, [e]
        while st:
            x = st.pop()
            k = x.get_id()
            if k in seen:
                continue
            seen[k] = x
            st.extend(x.children())
        return seen

    def equal_shared(self, a, b):
        """identity over the maximal subterms a and b share (sound: an identity in
        opaque atoms holds for every value of the atoms)"""
        sa, sb = self._sub(a), self._sub(b)
        sh = {k for k, x in sa.items() if k in sb and x.num_args() > 0 and z3.is_real(x)}
        if not sh:
            return False
        r = Ring()
        r.limit = 3000
        r.opaque = sh
        try:
            n, _d = r.radd(r.rat(a), r.rat(b), -1)
            return not n
        except (TooBig, RecursionError):
            return False

    # -- randomised identity test (Schwartz-Zippel) modulo a 61 bit prime: atoms
    # are sampled uniformly, (cos, sin) pairs on the circle by its rational
    # parametrisation.  A difference refutes the identity; agreement at several
    # points proves it up to an error below degree / 2^61 per point.
    def _peval(self, e, rnd, memo):
        k = e.get_id()
        if k in memo:
            return memo[k]
        st = [e]
        while st:
            x = st[-1]
            kx = x.get_id()
            if kx in memo:
                st.pop()
                continue
            kind = x.decl().kind() if z3.is_app(x) else None
            if z3.is_rational_value(x):
                v = x.numerator_as_long() * pow(x.denominator_as_long(), -1, PRIME) % PRIME
            elif z3.is_int_value(x):
                v = x.as_long() % PRIME
            elif kind in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS) and z3.is_real(x):
                ch = [x.arg(i) for i in range(x.num_args())]
                todo = [c for c in ch if c.get_id() not in memo]
                if todo:
                    st.extend(todo)
                    continue
                vs = [memo[c.get_id()] for c in ch]
                v = vs[0]
                if kind == z3.Z3_OP_UMINUS:
                    v = -v % PRIME
                for w in vs[1:]:
                    if kind == z3.Z3_OP_ADD:
                        v = (v + w) % PRIME
                    elif kind == z3.Z3_OP_SUB:
                        v = (v - w) % PRIME
                    elif kind == z3.Z3_OP_MUL:
                        v = v * w % PRIME
                    else:
                        if w == 0:
                            raise TooBig()
                        v = v * pow(w, -1, PRIME) % PRIME
            elif kind == z3.Z3_OP_TO_REAL and not z3.is_int_value(x.arg(0)):
                v = self._pint(x.arg(0), rnd, memo)
            else:
                v = self._patom(x, rnd, memo)
            memo[kx] = v
            st.pop()
        return memo[k]

    def _pint(self, a, rnd, memo):
        if z3.is_int_value(a):
            return a.as_long() % PRIME
        kind = a.decl().kind()
        if kind in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            vs = [self._pint(a.arg(i), rnd, memo) for i in range(a.num_args())]
            v = vs[0]
            if kind == z3.Z3_OP_UMINUS:
                return -v % PRIME
            for w in vs[1:]:
                v = (v + w if kind == z3.Z3_OP_ADD else v - w if kind == z3.Z3_OP_SUB else v * w) % PRIME
            return v
        return self._patom(a, rnd, memo)

    def _patom(self, x, rnd, memo):
        k = ("atom", x.get_id())
        if k in memo:
            return memo[k]
        if z3.is_app(x) and x.num_args() == 1 and (x.decl().eq(sym.COS) or x.decl().eq(sym.SIN)):
            kk = ("trig", x.arg(0).get_id())
            if kk not in memo:
                t = rnd.randrange(PRIME)
                i = pow(1 + t * t, -1, PRIME)
                memo[kk] = ((1 - t * t) * i % PRIME, 2 * t * i % PRIME)
            v = memo[kk][0 if x.decl().eq(sym.COS) else 1]
        elif z3.is_app(x) and x.num_args() == 1 and x.decl().eq(sym.SQRT):
            # sample the radicand's root only when the radicand is itself an atom
            raise TooBig()
        else:
            v = rnd.randrange(PRIME)
        memo[k] = v
        return v

    def probe(self, a, b, points=3):
        """True: identical at `points` random points; False: they differ;
        None: not applicable"""
        import random

        self.keep.append(a)
        self.keep.append(b)
        try:
            for i in range(points):
                while len(self.points) <= i:
                    self.points.append((random.Random(7919 * len(self.points) + 17), {}))
                rnd, memo = self.points[i]
                if self._peval(a, rnd, memo) != self._peval(b, rnd, memo):
                    return False
            return True
        except (TooBig, ValueError, RecursionError):
            return None

    def equal(self, a, b):
        """'ring' / 'ring-probabilistic' (truthy) or False"""
        if a.eq(b):
            return "ring"
        pr = self.probe(a, b, 1)
        if pr is False:
            return False
        if self.equal_shared(a, b):
            return "ring"
        try:
            n, _d = self.radd(self.rat(a), self.rat(b), -1)
            return "ring" if not n else False
        except (TooBig, RecursionError):
            return "ring-probabilistic" if self.probe(a, b, 4) else False

    def canon(self, e):
        """canonical z3 term of a polynomial (used to normalise trig arguments)"""
        try:
            n, d = self.rat(e)
        except (TooBig, RecursionError):
            return e
        if d != self.const(1):
            return e
        if len(n) > 200:
            return e
        out = None
        for m in sorted(n):
            c = n[m]
            t = z3.RealVal(str(c))
            for k, x in m:
                a = self.terms[k]
                if z3.is_int(a):
                    a = z3.ToReal(a)
                for _ in range(x):
                    t = a if (c == 1 and z3.is_rational_value(t) and t.as_fraction() == 1) else t * a
            out = t if out is None else out + t
        return z3.RealVal(0) if out is None else out
