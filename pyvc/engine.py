"""Path exploration, obligations, and the three interpretations of a contract
harness: proof (symbolic), replay / sampling (concrete)."""
import math
import random
import subprocess
import tempfile
import time
import traceback
import os
from fractions import Fraction

import numpy as np

from . import loader, sym
from .sym import z3, SymReal, SymInt, SymBool, Unsupported, PathEnd, Infeasible, rv, iv, bv
from .poly import Ring


class Obligation:
    __slots__ = ("name", "status", "backend", "secs", "detail", "model", "path", "core")

    def __init__(self, name, status, backend, secs, detail="", model=None, path=()):
        self.name, self.status, self.backend = name, status, backend
        self.secs, self.detail, self.model, self.path = secs, detail, model, path


class Budget(BaseException):
    pass


def _strip_uf(exprs):
    """replace every uninterpreted application by a fresh constant (dropping
    congruence: sound for validity)"""
    cache = {}
    keep = []

    def walk(e):
        k = e.get_id()
        if k in cache:
            return cache[k]
        if z3.is_app(e) and e.num_args() > 0:
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r = z3.FreshConst(e.sort(), "u")
            else:
                ch = [walk(e.arg(i)) for i in range(e.num_args())]
                r = e.decl()(*ch) if any(not c.eq(e.arg(i)) for i, c in enumerate(ch)) else e
                if e.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL) and r is not e:
                    r = {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_MUL: z3.Product}[e.decl().kind()](*ch)
        else:
            r = e
        cache[k] = r
        keep.append(e)
        return r

    return [walk(e) for e in exprs]


class SymCtx:
    symbolic = True

    def __init__(self, opts):
        self.opts = opts
        self.timeout_ms = int(opts.get("timeout_ms", 8000))
        self.branch_ms = int(opts.get("branch_ms", 1500))
        self.ring = Ring()
        self.obligations = []
        self.deadline = time.time() + float(opts.get("budget_s", 300))
        self.max_paths = int(opts.get("max_paths", 4000))
        self.solver_s = 0.0
        self.queries = 0
        self.paths = 0
        self.paths_end = 0
        self.stats = {}
        self.trusted = set()
        self.unknown_branches = 0
        self.input_order = []
        self.proved_cache = {}

    # ------------------------------------------------------------ exploring
    def reset_path(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.branch_ms)
        self.pc = []
        self.ax = {}
        self.trace = []
        self.pos = 0
        self.inputs = {}
        self.bounds = {}
        self.fresh_n = 0
        self.tokens = {}
        self.tok_by_id = {}
        self.decided = {}
        self.scratch = {}
        self._keep = []
        from . import symtime

        symtime.reset()
        self.fractions = []

    def explore(self, harness, name):
        """DFS over the decision tree by re-execution."""
        self.hname = name
        prefix = []
        stack = [prefix]
        ended = 0
        while stack:
            if time.time() > self.deadline:
                raise Budget("time budget exhausted in %s" % name)
            if self.paths >= self.max_paths:
                raise Budget("path budget exhausted in %s" % name)
            self.plan = stack.pop()
            self.reset_path()
            self.todo = []
            old = sym._CTX[0]
            sym._CTX[0] = self
            self.paths += 1
            self.cleanups = []
            try:
                harness(self)
                ended += 1
                self.paths_end += 1
            except Infeasible:
                pass
            except PathEnd:
                ended += 1
                self.paths_end += 1
            except Unsupported:
                raise
            except (KeyboardInterrupt, SystemExit, Budget):
                raise
            except Exception as ex:  # the real code raised
                import sys as _s
                tb = traceback.extract_tb(_s.exc_info()[2])
                inside = [f for f in tb if loader.SRC + "/" in f.filename]
                where = inside[-1] if inside else tb[-1]
                if inside or isinstance(ex, ContractError):
                    det = "%s: %s at %s:%s" % (type(ex).__name__, ex, os.path.basename(where.filename), where.lineno)
                    last = tb[-1]
                    foreign = loader.SRC + "/" not in last.filename and "/verif/" not in last.filename
                    if foreign and isinstance(ex, (TypeError, AttributeError)):
                        raise Unsupported("foreign code on symbolic data: " + det)
                    if isinstance(ex, (TypeError, AttributeError)):
                        # may be the symbolic values, not the code: decided by replay
                        det = "[type] " + det
                    self._record("%s.no-exception" % name, z3.BoolVal(False), det)
                    ended += 1
                    self.paths_end += 1
                else:
                    raise
            finally:
                sym._CTX[0] = old
                for c in reversed(self.cleanups):
                    c()
            stack.extend(self.todo)
        if ended == 0:
            raise Unsupported("vacuous harness %s: no path satisfies its preconditions" % name)

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = cond.get_id()
        if k in self.decided:
            return self.decided[k]
        neg = z3.simplify(z3.Not(cond))
        if neg.get_id() in self.decided:
            return not self.decided[neg.get_id()]
        i = self.pos
        self.pos += 1
        if i < len(self.plan):
            v, forced = self.plan[i]
            if not forced:
                self._push(cond if v else neg)
        else:
            if time.time() > self.deadline:
                raise Budget("time budget exhausted")
            t, f = self._sat(cond), self._sat(neg)
            if t is False and f is False:
                raise Infeasible()
            if t is False:
                v, forced = False, True
            elif f is False:
                v, forced = True, True
            else:
                v, forced = True, False
                self.todo.append(self.trace + [(False, False)])
                self._push(cond)
        self.trace.append((v, forced))
        self.decided[k] = v
        self._keep.append(cond)
        self._keep.append(neg)
        return v

    def _push(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def _sat(self, e):
        t0 = time.time()
        self.solver.push()
        self.solver.add(e)
        r = self.solver.check()
        self.solver.pop()
        self.solver_s += time.time() - t0
        self.queries += 1
        if r == z3.unsat:
            return False
        if r == z3.unknown:
            self.unknown_branches += 1
        return True

    def axiom(self, key, e):
        if key in self.ax:
            return
        self.ax[key] = e
        self._keep.append(e)
        self.solver.add(e)

    def norm_arg(self, e):
        c = sym.const_of(e)
        if c is not None:
            return z3.RealVal(str(c))
        r = self.ring.canon(e)
        self._keep.append(r)
        if r is e and z3.is_app(e) and e.num_args() > 0:
            # a fraction: the same as an earlier argument as far as field identities tell
            for q in self.fractions:
                if q.eq(e) or self.ring.equal(q, e) == "ring":
                    return q
            if len(self.fractions) < 300:
                self.fractions.append(e)
        return r

    def leading_negative(self, e):
        try:
            n, d = self.ring.rat(e)
        except Exception:
            return False
        if not n:
            return False
        m = sorted(n)[0]
        return n[m] < 0

    # -------------------------------------------------------------- inputs
    def real(self, name, lo=None, hi=None, gt=None, lt=None, near=None, nonzero=False):
        v = z3.Real(name)
        if name not in self.inputs:
            self.inputs[name] = v
            if lo is not None:
                self._assume(v >= rv(lo))
            if hi is not None:
                self._assume(v <= rv(hi))
            if gt is not None:
                self._assume(v > rv(gt))
            if lt is not None:
                self._assume(v < rv(lt))
            if nonzero:
                self._assume(v != 0)
            num = lambda x: sym.const_of(rv(x)) if x is not None else None
            self.bounds[v.get_id()] = (num(lo), num(hi))
            self._keep.append(v)
        return SymReal(v)

    def between(self, name, a, b, strict=False):
        v = z3.Real(name)
        if name not in self.inputs:
            self.inputs[name] = v
            if strict:
                self._assume(z3.And(v > rv(a), v < rv(b)))
            else:
                self._assume(z3.And(v >= rv(a), v <= rv(b)))
        return SymReal(v)

    def increasing(self, prefix, n, gap=0.01, lo=0, hi=1000, strict=True, around=None, inside=False):
        """n reals in [lo, hi], consecutive differences > gap (>= 0 if not strict)"""
        out = []
        for i in range(n):
            v = self.real("%s%d" % (prefix, i), lo=lo, hi=hi)
            if out:
                self._assume((v.e - out[-1].e > rv(gap)) if strict else (v.e >= out[-1].e))
            out.append(v)
        return out

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        if name not in self.inputs:
            self.inputs[name] = v
            if lo is not None:
                self._assume(v >= iv(lo))
            if hi is not None:
                self._assume(v <= iv(hi))
        return SymInt(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs.setdefault(name, v)
        return SymBool(v)

    def flag(self, name):
        return bool(self.bool(name))

    def choice(self, name, options):
        """pick one of a finite list (explores all)"""
        i = self.int(name, 0, len(options) - 1)
        for k in range(len(options) - 1):
            if i == k:
                return options[k]
        return options[-1]

    def size(self, name, options, many=()):
        """a number of elements: one of the options (all explored); samples also draw from `many`"""
        return self.choice(name, options)

    def fresh_real(self, hint="f"):
        self.fresh_n += 1
        return SymReal(z3.Real("%s!%d" % (hint, self.fresh_n)))

    def fresh_int(self, hint="k"):
        self.fresh_n += 1
        return SymInt(z3.Int("%s!%d" % (hint, self.fresh_n)))

    def fresh_bool(self, hint="b"):
        self.fresh_n += 1
        return SymBool(z3.Bool("%s!%d" % (hint, self.fresh_n)))

    def concretise(self, x):
        c = sym.const_of(x.e)
        if c is not None and c.denominator == 1:
            return int(c)
        if isinstance(x, SymInt):
            # finite enumeration when the path condition bounds it
            lo, hi = self.opts.get("int_range", (-3, 8))
            for k in range(lo, hi + 1):
                if self.decide(x.e == k):
                    return k
            raise Unsupported("symbolic int used as a concrete index")
        raise Unsupported("symbolic number used as a concrete index")

    def _assume(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        self._push(e)
        if z3.is_false(e):
            raise Infeasible()

    def assume(self, cond):
        self._assume(bv(cond))
        return True

    def check_feasible(self):
        if self._sat(z3.BoolVal(True)) is False:
            raise Infeasible()

    # --------------------------------------------------------- text tokens
    def digits(self, v, width):
        """the int v printed zero padded to a fixed width (v fits)"""
        from . import symtime

        self._assume(z3.And(iv(v) >= 0, iv(v) < 10 ** width))
        return symtime.digits(self, v, width)

    def epoch(self, y, mo, d, h=0, mi=0, s=0, us=0):
        """specification: seconds since 1970-01-01T00:00:00Z of a UTC clock reading"""
        from . import symtime

        return symtime.days(y, mo, d) * 86400 + h * 3600 + mi * 60 + s + us / 1000000

    def token(self, x, spec):
        import re
        m = re.fullmatch(r"0(\d+)d?", spec or "")
        if m and isinstance(x, SymInt):
            # zero padded integers print as their digits, where they provably fit
            from . import symtime

            t = symtime.text_of(x, int(m.group(1)))
            if t is not None:
                return t
            w = int(m.group(1))
            if not self._sat(z3.Not(z3.And(x.e >= 0, x.e < 10 ** w))):
                return symtime.digits(self, x, w)
        key = (x.e.get_id(), spec or "")
        if key in self.tok_by_id:
            return self.tok_by_id[key]
        t = "@%d@" % len(self.tokens)
        self.tokens[t] = (x, spec or "")
        self.tok_by_id[key] = t
        self._keep.append(x.e)
        return t

    def untoken(self, s):
        """the number a printed token reads back as (None if no token)"""
        s = s.strip()
        if s in self.tokens:
            x, spec = self.tokens[s]
            if spec in ("", "s", "g"):
                return x
            import re
            m = re.fullmatch(r"[0-9+ ]*\.?(\d*)f", spec)
            if m:
                nd = int(m.group(1) or 6)
                r = self.fresh_real("rd")
                h = z3.Q(1, 2 * 10 ** nd)
                self._assume(z3.And(r.e - rv(x) <= h, rv(x) - r.e <= h))
                self.tokens[s] = (r, "")
                return r
            raise Unsupported("read back of format %r" % spec)
        return None

    # --------------------------------------------------------- obligations
    def ensure(self, name, cond, detail=""):
        if isinstance(cond, (bool, np.bool_)):
            e = z3.BoolVal(bool(cond))
        else:
            e = bv(cond)
        self._record("%s.%s" % (self.hname, name), e, detail)

    def ensure_eq(self, name, a, b, tol=None, detail="", scale=None, rel=None):
        a, b = _unwrap(a), _unwrap(b)
        if a is None or b is None or isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
            if isinstance(a, str) and isinstance(b, str):
                self._record("%s.%s" % (self.hname, name), z3.BoolVal(a == b), detail or "%r vs %r" % (a, b))
            else:
                self._record("%s.%s" % (self.hname, name), z3.BoolVal(a is None and b is None), detail or "%r vs %r" % (a, b))
            return
        if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
            fa, fb = _flat(a), _flat(b)
            self._record("%s.%s.shape" % (self.hname, name), z3.BoolVal(len(fa) == len(fb)), "%d vs %d elements" % (len(fa), len(fb)))
            for i, (x, y) in enumerate(zip(fa, fb)):
                self.ensure_eq("%s[%d]" % (name, i), x, y)
            return
        if isinstance(a, (bool, np.bool_, SymBool)) and isinstance(b, (bool, np.bool_, SymBool)):
            self._record("%s.%s" % (self.hname, name), bv(a) == bv(b), detail)
            return
        if not sym._num(a) or not sym._num(b):
            if isinstance(a, float) and a != a:
                pass
            self._record("%s.%s" % (self.hname, name), z3.BoolVal(a is b or (not sym.is_sym(a) and not sym.is_sym(b) and a == b)), detail or "%r vs %r" % (a, b))
            return
        for v in (a, b):
            if isinstance(v, (float, np.floating)) and (v != v or v in (float("inf"), float("-inf"))):
                same = (not sym.is_sym(a)) and (not sym.is_sym(b)) and (a == b or (a != a and b != b))
                self._record("%s.%s" % (self.hname, name), z3.BoolVal(bool(same)), "non finite value %r vs %r" % (a, b))
                return
        ea, eb = rv(a), rv(b)
        goal = ea == eb
        t0 = time.time()
        how = self.ring.equal(ea, eb)
        if how:
            self.obligations.append(Obligation("%s.%s" % (self.hname, name), "proved", how, time.time() - t0))
            return
        self._record("%s.%s" % (self.hname, name), goal, detail)

    def eq(self, a, b, tol=None):
        return SymBool(rv(a) == rv(b))

    def le(self, a, b, tol=None):
        return SymBool(rv(a) <= rv(b))

    def lt(self, a, b):
        return SymBool(rv(a) < rv(b))

    def And(self, *c):
        return SymBool(z3.And(*[bv(x) for x in c]))

    def Or(self, *c):
        return SymBool(z3.Or(*[bv(x) for x in c]))

    def Not(self, c):
        return SymBool(z3.Not(bv(c)))

    def implies(self, a, b):
        return SymBool(z3.Implies(bv(a), bv(b)))

    def iff(self, a, b):
        return SymBool(bv(a) == bv(b))

    def ite(self, c, a, b):
        return sym.s_ite(c, a, b)

    def valid(self, cond):
        """is cond entailed by the current path? (no obligation recorded)"""
        st, _b, _m = self._discharge(z3.simplify(bv(cond)), self.branch_ms)
        return st == "proved"

    def _record(self, name, goal, detail=""):
        t0 = time.time()
        nf = self.stats.get("failed", 0)
        st, be, model = self._discharge(goal, self.timeout_ms if not nf else max(1000, self.timeout_ms // 4))
        dt = time.time() - t0
        self.obligations.append(Obligation(name, st, be, dt, detail, model, tuple(v for v, f in self.trace)))
        if st != "proved":
            self.stats.setdefault("failed", 0)
            self.stats["failed"] += 1
            if self.stats["failed"] >= int(self.opts.get("max_failed", 5)):
                raise Budget("too many failed obligations")

    def _discharge(self, goal, ms):
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return "proved", "simplify", None
        if z3.is_eq(goal) and z3.is_real(goal.arg(0)):
            how = self.ring.equal(goal.arg(0), goal.arg(1))
            if how:
                return "proved", how, None
        if z3.is_false(goal) and not self.pc:
            return "refuted", "z3", {}
        # 1. without transcendental axioms congruence (pure real arithmetic)
        base = self.pc + list(self.ax.values())
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*base)
        s.add(z3.Not(goal))
        r = s.check()
        self.queries += 1
        self.solver_s += time.time() - t0
        if r == z3.unsat:
            return "proved", "z3", None
        model = None
        if r == z3.sat:
            model = self._model(s.model())
            return "refuted", "z3", model
        stripped = _strip_uf(base + [z3.Not(goal)])
        t0 = time.time()
        try:
            s2 = z3.Tactic("qfnra-nlsat").solver()
            s2.set("timeout", ms)
            s2.add(*stripped)
            r2 = s2.check()
        except z3.Z3Exception:
            r2 = z3.unknown
        self.queries += 1
        self.solver_s += time.time() - t0
        if r2 == z3.unsat:
            return "proved", "z3-nlsat", None
        r3 = self._cvc5(stripped, ms)
        if r3 == "unsat":
            return "proved", "cvc5", None
        if r2 == z3.sat:
            # a model of the problem without congruence: a candidate to replay,
            # not a refutation
            try:
                model = self._model(s2.model())
            except z3.Z3Exception:
                model = None
            return "unknown", "z3-nlsat", model
        return "unknown", "z3+cvc5", None

    def _cvc5(self, exprs, ms):
        s = z3.Solver()
        s.add(*exprs)
        t0 = time.time()
        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write("(set-logic ALL)\n" + s.to_smt2())
            out = subprocess.run(
                ["cvc5", "--tlimit=%d" % ms, "--nl-cov", f.name], capture_output=True, text=True, timeout=ms / 1000 + 5
            ).stdout
        except Exception:
            return "unknown"
        finally:
            try:
                os.unlink(f.name)
            except OSError:
                pass
            self.solver_s += time.time() - t0
            self.queries += 1
        return "unsat" if out.startswith("unsat") else ("sat" if out.startswith("sat") else "unknown")

    def _model(self, m):
        out = {}
        for n, v in self.inputs.items():
            x = m.eval(v, model_completion=True)
            if z3.is_int_value(x):
                out[n] = x.as_long()
            elif z3.is_rational_value(x):
                out[n] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
            elif z3.is_algebraic_value(x):
                a = x.approx(20)
                out[n] = float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
            elif z3.is_true(x) or z3.is_false(x):
                out[n] = z3.is_true(x)
        return out

    # maths for specifications
    def cos(self, x):
        return _m1(x, sym.s_cos, math.cos)

    def sin(self, x):
        return _m1(x, sym.s_sin, math.sin)

    def sqrt(self, x):
        return _m1(x, sym.s_sqrt, math.sqrt)

    def exp(self, x):
        return _m1(x, sym.s_exp, math.exp)

    def log(self, x):
        return _m1(x, sym.s_log, math.log)

    def rad(self, x):
        return sym.s_radians(x)

    def deg(self, x):
        return sym.s_degrees(x)

    def abs(self, x):
        return abs(x)

    def pow(self, a, b):
        return sym.s_pow(a, b)

    @property
    def pi(self):
        return SymReal(sym.PI)

    def patch(self, obj, attr, value):
        missing = object()
        old = obj.__dict__.get(attr, missing) if hasattr(obj, "__dict__") else getattr(obj, attr)
        setattr(obj, attr, value)

        def undo():
            if old is missing:
                try:
                    delattr(obj, attr)
                except AttributeError:
                    pass
            else:
                setattr(obj, attr, old)

        self.cleanups.append(undo)


class ContractError(Exception):
    """raised inside a callee stub when the caller breaks its precondition"""


def _unwrap(x):
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return x.item() if x.dtype != object else x[()]
    if isinstance(x, np.ndarray) and x.size == 1:
        return x.reshape(-1)[0]
    return x


def _flat(x):
    if isinstance(x, np.ndarray):
        return list(x.reshape(-1))
    if isinstance(x, (list, tuple)):
        r = []
        for y in x:
            r.extend(_flat(y))
        return r
    return [x]


def _m1(x, fs, fc):
    if sym.is_sym(x):
        return fs(x)
    return fc(x)


# ====================================================================== concrete
class Discard(BaseException):
    pass


class Failed(Exception):
    def __init__(self, name, detail):
        super().__init__("%s: %s" % (name, detail))
        self.name, self.detail = name, detail


class ConcCtx:
    """The same harness on plain Python numbers against the unmodified code."""

    symbolic = False

    def __init__(self, values=None, rng=None, rtol=1e-6):
        self.values = dict(values or {})
        self.rng = rng
        self.inputs = {}
        self.rtol = rtol
        self.cleanups = []
        self.nchecks = 0
        self.big = False
        self.opts = {}
        self.trusted = set()
        self.scratch = {}
        self.strict_assume = True

    def close(self):
        for c in reversed(self.cleanups):
            c()
        self.cleanups = []

    def _draw_real(self, name, lo, hi, gt, lt, near=None):
        r = self.rng
        a = lo if lo is not None else gt
        b = hi if hi is not None else lt
        reals = [v for v in self.inputs.values() if isinstance(v, float)]
        p = r.random()
        if reals and p < 0.12:
            v = r.choice(reals)
        elif p < 0.2 and a is not None:
            v = float(a)
        elif p < 0.28 and b is not None:
            v = float(b)
        elif p < 0.34:
            v = float(r.choice([0, 1, -1, 2, 10, 0.5]))
        else:
            if a is None and b is None:
                s = r.choice([1, 1, 10, 100])
                v = r.uniform(-s, s)
            elif a is None:
                v = b - abs(r.choice([1, 10, 100]) * r.random())
            elif b is None:
                v = a + abs(r.choice([1, 10, 100]) * r.random())
            else:
                v = r.uniform(a, b)
        if r.random() < 0.25:
            v = float(round(v))
        if near is not None and r.random() < 0.7:
            v = near + r.uniform(-1, 1) * r.choice([0.1, 1, 5])
        if a is not None:
            v = max(v, a)
        if b is not None:
            v = min(v, b)
        return float(v)

    def _get(self, name, draw):
        if name in self.inputs:
            return self.inputs[name]
        if name in self.values:
            v = self.values[name]
        elif self.rng is not None:
            v = draw()
        else:
            v = 0
        self.inputs[name] = v
        return v

    def real(self, name, lo=None, hi=None, gt=None, lt=None, near=None, nonzero=False):
        f = lambda x: None if x is None else float(x)
        v = float(self._get(name, lambda: self._draw_real(name, f(lo), f(hi), f(gt), f(lt), near)))
        self.inputs[name] = v
        if (lo is not None and v < lo) or (hi is not None and v > hi) or (gt is not None and v <= gt) or (lt is not None and v >= lt) or (nonzero and v == 0):
            raise Discard()
        return v

    def between(self, name, a, b, strict=False):
        a, b = float(a), float(b)

        def draw():
            p = self.rng.random()
            if p < 0.1:
                return a
            if p < 0.2:
                return b
            return self.rng.uniform(a, b)

        v = float(self._get(name, draw))
        self.inputs[name] = v
        if v < a or v > b or (strict and (v <= a or v >= b)):
            raise Discard()
        return v

    def increasing(self, prefix, n, gap=0.01, lo=0, hi=1000, strict=True, around=None, inside=False):
        if self.rng is not None and not any(("%s%d" % (prefix, i)) in self.values for i in range(n)):
            span = self.rng.choice([1.0, 10.0, hi - lo]) if hi - lo > 10 else hi - lo
            base = self.rng.uniform(lo, hi - span) if hi - lo > span else lo
            if around is not None:
                a, b = float(around[0]), float(around[1])
                if b <= a:
                    raise Discard()
                w = self.rng.choice([0.0] if inside else [0.0, 0.3, 1.0]) * (b - a)
                base, span = a - w, (b - a) + 2 * w
            xs = sorted(base + self.rng.random() * span for _ in range(n))
            if around is not None:
                xs = sorted(x if self.rng.random() < 0.85 else self.rng.choice(list(around)) for x in xs)
            if self.rng.random() < 0.3 and around is None:
                xs = [float(round(x)) for x in xs]
            if strict:
                for i in range(1, n):
                    if xs[i] - xs[i - 1] <= gap:
                        xs[i] = xs[i - 1] + 1.5 * gap
            for i in range(n):
                self.values["%s%d" % (prefix, i)] = xs[i]
        out = []
        for i in range(n):
            v = self.real("%s%d" % (prefix, i), lo=lo, hi=hi)
            if out and (v - out[-1] <= gap if strict else v < out[-1]):
                raise Discard()
            out.append(v)
        return out

    def int(self, name, lo=None, hi=None):
        a = -5 if lo is None else int(lo)
        b = a + 12 if hi is None else int(hi)
        if b < a:
            raise Discard()
        v = int(self._get(name, lambda: self.rng.randint(a, b)))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Discard()
        return v

    def length(self, name, lo=0, draws=(37, 64, 150, 300), most=6000):
        """the length of a list that a proof takes to be arbitrary"""
        v = int(self._get(name, lambda: self.rng.choice((lo, lo + 1) + tuple(draws))))
        self.inputs[name] = v
        v = self.inputs[name] = max(v, lo) if name not in self.values else v
        if v < lo or v > most:
            raise Discard()
        return v

    def size(self, name, options, many=()):
        def draw():
            r = self.rng
            return r.choice(list(many)) if many and r.random() < 0.35 else r.randrange(len(options))

        v = int(self._get(name, draw))
        if v < 0 or (v >= len(options) and v not in many):
            raise Discard()
        return options[v] if v < len(options) else v

    def bool(self, name):
        return bool(self._get(name, lambda: self.rng.random() < 0.5))

    flag = bool

    def digits(self, v, width):
        if v < 0 or v >= 10 ** width:
            raise Discard()
        return "%0*d" % (width, v)

    def epoch(self, y, mo, d, h=0, mi=0, s=0, us=0):
        import calendar

        return calendar.timegm((y, mo, d, h, mi, s)) + us / 1e6

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def assume(self, cond):
        if not bool(cond):
            raise Discard()
        return True

    def check_feasible(self):
        pass

    def _fail(self, name, detail):
        raise Failed("%s.%s" % (self.hname, name), detail)

    def ensure(self, name, cond, detail=""):
        self.nchecks += 1
        if not bool(cond):
            self._fail(name, detail)

    def ensure_eq(self, name, a, b, tol=None, detail="", scale=None, rel=None):
        self.nchecks += 1
        a, b = _unwrap(a), _unwrap(b)
        if a is None or b is None or isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
            if not ((a is None and b is None) or (type(a) == type(b) and a == b)):
                self._fail(name, detail or "%r != %r" % (a, b))
            return
        if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
            fa, fb = _flat(a), _flat(b)
            if len(fa) != len(fb):
                self._fail(name + ".shape", "%d vs %d elements" % (len(fa), len(fb)))
            for i, (x, y) in enumerate(zip(fa, fb)):
                self.ensure_eq("%s[%d]" % (name, i), x, y, tol, scale=scale, rel=rel)
            return
        if not isinstance(a, (int, float, np.number, np.bool_)) or not isinstance(b, (int, float, np.number, np.bool_)):
            if not (a is b or a == b):
                self._fail(name, "%r != %r" % (a, b))
            return
        if rel is not None:
            tol = rel * max(abs(float(a)), abs(float(b)), abs(scale) if scale is not None else 1.0)
        if not self._close(a, b, tol, scale):
            self._fail(name, detail or "got %.12g expected %.12g" % (float(a), float(b)))

    def _close(self, a, b, tol=None, scale=None):
        a, b = float(a), float(b)
        if a != a or b != b:
            return a != a and b != b
        if a == b:
            return True
        if a in (float("inf"), float("-inf")) or b in (float("inf"), float("-inf")):
            return False
        t = tol if tol is not None else self.rtol * max(1.0, abs(a), abs(b), abs(scale or 0))
        return abs(a - b) <= t

    def eq(self, a, b, tol=None):
        return self._close(a, b, tol)

    def le(self, a, b, tol=None):
        return float(a) <= float(b) or self._close(a, b, tol)

    def lt(self, a, b):
        return float(a) < float(b) or self._close(a, b)

    def And(self, *c):
        return all(bool(x) for x in c)

    def Or(self, *c):
        return any(bool(x) for x in c)

    def Not(self, c):
        return not bool(c)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def valid(self, cond):
        return bool(cond)

    cos = staticmethod(lambda x: math.cos(x))
    sin = staticmethod(lambda x: math.sin(x))
    sqrt = staticmethod(lambda x: math.sqrt(max(0.0, x)))
    exp = staticmethod(lambda x: math.exp(x))
    log = staticmethod(lambda x: math.log(x))
    rad = staticmethod(lambda x: x * math.pi / 180.0)
    deg = staticmethod(lambda x: x * 180.0 / math.pi)
    abs = staticmethod(lambda x: abs(x))
    pow = staticmethod(lambda a, b: a ** b)
    pi = math.pi

    def patch(self, obj, attr, value):
        SymCtx.patch(self, obj, attr, value)
