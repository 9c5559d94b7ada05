"""The loop rule.

A harness names functions whose loops are to be cut (`loops=[...]`) and supplies
an invariant per loop (numbered in source order). Those functions are rewritten,
from the current source, so that every loop with an invariant becomes

    check the invariant at entry; forget every name the body assigns (and what
    the invariant declares modified); assume the invariant for a fresh iteration
    number k; then either run the body ONCE and check the invariant for k+1, or
    leave the loop.

break / continue / return keep their meaning. A name that is assigned in the body
and not described by the invariant is a poison value afterwards (using it ends the
proof as 'out of reach'); a heap change the invariant does not declare ends the
proof the same way (frame check). Loops without an invariant run natively."""
import ast
import sys

import numpy as np

from . import sym
from .genpix import GenArray
from .sym import SymBool, SymInt, SymReal, Unsupported, PathEnd, z3, bv
from .symlist import base_list, SymWindow, SymSeq, SymList, SymMap, SymConcat, is_symseq, _val


class Poison:
    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _no(self, *a, **k):
        raise Unsupported("'%s' is used but not described by the loop invariant" % object.__getattribute__(self, "_n"))

    __getattr__ = __setattr__ = __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = _no
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __hash__ = __float__ = __int__ = __index__ = __str__ = __format__ = _no


class Loop:
    """inv(env, k) -> [(name, condition)]; havoc(env, k) -> {name: value of the
    generic state}; modifies: objects the body may change; decreases(env) -> int.
    entry_only: stop once the invariant is established (the rest is proved from
    the invariant alone in another run of the harness); skip: leave the loop with
    nothing but its invariant known (established in another run); entry=False: the
    entry is established in another run (of the same harness); each(env, k): states
    obligations about what the generic iteration k leaves behind"""

    def __init__(self, name, inv, havoc=None, modifies=(), decreases=None, entry_only=False, skip=False, entry=True, each=None):
        self.entry_only, self.skip, self.entry, self.each = entry_only, skip, entry, each
        self.name, self.inv, self.havoc, self.modifies, self.decreases = name, inv, havoc or (lambda env, k: {}), modifies, decreases


def _spec(f, *a):
    try:
        return f(*a)
    except (KeyError, AttributeError, TypeError, IndexError) as e:
        raise Unsupported("the loop invariant does not fit the code (%s: %s)" % (type(e).__name__, e))


def _cells(o):
    v = o.v if isinstance(o, GenArray) else o
    return v if isinstance(v, np.ndarray) else None


def _snapshot(env, skip, skip_objects=()):
    arrays = [_cells(o) for o in skip_objects if _cells(o) is not None]
    seen, todo, out = set(), [v for k, v in env.items() if not k.startswith("_vc")], []
    while todo and len(out) < 4000:
        o = todo.pop()
        if id(o) in seen or id(o) in skip or isinstance(o, (type, SymSeq)) or callable(o):
            continue
        seen.add(id(o))
        if _cells(o) is not None:
            if not any(np.shares_memory(_cells(o), w) for w in arrays):
                out.append((o, _shape(o)))
            continue
        if isinstance(o, dict):
            ch = list(o.values())
        elif isinstance(o, (list, tuple)):
            ch = list(o)
        elif getattr(type(o), "__module__", "").split(".")[0] in ("auv_nav", "auv_cal", "oplab", "correct_images"):
            ch = [getattr(o, s) for s in getattr(type(o), "__slots__", ()) if hasattr(o, s)] if not hasattr(o, "__dict__") else list(vars(o).values())
        else:
            continue
        out.append((o, _shape(o)))
        todo.extend(ch)
    return out


def _shape(o):
    if _cells(o) is not None:
        v = _cells(o)
        return (v.shape, _val(list(v.reshape(-1)))) if v.dtype == object else (v.shape, v.tobytes())
    if isinstance(o, (dict, list, tuple)):
        return _val(o)
    d = vars(o) if hasattr(o, "__dict__") else {s: getattr(o, s) for s in getattr(type(o), "__slots__", ()) if hasattr(o, s)}
    return {k: _val(v) for k, v in d.items() if k != "_vc_src"}


class Run:
    def __init__(self, c, spec, env, it, label, names):
        self.c, self.spec, self.it = c, spec, it
        self.label = "loop-" + spec.name
        env = dict(env)
        self.entry = env["_vc_entry"] = dict(env)
        for n, cond in [] if spec.skip or not spec.entry else _spec(spec.inv, env, SymInt(z3.IntVal(0))):
            c.ensure("%s.entry.%s" % (self.label, n), cond)
        if spec.entry_only:
            raise PathEnd()
        self.k = c.fresh_int("k")
        c._assume(self.k.e >= 0)
        if it is not None:
            self.n = it.sym_len() if is_symseq(it) else SymInt(z3.IntVal(len(it)))
            c._assume(self.k.e <= self.n.e)
        self.st = _spec(spec.havoc, env, self.k)
        self.vals = {}
        for v in names:
            self.vals[v] = self.st[v] if v in self.st else self._auto(v, env)
        env = dict(env, **{k: v for k, v in self.st.items()})
        env.update(self.vals)
        for n, cond in _spec(spec.inv, env, self.k):
            c._assume(bv(cond))
        c.check_feasible()
        mod = list(spec.modifies(env) if callable(spec.modifies) else spec.modifies)
        self.skip = {id(o) for o in mod}
        self.frame = _snapshot(env, self.skip, mod)
        self.lists = [x for x in (base_list(v) for v in env.values()) if isinstance(x, SymList)]
        self.before = [len(x.touched()) for x in self.lists]
        self.windows = [(w, w.a.e, w.b.e) for w in env.values() if isinstance(w, SymWindow) and id(w) not in self.skip]
        self.d0 = spec.decreases(env) if spec.decreases else None
        if not hasattr(c, "loop_log"):
            c.loop_log = []
        if spec.name not in c.loop_log:
            c.loop_log.append(spec.name)

    def _auto(self, v, env):
        if v not in env:
            return Poison(v)
        x = env[v]
        if isinstance(x, (bool, SymBool)):
            return self.c.fresh_bool(v)
        if isinstance(x, (int, SymInt)):
            return self.c.fresh_int(v)
        if isinstance(x, (float, SymReal)):
            return self.c.fresh_real(v)
        return Poison(v)

    def get(self, v):
        return self.vals[v]

    def mut(self, v, x):
        """a list the body appends to: the generic state, where the invariant has one"""
        return self.st.get(v, x)

    def end(self, env):
        for v, old in self.vals.items():
            if isinstance(old, SymInt) and v in env and not isinstance(env[v], (int, SymInt)):
                raise Unsupported("loop variable '%s' changes its type" % v)
            if isinstance(old, SymBool) and v in env and not isinstance(env[v], (bool, SymBool)):
                raise Unsupported("loop variable '%s' changes its type" % v)
        for o, shape in self.frame:
            if _shape(o) != shape:
                raise Unsupported("the loop body changes a %s that the invariant does not mention" % type(o).__name__)
        for x, b in zip(self.lists, self.before):
            if len(x.touched()) > b and id(x) not in self.skip:
                raise Unsupported("the loop body changes items of '%s', which the invariant does not mention" % x.name)
        for w, a, b in self.windows:
            if not (w.a.e.eq(a) and w.b.e.eq(b)):
                raise Unsupported("the loop body deletes from a list")
        env["_vc_entry"] = self.entry
        if self.spec.each:
            _spec(self.spec.each, env, self.k)
        for n, cond in _spec(self.spec.inv, env, self.k + 1):
            self.c.ensure("%s.step.%s" % (self.label, n), cond)
        if self.d0 is not None:
            self.c.ensure("%s.terminates" % self.label, SymBool(z3.And(self.d0.e >= 0, self.spec.decreases(env).e < self.d0.e)))
        raise PathEnd()

    def iterate(self):
        if not self.spec.skip and self.c.decide(self.k.e < self.n.e):
            yield self.it.item(self.k) if is_symseq(self.it) else self.it[self.k]
            self.end(dict(sys._getframe(1).f_locals))
        self.c._assume(self.k.e == self.n.e)
        self.c.check_feasible()

    def once(self):
        if self.spec.skip:
            return
        yield None
        self.end(dict(sys._getframe(1).f_locals))


def vc_loop(fid, n, env, names, it=None):
    c = sym._CTX[0]
    specs = c.scratch.get("loops") if c is not None else None
    spec = specs.get((fid, n)) if specs else None
    want = specs.get((fid, "kinds")) if specs else None
    if want is not None and want != KINDS.get(fid):
        raise Unsupported("the loops of %s are %s, the invariants are for %s" % (fid, KINDS.get(fid), want))
    if spec is None:
        if is_symseq(it):
            raise Unsupported("loop %d of %s runs over a list of symbolic length and has no invariant" % (n, fid))
        return None
    return Run(c, spec, dict(env), it, "%s#%d" % (fid, n), names)


def vc_iter(run, it):
    return it if run is None else run.iterate()


def vc_once(run):
    import itertools

    return run.once() if run is not None else itertools.repeat(None)


def vc_comp(it, f, cond=None):
    if is_symseq(it):
        if cond is not None:
            raise Unsupported("filtering comprehension over a symbolic list")
        return SymConcat([SymMap(it, f)])
    return [f(x) for x in it if cond is None or cond(x)]


def vc_iadd(a, b):
    """a += b"""
    if is_symseq(b) and isinstance(a, list):
        return SymConcat(([list(a)] if a else []) + [b])
    if isinstance(a, SymConcat):
        return SymConcat(a.parts + [b])
    a += b
    return a


def vc_unzip(x):
    """zip(*x)"""
    if is_symseq(x):
        first = x.item(0) if sym.ctx().decide(x.sym_len().e > 0) else None
        if first is None:
            return iter(())
        if not isinstance(first, tuple):
            raise Unsupported("zip(*x) of a list of %s" % type(first).__name__)
        return iter([SymMap(x, lambda t, i=i: t[i]) for i in range(len(first))])
    return zip(*x)


def _assigned(nodes):
    out = set()
    for b in nodes:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
    comp = set()
    for b in nodes:
        for n in ast.walk(b):
            if isinstance(n, ast.comprehension):
                comp |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
    # names that only occur as comprehension variables do not leak
    stores = set()
    for b in nodes:
        stores |= _stores(b)
    return sorted(out & stores)


def _stores(node):
    out = set()
    for ch in ast.iter_child_nodes(node):
        if isinstance(ch, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)):
            continue
        out |= _stores(ch)
    if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Store):
        out.add(node.id)
    return out


def _mutated(nodes):
    """names whose object the statements may change: x.f(...), x[..] = , x.a = """
    out = set()
    for b in nodes:
        for n in ast.walk(b):
            t = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                t = n.func.value
            elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                t = n.value
            while isinstance(t, (ast.Attribute, ast.Subscript)):
                t = t.value
            if isinstance(t, ast.Name):
                out.add(t.id)
    return out


class Cutter(ast.NodeTransformer):
    def __init__(self, wanted):
        self.wanted, self.stack, self.cur, self.n = set(wanted), [], None, 0
        self.found = set()

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_FunctionDef(self, node):
        q = ".".join(self.stack + [node.name])
        self.stack.append(node.name)
        if self.cur is None and q in self.wanted:
            self.cur, self.n = q, 0
            a = node.args
            self.locals = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | set().union(*[_stores(b) for b in node.body])
            self.found.add(q)
            KINDS[q] = ""
            self.generic_visit(node)
            self.cur = None
        else:
            self.generic_visit(node)
        self.stack.pop()
        return node

    def _head(self, k, names, it, body):
        e = lambda s: ast.parse(s, mode="eval").body
        call = e("_vc_loop(%r, %d, locals(), %r)" % (self.cur, k, names))
        if it is not None:
            call.args.append(e("_vcI_%d" % k))
        out = [ast.Assign([ast.Name("_vcL_%d" % k, ast.Store())], call)]
        cand = sorted((_mutated(body) & self.locals) - set(names))
        body = [ast.parse("%s = _vcL_%d.get(%r)" % (v, k, v)).body[0] for v in names]
        body += [ast.parse("if %r in locals():\n %s = _vcL_%d.mut(%r, %s)" % (v, v, k, v, v)).body[0] for v in cand]
        if body:
            out.append(ast.If(e("_vcL_%d is not None" % k), body, []))
        return out

    def visit_For(self, node):
        if self.cur is None:
            return self.generic_visit(node)
        k = self.n
        self.n += 1
        KINDS[self.cur] += "f"
        names = _assigned(node.body + [node.target])
        self.generic_visit(node)
        e = lambda s: ast.parse(s, mode="eval").body
        out = [ast.Assign([ast.Name("_vcI_%d" % k, ast.Store())], node.iter)] + self._head(k, names, True, node.body)
        node.iter = e("_vc_iter(_vcL_%d, _vcI_%d)" % (k, k))
        out.append(node)
        return [ast.copy_location(x, node) for x in out]

    def visit_While(self, node):
        if self.cur is None or node.orelse:
            return self.generic_visit(node)
        k = self.n
        self.n += 1
        KINDS[self.cur] += "w"
        names = _assigned(node.body)
        self.generic_visit(node)
        e = lambda s: ast.parse(s, mode="eval").body
        test = ast.If(ast.UnaryOp(ast.Not(), node.test), [ast.Break()], [])
        loop = ast.For(ast.Name("_vcW_%d" % k, ast.Store()), e("_vc_once(_vcL_%d)" % k), [test] + node.body, [])
        return [ast.copy_location(x, node) for x in self._head(k, names, None, node.body) + [loop]]

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if self.cur is None or not isinstance(node.op, ast.Add) or not isinstance(node.target, ast.Name):
            return node
        call = ast.Call(ast.Name("_vc_iadd", ast.Load()), [ast.Name(node.target.id, ast.Load()), node.value], [])
        return ast.copy_location(ast.Assign([node.target], call), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if self.cur is not None and isinstance(node.func, ast.Name) and node.func.id == "zip" and len(node.args) == 1 and isinstance(node.args[0], ast.Starred) and not node.keywords:
            return ast.copy_location(ast.Call(ast.Name("_vc_unzip", ast.Load()), [node.args[0].value], []), node)
        return node

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if self.cur is None or len(node.generators) != 1:
            return node
        g = node.generators[0]
        names = [g.target] if isinstance(g.target, ast.Name) else g.target.elts if isinstance(g.target, ast.Tuple) else []
        if g.is_async or not names or not all(isinstance(x, ast.Name) for x in names) or len(g.ifs) > 1:
            return node
        arg = ast.arguments([], [ast.arg(x.id) for x in names], None, [], [], None, [])
        star = lambda f: f if isinstance(g.target, ast.Name) else ast.Call(ast.Name("_vc_star", ast.Load()), [f], [])
        args = [g.iter, star(ast.Lambda(arg, node.elt))]
        if g.ifs:
            args.append(star(ast.Lambda(arg, g.ifs[0])))
        return ast.copy_location(ast.Call(ast.Name("_vc_comp", ast.Load()), args, []), node)


def install(names):
    """names: fully qualified functions whose loops are cut"""
    from . import loader, shims

    shims.BUILTINS.update(_vc_loop=vc_loop, _vc_iter=vc_iter, _vc_once=vc_once, _vc_comp=vc_comp, _vc_iadd=vc_iadd, _vc_unzip=vc_unzip, _vc_star=lambda f: (lambda t: f(*t)))
    by = {}
    for q in names or ():
        parts = q.split(".")
        for i in range(len(parts), 0, -1):
            import os

            if os.path.exists(os.path.join(loader.SRC, *parts[:i]) + ".py"):
                by.setdefault(".".join(parts[:i]), set()).add(".".join(parts[i:]))
                break
    for m, fs in by.items():
        loader.TRANSFORM[m] = lambda tree, fs=fs: _cut(tree, fs)


def _cut(tree, fs):
    c = Cutter(fs)
    t = c.visit(tree)
    if c.found != set(fs):
        MISSING.extend(sorted(set(fs) - c.found))
    return t


MISSING = []
KINDS = {}  # function -> its loops in source order, f(or) / w(hile)
