"""Import hook: in the proof worker, modules under /repo/src are executed from
their current source with the shim builtins (and, on request, with loops cut)."""
import ast
import importlib.abc
import importlib.util
import os
import sys

SRC = os.environ.get("VC_SRC", "/repo/src")  # the variable is for tools_mut.py only
TRANSFORM = {}  # module name -> ast transformer
LOADED = {}


class CallRewriter(ast.NodeTransformer):
    """float(x) -> _vc_float(x) etc. (calls only; type names keep their meaning)"""

    N = ("float", "int", "bool", "list", "set")

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in self.N:
            n.func = ast.copy_location(ast.Name("_vc_" + n.func.id, ast.Load()), n.func)
        elif isinstance(n.func, ast.Name) and n.func.id == "map" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in self.N:
            n.args[0] = ast.copy_location(ast.Name("_vc_" + n.args[0].id, ast.Load()), n.args[0])
        return n


class _Loader(importlib.abc.Loader):
    def __init__(self, name, path):
        self.name, self.path = name, path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import shims

        src = open(self.path, encoding="utf-8").read()
        tree = ast.parse(src, self.path)
        tree = CallRewriter().visit(tree)
        ast.fix_missing_locations(tree)
        t = TRANSFORM.get(module.__name__)
        if t is not None:
            tree = t(tree)
            ast.fix_missing_locations(tree)
        code = compile(tree, self.path, "exec")
        module.__dict__["__builtins__"] = shims.BUILTINS
        LOADED[module.__name__] = self.path
        exec(code, module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):
    PK = ("auv_nav", "auv_cal", "correct_images", "oplab", "scripts")

    def find_spec(self, name, path, target=None):
        top = name.split(".")[0]
        if top not in self.PK:
            return None
        base = os.path.join(SRC, *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(name, p, loader=_Loader(name, p), submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=_Loader(name, base + ".py"))
        if os.path.isdir(base):
            spec = importlib.util.spec_from_loader(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


def install_symbolic():
    sys.meta_path.insert(0, _Finder())


def install_concrete():
    sys.path.insert(0, SRC)
    sys.dont_write_bytecode = True
