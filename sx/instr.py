"""Loading the package under test from source with the symbolic hooks compiled in."""
from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import shims

ROOT = os.environ.get("SX_REPO", "/repo")
LOADED = {}


class Rewrite(ast.NodeTransformer):
    def _n(self, name):
        return ast.Attribute(ast.Name("_sx_", ast.Load()), name, ast.Load())

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals", "vars", "dir") :
            node.args = [self.visit(a) for a in node.args]
            return node
        self.generic_visit(node)
        new = ast.Call(self._n("call"), [node.func] + node.args, node.keywords)
        return ast.copy_location(new, node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([val, ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(ast.Call(self._n("fstr"), parts, []), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                sl = ast.Call(ast.Name("slice", ast.Load()),
                              [x if x is not None else ast.Constant(None) for x in (sl.lower, sl.upper, sl.step)], [])
                sl.func = self._n("slice_")
            elif isinstance(sl, ast.Tuple) and any(isinstance(e, ast.Slice) for e in sl.elts):
                return node
            return ast.copy_location(ast.Call(self._n("getitem"), [node.value, sl], []), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(self._n("mod"), [node.left, node.right], []), node)
        return node

    def visit_AugAssign(self, node):
        # the target is a store; its value is rewritten
        node.value = self.visit(node.value)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign([node.target], ast.Call(
                self._n("mod"), [ast.Name(node.target.id, ast.Load()), node.value], [])), node)
        if isinstance(node.target, ast.Attribute):
            node.target.value = self.visit(node.target.value)
        elif isinstance(node.target, ast.Subscript):
            node.target.value = self.visit(node.target.value)
            node.target.slice = self.visit(node.target.slice)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            r = node.comparators[0]
            fn = None
            if isinstance(op, ast.In):
                fn = "contains"
            elif isinstance(op, ast.NotIn):
                fn = "not_in"
            elif isinstance(op, (ast.Is, ast.IsNot)) and not (isinstance(r, ast.Constant) and r.value in (None, ...)):
                fn = "is_" if isinstance(op, ast.Is) else "is_not"
            if fn:
                return ast.copy_location(ast.Call(self._n(fn), [node.left, r], []), node)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.copy_location(ast.Name("Exception", ast.Load()), node)
        elif isinstance(node.type, ast.Name) and node.type.id == "BaseException":
            node.type = ast.copy_location(ast.Name("Exception", ast.Load()), node)
        return node

    # annotations stay as written
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        node.body = [self.visit(s) for s in node.body]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Assert(self, node):
        return self.generic_visit(node)


shims.slice_ = slice


def instrument(src, filename):
    tree = ast.parse(src, filename)
    tree = Rewrite().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


_code_cache = {}


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__dict__["_sx_"] = shims
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        LOADED[module.__name__] = module
        exec(instrument(src, self.path), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, packages):
        self.root, self.packages = root, packages

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] not in self.packages:
            return None
        base = os.path.join(self.root, *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            fn = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(name, fn, loader=Loader(fn),
                                                          submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=Loader(base + ".py"))
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


def install(root=None):
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder(root or ROOT, {"aeromet_py"}))
    import aeromet_py  # noqa: F401


# --------------------------------------------------------------------------- module state between paths
class State:
    """Snapshot of mutable module and class state of the package, restored before every path."""

    def __init__(self):
        self.vars = []
        self.conts = []
        self.caches = []
        seen = set()

        def cont(o, depth=0):
            if id(o) in seen or depth > 3:
                return
            if isinstance(o, (list, dict, set)) and type(o).__name__ in ("list", "dict", "set", "defaultdict", "OrderedDict"):
                seen.add(id(o))
                self.conts.append((o, o.copy()))
                if len(o) < 500:
                    for v in (o.values() if isinstance(o, dict) else o):
                        cont(v, depth + 1)
        for m in list(LOADED.values()):
            if m.__name__.split(".")[0] != "aeromet_py":  # the harnesses may keep results for all paths
                continue
            d = vars(m)
            self.vars.append((d, dict(d)))
            for n, v in list(d.items()):
                if n.startswith("__"):
                    continue
                cont(v)
                self._obj(v, m.__name__, cont, seen)

    def _obj(self, v, mod, cont, seen):
        if isinstance(v, type) and v.__module__.startswith("aeromet_py") and id(v) not in seen:
            seen.add(id(v))
            d = {k: x for k, x in vars(v).items() if k not in ("__dict__", "__weakref__", "__doc__", "_abc_impl")}
            self.vars.append((v, d))
            for x in d.values():
                cont(x)
                f = x.__func__ if isinstance(x, (classmethod, staticmethod)) else x.fget if isinstance(x, property) else x
                self._fn(f, cont)
        else:
            self._fn(v, cont)
            if not isinstance(v, (type, types.ModuleType, types.FunctionType)) and hasattr(v, "__dict__") and \
                    type(v).__module__.startswith("aeromet_py") and id(v) not in seen:
                seen.add(id(v))
                self.vars.append((vars(v), dict(vars(v))))
                for x in vars(v).values():
                    cont(x)

    def _fn(self, f, cont):
        if hasattr(f, "cache_clear"):
            self.caches.append(f)
        for x in (getattr(f, "__defaults__", None) or ()):
            cont(x)
        for x in (getattr(f, "__kwdefaults__", None) or {}).values():
            cont(x)
        if isinstance(f, types.FunctionType):
            if f.__dict__ or True:
                self.vars.append((f.__dict__, dict(f.__dict__)))
            for c in f.__closure__ or ():
                try:
                    cont(c.cell_contents)
                except ValueError:
                    pass

    def restore(self):
        for o, snap in self.vars:
            if isinstance(o, dict):
                if len(o) != len(snap) or any(o.get(k) is not v for k, v in snap.items()):
                    for k in list(o):
                        if k not in snap:
                            del o[k]
                    o.update(snap)
            else:
                for k in list(vars(o)):
                    if k not in snap and k not in ("__dict__", "__weakref__", "__doc__", "_abc_impl", "__abstractmethods__"):
                        try:
                            delattr(o, k)
                        except (AttributeError, TypeError):
                            pass
                for k, v in snap.items():
                    if vars(o).get(k) is not v:
                        try:
                            setattr(o, k, v)
                        except (AttributeError, TypeError):
                            pass
        for o, snap in self.conts:
            if len(o) != len(snap) or len(o) < 500:
                if isinstance(o, list):
                    if len(o) != len(snap) or any(x is not y for x, y in zip(o, snap)):
                        o[:] = snap
                elif isinstance(o, dict):
                    if len(o) != len(snap) or any(o.get(k, o) is not v for k, v in snap.items()):
                        o.clear()
                        o.update(snap)
                else:
                    if len(o) != len(snap) or o != snap:
                        o.clear()
                        o.update(snap)
        for f in self.caches:
            f.cache_clear()
