"""Loads the real source of the code under test with the symbolic dispatch points inserted.

Nothing is re-implemented: the AST of /repo's current source is compiled and run; only the
places where CPython would leave Python for C (calls of builtins, `in` on str, %, f-strings,
dict/set displays, `is True`) are routed through symx.hooks.
"""
import ast
import builtins
import importlib
import os
import sys
import types

from symx import hooks, core
from symx.containers import SDict, SSet, SFrozen

NO_WRAP = {"super", "locals", "vars", "globals", "eval", "exec", "dir", "__build_class__"}


class Rewriter(ast.NodeTransformer):
    def __init__(self, qual):
        self.stack = [qual]

    def call(self, name, *args):
        return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])

    def _fn(self, node):
        self.stack.append(node.name)
        q = ".".join(self.stack)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        node.body = [self.visit(s) for s in node.body]
        mark = ast.Expr(self.call("__sx_fn__", ast.Constant(q)))
        i = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) \
            and isinstance(node.body[0].value.value, str) else 0
        node.body.insert(i, mark)
        self.stack.pop()
        return node

    visit_FunctionDef = _fn

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NO_WRAP | {"__sx_fn__"}:
            return node
        for kw in node.keywords:
            if kw.arg is None:
                kw.value = self.call("__sx_kw__", kw.value)
        return ast.copy_location(ast.Call(func=ast.Name(id="__sx_call__", ctx=ast.Load()),
                                          args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self.call("__sx_mod__", node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            load = ast.Name(id=node.target.id, ctx=ast.Load())
            return ast.copy_location(ast.Assign(targets=[node.target],
                                                value=self.call("__sx_mod__", load, node.value)), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            l, r = node.left, node.comparators[0]
            if isinstance(op, ast.In):
                return ast.copy_location(self.call("__sx_in__", l, r), node)
            if isinstance(op, ast.NotIn):
                return ast.copy_location(self.call("__sx_notin__", l, r), node)
            none = isinstance(r, ast.Constant) and r.value is None
            if isinstance(op, ast.Is) and not none:
                return ast.copy_location(self.call("__sx_is__", l, r), node)
            if isinstance(op, ast.IsNot) and not none:
                return ast.copy_location(self.call("__sx_isnot__", l, r), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = ast.Constant("") if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple([val, ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(self.call("__sx_fstr__", *parts), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            k = ast.Name(id="__sx_dstar__", ctx=ast.Load()) if k is None else k
            pairs.append(ast.Tuple([k, v], ast.Load()))
        return ast.copy_location(self.call("__sx_dict__", ast.List(pairs, ast.Load())), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.copy_location(self.call("__sx_dict__", gen), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(self.call("__sx_set__", ast.List(node.elts, ast.Load())), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(self.call("__sx_set__", ast.ListComp(node.elt, node.generators)), node)

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name) and node.type.id == "BaseException"):
            node.type = ast.Name(id="Exception", ctx=ast.Load())
        return node


_code = {}


def compile_file(path, modname):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _code:
        with open(path, encoding="utf-8-sig") as f:
            src = f.read()
        tree = ast.parse(src, path)
        fut = [n for n in tree.body if isinstance(n, ast.ImportFrom) and n.module == "__future__"]
        tree = Rewriter(modname).visit(tree)
        ast.fix_missing_locations(tree)
        _code[key] = compile(tree, path, "exec", dont_inherit=True)
    return _code[key]


def sx_fn(q):
    e = core.ENG
    if e is not None:
        e.functions.add(q)


def base_builtins():
    b = dict(vars(builtins))
    b.update(__sx_call__=hooks.sx_call, __sx_mod__=hooks.sx_mod, __sx_in__=hooks.sx_in,
             __sx_notin__=hooks.sx_notin, __sx_is__=hooks.sx_is, __sx_isnot__=hooks.sx_isnot,
             __sx_fstr__=hooks.sx_fstr, __sx_dict__=hooks.sx_dict, __sx_set__=hooks.sx_set,
             __sx_dstar__=hooks.DSTAR, __sx_fn__=sx_fn, __sx_kw__=hooks.sx_unpack_kw,
             dict=SDict, set=SSet, frozenset=SFrozen)
    return b


class World:
    """One fresh import of the package under test (per explored path)."""
    def __init__(self, src, package="opyenxes", extra=None):
        self.src = src
        self.package = package
        self.modules = {}
        self.extra = extra or {}
        from symx import stubs
        self.stubs = stubs.stub_modules(self)
        self.builtins = base_builtins()
        self.builtins["__import__"] = self._import

    def find(self, name):
        base = os.path.join(self.src, *name.split("."))
        if os.path.isdir(base):
            init = os.path.join(base, "__init__.py")
            return (init if os.path.exists(init) else None), True
        if os.path.exists(base + ".py"):
            return base + ".py", False
        return None, False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            parent = self.load(name.rpartition(".")[0])
        path, is_pkg = self.find(name)
        if path is None and not is_pkg:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if is_pkg else name.rpartition(".")[0]
        if is_pkg:
            m.__path__ = [os.path.join(self.src, *name.split("."))]
        m.__dict__["__builtins__"] = self.builtins
        self.modules[name] = m
        if path:
            core.ENG.importing += 1
            try:
                exec(compile_file(path, name), m.__dict__)
            except BaseException:
                self.modules.pop(name, None)
                raise
            finally:
                core.ENG.importing -= 1
        if "." in name:
            setattr(self.load(name.rpartition(".")[0]), name.rpartition(".")[2], m)
        return m

    def load_file(self, path, name):
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        exec(compile_file(path, name), m.__dict__)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            parts = pkg.split(".")
            base = ".".join(parts[:len(parts) - level + 1])
            name = base + ("." + name if name else "")
        top = name.split(".")[0]
        if top == self.package:
            m = self.load(name)
            if not fromlist:
                return self.modules[top]
            for f in fromlist:
                if f != "*" and not hasattr(m, f):
                    try:
                        self.load(name + "." + f)
                    except ModuleNotFoundError:
                        pass
            return m
        if top == "props":
            if name not in self.modules:
                self.modules[name] = self.load_file(os.path.join(os.path.dirname(os.path.dirname(
                    os.path.abspath(__file__))), *name.split(".")) + ".py", name)
            return self.modules[name]
        if name in self.stubs:
            if fromlist:
                return self.stubs[name]
            return self.stubs[top] if top in self.stubs else importlib.import_module(top)
        if top in self.stubs and "." in name:
            pass
        return builtins.__import__(name, globals, locals, fromlist, 0)
