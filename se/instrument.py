"""AST instrumentation and loading of the code under test."""
from __future__ import annotations

import ast
import builtins
import importlib.util
import os
import sys
import types

from . import hooks

STD_IMPORTS = {"argparse"}  # pure-Python modules handed symbolic values
SKIP_CALLS = {"super", "locals", "globals", "vars", "__import__", "eval", "exec", "dir", "cast"}


class Tr(ast.NodeTransformer):
    """Route the operations whose C implementation would not accept symbolic
    operands through hooks; everything else stays as written."""

    def _h(self, name):
        return ast.Name("se_h_" + name, ast.Load())

    def _call(self, name, *args):
        return ast.Call(self._h(name), list(args), [])

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in SKIP_CALLS:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.copy_location(ast.Call(self._h("call"), [node.func] + node.args, node.keywords), node)

    OPS = {ast.Is: "is", ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            # a < b in c ...: only rewrite when membership/identity is involved
            return node
        op = type(node.ops[0])
        a, b = node.left, node.comparators[0]
        if op in self.OPS:
            if op in (ast.Is, ast.IsNot) and False:
                return node
            return ast.copy_location(self._call("cmp", ast.Constant(self.OPS[op]), a, b), node)
        if op is ast.Eq:
            return ast.copy_location(self._call("eq", a, b), node)
        if op is ast.NotEq:
            return ast.copy_location(self._call("ne", a, b), node)
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(None)
            return ast.Call(self._h("slice"), [s.lower or none, s.upper or none, s.step or none], [])
        if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
            return ast.Tuple([self._slice(e) for e in s.elts], ast.Load())
        return s

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            if isinstance(node.slice, ast.Tuple) and any(isinstance(e, ast.Starred) for e in node.slice.elts):
                return node
            return ast.copy_location(self._call("getitem", node.value, self._slice(node.slice)), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            # evaluation order: value, object, index
            return ast.copy_location(
                ast.Expr(self._call("setitem_rev", node.value, t.value, self._slice(t.slice))), node)
        return node

    def visit_AnnAssign(self, node):
        # annotations are never evaluated in a way that matters here
        if node.value is not None:
            node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript) and node.value is not None:
            t = self.generic_visit(node.target)
            return ast.copy_location(
                ast.Expr(self._call("setitem_rev", node.value, t.value, self._slice(t.slice))), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        if any(isinstance(t, ast.Subscript) for t in node.targets):
            out = []
            for t in node.targets:
                if isinstance(t, ast.Subscript):
                    out.append(ast.copy_location(
                        ast.Expr(self._call("delitem", t.value, self._slice(t.slice))), node))
                else:
                    out.append(ast.copy_location(ast.Delete([t]), node))
            return out
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self._call("mod", node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                expr = self.visit(v.value)
                conv = ast.Constant(chr(v.conversion) if v.conversion and v.conversion > 0 else None)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([expr, conv, spec], ast.Load()))
        return ast.copy_location(self._call("fstr", *parts), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        pairs = []
        for k, v in zip(node.keys, node.values):
            pairs.append(ast.Tuple([v] if k is None else [k, v], ast.Load()))
        return ast.copy_location(self._call("mkdict", *pairs), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(self._call("mkset", *node.elts), node)

    def visit_DictComp(self, node):
        is_async = any(g.is_async for g in node.generators) or _has_await(node)
        self.generic_visit(node)
        if is_async:
            gen = ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        else:
            gen = ast.ListComp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.copy_location(self._call("dictcomp", gen), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        gen = ast.ListComp(node.elt, node.generators)
        return ast.copy_location(self._call("mkset", ast.Starred(gen, ast.Load())), node)

    # annotations and match patterns are left alone
    def visit_arg(self, node):
        return node

    def _func(self, node):
        ret, node.returns = node.returns, None
        self.generic_visit(node)
        node.returns = ret
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_MatchValue(self, node):
        return node

    def visit_MatchClass(self, node):
        return node

    def visit_MatchMapping(self, node):
        return node


def _has_await(node):
    return any(isinstance(n, ast.Await) for n in ast.walk(node))


class Inner(ast.NodeTransformer):
    """Only what functions do; module and class bodies are run as written."""

    def _func(self, node):
        tr = Tr()
        node.body = [y for x in node.body for y in _listed(tr.visit(x))]
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_Lambda(self, node):
        node.body = Tr().visit(node.body)
        return node


def _listed(x):
    return x if isinstance(x, list) else [x]


def transform(src, filename, tr=Tr):
    tree = ast.parse(src, filename)
    tree = tr().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


def setitem_rev(value, obj, idx):
    return hooks.setitem(obj, idx, value)


HOOKS = {
    "se_instrumented_": True,
    "se_h_call": hooks.call,
    "se_h_cmp": hooks.cmp,
    "se_h_eq": hooks.eq,
    "se_h_ne": hooks.ne,
    "se_h_getitem": hooks.getitem,
    "se_h_setitem_rev": setitem_rev,
    "se_h_delitem": hooks.delitem,
    "se_h_slice": slice,
    "se_h_mod": hooks.binmod,
    "se_h_fstr": hooks.fstr,
    "se_h_mkdict": hooks.mkdict,
    "se_h_mkset": hooks.mkset,
    "se_h_dictcomp": hooks.dictcomp,
}


class Package:
    """Instrumented top-level packages, kept apart from sys.modules."""

    def __init__(self, names, root, extra=()):
        self.names = set(names)
        self.root = root  # directory holding the package directories
        self.modules = {}
        self.extra = list(extra)  # other Packages visible to its imports
        self.builtins = dict(vars(builtins))
        self.builtins["__import__"] = self._import
        self.sources = {}

    def _owner(self, fullname):
        top = fullname.split(".")[0]
        for p in [self] + self.extra:
            if top in p.names:
                return p
        return None

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or globals["__name__"]
            base = pkg.split(".")
            base = base[: len(base) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        owner = self._owner(name)
        if owner is None:
            if name in STD_IMPORTS and "jsonpath" in self.names:
                return hooks.stdlib(name)
            return builtins.__import__(name, globals, locals, fromlist, 0)
        m = owner.load(name)
        if fromlist:
            for f in fromlist:
                if f != "*" and not hasattr(m, f) and owner.find(name + "." + f):
                    owner.load(name + "." + f)
            return m
        return owner.load(name.split(".")[0])

    def find(self, fullname):
        p = os.path.join(self.root, *fullname.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        return None

    def run(self, fullname):
        """Execute a module as a script."""
        path, _ = self.find(fullname)
        m = types.ModuleType("__main__")
        m.__file__ = path
        m.__package__ = fullname.rsplit(".", 1)[0]
        m.__dict__.update(HOOKS)
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["__annotations__"] = {}
        with open(path, encoding="utf-8") as f:
            src = f.read()
        exec(transform(src, path), m.__dict__)

    def load(self, fullname):
        m = self.modules.get(fullname)
        if m is not None:
            return m
        if "." in fullname:
            parent = self.load(fullname.rsplit(".", 1)[0])
        found = self.find(fullname)
        if found is None:
            raise ModuleNotFoundError(f"No module named {fullname!r}", name=fullname)
        path, is_pkg = found
        with open(path, encoding="utf-8") as f:
            src = f.read()
        m = types.ModuleType(fullname)
        m.__file__ = path
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = fullname
        else:
            m.__package__ = fullname.rsplit(".", 1)[0] if "." in fullname else ""
        m.__dict__.update(HOOKS)
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["__annotations__"] = {}
        self.modules[fullname] = m
        self.sources[fullname] = path
        clean = dict(m.__dict__)
        try:
            exec(transform(src, path), m.__dict__)
        except Exception:
            # something at module level that the hooks don't know
            m.__dict__.clear()
            m.__dict__.update(clean)
            try:
                exec(transform(src, path, Inner), m.__dict__)
            except Exception:
                m.__dict__.clear()
                m.__dict__.update(clean)
                exec(compile(src, path, "exec", dont_inherit=True), m.__dict__)
        if "." in fullname:
            setattr(parent, fullname.rsplit(".", 1)[1], m)
        return m


def load_stdlib(name):
    spec = importlib.util.find_spec(name)
    with open(spec.origin, encoding="utf-8") as f:
        src = f.read()
    m = types.ModuleType(name)
    m.__file__ = spec.origin
    m.__package__ = name.rsplit(".", 1)[0] if "." in name else ""
    m.__dict__.update(HOOKS)
    if name == "json.decoder":
        src = src.replace("scanstring = c_scanstring or py_scanstring", "scanstring = py_scanstring")
        src = src.replace("from json import scanner", "scanner = se_std_('json.scanner')")
        m.__dict__["se_std_"] = hooks.stdlib
    if name == "json.scanner":
        src = src.replace("make_scanner = c_make_scanner or py_make_scanner", "make_scanner = py_make_scanner")
    if name == "json.encoder":
        src = src.replace("(c_encode_basestring_ascii or py_encode_basestring_ascii)", "py_encode_basestring_ascii")
        src = src.replace("(c_encode_basestring or py_encode_basestring)", "py_encode_basestring")
        src = src.replace("c_make_encoder is not None", "False")
    exec(transform(src, spec.origin), m.__dict__)
    for k, v in vars(importlib.import_module(name)).items():
        # one class per exception
        if isinstance(v, type) and issubclass(v, Exception):
            m.__dict__[k] = v
    return m
