"""Loads koreo from /repo's current working tree, instrumented on the fly.

The transformation is regenerated from source on every run and keeps behaviour:
 * f-strings are assembled by `__sx_fstr__`, so a symbolic text survives them;
 * calls go through `__sx_call__`, which only deviates when an argument is
   symbolic and the callee is a C function that would drop the symbol.
"""
from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

SRC = os.environ.get("KOREO_SRC", "/repo/src")

_SKIP = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "print", "TypeVar", "isinstance", "type"}


class _T(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in _SKIP:
            return node
        return ast.copy_location(
            ast.Call(
                func=ast.Name(id="__sx_call__", ctx=ast.Load()),
                args=[f, *node.args],
                keywords=node.keywords,
            ),
            node,
        )

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1 or not isinstance(node.ops[0], (ast.In, ast.NotIn)):
            return node
        call = ast.Call(func=ast.Name(id="__sx_in__", ctx=ast.Load()), args=[node.left, node.comparators[0]], keywords=[])
        if isinstance(node.ops[0], ast.NotIn):
            call = ast.UnaryOp(op=ast.Not(), operand=call)
        return ast.copy_location(call, node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load) or isinstance(node.slice, (ast.Slice, ast.Constant, ast.Tuple)):
            return node
        return ast.copy_location(
            ast.Call(func=ast.Name(id="__sx_item__", ctx=ast.Load()), args=[node.value, node.slice], keywords=[]), node
        )

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
                continue
            spec = v.format_spec
            parts.append(
                ast.Call(
                    func=ast.Name(id="__sx_fmt__", ctx=ast.Load()),
                    args=[
                        self.visit(v.value),
                        ast.Constant(v.conversion),
                        self.visit(spec) if spec is not None else ast.Constant(""),
                    ],
                    keywords=[],
                )
            )
        return ast.copy_location(
            ast.Call(func=ast.Name(id="__sx_fstr__", ctx=ast.Load()), args=parts, keywords=[]),
            node,
        )

    # annotations, decorators and class headers stay as they are
    def visit_FunctionDef(self, node):
        node.body = [self.visit(s) for s in node.body]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        node.body = [self.visit(s) for s in node.body]
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_match_case(self, node):
        if node.guard is not None:
            node.guard = self.visit(node.guard)
        node.body = [self.visit(s) for s in node.body]
        return node

    def visit_TypeAlias(self, node):
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as fh:
            data = fh.read()
        tree = ast.parse(data, filename=path)
        tree = ast.fix_missing_locations(_T().visit(tree))
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        from . import shim

        module.__dict__["__sx_call__"] = shim.sx_call
        module.__dict__["__sx_fstr__"] = shim.sx_fstr
        module.__dict__["__sx_fmt__"] = shim.sx_fmt
        module.__dict__["__sx_in__"] = shim.sx_in
        module.__dict__["__sx_item__"] = shim.sx_item
        super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, names):
        self.names = names

    def find_spec(self, fullname, path=None, target=None):
        if fullname == "kr8s._objects":
            # builds URLs from object names: symbolic names must survive
            spec = importlib.machinery.PathFinder.find_spec(fullname, path)
            return importlib.util.spec_from_file_location(fullname, spec.origin, loader=_Loader(fullname, spec.origin))
        if fullname.split(".")[0] not in self.names:
            return None
        if fullname.startswith("koreo"):
            base = os.path.join(SRC, *fullname.split("."))
        else:
            return None
        pkg = os.path.join(base, "__init__.py")
        mod = base + ".py"
        if os.path.exists(pkg):
            return importlib.util.spec_from_file_location(
                fullname, pkg, loader=_Loader(fullname, pkg), submodule_search_locations=[base]
            )
        if os.path.exists(mod):
            return importlib.util.spec_from_file_location(fullname, mod, loader=_Loader(fullname, mod))
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        return None


def install(symbolic: bool):
    """Make `import koreo` load /repo's working tree (instrumented or native)."""
    sys.dont_write_bytecode = True
    assert "koreo" not in sys.modules
    if symbolic:
        sys.meta_path.insert(0, _Finder({"koreo"}))
        from . import shim

        shim.patch_constructors()
    else:
        if SRC in sys.path:
            sys.path.remove(SRC)
        sys.path.insert(0, SRC)
    import logging

    logging.disable(logging.CRITICAL)
    import koreo  # noqa
    from .cluster import install_class_memory

    install_class_memory()

    root = os.path.realpath(SRC)
    got = os.path.realpath(list(koreo.__path__)[0] if not getattr(koreo, "__file__", None) else os.path.dirname(koreo.__file__))
    assert got.startswith(root), (got, root)


def settle():
    """koreo needs Python >= 3.13; this sandbox has 3.12 (the venv's own
    _py313_compat supplies the missing library functions).  CPython 3.12's
    compiler keeps mangling module-level `__names` after a generic class with a
    private name (`class __X[T]`), so functions before and after it see different
    globals and koreo.cache.get_resource_from_cache raises NameError.  Give each
    such global both names, as if compiled by 3.13."""
    import re

    if sys.version_info >= (3, 13):
        return
    for name, mod in list(sys.modules.items()):
        if name.split(".")[0] != "koreo":
            continue
        ns = vars(mod)
        leaked = {m[1] for k in ns if (m := re.match(r"(_[A-Za-z]\w*?)__[A-Za-z]\w*$", k))}
        for prefix in leaked:
            for k in list(ns):
                if k.startswith(prefix + "__"):
                    ns.setdefault(k[len(prefix):], ns[k])
                elif k.startswith("__") and not k.endswith("__") and not k.startswith("__sx"):
                    ns.setdefault(prefix + k, ns[k])
