"""Injection of exceptions into library code at statement and call boundaries.

The seam is the Python compiler: in the processes of the properties that need it, the modules of the enterprise package
are compiled from the working tree through an import hook that puts a probe before every statement of every function and
around every call expression.  Off, a probe does nothing.  While armed, the k-th eligible probe raises the planned
exception, as a failed allocation, a failing numerical routine, or Ctrl-C would:

  interrupt  KeyboardInterrupt before any statement, before any call, after the return of any call
  memory     MemoryError before any statement or call
  linalg     numpy LinAlgError from a call to a numpy/scipy linear-algebra routine
  cholmod    CholmodError (or its not-positive-definite flavour) from a call to scikit-sparse
  user       an exception from a user-supplied function (models.USERHOOK)

(sys.monitoring would not need compilation, but raising from its callbacks corrupts memory in CPython 3.12.3.)
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

import numpy as np

from . import boot

SKIP = {"super", "locals", "vars", "globals", "dir", "eval", "exec", "__import__"}


class UserError(Exception):
    pass


class _T(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0

    def _fn(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if self.depth == 0 or isinstance(node.func, ast.Name) and node.func.id in SKIP:
            return node
        new = ast.Call(func=ast.Name(id="__sim_call__", ctx=ast.Load()), args=[node.func] + node.args, keywords=node.keywords)
        return ast.copy_location(new, node)

    def visit_FunctionDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.depth += 1
        node.body = self._body(node.body, True)
        self.depth -= 1
        return node

    def visit_Lambda(self, node):
        return self._fn(node)

    def _body(self, body, doc=False):
        out = []
        for j, st in enumerate(body):
            isdoc = doc and j == 0 and isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)
            if self.depth and not isdoc and not isinstance(st, (ast.Global, ast.Nonlocal)):
                e = ast.Expr(ast.Call(func=ast.Name(id="__sim_stmt__", ctx=ast.Load()), args=[], keywords=[]))
                out.append(ast.copy_location(e, st))
            out.append(self.visit(st))
        return out

    def generic_visit(self, node):
        for field in ("body", "orelse", "finalbody"):
            v = getattr(node, field, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, field, self._body(v))
        for field, v in ast.iter_fields(node):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                continue
            if isinstance(v, list):
                v[:] = [self.visit(x) if isinstance(x, ast.AST) else x for x in v]
            elif isinstance(v, ast.AST):
                setattr(node, field, self.visit(v))
        return node


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = _T().visit(ast.parse(data, path))
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__["__sim_call__"] = sim_call
        module.__dict__["__sim_stmt__"] = sim_stmt
        super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != "enterprise" and not name.startswith("enterprise."):
            return None
        base = os.path.join(boot.REPO, *name.split("."))
        for fn, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.isfile(fn):
                return importlib.util.spec_from_file_location(
                    name, fn, loader=_Loader(name, fn), submodule_search_locations=[base] if pkg else None
                )
        return None


G = [None]  # the armed guard


def sim_call(fn, /, *a, **k):
    g = G[0]
    if g is None:
        return fn(*a, **k)
    g.before(fn)
    r = fn(*a, **k)
    if g.kind == "interrupt":
        g.fire("after " + getattr(fn, "__name__", "?"))
    return r


def sim_stmt():
    if G[0] is not None and G[0].kind in ("interrupt", "memory"):
        G[0].fire("statement")


def install_hook():
    sys.meta_path.insert(0, _Finder())


class Guard:
    def __init__(self):
        self.kind = None
        self.left = 0
        self.raised = None
        self.where = None
        self.variant = 0
        self.factorisation = False
        self.fallback = False
        from . import models

        models.USERHOOK[0] = self._user

    def _exc(self):
        k = self.kind
        if k == "interrupt":
            return KeyboardInterrupt("injected")
        if k == "memory":
            return MemoryError("injected")
        if k == "linalg":
            return np.linalg.LinAlgError("injected")
        if k == "user":
            return UserError("injected")
        from sksparse.cholmod import CholmodError, CholmodNotPositiveDefiniteError

        try:
            return (CholmodNotPositiveDefiniteError if self.variant else CholmodError)("injected")
        except TypeError:
            return CholmodError("injected")

    def fire(self, where):
        if self.raised is not None:
            return
        self.left -= 1
        if self.left == 0:
            f = sys._getframe(1)
            while "faultcall" in f.f_code.co_filename:
                f = f.f_back
            self.where = "%s: %s" % (f.f_code.co_name, where)
            self.factorisation = self.kind in ("linalg", "cholmod")
            self.raised = self._exc()
            raise self.raised

    def before(self, fn):
        k = self.kind
        if k == "interrupt" or k == "memory":
            self.fire("before " + str(getattr(fn, "__name__", "?")))
        elif k == "linalg" or k == "cholmod":
            mod = getattr(fn, "__module__", None)
            if not isinstance(mod, str):
                mod = str(type(getattr(fn, "__self__", None)).__module__)
            nm = str(getattr(fn, "__name__", type(fn).__name__))
            tmod = str(type(fn).__module__)
            if self.raised is not None:
                # an inverse is computed in another, less accurate way: see ill_scaled in c02.py
                if nm in ("svd", "eigh", "pinv", "pinvh", "lstsq"):
                    self.fallback = True
                return
            if k == "cholmod":
                if mod.startswith("sksparse") or tmod.startswith("sksparse"):
                    self.fire("before " + nm)
            elif "linalg" in mod and mod.split(".")[0] in ("numpy", "scipy"):
                self.fire("before " + nm)

    def _user(self):
        if G[0] is self and self.kind == "user":
            self.fire("user function")

    def arm(self, kind, k, variant=0):
        self.kind, self.left, self.raised, self.where, self.variant = kind, k, None, None, variant
        self.factorisation = False
        self.fallback = False

    def __call__(self, fn):
        """Run fn with the armed fault: ('value', result) or ('fault', exception)."""
        G[0] = self
        try:
            got = fn()
            return "value", got
        except BaseException as e:
            if self.raised is not None and (e is self.raised or type(e) is type(self.raised) and e.args == self.raised.args):
                return "fault", e
            raise
        finally:
            G[0] = None
