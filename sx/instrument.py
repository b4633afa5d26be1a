"""
Load dascore from /repo with call sites and subscripts routed through the
engine.  Every run parses the current source; nothing is cached.
"""
from __future__ import annotations

import ast
import functools
import importlib.abc
import importlib.machinery
import operator
import os
import sys
import types

import numpy as np
import pandas as pd

from . import engine as E
from . import pdmodel as P
from .npmodel import CALLS, INSTANCES, NPF
from .raw import Unsupported
from .sym import (
    SymArray,
    SymScalar,
    _NoLift,
    array_function,
    array_ufunc,
    conc_index,
    deep_concrete,
    has_sym,
    is_sym,
    note_concretize,
    to_symarray,
)

_SKIP_CALLS = {"super", "locals", "globals", "eval", "exec", "vars", "dir", "__import__", "breakpoint"}
SEEN: set = set()  # code objects executed symbolically


class _Tr(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0
        self.scopes = []

    @staticmethod
    def _locals(node):
        """Names bound in this function itself (not in nested ones)."""
        a = node.args
        names = {x.arg for x in [*a.posonlyargs, *a.args, *a.kwonlyargs, *([a.vararg] if a.vararg else []), *([a.kwarg] if a.kwarg else [])]}
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                names.add(n.name)
                continue
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
            todo.extend(ast.iter_child_nodes(n))
        return names

    def _func(self, node):
        # decorators, defaults and annotations stay untouched
        self.scopes.append(self._locals(node))
        try:
            return self._func_body(node)
        finally:
            self.scopes.pop()

    def _target(self, t):
        """name[index] with a local name: stores may turn a real array into a symbolic one."""
        return bool(self.depth and self.scopes and isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in self.scopes[-1])

    def _store(self, node, target, func, extra):
        name = target.value.id
        call = ast.Call(
            func=ast.Name(id=func, ctx=ast.Load()), args=[ast.Name(id=name, ctx=ast.Load()), self._conv(target.slice), *extra], keywords=[]
        )
        return ast.copy_location(ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())], value=call), node)

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and self._target(node.targets[0]):
            return self._store(node, node.targets[0], "_sx_set", [node.value])
        if self.depth and len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and isinstance(node.targets[0].value, ast.Attribute):
            t = node.targets[0]  # frame.loc[index] = value
            call = ast.Call(func=ast.Name(id="_sx_put", ctx=ast.Load()), args=[t.value, self._conv(t.slice), node.value], keywords=[])
            return ast.copy_location(ast.Expr(value=call), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if self._target(node.target):
            return self._store(node, node.target, "_sx_aug", [ast.Constant(value=type(node.op).__name__), node.value])
        return node

    def _func_body(self, node):
        self.depth += 1
        node.body = [self.visit(b) for b in node.body]
        node.body = [x for b in node.body for x in (b if isinstance(b, list) else [b])]
        self.depth -= 1
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_Lambda(self, node):
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    def visit_Compare(self, node):
        # membership in a literal set: compare instead of hashing symbolic values
        self.generic_visit(node)
        node.comparators = [
            ast.copy_location(ast.Tuple(elts=c.elts, ctx=ast.Load()), c) if isinstance(c, ast.Set) and isinstance(op, (ast.In, ast.NotIn)) else c
            for op, c in zip(node.ops, node.comparators)
        ]
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        f = node.func
        if isinstance(f, ast.Name) and f.id in _SKIP_CALLS:
            return node
        return ast.copy_location(
            ast.Call(func=ast.Name(id="_sx_call", ctx=ast.Load()), args=[f, *node.args], keywords=node.keywords), node
        )

    @classmethod
    def _conv(cls, s):
        if isinstance(s, ast.Slice):
            none = ast.Constant(value=None)
            return ast.Call(
                func=ast.Name(id="_sx_slice", ctx=ast.Load()), args=[s.lower or none, s.upper or none, s.step or none], keywords=[]
            )
        if isinstance(s, ast.Tuple):
            return ast.Tuple(elts=[cls._conv(e) for e in s.elts], ctx=ast.Load())
        return s

    def visit_Attribute(self, node):
        # the array or dtype of a pandas object that may hold symbolic values
        self.generic_visit(node)
        if not self.depth or node.attr not in ("values", "dtype") or not isinstance(node.ctx, ast.Load):
            return node
        return ast.copy_location(
            ast.Call(func=ast.Name(id="_sx_attr", ctx=ast.Load()), args=[node.value, ast.Constant(value=node.attr)], keywords=[]), node
        )

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not self.depth or not isinstance(node.ctx, ast.Load):
            return node
        idx = node.slice
        if isinstance(idx, ast.Constant) and isinstance(idx.value, (str,)):
            return node
        return ast.copy_location(
            ast.Call(func=ast.Name(id="_sx_get", ctx=ast.Load()), args=[node.value, self._conv(idx)], keywords=[]), node
        )


_REAL = (np.ndarray, list, tuple, str, range)


def sx_call(f, /, *args, **kwargs):
    e = E.ENGINE
    if e is None:
        return f(*args, **kwargs)
    t = type(f)
    if t is functools.partial:
        return sx_call(f.func, *f.args, *args, **{**f.keywords, **kwargs})
    if t is types.FunctionType:
        h = CALLS.get(f)
        if h is None:
            SEEN.add(f.__code__)
            return f(*args, **kwargs)
    elif t is types.MethodType:
        h = CALLS.get(f.__func__)
        if h is None:
            c = getattr(f.__func__, "__code__", None)
            if c is not None:
                SEEN.add(c)
            if not P.is_pd_method(f):
                return f(*args, **kwargs)
        if P.is_pd_method(f):
            return P.call_method(f, args, kwargs)
        if h is not None and (any(has_sym(a, 2) for a in args) or (kwargs and any(has_sym(a, 2) for a in kwargs.values()))):
            return h(f.__self__, *args, **kwargs)
        return f(*args, **kwargs)
    elif t is type and str(f.__module__).split(".")[0] == "pandas" and f not in CALLS:
        return f(*P.to_obj(args), **P.to_obj(kwargs))
    elif t in INSTANCES and any(has_sym(a, 3) for a in args):
        return INSTANCES[t](f, *args, **kwargs)
    else:
        try:
            h = CALLS.get(f) or NPF.get(f)
        except TypeError:
            h = None
        if (h is not None or t is np.ufunc) and any(isinstance(a, P.PD) for a in args):
            args = tuple(P.lifted(a) if isinstance(a, P.PD) else a for a in args)
        if h is None and t is np.ufunc and any(has_sym(a, 3) for a in args):
            out = array_ufunc(f, "__call__", *args, **kwargs)
            return f(*args, **kwargs) if out is NotImplemented else out
    if (f is np.asarray or f is np.array) and args and type(args[0]).__module__.startswith("dascore.") and hasattr(args[0], "__array__"):
        out = args[0].__array__()
        return sx_call(f, out, *args[1:], **kwargs)
    if h is not None:
        if any(has_sym(a, 3) for a in args) or (kwargs and any(has_sym(a, 2) for a in kwargs.values())):
            try:
                return h(*args, **kwargs)
            except (Unsupported, _NoLift) as ex:
                note_concretize(f"{getattr(f, '__name__', f)}: {ex}")
                return f(*deep_concrete(args), **deep_concrete(kwargs))
        return f(*args, **kwargs)
    if t is types.BuiltinFunctionType or t is types.BuiltinMethodType:
        # methods bound to real arrays, called with symbolic arguments
        s = getattr(f, "__self__", None)
        if type(s) is np.ndarray and (any(has_sym(a, 2) for a in args) or any(has_sym(a, 1) for a in kwargs.values())):
            m = getattr(SymArray, f.__name__, None)
            if m is not None and s.dtype.kind in "biufcMm":
                return m(to_symarray(s), *args, **kwargs)
    return f(*args, **kwargs)


def sx_attr(obj, name):
    if E.ENGINE is None or not isinstance(obj, P.PD):
        return getattr(obj, name)
    return P.attr(obj, name)


def sx_slice(a, b, c):
    return slice(a, b, c)


def sx_get(obj, idx):
    if E.ENGINE is None:
        return obj[idx]
    t = type(obj)
    if t is SymArray:
        return obj[idx]
    if (t is np.ndarray or t is list or t is tuple or t is str or t is range) and has_sym(idx, 2):
        shape = obj.shape if t is np.ndarray else (len(obj),)
        idx = conc_index(idx, shape)
    elif isinstance(obj, P.PD) and has_sym(idx, 2):
        idx = conc_index(idx, obj.shape)
    elif has_sym(idx, 2) and hasattr(obj, "obj") and hasattr(obj, "ndim"):  # .iloc / .loc
        idx = conc_index(idx, obj.obj.shape)
    return obj[idx]


_IOPS = {
    "Add": operator.iadd, "Sub": operator.isub, "Mult": operator.imul, "Div": operator.itruediv, "FloorDiv": operator.ifloordiv, "Mod": operator.imod,
    "Pow": operator.ipow, "BitAnd": operator.iand, "BitOr": operator.ior, "BitXor": operator.ixor, "LShift": operator.ilshift, "RShift": operator.irshift,
    "MatMult": operator.imatmul,
}


def sx_set(obj, idx, val):
    """obj[idx] = val; a real array that receives symbolic values becomes symbolic."""
    if E.ENGINE is not None and (isinstance(obj, P.PD) or type(obj).__module__ == "pandas.core.indexing"):
        val = P.to_obj(val)
        if has_sym(idx, 2):
            idx = conc_index(idx, (len(obj),) if isinstance(obj, P.PD) else obj.obj.shape)
        mask = idx[0] if type(idx) is tuple else idx
        if is_sym(val) and getattr(mask, "dtype", None) == bool:
            # one value per row, as numpy would take the scalar apart
            rep = np.empty(int(np.asarray(mask).sum()), dtype=object)
            for i in range(len(rep)):
                rep[i] = val
            val = rep
    elif E.ENGINE is not None and type(obj) is np.ndarray and obj.dtype.kind in "biufcMm" and (has_sym(val, 2) or has_sym(idx, 2)):
        if obj.base is None:
            obj = to_symarray(obj.copy())
        elif has_sym(idx, 2):
            idx = conc_index(idx, obj.shape)
    elif E.ENGINE is not None and type(obj) is list and has_sym(idx, 2):
        idx = conc_index(idx, (len(obj),))
    obj[idx] = val
    return obj


def sx_put(obj, idx, val):
    if type(obj).__module__ == "pandas.core.indexing":
        sx_set(obj, idx, val)
    else:
        obj[idx] = val


def sx_aug(obj, idx, op, val):
    cur = sx_get(obj, idx)
    if type(cur) is np.ndarray and has_sym(val, 2):
        cur = to_symarray(cur.copy())
    return sx_set(obj, idx, _IOPS[op](cur, val))


class _Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = _Tr().visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True, optimize=_optimize)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__["_sx_call"] = sx_call
        module.__dict__["_sx_get"] = sx_get
        module.__dict__["_sx_slice"] = sx_slice
        module.__dict__["_sx_attr"] = sx_attr
        module.__dict__["_sx_set"] = sx_set
        module.__dict__["_sx_put"] = sx_put
        module.__dict__["_sx_aug"] = sx_aug
        super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = root
        self.checks_root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

    def find_spec(self, name, path=None, target=None):
        if name.startswith("checks."):
            root = self.checks_root
        elif name == "dascore" or name.startswith("dascore."):
            root = self.root
        else:
            return None
        rel = os.path.join(root, *name.split("."))
        init = os.path.join(rel, "__init__.py")
        if os.path.exists(init):
            return importlib.util.spec_from_file_location(
                name, init, loader=_Loader(name, init), submodule_search_locations=[rel]
            )
        if os.path.exists(rel + ".py"):
            return importlib.util.spec_from_file_location(name, rel + ".py", loader=_Loader(name, rel + ".py"))
        return None


# SX_TREE: development aid, to try a planted bug in a scratch copy
TREE = os.environ.get("SX_TREE", "/repo")


def install(root=TREE):
    import importlib.util  # noqa

    sys.dont_write_bytecode = True
    sys.modules["numba"] = None  # jitted functions run as the Python they are; witnesses are replayed compiled
    P.install()
    sys.meta_path.insert(0, _Finder(root))


def functions_seen(root=TREE + "/"):
    return sorted({f"{c.co_filename[len(root):]}:{c.co_qualname}" for c in SEEN if c.co_filename.startswith(root)})


def lazy_models():
    """Register models of functions that need dascore or scipy imported first."""
    from . import extra  # noqa

    extra.register()
