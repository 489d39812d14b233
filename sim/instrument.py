"""Decision points inside gaspra's Python code.

The package is imported through a loader that adds, to the syntax tree of each
module, a call before every statement and around every call, attribute,
subscript, comparison and arithmetic expression inside functions.  With no hook
set the calls do nothing; a hook may hand over to another thread or raise.
(CPython 3.12's own instruction tracing crashes with several threads.)
"""

from __future__ import annotations

import ast
import builtins
import importlib.machinery
import os
import sys

STATEMENT = None  # hook(place) before a statement
EXPRESSION = None  # hook(place) after an expression
PLACES = []  # place -> (module, function, line)
EFFECTS = set()  # places next to a statement that changes something


def statement(place):
    if STATEMENT is not None:
        STATEMENT(place)


def expression(place, value):
    if EXPRESSION is not None:
        EXPRESSION(place)
    return value


WRAPPED = (ast.Call, ast.Attribute, ast.Subscript, ast.BinOp, ast.Compare)


def changes_something(s):
    """Whether a statement may change more than a local variable."""
    if isinstance(s, ast.Expr):
        return isinstance(s.value, ast.Call)
    targets = s.targets if isinstance(s, (ast.Assign, ast.Delete)) else [s.target] if isinstance(s, (ast.AugAssign, ast.AnnAssign)) else []
    return any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in targets)


class Transformer(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.functions = []

    def place(self, node):
        PLACES.append((self.module, self.functions[-1], getattr(node, "lineno", 0)))
        return ast.Constant(len(PLACES) - 1)

    def body(self, statements):
        out = []
        changed = False
        for i, s in enumerate(statements):
            doc = i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)
            if not doc and not isinstance(s, (ast.Global, ast.Nonlocal)):
                changes = changes_something(s)
                if changes or changed:
                    EFFECTS.add(len(PLACES))
                changed = changes
                call = ast.Expr(ast.Call(ast.Name("__sim_statement__", ast.Load()), [self.place(s)], []))
                out.append(ast.copy_location(call, s))
            out.append(self.visit(s))
        return out

    def visit_FunctionDef(self, node):
        # decorators, defaults and annotations run at import
        self.functions.append(node.name)
        node.body = self.body(node.body)
        self.functions.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        self.functions.append("<lambda>")
        node.body = self.visit(node.body)
        self.functions.pop()
        return node

    def visit_ClassDef(self, node):
        node.body = [self.visit(s) for s in node.body]
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_match_case(self, node):
        if node.guard is not None:
            node.guard = self.visit(node.guard)
        node.body = self.body(node.body) if self.functions else [self.visit(s) for s in node.body]
        return node

    def generic_visit(self, node):
        if self.functions:
            for name in ("body", "orelse", "finalbody"):
                block = getattr(node, name, None)
                if isinstance(block, list) and block and isinstance(block[0], ast.stmt):
                    setattr(node, name, self.body(block))
            for name, value in ast.iter_fields(node):
                if name in ("body", "orelse", "finalbody") and isinstance(value, list):
                    continue
                if isinstance(value, list):
                    setattr(node, name, [self.visit(v) if isinstance(v, ast.AST) else v for v in value])
                elif isinstance(value, ast.AST):
                    setattr(node, name, self.visit(value))
        else:
            super().generic_visit(node)
        if self.functions and isinstance(node, WRAPPED) and isinstance(getattr(node, "ctx", ast.Load()), ast.Load):
            call = ast.Call(ast.Name("__sim_expression__", ast.Load()), [self.place(node), node], [])
            return ast.copy_location(call, node)
        return node


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        tree = Transformer(os.path.splitext(os.path.basename(path))[0]).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True, optimize=_optimize)


class Finder(importlib.machinery.PathFinder):
    @classmethod
    def find_spec(cls, fullname, path=None, target=None):
        if fullname != "gaspra" and not fullname.startswith("gaspra."):
            return None
        spec = super().find_spec(fullname, path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    """Before gaspra is first imported."""
    if any(m == "gaspra" or m.startswith("gaspra.") for m in sys.modules):
        raise RuntimeError("gaspra is imported already")
    from sim.baton import install_locks

    install_locks()
    builtins.__sim_statement__ = statement
    builtins.__sim_expression__ = expression
    sys.meta_path.insert(0, Finder)
