"""Source instrumentation: loads modules from source with operations that must
see symbolic operands (calls, formatting, membership, dict access, identity with
booleans, ``not``, ``%``) routed to the engine. Everything else is executed by
CPython as written."""
import ast
import importlib.abc
import importlib.util
import os
import sys

NOCALL = {"super", "locals", "globals", "vars", "eval", "exec", "dir"}


class T(ast.NodeTransformer):
    def __init__(self, modname=""):
        self.qual = [modname]

    def _n(self, name):
        return ast.Name(id=name, ctx=ast.Load())

    def _call(self, name, args, node):
        return ast.copy_location(ast.Call(func=self._n(name), args=args, keywords=[]), node)

    # annotations are left alone
    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    # stdlib modules written in Python that are executed symbolically as well
    SWAP = {"datetime": "_sxdatetime", "ipaddress": "_sxipaddress"}

    def visit_Import(self, node):
        out = []
        for a in node.names:
            if a.name in self.SWAP:
                out.append(ast.alias(name=self.SWAP[a.name], asname=a.asname or a.name))
            else:
                out.append(a)
        node.names = out
        return node

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module in self.SWAP:
            node.module = self.SWAP[node.module]
        return node

    def visit_arg(self, node):
        return node

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                and f.value.func.id == "str" and len(f.value.args) == 1 and not f.value.keywords \
                and not node.keywords and not any(isinstance(x, ast.Starred) for x in f.value.args + node.args) \
                and (f.attr, len(node.args)) in (("zfill", 1), ("rjust", 2)):
            args = [f.value.func] + f.value.args + node.args
            return self._call("__sx_strpad__", [self.visit(x) for x in args], node)
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NOCALL:
            return node
        return ast.copy_location(
            ast.Call(func=self._n("__sx_call__"), args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec],
                                       ctx=ast.Load()))
        return self._call("__sx_fstr__", parts, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            a, b = node.left, node.comparators[0]
            if isinstance(op, (ast.In, ast.NotIn)):
                r = self._call("__sx_in__", [a, b], node)
                if isinstance(op, ast.NotIn):
                    r = self._call("__sx_not__", [r], node)
                return r
            if isinstance(op, (ast.Is, ast.IsNot)):
                r = self._call("__sx_is__", [a, b], node)
                if isinstance(op, ast.IsNot):
                    r = self._call("__sx_not__", [r], node)
                return r
            return node
        # a < b < c  ->  evaluate pairwise with short circuit
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self._call("__sx_not__", [node.operand], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call("__sx_mod__", [node.left, node.right], node)
        return node

    def visit_SetComp(self, node):
        self.generic_visit(node)
        lst = ast.copy_location(ast.ListComp(elt=node.elt, generators=node.generators), node)
        return self._call("__sx_set__", [lst], node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice):
            return self._call("__sx_getitem__", [node.value, node.slice], node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) \
                and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.copy_location(
                ast.Expr(self._call("__sx_setitem__", [t.value, t.slice, node.value], node)), node)
        # chained:  item = d[k] = v
        if len(node.targets) > 1 and any(isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice)
                                         for t in node.targets):
            tmp = f"__sx_tmp{id(node)}"
            out = [ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=node.value)]
            for t in node.targets:
                if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                    out.append(ast.Expr(self._call("__sx_setitem__", [t.value, t.slice, self._n(tmp)], node)))
                else:
                    out.append(ast.Assign(targets=[t], value=self._n(tmp)))
            for o in out:
                ast.copy_location(o, node)
            return out
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                out.append(ast.copy_location(ast.Expr(self._call("__sx_delitem__", [t.value, t.slice], node)), node))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[t]), node))
        return out

    # patterns contain no expressions we want to rewrite except guards/subject
    def visit_Match(self, node):
        node.subject = self.visit(node.subject)
        for c in node.cases:
            if c.guard is not None:
                c.guard = self.visit(c.guard)
            c.body = self._body(c.body)
        return node

    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def _func(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.qual.append(node.name)
        body = self._body(node.body)
        if node.name in ("__bool__", "__contains__", "__len__"):
            # called by the interpreter itself, which insists on a plain value
            conv = "__sx_plain_int__" if node.name == "__len__" else "__sx_plain_bool__"
            for s in body:
                for r in ast.walk(s):
                    if isinstance(r, ast.Return) and r.value is not None:
                        r.value = self._call(conv, [r.value], r)
        i = 1 if ast.get_docstring(node, clean=False) is not None else 0
        ent = ast.copy_location(ast.Expr(self._call("__sx_enter__", [ast.Constant(".".join(self.qual))], node)), node)
        node.body = body[:i] + [ent] + body[i:]
        self.qual.pop()
        return node

    def visit_ClassDef(self, node):
        self.qual.append(node.name)
        self.generic_visit(node)
        self.qual.pop()
        return node

    def _loop(self, node):
        self.generic_visit(node)
        node.body.insert(0, ast.copy_location(ast.Expr(self._call("__sx_tick__", [], node)), node))
        return node

    visit_While = visit_For = visit_AsyncFor = _loop

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func


def transform(src, filename, modname=""):
    tree = ast.parse(src, filename)
    tree = T(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, path, finder):
        self.path = path
        self.finder = finder

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import calls
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        code = transform(src, self.path, module.__name__)
        module.__dict__.update(calls.HELPERS)
        self.finder.loaded.append(module)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """Instrument the given top-level packages / modules."""

    def __init__(self, roots):
        self.roots = roots  # name -> path (package dir or file)
        self.loaded = []

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top not in self.roots:
            return None
        base = self.roots[top]
        rel = name.split(".")[1:]
        p = os.path.join(base, *rel) if rel else base
        if os.path.isdir(p):
            init = os.path.join(p, "__init__.py")
            if not os.path.isfile(init):
                return None
            spec = importlib.util.spec_from_file_location(
                name, init, loader=Loader(init, self), submodule_search_locations=[p])
            return spec
        f = p if p.endswith(".py") else p + ".py"
        if os.path.isfile(f):
            return importlib.util.spec_from_file_location(name, f, loader=Loader(f, self))
        return None
