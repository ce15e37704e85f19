"""Mechanical instrumentation of the real source of ``quantify_scheduler``.

The package under /repo is imported through this hook.  Nothing is rewritten by
hand: every function body is transformed by the following fixed, local rules,
each of which is the identity on concrete Python values:

* every call ``f(*a, **k)`` becomes ``__vc__.call(f, *a, **k)``
  (exceptions: super, locals, globals, vars, eval, exec, isinstance);
* ``x in c`` / ``x not in c`` becomes ``__vc__.contains`` / ``not __vc__.contains``;
* ``x is y`` / ``x is not y`` becomes ``__vc__.is_`` / ``not __vc__.is_``;
* ``for T in IT: B`` gets an iteration object that, when IT is a symbolic
  (unbounded) sequence, cuts the loop with its invariant; otherwise it iterates
  natively;
* ``while C: B`` gets an iteration counter at the head of ``B``;
* a comprehension with a single ``for`` becomes ``__vc__.comp(kind, IT, elt, cond)``.

Decorators, default values, annotations, class bodies and module bodies are not
touched.  Nothing is dropped.
"""
from __future__ import annotations

import ast
import builtins
import importlib.abc
import importlib.machinery
import sys

PKG = "quantify_scheduler"
NO_WRAP = {"super", "locals", "globals", "vars", "eval", "exec", "isinstance", "issubclass"}


def _vc(attr):
    return ast.Attribute(value=ast.Name(id="__vc__", ctx=ast.Load()), attr=attr, ctx=ast.Load())


class _Locals(ast.NodeVisitor):
    """Names bound in one function scope."""

    def __init__(self):
        self.names = set()
        self.excluded = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_Global(self, n):
        self.excluded.update(n.names)

    visit_Nonlocal = visit_Global

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ExceptHandler(self, n):
        # the name is unbound at the end of the handler
        self.generic_visit(n)

    def _comp(self, n):
        # targets of a comprehension are not function locals
        for g in n.generators:
            self.visit(g.iter)

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp


def _flat_names(t):
    if isinstance(t, ast.Name):
        return [t.id]
    return None


class Transformer(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0
        self.locals_stack = []
        self.cnt = 0

    # ---------------------------------------------------------------- scopes
    def _func(self, node):
        loc = _Locals()
        for s in node.body:
            loc.visit(s)
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            loc.names.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x is not None:
                loc.names.add(x.arg)
        self.locals_stack.append(loc.names - loc.excluded)
        self.depth += 1
        new = []
        for s in node.body:
            r = self.visit(s)
            if isinstance(r, list):
                new.extend(r)
            elif r is not None:
                new.append(r)
        node.body = new
        self.depth -= 1
        self.locals_stack.pop()
        return node

    def visit_FunctionDef(self, node):
        return self._func(node)

    def visit_AsyncFunctionDef(self, node):
        return self._func(node)

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        node.body = [self.visit(s) for s in node.body]
        self.depth = d
        return node

    def visit_Lambda(self, node):
        if self.depth:
            node.body = self.visit(node.body)
        return node

    def visit_AnnAssign(self, node):
        if self.depth:
            if node.value is not None:
                node.value = self.visit(node.value)
        return node

    # ----------------------------------------------------------- expressions
    def visit_Call(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        if isinstance(node.func, ast.Name) and node.func.id in NO_WRAP:
            return node
        return ast.copy_location(
            ast.Call(func=_vc("call"), args=[node.func, *node.args], keywords=node.keywords), node
        )

    def visit_Compare(self, node):
        self.generic_visit(node)
        if not self.depth or len(node.ops) != 1:
            return node
        op = node.ops[0]
        a, b = node.left, node.comparators[0]
        if isinstance(op, (ast.In, ast.NotIn)):
            r = ast.Call(func=_vc("contains"), args=[a, b], keywords=[])
            if isinstance(op, ast.NotIn):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return ast.copy_location(r, node)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(b, ast.Constant) and b.value is None:
                return node
            r = ast.Call(func=_vc("is_"), args=[a, b], keywords=[])
            if isinstance(op, ast.IsNot):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return ast.copy_location(r, node)
        return node

    # -------------------------------------------------------- comprehensions
    def _comp(self, node, kind):
        if not self.depth:
            return node
        bad = False
        for sub in ast.walk(node):
            if isinstance(sub, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda)) or (
                isinstance(sub, ast.Name) and sub.id in ("super", "__class__", "locals", "vars")
            ):
                bad = True
        gens = node.generators
        if len(gens) != 1 or gens[0].is_async:
            bad = True
        tgt = gens[0].target
        names = None
        if isinstance(tgt, ast.Name):
            names = tgt.id
        elif isinstance(tgt, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in tgt.elts):
            ids = [e.id for e in tgt.elts]
            names = ids if len(set(ids)) == len(ids) else None
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            ids = [x.id for x in ast.walk(tgt) if isinstance(x, ast.Name)]
            shape = all(isinstance(x, (ast.Tuple, ast.List, ast.Name, ast.expr_context)) for x in ast.walk(tgt))
            names = tgt if shape and len(set(ids)) == len(ids) else None
        if names is None:
            bad = True
        self.generic_visit(node)
        if bad:
            return node

        def mk(body):
            if isinstance(names, str):
                return _lam([names], body)

            def unpack(src, params, body):
                return _lam([src], ast.Call(func=_lam(params, body), keywords=[], args=[
                    ast.Starred(value=ast.Name(id=src, ctx=ast.Load()), ctx=ast.Load())]))

            def nested(t, src, body):
                """a function of ``src`` that evaluates ``body`` with the names of ``t`` bound to the parts of ``src``"""
                params = []
                for j, e in enumerate(t.elts):
                    if isinstance(e, ast.Name):
                        params.append(e.id)
                    else:
                        params.append(f"{src}_{j}")
                        body = ast.Call(func=nested(e, params[-1], body), args=[ast.Name(id=params[-1], ctx=ast.Load())],
                                        keywords=[])
                return unpack(src, params, body)

            if isinstance(names, ast.AST):
                return nested(names, "_vc_e", body)
            return unpack("_vc_e", names, body)

        if kind == "dict":
            elt = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        else:
            elt = node.elt
        cond = ast.Constant(value=None)
        if gens[0].ifs:
            c = gens[0].ifs[0] if len(gens[0].ifs) == 1 else ast.BoolOp(op=ast.And(), values=gens[0].ifs)
            cond = mk(c)
        return ast.copy_location(
            ast.Call(func=_vc("comp"), args=[ast.Constant(value=kind), gens[0].iter, mk(elt), cond], keywords=[]),
            node,
        )

    def visit_ListComp(self, n):
        return self._comp(n, "list")

    def visit_SetComp(self, n):
        return self._comp(n, "set")

    def visit_DictComp(self, n):
        return self._comp(n, "dict")

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen")

    # ----------------------------------------------------------------- loops
    def visit_For(self, node):
        if not self.depth:
            return self.generic_visit(node)
        local = self.locals_stack[-1]
        used = set()
        stored = _Locals()
        stored.visit(node.target)
        for s in node.body:
            stored.visit(s)
            for sub in ast.walk(s):
                if isinstance(sub, ast.Name):
                    used.add(sub.id)
        names = sorted((used | stored.names) & local)
        target_names = sorted(n.id for n in ast.walk(node.target) if isinstance(n, ast.Name))
        self.cnt += 1
        lid = f"_vc_L{self.cnt}"
        tid = f"_vc_t{self.cnt}"
        line = node.lineno
        self.generic_visit(node)
        it = ast.Call(
            func=_vc("for_loop"),
            args=[
                node.iter,
                ast.Constant(value=tuple(names)),
                ast.Constant(value=tuple(sorted(stored.names & local))),
                ast.Constant(value=tuple(target_names)),
                ast.Constant(value=line),
            ],
            keywords=[],
        )
        pre = ast.Assign(targets=[ast.Name(id=lid, ctx=ast.Store())], value=it)

        def rebind(which):
            tgt = ast.Tuple(elts=[ast.Name(id=n, ctx=ast.Store()) for n in names], ctx=ast.Store())
            call = ast.Call(func=ast.Attribute(value=ast.Name(id=lid, ctx=ast.Load()), attr=which, ctx=ast.Load()),
                            args=[], keywords=[])
            if not names:
                st = ast.Expr(value=call)
            else:
                st = ast.Assign(targets=[tgt], value=call)
            return ast.If(
                test=ast.Attribute(value=ast.Name(id=lid, ctx=ast.Load()), attr="cut", ctx=ast.Load()),
                body=[st],
                orelse=[],
            )

        body = [
            rebind("rebind"),
            ast.Assign(targets=[node.target], value=ast.Name(id=tid, ctx=ast.Load())),
            *node.body,
        ]
        new = ast.For(
            target=ast.Name(id=tid, ctx=ast.Store()),
            iter=ast.Name(id=lid, ctx=ast.Load()),
            body=body,
            orelse=[rebind("rebind_exit"), *node.orelse],
            type_comment=None,
        )
        for x in (pre, new):
            ast.copy_location(x, node)
        return [pre, new]

    def visit_While(self, node):
        if not self.depth:
            return self.generic_visit(node)
        self.generic_visit(node)
        self.cnt += 1
        wid = f"_vc_W{self.cnt}"
        pre = ast.Assign(
            targets=[ast.Name(id=wid, ctx=ast.Store())],
            value=ast.Call(func=_vc("while_loop"), args=[ast.Constant(value=node.lineno)], keywords=[]),
        )
        tick = ast.Expr(
            value=ast.Call(func=ast.Attribute(value=ast.Name(id=wid, ctx=ast.Load()), attr="tick", ctx=ast.Load()),
                           args=[], keywords=[])
        )
        node.body = [tick, *node.body]
        ast.copy_location(pre, node)
        return [pre, node]


def _lam(names, body):
    return ast.Lambda(
        args=ast.arguments(
            posonlyargs=[], args=[ast.arg(arg=n) for n in names], vararg=None, kwonlyargs=[], kw_defaults=[],
            kwarg=None, defaults=[]
        ),
        body=body,
    )


def transform_source(data: bytes, filename: str):
    tree = ast.parse(data, filename)
    tree = Transformer().visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        data = self.get_data(path)
        tree = transform_source(data, path)
        return compile(tree, path, "exec", dont_inherit=True)


class PlainLoader(importlib.machinery.SourceFileLoader):
    """the untransformed source, never a cached byte-code file"""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile(self.get_data(path), path, "exec", dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, loader=Loader):
        self.loader = loader

    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = self.loader(spec.loader.name, spec.loader.path)
        return spec


def install(rt):
    builtins.__vc__ = rt
    sys.meta_path.insert(0, Finder())


def install_plain():
    sys.meta_path.insert(0, Finder(PlainLoader))
