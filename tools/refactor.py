"""Behaviour-preserving rewrites of the whole Python tree of /repo (run by hand): every check has to stay quiet on each.

  python3 tools/refactor.py KIND DEST      KIND: names | loops | helpers | lines
  VERIF_REPO=DEST PYTHONPATH=. /opt/venv/bin/python -m sim.harness check C05
"""
import ast
import os
import shutil
import sys


def bound(fn):
    """Names local to a function that can be renamed: assigned in it, no argument, no global, no use in nested scopes."""
    args = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    for a in (fn.args.vararg, fn.args.kwarg):
        if a:
            args.add(a.arg)
    names, banned = set(), set(args)
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            banned |= set(n.names)
        elif isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not fn:
            banned |= {getattr(n, "name", "")}
            for m in ast.walk(n):
                if isinstance(m, ast.Name):
                    banned.add(m.id)
                elif isinstance(m, ast.arg):
                    banned.add(m.arg)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            banned |= {(a.asname or a.name).split(".")[0] for a in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            banned.add(n.name)
    return names - banned


class Names(ast.NodeTransformer):
    """Locals renamed, results kept in a local before they are returned."""

    def visit_FunctionDef(self, fn):
        m = {x: x + "_r" for x in bound(fn)}
        nested = [n for n in ast.walk(fn) if n is not fn and isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda))]

        class R(ast.NodeTransformer):
            def visit_Name(s, n):
                n.id = m.get(n.id, n.id)
                return n

            def visit_Return(s, n):
                s.generic_visit(n)
                if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
                    return n
                return [ast.Assign([ast.Name("value_r", ast.Store())], n.value), ast.Return(ast.Name("value_r", ast.Load()))]

            def visit_FunctionDef(s, n):
                if n is fn:
                    s.generic_visit(n)
                return n
            visit_Lambda = visit_ClassDef = lambda s, n: n
        if not nested:
            R().visit(fn)
        else:
            self.generic_visit(fn)
        return fn


class Loops(ast.NodeTransformer):
    """for -> while over an iterator, element updates written out, branches swapped (outside of compiled functions)."""
    k = 0

    def visit_FunctionDef(self, fn):
        if fn.decorator_list and "property" not in ast.dump(fn.decorator_list[0]):
            return fn
        self.generic_visit(fn)
        return fn

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            return n
        Loops.k += 1
        it = f"it_{Loops.k}"
        get = ast.Try([ast.Assign([n.target], ast.Call(ast.Name("next", ast.Load()), [ast.Name(it, ast.Load())], []))],
                      [ast.ExceptHandler(ast.Name("StopIteration", ast.Load()), None, [ast.Break()])], [], [])
        return [ast.Assign([ast.Name(it, ast.Store())], ast.Call(ast.Name("iter", ast.Load()), [n.iter], [])),
                ast.While(ast.Constant(True), [get] + n.body, [])]

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        t = n.target
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(t.slice, (ast.Name, ast.Constant)):
            load = ast.Subscript(ast.Name(t.value.id, ast.Load()), t.slice, ast.Load())
            return ast.Assign([t], ast.BinOp(load, n.op, n.value))
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class Helpers(ast.NodeTransformer):
    """The body of every plain function and method moves into a function of its own."""

    def visit_Module(self, mod):
        out = []
        for st in mod.body:
            if isinstance(st, ast.FunctionDef):
                out += self.split(st, "")
            elif isinstance(st, ast.ClassDef):
                pre, body = [], []
                for f in st.body:
                    if isinstance(f, ast.FunctionDef):
                        r = self.split(f, st.name + "_")
                        pre += r[:-1]
                        body.append(r[-1])
                    else:
                        body.append(f)
                st.body = body
                out += pre + [st]
            else:
                out.append(st)
        mod.body = out
        # a docstring and __future__ imports stay first
        return mod

    def split(self, fn, prefix):
        a = fn.args
        if (fn.decorator_list and prefix == "") or a.vararg or a.kwarg or a.kwonlyargs or fn.name.startswith("__getattr") or \
                any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)) for x in ast.walk(fn)) or \
                any(isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in ast.walk(fn)) or \
                any(isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__") for x in ast.walk(fn)):
            return [fn]
        name = f"_do_{prefix}{fn.name}"
        import copy
        inner = ast.FunctionDef(name, ast.arguments([], copy.deepcopy(a.args), None, [], [], None, []), fn.body, [], None)
        names = [x.arg for x in a.args]
        for x in inner.args.args:
            x.annotation = None
        fn.body = [ast.Return(ast.Call(ast.Name(name, ast.Load()), [ast.Name(x, ast.Load()) for x in names], []))]
        return [inner, fn]


class Lines(ast.NodeTransformer):
    """Assertions of the obvious, statements that do nothing, extra nesting."""

    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        doc = fn.body[:1] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else []
        body = fn.body[len(doc):]
        if not fn.decorator_list:
            body = [ast.Expr(ast.Constant(None)), ast.If(ast.Constant(True), body, [])] if body else body
        fn.body = doc + [ast.Pass()] + body
        return fn


KINDS = dict(names=Names, loops=Loops, helpers=Helpers, lines=Lines)


def main():
    kind, dest = sys.argv[1:]
    shutil.rmtree(dest, ignore_errors=True)
    shutil.copytree("/repo", dest, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    for d in ("edpyt", "edpyt_backend"):
        for f in sorted(os.listdir(os.path.join(dest, d))):
            p = os.path.join(dest, d, f)
            if f.endswith(".py"):
                t = KINDS[kind]().visit(ast.parse(open(p).read()))
                with open(p, "w") as g:
                    g.write(ast.unparse(ast.fix_missing_locations(t)) + "\n")
                compile(open(p).read(), p, "exec")


if __name__ == "__main__":
    main()
