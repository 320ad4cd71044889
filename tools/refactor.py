"""Behaviour-preserving rewrites of the whole library, to show that the checks judge behaviour and not text.

usage: refactor.py SRC DST VARIANT   (VARIANT: locals | extract)
locals:  local names renamed, if/else swapped, results named before return, statements that do nothing, comments and formatting dropped
extract: the body of every undecorated function or method moves to a helper
"""
import ast
import shutil
import subprocess
import sys
from pathlib import Path

ARGS = lambda a: [*a.posonlyargs, *a.args, *a.kwonlyargs, *([a.vararg] if a.vararg else []), *([a.kwarg] if a.kwarg else [])]  # noqa: E731


class Locals(ast.NodeTransformer):
    def visit_FunctionDef(self, fn):
        inner = [n for s in fn.body for n in ast.walk(s) if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef))]
        calls = {n.func.id for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
        if not inner and not calls & {"locals", "eval", "exec", "vars"}:
            skip = {a.arg for a in ARGS(fn.args)}
            for n in ast.walk(fn):
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    skip |= set(n.names)
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    skip |= {(a.asname or a.name).split(".")[0] for a in n.names}
                if isinstance(n, ast.MatchAs):
                    skip.add(n.name)
            names = {n.id for s in fn.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))} - skip
            names |= {n.name for n in ast.walk(fn) if isinstance(n, ast.ExceptHandler) and n.name} - skip
            for s in fn.body:
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and n.id in names:
                        n.id += "_r"
                    if isinstance(n, ast.ExceptHandler) and n.name in names:
                        n.name += "_r"
        self.generic_visit(fn)
        doc = ast.get_docstring(fn, clean=False) is not None
        fn.body.insert(1 if doc else 0, ast.parse("None").body[0])
        return fn

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        return n

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name("result_r", ast.Store())], n.value), ast.Return(ast.Name("result_r", ast.Load()))]


class Extract(ast.NodeTransformer):
    def block(self, body, method):
        out = []
        for s in body:
            out.append(s)
            if not isinstance(s, ast.FunctionDef) or s.decorator_list or s.name.startswith("__") and s.name != "__init__":
                continue
            if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(s)):
                continue
            a = s.args
            if method and not (a.args and a.args[0].arg == "self") or a.posonlyargs:
                continue
            doc = s.body[:1] if ast.get_docstring(s, clean=False) is not None else []
            impl = ast.FunctionDef(name=f"_impl_{s.name.strip('_')}", args=ast.arguments(posonlyargs=[], args=[ast.arg(x.arg) for x in a.args], vararg=a.vararg and ast.arg(a.vararg.arg), kwonlyargs=[ast.arg(x.arg) for x in a.kwonlyargs],
                                   kw_defaults=[None] * len(a.kwonlyargs), kwarg=a.kwarg and ast.arg(a.kwarg.arg), defaults=[]), body=s.body[len(doc):] or [ast.Pass()], decorator_list=[], returns=None)
            load = lambda x: ast.Name(x, ast.Load())  # noqa: E731
            f = ast.Attribute(load("self"), impl.name, ast.Load()) if method else load(impl.name)
            call = ast.Call(f, [*(load(x.arg) for x in a.args[1 if method else 0:]), *([ast.Starred(load(a.vararg.arg), ast.Load())] if a.vararg else [])],
                            [*(ast.keyword(x.arg, load(x.arg)) for x in a.kwonlyargs), *([ast.keyword(None, load(a.kwarg.arg))] if a.kwarg else [])])
            s.body = [*doc, ast.Return(call)]
            out.append(impl)
        return out

    def visit_ClassDef(self, n):
        if any(isinstance(b, ast.Name) and b.id in ("ABC", "TypedDict", "Enum") for b in n.bases):
            return n
        # names of helpers may not collide with the ones of parents
        n.body = self.block(n.body, method=True)
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and s.name.startswith("_impl_"):
                s.name += "_" + n.name.lower()
            elif isinstance(s, ast.FunctionDef):
                for x in ast.walk(s):
                    if isinstance(x, ast.Attribute) and x.attr == f"_impl_{s.name.strip('_')}":
                        x.attr += "_" + n.name.lower()
        return n

    def visit_Module(self, n):
        n.body = [self.visit(s) if isinstance(s, ast.ClassDef) else s for s in n.body]
        n.body = self.block(n.body, method=False)
        return n


def main():
    src, dst, variant = Path(sys.argv[1]), Path(sys.argv[2]), sys.argv[3]
    shutil.rmtree(dst, ignore_errors=True)
    subprocess.run(["cp", "-a", str(src), str(dst)], check=True)
    for pkg in ("shepherd_core/shepherd_core", "shepherd_data/shepherd_data"):
        for f in (dst / pkg).rglob("*.py"):
            t = ast.parse(f.read_text())
            t = {"locals": Locals, "extract": Extract}[variant]().visit(t)
            f.write_text(ast.unparse(ast.fix_missing_locations(t)) + "\n")


main()
