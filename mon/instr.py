"""Load mpsci from the working tree of /repo with comparison tracing.

Every numeric comparison executed in mpsci (outside its tests) is reported to
`vc`, which returns exactly what the comparison would have returned and, while
a trace is being recorded, remembers the operands.  The trace steers the
workload generator (which side of each comparison has been seen) and counts
executed decision points; it never takes part in a verdict.

If a module cannot be transformed it is loaded unmodified.
"""
import ast
import importlib.abc
import importlib.util
import operator
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")

OPS = {"Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt,
       "GtE": operator.ge, "Eq": operator.eq, "NotEq": operator.ne}

SITES = {}          # site id -> "file:line:col op"
TRACE = None        # list while recording, else None
MAXTRACE = 3000
FAULT = [0]             # >0: raise InjectedFault at the n-th comparison from now (used by C17 only)
COUNT = [0]


class InjectedFault(Exception):
    pass


def vc(site, op, a, b):
    r = OPS[op](a, b)
    COUNT[0] += 1
    if FAULT[0]:
        FAULT[0] -= 1
        if not FAULT[0]:
            raise InjectedFault(f"{site[0]}:{site[1]}")
    t = TRACE
    if t is not None and len(t) < MAXTRACE:
        t.append((site, op, a, b, r))
    return r


def vchain(site, ops, first, *rest):
    a = first
    r = True
    for i, (op, th) in enumerate(zip(ops, rest)):
        b = th()
        r = vc(site + (i,), op, a, b)
        if not r:
            return r
        a = b
    return r


class _T(ast.NodeTransformer):
    def __init__(self, rel):
        self.rel = rel
        self.n = 0

    def visit_ClassDef(self, node):     # leave dataclasses etc. alone at class level
        for i, st in enumerate(node.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                node.body[i] = self.visit(st)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        names = [type(o).__name__ for o in node.ops]
        if any(n not in OPS for n in names):
            return node
        # keep walrus/yield/await out of it
        for sub in ast.walk(node):
            if isinstance(sub, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)):
                return node
        site = (self.rel, node.lineno, node.col_offset, self.n)
        self.n += 1
        SITES[site] = f"{self.rel}:{node.lineno} {'/'.join(names)}"
        sc = ast.Constant(value=None)
        stup = ast.Tuple(elts=[ast.Constant(value=v) for v in site], ctx=ast.Load())
        if len(names) == 1:
            call = ast.Call(func=ast.Name(id="__vc__", ctx=ast.Load()),
                            args=[stup, ast.Constant(value=names[0]), node.left, node.comparators[0]],
                            keywords=[])
        else:
            lam = [ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[],
                                                 kw_defaults=[], defaults=[]), body=c)
                   for c in node.comparators]
            call = ast.Call(func=ast.Name(id="__vchain__", ctx=ast.Load()),
                            args=[stup, ast.Tuple(elts=[ast.Constant(value=n) for n in names], ctx=ast.Load()),
                                  node.left] + lam,
                            keywords=[])
        return ast.copy_location(call, node)


class _Loader(importlib.abc.SourceLoader):
    def __init__(self, fullname, path):
        self.fullname = fullname
        self.path = path

    def get_filename(self, fullname):
        return self.path

    def get_data(self, path):
        with open(path, "rb") as fh:
            return fh.read()

    def path_stats(self, path):
        raise OSError       # never use or write cached bytecode

    def source_to_code(self, data, path, *, _optimization=-1):
        src = data
        try:
            if instrument:
                tree = ast.parse(src, path)
                rel = os.path.relpath(path, REPO)
                tree = _T(rel).visit(tree)
                ast.fix_missing_locations(tree)
                return compile(tree, path, "exec", dont_inherit=True)
        except (SyntaxError, ValueError, RecursionError):
            pass
        return compile(src, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__["__vc__"] = vc
        module.__dict__["__vchain__"] = vchain
        super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "mpsci" and not fullname.startswith("mpsci."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, p, loader=_Loader(fullname, p), submodule_search_locations=[base])
        p = base + ".py"
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(fullname, p, loader=_Loader(fullname, p))
        return None


instrument = os.environ.get("VERIF_NOINSTR") != "1"


def install():
    sys.dont_write_bytecode = True
    for k in [k for k in sys.modules if k == "mpsci" or k.startswith("mpsci.")]:
        del sys.modules[k]
    sys.meta_path.insert(0, _Finder())


class record:
    """Context manager: record comparisons executed in the block."""
    def __enter__(self):
        global TRACE
        self.old = TRACE
        TRACE = self.t = []
        return self.t

    def __exit__(self, *a):
        global TRACE
        TRACE = self.old


def source_literals():
    """Numeric literals occurring in mpsci sources (dictionary for the workload)."""
    out = {}
    for root, dirs, files in os.walk(os.path.join(REPO, "mpsci")):
        dirs[:] = [d for d in dirs if d not in ("tests", "__pycache__")]
        for f in files:
            if not f.endswith(".py"):
                continue
            p = os.path.join(root, f)
            vals = set()
            try:
                tree = ast.parse(open(p, "rb").read())
            except SyntaxError:
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant):
                    v = n.value
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, (int, float)):
                        vals.add(float(v) if abs(v) < 1e300 else 0.0)
                    elif isinstance(v, str) and len(v) < 30:
                        try:
                            vals.add(float(v))
                        except ValueError:
                            pass
            out[os.path.relpath(p, REPO)] = sorted(v for v in vals if abs(v) < 1e15)
    return out
