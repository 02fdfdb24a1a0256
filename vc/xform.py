"""Loads the packages `simcats` (from the tree under check) and `contracts` so that they run on symbolic values: the source
text is compiled as it is (plus the loop rewriting in rewrite()), only the names numpy, math, scipy.* and a few builtins are bound to
vc/shim.py."""
import ast
import importlib.abc
import importlib.util
import os
import sys

from . import shim

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SOURCES = {}


class Rewrite(ast.NodeTransformer):
    """[E for T in IT] -> __vc_comp__(lambda x: [E for T in (x,)][0], IT): the same list when IT is concrete; for an iterable of
    symbolic length the element is evaluated once, at an arbitrary position."""

    def visit_ListComp(self, node):
        self.generic_visit(node)
        g = node.generators
        if len(g) != 1 or g[0].ifs or g[0].is_async or any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await))
                                                           for x in ast.walk(node)):
            return node
        x = "__vc_x%d" % node.col_offset
        inner = ast.ListComp(node.elt, [ast.comprehension(g[0].target, ast.Tuple([ast.Name(x, ast.Load())], ast.Load()), [], 0)])
        lam = ast.Lambda(ast.arguments([], [ast.arg(x)], None, [], [], None, []),
                         ast.Subscript(inner, ast.Constant(0), ast.Load()))
        return ast.copy_location(ast.Call(ast.Name("__vc_comp__", ast.Load()), [lam, g[0].iter], []), node)


class Loops(ast.NodeTransformer):
    """every loop of a function goes through vc/loops.py, which runs it as it is unless its length is symbolic and the contracts
    give an invariant for it"""

    def __init__(self, module):
        self.module, self.path, self.n = module, [], 0

    def visit_ClassDef(self, node):
        self.path.append(node.name)
        self.generic_visit(node)
        self.path.pop()
        return node

    def visit_FunctionDef(self, node):
        if any(isinstance(x, (ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.NamedExpr)) for x in ast.walk(node)):
            return node
        self.path.append(node.name)
        old, self.n = self.n, 0
        node.body = [y for x in node.body for y in self._list(self.visit(x))]
        self.n = old
        self.path.pop()
        return node

    @staticmethod
    def _list(x):
        return x if isinstance(x, list) else [x]

    def visit_Lambda(self, node):
        return node

    def _stmts(self, xs):
        return [y for x in xs for y in self._list(self.visit(x))]

    @staticmethod
    def _names(nodes):
        out = []
        for n in nodes:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in out and not x.id.startswith("__vc"):
                    out.append(x.id)
        return out

    def visit_For(self, node):
        import copy
        if not self.path:
            return node
        i, self.n = self.n, self.n + 1
        names = self._names([node.target] + node.body)
        target, plain = copy.deepcopy(node.target), copy.deepcopy(node)
        n0 = self.n
        body = self._stmts(node.body)
        self.n = n0
        plain.body = self._stmts(plain.body)
        L, V = f"__vc_L{i}", f"__vc_V{i}"
        mk = ast.parse(f"{L} = __vc_for__(0, {self.module!r}, {'.'.join(self.path)!r}, {i}, {names!r})").body
        mk[0].value.args[0] = node.iter
        sym = ast.parse(f"{V} = {L}.enter(locals())").body
        for a in names:
            sym += ast.parse(f"if {a!r} in {V}: {a} = {V}[{a!r}]").body
        run = [ast.Assign([target], ast.parse(f"{L}.item", mode="eval").body)]
        run += [ast.For(ast.Name("__vc_once", ast.Store()), ast.Constant((0,)), body, ast.parse(f"{L}.done(locals())").body)]
        run += ast.parse(f"{L}.left(locals())").body
        it = ast.If(ast.parse(f"{L}.iterate", mode="eval").body, run, self._stmts(node.orelse) or [ast.Pass()])
        plain.iter = ast.parse(f"{L}.it", mode="eval").body
        plain.orelse = self._stmts(plain.orelse)
        r = mk + [ast.If(ast.parse(f"{L}.symbolic", mode="eval").body, sym + [it], [plain])]
        return [ast.copy_location(x, node) for x in r]

    def visit_While(self, node):
        import copy
        if not self.path:
            return node
        i, self.n = self.n, self.n + 1
        names = self._names([node.test] + node.body)
        test = ast.parse(f"__vc_L{i}.test(0)", mode="eval").body
        test.args[0] = ast.Lambda(ast.arguments([], [], None, [], [], None, []), node.test)
        node.test = test
        L, V = f"__vc_L{i}", f"__vc_V{i}"
        n0 = self.n
        body = self._stmts(copy.deepcopy(node.body))
        self.n = n0
        again = self._stmts(node.body)
        sym = ast.parse(f"{V} = {L}.enter(locals())").body
        for a in names:
            sym += ast.parse(f"if {a!r} in {V}: {a} = {V}[{a!r}]").body
        cut = lambda neg: ast.If(ast.UnaryOp(ast.Not(), copy.deepcopy(node.test)) if neg else copy.deepcopy(node.test),
                                 ast.parse(f"{L}.cut()").body, [])
        sym += [cut(True), ast.For(ast.Name("__vc_once", ast.Store()), ast.Constant((0,)), body,
                                   ast.parse(f"{L}.kept(locals())").body + [cut(False)]),
                ast.Break()]
        new = ast.While(node.test, [ast.If(ast.parse(f"{L}.symbolic()", mode="eval").body, sym, [])] + again +
                        ast.parse(f"{L}.mark()").body, self._stmts(node.orelse))
        if node.orelse:
            return node
        r = ast.parse(f"{L} = __vc_while__({self.module!r}, {'.'.join(self.path)!r}, {i}, {names!r})\n{L}.mark()").body + [new]
        return [ast.copy_location(x, node) for x in r]


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf8") as f:
            src = f.read()
        SOURCES[module.__name__] = self.path
        tree = Rewrite().visit(ast.parse(src, self.path))
        if module.__name__.startswith("simcats"):
            tree = Loops(module.__name__).visit(tree)
        tree = ast.fix_missing_locations(tree)
        code = compile(tree, self.path, "exec")
        module.__dict__["__builtins__"] = BUILTINS
        exec(code, module.__dict__)


BUILTINS = None


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots       # package name -> directory that contains it

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p), submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(name, base + ".py", loader=Loader(base + ".py"))
        return None


def install(repo):
    """purge the real packages and put the symbolic loader in front (only in a proof worker process)"""
    global BUILTINS
    BUILTINS = shim.mk_builtins()
    for k in list(sys.modules):
        if k.split(".")[0] in ("simcats", "contracts"):
            del sys.modules[k]
    from . import ctx
    ctx.REGISTRY.clear()
    sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, Finder)]
    sys.meta_path.insert(0, Finder({"simcats": repo, "contracts": HERE}))
