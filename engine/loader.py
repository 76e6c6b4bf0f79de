"""Imports the package under test from /repo's current source through an AST rewrite.

The rewrite only redirects operators / builtins whose C implementation cannot dispatch on
symbolic values (division, modulo / string formatting, power, astype, float, int, round,
isinstance); statement structure, names and line numbers are kept.
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "cameratransform"

FUNCS = {}          # module -> list of function names encoded


class Rewrite(ast.NodeTransformer):
    OPS = {ast.Div: "_sx_div", ast.Mod: "_sx_mod", ast.Pow: "_sx_pow", ast.FloorDiv: "_sx_floordiv"}
    CALLS = {"float": "_sx_float", "int": "_sx_int", "round": "_sx_round", "isinstance": "_sx_isinstance"}

    def visit_FunctionDef(self, node):
        """names a function binds itself: only these may be rebound by the store rewrite"""
        outer = getattr(self, "bound", frozenset())
        a = node.args
        names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
            todo.extend(ast.iter_child_nodes(n))
        self.bound = names
        self.generic_visit(node)
        self.bound = outer
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        outer, self.bound = getattr(self, "bound", frozenset()), frozenset()
        self.generic_visit(node)
        self.bound = outer
        return node

    def _promoted(self, name, node, value):
        """[tmp = value; name = _sx_promote(name, tmp)], and the expression that reads tmp:
        a float array that only this variable refers to becomes an object array when a symbolic value is stored"""
        loc = lambda x: ast.copy_location(x, node)
        pre = [loc(ast.Assign(targets=[loc(ast.Name(id="_sx_v", ctx=ast.Store()))], value=value)),
               loc(ast.Assign(targets=[loc(ast.Name(id=name, ctx=ast.Store()))],
                              value=self._call("_sx_promote", [loc(ast.Name(id=name, ctx=ast.Load())), loc(ast.Name(id="_sx_v", ctx=ast.Load()))], node)))]
        return pre, loc(ast.Name(id="_sx_v", ctx=ast.Load()))

    def visit_Assign(self, node):
        self.generic_visit(node)
        t = node.targets[0]
        if len(node.targets) == 1 and isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in getattr(self, "bound", ()):
            pre, load = self._promoted(t.value.id, node, node.value)
            node.value = load
            return pre + [node]
        return node

    def _call(self, name, args, node):
        return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id=name, ctx=ast.Load()), node), args=args, keywords=[]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        n = self.OPS.get(type(node.op))
        if n:
            if isinstance(node.op, ast.Pow) and isinstance(node.left, ast.Constant) and isinstance(node.right, ast.Constant):
                return node
            return self._call(n, [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            fn = "_sx_idiv"
        elif isinstance(node.op, ast.Mod):
            fn = "_sx_mod"
        elif isinstance(node.op, ast.Pow):
            fn = "_sx_pow"
        else:
            t = node.target
            n = t if isinstance(t, ast.Name) else (t.value if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) else None)
            if n is not None and n.id in getattr(self, "bound", ()):
                pre, node.value = self._promoted(n.id, node, node.value)
                return pre + [node]
            return node
        import copy
        load = copy.deepcopy(node.target)
        for x in ast.walk(load):
            if hasattr(x, "ctx"):
                x.ctx = ast.Load()
        return ast.copy_location(ast.Assign(targets=[node.target], value=self._call(fn, [load, node.value], node)), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in self.CALLS:
            f.id = self.CALLS[f.id]
        elif isinstance(f, ast.Attribute) and f.attr == "astype":
            return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id="_sx_astype", ctx=ast.Load()), node),
                                              args=[f.value] + node.args, keywords=node.keywords), node)
        elif isinstance(f, ast.Attribute) and f.attr in ("format", "join"):
            return ast.copy_location(ast.Call(func=ast.copy_location(ast.Name(id="_sx_strmethod", ctx=ast.Load()), node),
                                              args=[f.value, ast.copy_location(ast.Constant(f.attr), node)] + node.args, keywords=node.keywords), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                self.generic_visit(v)
                spec = v.format_spec if v.format_spec is not None else ast.copy_location(ast.Constant(""), node)
                conv = ast.copy_location(ast.Constant(None if v.conversion in (-1, None) else chr(v.conversion)), node)
                parts.append(self._call("_sx_fmt", [v.value, spec, conv], node))
            else:
                parts.append(v)
        return self._call("_sx_fstring", parts, node)

    def visit_Import(self, node):
        out = []
        for a in node.names:
            if a.name == "re":
                out.append(ast.copy_location(ast.ImportFrom(module="engine", names=[ast.alias(name="symre", asname=a.asname or "re")], level=0), node))
            else:
                out.append(ast.copy_location(ast.Import(names=[a]), node))
        return out

    def visit_ImportFrom(self, node):
        if node.module == "re" and not node.level:
            node.module = "engine.symre"
        return node


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        tree = ast.parse(src, path)
        FUNCS[fullname] = [n.name for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]
        tree = Rewrite().visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        from . import npshim as N
        from . import strings
        module.__dict__.update(_sx_div=N.smart_div, _sx_idiv=N.smart_idiv, _sx_mod=N.smart_mod, _sx_pow=N.smart_pow,
                               _sx_floordiv=N.smart_floordiv, _sx_astype=N.smart_astype, _sx_float=N.smart_float,
                               _sx_int=N.smart_int, _sx_promote=N.promote, _sx_round=N.smart_round, _sx_isinstance=N.smart_isinstance,
                               _sx_strmethod=strings.method, _sx_fmt=strings.fmt, _sx_fstring=strings.fstring)
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        rel = name.split(".")
        d = os.path.join(REPO, *rel)
        if os.path.isdir(d) and os.path.exists(os.path.join(d, "__init__.py")):
            f = os.path.join(d, "__init__.py")
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f), submodule_search_locations=[d])
        f = d + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f))
        return None


def install_symbolic():
    from . import npshim
    from . import rawnp, sym, explore  # noqa  (keep the unpatched functions)
    from . import stubs
    npshim.install()
    stubs.install()
    stubs.install_stats()
    sys.meta_path.insert(0, Finder())
    import cameratransform
    return cameratransform


def install_concrete():
    """the plain package, from the working tree"""
    sys.path.insert(0, REPO)
    import cameratransform
    assert os.path.realpath(cameratransform.__file__).startswith(os.path.realpath(REPO)), cameratransform.__file__
    return cameratransform


# ---- call profile: which functions of the package were executed
CALLED = set()


def start_profile():
    root = os.path.realpath(os.path.join(REPO, PKG)) + os.sep
    cache = {}

    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            r = cache.get(co)
            if r is None:
                r = cache[co] = os.path.realpath(co.co_filename).startswith(root)
                if r:
                    CALLED.add("%s:%s" % (os.path.basename(co.co_filename), co.co_qualname))
    sys.setprofile(prof)
