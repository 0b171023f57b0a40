"""import hook: mt_metadata modules are parsed from /repo on every run and rewritten in memory"""
import ast
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("SYMX_REPO", "/repo")
PKG = "mt_metadata"
PLAIN = {"checks.gen"}   # harness helpers that need no rewriting
ENCODED = {}      # module -> (path, n functions, sha1)

BUILTIN = {"float": "float_", "int": "int_", "str": "str_", "bool": "bool_", "complex": "complex_", "type": "type_",
           "repr": "repr_", "format": "format_", "print": "print_", "ord": "ord_", "len": "len_", "round": "round_",
           "set": "set_", "frozenset": "frozenset_", "getattr": "getattr_", "setattr": "setattr_", "hasattr": "hasattr_"}
STR_METHODS = {"strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "split", "rsplit", "partition",
               "rpartition", "replace", "startswith", "endswith", "find", "rfind", "index", "count", "join", "format",
               "ljust", "rjust", "center", "zfill", "removeprefix", "removesuffix", "get", "pop", "setdefault", "update",
               "remove", "move_to_end", "astype", "all", "any", "sum", "mean", "min", "max", "conj", "conjugate", "argmin",
               "argmax", "argsort", "sort", "std", "prod", "tolist", "round", "dot", "var", "clip",
               "float64", "float32", "complex64", "complex128", "int64", "int32", "bool_", "divmod",
               "add", "discard", "union", "intersection", "difference", "symmetric_difference", "difference_update",
               "intersection_update", "issubset", "issuperset", "isdisjoint", "fromkeys"}
OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}


def _rt(name):
    return ast.Attribute(value=ast.Name(id="_symx_rt", ctx=ast.Load()), attr=name, ctx=ast.Load())


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0
        self.nfun = 0
        self.shadow = []

    def _function(self, node):
        # decorators, defaults and annotations stay untouched
        self.nfun += 1
        self.depth += 1
        if isinstance(node, ast.Lambda):
            node.body = self.visit(node.body)
        else:
            node.body = [self.visit(b) for b in node.body]
            flat = []
            for b in node.body:
                flat.extend(b if isinstance(b, list) else [b])
            node.body = flat
        self.depth -= 1
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_Lambda(self, node):
        if self.depth:
            return self._function(node)
        # lambda outside a function (class body / module): rewrite its body too
        return self._function(node)

    def visit_ClassDef(self, node):
        d, self.depth = self.depth, 0
        node.body = [self.visit(b) for b in node.body]
        self.depth = d
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if self.depth and isinstance(node.target, ast.Subscript):
            return self.visit(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node))
        return node

    def visit_Import(self, node):
        """a library imported inside a function is the one modelled"""
        if not self.depth:
            return node
        names = [a.asname or a.name.split(".")[0] for a in node.names if a.name != "*"]
        return [node] + [ast.copy_location(ast.Assign(
            targets=[ast.Name(id=n, ctx=ast.Store())],
            value=ast.Call(func=_rt("imported"), args=[ast.Name(id=n, ctx=ast.Load())], keywords=[])), node) for n in names]

    visit_ImportFrom = visit_Import

    def visit_Call(self, node):
        if not self.depth:
            return self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name):
            node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(k) for k in node.keywords]
            if f.id in BUILTIN and f.id not in self.bound:
                node.func = ast.copy_location(_rt(BUILTIN[f.id]), f)
            elif f.id in ("map", "filter", "sorted", "min", "max") and f.id not in self.bound:
                # builtins handed over as values: map(float, ...), sorted(..., key=float)
                if f.id in ("map", "filter") and node.args:
                    node.args[0] = self._callee(node.args[0])
                for k in node.keywords:
                    if k.arg == "key":
                        k.value = self._callee(k.value)
            elif f.id in self.bound and f.id not in ("cls", "self"):
                node.func = ast.copy_location(ast.Call(func=_rt("callee"), args=[f], keywords=[]), f)
            return node
        if isinstance(f, (ast.Subscript, ast.Call, ast.IfExp)):
            self.generic_visit(node)
            node.func = ast.copy_location(ast.Call(func=_rt("callee"), args=[node.func], keywords=[]), f)
            return node
        if isinstance(f, ast.Attribute) and f.attr in STR_METHODS and not (
                isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super"):
            new = ast.Call(func=_rt("callm"), args=[self.visit(f.value), ast.Constant(value=f.attr)] +
                           [self.visit(a) for a in node.args], keywords=[self.visit(k) for k in node.keywords])
            return ast.copy_location(new, node)
        return self.generic_visit(node)

    def _callee(self, f):
        if isinstance(f, ast.Name) and f.id != "None":
            return ast.copy_location(ast.Call(func=_rt("callee"), args=[f], keywords=[]), f)
        return f

    def visit_JoinedStr(self, node):
        if not self.depth:
            return node
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = ast.Constant(value=None if v.conversion == -1 else chr(v.conversion))
                spec = ast.Constant(value="") if v.format_spec is None else self.visit(v.format_spec)
                parts.append(ast.Tuple(elts=[self.visit(v.value), conv, spec], ctx=ast.Load()))
        return ast.copy_location(ast.Call(func=_rt("fstr"), args=parts, keywords=[]), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(func=_rt("mod"), args=[node.left, node.right], keywords=[]), node)
        if self.depth and isinstance(node.op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.Sub)):
            return ast.copy_location(ast.Call(func=_rt("setop"), args=[node.left, node.right, ast.Constant(value=OPS[type(node.op)])],
                                              keywords=[]), node)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        if not self.depth or all(isinstance(e, ast.Constant) for e in node.elts):
            return node
        return ast.copy_location(ast.Call(func=_rt("set_"), args=[ast.List(elts=node.elts, ctx=ast.Load())], keywords=[]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        gen = ast.GeneratorExp(elt=node.elt, generators=node.generators)
        return ast.copy_location(ast.Call(func=_rt("set_"), args=[gen], keywords=[]), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        if not self.depth:
            return node
        gen = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return ast.copy_location(ast.Call(func=_rt("mkdict"), args=[gen], keywords=[]), node)

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not self.depth or all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        pairs = [ast.Tuple(elts=[_rt("_SPREAD") if k is None else k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)]
        return ast.copy_location(ast.Call(func=_rt("mkdict"), args=[ast.List(elts=pairs, ctx=ast.Load())], keywords=[]), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if self.depth and len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            fn = "in_" if isinstance(node.ops[0], ast.In) else "not_in"
            return ast.copy_location(ast.Call(func=_rt(fn), args=[node.left, node.comparators[0]], keywords=[]), node)
        if self.depth and len(node.ops) == 1 and isinstance(node.ops[0], (ast.Eq, ast.NotEq)):
            fn = "eq" if isinstance(node.ops[0], ast.Eq) else "ne"
            return ast.copy_location(ast.Call(func=_rt(fn), args=[node.left, node.comparators[0]], keywords=[]), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(func=_rt("getitem"), args=[node.value, _slice(node.slice)], keywords=[]), node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.ctx, ast.Load) and isinstance(node.value, ast.Name) and node.value.id == "str" and \
                "str" not in self.bound:
            node.value = ast.copy_location(_rt("STR"), node.value)
            return node
        if self.depth and isinstance(node.ctx, ast.Load) and node.attr in ("real", "imag", "dtype"):
            return ast.copy_location(ast.Call(func=_rt("attr_" + node.attr), args=[node.value], keywords=[]), node)
        return node

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if not self.depth:
            return node
        node.targets = [self._target(t) for t in node.targets]
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            t = node.targets[0]
            call = ast.Call(func=_rt("setitem"), args=[t.value, _slice(t.slice), node.value], keywords=[])
            return ast.copy_location(ast.Expr(value=call), node)
        return node

    def _target(self, t):
        if isinstance(t, ast.Subscript):
            t.value = self.visit(t.value)
            t.slice = self.visit(t.slice)
        elif isinstance(t, ast.Attribute):
            t.value = self.visit(t.value)
        elif isinstance(t, (ast.Tuple, ast.List)):
            t.elts = [self._target(x) for x in t.elts]
        elif isinstance(t, ast.Starred):
            t.value = self._target(t.value)
        return t

    def visit_AugAssign(self, node):
        node.value = self.visit(node.value)
        if not self.depth:
            return node
        op = OPS[type(node.op)]
        if isinstance(node.target, ast.Name):
            call = ast.Call(func=_rt("iop"), args=[ast.Name(id=node.target.id, ctx=ast.Load()), node.value,
                                                   ast.Constant(value=op)], keywords=[])
            return ast.copy_location(ast.Assign(targets=[node.target], value=call), node)
        node.target = self._target(node.target)
        return node

    def visit_Delete(self, node):
        if not self.depth:
            return node
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                t = self._target(t)
                call = ast.Call(func=_rt("delitem"), args=[t.value, _slice(t.slice)], keywords=[])
                out.append(ast.copy_location(ast.Expr(value=call), node))
            else:
                out.append(ast.copy_location(ast.Delete(targets=[t]), node))
        return out

    # do not touch patterns
    def visit_Match(self, node):
        node.subject = self.visit(node.subject)
        for c in node.cases:
            if c.guard is not None:
                c.guard = self.visit(c.guard)
            body = []
            for b in c.body:
                r = self.visit(b)
                body.extend(r if isinstance(r, list) else [r])
            c.body = body
        return node


def _slice(s):
    """expression of a subscript index"""
    if isinstance(s, ast.Slice):
        none = ast.Constant(value=None)
        return ast.copy_location(ast.Call(func=ast.Attribute(value=ast.Name(id="_symx_rt", ctx=ast.Load()), attr="slice",
                                                             ctx=ast.Load()),
                                          args=[s.lower or none, s.upper or none, s.step or none], keywords=[]), s)
    if isinstance(s, ast.Tuple):
        return ast.copy_location(ast.Tuple(elts=[_slice(e) for e in s.elts], ctx=ast.Load()), s)
    return s


def transform(src, path):
    tree = ast.parse(src, filename=path)
    rw = Rewriter()
    # names rebound at module level are not builtins there
    rw.bound = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | \
        {a.asname or a.name for n in ast.walk(tree) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names} | \
        {a.arg for n in ast.walk(tree) if isinstance(n, ast.arguments) for a in n.args + n.kwonlyargs + n.posonlyargs}
    tree = rw.visit(tree)
    # insert import of the run time after the __future__ imports / docstring
    i = 0
    while i < len(tree.body) and (
            (isinstance(tree.body[i], ast.Expr) and isinstance(getattr(tree.body[i], "value", None), ast.Constant)) or
            (isinstance(tree.body[i], ast.ImportFrom) and tree.body[i].module == "__future__")):
        i += 1
    tree.body.insert(i, ast.ImportFrom(module="symx", names=[ast.alias(name="rt", asname="_symx_rt")], level=0))
    ast.fix_missing_locations(tree)
    return tree, rw.nfun


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            src = f.read()
        tree, n = transform(src, path)
        if not fullname.startswith("checks."):
            ENCODED[fullname] = (path, n, hashlib.sha1(src).hexdigest()[:12])
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        super().exec_module(module)
        inject(module)


INJECT = []   # functions called with each module after execution


def inject(module):
    for f in INJECT:
        f(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname in PLAIN:
            return None
        if fullname.startswith("checks."):      # harnesses run under the same rewriting
            search = path if path is not None else [os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
        elif fullname == PKG or fullname.startswith(PKG + "."):
            search = path if path is not None else [REPO]
        else:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, search)
        if spec is None or spec.origin is None or not spec.origin.endswith(".py"):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    if any(isinstance(f, Finder) for f in sys.meta_path):
        return
    assert PKG not in sys.modules
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.meta_path.insert(0, Finder())
    from . import rt
    rt.slice = slice
    from . import shims
    shims.setup()
