"""refactor.py TREE SEED [RATE]: rewrite the functions of TREE/mt_metadata (a scratch copy) without changing
what they do, to see that the checks stay quiet:
    SYMX_REPO=TREE python -m symx.runner C01
Each rewriting is applied at random with probability RATE."""
import ast
import copy
import os
import random
import sys


class Names(ast.NodeVisitor):
    def __init__(self):
        self.stored, self.loaded, self.odd = set(), [], False

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.loaded.append(n.id)
        else:
            self.stored.add(n.id)

    def visit_Global(self, n):
        self.odd = True

    visit_Nonlocal = visit_Lambda = visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_NamedExpr = visit_Await = visit_Yield = visit_YieldFrom = visit_FunctionDef = visit_Global


def name(i):
    return ast.Name(i, ast.Load())


class Rewrite(ast.NodeTransformer):
    def __init__(self, rng, rate, helpers, fn):
        self.r, self.rate, self.helpers, self.fn = rng, rate, helpers, fn
        self.k = 0
        args = fn.args
        self.params = {a.arg for a in args.posonlyargs + args.args + args.kwonlyargs} | {a.arg for a in (args.vararg, args.kwarg) if a}
        v = Names()
        for s in fn.body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name):
                    v.visit_Name(n)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    v.stored |= {(a.asname or a.name).split(".")[0] for a in n.names}
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    v.stored.add(n.name)
        self.locals = self.params | v.stored
        self.done = []

    def yes(self, what):
        if self.r.random() < self.rate:
            self.done.append(what)
            return True
        return False

    def fresh(self, p):
        self.k += 1
        return f"_{p}{self.k}"

    def visit_FunctionDef(self, n):
        return n  # nested functions are left alone

    visit_AsyncFunctionDef = visit_Lambda = visit_ClassDef = visit_FunctionDef

    # expressions
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
            t = type(n.ops[0])
            simple = (ast.Name, ast.Constant, ast.Attribute, ast.Subscript, ast.BinOp)
            if t in flip and isinstance(n.left, simple) and isinstance(n.comparators[0], simple) and self.yes("flip"):
                return ast.Compare(n.comparators[0], [flip[t]()], [n.left])
            if t is ast.In and isinstance(n.comparators[0], (ast.List, ast.Tuple)) and all(isinstance(e, ast.Constant) and isinstance(e.value, str) for e in n.comparators[0].elts) and isinstance(n.left, ast.Name) and self.yes("in"):
                v = self.fresh("q")
                return ast.Call(name("any"), [ast.GeneratorExp(ast.Compare(name(n.left.id), [ast.Eq()], [name(v)]), [ast.comprehension(ast.Name(v, ast.Store()), n.comparators[0], [], 0)])], [])
        return n

    def visit_JoinedStr(self, n):
        if any(isinstance(v, ast.FormattedValue) and (v.format_spec is not None and any(not isinstance(x, ast.Constant) for x in v.format_spec.values)) for v in n.values):
            return n
        if not self.yes("fstring"):
            return n
        text, args = "", []
        for v in n.values:
            if isinstance(v, ast.Constant):
                text += v.value.replace("{", "{{").replace("}", "}}")
            else:
                text += "{" + ("!" + chr(v.conversion) if v.conversion != -1 else "") + (":" + v.format_spec.values[0].value if v.format_spec is not None and v.format_spec.values else "") + "}"
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(text), "format", ast.Load()), args, [])

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2 and isinstance(n.args[1], ast.Tuple) and isinstance(n.args[0], ast.Name) and self.yes("isinstance"):
            return ast.BoolOp(ast.Or(), [ast.Call(name("isinstance"), [copy.deepcopy(n.args[0]), t], []) for t in n.args[1].elts])
        if isinstance(n.func, ast.Name) and n.func.id == "dict" and not n.args and n.keywords and all(k.arg for k in n.keywords) and self.yes("dict"):
            return ast.Dict([ast.Constant(k.arg) for k in n.keywords], [k.value for k in n.keywords])
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "np" and not n.keywords and len(n.args) == 1:
            if n.func.attr == "abs" and self.yes("abs"):
                return ast.Call(name("abs"), n.args, [])
            if n.func.attr == "sqrt" and self.yes("sqrt"):
                return ast.BinOp(n.args[0], ast.Pow(), ast.Constant(0.5))
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute)) and self.yes("square"):
            return ast.BinOp(n.left, ast.Mult(), copy.deepcopy(n.left))
        if isinstance(n.op, ast.Mult) and isinstance(n.left, (ast.Constant, ast.Name, ast.Attribute)) and isinstance(n.right, (ast.Name, ast.Attribute)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, (str, bytes))) and self.yes("commute"):
            return ast.BinOp(n.right, ast.Mult(), n.left)
        return n

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n

    # statements
    def condition(self, test):
        """the test as a call of a helper of the module"""
        v = Names()
        v.visit(test)
        if v.odd or any(isinstance(x, ast.Name) and x.id in ("super", "locals", "__class__") for x in ast.walk(test)):
            return test
        if any(isinstance(x, ast.Attribute) and x.attr.startswith("__") for x in ast.walk(test)):
            return test
        use = sorted({i for i in v.loaded if i in self.locals})
        if any(f not in self.sure for f in use):
            return test
        h = f"_symx_cond_{len(self.helpers)}"
        self.helpers.append(ast.FunctionDef(name=h, args=ast.arguments([], [ast.arg(u) for u in use], None, [], [], None, []), body=[ast.Return(test)], decorator_list=[], type_params=[]))
        return ast.Call(name(h), [name(u) for u in use], [])

    def visit_If(self, n):
        self.generic_visit(n)
        if self.yes("cond"):
            n.test = self.condition(n.test)
        if n.orelse and self.yes("invert"):
            n = ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        elif not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and self.yes("nest"):
            for t in reversed(n.test.values[1:]):
                n.body = [ast.If(t, n.body, [])]
            n.test = n.test.values[0]
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is not None and not isinstance(n.value, (ast.Name, ast.Constant)) and self.yes("return"):
            v = self.fresh("result")
            return [ast.Assign([ast.Name(v, ast.Store())], n.value), ast.Return(name(v))]
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        v = n.value
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            t = n.targets[0].id
            if isinstance(v, ast.ListComp) and len(v.generators) == 1 and t not in {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}:
                g = v.generators[0]
                bound = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                if not bound & self.locals_outside(v) and self.yes("comp"):
                    body = [ast.Expr(ast.Call(ast.Attribute(name(t), "append", ast.Load()), [v.elt], []))]
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    return [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
            if isinstance(v, ast.IfExp) and self.yes("ifexp"):
                return ast.If(v.test, [ast.Assign([ast.Name(t, ast.Store())], v.body)], [ast.Assign([ast.Name(t, ast.Store())], v.orelse)])
        return n

    def locals_outside(self, comp):
        """names of the function that a loop variable would overwrite"""
        inside = set()
        for x in ast.walk(comp):
            inside.add(id(x))
        return {x.id for s in self.fn.body for x in ast.walk(s) if isinstance(x, ast.Name) and id(x) not in inside} | self.params

    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and len(it.args) == 1 and not it.keywords and not n.orelse and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name) and self.yes("enumerate"):
            c = self.fresh("count")
            i = n.target.elts[0]
            n.body = [ast.AugAssign(ast.Name(c, ast.Store()), ast.Add(), ast.Constant(1)), ast.Assign([i], name(c))] + n.body
            return [ast.Assign([ast.Name(c, ast.Store())], ast.Constant(-1)), ast.For(n.target.elts[1], it.args[0], n.body, [])]
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "zip" and self.yes("zip"):
            n.iter = ast.Call(name("list"), [it], [])
        return n

    def block(self, body, sure):
        """rewrite statements in order; `sure` are the local names certainly bound"""
        out = []
        for k, s in enumerate(body):
            self.sure = set(sure)
            r = self.visit(s)
            out += r if isinstance(r, list) else [r]
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        sure.add(x.id)
            if self.r.random() < self.rate / 4:
                out.append(ast.Assign([ast.Name(self.fresh("unused"), ast.Store())], ast.Constant(None)))
        # if c: return x ; rest  ->  if c: return x else: rest
        for k, s in enumerate(out[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], ast.Return) and self.yes("else"):
                s.orelse = out[k + 1:]
                out = out[:k + 1]
                break
        return out


def rename(fn, r, rate):
    """rename local variables"""
    for x in ast.walk(fn):
        if x is not fn and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal)):
            return
        if isinstance(x, ast.Name) and x.id in ("locals", "vars", "eval", "exec"):
            return
    args = fn.args
    params = {a.arg for a in args.posonlyargs + args.args + args.kwonlyargs} | {a.arg for a in (args.vararg, args.kwarg) if a}
    stored = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
    for x in ast.walk(fn):
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            stored -= {(a.asname or a.name).split(".")[0] for a in x.names}
        if isinstance(x, ast.ExceptHandler) and x.name:
            stored -= {x.name}
    m = {s: s + "_value" for s in stored if r.random() < rate}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in m:
            x.id = m[x.id]


def main(tree, seed, rate=0.5):
    counts = {}
    for d, ds, fs in os.walk(os.path.join(tree, "mt_metadata")):
        for f in sorted(fs):
            if not f.endswith(".py") or "/tests" in d or f in ("feature_weight_spec.py",):
                continue
            p = os.path.join(d, f)
            src = open(p).read()
            rng = random.Random(f"{seed}:{p[len(tree):]}")
            mod = ast.parse(src)
            helpers = []
            inner = {id(y) for x in ast.walk(mod) if isinstance(x, ast.FunctionDef) for y in ast.walk(x) if y is not x}
            for fn in [x for x in ast.walk(mod) if isinstance(x, ast.FunctionDef) and id(x) not in inner]:
                if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)):
                    continue
                w = Rewrite(rng, float(rate), helpers, fn)
                body = fn.body
                doc = []
                if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                    doc, body = body[:1], body[1:]
                if body:
                    fn.body = doc + w.block(body, set(w.params))
                rename(fn, rng, float(rate))
                for k in w.done:
                    counts[k] = counts.get(k, 0) + 1
            mod.body += helpers
            ast.fix_missing_locations(mod)
            open(p, "w").write(ast.unparse(mod) + "\n")
    print(counts)


if __name__ == "__main__":
    main(*sys.argv[1:])
