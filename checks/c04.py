"""C04 metadata equality is an equivalence that sees every attribute"""
from checks import gen

PROPERTY = "C04"
IMPORTS = ["checks.gen"]
OPTS = {"keep_models": 6, "budget_s": 240, "max_paths": 8000}
ASSUMPTIONS = ["pairs of numbers whose distance lies at the edge of the tolerance (within a factor of ten) are left out",
               "attributes a class names in _skip_equals (processing dates) do not take part in comparisons, by design"]


def BOUNDS(tier):
    return ("every metadata class; one attribute (any depth) symbolic in both objects, over its whole declared kind or unset in "
            "one of them, the others at their defaults or all populated")


def number(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def h(ctx, cls, populated):
    lv = gen.leaves(cls)
    path, owner, fname, k = ctx.choice("attr", lv)
    a = gen.base_object(cls, populated)
    b = gen.base_object(cls, populated)
    nested = "." in path
    v = gen.value(ctx, "v", owner, fname, k, variant=nested)
    other = ctx.choice("other", ["value", "none"] if gen.admits_none(owner, fname) and (len(lv) < 45 or not nested) else ["value"])
    many = nested or (k[0] == "enum" and len(k[1]) > 10)
    w = gen.value(ctx, "w", owner, fname, k, variant=many) if other == "value" else None
    try:
        gen.put(a, path, v)
        gen.put(b, path, w)
    except Exception:
        ctx.assume(False)
    for o in {path.rpartition(".")[0], ""}:
        gen.settle(a, o)
        gen.settle(b, o)
    x, y = gen.get(a, path), gen.get(b, path)
    skipped = any(s in path for s in a._skip_equals)
    # whether everything but the attribute agrees, and whether the attribute does
    rest = True
    for p, c, f, kk in lv:
        if p != path:
            q = gen.same(gen.get(a, p), gen.get(b, p))
            rest = q if rest is True else rest & q
    ctx.assume(rest)
    eq1 = a == b
    eq2 = b == a
    if len(lv) < 45 or lv.index((path, owner, fname, k)) % 6 == 0:
        ctx.check((a != b) == (not eq1), "inequality is the negation of equality")
        ctx.check(a == a, "equality is reflexive")
    if skipped:
        ctx.check(eq1 == eq2, "equality is symmetric")
        return
    if number(x) and number(y):
        d = abs(x - y)
        scale = 1e-8 + 1e-5 * abs(y)
        if d < 0.1 * scale:
            ctx.check(eq1, "close numbers are equal")
        elif d > 10 * scale:
            ctx.check(not eq1, "distinct numbers are seen")
        else:
            return
    elif bool(gen.same(x, y)):
        ctx.check(eq1, "agreeing objects are equal")
    elif not (null(x) and null(y)):
        ctx.check(not eq1, "a changed attribute is seen")
    ctx.check(eq1 == eq2, "equality is symmetric")
    ctx.reach(path)


def null(x):
    if number(x) and not isinstance(x, bool):
        return bool(x == 0)
    return bool(gen.unset(x))


def instances(tier):
    out = []
    for c in sorted(gen.classes(), key=gen.weight):
        if not gen.has_leaves(c):
            continue
        for p in (False, True):
            out.append((gen.short(c) + (":populated" if p else ":defaults"), h, {"cls": c, "populated": p}))
    return out
