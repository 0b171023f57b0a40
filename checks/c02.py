"""C02 metadata survives a JSON round trip"""
import copy

from checks import gen

PROPERTY = "C02"
IMPORTS = ["checks.gen"]
OPTS = {"keep_models": 8, "budget_s": 240, "max_paths": 8000}
ASSUMPTIONS = ["symbolic runs use the contract of the json module (loads(dumps(x)) normalises x, numbers and texts exactly); "
               "that the text is valid JSON for the real module is seen on the replayed models"]


def BOUNDS(tier):
    return ("every metadata class; one attribute (any depth) symbolic at a time over its whole declared kind, the others at "
            "their defaults or all populated; nested and flat text, with and without unset attributes, indented or not")


def h(ctx, cls, populated):
    lv = gen.leaves(cls)
    path, owner, fname, k = ctx.choice("attr", lv)
    obj = gen.base_object(cls, populated)
    v = gen.value(ctx, "v", owner, fname, k, variant="." in path)
    try:
        gen.put(obj, path, v)
    except Exception:
        ctx.assume(False)
    for owner in {path.rpartition(".")[0], ""}:
        gen.settle(obj, owner)
    forms = [(False, True, None), (True, False, "  "), (False, False, None), (True, True, 4)]
    nested, required, indent = ctx.choice("form", forms[:2] if len(lv) > 40 else forms)
    before = copy.deepcopy(obj)
    text = obj.to_json(nested=nested, required=required, indent=indent)
    ctx.check(gen.same(obj, before), "writing leaves the object alone")
    new = gen.make(cls)
    new.from_json(text)
    gen.check_same(ctx, obj, new, "read back", changed=(path,), loose=required)
    ctx.reach(path)


def instances(tier):
    out = []
    for c in sorted(gen.classes(), key=gen.weight):
        if not gen.has_leaves(c):
            continue
        for p in (False, True):
            out.append((gen.short(c) + (":populated" if p else ":defaults"), h, {"cls": c, "populated": p}))
    return out
