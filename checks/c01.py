"""C01 metadata survives a dictionary round trip"""
import copy

from checks import gen

PROPERTY = "C01"
OPTS = {"keep_models": 8, "budget_s": 240}
IMPORTS = ["checks.gen"]


def BOUNDS(tier):
    return ("every metadata class; one attribute (any depth) symbolic at a time over its whole declared kind - reals, integers, "
            "booleans, every enumeration member, times 1970-2033, texts of 2-4 characters, lists of 0-2 - all members of an enumeration declared by the class itself, first and last of nested ones; with the other "
            "attributes at their defaults or all populated; nested and flat dictionaries")


def h(ctx, cls, populated):
    lv = gen.leaves(cls)
    path, owner, fname, k = ctx.choice("attr", lv)
    obj = gen.base_object(cls, populated)
    v = gen.value(ctx, "v", owner, fname, k, variant="." in path)
    try:
        gen.put(obj, path, v)
    except Exception:
        ctx.assume(False)
    for owner in {path.rpartition(".")[0], ""}:
        gen.settle(obj, owner)
    nested = ctx.choice("nested", [False, True])
    before = copy.deepcopy(obj)
    d = obj.to_dict(nested=nested, required=False)
    ctx.check(gen.same(obj, before), "writing leaves the object alone")
    new = gen.make(cls)
    kept = copy.deepcopy(d)
    new.from_dict(d)
    ctx.check(gen.same(d, kept), "reading leaves the dictionary alone")
    gen.check_same(ctx, obj, new, "read back", changed=(path,))
    ctx.reach(path)


def instances(tier):
    out = []
    for c in sorted(gen.classes(), key=gen.weight):
        if not gen.has_leaves(c):
            continue
        out.append((gen.short(c) + ":defaults", h, {"cls": c, "populated": False}))
        out.append((gen.short(c) + ":populated", h, {"cls": c, "populated": True}))
    return out
