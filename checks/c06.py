"""C06 updating from another object copies exactly the set values"""
import copy

from checks import gen
from mt_metadata.common import Comment

PROPERTY = "C06"
IMPORTS = ["checks.gen"]
OPTS = {"keep_models": 6, "budget_s": 240, "max_paths": 8000}
ASSUMPTIONS = ["a number equal to zero and False count as unset, as they do in the written forms"]


def BOUNDS(tier):
    return ("every metadata class; one attribute (any depth) symbolic in the other object over its whole declared kind, the object "
            "itself at its defaults or all populated, the other at its defaults or all populated; match lists of that attribute")


def is_set(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, (int, float)):
        return x != 0
    if hasattr(x, "size") and not isinstance(x, (str, list)):
        return x.size > 0
    if isinstance(x, str):
        return not (x in ("", "none", "None", "NONE", "null") or x[:10] == "1980-01-01")
    u = gen.unset(x)
    return not u


def h(ctx, cls, populated, other):
    lv = gen.leaves(cls)
    path, owner, fname, k = ctx.choice("attr", lv)
    a = gen.base_object(cls, populated)
    b = gen.base_object(cls, other)
    v = gen.value(ctx, "v", owner, fname, k, variant="." in path)
    try:
        gen.put(b, path, v)
    except Exception:
        ctx.assume(False)
    for o in {path.rpartition(".")[0], ""}:
        gen.settle(b, o)
    match = ctx.choice("match", [False, True])
    if match and k in ("str", "comment", "float", "int", "bool"):
        # a second symbolic value to be matched with the first
        try:
            gen.put(a, path, gen.value(ctx, "w", owner, fname, k, variant="." in path))
        except Exception:
            ctx.assume(False)
        for o in {path.rpartition(".")[0], ""}:
            gen.settle(a, o)
    a0, b0 = copy.deepcopy(a), copy.deepcopy(b)
    differ = bool(a.get_attr_from_name(path) != b.get_attr_from_name(path)) if match and scalar(gen.get(a, path)) else None
    if match and differ is None:
        ctx.assume(False)
    try:
        if match:
            a.update(b, match=[path])
        else:
            a.update(b)
    except ValueError:
        ctx.check(bool(differ), "an error only for a differing match attribute")
        ctx.check(gen.same(a, a0), "a refused update leaves the object alone")
        ctx.check(gen.same(b, b0), "the other object is left alone")
        return
    ctx.check(not differ, "a differing match attribute is an error")
    ctx.check(gen.same(b, b0), "the other object is left alone")
    if match:
        return
    for p, c, f, kk in lv:
        x, y, z = gen.get(a, p), gen.get(b0, p), gen.get(a0, p)
        if follows(p, c, kk):
            continue
        filled = is_set(y)
        if issubclass(c, Comment) and f != "value" and "." in p:
            # a comment is one value, its text: author and time come along with it
            filled = is_set(gen.get(b0, p.rpartition(".")[0] + ".value"))
            if not filled:
                continue
        if filled:
            r = same_kind(x, y, kk)
            if r is not True or p == path:
                ctx.check(r, f"set values are copied: {p}")
        else:
            r = same_kind(x, z, kk)
            if r is not True or p == path:
                ctx.check(r, f"unset values leave the attribute alone: {p}")
    ctx.reach(path)


def same_kind(x, y, k):
    return gen.same(x, y)


def scalar(x):
    return x is None or isinstance(x, (bool, int, float, str))


FOLLOWS = {"run_list", "channels_recorded", "survey_list", "station_list", "channels_estimated", "decimation_levels", "weight_kernels"}
DERIVED = {("ChannelResponse", "units_in"), ("ChannelResponse", "units_out"), ("Band", "name")}


def follows(path, cls, k):
    f = path.split(".")[-1]
    return f in FOLLOWS or k[0] == "names" or (cls.__name__, f) in DERIVED


def instances(tier):
    out = []
    for c in sorted(gen.classes(), key=gen.weight):
        # the update of ChannelNomenclature is another operation (it takes no argument)
        if not gen.has_leaves(c) or c.__name__ == "ChannelNomenclature":
            continue
        for p, o in ((False, False), (True, False), (False, True)):
            out.append((gen.short(c) + (":populated" if p else ":defaults") + ("<-populated" if o else "<-defaults"), h,
                        {"cls": c, "populated": p, "other": o}))
    return out
