"""C03 metadata survives an XML round trip"""
import copy

from checks import gen

PROPERTY = "C03"
IMPORTS = ["checks.gen"]
OPTS = {"keep_models": 8, "budget_s": 240, "max_paths": 8000}
ASSUMPTIONS = []


# a response is computed, not stored; the XML form of a comment alone belongs to the EMTF XML format
SKIP = ("timeseries.filters.channel_response.ChannelResponse", "common.comment.Comment")


def BOUNDS(tier):
    return ("every metadata class of the time series and common parts; one attribute (any depth) symbolic at a time over its "
            "whole declared kind, the others at their defaults or all populated; element and text form, all or set attributes")


def h(ctx, cls, populated):
    lv = gen.leaves(cls)
    path, owner, fname, k = ctx.choice("attr", lv)
    obj = gen.base_object(cls, populated)
    v = gen.value(ctx, "v", owner, fname, k, variant="." in path)
    try:
        gen.put(obj, path, v)
    except Exception:
        ctx.assume(False)
    for owner in {path.rpartition(".")[0], ""}:
        gen.settle(obj, owner)
    before = copy.deepcopy(obj)
    required = ctx.choice("required", [True, False])
    el = obj.to_xml(required=required)
    ctx.check(gen.same(obj, before), "writing leaves the object alone")
    new = gen.make(cls)
    new.from_xml(el)
    gen.check_same(ctx, obj, new, "read back", changed=(path,), loose=True)
    ctx.reach(path)


def instances(tier):
    out = []
    for c in sorted(gen.classes(("timeseries.", "common.")), key=gen.weight):
        if not gen.has_leaves(c) or gen.short(c) in SKIP:
            continue
        for p in (False, True):
            out.append((gen.short(c) + (":populated" if p else ":defaults"), h, {"cls": c, "populated": p}))
    return out
