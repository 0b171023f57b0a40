"""C28 merging transfer functions keeps each input's periods"""
import numpy as np
import xarray as xr

from checks import c26

PROPERTY = "C28"
IMPORTS = ["mt_metadata.transfer_functions.core", "checks.c26"]
OPTS = {"budget_s": 150}
ASSUMPTIONS = ["xarray's selection, sorting and combination by coordinates are used as they are, on arrays of symbolic values",
               "periods and period bounds are chosen among fixed lists; the values are symbolic",
               "inputs whose periods within their ranges interleave or coincide are refused by xarray or not claimed"]
LISTS = {"up": [0.5, 1.0, 4.0], "down": [4.0, 1.0, 0.5], "unordered": [1.0, 4.0, 0.5, 2.0], "one": [2.0], "unit": [1.0]}
LATER = {"up": [8.0, 16.0, 64.0], "down": [64.0, 16.0, 8.0], "unordered": [16.0, 64.0, 8.0], "inner": [8.0, 64.0, 16.0, 65.0], "one": [32.0], "wide": [1.0, 4.0, 8.0, 16.0]}
BOUNDS_A = [(None, None), (1.0, 4.0), (None, 1.0), (0.7, None), (0.5, 0.5), (0.7, 3.0), (0.1, 100.0)]
BOUNDS_B = [(None, None), (8.0, 16.0), (None, 16.0), (10.0, None), (5.0, 70.0), (16.0, 16.0), (100.0, 200.0)]


def BOUNDS(tier):
    return ("two and three transfer functions of 1 to 4 periods ascending, descending or unordered, every period bound (none, on, between, beyond the periods) on either side, "
            "given as object, dictionary or list of them, in place or not; every element of every quantity symbolic")


def fill(ctx, name, t, p):
    v = {}
    for k in c26.FILL:
        v[k] = c26.symbolic(ctx, f"{name}.{k[-7:]}.", k, len(p)) if k in ("transfer_function", "transfer_function_error") else c26.fixed(k, len(p), ord(name) * 10)
        c26.give(t, k, v[k], p, "default", "array")
        if k == "residual_covariance":
            c26.give(t, "transfer_function_error", v["transfer_function_error"], p, "default", "array")
    return v


def inside(p, lo, hi):
    return [q for q in p if (lo is None or q >= lo) and (hi is None or q <= hi)]


def parts(ctx, names):
    """transfer functions with their periods, values and bounds"""
    out = []
    for n, (periods, bounds) in names.items():
        t = c26.new(periods, "default")
        t.station_metadata.id = "s" + n
        out.append((t, periods, fill(ctx, n, t, periods), bounds))
    return out


def check_merged(ctx, new, used):
    want = sorted((q, k) for k, (t, p, v, (lo, hi)) in enumerate(used) for q in inside(p, lo, hi))
    got = new.period.tolist()
    ctx.check(got == [q for q, k in want], "the periods of the inputs in ascending order")
    if got != [q for q, k in want]:
        return
    e = c26.entries(new, got, "default")
    for n, (q, k) in enumerate(want):
        t, p, v, b = used[k]
        i = p.index(q)
        for kind in c26.FILL:
            for (pp, o, j), x in v[kind].items():
                if pp == i:
                    ctx.check(e[kind, n, o, j] == x, "the value at its period")


def unchanged(ctx, used):
    for t, p, v, b in used:
        ctx.check(t.period.tolist() == p, "the periods of an input are as they were")
        e = c26.entries(t, p, "default")
        for kind in c26.FILL:
            for q, x in v[kind].items():
                ctx.check(e[(kind,) + q] == x, "input as it was")


def merged(ctx, used, inplace, form):
    a = used[0]
    lo, hi = a[3]
    other = []
    for t, p, v, (l, h) in used[1:]:
        if form == "object":
            other.append(t)
        else:
            other.append({"tf": t, "period_min": l, "period_max": h})
    if len(other) == 1 and form != "list":
        other = other[0]
    new = a[0].merge(other, period_min=lo, period_max=hi, inplace=inplace)
    if inplace:
        ctx.check(new is None, "in place gives nothing back")
        unchanged(ctx, used[1:])
        return a[0]
    unchanged(ctx, used)
    ctx.check(new is not a[0], "a new object")
    return new


PAIRS = [(0, 0), (1, 1), (2, 2), (3, 3), (4, 5), (5, 3), (6, 4), (0, 6), (3, 0), (0, 1)]


def two(ctx, first, second, form, inplace, full):
    if form == "object":
        b1, b2 = ctx.choice("bounds", BOUNDS_A), (None, None)
    elif full:
        b1, b2 = ctx.choice("bounds", BOUNDS_A), ctx.choice("bounds of the other", BOUNDS_B)
    else:
        b1, b2 = ctx.choice("bounds", [(BOUNDS_A[i], BOUNDS_B[j]) for i, j in PAIRS])
    p, q = LISTS[first], LATER[second]
    a, b = inside(p, *b1), inside(q, *b2)
    ctx.assume(len(a) + len(b) > 0)
    ctx.assume(len(a) == 0 or len(b) == 0 or (max(a) < min(b)))
    swap = ctx.bool("swapped") if form == "dict" else False
    names = {"a": (p, b1), "b": (q, b2)}
    if swap:
        names = {"b": (q, b2), "a": (p, b1)}
    used = parts(ctx, names)
    new = merged(ctx, used, inplace, form)
    check_merged(ctx, new, used)
    ctx.check(new.station_metadata.id == ("sb" if swap else "sa"), "metadata of the first")


def three(ctx, form):
    lists = {"a": ([4.0, 1.0, 2.0], (None, 2.0)), "b": ([4.0, 8.0], (4.0, None)), "c": ([32.0, 16.0, 8.0], (10.0, 20.0))}
    if form == "object":
        lists = {"a": ([1.0, 2.0], (None, None)), "b": ([8.0, 4.0], (None, None)), "c": ([32.0, 16.0], (None, None))}
    order = ctx.perm("order", ["a", "b", "c"])
    used = parts(ctx, {k: lists[k] for k in order})
    new = merged(ctx, used, ctx.bool("inplace"), form)
    check_merged(ctx, new, used)


def refused(ctx):
    t = c26.new([1.0, 2.0], "default")
    v = fill(ctx, "a", t, [1.0, 2.0])
    what = ctx.choice("what", ["number", "text", "key", "missing", "none"])
    o = c26.new([4.0], "default")
    x = {"number": 5, "text": "tf", "key": {"tf": o, "period_min": 1, "max": 2}, "missing": {"tf": o, "period_min": 1}, "none": None}[what]
    try:
        t.merge(x)
    except (KeyError, TypeError):
        pass
    else:
        ctx.fail("accepted")
    unchanged(ctx, [(t, [1.0, 2.0], v, None)])


def instances(tier):
    out = []
    for f in ("up", "down", "unordered", "one", "unit"):
        for s in ("up", "down", "unordered", "inner", "one", "wide"):
            for form in ("object", "dict", "list"):
                if tier == "quick" and s == "inner" and form != "dict":
                    continue
                if tier == "quick" and form == "list" and (f, s) != ("up", "down"):
                    continue
                for inplace in (False, True):
                    if tier == "quick" and inplace and f != "down":
                        continue
                    out.append((f"two:{f}:{s}:{form}:{'inplace' if inplace else 'new'}", two, {"first": f, "second": s, "form": form, "inplace": inplace, "full": tier != "quick"}))
    out += [("three:object", three, {"form": "object"}), ("three:dict", three, {"form": "list"}), ("refused", refused, {})]
    return out
