"""C41 flattening and structuring dictionaries are inverse"""
import copy

import numpy as np

from mt_metadata.base import helpers as H
from mt_metadata.utils import validators as V

PROPERTY = "C41"
IMPORTS = ["mt_metadata.base.helpers", "mt_metadata.utils.validators"]
OPTS = {"budget_s": 120}
ASSUMPTIONS = ["keys are not empty and do not contain the separator; no level is empty; the level names {real, imag} alone stand for one complex value"]
L = None
TREES = [(L,), (L, L), (L, L, L), ((L,),), ((L, L),), (L, (L,)), ((L,), L), ((L,), (L,)), ((L, L), L, (L,)), (((L,),),), (((L, L),),),
         (L, ((L,), L)), (((L,), L), (L,)), ((((L,),),),), (L, (L, (L, (L,))))]
SEPS = [".", "/", "_", "::"]


def BOUNDS(tier):
    return ("15 shapes of nested dictionaries up to 4 levels and 3 entries a level, every key of 1 or 2 characters of 'aA_- 1r' (longer at thorough), every value kind, "
            "separators '.', '/', '_', '::'; names of up to %d characters" % (4 if tier == "quick" else 6))


def key(ctx, n, sep, i):
    if i == 0:
        k = ctx.str(n, minlen=1, maxlen=2, alphabet="aA- 1r" if sep == "_" else "aA_- 1r")
    else:
        k = ctx.str(n, minlen=1, maxlen=1, alphabet="abr- 1")
    return k


def value(ctx, n, i, kind):
    if kind == 0:
        return ctx.real(n)
    return [None, "text", [1.0, 2.0], ("x",), True, [], {"real": [1.0], "imag": [0.0]}, 0][(i + kind) % 8]


def tree(ctx, shape, sep, n, count):
    out = {}
    for t in shape:
        i = count[0]
        count[0] += 1
        k = key(ctx, f"{n}k{i}", sep, i)
        for q in out:
            ctx.assume(q != k)
        if t is None:
            out[k] = value(ctx, f"{n}v{i}", i, count[1])
        else:
            out[k] = tree(ctx, t, sep, n, count)
    return out


def flat_of(d, sep, prefix=""):
    out = []
    for k, v in d.items():
        if isinstance(v, dict) and "imag" not in v:
            out.extend(flat_of(v, sep, prefix + k + sep))
        else:
            out.append((prefix + k, v))
    return out


def agree(ctx, a, b, label, ordered=True):
    ctx.check(len(a) == len(b), label + ": number of entries")
    if ordered:
        for x, y in zip(a.keys(), b.keys()):
            ctx.check(x == y, label + ": order of entries")
    for k, v in a.items():
        if k not in b:
            ctx.fail(label + ": an entry")
        w = b[k]
        if isinstance(v, dict):
            ctx.check(isinstance(w, dict), label + ": a level")
            agree(ctx, v, w, label, ordered)
        else:
            ctx.check(type(v) == type(w), label + ": kind of value")
            ctx.check(w == v, label + ": a value")


def nested(ctx, shape, sep, kind):
    d = tree(ctx, shape, sep, "", [0, kind])
    before = copy.deepcopy(d)
    f = H.flatten_dict(d) if sep == "." else H.flatten_dict(d, sep=sep)
    agree(ctx, before, d, "flattening leaves the argument alone")
    expected = flat_of(d, sep)
    ctx.check(len(f) == len(expected), "one entry for each value")
    for k, v in expected:
        if k not in f:
            ctx.fail("flat name of an entry")
        ctx.check(f[k] == v, "value under its flat name")
    g = dict(f)
    s = H.structure_dict(f) if sep == "." else H.structure_dict(f, sep=sep)
    agree(ctx, g, f, "structuring leaves the argument alone")
    agree(ctx, d, s, "flattened and structured")
    agree(ctx, f, H.flatten_dict(s) if sep == "." else H.flatten_dict(s, sep=sep), "structured and flattened")


def flat(ctx, sep):
    """a flat dictionary in any order, entries of a level need not stand together"""
    a, b, c = (ctx.str(n, minlen=1, maxlen=1, alphabet="abr1") for n in "abc")
    d, e = (ctx.str(n, minlen=1, maxlen=2, alphabet="abr1 ") for n in "de")
    ctx.assume((a != b) & (a != d) & (a != e) & (b != d) & (b != e) & (d != e))
    items = [(a + sep + c, ctx.real("v0")), (d, ctx.real("v1")), (a + sep + c + "x" + sep + b, "t"), (b + sep + "q", None), (a + sep + "y", [1])]
    order = ctx.perm("order", list(range(len(items))))
    f = {}
    for i in order:
        f[items[i][0]] = items[i][1]
    before = dict(f)
    s = H.structure_dict(f, sep=sep)
    agree(ctx, before, f, "structuring leaves the argument alone")
    ctx.check(len(s) == 3, "entries at the top")
    ctx.check(s[a][c] == items[0][1], "a value two levels down")
    ctx.check(s[d] == items[1][1], "a value at the top")
    ctx.check(s[a][c + "x"][b] == "t", "a value three levels down")
    agree(ctx, f, H.flatten_dict(s, sep=sep), "structured and flattened", ordered=False)


def prefix(ctx):
    """a name given for the top is put before every entry"""
    p = ctx.str("p", minlen=1, maxlen=2, alphabet="ab_")
    d = tree(ctx, (L, (L, (L,))), ".", "", [0, 0])
    f = H.flatten_dict(d, parent_key=p)
    for k, v in flat_of(d, ".", p + "."):
        if k not in f:
            ctx.fail("flat name of an entry under a name for the top")
        ctx.check(f[k] == v, "value under its flat name with a name for the top")
    ctx.check(len(f) == 3, "one entry for each value")
    s = H.structure_dict(f)
    ctx.check(len(s) == 1, "one entry at the top")
    agree(ctx, d, s[p], "flattened under a name and structured")


def attribute(ctx, n, which):
    name = ctx.str("s", minlen=1, maxlen=n, alphabet="abZQ_./1")
    try:
        r = V.validate_attribute(name) if which == "attribute" else V.validate_name(name)
    except V.MTValidatorError:
        ctx.check(name[0].isdigit(), "only names starting with a digit are refused")
        return
    ctx.check(not name[0].isdigit(), "names starting with a digit are refused")
    ctx.check(r == r.lower(), "no capitals")
    ctx.check("/" not in r, "no slashes")
    ctx.check((V.validate_attribute(r) if which == "attribute" else V.validate_name(r)) == r, "normalising again changes nothing")
    if name == name.lower():
        ctx.check(r == name.replace("/", "."), "a name in small letters stays, apart from slashes")
    ctx.check(r.replace("_", "").replace(".", "") == name.lower().replace("_", "").replace(".", "").replace("/", ""), "the letters and digits stay")


def words(ctx):
    """capitals start words, a dot starts a category"""
    a, b = ctx.str("a", minlen=1, maxlen=2, alphabet="abc1"), ctx.str("b", minlen=1, maxlen=2, alphabet="abc1")
    c, d = ctx.str("c", minlen=1, maxlen=1, alphabet="XYZ"), ctx.str("d", minlen=1, maxlen=1, alphabet="XYZ")
    f = ctx.choice("f", [V.validate_attribute, V.validate_name])
    ctx.check(f(c + a + d + b) == c.lower() + a + "_" + d.lower() + b, "words are joined by an underscore")
    ctx.check(f(c + a + "." + d + b) == c.lower() + a + "." + d.lower() + b, "categories stay apart by a dot")
    ctx.check(f(c + a + "/" + d + b) == c.lower() + a + "." + d.lower() + b, "a slash becomes a dot")


def refused(ctx):
    v = ctx.choice("v", [None, 1, 2.5, ["a"], b"a"])
    f = ctx.choice("f", [V.validate_attribute, V.validate_name])
    try:
        f(v)
    except V.MTValidatorError:
        return
    ctx.fail("a name that is not text is refused")


def station(ctx, n):
    name = ctx.str("s", minlen=1, maxlen=n, alphabet="abZ_.- 1é")
    try:
        r = V.validate_station_name(name)
    except V.MTValidatorError:
        ctx.check((name.strip() == "") | ("é" in name), "only names of other characters are refused")
        return
    ctx.check((" " not in r) & ("-" not in r) & ("." not in r) & ("/" not in r), "no blanks, dashes and dots")
    ctx.check(r == name.strip().replace(" ", "_").replace("-", "_").replace(".", "_"), "the other characters stay")
    ctx.check(V.validate_station_name(r) == r, "normalising again changes nothing")


def number_station(ctx):
    i = ctx.int("i", 0, 99999)
    ctx.check(V.validate_station_name(i) == str(i), "a number is its text")


def blank(ctx):
    name = ctx.str("s", minlen=1, maxlen=5, alphabet="ab_ .")
    r = H.validate_name(name)
    ctx.check(r == name.replace(" ", "_"), "blanks become underscores")
    ctx.check(H.validate_name(r) == r, "normalising again changes nothing")
    ctx.check(H.validate_name(None) == "unknown", "no name")


class Part:
    pass


def attributes(ctx, sep):
    """reading and setting by path reaches the attribute"""
    top, mid, low = Part(), Part(), Part()
    top.a, mid.b, low.c, top.c, mid.c = mid, low, 1.0, 2.0, 3.0
    x = ctx.real("x")
    path = ctx.choice("path", [["a", "b", "c"], ["a", "c"], ["c"]])
    ctx.check(H.recursive_split_getattr(top, sep.join(path), sep=sep)[0] == {3: 1.0, 2: 3.0, 1: 2.0}[len(path)], "value at a path")
    H.recursive_split_setattr(top, sep.join(path), x, sep=sep)
    ctx.check((low.c == (x if len(path) == 3 else 1.0)) & (mid.c == (x if len(path) == 2 else 3.0)) & (top.c == (x if len(path) == 1 else 2.0)), "only the value at the path is set")


def lists(ctx):
    n = [ctx.choice(f"n{i}", [0, 1, 2]) for i in range(3)]
    v = [[ctx.real(f"v{i}{j}") for j in range(k)] for i, k in enumerate(n)]
    f = H.flatten_list(v)
    e = v[0] + v[1] + v[2]
    ctx.check(len(f) == len(e), "number of values")
    for x, y in zip(f, e):
        ctx.check(x == y, "values in order")


def instances(tier):
    q = tier == "quick"
    out = []
    n = 4 if q else 6
    for w in ("attribute", "name"):
        out.append((f"name:{w}", attribute, {"n": n, "which": w}))
    out.append(("name:station", station, {"n": n}))
    for i, t in reversed(list(enumerate(TREES))):
        for sep in SEPS:
            if q and sep in ("_", "::") and i not in (8, 13):
                continue
            for kind in range(9):
                if q and kind not in (0, 1 + i % 8):
                    continue
                out.append((f"nested:{i}:{sep}:{kind}", nested, {"shape": t, "sep": sep, "kind": kind}))
    for sep in SEPS[:2] + SEPS[3:]:
        out.append((f"flat:{sep}", flat, {"sep": sep}))
    for sep in SEPS:
        out.append((f"attributes:{sep}", attributes, {"sep": sep}))
    out += [("prefix", prefix, {}), ("words", words, {}), ("refused", refused, {}), ("number", number_station, {}), ("blank", blank, {}), ("lists", lists, {})]
    return out
