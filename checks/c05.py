"""C05 attributes are validated on every assignment"""
import copy

from checks import gen

PROPERTY = "C05"
IMPORTS = ["checks.gen"]
OPTS = {"keep_models": 6, "budget_s": 240, "max_paths": 8000}
ASSUMPTIONS = ["what the pydantic core makes of plain values (numbers, truth values, enumeration members, lists) is modelled; "
               "the repository's own validators run symbolically, and finished paths are replayed with the real core"]


def BOUNDS(tier):
    return ("every metadata class; one attribute (any depth) at a time: a valid value of its whole declared kind in its own or an "
            "equivalent text form, set in five ways; and for number, truth, time, enumeration, address and pattern attributes a "
            "value that has no conversion, set in three ways")


BAD = {"float": ["abc", "1.2.3"], "int": ["abc", "4x"], "bool": ["maybe"], "time": ["not a time"], "date": ["13/45/9"],
       "url": ["no address"], "email": ["nope"]}


def forms(k):
    if k in ("float", "int", "time", "date"):
        return ["own", "text"]
    if k == "bool":
        return ["own", "text"]
    if k[0] == "enum":
        return ["own", "member"]
    return ["own"]


def as_form(v, k, form):
    if form == "own":
        return v
    if k == "bool":
        return "true" if v else "false"
    if form == "member":
        return k[1](v)
    if k in ("time", "date"):
        return v.isoformat()
    return str(v)


def denotes(x, v, k, cls, fname):
    """does the stored x stand for the given v"""
    if k == "unit" or k == "datum" or k[0] in ("members", "names"):
        return True     # canonical names and members: the ways of setting have to agree, no more
    if k == "time" and type(x).__name__ != "MTime":
        return True     # kept as a date or a text by its class
    if k == "str":
        return isinstance(x, str) and x.lower() == v.lower()   # some names are kept in lower case
    if k == "comment":
        return x.value == v if gen.is_meta(x) else x == v
    if k in ("url", "email", "path"):
        return str(x).rstrip("/") == str(v).rstrip("/")
    if k == "zpk":
        return len(x) == len(v) and all((a.real == complex(b).real) & (a.imag == complex(b).imag) for a, b in zip(x, v))
    if isinstance(x, list) and not isinstance(v, (list, tuple)):
        return len(x) == 1 and gen.same(x[0], v)
    return gen.same(x, v) if not type(x).__name__ == "ndarray" else gen.same(list(x), list(v))


def wrapped(cls, path, raw, way):
    d = {path: raw}
    if way == "nested":
        for p in reversed(path.split(".")):
            d = {p: raw if p == path.split(".")[-1] and d == {path: raw} else d}
    return d


def nest(path, raw):
    d = raw
    for p in reversed(path.split(".")):
        d = {p: d}
    return d


def set_by(way, cls, populated, path, raw):
    if way == "constructor":
        return cls(**({path: raw} if "." not in path else {path: raw}))
    o = gen.base_object(cls, populated)
    if way == "attribute":
        gen.put(o, path, raw)
    elif way == "update_attribute":
        o.update_attribute(path, raw)
    elif way == "set_attr_from_name":
        o.set_attr_from_name(path, raw)
    elif way == "flat":
        o.from_dict({cls.__name__: {path: raw}})
    else:
        o.from_dict({"x": nest(path, raw)} if "." not in path else {cls.__name__: nest(path, raw)})
    return o


def h(ctx, cls, populated):
    lv = gen.leaves(cls)
    path, owner, fname, k = ctx.choice("attr", lv)
    nested = "." in path
    v = gen.value(ctx, "v", owner, fname, k, variant=nested)
    form = ctx.choice("form", forms(k) if len(lv) < 45 or not nested else forms(k)[-1:])
    raw = as_form(v, k, form)
    try:
        ref = set_by("attribute", cls, populated, path, raw)
    except Exception:
        if form == "own":
            ctx.assume(False)   # a value outside the range of the attribute
        try:
            set_by("attribute", cls, populated, path, v)
        except Exception:
            ctx.assume(False)
        ctx.fail("the text form of an accepted value is accepted")
        return
    x = gen.get(ref, path)
    if not derived(cls, owner, path, k):
        ctx.check(denotes(x, v, k, owner, fname), f"stored as given: {path}")
    ways = ["update_attribute", "set_attr_from_name", "flat", "nested"]
    if not populated:
        ways.append("constructor")
    for way in ways:
        if outside(cls, owner, path, k, way, populated):
            continue
        try:
            o = set_by(way, cls, populated, path, copy.deepcopy(raw))
        except Exception:
            if way == "constructor" and not constructible(cls):
                continue
            ctx.fail(f"accepted by {way}: {path}")
            continue
        ctx.check(gen.same(gen.get(o, path), x), f"same by {way}: {path}")
    ctx.reach(path)


# attributes that follow from others (sorted, estimated, forced or brought to other units by design)
DERIVED = {"run_list", "channels_recorded", "channels_estimated", "decimation_levels", "normalization_frequency", "type", "azm",
           "phases"}


def derived(cls, owner, path, k):
    return path.split(".")[-1] in DERIVED or k[0] == "names" or "zonge" in owner.__module__ and owner.__name__ == "Unit"


def outside(cls, owner, path, k, way, populated):
    """ways of setting with a meaning of their own"""
    if way == "constructor":
        # features force their names; the names of a channel nomenclature follow its keyword
        # (a spectral decimation forces one; quality warnings take comments as text only)
        return path.endswith("per_window_detrend_type") or "data_quality_warnings.comments." in cls.__name__.lower().replace(
            "dataqualitywarnings", "data_quality_warnings.") + path or "features." in owner.__module__ or owner.__name__ == "ChannelNomenclature"
    if way in ("flat", "nested"):
        # a Z-file channel reads the form of its file; filters and arguments given in a dictionary are added to those there
        return "zfiles" in cls.__module__ and cls.__name__ == "Channel" or populated and path.split(".")[-1] in ("filters", "additional_args")
    return False


# readers that fall back to the default on purpose
LENIENT = {("TransferFunction", "coordinate_system")}


def constructible(cls):
    try:
        cls()
        return True
    except Exception:
        return False


def h_bad(ctx, cls, populated):
    lv = [l for l in gen.leaves(cls) if isinstance(l[3], str) and l[3] in BAD or l[3][0] == "enum" or gen.pattern_of(l[1], l[2]) in gen.PATTERN_VALUES]
    lv = [l for l in lv if (l[1].__name__, l[2]) not in LENIENT and not ("zfiles" in cls.__module__ and cls.__name__ == "Channel")]
    if not lv:
        ctx.reach("no such attribute")
        return
    path, owner, fname, k = ctx.choice("attr", lv)
    bad = ctx.choice("bad", BAD[k] if isinstance(k, str) and k in BAD else ["no such member"] if k[0] == "enum" else ["!!", "%a"])
    way = ctx.choice("way", ["attribute", "update_attribute", "flat"])
    o = gen.base_object(cls, populated)
    before = copy.deepcopy(o)
    try:
        if way == "attribute":
            gen.put(o, path, bad)
        elif way == "update_attribute":
            o.update_attribute(path, bad)
        else:
            o.from_dict({cls.__name__: {path: bad}})
    except Exception:
        ctx.check(gen.same(o, before), "refused values leave the object unchanged")
        ctx.reach("refused")
        return
    ctx.fail(f"{bad!r} is refused: {path}")


def instances(tier):
    out = []
    for c in sorted(gen.classes(), key=gen.weight):
        if not gen.has_leaves(c):
            continue
        for p in (False, True):
            out.append((gen.short(c) + (":populated" if p else ":defaults"), h, {"cls": c, "populated": p}))
        out.append((gen.short(c) + ":refusal", h_bad, {"cls": c, "populated": True}))
    return out
