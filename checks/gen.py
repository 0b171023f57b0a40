"""class-generic inputs: which metadata classes exist, which leaves they have, a symbolic value for a leaf.

Everything comes from the current pydantic model fields; nothing is listed by hand except the
classes that need constructor arguments and the leaves whose values are free objects.
"""
import copy
import importlib
import inspect
import pkgutil
import typing
import types
from enum import Enum

_ALL = None


def all_modules():
    import mt_metadata
    out = []
    for m in pkgutil.walk_packages(mt_metadata.__path__, "mt_metadata."):
        try:
            importlib.import_module(m.name)
            out.append(m.name)
        except Exception:
            pass
    return out


def base():
    from mt_metadata.base.metadata import MetadataBase
    return MetadataBase


def classes(prefixes=("",)):
    """every concrete MetadataBase class, sorted by qualified name"""
    global _ALL
    if _ALL is None:
        all_modules()
        B = base()
        seen = {}

        def walk(c):
            for s in c.__subclasses__():
                q = s.__module__ + "." + s.__qualname__
                if s.__module__.startswith("mt_metadata.") and hasattr(importlib.import_module(s.__module__), s.__name__):
                    seen[q] = s
                walk(s)
        walk(B)
        _ALL = [seen[k] for k in sorted(seen)]
    return [c for c in _ALL if any(c.__module__[len("mt_metadata."):].startswith(p) for p in prefixes)]


def short(c):
    return c.__module__[len("mt_metadata."):] + "." + c.__name__


def make(cls):
    if cls.__name__ == "TaperWeightKernel":
        return cls(low_cut=(0.1, 0.2), high_cut=(0.8, 0.9), style="hann")
    return cls()


def is_meta(x):
    return isinstance(x, base())


def fields(cls):
    return cls.model_fields


# ------------------------------------------------------------------ leaves
def _args(ann):
    o = typing.get_origin(ann)
    if o is typing.Annotated:
        return _args(typing.get_args(ann)[0])
    if o is typing.Union or o is types.UnionType:
        out = []
        for a in typing.get_args(ann):
            out.extend(_args(a))
        return out
    return [ann]


def _name(a):
    return getattr(a, "__name__", str(a))


SKIP_NAMES = {"ndarray", "DataArray", "Dataset", "ListDict", "HttpUrl", "AnyUrl", "EmailStr", "AnyHttpUrl", "dict", "Path",
              "complex", "OrderedDict"}


def kind(cls, name):
    """kind of the leaf field, or None when it has no simple value"""
    ann = fields(cls)[name].annotation
    args = _args(ann)
    if cls.__name__ == "PoleZeroFilter" and name in ("poles", "zeros"):
        return "zpk"
    if name == "additional_args":
        return "args"
    names = [_name(a) for a in args]
    if any(n in ("MTime",) for n in names):
        return "time"
    if any(n in ("MDate",) for n in names):
        return "date"
    en = [a for a in args if inspect.isclass(a) and issubclass(a, Enum)]
    if en:
        return ("enum", en[0])
    if any(inspect.isclass(a) and issubclass(a, base()) for a in args):
        return "meta" if len([a for a in args if a is not type(None)]) == 1 else "comment" if "Comment" in names else None
    o = [typing.get_origin(a) for a in args]
    if list in o and name.startswith("channels_recorded_"):
        return ("names", {"electric": ["e1", "ex"], "magnetic": ["bz", "hx"]}.get(name.split("_")[-1], ["aux", "temp"]))
    if list in o:
        inner = typing.get_args(args[o.index(list)])
        ia = [x for i in inner for x in _args(i)]
        if all(x in (str, float, int) for x in ia):
            return ("list", ia[0].__name__)
        ms = [x for x in ia if inspect.isclass(x) and issubclass(x, base())]
        if ms:
            return ("members", ms[0])
        return None
    if tuple in o:
        return ("tuple", [x.__name__ for x in typing.get_args(args[o.index(tuple)])])
    if "HttpUrl" in names or "AnyUrl" in names or "AnyHttpUrl" in names:
        return "url"
    if "EmailStr" in names:
        return "email"
    if "Path" in names:
        return "path"
    if any(n in SKIP_NAMES for n in names) or "NDArray" in str(ann):
        return None
    if str in args and name.startswith("unit"):
        return "unit"
    if name == "datum":
        return "datum"
    if bool in args:
        return "bool"
    if float in args and str not in args:
        return "float"
    if int in args and str not in args:
        return "int"
    if str in args:
        return "str"
    if float in args:
        return "float"
    return None


_LEAVES = {}


def leaves(cls):
    """cached: the leaves of a new object of cls"""
    if cls not in _LEAVES:
        _LEAVES[cls] = leaves_of(cls)
    return _LEAVES[cls]


def leaves_of(cls, obj=None, prefix="", depth=0, limit=6):
    """[(dotted path, owner class, field name, kind)]"""
    obj = make(cls) if obj is None else obj
    out = []
    for n in fields(cls):
        try:
            v = getattr(obj, n)
        except Exception:
            continue
        if is_meta(v):
            if depth < limit:
                out.extend(leaves_of(type(v), v, prefix + n + ".", depth + 1, limit))
            continue
        k = kind(cls, n)
        if k in (None, "meta"):
            continue
        out.append((prefix + n, type(v) if False else cls, n, k))
    return out


def has_leaves(cls):
    """False only for classes without simple attributes (a class that cannot be made counts as having some)"""
    try:
        return bool(leaves(cls))
    except Exception:
        return True


def weight(cls):
    """heavier classes sort first"""
    try:
        return -len(leaves(cls))
    except Exception:
        return 0


# ------------------------------------------------------------------ values
STR_ALPHABET = "aZ3_ "


def pattern_of(cls, name):
    for m in fields(cls)[name].metadata:
        p = getattr(m, "pattern", None)
        if p:
            return p
    e = fields(cls)[name].json_schema_extra
    return None


def example(cls, name):
    e = fields(cls)[name].json_schema_extra
    if isinstance(e, dict):
        return e.get("examples")
    return None


PATTERN_VALUES = {
    r"^[eE][a-zA-Z0-9_]*$": ("e", "xXyZ1_"),
    r"^[hHbBrR][a-zA-Z0-9_]*$": ("h", "xXyZ1_"),
    r"^(RR|rr|[hHbB])[a-zA-Z0-9_]+$": ("h", "xXyZ1_"),
    r"^(RR|rr|[eE])[a-zA-Z0-9_]+$": ("e", "xXyZ1_"),
    "^[a-zA-Z0-9]{2}$": ("M", "xZ1"),
    "^[a-zA-Z0-9]{3}*$": ("LF", "xZ1"),
}

# leaves whose text has a meaning of its own: (class name, field) -> concrete valid texts to choose from
TEXTS = {
    ("Comment", "value"): None,
}
LATS = ("latitude", "lat")


def sym_text(ctx, name, cls, fname, maxlen=2):
    pat = pattern_of(cls, fname)
    if pat in PATTERN_VALUES:
        first, alpha = PATTERN_VALUES[pat]
        return first + ctx.str(name, minlen=1, maxlen=1, alphabet=alpha)
    if pat:
        return "q" + ctx.str(name, minlen=1, maxlen=1, alphabet="aAZ3_")
    # no blanks at the ends: text is stripped by several readers by design
    return "q" + ctx.str(name, minlen=1, maxlen=1, alphabet="aAZ3_ -.") + "x"


def value(ctx, name, cls, fname, k, variant=0):
    """a symbolic value of the declared kind"""
    if cls.__name__ == "ChannelResponse" and fname == "frequencies":
        # the pass band is derived from them by a search over the response
        return list(ctx.choice(name, [[], [0.25, 2.0], [0.1, 1.0, 10.0]]))
    if k == "time":
        from mt_metadata.common.mttime import MTime
        s = ctx.int(name, 1, 2000000000)
        return MTime(time_stamp=s)
    if k == "date":
        from mt_metadata.common.mttime import MDate, MTime
        d = ctx.int(name, 1, 20000)
        return MDate(time_stamp=MTime(time_stamp=d * 86400).isoformat()[:10])
    if k == "float":
        if fname in LATS or "latitude" in fname:
            return ctx.real(name, -90, 90)
        if "longitude" in fname or fname in ("lon",):
            return ctx.real(name, -180, 180)
        return ctx.real(name, -100000, 100000)
    if k == "int":
        return ctx.int(name, -1000, 1000)
    if k == "bool":
        return ctx.bool(name)
    if k == "unit":
        return ctx.choice(name, ["volt", "nanotesla", "degree Celsius"])
    if k == "datum":
        return ctx.choice(name, ["WGS 84", "NAD27"])
    if k == "url":
        return ctx.choice(name, ["https://a.bc/d", "http://xy.org/e/f?g=1"])
    if k == "email":
        return ctx.choice(name, ["a@usgs.gov", "bc.d@e.org"])
    if k == "str":
        return sym_text(ctx, name, cls, fname)
    if k == "comment":
        return sym_text(ctx, name, cls, fname)
    if k[0] == "enum":
        ms = [m.value for m in k[1]]
        return ctx.choice(name, ms if variant == 0 else ms[:1] + ms[-1:])
    if k == "path":
        return ctx.choice(name, ["/a/b.h5", "c.h5"])
    if k == "args":
        n = ctx.choice(name + ".n", [0, 1, 2])
        return {key: ctx.real(f"{name}.{key}", -1e6, 1e6) for key in ("beta", "sym")[:n]}
    if k == "zpk":
        n = ctx.choice(name + ".n", [0, 1, 2])
        return [ctx.complex(f"{name}.{i}") for i in range(n)]
    if k[0] == "members":
        return [member(ctx, f"{name}.{i}", k[1], i) for i in range(ctx.choice(name + ".n", [0, 1, 2]))]
    if k[0] == "names":
        return list(ctx.choice(name, [[], k[1][:1], k[1]]))
    if k[0] == "list":
        n = ctx.choice(name + ".n", [0, 2])
        out = []
        for i in range(n):
            if k[1] == "str":
                out.append("q" + ctx.str(f"{name}.{i}", minlen=1, maxlen=1, alphabet="aAZ3_"))
            elif k[1] == "float":
                out.append(ctx.real(f"{name}.{i}", -1000, 1000))
            else:
                out.append(ctx.int(f"{name}.{i}", -1000, 1000))
        return out
    if k[0] == "tuple":
        return tuple(ctx.real(f"{name}.{i}", -1000, 1000) for i in range(len(k[1])))
    raise KeyError(k)


def concrete(cls, fname, k, salt=0):
    """a concrete non-default valid value"""
    if k == "time":
        return f"2020-01-0{1 + salt % 9}T0{salt % 10}:02:03+00:00"
    if k == "date":
        return f"2021-02-{10 + salt % 18}"
    if k == "float":
        return 1.25 + salt % 7
    if k == "int":
        return 2 + salt % 5
    if k == "bool":
        return True
    if k == "unit":
        return "volt"
    if k == "datum":
        return "NAD27"
    if k == "url":
        return "https://a.bc/d"
    if k == "email":
        return "a@usgs.gov"
    if k in ("str", "comment"):
        pat = pattern_of(cls, fname)
        if pat in PATTERN_VALUES:
            return PATTERN_VALUES[pat][0] + "x"
        return f"t{salt % 10}" if pat else f"text {salt % 10}"
    if k[0] == "enum":
        ms = [m.value for m in k[1]]
        return ms[salt % len(ms)]
    if k == "path":
        return "d.h5"
    if k == "args":
        return {"beta": 2.5}
    if k == "zpk":
        return [0.5 + 1j, 0.5 - 1j]
    if k[0] == "members":
        if fname == "weight_kernels":
            return None  # a known finding of its own: kept out of the objects around it
        return [populate(make(k[1]))]
    if k[0] == "names":
        return list(k[1])
    if k[0] == "list":
        return {"str": ["p1", "p2"], "float": [1.5, 2.5], "int": [1, 2]}[k[1]]
    if k[0] == "tuple":
        return None
    return None


def member(ctx, name, cls, i):
    """an object of cls with everything set and its first number and first text symbolic, distinct from its neighbours"""
    o = base_object(cls, True)
    done = set()
    for path, owner, fname, k in leaves(cls):
        if k not in ("float", "str") or k in done or pattern_of(owner, fname):
            continue
        done.add(k)
        try:
            put(o, path, ("abc"[i] if k == "str" else 0) + value(ctx, f"{name}.{k}", owner, fname, k))
        except Exception:
            pass
    return o


def put(obj, path, v):
    """assign through attribute access; True when accepted"""
    parts = path.split(".")
    for p in parts[:-1]:
        obj = getattr(obj, p)
    setattr(obj, parts[-1], v)


def get(obj, path):
    for p in path.split("."):
        obj = getattr(obj, p)
    return obj


def admits_none(cls, fname):
    return type(None) in _args(fields(cls)[fname].annotation)


def complete(obj):
    """give the required attributes without a default of their own a value"""
    for i, (path, cls, fname, k) in enumerate(leaves(type(obj))):
        if get(obj, path) is None and not admits_none(cls, fname):
            v = concrete(cls, fname, k, i)
            try:
                put(obj, path, v)
            except Exception:
                pass
    settle(obj)
    return obj


_BASE = {}


def base_object(cls, populated):
    """a fresh settled object: defaults (with the required attributes given) or everything set; cached per process"""
    key = (cls, populated)
    if key not in _BASE:
        o = make(cls)
        _BASE[key] = populate(o) if populated else complete(o)
    return copy.deepcopy(_BASE[key])


def settle(obj, owner=None):
    """assign every attribute its own value, so that values that follow from others or were never validated are in place"""
    for i, (path, cls, fname, k) in enumerate(leaves(type(obj))):
        if owner is not None and path.rpartition(".")[0] != owner:
            continue
        v = get(obj, path)
        try:
            put(obj, path, v)
        except Exception:
            try:
                put(obj, path, concrete(cls, fname, k, i))
            except Exception:
                pass
    return obj


def populate(obj, skip=()):
    """give every leaf a concrete non-default value where one is accepted"""
    for i, (path, cls, fname, k) in enumerate(leaves(type(obj))):
        if path in skip:
            continue
        v = concrete(cls, fname, k, i)
        if v is None:
            continue
        try:
            put(obj, path, v)
        except Exception:
            pass
    settle(obj)
    return obj


# ------------------------------------------------------------------ comparison
def same(a, b, eq=None):
    """strict, attribute by attribute equality of two values (may be a symbolic truth value)"""
    if is_meta(a) or is_meta(b):
        if not (is_meta(a) and is_meta(b)) or type(a) is not type(b):
            return False
        r = True
        for n in fields(type(a)):
            q = same(getattr(a, n), getattr(b, n))
            if q is False:
                return False
            r = q if r is True else r & q
        return r
    if a is None or b is None:
        return a is b
    from mt_metadata.common.mttime import MTime, MDate
    if isinstance(a, (MTime, MDate)) or isinstance(b, (MTime, MDate)):
        a = a.isoformat() if isinstance(a, (MTime, MDate)) else a
        b = b.isoformat() if isinstance(b, (MTime, MDate)) else b
        return a == b if isinstance(a, str) and isinstance(b, str) else False
    if isinstance(a, Enum) or isinstance(b, Enum):
        av = a.value if isinstance(a, Enum) else a
        bv = b.value if isinstance(b, Enum) else b
        return av == bv
    if type(a).__name__ == "ListDict" or type(b).__name__ == "ListDict":
        if type(a) is not type(b) or len(a) != len(b):
            return False
        return same(list(a.keys()), list(b.keys())) and same(a.values(), b.values())
    if isinstance(a, bool) or isinstance(b, bool):
        if not (isinstance(a, bool) and isinstance(b, bool)):
            return False
        return a == b
    if isinstance(a, str) or isinstance(b, str):
        if not (isinstance(a, str) and isinstance(b, str)):
            return False
        return a == b
    if isinstance(a, (int, float)) or isinstance(b, (int, float)):
        if not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
            return False
        return a == b
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            q = same(x, y)
            if q is False:
                return False
            r = q if r is True else r & q
        return r
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or len(a) != len(b):
            return False
        for k in a:
            if k not in b:
                return False
            if not same(a[k], b[k]):
                return False
        return True
    if type(a).__name__ == "ndarray" or type(b).__name__ == "ndarray":
        import numpy as np
        if getattr(a, "shape", None) != getattr(b, "shape", None):
            return False
        return same(list(a.ravel()), list(b.ravel()))
    return str(a) == str(b)


def symbolic(v):
    return type(v).__name__.startswith("Sym") or (isinstance(v, (list, tuple)) and any(symbolic(x) for x in v)) or \
        type(v).__name__ in ("MTime", "MDate")


def unset(v):
    if v is None:
        return True
    from mt_metadata.common.mttime import MTime, MDate
    if isinstance(v, (MTime, MDate)):
        v = v.isoformat()
    if isinstance(v, str):
        return (v == "") | (v == "1980-01-01T00:00:00+00:00") | (v == "1980-01-01") | (v == "1980")
    if isinstance(v, (list, tuple, dict)):
        return len(v) == 0
    return False


def agree(path, a, b):
    """same, or unset on both sides: unset values and absent coordinates may read back as another unset form"""
    r = same(a, b)
    if r is True:
        return True
    return r | (unset(a) & (unset(b) | (b == 0 if isinstance(b, float) else False)))


def check_same(ctx, a, b, label, skip=(), changed=(), loose=False):
    """one assertion per leaf in `changed` and per differing leaf; one for all the others"""
    rest = True
    for path, cls, fname, k in leaves(type(a)):
        if path in skip:
            continue
        try:
            x, y = get(a, path), get(b, path)
        except AttributeError:
            ctx.fail(f"{label}: {path}")
            continue
        r = agree(path, x, y) if loose else same(x, y)
        if r is True and path not in changed:
            continue
        ctx.check(r, f"{label}: {path}" if path in changed else f"{label}, also: {path}")
    ctx.check(rest, f"{label}: all other attributes")
