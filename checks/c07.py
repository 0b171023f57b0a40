"""C07 copies of metadata are equal and independent"""
import copy

from checks import gen

PROPERTY = "C07"
IMPORTS = ["checks.gen", "mt_metadata.timeseries", "mt_metadata.common", "mt_metadata.timeseries.filters",
           "mt_metadata.transfer_functions.core"]
OPTS = {"keep_models": 6, "budget_s": 240, "max_paths": 8000}


def BOUNDS(tier):
    return ("every metadata class with all attributes set, containers with one or two members of every kind at every level, times, ordered "
            "key lists and a transfer function; copies by .copy() and copy.deepcopy; one change - a symbolic value for any attribute at "
            "any depth, a list member or dictionary entry changed in place, an attribute of any nested object or member, a member "
            "removed - to either side")


# ------------------------------------------------------------------ snapshots that share nothing with the object
def plain(x, seen=()):
    """the values of an object as plain python data (symbolic scalars stay)"""
    if gen.is_meta(x):
        out = {n: plain(getattr(x, n)) for n in gen.fields(type(x))}
        return ("meta", type(x).__name__, out)
    n = type(x).__name__
    if n in ("MTime", "MDate"):
        return ("time", x.isoformat())
    if n == "ListDict":
        return ("listdict", [(k, plain(v)) for k, v in zip(list(x.keys()), list(x.values()))])
    if isinstance(x, dict):
        return ("dict", [(k, plain(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return ("list", [plain(v) for v in x])
    if n == "ndarray":
        return ("array", [plain(v) for v in list(x.ravel())], tuple(x.shape))
    if n in ("Dataset", "DataArray"):
        return ("xr", [plain(v) for v in list(x.to_array().values.ravel())] if n == "Dataset" else plain(x.values))
    if x is None or isinstance(x, (str, bool, int, float, complex)):
        return x
    return str(x)


def eq(a, b):
    """equality of two snapshots (possibly a symbolic truth value)"""
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            q = eq(x, y)
            if q is False:
                return False
            r = q if r is True else r & q
        return r
    if isinstance(a, dict):
        if not isinstance(b, dict) or list(a) != list(b):
            return False
        return eq(list(a.values()), list(b.values()))
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return a == b


# ------------------------------------------------------------------ where one can change an object in place
def sites(x, path=(), depth=0):
    """(path, object) of every nested metadata object, list, dict and ordered key list"""
    n = type(x).__name__
    if gen.is_meta(x):
        if path:
            yield path, x
        for f in gen.fields(type(x)):
            yield from sites(getattr(x, f), path + (("attr", f),), depth + 1)
    elif n == "ListDict":
        yield path, x
        for k in list(x.keys()):
            yield from sites(x[k], path + (("key", k),), depth + 1)
    elif isinstance(x, dict):
        yield path, x
        for k in x:
            yield from sites(x[k], path + (("key", k),), depth + 1)
    elif isinstance(x, list):
        yield path, x
        for i, v in enumerate(x):
            yield from sites(v, path + (("key", i),), depth + 1)


def at(x, path):
    for kind, k in path:
        x = getattr(x, k) if kind == "attr" else x[k]
    return x


def poke(x, how):
    """change the object in place"""
    n = type(x).__name__
    if n == "ListDict":
        if how == "remove" and len(x):
            x.remove(list(x.keys())[0])
        else:
            x["zz"] = 5
    elif isinstance(x, dict):
        x["zz"] = 5
    elif isinstance(x, list):
        if how == "remove" and len(x):
            x.pop()
        else:
            x.append(x[0] if x else "zz")
    else:
        for f, v in list(((f, getattr(x, f)) for f in gen.fields(type(x)))):
            k = gen.kind(type(x), f)
            if k in ("str", "comment", "float", "int", "bool", "time", "date"):
                for new in ({"str": ["qqx", "hq", "eq", "q"], "comment": ["qqx"], "float": [7.5], "int": [7], "bool": [not v],
                             "time": ["2021-05-05T00:00:00+00:00"], "date": ["2021-05-05"]}[k]):
                    try:
                        setattr(x, f, new)
                    except Exception:
                        continue
                    if not (eq(plain(v), plain(getattr(x, f))) is True):
                        return
        for f in gen.fields(type(x)):
            if isinstance(getattr(x, f), list):
                getattr(x, f).append("zz")
                return


# ------------------------------------------------------------------ originals
def run(i, n=2):
    from mt_metadata.timeseries import Run, Electric, Magnetic, Auxiliary
    r = Run(id=f"00{i}")
    for c in (Electric(component="ex", dipole_length=10.0 + i), Magnetic(component="hy"), Auxiliary(component="temperature"))[:n + 1]:
        c.comments = "text"
        c.add_filter(name="low pass", stage=1)
        r.add_channel(c)
    return r


def station(i, small=False):
    from mt_metadata.timeseries import Station
    s = Station(id=f"mt0{i}")
    s.location.latitude = 10.0 + i
    for k in (1,) if small else (1, 2):
        s.add_run(run(k, 0 if small else 1))
    return s


def survey(i):
    from mt_metadata.timeseries import Survey
    from mt_metadata.timeseries.filters import CoefficientFilter, PoleZeroFilter
    s = Survey(id=f"s{i}")
    s.add_station(station(1, True))
    for f in (CoefficientFilter(name="gain"), PoleZeroFilter(name="pz", poles=[1 + 1j, 1 - 1j], zeros=[0j])):
        s.filters[f.name] = f
    return s


def experiment(i):
    from mt_metadata.timeseries import Experiment
    e = Experiment()
    e.add_survey(survey(1))
    return e


def response(i):
    from mt_metadata.timeseries.filters import ChannelResponse, CoefficientFilter, TimeDelayFilter
    return ChannelResponse(filters_list=[CoefficientFilter(name="gain", gain=2.0), TimeDelayFilter(name="delay", delay=0.5)])


def listdict(i):
    from mt_metadata.common.list_dict import ListDict
    d = ListDict()
    d["a"] = run(1)
    d["b"] = [1, 2]
    d["c"] = 5
    return d


def mtime(i):
    from mt_metadata.common.mttime import MTime
    return MTime(time_stamp="2020-01-02T03:04:05")


def fc(i):
    from mt_metadata.processing.fourier_coefficients import FC, Decimation, FCChannel
    f = FC(id="fc")
    for l in (0, 1):
        d = Decimation(id=str(l))
        for c in ("ex", "hy"):
            d.add_channel(FCChannel(component=c))
        f.add_decimation_level(d)
    return f


MAKERS = {f.__name__: f for f in (run, station, survey, experiment, response, listdict, mtime, fc)}


def copy_of(ctx, a):
    return a.copy() if ctx.choice("by", ["copy", "deepcopy"]) == "copy" else copy.deepcopy(a)


# ------------------------------------------------------------------ harnesses
def attribute(ctx, cls):
    """any attribute of a fully populated object, over its whole declared kind"""
    lv = gen.leaves(cls)
    path, owner, fname, k = ctx.choice("attr", lv)
    a = gen.base_object(cls, True)
    v = gen.value(ctx, "v", owner, fname, k, variant="." in path)
    side = ctx.choice("side", ["copy", "original", "before"])
    if side == "before":
        try:
            gen.put(a, path, v)
        except Exception:
            ctx.assume(False)
    snap = plain(a)
    c = copy_of(ctx, a)
    ctx.check(type(c) is type(a), "a copy has the class of the original")
    ctx.check(eq(plain(c), snap), "a copy has the values of the original")
    ctx.check(eq(plain(a), snap), "copying leaves the original alone")
    if side == "before":
        return
    ctx.check(a == c, "a copy equals the original")
    x, y = (c, a) if side == "copy" else (a, c)
    try:
        gen.put(x, path, v)
    except Exception:
        ctx.assume(False)
    ctx.check(eq(plain(y), snap), f"changing an attribute of the {side} does not show in the other")
    ctx.reach(path)


def member(ctx, maker):
    """a change in place anywhere inside of a container"""
    a = MAKERS[maker](1)
    places = [p for p, x in sites(a)]
    place = ctx.choice("site", places)
    how = ctx.choice("how", ["change", "remove"])
    side = ctx.choice("side", ["copy", "original"])
    snap = plain(a)
    c = copy_of(ctx, a)
    ctx.check(eq(plain(c), snap), "a copy has the values of the original")
    ctx.check(eq(plain(a), snap), "copying leaves the original alone")
    if maker != "response":
        ctx.check(a == c if maker != "listdict" else True, "a copy equals the original")
    x, y = (c, a) if side == "copy" else (a, c)
    try:
        poke(at(x, place), how)
    except Exception:
        ctx.assume(False)
    ctx.check(eq(plain(y), snap), f"a change inside of the {side} does not show in the other")


def inplace(ctx, cls):
    """lists, dictionaries and nested objects of a single object changed in place"""
    a = gen.base_object(cls, True)
    places = [p for p, x in sites(a)]
    if not places:
        return
    place = ctx.choice("site", places)
    how = ctx.choice("how", ["change", "remove"])
    side = ctx.choice("side", ["copy", "original"])
    snap = plain(a)
    c = copy_of(ctx, a)
    x, y = (c, a) if side == "copy" else (a, c)
    try:
        poke(at(x, place), how)
    except Exception:
        ctx.assume(False)
    ctx.check(eq(plain(y), snap), f"a change inside of the {side} does not show in the other")


def time(ctx):
    """times"""
    from mt_metadata.common.mttime import MTime
    t = MTime(time_stamp=ctx.int("t", 1, 2000000000))
    c = copy_of(ctx, t)
    ctx.check(c == t, "a copy equals the original")
    was = t.isoformat()
    c.time_stamp = ctx.int("u", 1, 2000000000)
    ctx.check(t.isoformat() == was, "changing the copy does not show in the original")


def instances(tier):
    out = []
    for n in ("experiment", "survey", "station", "fc", "run", "response", "listdict"):
        out.append((f"member:{n}", member, {"maker": n}))
    for c in sorted(gen.classes(), key=gen.weight):
        if not gen.has_leaves(c):
            continue
        out.append((gen.short(c), attribute, {"cls": c}))
        out.append((gen.short(c) + ":inplace", inplace, {"cls": c}))
    out.append(("time", time, {}))
    return out
