"""C22 an experiment survives a dictionary, JSON and XML"""
import copy

from checks import gen

PROPERTY = "C22"
IMPORTS = ["checks.gen", "mt_metadata.timeseries", "mt_metadata.timeseries.filters"]
OPTS = {"keep_models": 6, "budget_s": 240, "max_paths": 8000, "timeout_ms": 15000}
ASSUMPTIONS = ["identifiers are different within their container", "an attribute without a value, or with the value of one, may come back as the default (experiments are read skipping them)",
               "writing XML first brings periods, the bounding box and positions of channels up to date with the members, so reading is compared with the experiment after writing"]
SKIP = ("channels_recorded", "run_list", "stations", "runs", "channels", "filters", "surveys")
FILTERS = ("PoleZeroFilter", "CoefficientFilter", "TimeDelayFilter", "FrequencyResponseTableFilter", "FIRFilter")
WAYS = ("dict", "nested", "json", "json-nested", "xml", "xml-text")


def BOUNDS(tier):
    return ("trees of up to two surveys, stations, runs and three channels of every kind, with no, one or two filters of every kind, every identifier of one or two characters and every sample rate, position and gain; "
            "and, in a tree of one of each, one attribute of one object (any depth) symbolic at a time over its whole declared kind" + ("" if tier == "quick" else ", the others at their defaults or all populated"))


def experiment():
    from mt_metadata.timeseries import Experiment
    return Experiment()


def through(e, way):
    from mt_metadata.timeseries import Experiment
    f = Experiment()
    if way == "dict":
        f.from_dict(e.to_dict())
    elif way == "nested":
        f.from_dict(e.to_dict(nested=True))
    elif way == "json":
        f.from_json(e.to_json())
    elif way == "json-nested":
        f.from_json(e.to_json(nested=True))
    elif way == "all":
        f.from_dict(e.to_dict(required=False))
    elif way == "xml-all":
        f.from_xml(element=e.to_xml(required=False))
    elif way == "unsorted":
        f.from_xml(element=e.to_xml(sort=False), sort=False)
    else:
        f.from_xml(element=e.to_xml())
    return f


def filter_of(kind, name, x):
    from mt_metadata.timeseries import filters
    kw = dict(name=name, units_in="volt", units_out="millivolt")
    if kind == "PoleZeroFilter":
        return filters.PoleZeroFilter(poles=[-1 + 2j, -1 - 2j], zeros=[3.0], normalization_factor=x, **kw)
    if kind == "CoefficientFilter":
        return filters.CoefficientFilter(gain=x, **kw)
    if kind == "TimeDelayFilter":
        return filters.TimeDelayFilter(delay=x, **kw)
    if kind == "FrequencyResponseTableFilter":
        return filters.FrequencyResponseTableFilter(frequencies=[1.0, 2.0], amplitudes=[x, 4.0], phases=[0.5, 0.25], **kw)
    return filters.FIRFilter(coefficients=[0.25, x, 0.5], decimation_factor=2.0, decimation_input_sample_rate=4.0, **kw)


def number_of(f):
    n = type(f).__name__
    if n == "PoleZeroFilter":
        return f.normalization_factor
    if n == "CoefficientFilter":
        return f.gain
    if n == "TimeDelayFilter":
        return f.delay
    if n == "FrequencyResponseTableFilter":
        return f.amplitudes[0]
    return f.coefficients[1]


def h_tree(ctx, shape, filters, way):
    """shape: per survey, per station, per run the components; filters: kinds in the first survey"""
    from mt_metadata import timeseries as ts
    e = experiment()
    want = []
    n = 0

    def ident(label, others, width=2):
        i = ctx.str(label, 1, width, "a1_", first="a1")
        for o in others:
            ctx.assume(o != i)
        return i

    for a, stations in enumerate(shape):
        sid = ident(f"survey{a}", [w[0] for w in want], 1)
        survey = ts.Survey(id=sid)
        wst = []
        for b, runs in enumerate(stations):
            tid = ident(f"station{a}{b}", [w[0] for w in wst])
            station = ts.Station(id=tid)
            lat = ctx.real(f"lat{a}{b}", -90, 90)
            station.location.latitude = lat
            wr = []
            for c, comps in enumerate(runs):
                rid = ident(f"run{a}{b}{c}", [w[0] for w in wr])
                run = ts.Run(id=rid)
                wc = []
                for d, comp in enumerate(comps):
                    rate = ctx.real(f"rate{a}{b}{c}{d}", 1, 1000)
                    cls = ts.Electric if comp[0] == "e" else ts.Magnetic if comp[0] in "hb" else ts.Auxiliary
                    run.add_channel(cls(component=comp, sample_rate=rate))
                    wc.append((comp, cls, rate))
                station.add_run(run)
                wr.append((rid, wc))
            survey.add_station(station)
            wst.append((tid, lat, wr))
        wf = []
        if a == 0:
            for k, kind in enumerate(filters):
                x = ctx.real(f"filter{k}", 1, 100)
                survey.filters[f"f{k}"] = filter_of(kind, f"f{k}", x)
                wf.append((f"f{k}", kind, x))
        e.add_survey(survey)
        want.append((sid, wst, wf))
    f = through(e, way)
    ctx.check(len(f.surveys) == len(want), "number of surveys")
    for sid, wst, wf in want:
        s = f.get_survey(sid)
        ctx.check(s is not None, "survey found")
        if s is None:
            continue
        ctx.check(s.id == sid, "the survey of that name")
        ctx.check(len(s.stations) == len(wst), "number of stations")
        ctx.check(len(s.filters) == len(wf), "number of filters")
        for name, kind, x in wf:
            ctx.check(name in s.filters.keys(), "filter found")
            if name in s.filters.keys():
                g = s.filters[name]
                ctx.check(type(g).__name__ == kind, "kind of a filter")
                ctx.check(g.name == name, "name of a filter")
                ctx.check(number_of(g) == x, "value of a filter")
                ctx.check(gen.same(g, e.get_survey(sid).filters[name]), "a filter is equal")
        for tid, lat, wr in wst:
            t = s.get_station(tid)
            ctx.check(t is not None, "station found")
            if t is None:
                continue
            ctx.check(t.id == tid, "the station of that name")
            ctx.check(t.location.latitude == lat, "position of a station")
            ctx.check(len(t.runs) == len(wr), "number of runs")
            ctx.check(len(t.run_list) == len(wr), "number of listed runs")
            for rid, wc in wr:
                r = t.get_run(rid)
                ctx.check(r is not None, "run found")
                if r is None:
                    continue
                ctx.check(r.id == rid, "the run of that name")
                ctx.check(len(r.channels) == len(wc), "number of channels")
                for comp, cls, rate in wc:
                    ch = r.get_channel(comp)
                    ctx.check(ch is not None, "channel found")
                    if ch is not None:
                        ctx.check(isinstance(ch, cls), "kind of a channel")
                        ctx.check(ch.component == comp, "the channel of that name")
                        ctx.check(ch.sample_rate == rate, "values of a channel")
    # the source is as it was
    ctx.check(len(e.surveys) == len(want), "the source keeps its surveys")
    for sid, wst, wf in want:
        ctx.check(len(e.get_survey(sid).stations) == len(wst), "the source keeps its stations")


def tree_of(level, obj):
    """an experiment with obj at its place and one of each of the others, and the way to it"""
    from mt_metadata import timeseries as ts
    e = experiment()
    survey = obj if level == "survey" else ts.Survey(id="sv")
    station = obj if level == "station" else ts.Station(id="st")
    run = obj if level == "run" else ts.Run(id="ra")
    channel = obj if level == "channel" else ts.Electric(component="ex")
    run.add_channel(channel)
    station.add_run(run)
    survey.add_station(station)
    if level == "filter":
        survey.filters[obj.name] = obj
    e.add_survey(survey)
    return e


def at(level, e):
    s = e.surveys[0]
    if level == "survey":
        return s
    if level == "filter":
        return s.filters[0]
    t = s.stations[0]
    return t if level == "station" else t.runs[0] if level == "run" else t.runs[0].channels[0]


NAMED = {"survey": ("id", "sv"), "station": ("id", "st"), "run": ("id", "ra"), "filter": ("name", "fa")}


def h_attr(ctx, cls, level, way, populated):
    lv = [x for x in gen.leaves(cls) if x[0].split(".")[0].replace("_electric", "").replace("_magnetic", "").replace("_auxiliary", "") not in SKIP]
    path, owner, fname, k = ctx.choice("attr", lv)
    obj = gen.base_object(cls, populated)
    if level == "channel":
        obj.component = {"Electric": "ex", "Magnetic": "hx", "Auxiliary": "temperature"}[cls.__name__]
    else:
        setattr(obj, NAMED[level][0], NAMED[level][1])
    v = gen.value(ctx, "v", owner, fname, k, variant="." in path)
    try:
        gen.put(obj, path, v)
    except Exception:
        ctx.assume(False)
    for o in {path.rpartition(".")[0], ""}:
        gen.settle(obj, o)
    if path == "id" or path == "component" or path == "name":
        ctx.assume(not (gen.get(obj, path) in (None, "", "None", "none", "null")))
    e = tree_of(level, obj)
    f = through(e, way)
    ctx.check(len(f.surveys) == 1 and len(f.surveys[0].stations) == 1 and len(f.surveys[0].stations[0].runs) == 1 and len(f.surveys[0].stations[0].runs[0].channels) == 1, "one of each")
    ctx.check(len(f.surveys[0].filters) == (1 if level == "filter" else 0), "the filters")
    ctx.check(type(at(level, f)) is type(obj), "kind of the object")
    gen.check_same(ctx, obj, at(level, f), "read back", skip=SKIP, changed=(path,), loose=True)
    ctx.reach(path)


def instances(tier):
    from mt_metadata import timeseries as ts
    from mt_metadata.timeseries import filters
    out = []
    levels = [("channel", ts.Electric), ("channel", ts.Magnetic), ("channel", ts.Auxiliary), ("station", ts.Station), ("run", ts.Run), ("survey", ts.Survey)] + [("filter", getattr(filters, f)) for f in FILTERS]
    for level, cls in levels:
        for way in ("xml", "json") if tier == "quick" else ("xml", "json", "nested", "json-nested", "xml-all", "all", "dict"):
            for p in (False,) if tier == "quick" else (False, True):
                out.append((f"attribute:{cls.__name__}:{way}" + (":populated" if p else ""), h_attr, dict(cls=cls, level=level, way=way, populated=p)))
    shapes = {"none": (), "empty": ((),), "station": (((),),), "run": ((((),),),), "channel": (((("ex",),),),), "three": (((("ex", "hy", "temperature"),),),), "runs": (((("ex",), ("hx", "hy")),),), "stations": (((("ex",),), (("ey",),)),),
              "mixed": (((("ex",),), ()),), "surveys": (((("ex",),),), ((("hy",),),)), "hollow": ((), (((),),)), "pair": (((("hx", "hy"),),),), "aux": (((("temperature", "battery"),),),)}
    for way in ("dict", "json-nested", "xml", "unsorted") if tier == "quick" else ("dict", "nested", "json", "json-nested", "xml", "xml-all", "all", "unsorted"):
        for name, shape in shapes.items():
            out.append((f"tree:{name}:{way}", h_tree, dict(shape=shape, filters=(), way=way)))
        for name, fs in [(f, (f,)) for f in FILTERS] + [(f + "-two", (f, f)) for f in FILTERS] + [("all", FILTERS), ("first-two-last", (FILTERS[0], FILTERS[0], FILTERS[4]))]:
            out.append((f"filters:{name}:{way}", h_tree, dict(shape=((((("ex",),),)),), filters=fs, way=way)))
    return out
