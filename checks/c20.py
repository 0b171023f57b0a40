"""C20 containers enclose their members in time and space"""
import pandas as pd

PROPERTY = "C20"
IMPORTS = ["mt_metadata.timeseries", "mt_metadata.timeseries.run", "mt_metadata.timeseries.station", "mt_metadata.timeseries.survey", "mt_metadata.common.time_period", "mt_metadata.common.mttime"]
OPTS = {"budget_s": 150, "timeout_ms": 15000}
ASSUMPTIONS = ["times are whole seconds from 1970 to 2033 and none is the default (1980-01-01T00:00:00)", "every member starts before it ends", "survey periods are dates: enclosing is judged by day"]
DEFAULT = 315532800


def BOUNDS(tier):
    n = 3 if tier == "quick" else 4
    return f"up to {n} members in every order with every period (or none, or only one end), the container's own period unset or any; survey boxes of up to {n} stations at every position or without one"


def moment(ctx, name, lo=0, hi=2000000000):
    t = ctx.int(name, lo, hi)
    ctx.assume(t != DEFAULT)
    return t


def at(seconds):
    from mt_metadata.common.mttime import MTime
    return MTime(time_stamp=seconds)


def span(ctx, tag, ends="both"):
    """(start, end) in seconds; None when not set"""
    s = moment(ctx, f"{tag}start") if ends in ("both", "start") else None
    e = moment(ctx, f"{tag}end") if ends in ("both", "end") else None
    if ends == "both":
        ctx.assume(s < e)
    return s, e


def put(obj, se):
    if se[0] is not None:
        obj.time_period.start = at(se[0])
    if se[1] is not None:
        obj.time_period.end = at(se[1])
    return obj


def make(level, k, se):
    from mt_metadata import timeseries
    if level == "run":
        kind, comp = ((timeseries.Electric, "ex"), (timeseries.Magnetic, "hx"), (timeseries.Electric, "ey"), (timeseries.Auxiliary, "temperature"))[k]
        return put(kind(component=comp), se)
    if level == "station":
        return put(timeseries.Run(id=f"r{k}"), se)
    return put(timeseries.Station(id=f"s{k}"), se)


def container(level, se=(None, None)):
    from mt_metadata import timeseries
    if level == "run":
        return put(timeseries.Run(id="a"), se)
    if level == "station":
        return put(timeseries.Station(id="a"), se)
    s = timeseries.Survey(id="a")
    if se[0] is not None:
        s.time_period.start_date = at(se[0])
    if se[1] is not None:
        s.time_period.end_date = at(se[1])
    return s


def adder(level, c):
    return {"run": c.add_channel, "station": c.add_run, "survey": c.add_station}[level] if level == "run" else c.add_run if level == "station" else c.add_station


def add(level, c, m, update=True):
    if level == "run":
        c.add_channel(m, update=update)
    elif level == "station":
        c.add_run(m, update=update)
    else:
        c.add_station(m, update=update)


def members(level, c):
    return c.channels if level == "run" else c.runs if level == "station" else c.stations


def judge(ctx, level, c, spans, label):
    """the period of the container is the least one holding the spans"""
    starts, ends = [x[0] for x in spans if x[0] is not None], [x[1] for x in spans if x[1] is not None]
    p = c.time_period
    first, last = (p.start_date, p.end_date) if level == "survey" else (p.start, p.end)
    if level == "survey":
        day = 86400
        starts, ends = [t - t % day for t in starts], [t - t % day for t in ends]
    if not starts:
        ctx.check(p.start_is_default(), label + ": no start is known")
    else:
        x = seconds(first)
        for t in starts:
            ctx.check(x <= t, label + ": nothing starts before")
        ctx.check(among(x, starts), label + ": starts with the first")
    if not ends:
        ctx.check(p.end_is_default(), label + ": no end is known")
    else:
        x = seconds(last)
        for t in ends:
            ctx.check(x >= t, label + ": nothing ends later")
        ctx.check(among(x, ends), label + ": ends with the last")


def among(x, values):
    r = x == values[0]
    for v in values[1:]:
        r = r | (x == v)
    return r


def seconds(t):
    from mt_metadata.common.mttime import MTime
    return MTime(time_stamp=t).epoch_seconds


def same(ctx, level, m, se, label):
    if se[0] is not None:
        ctx.check(seconds(m.time_period.start) == se[0], label + ": start of a member unchanged")
    if se[1] is not None:
        ctx.check(seconds(m.time_period.end) == se[1], label + ": end of a member unchanged")


def days(level, ctx, spans):
    if level == "survey":
        for s, e in spans:
            for t in (s, e):
                if t is not None:
                    ctx.assume((t < DEFAULT) | (t >= DEFAULT + 86400))


def h_enclose(ctx, level, how, ends, own):
    spans = [span(ctx, f"m{k}", x) for k, x in enumerate(ends)]
    mine = span(ctx, "own", own) if own else (None, None)
    days(level, ctx, spans + [mine])
    c = container(level, mine)
    ms = [make(level, k, se) for k, se in enumerate(spans)]
    seen = [mine]
    if how == "add":
        for m, se in zip(ms, spans):
            add(level, c, m)
            seen = seen + [se]
            judge(ctx, level, c, seen, "after adding")
    elif how == "later":
        for m in ms:
            add(level, c, m, update=False)
        c.update_time_period()
        judge(ctx, level, c, [mine] + spans, "on request")
        c.update_time_period()
        judge(ctx, level, c, [mine] + spans, "asked again")
    elif how == "mixed":
        for k, m in enumerate(ms):
            add(level, c, m, update=k == len(ms) - 1)
        judge(ctx, level, c, [mine] + spans, "after the last")
    elif how == "given":
        if level == "run":
            c.channels = ms
        elif level == "station":
            c.runs = ms
        else:
            c.stations = ms
        c.update_time_period()
        judge(ctx, level, c, [mine] + spans, "given together")
    elif how == "merge":
        half = len(ms) // 2
        d = container(level)
        for m in ms[:half]:
            add(level, c, m)
        for m in ms[half:]:
            add(level, d, m)
        c.merge(d)
        judge(ctx, level, c, [mine] + spans, "merged")
    elif how == "grow":
        for m in ms:
            add(level, c, m)
        grown = span(ctx, "grown")
        days(level, ctx, [grown])
        put(members(level, c)[0], grown)
        c.update_time_period()
        judge(ctx, level, c, [mine] + spans + [grown], "after a member has changed")
        return
    elif how == "remove":
        for m in ms:
            add(level, c, m)
        key = ms[0].component if level == "run" else ms[0].id
        if level == "run":
            c.remove_channel(key)
        elif level == "station":
            c.remove_run(key)
        else:
            c.remove_station(key)
        c.update_time_period()
        judge(ctx, level, c, [mine] + spans, "never shrunk")
        return
    for m, se in zip(members(level, c), spans):
        same(ctx, level, m, se, how)


def h_chain(ctx, n):
    """channels to runs to stations to surveys"""
    from mt_metadata.timeseries import Electric, Run, Station, Survey
    spans = [span(ctx, f"m{k}") for k in range(n)]
    days("survey", ctx, spans)
    survey = Survey(id="a")
    for k, se in enumerate(spans):
        ch = put(Electric(component="ex"), se)
        run, station = Run(id="r"), Station(id=f"s{k}")
        run.add_channel(ch)
        station.add_run(run)
        survey.add_station(station)
        judge(ctx, "station", station, [se], "station")
    judge(ctx, "survey", survey, spans, "survey")


def h_box(ctx, how, kinds):
    """kinds: per station which of latitude/longitude it has"""
    from mt_metadata.timeseries import Station, Survey
    survey = Survey(id="a")
    lats, lons, stations = [], [], []
    for k, kind in enumerate(kinds):
        st = Station(id=f"s{k}")
        lat = ctx.real(f"lat{k}", -90, 90) if "a" in kind else 0.0
        lon = ctx.real(f"lon{k}", -180, 180) if "o" in kind else 0.0
        if "a" in kind:
            st.location.latitude = lat
        if "o" in kind:
            st.location.longitude = lon
        lats.append(lat)
        lons.append(lon)
        stations.append(st)
    if how == "add":
        for st in stations:
            survey.add_station(st)
    elif how == "later":
        for st in stations:
            survey.add_station(st, update=False)
        survey.update_bounding_box()
    elif how == "all":
        survey.stations = stations
        survey.update_all()
    elif how == "merge":
        other = Survey(id="b")
        for k, st in enumerate(stations):
            if k % 2:
                other.add_station(st)
            else:
                survey.add_station(st)
        survey.merge(other, inplace=True)
    elif how == "again":
        for st in stations:
            survey.add_station(st)
        new = Station(id="s0")
        if kinds[0] != "o":
            lats[0] = ctx.real("newlat", -90, 90)
            ctx.assume(lats[0] != 0)
            new.location.latitude = lats[0]
        if kinds[0] != "a":
            lons[0] = ctx.real("newlon", -180, 180)
            ctx.assume(lons[0] != 0)
            new.location.longitude = lons[0]
        survey.add_station(new)
    else:
        for st in stations:
            survey.add_station(st)
        survey.remove_station("s0")
        lats, lons = lats[1:], lons[1:]
    nw, se = survey.northwest_corner, survey.southeast_corner
    for lat in lats:
        ctx.check((se.latitude <= lat) & (lat <= nw.latitude), how + ": latitude within the box")
    for lon in lons:
        ctx.check((nw.longitude <= lon) & (lon <= se.longitude), how + ": longitude within the box")
    ctx.check(among(se.latitude, lats), how + ": the south side touches a station")
    ctx.check(among(nw.latitude, lats), how + ": the north side touches a station")
    ctx.check(among(nw.longitude, lons), how + ": the west side touches a station")
    ctx.check(among(se.longitude, lons), how + ": the east side touches a station")
    ext = survey.survey_extent
    ctx.check(ext["latitude"]["min"] == se.latitude and ext["latitude"]["max"] == nw.latitude, how + ": extent in latitude")
    ctx.check(ext["longitude"]["min"] == nw.longitude and ext["longitude"]["max"] == se.longitude, how + ": extent in longitude")


def instances(tier):
    out = []
    b, s, e, n = "both", "start", "end", "none"
    for level in ("survey", "run", "station"):
        cases = [("add", (b, b), None), ("add", (s, s, s), None), ("add", (e, e, e), None), ("add", (b, n, b), None), ("add", (s, e, b), None), ("later", (s, s, s), None), ("later", (e, e, e), None), ("later", (b, b), None),
                 ("later", (s, s), s), ("later", (e, e), e), ("add", (b,), b), ("add", (s, s), s), ("add", (e, e), e), ("later", (n, n), None), ("later", (n, b), s), ("mixed", (b, b), None), ("given", (b, b), None), ("given", (b,), b),
                 ("merge", (s, s, s), None), ("merge", (e, e, e), None), ("merge", (b, b), None), ("grow", (b,), None), ("remove", (b, b), None)]
        if tier != "quick":
            cases += [("add", (b, b, b), None), ("add", (b, b), b), ("later", (b, b, b), None), ("later", (b, b), b), ("merge", (b, b, b), None), ("grow", (b, b), None), ("add", (s, s, s, s), s), ("later", (e, e, e, e), e),
                      ("add", (s, s, e), e), ("add", (e, s, b), s), ("later", (s, e, n, b), None), ("given", (s, e, b), b)]
        out += [("%s:%s:%s:%s" % (level, how, "-".join(x[0] for x in ends), own or "unset"), h_enclose, dict(level=level, how=how, ends=ends, own=own)) for how, ends, own in cases]
    for k in (1, 2) if tier == "quick" else (1, 2, 3):
        out.append((f"chain:{k}", h_chain, dict(n=k)))
    for how in ("add", "later", "all", "merge", "again", "remove"):
        for kinds in (("ao", "ao") if how != "again" else ("ao", ""), ("a", "a", "a"), ("o", "o", "o")) + (() if tier == "quick" else (("ao", "ao", "ao"), ("a",) * 4, ("o",) * 4, ("", "ao"), ("o", "ao", "a"))):
            out.append(("box:%s:%s" % (how, "-".join(k or "0" for k in kinds)), h_box, dict(how=how, kinds=kinds)))
    return out
