"""C21 stations, surveys and experiments manage their members"""
import pandas as pd

PROPERTY = "C21"
IMPORTS = ["mt_metadata.timeseries", "mt_metadata.timeseries.run", "mt_metadata.timeseries.station", "mt_metadata.timeseries.survey", "mt_metadata.timeseries.experiment", "mt_metadata.common.list_dict"]
OPTS = {"budget_s": 150, "timeout_ms": 15000}
ASSUMPTIONS = ["identifiers are one or two letters, digits or underscores", "values compared are not zero (a zero does not overwrite when an existing member is added again)"]


def BOUNDS(tier):
    n = 3 if tier == "quick" else 4
    return f"every sequence of {n} listed operations with every identifier of one or two characters (one for three additions in the quick tier) out of 'a1_' and every value, each member holding one sub-member; merges of two containers of up to two members; sorting of up to {n} runs with every start"


def ident(ctx, name, width=2):
    return ctx.str(name, 1, width, "a1_")


def member(ctx, level, i, k, sub):
    """a member with identifier i, a value of its own and one sub-member"""
    from mt_metadata import timeseries as ts
    if level == "station":
        m = ts.Run(id=i)
        v = ctx.real(f"value{k}", 1, 1000)
        m.sample_rate = v
        m.add_channel({"e": ts.Electric, "h": ts.Magnetic}[sub[0]](component=sub))
    elif level == "survey":
        m = ts.Station(id=i)
        v = ctx.real(f"value{k}", 1, 80)
        m.location.latitude = v
        r = ts.Run(id=sub)
        r.add_channel(ts.Electric(component="ex"))
        m.add_run(r)
    else:
        m = ts.Survey(id=i)
        v = ctx.choice(f"value{k}", ("north", "south"))
        m.geographic_name = v
        m.add_station(ts.Station(id=sub))
    return m, v


def value(level, m):
    return m.sample_rate if level == "station" else m.location.latitude if level == "survey" else m.geographic_name


def subs(level, m):
    return m.channels.keys() if level == "station" else m.runs.keys() if level == "survey" else m.stations.keys()


def container(level):
    from mt_metadata import timeseries as ts
    return ts.Station(id="s") if level == "station" else ts.Survey(id="s") if level == "survey" else ts.Experiment()


class Do:
    """the same operations on the three kinds of containers"""

    def __init__(self, level, c):
        self.level = level
        self.c = c

    def add(self, m, update=True):
        if self.level == "station":
            self.c.add_run(m, update=update)
        elif self.level == "survey":
            self.c.add_station(m, update=update)
        else:
            self.c.add_survey(m)

    def remove(self, i, update=True):
        if self.level == "station":
            self.c.remove_run(i, update=update)
        elif self.level == "survey":
            self.c.remove_station(i, update=update)
        else:
            self.c.remove_survey(i)

    def get(self, i):
        return self.c.get_run(i) if self.level == "station" else self.c.get_station(i) if self.level == "survey" else self.c.get_survey(i)

    def has(self, i):
        return self.c.has_run(i) if self.level == "station" else self.c.has_station(i) if self.level == "survey" else self.c.has_survey(i)

    def index(self, i):
        return self.c.run_index(i) if self.level == "station" else self.c.station_index(i) if self.level == "survey" else self.c.survey_index(i)

    def members(self):
        return self.c.runs if self.level == "station" else self.c.stations if self.level == "survey" else self.c.surveys

    def names(self):
        return self.c.run_list if self.level == "station" else self.c.station_names if self.level == "survey" else self.c.survey_names

    def number(self):
        return self.c.n_runs if self.level == "station" else self.c.n_stations if self.level == "survey" else self.c.n_surveys


def find(want, i):
    for k in range(len(want)):
        if want[k][0] == i:
            return k
    return -1


def judge(ctx, do, want, label, listed=True):
    """want: [[identifier, value, [sub-members]]] in the order of adding"""
    level = do.level
    ctx.check(do.number() == len(want), label + ": number of members")
    keys = do.members().keys()
    ctx.check(len(keys) == len(want), label + ": number of keys")
    if listed:
        ctx.check(len(do.names()) == len(want), label + ": number of listed names")
    for k, (i, v, ss) in enumerate(want):
        ctx.check(keys[k] == i, label + ": keys in the order of adding")
        if listed:
            ctx.check(do.names()[k] == i, label + ": names in the order of adding")
        ctx.check(do.has(i), label + ": member present")
        ctx.check(do.index(i) == k, label + ": index of a member")
        m = do.get(i)
        ctx.check(m is not None, label + ": member found")
        if m is None:
            continue
        ctx.check(m.id == i, label + ": the member of that name")
        ctx.check(value(level, m) == v, label + ": its value")
        have = subs(level, m)
        ctx.check(len(have) == len(ss), label + ": number of its own members")
        for s in ss:
            ctx.check(s in have, label + ": its own members")
        if level == "station":
            ctx.check(m.channels_recorded_all == sorted(ss), label + ": its channels")
        if level == "survey":
            ctx.check(m.run_list == have, label + ": its run list")
            for r in m.runs:
                ctx.check(r.channels_recorded_all == ["ex"], label + ": channels of its runs")
    if level == "station" and listed:
        every = sorted(set([s for w in want for s in w[2]]))
        ctx.check(do.c.channels_recorded == every, label + ": channels of the station")


def absent(ctx, do, i, label):
    ctx.check(not do.has(i), label + ": reported absent")
    ctx.check(do.get(i) is None, label + ": not found")
    ctx.check(do.index(i) is None, label + ": no index")


SUBS = {"station": ("ex", "hy", "ey", "hz"), "survey": ("r0", "r1", "r2", "r3"), "experiment": ("t0", "t1", "t2", "t3")}


def h_history(ctx, level, ops, same_sub=False, width=2):
    do = Do(level, container(level))
    want = []
    listed = True
    for k, op in enumerate(ops):
        i = ident(ctx, f"id{k}", width)
        if op in ("remove", "dropped"):
            do.remove(i, update=op == "remove")
            j = find(want, i)
            if j >= 0:
                want = want[:j] + want[j + 1:]
            absent(ctx, do, i, op)
        else:
            sub = SUBS[level][0 if same_sub else k]
            m, v = member(ctx, level, i, k, sub)
            do.add(m, update=op == "add")
            j = find(want, i)
            if j < 0:
                want = want + [[i, v, [sub]]]
            else:
                old = want[j]
                want = want[:j] + [[i, v, old[2] + [s for s in [sub] if s not in old[2]]]] + want[j + 1:]
        if level == "station":
            listed = op == "add" or (op == "remove" and j >= 0) or (listed and op != "late")
        judge(ctx, do, want, op, listed)
    # an assignment to the container changes nothing about its members
    if level == "station":
        do.c.acquired_by.author = "somebody"
        do.c.geographic_name = "somewhere"
    elif level == "survey":
        do.c.geographic_name = "somewhere"
    judge(ctx, do, want, "after an assignment")
    other = ident(ctx, "other")
    if find(want, other) < 0:
        absent(ctx, do, other, "look-up")


def h_merge(ctx, level, n, m, inplace):
    a, b = Do(level, container(level)), Do(level, container(level))
    want = []
    for k in range(n + m):
        i = ident(ctx, f"id{k}")
        for w in want:
            ctx.assume(w[0] != i)
        sub = SUBS[level][k]
        obj, v = member(ctx, level, i, k, sub)
        (a if k < n else b).add(obj)
        want.append([i, v, [sub]])
    if level == "experiment":
        r = a.c.merge(b.c)
    else:
        r = a.c.merge(b.c, inplace=inplace)
    out = a if inplace else Do(level, r)
    judge(ctx, out, want, "merged")
    judge(ctx, b, want[n:], "the other one")


def h_given(ctx, level, form, n):
    from mt_metadata.common.list_dict import ListDict
    do = Do(level, container(level))
    want, objs = [], []
    for k in range(n):
        i = ident(ctx, f"id{k}")
        for w in want:
            ctx.assume(w[0] != i)
        sub = SUBS[level][k]
        obj, v = member(ctx, level, i, k, sub)
        objs.append(obj)
        want.append([i, v, [sub]])
    if form == "listdict":
        given = ListDict()
        for o in objs:
            given.append(o)
    elif form == "mapping":
        given = {str(k): o for k, o in enumerate(objs)}
    elif form == "tuple":
        given = tuple(objs)
    else:
        given = objs
    if level == "station":
        do.c.runs = given
    elif level == "survey":
        do.c.stations = given
    else:
        do.c.surveys = given
    judge(ctx, do, want, form)


def h_sort(ctx, n, ascending, inplace):
    from mt_metadata.common.mttime import MTime
    from mt_metadata.timeseries import Run, Station
    st = Station(id="s")
    starts = []
    for k in range(n):
        r = Run(id=f"r{k}")
        t = ctx.int(f"start{k}", 631152000, 2000000000)
        r.time_period.start = MTime(time_stamp=t)
        r.sample_rate = k + 1
        starts.append(t)
        st.add_run(r)
    if inplace:
        st.sort_runs_by_time(inplace=True, ascending=ascending)
        runs = st.runs
        ctx.check(st.run_list == runs.keys(), "sorted: the list of runs follows")
    else:
        runs = st.sort_runs_by_time(inplace=False, ascending=ascending)
        ctx.check(st.runs.keys() == [f"r{k}" for k in range(n)], "sorted aside: the station keeps its order")
    keys = runs.keys()
    ctx.check(sorted(keys) == [f"r{k}" for k in range(n)], "sorted: no run is lost")
    for a, b in zip(keys[:-1], keys[1:]):
        x, y = starts[int(a[1:])], starts[int(b[1:])]
        ctx.check(x <= y if ascending else x >= y, "sorted: by start")
    for k in keys:
        ctx.check(runs[k].id == k, "sorted: every run under its name")
        ctx.check(runs[k].sample_rate == int(k[1:]) + 1, "sorted: every run unchanged")


def h_channel(ctx):
    """a channel taken from a run of a station stays away"""
    from mt_metadata.timeseries import Electric, Run, Station
    st, r = Station(id="s"), Run(id="r")
    rate = ctx.real("rate", 1, 1000)
    r.add_channel(Electric(component="ex", sample_rate=rate))
    r.add_channel(Electric(component="ey", sample_rate=rate))
    st.add_run(r)
    st.runs["r"].remove_channel("ey")
    st.geographic_name = "somewhere"
    ctx.check(st.runs["r"].channels_recorded_all == ["ex"], "a removed channel stays away")


def instances(tier):
    import itertools
    out = []
    seqs = [("add", "add", "remove"), ("add", "add", "dropped"), ("add", "late", "add"), ("add", "remove", "add"), ("late", "late", "remove"), ("late", "dropped", "late"), ("remove", "add", "add")]
    if tier != "quick":
        seqs += [s for s in itertools.product(("add", "late", "remove", "dropped"), repeat=3) if s not in seqs]
        seqs += [("add", "add", "add", "remove"), ("add", "add", "remove", "remove"), ("add", "remove", "add", "add"), ("late", "add", "dropped", "add")]
    for level in ("survey", "station", "experiment"):
        for s in seqs:
            if level == "experiment" and ("late" in s or "dropped" in s):
                continue
            out.append(("%s:%s" % (level, "-".join(s)), h_history, dict(level=level, ops=s, width=1 if tier == "quick" and s == ("add", "late", "add") else 2)))
        out.append((f"{level}:again", h_history, dict(level=level, ops=("add", "add", "add"), same_sub=True, width=1 if tier == "quick" else 2)))
        for n, m in ((1, 1), (2, 1), (0, 2), (1, 0)) if tier == "quick" else ((1, 1), (2, 1), (0, 2), (1, 0), (2, 2), (1, 2)):
            for inplace in (True, False) if level != "experiment" else (True,):
                out.append((f"{level}:merge:{n}:{m}:{'in' if inplace else 'out'}", h_merge, dict(level=level, n=n, m=m, inplace=inplace)))
        for form in ("list", "tuple", "mapping", "listdict"):
            out.append((f"{level}:given:{form}", h_given, dict(level=level, form=form, n=2 if tier == "quick" else 3)))
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for ascending in (True, False):
            for inplace in (True, False):
                out.append((f"sort:{n}:{'up' if ascending else 'down'}:{'in' if inplace else 'out'}", h_sort, dict(n=n, ascending=ascending, inplace=inplace)))
    out.append(("channel-removed", h_channel, {}))
    return out
