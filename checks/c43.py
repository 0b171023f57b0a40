"""C43 Fourier-coefficient containers mirror their members"""
import pandas as pd

PROPERTY = "C43"
IMPORTS = ["mt_metadata.processing.fourier_coefficients", "mt_metadata.processing.fourier_coefficients.fc", "mt_metadata.processing.fourier_coefficients.decimation",
           "mt_metadata.processing.fourier_coefficients.fc_channel", "mt_metadata.common.time_period", "mt_metadata.common.mttime"]
OPTS = {"budget_s": 150, "timeout_ms": 15000}
ASSUMPTIONS = ["a channel added to a level is looked for after the next assignment to the level (see the known finding)", "names are one or two letters or digits", "times are whole seconds after 1990, so none is the default time", "values compared are not zero (a zero does not overwrite when a member is added again)"]


def BOUNDS(tier):
    n = 3 if tier == "quick" else 4
    return f"every sequence of {n} listed operations with every name of one or two characters out of 'a1' and every value; up to {n} members with every period, or one end of it, in every order"


def at(seconds):
    from mt_metadata.common.mttime import MTime
    return MTime(time_stamp=seconds)


def seconds(t):
    from mt_metadata.common.mttime import MTime
    return MTime(time_stamp=t).epoch_seconds


def moment(ctx, name):
    return ctx.int(name, 631152000, 2000000000)


def member(level, name, v):
    from mt_metadata.processing.fourier_coefficients.decimation import Decimation
    from mt_metadata.processing.fourier_coefficients.fc_channel import FCChannel
    if level == "decimation":
        return FCChannel(component=name, sample_rate_window_step=v)
    d = Decimation(id=name)
    d.time_series_decimation.sample_rate = v
    return d


def value(level, m):
    return m.sample_rate_window_step if level == "decimation" else m.time_series_decimation.sample_rate


def container(level):
    from mt_metadata.processing.fourier_coefficients.decimation import Decimation
    from mt_metadata.processing.fourier_coefficients.fc import FC
    return Decimation(id="c") if level == "decimation" else FC(id="c")


def members(level, c):
    return c.channels if level == "decimation" else c.levels


def names(level, c):
    return c.channels_estimated if level == "decimation" else c.decimation_levels


def put(level, c, m):
    if level == "decimation":
        c.add_channel(m)
    else:
        c.add_decimation_level(m)


def settle(level, c):
    """names of new channels are listed with the next assignment to the level"""
    if level == "decimation":
        c.id = "settled"


def drop(level, c, name):
    if level == "decimation":
        c.remove_channel(name)
    else:
        c.remove_decimation_level(name)


def look(level, c, name):
    """present, member, index"""
    if level == "decimation":
        return c.has_channel(name), c.get_channel(name), c.channel_index(name)
    return c.has_decimation_level(name), c.get_decimation_level(name), c.decimation_level_index(name)


def number(level, c):
    return c.n_channels if level == "decimation" else c.n_decimation_levels


def find(want, name):
    for k in range(len(want)):
        if want[k][0] == name:
            return k
    return -1


def judge(ctx, level, c, want, label):
    """want: [(name, value or None)]"""
    ctx.check(number(level, c) == len(want), label + ": number of members")
    ctx.check(len(members(level, c).keys()) == len(want), label + ": number of keys")
    ctx.check(len(names(level, c)) == len(want), label + ": number of listed names")
    for n, v in want:
        present, m, i = look(level, c, n)
        ctx.check(present, label + ": member present")
        ctx.check(m is not None, label + ": member found")
        if m is not None:
            ctx.check((m.component if level == "decimation" else m.id) == n, label + ": the member of that name")
            if v is not None:
                ctx.check(value(level, m) == v, label + ": its value")
        ctx.check(len([x for x in names(level, c) if x == n]) == 1, label + ": listed once")
        ctx.check(len([x for x in members(level, c).keys() if x == n]) == 1, label + ": held once")
        ctx.check(i is not None and (names(level, c) if level == "decimation" else members(level, c).keys())[i] == n, label + ": index")


def absent(ctx, level, c, n, label):
    present, m, i = look(level, c, n)
    ctx.check(not present, label + ": reported absent")
    ctx.check(m is None, label + ": not found")
    ctx.check(i is None, label + ": no index")


def h_history(ctx, level, ops, width=2):
    c = container(level)
    want = []
    for k, op in enumerate(ops):
        name = ctx.str(f"name{k}", 1, width, "a1")
        j = find(want, name)
        if op == "remove":
            drop(level, c, name)
            if j >= 0:
                want = want[:j] + want[j + 1:]
            absent(ctx, level, c, name, op)
        else:
            v = ctx.real(f"value{k}", 2, 1000)
            put(level, c, member(level, name, v))
            settle(level, c)
            want = want + [(name, v)] if j < 0 else want[:j] + [(name, v)] + want[j + 1:]
        judge(ctx, level, c, want, op)
        if op == "touch":
            c.id = "other"
            judge(ctx, level, c, want, "after an assignment")
    c.id = "third"
    judge(ctx, level, c, want, "after an assignment")
    other = ctx.str("other", 1, width, "a1")
    if find(want, other) < 0:
        absent(ctx, level, c, other, "look-up")


def h_given(ctx, level, form, n):
    from mt_metadata.common.list_dict import ListDict
    c = container(level)
    want, objs = [], []
    for k in range(n):
        name = ctx.str(f"name{k}", 1, 2, "a1")
        ctx.assume(find(want, name) < 0)
        v = ctx.real(f"value{k}", 2, 1000)
        objs.append(member(level, name, v))
        want.append((name, v))
    if form == "names":
        given = [w[0] for w in want]
        if level == "decimation":
            c.channels_estimated = given
        else:
            c.decimation_levels = given
        judge(ctx, level, c, [(w[0], None) for w in want], form)
        back = type(c)()
        back.from_dict(c.to_dict())
        judge(ctx, level, back, [(w[0], None) for w in want], "description copied")
        return
    if form == "listdict":
        given = ListDict()
        for o in objs:
            given.append(o)
    elif form == "dicts":
        given = [o.to_dict() for o in objs]
    elif form == "mapping":
        given = {str(k): o for k, o in enumerate(objs)}
    else:
        given = objs
    if level == "decimation":
        c.channels = given
    else:
        c.levels = given
    judge(ctx, level, c, want, form)


def h_two(ctx, how, n, m):
    """levels added together or updated from each other"""
    a, b = container("decimation"), container("decimation")
    want = []
    for tag, c, k0 in (("a", a, n), ("b", b, m)):
        mine = []
        for k in range(k0):
            name = ctx.str(f"{tag}name{k}", 1, 2, "a1")
            ctx.assume(find(mine, name) < 0)
            v = ctx.real(f"{tag}value{k}", 2, 1000)
            mine.append((name, v))
            put("decimation", c, member("decimation", name, v))
            settle("decimation", c)
        for name, v in mine:
            j = find(want, name)
            want = want + [(name, v)] if j < 0 else want[:j] + [(name, v)] + want[j + 1:]
    if how == "add":
        out = a.add(b)
    else:
        a.update(b)
        out = a
    settle("decimation", out)
    judge(ctx, "decimation", out, want, how)
    judge(ctx, "decimation", b, mine, how + " (the other)")


def h_at_once(ctx):
    """the name of a channel is known as soon as it is added"""
    c = container("decimation")
    name = ctx.str("name", 1, 2, "a1")
    c.add_channel(member("decimation", name, 2.0))
    ctx.check(c.has_channel(name), "an added channel is listed at once")


def among(x, values):
    r = x == values[0]
    for v in values[1:]:
        r = r | (x == v)
    return r


def h_period(ctx, level, ends, own, late=False):
    """ends: per member which ends are known; the container's own period: unset or given"""
    c = container(level)
    starts, lasts, ms = [], [], []
    if own:
        s, e = moment(ctx, "ownstart"), moment(ctx, "ownend")
        ctx.assume(s < e)
        c.time_period.start, c.time_period.end = at(s), at(e)
        starts, lasts = [s], [e]
    for k, which in enumerate(ends):
        m = member(level, f"m{k}", 2.0)
        if which in "bs":
            s = moment(ctx, f"start{k}")
            m.time_period.start = at(s)
            starts.append(s)
        if which in "be":
            e = moment(ctx, f"end{k}")
            m.time_period.end = at(e)
            lasts.append(e)
        if which == "b":
            ctx.assume(s < e)
        if late:
            members(level, c).append(m)
        else:
            put(level, c, m)
    if late:
        c.update_time_period()
    p = c.time_period
    if starts:
        x = seconds(p.start)
        for t in starts:
            ctx.check(x <= t, "nothing starts before")
        ctx.check(among(x, starts), "starts with the first")
    else:
        ctx.check(p.start_is_default(), "no start is known")
    if lasts:
        x = seconds(p.end)
        for t in lasts:
            ctx.check(x >= t, "nothing ends later")
        ctx.check(among(x, lasts), "ends with the last")
    else:
        ctx.check(p.end_is_default(), "no end is known")


def h_creator(ctx, n):
    """levels made from decimation factors share nothing"""
    from mt_metadata.common import TimePeriod
    from mt_metadata.processing.fourier_coefficients.decimation import fc_decimations_creator
    rate = ctx.real("rate", 1, 10000)
    factors = [ctx.int(f"factor{k}", 1, 8) for k in range(n)]
    s, e, t = moment(ctx, "start"), moment(ctx, "end"), moment(ctx, "channelstart")
    ctx.assume((s < e) & (t < s))
    period = TimePeriod(start=at(s), end=at(e))
    levels = fc_decimations_creator(rate, decimation_factors=factors, time_period=period)
    ctx.check(len(levels) == n, "one level for each factor")
    at_rate = rate
    for k, lv in enumerate(levels):
        if k > 0:
            at_rate = at_rate / factors[k]
        ctx.check(lv.id == str(k), "name of a level")
        ctx.check(lv.time_series_decimation.level == k, "number of a level")
        ctx.check(lv.time_series_decimation.factor == factors[k], "factor of a level")
        ctx.close(lv.time_series_decimation.sample_rate, at_rate, "sample rate of a level", rtol=1e-9)
        ctx.check(seconds(lv.time_period.start) == s and seconds(lv.time_period.end) == e, "period of a level")
    ch = member("decimation", "ex", 2.0)
    ch.time_period.start = at(t)
    ch.time_period.end = at(e)
    levels[0].add_channel(ch)
    ctx.check(seconds(levels[0].time_period.start) == t, "a level grows with its channels")
    for lv in levels[1:]:
        ctx.check(seconds(lv.time_period.start) == s, "the other levels keep their period")
        ctx.check(lv.n_channels == 0, "the other levels keep their channels")
    ctx.check(seconds(period.start) == s, "the given period is unchanged")


def instances(tier):
    import itertools
    out = []
    seqs = [("add", "add", "remove"), ("add", "remove", "add"), ("add", "touch", "remove"), ("touch", "add", "add"), ("remove", "add", "add")]
    if tier != "quick":
        seqs += [s for s in itertools.product(("add", "touch", "remove"), repeat=3) if s not in seqs] + [("add", "add", "add", "remove"), ("add", "touch", "remove", "add"), ("add", "remove", "add", "touch")]
    for level in ("decimation", "fc"):
        for s in seqs:
            out.append(("%s:%s" % (level, "-".join(s)), h_history, dict(level=level, ops=s, width=1 if tier == "quick" and "remove" not in s else 2)))
        for form in ("list", "dicts", "listdict", "mapping", "names"):
            out.append((f"{level}:given:{form}", h_given, dict(level=level, form=form, n=2 if tier == "quick" else 3)))
        for ends in ("bb", "sss", "eee", "se", "nb", "nn", "eb") + (() if tier == "quick" else ("bbb", "sese", "seb")):
            out.append((f"{level}:period:{ends}", h_period, dict(level=level, ends=ends, own=False)))
            out.append((f"{level}:period-late:{ends}", h_period, dict(level=level, ends=ends, own=False, late=True)))
        for ends in ("b", "ss", "ee", "n") + (() if tier == "quick" else ("bb", "seb")):
            out.append((f"{level}:period-own:{ends}", h_period, dict(level=level, ends=ends, own=True)))
    for how in ("add", "update"):
        for n, m in ((1, 1), (2, 1), (0, 2)) if tier == "quick" else ((1, 1), (2, 1), (0, 2), (1, 2), (2, 2)):
            out.append((f"{how}:{n}:{m}", h_two, dict(how=how, n=n, m=m)))
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        out.append((f"creator:{n}", h_creator, dict(n=n)))
    out.append(("at-once", h_at_once, {}))
    return out
