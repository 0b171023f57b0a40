"""C10 times parse, print and convert consistently"""
import datetime

import pandas as pd

PROPERTY = "C10"
IMPORTS = ["mt_metadata.common.mttime", "mt_metadata.common"]
OPTS = {"budget_s": 120, "timeout_ms": 10000}
ASSUMPTIONS = ["numbers stand for seconds since 1970 (nanoseconds above 3e11, by design); times at microsecond resolution"]

US = 1000000
DAY = 86400


def BOUNDS(tier):
    return ("every time between 1970 and 2060 to the microsecond in ISO text (T or blank, Z, +00:00, no zone, offsets +-14 h, date only), "
            "epoch seconds, nanoseconds, dictionary, pandas and datetime objects; every field set to any legal value; every GPS day from 1980-01-06 to "
            "2026-06-30 at any second")


def make(ctx, name="t", lo=1, hi=2840000000):
    from mt_metadata.common.mttime import MTime
    s = ctx.int(name, lo, hi)
    u = ctx.int(name + ".us", 0, 999999)
    return MTime(time_stamp=s) + pd.Timedelta(u, unit="us"), s * US + u


def stamp(t):
    v = t.time_stamp
    if hasattr(v, "ns"):
        return v.ns / 1000
    return v.value / 1000


OFFSETS = [("Z", 0), ("+00:00", 0), ("", 0), ("+01:00", 3600), ("-05:00", -5 * 3600), ("+05:30", 19800), ("-0930", -34200), ("+14:00", 50400)]


def text(ctx, blank):
    """the text of a time denotes its instant, offsets included"""
    from mt_metadata.common.mttime import MTime
    t, v = make(ctx, lo=100000)
    iso = t.isoformat()
    ctx.check(iso.endswith("+00:00"), "printed in UTC")
    ctx.check(MTime(time_stamp=iso) == t, "parsing the ISO text gives the time")
    naive = t.iso_no_tz
    ctx.check(iso == naive + "+00:00", "text without the zone")
    off, sec = ctx.choice("off", OFFSETS)
    given = naive + off
    if blank:
        given = given.replace("T", " ")
    q = MTime(time_stamp=given)
    ctx.check(stamp(q) == v - sec * US, "the instant of the text")
    ctx.check(q.isoformat().endswith("+00:00"), "converted to UTC")
    ctx.check(q == MTime(time_stamp=q.isoformat()), "parsing what is printed")
    ctx.check(str(q) == q.isoformat(), "str is the ISO text")
    ctx.check(q.to_dict() == q.isoformat(), "written form is the ISO text")


def numbers(ctx, form):
    """epoch numbers denote the instant"""
    from mt_metadata.common.mttime import MTime
    if form == "ns":
        s = ctx.int("s", 1000, 2840000000)
        t = MTime(time_stamp=s * 1000000000)
        v = s * US
    elif form == "float":
        q = ctx.int("q", 4, 2840000000)
        t = MTime(time_stamp=q / 4)
        v = q * (US // 4)
    elif form == "setter":
        s = ctx.int("s", 1, 2840000000)
        t = MTime()
        t.epoch_seconds = s
        v = s * US
    else:
        s = ctx.int("s", 1, 2840000000)
        t = MTime(time_stamp=s)
        v = s * US
    ctx.check(stamp(t) == v, "the instant of the number")
    ctx.check(t.epoch_seconds * US == v, "epoch seconds of the time")
    ctx.check(MTime(time_stamp=t.epoch_seconds) == t, "and back")
    ctx.check(t.isoformat() == t.iso_no_tz + "+00:00", "printed in UTC")
    ctx.check(MTime(time_stamp=t.isoformat()) == t, "parsing the ISO text gives the time")


class Given:
    """a date-time object of another library, known by its isoformat"""

    def __init__(self, iso):
        self.iso = iso

    def isoformat(self):
        return self.iso


def datetimes(ctx):
    """an object with an isoformat denotes the instant of that text, offset included"""
    from mt_metadata.common.mttime import MTime
    t, v = make(ctx, lo=100000)
    off, sec = ctx.choice("off", OFFSETS)
    q = MTime(time_stamp=Given(t.iso_no_tz + off))
    ctx.check(stamp(q) == v - sec * US, "the instant of the object")
    ctx.check(q.isoformat().endswith("+00:00"), "converted to UTC")


def objects(ctx, form):
    from mt_metadata.common.mttime import MTime, MDate
    t, v = make(ctx)
    if form == "Timestamp":
        q = MTime(time_stamp=t.time_stamp)
    elif form == "dict":
        q = MTime()
        q.from_dict(t.to_dict())
    elif form == "dict2":
        q = MTime(time_stamp={"time_stamp": t.isoformat(), "gps_time": False})
    elif form == "MTime":
        q = MTime(time_stamp=t)
    else:
        q = t.copy()
    ctx.check(stamp(q) == v, "the instant given")
    ctx.check(q == t, "equal to the time given")


def fields(ctx, part):
    """the broken-down fields denote the same instant, and so does the date"""
    from mt_metadata.common.mttime import MTime
    d = ctx.int("d", 2, 32000)
    if part == "clock":
        h, m, s, u = ctx.int("h", 0, 23), ctx.int("m", 0, 59), ctx.int("s", 0, 59), ctx.int("us", 0, 999999)
        t = MTime(time_stamp=d * DAY + (h * 3600 + m * 60 + s)) + pd.Timedelta(u, unit="us")
        ctx.check(t.hour == h, "hour of the instant")
        ctx.check(t.minutes == m, "minute of the instant")
        ctx.check(t.seconds == s, "second of the instant")
        ctx.check(t.microseconds == u, "microsecond of the instant")
        return
    t = MTime(time_stamp=d * DAY + ctx.int("s", 0, DAY - 1))
    ctx.check((t.month >= 1) & (t.month <= 12) & (t.day >= 1) & (t.day <= 31), "month and day in range")
    q = pd.Timestamp(year=t.year, month=t.month, day=t.day, tz="UTC")
    ctx.check(q == t.time_stamp.normalize(), "the calendar fields denote the day")
    ctx.check(t.date == t.isoformat()[:10], "date of the ISO text")
    ctx.check(t.isodate() == t.date, "iso date")


NAMES = ["year", "month", "day", "hour", "minutes", "seconds", "microseconds"]
RANGE = {"year": (1971, 2060), "month": (1, 12), "day": (1, 31), "hour": (0, 23), "minutes": (0, 59), "seconds": (0, 59),
         "microseconds": (0, 999999)}


def setters(ctx, name):
    """setting a field changes that field and no other"""
    from mt_metadata.common.mttime import MTime
    t = MTime(time_stamp=ctx.choice("t", ["2020-01-15T06:07:08.250000", "2019-12-28T23:59:59", "1996-02-28T00:00:00"]))
    was = {n: getattr(t, n) for n in NAMES}
    lo, hi = RANGE[name]
    if name in ("year", "month"):
        # a calendar is piecewise: the value is chosen, the rest follows
        v = ctx.choice("v", list(range(lo, hi + 1)))
    else:
        v = ctx.int("v", lo, hi)
    if name == "day":
        ctx.assume(v <= 28)
    setattr(t, name, v)
    for n in NAMES:
        ctx.check(getattr(t, n) == (v if n == name else was[n]), f"{n} after setting {name}")
    ctx.check(t.isoformat().endswith("+00:00"), "still UTC")


# first day (UTC) from which GPS time is ahead by so many seconds
LEAPS = [("1980-01-06", 0), ("1981-07-01", 1), ("1982-07-01", 2), ("1983-07-01", 3), ("1985-07-01", 4), ("1988-01-01", 5),
         ("1990-01-01", 6), ("1991-01-01", 7), ("1992-07-01", 8), ("1993-07-01", 9), ("1994-07-01", 10), ("1996-01-01", 11),
         ("1997-07-01", 12), ("1999-01-01", 13), ("2006-01-01", 14), ("2009-01-01", 15), ("2012-07-01", 16), ("2015-07-01", 17),
         ("2017-01-01", 18)]
EPOCH = datetime.date(1970, 1, 1)
LEAP_DAYS = [((datetime.date.fromisoformat(d) - EPOCH).days, n) for d, n in LEAPS]
LAST = (datetime.date(2026, 6, 30) - EPOCH).days


def leap(day):
    n = 0
    for d, k in LEAP_DAYS:
        if day >= d:
            n = k
    return n


def gps(ctx, form):
    """GPS times are ahead of UTC by the leap seconds in force, with no gaps"""
    from mt_metadata.common.mttime import MTime, calculate_leap_seconds
    # one range of days of the table at a time: symbolic within
    i = ctx.choice("range", list(range(len(LEAP_DAYS))))
    lo = LEAP_DAYS[i][0]
    hi = LEAP_DAYS[i + 1][0] - 1 if i + 1 < len(LEAP_DAYS) else LAST
    d = ctx.int("day", lo, hi)
    s = ctx.int("s", 0, 86399)
    v = d * DAY + s
    n = LEAP_DAYS[i][1]
    u = MTime(time_stamp=v)
    if form == "seconds":
        ctx.check(calculate_leap_seconds(u.year, u.month, u.day) == n, "leap seconds of the date")
        return
    if form == "text":
        t = MTime(time_stamp=u.isoformat(), gps_time=True)
    elif form == "number":
        t = MTime(time_stamp=v, gps_time=True)
    elif form == "dict":
        t = MTime(time_stamp={"time_stamp": u.isoformat(), "gps_time": True})
    else:
        t = MTime(time_stamp=u.time_stamp, gps_time=True)
    ctx.check(stamp(t) == (v - n) * US, "GPS time minus the leap seconds")
    ctx.check(t.isoformat().endswith("+00:00"), "printed in UTC")


SPECIAL = [(None, "1980-01-01T00:00:00+00:00"), ("", "1980-01-01T00:00:00+00:00"), ("none", "1980-01-01T00:00:00+00:00"),
           ("2020-01-02", "2020-01-02T00:00:00+00:00"), ("2020-01-02T24:00:00", "2020-01-03T00:00:00+00:00"),
           ("2020-02-29T12:00", "2020-02-29T12:00:00+00:00"), ("2020/03/04 05:06:07", "2020-03-04T05:06:07+00:00"),
           ("2020-01-02T03:04:05.000001Z", "2020-01-02T03:04:05.000001+00:00"),
           (datetime.datetime(2020, 1, 2, 3, 4, 5), "2020-01-02T03:04:05+00:00"),
           (datetime.datetime(2020, 1, 2, 3, 4, 5, tzinfo=datetime.timezone(datetime.timedelta(hours=2))), "2020-01-02T01:04:05+00:00"),
           (datetime.date(2020, 1, 2), "2020-01-02T00:00:00+00:00"),
           (pd.Timestamp("2020-01-02T03:04:05", tz="Europe/Berlin"), "2020-01-02T02:04:05+00:00")]


def special(ctx):
    from mt_metadata.common.mttime import MTime, MDate
    given, want = ctx.choice("x", SPECIAL)
    ctx.check(MTime(time_stamp=given).isoformat() == want, "the instant given")
    ctx.check(MDate(time_stamp=given).isoformat() == want[:10], "the date given")
    ctx.check(MTime(time_stamp=given) == MTime(time_stamp=want), "equal to its ISO form")
    ctx.check(MTime(time_stamp=given).is_default() == want.startswith("1980-01-01T00:00:00+"), "default or not")


def bad(ctx):
    from mt_metadata.common.mttime import MTime
    x = ctx.choice("x", ["notatime", "2020-01-32T00:00:00", "2020-01-01T25:00:00", "10:20:30:40"])
    try:
        MTime(time_stamp=x)
    except ValueError:
        return
    ctx.fail("refused")


def dates(ctx):
    """a date prints as a date and parses back"""
    from mt_metadata.common.mttime import MTime, MDate
    d = ctx.int("d", 2, 32000)
    iso = MTime(time_stamp=d * DAY).isoformat()[:10]
    m = MDate(time_stamp=iso)
    ctx.check(m.isoformat() == iso, "printed as given")
    ctx.check(str(m) == iso, "str")
    ctx.check(m.to_dict() == iso, "written form")
    ctx.check(stamp(m) == d * DAY * US, "midnight UTC")
    ctx.check(MDate(time_stamp=m.isoformat()) == m, "and back")


def instances(tier):
    out = [(f"gps:{f}", gps, {"form": f}) for f in ("seconds", "text", "number", "dict", "Timestamp")]
    out += [(f"set:{n}", setters, {"name": n}) for n in NAMES]
    out += [("text:T", text, {"blank": False}), ("text:blank", text, {"blank": True}), ("fields:clock", fields, {"part": "clock"}), ("fields:date", fields, {"part": "date"}), ("dates", dates, {}), ("object:isoformat", datetimes, {}),
            ("special", special, {}), ("bad", bad, {})]
    out += [(f"number:{f}", numbers, {"form": f}) for f in ("int", "float", "ns", "setter")]
    out += [(f"object:{f}", objects, {"form": f}) for f in ("Timestamp", "dict", "dict2", "MTime", "copy")]
    return out
