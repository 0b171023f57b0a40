"""C09 times are totally ordered and arithmetic is exact"""
import datetime

import pandas as pd

PROPERTY = "C09"
IMPORTS = ["mt_metadata.common.mttime", "mt_metadata.common"]
OPTS = {"budget_s": 120, "timeout_ms": 10000}
ASSUMPTIONS = ["times within 1970-2060 at microsecond resolution (numbers stand for whole seconds; a number of seconds above 3e11 is "
               "read as nanoseconds by design); durations in whole microseconds up to 10 years"]

LO, HI = 1, 2840000000
US = 1000000


def BOUNDS(tier):
    return ("every pair and triple of times between 1970 and 2060 to the microsecond, the other operand as MTime, MDate, ISO text, "
            "whole epoch seconds or pandas Timestamp; every duration of whole microseconds within +-10 years, as number, "
            "datetime.timedelta or pandas Timedelta")


def instant(ctx, name, fine=True):
    """(MTime, microseconds since the epoch)"""
    from mt_metadata.common.mttime import MTime
    s = ctx.int(name, LO, HI)
    u = ctx.int(name + ".us", 0, 999999) if fine else 0
    t = MTime(time_stamp=s)
    if fine:
        t = t + pd.Timedelta(u, unit="us")
    return t, s * US + u


def day(ctx, name):
    from mt_metadata.common.mttime import MDate, MTime
    d = ctx.int(name, 1, 32000)
    return MDate(time_stamp=MTime(time_stamp=d * 86400).isoformat()[:10]), d * 86400 * US


FORMS = ["MTime", "text", "epoch", "Timestamp", "MDate"]


def other(ctx, name, form):
    if form == "MDate":
        return day(ctx, name)
    t, v = instant(ctx, name, form != "epoch")
    if form == "text":
        return t.isoformat(), v
    if form == "epoch":
        return ctx_int(t), v
    if form == "Timestamp":
        return t.time_stamp, v
    return t, v


def ctx_int(t):
    return int(t.epoch_seconds)


def order(ctx, form, cls):
    """the relations are those of the instants, whatever the form of the other operand"""
    a, x = instant(ctx, "a", form != "epoch") if cls == "MTime" else day(ctx, "a")
    b, y = other(ctx, "b", form)
    ctx.check((a < b) == (x < y), "<")
    ctx.check((a > b) == (x > y), ">")
    ctx.check((a <= b) == (x <= y), "<=")
    ctx.check((a >= b) == (x >= y), ">=")
    ctx.check((a == b) == (x == y), "==")
    ctx.check((a != b) == (x != y), "!=")
    if form in ("MTime", "MDate"):
        ctx.check((b < a) == (y < x), "< the other way")
        ctx.check((b > a) == (y > x), "> the other way")
        ctx.check((b == a) == (x == y), "== the other way")


def duration(ctx, form):
    if form == "int":
        n = ctx.int("d", -315000000, 315000000)
        return n, n * US
    if form == "float":
        n = ctx.int("d", -315000000 * 4, 315000000 * 4)
        return n / 4, n * (US // 4)
    if form == "timedelta":
        h = ctx.choice("d", [0, 1, -1, 86400, 90061, -400 * 86400])
        m = ctx.choice("dus", [0, 1, 999999])
        return datetime.timedelta(seconds=h, microseconds=m), h * US + m
    s = ctx.int("d", -315000000, 315000000)
    u = ctx.int("dus", 0, 999999)
    return pd.Timedelta(s * US + u, unit="us"), s * US + u


def arithmetic(ctx, form, cls):
    a, x = instant(ctx, "a") if cls == "MTime" else day(ctx, "a")
    d, n = duration(ctx, form)
    if cls == "MDate":
        if form in ("int", "float"):
            ctx.assume((d < 3000) & (d > -3000))
            n = n * 86400
        ctx.assume(x + n > 86400 * US)
    else:
        ctx.assume(x + n > US)
    was = a.isoformat()
    b = a + d
    ctx.check(type(b) is type(a), "adding a duration gives a time of the same kind")
    ctx.check(stamp(b) == x + n, "adding moves the instant by the duration")
    ctx.check((b - d) == a, "adding and subtracting again gives the same time")
    ctx.check(a.isoformat() == was, "adding leaves the time alone")
    ctx.check(((b > a) == (n > 0)) & ((b < a) == (n < 0)), "adding respects the order")


def stamp(t):
    """microseconds since the epoch (a whole number; all times here have whole microseconds)"""
    v = t.time_stamp
    if hasattr(v, "ns"):
        return v.ns / 1000
    return v.value // 1000


def difference(ctx, form):
    """the difference of two times added to the earlier gives the later"""
    a, x = instant(ctx, "a", form != "epoch")
    b, y = other(ctx, "b", form)
    d = a - b
    per = 1
    ctx.close(d * per, (x - y) / US, "difference in seconds", rtol=1e-12, atol=1e-6)
    if form == "MTime":
        ctx.close(b - a, -d, "differences are antisymmetric", rtol=0, atol=1e-9)
        back = b + d
        # seconds are floating point numbers: exact to the microsecond over these spans
        ctx.check((back >= a) | (a - back < 1e-5), "the later time again")
        ctx.check((back <= a) | (back - a < 1e-5), "the later time again")


def dates(ctx):
    """dates: differences count days"""
    a, x = day(ctx, "a")
    b, y = day(ctx, "b")
    ctx.close(a - b, (x - y) / (86400 * US), "difference in days", rtol=1e-12, atol=1e-9)
    ctx.check((b + (a - b)) == a, "the later date again")
    ctx.check((a < b) == (x < y), "<")
    ctx.check((a > b) == (x > y), ">")


def triple(ctx):
    """transitivity"""
    a, x = instant(ctx, "a")
    b, y = instant(ctx, "b")
    c, z = instant(ctx, "c")
    ctx.check((not (a < b and b < c)) or a < c, "< is transitive")
    ctx.check((not (a == b and b == c)) or a == c, "== is transitive")
    ctx.check((not (a <= b and b <= c)) or a <= c, "<= is transitive")
    ctx.check((not (a > b and b > c)) or a > c, "> is transitive")


HASHED = ["2020-01-01", "2020-01-01T00:00:00", "2020-01-01T00:00:00+00:00", "2020-01-01T02:00:00+02:00", "2019-12-31T19:00:00-05:00",
          1577836800, 1577836800.0, "2020-01-01T00:00:00.5", "2020-06-01", None, "1980-01-01"]


def hashes(ctx):
    """equal times hash alike"""
    from mt_metadata.common.mttime import MTime, MDate
    i = ctx.choice("i", list(range(len(HASHED))))
    j = ctx.choice("j", list(range(len(HASHED))))
    A = ctx.choice("A", [MTime, MDate])
    B = ctx.choice("B", [MTime, MDate])
    a, b = A(time_stamp=HASHED[i]), B(time_stamp=HASHED[j])
    if a == b:
        ctx.check(hash(a) == hash(b), "equal times hash alike")
    ctx.check((a == b) == (b == a), "equality is symmetric")
    ctx.check((a == b) == (not a != b), "!= is the negation")
    ctx.check(int(a < b) + int(a == b) + int(a > b) == 1, "exactly one of <, ==, >")
    # the offset is only a way of writing
    ctx.check((a == b) == (a.time_stamp.value == b.time_stamp.value), "equality is that of the instants")


def foreign(ctx):
    """adding something that is no duration is refused, comparing for equality with it is False"""
    from mt_metadata.common.mttime import MTime
    t = MTime(time_stamp="2020-01-01")
    x = ctx.choice("x", ["zz", [1], MTime(time_stamp="2020-01-02")])
    if not isinstance(x, MTime):
        ctx.check(not (t == x), "not equal to something else")
        ctx.check(t != x, "unequal to something else")
    try:
        t + x
    except (ValueError, TypeError):
        return
    ctx.fail("refused")


def instances(tier):
    out = []
    for cls in ("MTime", "MDate"):
        for f in FORMS:
            out.append((f"order:{cls}:{f}", order, {"form": f, "cls": cls}))
        for f in ("int", "float", "timedelta", "Timedelta"):
            out.append((f"arithmetic:{cls}:{f}", arithmetic, {"form": f, "cls": cls}))
    for f in ("MTime", "text", "epoch_", "Timestamp"):
        if f != "epoch_":
            out.append((f"difference:{f}", difference, {"form": f}))
    out += [("dates", dates, {}), ("triple", triple, {}), ("hashes", hashes, {}), ("foreign", foreign, {})]
    return out
