"""facades for pandas timestamps, datetime, json, math, pathlib inside transformed modules"""
import builtins
import copy
from collections import Counter as _Counter
import datetime as _dt
import json as _json
import math as _math
import statistics as _stats
import pathlib as _pl
import re as _re
import types

import numpy as np
import pandas as pd
import scipy.signal as _sig
import z3

from . import core, loader, npshim, rt, symstr
from .core import (Ch, Sym, SymBool, SymComplex, SymInt, SymReal, SymStr, Tok, Unsupported, _lift, _rt, _type, and_,
                   concretise, cur, is_num, is_sym, real_val, sym_not)

NS = 10 ** 9
DAY = 86400 * NS


def I(x):
    return z3.IntVal(x)


# ------------------------------------------------------------------ civil dates
def civil(days):
    """(y, m, d) SymInts of a day number (days since 1970-01-01), memoised per path"""
    p = cur()
    t = z3.simplify(days.t)
    for (tt, r) in p.memo.setdefault("civil", []):
        if tt.eq(t):
            return r
    z = t + 719468
    era = z / 146097
    doe = z - era * 146097
    yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe / 4 - yoe / 100)
    mp = (5 * doy + 2) / 153
    d = doy - (153 * mp + 2) / 5 + 1
    m = z3.If(mp < 10, mp + 3, mp - 9)
    y = z3.If(m <= 2, y + 1, y)
    r = (SymInt(y), SymInt(m), SymInt(d))
    p.memo["civil"].append((t, r))
    p.memo.setdefault("civil_ids", []).append((r, SymInt(t)))
    return r


def days_of(y, m, d):
    """day number of a civil date"""
    p = cur()
    for (r, days) in p.memo.get("civil_ids", []):
        if _same(r[0], y) and _same(r[1], m) and _same(r[2], d):
            return days
    y, m, d = (_lift(q) for q in (y, m, d))
    y2 = z3.If(m.t <= 2, y.t - 1, y.t)
    era = y2 / 400
    yoe = y2 - era * 400
    mp = z3.If(m.t > 2, m.t - 3, m.t + 9)
    doy = (153 * mp + 2) / 5 + d.t - 1
    doe = yoe * 365 + yoe / 4 - yoe / 100 + doy
    return SymInt(z3.simplify(era * 146097 + doe - 719468))


def _same(a, b):
    return _type(a) is SymInt and _type(b) is SymInt and a.t.eq(b.t)


class TimeAux:
    def __init__(self, kind):
        self.kind = kind

    def text(self, v):
        if self.kind == "date":
            return (_dt.date(1970, 1, 1) + _dt.timedelta(days=int(v))).isoformat()
        s = pd.Timestamp(int(v)).isoformat()
        if self.kind == "iso ":
            s = s.replace("T", " ")
        return s

    def force(self, tok, why):
        return self.text(concretise(tok.val, "time:" + why))

    def eq_text(self, tok, text):
        try:
            if self.kind == "date":
                if not _re.match(r"^\d{4}-\d\d-\d\d$", text):
                    return False
                v = (_dt.date.fromisoformat(text) - _dt.date(1970, 1, 1)).days
            else:
                if not _re.match(r"^\d{4}-\d\d-\d\d", text):
                    return False
                v = pd.Timestamp(text).value
            if self.text(v) != text:
                return False
        except ValueError:
            return False
        return tok.val == v

    def eq_tok(self, a, b):
        if a.aux.kind != b.aux.kind:
            return False
        return a.val == b.val


ISO = TimeAux("iso")
ISO_ = TimeAux("iso ")
DATE = TimeAux("date")


class SymDate:
    """datetime.date with a symbolic day number"""
    __sym_value__ = True
    __sym_type__ = _dt.date

    def __init__(self, days):
        self.days = days

    @property
    def __class__(self):
        return _dt.date

    def isoformat(self):
        return SymStr((Tok("time", self.days, None, self.days, 10, DATE),))

    def __sym_str__(self):
        return self.isoformat()

    def _o(self, o):
        if _type(o) is SymDate:
            return o.days
        if isinstance(o, _dt.date):
            return (_dt.date(o.year, o.month, o.day) - _dt.date(1970, 1, 1)).days
        return None

    def _c(self, o, f):
        b = self._o(o)
        if b is None:
            return NotImplemented
        return f(self.days, b)

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __hash__(self):
        return hash(self.days)

    year = property(lambda s: civil(s.days)[0])
    month = property(lambda s: civil(s.days)[1])
    day = property(lambda s: civil(s.days)[2])

    def __deepcopy__(self, memo):
        return self


class SymTimedelta:
    __sym_value__ = True
    __sym_type__ = pd.Timedelta

    def __init__(self, ns):
        self.ns = ns

    @property
    def __class__(self):
        return pd.Timedelta

    def total_seconds(self):
        return SymReal(z3.simplify(_rt(_lift(self.ns)) / NS))

    @property
    def value(self):
        return self.ns

    @property
    def days(self):
        return self.ns // DAY

    @property
    def seconds(self):
        return (self.ns % DAY) // NS

    def _o(self, o):
        if _type(o) is SymTimedelta:
            return o.ns
        if isinstance(o, (pd.Timedelta, _dt.timedelta, np.timedelta64)):
            return pd.Timedelta(o).value
        return None

    def __lt__(self, o): return self.ns < self._o(o)
    def __le__(self, o): return self.ns <= self._o(o)
    def __gt__(self, o): return self.ns > self._o(o)
    def __ge__(self, o): return self.ns >= self._o(o)

    def __eq__(self, o):
        b = self._o(o)
        return False if b is None else self.ns == b

    def __ne__(self, o):
        return sym_not(self.__eq__(o))

    def __hash__(self):
        return hash(self.ns)

    def __neg__(self):
        return SymTimedelta(-self.ns)

    def __add__(self, o):
        b = self._o(o)
        return NotImplemented if b is None else SymTimedelta(self.ns + b)

    __radd__ = __add__

    def __truediv__(self, o):
        b = self._o(o)
        if b is not None:
            return rt.float_(self.ns) / b
        return SymTimedelta(core.trunc_int(rt.float_(self.ns) / o))


class SymTimestamp:
    """pandas Timestamp with a symbolic number of ns since the epoch"""
    __sym_value__ = True
    __sym_type__ = pd.Timestamp

    def __init__(self, ns, tz="UTC", off=0):
        self.ns = ns       # the instant (UTC)
        self._tz = tz
        self._off = off    # a fixed offset of the zone in ns (concrete)

    @property
    def loc(self):
        return self.ns + self._off if self._off else self.ns

    @property
    def __class__(self):
        return pd.Timestamp

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @property
    def tz(self):
        if self._off:
            return FixedZone(_dt.timedelta(seconds=self._off // NS))
        return _UTC if self._tz else None

    tzinfo = tz

    def utcoffset(self):
        return None if self._tz is None else _dt.timedelta(seconds=self._off // NS)

    @property
    def value(self):
        return self.ns

    unit = "ns"

    def tz_localize(self, tz):
        if tz is None:
            return SymTimestamp(self.loc, None)
        if self._tz:
            raise TypeError("Cannot localize tz-aware Timestamp, use tz_convert for conversions")
        return SymTimestamp(self.ns, "UTC")

    def tz_convert(self, tz):
        if not self._tz:
            raise TypeError("Cannot convert tz-naive Timestamp, use tz_localize to localize")
        if tz is None:
            return SymTimestamp(self.ns, None)
        if str(tz) not in ("UTC", "utc"):
            raise Unsupported("tz_convert")
        return SymTimestamp(self.ns, "UTC")

    def timestamp(self):
        # pandas: round(value / 1e9, 6)
        us = core.sym_round(SymReal(_rt(_lift(self.ns)) / 1000), None)
        return SymReal(z3.simplify(_rt(us) / 1000000))

    def isoformat(self, sep="T", timespec="auto"):
        aux = ISO if sep == "T" else TimeAux("iso ")
        e = (Tok("time", self.loc, None, self.loc, None, aux),)
        if self._tz:
            o = abs(self._off) // (60 * NS)
            e = e + tuple(f"{'-' if self._off < 0 else '+'}{o // 60:02d}:{o % 60:02d}")
        return SymStr(e)

    def __sym_str__(self):
        return self.isoformat(" ")

    def date(self):
        return SymDate(self.loc // DAY)

    def normalize(self):
        return SymTimestamp((self.loc // DAY) * DAY - self._off, self._tz, self._off)

    year = property(lambda s: civil(s.loc // DAY)[0])
    month = property(lambda s: civil(s.loc // DAY)[1])
    day = property(lambda s: civil(s.loc // DAY)[2])
    hour = property(lambda s: (s.loc % DAY) // (3600 * NS))
    minute = property(lambda s: (s.loc % (3600 * NS)) // (60 * NS))
    second = property(lambda s: (s.loc % (60 * NS)) // NS)
    microsecond = property(lambda s: (s.loc % NS) // 1000)
    nanosecond = property(lambda s: s.loc % 1000)

    @property
    def dayofyear(self):
        y, m, d = civil(self.loc // DAY)
        return (self.loc // DAY) - days_of(y, 1, 1) + 1

    def round(self, freq="us"):
        if freq not in ("us", "s", "ms"):
            raise Unsupported("round " + str(freq))
        n = {"us": 1000, "ms": 10 ** 6, "s": NS}[freq]
        r = core.sym_round(SymReal(_rt(_lift(self.ns)) / n), None)
        return SymTimestamp(r * n, self._tz, self._off)

    def replace(self, **k):
        if "tzinfo" in k:
            tz = k.pop("tzinfo")
            if k:
                raise Unsupported("replace")
            return SymTimestamp(self.loc, "UTC" if tz else None)
        f = {n: getattr(self, n) for n in ("year", "month", "day", "hour", "minute", "second", "microsecond", "nanosecond")}
        f.update(k)
        lim = {"month": (1, 12), "day": (1, 31), "hour": (0, 23), "minute": (0, 59), "second": (0, 59),
               "microsecond": (0, 999999), "nanosecond": (0, 999)}
        for n, (lo, hi) in lim.items():
            if n in k and not builtins.bool(and_(k[n] >= lo, k[n] <= hi)):
                raise ValueError(f"{n} must be in {lo}..{hi}")
        if "year" in k or "month" in k or "day" in k:
            days = days_of(f["year"], f["month"], f["day"])
            y, m, d = civil(days)
            if not builtins.bool(and_(y == f["year"], m == f["month"], d == f["day"])):
                raise ValueError("day is out of range for month")
        else:
            days = self.loc // DAY
        ns = days * DAY + f["hour"] * (3600 * NS) + f["minute"] * (60 * NS) + f["second"] * NS + f["microsecond"] * 1000 + f["nanosecond"]
        return SymTimestamp(ns - self._off, self._tz, self._off)

    def to_pydatetime(self):
        return self

    def _o(self, o):
        if _type(o) is SymTimestamp:
            return o.ns, o._tz
        if isinstance(o, (pd.Timestamp, _dt.datetime, np.datetime64)):
            q = pd.Timestamp(o)
            return q.value, ("UTC" if q.tz is not None else None)
        return None

    def _c(self, o, op):
        r = self._o(o)
        if r is None:
            if op in ("eq", "ne"):
                return op == "ne"
            return NotImplemented
        b, tz = r
        if bool(tz) != bool(self._tz):
            if op in ("eq", "ne"):
                return op == "ne"
            raise TypeError("Cannot compare tz-naive and tz-aware timestamps")
        a = self.ns
        return {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b,
                "eq": lambda: a == b, "ne": lambda: a != b}[op]()

    def __lt__(self, o): return self._c(o, "lt")
    def __le__(self, o): return self._c(o, "le")
    def __gt__(self, o): return self._c(o, "gt")
    def __ge__(self, o): return self._c(o, "ge")
    def __eq__(self, o): return self._c(o, "eq")
    def __ne__(self, o): return self._c(o, "ne")

    def __hash__(self):
        return hash(self.ns)

    def __add__(self, o):
        b = _td(o)
        if b is None:
            raise TypeError("unsupported operand for Timestamp +")
        return SymTimestamp(self.ns + b, self._tz, self._off)

    __radd__ = __add__

    def __sub__(self, o):
        b = _td(o)
        if b is not None:
            return SymTimestamp(self.ns - b, self._tz, self._off)
        r = self._o(o)
        if r is None:
            return NotImplemented
        if bool(r[1]) != bool(self._tz):
            raise TypeError("Cannot subtract tz-naive and tz-aware datetime-like objects.")
        return SymTimedelta(_lift(self.ns - r[0]))

    def __rsub__(self, o):
        r = self._o(o)
        if r is None:
            return NotImplemented
        return SymTimedelta(_lift(r[0] - self.ns))


def _td(o):
    if _type(o) is SymTimedelta:
        return o.ns
    if isinstance(o, (pd.Timedelta, _dt.timedelta, np.timedelta64)):
        return pd.Timedelta(o).value
    return None


class FixedZone(_dt.tzinfo):
    """datetime.timezone that takes symbolic times"""

    def __init__(self, off):
        self.zone = _dt.timezone(off)

    def utcoffset(self, when):
        return self.zone.utcoffset(None)

    def dst(self, when):
        return None

    def tzname(self, when):
        return self.zone.tzname(None)

    def __eq__(self, o):
        return self.zone == (o.zone if _type(o) is FixedZone else o)

    def __hash__(self):
        return hash(self.zone)

    def __str__(self):
        return str(self.zone)

    def __deepcopy__(self, memo):
        return self


_UTC = FixedZone(_dt.timedelta(0))


def parse_time_str(s):
    """SymStr -> (ns, tz) when it is a whole time token, else None"""
    e = symstr.elems(symstr.m_strip(s))
    if not e or _type(e[0]) is not Tok or e[0].kind != "time" or e[0].aux is _JAUX:
        return None
    tok = e[0]
    rest = "".join(x for x in e[1:] if _type(x) is str)
    if len(rest) != len(e) - 1:
        return None
    if tok.aux.kind == "date":
        base = tok.val * DAY
        if rest == "":
            return base, None, 0
        try:
            extra = pd.Timestamp("1970-01-01" + rest)
        except ValueError:
            return None
        if extra.tz is None:
            return base + extra.value, None, 0
        return base + extra.value, "UTC", int(extra.utcoffset().total_seconds()) * NS
    if rest == "":
        return tok.val, None, 0
    m = _re.match(r"^(Z|[+-]\d\d:?\d\d)$", rest.strip())
    if not m:
        return None
    off = 0
    if rest.strip() != "Z":
        g = rest.strip().replace(":", "")
        off = (int(g[1:3]) * 3600 + int(g[3:5]) * 60) * NS * (-1 if g[0] == "-" else 1)
    return tok.val - off, "UTC", off


class _TsMeta(builtins.type):
    def __instancecheck__(cls, x):
        return isinstance(x, pd.Timestamp)

    def __getattr__(cls, n):
        return getattr(pd.Timestamp, n)

    def __call__(cls, *a, **k):
        return make_ts(*a, **k)


def _num_ns(x, unit):
    mul = {"s": NS, "ms": 10 ** 6, "us": 1000, "ns": 1, None: 1}[unit]
    if _type(x) in (SymInt, SymBool):
        return x * mul
    # float input: nearest ns (pandas rounds to the resolution); exact rationals here
    return core.sym_round(SymReal(z3.simplify(_rt(x) * mul)), None)


def make_ts(*a, **k):
    if a and rt.deep_sym(list(a)) or any(is_sym(v) for v in k.values()):
        x = a[0] if a else None
        tz = k.get("tz")
        unit = k.get("unit")
        t = _type(x)
        if t is SymTimestamp:
            return x if not tz or x._tz else SymTimestamp(x.ns, "UTC")
        if t is SymStr:
            r = parse_time_str(x)
            if r is None:
                return pd.Timestamp(symstr.force(x, "Timestamp"), *a[1:], **k)
            ns, z, off = r
            return SymTimestamp(ns, "UTC" if (z or tz) else None, 0 if tz else off)
        if t in (SymInt, SymReal):
            return SymTimestamp(_num_ns(x, unit), "UTC" if tz else None)
        if t is SymDate:
            return SymTimestamp(x.days * DAY, "UTC" if tz else None)
        if not a and "year" in k:
            base = SymTimestamp(days_of(k["year"], k["month"], k["day"]) * DAY, "UTC" if tz else None)
            return base.replace(**{n: v for n, v in k.items() if n not in ("tz", "tzinfo", "year", "month", "day")})
        if t is SymInt or (len(a) >= 3):
            names = ("year", "month", "day", "hour", "minute", "second", "microsecond")
            kk = dict(zip(names, a))
            kk.update(k)
            return make_ts(**kk)
        raise Unsupported("Timestamp of " + t.__name__)
    return pd.Timestamp(*a, **k)


def _fromts(x, *a, **k):
    if is_sym(x):
        # utcfromtimestamp: microsecond resolution, rounded
        us = core.sym_round(SymReal(z3.simplify(_rt(_lift(x)) * 1000000)), None)
        return SymTimestamp(us * 1000, "UTC")
    return pd.Timestamp.utcfromtimestamp(x, *a, **k)


class Timestamp(metaclass=_TsMeta):
    utcfromtimestamp = staticmethod(_fromts)


class _TdMeta(builtins.type):
    def __instancecheck__(cls, x):
        return isinstance(x, pd.Timedelta)

    def __getattr__(cls, n):
        return getattr(pd.Timedelta, n)

    def __call__(cls, *a, **k):
        if any(is_sym(v) for v in k.values()) or (a and (is_sym(a[0]) or _type(a[0]) is SymTimedelta)):
            if a and _type(a[0]) is SymTimedelta:
                return a[0]
            mul = {"days": DAY, "hours": 3600 * NS, "minutes": 60 * NS, "seconds": NS, "milliseconds": 10 ** 6,
                   "microseconds": 1000, "nanoseconds": 1}
            tot = 0
            if a:
                u = k.pop("unit", a[1] if len(a) > 1 else "ns")
                return SymTimedelta(_num_ns(a[0], u))
            for n, v in k.items():
                if is_sym(v):
                    if _type(v) is SymInt:
                        tot = tot + v * mul[n]
                    else:
                        tot = tot + core.sym_round(SymReal(z3.simplify(_rt(_lift(v)) * mul[n])), None)
                else:
                    tot = tot + int(v * mul[n])
            return SymTimedelta(tot)
        return pd.Timedelta(*a, **k)


class Timedelta(metaclass=_TdMeta):
    pass


class _Facade(types.ModuleType):
    def __init__(self, mod, **over):
        super().__init__(mod.__name__)
        self.__dict__["_mod"] = mod
        for k, v in over.items():
            self.__dict__[k] = v

    def __getattr__(self, n):
        return getattr(self.__dict__["_mod"], n)


class SymInterval:
    """pandas Interval with symbolic ends"""
    __sym_value__ = True

    def __init__(self, left, right, closed):
        if not left <= right:
            raise ValueError("left side of interval must be <= right side")
        if closed not in ("left", "right", "both", "neither"):
            raise ValueError(f"invalid option for 'closed': {closed}")
        self.left, self.right, self.closed = left, right, closed
        self.closed_left = closed in ("left", "both")
        self.closed_right = closed in ("right", "both")
        self.open_left, self.open_right = not self.closed_left, not self.closed_right

    length = property(lambda self: self.right - self.left)
    mid = property(lambda self: (self.left + self.right) / 2)
    is_empty = property(lambda self: (self.right == self.left) & (self.closed != "both"))

    def _has(self, lo, hi, key):
        a = lo <= key if self.closed_left else lo < key
        b = key <= hi if self.closed_right else key < hi
        return core.and_(a, b)

    def __contains__(self, key):
        if hasattr(key, "closed_left"):
            a = self.left < key.left if self.open_left and key.closed_left else self.left <= key.left
            b = key.right < self.right if self.open_right and key.closed_right else key.right <= self.right
            return core.and_(a, b)
        return self._has(self.left, self.right, key)

    def overlaps(self, other):
        a = self.left <= other.right if self.closed_left and other.closed_right else self.left < other.right
        b = other.left <= self.right if other.closed_left and self.closed_right else other.left < self.right
        return core.and_(a, b)


class _IvlMeta(builtins.type):
    def __instancecheck__(cls, x):
        return isinstance(x, pd.Interval) or _type(x) is SymInterval

    def __call__(cls, left, right, closed="right"):
        if is_sym(left) or is_sym(right):
            return SymInterval(left, right, closed)
        return pd.Interval(left, right, closed=closed)


class Interval(metaclass=_IvlMeta):
    pass


PD = _Facade(pd, Timestamp=Timestamp, Timedelta=Timedelta, Interval=Interval)


class _DateMeta(builtins.type):
    def __instancecheck__(cls, x):
        return isinstance(x, _dt.date)

    def __getattr__(cls, n):
        return getattr(_dt.date, n)

    def __call__(cls, y, m=None, d=None):
        if is_sym(y) or is_sym(m) or is_sym(d):
            return SymDate(days_of(y, m, d))
        return _dt.date(y, m, d)


class Date(metaclass=_DateMeta):
    pass


DT = _Facade(_dt, date=Date)


# ------------------------------------------------------------------ math
def _m(name):
    f = getattr(_math, name)

    def g(x, *a):
        if is_sym(x) or any(is_sym(q) for q in a):
            if name == "atan2":
                return core.sym_atan2(x, a[0])
            if name == "pow":
                return x ** a[0]
            if name == "hypot":
                return core.sym_sqrt(x * x + a[0] * a[0])
            if name in ("isnan", "isinf"):
                return False
            if name == "isfinite":
                return True
            if name == "fabs":
                return abs(rt.float_(x))
            if name == "trunc":
                return core.trunc_int(x)
            if name == "radians":
                return x.deg2rad()
            if name == "degrees":
                return x.rad2deg()
            return getattr(x, {"acos": "arccos", "atan": "arctan"}.get(name, name))()
        return f(x, *a)
    return g


def _sym2(name, f):
    real_ = getattr(_math, name)

    def g(*a):
        if not any(is_sym(v) or (_type(v) in (list, tuple) and any(is_sym(q) for q in v)) for v in a):
            return real_(*a)
        return f(*a)
    return g


def _fsum(xs):
    xs = list(xs)
    if not any(is_sym(v) for v in xs):
        return _math.fsum(xs)
    r = 0.0
    for v in xs:
        r = r + v
    return r


def _modf(x):
    if not is_sym(x):
        return _math.modf(x)
    k = core.trunc_int(x) * 1.0
    return (x - k, k)


def _dist(p, q):
    return core.sym_sqrt(_fsum([(a - b) * (a - b) for a, b in zip(p, q)]))


class _Stats:
    """the statistics module on symbolic numbers"""
    @staticmethod
    def mean(xs, *a):
        xs = list(xs)
        return _fsum(xs) / len(xs) if any(is_sym(v) for v in xs) else _stats.mean(xs, *a)

    @staticmethod
    def fmean(xs, *a, **k):
        xs = list(xs)
        return _fsum(xs) / len(xs) if any(is_sym(v) for v in xs) and not a and not k else _stats.fmean(xs, *a, **k)

    @staticmethod
    def pvariance(xs, mu=None):
        xs = list(xs)
        if not any(is_sym(v) for v in xs):
            return _stats.pvariance(xs, mu)
        m = _fsum(xs) / len(xs)
        return _fsum([(v - m) * (v - m) for v in xs]) / len(xs)

    @staticmethod
    def variance(xs, xbar=None):
        xs = list(xs)
        return _Stats.pvariance(xs) * len(xs) / (len(xs) - 1) if any(is_sym(v) for v in xs) else _stats.variance(xs, xbar)

    @staticmethod
    def stdev(xs, xbar=None):
        xs = list(xs)
        return core.sym_sqrt(_Stats.variance(xs)) if any(is_sym(v) for v in xs) else _stats.stdev(xs, xbar)

    @staticmethod
    def pstdev(xs, mu=None):
        xs = list(xs)
        return core.sym_sqrt(_Stats.pvariance(xs)) if any(is_sym(v) for v in xs) else _stats.pstdev(xs, mu)


def _isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    if is_sym(a) or is_sym(b):
        m = core.ite(abs(a) >= abs(b), abs(a), abs(b))
        lim = m * rel_tol
        lim = core.ite(lim >= abs_tol, lim, abs_tol)
        return abs(a - b) <= lim
    return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


MATH = _Facade(_math, isclose=_isclose, fsum=_fsum, modf=_modf, dist=_sym2("dist", _dist),
               fmod=_sym2("fmod", npshim._fmod), copysign=_sym2("copysign", npshim._BIN["copysign"]),
               remainder=_sym2("remainder", lambda p, q: p - q * core.SymReal.rint(p / q)),
               **{n: _m(n) for n in ("sqrt", "exp", "cos", "sin", "tan", "log", "log10", "tanh", "atan", "atan2", "acos",
                                     "floor", "ceil", "trunc", "pow", "hypot", "isnan", "isinf", "isfinite", "fabs",
                                     "radians", "degrees")})


STATS = _Facade(_stats, mean=_Stats.mean, fmean=_Stats.fmean, pvariance=_Stats.pvariance, variance=_Stats.variance,
                stdev=_Stats.stdev, pstdev=_Stats.pstdev)


# ------------------------------------------------------------------ json (stdlib contract: loads(dumps(x)) is the
# JSON normal form of x; the text itself is opaque)
class JsonAux:
    kind = "json"

    def force(self, tok, why):
        def conc(x):
            t = _type(x)
            if t is dict:
                return {k: conc(v) for k, v in x.items()}
            if t is list:
                return [conc(v) for v in x]
            if t is SymStr:
                return symstr.force(x, why)
            if t is SymBool:
                return builtins.bool(x)
            if is_sym(x):
                return concretise(x, why)
            return x
        return _json.dumps(conc(tok.val), indent=tok.spec)

    def eq_text(self, tok, text):
        if not text or text[0] not in "{[\"0123456789-tfn":
            return False
        raise Unsupported("json text comparison")

    def eq_tok(self, a, b):
        raise Unsupported("json text comparison")


_JAUX = JsonAux()


def json_norm(o, enc):
    t = _type(o)
    if t in (SymReal, SymInt, SymBool, SymStr) or o is None or t in (bool, int, float, str):
        return o
    if issubclass(t, dict):
        out = {}
        for k, v in o.items():
            if _type(k) is SymStr or isinstance(k, str):
                kk = k
            elif k is None or isinstance(k, (bool, int, float)):
                kk = _json.loads(_json.dumps({k: 0})).popitem()[0] if not is_sym(k) else rt.str_(k)
            else:
                raise TypeError("keys must be str, int, float, bool or None")
            rt.setitem(out, kk, json_norm(v, enc))
        return out
    if issubclass(t, (list, tuple)):
        return [json_norm(v, enc) for v in o]
    if issubclass(t, str):
        return str.__str__(o) if not hasattr(o, "value") else str.__str__(o)
    if issubclass(t, bool):
        return o
    if issubclass(t, int):
        return int(o)
    if issubclass(t, float):
        return float(o)
    return json_norm(enc(o), enc)


def _default_enc(o):
    raise TypeError(f"Object of type {_type(o).__name__} is not JSON serializable")


def json_dumps(obj, *a, cls=None, default=None, indent=None, **k):
    if core.active() and rt.deep_sym(obj, 40):
        enc = default or (cls().default if cls is not None else _default_enc)
        tree = json_norm(obj, enc)
        return SymStr((Tok("time", tree, indent, tree, None, _JAUX),))
    return _json.dumps(obj, *a, cls=cls, default=default, indent=indent, **k)


def json_loads(s, *a, **k):
    if _type(s) is SymStr:
        if len(s.e) == 1 and _type(s.e[0]) is Tok and s.e[0].aux is _JAUX:
            return copy.deepcopy(s.e[0].val)
        if symstr.has_tok(s.e):
            raise Unsupported("json.loads of symbolic text")
        return _json.loads(symstr.force(s, "json.loads"), *a, **k)
    return _json.loads(s, *a, **k)


FILES = {}


def json_load(f, *a, **k):
    if hasattr(f, "sym_text"):
        return json_loads(f.sym_text, *a, **k)
    return _json.load(f, *a, **k)


JSON = _Facade(_json, dumps=json_dumps, loads=json_loads, load=json_load)


class _FakePath:
    __sym_value__ = True

    def __init__(self, s):
        self.s = s

    def exists(self):
        return False

    is_file = is_dir = exists

    def __sym_str__(self):
        return self.s


class _PathMeta(builtins.type):
    def __instancecheck__(cls, x):
        return isinstance(x, _pl.Path)

    def __getattr__(cls, n):
        return getattr(_pl.Path, n)

    def __call__(cls, *a, **k):
        if len(a) == 1 and _type(a[0]) is SymStr:
            return _FakePath(a[0])
        return _pl.Path(*a, **k)


class PathShim(metaclass=_PathMeta):
    pass


def _dtparser(real):
    def g(s, *a, **k):
        if _type(s) is SymStr:
            r = parse_time_str(s)
            if r is not None:
                return SymTimestamp(r[0], r[1])
            s = symstr.force(s, "dateutil")
        return real(s, *a, **k)
    return g


def _freqs_zpk(z, p, k, worN=200):
    """scipy's contract: k prod(s - z) / prod(s - p) at s = i worN"""
    if not (core.active() and (npshim.touches(z) or npshim.touches(p) or npshim.touches(worN) or is_sym(k))):
        return _sig.freqs_zpk(z, p, k, worN=worN)
    w = npshim.to_obj(worN)
    w = np.atleast_1d(w)
    out = np.empty(w.shape, dtype=object)
    for i, x in enumerate(w):
        s = SymComplex.of(x) * 1j
        num = SymComplex.of(1.0)
        for q in npshim.to_obj(z):
            num = num * (s - q)
        for q in npshim.to_obj(p):
            num = num / (s - q)
        out[i] = num * k
    return w, out


def _freqz(b, a=1, worN=512, whole=False, plot=None, fs=2 * np.pi, include_nyquist=False):
    """scipy's contract: the sum of b[k] exp(-i k w) at w = 2 pi worN / fs, for a given grid of frequencies"""
    if not (core.active() and (npshim.touches(b) or npshim.touches(worN) or is_sym(fs) or is_sym(a))):
        return _sig.freqz(b, a, worN=worN, whole=whole, plot=plot, fs=fs, include_nyquist=include_nyquist)
    if is_sym(a) or a != 1 or (not is_sym(worN) and np.ndim(worN) == 0 and float(worN).is_integer() and _type(worN) is int):
        raise core.Unsupported("freqz")
    given = np.atleast_1d(npshim.to_obj(worN))
    b = npshim.to_obj(b)
    out = np.empty(given.shape, dtype=object)
    for i, x in enumerate(given):
        w = x * (2 * np.pi) / fs
        h = SymComplex.of(0.0)
        for k, c in enumerate(b):
            a = w * k
            h = h + (SymComplex.of(c) if k == 0 else SymComplex(c * npshim.NP.cos(a), -(c * npshim.NP.sin(a))))
        out[i] = h
    return given, out


SIG = _Facade(_sig, freqs_zpk=_freqs_zpk, freqz=_freqz)


class _Interp:
    """scipy.interpolate.interp1d for straight lines and nearest points: sorts the table, extrapolates when told to"""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        if kind not in ("linear", "slinear", "nearest"):
            raise core.Unsupported("interp1d " + str(kind))
        x, y = npshim.to_obj(x), npshim.to_obj(y)
        if x.ndim != 1 or y.ndim != 1 or len(x) != len(y):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if len(x) == 0 or (kind == "slinear" and len(x) < 2):
            raise ValueError("x and y arrays must have at least 2 entries")
        if not assume_sorted:
            o = npshim.argsort(x)
            x, y = x[o], y[o]
        self.x, self.y, self.kind = x, y, kind
        self.extrapolate = _type(fill_value) is str and fill_value == "extrapolate"
        self.fill, self.bounds = fill_value, bounds_error
        if not self.extrapolate and fill_value is not np.nan:
            raise core.Unsupported("interp1d fill")

    def one(self, q):
        x, y = self.x, self.y
        n = len(x)
        if not self.extrapolate and (bool(q < x[0]) or bool(q > x[-1])):
            if self.bounds is False:
                return float("nan")
            raise ValueError("A value is outside the interpolation range.")
        if self.kind == "nearest":
            for i in range(n - 1):
                if bool(q * 2 <= x[i] + x[i + 1]):
                    return y[i]
            return y[-1]
        if n == 1:
            return y[0]
        for i in range(n - 1):
            if i == n - 2 or bool(q <= x[i + 1]):
                return y[i] + (y[i + 1] - y[i]) * (q - x[i]) / (x[i + 1] - x[i])

    def __call__(self, q):
        q = npshim.to_obj(q) if (npshim.isobj(q) or np.ndim(q)) else q
        if not npshim.isobj(q):
            r = np.empty((), dtype=object)
            r[()] = self.one(q)
            return r
        out = np.empty(q.shape, dtype=object)
        for i in np.ndindex(*q.shape):
            out[i] = self.one(q[i])
        return out


def _interp1d(x, y, *a, **k):
    if not core.active():
        return _i1d(x, y, *a, **k)
    return _Interp(x, y, *a, **k)


from scipy.interpolate import interp1d as _i1d  # noqa: E402


def substitutes():
    """what stands for a library module, function or class on symbolic paths, by identity"""
    from . import symre
    pairs = [(np, npshim.NP), (pd, PD), (_json, JSON), (_sig, SIG), (_math, MATH), (_stats, STATS), (_dt, DT), (_re, symre.RE),
             (_pl.Path, PathShim), (_dtp, _dtparser(_dtp)), (_i1d, _interp1d), (_Counter, rt.counter_)]
    pairs += [(getattr(np, k), v) for k, v in npshim._OVR.items() if k not in ("linalg", "fft")]
    for mod, fac in ((_math, MATH), (_stats, STATS)):
        pairs += [(getattr(mod, k), v) for k, v in fac.__dict__.items() if callable(v) and hasattr(mod, k)]
    for o, v in pairs:
        if o is not v and not any(o is q for q in (abs, min, max, sum, round, all, any, pow)):
            _SUBST.setdefault(id(o), (o, v))


_SUBST = {}


def imported(val):
    if not _SUBST:
        substitutes()
    hit = _SUBST.get(id(val))
    return hit[1] if hit is not None and hit[0] is val else val


def inject(module):
    d = module.__dict__
    for name, val in list(d.items()):
        if not name.startswith("__"):
            new = imported(val)
            if new is not val:
                d[name] = new


from dateutil.parser import parse as _dtp  # noqa: E402


_series_cmp = pd.Series._cmp_method


def _cmp_method(self, other, op):
    """a column compared with a symbolic text: row by row"""
    if _type(other) is SymStr:
        return pd.Series(np.array([bool(op(other, v)) if op.__name__ in ("eq", "ne") else bool(op(v, other)) for v in list(self)], dtype=bool), index=self.index, name=self.name)
    return _series_cmp(self, other, op)


def _xr_objects():
    """numeric xarray data built on a symbolic path hold objects, so that symbolic values can be stored in them"""
    import xarray as xr
    init = xr.DataArray.__init__

    def __init__(self, *a, **k):
        init(self, *a, **k)
        if core.active() and not k.get("fastpath") and self._variable.dtype.kind in "fc" and npshim.force_obj():
            if self.name not in self.dims:
                self._variable = self._variable.astype(object)
    __init__.__wrapped__ = init
    xr.DataArray.__init__ = __init__


def setup():
    pd.Series._cmp_method = _cmp_method
    _xr_objects()
    loader.INJECT.append(inject)
    rt.imported = imported
    from loguru import logger
    logger.remove()
    logger.disable("mt_metadata")
