"""obspy keeps its numbers as subclasses of float: free values are kept as they are (their range is checked), free times likewise"""
import obspy
import pandas as pd
from obspy.core.inventory import response
from obspy.core.util import obspy_types

from . import core, rt, shims


def free(v):
    t = type(v)
    return issubclass(t, core.Sym) or getattr(t, "__sym_value__", False)


def numbers(cls):
    real = cls.__new__

    def new(c, *a, **k):
        v = a[0] if a else k.get("value")
        if free(v):
            lo, hi = getattr(c, "_minimum", None), getattr(c, "_maximum", None)
            if lo is not None and lo > float("-inf") and not bool(v >= lo):
                raise ValueError(f"value out of bounds ({lo}, {hi})")
            if hi is not None and hi < float("inf") and not bool(v <= hi):
                raise ValueError(f"value out of bounds ({lo}, {hi})")
            return v
        return real(c, *a, **k)

    cls.__new__ = staticmethod(new)


class Moment(obspy.UTCDateTime):
    """a UTCDateTime of a free time"""

    def __init__(self, t):
        if not isinstance(t, Moment):
            self.__dict__["t"] = t if hasattr(t, "ns") else shims.make_ts(t)

    def __sym_str__(self):
        return self.t.isoformat()

    def __lt__(self, o):
        return self.t < (o.t if isinstance(o, Moment) else pd.Timestamp(str(o)))

    def __gt__(self, o):
        return self.t > (o.t if isinstance(o, Moment) else pd.Timestamp(str(o)))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def install():
    numbers(obspy_types.FloatWithUncertainties)
    numbers(obspy_types.ComplexWithUncertainties)
    utc = obspy.UTCDateTime

    def new(c, *a, **k):
        if a and isinstance(a[0], Moment):
            return a[0]
        return object.__new__(Moment if a and free(a[0]) else c)

    utc.__new__ = staticmethod(new)
    response.float = rt.float_
