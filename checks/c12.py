"""C12 frequency bands behave as intervals"""
import numpy as np

PROPERTY = "C12"
IMPORTS = ["mt_metadata.common.band"]
OPTS = {"budget_s": 120, "timeout_ms": 10000}
ASSUMPTIONS = ["exact arithmetic on the edges; bands with a lower edge below the upper edge"]


def BOUNDS(tier):
    return ("every band with 0 < lower < upper <= 1e6, every closedness and averaging; every pair of bands, every point; every list of up to %d "
            "frequencies in any order" % (4 if tier == "quick" else 6))


CLOSED = ["left", "right", "both"]


def band(ctx, n, closed=None, avg=None):
    from mt_metadata.common.band import Band
    lo = ctx.real(n + ".lo", 0.0001, 1000000)
    hi = ctx.real(n + ".hi", 0.0001, 1000000)
    ctx.assume(lo < hi)
    c = closed or ctx.choice(n + ".closed", CLOSED)
    k = {"frequency_min": lo, "frequency_max": hi, "closed": c}
    if avg:
        k["center_averaging_type"] = avg
    return Band(**k), lo, hi, c


def member(x, lo, hi, c):
    a = x >= lo if c in ("left", "both") else x > lo
    b = x <= hi if c in ("right", "both") else x < hi
    return a & b


def one(ctx, avg):
    """edges, width, centre"""
    b, lo, hi, c = band(ctx, "b", avg=avg)
    ctx.check(b.lower_bound == lo, "lower bound")
    ctx.check(b.upper_bound == hi, "upper bound")
    ctx.check(b.width == hi - lo, "width")
    ctx.check(b.lower_closed == (c in ("left", "both")), "lower end closed")
    ctx.check(b.upper_closed == (c in ("right", "both")), "upper end closed")
    x = ctx.real("x", 0, 2000000)
    ctx.check((x in b.to_interval()) == member(x, lo, hi, c), "membership of a point")
    m = b.center_frequency
    ctx.check((m >= lo * (1 - 1e-12)) & (m <= hi * (1 + 1e-12)), "the centre lies in the band")
    if avg == "geometric":
        ctx.close(m * m, lo * hi, "geometric centre")
    else:
        ctx.close(m, (lo + hi) / 2, "arithmetic centre")
    ctx.close(b.center_period * m, 1, "centre period")
    ctx.close(b.fractional_bandwidth * m, hi - lo, "fractional bandwidth")
    ctx.close(b.Q * b.fractional_bandwidth, 1, "quality factor")


def moved(ctx):
    """a band whose edges are assigned later"""
    from mt_metadata.common.band import Band
    b, lo, hi, c = band(ctx, "b")
    lo2, hi2 = ctx.real("lo2", 0.0001, 1000000), ctx.real("hi2", 0.0001, 1000000)
    ctx.assume(lo2 < hi2)
    c2 = ctx.choice("c2", CLOSED)
    a2 = ctx.choice("a2", ["geometric", "arithmetic"])
    b.frequency_min, b.frequency_max, b.closed, b.center_averaging_type = lo2, hi2, c2, a2
    x = ctx.real("x", 0, 2000000)
    ctx.check((x in b.to_interval()) == member(x, lo2, hi2, c2), "membership of a point")
    ctx.check(b.width == hi2 - lo2, "width")
    m = b.center_frequency
    if a2 == "geometric":
        ctx.close(m * m, lo2 * hi2, "geometric centre")
    else:
        ctx.close(m, (lo2 + hi2) / 2, "arithmetic centre")


def zero(ctx):
    """a band of no width"""
    from mt_metadata.common.band import Band
    f = ctx.real("f", 0.0001, 1000000)
    b = Band(frequency_min=f, frequency_max=f, closed="both", center_averaging_type=ctx.choice("avg", ["arithmetic", "geometric"]))
    ctx.check(b.width == 0, "no width")
    ctx.close(b.center_frequency, f, "centre")
    ctx.check(b.fractional_bandwidth == 0, "no bandwidth")
    ctx.check(b.Q == float("inf"), "infinite quality")


def pair(ctx, ca, cb):
    """overlap and containment agree with the points"""
    a, alo, ahi, _ = band(ctx, "a", ca)
    b, blo, bhi, _ = band(ctx, "b", cb)
    x = ctx.real("x", 0, 2000000)
    ina, inb = x in a.to_interval(), x in b.to_interval()
    o = a.overlaps(b)
    ctx.check(o == b.overlaps(a), "overlap is symmetric")
    if ina and inb:
        ctx.check(o, "a common point means overlap")
    if o:
        lo = alo if alo >= blo else blo
        hi = ahi if ahi <= bhi else bhi
        m = (lo + hi) / 2
        ctx.check(m in a.to_interval(), "overlap means a common point (in the first)")
        ctx.check(m in b.to_interval(), "overlap means a common point (in the second)")
    k = a.contains(b)
    if k and inb:
        ctx.check(ina, "a band contains the points of a band it contains")
    want = ((alo < blo) | ((alo == blo) & (ca != "right" or cb == "right"))) & \
        ((bhi < ahi) | ((bhi == ahi) & (ca != "left" or cb == "left")))
    ctx.check(k == want, "containment is that of the points")
    ctx.check(a.contains(a), "a band contains itself")
    if k:
        ctx.check(o, "a contained band overlaps")


def grid(ctx, n, order):
    """exactly the harmonics in the band"""
    b, lo, hi, c = band(ctx, "b")
    f = [ctx.real(f"f{i}", 0, 2000000) for i in range(n)]
    if order:
        for i in range(n - 1):
            ctx.assume(f[i] < f[i + 1])
    fs = np.array(f, dtype=float)
    got = b._indices_from_frequencies(fs)
    want = [i for i in range(n) if member(f[i], lo, hi, c)]
    ctx.check([int(i) for i in got] == want, "indices of the frequencies in the band")
    h = b.in_band_harmonics(fs)
    ctx.check(len(h) == len(want), "number of frequencies in the band")
    for j, i in enumerate(want):
        ctx.check(h[j] == f[i], "frequencies in the band")
    if order and want:
        b.set_indices_from_frequencies(fs)
        ctx.check(b.index_min == want[0], "first index")
        ctx.check(b.index_max == want[-1], "last index")
        ctx.check([int(i) for i in b.harmonic_indices] == want, "harmonic indices")


def instances(tier):
    out = [(f"pair:{a}:{b}", pair, {"ca": a, "cb": b}) for a in CLOSED for b in CLOSED]
    out += [(f"one:{a}", one, {"avg": a}) for a in ("geometric", "arithmetic")]
    out += [("moved", moved, {}), ("zero", zero, {})]
    out += [(f"grid:{n}:{'sorted' if o else 'any'}", grid, {"n": n, "order": o}) for n in range(0, 5 if tier == "quick" else 7) for o in (False, True)]
    return out
