"""C15 tabulated responses pass through their table"""
import numpy as np

from checks import gen

PROPERTY = "C15"
IMPORTS = ["mt_metadata.timeseries.filters", "checks.gen"]
OPTS = {"budget_s": 150, "timeout_ms": 10000}
ASSUMPTIONS = ["scipy.interpolate.interp1d is modelled by its contract for straight lines: sorts the table, extrapolates the end segments",
               "exact arithmetic; cos and sin are uninterpreted with their identities, decided by replay"]
TABLE = [0.5, 2.0, 16.0, 64.0]


def BOUNDS(tier):
    return ("tables of 2 to %d points with any amplitudes and phases (any frequencies where the request is a table point; fixed frequencies 0.5, 2, 16, 64 in every order otherwise), "
            "up to 3 requested frequencies in any order, as array, list or one number; gain any real" % (3 if tier == "quick" else 4))


def table(ctx, n, where, unit="radians"):
    if where == "any":
        f = [ctx.real(f"x{i}", 0.0001, 10000) for i in range(n)]
        for i in range(n):
            for j in range(i):
                ctx.assume(f[i] != f[j])
    else:
        f = ctx.perm("order", TABLE[:n])
    a = [ctx.real(f"a{i}", 0, 1000) for i in range(n)]
    if unit == "radians":
        p = [ctx.real(f"p{i}", -18, 18) for i in range(n)]
    elif unit == "degrees":
        p = [ctx.real(f"p{i}", -360, 360) for i in range(n)]
        e = ctx.choice("evident", list(range(n)))
        ctx.assume((p[e] > 19) | (p[e] < -19))
    else:
        p = [ctx.real(f"p{i}", -6000, 6000) for i in range(n)]
        ctx.assume(p[ctx.choice("evident", list(range(n)))] > 1571)
    return f, a, p


def made(ctx, f, a, p, g, form="array"):
    from mt_metadata.timeseries.filters import FrequencyResponseTableFilter
    c = {"array": np.array, "list": list, "tuple": tuple}[form]
    t = FrequencyResponseTableFilter(name="t", units_in="volt", units_out="millivolt", frequencies=c(f), amplitudes=c(a), phases=c(p), gain=g)
    return t


def as_table(ctx, t, f, a, p):
    ctx.check(len(t.frequencies) == len(f), "number of frequencies")
    ctx.check(len(t.amplitudes) == len(a), "number of amplitudes")
    ctx.check(len(t.phases) == len(p), "number of phases")
    for i in range(len(f)):
        ctx.check(t.frequencies[i] == f[i], "frequency of the table")
        ctx.check(t.amplitudes[i] == a[i], "amplitude of the table")
        ctx.close(t.phases[i], p[i], "phase of the table", rtol=1e-9, atol=1e-12)
    lo = hi = f[0]
    for x in f:
        lo, hi = min(lo, x), max(hi, x)
    ctx.check(t.min_frequency == lo, "lowest frequency")
    ctx.check(t.max_frequency == hi, "highest frequency")


def is_response(ctx, h, amp, phase, label):
    ctx.close(h.real, amp * np.cos(phase), "real part " + label, rtol=1e-6, atol=1e-6)
    ctx.close(h.imag, amp * np.sin(phase), "imaginary part " + label, rtol=1e-6, atol=1e-6)


def same_value(ctx, h, r, label):
    ctx.close(h.real, r.real, "real part " + label, rtol=1e-6, atol=1e-6)
    ctx.close(h.imag, r.imag, "imaginary part " + label, rtol=1e-6, atol=1e-6)


def at_points(ctx, n, where, form):
    f, a, p = table(ctx, n, where)
    g = ctx.real("gain", -1000, 1000)
    t = made(ctx, f, a, p, g, ctx.choice("as", ["array", "list", "tuple"]) if form == "array" else "array")
    before = t.copy()
    as_table(ctx, t, f, a, p)
    order = ctx.perm("asked", list(range(n))) if n < 4 else ctx.choice("asked", [[0, 1, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1]])
    if form == "number":
        order = order[:1]
        h = t.complex_response(f[order[0]])
        h = [h if np.ndim(h) == 0 else h[0]]
    else:
        q = [f[i] for i in order]
        h = t.complex_response(np.array(q) if form == "array" else q)
    ctx.check(len(h) == len(order), "a value for every frequency asked")
    for k, i in enumerate(order):
        is_response(ctx, h[k], a[i] * g, p[i], "at a table point")
    ctx.check(gen.same(t, before), "evaluating leaves the filter alone")


def units(ctx, n, unit):
    f, a, p = table(ctx, n, "fixed", unit)
    t = made(ctx, f, a, p, 2.0)
    r = [x * (np.pi / 180) if unit == "degrees" else x / 1000 for x in p]
    as_table(ctx, t, f, a, r)
    i = ctx.choice("point", list(range(n)))
    h = t.complex_response(np.array([f[i]]))[0]
    is_response(ctx, h, a[i] * 2.0, t.phases[i], "at a table point")
    # the unit is found again when the table is assigned
    t2 = made(ctx, f, a, [0.0] * n, 2.0)
    t2.phases = p
    as_table(ctx, t2, f, a, r)


def line(x, y, q):
    """the straight line through the neighbouring points, the end segments continued"""
    o = sorted(range(len(x)), key=lambda i: x[i])
    k = 0
    while k < len(o) - 2 and q > x[o[k + 1]]:
        k += 1
    i, j = o[k], o[k + 1]
    return y[i] + (y[j] - y[i]) * ((q - x[i]) / (x[j] - x[i]))


def between(ctx, n, zone):
    """straight lines between points; the values asked together do not influence each other"""
    f, a, p = table(ctx, n, "fixed")
    g = ctx.real("gain", -1000, 1000)
    t = made(ctx, f, a, p, g)
    grid = {"inside": [0.5, 1.0, 1.25, 2.0, 9.0][: 3 + (n > 2) * 2], "outside": [0.25, 0.0, 100.0]}[zone]
    q = ctx.choice("q", grid)
    other = ctx.choice("other", [0.125, 1.0, 2.0, 200.0])
    h = t.complex_response(np.array([q, other]))
    r = t.complex_response(np.array([other, q]))
    alone = t.complex_response(np.array([q]))
    ctx.check((len(h) == 2) & (len(r) == 2) & (len(alone) == 1), "a value for every frequency asked")
    amp, ph = line(f, a, q) * g, line(f, p, q)
    is_response(ctx, h[0], amp, ph, "between or beyond points")
    same_value(ctx, r[1], h[0], "asked in another order")
    same_value(ctx, alone[0], h[0], "asked alone")


def any_between(ctx, n):
    """at any frequency between two points, with one segment varying at a time"""
    f = ctx.perm("order", TABLE[:n])
    k = ctx.choice("varies", ["amplitude", "phase"])
    a = [ctx.real(f"a{i}", 0, 1000) if k == "amplitude" and i == 0 else 3.0 + i for i in range(n)]
    p = [0.25 * i if k == "phase" else 1.0 for i in range(n)]
    q = ctx.real("q", 0.0, 200)
    t = made(ctx, f, a, p, 5.0)
    h = t.complex_response(np.array([q]))[0]
    is_response(ctx, h, line(f, a, q) * 5.0, line(f, p, q), "between or beyond points")


def lengths(ctx):
    """a table whose columns differ in length is refused when evaluated"""
    short = ctx.choice("short", ["frequencies", "amplitudes", "phases"])
    v = {"frequencies": [1.0, 2.0, 3.0], "amplitudes": [ctx.real(f"a{i}", 0, 10) for i in range(3)], "phases": [0.1, 0.2, 0.3]}
    v[short] = v[short][:2]
    try:
        t = made(ctx, v["frequencies"], v["amplitudes"], v["phases"], 1.0)
        t.complex_response(np.array([1.5]))
    except ValueError:
        ctx.reach("refused")
        return
    ctx.fail("columns of different length are refused")


def instances(tier):
    N = 3 if tier == "quick" else 4
    out = [(f"points:{n}:{w}:{fm}", at_points, {"n": n, "where": w, "form": fm}) for n in range(N, 1, -1) for w in ("any", "fixed") for fm in ("array", "list", "number")]
    out += [(f"units:{n}:{u}", units, {"n": n, "unit": u}) for n in (3, 2) for u in ("degrees", "milliradians")]
    out += [(f"between:{n}:{z}", between, {"n": n, "zone": z}) for n in range(N, 1, -1) for z in ("inside", "outside")]
    out += [(f"anywhere:{n}", any_between, {"n": n}) for n in range(N, 1, -1)]
    out += [("lengths", lengths, {})]
    return out
