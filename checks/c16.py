"""C16 FIR filters honour symmetry, gain and delay"""
import numpy as np

from checks import gen

PROPERTY = "C16"
IMPORTS = ["mt_metadata.timeseries.filters", "checks.gen"]
OPTS = {"budget_s": 150, "timeout_ms": 10000}
ASSUMPTIONS = ["scipy.signal.freqz is modelled by its contract, the sum of b[k] exp(-i k 2 pi worN / fs)",
               "exact arithmetic; cos and sin are uninterpreted with their identities, decided by replay",
               "the declared delay correction of a FIR filter is kept by the StationXML stage, not by the filter, so it takes no part"]
TWO_PI = 2 * np.pi


def BOUNDS(tier):
    return ("1 to %d coefficients of any value, every symmetry, any gain other than zero, any sampling rate and decimation factor, gain frequency zero or fixed, "
            "up to 2 frequencies at a time" % (3 if tier == "quick" else 5))


def fir(coef, sym, **k):
    from mt_metadata.timeseries.filters import FIRFilter
    return FIRFilter(name="f", units_in="volt", units_out="millivolt", coefficients=coef, symmetry=sym, **k)


def mirrored(c, sym):
    if sym == "EVEN":
        return c + c[::-1]
    if sym == "ODD":
        return c + c[:-1][::-1]
    return list(c)


def coefs(ctx, n):
    return [ctx.real(f"c{i}", -100, 100) for i in range(n)]


def taps(ctx, n, sym):
    c = coefs(ctx, n)
    how = ctx.choice("as", ["list", "array", "tuple", "later"])
    if how == "later":
        f = fir([1.0], "NONE")
        f.coefficients = c
        f.symmetry = sym
    else:
        f = fir({"list": list, "array": np.array, "tuple": tuple}[how](c), sym)
    before = f.copy()
    ctx.check(f.n_coefficients == n, "number of coefficients")
    ctx.check(f.symmetry == sym, "symmetry")
    t = f.symmetry_corrected_coefficients
    e = mirrored(c, sym)
    ctx.check(len(t) == len(e), "number of taps")
    for i in range(n):
        ctx.check(t[i] == c[i], "the taps begin with the coefficients")
    if len(t) == len(e):
        for i in range(n, len(e)):
            ctx.check(t[i] == e[i], "the taps are mirrored")
            if sym == "ODD":
                # the recorded finding mirrors all but the first coefficient: anything else is another violation
                ctx.check((t[i] == e[i]) | (t[i] == c[n - 1 - (i - n)]), "the taps are mirrored one way or the other")
    s = 0
    for x in t:
        s = s + x
    ctx.close(f.coefficient_gain, s, "gain of the taps at zero frequency")
    for i in range(n):
        ctx.check(f.coefficients[i] == c[i], "the coefficients stay")
    ctx.check(gen.same(f, before), "asking leaves the filter alone")


def text(ctx, n):
    """coefficients given as text"""
    c = [ctx.int(f"c{i}", -99, 99) for i in range(n)]
    f = fir(",".join([str(x) for x in c]), "NONE")
    ctx.check(f.n_coefficients == n, "number of coefficients")
    for i in range(n):
        ctx.check(f.coefficients[i] == c[i], "coefficient read from text")


def total(t, f, rate):
    """sum of taps times exp(-i 2 pi f k / rate)"""
    re, im = t[0], 0.0
    for k in range(1, len(t)):
        a = TWO_PI * f / rate * k
        re = re + t[k] * np.cos(a)
        im = im - t[k] * np.sin(a)
    return re, im


def response(ctx, n, sym, m, ref):
    # with the reference gain away from zero frequency one tap varies
    c = coefs(ctx, n) if ref == "zero" else [ctx.real("c0", 1, 100)] + [1.0 + i for i in range(1, n)]
    g = ctx.real("gain", -1000, 1000)
    ctx.assume((g > 0.01) | (g < -0.01))
    rate = ctx.real("rate", 0.01, 10000) if ref == "zero" else 16.0
    f = fir(c, sym, gain=g, decimation_input_sample_rate=rate, gain_frequency=0.0 if ref == "zero" else 4.0)
    t = list(f.symmetry_corrected_coefficients)
    if ref == "zero":
        cg = 0
        for x in t:
            cg = cg + x
        ctx.assume((cg > 0.01) | (cg < -0.01))
    else:
        re, im = total(t, 4.0, 16.0)
        cg = np.sqrt(re * re + im * im)
        ctx.assume(cg > 0.01)
    before = f.copy()
    q = [ctx.real(f"f{i}", -1000, 1000) if ref == "zero" else ctx.choice(f"f{i}", [0.0, 1.0, 4.0, -3.0]) for i in range(m)]
    h = f.complex_response(np.array(q))
    ctx.check(len(h) == m, "a value for every frequency")
    for i in range(m):
        re, im = total(t, q[i], rate)
        # scaled so that the declared gain is the gain at the reference frequency
        ctx.close(h[i].real * cg, g * re, "real part of the response", rtol=1e-6, atol=1e-6)
        ctx.close(h[i].imag * cg, g * im, "imaginary part of the response", rtol=1e-6, atol=1e-6)
    u = f.unscaled_complex_response(np.array(q))
    for i in range(m):
        re, im = total(t, q[i], rate)
        ctx.close(u[i].real, re, "real part of the response of the taps alone", rtol=1e-6, atol=1e-6)
        ctx.close(u[i].imag, im, "imaginary part of the response of the taps alone", rtol=1e-6, atol=1e-6)
    ctx.check(gen.same(f, before), "evaluating leaves the filter alone")


def linear(ctx, n, sym):
    """twice the gain, twice the response"""
    c = coefs(ctx, n)
    g, k = ctx.real("gain", 0.5, 1000), ctx.choice("k", [2.0, -3.0, 0.25])
    q = ctx.real("f", 0, 100)
    a = fir(c, sym, gain=g, decimation_input_sample_rate=32.0)
    b = fir(c, sym, gain=g * k, decimation_input_sample_rate=32.0)
    cg = a.coefficient_gain
    ctx.assume((cg > 0.01) | (cg < -0.01))
    x, y = a.complex_response(np.array([q]))[0], b.complex_response(np.array([q]))[0]
    ctx.close(y.real, k * x.real, "linear in the gain", rtol=1e-6, atol=1e-6)
    ctx.close(y.imag, k * x.imag, "linear in the gain", rtol=1e-6, atol=1e-6)
    a.gain = g * k
    z = a.complex_response(np.array([q]))[0]
    ctx.close(z.real, y.real, "the gain assigned later", rtol=1e-6, atol=1e-6)
    ctx.close(z.imag, y.imag, "the gain assigned later", rtol=1e-6, atol=1e-6)


def decimation(ctx):
    r, d = ctx.real("rate", 0.01, 100000), ctx.real("factor", 0.5, 100)
    f = fir([1.0, 0.5], "NONE", decimation_input_sample_rate=r, decimation_factor=d)
    ctx.close(f.output_sampling_rate * d, r, "sampling rate after decimation")
    ctx.check(f.decimation_active == (d != 1), "a factor other than one decimates")
    ctx.check(f.decimation_input_sample_rate == r, "sampling rate of the taps")
    d2 = ctx.real("factor2", 0.5, 100)
    f.decimation_factor = d2
    ctx.close(f.output_sampling_rate * d2, r, "sampling rate after another factor")


def instances(tier):
    N = 3 if tier == "quick" else 5
    out = [(f"response:{s}:{n}:{m}:{r}", response, {"n": n, "sym": s, "m": m, "ref": r}) for s in ("EVEN", "ODD", "NONE") for n in range(N, 0, -1)
           for m in (2, 1) for r in ("zero", "fixed") if not (m == 2 and n > 2) and not (n > 2 and s == "EVEN" and r == "zero")]
    out += [(f"linear:{s}:{n}", linear, {"n": n, "sym": s}) for s in ("EVEN", "ODD", "NONE") for n in range(N, 0, -1)]
    out += [(f"taps:{s}:{n}", taps, {"n": n, "sym": s}) for s in ("EVEN", "ODD", "NONE") for n in range(N, 0, -1)]
    out += [("decimation", decimation, {})] + [(f"text:{n}", text, {"n": n}) for n in (3, 2)]
    return out
