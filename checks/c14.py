"""C14 analytic filter responses follow their formulas"""
import numpy as np

from checks import gen

PROPERTY = "C14"
IMPORTS = ["mt_metadata.timeseries.filters", "checks.gen"]
OPTS = {"budget_s": 120, "timeout_ms": 10000}
ASSUMPTIONS = ["scipy.signal.freqs_zpk is modelled by its contract, k prod(s-z)/prod(s-p) with s = i times the angular frequency it is given",
               "exact arithmetic; cos and sin are uninterpreted with their identities, decided by replay"]


def BOUNDS(tier):
    return ("every real frequency and gain, every set of up to %d poles and zeros in the complex plane, up to 2 frequencies at a time "
            "(arrays, lists, one number)" % (2 if tier == "quick" else 3))


TWO_PI = 2 * np.pi


def filt(kind, **k):
    from mt_metadata.timeseries import filters as F
    return getattr(F, kind)(name="f", units_in="volt", units_out="millivolt", **k)


def unchanged(ctx, f, before):
    ctx.check(gen.same(f, before), "evaluating leaves the filter alone")


def away(ctx, f, roots):
    """i2πf is not one of the poles"""
    for p in roots:
        ctx.assume((p.real * p.real + (TWO_PI * f - p.imag) * (TWO_PI * f - p.imag)) > 0.01)


def expect(f, zeros, poles, k):
    """numerator and denominator of the response"""
    s = complex(0, 1) * (TWO_PI * f)
    num, den = complex(1, 0), complex(1, 0)
    for z in zeros:
        num = num * (s - z)
    for p in poles:
        den = den * (s - p)
    return num * k, den


def given(ctx, n, tag, form="free"):
    if form == "real":
        return [ctx.real(f"{tag}{i}", -100, 100) + 0j for i in range(n)]
    if form == "pairs":
        out = []
        for i in range(n // 2):
            z = ctx.complex(f"{tag}{i}", lo=-100, hi=100)
            out += [z, z.conjugate()]
        return out + [ctx.real(f"{tag}r", -100, 100) + 0j for i in range(n % 2)]
    return [ctx.complex(f"{tag}{i}", lo=-100, hi=100) for i in range(n)]


def zpk(ctx, nz, np_, m):
    zeros, poles = given(ctx, nz, "z"), given(ctx, np_, "p")
    g, a0 = ctx.real("gain", -1000, 1000), ctx.real("norm", -1000, 1000)
    f = [ctx.real(f"f{i}", -1000, 1000) for i in range(m)]
    for x in f:
        away(ctx, x, poles)
    flt = filt("PoleZeroFilter", zeros=zeros, poles=poles, gain=g, normalization_factor=a0)
    before = flt.copy()
    ctx.check(flt.n_poles == np_, "number of poles")
    ctx.check(flt.n_zeros == nz, "number of zeros")
    ctx.check(flt.total_gain == g * a0, "total gain")
    form = ctx.choice("form", ["array", "list"])
    h = flt.complex_response(np.array(f) if form == "array" else list(f))
    ctx.check(len(h) == m, "a value for every frequency")
    for i in range(m):
        num, den = expect(f[i], zeros, poles, g * a0)
        ctx.close(h[i] * den, num, "response at the frequency", rtol=1e-6, atol=1e-6)
    unchanged(ctx, flt, before)


def assigned(ctx):
    """the response follows later changes of the filter"""
    flt = filt("PoleZeroFilter", zeros=[1 + 0j], poles=[-1 + 1j], gain=2.0, normalization_factor=3.0)
    f = ctx.real("f", -100, 100)
    what = ctx.choice("what", ["gain", "normalization_factor", "zeros", "poles"])
    z, p, g, a0 = [1 + 0j], [-1 + 1j], 2.0, 3.0
    flt.complex_response(np.array([f]))
    if what == "zeros":
        z = given(ctx, 1, "z")
        flt.zeros = z
    elif what == "poles":
        p = given(ctx, 1, "p")
        flt.poles = p
    elif what == "gain":
        g = ctx.real("g", -1000, 1000)
        flt.gain = g
    else:
        a0 = ctx.real("n", -1000, 1000)
        flt.normalization_factor = a0
    away(ctx, f, p)
    num, den = expect(f, z, p, g * a0)
    ctx.close(flt.complex_response(np.array([f]))[0] * den, num, "response after a change", rtol=1e-6, atol=1e-6)


def conj(ctx, nz, np_, form):
    zeros, poles = given(ctx, nz, "z", form), given(ctx, np_, "p", form)
    f = ctx.real("f", 0.001, 1000)
    away(ctx, f, poles)
    flt = filt("PoleZeroFilter", zeros=zeros, poles=poles, gain=ctx.real("gain", -1000, 1000), normalization_factor=2.0)
    a = flt.complex_response(np.array([f]))[0]
    b = flt.complex_response(np.array([-f]))[0]
    num, den = expect(f, zeros, poles, flt.gain * 2.0)
    # both against the formula: the conjugate of the response times the conjugate of the denominator
    ctx.close(a * den, num, "response at the positive frequency", rtol=1e-6, atol=1e-6)
    ctx.close(b * den.conjugate(), num.conjugate(), "response at the negative frequency is the conjugate", rtol=1e-6, atol=1e-6)


def coefficient(ctx, form):
    g = ctx.real("gain", -100000, 100000)
    flt = filt("CoefficientFilter", gain=g)
    before = flt.copy()
    f = [ctx.real(f"f{i}", -1000, 1000) for i in range(2)]
    arg = np.array(f) if form == "array" else f if form == "list" else tuple(f) if form == "tuple" else f[0]
    h = flt.complex_response(arg)
    ctx.check(len(h) == (1 if form == "number" else 2), "a value for every frequency")
    for x in h:
        ctx.check(x == g, "the gain at every frequency")
    ctx.check(flt.total_gain == g, "total gain")
    unchanged(ctx, flt, before)
    g2 = ctx.real("g2", -1000, 1000)
    flt.gain = g2
    ctx.check(flt.complex_response(np.array(f))[1] == g2, "the gain after a change")


def delay(ctx, form):
    d = ctx.real("delay", -100, 100)
    flt = filt("TimeDelayFilter", delay=d)
    before = flt.copy()
    f = [ctx.real(f"f{i}", -1000, 1000) for i in range(2)]
    h = flt.complex_response(np.array(f) if form == "array" else f[0])
    ctx.check(len(h) == (1 if form == "number" else 2), "a value for every frequency")
    for i, x in enumerate(h):
        ctx.close(x.real * x.real + x.imag * x.imag, 1, "unit modulus")
        a = TWO_PI * f[i] * d
        ctx.close(x.real, np.cos(a), "cosine of the phase")
        ctx.close(x.imag, -np.sin(a), "sine of the phase")
    y = flt.complex_response(np.array([-f[0]]))[0]
    ctx.close(y, h[0].conjugate(), "conjugate at the negative frequency")
    unchanged(ctx, flt, before)


def zero_frequency(ctx):
    d = ctx.real("delay", -100, 100)
    h = filt("TimeDelayFilter", delay=d).complex_response(np.array([0.0]))
    ctx.close(h[0], 1, "no phase at zero frequency")
    f = ctx.real("f", -100, 100)
    h = filt("TimeDelayFilter", delay=0.0).complex_response(np.array([f]))
    ctx.close(h[0], 1, "no phase without a delay")


def instances(tier):
    N = 2 if tier == "quick" else 3
    out = [(f"zpk:{a}:{b}:{m}", zpk, {"nz": a, "np_": b, "m": m}) for a in range(N, -1, -1) for b in range(N, -1, -1) for m in (1, 2)
           if not (m == 2 and a + b > 2)]
    out += [(f"conj:{a}:{b}:{f}", conj, {"nz": a, "np_": b, "form": f}) for a in range(N, -1, -1) for b in range(N, -1, -1) for f in ("real", "pairs")]
    out += [("assigned", assigned, {}), ("zero", zero_frequency, {})]
    out += [(f"coefficient:{f}", coefficient, {"form": f}) for f in ("array", "list", "tuple", "number")]
    out += [(f"delay:{f}", delay, {"form": f}) for f in ("array", "number")]
    return out
