"""C17 channel responses are the product of their filters"""
import numpy as np

from checks import gen

PROPERTY = "C17"
IMPORTS = ["mt_metadata.timeseries.filters", "mt_metadata.timeseries.filters.channel_response", "checks.gen"]
OPTS = {"budget_s": 150, "timeout_ms": 10000}
ASSUMPTIONS = ["the responses of the single filters are those of C14 to C16; poles and zeros, tables and taps are fixed here, gains and delays are free",
               "exact arithmetic; cos and sin are uninterpreted with their identities, decided by replay"]
UNITS = ["millivolt", "volt", "milliampere", "digital counts", "nanotesla"]
KINDS = ["coefficient", "zpk", "fap", "fir", "delay"]


def BOUNDS(tier):
    return ("chains of 0 to %d filters of every kind in every order, any gains and delays, every choice of decimation and delay, every sub-list of the chain, "
            "up to 2 frequencies" % (3 if tier == "quick" else 4))


def one(ctx, kind, i, uin, uout, deci=False):
    from mt_metadata.timeseries import filters as F
    g = ctx.real(f"g{i}", -100, 100)
    ctx.assume((g > 0.01) | (g < -0.01))
    k = dict(name=f"{kind}_{i}", units_in=uin, units_out=uout)
    if kind == "coefficient":
        return F.CoefficientFilter(gain=g, **k)
    if kind == "zpk":
        return F.PoleZeroFilter(gain=g, zeros=[0 + 0j], poles=[-1 + 1j, -1 - 1j], normalization_factor=2.0, **k)
    if kind == "fap":
        return F.FrequencyResponseTableFilter(gain=g, frequencies=[0.5, 4.0], amplitudes=[1.0, 3.0], phases=[0.25, -0.5], **k)
    if kind == "fir":
        return F.FIRFilter(gain=g, coefficients=[0.25, 0.5], symmetry="NONE", decimation_input_sample_rate=32.0, decimation_factor=4.0 if deci else 1.0, **k)
    return F.TimeDelayFilter(delay=ctx.real(f"d{i}", -10, 10), **k)


def chain(ctx, kinds, deci=False):
    return [one(ctx, k, i, UNITS[i], UNITS[i + 1], deci) for i, k in enumerate(kinds)]


def response(fs, **k):
    from mt_metadata.timeseries.filters import ChannelResponse
    return ChannelResponse(name="r", filters_list=fs, **k)


def product(fs, q):
    """the product of the responses at every frequency"""
    out = [complex(1, 0) for x in q]
    for f in fs:
        h = f.complex_response(np.array(q))
        for i in range(len(q)):
            out[i] = out[i] * h[i]
    return out


def frequencies(ctx, kinds, m):
    """a free frequency where the product stays simple, a fixed one otherwise"""
    if "zpk" in kinds or "fap" in kinds or "fir" in kinds or len(kinds) > 2:
        return [2.0, 0.75][:m]
    return [ctx.real(f"f{i}", 0.001, 1000) for i in range(m)]


def agree(ctx, h, e, label):
    ctx.check(len(h) == len(e), "a value for every frequency")
    for i in range(len(e)):
        ctx.close(h[i], e[i], label, rtol=1e-6, atol=1e-6)


ASKED = [(False, True, "given"), (True, False, "stored"), (None, None, "given"), (True, True, "list"), (False, False, "stored"), (True, None, "given")]


def total(ctx, kinds, deci):
    fs = chain(ctx, kinds, deci)
    m = 1 if len(kinds) > 2 else 2
    # without a normalization frequency the pass band (an estimate by rounding) is looked for: only with one frequency here
    r = response(fs, normalization_frequency=1.0) if m > 1 else response(fs)
    before = r.copy()
    q = frequencies(ctx, kinds, m)
    delay, dec, how = ctx.choice("asked", ASKED if len(kinds) < 3 else ASKED[:4])
    k = {}
    if delay is not None:
        k["include_delay"] = delay
    if dec is not None:
        k["include_decimation"] = dec
    used = [f for f, kd in zip(fs, kinds) if (kd != "delay" or delay) and (not (kd == "fir" and deci) or dec)]
    if how == "stored":
        r.frequencies = np.array(q)
        h = r.complex_response(**k)
    else:
        h = r.complex_response(np.array(q) if how == "given" else list(q), **k)
    agree(ctx, h, product(used, q), "product of the responses")
    for i in range(len(q)):
        ctx.check(r.frequencies[i] == q[i], "frequencies asked for")
    # asking again gives the same, and the filters are as they were
    again = r.complex_response(np.array(q), **k)
    agree(ctx, again, [h[i] for i in range(len(h))], "asked again")
    ctx.check(len(r.filters_list) == len(fs), "number of filters")
    for a, b in zip(r.filters_list, before.filters_list):
        ctx.check(gen.same(a, b), "the filters are left alone")


def summary(ctx, kinds, deci):
    fs = chain(ctx, kinds, deci)
    r = response(fs)
    n = len(kinds)
    ctx.check(r.names == [f.name for f in fs], "names of the filters in order")
    if n:
        ctx.check(r.units_in == fs[0].units_in, "units into the chain")
        ctx.check(r.units_out == fs[-1].units_out, "units out of the chain")
        ctx.check(r.units_in.lower() == UNITS_LONG[0], "units into the first filter")
        ctx.check(r.units_out.lower() == UNITS_LONG[n], "units out of the last filter")
    t = 0
    for f, k in zip(fs, kinds):
        if k == "delay":
            t = t + f.delay
    ctx.close(r.total_delay, t, "total delay")
    ctx.check([f.name for f in r.delay_filters] == [f.name for f, k in zip(fs, kinds) if k == "delay"], "delays of the chain")
    ctx.check([f.name for f in r.non_delay_filters] == [f.name for f, k in zip(fs, kinds) if k != "delay"], "filters other than delays")
    for d in (False, True):
        for e in (False, True):
            keep = [i for i, k in enumerate(kinds) if (k != "delay" or d) and (not (k == "fir" and deci) or e)]
            ctx.check([f.name for f in r.get_list_of_filters_to_remove(include_decimation=e, include_delay=d)] == [fs[i].name for i in keep], "filters that take part")
            ctx.check([int(i) for i in r.get_indices_of_filters_to_remove(include_decimation=e, include_delay=d)] == keep, "places of the filters that take part")


UNITS_LONG = ["millivolt", "volt", "milliampere", "digital counts", "nanotesla"]


def gain(ctx, kinds):
    """the total gain is the product of the gains, to the digits asked for"""
    from mt_metadata.timeseries import filters as F
    gs = [ctx.choice(f"g{i}", [0.5, -2.0, 1000.0, 0.001, 3.0]) for i in range(len(kinds))]
    fs = []
    for i, k in enumerate(kinds):
        c = {"coefficient": F.CoefficientFilter, "zpk": F.PoleZeroFilter}[k]
        fs.append(c(name=f"f{i}", units_in=UNITS[i], units_out=UNITS[i + 1], gain=gs[i]))
    r = response(fs)
    p = 1.0
    for g in gs:
        p = p * g
    ctx.close(r.compute_total_gain(), p, "total gain", rtol=1e-9, atol=1e-12)
    s = r.compute_instrument_sensitivity(1.0)
    ctx.close(s, abs(p), "sensitivity", rtol=1e-5, atol=1e-12)


def sublist(ctx, kinds):
    """restricting to some members uses exactly those, also delays and decimating ones that are named"""
    fs = chain(ctx, kinds, True)
    r = response(fs)
    q = frequencies(ctx, kinds, 1)
    keep = [i for i in range(len(kinds)) if ctx.choice(f"keep{i}", [True, False])]
    if ctx.choice("reversed", [False, True]):
        keep = keep[::-1]
    used = [r.filters_list[i] for i in keep]
    h = r.complex_response(np.array(q), filters_list=used)
    agree(ctx, h, product(used, q), "product of the members chosen")
    ctx.check(len(r.filters_list) == len(kinds), "the chain stays")
    ctx.check(len(used) == len(keep), "the list given stays")


def order(ctx, kinds):
    """the order of the filters does not matter"""
    fs = [one(ctx, k, i, "volt", "volt", True) for i, k in enumerate(kinds)]
    q = frequencies(ctx, kinds, 1)
    o = ctx.perm("order", list(range(len(kinds))))
    a = response(fs).complex_response(np.array(q), include_delay=True, include_decimation=True)
    b = response([fs[i] for i in o]).complex_response(np.array(q), include_delay=True, include_decimation=True)
    agree(ctx, b, [a[0]], "in any order")


def normalized(ctx):
    g = ctx.real("g", -100, 100)
    ctx.assume((g > 0.5) | (g < -0.5))
    from mt_metadata.timeseries import filters as F
    r = response([F.CoefficientFilter(name="a", units_in="volt", units_out="millivolt", gain=g)])
    h = r.complex_response(np.array([1.0, 2.0]), normalize=True)
    for x in h:
        ctx.close(x.real * x.real, 1, "largest amplitude is one")
        ctx.check((x.real > 0) == (g > 0), "the sign stays")


def mismatch(ctx, n):
    """neighbours whose units do not match are refused"""
    units = [(UNITS[i], UNITS[i + 1]) for i in range(n)]
    at = ctx.choice("at", list(range(1, n)))
    wrong = ctx.choice("wrong", ["meter", UNITS[at - 1], UNITS[at + 1], "second"])
    kinds = [ctx.choice(f"kind{i}", ["coefficient", "delay"]) for i in range(n)]
    fs = [one(ctx, k, i, wrong if i == at else units[i][0], units[i][1]) for i, k in enumerate(kinds)]
    good = [one(ctx, "coefficient", 10 + i, *units[i]) for i in range(n)]
    r = response(good)
    for how in (0, 1):
        try:
            if how:
                r.filters_list = fs
            else:
                response(fs)
        except ValueError:
            ctx.reach("refused")
            continue
        ctx.fail("mismatched neighbours are refused")
    ctx.check([f.name for f in r.filters_list] == [f.name for f in good], "the chain stays after a refusal")


def replaced(ctx):
    """the ends follow a list assigned later"""
    r = response(chain(ctx, ["coefficient"]))
    r.filters_list = [one(ctx, "coefficient", 1, "ampere", "volt"), one(ctx, "delay", 2, "volt", "digital counts")]
    ctx.check(r.units_in.lower() == "ampere", "units into the chain after a change")
    ctx.check(r.units_out.lower() == "digital counts", "units out of the chain after a change")
    ctx.check(r.names == ["coefficient_1", "delay_2"], "names after a change")
    ctx.check(r.total_delay == r.filters_list[1].delay, "total delay after a change")
    q = [2.0]
    agree(ctx, r.complex_response(np.array(q), include_delay=True), product(r.filters_list, q), "product after a change")


def instances(tier):
    import itertools
    N = 3 if tier == "quick" else 4
    chains = [()] + [(k,) for k in KINDS] + list(itertools.product(KINDS, repeat=2))
    three = list(itertools.product(KINDS, repeat=3))
    if tier == "quick":
        chains += [c for i, c in enumerate(three) if i % 4 == 0]
    else:
        chains += three + [c for i, c in enumerate(itertools.product(KINDS, repeat=4)) if i % 9 == 0]
    out = []
    for c in sorted(chains, key=len, reverse=True):
        n = "-".join(c) or "none"
        for deci in ((False, True) if "fir" in c else (False,)):
            out += [(f"total:{n}:{int(deci)}", total, {"kinds": c, "deci": deci}), (f"summary:{n}:{int(deci)}", summary, {"kinds": c, "deci": deci})]
        if c:
            out += [(f"sublist:{n}", sublist, {"kinds": c})]
        if len(c) > 1 and len(c) < 4:
            out += [(f"order:{n}", order, {"kinds": c})]
    out += [(f"gain:{'-'.join(c)}", gain, {"kinds": c}) for m in (3, 2, 1) for c in itertools.product(["coefficient", "zpk"], repeat=m)]
    out += [(f"mismatch:{n}", mismatch, {"n": n}) for n in (4, 3, 2)] + [("normalized", normalized, {}), ("replaced", replaced, {})]
    return out
