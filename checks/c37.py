"""C37 feature weights stay in [0, 1], constant outside the transition, monotone across it, and combine as declared"""
import numpy as np
import xarray as xr

PROPERTY = "C37"
IMPORTS = ["mt_metadata.features.weights", "mt_metadata.common.band", "mt_metadata.features.weights.channel_weight_spec", "mt_metadata.features.weights.taper_weight_kernel",
           "mt_metadata.features.weights.feature_weight_spec"]
OPTS = {"budget_s": 150}
ASSUMPTIONS = ["exp, tanh and cos stand for the real functions: the solver uses only that they are monotone (cos on [0, pi]), their range, their values at 0, pi, and the double angle",
               "arithmetic in the weights is exact (real), comparisons allow 1e-9",
               "transition bounds are finite with lower <= upper, steepness is not negative"]
E = 1e-9
TAPERS = ["rectangle", "hann", "hamming", "blackman"]
ACTIVATIONS = ["sigmoid", "hard_sigmoid", "tanh", "hard_tanh"]
# weights on the suppressed and the kept side; None: the style's own end values
ENDS = {"rectangle": (0, 1), "hann": (0, 1), "hamming": (0.08, 1), "blackman": (0, 1), "hard_tanh": (0, 1), "hard_sigmoid": (0.4, 0.6),
        "sigmoid": None, "tanh": None}


def BOUNDS(tier):
    return ("every feature value in [-1000, 1000] (pairs of values, as numbers and in arrays), every pair of transition bounds in [-100, 100] (equal ones included), every steepness in [0, 50], "
            "every style and both threshold directions; up to 2 kernels per feature, 3 features per channel, every combination style; weights tables of 1 to 4 frequencies")


def kernel(ctx, style, low, lb, ub, how="new", **kw):
    from mt_metadata.features.weights import activation_monotonic_weight_kernel as A, taper_monotonic_weight_kernel as T
    word = "low cut" if low else "high cut"
    taper = style in TAPERS
    cls = T.TaperMonotonicWeightKernel if taper else A.ActivationMonotonicWeightKernel
    if how == "new":
        d = dict(threshold=word, transition_lower_bound=lb, transition_upper_bound=ub, **kw)
        d["half_window_style" if taper else "activation_style"] = style
        return cls(**d)
    k = cls()
    k.transition_upper_bound = ub
    k.transition_lower_bound = lb
    k.threshold = word
    setattr(k, "half_window_style" if taper else "activation_style", style)
    for n, v in kw.items():
        setattr(k, n, v)
    return k


def bounds(ctx, equal, n=""):
    lb = ctx.real("lower" + n, -100, 100)
    ub = lb if equal else ctx.real("upper" + n, -100, 100)
    if not equal:
        ctx.assume(lb < ub)
    return lb, ub


def within(ctx, w, label):
    ctx.check((w >= -E) & (w <= 1 + E), label)


def one(ctx, style, low, equal, how, form):
    ctx.trig_facts()
    lb, ub = bounds(ctx, equal)
    kw = {"steepness": ctx.real("steepness", 0, 50)} if style in ("sigmoid", "tanh") else {}
    k = kernel(ctx, style, low, lb, ub, how, **kw)
    a, b = ctx.real("a", -1000, 1000), ctx.real("b", -1000, 1000)
    ctx.assume(a <= b)
    if form == "numbers":
        wa, wb = k.evaluate(a), k.evaluate(b)
    else:
        w = k.evaluate(np.array([b, a]))
        ctx.check(np.shape(w) == (2,), "one weight for each value")
        wb, wa = w[0], w[1]
    within(ctx, wa, "weight is in [0, 1]")
    within(ctx, wb, "weight is in [0, 1]")
    if low:
        ctx.check(wa <= wb + E, "weights of a low cut do not decrease")
    else:
        ctx.check(wa >= wb - E, "weights of a high cut do not increase")
    # constant on both sides
    if ENDS[style] is not None:
        off, on = ENDS[style]
    else:
        s = kw["steepness"]
        if style == "sigmoid":
            off, on = 1 / (1 + np.exp(s * 0.5)), 1 / (1 + np.exp(-s * 0.5))
        else:
            off, on = 0.5 * (np.tanh(-s * 0.5) + 1), 0.5 * (np.tanh(s * 0.5) + 1)
    below, above = (off, on) if low else (on, off)
    if style == "rectangle":    # a step at the bound of the threshold's side
        edge = lb if low else ub
        for v, w in ((a, wa), (b, wb)):
            if v < edge:
                ctx.check(w == below, "weight below the step")
            if v > edge:
                ctx.check(w == above, "weight above the step")
            if v == edge:
                ctx.check(w == 1, "weight at the step")
        return
    for v, w in ((a, wa), (b, wb)):
        if v < lb:
            ctx.close(w, below, "constant weight below the transition", atol=E)
        elif v > ub:
            ctx.close(w, above, "constant weight above the transition", atol=E)
        elif equal:
            ctx.close(w, on, "weight at a transition without width", atol=E)
        else:
            if v == lb:
                ctx.close(w, below, "weight at the start of the transition", atol=E)
            if v == ub:
                ctx.close(w, above, "weight at the end of the transition", atol=E)
            middle = {"hamming": 0.54, "blackman": 0.34}.get(style, 0.5)
            x = (v - lb) / (ub - lb)
            if style not in ("blackman",):
                if x == 0.5:
                    ctx.close(w, middle, "weight in the middle of the transition", atol=E)


def shape(ctx, style, low):
    """values inside the transition against the formula"""
    k = kernel(ctx, style, low, 0.0, 1.0, "new", **({"steepness": 3.0} if style in ("sigmoid", "tanh") else {}))
    v = ctx.real("v", 0, 1)
    w = k.evaluate(np.array([v]))[0]
    x = v if low else 1 - v
    c = np.cos(np.pi * x)
    want = {"hann": lambda: 0.5 - 0.5 * c, "hamming": lambda: 0.54 - 0.46 * c, "blackman": lambda: 0.42 - 0.5 * c + 0.08 * np.cos(2 * np.pi * x),
            "rectangle": lambda: 1.0, "hard_tanh": lambda: x, "hard_sigmoid": lambda: 0.4 + 0.2 * x,
            "sigmoid": lambda: 1 / (1 + np.exp(-3.0 * (x - 0.5))), "tanh": lambda: 0.5 + 0.5 * np.tanh(3.0 * (x - 0.5))}[style]()
    ctx.close(w, want, "weight inside the transition", atol=E)


def infinite(ctx, style, low, side):
    inf = float("inf")
    lb = -inf if side in ("lower", "both") else ctx.real("lower", -100, 100)
    ub = inf if side in ("upper", "both") else ctx.real("upper", -100, 100)
    k = kernel(ctx, style, low, lb, ub)
    a = ctx.real("a", -1000, 1000)
    w = k.evaluate(np.array([a]))[0]
    within(ctx, w, "weight is in [0, 1]")


def taper(ctx, style, form):
    """product of a low cut and a high cut"""
    from mt_metadata.features.weights.taper_weight_kernel import TaperWeightKernel
    ctx.trig_facts()
    l0, l1 = ctx.real("l0", -100, 100), ctx.real("l1", -100, 100)
    h0, h1 = ctx.real("h0", -100, 100), ctx.real("h1", -100, 100)
    ctx.assume((l0 < l1) & (h0 < h1))
    k = TaperWeightKernel(low_cut=(l0, l1), high_cut=(h0, h1), style=style)
    v = ctx.real("v", -1000, 1000)
    w = k.evaluate(np.array([v]))[0] if form == "array" else k.evaluate(v)
    low = kernel(ctx, style, True, l0, l1).evaluate(v)
    high = kernel(ctx, style, False, h0, h1).evaluate(v)
    ctx.close(w, low * high, "product of the two sides", atol=E)
    if (v > l1) & (v < h0):
        ctx.close(w, 1.0, "weight between the transitions", atol=E)
    off = ENDS[style][0]
    if (v < l0) & (v < h0):
        ctx.close(w, off, "weight below the low cut", atol=E)
    if (v > h1) & (v > l1):
        ctx.close(w, off, "weight above the high cut", atol=E)


def feature(name):
    from mt_metadata.features import weights  # noqa
    from mt_metadata.features.weights import feature_weight_spec as M
    return M.feature_classes[name](name=name)


KERNELS = [("hard_tanh", True), ("hard_tanh", False), ("rectangle", True), ("hard_sigmoid", False)]


def spec(ctx, count, how, form, inactive=False):
    """a feature's weight is the product of its active kernels"""
    from mt_metadata.features.weights.feature_weight_spec import FeatureWeightSpec
    vs = [ctx.real(f"v{i}", -10, 10) for i in range(2 if form == "array" else 1)]
    ks, want = [], [1] * len(vs)
    for i in range(count):
        style, low = KERNELS[ctx.choice(f"style{i}", list(range(len(KERNELS))))]
        lb = ctx.real(f"lower{i}", -10, 10)
        ub = lb + ctx.choice(f"width{i}", [1, 4] if count == 1 else [2])
        k = kernel(ctx, style, low, lb, ub)
        active = ctx.choice(f"active{i}", [True, None, False] if inactive else [True, None])
        if how == "dict":
            d = dict(threshold="low cut" if low else "high cut", transition_lower_bound=lb, transition_upper_bound=ub)
            d["half_window_style" if style in TAPERS else "activation_style"] = style
            d["style"] = "taper" if style in TAPERS else "activation"
            if active is not None:
                d["active"] = active
            ks.append({"weight_kernel": d} if (count == 1 and ctx.choice("wrapped", [True, False])) else d)
        else:
            k.active = active
            ks.append(k)
        if active is not False:
            x = k.evaluate(np.array(vs))
            want = [want[j] * x[j] for j in range(len(vs))]
    f = feature("coherence")
    if how == "later":
        s = FeatureWeightSpec(feature_name="coherence", feature=f)
        s.weight_kernels = ks
    else:
        s = FeatureWeightSpec(feature_name="coherence", feature=f, weight_kernels=ks)
    ctx.check(len(s.weight_kernels) == count, "number of kernels")
    w = s.evaluate(np.array(vs) if form == "array" else vs[0])
    if form == "array":
        w = [w[j] if np.ndim(w) else w for j in range(len(vs))]
    else:
        w = [w]
    for j in range(len(vs)):
        ctx.close(w[j], want[j], "inactive kernels take no part" if inactive else "product of the kernels", atol=E)


def channel(ctx, style, count, form, missing=False):
    """a channel's weight is the declared combination of its features'"""
    from mt_metadata.features.weights.channel_weight_spec import ChannelWeightSpec
    from mt_metadata.features.weights.feature_weight_spec import FeatureWeightSpec
    names = ctx.perm("features", ["coherence", "fc_coherence", "striding_window_coherence"])[:count]
    specs, values, parts = [], {}, []
    n = 2 if form == "array" else 1
    for i, name in enumerate(names):
        k = kernel(ctx, "hard_tanh", bool(i % 2), 0.0, 4.0)
        specs.append(FeatureWeightSpec(feature=feature(name), weight_kernels=[k]))
        vs = [ctx.real(f"v{i}{j}", -2, 6) for j in range(n)]
        values[name] = np.array(vs) if form == "array" else vs[0]
        parts.append([k.evaluate(v) for v in vs])
    if missing:
        del values[names[ctx.choice("missing", list(range(count)))]]
        values["multiple coherence"] = 1.0
    else:
        values["another"] = 1.0
    c = ChannelWeightSpec(output_channels=["ex"], feature_weight_specs=specs)
    c.combination_style = style
    try:
        w = c.evaluate(values)
    except KeyError:
        ctx.check(missing, "no KeyError when every feature is given")
        return
    ctx.check(not missing, "missing feature values are refused")
    if count == 0:
        ctx.check(w == 1.0, "no features: 1")
        return
    for j in range(n):
        p = [q[j] for q in parts]
        got = w[j] if form == "array" else w
        within(ctx, got, "combined weight is in [0, 1]")
        if style == "multiplication":
            want = 1
            for x in p:
                want = want * x
            ctx.close(got, want, "product of the features", atol=E)
        elif style == "mean":
            ctx.close(got, sum(p) / count, "mean of the features", atol=E)
        else:
            sign = 1 if style == "minimum" else -1
            for x in p:
                ctx.check(sign * got <= sign * x + E, "not beyond any of the features")
            hit = False
            for x in p:
                hit = hit | (abs(got - x) <= E)
            ctx.check(hit, "one of the features")


def band(ctx, n, order, kind):
    """weights of the frequency closest to a band's centre"""
    from mt_metadata.common.band import Band
    from mt_metadata.features.weights.channel_weight_spec import ChannelWeightSpec
    freqs = ctx.perm("frequencies", [0.5, 1.0, 4.0, 10.0][:n]) if order == "any" else [0.5, 1.0, 4.0, 10.0][:n]
    values = [ctx.real(f"w{i}", 0, 1) for i in range(n)]
    other = [ctx.real(f"u{i}", 0, 1) for i in range(n)]
    dim = ctx.choice("dimension", ["frequency", "freq"])
    if kind == "rows":
        data = xr.DataArray(np.array([values, other]), dims=["time", dim], coords={dim: freqs, "time": [0, 1]})
    else:
        data = xr.DataArray(np.array(values), dims=[dim], coords={dim: freqs})
    c = ChannelWeightSpec(output_channels=["ex"])
    c.weights = data
    lo, hi = ctx.real("lo", 0.01, 20), ctx.real("hi", 0.01, 20)
    ctx.assume(lo < hi)
    b = Band(decimation_level=0, index_min=0, index_max=1, frequency_min=lo, frequency_max=hi, center_averaging_type="arithmetic")
    centre = (lo + hi) / 2
    w = c.get_weights_for_band(b)
    d = [abs(f - centre) for f in freqs]
    got = [w.values[0], w.values[1]] if kind == "rows" else [w.values.item()]
    ok = False
    for i in range(n):
        near = True
        for j in range(n):
            near = near & (d[i] <= d[j] + E)
        same = got[0] == values[i]
        if kind == "rows":
            same = same & (got[1] == other[i])
        ok = ok | (near & same)
    ctx.check(ok, "weights of the closest frequency")


def unset(ctx):
    from mt_metadata.common.band import Band
    from mt_metadata.features.weights.channel_weight_spec import ChannelWeightSpec
    c = ChannelWeightSpec(output_channels=["ex"])
    b = Band(decimation_level=0, index_min=0, index_max=1, frequency_min=1.0, frequency_max=2.0)
    try:
        c.get_weights_for_band(b)
        ctx.fail("no weights were set")
    except ValueError:
        pass
    c.weights = xr.DataArray(np.array([1.0]), dims=["time"])
    try:
        c.get_weights_for_band(b)
        ctx.fail("no frequencies in the weights")
    except ValueError:
        ctx.reach("refused")


def instances(tier):
    out = []
    for style in TAPERS + ACTIVATIONS:
        for low in (True, False):
            for equal in (False, True):
                for how, form in (("new", "array"), ("set", "numbers")) if tier == "quick" else (("new", "array"), ("set", "numbers"), ("new", "numbers"), ("set", "array")):
                    out.append((f"kernel:{style}:{'low' if low else 'high'}:{'step' if equal else 'wide'}:{how}:{form}", one,
                                dict(style=style, low=low, equal=equal, how=how, form=form)))
            out.append((f"shape:{style}:{'low' if low else 'high'}", shape, dict(style=style, low=low)))
            if style in ACTIVATIONS:
                for side in ("lower", "upper", "both"):
                    out.append((f"infinite:{style}:{'low' if low else 'high'}:{side}", infinite, dict(style=style, low=low, side=side)))
    for style in ("hann", "hamming", "blackman"):
        for form in ("array", "number"):
            out.append((f"taper:{style}:{form}", taper, dict(style=style, form=form)))
    for count in (0, 1, 2):
        for how in ("objects", "dict", "later"):
            for form in ("array", "number"):
                out.append((f"feature:{count}:{how}:{form}", spec, dict(count=count, how=how, form=form)))
    out.append(("inactive", spec, dict(count=1, how="objects", form="number", inactive=True)))
    for style in ("multiplication", "mean", "minimum", "maximum"):
        for count in (0, 1, 2, 3):
            for form in ("array", "number"):
                out.append((f"channel:{style}:{count}:{form}", channel, dict(style=style, count=count, form=form)))
        out.append((f"missing:{style}", channel, dict(style=style, count=2, form="number", missing=True)))
    for n in (1, 2, 3, 4):
        for kind in ("one", "rows"):
            out.append((f"band:{n}:{kind}", band, dict(n=n, order="any" if n < 4 or tier == "thorough" else "up", kind=kind)))
    out.append(("band:unset", unset, {}))
    return out
