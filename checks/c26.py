"""C26 transfer function arrays keep every element in its place"""
import numpy as np
import xarray as xr

PROPERTY = "C26"
IMPORTS = ["mt_metadata.transfer_functions.core"]
OPTS = {"budget_s": 200}
ASSUMPTIONS = ["xarray's label based selection, assignment and reindexing are used as they are, on arrays of symbolic values",
               "periods are chosen among fixed lists (one, two or three periods, ascending, descending, unordered); the values are symbolic"]
STD = {"ex": "ex", "ey": "ey", "hx": "hx", "hy": "hy", "hz": "hz"}
NAMES = {"default": STD,
         "lemi": {"ex": "e1", "ey": "e2", "hx": "bx", "hy": "by", "hz": "bz"},
         "reversed": {"ex": "q", "ey": "p", "hx": "n", "hy": "m", "hz": "a"}}
PERIODS = {"up": [0.5, 4.0], "down": [4.0, 0.5], "one": [2.0], "unit": [1.0], "unordered": [2.0, 0.25, 8.0]}
EI, HI, EHZ = ("ex", "ey"), ("hx", "hy"), ("ex", "ey", "hz")
# quantity: outputs, inputs, variable of the data set, complex
KINDS = {"impedance": (EI, HI, "transfer_function", True),
         "tipper": (("hz",), HI, "transfer_function", True),
         "transfer_function": (EHZ, HI, "transfer_function", True),
         "impedance_error": (EI, HI, "transfer_function_error", False),
         "tipper_error": (("hz",), HI, "transfer_function_error", False),
         "transfer_function_error": (EHZ, HI, "transfer_function_error", False),
         "impedance_model_error": (EI, HI, "transfer_function_model_error", False),
         "tipper_model_error": (("hz",), HI, "transfer_function_model_error", False),
         "transfer_function_model_error": (EHZ, HI, "transfer_function_model_error", False),
         "inverse_signal_power": (HI, HI, "inverse_signal_power", True),
         "residual_covariance": (EHZ, EHZ, "residual_covariance", True)}
ERRORS = "transfer_function_error"


def BOUNDS(tier):
    return ("every quantity (impedance, tipper, transfer function, errors, model errors, signal power, residual covariance), every value of every element, "
            "1 to 3 periods, arrays, lists, tuples and labelled arrays with channels in any order, 3 naming schemes, any order of setting two quantities, "
            "other quantities set or not")


def new(periods, names, how="period"):
    from mt_metadata.transfer_functions.core import TF
    TF._template_cache.clear()
    if how == "period":
        return TF(channel_nomenclature=NAMES[names], period=np.array(periods))
    if how == "frequency":
        return TF(frequency=1.0 / np.array(periods), channel_nomenclature=NAMES[names])
    t = TF()
    if how == "later":
        t.channel_nomenclature = NAMES[names]
        t.period = np.array(periods)
    else:
        t.frequency = 1.0 / np.array(periods)
        t.channel_nomenclature = NAMES[names]
    return t


def symbolic(ctx, name, kind, n):
    outs, ins, _, cplx = KINDS[kind]
    v = {}
    for p in range(n):
        for o in outs:
            for i in ins:
                k = f"{name}.{p}{o}{i}"
                v[p, o, i] = ctx.complex(k, lo=-1000, hi=1000) if cplx else ctx.real(k, 0, 1000)
    return v


def fixed(kind, n, seed):
    outs, ins, _, cplx = KINDS[kind]
    return {(p, o, i): (seed + 10 * p + 3 * a + b + ((b - a - 0.5) * 1j if cplx else 0))
            for p in range(n) for a, o in enumerate(outs) for b, i in enumerate(ins)}


def nested(v, kind, n):
    outs, ins, _, _ = KINDS[kind]
    return [[[v[p, o, i] for i in ins] for o in outs] for p in range(n)]


def give(t, kind, v, periods, names, form):
    """assign the values in the given form"""
    outs, ins, _, _ = KINDS[kind]
    n = len(periods)
    if form == "list":
        x = nested(v, kind, n)
    elif form == "tuple":
        x = tuple(nested(v, kind, n))
    elif form == "array":
        x = np.array(nested(v, kind, n))
    else:
        m = NAMES[names]
        o2, i2 = (outs[::-1], ins[::-1]) if form != "labels" else (outs, ins)
        data = np.array([[[v[p, o, i] for i in i2] for o in o2] for p in range(n)])
        x = xr.DataArray(data=data, dims=["period", "output", "input"],
                         coords={"period": np.array(periods), "output": [m[o] for o in o2], "input": [m[i] for i in i2]})
        if form == "turned":
            x = x.transpose("input", "period", "output")
    setattr(t, kind, x)


def entries(t, periods, names):
    """the elements of the data set by variable, period, output and input"""
    ds = t.dataset
    m = {v: k for k, v in NAMES[names].items()}
    out = {}
    for var in FILL:
        a = ds[var]
        outs, ins, per = a.coords["output"].data.tolist(), a.coords["input"].data.tolist(), a.coords["period"].data.tolist()
        d = a.transpose("period", "output", "input").data
        for p, x in enumerate(per):
            for o, y in enumerate(outs):
                for i, z in enumerate(ins):
                    out[var, periods.index(x), m[y], m[z]] = d[p, o, i]
    return out


def check_kind(ctx, t, kind, v, periods, names, label):
    """what the property gives back and what the data set holds"""
    outs, ins, var, _ = KINDS[kind]
    m = NAMES[names]
    got = getattr(t, kind)
    e = entries(t, periods, names)
    for q in v:
        ctx.check(e[(var,) + q] == v[q], label + ": the element of the data set")
    if got is None:
        return
    per = got.coords["period"].data.tolist()
    ctx.check(got.coords["output"].data.tolist() == [m[o] for o in outs], label + ": outputs in order")
    ctx.check(got.coords["input"].data.tolist() == [m[i] for i in ins], label + ": inputs in order")
    ctx.check(per == periods, label + ": periods")
    d = got.transpose("period", "output", "input").data
    for p in range(len(periods)):
        for a, o in enumerate(outs):
            for b, i in enumerate(ins):
                ctx.check(d[p, a, b] == v[p, o, i], label + ": the element read back")


def present(t, kind):
    if kind.startswith("impedance"):
        return t.has_impedance()
    if kind.startswith("tipper"):
        return t.has_tipper()
    if kind.startswith("transfer"):
        return t.has_transfer_function()
    if kind == "inverse_signal_power":
        return t.has_inverse_signal_power()
    return t.has_residual_covariance()


FILL = ["transfer_function", "transfer_function_error", "transfer_function_model_error", "inverse_signal_power", "residual_covariance"]


def overlap(a, b):
    (oa, ia, va, _), (ob, ib, vb, _) = KINDS[a], KINDS[b]
    return va == vb


WAYS = [("period", "default"), ("frequency", "lemi"), ("later", "reversed"), ("first", "lemi")]


def settle(ctx, kind, form, filled, periods, full):
    """set one quantity, the others as they were"""
    if full:
        names, how = ctx.choice("names", sorted(NAMES)), ctx.choice("how", ["period", "frequency", "later", "first"])
    else:
        how, names = ctx.choice("how", WAYS)
    p = PERIODS[periods]
    n = len(p)
    t = new(p, names, how)
    ctx.check(t.period.tolist() == p, "the periods given")
    for q in range(n):
        ctx.close(t.frequency[q] * t.period[q], 1.0, "frequency is the reciprocal of period")
    base = {}
    if filled:
        for s, k in enumerate(FILL):
            base[k] = fixed(k, n, 100 * (s + 1))
            give(t, k, base[k], p, names, "array")
        # the errors were computed from the covariances
        base[ERRORS] = fixed(ERRORS, n, 200)
        give(t, ERRORS, base[ERRORS], p, names, "array")
    else:
        for k in FILL:
            base[k] = {q: 0 for q in fixed(k, n, 0)}
    v = symbolic(ctx, "v", kind, n)
    give(t, kind, v, p, names, form)
    check_kind(ctx, t, kind, v, p, names, kind)
    var = KINDS[kind][2]
    if var == "transfer_function" or kind in ("inverse_signal_power", "residual_covariance"):
        has = False
        for q in v:
            has = has | (v[q] != 0)
        if kind == "transfer_function" or not filled or kind in ("inverse_signal_power", "residual_covariance", "impedance", "tipper"):
            ctx.check(present(t, kind) == has, "presence agrees with the data set")
            ctx.check((getattr(t, kind) is not None) == has, "given exactly when present")
    e = entries(t, p, names)
    for k in FILL:
        if k == ERRORS and kind in ("inverse_signal_power", "residual_covariance") and filled:
            continue
        for q in base[k]:
            if KINDS[k][2] == var and q in v:
                continue
            ctx.check(e[(k,) + q] == base[k][q], "other elements are as they were")
    if not filled:
        for k in ("impedance", "tipper", "inverse_signal_power", "residual_covariance"):
            touched = kind == k or (kind == "transfer_function" and k in ("impedance", "tipper"))
            if not touched:
                ctx.check(not present(t, k), "absent as before")
                ctx.check(getattr(t, k) is None, "none as before")
    before = t.period.tolist()
    setattr(t, kind, None)
    check_kind(ctx, t, kind, v, p, names, "none changes nothing")
    ctx.check(t.period.tolist() == before, "periods kept")


SHAPES = [(2, 2, 2), (1, 2, 2), (3, 2, 2), (2, 1, 2), (2, 2, 1), (2, 3, 2), (2, 3, 3), (2, 2), (2,), (1, 1, 2), (4, 2), (2, 2, 3), (2, 3, 1), (0, 2, 2), (2, 2, 2, 1)]


def refused(ctx, kind):
    """a wrong shape is refused and nothing is changed"""
    from mt_metadata.transfer_functions.core import TFError
    outs, ins, var, cplx = KINDS[kind]
    p = PERIODS["up"]
    t = new(p, "default")
    v = symbolic(ctx, "v", kind, 2)
    give(t, kind, v, p, "default", "array")
    good = (2, len(outs), len(ins))
    bad = ctx.choice("shape", [s for s in SHAPES if s != good] + ["number", "text", "labels", "channel"])
    if bad == "number":
        x = 5.0
    elif bad == "text":
        x = "zxx"
    elif bad == "labels":
        x = xr.DataArray(data=np.ones(good), dims=["period", "output", "input"])
    elif bad == "channel":
        x = xr.DataArray(data=np.ones(good), dims=["period", "output", "input"],
                         coords={"period": np.array(p), "output": ["ww"] + list(outs[1:]), "input": list(ins)})
    else:
        x = np.ones(bad)
    try:
        setattr(t, kind, x)
    except TFError:
        pass
    else:
        ctx.fail("a wrong shape is accepted")
    check_kind(ctx, t, kind, v, p, "default", "unchanged")


def sequence(ctx, first, second, periods, fresh):
    """two quantities set one after the other, labelled or not, are both kept"""
    names = ctx.choice("names", ["default", "reversed"])
    p = PERIODS[periods]
    n = len(p)
    if fresh:
        # the periods come with the first labelled array
        from mt_metadata.transfer_functions.core import TF
        TF._template_cache.clear()
        t = TF(channel_nomenclature=NAMES[names])
    else:
        t = new(p, names)
    f = ctx.choice("form", ["labels", "mixed"]) if fresh else ctx.choice("form", ["labels", "mixed", "array"])
    a, b = symbolic(ctx, "a", first, n), symbolic(ctx, "b", second, n)
    give(t, first, a, p, names, f)
    give(t, second, b, p, names, f)
    ctx.check(t.period.tolist() == p, "the periods given")
    if not (KINDS[first][2] == ERRORS and second in ("inverse_signal_power", "residual_covariance")):
        left = {q: v for q, v in a.items() if KINDS[first][2] != KINDS[second][2] or q not in b}
        e = entries(t, p, names)
        for q in left:
            ctx.check(e[(KINDS[first][2],) + q] == left[q], "the first is kept")
    check_kind(ctx, t, second, b, p, names, "the second")


def relabel(ctx, what):
    """new periods of the same number keep the data; channel names can be given afterwards"""
    p, q = ctx.choice("periods", [([2.0], [5.0]), ([1.0], [5.0]), ([0.5, 4.0], [3.0, 6.0]), ([0.5, 4.0], [4.0, 0.5])])
    n = len(p)
    t = new(p, "default")
    kind = ctx.choice("kind", ["impedance", "tipper", "inverse_signal_power", "impedance_error"])
    v = symbolic(ctx, "v", kind, n)
    give(t, kind, v, p, "default", "array")
    names = "default"
    if what == "period":
        t.period = np.array(q)
    elif what == "frequency":
        t.frequency = 1.0 / np.array(q)
    else:
        t.channel_nomenclature = NAMES["reversed"]
        names, q = "reversed", p
        ctx.check(t.inverse_channel_nomenclature == {b: a for a, b in NAMES["reversed"].items()}, "inverse names")
        for a, d in (("index_zxx", ("ex", "hx")), ("index_zxy", ("ex", "hy")), ("index_zyx", ("ey", "hx")), ("index_zyy", ("ey", "hy")), ("index_tzx", ("hz", "hx")), ("index_tzy", ("hz", "hy"))):
            ctx.check(getattr(t, a) == {"output": NAMES[names][d[0]], "input": NAMES[names][d[1]]}, "index of a component")
    ctx.check(t.period.tolist() == q, "the periods")
    check_kind(ctx, t, kind, v, q, names, "kept")
    from mt_metadata.transfer_functions.core import TFError
    if q == [1.0]:
        return
    try:
        t.period = np.array(q + [99.0])
    except TFError:
        check_kind(ctx, t, kind, v, q, names, "kept after refusal")
    else:
        ctx.fail("another number of periods is accepted")


def copies(ctx, kind):
    """a copy is equal and independent"""
    p = PERIODS["up"]
    t = new(p, "lemi")
    v = symbolic(ctx, "v", kind, 2)
    give(t, kind, v, p, "lemi", "array")
    c = t.copy()
    check_kind(ctx, c, kind, v, p, "lemi", "copy")
    w = fixed(kind, 2, 7)
    give(c, kind, w, p, "lemi", "array")
    check_kind(ctx, t, kind, v, p, "lemi", "original")
    check_kind(ctx, c, kind, w, p, "lemi", "changed copy")
    if KINDS[kind][2] == "transfer_function":
        q = sorted(v)[0]
        w = dict(v)
        w[q] = ctx.complex("w", lo=-1000, hi=1000)
        give(c, kind, w, p, "lemi", "array")
        ctx.check((t == c) == (v[q] == w[q]), "equal exactly when the data are")


def instances(tier):
    out = []
    for k in KINDS:
        for form in ("array", "list", "tuple", "labels", "mixed", "turned"):
            for filled in (False, True):
                ps = ("up", "one") if form in ("array", "labels") else ("up",)
                if tier == "thorough":
                    ps = tuple(PERIODS)
                for p in ps:
                    out.append((f"set:{k}:{form}:{'filled' if filled else 'empty'}:{p}", settle, {"kind": k, "form": form, "filled": filled, "periods": p, "full": tier != "quick"}))
        out.append((f"refused:{k}", refused, {"kind": k}))
        out.append((f"copy:{k}", copies, {"kind": k}))
    for a in KINDS:
        for b in KINDS:
            if a != b:
                for p in (("one",) if tier == "quick" else tuple(PERIODS)):
                    out.append((f"then:{a}:{b}:{p}", sequence, {"first": a, "second": b, "periods": p, "fresh": False}))
                    if KINDS[a][2] == "transfer_function":
                        out.append((f"fresh:{a}:{b}:{p}", sequence, {"first": a, "second": b, "periods": p, "fresh": True}))
    out += [(f"relabel:{w}", relabel, {"what": w}) for w in ("period", "frequency", "names")]
    return out
