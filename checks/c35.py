"""C35 transfer functions keep their data across format objects"""
import numpy as np
from checks.c26 import NAMES

PROPERTY = "C35"
IMPORTS = ["mt_metadata.transfer_functions.core", "mt_metadata.transfer_functions.io.edi", "mt_metadata.transfer_functions.io.emtfxml",
           "mt_metadata.transfer_functions.io.zfiles", "mt_metadata.transfer_functions.io.jfiles", "mt_metadata.transfer_functions.io.zonge"]
OPTS = {"budget_s": 200, "timeout_ms": 15000}
OPTS_THOROUGH = {"budget_s": 800, "timeout_ms": 30000}
ASSUMPTIONS = ["exact arithmetic; the square root is modelled by its law", "periods are fixed numbers; the objects are used in memory (their files are the business of C30, C31, C34 and C36)",
               "impedance and tipper are not zero throughout; errors are not negative"]
PER = [0.5, 4.0, 32.0, 256.0]
EI, HI = ["ex", "ey"], ["hx", "hy"]


def BOUNDS(tier):
    return ("every value (parts within +-1e6) and error (0 to 1e6), every position; 1 to %d periods, rising or falling; impedance, tipper or both, with and without errors, "
            "with and without covariances; 3 naming schemes; into fresh transfer functions and ones that know their periods" % (3 if tier == "quick" else 4))


def new(periods=None, names="default", given="later"):
    from mt_metadata.transfer_functions.core import TF
    TF._template_cache.clear()
    t = TF() if names == "default" else TF(channel_nomenclature=dict(NAMES[names]))
    if periods is not None:
        t.period = np.array(periods)
    return t


def numbers(ctx, name, shape, cplx):
    out = np.zeros(shape, dtype=complex if cplx else float)
    for i in np.ndindex(shape):
        k = name + "".join([f".{j}" for j in i])
        out[i] = ctx.complex(k, lo=-1e6, hi=1e6) if cplx else ctx.real(k, 0, 1e6)
    return out


def some(ctx, a):
    """the first element is not zero"""
    v = a[0, 0, 0]
    ctx.assume(v.real > 0)


def values(ctx, n, has, errors, cov):
    v = {}
    if "z" in has:
        v["impedance"] = numbers(ctx, "z", (n, 2, 2), True)
        some(ctx, v["impedance"])
        if errors:
            v["impedance_error"] = numbers(ctx, "ze", (n, 2, 2), False)
    if "t" in has:
        v["tipper"] = numbers(ctx, "t", (n, 1, 2), True)
        some(ctx, v["tipper"])
        if errors:
            v["tipper_error"] = numbers(ctx, "te", (n, 1, 2), False)
    if cov:
        v["inverse_signal_power"] = numbers(ctx, "s", (n, 2, 2), True)
        v["residual_covariance"] = numbers(ctx, "r", (n, 3, 3), True)
        some(ctx, v["inverse_signal_power"])
        some(ctx, v["residual_covariance"])
    return v


def place(ctx, t, which=""):
    p = {"latitude": 40.25, "longitude": -110.5, "elevation": 1234.5}
    lo, hi = {"latitude": (-90, 90), "longitude": (-180, 180), "elevation": (-12000, 9000)}.get(which, (0, 0))
    if which:
        p[which] = ctx.real(which, lo, hi)
    for k, x in p.items():
        setattr(t, k, x)
    t.station = "mt07"
    return p


def source(ctx, periods, names, has, errors=True, cov=False, angle=None, where=""):
    t = new(periods, names)
    v = values(ctx, len(periods), has, errors, cov)
    for k in ("impedance", "tipper", "inverse_signal_power", "residual_covariance", "impedance_error", "tipper_error"):
        if k in v:
            setattr(t, k, np.array(v[k]))
    pos = place(ctx, t, where)
    if angle is not None:
        t._rotation_angle = angle
    return t, v, pos


CHANNELS = {"impedance": (EI, HI), "tipper": (["hz"], HI), "inverse_signal_power": (HI, HI), "residual_covariance": (EI + ["hz"], EI + ["hz"]),
            "impedance_error": (EI, HI), "tipper_error": (["hz"], HI)}
VAR = {"impedance": "transfer_function", "tipper": "transfer_function", "inverse_signal_power": "inverse_signal_power",
       "residual_covariance": "residual_covariance", "impedance_error": "transfer_function_error", "tipper_error": "transfer_function_error"}


def element(t, names, kind, per, o, i):
    m = NAMES[names]
    outs, ins = CHANNELS[kind]
    a = t.dataset[VAR[kind]]
    co, ci, cp = a.coords["output"].data.tolist(), a.coords["input"].data.tolist(), a.coords["period"].data.tolist()
    k = [q for q in range(len(cp)) if abs(cp[q] - per) < 1e-6 * per]
    return a.transpose("period", "output", "input").data[k[0], co.index(m[outs[o]]), ci.index(m[ins[i]])]


def given(t, kind):
    return getattr(t, kind)


def agree(ctx, t, names, periods, v, pos, label, skip=(), error_too=True):
    ctx.check(len(t.period) == len(periods), label + "as many periods")
    for p in periods:
        ctx.check(len([q for q in t.period.tolist() if abs(q - p) < 1e-6 * p]) == 1, label + "the periods")
    for kind, a in v.items():
        if kind in skip:
            continue
        for k, i, j in np.ndindex(a.shape):
            if kind == "residual_covariance" and "cross" in skip and (i == 2) != (j == 2):
                continue
            g = element(t, names, kind, periods[k], i, j)
            if kind[-5:] == "error":
                ctx.close(g, a[k, i, j], label + kind + " at its element", rtol=1e-6, atol=1e-9)
            else:
                ctx.close(g.real, a[k, i, j].real, label + kind + " at its element, real part", rtol=1e-6, atol=1e-9)
                ctx.close(g.imag, a[k, i, j].imag, label + kind + " at its element, imaginary part", rtol=1e-6, atol=1e-9)
    for kind in ("impedance", "tipper"):
        # what is there is given at its channels; what is not, is not given
        got = given(t, kind)
        ctx.check((got is not None) == (kind in v), label + kind + " is there exactly when it was")
        if kind in v:
            m = NAMES[names]
            ctx.check(got.coords["output"].data.tolist() == [m[c] for c in CHANNELS[kind][0]], label + "outputs")
            ctx.check(got.coords["input"].data.tolist() == [m[c] for c in CHANNELS[kind][1]], label + "inputs")
    for k, x in pos.items():
        ctx.close(getattr(t, k), x, label + k, rtol=1e-9, atol=1e-9)
    ctx.check(t.station == "mt07", label + "the station's name")


def covered(v):
    """with covariances the errors are those of the covariances"""
    return [k for k in ("impedance_error", "tipper_error") if "residual_covariance" in v and k not in v]


def judge_errors(ctx, t, names, periods, v):
    s, r = v["inverse_signal_power"], v["residual_covariance"]
    for kind, rows in (("impedance_error", (0, 1)), ("tipper_error", (2,))):
        for k in range(len(periods)):
            for a, o in enumerate(rows):
                for i in range(2):
                    g = element(t, names, kind, periods[k], a, i)
                    want = (r[k, o, o].real ** 2 + r[k, o, o].imag ** 2) * (s[k, i, i].real ** 2 + s[k, i, i].imag ** 2)
                    ctx.check(g >= 0, "errors are not negative")
                    ctx.close(g ** 4, want, "the error is that of the covariances", rtol=1e-6, atol=1e-9)


def strip(t, bare):
    """no runs, or one run without channels"""
    from mt_metadata.timeseries import Run
    for r in list(t.station_metadata.runs.keys()):
        t.station_metadata.remove_run(r)
    if bare == "empty":
        t.station_metadata.add_run(Run(id="mt07a"))


def h_convert(ctx, kind, periods, names, has, errors=True, cov=False, known=False, angle=None, where="", bare=None):
    t, v, pos = source(ctx, periods, names, has, errors, cov, angle, where)
    if bare:
        strip(t, bare)
    before = t.station_metadata.to_dict(single=True)
    runs = [(r.id, list(r.channels_recorded_all)) for r in t.station_metadata.runs]
    obj = getattr(t, "to_" + kind)()
    ctx.check([(r.id, list(r.channels_recorded_all)) for r in t.station_metadata.runs] == runs, "the runs of the source stay")
    after = t.station_metadata.to_dict(single=True)
    for k in before:
        if k not in ("runs", "location.latitude", "location.longitude", "location.elevation"):
            ctx.check(before[k] == after.get(k), "the station of the source stays: " + k)
    agree(ctx, t, names, periods, v, pos, "source: ")
    u = new(periods if known else None, names)
    getattr(u, "from_" + kind)(obj)
    skip = {"edi": ("inverse_signal_power", "residual_covariance"), "emtfxml": ("cross",), "zmm": (), "zrr": (), "zss": ()}[kind]
    if kind[0] == "z" and len(has) == 1:
        skip = skip + ("residual_covariance",)     # of the channels that are there
        if cov:
            for k in range(len(periods)):
                for i, j in np.ndindex((2, 2) if has == "z" else (1, 1)):
                    q = i if has == "z" else 2
                    w = j if has == "z" else 2
                    g = element(u, names, "residual_covariance", periods[k], q, w)
                    ctx.close(g.real, v["residual_covariance"][k, q, w].real, "residual covariance of the channels there", rtol=1e-6, atol=1e-9)
                    ctx.close(g.imag, v["residual_covariance"][k, q, w].imag, "residual covariance of the channels there", rtol=1e-6, atol=1e-9)
    agree(ctx, u, names, periods, v, pos, "", skip)
    agree(ctx, t, names, periods, v, pos, "source afterwards: ")
    if angle is not None and kind == "edi":
        got = u._rotation_angle
        for k in range(len(periods)):
            ctx.close(got[k] if hasattr(got, "__len__") else got, angle[k] if hasattr(angle, "__len__") else angle, "the rotation angle", rtol=1e-9, atol=1e-9)


def h_errors(ctx, kind, periods, names):
    """covariances give the errors"""
    t, v, pos = source(ctx, periods, names, "zt", False, True)
    u = new(None, names)
    getattr(u, "from_" + kind)(getattr(t, "to_" + kind)())
    for k in range(len(periods)):
        for q, (o, i) in (("impedance_error", (2, 2)), ("tipper_error", (1, 2))):
            for a, b in np.ndindex((o, i)):
                e = element(t, names, q, periods[k], a, b)
                g = element(u, names, q, periods[k], a, b)
                ctx.close(g, e, q + " is kept", rtol=1e-6, atol=1e-9)
    judge_errors(ctx, u, names, periods, v)


def h_chain(ctx, kinds, periods, has):
    """through one format after another"""
    t, v, pos = source(ctx, periods, "default", has, True, False)
    for kind in kinds:
        u = new(None, "default")
        getattr(u, "from_" + kind)(getattr(t, "to_" + kind)())
        t = u
    agree(ctx, t, "default", periods, v, pos, "")


def h_values(ctx, kind, periods, has):
    """the format object itself holds the values at its elements"""
    t, v, pos = source(ctx, periods, "default", has, True, False)
    obj = getattr(t, "to_" + kind)()
    if kind == "edi":
        z, ze, tt, te = obj.z, obj.z_err, obj.t, obj.t_err
        for k, p in enumerate(periods):
            ctx.close(obj.frequency[k] * p, 1.0, "frequencies are the reciprocal periods")
        power = 1
    else:
        z, ze, tt, te = obj.data.z, obj.data.z_var, obj.data.t, obj.data.t_var
        for k, p in enumerate(periods):
            ctx.close(obj.data.period[k], p, "periods")
        power = 2
    for kind_, a in (("impedance", z), ("tipper", tt)):
        if kind_ in v:
            for i in np.ndindex(v[kind_].shape):
                ctx.close(a[i].real, v[kind_][i].real, kind_ + " in the object", rtol=1e-9, atol=1e-9)
                ctx.close(a[i].imag, v[kind_][i].imag, kind_ + " in the object", rtol=1e-9, atol=1e-9)
    for kind_, a in (("impedance_error", ze), ("tipper_error", te)):
        if kind_ in v:
            for i in np.ndindex(v[kind_].shape):
                ctx.close(a[i], v[kind_][i] ** power, kind_ + " in the object", rtol=1e-9, atol=1e-9)
    ctx.close(obj.station_metadata.location.latitude, pos["latitude"], "latitude in the object")
    ctx.close(obj.station_metadata.location.longitude, pos["longitude"], "longitude in the object")
    ctx.close(obj.station_metadata.location.elevation, pos["elevation"], "elevation in the object")


def h_jfile(ctx, n, has, order, deltat=0.1):
    from mt_metadata.transfer_functions.io.jfiles.jfile import JFile
    v = values(ctx, n, has, True, False)
    per = PER[:n] if order == "up" else PER[:n][::-1]
    j = JFile()
    j._jfn = None
    j.frequency = np.array([1.0 / p for p in per])
    j.z, j.z_err = (np.array(v["impedance"]), np.array(v["impedance_error"])) if "z" in has else (np.zeros((n, 2, 2), dtype=complex), np.zeros((n, 2, 2)))
    j.t, j.t_err = (np.array(v["tipper"]), np.array(v["tipper_error"])) if "t" in has else (np.zeros((n, 1, 2), dtype=complex), np.zeros((n, 1, 2)))
    lat, lon, elev = ctx.real("lat", -90, 90), ctx.real("lon", -180, 180), ctx.real("elev", -12000, 9000)
    j.header.latitude, j.header.longitude, j.header.elevation = lat, lon, elev
    j.header.station = "mt07"
    if deltat:
        j.header.birrp_parameters.deltat = deltat
    u = new()
    u.from_jfile(j)
    agree(ctx, u, "default", per, v, {"latitude": lat, "longitude": lon, "elevation": elev}, "")


def h_spectra(ctx, n):
    """an EDI object made from spectra carries the whole transfer function"""
    from mt_metadata.transfer_functions.io.edi import EDI
    e = EDI()
    tf, er = numbers(ctx, "tf", (n, 3, 2), True), numbers(ctx, "te", (n, 3, 2), False)
    some(ctx, tf)
    ctx.assume(tf[0, 2, 0].real > 0)
    e.frequency = np.array([1.0 / p for p in PER[:n]])
    e.tf, e.tf_err = np.array(tf), np.array(er)
    e.station_metadata.id = "mt07"
    u = new()
    u.from_edi(e)
    v = {"impedance": tf[:, 0:2, :], "tipper": tf[:, 2:3, :], "impedance_error": er[:, 0:2, :], "tipper_error": er[:, 2:3, :]}
    for kind, a in v.items():
        for k, i, j in np.ndindex(a.shape):
            g = element(u, "default", kind, PER[k], i, j)
            ctx.close(g.real, a[k, i, j].real, kind + " of the spectra, real part")
            ctx.close(g.imag, a[k, i, j].imag, kind + " of the spectra, imaginary part")


def instances(tier):
    out = []
    up, down = PER[:3 if tier == "quick" else 4], PER[:2][::-1]
    for kind in ("edi", "emtfxml", "zmm"):
        out.append((f"{kind}:both", h_convert, {"kind": kind, "periods": PER[:2], "names": "default", "has": "zt"}))
        out.append((f"{kind}:z", h_convert, {"kind": kind, "periods": up, "names": "default", "has": "z"}))
        out.append((f"{kind}:t", h_convert, {"kind": kind, "periods": up, "names": "default", "has": "t"}))
        out.append((f"{kind}:one", h_convert, {"kind": kind, "periods": PER[:1], "names": "default", "has": "zt"}))
        out.append((f"{kind}:down", h_convert, {"kind": kind, "periods": down, "names": "default", "has": "zt"}))
        out.append((f"{kind}:lemi", h_convert, {"kind": kind, "periods": PER[:1], "names": "lemi", "has": "zt"}))
        out.append((f"{kind}:reversed", h_convert, {"kind": kind, "periods": PER[:2], "names": "reversed", "has": "z"}))
        out.append((f"{kind}:noerrors", h_convert, {"kind": kind, "periods": PER[:2], "names": "default", "has": "zt", "errors": False}))
        out.append((f"{kind}:known", h_convert, {"kind": kind, "periods": PER[:2], "names": "default", "has": "zt", "known": True}))
        out.append((f"{kind}:cov", h_convert, {"kind": kind, "periods": PER[:1], "names": "default", "has": "zt", "errors": False, "cov": True}))
        if kind != "emtfxml" or tier != "quick":
            out.append((f"{kind}:cov:2", h_convert, {"kind": kind, "periods": PER[:2], "names": "lemi", "has": "zt", "errors": False, "cov": True}))
        out.append((f"{kind}:cov:z", h_convert, {"kind": kind, "periods": PER[:1], "names": "default", "has": "z", "errors": False, "cov": True}))
        out.append((f"{kind}:coverrors", h_errors, {"kind": kind, "periods": PER[:1], "names": "default"}))
        for b in ("none", "empty"):
            out.append((f"{kind}:bare:{b}", h_convert, {"kind": kind, "periods": PER[:1], "names": "default", "has": "zt", "errors": False, "bare": b}))
        if kind != "zmm":
            out.append((f"{kind}:object", h_values, {"kind": kind, "periods": PER[:2], "has": "zt"}))
            out.append((f"{kind}:object:down", h_values, {"kind": kind, "periods": PER[:2][::-1], "has": "z"}))
        for w in ("latitude", "longitude", "elevation"):
            out.append((f"{kind}:{w}", h_convert, {"kind": kind, "periods": PER[:1], "names": "default", "has": "z", "errors": False, "where": w}))
    for kind in ("zrr", "zss"):
        out.append((f"{kind}:both", h_convert, {"kind": kind, "periods": PER[:1], "names": "default", "has": "zt"}))
    out.append(("edi:angle", h_convert, {"kind": "edi", "periods": PER[:2], "names": "default", "has": "z", "angle": 12.5}))
    out.append(("edi:angles", h_convert, {"kind": "edi", "periods": PER[:2], "names": "default", "has": "z", "angle": np.array([12.5, -3.0])}))
    for k in (["edi", "emtfxml", "zmm"], ["zmm", "edi", "emtfxml"], ["emtfxml", "zmm", "edi"]):
        out.append(("chain:" + ">".join(k), h_chain, {"kinds": k, "periods": PER[:1], "has": "zt"}))
    for n, has, order in ((1, "zt", "up"), (2, "z", "up"), (2, "zt", "down"), (2, "t", "up")):
        out.append((f"jfile:{n}:{has}:{order}", h_jfile, {"n": n, "has": has, "order": order}))
    out.append(("jfile:nodelta", h_jfile, {"n": 1, "has": "zt", "order": "up", "deltat": None}))
    out.append(("jfile:rate", h_jfile, {"n": 1, "has": "z", "order": "up", "deltat": -8.0}))
    out.append(("spectra:1", h_spectra, {"n": 1}))
    out.append(("spectra:2", h_spectra, {"n": 2}))
    return out
