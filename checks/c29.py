"""C29 Z-file rotation to orthogonal axes is exact"""
import numpy as np

PROPERTY = "C29"
IMPORTS = ["mt_metadata.transfer_functions.io.zfiles", "mt_metadata.transfer_functions.io.zfiles.zmm", "mt_metadata.transfer_functions.io.zfiles.metadata"]
OPTS = {"budget_s": 150, "timeout_ms": 15000}
ASSUMPTIONS = ["exact arithmetic; every azimuth is a symbolic angle whose sine and cosine satisfy their identities",
               "numpy's matrix product and inverse are modelled by their formulas (the inverse by cofactors)",
               "with symbolic angles and covariances only cases whose variances come out not negative are followed",
               "single precision storage of the result is not modelled"]
IN_ORDERS = [("hx", "hy"), ("hy", "hx")]
OUT_ORDERS = [("hz", "ex", "ey"), ("ex", "ey", "hz"), ("ey", "hz", "ex"), ("hz", "ey", "ex")]


def BOUNDS(tier):
    return ("every azimuth of the magnetic pair, the electric pair and the target within +-360 degrees, right and left handed pairs, 4 and 5 channels, "
            "%d channel orders, every complex transfer function value, every signal and residual covariance (Hermitian, positive), 1 and 2 periods" % (4 if tier == "quick" else 12))


def channel(name, number, az):
    from mt_metadata.transfer_functions.io.zfiles.metadata import Channel
    return Channel(channel=name, number=number, azimuth=az, tilt=0.0, dl="1")


def build(ctx, ins, outs, az, n):
    from mt_metadata.transfer_functions.io.zfiles.zmm import ZMM
    z = ZMM()
    for k, c in enumerate(tuple(ins) + tuple(outs)):
        setattr(z, c, channel(c, k + 1, az[c]))
    z.num_channels = 2 + len(outs)
    z.num_freq = n
    return z


def turn(ctx, az, theta):
    """cosine and sine of the azimuths from the target axis"""
    d = np.deg2rad(az - theta)
    return np.cos(d), np.sin(d)


def azimuths(ctx, hand_h, hand_e, sym):
    if sym == "magnetic":
        a, b, theta = ctx.angle("h"), 0.0, ctx.angle("target")
    elif sym == "electric":
        a, b, theta = 0.0, ctx.angle("e"), ctx.angle("target")
    elif sym == "together":
        a = ctx.angle("h")
        b, theta = a, ctx.angle("target")
    elif sym == "sensors":
        a, b, theta = ctx.angle("h"), ctx.angle("e"), 0.0
    else:
        a, b, theta = ctx.angle("h"), ctx.angle("e"), ctx.angle("target")
    return {"hx": a, "hy": a + 90.0 * hand_h, "ex": b, "ey": b + 90.0 * hand_e, "hz": 0.0}, theta


def measured(ctx, az, theta, Z, ins, outs, n):
    """what the sensors see of the given transfer function of the target axes"""
    rot = {c: turn(ctx, az[c], theta) for c in ("hx", "hy", "ex", "ey")}
    tf = np.zeros((n, len(outs), 2), dtype=complex)
    for p in range(n):
        for i, h in enumerate(ins):
            ch, sh = rot[h]
            for o, e in enumerate(outs):
                if e == "hz":
                    tf[p, o, i] = Z[p, "hz", "hx"] * ch + Z[p, "hz", "hy"] * sh
                else:
                    ce, se = rot[e]
                    x = Z[p, "ex", "hx"] * ch + Z[p, "ex", "hy"] * sh
                    y = Z[p, "ey", "hx"] * ch + Z[p, "ey", "hy"] * sh
                    tf[p, o, i] = x * ce + y * se
    return tf


def truth(ctx, n, outs):
    return {(p, o, i): ctx.complex(f"z{p}{o}{i}", lo=-100, hi=100) for p in range(n) for o in outs for i in ("hx", "hy")}


def check_values(ctx, z, tip, Z, n, outs, label):
    for p in range(n):
        for a, o in enumerate(("ex", "ey")):
            for b, i in enumerate(("hx", "hy")):
                if o in outs:
                    ctx.close(z[p, a, b], Z[p, o, i], label + ": impedance of the target axes", rtol=1e-5, atol=1e-4)
        if "hz" in outs:
            for b, i in enumerate(("hx", "hy")):
                ctx.close(tip[p, 0, b], Z[p, "hz", i], label + ": tipper of the target axes", rtol=1e-5, atol=1e-4)


def rotate(ctx, ins, outs, hand_h, hand_e, sym, n):
    az, theta = azimuths(ctx, hand_h, hand_e, sym)
    Z = truth(ctx, n, outs)
    z = build(ctx, ins, outs, az, n)
    z.transfer_functions = measured(ctx, az, theta, Z, ins, outs, n)
    z.sigma_s = np.array([np.eye(2)] * n)
    z.sigma_e = np.array([np.eye(len(outs))] * n)
    imp, err = z.calculate_impedance(theta)
    ctx.check(imp.shape == (n, 2, 2) and err.shape == (n, 2, 2), "shape")
    tip = None
    if "hz" in outs:
        tip, terr = z.calculate_tippers(theta)
        ctx.check(tip.shape == (n, 1, 2) and terr.shape == (n, 1, 2), "shape of the tipper")
    check_values(ctx, imp, tip, Z, n, outs, "rotated")
    # unit covariances stay unit covariances
    for p in range(n):
        for a in range(2):
            for b in range(2):
                ctx.close(err[p, a, b], 1.0, "unit errors stay unit errors", rtol=1e-5)
    if "hz" in outs:
        for b in range(2):
            ctx.close(terr[p, 0, b], 1.0, "unit tipper errors stay unit errors", rtol=1e-5)


def still(ctx, ins, outs):
    """sensors along the target axes: nothing changes, errors from the covariances as they are"""
    theta = ctx.choice("target", [0.0, 25.0, -130.0])
    az = {"hx": theta, "hy": theta + 90, "ex": theta, "ey": theta + 90, "hz": 0.0}
    n = 1
    Z = truth(ctx, n, outs)
    z = build(ctx, ins, outs, az, n)
    z.transfer_functions = np.array([[[Z[p, o, i] for i in ins] for o in outs] for p in range(n)])
    s, e = covariances(ctx, ins, outs, n)
    z.sigma_s, z.sigma_e = arrays(ctx, s, ins, n), arrays(ctx, e, outs, n)
    imp, err = z.calculate_impedance(theta)
    tip, terr = z.calculate_tippers(theta) if "hz" in outs else (None, None)
    check_values(ctx, imp, tip, Z, n, outs, "unrotated")
    for p in range(n):
        for a, o in enumerate(("ex", "ey")):
            for b, i in enumerate(("hx", "hy")):
                ctx.check(err[p, a, b] >= 0, "error not negative")
                ctx.close(err[p, a, b] ** 2, e[p, o, o] * s[p, i, i], "error of the covariances", rtol=1e-5, atol=1e-6)
        if "hz" in outs:
            for b, i in enumerate(("hx", "hy")):
                ctx.check(terr[p, 0, b] >= 0, "tipper error not negative")
                ctx.close(terr[p, 0, b] ** 2, e[p, "hz", "hz"] * s[p, i, i], "tipper error of the covariances", rtol=1e-5, atol=1e-6)


def covariances(ctx, ins, outs, n):
    """Hermitian, positive: a diagonal larger than the rest"""
    s, e = {}, {}
    for d, names, k in ((s, ins, "s"), (e, outs, "e")):
        for p in range(n):
            for a in range(len(names)):
                d[p, names[a], names[a]] = ctx.real(f"{k}{p}{names[a]}", 1, 10)
                for b in range(a):
                    c = ctx.complex(f"{k}{p}{names[a]}{names[b]}", lo=-0.3, hi=0.3)
                    d[p, names[a], names[b]] = c
                    d[p, names[b], names[a]] = c.conjugate()
    return s, e


def arrays(ctx, d, names, n):
    return np.array([[[d[p, a, b] for b in names] for a in names] for p in range(n)])


def errors(ctx, ins, outs, hand_h, hand_e, which):
    """errors are those of the covariances of the target axes"""
    az, theta = azimuths(ctx, hand_h, hand_e, which)
    z = build(ctx, ins, outs, az, 1)
    z.transfer_functions = np.array([[[1 + 0j, 2 + 1j]] * len(outs)])
    s, e = covariances(ctx, ins, outs, 1)
    z.sigma_s, z.sigma_e = arrays(ctx, s, ins, 1), arrays(ctx, e, outs, 1)
    rot = {c: turn(ctx, az[c], theta) for c in ("hx", "hy", "ex", "ey")}

    def power(d, x, y, k):
        """the variance along target axis k of a pair"""
        a, b = rot[x][k], rot[y][k]
        return (d[0, x, x] * a * a + d[0, y, y] * b * b + (d[0, x, y] + d[0, y, x]) * a * b).real

    ctx.trust_roots()
    imp, err = z.calculate_impedance(theta)
    for a in range(2):
        for b in range(2):
            ctx.check(err[0, a, b] >= 0, "error not negative")
            ctx.close(err[0, a, b] ** 2, np.abs(power(e, "ex", "ey", a) * power(s, "hx", "hy", b)), "error of the rotated covariances", rtol=1e-5, atol=1e-6)
    if "hz" in outs:
        tip, terr = z.calculate_tippers(theta)
        for b in range(2):
            ctx.check(terr[0, 0, b] >= 0, "tipper error not negative")
            ctx.close(terr[0, 0, b] ** 2, np.abs(e[0, "hz", "hz"] * power(s, "hx", "hy", b)), "tipper error of the rotated covariances", rtol=1e-5, atol=1e-6)


def degenerate(ctx):
    """parallel sensors: nothing is computed"""
    a, b = ctx.angle("h"), ctx.angle("e")
    what = ctx.choice("what", ["hx", "ex", "no ex", "no hz"])
    az = {"hx": a, "hy": a + 90.0, "ex": b, "ey": b + 90.0, "hz": 0.0}
    if what == "hx":
        az["hy"] = a
    elif what == "ex":
        az["ey"] = b
    outs = ("ex", "ey") if what == "no hz" else ("hz",) if what == "no ex" else ("hz", "ex", "ey")
    z = build(ctx, ("hx", "hy"), outs, az, 1)
    z.transfer_functions = np.ones((1, len(outs), 2)) + 0j
    z.sigma_s, z.sigma_e = np.array([np.eye(2)]), np.array([np.eye(len(outs))])
    if what == "no hz":
        ctx.check(z.calculate_tippers() == (None, None), "no tipper")
    else:
        ctx.check(z.calculate_impedance() == (None, None), "no impedance")


def dataset(ctx, ins, outs, use_declination):
    """the data set holds the rotated values under their channels, with or without declination"""
    dec = ctx.angle("declination", -90, 90)
    a = ctx.angle("h")
    az = {"hx": a, "hy": a + 90.0, "ex": a, "ey": a + 90.0, "hz": 0.0}
    theta = -dec if use_declination else 0.0
    n = 2
    Z = truth(ctx, n, outs)
    z = build(ctx, ins, outs, az, n)
    z.periods = np.array([4.0, 0.5])
    z.station_metadata.location.declination.value = dec
    z.transfer_functions = measured(ctx, az, theta, Z, ins, outs, n)
    z.sigma_s = np.array([[[1.0 + i + 2 * j + p for j in range(2)] for i in range(2)] for p in range(n)])
    z.sigma_e = np.array([[[5.0 + i + 3 * j + p for j in range(len(outs))] for i in range(len(outs))] for p in range(n)])
    z.sigma_s, z.sigma_e = z.sigma_s * np.eye(2), z.sigma_e * np.eye(len(outs))
    z._fill_dataset(rotate_to_measurement_coordinates=True, use_declination=use_declination)
    d = z.dataset.transfer_function.transpose("period", "output", "input")
    o_, i_ = d.coords["output"].data.tolist(), d.coords["input"].data.tolist()
    ctx.check(d.coords["period"].data.tolist() == [4.0, 0.5], "periods")
    for p in range(n):
        for o in outs:
            for i in ("hx", "hy"):
                ctx.close(d.data[p, o_.index(o), i_.index(i)], Z[p, o, i], "value of the data set", rtol=1e-5, atol=1e-4)
    s = z.dataset.inverse_signal_power.transpose("period", "output", "input").data
    e = z.dataset.residual_covariance.transpose("period", "output", "input").data
    for p in range(n):
        for k, i in enumerate(ins):
            ctx.close(s[p, o_.index(i), i_.index(i)], z.sigma_s[p, k, k], "signal power of the data set")
        for k, o in enumerate(outs):
            ctx.close(e[p, o_.index(o), i_.index(o)], z.sigma_e[p, k, k], "residual covariance of the data set")


def instances(tier):
    out = []
    orders = [(i, o) for i in IN_ORDERS for o in OUT_ORDERS + [("ex", "ey"), ("ey", "ex")]]
    if tier == "quick":
        orders = [orders[0], orders[1], orders[8], orders[4], orders[11]]
    for k, (i, o) in enumerate(orders):
        for sym in ("all", "magnetic", "electric", "sensors", "together"):
            for hh, he in ((1, 1), (-1, 1), (1, -1), (-1, -1)):
                if tier == "quick" and (hh, he) != (1, 1) and (k or sym not in ("all", "sensors")):
                    continue
                out.append((f"rotate:{'-'.join(i + o)}:{sym}:{hh}:{he}", rotate, {"ins": i, "outs": o, "hand_h": hh, "hand_e": he, "sym": sym, "n": 2 if sym == "together" else 1}))
                if sym in ("sensors", "magnetic", "electric") and (hh, he) == (1, 1):
                    out.append((f"errors:{'-'.join(i + o)}:{sym}", errors, {"ins": i, "outs": o, "hand_h": hh, "hand_e": he, "which": sym}))
        out.append((f"still:{'-'.join(i + o)}", still, {"ins": i, "outs": o}))
        if "hz" in o:
            for u in (False, True):
                out.append((f"dataset:{'-'.join(i + o)}:{'north' if u else 'sensors'}", dataset, {"ins": i, "outs": o, "use_declination": u}))
    out.append(("degenerate", degenerate, {}))
    return out
