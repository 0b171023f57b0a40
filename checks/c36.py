"""C36 J-files and Zonge AVG files are read into the right elements"""
import numpy as np
import pandas as pd

PROPERTY = "C36"
IMPORTS = ["mt_metadata.transfer_functions.io.jfiles", "mt_metadata.transfer_functions.io.jfiles.jfile", "mt_metadata.transfer_functions.io.jfiles.metadata",
           "mt_metadata.transfer_functions.io.zonge", "mt_metadata.transfer_functions.io.zonge.zonge", "mt_metadata.transfer_functions.io.zonge.metadata"]
OPTS = {"budget_s": 150, "timeout_ms": 15000}
ASSUMPTIONS = ["the file is a list of lines in memory (the opening of the file is replaced); its text is parsed by the code",
               "exact arithmetic; sine, cosine, arctangent and square root are modelled by their laws",
               "the periods of the file are fixed numbers; values are finite"]
Z = {"zxx": (0, 0), "zxy": (0, 1), "zyx": (1, 0), "zyy": (1, 1)}
T = {"tzx": (0, 0), "tzy": (0, 1)}


def BOUNDS(tier):
    return ("every value, error (parts within +-1e9) and position; 1 to %d periods out of a fixed list in any order; %s of component blocks, with and without tipper, with missing and masked "
            "periods, upper and lower case; Zonge: every magnitude, phase and error percentage, vertical axis up and down, every complex value for the conversions"
            % ((3, "6 orders") if tier == "quick" else (4, "20 orders")))


class Path_(object):
    """a path whose file is a list of lines"""

    def __init__(self, lines, suffix):
        self.lines, self.suffix, self.name, self.stem = lines, suffix, "x" + suffix, "x"

    def exists(self):
        return True

    def __str__(self):
        return "x" + self.suffix

    def stat(self):
        return Stat()

    def open(self, mode="r"):
        return Open(self)


class Stat(object):
    st_ctime = 0.0


class Open(object):
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def readlines(self):
        return list(self.path.lines)

    def read(self):
        return "".join(self.path.lines)

    def write(self, text):
        self.path.lines = text.split("\n")


# --- J-files -----------------------------------------------------------------------------------------------------------------------
HEADER = ["#BIRRP Version 5 basic mode output\n", "#outputs=       2 inputs=       2 references=       2\n", "#tbw=   2.000000     deltat=  0.1000000    \n",
          "#nfil=       0\n", "#ncomp=       4\n", "#indices=       1       2       3       4\n", "#filnam=/data/latest/longrun/elevated/azimuth_3.txt      \n",
          "#nskip=       0 nread=   38750\n", "#theta1=   0.000000     theta2=   90.00000     phi=   0.000000    \n"]
PERIODS = ["    1.333333", "    128.0000", "    2.000000", "    16.00000"]


def read_j(lines):
    from mt_metadata.transfer_functions.io.jfiles import jfile
    path = Path_(lines, ".j")
    jfile.open = lambda fn, *a, **k: Open(path)
    try:
        jf = jfile.JFile()
        jf._jfn = path
        jf.read()
        return jf
    finally:
        del jfile.open


def position(lat="", lon="", elev="", az="    0.000000"):
    return [f">LATITUDE  = {lat}\n", f">LONGITUDE = {lon}\n", f">ELEVATION = {elev}\n", f">AZIMUTH   = {az}\n"]


def block(name, rows):
    return [name + "\n", "%d\n" % len(rows)] + ["%s       %s      %s       %s      0.5000000      0.4335710    \n" % tuple(r) for r in rows]


def j_values(ctx, comps, n, missing=(), masked=()):
    """values of the rows: {(component, period number): (re, im, err)}"""
    out = {}
    for c in comps:
        for k in range(n):
            if (c, k) in missing:
                continue
            v = [ctx.real(f"{c}.{k}.{w}", lo, 1e9) for w, lo in (("re", -1e9), ("im", -1e9), ("err", 0))]
            ctx.assume((v[0] != -999) & (v[1] != -999))  # the mark of masked points
            out[c, k] = tuple(f"{x}" for x in v)
            if (c, k) in masked:
                out[c, k] = ("-999.0000", "nan", out[c, k][2])
    return out


def h_jfile(ctx, order, n, missing=(), masked=(), upper=True, unit=" S.I.", header=True):
    names = [o for o in order if o[0] in "zt"]
    vals = j_values(ctx, names, n, missing, masked)
    lines = HEADER + position() + ["BP05                                        \n"]
    for o in order:
        rows = [(PERIODS[k],) + vals[o, k] for k in range(n) if (o, k) in vals] if o[0] in "zt" else [(PERIODS[k], 41.1, 48.2, 47.4) for k in range(n)]
        lines = lines + block((o.upper() if upper else o) + (unit if o[0] in "zt" else ""), rows)
    jf = read_j(lines)
    judge_j(ctx, jf, vals, names, [float(p) for p in PERIODS[:n]])


def judge_j(ctx, jf, vals, names, periods):
    per = [float(p) for p in jf.periods]
    ctx.check(len(per) == len(periods), "every period of the file is there once")
    for k, p in enumerate(periods):
        at = [i for i, q in enumerate(per) if abs(q - p) <= 1e-9 * p]
        ctx.check(len(at) == 1, "every period of the file is there once")
        for comps, val, err, what in ((Z, jf.z, jf.z_err, "impedance"), (T, jf.t, jf.t_err, "tipper")):
            for c, (i, j) in comps.items():
                re, im, e = vals.get((c, k), ("0", "0", "0"))
                number = [0.0 if x in ("-999.0000", "nan") else float(x) for x in (re, im, e)]
                ctx.check(val[at[0], i, j].real == number[0], f"{what} at its period and element, real part")
                ctx.check(val[at[0], i, j].imag == number[1], f"{what} at its period and element, imaginary part")
                ctx.check(err[at[0], i, j] == number[2], f"{what} error at its period and element")


def h_jposition(ctx, which, lower=False, spaces=False):
    v = {"lat": ctx.real("lat", -90, 90), "lon": ctx.real("lon", -180, 180), "elev": ctx.real("elev", -12000, 9000), "az": ctx.real("az", -360, 360)}
    text = {k: f"{v[k]}" if k in which else "" for k in v}
    pos = position(**text)
    if lower:
        pos = [p.replace("LATITUDE", "latitude").replace("LONGITUDE", "longitude").replace("ELEVATION", "elevation").replace("AZIMUTH", "azimuth") for p in pos]
    if spaces:
        pos = [p.replace(" = ", "=") for p in pos]
    rows = [(PERIODS[0], "1.0", "2.0", "0.5")]
    lines = HEADER + pos + ["longlat7  \n"]
    for c in Z:
        lines = lines + block(c.upper() + " S.I.", rows)
    jf = read_j(lines)
    st = jf.station_metadata
    ctx.check(st.id == "longlat7", "name of the station")
    for k, attr in (("lat", "latitude"), ("lon", "longitude"), ("elev", "elevation")):
        ctx.check(getattr(st.location, attr) == (v[k] if k in which else 0), f"{attr} of the station")
        ctx.check(getattr(jf.header, attr) == (v[k] if k in which else 0), f"{attr} of the header")
    ctx.check(jf.header.azimuth == (v["az"] if "az" in which else 0), "azimuth of the header")
    ctx.check([float(p) for p in jf.periods] == [float(PERIODS[0])], "period of the file")


# --- Zonge AVG files ---------------------------------------------------------------------------------------------------------------
ZHEAD = [" \n", "$Survey.Type=MT\n", "$MTEdit:Version=3.11n applied 2022/08/02\n", "$GDP.Type=Zen\n", "$GPS.Datum=WGS84\n", "$Rx.GdpStn= 22\n", "$Rx.HPR=11,0,180\n", " \n"]
FREQS = ["2.3438E-2", "8.0000E+0", "0.1875", "1"]
SKP = "Skp,Freq,      E.mag,      B.mag,      Z.mag,      Z.phz,   ARes.mag,   ARes.%err,Z.perr,  Coher,   FC.NUse,FC.NTry\n"
UP = {"zxx": (1, 1), "zxy": (1, 0), "zyx": (0, 1), "zyy": (0, 0), "tzx": (0, 1), "tzy": (0, 0)}


def read_z(lines, up=False):
    from mt_metadata.transfer_functions.io.zonge.zonge import ZongeMTAvg
    z = ZongeMTAvg()
    if up:
        z.z_positive = "up"
    z._fn = Path_(lines, ".avg")
    z.read()
    return z


def h_zonge(ctx, order, n, up=False, missing=(), what="z", lower=False):
    """what: the symbolic columns, values (z) or errors (e)"""
    lines = list(ZHEAD)
    rows = {}
    for c in order:
        lines = lines + ["$Rx.Cmp = %s\n" % (c if lower else c.capitalize()), SKP]
        for k in range(n):
            if (c, k) in missing:
                continue
            m = len(rows)
            mag = ctx.real(f"{c}.{k}.mag", 0, 1e9) if what == "z" else 1.5 + m
            phase = np.radians(ctx.angle(f"{c}.{k}.phase")) if what == "z" else 0.25
            rho = ctx.real(f"{c}.{k}.rho", 0, 1e9) if what == "e" else 2.0
            err = ctx.real(f"{c}.{k}.err", 0, 1e6) if what == "e" else 100.0
            perr = np.radians(ctx.angle(f"{c}.{k}.perr")) if what == "e" else 0.5
            rows[c, k] = (mag, phase, rho, err)
            lines.append(f"2, {FREQS[k]}, 7.8081E-01, 2.9611E-01, {mag}, {1000 * phase}, {rho}, {err}, {1000 * perr}, 0.971, 8, 16\n")
    z = read_z(lines, up)
    present = sorted(set([k for (_, k) in rows]))
    fr = [float(f) for f in z.frequency]
    ctx.check(fr == sorted([float(FREQS[k]) for k in present]), "frequencies of the file, ascending")
    table = UP if up else dict(Z, **T)
    if not any(c[0] == "t" for c in order):
        ctx.check(z.t is None, "no tipper in the file")
    for k in present:
        i = fr.index(float(FREQS[k]))
        for c in Z if not any(o[0] == "t" for o in order) else table:
            val, ve, name = (z.z, z.z_err, "impedance") if c[0] == "z" else (z.t, z.t_err, "tipper")
            a, b = table[c]
            if (c, k) not in rows:
                ctx.check(val[i, a, b] == 0, f"{name} not in the file is zero")
                continue
            mag, phase, rho, err = rows[c, k]
            sign = -1 if up and c[0] == "t" else 1
            if what == "z":
                ctx.close(val[i, a, b].real, sign * mag * np.cos(phase), f"{name} at its frequency and element, real part", rtol=1e-9, atol=1e-9)
                ctx.close(val[i, a, b].imag, sign * mag * np.sin(phase), f"{name} at its frequency and element, imaginary part", rtol=1e-9, atol=1e-9)
            else:
                scale = 5 * float(FREQS[k]) if c[0] == "z" else 1
                ctx.check(ve[i, a, b] >= 0, f"{name} error is not negative")
                ctx.close(ve[i, a, b] * ve[i, a, b], err / 100 * rho * scale, f"{name} error at its frequency and element", rtol=1e-9, atol=1e-12)


def h_zposition(ctx, case):
    lat, lon = ctx.real("lat", -90, 90), ctx.real("lon", -180, 180)
    lines = list(ZHEAD)
    lines[4:4] = [f"$GPS.Lat={lat}\n", f"$GPS.Lon={lon}\n"] if case == "plain" else [f"$GPS.Lon= {lon} \n", f"$GPS.Lat= {lat} \n"]
    for c in Z:
        lines = lines + ["$Rx.Cmp = %s\n" % c.capitalize(), SKP, "2, 1, 7.8081E-01, 2.9611E-01, 1.0, 100.0, 5.0, 10.0, 50.0, 0.971, 8, 16\n"]
    z = read_z(lines)
    st = z.station_metadata
    ctx.check(st.location.latitude == lat, "latitude of the station")
    ctx.check(st.location.longitude == lon, "longitude of the station")
    ctx.check(st.id == "22", "name of the station")


def h_convert(ctx, form):
    """to real and imaginary part of amplitude and phase"""
    from mt_metadata.transfer_functions.io.zonge.zonge import ZongeMTAvg
    z = ZongeMTAvg()
    ctx.angle_facts()
    ctx.trust_roots()
    re, im = ctx.real("re", -1e9, 1e9), ctx.real("im", -1e9, 1e9)
    if form == "array":
        a, p = z.to_amp_phase(np.array([re, 1.0]), np.array([im, 1.0]))
        r, i = z.to_complex(a, p)
        ctx.close(r[1], 1.0, "real part of the next element", atol=1e-9)
        r, i, a, p = r[0], i[0], a[0], p[0]
    else:
        a, p = z.to_amp_phase(re, im)
        r, i = z.to_complex(a, p)
    ctx.check(a >= 0, "amplitude is not negative")
    ctx.close(a * a, re * re + im * im, "amplitude", rtol=1e-9, atol=1e-9)
    ctx.check(abs(r - re) <= 1e-12 * (abs(re) + abs(im)), "real part")
    ctx.check(abs(i - im) <= 1e-12 * (abs(re) + abs(im)), "imaginary part")


def h_convert_back(ctx, form):
    """to amplitude and phase of real and imaginary part"""
    from mt_metadata.transfer_functions.io.zonge.zonge import ZongeMTAvg
    z = ZongeMTAvg()
    ctx.angle_facts()
    ctx.trust_roots()
    mag, ph = ctx.real("mag", 1e-9, 1e9), np.radians(ctx.angle("phase", -180, 180))
    ctx.assume((ph > -3.14159) & (ph < 3.14159))
    r, i = z.to_complex(mag, 1000 * ph) if form == "number" else [x[0] for x in z.to_complex(np.array([mag]), np.array([1000 * ph]))]
    ctx.close(r, mag * np.cos(ph), "real part of milliradians", rtol=1e-9, atol=1e-9)
    ctx.close(i, mag * np.sin(ph), "imaginary part of milliradians", rtol=1e-9, atol=1e-9)
    a, p = z.to_amp_phase(r, i)
    ctx.close(a, mag, "amplitude", rtol=1e-9, atol=1e-12)
    ctx.close(p, 1000 * ph, "phase in milliradians", rtol=1e-9, atol=1e-6)


def instances(tier):
    out = []
    std, tip = ["zxx", "zxy", "zyx", "zyy"], ["zxx", "zxy", "zyx", "zyy", "tzx", "tzy"]
    orders = [("standard", std), ("tipper", tip), ("reversed", list(reversed(tip))), ("tipper first", ["tzy", "tzx", "zyy", "zxx", "zyx", "zxy"]),
              ("resistivities last", tip + ["rxx", "rxy", "ryx", "ryy"]), ("resistivities before tipper", std + ["rxx", "rxy", "ryx", "ryy"] + ["tzx", "tzy"])]
    if tier != "quick":
        import itertools
        orders += [("order%d" % k, list(p)) for k, p in enumerate(itertools.permutations(tip)) if k % 48 == 7]
    for name, o in orders:
        for n in ((1, 3) if tier == "quick" else (1, 2, 3, 4)):
            out.append((f"j:{name}:{n}", h_jfile, dict(order=o, n=n)))
    out += [("j:lower", h_jfile, dict(order=tip, n=2, upper=False)), ("j:no unit", h_jfile, dict(order=tip, n=2, unit="")), ("j:field units", h_jfile, dict(order=tip, n=2, unit=" field units")),
            ("j:missing first", h_jfile, dict(order=tip, n=3, missing=(("zxx", 0), ("tzy", 0)))), ("j:missing middle", h_jfile, dict(order=tip, n=3, missing=(("zxy", 1), ("zyx", 1), ("tzx", 1)))),
            ("j:missing only one", h_jfile, dict(order=std, n=3, missing=tuple((c, 2) for c in ("zxx", "zxy", "zyx")))),
            ("j:tzy only", h_jfile, dict(order=std + ["tzy"], n=2)), ("j:tzx only", h_jfile, dict(order=["tzx"] + std, n=2)), ("j:no impedance", h_jfile, dict(order=["tzx", "tzy"], n=2)),
            ("j:off-diagonal", h_jfile, dict(order=["zyx", "zxy"], n=2)), ("j:tzy elsewhere", h_jfile, dict(order=tip, n=3, missing=tuple(("tzx", k) for k in range(3)) + (("zxx", 1),))),
            ("j:masked", h_jfile, dict(order=tip, n=2, masked=(("zxx", 0), ("zyx", 1), ("tzx", 0))))]
    for w in (("lat", "lon", "elev", "az"), ("lat",), ("lon",), ("elev",), ("az",), ()):
        out.append(("jpos:%s" % "+".join(w), h_jposition, dict(which=w)))
    out += [("jpos:lower", h_jposition, dict(which=("lat", "lon", "elev", "az"), lower=True)), ("jpos:narrow", h_jposition, dict(which=("lat", "lon", "elev", "az"), spaces=True))]
    for name, o in (("standard", std), ("tipper", tip), ("reversed", list(reversed(tip)))):
        for up in (False, True):
            for what in "ze":
                out.append((f"z:{name}:{'up' if up else 'down'}:{what}", h_zonge, dict(order=o, n=2, up=up, what=what)))
    out += [("z:tzy only", h_zonge, dict(order=std + ["tzy"], n=1)), ("z:tzx only", h_zonge, dict(order=std + ["tzx"], n=1)), ("z:off-diagonal", h_zonge, dict(order=["zyx", "zxy"], n=1)),
            ("z:three", h_zonge, dict(order=std, n=3)), ("z:lower", h_zonge, dict(order=tip, n=1, lower=True)), ("z:missing", h_zonge, dict(order=tip, n=3, missing=(("zxx", 0), ("zyx", 1), ("tzy", 2)))),
            ("z:missing:up", h_zonge, dict(order=tip, n=2, up=True, missing=(("zxx", 0), ("zyx", 1), ("tzy", 1)))),
            ("zpos:plain", h_zposition, dict(case="plain")), ("zpos:other", h_zposition, dict(case="other"))]
    for f in ("number", "array"):
        out += [("convert:" + f, h_convert, dict(form=f)), ("back:" + f, h_convert_back, dict(form=f))]
    return out
