"""C30 Z-files written and read again"""
import numpy as np

PROPERTY = "C30"
IMPORTS = ["mt_metadata.transfer_functions.io.zfiles", "mt_metadata.transfer_functions.io.zfiles.zmm", "mt_metadata.transfer_functions.io.zfiles.metadata"]
OPTS = {"budget_s": 150, "timeout_ms": 15000, "time_s": 100}
ASSUMPTIONS = ["the file is kept in memory (the module's open() is replaced); its text is built and parsed by the code",
               "printed values are compared to half a unit of their last printed digit",
               "the sign of every value is fixed per instance, magnitudes are symbolic; single precision storage is not modelled"]
LETTERS = "abcxyzABCXYZ0123456789_"


def BOUNDS(tier):
    return ("3 to 5 channels (impedance, tipper or both), %d orders of channel numbers, 1 to %d periods, magnitudes of transfer function values, signal powers and residual "
            "covariances within 1e-9..1e9 with alternating, all positive and all negative signs, latitudes, longitudes (-180..180) and declinations of every value, azimuths and tilts within +-360, "
            "every station name of 1 to %d letters, digits and '_', decimation levels, bands and points up to 9999" % (4 if tier == "quick" else 14, 2, 4))


class File(object):
    """a file kept in memory"""

    def __init__(self, files, fn, mode):
        self.files, self.fn, self.mode, self.pos = files, str(fn), mode, 0
        if "w" in mode:
            files[self.fn] = ""

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write(self, text):
        self.files[self.fn] = self.files[self.fn] + text

    def read(self):
        return self.files[self.fn]

    def readline(self):
        lines = self.files[self.fn].split("\n")
        line = lines[self.pos]
        self.pos = self.pos + 1
        return line + "\n" if self.pos < len(lines) else line

    def __iter__(self):
        return iter(self.readlines())

    def readlines(self):
        lines = self.files[self.fn].split("\n")
        return [x + "\n" for x in lines[:-1]] + lines[-1:]


def patched(f):
    """run f(files) with the module's files in memory"""
    from mt_metadata.transfer_functions.io.zfiles import zmm
    files = {}
    zmm.open = lambda fn, mode="r", *a, **k: File(files, fn, mode)
    try:
        return f(files)
    finally:
        del zmm.open


def channel(name, number, az, tilt):
    from mt_metadata.transfer_functions.io.zfiles.metadata import Channel
    return Channel(channel=name, number=number, azimuth=az, tilt=tilt, dl="1")


def sign(kind, k):
    return 1 if kind == "+" else -1 if kind == "-" else (1 if k % 2 == 0 else -1)


class Maker(object):
    def __init__(self, ctx, signs):
        self.ctx, self.signs, self.k = ctx, signs, 0

    def value(self, name, lo=1e-9, hi=1e9):
        self.k = self.k + 1
        v = self.ctx.real(name, lo, hi)
        return v if sign(self.signs, self.k + self.k // 3) > 0 else -v

    def complex_(self, name, lo=1e-9, hi=1e9):
        return self.value(name + ".re", lo, hi) + 1j * self.value(name + ".im", lo, hi)


def head(ctx, z, name="a01"):
    from mt_metadata.timeseries import Run
    z.station_metadata.id = name
    z.station_metadata.transfer_function.processing_type = "robust multivariate"
    z.station_metadata.runs[0].sample_rate = 4.0 if len(z.station_metadata.runs) else None
    return z


def empty(ctx, ins, outs, periods, az=None, tilt=None, numbers=None, name="a01"):
    from mt_metadata.timeseries import Run
    from mt_metadata.transfer_functions.io.zfiles.zmm import ZMM
    z = ZMM()
    az = az or {"hx": 0.0, "hy": 90.0, "hz": 0.0, "ex": 0.0, "ey": 90.0}
    tilt = tilt or {}
    for k, c in enumerate(tuple(ins) + tuple(outs)):
        setattr(z, c, channel(c, k + 1, az[c], tilt.get(c, 0.0)))
    z.num_channels = 2 + len(outs)
    z.num_freq = len(periods)
    z.station_metadata.id = name
    z.station_metadata.transfer_function.processing_type = "robust multivariate"
    run = Run(id=name + "a")
    run.sample_rate = 4.0
    z.station_metadata.add_run(run)
    z.channel_nomenclature = z.channel_dict
    z.dataset = z._initialize_transfer_function(list(periods))
    return z


def put(da, p, o, i, v):
    c = {k: da.coords[k].data.tolist() for k in ("period", "output", "input")}
    da.data[c["period"].index(p), c["output"].index(o), c["input"].index(i)] = v


def get(da, p, o, i):
    d = da.transpose("period", "output", "input")
    c = {k: d.coords[k].data.tolist() for k in ("period", "output", "input")}
    return d.data[c["period"].index(p), c["output"].index(o), c["input"].index(i)]


def near(ctx, got, want, label, rtol=5.1e-5):
    """equal to the four printed decimals"""
    ctx.close(got.real, want.real, label + ", real part", rtol=rtol, atol=0)
    ctx.close(got.imag, want.imag, label + ", imaginary part", rtol=rtol, atol=0)


def fill(ctx, z, ins, outs, periods, signs, what, lo=1e-9, hi=1e9):
    """values of the data set; what is symbolic: the transfer function, the signal power or the residuals"""
    mk = Maker(ctx, signs)
    tf, s, e = {}, {}, {}
    for n, p in enumerate(periods):
        for a, o in enumerate(outs):
            for b, i in enumerate(ins):
                tf[p, o, i] = mk.complex_(f"t{n}{o}{i}", lo, hi) if what == "tf" else 1.5 + a - 2j * b + 10 * n
                put(z.dataset.transfer_function, p, o, i, tf[p, o, i])
        for d, names, da, k in ((s, ins, z.dataset.inverse_signal_power, "s"), (e, outs, z.dataset.residual_covariance, "e")):
            for a, x in enumerate(names):
                for b, y in enumerate(names[:a + 1]):
                    if what == k:
                        v = mk.complex_(f"{k}{n}{x}{y}") if a != b else ctx.real(f"{k}{n}{x}", 1e-9, 1e9) + 0j
                    else:
                        v = (3.0 + a + n + 0j) if a == b else (0.25 * (a + b) - 0.5j * (n + 1))
                    d[p, x, y] = v
                    d[p, y, x] = v.conjugate()
                    put(da, p, x, y, v)
                    put(da, p, y, x, v.conjugate())
    return tf, s, e


def again(z, rotate=False, fn="a01.zmm", **kw):
    """write, read into a new object"""
    from mt_metadata.transfer_functions.io.zfiles.zmm import ZMM

    def f(files):
        z.write(fn)
        out = ZMM()
        out.read(fn, rotate_to_measurement_coordinates=rotate, **kw)
        return out, files
    return patched(f)


def values(ctx, ins, outs, periods, signs, what, rotate=False, second=False):
    z = empty(ctx, ins, outs, periods)
    tf, s, e = fill(ctx, z, ins, outs, periods, signs, what)
    out, _ = again(z, rotate)
    if second:
        out, _ = again(out, rotate)
    ds = out.dataset
    tol = 1.1e-4 if second else 5.1e-5
    ctx.check(ds.coords["period"].data.tolist() == list(periods), "periods")
    ctx.check(out.input_channels == list(ins) and out.output_channels == list(outs), "channels of the file in the order of their numbers")
    for p in periods:
        for o in outs:
            for i in ins:
                near(ctx, get(ds.transfer_function, p, o, i), tf[p, o, i], "transfer function", tol)
        for x in ins:
            for y in ins:
                near(ctx, get(ds.inverse_signal_power, p, x, y), s[p, x, y], "signal power", tol)
        for x in outs:
            for y in outs:
                near(ctx, get(ds.residual_covariance, p, x, y), e[p, x, y], "residual covariance", tol)


def header(ctx, ins, outs, which):
    az = {"hx": 0.0, "hy": 90.0, "hz": 0.0, "ex": 0.0, "ey": 90.0}
    tilt = {c: 0.0 for c in az}
    lat, lon, dec, elev = 10.0, 20.0, 3.0, 0.0
    if "latitude" in which:
        lat = ctx.real("latitude", -90, 90)
    if "longitude" in which:
        lon = ctx.real("longitude", -180, 180)
    if "declination" in which:
        dec = ctx.real("declination", -180, 180)
    for c in ins + outs:
        if "azimuth-" + c in which:
            az[c] = ctx.real("az." + c, -360, 360)
        if "tilt-" + c in which:
            tilt[c] = ctx.real("tilt." + c, -90, 90)
    z = empty(ctx, ins, outs, (4.0,), az, tilt)
    z.station_metadata.location.latitude = lat
    z.station_metadata.location.longitude = lon
    z.station_metadata.location.declination.value = dec
    fill(ctx, z, ins, outs, (4.0,), "+", "none")
    out, _ = again(z)
    ctx.check(out.num_channels == 2 + len(outs) and out.num_freq == 1, "numbers of channels and periods")
    ctx.close(out.latitude, lat, "latitude", rtol=0, atol=0.00051)
    ctx.close(out.longitude, lon, "longitude", rtol=0, atol=0.00051)
    ctx.close(out.declination, dec, "declination", rtol=0, atol=0.0051)
    ctx.check(out.station == "a01" and out.station_metadata.id == "a01", "station")
    ctx.check(sorted(out.channels_recorded) == sorted(ins + outs), "channels")
    for k, c in enumerate(ins + outs):
        ch = getattr(out, c)
        ctx.check(ch.number == k + 1, "channel number")
        ctx.close(ch.azimuth, az[c], "azimuth", rtol=0, atol=0.0051)
        ctx.close(ch.tilt, tilt[c], "tilt", rtol=0, atol=0.0051)
    for c in ("hx", "hy", "hz", "ex", "ey"):
        if c not in ins + outs:
            ctx.check(getattr(out, c) is None, "no channel that was not written")
    run = out.station_metadata.runs[0]
    ctx.check(sorted(run.channels_recorded_all) == sorted(ins + outs), "channels of the run")
    for c in ins + outs:
        ctx.close(run.get_channel(c).measurement_azimuth, az[c], "azimuth of the run's channel", rtol=0, atol=0.0051)


def station(ctx, n, word=None):
    """names of stations"""
    name = ctx.str("name", minlen=n, maxlen=n, alphabet=LETTERS) if word is None else word
    ins, outs = ("hx", "hy"), ("ex", "ey")
    z = empty(ctx, ins, outs, (4.0,))
    z.station_metadata.id = name
    tf, s, e = fill(ctx, z, ins, outs, (4.0,), "+-", "none")
    out, _ = again(z)
    ctx.check(out.station == name, "station name")
    ctx.check(out.channels_recorded == list(ins + outs), "channels")
    ctx.check(out.num_channels == 4 and out.num_freq == 1, "numbers of channels and periods")
    near(ctx, get(out.dataset.transfer_function, 4.0, "ey", "hx"), tf[4.0, "ey", "hx"], "transfer function")


def decimation(ctx, n, k0, free):
    """levels, bands, numbers of points and sample rates of the periods"""
    ins, outs = ("hx", "hy"), ("hz", "ex", "ey")
    periods = (0.25, 4.0, 33.5, 1000.125)[:n]
    z = empty(ctx, ins, outs, periods)
    want = {}
    for k, p in enumerate(periods):
        want[p] = {"level": k, "bands": (k + 5, 10 * k + 7), "npts": 100 * k, "sample_rate": 4.0}
        if k == k0 and free == "level":
            want[p]["level"] = ctx.int("level", 0, 12)
            want[p]["npts"] = ctx.int("points", 0, 10 ** 9)
            want[p]["sample_rate"] = ctx.choice("rate", [0.25, 1.0, 4096.0])
        elif k == k0:
            want[p]["bands"] = (ctx.int("first", 0, 9999), ctx.int("last", 0, 9999))
        z.decimation_dict[f"{p:.10g}"] = dict(want[p])
    fill(ctx, z, ins, outs, periods, "+", "none")
    out, _ = again(z)
    ctx.check(sorted(out.decimation_dict) == sorted(f"{p:.10g}" for p in periods), "a description for every period")
    ctx.check(out.dataset.coords["period"].data.tolist() == list(periods), "periods")
    for p in periods:
        got = out.decimation_dict[f"{p:.10g}"]
        for k in ("level", "npts", "sample_rate"):
            ctx.check(got[k] == want[p][k], k + " of the period")
        ctx.check(got["bands"][0] == want[p]["bands"][0] and got["bands"][1] == want[p]["bands"][1], "band of the period")


def numbers(ctx, outs):
    """channel numbers in any order: the two lowest are the input channels"""
    names = ("hx", "hy") + outs
    ins = ctx.perm("inputs", ["hx", "hy"])
    rest = ctx.perm("outputs", list(outs))
    order = list(ins) + list(rest)
    z = empty(ctx, tuple(order[:2]), tuple(order[2:]), (4.0, 0.5))
    tf, s, e = fill(ctx, z, order[:2], order[2:], (4.0, 0.5), "+-", "none")
    out, _ = again(z)
    ctx.check(out.channels_recorded == order, "channels in the order of their numbers")
    for p in (4.0, 0.5):
        for o in order[2:]:
            for i in order[:2]:
                near(ctx, get(out.dataset.transfer_function, p, o, i), tf[p, o, i], "transfer function")
            for x in order[2:]:
                near(ctx, get(out.dataset.residual_covariance, p, o, x), e[p, o, x], "residual covariance")
        for x in order[:2]:
            for y in order[:2]:
                near(ctx, get(out.dataset.inverse_signal_power, p, x, y), s[p, x, y], "signal power")


def rotated(ctx, ins, outs):
    """sensors along the geographic axes: reading with rotation gives the same transfer function"""
    z = empty(ctx, ins, outs, (4.0,))
    tf, s, e = fill(ctx, z, ins, outs, (4.0,), "+-", "tf", 0.1, 10)
    out, _ = again(z, True)
    for o in outs:
        for i in ins:
            g, w = get(out.dataset.transfer_function, 4.0, o, i), tf[4.0, o, i]
            ctx.close(g.real, w.real, "transfer function read with rotation, real part", rtol=6e-5, atol=1e-6)
            ctx.close(g.imag, w.imag, "transfer function read with rotation, imaginary part", rtol=6e-5, atol=1e-6)


def instances(tier):
    out = []
    five = [(("hx", "hy"), ("hz", "ex", "ey")), (("hy", "hx"), ("ex", "ey", "hz")), (("hx", "hy"), ("ey", "hz", "ex"))]
    small = [(("hx", "hy"), ("ex", "ey")), (("hx", "hy"), ("hz",))]
    for i, o in five + small:
        for what in ("tf", "s", "e"):
            for signs in ("+-", "+", "-"):
                out.append((f"values:{'-'.join(i + o)}:{what}:{signs}", values, {"ins": i, "outs": o, "periods": (4.0, 0.5) if what != "tf" else (4.0,), "signs": signs, "what": what}))
    for i, o in five + small:
        tag = "-".join(i + o)
        out.append((f"twice:{tag}", values, {"ins": i, "outs": o, "periods": (4.0,), "signs": "+-", "what": "tf", "second": True}))
        out.append((f"rotated:{tag}", rotated, {"ins": i, "outs": o}))
        cs = i + o
        which = ["latitude", "longitude", "declination"] if o == ("hz",) or tier == "thorough" else []
        which += [f"azimuth-{c}" for c in cs] + [f"tilt-{c}" for c in cs]
        if tier == "thorough":
            which += ["latitude declination", "azimuth-%s tilt-%s" % (cs[0], cs[-1]), "azimuth-%s azimuth-%s" % (cs[1], cs[2])]
        for w in which:
            out.append((f"header:{tag}:{w}", header, {"ins": i, "outs": o, "which": w}))
    for n in (1, 3) if tier == "quick" else (1, 2, 3, 4, 5):
        out.append((f"station:{n}", station, {"n": n}))
    for w in ("station1", "period", "number7", "coord", "coordinate", "orientations"):
        out.append((f"station:{w}", station, {"n": 0, "word": w}))
    for n in (1, 2) if tier == "quick" else (1, 2, 3, 4):
        for k in range(n):
            for f in ("level", "band"):
                out.append((f"decimation:{n}:{k}:{f}", decimation, {"n": n, "k0": k, "free": f}))
    for o in (("ex", "ey"), ("hz", "ex", "ey")):
        out.append((f"numbers:{len(o)}", numbers, {"outs": o}))
    return out
