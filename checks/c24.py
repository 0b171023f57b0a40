"""C24 FDSN channel codes encode and decode consistently"""
import numpy as np

from checks import gen

PROPERTY = "C24"
IMPORTS = ["mt_metadata.timeseries.stationxml.fdsn_tools", "mt_metadata.timeseries", "checks.gen"]
OPTS = {"budget_s": 120, "timeout_ms": 10000}
ASSUMPTIONS = ["an azimuth is a free direction: its cosine and sine are symbolic (with cos^2 + sin^2 = 1), exact arithmetic",
               "sampling rates that fall between the published ranges have no letter of their own and get A; nothing is claimed of decoding A"]
KINDS = {"tilt": "A", "creep": "B", "calibration": "C", "pressure": "D", "magnetic": "F", "gravity": "G", "humidity": "I", "temperature": "K",
         "water_current": "O", "electric": "Q", "rain_fall": "R", "linear_strain": "S", "tide": "T", "wind": "W"}
RANGES = {"F": (1000, 5000), "G": (1000, 5000), "D": (250, 1000), "C": (250, 1000), "E": (80, 250), "S": (10, 80), "H": (80, 250), "B": (10, 80),
          "M": (1, 10), "L": (0.95, 1.05), "V": (0.095, 0.105), "U": (0.0095, 0.0105), "R": (0.0001, 0.001), "P": (0.00001, 0.0001),
          "T": (0.000001, 0.00001), "Q": (0, 0.000001)}
COS = {15: np.cos(np.deg2rad(15)), 45: np.cos(np.deg2rad(45)), 75: np.cos(np.deg2rad(75))}


def BOUNDS(tier):
    return ("every positive sampling rate, every azimuth from -3600 to 3600 degrees, both orientations, every kind of measurement in every letter case, "
            "every direction letter; every text of up to 4 characters as code")


def F():
    from mt_metadata.timeseries.stationxml import fdsn_tools
    return fdsn_tools


def within(rate, code):
    lo, hi = RANGES[code]
    return (rate >= lo) & (rate <= hi)


def period(ctx):
    """the letter is that of a range which holds the rate; A only when there is none"""
    rate = ctx.real("rate", 0.0000000001, 1000000)
    c = F().get_period_code(rate)
    some = False
    for k in RANGES:
        some = some | within(rate, k)
    if c == "A":
        ctx.check(not some, "a rate within a range has its letter")
        return
    ctx.check(c in RANGES, "a letter of the table")
    ctx.check(within(rate, c), "the range of the letter holds the rate")
    r = F().read_channel_code(c + "FN")["period"]
    ctx.check((rate >= r["min"]) & (rate <= r["max"]), "the range read back holds the rate")


def any_case(ctx, tag, text):
    s = ctx.str(tag, minlen=len(text), maxlen=len(text), alphabet="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
    ctx.assume(s.lower() == text)
    return s


def measurement(ctx, kind):
    s = any_case(ctx, "kind", kind)
    c = F().get_measurement_code(s)
    ctx.check(c == KINDS[kind], "letter of the measurement")
    m = F().read_channel_code("B" + c + "N")["measurement"]
    # tide is taken for magnetic: older magnetic data used its letter
    ctx.check(m == ("magnetic" if kind == "tide" else kind), "measurement read back")


def other(ctx, n):
    """a measurement that is not known gets Y"""
    s = ctx.str("kind", minlen=n, maxlen=n, alphabet="abcdefghijklmnopqrstuvwxyz")
    for k in KINDS:
        for i in range(len(k) - n + 1):
            ctx.assume(s != k[i:i + n])
    ctx.check(F().get_measurement_code(s) == "Y", "a measurement that is not known")


def horizontal(ctx):
    """N within 15 degrees of the north-south axis, E within 15 of east-west, 1 up to 45 degrees off north-south, 2 beyond"""
    az = ctx.angle("az")
    c = np.cos(np.deg2rad(az))
    code = F().get_orientation_code(az, orientation="horizontal")
    a = np.abs(c)
    margin = 1e-9
    if code == "N":
        ctx.check(a >= COS[15] - margin, "N is near north or south")
    elif code == "E":
        ctx.check(a <= COS[75] + margin, "E is near east or west")
    elif code == "1":
        ctx.check((a <= COS[15] + margin) & (a >= COS[45] - margin), "1 is between north and north-east")
    elif code == "2":
        ctx.check((a <= COS[45] + margin) & (a >= COS[75] - margin), "2 is between north-east and east")
    else:
        ctx.fail("every azimuth has a letter")
        return
    o = F().read_channel_code("BF" + code)["orientation"]
    ctx.check(o == {"N": {"angle": 0, "variance": 15}, "E": {"angle": 90, "variance": 15}, "1": {"angle": 30, "variance": 15}, "2": {"angle": 60, "variance": 15}}[code],
              "orientation read back")


def turned(ctx):
    """half a turn and whole turns do not change the letter"""
    az = ctx.angle("az")
    c = np.abs(np.cos(np.deg2rad(az)))
    for k in COS.values():
        ctx.assume((c > k + 1e-6) | (c < k - 1e-6))
    how = ctx.choice("orientation", ["horizontal", "vertical"])
    a = F().get_orientation_code(az, orientation=how)
    b = F().get_orientation_code(az + ctx.choice("turn", [180, -180, 360, -360, 720]), orientation=how)
    ctx.check(a == b, "letter after half a turn")


def vertical(ctx):
    az = ctx.angle("az")
    code = F().get_orientation_code(az, orientation="vertical")
    a = np.abs(np.cos(np.deg2rad(az)))
    if code == "Z":
        ctx.check(a >= COS[15] - 1e-9, "Z is near vertical")
    else:
        ctx.check(code == "3", "letter of the vertical")
        ctx.check(a <= COS[15] + 1e-9, "3 is off the vertical")
    o = F().read_channel_code("BF" + code)["orientation"]
    ctx.check(o == {"angle": 0, "variance": 15}, "orientation read back")


def directed(ctx):
    d = ctx.str("d", minlen=1, maxlen=1, alphabet="abcxyzABCXYZ")
    try:
        c = F().get_orientation_code(direction=d)
    except ValueError:
        ctx.check((d.lower() != "x") & (d.lower() != "y") & (d.lower() != "z"), "a direction is understood")
        return
    ctx.check(((c == "N") & (d.lower() == "x")) | ((c == "E") & (d.lower() == "y")) | ((c == "Z") & (d.lower() == "z")), "letter of a direction")
    made = F().make_channel_code(8.0, "magnetic", d)
    ctx.check(made[2] == c, "code made from a direction")


def made(ctx, kind, orientation):
    """the parts of a code are those of the rate, the measurement and the direction"""
    f = F()
    rate = ctx.choice("rate", [0.00000005, 0.000002, 0.00005, 0.0005, 0.01, 0.1, 1.0, 4.0, 8, 16.0, 75.0, 100.0, 256, 512.0, 1000.0, 4096, 0.5, 24000.0])
    az = ctx.angle("az") if ctx.choice("form", ["free", "whole"]) == "free" else ctx.choice("degrees", [0, 90, -90, 14, 16, 50, 104, 134, 180, 359])
    s = kind.upper() if ctx.choice("case", [False, True]) else kind.capitalize()
    code = f.make_channel_code(rate, s, az, orientation=orientation)
    ctx.check(len(code) == 3, "three letters")
    ctx.check(code[0] == f.get_period_code(rate), "letter of the rate")
    ctx.check(code[1] == KINDS[kind], "letter of the measurement")
    ctx.check(code[2] == f.get_orientation_code(az, orientation=orientation), "letter of the direction")
    r = f.read_channel_code(code)
    if code[0] != "A":
        ctx.check((r["period"]["min"] <= rate) & (r["period"]["max"] >= rate), "range read back holds the rate")
    ctx.check(r["measurement"] == ("magnetic" if kind == "tide" else kind), "measurement read back")
    if kind in ("electric", "magnetic", "tide", "temperature"):
        m = f.create_mt_component(code)
        ctx.check(m == {"electric": "e", "magnetic": "h", "tide": "h", "temperature": "temperature"}[kind] + {"N": "x", "E": "y", "Z": "z", "1": "x", "2": "y", "3": "z"}[code[2]],
                  "component of a code")


def components(ctx, comp):
    """a channel's component comes back from its code when its azimuth is along its axis"""
    f = F()
    off = ctx.choice("off", [-14, -7, 0, 7, 14])
    az = {"x": 0, "y": 90, "z": 0}[comp[1]] + off
    code = f.make_channel_code(ctx.real("rate", 0.000001, 10000), "electric" if comp[0] == "e" else "magnetic", az, orientation="vertical" if comp[1] == "z" else "horizontal")
    ctx.check(f.create_mt_component(code) == comp, "component read back")


def unreadable(ctx, n):
    """anything that is not a code of three known letters is refused"""
    s = ctx.str("code", minlen=n, maxlen=n, alphabet="BLMFQTKNEZ123YX8h")
    try:
        r = F().read_channel_code(s)
    except ValueError:
        if n == 3:
            ctx.check((s[1] != "F") & (s[1] != "Q") & (s[1] != "T") & (s[1] != "K") & (s[1] != "B") | (s[2] != "N") & (s[2] != "E") & (s[2] != "Z") & (s[2] != "1") & (s[2] != "2") & (s[2] != "3"),
                      "a code is understood")
        return
    ctx.check(n == 3, "a code has three letters")
    ctx.check((r["measurement"] == "magnetic") == ((s[1] == "F") | (s[1] == "T")), "measurement of a code")
    ctx.check((r["measurement"] == "electric") == (s[1] == "Q"), "measurement of a code")
    ctx.check((r["measurement"] == "temperature") == (s[1] == "K"), "measurement of a code")
    e = False
    for k, v in {"N": 0, "E": 90, "Z": 0, "1": 30, "2": 60, "3": 0}.items():
        e = e | ((s[2] == k) & (r["orientation"]["angle"] == v))
    ctx.check(e, "orientation of a code")
    if s[0] == "B" or s[0] == "L" or s[0] == "M":
        for k in ("B", "L", "M"):
            if s[0] == k:
                ctx.check((r["period"]["min"] == RANGES[k][0]) & (r["period"]["max"] == RANGES[k][1]), "range of a code")


def location(ctx, kind):
    from mt_metadata.timeseries import Electric, Magnetic
    n = ctx.int("number", 0, 999)
    c = (Electric if kind == "ex" else Magnetic)(component=kind, channel_number=n)
    code = F().create_location_code(c)
    ctx.check(len(code) == 2, "two characters")
    ctx.check(code[0] == kind[0].upper(), "letter of the component")
    ctx.check(code[1:] == str(n % 10), "last digit of the number")


def instances(tier):
    out = [(f"made:{k}:{o}", made, {"kind": k, "orientation": o}) for k in KINDS for o in ("horizontal", "vertical")]
    out += [("period", period, {}), ("horizontal", horizontal, {}), ("vertical", vertical, {}), ("turned", turned, {}), ("directed", directed, {})]
    out += [(f"measurement:{k}", measurement, {"kind": k}) for k in KINDS]
    out += [(f"other:{n}", other, {"n": n}) for n in (8, 5, 4, 3)] + [(f"component:{c}", components, {"comp": c}) for c in ("ex", "ey", "hx", "hy", "hz")]
    out += [(f"unreadable:{n}", unreadable, {"n": n}) for n in (3, 2, 4, 1)] + [(f"location:{k}", location, {"kind": k}) for k in ("ex", "hy")]
    return out
