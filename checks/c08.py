"""C08 geographic positions are range checked and DMS conversion is faithful"""
PROPERTY = "C08"
IMPORTS = ["mt_metadata.utils.location_helpers", "mt_metadata.common", "mt_metadata.timeseries",
           "mt_metadata.transfer_functions.io.edi.metadata.define_measurement",
           "mt_metadata.transfer_functions.io.edi.metadata.header", "mt_metadata.transfer_functions.io.zonge.metadata.gps",
           "checks.gen"]
OPTS = {"budget_s": 120, "timeout_ms": 10000}
ASSUMPTIONS = ["positions are real numbers: the rounding of single floating point operations is not modelled",
               "texts given are plain decimal numbers or three fields separated by colons"]


def BOUNDS(tier):
    return ("every latitude and longitude in [-400, 400] as number, decimal text and degrees:minutes:seconds text, every whole "
            "degree, minute and real second with either sign including zero degrees; every metadata class with position attributes")


def printed(ctx, kind):
    """text of a position denotes the position within the precision printed"""
    from mt_metadata.utils.location_helpers import convert_position_float2str, convert_position_str2float
    p = ctx.real("p", -180, 180) if kind == "real" else ctx.int("p", -180, 180)
    t = convert_position_float2str(p)
    parts = t.split(":")
    ctx.check(len(parts) == 3, "three fields")
    m, s = float(parts[1]), float(parts[2])
    ctx.check((m >= 0) & (m < 60), "minutes in [0, 60)")
    ctx.check((s >= 0) & (s < 60), "seconds in [0, 60)")
    d = float(parts[0])
    ctx.check(d == int(d), "whole degrees")
    q = convert_position_str2float(t)
    ctx.check((q - p <= 1.0e-4 / 3600) & (p - q <= 1.0e-4 / 3600), "reading the text gives the position")


def dms(ctx, what):
    """a text of degrees, minutes and seconds denotes sign * (d + m/60 + s/3600)"""
    from mt_metadata.utils.location_helpers import convert_position_str2float, validate_position
    neg = ctx.choice("sign", ["", "-", "+"])
    d = ctx.int("d", 0, 180)
    m = ctx.int("m", 0, 59)
    s = ctx.real("s", 0, 59)
    form = ctx.choice("form", ["plain", "padded"])
    text = f"{neg}{d}:{m}:{s}" if form == "plain" else f"{neg}{'0'}{d}:{'0'}{m}:{'0'}{s}"
    v = d + m / 60 + s / 3600
    v = -v if neg == "-" else v
    if what == "str2float":
        ctx.close(convert_position_str2float(text), v, "value of the text", rtol=1e-12, atol=1e-9)
        return
    lim = 90 if what == "latitude" else 180
    ctx.assume((abs(v) < lim - 1e-6) | (abs(v) > lim + 1e-6))
    try:
        got = validate_position(text, what)
    except ValueError:
        ctx.check(abs(v) > lim, "refused only outside of the range")
        return
    ctx.check(abs(v) <= lim, "accepted only in the range")
    ctx.close(got, v, "value of the text", rtol=1e-12, atol=1e-9)


def classes():
    """(class, attribute, latitude or longitude)"""
    from checks import gen
    out = []
    for c in gen.classes():
        for f in gen.fields(c):
            k = {"latitude": "latitude", "lat": "latitude", "reflat": "latitude",
                 "longitude": "longitude", "lon": "longitude", "reflon": "longitude"}.get(f)
            if k and gen.kind(c, f) == "float":
                out.append((c, f, k))
    return out


def assigned(ctx, cls, attr, what, how):
    """every class with a position: accepted exactly in the range and stored as the number denoted"""
    from checks import gen
    lim = 90 if what == "latitude" else 180
    v = ctx.real("v", -400, 400)
    form = ctx.choice("form", ["number", "text"])
    given = v if form == "number" else f"{v}"
    try:
        if how == "assign":
            o = gen.make(cls)
            setattr(o, attr, given)
        elif how == "construct":
            o = cls(**{attr: given})
        else:
            o = gen.make(cls)
            o.from_dict({cls.__name__: {attr: given}} if False else {attr: given})
    except Exception:
        ctx.check((v > lim) | (v < -lim), "refused only outside of the range")
        return
    ctx.check((v <= lim) & (v >= -lim), "accepted only in the range")
    ctx.close(getattr(o, attr), v, "stored as given", rtol=1e-12, atol=1e-12)


def corners(ctx):
    """the two corners of a survey and the location of a station through dotted names"""
    from mt_metadata.timeseries import Station, Survey
    v = ctx.real("v", -400, 400)
    c = ctx.choice("what", [(Station, "location.latitude", 90), (Station, "location.longitude", 180), (Station, "location.elevation", 1000),
                            (Survey, "northwest_corner.latitude", 90), (Survey, "northwest_corner.longitude", 180),
                            (Survey, "southeast_corner.latitude", 90), (Survey, "southeast_corner.longitude", 180)])
    cls, path, lim = c
    o = cls()
    form = ctx.choice("form", ["number", "text"])
    try:
        o.update_attribute(path, v if form == "number" else f"{v}")
    except Exception:
        ctx.check((v > lim) | (v < -lim), "refused only outside of the range")
        ctx.check(o.get_attr_from_name(path) == 0, "a refused position changes nothing")
        return
    ctx.check((v <= lim) & (v >= -lim), "accepted only in the range")
    ctx.close(o.get_attr_from_name(path), v, "stored as given", rtol=1e-12, atol=1e-12)


def again(ctx):
    """a refused assignment leaves the position that was there"""
    from mt_metadata.common import BasicLocation
    o = BasicLocation(latitude=12.5, longitude=-101.25)
    a = ctx.choice("attr", ["latitude", "longitude"])
    v = ctx.real("v", -400, 400)
    old = getattr(o, a)
    other = "longitude" if a == "latitude" else "latitude"
    keep = getattr(o, other)
    try:
        setattr(o, a, v)
        ctx.check(getattr(o, a) == v, "stored as given")
    except Exception:
        ctx.check(getattr(o, a) == old, "a refused position changes nothing")
    ctx.check(getattr(o, other) == keep, "the other coordinate is left alone")


def bad(ctx):
    """texts that are no position are refused"""
    from mt_metadata.utils.location_helpers import convert_position_str2float, validate_position
    t = ctx.choice("text", ["abc", "10:20", "10:20:30:40", "10:aa:30", "x:1:2", "1:2:", ":1:2", "10,5"])
    w = ctx.choice("what", ["latitude", "longitude"])
    for f in (lambda: validate_position(t, w), lambda: convert_position_str2float(t)):
        try:
            f()
        except ValueError:
            continue
        ctx.fail("refused")


def instances(tier):
    out = [("printed:real", printed, {"kind": "real"}), ("printed:int", printed, {"kind": "int"}),
           ("dms:str2float", dms, {"what": "str2float"}), ("dms:latitude", dms, {"what": "latitude"}),
           ("dms:longitude", dms, {"what": "longitude"}), ("corners", corners, {}), ("again", again, {}), ("bad", bad, {})]
    for c, f, k in classes():
        for how in ("assign", "construct", "dict"):
            out.append((f"{c.__module__[12:]}.{c.__name__}.{f}:{how}", assigned, {"cls": c, "attr": f, "what": k, "how": how}))
    return out
