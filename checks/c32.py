"""C32 EDI metadata goes to the place it belongs"""
import numpy as np

from checks.c31 import written, read

PROPERTY = "C32"
IMPORTS = ["checks.c31", "mt_metadata.transfer_functions.io.edi", "mt_metadata.transfer_functions.io.edi.edi", "mt_metadata.transfer_functions.io.edi.metadata",
           "mt_metadata.transfer_functions.io.tools", "mt_metadata.timeseries"]
OPTS = {"budget_s": 200, "timeout_ms": 15000, "time_s": 100}
ASSUMPTIONS = ["the file is kept in memory (the module's open() is replaced); its text is built and parsed by the code",
               "printed values are compared to half a unit of their last printed digit (seconds of positions: 4 decimals, decimal degrees 6, elevations 3, coordinates and angles of measurements 2)",
               "the sign of every value is fixed per instance, magnitudes are symbolic",
               "texts are free of the signs '=', ':', '>', '<', quotes and brackets, the separators of the format; station names are letters, digits and underscores",
               "writing a header brings the date and program of the file up to date"]
WORD = "abcxyzABCXYZ0123456789_"
ELECTRIC, MAGNETIC = ("ex", "ey"), ("hx", "hy", "hz", "rrhx", "rrhy")


def BOUNDS(tier):
    return ("latitudes, longitudes and elevations of every value and sign in both formats, declinations, every station name of 1 to %d characters, texts of %d characters (in the whole file in degrees, minutes and seconds: up to 1 degree when quick), start and end at every second of 40 years; "
            "one coordinate, identifier or angle of one of up to 7 measurements at a time within +-99999; 1 to 3 information lines with keys and values of 1 to 3 characters"
            % ((4, 3) if tier == "quick" else (8, 6)))


def signed(ctx, name, sign, lo, hi):
    v = ctx.real(name, lo, hi)
    return v if sign == "+" else -v


def lines(text):
    parts = "".join(text).split("\n")
    return [p + "\n" for p in parts]


# --- header --------------------------------------------------------------------------------------------------------------------------
LAT, LON = 4e-8, 4e-8  # 4 decimals of a second


def position(ctx, which, sign, fmt, longitude, most=180):
    from mt_metadata.transfer_functions.io.edi.metadata import Header
    h = Header()
    h.dataid = "a01"
    lat, lon, elev = 10.5, -20.25, 3.5
    if which == "latitude":
        lat = signed(ctx, "latitude", sign, 0, 90)
    elif which == "longitude":
        lon = signed(ctx, "longitude", sign, 0, most)
    else:
        elev = signed(ctx, "elevation", sign, 0.001, 9000)
    h.latitude, h.longitude, h.elevation = lat, lon, elev
    out = Header()
    out.read_header(lines(h.write_header(latlon_format=fmt, longitude_format=longitude)))
    tol = 5.1e-7 if fmt == "dd" else 1.5e-8
    ctx.close(out.latitude, lat, "latitude", rtol=0, atol=tol)
    ctx.close(out.longitude, lon, "longitude", rtol=0, atol=tol)
    ctx.close(out.elevation, elev, "elevation", rtol=0, atol=0.00051)
    ctx.check(out.dataid == "a01", "station")


def declination(ctx, sign):
    from mt_metadata.transfer_functions.io.edi.metadata import Header
    h = Header()
    h.dataid = "a01"
    d = signed(ctx, "declination", sign, 0.001, 180)
    h.declination.value = d
    h.declination.model = ctx.choice("model", ["IGRF", "WMM"])
    out = Header()
    out.read_header(lines(h.write_header()))
    ctx.close(out.declination.value, d, "declination", rtol=1e-9, atol=1e-9)
    ctx.check(out.declination.model == h.declination.model, "declination model")


TEXTS = ("acqby", "fileby", "project", "prospect", "loc", "survey", "country", "state", "county", "township", "section")


def texts(ctx, which, n):
    from mt_metadata.transfer_functions.io.edi.metadata import Header
    h = Header()
    word = ctx.str("word", minlen=n, maxlen=n, alphabet=WORD, first="abcxyzABCXYZ")
    h.dataid = "a01"
    was = {}
    for k, t in enumerate(TEXTS + ("dataid",)):
        v = word if t == which else ("st%d" % k if t == "dataid" else "text %d" % k)
        setattr(h, t, v)
        was[t] = v
    out = Header()
    out.read_header(lines(h.write_header()))
    for t in TEXTS + ("dataid",):
        got = getattr(out, t)
        if t in ("country", "state", "county", "township", "section") and not isinstance(getattr(h, t), str):
            ctx.check(got == getattr(h, t), t)
            continue
        ctx.check(got == was[t], "station" if t == "dataid" else t)


def dates(ctx, which):
    from mt_metadata.common.mttime import MTime
    from mt_metadata.transfer_functions.io.edi.metadata import Header
    h = Header()
    h.dataid = "a01"
    s, e = 1577934245, 1580000000
    if which == "acqdate":
        s = ctx.int("start", 1000000, 1400000000)
    else:
        e = ctx.int("end", 1000000, 1400000000)
    h.acqdate = MTime(time_stamp=s)
    h.enddate = MTime(time_stamp=e)
    out = Header()
    out.read_header(lines(h.write_header()))
    ctx.check(out.acqdate.epoch_seconds == s, "start")
    ctx.check(out.enddate.epoch_seconds == e, "end")


def choices(ctx):
    from mt_metadata.transfer_functions.io.edi.metadata import Header
    h = Header()
    h.dataid = "a01"
    h.coordinate_system = ctx.choice("frame", ["geographic", "geomagnetic", "station"])
    h.datum = ctx.choice("datum", ["WGS 84", "NAD83", "ETRS89"])
    h.units = ctx.choice("units", ["milliVolt per kilometer per nanoTesla", "m", "ohm"])
    out = Header()
    out.read_header(lines(h.write_header()))
    ctx.check(out.coordinate_system == h.coordinate_system, "coordinate system")
    ctx.check(out.datum == h.datum, "datum")
    ctx.check(out.units == h.units, "units")


# --- measurements ------------------------------------------------------------------------------------------------------------------
def base(comp, k):
    from mt_metadata.transfer_functions.io.edi.metadata import EMeasurement, HMeasurement
    if "h" in comp:
        return HMeasurement(chtype=comp, id=k + 1, x=k + 0.5, y=-k - 0.25, z=2.0 * k, azm=10.0 * k + 3, dip=k - 2.5, acqchan=str(k + 11))
    if comp == "ex":
        return EMeasurement(chtype=comp, id=k + 1, x=-50.0, x2=45.0, y=0.0, y2=0.0, z=0.5, z2=1.5, acqchan=str(k + 11))
    return EMeasurement(chtype=comp, id=k + 1, y=-30.0, y2=35.5, azm=91.0, acqchan=str(k + 11))


def fields(comp):
    return ("id", "x", "y", "z", "azm") + (("dip",) if "h" in comp else ("x2", "y2", "z2")) + ("acqchan", "chtype")


def measurements(ctx, comps, at, field, sign):
    """what every measurement of the section says comes back under its own channel"""
    from mt_metadata.transfer_functions.io.edi.metadata import DefineMeasurement
    m = DefineMeasurement()
    for k, c in enumerate(comps):
        m.measurements[c] = base(c, k)
    one = m.measurements[comps[at]]
    if field == "id":
        one.id = float(ctx.int("id", 1, 9999))
        for k, c in enumerate(comps):
            ctx.assume((k == at) | (one.id != m.measurements[c].id))
    elif field == "acqchan":
        one.acqchan = str(ctx.int("acqchan", 1, 9999))
    elif field == "none":
        one.acqchan = ""
    else:
        setattr(one, field, signed(ctx, field, sign, 0.01, 99999 if field not in ("azm", "dip") else 360))
    want = {c: {f: getattr(m.measurements[c], f) for f in fields(c)} for c in comps}
    m.refloc = "a01"
    r = DefineMeasurement()
    r.read_measurement(lines(m.write_measurement()) + [">=MTSECT\n"])
    ctx.check(sorted(r.measurements) == sorted(comps), "a measurement for every channel")
    ctx.check(sorted(r.channels_recorded) == sorted(comps), "channels recorded")
    for c in comps:
        got = r.measurements[c]
        for f in fields(c):
            v, w = getattr(got, f), want[c][f]
            if f == "chtype":
                ctx.check(v.lower() == c, "channel of the measurement")
            elif f == "acqchan":
                ctx.check(v == w, "acquisition channel of the measurement")
            elif f == "id":
                ctx.check(v == w, "identifier of the measurement")
            elif f == "azm" and c in ELECTRIC and field in ("x", "x2", "y", "y2") and c == comps[at]:
                pass  # follows from the electrodes
            else:
                ctx.close(v, w, ("angle" if f in ("azm", "dip") else "coordinate") + " of the measurement", rtol=0, atol=0.0051)
        ctx.check(r.channel_ids[got.chtype] == want[c]["id"], "identifiers by channel")


def reference(ctx, which, sign, fmt, longitude, most=180):
    """reference point of the section"""
    from mt_metadata.transfer_functions.io.edi.metadata import DefineMeasurement
    m = DefineMeasurement()
    want = {"reflat": 10.5, "reflon": -20.25, "refelev": 3.5, "maxchan": 7, "maxrun": 3, "maxmeas": 99, "refloc": "a01"}
    if which == "maxchan":
        for w in ("maxchan", "maxrun", "maxmeas"):
            want[w] = ctx.int(w, 0, 9999)
    elif which == "refloc":
        want[which] = ctx.str(which, minlen=3, maxlen=3, alphabet=WORD)
    else:
        want[which] = signed(ctx, which, sign, 0 if which != "refelev" else 0.001, {"reflat": min(most, 90), "reflon": most, "refelev": 9000}[which])
    for k, v in want.items():
        setattr(m, k, v)
    r = DefineMeasurement()
    r.read_measurement(lines(m.write_measurement(longitude, fmt)) + [">=MTSECT\n"])
    tol = 5.1e-7 if fmt == "dd" else 1.5e-8
    ctx.close(r.reflat, want["reflat"], "reference latitude", rtol=0, atol=tol)
    ctx.close(r.reflon, want["reflon"], "reference longitude", rtol=0, atol=tol)
    ctx.close(r.refelev, want["refelev"], "reference elevation", rtol=1e-9, atol=1e-9)
    for w in ("maxchan", "maxrun", "maxmeas", "refloc"):
        ctx.check(getattr(r, w) == want[w], "reference: " + w)


def section(ctx, comps, at, spectra=False):
    """the channels of the data section"""
    from mt_metadata.transfer_functions.io.edi.metadata import DataSection
    s = DataSection()
    s.sectid = ctx.str("name", minlen=3, maxlen=3, alphabet=WORD) if at is None else "a01"
    s.nfreq = ctx.int("nfreq", 1, 999) if at is None else 4
    s.nchan = ctx.int("nchan", 1, 99) if at is None else 5
    s.maxblocks = 77
    want = {}
    for k, c in enumerate(comps):
        want[c] = str(ctx.int("id", 1, 9999)) if k == at else f"{1001 + k}.001"
        setattr(s, c, want[c])
    r = DataSection()
    r.read_data(lines(s.write_data()) + [">FREQ\n"])
    ctx.check((r.sectid == s.sectid) & (r.nfreq == s.nfreq) & (r.nchan == s.nchan) & (r.maxblocks == 77), "name and counts of the section")
    for c in ELECTRIC + MAGNETIC:
        ctx.check(getattr(r, c) == want[c] if c in comps else getattr(r, c) is None, "identifier of the channel")
    ctx.check(r._data_type_in == "z", "kind of data")


# --- channels ----------------------------------------------------------------------------------------------------------------------
def electric(ctx, comp, field, sign, coords=True):
    """measurement -> channel -> measurement"""
    from mt_metadata.transfer_functions.io.edi.edi import EDI
    from mt_metadata.transfer_functions.io.edi.metadata import DefineMeasurement, EMeasurement
    v = {"id": 4.0, "acqchan": "7"}
    if coords:
        v.update({"x": -50.0, "x2": 30.0, "y": 0.0, "y2": 60.0})
        if comp == "ey":
            v.update({"x": 0.0, "x2": -30.0, "y": 20.0, "y2": 60.0})
    else:
        v["azm"] = 15.0
    if field == "id":
        v["id"] = float(ctx.int("id", 1, 9999))
    elif field == "acqchan":
        v["acqchan"] = str(ctx.int("acqchan", 1, 9999))
    elif field is not None:
        v[field] = signed(ctx, field, sign, 0.01, 9999 if field != "azm" else 360)
    edi = EDI()
    for k, c in enumerate(("ex", "ey", "hx")):
        edi.Measurement.measurements[c] = EMeasurement(chtype=comp, **v) if c == comp else base(c, k)
    meas = edi.Measurement.measurements[comp]
    ch = edi.ex_metadata if comp == "ex" else edi.ey_metadata
    ctx.trust_roots()
    ctx.check(ch.component == comp and ch.type == "electric", "kind and component of the channel")
    ctx.close(ch.dipole_length, meas.dipole_length, "dipole length", rtol=1e-9, atol=1e-9)
    l2 = (meas.x2 - meas.x) ** 2 + (meas.y2 - meas.y) ** 2 + (meas.z2 - meas.z) ** 2
    ctx.check(ch.dipole_length >= 0, "dipole length not negative")
    ctx.close(ch.dipole_length * ch.dipole_length, l2, "dipole length is the distance of the electrodes", rtol=1e-6, atol=1e-9)
    for (a, b) in ((ch.negative.x, meas.x), (ch.negative.y, meas.y), (ch.negative.z, meas.z)) + (((ch.positive.x2, meas.x2), (ch.positive.y2, meas.y2), (ch.positive.z2, meas.z2)) if coords else ()):
        ctx.close(a, b, "electrode", rtol=1e-9, atol=1e-9)
    ctx.check(ch.channel_number == meas.channel_number, "channel number")
    azimuth = ch.measurement_azimuth
    if coords:
        ctx.close(azimuth, meas.azimuth, "azimuth is the direction of the electrodes", rtol=1e-9, atol=1e-9)
    else:
        ctx.close(azimuth, meas.azm, "azimuth as declared", rtol=1e-9, atol=1e-9)
    m = DefineMeasurement()
    m.from_metadata(ch)
    ctx.check(list(m.measurements) == [comp], "measurement of the channel")
    back = m.measurements[comp]
    ctx.close(back.dipole_length, meas.dipole_length, "dipole length kept", rtol=1e-9, atol=1e-9)
    ctx.check(back.id == meas.id, "identifier kept")
    ctx.check(back.channel_number == meas.channel_number, "channel number kept")
    if coords:
        ctx.close(back.azimuth, meas.azimuth, "azimuth kept", rtol=1e-9, atol=1e-9)
    else:
        ctx.close(back.azm, meas.azm, "azimuth kept", rtol=1e-9, atol=1e-9)
    for f in ("x", "x2", "y", "y2", "z", "z2"):
        ctx.close(getattr(back, f), getattr(meas, f), "coordinate kept", rtol=1e-9, atol=1e-9)


def magnetic(ctx, comp, field, sign):
    from mt_metadata.transfer_functions.io.edi.edi import EDI
    from mt_metadata.transfer_functions.io.edi.metadata import DefineMeasurement
    edi = EDI()
    for k, c in enumerate(("ex", "hx", "hy", "hz", "rrhx", "rrhy")):
        edi.Measurement.measurements[c] = base(c, k)
    meas = edi.Measurement.measurements[comp]
    if field == "id":
        meas.id = float(ctx.int("id", 1, 9999))
    elif field == "acqchan":
        meas.acqchan = str(ctx.int("acqchan", 1, 9999))
    else:
        setattr(meas, field, signed(ctx, field, sign, 0.01, 9999 if field not in ("azm", "dip") else 360))
    ch = getattr(edi, comp + "_metadata")
    ctx.check(ch.component == comp and ch.type == "magnetic", "kind and component of the channel")
    for a, b, what in ((ch.location.x, meas.x, "coordinate"), (ch.location.y, meas.y, "coordinate"), (ch.location.z, meas.z, "coordinate"),
                       (ch.measurement_azimuth, meas.azm, "azimuth"), (ch.translated_azimuth, meas.azm, "azimuth"), (ch.measurement_tilt, meas.dip, "dip")):
        ctx.close(a, b, what, rtol=1e-9, atol=1e-9)
    ctx.check(ch.channel_number == meas.channel_number, "channel number")
    m = DefineMeasurement()
    m.from_metadata(ch)
    back = m.measurements[comp]
    for f in ("x", "y", "z", "azm", "dip"):
        ctx.close(getattr(back, f), getattr(meas, f), "measurement kept", rtol=1e-9, atol=1e-9)
    ctx.check(back.id == meas.id and back.channel_number == meas.channel_number, "identifier kept")


# --- information ---------------------------------------------------------------------------------------------------------------------
def information(ctx, k, what, n):
    from mt_metadata.transfer_functions.io.edi.metadata import Information
    words = "qwxyzQWXYZ"
    i = Information()
    want = {"operator": "me and you", "some.key": "12.5", "other": "10:20:30"}
    name = "key"
    value = "value"
    if what == "key":
        name = ctx.str("key", minlen=n, maxlen=n, alphabet="qwxyz._019", first="qwxyz")
    else:
        value = ctx.str("value", minlen=n, maxlen=n, alphabet=words + "0123456789=:.,- " if n > 2 else words + "0123456789", first=words)
        ctx.assume(value.strip() == value)
    keys = list(want)
    keys.insert(k, name)
    for key in keys:
        i.info_dict[key] = value if key is name else want[key]
    out = Information()
    out.read_info([">HEAD\n", "A=1\n"] + lines(i.write_info()) + [">=DEFINEMEAS\n", "x=y\n"])
    ctx.check(len(out.info_dict) == 4, "as many lines")
    ctx.check(out.info_dict[name] == value, "value under its key")
    ctx.check(out.info_dict["some.key"] == "12.5" and out.info_dict["other"] == "10:20:30", "other values under their keys")
    ctx.check(out.info_dict["run.acquired_by.author"] == "me and you", "known keys of other programs are translated")


# --- all of it ---------------------------------------------------------------------------------------------------------------------
def whole(ctx, what, sign, fmt="dms", longitude="LON", most=180):
    """the file as a whole: the station's metadata read from it"""
    from mt_metadata.common.mttime import MTime
    from mt_metadata.transfer_functions.io.edi.edi import EDI
    edi = EDI()
    name, lat, lon, elev, dec, start, end = "mt01", 10.5, -20.25, 350.0, 3.25, 1577934245, 1580000000
    if what == "station":
        name = ctx.str("station", minlen=3, maxlen=3, alphabet=WORD)
    elif what == "latitude":
        lat = signed(ctx, what, sign, 1e-5, min(most, 90))
    elif what == "longitude":
        lon = signed(ctx, what, sign, 1e-5, most)
    elif what == "elevation":
        elev = signed(ctx, what, sign, 0.01, 9000)
    elif what == "declination":
        dec = signed(ctx, what, sign, 0.001, 180)
    elif what == "start":
        start = ctx.int("start", 1000000, 1400000000)
    elif what == "end":
        end = ctx.int("end", 1600000000, 2000000000)
    edi.station = name
    edi.lat, edi.lon, edi.elev = lat, lon, elev
    edi.Header.declination.value = dec
    edi.Header.acqdate, edi.Header.enddate = MTime(time_stamp=start), MTime(time_stamp=end)
    edi.Header.survey, edi.Header.project, edi.Header.acqby, edi.Header.loc = "sv", "pr", "me", "here"
    edi.Measurement.reflat, edi.Measurement.reflon, edi.Measurement.refelev = lat, lon, elev
    comps = ("hx", "hy", "hz", "ex", "ey")
    for k, c in enumerate(comps):
        edi.Measurement.measurements[c] = base(c, k)
        setattr(edi.Data, c, str(float(k + 1)))
    az = {c: 0.0 for c in comps}
    if what.startswith("azimuth"):
        edi.Measurement.measurements[what[-2:]].azm = signed(ctx, "azimuth", sign, 0.01, 360)
    edi.Info.info_dict = {"sitename": "there", "run.hx.sensor.id": "4455", "processedby": "some one"}
    edi.frequency = np.array([4.0, 2.0])
    edi.z = np.ones((2, 2, 2), dtype=complex)
    edi.z_err = np.ones((2, 2, 2))
    want = {c: edi.Measurement.measurements[c] for c in comps}
    out = read(written(edi, latlon_format=fmt, longitude_format=longitude))
    sm = out.station_metadata
    tol = 5.1e-7 if fmt == "dd" else 1.5e-8
    ctx.check(out.station == name and sm.id == name, "station")
    for got, w, t, label in ((out.lat, lat, tol, "latitude"), (sm.location.latitude, lat, tol, "latitude"), (out.lon, lon, tol, "longitude"), (sm.location.longitude, lon, tol, "longitude"),
                             (out.elev, elev, 0.00051, "elevation"), (sm.location.elevation, elev, 0.00051, "elevation"), (sm.location.declination.value, dec, 1e-9, "declination")):
        ctx.close(got, w, label, rtol=0, atol=t)
    ctx.check(sm.time_period.start.epoch_seconds == start, "start")
    ctx.check(sm.time_period.end.epoch_seconds == end, "end")
    ctx.check(out.survey_metadata.id == "sv" and out.survey_metadata.project == "pr" and sm.acquired_by.author == "me", "survey and author")
    ctx.check(sm.transfer_function.processed_by.name == "some one" or sm.transfer_function.processed_by.author == "some one", "author of the transfer function")
    ctx.check(sorted(sm.channels_recorded) == sorted(comps), "channels")
    for k, c in enumerate(comps):
        ch = getattr(out, c + "_metadata")
        ctx.check(ch.component == c and float(ch.channel_id) == k + 1.0, "identifier of the channel")
        if "h" in c:
            ctx.close(ch.measurement_azimuth, want[c].azm, "azimuth of the channel", rtol=0, atol=0.0051)
            ctx.close(ch.location.x, want[c].x, "position of the channel", rtol=0, atol=0.0051)
    ctx.check(out.hx_metadata.sensor.id == "4455", "sensor of the channel")


def instances(tier):
    out = []
    deep = tier == "thorough"
    for fmt in ("dms", "dd"):
        for longitude in ("LON", "LONG"):
            for sign in "+-":
                for w in ("latitude", "longitude", "elevation"):
                    if longitude == "LON" or w == "longitude" or deep:
                        out.append((f"position:{fmt}:{longitude}:{w}:{sign}", position, dict(which=w, sign=sign, fmt=fmt, longitude=longitude, most=180 if deep or longitude == "LON" else 2)))
                for w in ("reflat", "reflon", "refelev"):
                    if longitude == "LON" or w == "reflon" or deep:
                        out.append((f"reference:{fmt}:{longitude}:{w}:{sign}", reference, dict(which=w, sign=sign, fmt=fmt, longitude=longitude, most=180 if deep or longitude == "LON" else 2)))
                for w in ("latitude", "longitude", "elevation", "declination"):
                    if (longitude == "LON") == (fmt == "dms") or deep:
                        out.append((f"file:{fmt}:{longitude}:{w}:{sign}", whole, dict(what=w, sign=sign, fmt=fmt, longitude=longitude, most=180 if deep or fmt == "dd" else 1)))
    for w in ("maxchan", "refloc"):
        out.append((f"reference:{w}", reference, dict(which=w, sign="+", fmt="dms", longitude="LON")))
    for w in ("station", "start", "end", "azimuth hx", "azimuth hz"):
        out.append((f"file:{w}", whole, dict(what=w, sign="+")))
    for sign in "+-":
        out.append((f"declination:{sign}", declination, dict(sign=sign)))
    for n in (1, 4) if not deep else (1, 2, 3, 4, 6, 8):
        out.append((f"text:dataid:{n}", texts, dict(which="dataid", n=n)))
    for t in TEXTS:
        for n in (3,) if not deep else (3, 6):
            if t in ("country", "state", "county", "township", "section") and not deep and t != "state":
                continue
            out.append((f"text:{t}:{n}", texts, dict(which=t, n=n)))
    for w in ("acqdate", "enddate"):
        out.append((f"date:{w}", dates, dict(which=w)))
    out.append(("choices", choices, {}))
    seven = ELECTRIC + MAGNETIC
    for comps in (("hx", "hy", "hz", "ex", "ey"), seven, ("rrhy", "ey", "hz"), ("hx",), ("ex",)):
        for at, c in enumerate(comps):
            for f in ("id", "acqchan", "none", "x", "y", "z", "azm") + (("dip",) if "h" in c else ("x2", "y2", "z2")):
                if comps is seven and not deep and f not in ("id", "x"):
                    continue
                signs = "+-" if f in ("x", "y", "z", "azm", "dip", "x2", "y2", "z2") and (deep or at == 0) else "-" if f in ("x", "azm") else "+"
                for sign in signs:
                    out.append((f"measurement:{'-'.join(comps)}:{c}:{f}:{sign}", measurements, dict(comps=comps, at=at, field=f, sign=sign)))
    for comps in (("hx", "hy", "hz", "ex", "ey"), seven, ("ex", "ey")):
        for at in range(len(comps)):
            out.append((f"section:{'-'.join(comps)}:{comps[at]}", section, dict(comps=comps, at=at)))
        out.append((f"section:{'-'.join(comps)}:name", section, dict(comps=comps, at=None)))
    for comp in ELECTRIC:
        for f in ("x", "x2", "y", "y2", "z", "z2", "id", "acqchan", None):
            for sign in "+-" if f in ("x", "x2", "y", "y2", "z", "z2") else "+":
                out.append((f"electric:{comp}:{f}:{sign}", electric, dict(comp=comp, field=f, sign=sign)))
        for sign in "+-":
            out.append((f"electric:{comp}:azm:{sign}", electric, dict(comp=comp, field="azm", sign=sign, coords=False)))
    for comp in MAGNETIC:
        for f in ("x", "y", "z", "azm", "dip", "id", "acqchan"):
            for sign in "+-" if f in ("azm", "dip") and (deep or comp == "hx") else "+" if f in ("id", "acqchan") or comp != "hy" else "-":
                out.append((f"magnetic:{comp}:{f}:{sign}", magnetic, dict(comp=comp, field=f, sign=sign)))
    for k in (0, 1, 3):
        for what in ("key", "value"):
            for n in (1, 3) if not deep else (1, 2, 3, 5):
                out.append((f"information:{k}:{what}:{n}", information, dict(k=k, what=what, n=n)))
    return out
