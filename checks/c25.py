"""C25 an experiment survives StationXML (obspy inventory)"""
from checks import gen

PROPERTY = "C25"
IMPORTS = ["mt_metadata.timeseries", "mt_metadata.timeseries.filters", "mt_metadata.timeseries.stationxml",
           "mt_metadata.timeseries.stationxml.xml_channel_mt_channel", "checks.gen"]
SHIMS = ["obspyshim"]
OPTS = {"budget_s": 90, "timeout_ms": 10000}
ASSUMPTIONS = ["the inventory is kept in memory (obspy's own StationXML writer and reader are not part of the code)",
               "obspy keeps free numbers and times as they are, after checking obspy's own ranges",
               "the position of an electric channel is that of its positive electrode (StationXML has one position per channel)"]
# the sampling rates of an FDSN code
BANDS = {"F": (1000, 5000), "C": (250, 1000), "E": (80, 250), "B": (10, 80), "M": (1, 10), "V": (0.095, 0.105), "R": (0.0001, 0.001), "Q": (0, 1e-6)}
KINDS = {"ex": "electric", "ey": "electric", "hx": "magnetic", "hy": "magnetic", "hz": "magnetic"}
GAIN = (0.5, 20)
UNITS = {"electric": "millivolt per kilometer", "magnetic": "nanotesla"}


def BOUNDS(tier):
    return ("1 to 2 stations of 1 to %d runs with 1 to %d channels, any positions, elevations, azimuths within +-360, tilts within +-90, sampling rates of 8 FDSN bands, "
            "gains, delays and run times (whole seconds, any order), runs repeating or changing every attribute" % ((3, 3) if tier == "quick" else (4, 5)))


def survey(ctx, name, network="ZU"):
    from mt_metadata.timeseries import Survey
    s = Survey(id=name)
    s.fdsn.network = network
    s.release_license = "CC0-1.0"
    return s


def place(ctx, p, obj):
    obj.latitude = ctx.real(p + ".lat", -90, 90)
    obj.longitude = ctx.real(p + ".lon", -180, 180)
    obj.elevation = ctx.real(p + ".el", -10000, 10000)
    return [obj.latitude, obj.longitude, obj.elevation]


def channel(ctx, p, comp, values, period, filters, dipole=95.0):
    from mt_metadata.timeseries import Electric, Magnetic
    ch = Electric(component=comp) if KINDS[comp] == "electric" else Magnetic(component=comp)
    ch.sample_rate, ch.measurement_azimuth, ch.measurement_tilt = values["sr"], values["az"], values["tilt"]
    ch.time_period.start, ch.time_period.end = period
    ch.units = "digital counts"
    where = ch.positive if KINDS[comp] == "electric" else ch.location
    where.latitude, where.longitude, where.elevation = values["at"]
    if KINDS[comp] == "electric":
        ch.dipole_length = dipole
        ch.positive.id, ch.negative.id = "p" + comp, "n" + comp
    else:
        ch.sensor.id, ch.sensor.type, ch.sensor.manufacturer = "s" + comp, "coil", "maker"
    for f in filters:
        ch.add_filter(name=f)
    return ch


FIXED = {"sr": 8.0, "az": 13.0, "tilt": 5.0, "at": [40.5, -110.25, 1500.0]}


def values_of(ctx, p, groups, like=None, band="M"):
    """the attributes of a channel: free in the groups asked for, those of another channel (or fixed) otherwise"""
    v = dict(like or FIXED)
    if "sr" in groups:
        v["sr"] = ctx.real(p + ".sr", *BANDS[band])
    if "az" in groups:
        v["az"] = ctx.real(p + ".az", -360, 360)
    if "tilt" in groups:
        v["tilt"] = ctx.real(p + ".tilt", -90, 90)
    if "at" in groups:
        v["at"] = [ctx.real(p + ".lat", -90, 90), ctx.real(p + ".lon", -180, 180), ctx.real(p + ".el", -10000, 10000)]
    if "el" in groups:
        v["at"] = v["at"][:2] + [ctx.real(p + ".el", -10000, 10000)]
    return v


def gains(ctx, s, p, kind, groups):
    """a transducer and a digitizer for a channel"""
    from mt_metadata.timeseries.filters import CoefficientFilter, FIRFilter, FrequencyResponseTableFilter, PoleZeroFilter, TimeDelayFilter
    a, b, c = p.lower() + "_zpk", p.lower() + "_dig", p.lower() + "_delay"
    ga, gb, d = (ctx.real(p + ".ga", *GAIN) if "gain" in groups or "gains" in groups else 2.5, ctx.real(p + ".gb", 2, 5) if "gains" in groups else 4.0,
                 ctx.real(p + ".d", -10, 10) if "delay" in groups else 0.25)
    s.filters[a] = PoleZeroFilter(name=a, gain=ga, poles=[-1 + 1j, -1 - 1j], zeros=[0j], normalization_factor=2.0, units_in=UNITS[kind], units_out="millivolt")
    s.filters[b] = CoefficientFilter(name=b, gain=gb, units_in="millivolt", units_out="digital counts")
    if "fir" in groups:
        n = p.lower() + "_fir"
        s.filters[n] = FIRFilter(name=n, gain=ctx.real(p + ".gf", *GAIN), gain_frequency=ctx.choice(p + ".at", [0.0, 1.5]), symmetry=ctx.choice(p + ".sym", ["NONE", "EVEN", "ODD"]), coefficients=[0.25, 0.75, -0.125],
                                 decimation_factor=2.0, decimation_input_sample_rate=16.0, units_in="digital counts", units_out="digital counts")
        return [a, b, n]
    if "table" in groups:
        n = p.lower() + "_fap"
        s.filters[n] = FrequencyResponseTableFilter(name=n, gain=ctx.real(p + ".gt", *GAIN), frequencies=[0.5, 1.5, 8.0], amplitudes=[1.0, 0.5, 2.5], phases=[0.25, -1.5, 3.0], units_in="millivolt", units_out="millivolt")
        return [a, n, b]
    if "delay" not in groups:
        return [a, b]
    s.filters[c] = TimeDelayFilter(name=c, delay=d, units_in="digital counts", units_out="digital counts")
    return [a, b, c]


def moment(ctx, name):
    from mt_metadata.common.mttime import MTime
    return MTime(time_stamp=ctx.int(name, 1500000000, 1600000000)).time_stamp


def there_and_back(ctx, e):
    from mt_metadata.timeseries.stationxml import XMLInventoryMTExperiment
    inv = XMLInventoryMTExperiment().mt_to_xml(e)
    return XMLInventoryMTExperiment().xml_to_mt(inventory_object=inv)


def near(ctx, a, b, label, atol=1e-6):
    ctx.close(a, b, label, rtol=0, atol=atol)


def same_time(ctx, a, b, label):
    ctx.check(a.time_stamp == b.time_stamp, label)


def compare(ctx, old, new, joined=False):
    """positions of joined channels are those of the other run, up to what joins them"""
    ctx.check(len(new.surveys) == len(old.surveys), "number of surveys")
    for s0 in old.surveys:
        s1 = new.surveys[s0.id]
        ctx.check(s1.id == s0.id, "survey id")
        ctx.check(s1.fdsn.network == s0.fdsn.network, "network")
        ctx.check([x.id for x in s1.stations] == [x.id.upper() for x in s0.stations], "stations")
        for st0, st1 in zip(s0.stations, s1.stations):
            station(ctx, st0, st1)
            ctx.check(sorted([x.id for x in st1.runs]) == sorted([x.id for x in st0.runs]), "runs")
            for r0 in st0.runs:
                r1 = st1.get_run(r0.id)
                same_time(ctx, r1.time_period.start, r0.time_period.start, "start of a run")
                same_time(ctx, r1.time_period.end, r0.time_period.end, "end of a run")
                ctx.check(r1.sample_rate == r0.sample_rate, "sample rate of a run")
                ctx.check(sorted([c.component for c in r1.channels]) == sorted([c.component for c in r0.channels]), "channels of a run")
                for c0 in r0.channels:
                    one_channel(ctx, s0, s1, r0, c0, r1.get_channel(c0.component), joined)


def station(ctx, a, b):
    for k in ("latitude", "longitude", "elevation"):
        near(ctx, getattr(b.location, k), getattr(a.location, k), "station " + k)


def one_channel(ctx, s0, s1, r0, a, b, joined):
    ctx.check(b.type == a.type, "kind of channel")
    ctx.check(b.sample_rate == a.sample_rate, "sample rate of a channel")
    t = 1e-6 if not joined else 0.01001
    d = b.measurement_azimuth - a.measurement_azimuth % 360
    near(ctx, d, 0, "azimuth", t)
    near(ctx, b.measurement_tilt, a.measurement_tilt, "tilt", t)
    p = b.positive if a.type == "electric" else b.location
    q = a.positive if a.type == "electric" else a.location
    t = 1e-6 if not joined else 0.001001
    near(ctx, p.latitude, q.latitude, "channel latitude", t)
    near(ctx, p.longitude, q.longitude, "channel longitude", t)
    near(ctx, p.elevation, q.elevation, "channel elevation", t)
    same_time(ctx, b.time_period.start, r0.time_period.start, "start of a channel")
    same_time(ctx, b.time_period.end, r0.time_period.end, "end of a channel")
    ctx.check(b.units == a.units, "units of a channel")
    if a.type == "electric":
        near(ctx, b.dipole_length, a.dipole_length, "dipole length")
        ctx.check((b.positive.id == a.positive.id) & (b.negative.id == a.negative.id), "electrodes")
    else:
        ctx.check(b.sensor.id == a.sensor.id, "sensor id")
        ctx.check(b.sensor.type == a.sensor.type, "sensor type")
        ctx.check(b.sensor.manufacturer == a.sensor.manufacturer, "sensor manufacturer")
    f0 = [s0.filters[f.name] for f in a.filters]
    ctx.check(len(b.filters) == len(f0), "number of filters")
    for i in range(len(f0)):
        f1 = s1.filters[b.filters[i].name]
        ctx.check(f1.name == f0[i].name + ("_16.0" if f0[i].type == "fir" else ""), "filter name")  # (the rate is part of a FIR filter's name)
        near(ctx, f1.gain, f0[i].gain, "filter gain")
        ctx.check(b.filters[i].applied, "filter applied")
        ctx.check(b.filters[i].stage == i + 1, "filter stage")
        ctx.check((f1.units_in == f0[i].units_in) & (f1.units_out == f0[i].units_out), "filter units")
        if f0[i].type == "time delay":
            near(ctx, f1.delay if f1.type == "time delay" else 0, f0[i].delay, "delay")  # (a delay of zero is a coefficient)
        if f0[i].type == "fir":
            ctx.check([float(x) for x in f1.coefficients] == [float(x) for x in f0[i].coefficients], "FIR coefficients")
            ctx.check((f1.symmetry == f0[i].symmetry) & (f1.gain_frequency == f0[i].gain_frequency), "FIR symmetry and gain frequency")
            ctx.check((f1.decimation_factor == f0[i].decimation_factor) & (f1.decimation_input_sample_rate == f0[i].decimation_input_sample_rate), "FIR decimation")
        if f0[i].type == "fap":
            for k in ("frequencies", "amplitudes", "phases"):
                ctx.check([float(x) for x in getattr(f1, k)] == [float(x) for x in getattr(f0[i], k)], "table " + k)
        if f0[i].type == "zpk":
            near(ctx, f1.normalization_factor, f0[i].normalization_factor, "filter normalization")
            ctx.check(len(f1.poles) == len(f0[i].poles), "filter poles")
            for u, v in zip(list(f1.poles) + list(f1.zeros), list(f0[i].poles) + list(f0[i].zeros)):
                ctx.check(u == v, "filter poles and zeros")


def tree(ctx, spec, groups=(), change=(), band="M", again=False, words=None):
    """a survey of stations, runs and channels; the runs of a station repeat its channels but for the groups that change"""
    from mt_metadata.timeseries import Experiment, Run, Station
    e = Experiment()
    s = survey(ctx, "surv")
    e.add_survey(s)
    for i, (name, runs) in enumerate(spec):
        st = Station(id=name)
        if "at" in groups:
            place(ctx, name, st.location)
        else:
            st.location.latitude, st.location.longitude, st.location.elevation = 40.25 + i, -110.5, 1400.0
        seen, fs = {}, {}
        for j, comps in enumerate(runs):
            rn = name + "abcdef"[j]
            if "time" in groups:
                t0, t1 = moment(ctx, rn + ".t0"), moment(ctx, rn + ".t1")
                ctx.assume(t0 < t1)
            else:
                t0, t1 = f"2020-01-0{2 * j + 1}T00:00:00+00:00", f"2020-01-0{2 * j + 2}T00:00:00+00:00"
            sr = values_of(ctx, rn, ["sr"], band=band)["sr"] if "sr" in groups and (j == 0 or "sr" in change) else seen["sr"] if j else FIXED["sr"]
            seen["sr"] = sr
            r = Run(id=rn, sample_rate=sr)
            r.time_period.start, r.time_period.end = t0, t1
            for c in comps:
                if c not in seen:
                    seen[c] = values_of(ctx, rn + c, [g for g in groups if g != "sr"])
                    fs[c] = gains(ctx, s, name + c, KINDS[c], groups)
                else:
                    seen[c] = values_of(ctx, rn + c, [g for g in change if g != "sr"], seen[c])
                    if "gain" in change:
                        fs[c] = gains(ctx, s, rn + c, KINDS[c], groups)
                seen[c]["sr"] = sr
                r.add_channel(channel(ctx, rn + c, c, seen[c], (t0, t1), fs[c], [95.0, 0.5, 1234.25][(i + j if "dipole" in change else i) % 3]))
                if words and "channel" in groups:
                    r.get_channel(c).comments.value = ctx.choice(rn + c + ".says", words)
            if words and "run" in groups:
                r.comments.value = ctx.choice(rn + ".says", words)
            st.add_run(r)
        if words and "station" in groups:
            st.comments.value = ctx.choice(name + ".says", words)
        s.add_station(st)
    first = e.copy()
    f = there_and_back(ctx, e)
    compare(ctx, first, f, bool(change))
    if not change:
        for st0, st1 in zip(first.surveys[0].stations, f.surveys[0].stations):
            ctx.check(st1.time_period.start.time_stamp == min([r.time_period.start.time_stamp for r in st0.runs]), "start of a station")
            ctx.check(st1.time_period.end.time_stamp == max([r.time_period.end.time_stamp for r in st0.runs]), "end of a station")
    if again:
        compare(ctx, first, there_and_back(ctx, f), bool(change))


WORDS = [None, "quiet", "site: noisy", "moved at 12:30:15, then quiet", "a, b", "author: me, comments: fine"]


def instances(tier):
    out = []

    def add(name, spec, **k):
        out.append((name, tree, dict(k, spec=spec)))

    one = [("a01", [["ex"]])]
    two = [("a01", [["hx"], ["hx"]])]
    for g in ("at", "az", "tilt", "gain", "gains", "time"):
        for c in ("ex", "hx") if tier == "quick" else KINDS:
            add(f"one:{g}:{c}", [("a01", [[c]])], groups=[g])
    for band in BANDS:
        add(f"one:sr:{band}", one, groups=["sr"], band=band)
    add("one:delay", one, groups=["delay"])
    add("one:fir", one, groups=["fir"])
    add("one:table", one, groups=["table"])
    for c in KINDS:
        add(f"all:{c}", [("a01", [[c]])], groups=[])
    for g in ("at", "az", "tilt", "sr", "gain", "el"):
        for c in ("ex", "hy") if tier == "quick" else KINDS:
            add(f"change:{g}:{c}", [("a01", [[c], [c]])], groups=[g], change=[g])
    add("change:dipole", [("a01", [["ex"], ["ex"]])], change=["dipole"])
    add("change:times", [("a01", [["ex"], ["ex"]])], groups=["time"], change=["dipole"])
    add("runs:times", two, groups=["time"])
    add("runs:3", [("a01", [["ex", "hx"], ["ex"], ["hx", "ex"]])], groups=["gain"])
    add("runs:5", [("a01", [["ex", "ey", "hx", "hy", "hz"], ["hz", "hy", "hx", "ey", "ex"]])])
    add("stations", [("a01", [["ex", "hy"]]), ("B02", [["hx"], ["hx", "ey"]])], groups=["gain"])
    add("stations:times", [("a01", [["ex"]]), ("b02", [["ex"]])], groups=["time"])
    add("again", [("a01", [["ex", "hx"], ["ex", "hx"]])], groups=["gain"], again=True)
    add("again:time", [("a01", [["hx"], ["hx"]])], groups=["time"], again=True)
    add("again:change", [("a01", [["hx"], ["hx"]])], groups=["tilt"], change=["tilt"], again=True)
    for g in ("channel", "run", "station"):
        add(f"words:{g}", two, words=WORDS, groups=[g])
    return out
