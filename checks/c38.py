"""C38 window and decimation arithmetic"""
import numpy as np

PROPERTY = "C38"
IMPORTS = ["mt_metadata.processing.window", "mt_metadata.processing.fourier_coefficients.decimation", "mt_metadata.processing.aurora.decimation_level",
           "mt_metadata.processing.aurora", "mt_metadata.processing.aurora.processing", "mt_metadata.features.striding_window_coherence", "mt_metadata.common.band"]
OPTS = {"budget_s": 150}
ASSUMPTIONS = ["scipy.signal's window coefficients are taken as they are; scipy.signal.coherence is replaced by a stand-in that hands back the two segments it was given",
               "sample rates are compared to a relative 1e-6"]


def BOUNDS(tier):
    return ("every window length and overlap up to 100000, every series length up to 10^7, 0 to 6 minimum windows; every sample rate in [1e-4, 1e5] with windows of 1 to "
            + ("17" if tier == "thorough" else "12") + " samples; cascades of 1 to 5 levels with every factor in [1, 100]; striding windows over series of up to 9 samples, every sample value")


def advance(ctx, order):
    from mt_metadata.processing.window import Window
    n, o = ctx.int("num_samples", 1, 100000), ctx.int("overlap", 0, 100000)
    if order == "new":
        w = Window(num_samples=n, overlap=o)
    elif order == "dict":
        w = Window()
        w.from_dict({"window": {"overlap": o, "num_samples": n}})
    else:
        w = Window(num_samples=7, overlap=3)
        ctx.check(w.num_samples_advance == 4, "advance before")
        if order == "length":
            w.num_samples = n
            o = 3
        elif order == "overlap":
            w.overlap = o
            n = 7
        else:
            w.overlap = o
            w.num_samples = n
    ctx.check((w.num_samples == n) & (w.overlap == o), "length and overlap as given")
    ctx.check(w.num_samples_advance == n - o, "advance is length minus overlap")
    d = w.to_dict(single=True)
    ctx.check((d["num_samples"] == n) & (d["overlap"] == o), "values in the dictionary")


def enough(ctx, least):
    from mt_metadata.processing.fourier_coefficients.decimation import Decimation
    d = Decimation()
    n, o = ctx.int("num_samples", 1, 100000), ctx.int("overlap", 0, 100000)
    ctx.assume(o < n)
    d.stft.window.num_samples = n
    d.stft.window.overlap = o
    d.stft.min_num_stft_windows = least
    length = ctx.int("length", 0, 10 ** 7)
    got = d.is_valid_for_time_series_length(length)
    # end of the last of the windows that are needed
    last = (least - 1) * (n - o) + n
    ctx.check(got == (last <= length), "long enough exactly when the last window that is needed ends within")
    if least >= 1:
        # largest number of windows whose last one ends within the series
        k = ctx.int("windows", 0, 10 ** 7)
        if k == 0:
            ctx.assume(length < n)
        else:
            ctx.assume(((k - 1) * (n - o) + n <= length) & (k * (n - o) + n > length))
        ctx.check(got == (k >= least), "as many windows as needed fit")


def harmonics(ctx, n, where):
    from mt_metadata.processing import window
    from mt_metadata.processing.aurora import decimation_level
    from mt_metadata.processing.fourier_coefficients.decimation import Decimation
    fs = ctx.real("rate", 1e-4, 1e5)
    if where == "window":
        f = window.Window(num_samples=n, overlap=0).fft_harmonics(fs)
    elif where == "function":
        f = window.get_fft_harmonics(n, fs)
    elif where == "level function":
        f = decimation_level.get_fft_harmonics(n, fs)
    else:
        d = Decimation() if where == "coefficients" else decimation_level.DecimationLevel()
        d.decimation.sample_rate = fs
        d.stft.window.num_samples = n
        f = d.fft_frequencies
        if where == "level":
            ctx.close(d.frequency_sample_interval, fs / n, "spacing of the frequencies")
    ctx.check(len(f) == n // 2, "one frequency for each harmonic below half the window length")
    for k in range(len(f)):
        ctx.close(f[k], k * fs / n, "multiple of sample rate over window length")
        ctx.check(f[k] < fs / 2, "below Nyquist")


def cascade(ctx, count, how):
    from mt_metadata.common import TimePeriod
    from mt_metadata.processing.fourier_coefficients.decimation import fc_decimations_creator, get_degenerate_fc_decimation
    fs = ctx.real("rate", 1e-4, 1e5)
    if how == "degenerate":
        levels = get_degenerate_fc_decimation(fs)
        factors = [1]
    elif how == "default":
        levels = fc_decimations_creator(fs, max_levels=count)
        factors = [1] + [4] * (count - 1)
    else:
        factors = [ctx.choice("first", [1, 2])] + [ctx.int(f"factor{i}", 1, 100) for i in range(1, count)]
        if how == "period":
            tp = TimePeriod(start="2020-01-01T00:00:00+00:00", end="2020-02-01T00:00:00+00:00")
            levels = fc_decimations_creator(fs, list(factors), time_period=tp)
        else:
            levels = fc_decimations_creator(fs, list(factors), max_levels=6)
    ctx.check(len(levels) == len(factors), "one description for each level")
    rate = fs
    for i, (d, f) in enumerate(zip(levels, factors)):
        if i:
            rate = rate / f
            ctx.close(d.decimation.sample_rate * f, levels[i - 1].decimation.sample_rate, "rate of the level above divided by the factor")
        ctx.close(d.decimation.sample_rate, rate, "sample rate of the level")
        ctx.check((d.decimation.level == i) & (d.id == str(i)), "number of the level")
        ctx.check(d.decimation.factor == f, "factor of the level")
        if how == "period":
            ctx.check(str(d.time_period.start) == "2020-01-01T00:00:00+00:00", "start of the period")
            ctx.check(str(d.time_period.end) == "2020-02-01T00:00:00+00:00", "end of the period")


def emtf(ctx, count, order):
    """rates assigned to existing levels, decimated by 4"""
    from mt_metadata.processing.aurora.decimation_level import DecimationLevel
    from mt_metadata.processing.aurora import Processing
    fs = ctx.real("rate", 1e-4, 1e5)
    p = Processing()
    keys = ctx.perm("order", list(range(count))) if order else list(range(count))
    for k in keys:
        d = DecimationLevel()
        d.decimation.level = k
        p.add_decimation_level(d)
    p.assign_decimation_level_data_emtf(fs)
    for k in range(count):
        d = p.get_decimation_level(k).decimation
        ctx.check(d.level == k, "number of the level")
        ctx.check(d.factor == (4 if k else 1), "factor of the level")
        if k:
            ctx.close(d.sample_rate * d.factor, p.get_decimation_level(k - 1).decimation.sample_rate, "rate of the level above divided by the factor")
        else:
            ctx.close(d.sample_rate, fs, "sample rate of the first level")


def bands(ctx, count, windows):
    """levels made from band edges"""
    from mt_metadata.processing.aurora import Processing
    fs = ctx.real("rate", 1e-4, 1e5)
    factors = {0: 1}
    for i in range(1, count):
        factors[i] = ctx.int(f"factor{i}", 1, 100)
    lengths = {i: ctx.choice(f"length{i}", [8, 10] if i < 2 else [8]) for i in range(count)} if windows == "each" else ctx.choice("length", [8, 11])
    edges, rate, rates = {}, fs, []
    for i in range(count):
        if i:
            rate = rate / factors[i]
        n = lengths[i] if windows == "each" else lengths
        rates.append((rate, n))
        lo, hi = ctx.choice(f"band{i}", [(1, 2), (1, 1), (2, 3)] if i == 0 else [(1, 2)])
        edges[i] = [((lo - 0.4) * rate / n, (hi + 0.4) * rate / n), ((hi - 0.4) * rate / n, (hi + 0.4) * rate / n)]
        factors_band = (lo, hi)
        rates[-1] += (factors_band,)
    p = Processing()
    p.assign_bands({i: edges[i] for i in ctx.choice("order", [list(range(count)), list(range(count))[::-1]])}, fs, factors, lengths)
    ctx.check(p.num_decimation_levels == count, "one level for each entry")
    for i in range(count):
        d = p.get_decimation_level(i)
        rate, n, (lo, hi) = rates[i]
        ctx.check((d.decimation.level == i) & (d.decimation.factor == factors[i]), "number and factor of the level")
        ctx.close(d.decimation.sample_rate, rate, "rate of the level above divided by the factor")
        ctx.check(d.stft.window.num_samples == n, "window length of the level")
        ctx.check(len(d.bands) == 2, "bands of the level")
        for b, (p0, p1), (e0, e1) in zip(d.bands, ((lo, hi), (hi, hi)), edges[i]):
            ctx.check((b.index_min == p0) & (b.index_max == p1), "harmonics within the band")
            ctx.check((b.decimation_level == i) & (b.frequency_min == e0) & (b.frequency_max == e1), "band edges")
            ctx.check(list(b.harmonic_indices) == list(range(p0, p1 + 1)), "all harmonics between first and last")


def taper(ctx, change):
    """the taper is that of the current parameters"""
    from mt_metadata.processing.window import Window
    kind = ctx.choice("type", ["boxcar", "hann", "hamming", "blackman", "kaiser"])
    n = ctx.choice("num_samples", [1, 8, 9, 64])
    norm = ctx.choice("normalized", [True, False])

    def make(kind, n, norm):
        return Window(type=kind, num_samples=n, normalized=norm, additional_args={"beta": 3.0} if kind == "kaiser" else {})

    w = make(kind, n, norm)
    if change != "none":
        w.taper()
    if change == "length":
        n = ctx.choice("other length", [4, 16])
        w.num_samples = n
    elif change == "type":
        kind = ctx.choice("other type", ["boxcar", "hann"])
        w.additional_args = {}
        w.type = kind
    elif change == "normalized":
        norm = not norm
        w.normalized = norm
    t = w.taper()
    ctx.check(len(t) == n, "as many coefficients as samples in the window")
    want = make(kind, n, norm).taper()
    ctx.check(all([abs(a - b) < 1e-12 for a, b in zip(t, want)]), "coefficients of the current parameters")
    if norm:
        ctx.check(abs(sum(t) - 1) < 1e-9, "normalized coefficients add up to one")
    ctx.check(t is w.taper(), "unchanged parameters keep the coefficients")


def striding(ctx, n, length, overlap):
    """one result for each window that ends within the series"""
    from mt_metadata.features import striding_window_coherence as M
    x = [ctx.real(f"x{i}", -10, 10) for i in range(n)]
    y = [ctx.real(f"y{i}", -10, 10) for i in range(n)]
    seen = []

    class Signal:
        @staticmethod
        def coherence(a, b, **k):
            seen.append((a, b, k))
            return np.array([0.0]), np.array([len(seen)])

    c = M.StridingWindowCoherence()
    c.window.num_samples = length
    c.window.overlap = overlap
    c.window.type = "hann"
    c.set_subwindow_from_window(fraction=0.5)
    ctx.check(c.subwindow.num_samples == length // 2, "length of the window within")
    keep = M.ssig
    M.ssig = Signal
    try:
        f, coh = c.compute(np.array(x), np.array(y))
    finally:
        M.ssig = keep
    step = length - overlap
    starts = [s for s in range(0, n, step) if s + length <= n]
    ctx.check(len(seen) == len(starts), "windows that end within the series")
    ctx.check(len(coh) == len(starts), "one result for each window")
    for s, (a, b, k) in zip(starts, seen):
        ctx.check((len(a) == length) & (len(b) == length), "length of the window")
        for i in range(length):
            ctx.check((a[i] == x[s + i]) & (b[i] == y[s + i]), "samples of the window")
        ctx.check((k["nperseg"] == length // 2) & (k["noverlap"] == length // 4), "window within the window")


def level(ctx):
    from mt_metadata.processing import TimeSeriesDecimation
    n = ctx.int("level", -5, 5)
    try:
        d = TimeSeriesDecimation(level=n)
    except ValueError:
        ctx.check(n < 0, "levels from 0 are accepted")
        return
    ctx.check(n >= 0, "negative levels are refused")
    ctx.check(d.level == n, "level as given")


def instances(tier):
    out = [(f"advance:{o}", advance, dict(order=o)) for o in ("new", "dict", "length", "overlap", "both")]
    out += [(f"enough:{k}", enough, dict(least=k)) for k in range(0, 7)]
    for where in ("window", "function", "level function", "coefficients", "level"):
        for n in range(1, 18 if tier == "thorough" else 13):
            out.append((f"harmonics:{where}:{n}", harmonics, dict(n=n, where=where)))
    for count in range(1, 6):
        for how in ("default", "factors", "period"):
            out.append((f"cascade:{how}:{count}", cascade, dict(count=count, how=how)))
        out.append((f"emtf:{count}", emtf, dict(count=count, order=count < 4)))
    out.append(("cascade:degenerate", cascade, dict(count=1, how="degenerate")))
    for count in range(1, 5 if tier == "thorough" else 4):
        for windows in ("same", "each"):
            out.append((f"bands:{count}:{windows}", bands, dict(count=count, windows=windows)))
    for change in ("none", "length", "type", "normalized"):
        out.append((f"taper:{change}", taper, dict(change=change)))
    for n, length, overlap in ((9, 4, 2), (8, 4, 0), (8, 4, 3), (9, 6, 1), (4, 4, 1), (7, 4, 1)):
        out.append((f"striding:{n}:{length}:{overlap}", striding, dict(n=n, length=length, overlap=overlap)))
    out.append(("level", level, {}))
    return out
