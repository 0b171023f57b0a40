"""C39 processing levels agree with the archived coefficients they describe"""
import numpy as np

PROPERTY = "C39"
IMPORTS = ["mt_metadata.processing.aurora.decimation_level", "mt_metadata.processing.fourier_coefficients.decimation", "mt_metadata.common.band"]
OPTS = {"budget_s": 200}
ASSUMPTIONS = ["channel names are given to the levels as lists of different names", "detrending within windows is not part of a description (the library does not support it)"]
WINDOWS = ["boxcar", "hann", "hamming", "kaiser"]
METHODS, DETREND, WHITEN = ["fft", "wavelet", "other"], ["linear", "other", ""], ["first difference", "other"]
CHANNELS = {"usual": (["hx", "hy"], ["ex", "ey", "hz"], ["rx", "ry"]),
            "none": ([], [], []),
            "two": (["bx"], ["e1"], ["bx"])}


def BOUNDS(tier):
    return ("every sample rate in [1e-4, 1e5], factor in [1, 100], level 0 to 10, window length and overlap up to 50000, minimum windows up to 1000; every window type, transform method, detrending, "
            "prewhitening and recoloring; 3 lists of channels, local and remote; every change of one parameter by any amount; up to 2 bands of any harmonics up to 12")


def configure(ctx, channels, window="any"):
    from mt_metadata.processing.aurora.decimation_level import DecimationLevel
    d = DecimationLevel()
    d.input_channels, d.output_channels, d.reference_channels = (list(x) for x in CHANNELS[channels])
    d.decimation.sample_rate = ctx.real("rate", 1e-4, 1e5)
    d.decimation.factor = ctx.int("factor", 1, 100)
    d.decimation.level = ctx.int("level", 0, 10)
    d.stft.window.num_samples = ctx.int("num_samples", 1, 50000)
    d.stft.window.overlap = ctx.int("overlap", 0, 50000)
    d.stft.window.type = ctx.choice("type", WINDOWS) if window == "any" else "hann"
    d.stft.window.normalized = ctx.bool("normalized")
    d.stft.min_num_stft_windows = ctx.int("minimum", 0, 1000)
    d.stft.method = ctx.choice("method", METHODS) if window == "any" else "fft"
    d.stft.recoloring = ctx.bool("recoloring")
    if window == "fixed":
        d.stft.pre_fft_detrend_type = ctx.choice("detrend", DETREND)
        d.stft.prewhitening_type = ctx.choice("whiten", WHITEN)
        d.stft.window.clock_zero_type = ctx.choice("zero type", ["ignore", "data start"])
        d.stft.window.clock_zero = ctx.choice("zero", ["1980-01-01T00:00:00+00:00", "2020-05-06T07:08:09+00:00"])
        d.decimation.anti_alias_filter = ctx.choice("filter", ["default", "other"])
    return d


def own(ctx, channels, remote, part):
    """a level and the description made from it"""
    d = configure(ctx, channels, part)
    if part == "any":
        d.stft.window.additional_args = ctx.choice("args", [{}, {"beta": 3.0}])
    fc = d.to_fc_decimation(remote=remote)
    ctx.check(d.is_consistent_with_archived_fc_parameters(fc, remote) is True, "the level's own description is consistent")
    a, b, i = CHANNELS[channels][0], CHANNELS[channels][1], CHANNELS[channels][2]
    want = i if remote else a + b
    ctx.check(sorted(fc.channels_estimated) == sorted(want), "channels of the description")
    x, y = fc.time_series_decimation, d.decimation
    ctx.check((x.sample_rate == y.sample_rate) & (x.factor == y.factor) & (x.level == y.level), "decimation of the description")
    ctx.check(fc.id == f"{d.decimation.level}", "name of the description")
    w, v = fc.stft.window, d.stft.window
    ctx.check((w.num_samples == v.num_samples) & (w.overlap == v.overlap) & (w.type == v.type) & (w.normalized == v.normalized), "window of the description")
    s, t = fc.stft, d.stft
    ctx.check((s.method == t.method) & (s.recoloring == t.recoloring) & (s.min_num_stft_windows == t.min_num_stft_windows), "transform of the description")
    ctx.check((s.pre_fft_detrend_type == t.pre_fft_detrend_type) & (s.prewhitening_type == t.prewhitening_type), "treatment of the series in the description")


def other(ctx, name, now):
    return [v for v in now if v != name]


def changed(ctx, what, side):
    """one parameter differs between level and description"""
    from mt_metadata.processing.aurora.decimation_level import DecimationLevel
    d = configure(ctx, "usual", "any" if what in ("type", "method") else "fixed" if what in ("detrend", "whiten", "zero type") else "plain")
    fc = d.to_fc_decimation()
    ctx.check(d.is_consistent_with_archived_fc_parameters(fc, False), "consistent before the change")
    t = d if side == "level" else fc
    if what == "rate":
        v = ctx.real("new", 1e-4, 1e5)
        ctx.assume(v != d.decimation.sample_rate)
        t.decimation.sample_rate = v
    elif what in ("num_samples", "overlap"):
        v = ctx.int("new", 0 if what == "overlap" else 1, 50000)
        ctx.assume(v != getattr(d.stft.window, what))
        setattr(t.stft.window, what, v)
    elif what == "normalized":
        t.stft.window.normalized = not d.stft.window.normalized
    elif what == "minimum":
        v = ctx.int("new", 0, 1000)
        ctx.assume(v != d.stft.min_num_stft_windows)
        t.stft.min_num_stft_windows = v
    elif what == "recoloring":
        t.stft.recoloring = not d.stft.recoloring
    elif what == "args":
        t.stft.window.additional_args = {"beta": 5.0}
    elif what == "clock_zero":
        t.stft.window.clock_zero = "2021-01-01T00:00:00+00:00"
    else:
        o, attr, values = {"type": (t.stft.window, "type", WINDOWS), "method": (t.stft, "method", METHODS),
                           "detrend": (t.stft, "pre_fft_detrend_type", DETREND), "whiten": (t.stft, "prewhitening_type", WHITEN),
                           "zero type": (t.stft.window, "clock_zero_type", ["ignore", "data start", "user specified"])}[what]
        v = ctx.choice("new", values)
        ctx.assume(getattr(o, attr).value != v)
        setattr(o, attr, v)
    ctx.check(d.is_consistent_with_archived_fc_parameters(fc, False) is False, "a changed parameter is noticed")
    ctx.reach("changed")


def dropped(ctx, remote, how):
    """channels that are needed and not there; channels that are there and not needed"""
    d = configure(ctx, "usual", "plain")
    fc = d.to_fc_decimation(remote=remote)
    need = list(CHANNELS["usual"][2]) if remote else CHANNELS["usual"][0] + CHANNELS["usual"][1]
    keep = [n for n in need if how == "more" or not ctx.choice(f"drop {n}", [False, True])]
    extra = ctx.choice("more", [[], ["zz"], ["hx2"]]) if how == "set" else []
    if how == "set":
        lists = d.input_channels, d.output_channels, d.reference_channels
        d.input_channels, d.output_channels, d.reference_channels = ([], [], keep + extra) if remote else (keep, extra, [])
        fc = d.to_fc_decimation(remote=remote)
        d.input_channels, d.output_channels, d.reference_channels = lists
    elif how == "remove":
        for n in need:
            if n not in keep:
                fc.remove_channel(n)
    else:
        new = ctx.choice("new", [[], ["qq"], ["hx2"]])
        if remote:
            d.reference_channels = need + new
        else:
            which = ctx.choice("list", ["input_channels", "output_channels"])
            setattr(d, which, getattr(d, which) + new)
        keep = need if not new else []
    got = d.is_consistent_with_archived_fc_parameters(fc, remote)
    ctx.check(got == (len(keep) == len(need)), "consistent exactly when every needed channel is there")


def harmonics(ctx, count, mode):
    from mt_metadata.common.band import Band
    d = configure(ctx, "two", "plain")
    needed = set()
    for i in range(count):
        lo = ctx.choice(f"first{i}", [0, 2, 5])
        hi = lo + ctx.choice(f"width{i}", [0, 3])
        d.add_band(Band(decimation_level=0, index_min=lo, index_max=hi, frequency_min=0.1 * lo, frequency_max=0.1 * hi + 0.05))
        needed |= set(range(lo, hi + 1))
    fc = d.to_fc_decimation(ignore_harmonic_indices=mode == "all")
    ctx.check(d.is_consistent_with_archived_fc_parameters(fc, False), "the level's own description is consistent")
    if mode == "all":
        ctx.check(fc.stft.harmonic_indices is None, "every harmonic is kept")
        return
    ctx.check(set(fc.stft.harmonic_indices) == needed, "harmonics of the bands")
    if mode == "given":
        kept = [k for k in range(9) if ctx.choice(f"keep{k}", [True, False] if k in needed or k == 1 else [True])]
        fc.stft.harmonic_indices = kept
        ctx.check(d.is_consistent_with_archived_fc_parameters(fc, False) == needed.issubset(kept), "consistent exactly when every needed harmonic is kept")
    else:
        fc.stft.harmonic_indices = [-1]
        ctx.check(d.is_consistent_with_archived_fc_parameters(fc, False), "-1 stands for every harmonic")


def apart(ctx):
    """a description does not follow later changes of the level and the reverse"""
    d = configure(ctx, "usual", "fixed")
    fc = d.to_fc_decimation()
    n = d.stft.window.num_samples
    m = ctx.int("new", 1, 50000)
    d.stft.window.num_samples = m
    d.input_channels.append("other")
    ctx.check(fc.stft.window.num_samples == n, "description keeps its window length")
    ctx.check("other" not in fc.channels_estimated, "description keeps its channels")
    fc.stft.window.overlap = 17
    fc.stft.window.num_samples = 5
    fc.channels_estimated.append("more")
    ctx.check((d.stft.window.num_samples == m) & ("more" not in d.input_channels + d.output_channels), "level keeps its window and channels")


WHAT = ["rate", "num_samples", "overlap", "type", "normalized", "args", "clock_zero", "zero type", "minimum", "recoloring", "method", "detrend", "whiten"]


def instances(tier):
    out = []
    for channels in CHANNELS:
        for remote in (False, True):
            for part in ("any", "fixed"):
                out.append((f"own:{channels}:{'remote' if remote else 'local'}:{part}", own, dict(channels=channels, remote=remote, part=part)))
    for what in WHAT:
        for side in ("level", "description"):
            out.append((f"changed:{what}:{side}", changed, dict(what=what, side=side)))
    for remote in (False, True):
        for how in ("set", "remove", "more"):
            out.append((f"channels:{'remote' if remote else 'local'}:{how}", dropped, dict(remote=remote, how=how)))
    for count in (0, 1, 2):
        for mode in ("all", "given", "-1"):
            out.append((f"harmonics:{count}:{mode}", harmonics, dict(count=count, mode=mode)))
    out.append(("apart", apart, {}))
    return out
