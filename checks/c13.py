"""C13 processing frequency bands stay consistent with edges and indices"""
import numpy as np
import pandas as pd

PROPERTY = "C13"
IMPORTS = ["mt_metadata.processing.aurora.frequency_bands", "mt_metadata.processing.aurora.processing", "checks.gen"]
OPTS = {"budget_s": 150, "timeout_ms": 10000}
ASSUMPTIONS = ["exact arithmetic on the edges; the rows of the table are the model of pandas: a frame of object columns"]


def BOUNDS(tier):
    return ("every collection of up to %d bands with any edges (distinct lower edges; fixed lower edges in every order where three or more are ordered by centre), given as array or as frame with extra columns and any index; "
            "every sort key and direction; every sampling rate, windows of 2 to %d samples, up to 3 bands per level, 1 to 3 levels"
            % ((3, 12) if tier == "quick" else (4, 24)))


def edges(ctx, n, tag="e", centre=False):
    if centre and n > 2:
        # centres are products of edges: with the lower edges fixed (in every order) they are linear
        lo = ctx.perm("order", [1.0, 2.5, 4.0, 30.0][:n])
    else:
        lo = [ctx.real(f"{tag}{i}.lo", 0.001, 100000) for i in range(n)]
    hi = [ctx.real(f"{tag}{i}.hi", 0.001, 100000) for i in range(n)]
    for i in range(n):
        ctx.assume(lo[i] < hi[i])
        for j in range(i):
            ctx.assume(lo[i] != lo[j])
    return lo, hi


def give(ctx, lo, hi, form):
    from mt_metadata.processing.aurora.frequency_bands import FrequencyBands
    n = len(lo)
    if form == "array":
        return FrequencyBands(np.array([[lo[i], hi[i]] for i in range(n)]))
    if form == "setter":
        fb = FrequencyBands()
        ctx.check(fb.number_of_bands == 0, "no bands at first")
        fb.band_edges = np.array([[lo[i], hi[i]] for i in range(n)])
        return fb
    df = pd.DataFrame({"upper_bound": hi, "other": list(range(n)), "lower_bound": lo}, index=[7 - i for i in range(n)])
    fb = FrequencyBands(df)
    ctx.check(list(df.columns) == ["upper_bound", "other", "lower_bound"], "the frame given is left alone")
    ctx.check(list(df.index) == [7 - i for i in range(n)], "the index of the frame given is left alone")
    return fb


def rows(fb):
    a = fb.array
    return [(a[i][0], a[i][1]) for i in range(len(a))]


def kept(ctx, fb, lo, hi, label):
    """every band given is there once, and nothing else"""
    r = rows(fb)
    ctx.check(len(r) == len(lo), f"number of bands {label}")
    ctx.check(fb.number_of_bands == len(lo), f"number of bands reported {label}")
    for i in range(len(lo)):
        m = False
        for a, b in r:
            m = m | ((a == lo[i]) & (b == hi[i]))
        ctx.check(m, f"band is kept {label}")


def collection(ctx, n, form):
    lo, hi = edges(ctx, n)
    fb = give(ctx, lo, hi, form)
    kept(ctx, fb, lo, hi, "as given")
    c = fb.band_centers()
    p = fb.band_centers("period")
    bs = fb.bands()
    gs = list(fb.bands(rtype="generator"))
    ctx.check(len(bs) == n, "number of bands listed")
    ctx.check(len(gs) == n, "number of bands generated")
    for i in range(n):
        ctx.check((fb.array[i][0] == lo[i]) & (fb.array[i][1] == hi[i]), "row of the array")
        ctx.check((fb.band_edges["lower_bound"].iloc[i] == lo[i]) & (fb.band_edges["upper_bound"].iloc[i] == hi[i]), "row of the table")
        for b in (fb.band(i), bs[i], gs[i]):
            ctx.check(b.frequency_min == lo[i], "lower edge of the band")
            ctx.check(b.frequency_max == hi[i], "upper edge of the band")
        ctx.check(c[i] == fb.band(i).center_frequency, "centre of the band")
        ctx.close(c[i] * c[i], lo[i] * hi[i], "geometric centre of the band")
        ctx.close(p[i] * c[i], 1, "period of the band")


def key(lo, hi, i, by):
    return lo[i] if by == "lower_bound" else hi[i] if by == "upper_bound" else lo[i] * hi[i]


def ordered(ctx, r, by, ascending, label):
    k = [a if by == "lower_bound" else b if by == "upper_bound" else a * b for a, b in r]
    for i in range(len(k) - 1):
        ctx.check(k[i] <= k[i + 1] * (1 + 1e-9) if ascending else k[i] * (1 + 1e-9) >= k[i + 1], label)


def sorting(ctx, n, by, ascending):
    lo, hi = edges(ctx, n, centre=by == "center_frequency")
    fb = give(ctx, lo, hi, "array")
    fb.sort(by=by, ascending=ascending)
    kept(ctx, fb, lo, hi, "after sorting")
    r = rows(fb)
    ordered(ctx, r, by, ascending, "in the order asked for")
    for i in range(n):
        b = fb.band(i)
        ctx.check((b.frequency_min == r[i][0]) & (b.frequency_max == r[i][1]), "bands follow the new order")


def listing(ctx, n, by, direction):
    lo, hi = edges(ctx, n, centre=by in (None, "center_frequency"))
    fb = give(ctx, lo, hi, "array")
    bs = fb.bands(direction=direction, sortby=by)
    ctx.check(len(bs) == n, "number of bands listed")
    r = [(b.frequency_min, b.frequency_max) for b in bs]
    for i in range(n):
        m = False
        for a, b in r:
            m = m | ((a == lo[i]) & (b == hi[i]))
        ctx.check(m, "every band is listed")
    ordered(ctx, r, by or "center_frequency", direction == "increasing_frequency", "in the order asked for")
    for i in range(n):
        ctx.check((fb.array[i][0] == lo[i]) & (fb.array[i][1] == hi[i]), "listing leaves the collection alone")


def validate(ctx, n):
    lo, hi = edges(ctx, n, centre=True)
    fb = give(ctx, lo, hi, "array")
    fb.validate()
    kept(ctx, fb, lo, hi, "after validation")
    ordered(ctx, rows(fb), "center_frequency", True, "ascending after validation")


def harmonics(ctx, n):
    """the frequencies of a window"""
    from mt_metadata.processing.aurora.decimation_level import DecimationLevel, get_fft_harmonics
    sr = ctx.real("sr", 0.001, 100000)
    d = DecimationLevel()
    d.decimation.sample_rate = sr
    d.stft.window.num_samples = n
    f = d.fft_frequencies
    ctx.check(len(f) == n // 2, "number of frequencies below the Nyquist frequency")
    for k in range(n // 2):
        ctx.close(f[k], k * sr / n, "frequency of the harmonic")
    ctx.close(d.frequency_sample_interval * n, sr, "frequency interval")
    g = get_fft_harmonics(n, sr)
    ctx.check(len(g) == n // 2, "number of harmonics")


def level(ctx, n):
    """what a decimation level reports about its bands follows from them"""
    from mt_metadata.common.band import Band
    from mt_metadata.processing.aurora.decimation_level import DecimationLevel
    lo, hi = edges(ctx, n)
    imin = [ctx.int(f"b{i}.min", 0, 40) for i in range(n)]
    wid = [ctx.choice(f"b{i}.n", [1, 2]) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(imin[i] != imin[j])
    d = DecimationLevel()
    lev = ctx.int("level", 0, 6)
    how = ctx.choice("how", ["add", "dict", "assign"])
    bs = [Band(decimation_level=lev, index_min=imin[i], index_max=imin[i] + wid[i] - 1, frequency_min=lo[i], frequency_max=hi[i]) for i in range(n)]
    if how == "add":
        for b in bs:
            d.add_band(b)
    elif how == "dict":
        for b in bs:
            d.add_band(b.to_dict(single=True))
    else:
        d.bands = bs
    ctx.check(len(d.bands) == n, "every band is kept")
    lb, ub = d.lower_bounds, d.upper_bounds
    df = d.bands_dataframe
    be = d.band_edges
    ctx.check(len(df) == n, "a row for every band")
    fb = d.frequency_bands_obj()
    ctx.check(fb.number_of_bands == n, "a band for every band")
    for i in range(n):
        if i:
            ctx.check(lb[i - 1] <= lb[i], "lower indices ascending")
            ctx.check(ub[i - 1] <= ub[i], "upper indices ascending")
            ctx.check(df.lower_bound_index.iloc[i - 1] <= df.lower_bound_index.iloc[i], "rows ascending")
        m, u = False, False
        for j in range(n):
            row = df.iloc[j]
            hit = (row["lower_bound_index"] == imin[i]) & (row["upper_bound_index"] == imin[i] + wid[i] - 1) & \
                (row["frequency_min"] == lo[i]) & (row["frequency_max"] == hi[i]) & (row["decimation_level"] == lev + 1)
            m = m | hit
            u = u | ((be[j][0] == lo[i]) & (be[j][1] == hi[i]))
            if i == 0:
                ctx.check((be[j][0] == row["frequency_min"]) & (be[j][1] == row["frequency_max"]), "edges row by row")
                ctx.check((fb.band(j).frequency_min == be[j][0]) & (fb.band(j).frequency_max == be[j][1]), "bands row by row")
        ctx.check(m, "the row of the band")
        ctx.check(u, "the edges of the band")
        a, b = False, False
        for j in range(n):
            a = a | (lb[j] == imin[i])
            b = b | (ub[j] == imin[i] + wid[i] - 1)
        ctx.check(a, "lower index reported")
        ctx.check(b, "upper index reported")
    h = d.harmonic_indices
    ctx.check(len(h) == sum(wid), "number of harmonic indices")
    for i in range(n):
        for k in range(wid[i]):
            m = False
            for x in h:
                m = m | (x == imin[i] + k)
            ctx.check(m, "harmonic index of a band")
    for i in range(len(h) - 1):
        ctx.check(h[i] <= h[i + 1], "harmonic indices ascending")


def assigned(ctx, n, levels, window):
    """bands assigned from edges take the harmonics of their level that lie within the edges"""
    from mt_metadata.processing.aurora.processing import Processing
    sr = ctx.real("sr", 0.01, 10000)
    fac = ctx.choice("factor", [1, 2, 4]) if levels > 1 else 4
    p = Processing()
    want = {}
    table = {}
    for k in range(levels):
        r = sr / fac ** k
        table[k] = []
        want[k] = []
        # edges in units of the harmonic spacing: lo in (a-1, a], hi in (b, b+1]
        for i in range(n):
            a = ctx.choice(f"a{k}{i}", list(range(1, window // 2)))
            b = ctx.choice(f"b{k}{i}", list(range(a, window // 2)))
            lo, hi = ctx.real(f"lo{k}{i}", 0, 10000), ctx.real(f"hi{k}{i}", 0, 10000)
            ctx.assume((lo > (a - 0.99) * r / window) & (lo < (a - 0.01) * r / window))
            ctx.assume((hi > (b + 0.01) * r / window) & (hi < (b + 0.99) * r / window))
            table[k].append((lo, hi))
            want[k].append((a, b))
    ws = ctx.choice("windows", ["int", "dict"])
    p.assign_bands(table, sr, {k: (1 if k == 0 else fac) for k in range(levels)},
                   window if ws == "int" else {k: window for k in range(levels)})
    ctx.check(len(p.decimations) == levels, "a level for every key")
    for k in range(levels):
        d = p.get_decimation_level(k)
        ctx.check(d.decimation.level == k, "level")
        ctx.check(d.decimation.factor == (1 if k == 0 else fac), "factor")
        ctx.close(d.decimation.sample_rate * fac ** k, sr, "sampling rate of the level")
        ctx.check(len(d.bands) == n, "bands of the level")
        for i in range(n):
            b = d.bands[i]
            ctx.check(b.decimation_level == k, "level of the band")
            ctx.check((b.frequency_min == table[k][i][0]) & (b.frequency_max == table[k][i][1]), "edges of the band")
            ctx.check(b.index_min == want[k][i][0], "first harmonic of the band")
            ctx.check(b.index_max == want[k][i][1], "last harmonic of the band")
    e = p.band_edges_dict
    ctx.check(sorted(e) == list(range(levels)), "levels of the edges")


BY = ["lower_bound", "upper_bound", "center_frequency"]


def instances(tier):
    N = 3 if tier == "quick" else 4
    out = []
    out += [(f"sort:{n}:{b}:{'up' if a else 'down'}", sorting, {"n": n, "by": b, "ascending": a}) for n in range(N, 0, -1) for b in BY for a in (True, False)]
    out += [(f"list:{n}:{b}:{d}", listing, {"n": n, "by": b, "direction": d}) for n in range(N, 0, -1) for b in BY
            for d in ("increasing_frequency", "increasing_period")]
    out += [(f"list:{n}:none:increasing_period", listing, {"n": n, "by": None, "direction": "increasing_period"}) for n in range(N, 0, -1)]
    out += [(f"level:{n}", level, {"n": n}) for n in range(N, 0, -1)]
    out += [(f"assign:{n}:{k}:{w}", assigned, {"n": n, "levels": k, "window": w}) for n, k, w in
            ([(1, 1, 8), (2, 1, 6), (1, 2, 6)] if tier == "quick" else [(1, 1, 16), (2, 1, 10), (1, 2, 8), (1, 3, 6)])]
    out += [(f"validate:{n}", validate, {"n": n}) for n in range(1, N + 1)]
    out += [(f"collection:{n}:{f}", collection, {"n": n, "form": f}) for n in range(1, N + 1) for f in ("array", "frame", "setter")]
    out += [(f"harmonics:{n}", harmonics, {"n": n}) for n in range(2, 13 if tier == "quick" else 25)]
    return out
