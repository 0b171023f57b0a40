"""C42 channel naming schemes map one to one"""
import numpy as np

PROPERTY = "C42"
IMPORTS = ["mt_metadata.processing.aurora", "mt_metadata.processing.aurora.channel_nomenclature", "mt_metadata.processing.aurora.processing",
           "mt_metadata.transfer_functions", "mt_metadata.transfer_functions.core", "mt_metadata.transfer_functions.io.zfiles.zmm"]
OPTS = {"budget_s": 120}
ASSUMPTIONS = ["names given by a user are different from each other"]
STD = ["ex", "ey", "hx", "hy", "hz"]
MEANING = {"default": {"ex": "ex", "ey": "ey", "hx": "hx", "hy": "hy", "hz": "hz"},
           "lemi12": {"ex": "e1", "ey": "e2", "hx": "bx", "hy": "by", "hz": "bz"},
           "lemi34": {"ex": "e3", "ey": "e4", "hx": "bx", "hy": "by", "hz": "bz"},
           "musgraves": {"ex": "ex", "ey": "ey", "hx": "bx", "hy": "by", "hz": "bz"},
           "phoenix123": {"ex": "e1", "ey": "e2", "hx": "h1", "hy": "h2", "hz": "h3"}}


def BOUNDS(tier):
    return ("every scheme, set in every form (at construction, later, from a dictionary, after any other scheme); every combination of the single names a scheme object accepts; "
            "Z-file objects with any five names of 1 to 2 characters, transfer function objects with five names in every order (two of them standard names of other channels); 0 to 3 processing levels")


def groups(ctx, c, names):
    ex, ey, hx, hy, hz = (names[k] for k in STD)
    ctx.check(list(c.ex_ey) == [ex, ey], "electric channels in order")
    ctx.check(list(c.hx_hy) == [hx, hy], "horizontal magnetic channels in order")
    ctx.check(list(c.hx_hy_hz) == [hx, hy, hz], "magnetic channels in order")
    ctx.check(list(c.ex_ey_hz) == [ex, ey, hz], "output channels in order")
    ctx.check(list(c.default_input_channels) == [hx, hy], "default input channels")
    ctx.check(list(c.default_output_channels) == [ex, ey, hz], "default output channels")
    ctx.check(list(c.default_reference_channels) == [hx, hy], "default reference channels")
    both = list(c.default_input_channels) + list(c.default_output_channels)
    ctx.check(sorted(both) == sorted(names.values()), "inputs and outputs are all channels")
    ctx.check(sorted(list(c.ex_ey) + list(c.hx_hy_hz)) == sorted(names.values()), "electric and magnetic are all channels")
    ctx.check(tuple(c.unpack()) == (ex, ey, hx, hy, hz), "names in standard order")


def scheme(ctx, how):
    from mt_metadata.processing.aurora import ChannelNomenclature
    from mt_metadata.processing.aurora.channel_nomenclature import SupportedNomenclatureEnum
    word = ctx.choice("scheme", list(MEANING))
    ctx.check(sorted(x.value for x in SupportedNomenclatureEnum) == sorted(MEANING), "the schemes")
    if how == "new":
        c = ChannelNomenclature(keyword=word)
    elif how == "set":
        c = ChannelNomenclature(keyword=ctx.choice("before", list(MEANING)))
        c.keyword = ctx.choice("as", [lambda w: w, SupportedNomenclatureEnum, str.upper])(word)
    elif how == "dict":
        c = ChannelNomenclature(keyword=ctx.choice("before", list(MEANING)))
        c.from_dict({"channel_nomenclature": {"keyword": word}})
    elif how == "again":
        c = ChannelNomenclature(keyword=word)
        c.hx, c.ey = "h3", "e3"
        c.update()
    else:
        c = ChannelNomenclature()
        c.keyword = None
        word = "default"
    names = MEANING[word]
    ctx.check(c.keyword.value == word, "the scheme")
    for k in STD:
        ctx.check(getattr(c, k).value == names[k], "name of a channel")
    ctx.check(len(set(names[k] for k in STD)) == 5, "five different names")
    m = c.get_channel_map()
    ctx.check(dict(m) == names, "map of the names")
    inverse = {v: k for k, v in m.items()}
    ctx.check((len(inverse) == 5) & all([inverse[m[k]] == k for k in STD]), "the map can be inverted")
    ctx.check(sorted(c.channels) == sorted(names.values()), "list of channels")
    groups(ctx, c, names)


def single(ctx):
    """names given one by one"""
    from mt_metadata.processing.aurora import channel_nomenclature as M
    c = M.ChannelNomenclature(keyword="default")
    names = {}
    for k, e in zip(STD, (M.ExEnum, M.EyEnum, M.HxEnum, M.HyEnum, M.HzEnum)):
        names[k] = ctx.choice(k, [x.value for x in e])
        ctx.assume(names[k] not in [names[q] for q in names if q != k])
        setattr(c, k, names[k])
    for k in STD:
        ctx.check(getattr(c, k).value == names[k], "name of a channel")
    groups(ctx, c, names)


def unknown(ctx):
    from mt_metadata.processing.aurora import ChannelNomenclature
    w = ctx.str("w", minlen=1, maxlen=3, alphabet="adelmi123n")
    c = ChannelNomenclature()
    try:
        c.keyword = w
    except Exception:
        groups(ctx, c, MEANING["default"])
        return
    ctx.fail("an unknown scheme is refused")


def five(ctx, n):
    names = {}
    for k in n:
        names[k] = ctx.str(k, minlen=1, maxlen=2 if k in ("hx", "ey") else 1, alphabet="abxy1", first="ab")
        for q in names:
            if q != k:
                ctx.assume(names[q] != names[k])
    return names


def own(ctx, which, when):
    """names of a user in objects holding transfer functions"""
    names = five(ctx, STD) if which == "zmm" else dict(zip(STD, ctx.perm("names", ["ex", "hy", "b", "hz", "e2"])))
    order = ctx.choice("order", [STD, STD[::-1], ["hz", "ex", "hx", "ey", "hy"]])
    given = {k: names[k] for k in order}
    if which == "tf":
        from mt_metadata.transfer_functions.core import TF
        if when == "later":
            t = TF()
            t.channel_nomenclature = MEANING["lemi12"]
            ctx.check(t.inverse_channel_nomenclature["bx"] == "hx", "inverse map of the first names")
            t.channel_nomenclature = given
        else:
            t = TF(channel_nomenclature=given)
        ex_ey, hx_hy, ex_ey_hz = t.ex_ey, t.hx_hy, t.ex_ey_hz
        single = [t.ex, t.ey, t.hx, t.hy, t.hz]
        inv = t.inverse_channel_nomenclature
        ctx.check(len(inv) == 5, "five names in the inverse map")
        for k in STD:
            ctx.check(inv[names[k]] == k, "inverse map")
            ctx.check(t.channel_nomenclature[k] == names[k], "map")
    else:
        from mt_metadata.transfer_functions.io.zfiles.zmm import ZMM
        t = ZMM()
        if when == "later":
            t.channel_nomenclature = dict(MEANING["phoenix123"])
        t.channel_nomenclature = given
        ex_ey, hx_hy, ex_ey_hz = t._ex_ey, t._hx_hy, t._ex_ey_hz
        single = [t._ex, t._ey, t._hx, t._hy, t._hz]
        for k in STD:
            ctx.check(t.channel_nomenclature[k] == names[k], "map")
    ctx.check(len(ex_ey) == 2 and len(hx_hy) == 2 and len(ex_ey_hz) == 3, "number of grouped names")
    for g, e in ((ex_ey, "ex ey"), (hx_hy, "hx hy"), (ex_ey_hz, "ex ey hz"), (single, "ex ey hx hy hz")):
        for x, k in zip(g, e.split()):
            ctx.check(x == names[k], "grouped names in order: " + e)
    for d, rows in ((t._ch_input_dict, {"isp": "hx hy", "res": "ex ey hz", "tf": "hx hy", "tf_error": "hx hy"}),
                    (t._ch_output_dict, {"isp": "hx hy", "res": "ex ey hz", "tf": "ex ey hz", "tf_error": "ex ey hz"})):
        for key, e in rows.items():
            ctx.check(len(d[key]) == len(e.split()), "number of names of a quantity")
            for x, k in zip(d[key], e.split()):
                ctx.check(x == names[k], "names of a quantity")
        for k in STD:
            ctx.check(names[k] in d["all"], "all names")
        ctx.check(len(d["all"]) == 5, "number of all names")
    if which == "tf":
        for d, rows in ((t._ch_input_dict, {"impedance": "hx hy", "tipper": "hx hy", "impedance_error": "hx hy", "tipper_error": "hx hy"}),
                        (t._ch_output_dict, {"impedance": "ex ey", "tipper": "hz", "impedance_error": "ex ey", "tipper_error": "hz"})):
            for key, e in rows.items():
                ctx.check(len(d[key]) == len(e.split()), "number of names of a quantity")
                for x, k in zip(d[key], e.split()):
                    ctx.check(x == names[k], "names of a quantity")


def levels(ctx, n):
    """a processing configuration uses the names of its scheme in every level"""
    from mt_metadata.processing.aurora.processing import Processing
    from mt_metadata.processing.aurora.decimation_level import DecimationLevel
    p = Processing()
    for i in range(n):
        d = DecimationLevel()
        d.decimation.level = i
        p.add_decimation_level(d)
    word = ctx.choice("scheme", list(MEANING))
    p.channel_nomenclature.keyword = word
    p.set_default_input_output_channels()
    p.set_default_reference_channels()
    m = MEANING[word]
    ctx.check(len(p.decimations) == n, "number of levels")
    for d in p.decimations:
        ctx.check(d.input_channels == [m["hx"], m["hy"]], "input channels of a level")
        ctx.check(d.output_channels == [m["ex"], m["ey"], m["hz"]], "output channels of a level")
        ctx.check(d.reference_channels == [m["hx"], m["hy"]], "reference channels of a level")
    p.drop_reference_channels()
    for d in p.decimations:
        ctx.check(d.reference_channels == [], "reference channels dropped")
        ctx.check(d.input_channels == [m["hx"], m["hy"]], "input channels kept")
        ctx.check(d.local_channels == [m["hx"], m["hy"], m["ex"], m["ey"], m["hz"]], "local channels are the inputs and outputs")


def maps(ctx):
    """the maps of the transfer functions module"""
    import mt_metadata.transfer_functions as T
    word = ctx.choice("scheme", list(MEANING))
    ctx.check(T.CHANNEL_MAPS[word] == MEANING[word], "map of the scheme")
    ctx.check(T.CHANNEL_MAPS["nims"] == MEANING["default"], "nims uses the standard names")
    for k in ("hx", "hy"):
        ctx.check(MEANING[word][k] in T.ALLOWED_INPUT_CHANNELS, "allowed input names")
    for k in ("ex", "ey", "hz"):
        ctx.check(MEANING[word][k] in T.ALLOWED_OUTPUT_CHANNELS, "allowed output names")


def instances(tier):
    out = [("single", single, {}, {"max_paths": 6000})]
    for w in ("tf", "zmm"):
        for when in ("new", "later"):
            out.append((f"own:{w}:{when}", own, {"which": w, "when": when}))
    for how in ("set", "new", "dict", "again", "none"):
        out.append((f"scheme:{how}", scheme, {"how": how}))
    out += [(f"levels:{n}", levels, {"n": n}) for n in range(4)] + [("unknown", unknown, {}), ("maps", maps, {})]
    return out
