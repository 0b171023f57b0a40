"""C34 EMTF XML data survive being written and read"""
import numpy as np

PROPERTY = "C34"
IMPORTS = ["mt_metadata.transfer_functions.io.emtfxml.metadata", "mt_metadata.transfer_functions.io.emtfxml.metadata.data",
           "mt_metadata.transfer_functions.io.emtfxml.metadata.helpers", "mt_metadata.base.helpers"]
OPTS = {"budget_s": 150, "timeout_ms": 15000}
OPTS_THOROUGH = {"budget_s": 780, "timeout_ms": 30000}
ASSUMPTIONS = ["the element tree is handed over as it is (the XML text around the numbers is the standard library's); the text of each number is written and parsed by the code",
               "the sign of each part is fixed per instance (three patterns)",
               "a zero is the format's missing mark (1e32) and comes back as that: known finding"]
SHAPES = {"z": (2, 2), "z_var": (2, 2), "z_invsigcov": (2, 2), "z_residcov": (2, 2), "t": (1, 2), "t_var": (1, 2), "t_invsigcov": (2, 2), "t_residcov": (1, 1)}
COMPLEX = ["z", "z_invsigcov", "z_residcov", "t", "t_invsigcov", "t_residcov"]
OUT = {"z": ["Ex", "Ey"], "z_var": ["Ex", "Ey"], "z_invsigcov": ["Hx", "Hy"], "z_residcov": ["Ex", "Ey"], "t": ["Hz"], "t_var": ["Hz"],
       "t_invsigcov": ["Hx", "Hy"], "t_residcov": ["Hz"]}
IN = {"z": ["Hx", "Hy"], "z_var": ["Hx", "Hy"], "z_invsigcov": ["Hx", "Hy"], "z_residcov": ["Ex", "Ey"], "t": ["Hx", "Hy"], "t_var": ["Hx", "Hy"],
      "t_invsigcov": ["Hx", "Hy"], "t_residcov": ["Hz"]}
SMALL, LARGE = 1e-3, 1e6


def BOUNDS(tier):
    return ("every value with parts between 1e-3 and 1e6 (either sign, three patterns) and every period between 1e-3 and 1e5 s; 1 to %d periods; %s of the eight quantities; "
            "order of the values within a quantity: as written, reversed; of the quantities, periods: as written and reversed; with derived quantities among them"
            % ((3, "20 subsets") if tier == "quick" else (4, "every subset")))


def part(ctx, name, negative):
    v = ctx.real(name, SMALL, LARGE)
    return -v if negative else v


def quantity(ctx, key, n, signs, parts=("re", "im")):
    s = SHAPES[key]
    out = np.zeros((n,) + s, dtype=complex if key in COMPLEX else float)
    c = 0
    for k in range(n):
        for i in range(s[0]):
            for j in range(s[1]):
                v = part(ctx, f"{key}.{k}.{i}.{j}.re", key in COMPLEX and signs[c % len(signs)] == "-") if "re" in parts else 0.0
                c += 1
                if key in COMPLEX:
                    w = part(ctx, f"{key}.{k}.{i}.{j}.im", signs[c % len(signs)] == "-") if "im" in parts else 0.0
                    c += 1
                    v = v + 1j * w
                out[k, i, j] = v
    return out


def periods(ctx, n):
    return [ctx.real(f"p.{k}", 1e-3, 1e5) for k in range(n)]


def filled(ctx, keys, n, signs, given, parts=("re", "im")):
    from mt_metadata.transfer_functions.io.emtfxml.metadata.data import TransferFunction
    p = periods(ctx, n)
    values = {k: quantity(ctx, k, n, signs, parts) for k in keys}
    if given == "constructed":
        d = TransferFunction(period=np.array(p), **{k: np.array(v) for k, v in values.items()})
    else:
        d = TransferFunction()
        if given == "initialised":
            d.initialize_arrays(n)
        for k in SHAPES:
            if k in values:
                setattr(d, k, np.array(values[k]))
            elif given in ("none", "initialised"):
                setattr(d, k, None)
        d.period = np.array(p)
    return d, p, values


def read_back(element):
    from mt_metadata.transfer_functions.io.emtfxml.metadata.data import TransferFunction
    from mt_metadata.transfer_functions.io.emtfxml.metadata import helpers as emtf_helpers
    from mt_metadata.base import helpers
    r = TransferFunction()
    r.read_dict(emtf_helpers._convert_keys_to_lower_case(helpers.element_to_dict(element)))
    return r


def near(ctx, got, want, label):
    ctx.close(got, want, label, rtol=6e-7, atol=0)


def judge(ctx, r, p, values, n, order=None):
    at = order or list(range(n))
    ctx.check(len(r.period) == n, "as many periods as written")
    for k in range(n):
        ctx.close(r.period[at[k]], p[k], "the period", rtol=6e-13, atol=0)
    for key, shape in SHAPES.items():
        got = getattr(r, key)
        ctx.check(tuple(got.shape) == (n,) + shape, f"shape of {key}")
        for k in range(n):
            for i in range(shape[0]):
                for j in range(shape[1]):
                    g = got[at[k], i, j]
                    if key not in values:
                        ctx.check(g == 0, f"{key} was not there")
                    elif key in COMPLEX:
                        near(ctx, g.real, values[key][k, i, j].real, f"{key}, real part")
                        near(ctx, g.imag, values[key][k, i, j].imag, f"{key}, imaginary part")
                    else:
                        near(ctx, g, values[key][k, i, j], key)


def h_roundtrip(ctx, keys, n, signs, given="none", parts=("re", "im")):
    d, p, values = filled(ctx, keys, n, signs, given, parts)
    judge(ctx, read_back(d.to_xml()), p, values, n)
    for k in keys:
        for i in np.ndindex(values[k].shape):
            ctx.check(getattr(d, k)[i] == values[k][i], "writing leaves the values as they are")


def h_written(ctx, keys, n, signs):
    """the names on the values are those of the channels"""
    d, p, values = filled(ctx, keys, n, signs, "none")
    el = d.to_xml()
    ctx.check(int(el.attrib["count"]) == n, "the number of periods is written")
    for k in range(n):
        block = list(el)[k]
        ctx.close(float(block.attrib["value"]), p[k], "the period is written on its block", rtol=6e-13, atol=0)
        tags = [c.tag for c in block]
        ctx.check(sorted(tags) == sorted([key.upper().replace("_", ".") for key in keys]), "the quantities written")
        for c in block:
            key = c.tag.lower().replace(".", "_")
            ctx.check(len(list(c)) == SHAPES[key][0] * SHAPES[key][1], "number of values")
            seen = []
            for v in c:
                i, j = OUT[key].index(v.attrib["output"]), IN[key].index(v.attrib["input"])
                seen.append((i, j))
                t = v.text.split()
                near(ctx, float(t[0]), values[key][k, i, j].real if key in COMPLEX else values[key][k, i, j], f"{key} stands on the value of its channels")
                if key in COMPLEX:
                    near(ctx, float(t[1]), values[key][k, i, j].imag, f"{key} stands on the value of its channels")
            ctx.check(len(set(seen)) == len(seen), "each element is written once")


def h_order(ctx, keys, n, what, signs, case=False, derived=False, count=True):
    """values are found by the names on them, not by where they stand"""
    d, p, values = filled(ctx, keys, n, signs, "none")
    el = d.to_xml()
    order = None
    if what == "values":
        for block in el:
            for c in block:
                rows = list(c)
                for v in rows:
                    c.remove(v)
                for v in rows[::-1]:
                    c.append(v)
    if what == "quantities":
        for block in el:
            rows = list(block)
            for v in rows:
                block.remove(v)
            for v in rows[::-1]:
                block.append(v)
    if what == "periods":
        rows = list(el)
        for v in rows:
            el.remove(v)
        for v in rows[::-1]:
            el.append(v)
        order = list(range(n))[::-1]
    if case:
        for block in el:
            for c in block:
                for v in c:
                    v.attrib["output"] = v.attrib["output"].upper()
                    v.attrib["input"] = v.attrib["input"].lower()
    if derived:
        for block in el:
            for name in ("RHO", "PHS.VAR", "TIPMAG", "ZSTRIKE"):
                c = type(el)(name)
                c.attrib["type"], c.attrib["size"] = "real", "2 2"
                v = type(el)("value")
                v.attrib["output"], v.attrib["input"] = "Ex", "Hy"
                v.text = "3.25"
                c.append(v)
                block.insert(0, c)
    if not count:
        del el.attrib["count"]
    judge(ctx, read_back(el), p, values, n, order)


def h_missing(ctx, keys, n, drop):
    """files need not have every value of a quantity"""
    d, p, values = filled(ctx, keys, n, "+-", "none")
    el = d.to_xml()
    for k, block in enumerate(el):
        for c in list(block):
            key = c.tag.lower().replace(".", "_")
            for v in list(c):
                i, j = OUT[key].index(v.attrib["output"]), IN[key].index(v.attrib["input"])
                if (key, k, i, j) in drop:
                    c.remove(v)
                    values[key][k, i, j] = 0
    judge(ctx, read_back(el), p, values, n)


def h_reread(ctx, keys, first, n):
    """an object that read one file reads the next"""
    from mt_metadata.transfer_functions.io.emtfxml.metadata import helpers as emtf_helpers
    from mt_metadata.base import helpers
    d, p, values = filled(ctx, keys, n, "+-", "none")
    old = type(d)(period=np.array([1.0, 2.0]), **{k: np.ones((2,) + SHAPES[k]) for k in first})
    r = read_back(old.to_xml())
    r.read_dict(emtf_helpers._convert_keys_to_lower_case(helpers.element_to_dict(d.to_xml())))
    judge(ctx, r, p, values, n)


def h_twice(ctx, keys, n):
    """what was read is written again as it was"""
    d, p, values = filled(ctx, keys, n, "+--", "constructed")
    r = read_back(d.to_xml())
    for k in SHAPES:
        if k not in keys:
            setattr(r, k, None)
    judge2(ctx, read_back(r.to_xml()), p, values, n)


def judge2(ctx, r, p, values, n):
    for key in values:
        for i in np.ndindex(values[key].shape):
            g, w = getattr(r, key)[i], values[key][i]
            ctx.close(g.real if key in COMPLEX else g, w.real if key in COMPLEX else w, f"{key} written again", rtol=1.3e-6, atol=0)
            if key in COMPLEX:
                ctx.close(g.imag, w.imag, f"{key} written again", rtol=1.3e-6, atol=0)


def h_zero(ctx, key, at):
    """a value of zero is a value"""
    d, p, values = filled(ctx, [key], 1, "+-", "none")
    values[key][at] = 0
    setattr(d, key, np.array(values[key]))
    r = read_back(d.to_xml())
    ctx.check(getattr(r, key)[at] == 0, "a value of zero comes back as zero")


def h_absent(ctx, keys):
    """quantities left as initialised (all zero) are not there"""
    d, p, values = filled(ctx, keys, 1, "+-", "none")
    e = type(d)()
    e.initialize_arrays(1)
    e.period = np.array(p)
    for k in keys:
        setattr(e, k, np.array(values[k]))
    r = read_back(e.to_xml())
    for k in SHAPES:
        if k not in keys:
            ctx.check(bool(np.all(getattr(r, k) == 0)), "a quantity of zeros comes back as zeros")


def h_nan(ctx, key, n):
    """what is not a number is missing; the other values stay"""
    d, p, values = filled(ctx, [key], n, "+-", "none")
    a = np.array(values[key])
    a[0, 0, 0] = np.nan
    setattr(d, key, a)
    r = read_back(d.to_xml())
    g = getattr(r, key)[0, 0, 0]
    ctx.check(bool(g.real >= 1e31), "a value that is not a number is marked missing")
    for i in np.ndindex(a.shape):
        if i != (0, 0, 0):
            near(ctx, getattr(r, key)[i].real, values[key][i].real, f"{key} beside a missing value")


def instances(tier):
    out = []
    every = list(SHAPES)
    zs, ts = [k for k in every if k[0] == "z"], [k for k in every if k[0] == "t"]
    for n in ((2, 1, 3) if tier == "quick" else (4, 2, 1, 3)):
        out.append((f"all:{n}", h_roundtrip, {"keys": every, "n": n, "signs": "+-++--"}))
    out.append(("all:signs", h_roundtrip, {"keys": every, "n": 1, "signs": "-"}))
    out.append(("all:signs2", h_roundtrip, {"keys": every, "n": 1, "signs": "-+"}))
    subsets = [[k] for k in every] + [zs, ts, ["z", "t"], ["z", "z_var"], ["t", "t_var"], ["z", "z_var", "t", "t_var"], ["z", "z_invsigcov", "z_residcov"],
                                      ["t_invsigcov", "z_residcov"], ["z_var", "t_residcov"], []]
    if tier != "quick":
        subsets = [[k for b, k in enumerate(every) if m >> b & 1] for m in range(256)]
    for s in subsets:
        out.append(("some:" + ",".join(s), h_roundtrip, {"keys": s, "n": 2 if len(s) < 3 else 1, "signs": "-++"}))
    for given in ("constructed", "initialised", "assigned"):
        out.append((f"given:{given}", h_roundtrip, {"keys": ["z", "z_var", "t", "t_residcov"], "n": 2, "signs": "+-", "given": given}))
    out.append(("real", h_roundtrip, {"keys": COMPLEX, "n": 1, "signs": "+-+", "parts": ("re",)}))
    out.append(("imaginary", h_roundtrip, {"keys": COMPLEX, "n": 1, "signs": "+-+", "parts": ("im",)}))
    for what in ("values", "quantities", "periods"):
        out.append((f"order:{what}", h_order, {"keys": every, "n": 2, "what": what, "signs": "+--+"}))
    out.append(("case", h_order, {"keys": every, "n": 1, "what": "", "signs": "+-", "case": True}))
    out.append(("derived", h_order, {"keys": every, "n": 1, "what": "", "signs": "-+", "derived": True}))
    out.append(("no-count", h_order, {"keys": ["z", "t_var"], "n": 3, "what": "periods", "signs": "-+", "count": False}))
    out.append(("written", h_written, {"keys": every, "n": 2, "signs": "+-+"}))
    out.append(("missing", h_missing, {"keys": ["z", "t_var", "t_invsigcov"], "n": 2, "drop": [("z", 0, 0, 1), ("z", 1, 1, 0), ("t_var", 1, 0, 0), ("t_invsigcov", 0, 1, 1)]}))
    out.append(("reread", h_reread, {"keys": ["z", "z_var"], "first": ["t", "z", "z_residcov"], "n": 1}))
    out.append(("reread:3", h_reread, {"keys": ["t", "z"], "first": ["t_var"], "n": 3}))
    out.append(("twice", h_twice, {"keys": ["z", "t_var", "z_residcov"], "n": 1}))
    for key in ("z", "z_var", "t_residcov"):
        out.append((f"zero:{key}", h_zero, {"key": key, "at": (0, 0, 0)}))
    out.append(("absent", h_absent, {"keys": ["z"]}))
    out.append(("nan:z", h_nan, {"key": "z", "n": 1}))
    out.append(("nan:t_var", h_nan, {"key": "t_var", "n": 2}))
    return out
