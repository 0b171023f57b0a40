"""C23 units are recognised by name, symbol and alias consistently"""
import pandas as pd

from mt_metadata.common import units as U

from checks import gen

PROPERTY = "C23"
IMPORTS = ["mt_metadata.common.units", "checks.gen"]
OPTS = {"budget_s": 120, "timeout_ms": 10000}
ASSUMPTIONS = ["the table of units is taken as it is built at import; the look-up in it is executed symbolically, row by row"]
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
FULL = [(r["name"], r["symbol"], r["description"], r["plot_label"]) for r in U.UNITS_DF.to_dict("records")]
SOME = ["milliVolt", "kilometer", "nanoTesla", "second", "Ampere", "digital counts", "ohm", "microVolt", "celsius", "samples", "hertz", "radian", "kilogram"]


def BOUNDS(tier):
    return ("every row of the table of units (%s of the %d), its name in every combination of upper and lower case, its symbol, single letters in either case; "
            "every text of up to %d letters; compounds of 2 and 3 of %d units by name (either case) and symbol with every separator and spacing"
            % ("one in eight" if tier == "quick" else "each", len(FULL), 2 if tier == "quick" else 3, len(SOME)))


def is_unit(ctx, u, row, label):
    ctx.check(u.name == row[0], "name " + label)
    ctx.check(u.symbol == row[1], "symbol " + label)
    ctx.check(u.description == row[2], "description " + label)
    ctx.check(u.plot_label == row[3], "plot label " + label)


def any_case(ctx, tag, text):
    """the text with every letter in either case"""
    s = ctx.str(tag, minlen=len(text), maxlen=len(text), alphabet=LETTERS + " ")
    ctx.assume(s.lower() == text.lower())
    return s


def first(name):
    return next(r for r in FULL if r[0].lower() == name.lower())


def lookup(ctx, row):
    r = FULL[row]
    name, symbol = r[0], r[1]
    u = U.get_unit_object(any_case(ctx, "name", name))
    e = first(name)
    is_unit(ctx, u, e, "of the unit found by name")
    v = U.get_unit_object(any_case(ctx, "again", name), allow_none=False)
    is_unit(ctx, v, e, "of the unit found by name, unknown ones refused")
    w = U.get_unit_object(u.name)
    is_unit(ctx, w, e, "of the unit found by its validated name")
    s = U.get_unit_object(symbol)
    e = next(q for q in FULL if q[1] == symbol)
    # the symbol C is that of celsius and of coulomb: the table lists celsius first
    if symbol not in ("count", "counts"):
        is_unit(ctx, s, e, "of the unit found by symbol")
    else:
        ctx.check(s.name == "digital counts", "name of the unit found by symbol")
    d = u.to_dict()
    ctx.check((d["name"] == u.name) & (d["symbol"] == u.symbol) & (d["plot_label"] == u.plot_label) & (d["description"] == u.description), "as dictionary")
    b = U.Unit(name="", symbol="", description="", plot_label="")
    b.from_dict(d)
    is_unit(ctx, b, first(name), "read from a dictionary")


def letter(ctx):
    """one letter: the symbol itself, else the symbol in the other case"""
    c = ctx.str("c", minlen=1, maxlen=1, alphabet=LETTERS)
    exact = [q for q in FULL if len(q[1]) == 1]
    try:
        u = U.get_unit_object(c, allow_none=False)
    except KeyError:
        for q in exact:
            ctx.check((c != q[1]) & (c.lower() != q[1].lower()), "a symbol is recognised")
        return
    m = False
    same = False
    for q in exact:
        m = m | ((c == q[1]) & (u.name == next(x for x in exact if x[1] == q[1])[0]))
        same = same | (c == q[1])
    other = False
    for q in exact:
        other = other | ((c.lower() == q[1].lower()) & (u.name == q[0]))
    ctx.check(m if same else other, "one letter is the symbol, or the symbol in the other case")


def anything(ctx, n, k, of):
    """a text is refused, reported as unknown, or is the name or symbol of what is returned"""
    s = ctx.str("s0", minlen=1, maxlen=1, alphabet=LETTERS[k::of])
    if n > 1:
        s = s + ctx.str("s", minlen=n - 1, maxlen=n - 1, alphabet=LETTERS)
    known = False
    try:
        u = U.get_unit_object(s, allow_none=False)
        known = True
    except KeyError:
        u = None
    v = U.get_unit_object(s)
    if known:
        ctx.check((u.name == v.name) & (u.symbol == v.symbol), "the same unit with and without refusing")
        ctx.check((u.name.lower() == s.lower()) | (u.symbol == s) | ((n == 1) & (u.symbol.lower() == s.lower())) |
                  ((s.lower() == "counts") & (u.name == "digital counts")), "a text is never another unit")
    else:
        ctx.check(v.name == "unknown", "an unknown unit is reported")
        ctx.check(v.symbol == "unknown", "an unknown unit is reported")
        for q in FULL:
            if len(q[1]) == n:
                ctx.check(s != q[1], "a symbol is recognised")
            if len(q[0]) == n:
                ctx.check(s.lower() != q[0].lower(), "a name is recognised")


SEPARATORS = {"/": [" per ", "/", " / ", "/ ", " /", " PER "], " ": [" ", "  "]}


def part(ctx, i, name, n):
    r = first(name)
    how = ctx.choice(f"form{i}", ["name", "symbol", "upper", "lower", "bracket"] if n < 3 else ["upper", "symbol"] if n < 4 else ["lower"] if i % 2 else ["symbol"])
    t = {"name": r[0], "symbol": r[1], "upper": r[0].upper(), "lower": r[0].lower(), "bracket": "[" + r[1] + "]"}[how]
    return t, r


def compound(ctx, names, ops):
    parts, rows, text = [], [], ""
    seps = [ctx.choice(f"sep{i}", SEPARATORS[o]) for i, o in enumerate(ops)]
    for i, n in enumerate(names):
        t, r = part(ctx, i, n, len(names))
        rows.append(r)
        text = text + (seps[i - 1] if i else "") + t
    given = text
    u = U.get_unit_object(text, allow_none=False)
    name = symbol = label = ""
    for i, r in enumerate(rows):
        sign = ops[i - 1] if i else ""
        name += ("" if not i else " per " if sign == "/" else " ") + r[0]
        symbol += sign + r[1]
        label += sign + r[3]
    ctx.check(u.name == name, "name of a compound")
    ctx.check(u.symbol == symbol, "symbol of a compound")
    ctx.check(u.plot_label == label, "plot label of a compound")
    ctx.check(text == given, "the text stays")
    v = U.get_unit_object(u.name, allow_none=False)
    ctx.check((v.name == u.name) & (v.symbol == u.symbol) & (v.plot_label == u.plot_label), "the name of a compound is a fixed point")
    w = U.get_unit_object(u.symbol, allow_none=False)
    ctx.check((w.name == u.name) & (w.symbol == u.symbol), "the symbol of a compound is the same unit")


def unknown_part(ctx, n):
    """a part that is not known is refused or reported, the others stay"""
    s = ctx.str("s", minlen=n, maxlen=n, alphabet="qxQX")
    first_ = ctx.choice("first", [True, False])
    sep = ctx.choice("sep", [" per ", "/", " "])
    text = s + sep + "kilometer" if first_ else "kilometer" + sep + s
    try:
        U.get_unit_object(s, allow_none=False)
        ctx.reach("known after all")
        return
    except KeyError:
        pass
    try:
        U.get_unit_object(text, allow_none=False)
    except KeyError:
        ctx.reach("refused")
        w = " per " if sep != " " else " "
        ctx.check(U.get_unit_object(text).name == ("unknown" + w + "kilometer" if first_ else "kilometer" + w + "unknown"), "an unknown part is reported")
        return
    ctx.fail("an unknown part is refused")


def none(ctx):
    for x in (None, ""):
        u = U.get_unit_object(x)
        ctx.check((u.name == "unknown") & (u.symbol == "unknown"), "no unit is unknown")
    for x in ("digital counts", "counts", "digital count", "count", "Digital Counts", "COUNTS", "Counts"):
        ctx.check(U.get_unit_object(x).name == "digital counts", "counts by any name")


def fields(ctx, cls, fname):
    """a field that holds a unit takes the unit by name, symbol or compound, keeps it when given again"""
    names = SOME[:5]
    n = ctx.choice("unit", names)
    r = first(n)
    how = ctx.choice("form", ["name", "symbol", "upper", "compound"])
    m = gen.make(cls)
    text = {"name": r[0], "symbol": r[1], "upper": r[0].upper(), "compound": r[1] + "/km"}[how]
    want = r[0] + (" per kilometer" if how == "compound" else "")
    setattr(m, fname, text)
    # (a data type keeps the symbol)
    ctx.check(U.get_unit_object(getattr(m, fname), allow_none=False).name == want, "unit of a field")
    had = getattr(m, fname)
    setattr(m, fname, had)
    ctx.check(getattr(m, fname) == had, "unit of a field given again")
    s = ctx.str("s", minlen=2, maxlen=2, alphabet="qxQX")
    try:
        setattr(m, fname, s)
    except (KeyError, ValueError):
        ctx.reach("refused")
        ctx.check(getattr(m, fname) == had, "a refused unit changes nothing")
        return
    ctx.check(getattr(m, fname) in ("unknown", ""), "an unknown unit is reported")


def instances(tier):
    import itertools
    q = tier == "quick"
    out = [(f"text:{n}:{k}", anything, {"n": n, "k": k, "of": of}) for n, of in ((1, 1), (2, 6), (3, 26))[: 2 if q else 3] for k in range(of)] + [("letter", letter, {})]
    out += [(f"unit:{i}:{r[0]}".replace("[", "").replace("*", ""), lookup, {"row": i}) for i, r in enumerate(FULL) if not q or i < 6 or i % 8 == 3 or r[0] in SOME]
    pairs = list(itertools.product(SOME, repeat=2))
    out += [(f"pair:{a}:{b}:{o}", compound, {"names": (a, b), "ops": (o,)}) for k, (a, b) in enumerate(pairs) for o in ("/", " ") if not q or k % 7 == 0 or "digital" in a + b]
    out += [(f"three:{a}:{b}:{c}:{o}", compound, {"names": (a, b, c), "ops": tuple(o)}) for k, (a, b, c) in enumerate(itertools.product(SOME, repeat=3))
            for o in ("//", "/ ", " /", "  ") if k % (211 if q else 37) == 0]
    out += [(f"four:{a}:{b}:{c}:{d}:{o}", compound, {"names": (a, b, c, d), "ops": tuple(o)}) for k, (a, b, c, d) in enumerate(itertools.product(SOME, repeat=4))
            for j, o in enumerate(("///", "// ", "/ /", " //", "/  ", " / ", "  /", "   ")) if k % (4001 if q else 211) == j]
    out += [(f"unknown:{n}", unknown_part, {"n": n}) for n in (1, 2, 3)] + [("none", none, {})]
    for c in gen.classes():
        for f in gen.fields(c):
            if gen.kind(c, f) == "unit":
                out.append((f"field:{gen.short(c)}.{f}", fields, {"cls": c, "fname": f}))
    return out
