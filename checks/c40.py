"""C40 comments survive printing and parsing"""
import numpy as np
import pandas as pd

PROPERTY = "C40"
IMPORTS = ["mt_metadata.common", "mt_metadata.common.comment", "mt_metadata.common.mttime", "mt_metadata.timeseries", "mt_metadata.timeseries.filters"]
OPTS = {"budget_s": 200}
ASSUMPTIONS = ["authors and texts are without '|'; when a comment is printed they are not empty and do not start or end with a blank (parsing takes blanks around the separators away)",
               "an author without a time is not itself a date"]
ALPHA = "aB7 :,-"
INNER = "aB7:,-"
AUTHORS = ["J. Pedantic", "kkappler", "a b", "Zz-9", "x:y"]


def BOUNDS(tier):
    return ("every author of 1 to 3 and text of 1 to " + ("5" if tier == "thorough" else "4") + " characters out of 'aB7 :,-', every second from 1970 to 2033 (microseconds of one day in addition), "
            "every way of giving the parts (construction, attributes, dictionary, printed text) and every target (new comment, one with other contents, comments attribute of runs, channels, filters)")


def text(ctx, name, n, trimmed=True):
    s = ctx.str(name, minlen=1, maxlen=n, alphabet=ALPHA)
    if trimmed:
        ctx.assume((s[0] != " ") & (s[-1] != " "))
    return s


def moment(ctx, fine=False):
    from mt_metadata.common.mttime import MTime
    if fine:
        us = ctx.int("micro", 1, 86400 * 10 ** 6 - 1)
        return MTime(time_stamp=ctx.int("time", 400000000, 2000000000)) + pd.Timedelta(us, unit="us")
    s = ctx.int("time", 1, 2000000000)
    ctx.assume(s != 315532800)      # 1980-01-01 stands for no time
    return MTime(time_stamp=s)


def build(ctx, how, author, time, value):
    from mt_metadata.common import Comment
    if how == "new":
        return Comment(author=author, time_stamp=time, value=value)
    c = Comment()
    if how == "attributes":
        c.value = value
        c.author = author
        c.time_stamp = time
    elif how == "dict":
        c.from_dict({"comment": {"author": author, "value": value, "time_stamp": time}})
    elif how == "flat":
        c.from_dict({"author": author, "value": value, "time_stamp": time})
    else:
        c.read_dict({"comments": {"author": author, "value": value, "date": time}})
    return c


def target(ctx, where, printed):
    """the printed text given to another object"""
    from mt_metadata.common import Comment
    if where == "new":
        return Comment(value=printed)
    if where == "set":
        c = Comment()
        c.value = printed
        return c
    if where == "used":
        c = Comment(author="before", time_stamp="2001-01-01", value="earlier")
        c.value = printed
        return c
    if where == "from_dict":
        c = Comment()
        c.from_dict(printed)
        return c
    if where == "wrapped":
        c = Comment()
        c.from_dict({"comments": printed})
        return c
    if where == "read_dict":
        c = Comment()
        c.read_dict({"comments": printed})
        return c
    from mt_metadata.timeseries import Electric, Run, Station
    from mt_metadata.timeseries.filters import CoefficientFilter
    cls = {"run": Run, "station": Station, "channel": Electric, "filter": CoefficientFilter}[where]
    o = cls()
    o.comments = printed
    return o.comments


def agree(ctx, c, author, time, value, what=""):
    ctx.check(c.author == author, "author" + what)
    ctx.check(c.value == value, "text" + what)
    if time is not None:
        ctx.check(c.time_stamp == time, "time" + what)


def full(ctx, how, where, n, fine):
    author, value, t = text(ctx, "author", 2 if n > 3 else 3), text(ctx, "text", n), moment(ctx, fine)
    c = build(ctx, how, author, t, value)
    agree(ctx, c, author, t, value, " as given")
    p = c.as_string()
    d = target(ctx, where, p)
    agree(ctx, d, author, t, value, " read from the printed comment")
    ctx.check((d == c) & (c == d), "comment read from its printed form is equal")
    ctx.check(d.as_string() == p, "printed again the same")


def timed(ctx, how, where, n):
    """no author"""
    value, t = text(ctx, "text", n), moment(ctx)
    c = build(ctx, how, ctx.choice("author", [None, ""]), t, value)
    d = target(ctx, where, c.as_string())
    agree(ctx, d, None, t, value, " read from the printed comment")


def authored(ctx, how, where, n):
    """no time"""
    value, author = text(ctx, "text", n), ctx.choice("author", AUTHORS)
    none = "1980-01-01T00:00:00+00:00"
    c = build(ctx, how, author, none, value)
    d = target(ctx, where, c.as_string())
    agree(ctx, d, author, none, value, " read from the printed comment")


def plain(ctx, where, n):
    """text without separators"""
    value = ctx.str("text", minlen=0, maxlen=n, alphabet=ALPHA + "\n")
    none = "1980-01-01T00:00:00+00:00"
    c = target(ctx, where, value)
    agree(ctx, c, None, none, value, " of a plain text")
    ctx.check(c.as_string() == value, "a plain text is printed as it is")


def empty(ctx):
    from mt_metadata.common import Comment
    c = Comment()
    ctx.check(c.as_string() == "", "nothing is printed without a text")
    c = Comment(author=text(ctx, "author", 2), time_stamp=moment(ctx))
    ctx.check(c.as_string() == "", "nothing is printed without a text")


def listed(ctx):
    """texts given as a list are joined"""
    from mt_metadata.common import Comment
    a, b = text(ctx, "a", 3), text(ctx, "b", 3)
    c = Comment(value=[a, " " + b + " "])
    ctx.check(c.value == a + "," + b, "texts of the list are joined")


def spacing(ctx, parts):
    """blanks around the separators do not matter"""
    from mt_metadata.common import Comment
    pad = ctx.perm("pad", ["", " ", "  "])
    value = text(ctx, "text", 3)
    if parts == 3:
        author = text(ctx, "author", 2)
        c = Comment(value="2020-03-04T05:06:07+00:00" + pad[0] + "|" + pad[1] + author + "|" + pad[2] + value)
        agree(ctx, c, author, "2020-03-04T05:06:07+00:00", value, " of a text with blanks around the separators")
    else:
        author = ctx.choice("author", AUTHORS)
        c = Comment(value=pad[0] + author + pad[1] + "|" + pad[2] + value)
        agree(ctx, c, author, None, value, " of a text with blanks around the separators")


def symbolic(ctx, name):
    from mt_metadata.common import Comment
    kind = ctx.choice("kind " + name, ["text", "author", "time", "none", "full"])
    if kind == "none":
        return Comment(), (None, None, None)
    value = ctx.str("text " + name, minlen=1, maxlen=2, alphabet=INNER)
    author = ctx.str("author " + name, minlen=1, maxlen=1, alphabet="ab") if kind in ("author", "full") else None
    t = ctx.int("time " + name, 1, 2000000000) if kind in ("time", "full") else None
    d = {"value": value}
    if author is not None:
        d["author"] = author
    if t is not None:
        d["time_stamp"] = t
    return Comment(**d), (author, 315532800 if t is None else t, value)


def compared(ctx):
    """two comments are equal when all parts are"""
    a, pa = symbolic(ctx, "a")
    b, pb = symbolic(ctx, "b")
    if pa == (None, None, None):
        pa = (None, 315532800, None)
    if pb == (None, None, None):
        pb = (None, 315532800, None)
    eq = a == b
    same = True
    for x, y in zip(pa, pb):
        same = same & ((x is y) if x is None or y is None else x == y)
    ctx.check(eq == same, "equal exactly when author, time and text are")
    ctx.check((b == a) == eq, "symmetric")
    ctx.check((a != b) == (not eq), "inequality is the negation")


def against(ctx, kind):
    """comparison with other things"""
    from mt_metadata.common import Comment
    a, pa = symbolic(ctx, "a")
    none = pa[1] is None or pa[1] == 315532800
    plain_text = pa[0] is None and pa[2] is not None and none
    if kind == "None":
        eq = a == None     # noqa
        ctx.check(eq == (pa == (None, None, None)), "only a comment without contents is nothing")
        ctx.check((a != None) == (not eq), "inequality is the negation")     # noqa
    elif kind == "text":
        v = ctx.str("other", minlen=1, maxlen=2, alphabet=INNER)
        eq = a == v
        if plain_text:
            ctx.check(eq == (pa[2] == v), "compared with a text")
        else:
            ctx.check(eq == False, "a comment with author or time is not a plain text")     # noqa
    elif kind == "printed":
        eq = a == a.as_string()
        if pa[2] is not None and (pa[0] is None or not none):
            ctx.check(eq, "equal to its printed form")
    elif kind == "dict":
        d = {"author": a.author, "time_stamp": a.time_stamp, "value": a.value}
        ctx.check(a == d, "equal to the dictionary of its parts")
        d["value"] = "other text"
        eq = a == d
        ctx.check(eq == False, "not equal to another text")     # noqa
    else:
        eq = a == ctx.choice("thing", [1, 2.5, [], ("a", "b", "c"), "a | b | c", "x|y|z|w", {"time_stamp": "no time", "value": "a"}])
        ctx.check(eq == False, "not equal to something else")     # noqa
    ctx.check(not isinstance(eq, Comment), "a truth value")


def instances(tier):
    n = 5 if tier == "thorough" else 4
    out = []
    HOW = ["new", "attributes", "dict", "flat", "read_dict"]
    WHERE = ["new", "set", "used", "from_dict", "wrapped", "read_dict", "run", "station", "channel", "filter"]
    pairs = [(h, "new") for h in HOW] + [("new", w) for w in WHERE[1:]] if tier == "quick" else [(h, w) for h in HOW for w in WHERE]
    for how, where in pairs:
        out.append((f"full:{how}:{where}", full, dict(how=how, where=where, n=n if (how, where) == ("new", "new") or tier == "thorough" else 3, fine=False)))
        if where != "used":
            out.append((f"timed:{how}:{where}", timed, dict(how=how, where=where, n=3)))
            out.append((f"authored:{how}:{where}", authored, dict(how=how, where=where, n=3)))
    out.append(("full:fine", full, dict(how="new", where="new", n=2, fine=True)))
    for where in WHERE:
        if where != "used":
            out.append((f"plain:{where}", plain, dict(where=where, n=n)))
    out += [("empty", empty, {}), ("listed", listed, {}), ("spacing:3", spacing, dict(parts=3)), ("spacing:2", spacing, dict(parts=2)), ("compared", compared, {})]
    for kind in ("None", "text", "printed", "dict", "else"):
        out.append((f"against:{kind}", against, dict(kind=kind)))
    return out
