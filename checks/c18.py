"""C18 the applied-filter list of a channel stays coherent"""
import numpy as np

PROPERTY = "C18"
IMPORTS = ["mt_metadata.timeseries", "mt_metadata.timeseries.channel", "mt_metadata.timeseries.filtered"]
OPTS = {"budget_s": 150, "timeout_ms": 15000}
ASSUMPTIONS = ["names are letters and '/' (which the code writes out as ' per ')", "lists built by assigning to Channel.filters are taken as they are (duplicates are let through there by intention)"]
KINDS = ("Electric", "Magnetic", "Auxiliary")


def BOUNDS(tier):
    return ("every sequence of %d operations (add by name with or without a stage, add as object, add with comment, remove with and without renumbering) with every name of up to two letters (one letter for three additions with a stage in the quick tier) "
            "out of 'aB/', every stage -100..100 and every applied flag; legacy and current descriptions with up to %d filters in every order" % ((3, 3) if tier == "quick" else (4, 4)))


def plain(name):
    """a name as the list keeps it"""
    return name.replace("/", " per ").lower()


def judge(ctx, ch, want, label):
    """want: [(name, stage or None, applied)] in any order"""
    fs = ch.filters
    ctx.check(len(fs) == len(want), label + ": number of filters")
    names = [f.name for f in fs]
    for i in range(len(names)):
        for j in range(i):
            ctx.check(names[i] != names[j], label + ": names are unique")
    for i in range(1, len(fs)):
        ctx.check(fs[i - 1].stage <= fs[i].stage, label + ": ordered by stage")
    listed = ch.filter_names
    ctx.check(len(listed) == len(fs), label + ": one name per filter")
    for i in range(len(fs)):
        ctx.check(listed[i] == fs[i].name, label + ": names in the order of the filters")
    for name, stage, applied in want:
        f = ch.get_filter(name)
        ctx.check(f is not None, label + ": filter found by name")
        if f is not None:
            ctx.check(f.name == name, label + ": the filter of that name")
            ctx.check(f.stage == stage, label + ": stage of the filter")
            ctx.check(f.applied == applied, label + ": applied flag of the filter")


def has(want, name):
    for w in want:
        if w[0] == name:
            return True
    return False


def h_history(ctx, kind, ops, width=2):
    from mt_metadata import timeseries
    from mt_metadata.timeseries.filtered import AppliedFilter
    ch = getattr(timeseries, kind)(component={"Electric": "ex", "Magnetic": "hy", "Auxiliary": "temperature"}[kind])
    want = []
    for k, op in enumerate(ops):
        name = ctx.str(f"name{k}", 1, width, "aB/")
        if op in ("add", "next", "object", "objnext", "comment"):
            applied = ctx.bool(f"applied{k}")
            stage = ctx.int(f"stage{k}", -100, 100) if op in ("add", "object", "comment") else None
            if op in ("object", "objnext"):
                ch.add_filter(applied_filter=AppliedFilter(name=name, applied=applied, stage=stage))
            elif op == "comment":
                ch.add_filter(name=name, applied=applied, stage=stage, comments="checked")
            elif op == "add":
                ch.add_filter(name=name, applied=applied, stage=stage)
            else:
                ch.add_filter(name=name, applied=applied)
            if not has(want, plain(name)):
                want = want + [(plain(name), len(want) + 1 if stage is None else stage, applied)]
        else:
            before = [f.name for f in ch.filters]
            if op == "remove":
                ch.remove_filter(name)
            else:
                ch.remove_filter(name, reset_stages=False)
            left = [n for n in before if n != plain(name)]
            ctx.check([f.name for f in ch.filters] == left, "remove: the others stay in order")
            old = {}
            want = [w for w in want if w[0] != plain(name)]
            if op == "remove":
                want = [(n, i + 1, [w for w in want if w[0] == n][0][2]) for i, n in enumerate(left)]
            ctx.check(ch.get_filter(name) is None, "remove: the filter is gone")
        judge(ctx, ch, want, op)


def h_legacy(ctx, key, form, names, n):
    """older descriptions: parallel lists of names and flags"""
    from mt_metadata.timeseries import Electric
    ch = Electric(component="ex")
    flags = [ctx.bool(f"applied{k}") for k in range(n)]
    if form == "text":
        d = {f"{key}.name": ", ".join(names[:n]), f"{key}.applied": "[" + ", ".join(["True" if f else "False" for f in flags]) + "]"}
    elif form == "array":
        d = {f"{key}.name": np.array(list(names[:n])), f"{key}.applied": np.array(flags)}
    elif form == "nested":
        d = {key: {"name": list(names[:n]), "applied": flags}}
    else:
        d = {f"{key}.name": list(names[:n]), f"{key}.applied": flags}
    d["component"] = "ex"
    ch.from_dict({"electric": d})
    judge(ctx, ch, [(names[k].lower(), k + 1, flags[k]) for k in range(n)], "older description")
    ctx.check([f.name for f in ch.filters] == [x.lower() for x in names[:n]], "older description: order of the filters")


def h_current(ctx, order, form):
    """current descriptions, listed in any order of stages"""
    from mt_metadata.timeseries import Magnetic
    ch = Magnetic(component="hx")
    stages = [ctx.int(f"stage{k}", 1, 100) for k in range(len(order))]
    flags = [ctx.bool(f"applied{k}") for k in range(len(order))]
    rows = [{"name": f"f{k}", "stage": stages[k], "applied": flags[k]} for k in order]
    if form == "wrapped":
        rows = [{"applied_filter": r} for r in rows]
    d = {"magnetic": {"component": "hx", "filters": rows}}
    if form == "together":
        d["magnetic"].update({"filtered.name": ["old"], "filtered.applied": [True]})
    ch.from_dict(d)
    want = [(f"f{k}", stages[k], flags[k]) for k in order]
    judge(ctx, ch, want + ([("old", 1, True)] if form == "together" else []), "description")
    back = Magnetic(component="hy")
    back.from_dict(ch.to_dict())
    ctx.check([f.name for f in back.filters] == [f.name for f in ch.filters], "copy: same order")
    judge(ctx, back, want + ([("old", 1, True)] if form == "together" else []), "copy")


def instances(tier):
    import itertools
    out = []
    adds, rem = ("add", "next", "object", "objnext", "comment"), ("remove", "keep")
    seqs = [("add", "add", "add"), ("add", "object", "add"), ("object", "object", "object"), ("next", "add", "remove"), ("next", "next", "remove"), ("add", "add", "keep"), ("object", "add", "remove"),
            ("add", "remove", "next"), ("next", "objnext", "next"), ("next", "keep", "next"), ("comment", "add", "remove"), ("objnext", "remove", "object")]
    if tier != "quick":
        seqs += [s for s in itertools.product(adds + rem, repeat=3) if s not in seqs and s[0] in adds]
        seqs += [("add", "add", "object", "remove"), ("next", "next", "next", "remove"), ("add", "next", "keep", "add"), ("object", "add", "remove", "next"), ("add", "add", "remove", "remove")]
    for k, s in enumerate(seqs):
        out.append(("history:%s:%s" % (KINDS[k % 3], "-".join(s)), h_history, dict(kind=KINDS[k % 3], ops=s, width=1 if tier == "quick" and k < 3 else 2)))
    names = ("lowpass", "Second", "third_one", "a")
    for key in ("filter", "filtered"):
        for form in ("list", "text", "array", "nested"):
            for n in ((1, 3) if tier == "quick" else (1, 2, 3, 4)):
                out.append((f"legacy:{key}:{form}:{n}", h_legacy, dict(key=key, form=form, names=names, n=n)))
    for form in ("plain", "wrapped", "together"):
        for order in ((0,), (1, 0), (2, 0, 1)) if tier == "quick" else ((0,), (1, 0), (2, 0, 1), (3, 1, 0, 2)):
            out.append((f"current:{form}:{len(order)}", h_current, dict(order=order, form=form)))
    return out
