"""C19 a run manages its channels by name"""
import datetime

PROPERTY = "C19"
IMPORTS = ["mt_metadata.timeseries", "mt_metadata.timeseries.run", "mt_metadata.timeseries.channel"]
OPTS = {"budget_s": 150, "timeout_ms": 15000}
ASSUMPTIONS = ["a component name is used for one kind of channel", "dictionaries say electric, magnetic or auxiliary, or say nothing about the type (then the first letter of the component decides)"]
FIRST = {"e": "eE", "m": "hHbB", "a": "tp"}
LABEL = {"e": "electric", "m": "magnetic", "a": "auxiliary"}


def BOUNDS(tier):
    return "every sequence of %d operations out of the listed ones (add as object, text, dictionary with and without type, removal) with every component name of two characters (any case, digits) and every sample rate; merges and updates of runs of two channels" % (3 if tier == "quick" else 4)


def name(ctx, label, kind):
    return ctx.str(label, 2, 2, "xY1", first=FIRST[kind])


def classes():
    from mt_metadata import timeseries
    return {"e": timeseries.Electric, "m": timeseries.Magnetic, "a": timeseries.Auxiliary}


def member(ctx, how, kind, comp, rate):
    cls = classes()[kind]
    if how == "object":
        return cls(component=comp, sample_rate=rate)
    if how == "text":
        return comp
    if how == "dict":
        return {"type": LABEL[kind], "component": comp, "sample_rate": rate}
    if how == "upper":
        return {"type": LABEL[kind].upper(), "component": comp, "sample_rate": rate}
    if how == "none":
        return {"type": None, "component": comp, "sample_rate": rate}
    return {"component": comp, "sample_rate": rate}


def find(want, comp):
    for i in range(len(want)):
        if want[i][0] == comp:
            return i
    return -1


def judge(ctx, run, want, label):
    """want: [(component, kind, sample rate or None)]"""
    lists = {"e": run.channels_recorded_electric, "m": run.channels_recorded_magnetic, "a": run.channels_recorded_auxiliary}
    ctx.check(run.n_channels == len(want), label + ": number of channels")
    ctx.check(len(run.channels_recorded_all) == len(want), label + ": number of listed channels")
    for k in ("e", "m", "a"):
        ctx.check(len(lists[k]) == len([w for w in want if w[1] == k]), label + ": number of listed channels of a kind")
    for comp, kind, rate in want:
        ctx.check(run.has_channel(comp), label + ": channel present")
        ch = run.get_channel(comp)
        ctx.check(ch is not None, label + ": channel found")
        if ch is not None:
            ctx.check(isinstance(ch, classes()[kind]), label + ": kind of the channel")
            ctx.check(ch.component == comp, label + ": the channel of that name")
            if rate is not None:
                ctx.check(ch.sample_rate == rate, label + ": its values")
        ctx.check(len([n for n in lists[kind] if n == comp]) == 1, label + ": listed once under its kind")
        ctx.check(len([n for n in run.channels_recorded_all if n == comp]) == 1, label + ": listed once")
        i = run.channel_index(comp)
        ctx.check(i is not None and run.channels_recorded_all[i] == comp, label + ": index")


def absent(ctx, run, comp, label):
    ctx.check(not run.has_channel(comp), label + ": reported absent")
    ctx.check(run.get_channel(comp) is None, label + ": not found")
    ctx.check(run.channel_index(comp) is None, label + ": no index")


def h_history(ctx, ops):
    from mt_metadata.timeseries import Run
    run = Run(id="a")
    want = []
    for k, (how, kind) in enumerate(ops):
        given = name(ctx, f"name{k}", kind)
        comp = given.lower()
        if how == "remove":
            run.remove_channel(comp)
            i = find(want, comp)
            if i >= 0:
                want = want[:i] + want[i + 1:]
            absent(ctx, run, comp, "remove")
        else:
            rate = ctx.real(f"rate{k}", 1, 1000)
            obj = member(ctx, how, kind, given, rate)
            run.add_channel(obj)
            i = find(want, comp)
            said = None if how == "text" else rate
            if i < 0:
                want = want + [(comp, kind, said)]
            else:
                want = want[:i] + [(comp, kind, want[i][2] if said is None else said)] + want[i + 1:]
        judge(ctx, run, want, how)
    other = name(ctx, "other", ops[0][1]).lower()
    if find(want, other) < 0:
        absent(ctx, run, other, "look-up")


def h_given(ctx, form, kinds):
    """channels given together"""
    from mt_metadata.common.list_dict import ListDict
    from mt_metadata.timeseries import Run
    want, objs = [], []
    for k, kind in enumerate(kinds):
        given = name(ctx, f"name{k}", kind)
        comp = given.lower()
        for w in want:
            ctx.assume(w[0] != comp)
        rate = ctx.real(f"rate{k}", 1, 1000)
        want.append((comp, kind, rate))
        objs.append(member(ctx, "dict" if form in ("dicts", "init-dicts") else "untyped" if form == "untyped" else "object", kind, given, rate))
    run = Run(id="a")
    if form == "listdict":
        ld = ListDict()
        for o in objs:
            ld.append(o)
        run.channels = ld
        run._update_channels_recorded()
    elif form == "mapping":
        run.channels = {str(i): o for i, o in enumerate(objs)}
        run._update_channels_recorded()
    elif form == "init-dicts" or form == "init":
        run = Run(id="a", channels=objs)
        run._update_channels_recorded()
    elif form == "names":
        run.channels_recorded_electric = [w[0] for w in want if w[1] == "e"]
        run.channels_recorded_magnetic = [w[0] for w in want if w[1] == "m"]
        run.channels_recorded_auxiliary = [w[0] for w in want if w[1] == "a"]
        want = [(w[0], w[1], None) for w in want]
    elif form == "names-dict":
        run.from_dict({"run": {"id": "a", "channels_recorded_electric": [w[0] for w in want if w[1] == "e"],
                               "channels_recorded_magnetic": [w[0] for w in want if w[1] == "m"],
                               "channels_recorded_auxiliary": [w[0] for w in want if w[1] == "a"]}})
        want = [(w[0], w[1], None) for w in want]
    else:
        run.channels = objs
        run._update_channels_recorded()
    judge(ctx, run, want, form)
    back = Run()
    back.from_dict(run.to_dict())
    judge(ctx, back, [(w[0], w[1], None) for w in want], form + " copied")


def h_two(ctx, how, kinds, others):
    """one run merged into another, or updated from it"""
    from mt_metadata.timeseries import Run
    a, b = Run(id="a"), Run(id="b" if how == "merge" else "a")
    want = []
    for run, ks, tag in ((a, kinds, "a"), (b, others, "b")):
        mine = []
        for k, kind in enumerate(ks):
            comp = name(ctx, f"{tag}name{k}", kind).lower()
            for m in mine:
                ctx.assume(m != comp)
            mine.append(comp)
            rate = ctx.real(f"{tag}rate{k}", 1, 1000)
            run.add_channel(member(ctx, "object", kind, comp, rate))
            i = find(want, comp)
            if i >= 0:
                want = want[:i] + want[i + 1:]
            want = want + [(comp, kind, rate)]
    before = [(c.component, c.sample_rate) for c in b.channels]
    if how == "merge":
        a.merge(b)
    else:
        a.update(b)
    judge(ctx, a, want, how)
    ctx.check(len(b.channels) == len(before), how + ": the other run keeps its channels")
    for (c, r) in before:
        ctx.check(b.get_channel(c).sample_rate == r, how + ": the other run is unchanged")


def instances(tier):
    import itertools
    out = []
    seqs = [(("object", "e"), ("object", "e"), ("remove", "e")), (("dict", "m"), ("object", "m"), ("remove", "m")), (("none", "m"), ("text", "m"), ("remove", "m")),
            (("untyped", "a"), ("object", "a"), ("remove", "a")), (("text", "e"), ("dict", "e"), ("untyped", "e")), (("upper", "m"), ("remove", "m"), ("text", "m")),
            (("object", "e"), ("object", "m"), ("remove", "e")), (("text", "m"), ("dict", "a"), ("remove", "m")), (("object", "a"), ("text", "a"), ("dict", "a")),
            (("none", "e"), ("object", "e"), ("object", "m")), (("upper", "e"), ("object", "m"), ("none", "a")), (("remove", "e"), ("object", "e"), ("remove", "m"))]
    if tier != "quick":
        hows = ("object", "text", "dict", "none", "remove")
        seqs += [s + ((h, s[0][1]),) for s in seqs for h in hows]
        seqs += [tuple((h, "m") for h in t) for t in itertools.product(hows, repeat=3)]
    for s in seqs:
        out.append(("history:" + "-".join(h + k for h, k in s), h_history, dict(ops=s)))
    for form in ("list", "dicts", "untyped", "listdict", "mapping", "init", "init-dicts", "names", "names-dict"):
        for kinds in ("em", "mm", "ea") if tier == "quick" else ("em", "mm", "ea", "eem", "mma", "aem"):
            out.append(("given:%s:%s" % (form, kinds), h_given, dict(form=form, kinds=kinds)))
    for how in ("merge", "update"):
        for kinds, others in (("e", "e"), ("em", "m"), ("m", "mm")) if tier == "quick" else (("e", "e"), ("em", "m"), ("m", "mm"), ("ee", "ee"), ("em", "em"), ("a", "ea")):
            out.append(("%s:%s:%s" % (how, kinds, others), h_two, dict(how=how, kinds=kinds, others=others)))
    return out
