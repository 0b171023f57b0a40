"""C11 ordered key lists behave as one ordered mapping.

A ListDict built from symbolic keys is driven through a sequence of operations chosen by the solver
and compared after every step with a reference list of (key, value) pairs.
"""
from copy import deepcopy

PROPERTY = "C11"
IMPORTS = ["mt_metadata.common.list_dict"]


def BOUNDS(tier):
    n = 3 if tier == "quick" else 4
    return (f"up to {n} entries with symbolic keys of 1-2 characters over {{a,b}} (all orders and equalities) and integer "
            f"values, histories of {1 if tier == 'quick' else 2} operations after building, every operation")


class Obj:
    def __init__(self, id, v):
        self.id = id
        self.v = v

    def copy(self):
        return Obj(self.id, self.v)


class Comp:
    def __init__(self, component, v):
        self.component = component
        self.v = v


def mk(values=None):
    from mt_metadata.common.list_dict import ListDict
    return ListDict() if values is None else ListDict(values)


def key(ctx, name):
    return ctx.str(name, minlen=1, maxlen=2, alphabet="ab")


def find(ref, k):
    for i, (q, v) in enumerate(ref):
        if q == k:
            return i
    return -1


def rset(ref, k, v):
    i = find(ref, k)
    if i < 0:
        ref.append((k, v))
    else:
        ref[i] = (ref[i][0], v)


def agree(ctx, ld, ref, what):
    ctx.check(len(ld) == len(ref), what + ": number of entries")
    ks = ld.keys()
    ctx.check(len(ks) == len(ref), what + ": number of keys")
    ctx.check(all(a == b[0] for a, b in zip(ks, ref)), what + ": keys in insertion order")
    ctx.check(all(a == b[1] for a, b in zip(ld.values(), ref)), what + ": values in insertion order")
    ctx.check(all(a == b[1] for a, b in zip(iter(ld), ref)), what + ": iteration gives the values")
    its = list(ld.items())
    ctx.check(all(x[0] == k and x[1] == v for x, (k, v) in zip(its, ref)), what + ": items")
    for i, (k, v) in enumerate(ref):
        ctx.check(ld[i] == v, what + ": access by index")
        ctx.check(ld[k] == v, what + ": access by key")
    for bad in (len(ref), len(ref) + 1):
        try:
            ld[bad]
        except (KeyError, IndexError):
            pass
        else:
            ctx.fail(what + ": index out of range is refused")


def build(ctx, n, how="set"):
    ref = []
    if how == "set":
        ld = mk()
        for i in range(n):
            k, v = key(ctx, f"k{i}"), ctx.int(f"v{i}", 0, 3)
            ld[k] = v
            rset(ref, k, v)
    elif how == "init":
        pairs = [(key(ctx, f"k{i}"), ctx.int(f"v{i}", 0, 3)) for i in range(n)]
        ld = mk(pairs)
        for k, v in pairs:
            rset(ref, k, v)
    return ld, ref


OPS = ["set-key", "set-index", "append-id", "append-component", "remove-key", "remove-index", "pop", "sort", "sort-copy",
       "extend", "extend-skip", "extend-list", "update", "update-list", "copy", "clear", "update-keys", "slice", "equal",
       "remove-missing", "text"]


def apply(ctx, ld, ref, op, s):
    """perform op on both; return the container to go on with"""
    n = len(ref)
    if op == "set-key":
        k, v = key(ctx, f"k{s}"), ctx.int(f"v{s}", 0, 9)
        ld[k] = v
        rset(ref, k, v)
    elif op == "set-index":
        if not n:
            return ld
        j, v = ctx.choice(f"j{s}", range(n)), ctx.int(f"v{s}", 0, 9)
        ld[j] = v
        ref[j] = (ref[j][0], v)
    elif op == "append-id":
        k = key(ctx, f"k{s}")
        o = Obj(k, 1)
        ld.append(o)
        rset(ref, k, o)
    elif op == "append-component":
        k = key(ctx, f"k{s}")
        o = Comp(k, 1)
        ld.append(o)
        rset(ref, k, o)
    elif op in ("remove-key", "remove-index", "pop"):
        if not n:
            return ld
        j = ctx.choice(f"j{s}", range(n))
        k, v = ref[j]
        if op == "pop":
            r = ld.pop(k)
            got = list(r.values())[0] if isinstance(r, dict) else r
            ctx.check(got == v, "pop gives the popped value")
            if isinstance(r, dict):
                ctx.check(len(r) == 1 and list(r.keys())[0] == k, "pop gives the popped key")
        elif op == "remove-key":
            ld.remove(k)
        else:
            ld.remove(j)
        del ref[j]
    elif op == "remove-missing":
        k = key(ctx, f"k{s}")
        ctx.assume(find(ref, k) < 0)
        for f in (ld.remove, ld.pop, ld.__getitem__):
            try:
                f(k)
            except KeyError:
                pass
            else:
                ctx.fail("a missing key is refused")
    elif op == "sort":
        ld.sort()
        _sorted(ref)
    elif op == "sort-copy":
        od = ld.sort(inplace=False)
        r2 = list(ref)
        _sorted(r2)
        ctx.check(all(a == b[0] for a, b in zip(od.keys(), r2)), "sorted copy orders by key")
    elif op in ("extend", "extend-skip", "extend-list", "update", "update-list"):
        pairs = [(key(ctx, f"k{s}.{i}"), ctx.int(f"v{s}.{i}", 0, 9)) for i in range(2)]
        other = mk() if op.endswith("list") else {}
        for k, v in pairs:
            other[k] = v
        skip = []
        if op == "extend-skip":
            skip = [pairs[0][0]]
            ld.extend(other, skip_keys=skip)
        elif op.startswith("extend"):
            ld.extend(other)
        else:
            ld.update(other)
        oref = []
        for k, v in pairs:
            rset(oref, k, v)
        for k, v in oref:
            if not any(k == q for q in skip):
                rset(ref, k, v)
        if op.endswith("list"):
            agree(ctx, other, oref, "other after " + op)
    elif op == "copy":
        c = ld.copy()
        agree(ctx, c, ref, "copy")
        c["zz"] = 5
        if n:
            c.remove(0)
        agree(ctx, ld, ref, "original after the copy changed")
        c = deepcopy(ld)
        agree(ctx, c, ref, "deep copy")
        ctx.check(c == ld, "copy equals the original")
    elif op == "clear":
        ld.clear()
        del ref[:]
    elif op == "update-keys":
        ld.clear()
        del ref[:]
        objs = []
        for i in range(2):
            k = key(ctx, f"k{s}.{i}")
            o = Obj(k, i)
            ld.append(o)
            rset(ref, k, o)
            objs.append(o)
        ctx.assume(len(ref) == 2)
        nk = key(ctx, f"k{s}.new")
        ctx.assume(nk != ref[1][0])
        objs[0].id = nk
        ld.update_keys()
        ref[0] = (nk, objs[0])
    elif op == "slice":
        if not n:
            return ld
        a = ctx.choice(f"a{s}", range(n))
        b = ctx.choice(f"b{s}", range(n))
        agree(ctx, ld[a:b], ref[a:b], "slice by index")
        agree(ctx, ld[ref[a][0]:ref[b][0]], ref[a:b], "slice by key")
        agree(ctx, ld[:b], ref[:b], "slice head")
        agree(ctx, ld[a:], ref[a:], "slice tail")
        agree(ctx, ld[ref[a][0]:], ref[a:], "slice tail by key")
        agree(ctx, ld[:], ref, "slice of all")
        agree(ctx, ld[a - n:], ref[a - n:], "slice from the end")
        step = ctx.choice(f"step{s}", [-1, 2])
        agree(ctx, ld[::step], ref[::step], "slice with a step")
        agree(ctx, ld[a:b:step], ref[a:b:step], "slice by index with a step")
        agree(ctx, ld[a::step], ref[a::step], "slice tail with a step")
    elif op == "equal":
        other = mk()
        for k, v in ref:
            other[k] = v
        ctx.check(ld == other, "same entries compare equal")
        if n:
            j = ctx.choice(f"j{s}", range(n))
            other[ref[j][0]] = ref[j][1] + 1
            ctx.check(not (ld == other), "a different value is seen by comparison")
            other = mk()
            for k, v in ref[1:]:
                other[k] = v
            ctx.check(not (ld == other), "a missing entry is seen by comparison")
    elif op == "text":
        str(ld)
        repr(ld)
    return ld


def _sorted(ref):
    for i in range(len(ref)):
        for j in range(i, 0, -1):
            if ref[j][0] < ref[j - 1][0]:
                ref[j], ref[j - 1] = ref[j - 1], ref[j]
            else:
                break


def h_ops(ctx, n, ops, how="set"):
    ld, ref = build(ctx, n, how)
    agree(ctx, ld, ref, "after building")
    for s, op in enumerate(ops):
        ld = apply(ctx, ld, ref, op, f"s{s}")
        agree(ctx, ld, ref, "after " + op)


def h_independent(ctx):
    """two containers made without arguments share nothing"""
    a, b = mk(), mk()
    k = key(ctx, "k")
    a[k] = 1
    ctx.check(len(b) == 0, "a new container is empty")
    ctx.check(len(mk()) == 0, "a later container is empty")


def h_append_plain(ctx, n):
    """objects without a name of their own get a fresh one"""
    ld = mk()
    vals = []
    for i in range(n):
        ld.append(i + 100)
        vals.append(i + 100)
    j = ctx.choice("j", range(n))
    ld.remove(j)
    del vals[j]
    ctx.check(ld.values() == vals, "removal takes away one entry")


def instances(tier):
    out = [("independent", h_independent, {}), ("append-plain", h_append_plain, {"n": 3})]
    n = 2 if tier == "quick" else 3
    for op in OPS:
        out.append((f"op-{op}", h_ops, {"n": n, "ops": [op]}))
        if op in ("pop", "remove-key", "remove-index", "sort", "set-index") and tier == "quick":
            out.append((f"op3-{op}", h_ops, {"n": 3, "ops": [op]}))
    out.append(("init", h_ops, {"n": n + 1, "ops": [], "how": "init"}))
    second = ["set-key", "pop", "sort", "remove-index"]
    for a in OPS:
        for b in (second if tier == "quick" else OPS):
            if tier == "quick" and a not in ("pop", "remove-key", "sort", "extend", "append-id"):
                continue
            out.append((f"ops-{a}+{b}", h_ops, {"n": 2, "ops": [a, b]}))
    return out
