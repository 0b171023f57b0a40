"""operations on SymStr (tuple of concrete characters, symbolic characters and value tokens)"""
import re as _re
import z3
from .core import (Ch, SymBool, SymInt, SymReal, SymStr, Tok, Unsupported, _const_of, _lift, _rt, and_,
                   concretise, cur, or_, real_val, sym_not, _type, to_frac)
from fractions import Fraction

NUMCHARS = set("0123456789+-.eEinfa")
TIMECHARS = {"date": set("0123456789-"), "iso": set("0123456789-:.T"), "iso ": set("0123456789-:. ")}


def elems(s):
    if _type(s) is SymStr:
        return s.e
    return tuple(s)


def norm(e):
    e = tuple(e)
    out = []
    allc = True
    for x in e:
        if _type(x) is Ch:
            t = z3.simplify(x.t)
            if z3.is_int_value(t):
                x = chr(t.as_long())
            else:
                allc = False
        elif _type(x) is Tok:
            if _type(x.val) in (SymInt, SymReal) and x.kind in ("num", "int"):
                c = _const_of(x.val)
                if c is not None:
                    out.extend(tok_text(x, c))
                    continue
            allc = False
        out.append(x)
    if allc:
        return "".join(out)
    return SymStr(out)


def tok_text(tok, c):
    if tok.kind == "int":
        return format(int(c), tok.spec or "d")
    if tok.kind == "num":
        return format(float(c), tok.spec) if tok.spec else repr(float(c))
    raise Unsupported("tok_text " + tok.kind)


def has_tok(e):
    return any(_type(x) is Tok for x in e)


def split_tokens(s):
    return list(s.e)


def force(s, why):
    """concrete text of s (pins the path)"""
    out = []
    for x in elems(s):
        if _type(x) is Ch:
            out.append(chr(concretise(SymInt(x.t), "char:" + why)))
        elif _type(x) is Tok:
            if x.kind == "time":
                out.append(x.aux.force(x, why))
            else:
                v = concretise(x.val, "tok:" + why)
                out.append(tok_text(x, v))
        else:
            out.append(x)
    return "".join(out)


def decide(t):
    return cur().decide(t)


def tok_len(x):
    if x._len is not None:
        return x._len
    v = x.val
    if x.kind == "time":
        if getattr(x.aux, "kind", "").startswith("iso"):
            # no fraction, microseconds or nanoseconds
            x._len = 19 if bool(v % 10 ** 9 == 0) else 26 if bool(v % 1000 == 0) else 29
        else:
            x._len = len(x.aux.force(x, "len"))
        return x._len
    neg = bool(v < 0)
    if x.kind == "int":
        a = abs(v)
        n = 1
        while not bool(a < 10 ** n):
            n += 1
            if n > 20:
                raise Unsupported("int too long")
        x._len = n + (1 if neg else 0)
        return x._len
    spec = x.spec
    if spec:
        m = _re.match(r"^([+]?)\.?(\d*)([eEfF])$", spec)
        if m:
            prec = int(m.group(2)) if m.group(2) else 6
            s = 1 if (neg or m.group(1)) else 0
            if m.group(3) in "eE":
                a = abs(v)
                if not bool(a < 1e99) or (not bool(v == 0) and not bool(a > 1e-99)):
                    raise Unsupported("three digit exponent")
                x._len = s + 1 + (1 + prec if prec else 0) + 4
                return x._len
            a = abs(x.parsed)
            # the sign of -0.0
            n = 1
            while not bool(a < 10 ** n):
                n += 1
                if n > 18:
                    raise Unsupported("float too long")
            x._len = s + n + (1 + prec if prec else 0)
            return x._len
    t = force(SymStr((x,)), "len")
    x._len = len(t)
    return x._len


def length(s):
    n = 0
    for x in s.e:
        n += tok_len(x) if _type(x) is Tok else 1
    return n


def lazy_length(s):
    """the length, as an unknown number while that of a token is not settled (concretise settles it)"""
    n, open_ = 0, []
    for x in s.e:
        if _type(x) is Tok:
            if x._len is not None or x.kind != "num" or x.spec:
                n += tok_len(x)
            else:
                open_.append(x)
        else:
            n += 1
    if not open_:
        return n
    p = cur()
    lens = p.memo.setdefault("lens", {})
    t = z3.IntVal(n)
    for x in open_:
        v = lens.get(id(x))
        if v is None:
            v = z3.Int(p.fresh_name("len"))
            lens[id(x)] = v
            lens[v.decl().name()] = (x, v)
            p.assume(z3.And(v >= 1, v <= 26))
        t = t + v
    return SymInt(t)


def settle_lengths(t):
    """the texts whose lengths occur in a term get their values"""
    lens = cur().memo.get("lens")
    if not lens:
        return
    todo, seen = [t], set()
    while todo:
        a = todo.pop()
        if a.get_id() in seen:
            continue
        seen.add(a.get_id())
        if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            hit = lens.get(a.decl().name())
            if hit is not None:
                cur().assume(hit[1] == tok_len(hit[0]))
        todo.extend(a.children())


def code(x):
    if _type(x) is Ch:
        return x.t
    return z3.IntVal(ord(x))


def ch_eq(a, b):
    if _type(a) is str and _type(b) is str:
        return z3.BoolVal(a == b)
    return code(a) == code(b)


_FLOATRE = _re.compile(r"^[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+|inf|nan)$")


def tok_eq_text(tok, text):
    """z3 Bool / bool: token text equals the concrete text"""
    if tok.kind == "time":
        return tok.aux.eq_text(tok, text)
    if tok.kind == "int":
        try:
            v = int(text)
        except ValueError:
            return False
        if format(v, tok.spec or "d") != text:
            return False
        return tok.val == v
    if not _FLOATRE.match(text):
        return False
    try:
        v = float(text)
    except ValueError:
        return False
    if tok_text(tok, v) != text:
        return False
    return tok.parsed == v


def eq(a, b):
    if not (_type(b) is SymStr or isinstance_str(b)):
        if hasattr(_type(b), "__sym_eq_str__"):
            return b.__sym_eq_str__(a)
        # let e.g. enumerations (str subclasses) compare by value
        return False
    ea, eb = elems(a), elems(b)
    if not has_tok(ea) and not has_tok(eb):
        if len(ea) != len(eb):
            return False
        ts = [ch_eq(x, y) for x, y in zip(ea, eb)]
        t = z3.simplify(z3.And(*ts)) if ts else z3.BoolVal(True)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return SymBool(t)
    # same shape
    if len(ea) == len(eb):
        ok = True
        conds = []
        for x, y in zip(ea, eb):
            tx, ty = _type(x) is Tok, _type(y) is Tok
            if tx and ty and x.kind == y.kind and x.spec == y.spec:
                if x.kind == "time":
                    conds.append(x.aux.eq_tok(x, y))
                else:
                    conds.append(x.parsed == y.parsed)
            elif not tx and not ty:
                conds.append(SymBool(z3.simplify(ch_eq(x, y))))
            else:
                ok = False
                break
        if ok:
            return and_(*conds)
    # one side plain text, other: text with a single token
    if has_tok(eb) and not has_tok(ea):
        ea, eb = eb, ea
    if not has_tok(eb):
        ntok = sum(_type(x) is Tok for x in ea)
        if ntok == 1 and all(_type(x) is str for x in eb):
            i = next(k for k, x in enumerate(ea) if _type(x) is Tok)
            pre, post = ea[:i], ea[i + 1:]
            if len(eb) < len(pre) + len(post) + 1:
                return False
            mid = "".join(eb[len(pre):len(eb) - len(post)])
            conds = [SymBool(z3.simplify(ch_eq(x, y))) for x, y in zip(pre, eb[:len(pre)])]
            conds += [SymBool(z3.simplify(ch_eq(x, y))) for x, y in zip(post, eb[len(eb) - len(post):])]
            r = and_(*conds)
            if r is False:
                return False
            return and_(r, tok_eq_text(ea[i], mid))
        # cheap refutation by the first concrete character
        if eb and _type(ea[0]) is str and _type(eb[0]) is str and ea[0] != eb[0]:
            return False
        if not eb:
            return False
    if ea and eb and _type(ea[0]) is str and _type(eb[0]) is str and ea[0] != eb[0]:
        return False
    return force(a, "eq") == force(b, "eq")


def isinstance_str(x):
    return issubclass(_type(x), str)


def less(a, b, or_equal):
    ea, eb = elems(a), elems(b)
    if has_tok(ea) or has_tok(eb):
        ra, rb = force(a, "lt"), force(b, "lt")
        return ra <= rb if or_equal else ra < rb
    n = min(len(ea), len(eb))
    if len(ea) < len(eb):
        t = z3.BoolVal(True)
    elif len(ea) > len(eb):
        t = z3.BoolVal(False)
    else:
        t = z3.BoolVal(or_equal)
    for i in range(n - 1, -1, -1):
        x, y = code(ea[i]), code(eb[i])
        t = z3.If(x < y, z3.BoolVal(True), z3.If(x == y, t, z3.BoolVal(False)))
    return SymBool(z3.simplify(t))


_HASHC = 0x5EED


def hash_(s):
    return _HASHC


def getitem(s, i):
    e = s.e
    if has_tok(e):
        # tokens outside the part before which (or after which) is counted
        first = min(k for k, x in enumerate(e) if _type(x) is Tok)
        last = min(k for k, x in enumerate(reversed(e)) if _type(x) is Tok)
        if _type(i) is slice and i.step in (None, 1):
            a, b = i.start, i.stop
            a = 0 if a is None else a
            if type(a) is int and (b is None or type(b) is int):
                head = 0 <= a <= first
                if head and (b is None or -last <= b < 0):
                    return norm(e[a:b])
                if head and b is not None and 0 <= b <= first:
                    return norm(e[a:b])
                if -last <= a < 0 and (b is None or a <= b < 0):
                    return norm(e[a:b])
        elif type(i) is int and (0 <= i < first or -last <= i < 0):
            return norm((e[i],))
        # expand tokens to fixed positions; only whole tokens may be cut out
        pos = []
        for x in e:
            if _type(x) is Tok:
                n = tok_len(x)
                pos.extend([(x, k, n) for k in range(n)])
            else:
                pos.append((x, 0, 1))
        if _type(i) is slice:
            sl = pos[i]
        else:
            sl = [pos[i]]
        out = []
        k = 0
        while k < len(sl):
            x, o, n = sl[k]
            if _type(x) is Tok:
                if o == 0 and k + n <= len(sl) and all(sl[k + j][0] is x for j in range(n)):
                    out.append(x)
                    k += n
                    continue
                # partial token
                cnt = 0
                while k + cnt < len(sl) and sl[k + cnt][0] is x and sl[k + cnt][1] == o + cnt:
                    cnt += 1
                if o == 0 and x.kind == "time" and cnt in (10, 19) and getattr(x.aux, "kind", "").startswith("iso"):
                    from . import shims
                    if cnt == 10:
                        v = x.val // shims.DAY
                        out.append(Tok("time", v, None, v, 10, shims.DATE))
                    else:
                        v = (x.val // shims.NS) * shims.NS
                        out.append(Tok("time", v, None, v, None, x.aux))
                    k += cnt
                    continue
                t = force(SymStr((x,)), "partial slice")
                out.append(t[o])
                k += 1
                continue
            out.append(x)
            k += 1
        return norm(out)
    if _type(i) is slice:
        return norm(e[i])
    return norm((e[i],))


def match_at(e, i, sub):
    """SymBool/bool: sub (elems of chars) matches e at element i"""
    if i + len(sub) > len(e):
        return False
    ts = []
    for x, y in zip(e[i:i + len(sub)], sub):
        if _type(x) is Tok or _type(y) is Tok:
            if _type(x) is Tok and _type(y) is Tok and x is y:
                continue
            if _type(x) is Tok and x.kind != "time" and _apart(sub):
                return False
            if _type(x) is Tok and _type(y) is str and y not in tokchars(x):
                return False
            raise Unsupported("match inside token")
        t = z3.simplify(ch_eq(x, y))
        if z3.is_false(t):
            return False
        ts.append(t)
    t = z3.simplify(z3.And(*ts)) if ts else z3.BoolVal(True)
    if z3.is_true(t):
        return True
    return SymBool(t)


def tokchars(x):
    return TIMECHARS[x.aux.kind] if x.kind == "time" else NUMCHARS


def _apart(eb):
    """no occurrence of this text overlaps a printed (finite) number: it has no digit, does not end with a sign
    and has a character numbers do not have (a number begins with a sign or a digit and ends with a digit)"""
    return (all(_type(y) is str and y not in "0123456789" for y in eb) and eb[-1] not in "+-"
            and any(y not in ".eE+-" for y in eb)) if eb else False


def _tok_safe(s, sub):
    """no token of s can contribute a match of sub"""
    es, eb = elems(s), elems(sub)
    if not has_tok(es):
        return True
    if has_tok(eb):
        return False
    if _apart(eb) and all(_type(x) is not Tok or x.kind != "time" for x in es):
        return True
    for x in es:
        if _type(x) is Tok:
            tc = tokchars(x)
            for y in eb:
                if _type(y) is Ch or y in tc:
                    return False
    return True


def contains(s, sub):
    es, eb = elems(s), elems(sub)
    if not eb:
        return True
    if not _tok_safe(s, sub):
        if len(es) == 1 and len(eb) == 1 and _type(es[0]) is Tok and _type(eb[0]) is str:
            t = es[0]
            if t.kind == "num" and t.spec and t.spec[-1] in "eE" and eb[0] in ".eE-+":
                if eb[0] == "-" or eb[0] == "+":
                    return force(sub, "in") in force(s, "in")
                return eb[0] == "." or eb[0] == t.spec[-1]
        return force(sub, "in") in force(s, "in")
    return or_(*[match_at(es, i, eb) for i in range(len(es) - len(eb) + 1)])


def _ws(x):
    if _type(x) is str:
        return x.isspace()
    if _type(x) is Tok:
        return False
    t = z3.simplify(z3.Or(x.t == 32, z3.And(x.t >= 9, x.t <= 13), z3.And(x.t >= 28, x.t <= 31)))
    return decide(t)


def _in_set(x, chars):
    if _type(x) is str:
        return x in chars
    if _type(x) is Tok:
        if not any(c in tokchars(x) for c in chars):
            return False
        raise Unsupported("strip into token")
    return decide(z3.simplify(z3.Or(*[x.t == ord(c) for c in chars])))


def m_strip(s, chars=None, left=True, right=True):
    e = list(elems(s))
    if chars is not None and has_tok(e):
        cc = force(chars, "strip")
        first, last = e[0], e[-1]
        if (left and _type(first) is Tok and any(c in tokchars(first) for c in cc)) or \
                (right and _type(last) is Tok and any(c in tokchars(last) for c in cc)):
            t = force(s, "strip")
            return t.strip(cc) if left and right else t.lstrip(cc) if left else t.rstrip(cc)
    f = _ws if chars is None else (lambda x: _in_set(x, chars))
    i, j = 0, len(e)
    if left:
        while i < j and f(e[i]):
            i += 1
    if right:
        while j > i and f(e[j - 1]):
            j -= 1
    return norm(e[i:j])


def _map(s, f, fc):
    out = []
    for x in elems(s):
        if _type(x) is Ch:
            out.append(Ch(f(x.t)))
        elif _type(x) is Tok:
            out.append(x)
        else:
            out.append(fc(x))
    return norm(out)


def _up(t):
    return z3.If(z3.And(t >= 97, t <= 122), t - 32, t)


def _lo(t):
    return z3.If(z3.And(t >= 65, t <= 90), t + 32, t)


def _tokcase(s, up):
    for x in elems(s):
        if _type(x) is Tok and x.kind == "time" and not up:
            return True
        if _type(x) is Tok and x.kind == "num" and (x.spec is None or x.spec[-1] in ("E" if not up else "e")):
            return True
    return False


def m_lower(s):
    if _tokcase(s, False):
        e = []
        for x in elems(s):
            if _type(x) is Tok and x.kind == "num" and x.spec and x.spec[-1] == "E":
                x = Tok(x.kind, x.val, x.spec[:-1] + "e", x.parsed, x._len)
            elif _type(x) is Tok and x.kind == "time":
                return force(s, "lower").lower()
            e.append(x)
        s = SymStr(e)
    return _map(s, _lo, str.lower)


def m_upper(s):
    return _map(s, _up, str.upper)


def _isletter(t):
    return z3.Or(z3.And(t >= 65, t <= 90), z3.And(t >= 97, t <= 122))


def m_title(s):
    out = []
    prev = z3.BoolVal(False)
    for x in elems(s):
        if _type(x) is Tok:
            out.append(x)
            prev = z3.BoolVal(False)
            continue
        t = code(x)
        out.append(Ch(z3.simplify(z3.If(prev, _lo(t), _up(t)))))
        prev = _isletter(t)
    return norm(out)


def m_capitalize(s):
    e = elems(s)
    return norm(elems(m_upper(norm(e[:1]))) + elems(m_lower(norm(e[1:]))))


def _split_pos(s, sub, maxn=-1):
    """positions (element index) of non overlapping matches from the left"""
    e, b = elems(s), elems(sub)
    pos = []
    i = 0
    while i + len(b) <= len(e):
        if 0 <= maxn <= len(pos):
            break
        m = match_at(e, i, b)
        if m is True or (m is not False and bool(m)):
            pos.append(i)
            i += len(b)
        else:
            i += 1
    return pos


def m_split(s, sep=None, maxsplit=-1):
    e = elems(s)
    if sep is None:
        out, curp = [], []
        i = 0
        while i < len(e):
            if _ws(e[i]):
                if curp:
                    out.append(norm(curp))
                    curp = []
                    if maxsplit >= 0 and len(out) == maxsplit:
                        rest = m_strip(norm(e[i:]), None, True, False)
                        if len(elems(rest)):
                            # trailing white space is kept by str.split with maxsplit
                            out.append(rest)
                        return out
            else:
                if not curp and maxsplit >= 0 and len(out) == maxsplit:
                    out.append(norm(e[i:]))
                    return out
                curp.append(e[i])
            i += 1
        if curp:
            out.append(norm(curp))
        return out
    if not _tok_safe(s, sep):
        return force(s, "split").split(force(sep, "split"), maxsplit)
    b = elems(sep)
    if not b:
        raise ValueError("empty separator")
    pos = _split_pos(s, sep, maxsplit)
    out, last = [], 0
    for i in pos:
        out.append(norm(e[last:i]))
        last = i + len(b)
    out.append(norm(e[last:]))
    return out


def m_rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return m_split(s, sep)
    if sep is None:
        parts = m_split(s)
        if len(parts) <= maxsplit + 1:
            return parts
        raise Unsupported("rsplit")
    if not _tok_safe(s, sep):
        return force(s, "rsplit").rsplit(force(sep, "split"), maxsplit)
    e, b = elems(s), elems(sep)
    out = []
    j = len(e)
    i = j - len(b)
    while i >= 0 and len(out) < maxsplit:
        m = match_at(e, i, b)
        if m is True or (m is not False and bool(m)):
            out.append(norm(e[i + len(b):j]))
            j = i
            i = j - len(b)
        else:
            i -= 1
    out.append(norm(e[:j]))
    return out[::-1]


def m_partition(s, sep):
    p = m_split(s, sep, 1)
    if len(p) == 1:
        return (p[0], "", "")
    return (p[0], sep, p[1])


def m_rpartition(s, sep):
    p = m_rsplit(s, sep, 1)
    if len(p) == 1:
        return ("", "", p[0])
    return (p[0], sep, p[1])


def m_splitlines(s, keepends=False):
    e = elems(s)
    out, curp = [], []
    for x in e:
        nl = x in "\n\r" if _type(x) is str else False if _type(x) is Tok else decide(z3.simplify(z3.Or(x.t == 10, x.t == 13)))
        if nl:
            out.append(norm(curp + ([x] if keepends else [])))
            curp = []
        else:
            curp.append(x)
    if curp:
        out.append(norm(curp))
    return out


def m_replace(s, old, new, count=-1):
    if count < 0 and has_tok(elems(s)) and str(old) + str(new) in ("T ", " T"):
        # the letter between date and time of day
        from . import shims
        e = [x if _type(x) is not Tok or x.kind != "time" or x.aux.kind != ("iso" if old == "T" else "iso ") else
             Tok(x.kind, x.val, x.spec, x.parsed, x._len, shims.ISO_ if old == "T" else shims.ISO) for x in elems(s)]
        if not any(_type(x) is Tok and old in tokchars(x) for x in e):
            return norm([(new if x == old else x) if _type(x) is str else x for x in e]) if not any(_type(x) is Ch for x in e) \
                else m_replace(SymStr(e), old, new)
    if not _tok_safe(s, old):
        return force(s, "replace").replace(force(old, "r"), force(new, "r"), count)
    e, b, c = elems(s), elems(old), elems(new)
    if len(b) == 1 and len(c) == 1 and count < 0 and _type(b[0]) is str and _type(c[0]) is str:
        out = []
        for x in e:
            if _type(x) is Ch:
                out.append(Ch(z3.simplify(z3.If(x.t == ord(b[0]), z3.IntVal(ord(c[0])), x.t))))
            elif x == b[0]:
                out.append(c[0])
            else:
                out.append(x)
        return norm(out)
    if not b:
        return force(s, "replace").replace("", force(new, "r"), count)
    pos = _split_pos(s, old, count)
    out, last = [], 0
    for i in pos:
        out.extend(e[last:i])
        out.extend(c)
        last = i + len(b)
    out.extend(e[last:])
    return norm(out)


def m_startswith(s, p, start=0):
    if _type(p) is tuple:
        return or_(*[m_startswith(s, q, start) for q in p])
    e, b = elems(s), elems(p)
    if start:
        e = e[start:]
    if not b:
        return True
    if has_tok(e[:len(b)]):
        k = next(i for i, x in enumerate(e) if _type(x) is Tok)
        r = match_at(e, 0, b[:k])
        if r is False:
            return False
        if e[k].kind != "time" and _type(b[k]) is str and b[k] not in "0123456789+-in":
            return False
        if len(b) == k + 1 and b[k] == "-":
            return and_(r, e[k].parsed < 0)
        return force(s, "startswith").startswith(force(p, "startswith"))
    return match_at(e, 0, b)


def m_endswith(s, p):
    if _type(p) is tuple:
        return or_(*[m_endswith(s, q) for q in p])
    e, b = elems(s), elems(p)
    if not b:
        return True
    if len(b) > len(e) and not has_tok(e):
        return False
    if has_tok(e[-len(b):]):
        if _type(e[-1]) is Tok and _type(b[-1]) is str and b[-1] not in tokchars(e[-1]):
            return False
        return force(s, "endswith").endswith(force(p, "endswith"))
    return match_at(e, len(e) - len(b), b)


def m_find(s, sub, start=0):
    if start == 0 and has_tok(elems(s)) and elems(sub) and _tok_safe(s, sub):
        e = elems(s)
        pos = _split_pos(s, sub, 1)
        return sum(tok_len(x) if _type(x) is Tok else 1 for x in e[:pos[0]]) if pos else -1
    if not _tok_safe(s, sub) or has_tok(elems(s)):
        return force(s, "find").find(force(sub, "find"), start)
    e, b = elems(s), elems(sub)
    for i in range(start, len(e) - len(b) + 1):
        m = match_at(e, i, b)
        if m is True or (m is not False and bool(m)):
            return i
    return -1


def m_rfind(s, sub):
    e, b = elems(s), elems(sub)
    if has_tok(e):
        return force(s, "rfind").rfind(force(sub, "rfind"))
    for i in range(len(e) - len(b), -1, -1):
        m = match_at(e, i, b)
        if m is True or (m is not False and bool(m)):
            return i
    return -1


def m_index(s, sub, start=0):
    i = m_find(s, sub, start)
    if i < 0:
        raise ValueError("substring not found")
    return i


_TIMECOUNT = {("date", "-"): 2, ("iso", "-"): 2, ("iso ", "-"): 2, ("iso", ":"): 2, ("iso ", ":"): 2, ("iso", "T"): 1, ("iso ", " "): 1}


def m_count(s, sub):
    if _type(sub) is str and len(sub) == 1 and not _tok_safe(s, sub):
        t = [x for x in elems(s) if _type(x) is Tok]
        if all(x.kind == "time" and (x.aux.kind, sub) in _TIMECOUNT for x in t):
            return sum(_TIMECOUNT[x.aux.kind, sub] for x in t) + len(_split_pos(SymStr([x for x in elems(s) if _type(x) is not Tok]), sub))
    if not _tok_safe(s, sub):
        return force(s, "count").count(force(sub, "count"))
    return len(_split_pos(s, sub))


def _all(s, f, fc, tok=False):
    e = elems(s)
    if not e:
        return False
    ts = []
    for x in e:
        if _type(x) is Ch:
            ts.append(SymBool(z3.simplify(f(x.t))))
        elif _type(x) is Tok:
            ts.append(tok(x) if callable(tok) else tok)
        else:
            ts.append(fc(x))
    return and_(*ts)


def _dig(t):
    return z3.And(t >= 48, t <= 57)


def m_isdigit(s):
    return _all(s, _dig, str.isdigit, lambda x: (x.val >= 0) if x.kind == "int" else False)


def m_isalpha(s):
    return _all(s, _isletter, str.isalpha)


def m_isalnum(s):
    return _all(s, lambda t: z3.Or(_dig(t), _isletter(t)), str.isalnum,
                lambda x: (x.val >= 0) if x.kind == "int" else False)


def m_isspace(s):
    return _all(s, lambda t: z3.Or(t == 32, z3.And(t >= 9, t <= 13)), str.isspace)


def _cased(s, up):
    e = elems(s)
    if has_tok(e):
        t = force(s, "case")
        return t.isupper() if up else t.islower()
    a = [z3.And(code(x) >= 65, code(x) <= 90) for x in e]
    b = [z3.And(code(x) >= 97, code(x) <= 122) for x in e]
    if not up:
        a, b = b, a
    return SymBool(z3.simplify(z3.And(z3.Or(*a), *[z3.Not(x) for x in b])))


def m_join(s, items):
    out = []
    first = True
    for it in items:
        if not first:
            out.extend(elems(s))
        if not (_type(it) is SymStr or isinstance_str(it)):
            raise TypeError(f"sequence item: expected str instance, {_type(it).__name__} found")
        out.extend(elems(it))
        first = False
    return norm(out)


def _just(s, w, fill, mode):
    n = len(s) if isinstance_str(s) else length(s)
    pad = max(0, int(w) - n)
    if mode == "l":
        return norm(elems(s) + (fill,) * pad)
    if mode == "r":
        return norm((fill,) * pad + elems(s))
    l = pad // 2 + (pad & int(w) & 1)
    return norm((fill,) * l + elems(s) + (fill,) * (pad - l))


def m_zfill(s, w):
    e = elems(s)
    if e and bool(or_(eq(norm(e[:1]), "-"), eq(norm(e[:1]), "+"))) if not has_tok(e) else False:
        return norm(e[:1] + elems(_just(norm(e[1:]), int(w) - 1, "0", "r")))
    return _just(s, w, "0", "r")


def m_removeprefix(s, p):
    if bool(m_startswith(s, p)):
        return norm(elems(s)[len(elems(p)):])
    return s


def m_removesuffix(s, p):
    if elems(p) and bool(m_endswith(s, p)):
        return norm(elems(s)[:-len(elems(p))])
    return s


def m_format(s, *a, **k):
    from . import rt
    return rt.str_format(s, a, k)


METHODS = {
    "strip": m_strip,
    "lstrip": lambda s, c=None: m_strip(s, c, True, False),
    "rstrip": lambda s, c=None: m_strip(s, c, False, True),
    "lower": m_lower, "upper": m_upper, "casefold": m_lower, "title": m_title, "capitalize": m_capitalize,
    "split": m_split, "rsplit": m_rsplit, "partition": m_partition, "rpartition": m_rpartition,
    "splitlines": m_splitlines, "replace": m_replace, "startswith": m_startswith, "endswith": m_endswith,
    "find": m_find, "rfind": m_rfind, "index": m_index, "count": m_count,
    "isdigit": m_isdigit, "isnumeric": m_isdigit, "isdecimal": m_isdigit, "isalpha": m_isalpha,
    "isalnum": m_isalnum, "isspace": m_isspace, "isupper": lambda s: _cased(s, True),
    "islower": lambda s: _cased(s, False), "join": m_join,
    "ljust": lambda s, w, f=" ": _just(s, w, f, "l"), "rjust": lambda s, w, f=" ": _just(s, w, f, "r"),
    "center": lambda s, w, f=" ": _just(s, w, f, "c"), "zfill": m_zfill,
    "removeprefix": m_removeprefix, "removesuffix": m_removesuffix, "format": m_format,
}


# --------------------------------------------------------------------------- parsing numbers
def _cls(x):
    """fork the class of a character: digit '.', sign, e, other"""
    if _type(x) is str:
        if x.isdigit():
            return "d"
        if x in "+-":
            return x
        if x in ".eE_":
            return {"E": "e"}.get(x, x)
        return "?"
    t = x.t
    if decide(z3.simplify(_dig(t))):
        return "d"
    for c in "+-._":
        if decide(z3.simplify(t == ord(c))):
            return c
    if decide(z3.simplify(z3.Or(t == 101, t == 69))):
        return "e"
    return "?"


def _digit(x):
    return z3.IntVal(int(x)) if _type(x) is str else x.t - 48


def parse_float(s):
    s2 = m_strip(s)
    e = elems(s2)
    if len(e) == 1 and _type(e[0]) is Tok and e[0].kind in ("num", "int"):
        v = _lift(e[0].parsed)
        return SymReal(_rt(v), v.ang)
    if all(_type(x) is str for x in e):
        return float("".join(e))
    if has_tok(e):
        toks = [x for x in e if _type(x) is Tok]
        others = [x for x in e if _type(x) is not Tok]
        if len(toks) == 1 and len(e) == 2 and _type(e[0]) is str and e[0] in "+-" and toks[0].kind in ("num", "int"):
            if bool(toks[0].parsed >= 0):
                v = SymReal(_rt(_lift(toks[0].parsed)))
                return -v if e[0] == "-" else v
        for x in others:
            if _type(x) is str and x not in "0123456789+-.eE_":
                raise ValueError("could not convert string to float")
        return float(force(s, "float"))
    err = ValueError("could not convert string to float")
    i = 0
    n = len(e)
    if n == 0:
        raise err
    low = m_lower(s2)
    for w in ("inf", "nan", "+inf", "-inf", "+nan", "-nan", "infinity"):
        if len(w) == n and bool(eq(low, w)):
            return float(w)
    sign = 1
    c = _cls(e[0])
    if c in "+-":
        sign = -1 if c == "-" else 1
        i = 1
    val = z3.IntVal(0)
    nd = 0
    scale = 0
    seen_dot = False
    exp = None
    while i < n:
        c = _cls(e[i])
        if c == "d":
            val = val * 10 + _digit(e[i])
            nd += 1
            if seen_dot:
                scale += 1
        elif c == "." and not seen_dot:
            seen_dot = True
        elif c == "e" and nd:
            exp = i + 1
            break
        else:
            if c == "_" and i and _cls(e[i - 1]) == "d" and i + 1 < n and _cls(e[i + 1]) == "d":
                i += 1
                continue
            raise err
        i += 1
    if nd == 0:
        raise err
    ev = 0
    if exp is not None:
        rest = norm(e[exp:])
        if len(elems(rest)) == 0:
            raise err
        try:
            ev = int(parse_int(rest))
        except ValueError:
            raise err
    f = Fraction(10) ** (ev - scale)
    return SymReal(z3.simplify(z3.ToReal(val) * real_val(f) * sign))


def parse_int(s, base=10):
    s2 = m_strip(s)
    e = elems(s2)
    if len(e) == 1 and _type(e[0]) is Tok:
        if e[0].kind == "int":
            return e[0].val
        raise ValueError("invalid literal for int()")
    if all(_type(x) is str for x in e):
        return int("".join(e), base)
    if has_tok(e):
        for x in e:
            if _type(x) is str and x not in "0123456789+-_":
                raise ValueError("invalid literal for int()")
        return int(force(s, "int"))
    i, sign = 0, 1
    c = _cls(e[0])
    if c in "+-":
        sign = -1 if c == "-" else 1
        i = 1
    val = z3.IntVal(0)
    nd = 0
    for k, x in enumerate(e[i:], i):
        c = _cls(x)
        if c == "_" and k > i and _cls(e[k - 1]) == "d" and k + 1 < len(e) and _cls(e[k + 1]) == "d":
            continue
        if c != "d":
            raise ValueError("invalid literal for int()")
        val = val * 10 + _digit(x)
        nd += 1
    if not nd:
        raise ValueError("invalid literal for int()")
    return SymInt(z3.simplify(val * sign))
