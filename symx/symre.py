"""small backtracking regular-expression matcher over SymStr (symbolic characters fork)"""
import re as _re
import types
import z3
from re import _parser, _constants as C
from .core import Ch, SymBool, SymStr, Tok, _type, cur, is_sym
from . import symstr


def _cls_term(items, t, flags):
    """z3 Bool: code point t is in the set"""
    neg = False
    alts = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            alts.append(t == av)
        elif op is C.RANGE:
            alts.append(z3.And(t >= av[0], t <= av[1]))
        elif op is C.CATEGORY:
            alts.append(_cat(av, t))
        else:
            raise NotImplementedError(str(op))
    r = z3.Or(*alts) if alts else z3.BoolVal(False)
    return z3.Not(r) if neg else r


def _cat(av, t):
    dig = z3.And(t >= 48, t <= 57)
    sp = z3.Or(t == 32, z3.And(t >= 9, t <= 13), z3.And(t >= 28, t <= 31))
    word = z3.Or(dig, z3.And(t >= 65, t <= 90), z3.And(t >= 97, t <= 122), t == 95)
    return {C.CATEGORY_DIGIT: lambda: dig, C.CATEGORY_NOT_DIGIT: lambda: z3.Not(dig),
            C.CATEGORY_SPACE: lambda: sp, C.CATEGORY_NOT_SPACE: lambda: z3.Not(sp),
            C.CATEGORY_WORD: lambda: word, C.CATEGORY_NOT_WORD: lambda: z3.Not(word)}[av]()


def _lit(t, av, ic):
    """the character is this one; without case the two ASCII cases are one"""
    if ic and chr(av).isalpha() and av < 128:
        return z3.Or(t == ord(chr(av).lower()), t == ord(chr(av).upper()))
    return t == av


def _fold(items):
    """a set of characters without regard to case"""
    out = list(items)
    for op, av in items:
        if op is C.LITERAL and av < 128 and chr(av).isalpha():
            out.append((C.LITERAL, ord(chr(av).swapcase())))
        elif op is C.RANGE:
            for a, b in ((65, 90), (97, 122)):
                lo, hi = max(av[0], a), min(av[1], b)
                if lo <= hi:
                    out.append((C.RANGE, (lo ^ 32, hi ^ 32)))
    return out


class Matcher:
    def __init__(self, e, ic=False):
        self.e = e
        self.n = len(e)
        self.ic = ic

    def word(self, i):
        return 0 <= i < self.n and self.ok(_cat(C.CATEGORY_WORD, symstr.code(self.e[i])))

    def ok(self, term):
        return cur().decide(term)

    def run(self, pat, k, i, g, cont):
        """match pat[k:] at i, then cont(i, groups)"""
        if k == len(pat):
            return cont(i, g)
        op, av = pat[k]
        nxt = lambda j, gg: self.run(pat, k + 1, j, gg, cont)
        if op is C.LITERAL or op is C.NOT_LITERAL or op is C.ANY or op is C.IN:
            if i >= self.n:
                return None
            t = symstr.code(self.e[i])
            if op is C.LITERAL:
                c = _lit(t, av, self.ic)
            elif op is C.NOT_LITERAL:
                c = z3.Not(_lit(t, av, self.ic))
            elif op is C.ANY:
                c = t != 10
            else:
                c = _cls_term(_fold(av) if self.ic else av, t, 0)
            return nxt(i + 1, g) if self.ok(c) else None
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                return nxt(i, g) if i == 0 else None
            if av is C.AT_END:
                if i == self.n or (i == self.n - 1 and self.ok(symstr.code(self.e[i]) == 10)):
                    return nxt(i, g)
                return None
            if av is C.AT_END_STRING:
                return nxt(i, g) if i == self.n else None
            if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                return nxt(i, g) if (self.word(i - 1) != self.word(i)) == (av is C.AT_BOUNDARY) else None
            raise NotImplementedError(str(av))
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.run(list(alt), 0, i, g, nxt)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            gid, _, _, sub = av

            def close(j, gg):
                if gid is not None:
                    gg = dict(gg)
                    gg[gid] = (i, j)
                return nxt(j, gg)
            return self.run(list(sub), 0, i, g, close)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            greedy = op is not C.MIN_REPEAT
            if op is C.POSSESSIVE_REPEAT:
                j, c = i, 0
                while hi is C.MAXREPEAT or c < hi:
                    r = self.run(sub, 0, j, g, lambda q, gg: (q, gg))
                    if r is None or r[0] == j:
                        break
                    j = r[0]
                    c += 1
                return nxt(j, g) if c >= lo else None

            def rep(count, j, gg):
                def more():
                    if hi is not C.MAXREPEAT and count >= hi:
                        return None
                    return self.run(sub, 0, j, gg, lambda q, g2: rep(count + 1, q, g2) if q > j else None)
                if count < lo:
                    return more()
                if greedy:
                    r = more()
                    return r if r is not None else nxt(j, gg)
                r = nxt(j, gg)
                return r if r is not None else more()
            return rep(0, i, g)
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, sub = av
            if d < 0:
                raise NotImplementedError("lookbehind")
            r = self.run(list(sub), 0, i, g, lambda q, gg: (q, gg))
            if (r is not None) == (op is C.ASSERT):
                return nxt(i, g)
            return None
        raise NotImplementedError(str(op))

    def at(self, pat, i):
        return self.run(pat, 0, i, {}, lambda j, g: (j, g))


class SymMatch:
    def __init__(self, s, i, j, g, ng):
        self.s, self.i, self.j, self.g, self.ng = s, i, j, g, ng

    def _grp(self, k):
        if k == 0:
            return symstr.norm(self.s[self.i:self.j])
        if k not in self.g:
            return None
        a, b = self.g[k]
        return symstr.norm(self.s[a:b])

    def group(self, *k):
        if not k:
            k = (0,)
        r = tuple(self._grp(x) for x in k)
        return r[0] if len(r) == 1 else r

    def groups(self):
        return tuple(self._grp(x) for x in range(1, self.ng))

    def start(self, k=0):
        return self.i if k == 0 else self.g[k][0]

    def end(self, k=0):
        return self.j if k == 0 else self.g[k][1]

    def span(self, k=0):
        return self.start(k), self.end(k)


def _prep(pattern, s, flags=0):
    """-> (items, ngroups, elems) or None when the text has to be made concrete"""
    if isinstance(pattern, _re.Pattern):
        flags |= pattern.flags & ~_re.UNICODE
        pattern = pattern.pattern
    if flags & ~int(_re.IGNORECASE | _re.UNICODE) or symstr.has_tok(s.e):
        return None
    try:
        p = _parser.parse(pattern, int(flags))
    except _re.error:
        # the Rust engine reads  X{n}*  as  (?:X{n})*
        p = _parser.parse(_re.sub(r"(\[[^\]]*\]|\w)\{(\d+)\}\*", r"(?:\1{\2})*", pattern), int(flags))
    if p.state.flags & ~int(_re.UNICODE | _re.IGNORECASE):
        return None
    return list(p), p.state.groups, Elems(s.e, p.state.flags & _re.IGNORECASE)


class Elems(list):
    def __init__(self, e, ic):
        super().__init__(e)
        self.ic = bool(ic)


def _wrap(name):
    real = getattr(_re, name)

    def f(pattern, string, *a, **k):
        if _type(string) is not SymStr:
            return real(pattern, string, *a, **k)
        pr = _prep(pattern, string, k.get("flags", 0) or (a[0] if a else 0))
        if pr is None:
            return real(pattern, symstr.force(string, "regex"), *a, **k)
        items, ng, e = pr
        m = Matcher(e, e.ic)
        try:
            if name in ("match", "fullmatch"):
                if name == "fullmatch":
                    r = m.run(items, 0, 0, {}, lambda j, g: (j, g) if j == m.n else None)
                else:
                    r = m.at(items, 0)
                return None if r is None else SymMatch(e, 0, r[0], r[1], ng)
            it = _iter(m, items, ng, e)
            if name == "search":
                return next(it, None)
            if name == "finditer":
                return it
            if name == "findall":
                out = []
                for q in it:
                    if ng == 1:
                        out.append(q.group())
                    elif ng == 2:
                        out.append(q.group(1) if q.group(1) is not None else "")
                    else:
                        out.append(tuple(x if x is not None else "" for x in q.groups()))
                return out
        except NotImplementedError:
            return real(pattern, symstr.force(string, "regex"), *a, **k)
    return f


def _iter(m, items, ng, e):
    i = 0
    last_end = -1
    while i <= m.n:
        r = m.at(items, i)
        if r is None:
            i += 1
            continue
        j, g = r
        if j == i and j == last_end:
            i += 1
            continue
        yield SymMatch(e, i, j, g, ng)
        last_end = j
        i = j if j > i else i + 1


def sub(pattern, repl, string, count=0, flags=0):
    if _type(string) is not SymStr:
        return _re.sub(pattern, repl, string, count=count, flags=flags)
    pr = _prep(pattern, string, flags)
    if pr is None or (isinstance(repl, str) and "\\" in repl):
        return _re.sub(pattern, repl, symstr.force(string, "regex"), count=count, flags=flags)
    items, ng, e = pr
    out = []
    pos = n = 0
    try:
        for q in _iter(Matcher(e, e.ic), items, ng, e):
            out.extend(e[pos:q.i])
            out.extend(symstr.elems(repl(q) if callable(repl) else repl))
            pos = q.j
            n += 1
            if count and n >= count:
                break
    except NotImplementedError:
        return _re.sub(pattern, repl, symstr.force(string, "regex"), count=count, flags=flags)
    out.extend(e[pos:])
    return symstr.norm(out)


def split(pattern, string, maxsplit=0, flags=0):
    if _type(string) is not SymStr:
        return _re.split(pattern, string, maxsplit=maxsplit, flags=flags)
    pr = _prep(pattern, string, flags)
    if pr is None:
        return _re.split(pattern, symstr.force(string, "regex"), maxsplit=maxsplit, flags=flags)
    items, ng, e = pr
    out = []
    pos = n = 0
    try:
        for q in _iter(Matcher(e, e.ic), items, ng, e):
            out.append(symstr.norm(e[pos:q.i]))
            out.extend(q.groups())
            pos = q.j
            n += 1
            if maxsplit and n >= maxsplit:
                break
    except NotImplementedError:
        return _re.split(pattern, symstr.force(string, "regex"), maxsplit=maxsplit, flags=flags)
    out.append(symstr.norm(e[pos:]))
    return out


match, search, fullmatch, findall, finditer = (_wrap(n) for n in ("match", "search", "fullmatch", "findall", "finditer"))


class SymPattern:
    def __init__(self, real):
        self._r = real

    def __getattr__(self, n):
        f = globals().get(n)
        if n in ("match", "search", "fullmatch", "findall", "finditer", "split"):
            return lambda s, *a, **k: f(self._r, s, *a, **k)
        if n == "sub":
            return lambda repl, s, *a, **k: sub(self._r, repl, s, *a, **k)
        return getattr(self._r, n)


class _RE(types.ModuleType):
    def __init__(self):
        super().__init__("re")
        for n in ("match", "search", "fullmatch", "findall", "finditer", "sub", "split"):
            self.__dict__[n] = globals()[n]

    def compile(self, *a, **k):
        return SymPattern(_re.compile(*a, **k))

    def __getattr__(self, n):
        return getattr(_re, n)


RE = _RE()
