"""run-time helpers that the transformed code calls instead of C level builtins"""
import builtins
import collections
import operator
import re as _re
import string as _string
from collections import OrderedDict, defaultdict

import numpy as np
import pandas as _pd
import z3

from . import core, symstr
from .core import (Ch, Sym, is_cplx, SymBool, SymComplex, SymInt, SymReal, SymStr, Tok, Unsupported, _const_of, _lift, _rt,
                   _type, concretise, cur, is_num, is_sym, or_, real_val, trunc_int)

NUM = (SymInt, SymReal, SymBool)
_PD_TS = _pd.Timestamp
_TYPES = {SymInt: int, SymReal: float, SymBool: bool, SymStr: str, SymComplex: complex}


def deep_sym(x, depth=4):
    t = _type(x)
    if issubclass(t, Sym):
        return True
    if depth <= 0:
        return False
    if t in (list, tuple, set, frozenset):
        return any(deep_sym(v, depth - 1) for v in x)
    if issubclass(t, dict):
        return any(deep_sym(v, depth - 1) for v in x.values()) or any(issubclass(_type(k), Sym) for k in x)
    if t is np.ndarray and x.dtype == object:
        return any(deep_sym(v, 1) for v in x.ravel())
    if hasattr(t, "__sym_value__"):
        return True
    if t.__name__ in ("MTime", "MDate"):
        return hasattr(_type(x.__dict__.get("time_stamp")), "__sym_type__") or \
            hasattr(_type(x.__dict__.get("time_stamp")), "__sym_value__")
    return False


# ------------------------------------------------------------------ builtins
def type_(*a):
    if len(a) == 1:
        t = _type(a[0])
        return _TYPES.get(t, None) or getattr(t, "__sym_type__", t)
    return builtins.type(*a)


def float_(x=0.0):
    t = _type(x)
    if t is SymReal:
        return x
    if t is SymInt:
        return SymReal(z3.ToReal(x.t))
    if t is SymBool:
        return SymReal(z3.ToReal(x.as_num().t))
    if t is SymStr:
        return symstr.parse_float(x)
    if t is SymComplex:
        raise TypeError("float() argument must be a string or a real number, not 'complex'")
    if t is np.ndarray and x.dtype == object and x.size == 1:
        return float_(x.ravel()[0])
    return builtins.float(x)


def callee(f):
    """a builtin reached through a variable"""
    return _CALLEES.get(builtins.id(f), f)


def int_(x=0, *a, **k):
    t = _type(x)
    if t is SymInt:
        return x
    if t is SymReal:
        return trunc_int(x)
    if t is SymBool:
        return x.as_num()
    if t is SymStr:
        return symstr.parse_int(x, *a)
    if t is np.ndarray and x.dtype == object and x.size == 1:
        return int_(x.ravel()[0])
    if t is not str and hasattr(t, "__sym_int__"):
        return x.__sym_int__()
    return builtins.int(x, *a, **k)


def bool_(x=False):
    if _type(x) is SymBool:
        return x
    if _type(x) in (SymInt, SymReal):
        return SymBool(z3.simplify(x.t != 0))
    return builtins.bool(x)


def complex_text(x):
    neg = builtins.bool(x.im < 0)
    im = symstr.elems(repr_(-x.im if neg else x.im))
    if builtins.bool(x.re == 0):
        return symstr.norm((symstr.elems("-") if neg else symstr.elems("")) + im + symstr.elems("j"))
    return symstr.norm(symstr.elems("(") + symstr.elems(repr_(x.re)) + symstr.elems("-" if neg else "+") + im +
                       symstr.elems("j)"))


def complex_parse(s):
    """complex(text) for the forms str(complex) writes"""
    e = list(symstr.elems(symstr.m_strip(s)))
    if len(e) > 1 and e[0] == "(" and e[-1] == ")":
        e = e[1:-1]
    toks = [i for i, x in enumerate(e) if _type(x) is Tok]
    if len(toks) == 2 and e[-1] == "j" and toks[1] == len(e) - 2 and e[toks[1] - 1] in ("+", "-"):
        return complex_(symstr.parse_float(symstr.norm(e[:toks[1] - 1])), symstr.parse_float(symstr.norm(e[toks[1] - 1:-1])))
    if len(toks) == 1 and e[-1] == "j" and toks[0] == len(e) - 2:
        if toks[0] == 0 or toks[0] == 1:
            return complex_(0.0, symstr.parse_float(symstr.norm(e[:-1])))
        j = toks[0] - 1
        if e[j] in ("+", "-") and all(_type(c) is builtins.str for c in e[:j]):
            return complex_(builtins.float("".join(e[:j])), symstr.parse_float(symstr.norm(e[j:-1])))
    if len(toks) == 1 and toks[0] < 2 and e[-1] == "j":
        rest = e[toks[0] + 1:]
        if all(_type(c) is builtins.str for c in rest):
            return complex_(symstr.parse_float(symstr.norm(e[:toks[0] + 1])), builtins.complex("".join(rest)).imag)
    return builtins.complex(symstr.force(s, "complex"))


def complex_(re=0, im=None):
    if is_sym(re) or is_sym(im):
        if _type(re) is SymStr:
            return complex_parse(re)
        if im is None:
            return SymComplex.of(re)
        a = SymComplex.of(re)
        b = SymComplex.of(im)
        return a + b * SymComplex(0.0, 1.0)
    if im is None:
        return builtins.complex(re)
    return builtins.complex(re, im)


def str_(x="", *a, **k):
    t = _type(x)
    if t is SymStr:
        return x
    if t in (SymReal, SymInt):
        return format_num(x, "")
    if t is SymBool:
        return "True" if x else "False"
    if t is SymComplex:
        return complex_text(x)
    if a or k:
        return builtins.str(x, *a, **k)
    if t in (list, tuple, dict, set, OrderedDict) and deep_sym(x):
        return repr_(x)
    if t is np.ndarray and x.dtype == object and x.ndim == 0:
        return str_(x.item())
    f = getattr(t, "__sym_str__", None)
    if f is not None:
        return f(x)
    if not issubclass(t, (builtins.str, builtins.int, builtins.float)) and t.__module__.startswith("mt_metadata"):
        f = getattr(t, "__str__", None)
        if f is not None and hasattr(f, "__code__"):
            return f(x)
    return builtins.str(x)


def repr_(x):
    t = _type(x)
    if t in (SymReal, SymInt, SymBool, SymComplex):
        return str_(x)
    if t is SymStr:
        return symstr.norm(("'",) + x.e + ("'",))
    if t in (list, tuple) and deep_sym(x):
        o, c = ("[", "]") if t is list else ("(", ")")
        out = [o]
        for i, v in enumerate(x):
            if i:
                out.extend(", ")
            out.extend(symstr.elems(repr_(v)))
        if t is tuple and len(x) == 1:
            out.append(",")
        out.append(c)
        return symstr.norm(out)
    if issubclass(t, dict) and deep_sym(x):
        out = ["{"]
        for i, (k, v) in enumerate(x.items()):
            if i:
                out.extend(", ")
            out.extend(symstr.elems(repr_(k)))
            out.extend(": ")
            out.extend(symstr.elems(repr_(v)))
        out.append("}")
        return symstr.norm(out)
    f = getattr(t, "__sym_str__", None)
    if f is not None:
        return f(x)
    if t.__module__.startswith("mt_metadata"):
        f = getattr(t, "__repr__", None)
        if f is not None and hasattr(f, "__code__"):
            return f(x)
    return builtins.repr(x)


def len_(x):
    if _type(x) is SymStr:
        return symstr.lazy_length(x)
    return builtins.len(x)


def isinstance_(x, c):
    return builtins.isinstance(x, c)


def print_(*a, **k):
    if core.active():
        return None
    return builtins.print(*a, **k)


def ord_(x):
    if _type(x) is SymStr and len(x.e) == 1 and _type(x.e[0]) is Ch:
        return SymInt(x.e[0].t)
    return builtins.ord(x)


def round_(x, *a):
    if is_sym(x):
        return x.__round__(*a)
    return builtins.round(x, *a)


# ------------------------------------------------------------------ formatting
_SPEC = _re.compile(r"^(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?$")


def concrete_str(s):
    return s if _type(s) is str else symstr.force(s, "format")


def _fmt_parsed(x, spec):
    """(parsed value, constraint) of reading back format(x, spec)"""
    p = cur()
    t = z3.simplify(_rt(x))
    apps = p.memo.setdefault("fmt", {})
    for (tt, r) in apps.get(spec, []):
        if tt.eq(t):
            return r
    m = _re.match(r"^[+]?(?:\.(\d+))?([eEfFgG%])$", spec)
    if not m:
        raise Unsupported("format " + spec)
    prec = int(m.group(1)) if m.group(1) else 6
    k = m.group(2).lower()
    if k == "%":
        raise Unsupported("format %")
    rv = z3.Real(p.fresh_name("fmt"))
    if k == "f":
        n = z3.Int(p.fresh_name("fmtk"))
        sc = real_val(10 ** prec)
        p.assume(z3.And(rv * sc == z3.ToReal(n), z3.ToReal(n) - t * sc <= z3.Q(1, 2), t * sc - z3.ToReal(n) <= z3.Q(1, 2)))
    else:
        d = prec if k == "e" else max(prec - 1, 0)
        from fractions import Fraction
        rel = real_val(Fraction(1, 2) / Fraction(10) ** d)
        a = z3.If(t >= 0, t, -t)
        p.assume(z3.And(rv - t <= rel * a, t - rv <= rel * a, z3.Implies(t > 0, rv > 0), z3.Implies(t < 0, rv < 0),
                        z3.Implies(t == 0, rv == 0)))
    r = SymReal(rv)
    # formatting is a monotone function of the value (told for the first numbers only: the facts are about pairs)
    for (tt, r2) in apps.get(spec, []) if len(apps.get(spec, [])) < 12 else []:
        p.assume(z3.And(z3.Implies(t == tt, rv == r2.t), z3.Implies(t <= tt, rv <= r2.t), z3.Implies(t >= tt, rv >= r2.t)))
    apps.setdefault(spec, []).append((t, r))
    return r


def format_num(x, spec):
    t = _type(x)
    spec = concrete_str(spec) if spec else ""
    m = _SPEC.match(spec)
    if not m:
        raise ValueError("Invalid format specifier")
    fill, align, sign, alt, zero, width, comma, prec, ty = m.groups()
    if comma or alt:
        return format(concretise(x, "format ," ), spec)
    if t is SymBool:
        x = x.as_num() if (ty or width) else x
        if _type(x) is SymBool:
            return "True" if x else "False"
        t = SymInt
    c = _const_of(x)
    if c is not None:
        return format(int(c) if t is SymInt else float(c), spec)
    if ty == "s":
        raise ValueError("Unknown format code 's'")
    lead = []
    if t is SymInt and ty in (None, "d", "n"):
        if prec:
            raise ValueError("Precision not allowed in integer format specifier")
        if sign in ("+", " ") and bool(x >= 0):
            lead = [sign]
        tok = Tok("int", x)
    else:
        xr = SymReal(_rt(x), x.ang)
        if ty in ("d", "x", "o", "b", "c"):
            raise ValueError("Unknown format code")
        if ty is None and prec is None:
            tok = Tok("num", xr)
        else:
            if ty is None:
                ty = "g"
            core_spec = ("." + prec if prec is not None else "") + ty
            tok = Tok("num", xr, core_spec, _fmt_parsed(xr, core_spec))
        if sign in ("+", " "):
            if bool(x >= 0):
                lead = [sign]
    e = tuple(lead) + (tok,)
    if width:
        w = int(width)
        n = sum(symstr.tok_len(q) if _type(q) is Tok else 1 for q in e)
        pad = max(0, w - n)
        if zero and not align:
            if pad:
                return format(concretise(x, "zero pad"), spec)
        else:
            f = fill or " "
            a = align or ">"
            if a == "<":
                e = e + (f,) * pad
            elif a == "^":
                e = (f,) * (pad // 2) + e + (f,) * (pad - pad // 2)
            elif a == "=":
                raise Unsupported("align =")
            else:
                e = (f,) * pad + e
    return symstr.norm(e)


def format_(x, spec=""):
    t = _type(x)
    if t in (SymReal, SymInt, SymBool):
        return format_num(x, spec)
    if t is SymComplex:
        if not spec:
            return str_(x)
        raise Unsupported("format complex")
    if _type(spec) is SymStr:
        spec = symstr.force(spec, "spec")
    if t is SymStr:
        if not spec:
            return x
        m = _SPEC.match(spec)
        if not m or m.group(9) not in (None, "s"):
            raise ValueError("Unknown format code for object of type 'str'")
        fill, align, sign, alt, zero, width, comma, prec, ty = m.groups()
        if prec is not None:
            x = x[: int(prec)]
        if width:
            return symstr._just(x, int(width), fill or " ", {"<": "l", ">": "r", "^": "c", None: "l"}[align])
        return x
    if not spec:
        return str_(x)
    if hasattr(t, "__sym_str__"):
        return format_(str_(x), spec)
    return builtins.format(x, spec)


def fstr(*parts):
    out = []
    sym = False
    for p in parts:
        if _type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == "r":
            v = repr_(v)
        elif conv == "s":
            v = str_(v)
        elif conv == "a":
            v = builtins.ascii(v)
        r = format_(v, spec)
        if _type(r) is SymStr:
            sym = True
        out.append(r)
    if not sym:
        return "".join(out)
    e = []
    for o in out:
        e.extend(symstr.elems(o))
    return symstr.norm(e)


class _Fmt(_string.Formatter):
    pass


def str_format(s, a, k):
    if _type(s) is SymStr:
        s = symstr.force(s, "format string")
    fm = _string.Formatter()
    out = []
    auto = 0
    for lit, field, spec, conv in fm.parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "":
            field = str(auto)
            auto += 1
        elif field[0] in ".[":
            field = str(auto) + field
            auto += 1
        first, rest = _string._string.formatter_field_name_split(field)
        obj = a[first] if builtins.isinstance(first, int) else k[first]
        for is_attr, i in rest:
            obj = getattr(obj, i) if is_attr else getitem(obj, i)
        if "{" in spec:
            sub = str_format_nested(spec, a, k, auto)
            spec, auto = sub
        out.append((obj, conv, spec))
    return fstr(*out)


def str_format_nested(spec, a, k, auto):
    fm = _string.Formatter()
    out = []
    for lit, field, sp, conv in fm.parse(spec):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "":
            field = str(auto)
            auto += 1
        first, rest = _string._string.formatter_field_name_split(field)
        obj = a[first] if builtins.isinstance(first, int) else k[first]
        out.append((obj, conv, sp))
    return fstr(*out), auto


_PCT = _re.compile(r"%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?([diouxXeEfFgGcrsa%])")


def mod(a, b):
    ta = _type(a)
    if ta is SymStr or (issubclass(ta, str) and deep_sym(b)):
        fmt = symstr.force(a, "% format") if ta is SymStr else str(a)
        args = b if _type(b) is tuple else (b,)
        out = []
        pos = 0
        ai = 0
        for m in _PCT.finditer(fmt):
            if m.start() > pos:
                out.append(fmt[pos:m.start()])
            pos = m.end()
            key, flags, width, prec, ty = m.groups()
            if ty == "%":
                out.append("%")
                continue
            if width == "*":
                width = str(args[ai])
                ai += 1
            if prec == "*":
                prec = str(args[ai])
                ai += 1
            if key is not None:
                v = b[key]
            else:
                v = args[ai]
                ai += 1
            if ty in "rsa":
                v = repr_(v) if ty == "r" else str_(v)
                spec = ("<" if "-" in flags else ">") + (width or "") if width else ""
                if prec is not None:
                    spec += "." + prec
                out.append((v, None, spec))
                continue
            if ty in "di":
                if not is_sym(v):
                    out.append(("%" + flags + (width or "") + ty) % v)
                    continue
                v = int_(v)
                ty = "d"
                prec = None
            spec = ("<" if "-" in flags else "") + ("+" if "+" in flags else " " if " " in flags else "") + \
                ("0" if "0" in flags and "-" not in flags else "") + (width or "") + \
                ("." + prec if prec is not None else "") + ty
            out.append((v, None, spec))
        if pos < len(fmt):
            out.append(fmt[pos:])
        return fstr(*out)
    return operator.mod(a, b)


# ------------------------------------------------------------------ containers
_DICTS = (dict, OrderedDict, defaultdict)


def _dict_has_symkey(d):
    for k in d:
        if _type(k) is SymStr:
            return True
    return False


def resolve_key(d, k):
    """key object of d equal to k (forks), or None"""
    if _type(k) is SymStr:
        for kk in builtins.list(d.keys()):
            if _type(kk) is SymStr or builtins.isinstance(kk, str):
                if kk is k:
                    return (kk,)
                if builtins.bool(symstr.eq(k, kk)):
                    return (kk,)
        return None
    if _type(k) is SymReal:
        for kk in builtins.list(d.keys()):
            if builtins.isinstance(kk, (int, float)) and builtins.bool(k == kk):
                return (kk,)
        return None
    for kk in builtins.list(d.keys()):
        if _type(kk) is SymStr and builtins.bool(symstr.eq(kk, k)):
            return (kk,)
    try:
        if k in d:
            return (k,)
    except TypeError:
        raise
    return None


def _needs(d, k):
    return (_type(k) is SymStr) or (_type(k) is SymReal and builtins.len(d) > 0) or (builtins.isinstance(k, str) and _dict_has_symkey(d))


def getitem(x, k):
    t = _type(x)
    if t in _DICTS and core.active() and _needs(x, k):
        r = resolve_key(x, k)
        if r is None:
            if t is defaultdict:
                return x[k]
            raise KeyError(k)
        return x[r[0]]
    if t is str and is_sym(k):
        return x[k.__index__()]
    if _type(k) is slice and (is_sym(k.start) or is_sym(k.stop) or is_sym(k.step)):
        k = slice(*[v.__index__() if is_sym(v) and _type(v) is not SymStr else v for v in (k.start, k.stop, k.step)])
    elif t is np.ndarray:
        k = np_key(k)
        r = x[k]
        return r
    return x[k]


def np_key(k):
    if is_sym(k):
        if _type(k) is SymBool:
            return builtins.bool(k)
        return k.__index__()
    if _type(k) is tuple:
        return tuple(np_key(q) for q in k)
    if _type(k) is np.ndarray and k.dtype == object:
        if k.size and all(_type(q) in (SymBool, builtins.bool, np.bool_) for q in k.ravel()):
            return np.array([builtins.bool(q) for q in k.ravel()], dtype=builtins.bool).reshape(k.shape)
        return np.array([q.__index__() for q in k.ravel()], dtype=builtins.int).reshape(k.shape)
    if _type(k) is slice:
        return slice(*[v.__index__() if is_sym(v) and _type(v) is not SymStr else v for v in (k.start, k.stop, k.step)])
    if _type(k) is builtins.list and any(is_sym(q) for q in k):
        return [np_key(q) for q in k]
    return k


def setitem(x, k, v):
    t = _type(x)
    if t in _DICTS and core.active() and _needs(x, k):
        r = resolve_key(x, k)
        if r is None:
            dict.__setitem__(x, k, v) if t is not OrderedDict else x.__setitem__(k, v)
        else:
            x[r[0]] = v
        return
    if t is np.ndarray:
        k = np_key(k)
        if x.dtype != object and deep_sym(v):
            if x.dtype.kind == "b":
                v = np.vectorize(builtins.bool)(v) if not is_sym(v) else builtins.bool(v)
            elif x.dtype.kind in "fc" and is_sym(v):
                c = _const_of(v) if _type(v) in (SymInt, SymReal) else None
                if c is None:
                    raise Unsupported("symbolic value stored in a native array")
                v = float(c)
            else:
                raise Unsupported("symbolic value stored in a native array")
    elif is_sym(k) and t is builtins.list:
        k = k.__index__()
    x[k] = v


def delitem(x, k):
    t = _type(x)
    if t in _DICTS and core.active() and _needs(x, k):
        r = resolve_key(x, k)
        if r is None:
            raise KeyError(k)
        del x[r[0]]
        return
    del x[k]


def _arr_cmp(a, b, op):
    """arrays of symbolic values compared element by element without deciding each"""
    from . import npshim
    try:
        r = npshim.map2(op, a, b)
    except ValueError:
        return op(a, b)
    if _type(r) is np.ndarray and not any(is_sym(q) for q in r.ravel()):
        return r.astype(bool)
    return r


def _obj_arr(a, b):
    return core.active() and (_type(a) is np.ndarray and a.dtype == object and not _opaque(b) or
                              _type(b) is np.ndarray and b.dtype == object and not _opaque(a))


def _opaque(x):
    return not (is_sym(x) or is_num(x) or is_cplx(x) or _type(x) in (np.ndarray, builtins.list, builtins.tuple, np.float64, np.int64))


def eq(a, b):
    if (_type(a) is np.ndarray or _type(b) is np.ndarray) and _obj_arr(a, b):
        return _arr_cmp(a, b, operator.eq)
    if _type(a) in _SETS and _type(b) in _SETS and _symbolic_members(a, b):
        return len(a) == len(b) and all(_member(q, b) for q in a)
    return a == b


def ne(a, b):
    if (_type(a) is np.ndarray or _type(b) is np.ndarray) and _obj_arr(a, b):
        return _arr_cmp(a, b, operator.ne)
    if _type(a) in _SETS and _type(b) in _SETS and _symbolic_members(a, b):
        return not eq(a, b)
    return a != b


# -- sets and dictionaries built from symbolic members: equal members are told apart by forking, not by their hash
_SETS = (set, frozenset, _type({}.keys()), _type(OrderedDict().keys()))


def _symbolic_members(*xs):
    return core.active() and any(_type(q) is SymStr or _type(q) is SymReal for x in xs for q in x)


def _same_member(a, q):
    if a is q:
        return True
    if _type(a) is SymStr or _type(q) is SymStr:
        if not (_type(a) is SymStr or builtins.isinstance(a, str)) or not (_type(q) is SymStr or builtins.isinstance(q, str)):
            return False
        return builtins.bool(symstr.eq(a, q) if _type(a) is SymStr else symstr.eq(q, a))
    if _type(a) is SymReal or _type(q) is SymReal:
        if not all(is_sym(v) or builtins.isinstance(v, (int, float)) for v in (a, q)):
            return False
        return builtins.bool(a == q)
    return a == q


def _member(a, xs):
    for q in xs:
        if _same_member(a, q):
            return True
    return False


def _canon(items):
    items = builtins.list(items)
    if not _symbolic_members(items):
        return items
    out = []
    for q in items:
        if not _member(q, out):
            out.append(q)
    return out


def set_(*a):
    return set(_canon(a[0])) if len(a) == 1 else set(*a)


def frozenset_(*a):
    return frozenset(_canon(a[0])) if len(a) == 1 else frozenset(*a)


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        if k is _SPREAD:
            for kk in v.keys():
                setitem(d, kk, v[kk])
        else:
            setitem(d, k, v)
    return d


class _SPREAD:
    pass


def counter_(*a, **k):
    if len(a) == 1 and not k and not hasattr(a[0], "items"):
        items = builtins.list(a[0])
        if _symbolic_members(items):
            seen, out = [], []
            for q in items:
                for o in seen:
                    if _same_member(q, o):
                        out.append(o)
                        break
                else:
                    seen.append(q)
                    out.append(q)
            return collections.Counter(out)
    return collections.Counter(*a, **k)


def setop(a, b, op):
    ta = _type(a)
    if ta in _SETS and hasattr(b, "__iter__") and _type(b) not in (SymStr, str) and _symbolic_members(a, b):
        return _setop(a, builtins.list(b), op)
    if op == "|" and ta in _DICTS and builtins.isinstance(b, dict) and _symbolic_members(a, b):
        return mkdict([(_SPREAD, a), (_SPREAD, b)])
    return _SETOPS[op](a, b)


_SETOPS = {"&": operator.and_, "|": operator.or_, "^": operator.xor, "-": operator.sub}


def _setop(a, b, op):
    a = builtins.list(a)
    if op == "&":
        return set(q for q in a if _member(q, b))
    if op == "-":
        return set(q for q in a if not _member(q, b))
    if op == "|":
        return set(_canon(a + b))
    return set([q for q in a if not _member(q, b)] + [q for q in _canon(b) if not _member(q, a)])


def _set_method(s, name, a):
    """the method of a set with symbolic members, or None"""
    if name == "add":
        if not _member(a[0], s):
            s.add(a[0])
        return (None,)
    if name in ("discard", "remove"):
        for q in builtins.list(s):
            if _same_member(q, a[0]):
                s.discard(q)
                return (None,)
        if name == "remove":
            raise KeyError(a[0])
        return (None,)
    ops = {"union": "|", "intersection": "&", "difference": "-", "symmetric_difference": "^"}
    if name in ops:
        r = s
        for q in a:
            r = _setop(r, builtins.list(q), ops[name])
        return (set(r),)
    if name in ("update", "difference_update", "intersection_update"):
        r = _set_method(s, {"update": "union", "difference_update": "difference", "intersection_update": "intersection"}[name], a)[0]
        set.clear(s)
        set.update(s, r)
        return (None,)
    b = builtins.list(a[0]) if a else []
    if name == "issubset":
        return (all(_member(q, b) for q in s),)
    if name == "issuperset":
        return (all(_member(q, builtins.list(s)) for q in b),)
    if name == "isdisjoint":
        return (not any(_member(q, b) for q in s),)
    return None


class _StrType:
    """str.lower and the like handed over as values"""
    def __getattr__(self, n):
        real_ = getattr(str, n)
        if n not in symstr.METHODS:
            return real_

        def f(x, *a, **k):
            return callm(x, n, *a, **k) if _type(x) is SymStr or any(_type(q) is SymStr for q in a) else real_(x, *a, **k)
        return f


STR = _StrType()


def _attr_name(o, n):
    """the attribute a symbolic name stands for (forks), or None"""
    names = dict.fromkeys([*getattr(o, "__dict__", {}), *getattr(_type(o), "model_fields", {}), *dir(o)])
    for q in names:
        if builtins.isinstance(q, str) and builtins.bool(symstr.eq(n, q)):
            return q
    return None


def getattr_(o, n, *d):
    if _type(n) is SymStr:
        q = _attr_name(o, n)
        if q is None:
            if d:
                return d[0]
            raise AttributeError(f"{_type(o).__name__} object has no such attribute")
        n = q
    return getattr(o, n, *d)


def hasattr_(o, n):
    if _type(n) is SymStr:
        n = _attr_name(o, n)
        if n is None:
            return False
    return hasattr(o, n)


def setattr_(o, n, v):
    if _type(n) is SymStr:
        n = _attr_name(o, n) or symstr.force(n, "setattr")
    return setattr(o, n, v)


def in_(a, b):
    tb = _type(b)
    if tb is SymStr or (issubclass(tb, str) and _type(a) is SymStr):
        if not (_type(a) is SymStr or issubclass(_type(a), str)):
            raise TypeError("'in <string>' requires string as left operand")
        return symstr.contains(b, a)
    if core.active():
        if tb in _DICTS or tb in (_DKEYS, _ODKEYS):
            d = b
            if _type(a) is SymStr or (builtins.isinstance(a, str) and _dict_has_symkey(d)):
                if tb not in _DICTS:
                    return or_(*[symstr.eq(a, q) if _type(a) is SymStr else symstr.eq(q, a) if _type(q) is SymStr else q == a for q in b])
                return resolve_key(d, a) is not None
        elif tb in (set, frozenset) and (_type(a) in (SymStr, SymReal) or any(_type(q) is SymStr for q in b)):
            return or_(*[a == q for q in b])
        elif tb in (builtins.list, tuple) and is_sym(a):
            return or_(*[_eq_item(a, q) for q in b])
    return a in b


def _eq_item(a, q):
    r = (a == q)
    if _type(r) is np.ndarray:
        return builtins.bool(r.all()) if r.size else False
    return r


def not_in(a, b):
    return core.sym_not(in_(a, b))


_DKEYS = _type({}.keys())
_ODKEYS = _type(OrderedDict().keys())
_STRM = set(symstr.METHODS)


_SETM = {"add", "discard", "remove", "union", "intersection", "difference", "symmetric_difference", "update", "difference_update",
         "intersection_update", "issubset", "issuperset", "isdisjoint"}
_CASTS = {"float64", "float32", "complex64", "complex128", "int64", "int32", "bool_", "divmod"}


def callm(obj, name, *a, **k):
    if name == "replace" and k and isinstance(obj, _PD_TS) and _type(obj).__name__ == "Timestamp" and \
            any(is_sym(v) for v in k.values()):
        from . import shims
        obj = shims.SymTimestamp(_lift(obj.value), "UTC" if obj.tz is not None else None)
    t = _type(obj)
    if t is str or (issubclass(t, str) and t.__module__ != "builtins"):
        if name in _STRM:
            if name == "format":
                if any(deep_sym(q) for q in a) or any(deep_sym(q) for q in k.values()) or \
                        any(hasattr(_type(q), "__sym_str__") or _type(q).__module__.startswith("mt_metadata") for q in a):
                    return str_format(str(obj), a, k)
            elif name == "join":
                if a:
                    items = builtins.list(a[0])
                    if any(_type(q) is SymStr for q in items):
                        return symstr.m_join(obj, items)
                    return obj.join(items)
            elif any(is_sym(q) for q in a):
                return symstr.METHODS[name](SymStr(tuple(obj)) if obj else SymStr(()), *a, **k)
    elif name in _CASTS and t.__name__ == "NpShim" and a and (is_sym(a[0]) or any(is_sym(q) for q in a)):
        from . import npshim
        if name == "divmod":
            return (npshim._OVR["floor_divide"](*a[:2]), npshim._OVR["mod"](*a[:2]))
        return npshim.conv(a[0], getattr(np, name))
    elif t in (set, frozenset) and name in _SETM and core.active() and \
            (_symbolic_members(obj) or any(_type(q) in (SymStr, SymReal) or (hasattr(q, "__iter__") and _symbolic_members(q)) for q in a)):
        r = _set_method(obj, name, a)
        if r is not None:
            return r[0]
    elif obj in (dict, OrderedDict) and name == "fromkeys" if t is builtins.type else False:
        if _symbolic_members(a[0] if a else ()):
            d = obj()
            for q in a[0]:
                setitem(d, q, a[1] if len(a) > 1 else None)
            return d
    elif t in _DICTS and core.active():
        if name == "get" and a and _needs(obj, a[0]):
            r = resolve_key(obj, a[0])
            return obj[r[0]] if r is not None else (a[1] if len(a) > 1 else k.get("default"))
        if name == "pop" and a and _needs(obj, a[0]):
            r = resolve_key(obj, a[0])
            if r is None:
                if len(a) > 1:
                    return a[1]
                raise KeyError(a[0])
            return obj.pop(r[0])
        if name == "setdefault" and a and _needs(obj, a[0]):
            r = resolve_key(obj, a[0])
            if r is None:
                setitem(obj, a[0], a[1] if len(a) > 1 else None)
                return a[1] if len(a) > 1 else None
            return obj[r[0]]
        if name == "update" and a and builtins.isinstance(a[0], dict):
            if any(_type(q) is SymStr for q in a[0]) or _dict_has_symkey(obj):
                for kk, vv in a[0].items():
                    setitem(obj, kk, vv)
                for kk, vv in k.items():
                    setitem(obj, kk, vv)
                return None
        if name == "move_to_end" and a and _needs(obj, a[0]):
            r = resolve_key(obj, a[0])
            if r is None:
                raise KeyError(a[0])
            return obj.move_to_end(r[0], *a[1:], **k)
    elif t is builtins.list:
        if name in ("index", "remove", "count") and a and (is_sym(a[0]) or any(is_sym(q) for q in obj)):
            hits = []
            for i, q in enumerate(obj):
                if q is a[0] or builtins.bool(_eq_item(q, a[0])):
                    if name == "index":
                        return i
                    if name == "remove":
                        del obj[i]
                        return None
                    hits.append(i)
            if name == "count":
                return len(hits)
            raise ValueError("not in list")
    elif t is np.ndarray:
        from . import npshim
        f = npshim.METHODS.get(name)
        if f is not None and core.active():
            return f(obj, *a, **k)
    return getattr(obj, name)(*a, **k)


def attr_real(x):
    if _type(x) is np.ndarray and x.dtype == object:
        from . import npshim
        return npshim.real(x)
    return x.real


def attr_imag(x):
    if _type(x) is np.ndarray and x.dtype == object:
        from . import npshim
        return npshim.imag(x)
    return x.imag


def attr_dtype(x):
    if _type(x) is np.ndarray and x.dtype == object:
        from . import npshim
        return npshim.infer_dtype(x)
    if type(x).__name__ in ("DataArray",) and x.dtype == object:
        from . import npshim
        return npshim.infer_dtype(x.values)
    return x.dtype


_IOPS = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "//": operator.ifloordiv,
         "%": operator.imod, "**": operator.ipow, "&": operator.iand, "|": operator.ior, "^": operator.ixor,
         "<<": operator.ilshift, ">>": operator.irshift, "@": operator.imatmul}
_OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
        "%": operator.mod, "**": operator.pow, "@": operator.matmul}


def iop(a, b, op):
    if op == "%":
        return mod(a, b)
    if op == "+" and _type(a) is builtins.str and _type(b) is SymStr:
        return a + b
    if _type(a) is np.ndarray and a.dtype != object and deep_sym(b):
        return _OPS[op](a, b)
    if _type(a) is np.ndarray and a.dtype != object and _type(b) is np.ndarray and b.dtype == object and a.dtype.kind in "fc":
        b = b.astype(a.dtype)     # plain numbers kept in an object array
    if _type(a) is np.ndarray and a.dtype == object and is_sym(b):
        a[...] = _OPS[op](a, b)
        return a
    return _IOPS[op](a, b)


_CALLEES = {builtins.id(getattr(builtins, n)): globals()[w] for n, w in
            {"float": "float_", "int": "int_", "str": "str_", "bool": "bool_", "complex": "complex_", "type": "type_",
             "repr": "repr_", "len": "len_", "round": "round_"}.items()}
