"""interpreter of pydantic core schemas, used only when the values carry proxies

The real (Rust) validators cannot see proxies.  Every model class of mt_metadata keeps its real
validator for concrete data; when data contain proxies the *same* core schema
(cls.__pydantic_core_schema__, generated by pydantic from /repo's current classes) is interpreted
here, calling the real validator functions of the class (transformed code).
"""
import copy
import math
from collections import OrderedDict

import numpy as np
import z3
from pydantic import BaseModel, ValidationError
from pydantic_core import (PydanticCustomError, PydanticKnownError, PydanticOmit, PydanticUndefined, PydanticUseDefault,
                           SchemaValidator, ValidationError as CoreVE)

from . import core, rt, symstr
from .core import (Sym, SymBool, SymComplex, SymInt, SymReal, SymStr, Unsupported, _type, is_sym, sym_not)

STATS = {"interpreted": 0, "real": 0}


class VErr(Exception):
    def __init__(self, msg, loc=(), errs=None):
        self.errs = errs or [(loc, msg)]

    def at(self, loc):
        return VErr("", errs=[((loc,) + l, m) for l, m in self.errs])


class Info:
    def __init__(self, data, field_name, config, context=None, mode="python"):
        self.data = data
        self.field_name = field_name
        self.config = config
        self.context = context
        self.mode = mode


class St:
    __slots__ = ("config", "data", "field", "self_instance", "defs", "strict", "context")

    def __init__(self, config=None, data=None, field=None, self_instance=None, defs=None, strict=False, context=None):
        self.config = config or {}
        self.data = data
        self.field = field
        self.self_instance = self_instance
        self.defs = defs if defs is not None else {}
        self.strict = strict
        self.context = context

    def but(self, **k):
        n = St(self.config, self.data, self.field, self.self_instance, self.defs, self.strict, self.context)
        for a, b in k.items():
            setattr(n, a, b)
        return n


EXACT, STRICT, LAX = 2, 1, 0


def _text(e):
    """the message of an error; symbolic parts are left open"""
    if len(e.args) == 1 and _type(e.args[0]) is SymStr:
        return "".join(x if _type(x) is str else "?" for x in e.args[0].e)
    return str(e)


def call(f, *a):
    try:
        return f(*a)
    except CoreVE as e:
        raise VErr("", errs=[(tuple(d["loc"]), d["msg"]) for d in e.errors(include_input=False, include_url=False)])
    except (ValueError, AssertionError, PydanticCustomError, PydanticKnownError) as e:
        raise VErr(_text(e))


_leaf = {}


def leaf(schema, v, st, exact_types):
    """concrete leaf: use the real validator"""
    key = (id(schema), bool(st.config.get("coerce_numbers_to_str")))
    if key not in _leaf:
        cfg = {"coerce_numbers_to_str": True} if st.config.get("coerce_numbers_to_str") else None
        _leaf[key] = (SchemaValidator(schema, cfg), schema)
    val = _leaf[key][0]
    try:
        r = val.validate_python(v, strict=True if st.strict else None)
    except CoreVE as e:
        raise VErr("", errs=[(tuple(d["loc"]), d["msg"]) for d in e.errors(include_input=False, include_url=False)])
    if type(v) in exact_types:
        return r, EXACT
    try:
        val.validate_python(v, strict=True)
        return r, STRICT
    except CoreVE:
        return r, LAX


def validate(s, v, st):
    return HANDLERS[s["type"]](s, v, st)


def h_any(s, v, st):
    return v, LAX


def h_none(s, v, st):
    if v is None:
        return v, EXACT
    raise VErr("Input should be None")


def h_nullable(s, v, st):
    if v is None:
        return None, EXACT
    return validate(s["schema"], v, st)


def h_default(s, v, st):
    if v is PydanticUndefined:
        return get_default(s, st), EXACT
    try:
        return validate(s["schema"], v, st)
    except PydanticUseDefault:
        return get_default(s, st), LAX
    except VErr:
        if s.get("on_error") == "default":
            return get_default(s, st), LAX
        raise


def get_default(s, st):
    if "default" in s:
        d = s["default"]
        try:
            hash(d)
        except TypeError:
            d = copy.deepcopy(d)
    elif "default_factory" in s:
        f = s["default_factory"]
        d = f(st.data) if s.get("default_factory_takes_data") else f()
    else:
        raise VErr("Field required")
    if s.get("validate_default"):
        return validate(s["schema"], d, st)[0]
    return d


def find_default(s):
    """the `default` schema a field schema is built on, looking through function wrappers"""
    while True:
        if s["type"] == "default":
            return s
        if s["type"] in ("function-before", "function-after", "function-wrap", "nullable"):
            s = s["schema"]
            continue
        return None


def _constr(s, v, ok_msg="constraint"):
    """numeric constraints"""
    for k, f in (("ge", lambda a, b: a >= b), ("gt", lambda a, b: a > b), ("le", lambda a, b: a <= b), ("lt", lambda a, b: a < b)):
        if s.get(k) is not None:
            if not bool(f(v, s[k])):
                raise VErr(f"Input should be {k} {s[k]}")
    if s.get("multiple_of") is not None:
        raise Unsupported("multiple_of")
    return v


def h_float(s, v, st):
    t = _type(v)
    if t is SymReal:
        return _constr(s, v), EXACT
    if t is SymInt:
        return _constr(s, rt.float_(v)), STRICT
    if st.strict and is_sym(v):
        raise VErr("Input should be a valid number")
    if t is SymBool:
        return _constr(s, rt.float_(v)), LAX
    if t is SymStr:
        try:
            r = rt.float_(v)
        except ValueError:
            raise VErr("Input should be a valid number, unable to parse string as a number")
        return _constr(s, r), LAX
    if is_sym(v):
        raise VErr("Input should be a valid number")
    if t is np.ndarray and rt.deep_sym(v):
        if v.size == 1:
            return rt.float_(v.reshape(-1)[0]), LAX
        raise VErr("Input should be a valid number")
    return leaf(s, v, st, (float,))


def h_int(s, v, st):
    t = _type(v)
    if t is SymInt:
        return _constr(s, v), EXACT
    if st.strict and is_sym(v):
        raise VErr("Input should be a valid integer")
    if t is SymBool:
        return _constr(s, v.as_num()), LAX
    if t is SymReal:
        if bool(v.is_integer()):
            return _constr(s, core.trunc_int(v)), LAX
        raise VErr("Input should be a valid integer, got a number with a fractional part")
    if t is SymStr:
        st2 = symstr.m_strip(v)
        e = symstr.elems(st2)
        if len(e) == 1 and _type(e[0]) is core.Tok and e[0].kind == "num":
            # '1.0' is accepted as integer when the fraction is zero
            r = e[0].parsed
            if e[0].spec is None and bool(r.is_integer()) and bool(abs(r) < 1e16):
                return _constr(s, core.trunc_int(r)), LAX
            if e[0].spec is not None and e[0].spec[-1] in "fF" and bool(r.is_integer()):
                return _constr(s, core.trunc_int(r)), LAX
            raise VErr("Input should be a valid integer, unable to parse string as an integer")
        if symstr.has_tok(e) or all(_type(x) is str for x in e):
            try:
                r = rt.int_(st2)
            except ValueError:
                raise VErr("Input should be a valid integer, unable to parse string as an integer")
            return _constr(s, r), LAX
        try:
            r = symstr.parse_int(st2)
        except ValueError:
            # a trailing '.0' is allowed
            p = symstr.m_split(st2, ".", 1)
            if len(p) == 2 and len(symstr.elems(p[1])) and all(bool(symstr.eq(symstr.norm((x,)), "0")) for x in symstr.elems(p[1])):
                try:
                    return _constr(s, rt.int_(p[0])), LAX
                except ValueError:
                    pass
            raise VErr("Input should be a valid integer, unable to parse string as an integer")
        return _constr(s, r), LAX
    if is_sym(v):
        raise VErr("Input should be a valid integer")
    return leaf(s, v, st, (int,))


_TRUE = ("1", "t", "true", "y", "yes", "on")
_FALSE = ("0", "f", "false", "n", "no", "off")


def h_bool(s, v, st):
    t = _type(v)
    if t is SymBool:
        return v, EXACT
    if st.strict and is_sym(v):
        raise VErr("Input should be a valid boolean")
    if t in (SymInt, SymReal):
        if bool(v == 0):
            return False, LAX
        if bool(v == 1):
            return True, LAX
        raise VErr("Input should be a valid boolean, unable to interpret input")
    if t is SymStr:
        low = symstr.m_lower(v)
        if not symstr.has_tok(symstr.elems(low)):
            for w in _TRUE:
                if bool(low == w):
                    return True, LAX
            for w in _FALSE:
                if bool(low == w):
                    return False, LAX
            raise VErr("Input should be a valid boolean, unable to interpret input")
        return leaf(s, symstr.force(v, "bool"), st, (bool,))
    if is_sym(v):
        raise VErr("Input should be a valid boolean")
    return leaf(s, v, st, (bool,))


def h_str(s, v, st):
    t = _type(v)
    if t is SymStr:
        r, ex = v, EXACT
    elif t in (SymInt, SymReal) and not st.strict and not s.get("strict") and \
            (s.get("coerce_numbers_to_str") or st.config.get("coerce_numbers_to_str")):
        r, ex = rt.str_(v), LAX
    elif is_sym(v):
        raise VErr("Input should be a valid string")
    else:
        return leaf(s, v, st, (str,))
    if _type(r) is not SymStr:
        r2, _ = leaf(s, r, st, (str,))
        return r2, ex
    if s.get("strip_whitespace") or st.config.get("str_strip_whitespace"):
        r = symstr.m_strip(r)
    if s.get("to_lower") or st.config.get("str_to_lower"):
        r = symstr.m_lower(r)
    if s.get("to_upper") or st.config.get("str_to_upper"):
        r = symstr.m_upper(r)
    if s.get("max_length") is not None and len(r) > s["max_length"]:
        raise VErr("String should have at most")
    if s.get("min_length") is not None and len(r) < s["min_length"]:
        raise VErr("String should have at least")
    if s.get("pattern") is not None:
        from . import symre
        if not bool(symre.search(s["pattern"], r)):
            raise VErr(f"String should match pattern '{s['pattern']}'")
    return r, ex


def h_complex(s, v, st):
    if _type(v) is SymComplex:
        return v, EXACT
    if _type(v) in (SymReal, SymInt):
        return SymComplex.of(v), STRICT
    if is_sym(v):
        raise Unsupported("complex from " + _type(v).__name__)
    return leaf(s, v, st, (complex,))


def h_isinst(s, v, st):
    if isinstance(v, s["cls"]):
        return v, EXACT
    raise VErr(f"Input should be an instance of {s['cls'].__name__}")


def h_enum(s, v, st):
    cls = s["cls"]
    if isinstance(v, cls) and not is_sym(v):
        return v, EXACT
    if _type(v) is SymStr:
        for m in s["members"]:
            if isinstance(m.value, str) and bool(v == m.value):
                return m, LAX
        if s.get("missing") is not None:
            raise Unsupported("enum missing")
        raise VErr("Input should be one of the members")
    if is_sym(v):
        for m in s["members"]:
            if not isinstance(m.value, str) and bool(v == m.value):
                return m, LAX
        raise VErr("Input should be one of the members")
    return leaf(s, v, st, ())


def h_list(s, v, st):
    t = _type(v)
    if t is list:
        ex = EXACT
        it = v
    elif is_sym(v):
        raise VErr("Input should be a valid list")
    elif st.strict or s.get("strict"):
        raise VErr("Input should be a valid list")
    elif t in (tuple, set, frozenset) or t in (type({}.keys()), type({}.values())) or hasattr(v, "__next__"):
        ex = LAX
        it = list(v)
    else:
        return leaf({"type": "list"}, v, st, (list,))
    items = s.get("items_schema")
    n = len(it)
    if s.get("min_length") is not None and n < s["min_length"]:
        raise VErr("List should have at least")
    if s.get("max_length") is not None and n > s["max_length"]:
        raise VErr("List should have at most")
    if items is None:
        return list(it), ex
    out, errs = [], []
    for i, x in enumerate(it):
        try:
            r, e = validate(items, x, st)
            out.append(r)
            ex = min(ex, e)
        except VErr as er:
            errs.extend(er.at(i).errs)
    if errs:
        raise VErr("", errs=errs)
    return out, ex


def h_tuple(s, v, st):
    t = _type(v)
    if t is tuple:
        ex = EXACT
    elif t is list:
        ex = LAX
    else:
        raise VErr("Input should be a valid tuple")
    items = s["items_schema"]
    vi = s.get("variadic_item_index")
    out = []
    if vi is None:
        if len(items) != len(v):
            raise VErr("tuple length")
        for a, b in zip(items, v):
            r, e = validate(a, b, st)
            out.append(r)
            ex = min(ex, e)
    else:
        for b in v:
            r, e = validate(items[vi], b, st)
            out.append(r)
            ex = min(ex, e)
    return tuple(out), ex


def h_dict(s, v, st):
    if is_sym(v) or not isinstance(v, dict):
        raise VErr("Input should be a valid dictionary")
    ks, vs = s.get("keys_schema"), s.get("values_schema")
    out = {}
    ex = EXACT
    for k, x in v.items():
        if ks is not None:
            k, e = validate(ks, k, st)
            ex = min(ex, e)
        if vs is not None:
            x, e = validate(vs, x, st)
            ex = min(ex, e)
        out[k] = x
    return out, ex


def h_union(s, v, st):
    best = None
    errs = []
    choices = [c[0] if _type(c) is tuple else c for c in s["choices"]]
    if s.get("mode") != "left_to_right" and _type(v) is SymStr and any(c["type"] == "str" for c in choices):
        # text is never an exact number: the choice of text decides when it fits
        k = next(i for i, c in enumerate(choices) if c["type"] == "str")
        if all(c["type"] in ("float", "int", "bool") for c in choices[:k]):
            try:
                r, ex = validate(choices[k], v, st)
                if ex == EXACT:
                    return r, ex
            except VErr:
                pass
    for c in choices:
        try:
            r, ex = validate(c, v, st)
        except VErr as e:
            errs.extend(e.errs)
            continue
        if s.get("mode") == "left_to_right":
            return r, ex
        if ex == EXACT:
            return r, ex
        if best is None or ex > best[1]:
            best = (r, ex)
    if best is None:
        raise VErr("", errs=errs or [((), "union")])
    return best


def _info(f, st):
    return Info(st.data if st.data is not None else {}, f.get("field_name", st.field), st.config, st.context)


def _fcall(f, v, st, *extra):
    fn = f["function"]
    if f["type"] == "with-info":
        return call(fn, v, *extra, _info(f, st))
    return call(fn, v, *extra)


def h_before(s, v, st):
    return validate(s["schema"], _fcall(s["function"], v, st), st)


def h_after(s, v, st):
    r, ex = validate(s["schema"], v, st)
    return _fcall(s["function"], r, st), ex


def h_plain(s, v, st):
    f = s["function"]
    return _fcall(f, v, st), LAX


def h_wrap(s, v, st):
    exs = []

    def handler(x, *a):
        try:
            r, e = validate(s["schema"], x, st)
        except VErr as er:
            raise make_error("wrap", er)
        exs.append(e)
        return r
    f = s["function"]
    if f["type"] == "with-info":
        r = call(f["function"], v, handler, _info(f, st))
    else:
        r = call(f["function"], v, handler)
    return r, (exs[-1] if exs else LAX)


def h_joP(s, v, st):
    return validate(s["python_schema"], v, st)


def h_los(s, v, st):
    return validate(s["strict_schema"] if st.strict else s["lax_schema"], v, st)


def h_defs(s, v, st):
    for d in s["definitions"]:
        st.defs[d["ref"]] = d
    return validate(s["schema"], v, st)


def h_ref(s, v, st):
    d = st.defs.get(s["schema_ref"])
    if d is None:
        d = GLOBAL_DEFS.get(s["schema_ref"])
    if d is None:
        raise Unsupported("definition-ref")
    return validate(d, v, st)


def h_url(s, v, st):
    if _type(v) is SymStr:
        v = symstr.force(v, "url")
    elif is_sym(v):
        raise VErr("URL input should be a string or URL")
    return leaf(s, v, st, ())


def h_chain(s, v, st):
    ex = EXACT
    for x in s["steps"]:
        v, e = validate(x, v, st)
        ex = min(ex, e)
    return v, ex


def h_literal(s, v, st):
    for e in s["expected"]:
        if bool(v == e):
            return e, EXACT
    raise VErr("literal")


def h_callable(s, v, st):
    if callable(v):
        return v, EXACT
    raise VErr("callable")


def h_leaf(s, v, st):
    if rt.deep_sym(v):
        raise Unsupported("pydantic " + s["type"])
    return leaf(s, v, st, ())


GLOBAL_DEFS = {}


def h_model(s, v, st):
    cls = s["cls"]
    si = st.self_instance
    config = s.get("config", {})
    if si is not None:
        inst, st = si, st.but(self_instance=None)
        fields, extra, fset = fields_of(s["schema"], v, st.but(config=config))
        _construct(inst, fields, extra, fset)
        _post(s, inst)
        return inst, EXACT
    if isinstance(v, cls) and not is_sym(v):
        return v, EXACT
    if s.get("custom_init"):
        if isinstance(v, dict) and not is_sym(v) and all(isinstance(k, str) for k in v):
            return call(lambda: cls(**v)), LAX
        # fall through: before validators may turn the value into a dictionary
    inst = cls.__new__(cls)
    fields, extra, fset = fields_of(s["schema"], v, st.but(config=config))
    _construct(inst, fields, extra, fset)
    _post(s, inst)
    return inst, LAX


def _construct(inst, fields, extra, fset):
    object.__setattr__(inst, "__dict__", fields)
    object.__setattr__(inst, "__pydantic_extra__", extra)
    object.__setattr__(inst, "__pydantic_fields_set__", fset)


def _post(s, inst):
    pi = s.get("post_init")
    if pi:
        call(getattr(inst, pi), None)
    elif not hasattr(inst, "__pydantic_private__") or True:
        try:
            inst.__pydantic_private__
        except AttributeError:
            object.__setattr__(inst, "__pydantic_private__", None)


def fields_of(s, v, st):
    """model-fields below before validators -> (fields, extra, set)"""
    t = s["type"]
    if t == "function-before":
        return fields_of(s["schema"], _fcall(s["function"], v, st), st)
    if t == "function-after":
        r = fields_of(s["schema"], v, st)
        return _fcall(s["function"], r, st)
    if t == "definitions":
        for d in s["definitions"]:
            st.defs[d["ref"]] = d
        return fields_of(s["schema"], v, st)
    if t != "model-fields":
        raise Unsupported("model inner " + t)
    if is_sym(v) or not isinstance(v, dict):
        raise VErr("Input should be a valid dictionary or instance of " + str(s.get("model_name")))
    by_alias = st.config.get("validate_by_alias", True)
    by_name = st.config.get("populate_by_name", False) or st.config.get("validate_by_name", False)
    out, fset, errs = {}, set(), []
    used = set()
    for name, f in s["fields"].items():
        alias = f.get("validation_alias")
        key = name
        val = PydanticUndefined
        if alias is not None:
            if type(alias) is str:
                if by_alias and alias in v:
                    key, val = alias, v[alias]
                elif by_name and name in v:
                    key, val = name, v[name]
            else:
                found = False
                for path in (alias if isinstance(alias[0], list) else [alias]):
                    if len(path) == 1 and path[0] in v:
                        key, val, found = path[0], v[path[0]], True
                        break
                if not found and by_name and name in v:
                    key, val = name, v[name]
        elif name in v:
            val = v[name]
        fst = st.but(data=out, field=name)
        if val is PydanticUndefined:
            d = find_default_top(f["schema"])
            try:
                if d is None:
                    raise VErr("Field required")
                out[name] = get_default(d, fst) if not d.get("validate_default") else validate(f["schema"], get_default(dict(d, validate_default=False), fst), fst)[0]
            except VErr as e:
                errs.extend(e.at(name).errs)
            continue
        used.add(key)
        try:
            out[name], _ = validate(f["schema"], val, fst)
            fset.add(name)
        except VErr as e:
            errs.extend(e.at(name).errs)
    extra = None
    eb = s.get("extra_behavior") or st.config.get("extra_fields_behavior") or "ignore"
    if eb == "allow":
        extra = {}
        for k, x in v.items():
            if k not in used and k not in s["fields"]:
                extra[k] = x
                fset.add(k)
            elif k not in used and k in s["fields"]:
                extra[k] = x
    elif eb == "forbid":
        for k in v:
            if k not in used:
                errs.append(((k,), "Extra inputs are not permitted"))
    if errs:
        raise VErr("", errs=errs)
    return out, extra, fset


def find_default_top(s):
    if s["type"] == "default":
        return s
    return find_default(s)


def assign_inner(s, data, name, value, st):
    t = s["type"]
    if t == "function-before":
        return assign_inner(s["schema"], _fcall(s["function"], data, st), name, value, st)
    if t == "function-after":
        r = assign_inner(s["schema"], data, name, value, st)
        return _fcall(s["function"], r, st)
    if t == "definitions":
        for d in s["definitions"]:
            st.defs[d["ref"]] = d
        return assign_inner(s["schema"], data, name, value, st)
    if t != "model-fields":
        raise Unsupported("model inner " + t)
    f = s["fields"].get(name)
    rest = dict(data)
    rest.pop(name, None)
    if f is not None:
        if f.get("frozen"):
            raise VErr("Field is frozen", (name,))
        try:
            r, _ = validate(f["schema"], value, st.but(data=rest, field=name))
        except VErr as e:
            raise e.at(name)
        data = dict(data)
        data[name] = r
    else:
        eb = s.get("extra_behavior") or st.config.get("extra_fields_behavior") or "ignore"
        if eb != "allow":
            raise VErr(f"Object has no attribute '{name}'", (name,))
        data = dict(data)
        data[name] = value
    fields, extra = {}, {}
    for k, x in data.items():
        (fields if k in s["fields"] else extra)[k] = x
    eb = s.get("extra_behavior") or st.config.get("extra_fields_behavior") or "ignore"
    return fields, (extra if eb == "allow" else None), {name}


def assign(s, model, name, value, st):
    t = s["type"]
    if t == "model":
        config = s.get("config", {})
        data = dict(model.__dict__)
        if model.__pydantic_extra__:
            data.update(model.__pydantic_extra__)
        data[name] = value
        fields, extra, fset = assign_inner(s["schema"], data, name, value, st.but(config=config))
        model.__pydantic_fields_set__.update(fset)
        object.__setattr__(model, "__dict__", fields)
        object.__setattr__(model, "__pydantic_extra__", extra)
        return model
    if t == "function-after":
        r = assign(s["schema"], model, name, value, st)
        return _fcall(s["function"], r, st)
    if t == "function-before":
        return assign(s["schema"], _fcall(s["function"], model, st), name, value, st)
    if t == "definitions":
        for d in s["definitions"]:
            st.defs[d["ref"]] = d
        return assign(s["schema"], model, name, value, st)
    if t == "definition-ref":
        d = st.defs.get(s["schema_ref"]) or GLOBAL_DEFS.get(s["schema_ref"])
        return assign(d, model, name, value, st)
    raise Unsupported("assign " + t)


HANDLERS = {
    "any": h_any, "none": h_none, "nullable": h_nullable, "default": h_default, "float": h_float, "int": h_int,
    "bool": h_bool, "str": h_str, "complex": h_complex, "is-instance": h_isinst, "enum": h_enum, "list": h_list,
    "tuple": h_tuple, "dict": h_dict, "ordered-dict": h_dict, "union": h_union, "function-before": h_before,
    "function-after": h_after, "function-plain": h_plain, "function-wrap": h_wrap, "json-or-python": h_joP,
    "lax-or-strict": h_los, "definitions": h_defs, "definition-ref": h_ref, "url": h_url, "multi-host-url": h_url,
    "model": h_model, "chain": h_chain, "literal": h_literal, "callable": h_callable, "date": h_leaf, "datetime": h_leaf,
}


def make_error(title, e):
    items = []
    for loc, msg in e.errs[:8]:
        items.append({"type": PydanticCustomError("symx", "{m}", {"m": str(msg)[:200]}), "loc": loc, "input": None})
    return ValidationError.from_exception_data(title, items)


class Validator:
    """stands in for cls.__pydantic_validator__"""

    def __init__(self, real, cls):
        self.real = real
        self.cls = cls
        self.schema = cls.__pydantic_core_schema__

    def __getattr__(self, n):
        return getattr(self.real, n)

    def validate_python(self, data, *a, self_instance=None, **k):
        if not core.active() or not (rt.deep_sym(data, 6) or FORCE):
            STATS["real"] += 1
            return self.real.validate_python(data, *a, self_instance=self_instance, **k)
        STATS["interpreted"] += 1
        st = St(self_instance=self_instance, context=k.get("context"))
        try:
            return validate(self.schema, data, st)[0]
        except VErr as e:
            raise make_error(self.cls.__name__, e)

    def validate_assignment(self, model, name, value, *a, **k):
        if not core.active() or not (rt.deep_sym(value, 6) or FORCE or _model_sym(model)):
            STATS["real"] += 1
            return self.real.validate_assignment(model, name, value, *a, **k)
        STATS["interpreted"] += 1
        try:
            return assign(self.schema, model, name, value, St())
        except VErr as e:
            raise make_error(self.cls.__name__, e)


FORCE = False


def _model_sym(m):
    for v in m.__dict__.values():
        if is_sym(v):
            return True
    return False


def subclasses(c):
    for s in c.__subclasses__():
        yield s
        yield from subclasses(s)


def _collect(s, seen):
    if isinstance(s, dict):
        if id(s) in seen:
            return
        seen.add(id(s))
        if "ref" in s and "type" in s and isinstance(s["ref"], str):
            GLOBAL_DEFS.setdefault(s["ref"], s)
        for k, v in s.items():
            if k not in ("metadata", "default", "cls", "function"):
                _collect(v, seen)
    elif isinstance(s, (list, tuple)):
        for v in s:
            _collect(v, seen)


def wrap_class(c):
    if "__pydantic_validator__" in c.__dict__ and type(c.__dict__["__pydantic_validator__"]) is not Validator:
        if not c.__pydantic_complete__:
            c.model_rebuild()
        _collect(c.__pydantic_core_schema__, set())
        c.__pydantic_validator__ = Validator(c.__pydantic_validator__, c)


def memo_crs():
    """pyproj.CRS.from_user_input is a pure function of a text or number and slow: remember its results"""
    try:
        import pyproj
    except ImportError:
        return
    orig = pyproj.CRS.from_user_input
    cache = {}

    def from_user_input(value, **k):
        if type(value) in (str, int) and not k:
            if value not in cache:
                cache[value] = orig(value)
            return cache[value]
        return orig(value, **k)
    pyproj.CRS.from_user_input = staticmethod(from_user_input)


def wrap_all():
    memo_crs()
    for c in dict.fromkeys(subclasses(BaseModel)):
        if c.__module__.startswith("mt_metadata"):
            wrap_class(c)
