"""symx core: path exploration by re-execution and symbolic proxy values (z3).

A *path* is one execution of a harness.  Proxies carry z3 terms through the real code; every
time the code asks for the truth of a symbolic condition the path records a decision.  The
explorer re-executes the harness with every feasible decision prefix.
"""
import builtins
import math
import os
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

_isinstance = builtins.isinstance
_type = builtins.type


# --------------------------------------------------------------------------- control flow
class EngineSignal(BaseException):
    """never caught by `except Exception` of the code under test"""


class Infeasible(EngineSignal):
    pass


class Unsupported(EngineSignal):
    pass


class Budget(EngineSignal):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.decisions = 0


STATS = Stats()


class Path:
    def __init__(self, prefix, timeout_ms=3000, deadline=None):
        self.prefix = prefix
        self.trace = []          # (decision, forced)
        self.pending = []        # alternative prefixes discovered on this path
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.timeout_ms = timeout_ms
        self.model = None        # a model of the current path condition, if known
        self.inputs = []         # (name, kind, proxy/term)
        self.concretised = []    # descriptions of values that were concretised
        self.labels = []         # labels of checks reached
        self.violations = []
        self.inconclusive = []
        self.discharged = 0
        self.memo = {}           # per path memo of auxiliary terms
        self.deadline = deadline
        self.fresh = 0
        self.facts = []          # (assertion, names in it), for slicing
        self.names = {}
        self.uf_apps = {}
        self.sin2 = {}           # sine -> cosine of the same angle
        self.sqrt_of = {}        # name -> list of (arg, value)
        self.max_decisions = 4000
        self.over_approx = False

    # -- solver access
    def _check(self, *assumps, timeout=None):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("time")
        t = time.time()
        if timeout:
            self.solver.set("timeout", timeout)
        r = self.solver.check(*assumps)
        if timeout:
            self.solver.set("timeout", self.timeout_ms)
        STATS.queries += 1
        STATS.solver_s += time.time() - t
        if r == z3.unknown:
            STATS.unknown += 1
        return r

    def slice(self, term):
        """the asserted facts that share unknowns with the term, directly or through one another"""
        facts = self.solver.assertions()
        n = len(facts)
        if n < 24:
            return None
        known = self.facts
        if n < len(known):
            del known[n:]
        for i in range(len(known), n):
            f = facts[i]
            known.append((f, names_in(f, self.names)))
        by = {}
        for i, (f, vs) in enumerate(known):
            for v in vs:
                by.setdefault(v, []).append(i)
        todo, seen, taken = list(names_in(term, self.names)), set(), set()
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            for i in by.get(v, ()):
                if i not in taken:
                    taken.add(i)
                    todo.extend(known[i][1] - seen)
        if len(taken) * 10 > n * 8:
            return None
        return [known[i][0] for i in sorted(taken)]

    def _check_goal(self, term, timeout=None):
        """check(term); facts about other unknowns are left out first: if the rest excludes the term, so do all"""
        part = self.slice(term)
        if part is not None:
            if self.deadline is not None and time.time() > self.deadline:
                raise Budget("time")
            t = time.time()
            s = z3.Solver()
            s.set("timeout", timeout or self.timeout_ms)
            s.add(*part)
            r = s.check(term)
            STATS.queries += 1
            STATS.solver_s += time.time() - t
            if r == z3.unsat:
                return r
        return self._check(term, timeout=timeout)

    def _check_side(self, term):
        """is the other side of a branch feasible (the path itself is)?  The facts about other unknowns do not matter"""
        part = self.slice(term)
        if part is None:
            return self._check(term)
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget("time")
        t = time.time()
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.add(*part)
        r = s.check(term)
        STATS.queries += 1
        STATS.solver_s += time.time() - t
        if r == z3.unknown:
            STATS.unknown += 1
        return r

    def assume(self, term):
        self.solver.add(term)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(term, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def decide(self, term):
        """truth of a z3 Bool on this path; forks."""
        term = z3.simplify(term)
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        STATS.decisions += 1
        i = len(self.trace)
        if i > self.max_decisions:
            raise Budget("decisions")
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.solver.add(term if d else z3.Not(term))
            self.model = None
            return d
        can_t = can_f = None
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise Infeasible()
        if self.model is not None:
            v = self.model.eval(term, model_completion=True)
            if z3.is_true(v):
                can_t = True
            elif z3.is_false(v):
                can_f = True
        if can_t is None:
            r = self._check(term)
            can_t = r != z3.unsat
            if r == z3.unknown:
                self.over_approx = True
            if r == z3.sat:
                model_t = self.solver.model()
            else:
                model_t = None
        else:
            model_t = self.model
        if can_f is None:
            r = self._check_goal(z3.Not(term)) if not can_t else self._check_side(z3.Not(term))
            can_f = r != z3.unsat
            if r == z3.unknown:
                self.over_approx = True
            model_f = self.solver.model() if r == z3.sat and not can_t else None
        else:
            model_f = self.model
        if not can_t and not can_f:
            raise Infeasible()
        if can_t:
            if can_f:
                self.pending.append(list(self.trace) + [False])
            self.trace.append(True)
            self.solver.add(term)
            self.model = model_t
            return True
        self.trace.append(False)
        self.solver.add(z3.Not(term))
        self.model = model_f
        return False

    def split(self, n):
        """n-ary case split"""
        i = len(self.trace)
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            k = 0
            for q in range(n - 1, 0, -1):
                self.pending.append(list(self.trace) + [q])
        if n > 1:
            STATS.decisions += 1
        self.trace.append(k)
        return k

    def record(self, fn):
        """a value chosen once and reproduced when the path is re-executed"""
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = fn()
        self.trace.append(v)
        return v

    def get_model(self):
        if self.model is None:
            r = self._check(timeout=max(self.timeout_ms, 8000))
            if r == z3.unsat:
                raise Infeasible()
            if r != z3.sat:
                return None
            self.model = self.solver.model()
        return self.model

    def fresh_name(self, base):
        self.fresh += 1
        return f"{base}!{self.fresh}"


def names_in(t, memo):
    """the unknowns (constants and functions without a meaning of their own) in a term"""
    k = t.get_id()
    got = memo.get(k)
    if got is not None:
        return got[1]
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.get_id())
            todo.extend(x.children())
    memo[k] = (t, out)
    return out


_current = None


def cur():
    if _current is None:
        raise RuntimeError("no active symbolic path")
    return _current


def active():
    return _current is not None


def _set_current(p):
    global _current
    _current = p


# --------------------------------------------------------------------------- constants
_frac_cache = {}


def to_frac(x):
    """exact decimal meaning of a python number"""
    if _isinstance(x, Fraction):
        return x
    if _type(x) is int or _type(x) is bool:
        return Fraction(int(x))
    if hasattr(x, "item") and _type(x).__module__ == "numpy":
        x = x.item()
        if _type(x) in (int, bool):
            return Fraction(int(x))
    x = float(x)
    f = _frac_cache.get(x)
    if f is None:
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported("non finite constant in symbolic arithmetic")
        f = Fraction(repr(x))
        if len(_frac_cache) < 100000:
            _frac_cache[x] = f
    return f


def real_val(x):
    f = to_frac(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)


def is_num(x):
    return _type(x) in (int, float, bool, Fraction) or (
        _type(x).__module__ == "numpy" and hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0
        and x.dtype.kind in "iufb" and not _isinstance(x, _ndarray()))


_nd = None


def _ndarray():
    global _nd
    if _nd is None:
        import numpy
        _nd = numpy.ndarray
    return _nd


def is_cplx(x):
    return _type(x) is complex or _type(x).__name__ in ("complex128", "complex64")


class Sym:
    """base of all proxies"""
    __slots__ = ()
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def is_sym(x):
    return _isinstance_raw(x, Sym)


def _isinstance_raw(x, c):
    return issubclass(_type(x), c)


# --------------------------------------------------------------------------- Bool
class SymBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return cur().decide(self.t)

    def __repr__(self):
        return f"<SymBool {self.t}>"

    def __str__(self):
        return "True" if self else "False"

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def as_num(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __invert__(self):  # numpy style; code under test uses ~ only on arrays
        return SymBool(z3.Not(self.t))

    def logical_not(self):
        return SymBool(z3.Not(self.t))

    def __and__(self, o):
        if _type(o) is SymBool:
            return SymBool(z3.And(self.t, o.t))
        if _type(o) is bool or _type(o).__name__ in ("bool_", "bool"):
            return self if o else False
        return self.as_num() & o

    __rand__ = __and__

    def __or__(self, o):
        if _type(o) is SymBool:
            return SymBool(z3.Or(self.t, o.t))
        if _type(o) is bool or _type(o).__name__ in ("bool_", "bool"):
            return True if o else self
        return self.as_num() | o

    __ror__ = __or__

    def __xor__(self, o):
        if _type(o) is SymBool:
            return SymBool(z3.Xor(self.t, o.t))
        if _type(o) is bool:
            return SymBool(z3.Not(self.t)) if o else self
        return NotImplemented

    __rxor__ = __xor__

    def __eq__(self, o):
        if _type(o) is SymBool:
            return SymBool(self.t == o.t)
        if _type(o) is bool:
            return SymBool(self.t if o else z3.Not(self.t))
        if _type(o) in (SymInt, SymReal) or is_num(o):
            return self.as_num() == o
        if _isinstance(o, _ndarray()):
            return NotImplemented
        return False

    def __ne__(self, o):
        if _np_wrap(o) and o.ndim > 0:
            return _elementwise(o, lambda v: self != v)
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    # numeric behaviour
    def __add__(self, o): return self.as_num() + o
    def __radd__(self, o): return o + self.as_num()
    def __sub__(self, o): return self.as_num() - o
    def __rsub__(self, o): return o - self.as_num()
    def __mul__(self, o): return self.as_num() * o
    def __rmul__(self, o): return o * self.as_num()
    def __lt__(self, o): return self.as_num() < o
    def __le__(self, o): return self.as_num() <= o
    def __gt__(self, o): return self.as_num() > o
    def __ge__(self, o): return self.as_num() >= o
    def __neg__(self): return -self.as_num()

    def __format__(self, spec):
        return format(bool(self), spec)


def sym_not(r):
    if _type(r) is SymBool:
        return SymBool(z3.Not(r.t))
    return not r


def boolterm(x):
    """z3 term of a truth value without forking when possible"""
    if _type(x) is SymBool:
        return x.t
    if _type(x) in (SymInt, SymReal):
        return x.t != 0
    return z3.BoolVal(bool(x))


# --------------------------------------------------------------------------- numbers
def _lift(o):
    """python number / proxy -> SymInt|SymReal or None"""
    t = _type(o)
    if t in (SymInt, SymReal):
        return o
    if t is SymBool:
        return o.as_num()
    if t is int or t is bool:
        return SymInt(z3.IntVal(int(o)))
    if is_num(o):
        if hasattr(o, "dtype") and o.dtype.kind in "iub":
            return SymInt(z3.IntVal(int(o)))
        if o != o or o in (math.inf, -math.inf):
            return None
        return SymReal(real_val(o))
    return None


def _nonfinite(o):
    return is_num(o) and (o != o or o in (math.inf, -math.inf))


def _rt(x):
    """real term of SymInt/SymReal"""
    if _type(x) is SymReal:
        return x.t
    return z3.ToReal(x.t)


def _np_wrap(o):
    return _isinstance_raw(o, _ndarray())


def _sqrt_any():
    return active() and bool(cur().sqrt_of)


def _elementwise(arr, f):
    import numpy as np
    out = np.empty(arr.shape, dtype=object)
    of, af = out.reshape(-1), arr.reshape(-1)
    for i in range(af.size):
        of[i] = f(af[i].item() if hasattr(af[i], "item") and not is_sym(af[i]) else af[i])
    return out


def num_bin(a, b, op, refl):
    import operator as _o
    f = {"+": _o.add, "-": _o.sub, "*": _o.mul, "/": _o.truediv, "//": _o.floordiv, "%": _o.mod, "**": _o.pow}[op]
    return f(b, a) if refl else f(a, b)


class SymNum(Sym):
    __slots__ = ("t", "ang")

    def __init__(self, t, ang=None):
        self.t = t
        self.ang = ang

    def __repr__(self):
        return f"<{_type(self).__name__} {self.t}>"

    # -- comparisons
    def _cmp(self, o, op):
        if _np_wrap(o) and o.ndim > 0:
            return _elementwise(o, lambda v: self._cmp(v, op))
        if _np_wrap(o):
            o = o.item()
        if _nonfinite(o):
            if o != o:
                return op == "ne"
            pos = o > 0
            return {"lt": pos, "le": pos, "gt": not pos, "ge": not pos, "eq": False, "ne": True}[op]
        if is_cplx(o):
            o = SymComplex.of(o)
        if _type(o) is SymComplex:
            if op == "eq":
                return SymComplex.of(self) == o
            if op == "ne":
                return SymComplex.of(self) != o
            raise TypeError("no ordering for complex")
        b = _lift(o)
        if b is None:
            if op == "eq":
                return False if not hasattr(o, "__sym_eq__") else o.__sym_eq__(self)
            if op == "ne":
                return True
            return NotImplemented
        if _type(self) is SymInt and _type(b) is SymInt:
            x, y = self.t, b.t
        else:
            x, y = _rt(self), _rt(b)
            if _sqrt_any():
                q = cur().sqrt_of
                if x.get_id() in q and y.get_id() in q:
                    # square roots of nonnegative numbers compare as the numbers
                    x, y = q[x.get_id()][1], q[y.get_id()][1]
        t = {"lt": lambda: x < y, "le": lambda: x <= y, "gt": lambda: x > y,
             "ge": lambda: x >= y, "eq": lambda: x == y, "ne": lambda: x != y}[op]()
        return SymBool(z3.simplify(t))

    def __lt__(self, o): return self._cmp(o, "lt")
    def __le__(self, o): return self._cmp(o, "le")
    def __gt__(self, o): return self._cmp(o, "gt")
    def __ge__(self, o): return self._cmp(o, "ge")
    def __eq__(self, o): return self._cmp(o, "eq")
    def __ne__(self, o): return self._cmp(o, "ne")

    def __bool__(self):
        return cur().decide(self.t != 0)

    # -- arithmetic
    def _bin(self, o, op, refl=False):
        if _np_wrap(o) and o.ndim > 0:
            return _elementwise(o, lambda v: num_bin(self, v, op, refl))
        if _np_wrap(o):
            o = o.item()
        if is_cplx(o) or _type(o) is SymComplex:
            a, b = SymComplex.of(self), SymComplex.of(o)
            if refl:
                a, b = b, a
            return a._bin(b, op)
        if _nonfinite(o):
            raise Unsupported("non finite arithmetic")
        b = _lift(o)
        if b is None:
            return NotImplemented
        a = self
        if refl:
            a, b = b, a
        return num_op(a, b, op)

    def __add__(self, o): return self._bin(o, "+")
    def __radd__(self, o): return self._bin(o, "+", True)
    def __sub__(self, o): return self._bin(o, "-")
    def __rsub__(self, o): return self._bin(o, "-", True)
    def __mul__(self, o): return self._bin(o, "*")
    def __rmul__(self, o):
        if _type(o) in (list, str, tuple):
            return o * self.__index__()
        return self._bin(o, "*", True)
    def __truediv__(self, o): return self._bin(o, "/")
    def __rtruediv__(self, o): return self._bin(o, "/", True)
    def __floordiv__(self, o): return self._bin(o, "//")
    def __rfloordiv__(self, o): return self._bin(o, "//", True)
    def __mod__(self, o): return self._bin(o, "%")
    def __rmod__(self, o): return self._bin(o, "%", True)
    def __pow__(self, o): return self._bin(o, "**")
    def __rpow__(self, o): return self._bin(o, "**", True)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        ang = None if self.ang is None else ({k: -v for k, v in self.ang[0].items()}, -self.ang[1])
        return _type(self)(-self.t, ang)

    def __pos__(self):
        return self

    def __abs__(self):
        return _type(self)(z3.If(self.t >= 0, self.t, -self.t))

    # numpy object-array hooks
    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0 if _type(self) is SymInt else 0.0

    def sqrt(self):
        return sym_sqrt(self)

    def exp(self):
        return sym_exp(self)

    def cos(self):
        return sym_cos(self)

    def sin(self):
        return sym_sin(self)

    def tan(self):
        return sym_sin(self) / sym_cos(self)

    def log(self):
        return sym_uf("LOG", self)

    def log10(self):
        r = sym_uf("LOG", self)
        if _const_of(r) is None:
            # the decade: 10^k <= x exactly when k <= log10(x)
            p, a, ten = cur(), z3.simplify(_rt(self)), real_val(math.log(10))
            if ("log10", a.get_id()) not in p.memo:
                p.memo[("log10", a.get_id())] = a
                for k in range(-15, 16):
                    d = z3.RealVal(Fraction(10) ** k)
                    p.assume(z3.And(z3.Implies(a >= d, r.t >= k * ten), z3.Implies(a < d, r.t < k * ten)))
        return r / math.log(10)

    def tanh(self):
        return sym_tanh(self)

    def arctan(self):
        return sym_uf("ATAN", self)

    def arctan2(self, o):
        return sym_atan2(self, o)

    def arccos(self):
        return sym_uf("ACOS", self)

    def deg2rad(self):
        return self * math.pi / 180

    radians = deg2rad

    def rad2deg(self):
        return self * 180 / math.pi

    degrees = rad2deg

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    def item(self):
        return self

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return self.ceil()

    def __trunc__(self):
        return trunc_int(self)

    def floor(self):
        if _type(self) is SymInt:
            return self
        return SymInt(z3.ToInt(self.t))

    def ceil(self):
        if _type(self) is SymInt:
            return self
        return SymInt(-z3.ToInt(-self.t))

    def is_integer(self):
        if _type(self) is SymInt:
            return True
        return SymBool(z3.IsInt(self.t))

    def __round__(self, nd=None):
        return sym_round(self, nd)

    def rint(self):
        return sym_round(self, None)

    def round(self, nd=0):
        return sym_round(self, nd)

    def __format__(self, spec):
        from . import rt
        return rt.concrete_str(rt.format_num(self, spec))


class SymInt(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __index__(self):
        return enum_int(self)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __str__(self):
        return str(self.__index__())

    def __and__(self, o):
        return self.__index__() & int(o)

    __rand__ = __and__

    def bit_length(self):
        return self.__index__().bit_length()

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1


class SymReal(SymNum):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def __float__(self):
        return concretise(self, "float()")

    def __int__(self):
        return trunc_int(self).__index__()

    def __hash__(self):
        # as a set or dict key: equal to nought or to a key seen before, or another value
        seen = cur().memo.setdefault("hashed", [])
        if not is_rational(self):
            if bool(self == 0):
                return hash(0.0)
            for s, v in seen:
                if bool(self == s):
                    return hash(v)
        v = concretise(self, "hash")
        seen.append((self, v))
        return hash(v)

    def __str__(self):
        return str(concretise(self, "str"))


def trunc_int(x):
    if _type(x) is SymInt:
        return x
    return SymInt(z3.If(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)))


def sym_round(x, nd=None):
    if nd is not None:
        nd = int(nd)
    if _type(x) is SymInt and (nd is None or nd >= 0):
        return x
    t = _rt(x)
    if nd:
        t = t * real_val(Fraction(10) ** nd)
    # round half even
    fl = z3.ToInt(t)
    frac = t - z3.ToReal(fl)
    half = z3.Q(1, 2)
    r = z3.If(frac < half, fl, z3.If(frac > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
    if nd is None:
        return SymInt(r)
    rr = z3.ToReal(r)
    if nd:
        rr = rr / real_val(Fraction(10) ** nd)
    return SymReal(rr)


def _ang_add(a, b, sb):
    d = dict(a[0])
    for k, v in b[0].items():
        d[k] = d.get(k, 0) + sb * v
    return ({k: v for k, v in d.items() if v}, a[1] + sb * b[1])


def _const_of(x):
    s = z3.simplify(x.t)
    if z3.is_int_value(s):
        return Fraction(s.as_long())
    if z3.is_rational_value(s):
        return Fraction(s.numerator_as_long(), s.denominator_as_long())
    return None


def _ang_of(x):
    """angle decomposition in DEGREES-agnostic units: {base: coeff}, const"""
    if x.ang is not None:
        return x.ang
    c = _const_of(x)
    if c is not None:
        return ({}, c)
    return None


def num_op(a, b, op):
    both_int = _type(a) is SymInt and _type(b) is SymInt
    if op in "+-*" and len(op) == 1:
        ang = None
        if a.ang is not None or b.ang is not None:
            aa, bb = _ang_of(a), _ang_of(b)
            if aa is not None and bb is not None:
                if op == "+":
                    ang = _ang_add(aa, bb, 1)
                elif op == "-":
                    ang = _ang_add(aa, bb, -1)
                else:
                    if not bb[0]:
                        ang = ({k: v * bb[1] for k, v in aa[0].items()}, aa[1] * bb[1])
                    elif not aa[0]:
                        ang = ({k: v * aa[1] for k, v in bb[0].items()}, bb[1] * aa[1])
        if both_int:
            x, y, K = a.t, b.t, SymInt
        else:
            x, y, K = _rt(a), _rt(b), SymReal
        t = x + y if op == "+" else x - y if op == "-" else x * y
        return K(z3.simplify(t), ang)
    if op == "/":
        y = _rt(b)
        nonzero(b)
        ang = None
        if a.ang is not None:
            bc = _const_of(b)
            if bc:
                ang = ({k: v / bc for k, v in a.ang[0].items()}, a.ang[1] / bc)
        return SymReal(z3.simplify(_rt(a) / y), ang)
    if op in ("//", "%"):
        nonzero(b)
        if both_int:
            c = _const_of(b)
            if c is not None and c > 0:
                q = a.t / b.t
                return SymInt(z3.simplify(q)) if op == "//" else SymInt(z3.simplify(a.t % b.t))
            q = z3.ToInt(z3.ToReal(a.t) / z3.ToReal(b.t))
            return SymInt(q) if op == "//" else SymInt(a.t - q * b.t)
        x, y = _rt(a), _rt(b)
        q = z3.ToReal(z3.ToInt(x / y))
        # a remainder of whole turns points the same way
        return SymReal(q) if op == "//" else SymReal(x - q * y, a.ang if _const_of(b) == 360 else None)
    if op == "**":
        e = _const_of(b)
        if e is None:
            bc = _const_of(a)
            if bc is not None and _type(b) is SymInt:
                n = b.__index__()
                v = bc ** n
                return SymReal(real_val(v)) if not both_int or n < 0 else SymInt(z3.IntVal(int(v)))
            if bc is not None:
                return sym_exp(SymReal(_rt(b) * real_val(math.log(float(bc)))))
            if _type(b) is SymInt:
                n = b.__index__()
                return num_op(a, SymInt(z3.IntVal(n)), "**")
            return sym_uf2("POW", a, b)
        if e.denominator == 1:
            n = abs(e.numerator)
            if n > 64:
                raise Unsupported("large power")
            one = SymInt(z3.IntVal(1)) if both_int and e >= 0 else SymReal(z3.RealVal(1))
            r = one
            for _ in range(n):
                r = num_op(r, a, "*")
            if e < 0:
                r = num_op(SymReal(z3.RealVal(1)), r, "/")
            return r
        if e.denominator == 2:
            r = sym_sqrt(a)
            return num_op(r, SymInt(z3.IntVal(e.numerator)), "**")
        return sym_uf2("POW", a, b)
    raise Unsupported(op)


def nonzero(b):
    c = _const_of(b)
    if c is not None:
        if c == 0:
            raise ZeroDivisionError("division by zero")
        return
    if cur().decide(b.t == 0):
        cur().memo["zerodiv"] = True
        raise ZeroDivisionError("division by zero")


# -- transcendental functions: uninterpreted with instance axioms
_UF = {}


def _uf(name, n=1):
    f = _UF.get((name, n))
    if f is None:
        f = z3.Function(name, *([z3.RealSort()] * (n + 1)))
        _UF[(name, n)] = f
    return f


_MONO = {"EXP", "LOG", "ATAN", "TANH", "ERF"}


def sym_uf(name, x):
    c = _const_of(x)
    if c is not None:
        fx = {"EXP": math.exp, "LOG": math.log, "ATAN": math.atan, "COS": math.cos, "SIN": math.sin,
              "TANH": math.tanh, "ACOS": math.acos}.get(name)
        if fx is not None:
            try:
                return SymReal(real_val(fx(float(c))))
            except (ValueError, OverflowError):
                raise Unsupported(f"{name} domain")
    p = cur()
    a = z3.simplify(_rt(x))
    apps = p.uf_apps.setdefault(name, [])
    for (b, v) in apps:
        if a.eq(b):
            return SymReal(v)
    v = _uf(name)(a)
    if name == "LOG":
        if not p.decide(a > 0):
            raise ValueError("math domain error")
    if name == "EXP":
        p.assume(v > 0)
        p.assume(z3.And(z3.Implies(a <= 0, v <= 1), z3.Implies(a >= 0, v >= 1),
                        z3.Implies(a > 0, v > 1), z3.Implies(a < 0, v < 1), v >= 1 + a))
    if name == "TANH":
        p.assume(z3.And(v > -1, v < 1, z3.Implies(a >= 0, v >= 0), z3.Implies(a <= 0, v <= 0)))
    if name in _MONO:
        for (b, w) in apps:
            p.assume(z3.And(z3.Implies(a < b, v < w), z3.Implies(a > b, v > w), z3.Implies(a == b, v == w)))
    apps.append((a, v))
    return SymReal(v)


def sym_uf2(name, x, y):
    return SymReal(_uf(name, 2)(_rt(x), _rt(y)))


def sym_exp(x):
    if _type(x) is SymComplex:
        e = 1.0 if is_num(x.re) and x.re == 0 else None
        if e is None:
            lr = _lift(x.re)
            c = _const_of(lr)
            e = 1.0 if c == 0 else sym_exp(lr)
        im = _lift(x.im)
        return SymComplex(sym_cos(im), sym_sin(im)) * e
    return sym_uf("EXP", x)


def sym_tanh(x):
    return sym_uf("TANH", x)


_PI = Fraction(repr(math.pi))


def _trig_base(key, mult):
    """cos/sin of mult * (angle named key); all angles in radians internally"""
    p = cur()
    m = p.memo.get(("trig", key))
    if m is None:
        c, s = z3.Real(f"cos({key})"), z3.Real(f"sin({key})")
        p.assume(c * c + s * s == 1)
        p.assume(z3.And(c >= -1, c <= 1, s >= -1, s <= 1))
        m = p.memo[("trig", key)] = (c, s)
        p.sin2[s.get_id()] = (s, c)
    c, s = m
    n = abs(mult)
    cc, ss = z3.RealVal(1), z3.RealVal(0)
    for _ in range(n):
        cc, ss = cc * c - ss * s, ss * c + cc * s
    if mult < 0:
        ss = -ss
    return cc, ss


def _trig(x):
    """(cos, sin) terms of SymNum"""
    if x.ang is not None and x.ang[0]:
        # ang bases are degrees; value handed to cos is radians -> coefficients multiply pi/180
        ok = []
        for k, v in x.ang[0].items():
            m = v * 180 / _PI
            if abs(m - round(m)) > Fraction(1, 10**9) or abs(m) > 6:
                ok = None
                break
            ok.append((k, round(m)))
        if ok is not None:
            d = float(x.ang[1])  # radians
            deg = math.degrees(d)
            if abs(deg / 90 - round(deg / 90)) < 1e-9:
                q = int(round(deg / 90)) % 4
                c, s = [(1, 0), (0, 1), (-1, 0), (0, -1)][q]
                c, s = z3.RealVal(c), z3.RealVal(s)
            else:
                c, s = real_val(math.cos(d)), real_val(math.sin(d))
            for k, m in ok:
                c2, s2 = _trig_base(k, m)
                c, s = c * c2 - s * s2, s * c2 + c * s2
            return z3.simplify(c), z3.simplify(s)
    c0 = _const_of(x)
    if c0 is not None:
        return real_val(math.cos(float(c0))), real_val(math.sin(float(c0)))
    p = cur()
    a = z3.simplify(_rt(x))
    apps = p.uf_apps.setdefault("TRIG", [])
    for (b, cs) in apps:
        if a.eq(b):
            return cs
        if z3.simplify(a + b).eq(z3.RealVal(0)):
            return cs[0], -cs[1]
    hard = nonlinear(a)
    if apps:
        memo = p.memo.setdefault("trig_terms", ({}, {}))
        for (b, cs) in apps:
            g = near_ratio(a, b, memo)
            if g:
                return (cs[0], cs[1]) if g > 0 else (cs[0], -cs[1])
    c, s = _uf("COS")(a), _uf("SIN")(a)
    p.sin2[s.get_id()] = (s, c)
    p.assume(c * c + s * s == 1)
    for (b, cs) in apps:
        if hard or nonlinear(b):
            continue
        p.assume(z3.Implies(a == b, z3.And(c == cs[0], s == cs[1])))
        p.assume(z3.Implies(a == -b, z3.And(c == cs[0], s == -cs[1])))
    p.assume(z3.Implies(a == 0, z3.And(c == 1, s == 0)))
    if p.memo.get("trig_facts"):
        pi = real_val(math.pi)
        p.assume(z3.And(c >= -1, c <= 1, s >= -1, s <= 1))
        p.assume(z3.Implies(a == pi, z3.And(c == -1, s == 0)))
        p.assume(z3.Implies(a == pi / 2, z3.And(c == 0, s == 1)))
        p.assume(z3.Implies(z3.And(a >= 0, a <= pi), s >= 0))
        for (b, cs) in apps:
            p.assume(z3.Implies(z3.And(a >= 0, b >= 0, a <= pi, b <= pi),
                                z3.And(z3.Implies(a < b, c > cs[0]), z3.Implies(a > b, c < cs[0]), z3.Implies(a == b, c == cs[0]))))
            for x, cx, sx, y, cy, sy in ((a, c, s, b, *cs), (b, *cs, a, c, s)):
                if near_ratio(x, 2 * y, p.memo.setdefault("trig_terms", ({}, {}))) == 1:
                    p.assume(z3.And(cx == 2 * cy * cy - 1, sx == 2 * sy * cy))
    apps.append((a, (c, s)))
    return c, s


def sym_cos(x):
    return SymReal(_trig(x)[0])


def sym_sin(x):
    return SymReal(_trig(x)[1])


def sym_atan2(y, x):
    y, x = _lift(y), _lift(x)
    p = cur()
    if not p.memo.get("angle_facts"):
        return SymReal(_uf("ATAN2", 2)(_rt(y), _rt(x)))
    a, b = z3.simplify(_rt(y)), z3.simplify(_rt(x))
    apps = p.uf_apps.setdefault("ATAN2", [])
    for (a2, b2, r) in apps:
        if a.eq(a2) and b.eq(b2):
            return r
    name = p.fresh_name("atan2")
    v = z3.Real(name)
    c, s = _trig_base(name, 1)
    r = _rt(sym_sqrt(y * y + x * x))
    pi = real_val(_PI)
    p.assume(z3.And(r * c == b, r * s == a, v > -pi, v <= pi, z3.Implies(z3.And(a == 0, b == 0), z3.And(v == 0, c == 1, s == 0)),
                    (v > 0) == z3.Or(s > 0, z3.And(s == 0, c < 0)), (v == 0) == z3.And(s == 0, c > 0),
                    z3.Implies(c >= 0, z3.And(v >= -pi / 2, v <= pi / 2))))
    for (_, _, q) in apps:
        w, (cw, sw) = q.t, _trig(q)
        p.assume(z3.Implies(z3.And(c == cw, s == sw), v == w))
    for n, kind, k in p.inputs:
        if kind == "angle":
            d, ck, sk = k
            p.assume(z3.Implies(z3.And(c == ck, s == sk, d > -180, d <= 180), v == d * real_val(_PI / 180)))
    out = SymReal(v, ({name: _PI / 180}, Fraction(0)))
    apps.append((a, b, out))
    return out


def sym_sqrt(x):
    if _type(x) is SymComplex:
        raise Unsupported("complex sqrt")
    x = _lift(x)
    c = _const_of(x)
    if c is not None:
        if c < 0:
            raise ValueError("math domain error")
        return SymReal(real_val(math.sqrt(c)))
    p = cur()
    a = z3.simplify(_rt(x))
    for (b, v) in p.uf_apps.setdefault("SQRT", []):
        if a.eq(b):
            return SymReal(v)
    if p.memo.get("trust_roots") or evident_nonneg(a, p):
        p.assume(a >= 0)
    elif p.decide(a < 0):
        raise ValueError("math domain error")
    v = z3.Real(p.fresh_name("sqrt"))
    p.assume(z3.And(v >= 0, v * v == a))
    p.uf_apps["SQRT"].append((a, v))
    p.sqrt_of[v.get_id()] = (v, a)
    return SymReal(v)


def settled(x):
    """a number whose normal form is a constant is that constant"""
    if _type(x) is SymReal and (cur().sin2 or cur().sqrt_of):
        p = cur()
        n = p.memo.get("normal")
        if n is None:
            n = p.memo["normal"] = Normal(p)
        try:
            f, d = n.of(z3.simplify(x.t))
        except OverflowError:
            return x
        if d == {(): 1} and (not f or (len(f) == 1 and () in f)):
            v = f.get((), 0)
            return SymReal(z3.RealVal(str(v)))
    return x


def evident_nonneg(t, p, depth=4):
    """an absolute value, a square, a root, or sums and products of them"""
    if z3.is_rational_value(t):
        return t.numerator_as_long() >= 0
    if depth < 0 or not z3.is_app(t):
        return False
    o = t.decl().kind()
    if t.get_id() in p.sqrt_of:
        return True
    if o == z3.Z3_OP_ITE:
        try:
            n = p.memo.get("normal")
            if n is None:
                n = p.memo["normal"] = Normal(p)
            return n.is_abs(t) is not None
        except OverflowError:
            return False
    if o == z3.Z3_OP_POWER:
        return z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1 and t.arg(1).numerator_as_long() % 2 == 0
    if o == z3.Z3_OP_MUL and t.num_args() == 2 and t.arg(0).eq(t.arg(1)):
        return True
    if o in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
        return all(evident_nonneg(c, p, depth - 1) for c in t.children())
    return False


# -- complex
class SymComplex(Sym):
    __slots__ = ("re", "im")

    def astype(self, kind, **k):
        if kind not in (complex, "complex", "complex128"):
            raise Unsupported("astype of a complex number")
        return self

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @staticmethod
    def of(o):
        if _type(o) is SymComplex:
            return o
        if is_cplx(o):
            return SymComplex(float(o.real), float(o.imag))
        return SymComplex(o, 0.0)

    @property
    def __class__(self):
        return complex

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def conjugate(self):
        return SymComplex(self.re, -self.im)

    conj = conjugate

    def _bin(self, b, op):
        a = self
        if op == "+":
            return SymComplex(a.re + b.re, a.im + b.im)
        if op == "-":
            return SymComplex(a.re - b.re, a.im - b.im)
        if op == "*":
            return SymComplex(a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re)
        if op == "/":
            if is_num(b.im) and b.im == 0:
                return SymComplex(a.re / b.re, a.im / b.re)
            d = b.re * b.re + b.im * b.im
            return SymComplex((a.re * b.re + a.im * b.im) / d, (a.im * b.re - a.re * b.im) / d)
        if op == "**":
            if is_num(b.re) and is_num(b.im) and b.im == 0 and float(b.re) == int(b.re):
                n = int(b.re)
                r = SymComplex(1.0, 0.0)
                for _ in range(abs(n)):
                    r = r * a
                return r if n >= 0 else SymComplex(1.0, 0.0) / r
            if is_num(a.re) and is_num(a.im) and a.im == 0 and abs(float(a.re) - math.e) < 1e-12:
                return sym_exp(b)
        raise Unsupported(f"complex {op}")

    def _op(self, o, op, refl=False):
        if _np_wrap(o):
            if o.ndim > 0:
                return _elementwise(o, lambda v: num_bin(self, v, op, refl))
            o = o.item()
        if not (is_num(o) or is_cplx(o) or is_sym(o)) or _type(o) is SymStr:
            return NotImplemented
        b = SymComplex.of(o)
        return b._bin(self, op) if refl else self._bin(b, op)

    def __add__(self, o): return self._op(o, "+")
    def __radd__(self, o): return self._op(o, "+", True)
    def __sub__(self, o): return self._op(o, "-")
    def __rsub__(self, o): return self._op(o, "-", True)
    def __mul__(self, o): return self._op(o, "*")
    def __rmul__(self, o): return self._op(o, "*", True)
    def __truediv__(self, o): return self._op(o, "/")
    def __rtruediv__(self, o): return self._op(o, "/", True)
    def __pow__(self, o): return self._op(o, "**")
    def __rpow__(self, o): return self._op(o, "**", True)
    def __neg__(self): return SymComplex(-self.re, -self.im)
    def __pos__(self): return self

    def __abs__(self):
        if is_num(self.im) and self.im == 0:
            return abs(self.re)
        return sym_sqrt(self.re * self.re + self.im * self.im)

    absolute = __abs__

    def __eq__(self, o):
        if _np_wrap(o) and o.ndim > 0:
            return _elementwise(o, lambda v: self == v)
        if not (is_num(o) or is_cplx(o) or is_sym(o)) or _type(o) is SymStr:
            return False
        if _nonfinite(o):
            return False
        b = SymComplex.of(o)
        return and_(self.re == b.re, self.im == b.im)

    def __ne__(self, o):
        if _np_wrap(o) and o.ndim > 0:
            return _elementwise(o, lambda v: self != v)
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __bool__(self):
        return bool(or_(self.re != 0, self.im != 0))

    def __complex__(self):
        return complex(concretise_num(self.re), concretise_num(self.im))

    def __hash__(self):
        return hash(complex(self))

    def __repr__(self):
        return f"<SymComplex {self.re} {self.im}>"

    def __str__(self):
        return str(complex(self))

    def exp(self):
        return sym_exp(self)

    def sqrt(self):
        return sym_sqrt(self)

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def angle(self):
        return sym_atan2(self.im, self.re)

    def item(self):
        return self


def concretise_num(x):
    return concretise(x, "float") if is_sym(x) else float(x)


# -- boolean connectives that do not fork
def and_(*xs):
    ts = []
    for x in xs:
        if _type(x) is SymBool:
            ts.append(x.t)
        elif not x:
            return False
    if not ts:
        return True
    return SymBool(z3.simplify(z3.And(*ts)) if len(ts) > 1 else ts[0])


def or_(*xs):
    ts = []
    for x in xs:
        if _type(x) is SymBool:
            ts.append(x.t)
        elif x:
            return True
    if not ts:
        return False
    return SymBool(z3.simplify(z3.Or(*ts)) if len(ts) > 1 else ts[0])


def ite(c, a, b):
    """if-then-else on numbers without forking"""
    if _type(c) is not SymBool:
        return a if c else b
    if _type(a) is SymComplex or _type(b) is SymComplex or is_cplx(a) or is_cplx(b):
        a, b = SymComplex.of(a), SymComplex.of(b)
        return SymComplex(ite(c, a.re, b.re), ite(c, a.im, b.im))
    la, lb = _lift(a), _lift(b)
    if la is None or lb is None:
        return a if bool(c) else b
    if _type(la) is SymInt and _type(lb) is SymInt:
        return SymInt(z3.If(c.t, la.t, lb.t))
    return SymReal(z3.If(c.t, _rt(la), _rt(lb)))


# --------------------------------------------------------------------------- concretisation
def frac_of(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(25)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise Unsupported(f"model value {v}")


def enum_int(x):
    """complete enumeration of the values of an integer term (forks)"""
    p = cur()
    c = _const_of(x)
    if c is not None:
        return int(c)
    for _ in range(400):
        m = None
        v = p.record(lambda: _enum_candidate(p, x))
        if p.decide(x.t == v):
            return v
    raise Budget("enumeration of an unbounded integer")


def _enum_candidate(p, x):
    # deterministic given the path condition: probe increasing values
    key = ("encand", x.t.get_id())
    probes = p.memo.setdefault(key, [0, 1, 2, 3, 4, 5, -1])
    while probes:
        v = probes.pop(0)
        if p._check(x.t == v) == z3.sat:
            return v
    # otherwise minimise by bisection between bounds found
    lo, hi = None, None
    o = z3.Optimize()
    o.set("timeout", 3000)
    for a in p.solver.assertions():
        o.add(a)
    o.minimize(x.t)
    STATS.queries += 1
    if o.check() == z3.sat:
        v = o.model().eval(x.t, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
    raise Unsupported("enum_int: no candidate")


def is_rational(x):
    return z3.is_rational_value(z3.simplify(x.t))


def concretise(x, why):
    """pin a proxy to one model value; the path is marked incomplete"""
    p = cur()
    t = x.t
    s = z3.simplify(t)
    if z3.is_int_value(s):
        return s.as_long()
    if z3.is_rational_value(s):
        return float(Fraction(s.numerator_as_long(), s.denominator_as_long()))
    if "lens" in p.memo:
        from . import symstr
        symstr.settle_lengths(t)

    def pick():
        m = p.get_model()
        if m is None:
            raise Unsupported(f"concretise ({why}): unknown")
        f = frac_of(m.eval(t, model_completion=True))
        if _type(x) is SymInt:
            return f
        try:
            exact = to_frac(float(f))
            if exact != f and p._check(t == real_val(exact)) == z3.sat:
                return exact
        except OverflowError:
            pass
        return f

    f = p.record(pick)
    p.concretised.append(f"{why}")
    if _type(x) is SymInt:
        p.assume(t == int(f))
        return int(f)
    p.assume(t == real_val(f))
    return float(f)


# --------------------------------------------------------------------------- strings
class Ch:
    """symbolic character"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"Ch({self.t})"


class Tok:
    """opaque piece of text that stands for a formatted value (no white space inside)"""
    __slots__ = ("kind", "val", "spec", "parsed", "_len", "aux")

    def __init__(self, kind, val, spec=None, parsed=None, length=None, aux=None):
        self.kind = kind      # 'num', 'int', 'time'
        self.val = val        # the proxy that was formatted
        self.spec = spec
        self.parsed = val if parsed is None else parsed  # value that reading it back gives
        self._len = length
        self.aux = aux

    def __repr__(self):
        return f"Tok({self.kind},{self.spec})"


class _SymStrMeta(type):
    pass


class SymStr(Sym):
    __slots__ = ("e",)

    def __init__(self, elems):
        self.e = tuple(elems)

    @property
    def __class__(self):
        return str

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        from . import symstr
        f = symstr.METHODS.get(name)
        if f is not None:
            return lambda *a, **k: f(self, *a, **k)
        if hasattr(str, name):
            s = symstr.force(self, f"str.{name}")
            return getattr(s, name)
        raise AttributeError(f"'str' object has no attribute '{name}'")

    def __len__(self):
        from . import symstr
        return symstr.length(self)

    def __bool__(self):
        return len(self.e) > 0

    def __eq__(self, o):
        from . import symstr
        r = symstr.eq(self, o)
        # text leaves the comparison with other objects to them
        return NotImplemented if r is False and not symstr.isinstance_str(o) and _type(o) is not SymStr else r

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __lt__(self, o):
        from . import symstr
        if not symstr.isinstance_str(o) and _type(o) is not SymStr:
            return NotImplemented
        return symstr.less(self, o, False)

    def __le__(self, o):
        from . import symstr
        if not symstr.isinstance_str(o) and _type(o) is not SymStr:
            return NotImplemented
        return symstr.less(self, o, True)

    def __gt__(self, o):
        from . import symstr
        if not symstr.isinstance_str(o) and _type(o) is not SymStr:
            return NotImplemented
        return symstr.less(o, self, False)

    def __ge__(self, o):
        from . import symstr
        if not symstr.isinstance_str(o) and _type(o) is not SymStr:
            return NotImplemented
        return symstr.less(o, self, True)

    def __hash__(self):
        from . import symstr
        return symstr.hash_(self)

    def __add__(self, o):
        from . import symstr
        if _type(o) is SymStr or _isinstance_raw(o, str):
            return symstr.norm(self.e + symstr.elems(o))
        return NotImplemented

    def __radd__(self, o):
        from . import symstr
        if _isinstance_raw(o, str):
            return symstr.norm(symstr.elems(o) + self.e)
        return NotImplemented

    def __mul__(self, n):
        from . import symstr
        return symstr.norm(self.e * int(n))

    __rmul__ = __mul__

    def __getitem__(self, i):
        from . import symstr
        return symstr.getitem(self, i)

    def __iter__(self):
        from . import symstr
        return iter([symstr.norm((x,)) for x in symstr.split_tokens(self)])

    def __contains__(self, o):
        from . import symstr
        return bool(symstr.contains(self, o))

    def __str__(self):
        from . import symstr
        return symstr.force(self, "str()")

    def __repr__(self):
        return f"<SymStr {self.e}>"

    def __format__(self, spec):
        from . import symstr
        return format(symstr.force(self, "format"), spec)

    def __fspath__(self):
        from . import symstr
        return symstr.force(self, "path")

    def __mod__(self, a):
        from . import rt
        return rt.mod(self, a)


# --------------------------------------------------------------------------- harness context
class Ctx:
    """what a harness sees; `ConcreteCtx` in replay.py has the same interface"""
    symbolic = True

    def __init__(self, path, params=None):
        self.p = path
        self.names = set()

    def _name(self, name):
        if name in self.names:
            raise RuntimeError(f"duplicate input name {name}")
        self.names.add(name)
        return name

    # inputs
    def real(self, name, lo=None, hi=None, nonzero=False, positive=False):
        self._name(name)
        v = z3.Real(name)
        x = SymReal(v)
        self.p.inputs.append((name, "real", v))
        if lo is not None:
            self.p.assume(v >= real_val(lo))
        if hi is not None:
            self.p.assume(v <= real_val(hi))
        if nonzero:
            self.p.assume(v != 0)
        if positive:
            self.p.assume(v > 0)
        return x

    def angle(self, name, lo=-360, hi=360):
        """a real number of degrees whose sine and cosine are symbolic"""
        self._name(name)
        v = z3.Real(name)
        c, s = _trig_base(name, 1)
        self.p.inputs.append((name, "angle", (v, c, s)))
        self.p.assume(z3.And(v >= lo, v <= hi))
        return SymReal(v, ({name: Fraction(1)}, Fraction(0)))

    def int(self, name, lo=None, hi=None):
        self._name(name)
        v = z3.Int(name)
        self.p.inputs.append((name, "int", v))
        if lo is not None:
            self.p.assume(v >= lo)
        if hi is not None:
            self.p.assume(v <= hi)
        return SymInt(v)

    def bool(self, name):
        self._name(name)
        v = z3.Bool(name)
        self.p.inputs.append((name, "bool", v))
        return SymBool(v)

    def complex(self, name, **kw):
        return SymComplex(self.real(name + ".re", **kw), self.real(name + ".im", **kw))

    def str(self, name, minlen=1, maxlen=3, alphabet=None, lo=32, hi=126, first=None):
        """symbolic string; length is forked, characters are symbolic"""
        self._name(name)
        from . import symstr
        ln = z3.Int(name + "#len")
        self.p.assume(z3.And(ln >= minlen, ln <= maxlen))
        n = minlen
        for k in range(minlen, maxlen):
            if self.p.decide(ln == k):
                n = k
                break
        else:
            n = maxlen
            self.p.assume(ln == maxlen)
        el = []
        for i in range(n):
            c = z3.Int(f"{name}#{i}")
            letters = first if i == 0 and first is not None else alphabet
            if letters is not None:
                self.p.assume(z3.Or(*[c == ord(a) for a in letters]))
            else:
                self.p.assume(z3.And(c >= lo, c <= hi))
            el.append(Ch(c))
        self.p.inputs.append((name, "str", [x.t for x in el]))
        return SymStr(el) if el else ""

    def choice(self, name, options):
        """a case split over a fresh variable: every case is feasible, so no query is needed"""
        self._name(name)
        options = list(options)
        i = self.p.split(len(options))
        self.p.inputs.append((name, "const", i))
        return options[i]

    def perm(self, name, items):
        """a symbolic permutation of items"""
        items = list(items)
        out = []
        k = 0
        while len(items) > 1:
            i = self.choice(f"{name}.{k}", range(len(items)))
            out.append(items.pop(i))
            k += 1
        return out + items

    # conditions
    def assume(self, cond):
        if _type(cond) is SymBool:
            t = z3.simplify(cond.t)
            if z3.is_false(t):
                raise Infeasible()
            self.p.assume(t)
            if self.p.model is None:
                r = self.p._check()
                if r == z3.unsat:
                    raise Infeasible()
                if r == z3.sat:
                    self.p.model = self.p.solver.model()
        elif not cond:
            raise Infeasible()

    def check(self, cond, label):
        p = self.p
        p.labels.append(label)
        if _type(cond) is not SymBool:
            if _type(cond) in (SymInt, SymReal):
                cond = SymBool(cond.t != 0)
            elif _np_wrap(cond) and cond.dtype == object:
                cond = and_(*list(cond.ravel()))
        if _type(cond) is not SymBool:
            if bool(cond):
                p.discharged += 1
                return True
            m = p.get_model()
            p.violations.append((label, extract_inputs(p, m) if m is not None else None))
            raise Infeasible()
        t = z3.simplify(cond.t)
        if z3.is_true(t):
            p.discharged += 1
            return True
        r = p._check_goal(z3.Not(t), timeout=max(p.timeout_ms, 10000))
        if r == z3.unsat:
            p.discharged += 1
            p.assume(t)
            return True
        if r == z3.sat:
            m = p.solver.model()
            self._viol(label, m, z3.Not(t))
            p.assume(t)
            if p._check() == z3.unsat:
                raise Infeasible()
            return False
        m = probe(p, z3.Not(t))
        if m is not None:
            p.violations.append((label, extract_inputs(p, m)))
            p.assume(t)
            return False
        p.inconclusive.append(label)
        p.assume(t)
        return None

    def _viol(self, label, m, neg):
        p = self.p
        cands = [extract_inputs(p, m)]
        # more models of the same failure, easier to represent as floats
        extra = []
        for name, kind, v in p.inputs:
            if kind in ("real",):
                extra.append(z3.Or(v == 0, z3.And(v > real_val(1e-3), v < 1000),
                                   z3.And(v < real_val(-1e-3), v > -1000)))
        if extra:
            p.solver.push()
            p.solver.add(neg)
            p.solver.add(*extra)
            if p._check() == z3.sat:
                cands.append(extract_inputs(p, p.solver.model()))
            grid = []
            for i, (name, kind, v) in enumerate(p.inputs):
                if kind == "real":
                    k = z3.Int(f"grid!{name}")
                    grid.append(v * 8 == z3.ToReal(k))
            p.solver.add(*grid)
            if p._check(timeout=2000) == z3.sat:
                cands.append(extract_inputs(p, p.solver.model()))
            p.solver.pop()
        for c in cands:
            p.violations.append((label, c))

    def close(self, a, b, label, rtol=1e-6, atol=1e-9):
        """|a-b| <= atol + rtol*|b| ; proves equality first"""
        p = self.p
        if a is None or b is None:
            return self.check(a is b, label)
        a, b = _unwrap0(a), _unwrap0(b)
        if not is_sym(a) and not is_sym(b):
            return self.check(_close_conc(a, b, rtol, atol), label)
        if _type(a) is SymComplex or _type(b) is SymComplex or is_cplx(a) or is_cplx(b):
            a, b = SymComplex.of(a), SymComplex.of(b)
            pairs = [(a.re, b.re), (a.im, b.im)]
        else:
            pairs = [(a, b)]
        p.labels.append(label)
        ok = True
        for x, y in pairs:
            if _nonfinite(x) or _nonfinite(y):
                if not (is_num(x) and is_num(y) and (x == y or (x != x and y != y))):
                    m = p.get_model()
                    p.violations.append((label, extract_inputs(p, m)))
                    ok = False
                continue
            lx, ly = _lift(x), _lift(y)
            if lx is None or ly is None:
                m = p.get_model()
                p.violations.append((label, extract_inputs(p, m)))
                ok = False
                continue
            tx, ty = _rt(lx), _rt(ly)
            d = z3.simplify(tx - ty, som=True)
            if _is_zero(d) or same_ratio(tx, ty):
                continue
            hard = nonlinear(d)
            ad = z3.If(d >= 0, d, -d)
            ab = z3.If(ty >= 0, ty, -ty)
            tol = real_val(atol) + real_val(rtol) * ab
            if hard:
                big = ad > real_val(1e-3) + real_val(1e-2) * ab
                m = probe(p, big)
                if m is not None:
                    p.violations.append((label, extract_inputs(p, m)))
                    p.assume(z3.Not(big))
                    ok = False
                    continue
            r = p._check_goal(tx != ty, timeout=max(p.timeout_ms, 10000))
            if r == z3.unsat:
                continue
            r = p._check_goal(ad > tol, timeout=max(p.timeout_ms, 10000))
            if r == z3.unsat:
                continue
            if r == z3.sat:
                m = p.solver.model()
                # prefer a large discrepancy
                big = real_val(1e-3) + real_val(1e-2) * ab
                if p._check(ad > big) == z3.sat:
                    self._viol(label, p.solver.model(), ad > big)
                else:
                    self._viol(label, m, ad > tol)
                p.assume(ad <= tol)
                ok = False
            else:
                p.inconclusive.append(label)
                ok = None if ok else ok
        if ok:
            p.discharged += 1
        return ok

    def fail(self, label):
        return self.check(False, label)

    def trig_facts(self):
        """cos and sin of arguments in [0, pi]: monotone, their end values, double angles"""
        self.p.memo["trig_facts"] = True

    def angle_facts(self):
        """the angle of a pair of numbers: radius, sine and cosine, range"""
        self.p.memo["angle_facts"] = True

    def trust_roots(self):
        """only inputs whose square roots are of numbers not negative are followed from here"""
        self.p.memo["trust_roots"] = True

    def reach(self, label):
        """reachability witness"""
        self.p.labels.append("reach:" + label)


def _is_zero(d):
    return z3.is_rational_value(d) and d.numerator_as_long() == 0


def nonlinear(t):
    """does a term multiply or divide unknowns?"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        k = x.decl().kind() if z3.is_app(x) else None
        if k in (z3.Z3_OP_MUL, z3.Z3_OP_POWER, z3.Z3_OP_DIV):
            n = sum(0 if z3.is_rational_value(c) or z3.is_int_value(c) else 1 for c in x.children())
            if n > 1 or k == z3.Z3_OP_POWER or (k == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1))):
                return True
        todo.extend(x.children())
    return False


def ratio(t, memo):
    """(numerator, denominator) of a term of sums, products and quotients (denominators are not zero: each division assumed so)"""
    k = t.get_id()
    if k in memo:
        return memo[k][1]
    one = z3.RealVal(1)
    r = (t, one)
    if z3.is_app(t):
        o = t.decl().kind()
        if o == z3.Z3_OP_DIV and not z3.is_rational_value(t.arg(1)):
            a, b = ratio(t.arg(0), memo), ratio(t.arg(1), memo)
            r = (a[0] * b[1], a[1] * b[0])
        elif o == z3.Z3_OP_ADD or o == z3.Z3_OP_SUB:
            n, d = ratio(t.arg(0), memo)
            for c in t.children()[1:]:
                cn, cd = ratio(c, memo)
                if o == z3.Z3_OP_SUB:
                    cn = -cn
                if cd.eq(d):
                    n = n + cn
                else:
                    n, d = n * cd + cn * d, d * cd
            r = (n, d)
        elif o == z3.Z3_OP_MUL:
            n, d = one, one
            for c in t.children():
                cn, cd = ratio(c, memo)
                n, d = n * cn, (d * cd if not cd.eq(one) else d)
            r = (n, d)
        elif o == z3.Z3_OP_UMINUS:
            n, d = ratio(t.arg(0), memo)
            r = (-n, d)
    memo[k] = (t, r)
    return r


class Normal:
    """terms as quotients of polynomials in which squares of sines, of square roots and of absolute values are replaced"""

    def __init__(self, p, cap=6000):
        self.p, self.cap = p, cap
        self.memo = {}
        self.abs = {}      # frozen polynomial -> atom
        self.roots = {}    # frozen radicand -> atom
        self.sq = {}       # atom -> (numerator, denominator) its square is, computed on demand

    def square(self, a):
        """the polynomial the square of this atom is equal to"""
        if a in self.sq:
            return self.sq[a]
        r = None
        if a in self.p.sin2:
            c = self.p.sin2[a][1].get_id()
            r = {(): Fraction(1), (c, c): Fraction(-1)}
        elif a in self.p.sqrt_of:
            self.sq[a] = None
            n, d = self.of(self.p.sqrt_of[a][1])
            r = n if d == {(): 1} else None
        self.sq[a] = r
        return r

    def mul(self, f, g):
        if len(f) * len(g) > self.cap * 10:
            raise OverflowError
        r = {}
        todo = []
        for m, v in f.items():
            for m2, v2 in g.items():
                todo.append((tuple(sorted(m + m2)), v * v2))
        while todo:
            m, v = todo.pop()
            for i in range(len(m) - 1):
                if m[i] == m[i + 1]:
                    q = self.square(m[i])
                    if q is not None:
                        rest = m[:i] + m[i + 2:]
                        todo.extend((tuple(sorted(rest + m2)), v * v2) for m2, v2 in q.items())
                        break
            else:
                w = r.get(m, 0) + v
                if w:
                    r[m] = w
                else:
                    r.pop(m, None)
            if len(r) > self.cap or len(todo) > self.cap * 20:
                raise OverflowError
        return r

    def add(self, f, g, sign=1):
        r = dict(f)
        for m, v in g.items():
            w = r.get(m, 0) + sign * v
            if w:
                r[m] = w
            else:
                r.pop(m, None)
        return r

    def quotient(self, n, d):
        if len(d) == 1 and () in d:
            k = d[()]
            return {m: v / k for m, v in n.items()}, {(): Fraction(1)}
        return n, d

    def of(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k][1]
        one = {(): Fraction(1)}
        o = t.decl().kind() if z3.is_app(t) else None
        if z3.is_rational_value(t) or z3.is_int_value(t):
            v = Fraction(t.numerator_as_long(), t.denominator_as_long()) if z3.is_rational_value(t) else Fraction(t.as_long())
            r = ({(): v} if v else {}, one)
        elif o in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            r = ({}, one)
            for i, c in enumerate(t.children()):
                sg = -1 if o == z3.Z3_OP_UMINUS or (o == z3.Z3_OP_SUB and i) else 1
                n, d = self.of(c)
                if d == r[1]:
                    r = (self.add(r[0], n, sg), d)
                else:
                    r = (self.add(self.mul(r[0], d), self.mul(n, r[1]), sg), self.mul(r[1], d))
            r = self.quotient(*r)
        elif o == z3.Z3_OP_MUL or (o == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1
                                   and 0 < t.arg(1).numerator_as_long() < 9):
            fs = t.children() if o == z3.Z3_OP_MUL else [t.arg(0)] * t.arg(1).numerator_as_long()
            n, d = one, one
            for c in fs:
                a, b = self.of(c)
                n = self.mul(n, a)
                if b != one:
                    d = self.mul(d, b)
            r = self.quotient(n, d)
        elif o == z3.Z3_OP_DIV:
            (a, b), (c, d) = self.of(t.arg(0)), self.of(t.arg(1))
            r = self.quotient(self.mul(a, d) if d != one else a, self.mul(b, c) if b != one else c)
        elif o == z3.Z3_OP_ITE and self.is_abs(t) is not None:
            f = self.is_abs(t)
            if len(f) == 1 and () in f:
                self.memo[k] = (t, ({(): abs(f[()])}, one))
                return self.memo[k][1]
            key = frozenset(f.items())
            neg = frozenset((m, -v) for m, v in f.items())
            a = self.abs.setdefault(key, self.abs.get(neg, -1 - len(self.abs)))
            if a not in self.sq:
                self.sq[a] = self.mul(f, f)
            r = ({(a,): Fraction(1)}, one)
        elif k in self.p.sqrt_of and self.square(k) is not None:
            # equal radicands have the same root
            f = self.square(k)
            v = f.get((), None) if len(f) == 1 else None
            q = None
            if v is not None:
                q = Fraction(math.isqrt(v.numerator), math.isqrt(v.denominator))
                q = q if q * q == v else None
            if not f:
                r = ({}, one)
            elif q is not None:
                r = ({(): q}, one)
            else:
                r = ({(self.roots.setdefault(frozenset(f.items()), k),): Fraction(1)}, one)
        else:
            r = ({(k,): Fraction(1)}, one)
        self.memo[k] = (t, r)
        return r

    def is_abs(self, t):
        """the polynomial f when the term is  f if f >= 0 else -f"""
        c, a, b = t.children()
        if z3.is_not(c):
            c, a, b = c.arg(0), b, a
        o = c.decl().kind()
        if o not in (z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_LE, z3.Z3_OP_LT):
            return None
        (f, d), (g, e) = self.of(a), self.of(b)
        one = {(): 1}
        if d != one or e != one or self.add(f, g) or not f:
            return None
        (x, d), (y, e) = self.of(c.arg(0)), self.of(c.arg(1))
        if d != one or e != one:
            return None
        h = self.add(x, y, -1)
        if o in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            h = {m: -v for m, v in h.items()}
        if h.keys() != f.keys():
            return None
        m = next(iter(f))
        k = h[m] / f[m]
        return f if k > 0 and all(h[m] == k * f[m] for m in f) else None

    def same(self, x, y):
        (a, b), (c, d) = self.of(x), self.of(y)
        if b == d:
            return a == c
        return self.mul(a, d) == self.mul(c, b)


def same_ratio(x, y):
    """are two terms the same rational function (normal form of the cross-multiplied difference)?"""
    x, y = z3.simplify(x), z3.simplify(y)
    p = cur()
    if p.sin2 or p.sqrt_of:
        try:
            n = p.memo.get("normal")
            if n is None:
                n = p.memo["normal"] = Normal(p)
            if n.same(x, y):
                return True
        except OverflowError:
            pass
    memo = {}
    one = z3.RealVal(1)
    (a, b), (c, d) = ratio(x, memo), ratio(y, memo)
    if b.eq(one) and d.eq(one):
        return False
    try:
        return not poly(a * d - c * b, {})
    except OverflowError:
        return False


def poly(t, memo, cap=20000):
    """normal form of a polynomial term: {monomial (sorted atom numbers): coefficient}"""
    k = t.get_id()
    if k in memo:
        return memo[k][1]
    if z3.is_rational_value(t) or z3.is_int_value(t):
        v = Fraction(t.numerator_as_long(), t.denominator_as_long()) if z3.is_rational_value(t) else Fraction(t.as_long())
        r = {(): v} if v else {}
    else:
        o = t.decl().kind() if z3.is_app(t) else None
        if o == z3.Z3_OP_ADD or o == z3.Z3_OP_SUB or o == z3.Z3_OP_UMINUS:
            r = {}
            for i, c in enumerate(t.children()):
                sg = -1 if o == z3.Z3_OP_UMINUS or (o == z3.Z3_OP_SUB and i) else 1
                for m, v in poly(c, memo, cap).items():
                    w = r.get(m, 0) + sg * v
                    if w:
                        r[m] = w
                    else:
                        r.pop(m, None)
        elif o == z3.Z3_OP_MUL or (o == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1
                                   and 0 < t.arg(1).numerator_as_long() < 9):
            fs = t.children() if o == z3.Z3_OP_MUL else [t.arg(0)] * t.arg(1).numerator_as_long()
            r = {(): Fraction(1)}
            for c in fs:
                q = poly(c, memo, cap)
                if len(q) * len(r) > cap * 10:
                    raise OverflowError
                n = {}
                for m, v in r.items():
                    for m2, v2 in q.items():
                        mm = tuple(sorted(m + m2))
                        w = n.get(mm, 0) + v * v2
                        if w:
                            n[mm] = w
                        else:
                            n.pop(mm, None)
                r = n
                if len(r) > cap:
                    raise OverflowError
        else:
            r = {(k,): Fraction(1)}
    memo[k] = (t, r)
    return r


def _unwrap0(x):
    # an array without dimensions is its value
    return x.item() if _type(x).__name__ == "ndarray" and x.ndim == 0 and x.dtype == object else x


def near_ratio(x, y, memo):
    """1 when two terms are the same rational function up to the rounding of their constants, -1 when opposite, else 0"""
    (a, b), (c, d) = ratio(x, memo[0]), ratio(y, memo[0])
    try:
        u, v = poly(a * d, memo[1], 2000), poly(c * b, memo[1], 2000)
    except OverflowError:
        return 0
    if u.keys() != v.keys():
        return 0
    for g in (1, -1):
        if all(abs(u[m] - g * v[m]) <= abs(u[m]) * Fraction(1, 10**12) for m in u):
            return g
    return 0


def size(t, cap=5000):
    todo, n = [t], 0
    while todo and n < cap:
        x = todo.pop()
        n += 1
        todo.extend(x.children())
    return n


PROBE = [3, 5, -7, 2, 11, -13, 17, 1, -19, 23, 29, -4, 31, -37, 6, 41]


def probe(p, neg, tries=6):
    """a model of a failed nonlinear assertion with the real inputs fixed to small numbers (finding one only: none proves nothing)"""
    reals = [v for name, kind, v in p.inputs if kind == "real"]
    if not reals:
        return None
    for k in range(tries):
        p.solver.push()
        try:
            p.solver.add(neg)
            for i, v in enumerate(reals):
                if k and i % (k + 1) == k:
                    continue        # left to the solver
                v0 = Fraction(PROBE[(i * (k + 1) + k) % len(PROBE)], [2, 8, 1, 16, 4, 32][k])
                p.solver.add(v == z3.RealVal(v0.numerator) / v0.denominator)
            if p._check(timeout=1500) == z3.sat:
                return p.solver.model()
        finally:
            p.solver.pop()
    return None


def _close_conc(a, b, rtol, atol):
    try:
        if a == b:
            return True
        if a != a and b != b:
            return True
        return abs(a - b) <= atol + rtol * abs(b)
    except TypeError:
        return False


def extract_inputs(p, m):
    out = {}
    for name, kind, v in p.inputs:
        if kind == "real":
            f = frac_of(m.eval(v, model_completion=True))
            try:
                out[name] = float(f)
            except OverflowError:
                out[name] = 1e300 if f > 0 else -1e300
        elif kind == "angle":
            vv, c, s = v
            c = float(frac_of(m.eval(c, model_completion=True)))
            s = float(frac_of(m.eval(s, model_completion=True)))
            a = math.degrees(math.atan2(s, c))
            out[name] = round(a, 12)
        elif kind == "const":
            out[name] = v
        elif kind in ("int", "choice"):
            out[name] = int(frac_of(m.eval(v, model_completion=True)))
        elif kind == "bool":
            out[name] = z3.is_true(m.eval(v, model_completion=True))
        elif kind == "str":
            out[name] = "".join(chr(int(frac_of(m.eval(c, model_completion=True)))) for c in v)
    return out


# --------------------------------------------------------------------------- exploration
class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.decisions = 0
        self.labels = {}
        self.discharged = 0
        self.violations = []      # (label, inputs)
        self.inconclusive = []    # strings
        self.concretised = {}     # why -> count
        self.unsupported = {}
        self.models = []          # (inputs, labels) of completed paths
        self.exhausted = True
        self.infeasible = 0
        self.crashes = []         # (exc repr, inputs)
        self.wall = 0.0
        self.queries = 0
        self.solver_s = 0.0


def explore(name, harness, params, max_paths=2000, time_s=60, timeout_ms=3000, keep_models=None):
    res = Result(name)
    t0 = time.time()
    q0, s0, d0 = STATS.queries, STATS.solver_s, STATS.decisions
    work = [[]]
    seen_viol = {}
    deadline = t0 + time_s
    while work:
        if res.paths >= max_paths or time.time() > deadline:
            res.exhausted = False
            res.inconclusive.append(f"budget: {len(work)} unexplored path prefixes")
            break
        prefix = work.pop()
        p = Path(prefix, timeout_ms=timeout_ms, deadline=deadline + 5)
        ctx = Ctx(p)
        _set_current(p)
        crash = None
        complete = False
        try:
            harness(ctx, **params)
            complete = True
        except Infeasible:
            res.infeasible += 1
        except Unsupported as e:
            k = str(e)[:120]
            res.unsupported[k] = res.unsupported.get(k, 0) + 1
        except Budget as e:
            res.exhausted = False
            res.inconclusive.append(f"budget: {e}")
        except RecursionError as e:
            res.unsupported["recursion"] = res.unsupported.get("recursion", 0) + 1
        except Exception as e:  # the code under test raised where the harness expects it not to
            crash = e
        finally:
            work.extend(p.pending)
        if crash is not None:
            import traceback
            tb = traceback.extract_tb(crash.__traceback__)
            try:
                m = p.get_model()
                if m is not None:
                    inp = extract_inputs(p, m)
                    k = "crash:" + type(crash).__name__
                    res.crashes.append((f"{type(crash).__name__}: {str(crash)[:200]} at "
                                        f"{tb[-1].filename.split('/')[-1]}:{tb[-1].lineno}", inp))
                    if seen_viol.get(k, 0) < 12:
                        seen_viol[k] = seen_viol.get(k, 0) + 1
                        res.violations.append(("no unexpected exception", inp))
            except EngineSignal:
                pass
        res.paths += 1
        res.discharged += p.discharged
        for l in p.labels:
            res.labels[l] = res.labels.get(l, 0) + 1
        for l, inp in p.violations:
            if seen_viol.get(l, 0) < 12:
                seen_viol[l] = seen_viol.get(l, 0) + 1
                res.violations.append((l, inp))
        for l in p.inconclusive:
            res.inconclusive.append("unknown: " + l)
        for c in p.concretised:
            res.concretised[c] = res.concretised.get(c, 0) + 1
        if complete and (keep_models is None or len(res.models) < keep_models):
            try:
                m = p.get_model()
                if m is not None:
                    res.models.append((extract_inputs(p, m), list(p.labels)))
            except EngineSignal:
                pass
        _set_current(None)
    _set_current(None)
    res.wall = time.time() - t0
    res.queries = STATS.queries - q0
    res.solver_s = STATS.solver_s - s0
    res.decisions = STATS.decisions - d0
    return res
