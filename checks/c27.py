"""C27 transfer function errors follow from the covariances"""
import numpy as np
import xarray as xr

from checks import c26

PROPERTY = "C27"
IMPORTS = ["mt_metadata.transfer_functions.core", "checks.c26"]
OPTS = {"budget_s": 150, "timeout_ms": 10000}
ASSUMPTIONS = ["exact arithmetic: the square root of x is the non-negative number whose square is x",
               "periods are chosen among fixed lists; every covariance value is symbolic"]


def BOUNDS(tier):
    return "every residual covariance and inverse signal power value (complex, off-diagonals included), 1 to 3 periods, both orders of setting, arrays and labelled arrays, 3 naming schemes, errors set before or not"


def expected(ctx, t, iso, res, p, names, label):
    e = c26.entries(t, p, names)
    for q in range(len(p)):
        for o in ("ex", "ey", "hz"):
            for i in ("hx", "hy"):
                err = e["transfer_function_error", q, o, i]
                ctx.check(err >= 0, label + ": not negative")
                ctx.close(err * err, abs(res[q, o, o] * iso[q, i, i]), label + ": square root of the product of the diagonal entries")


def errors(ctx, order, form, periods, prior):
    how, names = ctx.choice("how", c26.WAYS[:3])
    p = c26.PERIODS[periods]
    n = len(p)
    t = c26.new(p, names, how)
    z = c26.fixed("transfer_function", n, 3)
    c26.give(t, "transfer_function", z, p, names, "array")
    if prior:
        c26.give(t, "transfer_function_error", c26.fixed("transfer_function_error", n, 5), p, names, "array")
    iso, res = c26.symbolic(ctx, "s", "inverse_signal_power", n), c26.symbolic(ctx, "r", "residual_covariance", n)
    for k, v in ((("inverse_signal_power", iso), ("residual_covariance", res)) if order == "signal" else (("residual_covariance", res), ("inverse_signal_power", iso))):
        # at least one value given, otherwise it counts as not set
        ctx.assume(v[sorted(v)[0]].real != 0)
        c26.give(t, k, v, p, names, form)
    expected(ctx, t, iso, res, p, names, "errors")
    c26.check_kind(ctx, t, "transfer_function", z, p, names, "the transfer function is untouched")
    c26.check_kind(ctx, t, "inverse_signal_power", iso, p, names, "signal power")
    c26.check_kind(ctx, t, "residual_covariance", res, p, names, "residual covariance")
    m = c26.NAMES[names]
    e = c26.entries(t, p, names)
    for kind, outs in (("impedance_error", ("ex", "ey")), ("tipper_error", ("hz",)), ("transfer_function_error", ("ex", "ey", "hz"))):
        got = getattr(t, kind)
        ctx.check(got.coords["output"].data.tolist() == [m[o] for o in outs], kind + ": outputs")
        d = got.transpose("period", "output", "input").data
        for q in range(n):
            for a, o in enumerate(outs):
                for b, i in enumerate(("hx", "hy")):
                    ctx.check(d[q, a, b] == e["transfer_function_error", q, o, i], kind + ": the element")


def again(ctx, first):
    """setting one of them again renews every error"""
    p = c26.PERIODS["up"]
    t = c26.new(p, "default")
    c26.give(t, "transfer_function", c26.fixed("transfer_function", 2, 3), p, "default", "array")
    iso, res = c26.symbolic(ctx, "s", "inverse_signal_power", 2), c26.fixed("residual_covariance", 2, 4)
    if first == "res":
        iso, res = c26.fixed("inverse_signal_power", 2, 4), c26.symbolic(ctx, "r", "residual_covariance", 2)
    for v in (iso, res):
        ctx.assume(v[sorted(v)[0]].real != 0)
    a, b = ("inverse_signal_power", iso), ("residual_covariance", res)
    x = (b, a) if first == "res" else (a, b)
    c26.give(t, x[1][0], x[1][1], p, "default", "array")
    c26.give(t, x[0][0], c26.fixed(x[0][0], 2, 9), p, "default", "array")
    c26.give(t, x[0][0], x[0][1], p, "default", "array")
    expected(ctx, t, iso, res, p, "default", "errors set again")


def alone(ctx, kind):
    """one covariance alone leaves the errors"""
    p = c26.PERIODS["up"]
    t = c26.new(p, "default")
    c26.give(t, "transfer_function", c26.fixed("transfer_function", 2, 3), p, "default", "array")
    e = c26.symbolic(ctx, "e", "transfer_function_error", 2)
    c26.give(t, "transfer_function_error", e, p, "default", "array")
    c26.give(t, kind, c26.symbolic(ctx, "v", kind, 2), p, "default", ctx.choice("form", ["array", "labels"]))
    c26.check_kind(ctx, t, "transfer_function_error", e, p, "default", "errors as given")


def instances(tier):
    out = []
    for order in ("signal", "residual"):
        for form in ("array", "mixed"):
            for periods in (("up", "one") if tier == "quick" else tuple(c26.PERIODS)):
                for prior in (False, True):
                    out.append((f"errors:{order}:{form}:{periods}:{'renewed' if prior else 'new'}", errors, {"order": order, "form": form, "periods": periods, "prior": prior}))
    out += [("again:signal", again, {"first": "iso"}), ("again:residual", again, {"first": "res"})]
    out += [(f"alone:{k}", alone, {"kind": k}) for k in ("inverse_signal_power", "residual_covariance")]
    return out
