"""setup_cmd: the engine imports, z3 works, proxies agree with Python on concrete values"""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from symx import core, loader  # noqa: E402

loader.install()
import mt_metadata.common.list_dict  # noqa: E402,F401


def h(ctx):
    x = ctx.real("x", -5, 5)
    y = ctx.int("y", 0, 9)
    s = ctx.str("s", maxlen=2, alphabet="ab")
    if x > y:
        ctx.check(x > 0, "positive")
    ctx.check(s.upper().lower() == s, "case")


r = core.explore("selftest", h, {})
assert r.paths >= 2 and not r.violations and r.discharged >= 3, r.__dict__


def bad(ctx):
    x = ctx.real("x", -5, 5)
    ctx.check(x * x != 4, "violated")


r = core.explore("selftest", bad, {})
assert r.violations and abs(abs(r.violations[0][1]["x"]) - 2) < 1e-9
print("symx self test ok, z3", core.z3.get_version_string())
