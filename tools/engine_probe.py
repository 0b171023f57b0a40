"""engine_probe.py numbers|strings [glob]: which library calls on symbolic values are exact, pinned to one value or unsupported
(development aid: run after a change of symx)"""
import fnmatch
import importlib
import itertools
import os
import random
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
kind, glob = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "*"
src = os.path.join(HERE, "tools", f"probe_{kind}.py")
table = {}
if kind == "strings":
    ns = {}
    exec(compile(open(src).read(), src, "exec"), ns)
    a = ["".join(q) for k in (1, 2) for q in itertools.product("aAb1 ", repeat=k)]
    b = ["".join(q) for k in (1, 2) for q in itertools.product("aAbB1", repeat=k)]
    random.seed(1)
    pairs = random.sample([(x, y) for x in a for y in b], 25) + [("b", "b"), ("b", "1"), ("1", "b"), ("bb", "b"), ("ab", "Ab"), (" b", "b"), ("1b", "1b"), ("A", "a")]
    for n, f in ns["P"].items():
        table[n] = {q: f(*q) for q in pairs}
from symx import core, loader, pyd  # noqa: E402
loader.install()
scratch = tempfile.mkdtemp()
os.makedirs(os.path.join(scratch, "checks"))
import checks  # noqa: E402
shutil.copy(src, os.path.join(scratch, "checks", "engineprobe.py"))
checks.__path__.append(os.path.join(scratch, "checks"))
mod = importlib.import_module("checks.engineprobe")
shutil.rmtree(scratch)
if table:
    mod.TABLE.update(table)
insts = mod.instances("quick")
pyd.wrap_all()
for name, f, params in insts:
    if not fnmatch.fnmatchcase(name, glob):
        continue
    r = core.explore(name, f, params, time_s=20)
    if r.violations or r.unsupported or r.inconclusive or r.concretised:
        print(name, "paths", r.paths, "violations", str(r.violations[:1])[:150], "unsupported", str(r.unsupported)[:150], "pinned", r.concretised)
print(len(insts), "entries")
