"""profile one instance in process: prof.py C01 instance-name"""
import sys, os, importlib, cProfile, pstats, fnmatch
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
from symx import core, loader, pyd
loader.install()
import warnings; warnings.simplefilter("ignore")
mod = importlib.import_module("checks." + sys.argv[1].lower())
for m in getattr(mod, "IMPORTS", []): importlib.import_module(m)
insts = mod.instances("quick"); pyd.wrap_all()
for i in insts:
    if fnmatch.fnmatchcase(i[0], sys.argv[2]):
        pr = cProfile.Profile(); pr.enable()
        r = core.explore(i[0], i[1], i[2], time_s=60)
        pr.disable()
        print(i[0], r.paths, r.wall, r.queries, r.solver_s, r.violations[:3], r.inconclusive[:3], r.unsupported)
        pstats.Stats(pr).sort_stats("cumulative" if len(sys.argv) < 4 else sys.argv[3]).print_stats(45)
