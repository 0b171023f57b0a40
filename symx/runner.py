"""entry point of a check:  python -m symx.runner C09 --tier quick"""
import argparse
import fnmatch
import importlib
import json
import os
import pickle
import re
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
COMMON_ASSUMPTIONS = [
    "floating-point numbers are modelled as exact rationals (a literal or stored float means its shortest decimal); "
    "comparisons made by a harness carry a tolerance, and every reported counterexample is replayed in floats",
    "numpy, pandas, pydantic-core, json and datetime are modelled by the symx shims; models of finished paths are "
    "replayed on the untransformed code with the real libraries",
]
DEFAULT_BUDGET = {"quick": 60, "thorough": 700}


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        m = re.match(r"^known: property=(\S+) instance=(\S+) label=(\"[^\"]*\"|\S+) when=\{(.*?)\} :: (.*)$", line.strip())
        if m and m.group(1) == prop:
            out.append({"instance": m.group(2), "label": m.group(3).strip('"'), "when": m.group(4) or "True",
                        "text": m.group(5), "hit": False})
    return out


class _In(dict):
    def __missing__(self, k):
        return None


def is_known(known, instance, label, inputs):
    for k in known:
        if not fnmatch.fnmatchcase(instance, k["instance"]) or not fnmatch.fnmatchcase(label, k["label"]):
            continue
        try:
            if eval(k["when"], {"i": _In(inputs), "re": re}):
                k["hit"] = True
                return True
        except Exception:
            pass
    return False


# ---------------------------------------------------------------- symbolic workers
SEEN = set()


def monitor_start(repo):
    mon = sys.monitoring
    tid = 4
    try:
        mon.use_tool_id(tid, "symx")
    except ValueError:
        return
    pre = repo.rstrip("/") + "/mt_metadata/"

    def start(code, off):
        if code.co_filename.startswith(pre) and code.co_name not in ("<module>",):
            SEEN.add(code.co_filename[len(pre):-3].replace("/", ".") + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)


def child(inst, opts, deadline, w):
    from . import core
    name, func, params = inst[:3]
    o = dict(opts)
    if len(inst) > 3:
        o.update(inst[3])
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("SYMX_DEBUG"):
        os.dup2(devnull, 2)
    try:
        from . import npshim
        npshim.NP_BASELINE = None
    except Exception:
        pass
    SEEN.clear()
    sys.monitoring.restart_events()
    try:
        t = max(2.0, min(o.get("time_s", 60), deadline - time.time()))
        r = core.explore(name, func, params, max_paths=o.get("max_paths", 2000), time_s=t,
                         timeout_ms=o.get("timeout_ms", 3000), keep_models=o.get("keep_models", 40))
        r.functions = sorted(SEEN)
        data = pickle.dumps(r.__dict__)
    except BaseException as e:  # engine failure
        data = pickle.dumps({"name": name, "engine_error": "".join(traceback.format_exception(e))[-3000:]})
    with os.fdopen(w, "wb") as f:
        f.write(data)
    os._exit(0)


def run_pool(insts, opts, deadline, nproc, on_result):
    queue = list(insts)
    kids = {}
    while queue or kids:
        while queue and len(kids) < nproc:
            if time.time() > deadline:
                on_result({"name": queue.pop(0)[0], "not_run": True})
                continue
            inst = queue.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    os.setpgid(0, 0)
                except OSError:
                    pass
                child(inst, opts, deadline, w)
            os.close(w)
            kids[r] = [pid, [], inst, time.time()]
        if not kids:
            continue
        ready, _, _ = select.select(list(kids), [], [], 1.0)
        for q in ready:
            d = os.read(q, 1 << 20)
            if d:
                kids[q][1].append(d)
                continue
            os.close(q)
            pid, acc, inst, t0 = kids.pop(q)
            os.waitpid(pid, 0)
            if acc:
                on_result(pickle.loads(b"".join(acc)))
            else:
                on_result({"name": inst[0], "engine_error": "worker died"})
        now = time.time()
        for q, k in list(kids.items()):
            lim = (k[2][3].get("time_s", 60) if len(k[2]) > 3 else opts.get("time_s", 60)) + 25
            if now - k[3] > lim or now > deadline + 25:
                try:
                    os.kill(k[0], signal.SIGKILL)
                except ProcessLookupError:
                    pass


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--only", default=None, help="run only instances matching this pattern")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    prop = a.prop
    modname = "checks." + prop.lower()
    sys.path.insert(0, HERE)
    os.chdir(HERE)
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    import tempfile
    answers = tempfile.TemporaryFile()
    server = subprocess.Popen([sys.executable, "-m", "symx.replay", modname, tier], stdin=subprocess.PIPE,
                              stdout=answers, stderr=None if a.v else subprocess.DEVNULL, env=env, cwd=HERE)
    sys.dont_write_bytecode = True
    from . import loader, core, pyd
    loader.install()
    import warnings
    warnings.simplefilter("ignore")
    mod = importlib.import_module(modname)
    for m in getattr(mod, "IMPORTS", []):
        importlib.import_module(m)
    for m in getattr(mod, "SHIMS", []):
        importlib.import_module("symx." + m).install()
    insts = mod.instances(tier)
    if a.only:
        insts = [i for i in insts if fnmatch.fnmatchcase(i[0], a.only)]
    pyd.wrap_all()
    monitor_start(loader.REPO)
    opts = dict(getattr(mod, "OPTS", {}))
    opts.update(getattr(mod, "OPTS_" + tier.upper(), {}))
    if tier == "thorough":
        opts.setdefault("time_s", 300)
        opts.setdefault("max_paths", 20000)
        opts.setdefault("timeout_ms", 15000)
    budget = opts.get("budget_s", DEFAULT_BUDGET[tier])
    t_import = time.time() - t0
    deadline = t0 + budget
    results = []
    todo = {}
    known = known_findings(prop)

    def on_result(d):
        results.append(d)
        if a.v:
            brief = {k: (len(v) if isinstance(v, (list, dict)) and k not in ("unsupported", "inconclusive", "crashes", "concretised") else v)
                     for k, v in d.items() if k not in ("labels", "functions")}
            print("  ", json.dumps(brief, default=str)[:1500], flush=True)
        items, kinds = [], []
        for l, inp in d.get("violations", []):
            if inp is not None:
                items.append(inp)
                kinds.append(("cex", l, None))
        for inp, labels in d.get("models", []):
            items.append(inp)
            kinds.append(("model", None, labels))
        if items:
            todo[d["name"]] = (items, kinds, d)
            try:
                server.stdin.write((json.dumps({"instance": d["name"], "items": items}) + "\n").encode())
                server.stdin.flush()
            except BrokenPipeError:
                pass

    # longest first as declared; fork workers
    run_pool(insts, opts, deadline, a.j, on_result)
    try:
        server.stdin.close()
    except BrokenPipeError:
        pass
    violations, spurious, validated, diverged, skipped = [], [], 0, [], 0
    replay_wait = max(60, deadline + 60 - time.time())
    signal.signal(signal.SIGALRM, lambda *_: server.kill())
    signal.alarm(int(replay_wait))
    answered = set()
    server.wait()
    signal.alarm(0)
    answers.seek(0)
    for line in answers.read().decode().splitlines():
        ans = json.loads(line)
        items, kinds, d = todo[ans["instance"]]
        answered.add(ans["instance"])
        for inp, (kind, label, labels), r in zip(items, kinds, ans["results"]):
            if r["skip"]:
                skipped += 1
                if kind == "cex":
                    spurious.append({"instance": d["name"], "label": label, "inputs": inp, "why": "skipped: " + r["skip"]})
                continue
            bad = list(r["failures"])
            if r["exc"]:
                bad.append("no unexpected exception")
            if bad:
                new = [b for b in bad if not is_known(known, d["name"], b, inp)]
                if new:
                    violations.append({"instance": d["name"], "labels": new, "inputs": inp, "exception": r["exc"],
                                       "by": "solver counterexample" if kind == "cex" else "path model"})
                continue
            if kind == "cex":
                spurious.append({"instance": d["name"], "label": label, "inputs": inp, "why": "not reproduced"})
            elif [l for l in labels if ", also: " not in l] == [l for l in r["labels"] if ", also: " not in l]:
                # (an attribute that is trivially the same is only named by the side on which that is not evident)
                validated += 1
            else:
                diverged.append({"instance": d["name"], "inputs": inp, "symbolic": labels[-3:], "concrete": r["labels"][-3:]})
    write_evidence(prop, tier, mod, loader, results, violations, spurious, validated, diverged, skipped, known, t0,
                   t_import, insts, budget)
    for k in known:
        if k["hit"]:
            print(f"KNOWN-FINDING: property={prop} {k['text']}")
    paths = sum(r.get("paths", 0) for r in results)
    inc = sorted({x for r in results for x in r.get("inconclusive", [])} |
                 {f"unsupported: {u}" for r in results for u in r.get("unsupported", {})} |
                 {f"engine: {r['name']} {r['engine_error'][-200:] if not a.v else r['engine_error']}" for r in results if r.get("engine_error")} |
                 {f"not run: {r['name']}" for r in results if r.get("not_run")})
    print(f"{prop} {tier}: {len(results)} instances, {paths} paths, "
          f"{sum(r.get('discharged', 0) for r in results)} assertions discharged, "
          f"{sum(r.get('queries', 0) for r in results)} queries, {validated} path models replayed, "
          f"{len(diverged)} diverged, {len(spurious)} spurious, {len(inc)} inconclusive kinds, {time.time() - t0:.1f}s")
    if a.v or os.environ.get("SYMX_VERBOSE"):
        for x in inc[:40]:
            print("   inconclusive:", x)
        for x in spurious[:15]:
            print("   spurious:", json.dumps(x)[:400])
        for x in diverged[:15]:
            print("   diverged:", json.dumps(x)[:400])
    import glob as _g
    if not a.only:
        for _p in _g.glob(os.path.join(EVID, "replays", f"{prop}-*.json")):
            os.remove(_p)
    if violations:
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        seen = set()
        for v in violations:
            key = (v["instance"], tuple(v["labels"]))
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(EVID, "replays", f"{prop}-{len(seen)}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "module": modname, "tier": tier, **v,
                           "rerun": f"cd {HERE} && {sys.executable} -m symx.replay --file {path}"}, f, indent=1)
            if len(seen) <= (200 if a.v else 25):
                print(f"  {v['instance']}: {v['labels']} inputs={json.dumps(v['inputs'])[:300]} {v['exception'] or ''}")
                print(f"VIOLATION property={prop} replay={path}")
        return 1
    if not results or paths == 0 or sum(r.get("discharged", 0) for r in results) == 0:
        print(f"INCONCLUSIVE property={prop}: nothing explored")
        return 2
    return 0


def write_evidence(prop, tier, mod, loader, results, violations, spurious, validated, diverged, skipped, known, t0,
                   t_import, insts, budget):
    os.makedirs(EVID, exist_ok=True)
    funcs = sorted({f for r in results for f in r.get("functions", [])})
    conc, uns = {}, {}
    for r in results:
        for k, v in r.get("concretised", {}).items():
            conc[k] = conc.get(k, 0) + v
        for k, v in r.get("unsupported", {}).items():
            uns[k] = uns.get(k, 0) + v
    labels = {}
    for r in results:
        for k, v in r.get("labels", {}).items():
            labels[k] = labels.get(k, 0) + v
    inc = sorted({x for r in results for x in r.get("inconclusive", [])})
    exhausted = all(r.get("exhausted") for r in results) and not uns and not inc
    bounds = getattr(mod, "BOUNDS", "")
    if callable(bounds):
        bounds = bounds(tier)
    samples = [{"instance": r["name"], "inputs": inp, "assertions": labels_[:6]}
               for r in results[:40] for inp, labels_ in r.get("models", [])[:1]][:12]
    coverage = {
        "states": sum(r.get("paths", 0) for r in results),
        "transitions": sum(r.get("decisions", 0) for r in results),
        "traces_validated_against_impl": validated,
        "samples": samples,
        "rule": "states = symbolic paths of the harness explored by re-execution; transitions = branch decisions on "
                "symbolic conditions put to the solver; a trace is validated when the model of a finished path, run "
                "through the untransformed code, reaches the same assertions and all hold",
        "exhausted_within_bounds": bool(exhausted),
        "functions_encoded": {"count": len(funcs), "names": funcs[:400]},
        "modules_encoded": {k: {"path": os.path.relpath(v[0], loader.REPO), "functions": v[1], "sha1": v[2]}
                            for k, v in sorted(loader.ENCODED.items())
                            if any(f.startswith(k[len("mt_metadata."):] + ":") for f in funcs)},
        "bounds": bounds,
        "queries": sum(r.get("queries", 0) for r in results),
        "solver_s": round(sum(r.get("solver_s", 0) for r in results), 2),
        "assertions_discharged": sum(r.get("discharged", 0) for r in results),
        "assertion_labels": dict(sorted(labels.items())[:300]),
        "instances": [{"name": r["name"], "paths": r.get("paths", 0), "exhausted": r.get("exhausted", False),
                       "discharged": r.get("discharged", 0), "wall_s": round(r.get("wall", 0), 2)} for r in results][:400],
        "inconclusive": inc[:60],
        "unsupported_paths": uns,
        "concretised": dict(list(conc.items())[:60]),
        "path_models_diverged": len(diverged),
        "path_models_skipped": skipped,
        "counterexamples_not_reproduced": spurious[:20],
        "violation_records": violations[:20],
        "known_findings_hit": [k["text"] for k in known if k["hit"]],
        "engine_errors": [r["engine_error"][-400:] for r in results if r.get("engine_error")],
        "instances_not_run": [r["name"] for r in results if r.get("not_run")],
        "import_s": round(t_import, 2),
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": COMMON_ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
