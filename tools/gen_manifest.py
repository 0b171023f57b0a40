"""writes MANIFEST.json from the check modules present in checks/ and NOT_APPLICABLE below"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
exec(open(os.path.join(HERE, "tools", "not_applicable.py")).read())
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
PY = "/opt/venv/bin/python"
for p in props:
    i = p["id"]
    f = os.path.join(HERE, "checks", i.lower() + ".py")
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(f):
        checks.append({
            "property": i,
            "quick_cmd": f"PYTHONHASHSEED=0 {PY} -m symx.runner {i} --tier quick",
            "thorough_cmd": f"PYTHONHASHSEED=0 {PY} -m symx.runner {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "symbolic execution of the real Python code (AST-instrumented, regenerated per run) with z3 deciding every branch and assertion; counterexamples replayed on the unmodified code",
            "level": "model_checking",
            "level_note": "bounded: every input value within the stated sizes is covered by solver queries over the explored paths; floats as exact rationals, third-party libraries modelled by shims (models of explored paths are replayed on the real code); unexplored or unknown parts are listed as inconclusive in the evidence",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": f"PYTHONHASHSEED=0 {PY} tools/selftest.py", "checks": checks, "not_applicable": na,
     "notes": "symx: symbolic executor for the Python sources of mt_metadata; see DESIGN.md. No hooks in /repo."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na], "not applicable")
