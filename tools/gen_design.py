"""writes DESIGN.md: design.head.md, one section per property (from properties.jsonl, checks/*.py, known_findings.txt,
seeded/*/meta.json and ORACLE below), design.tail.md"""
import glob
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {}
exec(open(os.path.join(HERE, "tools", "not_applicable.py")).read())
exec(open(os.path.join(HERE, "tools", "oracles.py")).read())


def section(p, known, seeded):
    i = p["id"]
    out = [f"### {i} {p['title']}", ""]
    f = os.path.join(HERE, "checks", i.lower() + ".py")
    if not os.path.exists(f):
        return out + [f"Not applicable: {NA.get(i, 'no check')}", ""]
    m = importlib.import_module("checks." + i.lower())
    q, t = (m.BOUNDS("quick"), m.BOUNDS("thorough")) if callable(m.BOUNDS) else (m.BOUNDS, m.BOUNDS)
    out += [f"*Decided by* checks/{i.lower()}.py. {ORACLE.get(i, '')}", "", f"*Bounds.* {q}."]
    if t != q:
        out += [f"Thorough: {t}."]
    a = getattr(m, "ASSUMPTIONS", [])
    if a:
        out += ["", "*Assumed, or outside.* " + "; ".join(a) + "."]
    k = [x for x in known if x[1] == i]
    if k:
        out += ["", "*Findings.*"] + [f"- {x[0]}: {x[2]}" for x in k]
    s = [x for x in seeded if x["property"] == i]
    if s:
        out += ["", "*Planted changes.*"] + [f"- `{x['id']}` ({x['caught']}): needs {x['needs']}; {x['what_it_breaks']}." for x in s]
    return out + [""]


def main():
    known = []
    for l in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"^fixed: property=(\S+) (\S+) (.*)$", l)
        if m:
            known.append((f"repaired ({m.group(2)})", m.group(1), m.group(3)))
        m = re.match(r"^known: property=(\S+) instance=(\S+) label=.*? :: (.*)$", l)
        if m:
            known.append(("known", m.group(1), m.group(3) + f" [instances {m.group(2)}]"))
    caught = {}
    f = os.path.join(HERE, "tools", "seeded_results.json")
    if os.path.exists(f):
        caught = json.load(open(f))
    seeded = []
    for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        x = json.load(open(d))
        x["id"] = os.path.basename(os.path.dirname(d))
        x["caught"] = caught.get(x["id"], "caught")
        seeded.append(x)
    out = [open(os.path.join(HERE, "tools", "design.head.md")).read().rstrip(), ""]
    for l in open(os.path.join(HERE, "properties.jsonl")):
        out += section(json.loads(l), known, seeded)
    out.append(open(os.path.join(HERE, "tools", "design.tail.md")).read().rstrip())
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")


main()
