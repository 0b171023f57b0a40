"""compact summary of the replays of the last run: python tools/viol.py C01"""
import glob, json, sys
pid = sys.argv[1]
for p in sorted(glob.glob(f"/verif/evidence/replays/{pid}-*.json")):
    d = json.load(open(p))
    print(d["instance"], d["labels"], json.dumps(d["inputs"])[:90], (d.get("exception") or "")[:150].replace("\n", " "))
