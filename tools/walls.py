"""slowest instances of a -v log"""
import json, sys
r = []
for l in open(sys.argv[1]):
    if l.startswith('   {"name"'):
        try:
            d = json.loads(l)
            r.append((round(d.get('wall', 0), 1), d['name'], d.get('paths'), d.get('exhausted'), d.get('unsupported'), d.get('crashes', [])[:1] if d.get('crashes') else '', d.get('engine_error', '')[-300:]))
        except Exception:
            pass
r.sort(reverse=True, key=lambda x: x[0])
print(sum(x[0] for x in r))
for x in r[:int(sys.argv[2]) if len(sys.argv) > 2 else 12]:
    print(x)
