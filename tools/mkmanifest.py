"""Writes MANIFEST.json from lib/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props as P
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in P.PROPS:
        p = P.PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=p.get("technique", "deterministic simulation with fault injection: seeded search over schedules and faults"),
                           level=p["level"], level_note=p["note"]))
na = [dict(property=i, reason=P.NOT_APPLICABLE.get(i, "Check not built yet.")) for i in ids if i not in P.PROPS]
m = dict(version=1, setup_cmd="python3 lib/build.py",
         hooks=dict(guard="none", enable="No hooks in /repo: the checks build /repo's working tree unchanged against a simulated clock, network, random source and a patched private copy of badger (lib/build.py).", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
