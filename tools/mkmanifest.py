"""Rewrites MANIFEST.json from the contract registry and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import contracts
reg = contracts.registry()
cov = {}
for c in reg:
    for p in c.props:
        cov.setdefault(p, []).append(c.qual)
NOTE = json.load(open("tools/notes.json"))
checks, na = [], []
for l in open("properties.jsonl"):
    d = json.loads(l)
    i = d["id"]
    if i in cov and os.path.exists("oracles/o_%s.py" % i.lower()):
        checks.append({"property": i, "quick_cmd": "python3-vt check.py %s" % i, "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
                       "technique": "contract-based deductive verification of the real functions (own VC generator over the AST read from /repo on every run, z3 as back end); failing inputs by running the real code",
                       "level": "proof", "level_note": NOTE.get(i, "%d functions under contract; floating point as real arithmetic; see DESIGN.md" % len(set(cov[i])))})
    else:
        na.append({"property": i, "reason": "not claimed yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open("MANIFEST.json", "w"), indent=1)
print([c["property"] for c in checks])
