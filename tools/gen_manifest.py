"""Writes MANIFEST.json from properties.jsonl and specs.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import specs
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = {j.prop for j in specs.jobs()}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        nj = [j for j in specs.jobs() if j.prop == i]
        checks.append(dict(property=i, quick_cmd="python3 tools/run.py %s --tier quick" % i, thorough_cmd="python3 tools/run.py %s --tier thorough" % i,
            technique="bounded symbolic model checking of the C sources with CBMC (SAT), counterexamples replayed natively",
            level="other",
            level_note="Bounds: %s. Outside: %s." % (specs.INFO[i]["bounds"].rstrip("."), specs.INFO[i]["outside"].rstrip("."))))
    else:
        na.append(dict(property=i, reason=specs.NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
    notes="Every check regenerates the generated sources and the encoding from /repo's working tree in a scratch directory it removes. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
