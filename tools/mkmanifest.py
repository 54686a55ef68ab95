# Writes MANIFEST.json from checks/registry.py and properties.jsonl.
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks.registry import CHECKS, TECH
NA = {
    "C40": "the library contains no synchronisation; the guarantee depends on the caller's locking, so there is nothing in the source a static rule could judge",
    "C41": "a limit statement over resolutions: it needs numerical analysis of quadrature error for arbitrary curves, which no static rule over the source bounds",
    "C43": "agreement with external reference data is a runtime quantity over bundled examples, not a fact of the source",
    "C44": "running time is a runtime quantity; loop bounds depend on input texts and external containers",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        mod, fn = CHECKS[i][:2]
        t, note = TECH[CHECKS[i][2] if len(CHECKS[i]) > 2 else "ai"]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "bash frontend/build.sh && python3 check.py warm", "checks": checks, "not_applicable": na,
     "notes": "Every check reads /repo's current sources through a clang front end (frontend/fldump.cpp) and decides by abstract interpretation (flai/) or queries over the resolved program; nothing of /repo is executed. FLAI_REPO selects another tree for development only."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
