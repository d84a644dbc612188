"""Writes MANIFEST.json from the property modules in props/."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
NA = {
    "C25": "Accuracy in units in the last place of transcendental functions over the reals is not "
           "expressible in a TLA+ state model (TLC has 32-bit integers and no reals); a check would "
           "compare with an independent high-precision library, which is a different technique. "
           "The shape of these functions is claimed in C24.",
}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if pid in NA:
        na.append(dict(property=pid, reason=NA[pid]))
    elif os.path.exists(os.path.join(ROOT, "props", pid.lower() + ".py")):
        m = importlib.import_module("props." + pid.lower())
        checks.append(dict(
            property=pid, quick_cmd="python3 check.py %s" % pid,
            thorough_cmd="python3 check.py %s --thorough" % pid,
            evidence_file="evidence/%s.json" % pid,
            technique="TLA+ specification checked with TLC; its cases replayed into the code and "
                      "recorded calls of the code validated against it",
            level="model_checking",
            level_note=getattr(m, "LEVEL_NOTE", "") or
            "TLC explores the model exhaustively within its constants; every generated case is "
            "replayed into the real library, and recorded calls with larger seeded inputs are "
            "judged by the trace specification. Trusts TLC, NumPy's own indexing and "
            "comparisons, and the value abstraction: " + " ".join(m.ASSUMPTIONS)))
    else:
        na.append(dict(property=pid, reason="not built yet"))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks,
                   not_applicable=na,
                   notes="The checks need no hooks: they observe the public API. Each check "
                         "builds a scratch copy of /repo's working tree, runs TLC on the modules "
                         "of spec/ and removes the copy."), f, indent=1)
    f.write("\n")
