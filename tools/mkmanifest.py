"""Write MANIFEST.json from the registry below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = ("TLC checks the TLA+ module exhaustively within the stated constants; "
     "conformance binds it to the code: %s  Assumes the tagged-value "
     "encoding of harness/pyval.py and that behaviour outside the modelled "
     "domain does not differ.")
REPLAY = "every transition TLC emits is replayed on fresh real objects."
TRACE = "seeded executions of the real code are judged event by event by TLC."
BOTH = ("every transition TLC emits is replayed on fresh real objects and "
        "seeded recorded executions are judged event by event by TLC.")

# property: (technique, how bound)
from claimed import CLAIMED  # noqa

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
na = []
for p in props:
    pid = p["id"]
    if pid in CLAIMED:
        tech, note = CLAIMED[pid]
        checks.append({
            "property": pid,
            "quick_cmd": "./run_check.sh %s" % pid,
            "thorough_cmd": "./run_check.sh %s thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": tech,
            "level": "model_checking",
            "level_note": A % {"replay": REPLAY, "trace": TRACE,
                               "both": BOTH}[note],
        })
    else:
        na.append({"property": pid,
                   "reason": "no check built yet (work in progress)"})
m = {"version": 1,
     "setup_cmd": "./run_check.sh --setup",
     "checks": checks,
     "not_applicable": na,
     "notes": "No hooks in /repo: normalize is a sequential library whose "
              "linearization points are the returns of public calls."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
