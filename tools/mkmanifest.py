"""Writes MANIFEST.json: a check for every property that harness/campaigns.py implements."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import campaigns

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTES = {
}
DEFAULT = ("TLC explores the models exhaustively within the bounds in DESIGN.md; the program is bound to them by recorded executions "
           "(generated by TLC, played against the real binary) that TLC must accept as behaviours of the specification. Assurance for the program is that of "
           "the executions explored; trusted: harness/driver.py, shim.c, world.py and TLC.")
checks, na = [], []
for p in props:
    if hasattr(campaigns, p["id"]):
        f = getattr(campaigns, p["id"])
        checks.append({"property": p["id"], "quick_cmd": f"python3 harness/check.py {p['id']}", "thorough_cmd": f"python3 harness/check.py {p['id']} --thorough",
                       "evidence_file": f"evidence/{p['id']}.json",
                       "technique": "TLA+ specification: TLC model checking, TLC-generated scenarios replayed into the program, TLC trace validation",
                       "level": "model_checking", "level_note": (f.__doc__ + " " if f.__doc__ else "") + DEFAULT})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 harness/check.py --build", "checks": checks, "not_applicable": na,
     "notes": "The program is driven as a black box (scripted node, HTTP client, LD_PRELOAD shim); there are no hooks in /repo."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
