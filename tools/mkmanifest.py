"""writes MANIFEST.json; run after adding a check to lib/run.py"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import run  # noqa: E402

CORE = ("TLA+ spec HgdbCore (session state machine): TLC explores it exhaustively on small designs and at random on larger ones, checking "
        "invariants; every behaviour is replayed over WebSocket into the real debugger on a mock simulator and each message compared")
CORE_NOTE = ("Bounded: generated designs of up to 12 statements / 3 child instances / 2 occurrences (plus 36 instances for the threaded "
             "evaluation), behaviours of 24-34 requests, exhaustive runs of 4-9 actions. Trusts the mock VPI simulator, the in-memory symbol "
             "table and the transcription of the statement into the spec.")
T = {}
N = {}
SPECIAL = {}
exec(open(os.path.join(V, "tools", "techniques.py")).read()) if os.path.exists(os.path.join(V, "tools", "techniques.py")) else None
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash lib/build.sh build/main -- session >/dev/null 2>&1; true",
     "checks": [], "not_applicable": []}
for p in props:
    if p in run.PARTS:
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                            "technique": T.get(p, CORE), "level": "model_checking", "level_note": N.get(p, CORE_NOTE)})
    else:
        m["not_applicable"].append({"property": p, "reason": "not claimed yet: its specification and conformance check are still being built"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
