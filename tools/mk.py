#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list, so that they stay in step."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, I, C, F, H, K = "schedules", "inputs", "configurations", "fault_sequences", "histories", "crash_points"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, claim=None, hook=None):
    """claim: (level note) when a check decides it, or None with reason in na."""
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe, "hook_needed": hook}, claim=claim))


exec(open(os.path.join(V, "tools", "properties.py")).read())

assert len({p["id"] for p in P}) == len(P)
with open(f"{V}/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps({k: v for k, v in p.items() if k != "claim"}) + "\n")
sys.path.insert(0, f"{V}/sim/py")
import props
checks, na = [], []
for p in P:
    c = p["claim"]
    if p["id"] in props.CHECKS:
        assert c["kind"] == "check", p["id"]
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"python3 check.py {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
                       "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
    else:
        na.append({"property": p["id"], "reason": c["reason"] if c["kind"] == "na" else "no check yet: " + c["technique"]})
m = {"version": 1, "setup_cmd": "python3 -c 'print(\"nothing to set up: every check builds what it needs from /repo\")'",
     "hooks": {"guard": "CURA_SIM", "enable": "sim/build.py compiles /repo's sources with -DCURA_SIM and clang's -fsanitize=thread instrumentation, linked against the simulator runtime in sim/rt; no hook in /repo was needed, so the define guards nothing there", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "check.py replay FILE runs a replay file again. KNOWN_FINDINGS lists recorded and fixed defects. DESIGN.md describes the simulator."}
with open(f"{V}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    sch = lambda n: json.load(open(f"/root/.vp/{n}.schema.json"))
    jsonschema.validate(m, sch("MANIFEST"))
    for l in open(f"{V}/properties.jsonl"):
        jsonschema.validate(json.loads(l), sch("PROPERTIES"))
except ImportError:
    pass
print(len(checks), "checks,", len(na), "not claimed,", len(P), "properties")
