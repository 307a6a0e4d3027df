#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from props.py"""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def line(p):
    a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
    if p["observe"]: a["observe_at"] = p["observe"]
    if p["state"]: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
    a["hook_needed"] = p["hook"]
    assert len(p["title"]) <= 80, p["title"]
    return dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)
with open(V + "/properties.jsonl", "w") as f:
    for p in props.P + props.NA:
        f.write(json.dumps(line(p)) + "\n")
TECH = {"proof": "contract-based deductive verification of the extracted source (Verus/Z3), function by function; bounded replay on the real crate only to find a failing input",
        "exploration": "bounded check of the real code against its contract on generated inputs (stand-in, not counted as proved)"}
NOTE = {"proof": "Every obligation of the functions under contract (evidence: list, solver time, trusted base) is discharged by Verus from /repo's current source on each run. Trusted: extractor, Verus/Z3, the contracts of std/crossbeam/thread parking, machine times below 2^62. A short bounded run of the real crate cross-checks the trusted contracts.",
        "exploration": "Bounded: holds on the generated inputs only."}
m = dict(version=1, setup_cmd="bash tools/setup.sh",
         hooks=dict(guard="--cfg dam_verif", enable="RUSTFLAGS='--cfg dam_verif' when building /verif/witness (path dependency on the crate)",
                    source_commits=["71ca029819e923ff59b3aa3af548e4c461b801fc"]),
         checks=[dict(property=p["id"], quick_cmd=f"python3 tools/check.py {p['id']}", thorough_cmd=f"python3 tools/check.py {p['id']}",
                      technique=TECH[p["level"]], level=p["level"], level_note=(p["note"] + " " if p["note"] else "") + NOTE[p["level"]],
                      evidence_file=f"evidence/{p['id']}.json") for p in props.P],
         not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in props.NA])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
