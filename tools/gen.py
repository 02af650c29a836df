#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list, so that they stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "BayesicFitting/source/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=[S + f for f in files], mech=mech, observe=observe, technique=technique, note=note, state=state))


exec(open(os.path.join(V, "tools", "props.py")).read())

na = []
checks = []
with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w if w.startswith(S) else S + w} for n, w in p["mech"]],
             "observe_at": p["observe"], "hook_needed": None}
        if p["state"]:
            a["state"] = p["state"]
        assert len(p["title"]) <= 80, p["title"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}
        fh.write(json.dumps(d) + "\n")
        if os.path.exists(os.path.join(V, "checks", p["id"] + ".py")):
            cmd = "/opt/venv/bin/python run.py %s" % p["id"]
            checks.append({"property": p["id"], "quick_cmd": cmd + " --tier quick", "thorough_cmd": cmd + " --tier thorough",
                           "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "no check has been built for it yet"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties", len(checks), "checks")
