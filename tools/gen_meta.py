#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, level, note, technique, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level=level, note=note, technique=technique, state=state or [], observe=observe or []))

exec(open(os.path.join(ROOT, "tools", "properties.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                        "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")

man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "verif", "enable": "no hooks were needed: every check drives the public API of the unmodified packages", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"bash run.sh {p['id']} quick",
        "thorough_cmd": f"bash run.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P],
    "not_applicable": NA,
    "notes": "run.sh builds the explorer (Go module mc/) against /repo's working tree and runs one property; see DESIGN.md. known-findings.txt lists recorded findings and repairs.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    print("valid;", len(P), "properties")
except ImportError:
    print("written;", len(P), "properties")
