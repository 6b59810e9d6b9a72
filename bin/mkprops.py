#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "programs/mango-v4/src/"
P = []      # properties
NA = []     # (id, reason)

def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[f if f.startswith(("lib/", "programs/", "ts/", "mango_v4")) else M + f for f in files],
            state=[dict(name=a, meaning=b, where=M + c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b if b.startswith(("lib/", "programs/", "ts/", "mango_v4")) else M + b) for a, b in mech],
            observe_at=observe or ["account states after each processed instruction"], hook_needed=None),
        technique=technique, note=note))

exec(open(os.path.join(V, "bin", "props_table.py")).read())

ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        q = {k: v for k, v in p.items() if k not in ("technique", "note")}
        f.write(json.dumps(q) + "\n")
na = {i for i, _ in NA}
man = dict(version=1, setup_cmd="bash bin/setup.sh",
    checks=[dict(property=p["id"], quick_cmd=f"bash bin/check.sh {p['id']} quick",
        thorough_cmd=f"bash bin/check.sh {p['id']} thorough", evidence_file=f"evidence/{p['id']}.json",
        technique=p["technique"], level="exploration", level_note=p["note"]) for p in P if p["id"] not in na],
    not_applicable=[dict(property=i, reason=r) for i, r in NA],
    notes=NOTES)
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
