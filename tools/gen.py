#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **k):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **k)))
CLAIM = {}   # id -> (technique, level_note)
NA = {}      # id -> reason
exec(open(os.path.join(V, "tools", "props.py"), encoding="utf-8").read())
with open(os.path.join(V, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
ids = [p["id"] for p in P]
assert len(set(ids)) == len(ids)
for i in ids: assert (i in CLAIM) != (i in NA), i
m = dict(version=1, setup_cmd="bash /verif/build.sh",
  checks=[dict(property=i, quick_cmd=f"bash /verif/check.sh {i} quick", thorough_cmd=f"bash /verif/check.sh {i} thorough",
      evidence_file=f"evidence/{i}.json", technique=CLAIM[i][0], level="other", level_note=CLAIM[i][1]) for i in ids if i in CLAIM],
  not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i in NA],
  notes="Static analysis only: an abstract interpreter over the go/ssa form of /repo's current source. No repository code is executed. See DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
