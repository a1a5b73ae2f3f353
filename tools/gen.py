#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, subprocess
from pathlib import Path
V = Path(__file__).resolve().parent.parent

def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["hook_needed"] = hook
    return d, technique, note

EXH = "stateless explicit-state model checking of the real code: exhaustive DFS over every choice sequence (mc.hpp)"
REF = EXH + ", compared step by step with an executable reference model"
props = []
exec((V / "tools" / "props.py").read_text())

ids = [p[0]["id"] for p in props]
assert len(set(ids)) == len(ids)
for p, _, _ in props:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, (p["id"], "more than three sentences")
(V / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p, _, _ in props))

conf = json.loads((V / "harness" / "conf.json").read_text())
checks, na = [], []
for p, t, n in props:
    if p["id"] in conf:
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=t or EXH, level="model_checking", level_note=n or ""))
    else:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "check not built yet")))
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
man = dict(version=1, setup_cmd="python3 check.py setup",
           hooks=dict(guard="SLIDE_VERIF", enable="check.py compiles /repo/src with -DSLIDE_VERIF (plus -DSLIDE_VERIF_T_MODEL=..., -DSLIDE_VERIF_DATASTORE_CELL/_MODULE/_COOL=... where a harness needs another configuration)", source_commits=hooks),
           checks=checks, not_applicable=na,
           notes="Every check rebuilds the library from /repo's working tree into /verif/build (ignored by git), enumerates executions exhaustively within the stated bounds and rewrites evidence/<id>.json. See DESIGN.md.")
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(props), "properties,", len(checks), "claimed")
