#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, statement.count('. '))
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)),
      dict(property=id, quick_cmd=f"bash run.sh {id} quick", thorough_cmd=f"bash run.sh {id} thorough",
           evidence_file=f"evidence/{id}.json", technique=technique, level="exploration", level_note=note)))
BASE = "Seeded search: it never establishes absence. "
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_table.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, _ in P:
        f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh", checks=[c for _, c in P], not_applicable=[],
  notes="One Rust checker (harness/) decides every property by generated-input search against an explicit oracle; run.sh rebuilds it against /repo's current tree. No hooks in /repo: only its public API is used. replays/ holds shrunk counterexamples; `harness/target/release/htpcheck replay FILE` re-runs one.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
