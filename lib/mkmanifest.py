"""Regenerates MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in ids:
    q = props.PROPS.get(p["id"])
    if not q:
        na.append(dict(property=p["id"], reason=props.NOT_APPLICABLE.get(p["id"], "its specification is not written yet")))
        continue
    mods = [m["mod"] for m in q.get("models", [])] + [b["mod"] for b in q.get("bound", [])]
    checks.append(dict(
        property=p["id"], quick_cmd=f"./check {p['id']}", thorough_cmd=f"./check {p['id']} --thorough",
        technique="TLA+ specification " + "+".join(mods) + " checked with TLC; its behaviours replayed into the real broker "
                  "and every recorded execution validated against it by TLC",
        level=q.get("level", "model_checking"),
        level_note=q.get("note", "The specification's invariants are checked exhaustively for small constants; the code is bound "
                         "to it by thousands of replayed behaviours whose recorded traces TLC must accept, so assurance for the "
                         "code is that of the explored behaviours. Trusts the offline stand-in for the mqtt-proto codec and TLC.")))
json.dump(dict(version=1, setup_cmd="./check --build",
               hooks=dict(guard="none", enable="no hooks in /repo: the checks drive the public and HTTP-free entry points", source_commits=[]),
               checks=checks, not_applicable=na,
               notes="See DESIGN.md. known-findings.txt lists findings and repaired defects."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
