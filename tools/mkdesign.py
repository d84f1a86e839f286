"""Writes /verif/DESIGN.md: hand-written parts below, per-property parts from the monitors themselves, seeded bugs from tools/seeded_results.json."""
import importlib, json, pathlib, sys

V = pathlib.Path("/verif")
sys.path.insert(0, str(V))
from mon.core import counts

HEAD = (V / "tools" / "design_head.md").read_text()
WHY = json.loads((V / "tools" / "design_notes.json").read_text())
P = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
out = [HEAD, "## The properties and their monitors\n"]
for p in P:
    m = importlib.import_module("mon.props." + p["id"])
    out.append(f"### {p['id']} — {p['title']}\n")
    out.append("*Observed and decided:* " + m.RULE + "\n")
    out.append("*Cases (quick / thorough):* " + ", ".join(f"{k} {a}/{b}" for k, (a, b) in counts(p["id"], m).items()) + ". *Least observations for a verdict:* " + ", ".join(f"{k} {v}" for k, v in m.NEED.items()) + ".\n")
    if WHY.get(p["id"]):
        out.append("*Reach and limits:* " + WHY[p["id"]] + "\n")
    if getattr(m, "ASSUMPTIONS", None):
        out.append("*Assumes:* " + "; ".join(m.ASSUMPTIONS) + ".\n")
out.append((V / "tools" / "design_fixes.md").read_text())
R = V / "tools" / "seeded_results.json"
if R.exists():
    out.append("## Planted bugs\n")
    out.append((V / "tools" / "design_seeded.md").read_text())
    out.append("| bug | property | needs | caught by |\n|---|---|---|---|")
    for b, r in sorted(json.loads(R.read_text()).items()):
        out.append(f"| {b} | {r['property']} | {r['needs']} | {', '.join(r['caught']) or '—'} |")
(V / "DESIGN.md").write_text("\n".join(out) + "\n")
