"""Fills DESIGN.md from tools/design.tpl.md and the planted bugs' meta.json."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
MISSED = json.loads((ROOT / "tools/missed.json").read_text()) if (ROOT / "tools/missed.json").exists() else {}
rows = ["| id | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted((ROOT / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs'][:160].replace('|', '/')} | {MISSED.get(d.name, m['property'] + ' check')} |")
s = (ROOT / "tools/design.tpl.md").read_text().replace("@@SEEDS@@", "\n".join(rows)).replace("@@MORE@@\n", "")
(ROOT / "DESIGN.md").write_text(s)
