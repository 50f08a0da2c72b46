"""Writes MANIFEST.json: one check per rule module, the rest not applicable."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
LEVEL = ("Decided over every path of the listed functions (loops unrolled to the stated bound, callees inlined or "
         "summarised as opaque terms); sound for the rules stated in DESIGN.md, not a proof of the sentence as a whole.")
TECH = json.loads((ROOT / "tools/techniques.json").read_text())
NA = json.loads((ROOT / "tools/not_applicable.json").read_text())

props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines() if x.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if (ROOT / f"zcheck/rules/{i.lower()}.py").exists():
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} --tier quick", "thorough_cmd": f"python3 check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH.get(i, TECH["*"]), "level": "other", "level_note": LEVEL})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet: the rules for this property are specified in DESIGN.md but not implemented")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Pure standard-library Python static analysis of /repo/zigpy (and the schema SQL files). No hooks; nothing in /repo is executed."}
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not applicable")
