"""Write MANIFEST.json from the properties and the list of claimed ones."""
import json, pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).parent))
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines() if x.strip()]
CLAIMED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33 C34 C35 C36".split()
NOTES = {}
DEFAULT = ("TLC checks the specification's own invariants exhaustively over its bounded state space, and every call the harness makes into /repo "
           "(enumerated, seeded-random and TLC-generated scripts) is validated by TLC as a step of that specification; "
           "calls outside the generated inputs are not covered. Trusted: the specification in spec/, the projection of library objects to its state, exact rationals compared to recorded floats within 4e-6.")
checks = [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']}", "thorough_cmd": f"./check.sh {p['id']} --tier thorough",
           "evidence_file": f"evidence/{p['id']}.json", "technique": "TLA+ specification: TLC model checking of the design + TLC trace validation of recorded library calls (incl. TLC-generated scripts replayed)",
           "level": "model_checking", "level_note": NOTES.get(p["id"], DEFAULT)} for p in props if p["id"] in CLAIMED]
na = [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in CLAIMED]
(V / "MANIFEST.json").write_text(json.dumps({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
   "notes": "No hooks: everything is observed through the public API. See DESIGN.md."}, indent=1) + "\n")
