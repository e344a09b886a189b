"""Writes /verif/MANIFEST.json from the harness modules that exist."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
ids = [json.loads(l)["id"] for l in open(V / "properties.jsonl")]
NOTE = {
 "C01": "Exhaustive small lattices, simulated larger ones; exact rational oracle from the specification; relative tolerance 1e-9.",
 "C02": "As C01 with every region scheme; trusts only the term interpreter.",
 "C08": "All words of calls to the bound; availability table is part of the specification.",
 "C09": "All short words and simulated long ones, one or two sections; values compared with a fresh section's after every step.",
 "C19": "Tables parsed in every lifecycle state reached; labels and order-free row multiset from the specification.",
 "C20": "Every plot request of the specification in the lives of the bound; the figure's artists are read back and compared with the layers specified.",
}
TECH = "TLA+ specification checked with TLC; its behaviours replayed step by step into the real code"
checks, na = [], []
for i in ids:
    if (V / "harness" / f"{i.lower()}.py").exists():
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick",
                       "thorough_cmd": f"bash check.sh {i} thorough", "technique": TECH,
                       "level": "model_checking",
                       "level_note": NOTE.get(i, "TLC-generated behaviours replayed into the code; bounded lattice/parameter families.")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "bash check.sh selftest", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. See DESIGN.md."}, open(V / "MANIFEST.json", "w"), indent=1)
