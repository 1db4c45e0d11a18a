"""Writes MANIFEST.json from the harness modules present in props/."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(HERE, "tools", "level_notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "props", i + ".py")):
        n = NOTES.get(i, {})
        checks.append(dict(
            property=i, quick_cmd=f"bash /verif/run.sh {i} quick",
            thorough_cmd=f"bash /verif/run.sh {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique=n.get("technique", "contract-based deductive "
                            "verification: contracts on the real functions, "
                            "obligations generated from /repo's source by "
                            "symbolic execution and discharged by z3"),
            level=n.get("level", "proof"),
            level_note=n.get("note", "See DESIGN.md.")))
    else:
        na.append(dict(property=i, reason="no check built yet"))
out = dict(version=1,
           setup_cmd="PYTHONPATH=/opt/veriftools/pyvenv/lib/python3.12/site-packages "
                     "/opt/venv/bin/python -c 'import z3, joblib, deepdiff, "
                     "jsonpickle, autopep8'",
           checks=checks, not_applicable=na,
           notes="No hooks in /repo. known_findings.json lists findings and "
                 "fixes. Engine: pyvc/, contracts: props/.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
