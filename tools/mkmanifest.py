"""Writes MANIFEST.json from properties.jsonl, the check modules present and the reasons below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
LEVEL_NOTE = {}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "checks", p.lower() + ".py")) and p not in NA:
        checks.append(
            {
                "property": p,
                "quick_cmd": f"./check.sh {p} quick",
                "thorough_cmd": f"./check.sh {p} thorough",
                "evidence_file": f"evidence/{p}.json",
                "technique": "bounded symbolic execution of the repository's Python source, obligations decided by z3",
                "level": "model_checking",
                "level_note": LEVEL_NOTE.get(
                    p,
                    "every path of the functions named in the evidence within its stated bounds; real arithmetic, counterexamples replayed on the real code in doubles",
                ),
            }
        )
    else:
        na.append({"property": p, "reason": NA.get(p, "check under construction")})
out = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
