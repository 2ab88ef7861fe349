"""Writes the table of planted bugs and the checks that catch them into DESIGN.md (between the markers)."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parents[1]
rows = {}
for meta in sorted(ROOT.glob("seeded/*/meta.json")):
    rows.setdefault(json.loads(meta.read_text())["property"], []).append(meta.parent.name)
order = [json.loads(line)["id"] for line in (ROOT / "properties.jsonl").read_text().splitlines()]
text = "| check | catches |\n|---|---|\n" + "".join(f"| {pid} | {', '.join(rows[pid])} |\n" for pid in order if pid in rows)
design = ROOT / "DESIGN.md"
head, rest = design.read_text().split("<!-- catches -->\n")[0], design.read_text().split("<!-- /catches -->\n")[1]
design.write_text(head + "<!-- catches -->\n" + text + "<!-- /catches -->\n" + rest)
