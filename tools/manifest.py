"""Writes MANIFEST.json from the checks that exist (run: python3 tools/manifest.py)."""
import json
import pathlib
import re

R = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (R / "properties.jsonl").read_text().splitlines()]
NOTES = json.loads((R / "tools/notes.json").read_text())
checks = []
for p in props:
    i = p["id"]
    assert (R / "mc/checks" / f"{i.lower()}.py").is_file(), i
    checks.append(
        {
            "property": i,
            "quick_cmd": f"/opt/venv/bin/python -m mc.run {i} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python -m mc.run {i} --tier thorough",
            "technique": NOTES[i][0],
            "level": "model_checking",
            "level_note": NOTES[i][1],
        }
    )
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: everything is observed through the public API. Repairs are the commits of /repo starting with 'fix:', listed in known_findings.json.",
}
(R / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
