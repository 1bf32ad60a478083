"""Source of /verif/MANIFEST.json (run this file to regenerate it)."""
import json, pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
TECH = "stateless model checking of the real code: exhaustive exploration of task interleavings, cancellations and data choices within deviation bounds, against a reference model"
NOTES = json.loads((ROOT / "tools" / "notes.json").read_text())
checks = []
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    prop = json.loads(line)["id"]
    checks.append({
        "property": prop,
        "quick_cmd": f"/opt/venv/bin/python -B -m mc {prop} quick",
        "thorough_cmd": f"/opt/venv/bin/python -B -m mc {prop} thorough",
        "evidence_file": f"evidence/{prop}.json",
        "technique": TECH,
        "level": "model_checking",
        "level_note": NOTES[prop],
    })
manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '/repo/src'); import mc.run, frequenz.channels\"",
    "checks": checks,
    "not_applicable": [],
}
(ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
