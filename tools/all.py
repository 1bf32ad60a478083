"""Runs every check once (quick, or the tier given) and prints its last line, its exit code and its time.
Usage: tools/all.py [quick|thorough] [ids]"""
import json, pathlib, subprocess, sys, time
ROOT = pathlib.Path(__file__).resolve().parent.parent
tier = sys.argv[1] if len(sys.argv) > 1 else "quick"
ids = sys.argv[2:] or [c["property"] for c in json.loads((ROOT / "MANIFEST.json").read_text())["checks"]]
for i in ids:
    t = time.monotonic()
    r = subprocess.run(["/opt/venv/bin/python", "-m", "mc", i, tier], cwd=ROOT, capture_output=True, text=True)
    lines = (r.stdout + r.stderr).strip().splitlines() or [""]
    noted = [x[:150] for x in lines if x.startswith(("VIOLATION", "KNOWN-FINDING"))]
    print(f"{i} rc={r.returncode} {time.monotonic() - t:.1f}s {lines[-1][:230]}", *noted, sep="\n   ", flush=True)
