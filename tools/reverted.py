"""Reverts each fix: commit of /repo in a scratch copy and runs the check of its property: it must report the violation again."""
import json, os, pathlib, shutil, subprocess, sys, tempfile

ROOT = pathlib.Path(__file__).resolve().parent.parent
for entry in json.loads((ROOT / "known_findings.json").read_text())["fixed"]:
    print(entry if isinstance(entry, str) else entry) if "-v" in sys.argv else None
    text = entry if isinstance(entry, str) else entry.get("line", json.dumps(entry))
    prop = text.split("property=")[1].split()[0]
    commit = text.split("property=")[1].split()[1]
    scratch = pathlib.Path(tempfile.mkdtemp(prefix="rev-"))
    try:
        subprocess.run(["git", "clone", "-q", "/repo", scratch / "repo"], check=True)
        res = subprocess.run(["git", "-C", scratch / "repo", "revert", "-n", commit], capture_output=True, text=True)
        if res.returncode:
            print(prop, commit, "does not revert:", res.stderr.splitlines()[:1])
            continue
        env = {**os.environ, "MC_REPO_SRC": f"{scratch}/repo/src"}
        res = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "mc", prop, "quick"], cwd=ROOT, env=env, capture_output=True, text=True)
        print(prop, commit, "CAUGHT" if res.returncode == 1 and f"VIOLATION property={prop} " in res.stdout else f"exit {res.returncode}", flush=True)
    finally:
        shutil.rmtree(scratch)
