"""Runs the check of each planted bug's property (or, with --all, every check) against a scratch copy of the sources with the patch applied.

Usage: detect.py [--all] [--tier quick] [id ...]"""
import json, os, pathlib, shutil, subprocess, sys, tempfile, time

ROOT = pathlib.Path(__file__).resolve().parent.parent
args = sys.argv[1:]
every = "--all" in args
tier = "thorough" if "--thorough" in args else "quick"
ids = [a for a in args if not a.startswith("--")] or sorted(p.name for p in (ROOT / "seeded").iterdir())
props = [json.loads(line)["id"] for line in (ROOT / "properties.jsonl").read_text().splitlines()]
for ident in ids:
    own = json.loads((ROOT / "seeded" / ident / "meta.json").read_text())["property"]
    scratch = pathlib.Path(tempfile.mkdtemp(prefix=f"det-{ident}-"))
    try:
        subprocess.run(["cp", "-a", "/repo/src", "/repo/.git", scratch], check=True)
        subprocess.run(["git", "-C", scratch, "checkout", "-q", "--", "src"], check=True)
        subprocess.run(["git", "-C", scratch, "apply", ROOT / "seeded" / ident / "patch.diff"], check=True)
        caught, other, missed = [], [], []
        for prop in props if every else [own]:
            start = time.time()
            env = {**os.environ, "MC_REPO_SRC": f"{scratch}/src"}
            res = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "mc", prop, tier], cwd=ROOT, env=env, capture_output=True, text=True)
            ok = res.returncode == 1 and f"VIOLATION property={prop} " in res.stdout
            if ok:
                caught.append(prop)
            elif res.returncode != 0:
                other.append(f"{prop}:exit {res.returncode} {res.stdout[-300:]} {res.stderr[-300:]}")
        print(f"{ident}: {'CAUGHT' if own in caught else 'MISSED'} by {own}; all: {' '.join(caught)} {other or ''} {time.time() - start:.1f} s", flush=True)
    finally:
        shutil.rmtree(scratch)
