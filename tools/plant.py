"""Creates planted bugs from tools/bugs/*.py and verifies them in scratch copies (tests pass, demonstration fails with and passes without).

Usage: plant.py [id ...]    Each tools/bugs/<id>.py defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], and DEMO (source of demo.py)."""
import json, os, pathlib, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = pathlib.Path(__file__).resolve().parent.parent
SRC = "src/frequenz/channels/"
BASE = json.loads(pathlib.Path("/opt/vp/BASELINE.json").read_text())["stable"]
DEMO_SH = '#!/bin/bash\n# Run with cwd /repo.\nexport PYTHONPATH=$PWD/src PYTHONDONTWRITEBYTECODE=1\nexec timeout -k 5 60 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def plant(ident):
    bug = runpy.run_path(str(ROOT / "tools" / "bugs" / f"{ident}.py"))
    out = ROOT / "seeded" / ident
    out.mkdir(parents=True, exist_ok=True)
    scratch = pathlib.Path(tempfile.mkdtemp(prefix=f"pl-{ident}-"))
    copy = scratch / "repo"
    try:
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        subprocess.run(["git", "-C", copy, "checkout", "-q", "--", "."], check=True)
        for file, old, new in bug["EDITS"]:
            path = copy / SRC / file
            text = path.read_text()
            if text.count(old) != 1:
                return f"{ident}: {text.count(old)} matches for {old!r}"
            path.write_text(text.replace(old, new))
        diff = subprocess.run(["git", "-C", copy, "diff"], capture_output=True, text=True, check=True).stdout
        (out / "patch.diff").write_text(diff)
        (out / "demo.py").write_text(bug["DEMO"])
        (out / "demo.sh").write_text(DEMO_SH)
        (out / "demo.sh").chmod(0o755)
        (out / "meta.json").write_text(json.dumps({"property": bug["PROPERTY"], "needs": bug["NEEDS"], "what_it_breaks": bug["BREAKS"]}, indent=1) + "\n")
        good = subprocess.run(["bash", out / "demo.sh"], cwd="/repo", capture_output=True, text=True)
        bad = subprocess.run(["bash", out / "demo.sh"], cwd=copy, capture_output=True, text=True)
        msg = f"{ident}: demo {good.returncode}/{bad.returncode}"
        if good.returncode != 0:
            msg += " FAILS-ON-CLEAN " + good.stderr[-300:]
        if bad.returncode == 0:
            msg += " DOES-NOT-FAIL"
        if os.environ.get("NOTEST"):
            return msg
        env = {"HOME": "/root", "LANG": "C.UTF-8", "PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", "PYTHONDONTWRITEBYTECODE": "1",
               "PYTHONHASHSEED": "0", "PYTHONPATH": f"{copy}/src", "PYLINTHOME": str(scratch / "pylint")}
        junit = scratch / "junit.xml"
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "--continue-on-collection-errors",
                        "--hypothesis-seed=0", "-o", "junit_family=xunit2", f"--junitxml={junit}"], cwd=copy, env=env, capture_output=True)
        subprocess.run(["/opt/venv/bin/python", "/opt/vp/stable_ids.py", junit], env=env, capture_output=True)
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", scratch / "out.json", f"junit:{junit}"], env=env, capture_output=True)
        res = json.loads((scratch / "out.json").read_text())
        failed = [t for t in BASE if t not in res.get("passed", [])]
        return msg + (f" tests FAIL {failed}" if failed else " tests ok")
    finally:
        shutil.rmtree(scratch)


ids = sys.argv[1:] or sorted(p.stem for p in (ROOT / "tools" / "bugs").glob("*.py"))
with ThreadPoolExecutor(6) as pool:
    for line in pool.map(plant, ids):
        print(line, flush=True)
