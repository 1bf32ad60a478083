"""Programs of batches of file changes (all types, several files, files and directories not configured, the same file repeatedly),
the end of the watch, and receives, ready(), consume(), iteration by one or two tasks; every interleaving within the deviation bound,
changes collected by the watch into one batch or not.  Oracle: mc/files.py (stand-in of the operating system watch and model)."""

import pathlib
import re

from ..chan import World
from ..explore import Scenario
from ..files import FileOracle
from ..text import Lasso, parse, show, size

PROGRAMS = [
    {"p": "f f", "s": "os(+a) os(~a)"},
    {"p": "f >f =f", "s": "os(+a,~a,-a)"},
    {"p": "f f f", "s": "os(+a,~a) os(-a)"},
    {"p": "~f ~f f ~f f", "s": "os(+a) os(~a,-a)"},
    {"p": "=f f f", "s": "os(+a,~b) os(+a)"},
    {"p": "f f", "s": "os(+z) os(+a) os(~z) os(~a)"},
    {"p": "f f", "s": "os(+a) os(end)"},
    {"p": "~f ~f f", "s": "os(end)"},
    {"p": "f ~f f", "s": "os(+a,-a) os(end)"},
    {"p": "f ~f >f f", "s": "os(+a,~a) os(-a) os(end)"},
    {"p": ">f >f >f", "s": "os(~d/x,+d) os(-d/y/z) os(end)"},
    {"p": "f f", "q": "f", "s": "os(+a,-a) os(~a)"},
    {"p": "f", "q": "~f f", "s": "os(+a)", "k": "os(end)"},
    {"p": "f f f f", "s": "os(+a,+b,+c) os(-a,-b,-c)"},
    {"p": "f", "s": "os(+a,+b.pyc)", "q": "f f"},
]
MORE = [
    {"p": "f f f", "q": "f f", "s": "os(+a,~a) os(-a,+a) os(end)"},
    {"p": "~f f ~f f ~f f", "s": "os(+a) os(~a) os(-a)", "k": "os(end)"},
    {"p": "f f f f", "s": "os(+a,~b)", "k": "os(-b,~a) os(end)"},
    {"p": "=f =f", "q": "~f >f f", "s": "os(+a,~b) os(end)"},
]
X = "{f|~f|:f|>f}"
O = "{os(+a)|os(~a,-a)|os(+z,~b)|os(end)}"
FREE = [
    # (program, bound quick, bound thorough)
    ({"p": f"{X} {X} {X}", "s": f"{O} {O}"}, 0, 1),
    ({"p": f"{X} {X}", "s": f"{O} {O} {O}"}, 0, 0),
    ({"p": f"{X} {X}", "q": X, "s": O, "k": "os(-a,~b,-b)"}, 0, 1),
    ({"p": f"{X} {X} {X} {X}", "s": f"{O} {O} {O}"}, -1, 0),
]
"""Programs in which operations are chosen by the explorer (-1: not run)."""
CONFIGS = [
    (["/w/a", "/w/b", "/w/b.pyc"], "+~-"),
    ([pathlib.Path("/w/a"), "/w/d", "/w/c", "/w/b"], "+-"),
    (["/w"], "~"),
]


GIVEN = {
    "list": list,
    "tuple": tuple,
    "set": set,
    "frozenset": frozenset,
    "generator": iter,
    "dict": dict.fromkeys,
    "twice": lambda types: [t for t in types for _ in range(2)],
}
"""How the event types are given."""
VARIANTS = [
    {"p": "f f f f", "s": "os(+a,~a) os(-a) os(~b,+b) os(end)"},
    {"p": "~f =f >f f", "s": "os(+a,-b) os(~a)"},
]
NAMES = [
    {"p": "f f f", "s": "os(+.git/x,~a~,-b.swp)"},
    {"p": "f f f f", "s": "os(+__pycache__/x.pyc) os(~.#a,-a%b) os(+node_modules/y,-.hidden)"},
    {"p": "f f", "s": "os(+.DS_Store) os(~#a#)", "q": "f"},
]
"""Changes of files with names which tools often ignore."""
SPELLINGS = [
    ({"p": "f f f", "s": "os(+../w/a,~d/../a)"}, ["/w/../w/a", "/w/d/../a"]),
    ({"p": "f f f", "s": "os(+../../w/b) os(-a%b)", "q": "~f"}, ["../b", "/w/../../w/b", pathlib.Path("/w") / ".." / "w" / "a b"]),
    ({"p": "f f f", "s": "os(+A,-a) os(~a)"}, ["/w/a", "/w/A"]),
    ({"p": "f f f", "s": "os(+~,~$HOME,-x*)"}, ["~", "$HOME", "x*"]),
    ({"p": "f f f", "s": "os(+a) os(-rel)"}, ["a", pathlib.Path("rel"), "./rel"]),
]
"""Paths are reported as the system spells them."""
PATHS = [
    (["/w/a", "/w/a", pathlib.Path("/w/a")], "+~-"),
    ([pathlib.PurePosixPath("/w") / "a", "/w/b"], "-~"),
    (["/w/b", "/w", "/w/a"], "+"),
    ([pathlib.Path("/w/a")] * 6 + ["/w/b"], "+~"),
]


def build(x, scripts, paths, types, merge, given=None, mapped=False):
    w = World(x)
    oracle = FileOracle(x, w, "f", paths=paths, types=types, merge=merge, given=given)
    if mapped:
        w.map("f")
    w.program(scripts)

    def final():
        drv = x.drain(oracle.epilogue)
        if not drv.done:
            x.fail(f"{drv.current.show() if drv.current else 'the epilogue'} waits forever")
        oracle.check()

    x.final_hooks.append(final)


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    free = [f for f in FREE if deep or f[1] >= 0]
    for text, quick, thorough in [(t, None, None) for t in PROGRAMS + (MORE if deep else [])] + free:
        scripts = parse(text)
        bound = (2 if size(scripts) <= 5 else 1) + deep if quick is None else thorough if deep else quick
        for n, (paths, types) in enumerate(CONFIGS):
            for merge in (True, False):
                out.append(
                    Scenario(
                        f"{show(text)} paths={n} types={types} merge={merge}",
                        lambda x, s=scripts, p=paths, t=types, m=merge: build(x, s, p, t, m),
                        bound,
                    )
                )
    for text in VARIANTS:
        for paths, types in [(["/w/a"], "+~-"), (["/w/a", "/w/b"], "~"), (["/w"], "+-"), (["/w"], "")]:
            for how, given in GIVEN.items():
                out.append(
                    Scenario(
                        f"{show(text)} paths={[str(p) for p in paths]} types={types!r} given as {how}",
                        lambda x, s=parse(text), p=paths, t=types, g=given: build(x, s, p, t, True, g),
                        deep,
                    )
                )
    for text, configs in [(t, [(["/w"], t2) for t2 in ("+~-", "+", "-~")]) for t in NAMES] + [(t, PATHS) for t in VARIANTS] + [
        (t, [(p, "+~-"), (p, "+-")]) for t, p in SPELLINGS
    ]:
        for paths, types in configs:
            for merge in (True, False):
                out.append(
                    Scenario(
                        f"{show(text)} paths={[str(p) for p in paths]} types={types} merge={merge}",
                        lambda x, s=parse(text), p=paths, t=types, m=merge: build(x, s, p, t, m),
                        1 + deep,
                    )
                )
    # The order of the changes in a batch depends on the names of the files.
    for text in (PROGRAMS[2], PROGRAMS[3], PROGRAMS[8], PROGRAMS[9], PROGRAMS[11], VARIANTS[0]):
        for suffix in "23":
            renamed = {who: re.sub(r"(?<=[+~-])a\b", f"a{suffix}", script) for who, script in text.items()}
            for types in ("+~-", "~-", "+~"):
                out.append(
                    Scenario(
                        f"{show(renamed)} types={types}",
                        lambda x, s=parse(renamed), p=f"/w/a{suffix}", t=types: build(x, s, [p, "/w/b"], t, True),
                        1 + deep,
                    )
                )
    for types in ("+~-", "+"):
        # Long histories: all patterns of changes, repeated again and again.
        words = ["os(+a*)", "&os(+a*,+b*,-a*)", "os(-b*,~c*)", "&os(~a)"]
        for length in range(1, 4 + deep):
            script = Lasso(words, length, 60 // length)
            out.append(
                Scenario(
                    f"long patterns of {length} {words} types={types}",
                    lambda x, s=script, t=types: build(x, {"p": parse({"p": "&f &>f &~f " * 100})["p"], "u": s}, ["/w"], t, True),
                    0,
                )
            )
    return out
