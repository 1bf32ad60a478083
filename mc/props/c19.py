"""Programs of set(), stop(), waiting, cancelled and shared receives, ready() and consume() and state queries on one event; every
interleaving within the deviation bound.  Oracle: a flag (mc/event.py)."""

from ..chan import World
from ..event import EventOracle
from ..explore import Scenario
from ..text import Lasso, parse, shared, show, size

PROGRAMS = [
    {"p": "e e", "k": "set(e) set(e)"},
    {"p": "~e ~e e flags(e)", "k": "set(e) flags(e) set(e)"},
    {"p": "=e =e", "k": "set(e) set(e)", "q": "flags(e)"},
    {"p": ">e >e", "k": "set(e) estop(e)"},
    {"p": "e e", "k": "set(e) estop(e) flags(e)"},
    {"p": "~e ~e", "k": "set(e) estop(e)"},
    {"p": "~e .e ~e", "k": "set(e)", "q": "estop(e)"},
    {"p": "e", "q": "e", "k": "set(e) set(e)"},
    {"p": "~e", "q": "e e", "k": "set(e) estop(e)"},
    {"p": "e", "q": ">e", "k": "estop(e) flags(e)"},
    {"p": "e", "q": "e", "k": "set(e)", "c": "estop(e)"},
    {"p": "e e", "k": "set(e) set(e)", "c": "!p"},
    {"p": "~e e", "k": "set(e) estop(e)", "c": "!p"},
    {"p": "e", "q": "e", "k": "set(e)", "c": "!p"},
    {"k": "estop(e) flags(e)", "p": "e ~e e"},
    {"k": "set(e) set(e)", "c": "estop(e)", "p": "e e"},
]
MORE = [
    {"p": "e e e", "k": "set(e) set(e) set(e)", "c": "estop(e)"},
    {"p": "=e e", "q": "flags(e)", "k": "set(e) set(e)", "c": "estop(e)"},
    {"p": "e e", "q": "e", "o": "~e", "k": "set(e) set(e)"},
    {"p": "e e", "q": "e", "k": "set(e) set(e) estop(e)", "c": "!p"},
    {"p": "~e e ~e e", "k": "set(e) set(e) estop(e)", "c": "!p !p"},
]

X = "{e|~e|:e|>e}"
K = "{set(e)|estop(e)}"
FREE = [
    # (program, bound quick, bound thorough)
    ({"p": f"{X} {X} {X}", "k": f"{K} {K}"}, 1, 2),
    ({"p": f"{X} {X} {X} {X}", "k": f"{K} {K} {K}"}, 0, 1),
    ({"p": f"{X} {X}", "q": "{e|~e|!p}", "k": f"{K} {K}"}, 1, 2),
    ({"p": f"{X} {X}", "q": f"{X} flags(e)", "k": f"{K} {K}", "c": "{!p|!q}"}, 0, 1),
    ({"p": "e {e|:e}", "q": "e", "o": "~e {e|:e}", "k": f"set(e) &{K} {K}"}, 0, 1),
]
"""Programs in which operations are chosen by the explorer."""


def build(x, scripts, mapped=False):
    w = World(x)
    oracle = EventOracle(x, w, "e")
    if mapped:
        w.map("e")
    w.program(scripts)

    def final():
        drv = x.drain(oracle.epilogue)
        if not drv.done:
            x.fail(f"{drv.current.show() if drv.current else 'the epilogue'} waits forever")
        oracle.check()

    x.final_hooks.append(final)


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for text, quick, thorough in [(t, -1, -1) for t in PROGRAMS + (MORE if deep else [])] + FREE:
        scripts = parse(text)
        bound = (3 if size(scripts) <= 5 else 2) + deep if quick < 0 else thorough if deep else quick
        out.append(Scenario(show(text), lambda x, s=scripts: build(x, s), bound))
    for length in range(1, 4 + deep):

        def long(x, length=length):
            w = World(x)
            oracle = EventOracle(x, w, "e")
            # Long histories: all patterns of operations, repeated again and again.
            w.program({"u": Lasso(["set(e)", "e", "=e", "flags(e)", "&>e"], length, 72 // length, shared(1))})
            x.final_hooks.append(oracle.check)

        out.append(Scenario(f"long patterns of {length}", long, 0))
    return out
