"""Programs over mapped receivers (one or two functions, failing for some messages, returning None) of anycast and broadcast
channels, with ready() twice, cancellations, close; every interleaving within the deviation bound.  Oracle: mc/flow.py; the calls
of the functions are recorded and must be exactly the messages handed out, during the operation that hands them out."""

from ..flow import scenario
from ..explore import Scenario
from ..text import Lasso, parse, shared, show, size
from . import c19, c21, c22

PROGRAMS = [
    {"s1": "abc", "p": "r1 >r1 =r1"},
    {"s1": "a none zero", "p": "r1 r1 r1"},
    {"s1": "ab", "p": "~r1 ~r1 r1 ~r1"},
    {"s1": "axb", "p": "r1 r1 r1"},
    {"s1": "xa", "p": "=r1 >r1"},
    {"s1": "axb", "p": "~r1 ~r1 >r1 r1", "c": "#"},
    {"s1": "ab", "p": "r1 r1", "k": "!p"},
    {"s1": "ab", "p": "~r1 r1", "k": "!p"},
    {"s1": "ab", "p": "r1", "q": "r1"},
    {"s1": "ab", "p": "r1 r1 r1", "c": "#"},
    {"s1": "a", "p": ">r1 >r1 >r1", "c": "#"},
    {"s1": "x", "p": "~r1 r1 ~r1", "c": "#", "k": "!p"},
]
MORE = [
    {"s1": "abx", "s2": "c", "p": "r1 r1", "q": "r1 >r1"},
    {"s1": "abc", "p": "~r1 r1 r1", "k": "!p !p"},
    {"s1": "abx", "p": "=r1 =r1 =r1 =r1", "c": "#"},
]
X = "{r1|~r1|>r1|:r1}"
FREE = [
    # (program, bound quick, bound thorough)
    ({"s1": "axb", "p": f"{X} {X} {X}", "c": "#"}, 0, 1),
    ({"s1": "ax", "p": f"{X} {X}", "c": "#"}, 1, 2),
    ({"s1": "none x", "p": X, "q": X, "k": "{!p|!q|#}"}, 1, 1),
    ({"s1": "ab", "p": f"~r1 {X}", "q": f"{X}", "c": "{#|!p}"}, 1, 1),
    ({"s1": "axbc", "p": f"{X} {X} {X} {X}"}, 0, 1),
]
"""Programs in which operations are chosen by the explorer."""
SHAPES = {
    "f(A)": ("map", "f", "A"),
    "g(f(A))": ("map", "g", ("map", "f", "A")),
}


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for kind, limit in (("anycast", 2), ("broadcast", 50)) if not deep else (("anycast", 1), ("anycast", 3), ("broadcast", 50)):
        for shape, expr in SHAPES.items():
            for text, quick, thorough in [(t, -1, -1) for t in PROGRAMS + (MORE if deep else [])] + FREE:
                scripts = parse(text)
                bound = (2 if size(scripts) <= 5 else 1) + deep if quick < 0 else thorough if deep else quick
                out.append(
                    scenario(
                        f"{kind}{limit} {shape} {show(text)}",
                        scripts,
                        channels={"A": (kind, limit)},
                        roots={"r1": expr},
                        aspects={"map", "wait", "stop"},
                        bound=bound,
                    )
                )
            for length in (1, 2, 3, 4)[: 3 + deep]:
                # Long histories: all patterns of operations, repeated again and again.
                out.append(
                    scenario(
                        f"long {kind}{limit} {shape} patterns of {length}",
                        {"u": Lasso(["A:*", "&A:*", "r1", ">r1"], length, 72 // length, shared(limit))},
                        channels={"A": (kind, limit)},
                        roots={"r1": expr},
                        aspects={"map", "wait", "stop"},
                        bound=0,
                    )
                )
    return out + together(deep) + others(deep)


TOGETHER = [
    # (program, bound quick, bound thorough)
    ({"s1": "ab", "p": "~r1 ~r1 r1 r1"}, 1, 2),
    ({"s1": "ab", "p": "~r1 r1", "q": "r1"}, 1, 2),
    ({"s1": "a", "p": "~r1 >r1", "c": "#"}, 1, 2),
    ({"s1": "a", "p": "~r1 r1", "k": "!p"}, 1, 2),
    ({"s1": "ab", "p": "~r1 {r1|~r1} {r1|>r1}"}, 0, 0),
]


def together(deep):
    """A receiver and its maps are used in turns, and hand out each message once all the same."""
    out = []
    for kind, limit in (("anycast", 1), ("anycast", 3), ("broadcast", 50)):
        for name, expr in {
            "A and map(A)": ("twins", ("raw", "map"), "A"),
            "map(A) and map(A)": ("twins", ("map", "map"), "A"),
            "f(A) and map(f(A))": ("twins", ("raw", "map"), ("map", "f", "A")),
            "merge(A) and map(merge(A))": ("twins", ("raw", "map"), ("merge", "A")),
        }.items():
            for text, quick, thorough in TOGETHER:
                out.append(
                    scenario(
                        f"{kind}{limit} {name} {show(text)}",
                        parse(text),
                        channels={"A": (kind, limit)},
                        roots={"r1": expr},
                        aspects={"map", "wait", "stop"},
                        bound=thorough if deep else quick,
                    )
                )
    return out


def others(deep):
    """Maps of timers, events and file watchers behave as these do: their models apply to the map."""
    out = []
    for text in c19.PROGRAMS + [f[0] for f in c19.FREE[:1] + c19.FREE[1:3] * deep]:
        out.append(Scenario(f"event {show(text)}", lambda x, s=parse(text): c19.build(x, s, True), 1 + deep))
    for text in c22.PROGRAMS + c22.VARIANTS:
        for types in ("+~-", "~-"):
            out.append(
                Scenario(
                    f"file {show(text)} {types}",
                    lambda x, s=parse(text), t=types: c22.build(x, s, ["/w/a", "/w/b"], t, True, mapped=True),
                    1 + deep,
                )
            )
    for spec in c21.SPECS:
        out.append(c21.controlled(spec, None, 3 + deep, c21.ALONE, mapped=True))
        for readers in ("r", "y"):
            out.append(c21.controlled(spec, readers, 2 + deep, c21.CONTROL, cancel=True, mapped=True))
    return out
