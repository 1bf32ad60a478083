"""Pipelines: maps of maps, merged maps, mapped mergers, mergers of mergers, all of them in a select() loop or received from directly,
and channels forwarded into other channels by a task (with full buffers); sources closed in every order; all interleavings within the
deviation bound, several orders of task sets.  Oracle: mc/flow.py and mc/selecting.py: end to end exactly once, in order per path,
functions applied as composed, everything stops once the sources are closed, no tasks left."""

from .. import mixed
from ..selecting import scenario
from ..text import Lasso, parse, shared, show, size
from .c14 import channels_of

A, B, C, D = "A", "B", "C", "D"
E = ("event",)
NESTED = {
    "merge of maps": ("merge", ("map", "f", A), ("map", "g", B)),
    "map of merge": ("map", "f", ("merge", A, B)),
    "map of merge of maps": ("map", "h", ("merge", ("map", "f", A), B)),
    "merge of merges": ("merge", ("merge", A, B), C),
    "merge of mapped merge": ("merge", ("map", "f", ("merge", A, B)), C),
}
DIRECT = [
    {"s1": "A:a B:b #A #B", "p": "m >m =m"},
    {"s1": "A:a A:c", "s2": "B:b #B", "p": "~m m m m"},
    {"s1": "A:a B:b #B #A", "p": "m m", "q": "m m"},
]
FORWARD = [
    ({"w": A, "r1": B}, {"s1": "A:a A:b A:c #A", "o": "w->B", "p": "r1 r1"}),
    ({"w": ("merge", A, C), "r1": ("map", "f", B)}, {"s1": "A:a C:c #A #C", "o": "w->B", "p": "~r1 r1"}),
    ({"w": A, "m": ("merge", B, C)}, {"s1": "A:a C:c #A A:b", "o": "w->B", "p": "m m"}),
    ({"w": A, "w2": B, "r1": C}, {"s1": "A:a A:b #A", "o": "w->B", "q": "w2->C", "p": "r1"}),
    ({"w": A, "r1": B}, {"s1": "A:a A:b A:c A:d #A", "o": "w->B"}),
]
SELECT = [
    ({"m": ("merge", ("map", "f", A), B), "r1": ("map", "g", C)}, {"s1": "A:a B:b C:c #A #B #C"}),
    ({"m": ("map", "f", ("merge", A, B)), "e": E}, {"s1": "A:a B:b #B", "k": "set(e)"}),
    ({"m": ("merge", ("merge", A, B), C)}, {"s1": "A:a C:c B:b #C #A #B"}),
    ({"m": ("merge", A, B), "m2": ("merge", C, D)}, {"s1": "A:a C:c B:b D:d #A"}),
]
FORWARDED_SELECT = [
    ({"w": A, "r1": B, "r2": C}, {"s1": "A:a C:c A:b #A #C", "o": "w->B"}, "r1,r2"),
    ({"w": ("merge", A, C), "r1": B, "e": E}, {"s1": "A:a C:c #A #C", "o": "w->B", "k": "estop(e)"}, "r1,e"),
]

WRAP = [
    # Pipelines that are built on top of receivers already in use.
    ({"m": ("merge", A, B)}, {"s1": "A:a B:b A:d C:c", "p": "m wrap(m,merge,C) m m"}),
    ({"m": ("merge", A, B)}, {"s1": "A:a B:b C:c #A #B #C", "p": "~m wrap(m,merge,C) {m|~m} m"}),
    ({"m": A}, {"s1": "A:a A:b C:c #A #C", "p": "~m wrap(m,merge,C) {m|~m} m"}),
    ({"m": A}, {"s1": "A:a A:b #A", "p": "~m wrap(m,map,f) {m|~m} m"}),
    ({"m": ("map", "f", A)}, {"s1": "A:a A:b B:c", "p": "~m wrap(m,merge,B) m m"}),
    ({"m": ("merge", A, B)}, {"s1": "A:a B:b #A", "p": "{m|~m} wrap(m,map,f) m {m|~m}"}),
    ({"m": ("merge", A, B)}, {"s1": "A:a B:b A:c", "p": "~m wrap(m,map,f) wrap(m,merge,A) m"}),
]
LONG = [
    ({"w": A, "r1": B}, {"o": "&w->B"}, ["A:*", "&A:*", "r1", ">r1"]),
    ({"w": ("merge", A, C), "r1": ("map", "f", B)}, {"o": "&w->B"}, ["A:*", "&C:*", "r1"]),
    ({"m": ("merge", ("map", "f", ("merge", A, B)), C)}, {}, ["A:*", "B:*", "&C:*", "m", ">m"]),
]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    aspects = {"wait", "stop", "leak", "map"}

    def add(kind, limit, order, roots, text, user=None, minus=0):
        scripts = parse(text)
        n = size(scripts)
        if user:
            scripts["p"] = [("select", user, {})]
        out.append(
            scenario(
                f"{kind}{limit} {order} {roots} {show(text)} {user}",
                scripts,
                channels=channels_of(roots, kind, limit) | {c: (kind, limit) for c in (A, B, C) if f",merge,{c})" in str(text)},
                roots=roots,
                aspects=aspects,
                bound=max(0, (1 if n <= 6 + 2 * deep else 0) + (deep and n <= 5) - minus),
                task_order=order,
            )
        )

    for kind, limit in (("broadcast", 50), ("anycast", 1), ("slow", 0)):
        for order in ("asc", "desc"):
            for roots, text in WRAP:
                if kind != "anycast" or "merge,A" not in str(text):
                    add(kind, limit, order, roots, text)
            if kind == "slow" and (order == "asc" or not deep) or not deep and (kind, order) == ("anycast", "asc"):
                continue
            for expr in NESTED.values():
                for text in DIRECT:
                    if C in str(expr):
                        text = {k: v.replace("B:b", "B:b C:d") + (" #C" if k == "s1" else "") for k, v in text.items()}
                    add(kind, limit, order, {"m": expr}, text, minus=int("q" in text))
            for roots, text in FORWARD:
                add(kind, limit, order, roots, text)
            for roots, text in SELECT:
                add(kind, limit, order, roots, text, ",".join(roots))
            for length in (1, 2, 3, 4)[: 2 + deep] if order == "asc" else ():
                for roots, others, words in LONG:
                    # Long histories: all patterns of operations, repeated again and again.
                    script = Lasso(words, length, 60 // length, shared(limit or 9))
                    out.append(
                        scenario(
                            f"long {kind}{limit} {roots} {words} patterns of {length}",
                            {"u": script, **parse(others)},
                            channels=channels_of(roots, kind, limit) | ({"B": (kind, limit)} if others else {}),
                            roots=roots,
                            aspects=aspects,
                            bound=0,
                            task_order="mix",
                        )
                    )
            for roots, text, user in FORWARDED_SELECT:
                add(kind, limit, order, roots, text, user, minus=int("k" in text))
    return out + mixed.scenarios(tier, ("nested", "mapped"))
