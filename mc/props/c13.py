"""Programs over mergers that are stopped at every point (while tasks wait on them, twice, with messages available), whose sources
close in every order, whose sources fail (a mapping function raising) alone and together with others being ready, and that are
dropped; all interleavings within the deviation bound.  Oracle: mc/flow.py plus: no tasks left."""

from ..explore import Scenario
from ..flow import scenario
from ..text import parse, show, size
from .c12 import FIVE, free, make

AB = ("merge", "A", "B")
FA = ("merge", ("map", "f", "A"), "B")
PROGRAMS = [
    (AB, {"s1": "A:a #A #B", "p": "m m"}),
    (AB, {"s1": "A:a #B B:b #A", "p": "m >m"}),
    (AB, {"s1": "#A B:b #B", "p": "~m m ~m m"}),
    (AB, {"p": "m", "q": "~m", "c": "#A #B"}),
    (("merge", "A", "B", "C"), {"s1": "A:a #A #C #B", "p": "m m"}),
    # stop()
    (AB, {"p": "m", "k": "stop(m)"}),
    (AB, {"p": "m", "q": ">m", "k": "stop(m)"}),
    (AB, {"p": "~m m", "k": "stop(m) stop(m)"}),
    (AB, {"s1": "A:a", "p": "m m", "k": "stop(m)"}),
    (AB, {"s1": "A:a B:b", "p": "~m m", "k": "stop(m)"}),
    (AB, {"s1": "A:a A:b", "p": "m", "k": "stop(m)"}),
    (AB, {"s1": "#A", "p": "m", "k": "stop(m)", "c": "!p"}),
    (AB, {"k": "stop(m)", "o": "stop(m)", "p": "m"}),
    (AB, {"k": "stop(m)", "c": "!k", "p": "m"}),
    (("merge", AB, "C"), {"s1": "A:a C:c", "p": "m m", "k": "stop(m)"}),
    # failures
    (FA, {"s1": "A:x A:a", "p": "m m"}),
    (FA, {"s1": "A:x B:b", "p": "m m"}),
    (FA, {"s1": "A:x B:b", "p": "~m m m"}),
    (FA, {"s1": "A:x B:b A:c", "p": "m >m =m"}),
    (FA, {"s1": "A:x", "s2": "B:b", "p": "m", "q": "m"}),
    (FA, {"s1": "A:x A:x2 #A B:b", "p": "m m"}),
    (FA, {"s1": "A:a", "s2": "A:x B:b", "p": "m", "k": "!p"}),
    (("merge", ("map", "f", "A"), ("map", "g", "B")), {"s1": "A:x B:x2", "p": "~m m m"}),
    (("merge", ("map", "f", "A"), "B"), {"s1": "A:x", "p": "m", "k": "stop(m)"}),
]
MORE = [
    (FA, {"s1": "A:x B:b A:x2 B:c", "p": "m m m", "q": "m"}),
    (("merge", ("map", "f", "A"), ("map", "g", "B"), "C"), {"s1": "A:x B:x2 C:c", "p": "~m m m"}),
    (AB, {"s1": "A:a B:b", "p": "m m", "q": "m", "k": "stop(m)"}),
    (AB, {"s1": "A:a #A", "s2": "B:b #B", "p": "m m m"}),
    (AB, {"s1": "A:a #A", "p": "m m", "k": "stop(m)", "c": "!p"}),
    (AB, {"s1": "A:a B:b", "p": "~m =m", "k": "stop(m)", "c": "!k !p"}),
]

X = "{m|~m|:m}"
FREE = [
    # (expression, program, bound quick, bound thorough)
    (AB, {"s1": "A:a {B:b|#A}", "p": f"{X} {X}", "k": "stop(m)"}, 1, 2),
    (AB, {"s1": "A:a", "p": X, "q": "{m|~m|stop(m)}", "k": "{!p|!q|stop(m)}"}, 1, 2),
    (AB, {"s1": "A:a", "c": "#A #B", "p": f"{X} {X} {X}"}, 1, 2),
    (FA, {"s1": "{A:a|A:x} {A:b|B:b|A:x2}", "p": f"{X} {X} {X}"}, 1, 2),
    (FA, {"s1": "A:x B:b", "p": f"{X} {X}", "q": "{m|stop(m)}", "k": "{!p|#A}"}, 0, 1),
    (FA, {"s1": "A:x", "s2": "B:b", "p": f"~m {X} {X}", "c": "{#A|#B|stop(m)}"}, 1, 2),
    (("merge", AB, "C"), {"s1": "A:a", "c": "{#A|#C} {#B|#C} {#A|#B|stop(m)}", "p": f"{X} {X}"}, 0, 1),
    (("merge", "A", "A"), {"s1": "A:a", "c": "{#A|stop(m)}", "p": f"{X} {X}"}, 1, 2),
    # Many sources.
    (FIVE, {"s1": "A:a &B:b &#A &#B", "s2": "#C &D:d &#D", "c": "#F", "p": "m &m &m &m"}, 0, 1),
    (FIVE, {"s1": "A:a &B:b &C:c &D:d &F:e", "k": "stop(m)", "p": "m &m"}, 0, 1),
    (
        ("merge", *(("map", "f", ch) for ch in "ABCD")),
        {"s1": "A:x &B:x2 &C:c &D:d A:a", "p": f"~m &m &m {X} &m", "c": "#D"}, 0, 1,
    ),
    (AB, {"s1": "A:a B:b", "p": f"{X} {X}", "q": X, "k": "stop(m)"}, -1, 0),
    (FA, {"s1": "{A:a|A:x} {A:b|B:b|A:x2} {B:c|A:x3}", "p": f"{X} {X} {X}", "q": "m"}, -1, 0),
]
"""Programs in which operations are chosen by the explorer (-1: not run)."""


def dropped(kind):
    """A merger that nobody uses any more leaves no tasks behind."""

    def check(x):
        base = scenario(
            "",
            parse({"s1": "A:a", "p": "del(m)", "q": "~m"}) if kind == "ready" else parse({"s1": "A:a B:b", "p": "del(m)"}),
            channels={"A": ("broadcast", 50), "B": ("anycast", 1)},
            roots={"m": AB},
            aspects={"wait", "stop"},
            bound=0,
        )
        base.build(x)

        def end():
            x.loop.settle()
            if x.library_tasks():
                x.fail(f"tasks left after the merger is gone: {x.library_tasks()}")

        x.final_hooks.append(end)

    return Scenario(f"dropped merger, {kind}", check, 1)


def empty():
    def check(x):
        from frequenz.channels import merge

        try:
            merge()
        except ValueError:
            return
        x.fail("merge() of nothing does not raise ValueError")

    return Scenario("merge()", check, 0)


def scenarios(tier):
    deep = tier == "thorough"
    kinds = (("anycast", 2), ("broadcast", 50), ("slow", 0))
    orders = ("asc", "desc")
    out = make(PROGRAMS + (MORE if deep else []), {"wait", "stop"}, deep, kinds, orders)
    out += free(FREE, {"wait", "stop"}, deep, kinds[: 2 + deep])
    return out + [dropped("idle"), empty()]
