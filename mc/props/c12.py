"""Programs over mergers of 1-3 anycast/broadcast receivers (and mapped ones) with several sources ready at once, shared mergers,
ready() pending, cancellations, sources closed on the way; all interleavings within the deviation bound, several orders of task
sets.  Oracle: mc/flow.py (exactly once, order per source, no wait while a source has a message)."""

from .. import mixed
from ..flow import scenario
from ..text import Lasso, parse, shared, show, size

AB = ("merge", "A", "B")
PROGRAMS = [
    (("merge", "A"), {"s1": "abc", "p": "m m m"}),
    (AB, {"s1": "A:a B:b A:c", "p": "m m m"}),
    (AB, {"s1": "A:a A:b", "s2": "B:c B:d", "p": "m m"}),
    (AB, {"s1": "A:a", "s2": "B:b", "p": "~m m =m"}),
    (AB, {"s1": "A:a", "s2": "B:b", "p": "m", "q": "m"}),
    (AB, {"s1": "A:a B:b", "p": "~m m", "q": "~m m"}),
    (AB, {"s1": "A:a A:b", "p": "~m", "q": "m m"}),
    (AB, {"s1": "A:a B:b", "p": "m m", "k": "!p"}),
    (AB, {"s1": "A:a B:b", "p": "~m =m", "k": "!p"}),
    (AB, {"s1": "A:a B:b", "p": "m", "q": "m", "k": "!p"}),
    (AB, {"s1": "A:a #A B:b", "p": "m >m m"}),
    (AB, {"s1": "#A B:b", "p": "m m"}),
    (AB, {"s1": "A:none B:zero", "p": "m m"}),
    (("merge", "A", "B", "C"), {"s1": "A:a B:b C:c", "p": "m m m"}),
    (("merge", "A", "B", "C"), {"s1": "A:a #B C:c A:d", "p": "~m m m"}),
    (("merge", ("map", "f", "A"), "B"), {"s1": "A:a B:b A:c", "p": "m m"}),
]
MORE = [
    (("merge", "A", "B", "C"), {"s1": "A:a A:b", "s2": "B:c C:d", "p": "m m m", "q": "m"}),
    (AB, {"s1": "A:a A:b", "s2": "B:c B:d", "p": "m m", "q": "m", "k": "!p !q"}),
    (AB, {"s1": "A:a B:b A:c B:d", "p": "~m m ~m m", "q": "~m m"}),
    (("merge", "A", "B", "C"), {"s1": "A:a #A", "s2": "B:b #B", "p": "m m m"}),
    (("merge", "A", "A2"), {"s1": "A:a A2:b", "s2": "A:c A2:d", "p": "m >m =m"}),
]

X = "{m|~m|:m}"
AA = ("merge", "A", "A")
FIVE = ("merge", "A", "B", "C", "D", "F")
FREE = [
    # (expression, program, bound quick, bound thorough)
    (AB, {"s1": "{A:a|B:a} {A:b|B:b} {A:c|B:c}", "p": f"{X} {X}"}, 1, 2),
    (AB, {"s1": "A:a B:b", "p": f"{X} {X} {X}", "c": "{#A|#B}"}, 1, 2),
    (AB, {"s1": "A:a B:b", "p": X, "q": X, "k": "{!p|!q|#A|#B}"}, 1, 2),
    (AB, {"s1": "A:none", "s2": "B:b", "p": "~m {m|:m|!q|#A} {m|:m}", "q": "m"}, 1, 2),
    (AA, {"s1": "A:a A:b", "p": f"{X} {X}", "c": "{#A|}"}, 1, 2),
    (("merge", "A", "A", "B"), {"s1": "A:a B:b", "p": f"{X} {X}", "q": "m"}, 1, 2),
    (("merge", ("map", "f", "A"), "A"), {"s1": "A:a A:b", "p": f"{X} {X}"}, 1, 2),
    (("merge", AB, "A"), {"s1": "A:a B:b", "p": f"{X} {X}"}, 1, 2),
    (("merge", "A", "B", "C"), {"s1": "{A:a|B:a|C:a} {A:b|B:b|C:b}", "s2": "{#A|#B|#C}", "p": f"{X} {X}"}, 0, 1),
    # Many sources.
    (FIVE, {"s1": "A:a &B:b &C:c &D:d &F:e", "p": "m &m &m &m {m|~m}"}, 1, 2),
    (FIVE, {"s1": "F:e &A:a C:c &C:d", "p": "~m &m", "q": "m &m", "c": "#B"}, 0, 1),
    (FIVE, {"s1": "A:a", "s2": "B:b", "s3": "C:c", "s4": "D:d", "p": "m &m &m"}, 0, 1),
    (AB, {"s1": "A:a &A:b &B:c &B:d &A:e &B:f", "p": "m &m m &m m &~m &m"}, 1, 2),
    (AB, {"s1": "A:a A:b A:c B:d", "p": f"{X} {X} {X} {X}"}, -1, 0),
    (("merge", "A", "B", "C"), {"s1": "A:a B:b C:c", "p": f"{X} {X}", "q": "m", "k": "{!p|!q|#B}"}, -1, 0),
]
"""Programs in which operations are chosen by the explorer (-1: not run).  A channel may occur more than once."""


def free(programs, aspects, deep, kinds):
    out = []
    for bound in range(3):
        these = [(expr, text) for expr, text, quick, thorough in programs if (thorough if deep else quick) == bound]
        for order in ("asc", "desc") if deep else ("desc",):
            out += make(these, aspects, bound, kinds, (order,), fixed=True)
    return out


TWELVE = tuple("ABCDFGHJKLMN")


def long(aspects, deep):
    """Long histories: all patterns of operations up to a length, repeated again and again; many sources."""
    from ..flow import leaves

    out = []
    for expr in (AB, ("merge", "A", ("map", "f", "B")), ("merge", AB, "C"), ("merge", *TWELVE)):
        many = len(expr) > 9
        for kind, limit in (("anycast", 2), ("broadcast", 50)):
            channels = [ch for ch, _ in leaves(expr)]
            words = [f"{ch}:*" for ch in channels] + ["m"] + ["&" + c + ":*" for c in channels] * (not many) + [">m"] * (not many)
            for length in (1, 2, 3, 4)[: 2 + deep - (many and deep)]:
                out.append(
                    scenario(
                        f"long {kind} {expr} patterns of {length}",
                        {"u": Lasso(words, length, 72 // length, shared(limit if kind == "anycast" else 30))},
                        channels={ch: (kind, limit) for ch in channels},
                        roots={"m": expr},
                        aspects=aspects,
                        bound=0,
                        task_order="mix",
                    )
                )
    return out


def make(programs, aspects, deep, kinds, orders, *, fixed=False):
    out = []
    for kind, limit in kinds:
        for order in orders:
            for expr, text in programs:
                from ..flow import leaves

                scripts = parse(text)
                n = size(scripts)
                out.append(
                    scenario(
                        f"{kind}{limit} {order} {expr} {show(text)}",
                        scripts,
                        channels={ch: (kind, limit) for ch, _ in leaves(expr)},
                        roots={"m": expr},
                        aspects=aspects,
                        bound=deep if fixed else (2 if n <= 5 else 1) + deep,
                        task_order=order,
                    )
                )
    return out


def scenarios(tier):
    deep = tier == "thorough"
    kinds = (("anycast", 1), ("broadcast", 50), ("user", 0), ("slow", 0))
    orders = ("asc", "desc")
    out = make(PROGRAMS + (MORE if deep else []), {"wait", "map"}, deep, kinds, orders)
    out += free(FREE, {"wait", "map"}, deep, (("anycast", 2), ("broadcast", 50)) + (("slow", 0),) * deep) + long({"wait", "map"}, deep)
    return out + mixed.scenarios(tier, ("flat",))
