"""Programs with one select() loop whose receivers (channels, mapped receivers, mergers, events, timers, file watchers, user defined ones) stop in every
order: before the loop, one by one, several at once, with messages or a set pending, one of them alone; all interleavings within the
deviation bound.  Oracle: mc/selecting.py."""

from ..selecting import scenario
from ..text import parse, show, size
from .c14 import T, T2, W, channels_of, free

A, B, C = "A", "B", "C"
E = ("event",)
F = ("fake", "clean")
PROGRAMS = [
    ({}, {}),
    ({"r1": A}, {"s1": "#A"}),
    ({"r1": A}, {"s1": "A:a #A"}),
    ({"r1": A, "r2": B}, {"s1": "#A #B"}),
    ({"r1": A, "r2": B}, {"s1": "A:a #A", "s2": "B:b #B"}),
    ({"r1": A, "r2": B}, {"s1": "A:a #A B:b A:c"}),
    ({"e": E}, {"k": "set(e) estop(e)"}),
    ({"e": E}, {"k": "estop(e)"}),
    ({"r1": A, "e": E}, {"s1": "A:a #A", "k": "set(e) estop(e)"}),
    ({"e": E, "e2": E}, {"k": "set(e) estop(e)", "c": "estop(e2)"}),
    ({"m": ("merge", A, B), "r1": C}, {"s1": "#A C:c #B #C"}),
    ({"m": ("merge", A, B)}, {"s1": "A:a", "k": "stop(m)"}),
    ({"r1": ("map", "f", A), "r2": B}, {"s1": "A:a #A #B"}),
    ({"r1": ("map", "f", A), "r2": B}, {"s1": "A:x #A B:b"}),
    ({"t": F, "r1": A}, {"k": "feed(t,a) fend(t)", "s1": "A:b #A"}),
]
EXTRA = [
    ({"t": T}, {"k": "tstop(t)"}),
    ({"t": T, "t2": T2}, {"k": "zz1 tstop(t2) tstop(t)"}),
    ({"t": T, "r1": A}, {"s1": "A:a #A", "k": "zz1 tstop(t)"}),
    ({"f": W}, {"o": "os(+a) os(end)"}),
    ({"f": W, "r1": A}, {"o": "os(end)", "s1": "#A"}),
    ({"f": W, "e": E}, {"o": "os(+a,-b) os(end)", "k": "set(e) estop(e)"}),
    ({"r1": A, "e": E, "t": T, "f": W, "m": ("merge", B, C)}, {"k": "estop(e) tstop(t) os(end) #B #A #C"}),
]
"""With timers and file watchers; independent of the kind of channel."""
MORE = [
    ({"r1": A, "r2": B, "r3": C}, {"s1": "A:a #A", "s2": "B:b #B", "s3": "#C"}),
    ({"r1": A, "e": E, "m": ("merge", B, C)}, {"s1": "#A", "k": "set(e) estop(e)", "s2": "B:b #B #C"}),
    ({"e": E, "e2": E}, {"k": "set(e) estop(e)", "c": "set(e2) estop(e2)"}),
]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for kind, limit in (("broadcast", 50), ("anycast", 2), ("slow", 0)):
        for order in ("asc", "desc"):
            for pause in (True, False):
                if kind == "slow" and order == "desc" and not deep:
                    continue
                for roots, text in PROGRAMS + (EXTRA if kind == "anycast" else []) + (MORE if deep else []):
                    scripts = parse(text)
                    n = size(scripts)
                    scripts["p"] = [("select", ",".join(roots), {"pause": pause})]
                    out.append(
                        scenario(
                            f"{kind}{limit} {order} pause={pause} {roots} {show(text)}",
                            scripts,
                            channels=channels_of(roots, kind, limit),
                            roots=roots,
                            aspects={"wait", "stop", "leak"},
                            bound=(2 if n <= 3 else 1) + (deep and n <= 5),
                            task_order=order,
                        )
                    )
    return out + free(deep, {"wait", "stop", "leak"}, (("broadcast", 50), ("anycast", 2)))
