"""Programs in which select() loops are left after 0-3 selections by break, aclose() or cancellation, and the same receivers are used
again: directly, or by a new select() started at once or later, several times; all interleavings within the deviation bound.
Oracle: mc/selecting.py: exactly once delivery over all uses, no tasks left."""

from ..selecting import scenario
from ..text import Lasso, parse, shared, show, size
from .c14 import T, T2, W, channels_of

A, B, C = "A", "B", "C"
E = ("event",)


def S(names, take=None, **opts):
    return ("select", names, {"take": take, **opts})


def now(op):
    return ("now", op)


AB = {"r1": A, "r2": B}
PROGRAMS = [
    (AB, {"s1": "A:a B:b A:c"}, [S("r1,r2", 1), ("recv", "r1"), ("recv", "r2")]),
    (AB, {"s1": "A:a B:b A:c"}, [S("r1,r2", 1), now(S("r1,r2", 1)), now(S("r1,r2", 1))]),
    (AB, {"s1": "A:a B:b"}, [S("r1,r2", 1, leave="aclose"), now(S("r1,r2", 1)), ("recv", "r1")]),
    (AB, {"s1": "A:a", "s2": "B:b"}, [S("r1,r2", 1), S("r1,r2", 2)]),
    (AB, {"s1": "A:a B:b", "k": "!p"}, [S("r1,r2"), now(S("r1,r2"))]),
    (AB, {"s1": "A:a B:b", "k": "!p"}, [S("r1,r2"), ("recv", "r1"), ("recv", "r2")]),
    (AB, {"s1": "A:a B:b"}, [S("r1,r2", 0), now(S("r1,r2", 1)), ("ready", "r2"), ("recv", "r2")]),
    (AB, {"s1": "A:a #A B:b"}, [S("r1,r2", 1), now(S("r1,r2"))]),
    ({"r1": A}, {"s1": "A:a A:b"}, [S("r1", 1), now(("recv", "r1"))]),
    ({"r1": A}, {"s1": "A:a A:b"}, [S("r1", 1), now(("ready", "r1")), ("recv", "r1")]),
    ({"r1": A, "e": E}, {"s1": "A:a", "k": "set(e)"}, [S("r1,e", 1), now(S("r1,e", 1))]),
    ({"e": E}, {"k": "set(e) set(e)"}, [S("e", 1), now(("recv", "e"))]),
    ({"m": ("merge", A, B), "r1": C}, {"s1": "A:a B:b C:c"}, [S("m,r1", 1), now(S("m,r1", 1)), ("recv", "m")]),
    ({"r1": ("map", "f", A), "r2": B}, {"s1": "A:a B:b A:c"}, [S("r1,r2", 1), now(S("r1,r2", 1)), ("recv", "r1")]),
    (AB, {"s1": "A:a B:b"}, [S("r1,r2", handle="none"), now(S("r1,r2", 1))]),
]
F = ("fake", "clean")
L = ("fake", "late")
M = {"m": ("merge", A, B)}
TA = {"t": T, "r1": A}
FA = {"f": W, "r1": A}
EXTRA = [
    (TA, {"s1": "A:a zz1.5 A:b"}, [S("t,r1", 1), now(S("t,r1", 1)), S("t,r1", 1)]),
    (TA, {"s1": "A:a", "k": "!p"}, [S("t,r1", 2), now(("recv", "t")), ("recv", "r1")]),
    (TA, {"s1": "zz1 A:a"}, [S("t,r1", 1), now(("recv", "t")), now(S("t,r1", 1))]),
    ({"t": T, "t2": T2}, {"k": "zz1 tstop(t2)"}, [S("t,t2", 1), now(S("t,t2", 1)), S("t,t2", 2)]),
    (FA, {"o": "os(+a,-b) os(-a)", "s1": "A:a"}, [S("f,r1", 1), now(S("f,r1", 1)), S("f,r1", 1), ("recv", "r1")]),
    (FA, {"o": "os(+a,-b)", "s1": "A:a"}, [S("f,r1", 1), now(("recv", "r1")), ("recv", "f"), ("recv", "f")]),
    ({"t": F, "r1": A}, {"s1": "A:a", "k": "feed(t,a) feed(t,err1) feed(t,b)"}, [S("t,r1", 1), now(S("t,r1", 2)), ("recv", "t")]),
    ({"t": L, "r1": A}, {"s1": "A:a A:b"}, [S("t,r1", 1), now(S("t,r1", 1)), ("recv", "r1")]),
    ({"t": L, "r1": A}, {"s1": "A:a", "k": "feed(t,a)"}, [S("t,r1", 1, leave="aclose"), now(S("t,r1", 1)), ("recv", "t")]),
    ({"t": L, "r1": A}, {"s1": "A:a", "k": "!p"}, [S("t,r1"), now(S("t,r1", 1))]),
    ({"r1": A, "m": ("merge", B, C), "e": E}, {"s1": "A:a B:b C:c", "k": "set(e)"}, [S("r1,m,e", 1), now(S("r1,m,e", 2)), ("recv", "m")]),
    (M, {"s1": "A:a B:b #A", "k": "stop(m)"}, [S("m", 1), now(S("m"))]),
]
"""With timers, file watchers and user defined receivers; independent of the kind of channel."""
R = ("any", S("r1,r2", 1), now(S("r1,r2", 1)), ("recv", "r1"), ("ready", "r2"), ("recv", "r2"))
FREE = [
    # (roots, program, user, bound quick, bound thorough)
    (AB, {"s1": "{A:a|B:a} {A:b|B:b}"}, [S("r1,r2", 1), now(R[:3]), R], 0, 1),
    (AB, {"s1": "{A:a|B:a} {B:b|#A}", "k": "!p"}, [S("r1,r2"), now(R), R], 0, 1),
    (AB, {"s1": "A:a B:b A:c B:d"}, [R, now(R), R, now(R)], 0, 0),
    ({"r1": A, "e": E}, {"s1": "A:a", "k": "{set(e)|#A} {set(e)|estop(e)}"}, [S("r1,e", 1), now(S("r1,e", 1)), S("r1,e", 1)], 0, 1),
    ({"r1": A, "r2": A}, {"s1": "A:a A:b A:c"}, [S("r1,r2", 1), now(S("r2,r1", 1)), now(R), R], 0, 1),
]
"""Programs in which operations are chosen by the explorer."""
MANY = {f"r{i}": ch for i, ch in enumerate("ABCDFGHJKLMNPQRS", 1)}
ALL = ",".join(MANY)
LARGE = [
    (MANY, {"s1": "A:a S:b"}, [S(ALL, 1), now(S(ALL, 1)), ("recv", "r1"), ("recv", "r16")]),
    (MANY, {"s1": "A:a H:b S:c"}, [S(ALL, 1, leave="aclose"), now(S(ALL, 2)), ("recv", "r7")]),
    (MANY, {"s1": "A:a H:b S:c", "k": "!p"}, [S(ALL), now(("recv", "r7")), ("recv", "r16")]),
]
"""Loops over many receivers."""
MORE = [
    (AB, {"s1": "A:a B:b A:c", "s2": "B:d"}, [S("r1,r2", 1), now(S("r1,r2", 1)), now(S("r1,r2", 2))]),
    (AB, {"s1": "A:a B:b A:c", "k": "!p !p"}, [S("r1,r2"), now(S("r1,r2")), now(S("r1,r2"))]),
    ({"r1": A, "r2": B, "r3": C}, {"s1": "A:a B:b C:c"}, [S("r1,r2,r3", 1), now(S("r1,r2,r3", 1)), now(S("r1,r2,r3", 1))]),
    ({"m": ("merge", A, B), "e": E}, {"s1": "A:a B:b", "k": "set(e) !p"}, [S("m,e", 2), now(S("m,e")), ("recv", "m")]),
    ({"r1": A, "e": E}, {"s1": "A:a #A", "k": "set(e) estop(e)"}, [S("r1,e", 1), now(S("r1,e", 1)), now(S("r1,e"))]),
]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for kind, limit in (("broadcast", 50), ("anycast", 1), ("slow", 0), ("user", 0)):
        for order in ("asc", "desc"):
            free = [f for f in FREE if kind in ("broadcast", "anycast") and (deep or order == "asc")]
            extra = [f + (None, None) for f in PROGRAMS + (EXTRA if kind == "anycast" else []) + (MORE if deep else [])]
            extra += [f + (0, 1) for f in LARGE if kind in ("broadcast", "anycast")]
            for roots, text, user, quick, thorough in extra + free:
                scripts = parse(text)
                n = size(scripts)
                scripts["p"] = user
                out.append(
                    scenario(
                        f"{kind}{limit} {order} {roots} {show(text)} | p: {user}",
                        scripts,
                        channels=channels_of(roots, kind, limit),
                        roots=roots,
                        aspects={"wait", "leak", "reuse"},
                        bound=(2 if n <= 2 else 1) + deep if quick is None else thorough if deep else quick,
                        task_order=order,
                    )
                )
            for length in (1, 2, 3, 4)[: 3 + deep] if limit and order == "asc" else ():
                # Long histories: all patterns of operations, repeated again and again.
                out.append(
                    scenario(
                        f"long {kind}{limit} patterns of {length}",
                        {"u": Lasso(["A:*", "B:*", S("r1,r2", 1), now(S("r2,r1", 1, pause=False))], length, 48 // length, shared(limit))},
                        channels=channels_of(AB, kind, limit),
                        roots=AB,
                        aspects={"wait", "leak", "reuse"},
                        bound=0,
                        task_order="mix",
                    )
                )
    return out
