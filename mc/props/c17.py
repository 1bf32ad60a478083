"""Programs with one select() loop that does not handle a selection (any one of the first three, none at all, asking for other
receivers only; of messages, stops and errors), over receivers that fail when consuming (mapped, merged and user defined ones), in
ready() (Exception or BaseException) or while being cancelled; all interleavings within the deviation bound, several orders of task
sets.  Oracle: mc/selecting.py: which error ends the loop and what it carries, nothing lost, no tasks left."""

from ..selecting import scenario, special
from ..text import parse, show, size
from .c14 import channels_of

A, B, C = "A", "B", "C"
E = ("event",)
F = ("fake", "clean")
D = ("fake", "dirty")
L = ("fake", "late dirty")
HANDLES = ["none", "none@0", "none@1", "none@2", "others"]
UNHANDLED = [
    ({"r1": A}, {"s1": "A:a A:b #A"}),
    ({"r1": A, "r2": B}, {"s1": "A:a B:b #A", "s2": "#B"}),
    ({"r1": A, "e": E}, {"s1": "#A", "k": "set(e) estop(e)"}),
    ({"r1": ("map", "f", A), "r2": B}, {"s1": "A:x A:a #A #B"}),
    ({"m": ("merge", A, B), "r1": C}, {"s1": "A:a C:c #C #A #B"}),
    ({"t": F, "r1": A}, {"k": "feed(t,err1) feed(t,a)", "s1": "A:b"}),
    ({"t": D, "r1": A, "w": D}, {"s1": "A:b", "k": "feed(t,a)"}),
    ({"r1": A, "r2": B, "r3": C}, {"s1": "B:a #A C:c"}),
]
FAILING = [
    ({"t": F, "r1": A}, {"k": "feed(t,err1) feed(t,a) fend(t)", "s1": "A:b"}),
    ({"t": F, "w": F}, {"k": "feed(t,err1) fend(t)", "c": "feed(w,err2) feed(w,b)"}),
    ({"t": F, "r1": A}, {"k": "feed(t,ready1)", "s1": "A:b"}),
    ({"t": F, "r1": A}, {"k": "feed(t,a) feed(t,ready1)", "s1": "A:b A:c"}),
    ({"t": F, "r1": A}, {"k": "feed(t,base1)", "s1": "A:b"}),
    ({"t": F}, {"k": "feed(t,ready1) feed(t,a)"}),
    ({"t": F, "r1": A}, {"k": "feed(t,base1) feed(t,a)"}),
    ({"t": F, "w": F, "r1": A}, {"k": "feed(t,ready1) feed(w,ready2)", "s1": "A:b"}),
    ({"t": F, "w": D, "r1": A}, {"k": "feed(t,ready1)", "s1": "A:b"}),
    ({"r1": ("map", "f", A), "r2": B}, {"s1": "A:x B:b A:a A:x2 #A #B"}),
    ({"m": ("merge", ("map", "f", A), B), "r1": C}, {"s1": "A:x B:b C:c A:a #A"}),
    ({"t": D, "w": D}, {"k": "feed(t,a)", "c": "!p"}),
    ({"t": D, "w": D, "r1": A}, {"k": "feed(t,a)", "s1": "A:b"}),
    ({"t": F, "w": L, "r1": A}, {"k": "feed(t,ready1)", "s1": "A:b"}),
    ({"t": L, "w": D, "r1": A}, {"s1": "A:b"}),
    ({"t": L, "w": L}, {"k": "feed(t,a)", "c": "!p"}),
]
MORE = [
    ({"t": F, "w": F, "r1": A, "e": E}, {"k": "feed(t,err1) feed(w,ready2)", "s1": "A:b", "c": "set(e)"}),
    ({"t": F, "w": F, "r1": A}, {"k": "feed(t,err1) fend(t)", "c": "feed(w,err2) fend(w)", "s1": "A:a A:b #A"}),
    ({"r1": ("map", "f", A), "r2": ("map", "g", B)}, {"s1": "A:x A:a #A", "s2": "B:x2 B:b #B"}),
]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for kind, limit in (("broadcast", 50), ("anycast", 2)):
        for order in ("asc", "desc") + (("mix",) if deep else ()):
            for programs, handles in ((UNHANDLED, HANDLES), (FAILING + (MORE if deep else []), ["all", "chain", "none@1", "aclose"])):
                for roots, text in programs:
                    if kind == "broadcast" and any(special(e) for e in roots.values()):
                        continue
                    for handle in handles:
                        if order == "desc" and not deep and handle in ("none", "others", "chain"):
                            continue
                        if handle == "aclose" and D not in roots.values() and L not in roots.values():
                            continue
                        scripts = parse(text)
                        n = size(scripts)
                        scripts["p"] = [("select", ",".join(roots), {"handle": handle} if handle != "aclose" else {"take": 1, "leave": "aclose"})]
                        out.append(
                            scenario(
                                f"{kind}{limit} {order} {handle} {roots} {show(text)}",
                                scripts,
                                channels=channels_of(roots, kind, limit),
                                roots=roots,
                                aspects={"wait", "stop", "leak", "unhandled", "errors"},
                                bound=(2 if n <= 2 else 1 if n <= 4 else 0) + (deep and n <= 3),
                                task_order=order,
                            )
                        )
    return out
