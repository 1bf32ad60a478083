"""Programs with one select() loop over 1-4 receivers of channels, mapped receivers, mergers, events, timers and file watchers, with messages becoming
ready one by one or several at once, handled in an if-chain or completely, bodies that take long; all interleavings within the
deviation bound, several orders of task sets.  Oracle: mc/selecting.py with mc/flow.py and mc/event.py."""

from ..selecting import scenario, special
from ..timers import Spec
from ..text import Lasso, parse, show, size

A, B, C = "A", "B", "C"
PROGRAMS = [
    ({"r1": A}, {"s1": "A:a A:b A:c"}),
    ({"r1": A, "r2": B}, {"s1": "A:a B:b A:c"}),
    ({"r1": A, "r2": B}, {"s1": "A:a A:b", "s2": "B:c B:d"}),
    ({"r1": A, "r2": B}, {"s1": "A:none B:zero"}),
    ({"r1": A, "r2": B, "r3": C}, {"s1": "A:a B:b C:c A:d"}),
    ({"r1": A, "r2": B, "r3": C}, {"s1": "A:a", "s2": "B:b", "s3": "C:c"}),
    ({"r1": A, "e": ("event",)}, {"s1": "A:a A:b", "k": "set(e) set(e)"}),
    ({"r1": A, "e": ("event",)}, {"s1": "A:a", "k": "set(e) estop(e)"}),
    ({"r1": ("map", "f", A), "r2": B}, {"s1": "A:a B:b A:c"}),
    ({"r1": ("map", "f", A), "r2": B}, {"s1": "A:x B:b A:c"}),
    ({"m": ("merge", A, B), "r1": C}, {"s1": "A:a B:b C:c"}),
    ({"r1": A, "r2": B}, {"s1": "A:a #A B:b"}),
    ({"r1": A, "r2": B}, {"s1": "#B A:a A:b"}),
    ({"r1": A, "r2": A}, {"s1": "A:a A:b #A"}),
    ({"r1": A, "m": ("merge", A, B)}, {"s1": "A:a B:b A:c"}),
]
T = ("timer", Spec(interval=1.0))
T2 = ("timer", Spec(interval=0.5, policy="resync", start_delay=0.5))
W = ("file", {"paths": ["/w/a", "/w/b"], "types": "+-"})
EXTRA = [
    ({"t": T, "r1": A}, {"s1": "A:a zz1 A:b", "k": "zz2.5 tstop(t)"}),
    ({"t": T, "t2": T2}, {"k": "zz2.2 tstop(t) tstop(t2)"}),
    ({"t": T, "r1": A}, {"s1": "zz1 A:a busy(1.5) A:b", "k": "zz4 tstop(t)"}),
    ({"f": W, "r1": A}, {"s1": "A:a", "o": "os(+a,~a,-b) os(-a)"}),
    ({"f": W, "e": ("event",)}, {"o": "os(+a,+b) os(end)", "k": "set(e)"}),
    ({"t": ("fake", "twin"), "w": ("fake", "twin"), "r1": A}, {"o": "feed(t,a) feed(w,b)", "s1": "A:c"}),
    ({"f": W, "t": T}, {"o": "os(+a) zz1 os(-a)", "k": "zz2 tstop(t)"}),
]
"""With timers and file watchers; independent of the kind of channel."""
MORE = [
    ({"r1": A, "r2": B, "r3": C}, {"s1": "A:a B:b", "s2": "C:c A:d", "s3": "B:e"}),
    ({"r1": A, "r2": B, "r3": C, "e": ("event",)}, {"s1": "A:a B:b C:c", "k": "set(e)"}),
    ({"m": ("merge", A, B), "r1": ("map", "f", C)}, {"s1": "A:a B:b", "s2": "C:c C:x"}),
    ({"r1": A, "r2": B}, {"s1": "A:a A:b A:c", "s2": "B:d B:e"}),
]

E = ("event",)
F = ("fake", "clean")
R5 = {f"r{i}": ch for i, ch in enumerate("ABCDF", 1)}
FREE = [
    # (roots, what is selected, program, bound quick, bound thorough)
    ({"r1": A, "r2": B}, None, {"s1": "{A:a|B:a} {A:b|B:b} {A:c|B:c|#A}"}, 1, 2),
    ({"r1": A, "r2": B}, "r1,r2,r1", {"s1": "A:a {A:b|B:b} {B:c|#A}"}, 1, 1),
    ({"r1": A, "e": E}, None, {"s1": "{A:a|#A}", "k": "{set(e)|A:b} {set(e)|estop(e)}"}, 1, 2),
    ({"m": ("merge", A, B), "r1": A}, None, {"s1": "{A:a|B:a} {A:b|B:b|#B}"}, 0, 1),
    ({"r1": ("map", "f", A), "r2": B, "t": F}, None, {"s1": "{A:a|A:x} {B:b|#A}", "k": "feed(t,a) {feed(t,b)|feed(t,err1)|fend(t)}"}, 0, 1),
    (R5, None, {"s1": "A:a &B:b &C:c &D:d &F:e", "s2": "A:f C:g"}, 0, 1),
    (R5, "r5,r4,r3,r2,r1", {"s1": "A:a &C:c &F:e B:b &D:d", "k": "#A &#F"}, 0, 1),
]
"""Programs in which operations are chosen by the explorer, and with many receivers."""


def channels_of(roots, kind, limit):
    from ..flow import leaves

    out = {}
    for expr in roots.values():
        if special(expr):
            continue
        for ch, _ in leaves(expr):
            out[ch] = (kind, limit)
    return out


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    kinds = (("broadcast", 50), ("anycast", 2)) if not deep else (("broadcast", 50), ("anycast", 1), ("anycast", 3))
    for kind, limit in kinds + (("user", 0), ("slow", 0)):
        for order in ("asc", "desc", "mix") if deep else ("asc", "desc"):
            for handle in ("all", "chain"):
                if not deep and order == "desc" and (handle == "chain" or kind == "anycast"):
                    continue
                for pause in (True, False):
                    if kind in ("user", "slow") and (order == "desc" or handle == "chain" or not pause) and not deep:
                        continue
                    for roots, text in PROGRAMS + (EXTRA if kind == "anycast" else []) + (MORE if deep else []):
                        scripts = parse(text)
                        n = size(scripts)
                        scripts["p"] = [("select", ",".join(roots), {"handle": handle, "pause": pause})]
                        out.append(
                            scenario(
                                f"{kind}{limit} {order} {handle} pause={pause} {roots} {show(text)}",
                                scripts,
                                channels=channels_of(roots, kind, limit),
                                roots=roots,
                                aspects={"wait", "map"},
                                bound=(2 if n <= 3 and (deep or order == "asc" and pause) else 1) + (deep and n <= 5),
                                task_order=order,
                            )
                        )
    return out + free(deep, {"wait", "map"}, kinds) + long(deep, {"wait", "map"}, kinds) + two(deep, {"wait", "map"}, kinds)


TWO = [
    # Loops over different receivers at the same time.
    ({"r1": A, "r2": B}, {"s1": "A:a B:b A:c B:d"}, {"p": "r1", "q": "r2"}),
    ({"r1": A, "r2": B, "r3": C, "e": E}, {"s1": "A:a C:c B:b", "k": "set(e)"}, {"p": "r1,r2", "q": "r3,e"}),
    ({"m": ("merge", A, B), "r1": ("map", "f", C)}, {"s1": "A:a C:c #A B:b #C"}, {"p": "m", "q": "r1"}),
    ({"r1": A, "e": E, "r2": B, "e2": E}, {"s1": "A:a B:b", "k": "estop(e) set(e2)"}, {"p": "r1,e", "q": "r2,e2"}),
]


def two(deep, aspects, kinds):
    out = []
    for roots, text, loops in TWO:
        for kind, limit in kinds[: 2 if deep or len(roots) < 4 else 1]:
            for opts in ({}, {"pause": False}, {"pause": False, "handle": "chain"}, {"nested": True}):
                if not deep and (opts == {} and len(roots) > 2 or "handle" in opts):
                    continue
                scripts = parse(text)
                first, second = loops.values()
                if "nested" in opts:
                    scripts["p"] = [("select", first, {"pause": False, "during": {0: [("select", second, {"take": 1, "leave": "aclose"})]}}), ("select", second, {})]
                else:
                    scripts |= {who: [("select", names, opts)] for who, names in loops.items()}
                out.append(
                    scenario(
                        f"two {kind}{limit} {opts} {roots} {show(text)} {loops}",
                        scripts,
                        channels=channels_of(roots, kind, limit),
                        roots=roots,
                        aspects=aspects,
                        bound=(1 if size(parse(text)) <= 4 and opts == {"pause": False} else 0) + deep,
                        task_order="mix",
                    )
                )
    return out


LONG = [
    ({"r1": A, "r2": B}, ["A:*", "B:*", "&A:*", "&B:*"]),
    ({"r1": A, "e": E, "m": ("merge", B, C)}, ["A:*", "set(e)", "&B:*", "C:*"]),
    ({"r1": ("map", "f", A), "t": T}, ["A:*", "&A:*", "zz0.7", "busy(2.5)"]),
    ({f"r{i}": ch for i, ch in enumerate("ABCDFGHJKLMN", 1)}, [f"{ch}:*" for ch in "ABCDFGHJKLMN"] + ["&B:*"]),
]


def bursts(word, state):
    """Not too many at once."""
    state["at once"] = state["at once"] + 1 if word.startswith("&") else 0
    return state["at once"] <= 20


def long(deep, aspects, kinds):
    """Long histories: all patterns of operations up to a length, repeated again and again; many receivers."""
    out = []
    for roots, words in LONG:
        for kind, limit in kinds[:2]:
            for length in (1, 2, 3, 4)[: 3 + deep - 2 * (len(words) > 9)]:
                out.append(
                    scenario(
                        f"long {kind}{limit} {roots} {words} patterns of {length}",
                        {"u": Lasso(words, length, 72 // length, bursts, tail="tstop(t)" * ("t" in roots)), "p": [("now", ("select", ",".join(roots), {"pause": False}))]},
                        channels=channels_of(roots, kind, limit),
                        roots=roots,
                        aspects=aspects,
                        bound=0,
                        task_order="mix",
                    )
                )
    return out


def free(deep, aspects, kinds):
    out = []
    for roots, names, text, quick, thorough in FREE:
        for kind, limit in kinds:
            for order in ("asc", "desc", "mix") if deep else ("desc",):
                bound = thorough if deep else quick
                scripts = parse(text)
                names = names or ",".join(roots)
                scripts["p"] = [("select", names, {"pause": False})]
                out.append(
                    scenario(
                        f"free {kind}{limit} {order} {names} {roots} {show(text)}",
                        scripts,
                        channels=channels_of(roots, kind, limit),
                        roots=roots,
                        aspects=aspects,
                        bound=bound,
                        task_order=order,
                    )
                )
    return out
