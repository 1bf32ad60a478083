"""Programs of 1-3 senders and 1-3 receivers of one or two broadcast channels, with receivers created, dropped, cancelled and
shared between tasks on the way; every interleaving within the deviation bound.  Oracle: one queue per receiver (BroadcastOracle)."""

from .. import orphans
from ..broadcast import scenario
from ..text import Lasso, each, flat, parse, show, size

PROGRAMS = [
    {"s1": "abc", "p": "r1 r1 r1"},
    {"s1": "ab", "s2": "c", "p": "r1 r1", "q": "r2"},
    {"s1": "a none", "p": "r1 r1 r1", "q": "r2 r2"},
    {"s1": "zero", "s2": "false", "p": ">r1 =r1"},
    {"s1": "empty list", "p": "~r1 ~r1 r1", "q": "=r2"},
    {"s1": "ab", "p": "+r2 r2 r2", "q": "r1"},
    {"s1": "ab", "p": "+r2 +r3 r3", "q": "-r1"},
    {"s1": "abc", "p": "r1 -r1", "q": "r2 r2"},
    {"s1": "ab", "p": "-r1 +r3 r3", "q": "r2"},
    {"s1": "ab", "p": "r1 r1", "k": "!p"},
    {"s1": "ab", "p": "r1", "q": "r1 r1"},
    {"s1": "A:a B:b", "s2": "B:c", "p": "r1", "q": "r2 r2"},
    {"s1": "A:a B:b A:c", "p": "+r3@B r3", "q": "r2 r1"},
]
MORE = [
    {"s1": "ab", "s2": "cd", "p": "r1 r1", "q": "r2 r2"},
    {"s1": "a", "s2": "b", "s3": "c", "p": "r1 r1 r1", "q": "r2"},
    {"s1": "abcd", "p": "r1 +r3 r3 r1", "q": "r2 -r2"},
    {"s1": "abc", "p": "+r2 -r2 +r3 r3", "q": "r1 r1"},
    {"s1": "abc", "p": "r1 r1", "q": "r1", "k": "!p !q"},
    {"s1": "A:a B:b A:c B:d", "p": "r1 r2 r1", "q": "r2 r1"},
    {"s1": "ab none", "s2": "zero", "p": "+r2 +r3", "q": "r1 r1 r1"},
]


def make(programs, tier, aspects, *, limits=(50,), resend=False, bound=None):
    deep = tier == "thorough"
    out = []
    for text in programs:
        for limit in limits:
            scripts = parse(text)
            n = size(scripts)
            channels = {"A": resend}
            if any(op[0] == "send" and op[1] == "B" for ops in scripts.values() for op in flat(ops)):
                channels["B"] = resend
            made = {op[2]: op for ops in scripts.values() for op in flat(ops) if op[0] == "new"}
            used = {op[1] for ops in scripts.values() for op in flat(ops) if op[0] in ("recv", "next", "ready", "rc", "take", "len", "drop")}
            # Receiver r2 belongs to channel B if there is one, the others to A.
            receivers = {
                r: ("B" if r == "r2" and "B" in channels else "A", limit) for r in sorted(used) if r not in made
            }
            b = bound if bound is not None else (2 if n <= 6 else 1) + (1 if deep else 0)
            out.append(
                scenario(
                    f"limit={limit} resend={resend} {show(text)}",
                    scripts,
                    channels=channels,
                    receivers=receivers,
                    aspects=aspects,
                    bound=b,
                )
            )
    return out


X = "{r1|~r1|:r1}"
FREE = [
    # (limits, resend_latest, program, bound quick, bound thorough)
    ((50,), False, {"s1": "none a", "p": f"{X} {X} {X}", "c": "#"}, 1, 2),
    ((1, 2), False, {"s1": "abc", "p": f"{X} {X}", "q": "{len(r1)|r1|+r2}"}, 1, 1),
    ((1, 50), True, {"s1": "a {A:none|A:b}", "p": "{+r2|r1|off(A)} {+r3|r2|#} {r3|r2|len(r2)}"}, 1, 2),
    ((50,), True, {"s1": "ab", "p": "{+r2|-r1|off(A)} {r2|+r2|-r2|on(A)}", "q": "{r1|r2|#}"}, 0, 1),
    ((1, 2), False, {"s1": "ab", "s2": "c", "p": f"{X} {X}", "q": "r2", "k": "{!p|!q|#}"}, 0, 1),
    ((2,), False, {"s1": "ab", "p": X, "q": "{r1|~r1}", "o": "r1", "k": "{!p|!q|#}"}, 0, 1),
    ((1, 3), True, {"s1": "abc", "p": "{+r2/2|~r1} {r2|:r1|+r2/1} {len(r2)|len(r1)|r1}", "q": "r1"}, 0, 1),
    ((50,), True, {"s1": "A:a B:b", "s2": "{B:c|A:c}", "p": "{+r3@A|+r3@B|r1} {r3|r2}", "q": "{r2|#B|#A}"}, 0, 1),
    ((2,), False, {"s1": "abcd", "s2": "ef", "p": f"{X} {X} {X}"}, 0, 1),
    # Many tasks waiting, many receivers.
    ((50,), False, {"p": "r1", "q": "r2", "o": "r3", "u": "r4", "v": "r5", "s1": "A:a &A:b"}, 0, 1),
    ((50,), False, {"p": "r1", "q": "~r2", "o": "r3", "u": ">r4", "v": "r1", "c": "#"}, 0, 1),
    ((2,), True, {"s1": "A:a &A:b", "p": "+r1 &+r2 &+r3 +r4 &+r5 -r2 &-r4 &r5 {r1|r3}", "q": "{r1|r2|r3}"}, 0, 1),
    ((50,), False, {"s1": "ab", "p": "r1 {-r2|-r1|}", "q": "~r2 {r2|+r3}", "c": "{#|-r3}"}, -1, 1),
]
"""Programs in which operations are chosen by the explorer: all operation sequences of the given lengths (-1: not run)."""


def free(tier, aspects):
    out = []
    for limits, resend, text, quick, thorough in FREE:
        bound = thorough if tier == "thorough" else quick
        if bound >= 0:
            out += make([text], tier, aspects, limits=limits, resend=resend, bound=bound)
    return out + long(tier, aspects)


def long(tier, aspects):
    """Long histories: all patterns of operations up to a length, repeated again and again."""
    deep = tier == "thorough"
    out = []
    for limits in ((50, 2), (3, 64), (1, 10)):
        for length in (1, 2, 3, 4, 5)[: 3 + 2 * deep]:
            for words in (["A:*", "r1", ">r2"], ["A:*", "&A:*", "=r1", "len(r2)"], ["A:*", "r1", "+r3", "-r3"]):
                sizes = dict(zip(("r1", "r2"), limits))
                script = Lasso(words, length, 96 // length + 50 * (limits[1] > 50), each(sizes))
                for consumers in ({}, {"p": parse({"p": "&r1 " * 200})["p"], "q": parse({"q": "&r2 &>r2 " * 100})["q"]}):
                    if consumers:
                        script = Lasso(["A:*", "&A:*", "len(r2)"], length, 96 // length)
                        if words[1] != "r1" or words[2] == "+r3":
                            continue
                    out.append(
                        scenario(
                            f"long {limits} patterns of {length} {script.words} {bool(consumers)}",
                            {"u": script, **consumers},
                            channels={"A": False},
                            receivers={r: ("A", n) for r, n in sizes.items()},
                            aspects=aspects,
                            bound=0,
                        )
                    )
    return out


def scenarios(tier):
    return make(PROGRAMS + (MORE if tier == "thorough" else []), tier, {"order"}) + free(tier, {"order"}) + orphans.scenarios("broadcast", tier)
