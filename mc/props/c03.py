"""Programs in which sends, receives and ready() calls wait and are cancelled (also after they were woken, before they run), with
several waiting tasks per channel and per receiver, and closes.  Oracle: in every idle state no task waits to receive while the
channel (or its own receiver) holds a message, and no task waits to send while there is free space."""

from ..anycast import free, label, scenario

PROGRAMS = [
    # two waiting receivers, one of them cancelled around the wakeup
    (2, {"s1": "a", "p": "r1", "q": "r2", "k": "!p"}),
    (2, {"s1": "ab", "p": "r1", "q": "r2", "k": "!p"}),
    (2, {"s1": "a", "s2": "b", "p": "r1", "q": "r2", "k": "!q"}),
    (2, {"s1": "a", "p": "~r1", "q": "~r2", "k": "!p"}),
    (2, {"s1": "a", "p": "r1 r1", "q": "r2", "k": "!p"}),
    # waiting senders, cancelled
    (1, {"s1": "ab", "s2": "c", "p": "r1", "k": "!s1"}),
    (1, {"s1": "ab", "s2": "c", "p": "r1", "k": "!s2"}),
    (1, {"s1": "a", "s2": "b", "s3": "c", "p": "r1", "k": "!s2"}),
    # several tasks on one receiver
    (2, {"s1": "ab", "p": "r1", "q": "r1"}),
    (2, {"s1": "a", "p": "~r1", "q": "~r1"}),
    (1, {"s1": "ab", "p": "~r1 r1", "q": "~r1 r1"}),
    (2, {"s1": "a", "p": "~r1", "q": "r1", "k": "!p"}),
    (2, {"s1": "ab", "p": "r1", "q": "r1", "k": "!p"}),
    (1, {"s1": "abc", "p": "r1 r1", "q": "r1"}),
    # close
    (1, {"s1": "ab", "p": "r1", "c": "#", "k": "!s1"}),
    (1, {"p": "r1", "q": "r2", "c": "#", "k": "!p"}),
    (1, {"s1": "ab", "s2": "c", "c": "#"}),
]
MORE = [
    (1, {"s1": "ab", "s2": "cd", "p": "r1 r1", "q": "r2", "k": "!p"}),
    (1, {"s1": "ab", "s2": "cd", "p": "r1", "q": "r2", "k": "!s1 !s2"}),
    (2, {"s1": "ab", "p": "r1", "q": "r2", "o": "r3", "k": "!p !q"}),
    (2, {"s1": "a", "s2": "b", "p": "r1 r1", "q": "r2 r2", "k": "!p !p"}),
    (1, {"s1": "a", "s2": "b", "s3": "c", "p": "r1", "q": "r2", "k": "!s1"}),
    (3, {"s1": "ab", "p": "r1", "q": "r1", "o": "r2", "k": "!p"}),
    (1, {"s1": "abc", "p": "~r1 r1", "q": "~r2 r2", "k": "!s1"}),
    (1, {"s1": "ab", "s2": "c", "p": "r1", "q": "r1", "c": "#"}),
]


def parse(scripts):
    out = {}
    for who, text in scripts.items():
        if who.startswith("s"):
            out[who] = [("send", "A", u) for u in text]
            continue
        ops = []
        for word in text.split():
            if word == "#":
                ops.append(("close", "A"))
            elif word[0] == "!":
                ops.append(("cancel", word[1:]))
            elif word[0] == "~":
                ops.append(("ready", word[1:]))
            elif word[0] == "=":
                ops.append(("rc", word[1:]))
            elif word[0] == ">":
                ops.append(("next", word[1:]))
            else:
                ops.append(("recv", word))
        out[who] = ops
    return out


def make(programs, aspects, deep, extra=0):
    out = []
    for limit, text in programs:
        scripts = parse(text)
        receivers = {
            op[1]: "A" for ops in scripts.values() for op in ops if op[0] in ("recv", "ready", "rc", "next")
        } or {"r1": "A"}
        n = sum(len(o) for o in scripts.values())
        bound = (2 if n <= 5 else 1) + (1 if deep else 0) + extra
        out.append(
            scenario(
                f"limit={limit} {label(scripts)}",
                scripts,
                limits={"A": limit},
                receivers=receivers,
                aspects=aspects,
                bound=bound,
            )
        )
    return out


def scenarios(tier):
    deep = tier == "thorough"
    return make(PROGRAMS + (MORE if deep else []), {"wakeup"}, deep) + free(tier, {"wakeup"})
