"""Programs that fill, overfill and empty anycast channels of limit 1-4, with pending, cancelled and concurrent sends and
receives; every interleaving within the deviation bound.  Oracle: at every idle state and at every completed send, the channel
holds at most `limit` messages that no receiver has taken, and no send waits while there is free space."""

from ..anycast import free, label, scenario

PROGRAMS = [
    (1, {"s1": "ab"}, {}),
    (2, {"s1": "abc"}, {}),
    (3, {"s1": "ab", "s2": "cd"}, {}),
    (1, {"s1": "a", "s2": "b", "s3": "c"}, {}),
    (2, {"s1": "ab", "s2": "c"}, {"p": [("recv", "r1")]}),
    (1, {"s1": "ab", "s2": "c"}, {"p": [("recv", "r1")], "q": [("recv", "r2")]}),
    (1, {"s1": "abc"}, {"p": [("rc", "r1"), ("rc", "r1")]}),
    (2, {"s1": "abcd"}, {"p": [("next", "r1"), ("recv", "r1")]}),
    (1, {"s1": "ab"}, {"p": [("ready", "r1")], "q": [("ready", "r2")]}),
    (1, {"s1": "abc"}, {"p": [("ready", "r1"), ("ready", "r1"), ("consume", "r1"), ("ready", "r1")]}),
    (1, {"s1": "ab", "s2": "c"}, {"p": [("recv", "r1")], "k": [("cancel", "s1")]}),
    (1, {"s1": "ab", "s2": "c"}, {"p": [("recv", "r1")], "k": [("cancel", "p")]}),
    (2, {"s1": "abc", "s2": "d"}, {"p": [("recv", "r1")], "k": [("cancel", "s2")]}),
]
MORE = [
    (4, {"s1": "abc", "s2": "def"}, {"p": [("recv", "r1")]}),
    (1, {"s1": "ab", "s2": "cd"}, {"p": [("recv", "r1"), ("recv", "r1")], "k": [("cancel", "s1"), ("cancel", "s2")]}),
    (2, {"s1": "ab", "s2": "cd"}, {"p": [("recv", "r1")], "q": [("recv", "r2")], "k": [("cancel", "p")]}),
    (2, {"s1": "abcd"}, {"p": [("recv", "r1"), ("recv", "r1")], "q": [("ready", "r2")]}),
]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for limit, snd, rcv in PROGRAMS + (MORE if deep else []):
        scripts = {w: [("send", "A", u) for u in us] for w, us in snd.items()} | rcv
        receivers = {op[1]: "A" for ops in rcv.values() for op in ops if op[0] != "cancel"} or {"r1": "A"}
        n = sum(len(o) for o in scripts.values())
        bound = (2 if n <= 5 else 1) + (1 if deep else 0)
        out.append(
            scenario(
                f"limit={limit} {label(scripts)}",
                scripts,
                limits={"A": limit},
                receivers=receivers,
                aspects={"capacity"},
                bound=bound,
            )
        )
    # Large limits: filled, one send more, and some received.
    for limit in (5, 6, 7, 8, 9, 10, 11, 16, 20, 32, 50, 64, 100, 128, 256, 1000):
        fill = [("send", "A", f"m{i}") for i in range(limit - 1)]
        scripts = {
            "s1": [fill[0]] + [("now", op) for op in fill[1:]] + [("send", "A", "y")],
            "s2": [("send", "A", "z")],
            "p": [("recv", "r1"), ("now", ("recv", "r1"))],
        }
        out.append(
            scenario(f"limit={limit} filled", scripts, limits={"A": limit}, receivers={"r1": "A"}, aspects={"capacity"}, bound=0)
        )
    return out + free(tier, {"capacity"})
