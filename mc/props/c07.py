"""Programs in which some receivers fall behind (limits 1-3, 50) while others keep up, with len() queried at every point, ready()
pending and cancelled; every interleaving within the deviation bound.  Oracle: bounded queue per receiver (BroadcastOracle)."""

from ..broadcast import scenario
from .c06 import free, make

PROGRAMS = [
    {"s1": "abcd", "p": "r1", "q": "len(r1) len(r1)"},
    {"s1": "abc", "p": "r1 r1", "q": "r2"},
    {"s1": "abc", "p": "~r1 r1 len(r1)", "q": "+r2/1 r2"},
    {"s1": "ab", "s2": "cd", "p": "r1 len(r1)"},
    {"s1": "a none zero", "p": "=r1 len(r1)", "q": "r2"},
    {"s1": "abc", "p": "+r2/1 +r3/2", "q": "r1"},
    {"s1": "abc", "p": "~r1", "q": "r1 len(r1)", "k": "!p"},
    {"s1": "abc", "p": "=r1 =r1", "q": "len(r1)"},
    {"s1": "abc #", "p": "r1 len(r1)"},
]
MORE = [
    {"s1": "abcde", "p": "r1 len(r1) r1", "q": "r2"},
    {"s1": "abc", "s2": "def", "p": "r1 r1 len(r1)"},
    {"s1": "abcdef", "p": "r1 +r2/2 r2 len(r2)", "q": "len(r1)"},
]


def scenarios(tier):
    deep = tier == "thorough"
    out = make(PROGRAMS + (MORE if deep else []), tier, {"order", "overflow"}, limits=(1, 2, 3))
    # The default limit: 50.
    big = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
    out += make([{"s1": big, "p": "r1 len(r1)"}], tier, {"order", "overflow"}, limits=(49, 50, 51), bound=0)
    # Other limits: N + 1 or 2 N + 1 messages while another receiver follows.
    for limit in (4, 5, 6, 7, 8, 10, 16, 20, 32, 64, 100, 128, 256, 1000):
        for n in (limit + 1, 2 * limit + 1):
            sends = [("send", "A", f"m{i}") for i in range(n)]
            half = limit // 2
            scripts = {
                "s1": [sends[0]] + [("now", op) for op in sends[1:half]] + [sends[half]] + [("now", op) for op in sends[half + 1 :]],
                "p": [("recv", "r1"), ("len", "r1"), ("now", ("recv", "r1"))],
                "q": [("recv", "r2"), ("len", "r2")],
            }
            out.append(
                scenario(
                    f"limit={limit} messages={n}",
                    scripts,
                    channels={"A": False},
                    receivers={"r1": ("A", limit), "r2": ("A", n)},
                    aspects={"order", "overflow"},
                    bound=0,
                )
            )
    return out + free(tier, {"order", "overflow"})
