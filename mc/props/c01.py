"""Programs of 1-3 senders and 1-3 receiving tasks over one or two anycast channels; every interleaving within the
deviation bound; oracle: exactly-once delivery by identity, FIFO, no cross-talk (AnycastOracle: exactly-once, fifo)."""

from .. import orphans
from ..anycast import free, label, scenario

SENDERS = [
    {"s1": ["a", "b"]},
    {"s1": ["a"], "s2": ["b"]},
    {"s1": ["a", "none"], "s2": ["c"]},
    {"s1": ["zero", "b", "c"]},
]
SENDERS_MORE = [
    {"s1": ["a", "b"], "s2": ["c", "d"]},
    {"s1": ["a"], "s2": ["b"], "s3": ["c"]},
    {"s1": ["a", "b", "c", "d"]},
]
RECEIVERS = [
    {"p": [("recv", "r1"), ("recv", "r1")]},
    {"p": [("recv", "r1")], "q": [("recv", "r2")]},
    {"p": [("rc", "r1"), ("next", "r1")], "q": [("recv", "r2")]},
    {"p": [("recv", "r1")], "q": [("recv", "r1")]},
    {"p": [("ready", "r1"), ("recv", "r1")], "q": [("recv", "r1")]},
    {"p": [("ready", "r1"), ("recv", "r1")], "q": [("ready", "r1"), ("next", "r1")]},
]
RECEIVERS_MORE = [
    {"p": [("rc", "r1"), ("rc", "r1")], "q": [("rc", "r2")]},
    {"p": [("recv", "r1")], "q": [("recv", "r2")], "o": [("recv", "r3")]},
    {"p": [("next", "r1"), ("next", "r1"), ("next", "r1")]},
]


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for limit in (1, 2) if not deep else (1, 2, 3):
        for snd in SENDERS + (SENDERS_MORE if deep else []):
            for rcv in RECEIVERS + (RECEIVERS_MORE if deep else []):
                scripts = {w: [("send", "A", u) for u in us] for w, us in snd.items()} | rcv
                receivers = {op[1]: "A" for ops in rcv.values() for op in ops}
                n = sum(len(o) for o in scripts.values())
                bound = 2 if n <= 5 else 1
                if deep:
                    bound = 3 if n <= 5 else 2
                out.append(
                    scenario(
                        f"limit={limit} {label(scripts)}",
                        scripts,
                        limits={"A": limit},
                        receivers=receivers,
                        aspects={"exactly-once", "fifo"},
                        bound=bound,
                    )
                )
    # Two channels at the same time: nothing crosses over.
    scripts = {
        "s1": [("send", "A", "a"), ("send", "B", "b")],
        "s2": [("send", "B", "c")],
        "p": [("recv", "ra"), ("recv", "rb")],
        "q": [("recv", "rb")],
    }
    out.append(
        scenario(
            "two channels",
            scripts,
            limits={"A": 1, "B": 2},
            receivers={"ra": "A", "rb": "B"},
            aspects={"exactly-once", "fifo"},
            bound=2 if deep else 1,
        )
    )
    return out + free(tier, {"exactly-once", "fifo"}) + orphans.scenarios("anycast", tier)
