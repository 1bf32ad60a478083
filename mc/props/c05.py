"""Programs in which a channel is closed at every point: while senders are blocked, receivers wait, messages are buffered or
claimed by ready(); closes concurrent with each other and with cancellations; sends and receives afterwards.  Oracle: see
AnycastOracle.check_close."""

from ..anycast import free
from .c03 import make

PROGRAMS = [
    (2, {"s1": "ab", "p": "r1 r1", "c": "#"}),
    (1, {"s1": "ab", "p": "r1", "c": "#"}),
    (1, {"s1": "abc", "c": "#"}),
    (1, {"s1": "a", "s2": "b", "s3": "c", "c": "#"}),
    (1, {"s1": "ab", "s2": "c", "p": "r1", "c": "#"}),
    (2, {"s1": "ab", "p": "r1", "q": "r2", "c": "#"}),
    (2, {"s1": "ab", "p": "=r1", "q": ">r2", "c": "#"}),
    (2, {"s1": "ab", "p": "~r1 ~r1 r1 r1", "c": "#"}),
    (2, {"p": "r1", "q": "r2", "o": ">r3", "c": "#"}),
    (2, {"p": "~r1 ~r1", "q": "r1 r1", "c": "#"}),
    (2, {"s1": "a", "p": ">r1 >r1 >r1", "c": "# #"}),
    (1, {"s1": "a", "p": "r1", "q": "r1", "c": "#"}),
    (1, {"s1": "ab", "p": "r1", "c": "#", "k": "!c"}),
]
MORE = [
    (1, {"s1": "ab", "s2": "cd", "p": "r1 r1", "c": "#"}),
    (2, {"s1": "abcd", "p": "=r1 =r1", "q": "r2", "c": "#"}),
    (1, {"s1": "ab", "s2": "c", "p": "r1", "q": "r2", "c": "#", "k": "!p"}),
    (1, {"s1": "ab", "s2": "c", "p": "r1 r1", "c": "#", "k": "!s1"}),
    (3, {"s1": "abc", "p": "r1", "q": "r2", "o": "r3", "c": "#"}),
    (1, {"s1": "ab", "p": "~r1 r1", "q": "r1", "c": "#"}),
]


def scenarios(tier):
    deep = tier == "thorough"
    return make(PROGRAMS + (MORE if deep else []), {"close", "exactly-once", "fifo"}, deep) + free(tier, {"close", "exactly-once", "fifo"})
