"""Programs with one or two cancellations aimed at pending sends, receives, iterations and ready() calls, at every point of
their execution; afterwards the channel is drained.  Oracle: failed or cancelled sends deliver nothing, completed sends are
delivered exactly once and in order, whatever was cancelled."""

from ..anycast import free
from .c03 import make

PROGRAMS = [
    (1, {"s1": "a", "p": "r1 r1", "k": "!p"}),
    (2, {"s1": "ab", "p": "r1 r1", "k": "!p"}),
    (2, {"s1": "ab", "p": ">r1 >r1", "k": "!p"}),
    (2, {"s1": "ab", "p": "~r1 =r1", "k": "!p"}),
    (1, {"s1": "ab", "p": "r1", "k": "!s1"}),
    (1, {"s1": "abc", "p": "r1 r1", "k": "!s1"}),
    (1, {"s1": "ab", "s2": "c", "p": "r1", "k": "!s1"}),
    (1, {"s1": "ab", "p": "r1", "q": "r2", "k": "!p"}),
    (2, {"s1": "ab", "p": "r1", "q": "r2 r2", "k": "!q"}),
    (2, {"s1": "ab", "p": "r1", "q": "r1", "k": "!p"}),
    (1, {"s1": "ab", "p": "r1", "c": "#", "k": "!s1"}),
    (1, {"s1": "ab", "s2": "c", "c": "#", "k": "!s2"}),
]
MORE = [
    (1, {"s1": "ab", "s2": "cd", "p": "r1 r1", "k": "!s1 !p"}),
    (2, {"s1": "abc", "p": "r1 r1 r1", "k": "!p !p"}),
    (1, {"s1": "abcd", "p": "~r1 r1 ~r1 r1", "k": "!p !s1"}),
    (2, {"s1": "ab", "s2": "c", "p": "r1", "q": "r2", "k": "!p !q"}),
    (2, {"s1": "abc", "p": "r1 r1", "q": "r1", "k": "!p !q"}),
    (1, {"s1": "ab", "s2": "c", "p": "r1", "c": "#", "k": "!s1 !p"}),
]


def scenarios(tier):
    deep = tier == "thorough"
    return make(PROGRAMS + (MORE if deep else []), {"atomic", "exactly-once", "fifo"}, deep) + free(tier, {"atomic", "exactly-once", "fifo"})
