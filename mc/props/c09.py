"""Programs in which a broadcast channel is closed at every point, with waiting, cancelled, new, dropped and shared receivers and
later sends; every interleaving within the deviation bound.  Oracle: BroadcastOracle, errors and waits included."""

from .c06 import free, make

PROGRAMS = [
    {"s1": "ab", "p": "r1 r1 r1", "c": "#"},
    {"s1": "ab", "p": "r1 r1", "q": "r2 r2", "c": "#"},
    {"s1": "a", "p": ">r1 >r1", "q": "=r2", "c": "#"},
    {"s1": "ab", "p": "~r1 ~r1 r1 r1", "c": "#"},
    {"p": "r1", "q": "r2", "o": ">r3", "c": "# #"},
    {"s1": "a", "p": "r1", "q": "r1", "c": "#"},
    {"s1": "ab", "p": "+r2 r2", "c": "# +r3 r3"},
    {"s1": "ab", "p": "r1 r1", "c": "#", "k": "!p"},
    {"s1": "ab", "p": "r1 r1", "q": "r1", "k": "!p"},
    {"s1": "ab", "p": "~r1 r1", "q": "r2", "k": "!q"},
    {"s1": "a", "s2": "b", "p": "r1", "c": "#", "k": "!p"},
    {"p": "r1", "c": "#", "k": "!c"},
    {"s1": "A:a B:b", "p": "r1 r1", "q": "r2", "c": "#"},
    {"s1": "a none", "p": "r1 r1 r1", "c": "#"},
]
MORE = [
    {"s1": "ab", "s2": "c", "p": "r1 r1", "q": "r2", "c": "#"},
    {"s1": "abc", "p": "r1 r1 r1", "q": "r1", "c": "#", "k": "!p"},
    {"s1": "ab", "p": "r1 r1", "q": "r2 r2", "o": "r3", "c": "#", "k": "!q"},
    {"s1": "ab", "p": "~r1 r1 ~r1 r1 ~r1", "q": "-r2", "c": "#"},
]

CROWDS = [
    # Many tasks wait: each with a receiver of its own, all with the same one, and both.
    {f"p{i}": f"&r{i}" for i in range(1, 13)} | {"s1": "a", "c": "#"},
    {f"p{i}": f"&r{i} &r{i}" for i in range(1, 10)} | {"s1": "a", "c": "#", "k": "!p2"},
    {f"p{i}": "&r1" for i in range(1, 10)} | {"s1": "ab", "c": "#"},
    {f"p{i}": f"&r{i % 3 + 1}" for i in range(1, 13)} | {"s1": "ab", "o": "-r4", "c": "#"},
    {f"p{i}": "&r1" for i in range(1, 10)} | {"c": "#"},
]


def scenarios(tier):
    programs = PROGRAMS + (MORE if tier == "thorough" else [])
    return make(programs, tier, {"order", "close", "wakeup"}, limits=(50, 1)) + make(CROWDS, tier, {"order", "close", "wakeup"}, bound=0) + free(tier, {"order", "close", "wakeup"})
