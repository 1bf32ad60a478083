"""Programs creating receivers before, between and after sends (of None, falsy and normal messages), toggles of resend_latest and
close, with the attribute on and off; every interleaving within the deviation bound.  Oracle: BroadcastOracle."""

from .c06 import free, make

PROGRAMS = [
    {"s1": "ab", "p": "+r1 r1 r1"},
    {"s1": "none", "p": "+r1 r1"},
    {"s1": "a none b", "p": "+r1 r1 +r2"},
    {"s1": "zero false", "p": "+r1 +r2", "q": "r3"},
    {"s1": "empty list", "p": "+r1 +r2 r2"},
    {"s1": "a", "s2": "b", "p": "+r1 r1 +r2 r2"},
    {"s1": "ab #", "p": "+r1 r1"},
    {"s1": "a", "p": "# +r1 +r2"},
    {"s1": "ab", "p": "off(A) +r1 on(A) +r2"},
    {"s1": "ab", "p": "+r1 on(A) +r2 r2"},
    {"s1": "a", "p": "on(A) +r1 off(A) +r2", "q": "r3"},
    {"s1": "A:a B:b", "p": "+r1@B +r3@A", "q": "r2"},
    {"s1": "ab", "p": "+r1/1 r1 +r2/1 r2"},
    {"s1": "ab", "q": "r3 -r3", "p": "+r1 r1 -r1 +r2"},
    {"s1": "ab", "p": "+r1 " + " ".join(f"&+r{i}" for i in range(4, 16)) + " +r2"},
]
MORE = [
    {"s1": "a none b", "s2": "c", "p": "+r1 r1 +r2 r2"},
    {"s1": "abc", "p": "+r1 off(A) +r2 on(A) +r4", "q": "r3"},
    {"s1": "none a none", "p": "+r1 +r2 r1 r2"},
    {"s1": "ab", "s2": "c", "p": "+r1 -r1 +r2 -r2 +r4"},
]


def scenarios(tier):
    programs = PROGRAMS + (MORE if tier == "thorough" else [])
    return make(programs, tier, {"order", "resend"}, resend=True) + make(programs, tier, {"order", "resend"}, resend=False) + free(tier, {"order", "resend"})
