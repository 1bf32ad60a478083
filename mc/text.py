"""A compact notation for programs.

 driver s*: messages separated by spaces (or single letters): sends on channel A; "B:x" sends x on channel B
 others:    r1 = receive, >r1 = anext, ~r1 = ready, !p = cancel what driver p does, =r1 = ready then consume, # = close A,
            #B = close B, len(r1), +r1 = new receiver of A, +r1@B of B, +r1/2 with limit 2, -r1 = drop, on(A), off(A) =
            set resend_latest, stop(m) = await m.stop(), del(m) = drop, wrap(m,merge,C), wrap(m,map,f) = m is
            now the merger of what it was and a receiver of C, or what it was mapped by f, w->B = forward all of w to B and close B, zz5 = sleep 5 s, busy(2) = block the loop for 2 s, tstop(t), reset(t,0.5) = stop(), reset() of a timer, os(+a,~b) = the file /w/a
            was created and /w/b modified, os(end) = the watch ends (% = a space in a name), set(e), estop(e), flags(e) = set(), stop(), state of an event
            {r1|~r1|:r1|} = any of these, :r1 = consume if ready() told that there is a message, nothing = nothing
            &r1 = without a point before it: nothing else runs in between
"""

from __future__ import annotations

import collections
import re
from typing import Any, Callable, Iterable, Iterator

SPECIAL = ("none", "zero", "false", "empty", "list")


def word_ops(word: str) -> list[tuple[Any, ...]]:
    if word[0] == "&":
        return [("now", op) for op in word_ops(word[1:])]
    if m := re.fullmatch(r"\{(.*)\}", word):
        return [("any", *(None if w == "" else word_ops(w)[0] for w in m[1].split("|")))]
    if m := re.fullmatch(r":([rmetwf]\d*)", word):
        return [("take", m[1])]
    if m := re.fullmatch(r"#(\w*)", word):
        return [("close", m[1] or "A")]
    if m := re.fullmatch(r"!(\w+)", word):
        return [("cancel", m[1])]
    if m := re.fullmatch(r"([~=>]?)([rmetwf]\d*)", word):
        return [({"~": "ready", "=": "rc", ">": "next", "": "recv"}[m[1]], m[2])]
    if m := re.fullmatch(r"\.([rmetwf]\d*)", word):
        return [("consume", m[1])]
    if m := re.fullmatch(r"len\((\w+)\)", word):
        return [("len", m[1])]
    if m := re.fullmatch(r"(on|off)\((\w+)\)", word):
        return [("toggle", m[2], m[1] == "on")]
    if m := re.fullmatch(r"\+(r\w*)(?:@(\w+))?(?:/(\d+))?", word):
        return [("new", m[2] or "A", m[1], {"limit": int(m[3])} if m[3] else {})]
    if m := re.fullmatch(r"-(r\w*)", word):
        return [("drop", m[1])]
    if m := re.fullmatch(r"(set|estop|flags)\((\w+)\)", word):
        return [(m[1], m[2])]
    if m := re.fullmatch(r"feed\((\w+),(\w+)\)", word):
        return [("feed", m[1], m[2])]
    if m := re.fullmatch(r"fend\((\w+)\)", word):
        return [("fend", m[1])]
    if m := re.fullmatch(r"stop\((\w+)\)", word):
        return [("mstop", m[1])]
    if m := re.fullmatch(r"(\w+)->(\w+)", word):
        return [("forward", m[1], m[2])]
    if m := re.fullmatch(r"wrap\((\w+),(merge|map),(\w+)\)", word):
        return [("wrap", m[1], m[2], m[3])]
    if m := re.fullmatch(r"del\((\w+)\)", word):
        return [("collect", m[1])]
    if m := re.fullmatch(r"os\((.*)\)", word):
        if m[1] == "end":
            return [("wend",)]
        return [("os", tuple(f"{c[0]}/w/{c[1:]}".replace("%", " ") for c in m[1].split(",")))]
    if m := re.fullmatch(r"zz([\d.]+)", word):
        return [("sleep", float(m[1]))]
    if m := re.fullmatch(r"busy\(([\d.]+)\)", word):
        return [("busy", float(m[1]))]
    if m := re.fullmatch(r"tstop\((\w+)\)", word):
        return [("tstop", m[1])]
    if m := re.fullmatch(r"reset\((\w+),([\d.]+)\)", word):
        return [("reset", m[1], float(m[2]))]
    if m := re.fullmatch(r"(\w+):(\w+)", word):
        return [("send", m[1], m[2])]
    raise AssertionError(word)


def parse(scripts: dict[str, str]) -> dict[str, list[tuple[Any, ...]]]:
    out: dict[str, list[tuple[Any, ...]]] = {}
    for who, text in scripts.items():
        ops: list[tuple[Any, ...]] = []
        for word in text.split():
            if who.startswith("s") and ":" not in word and word[0] not in "&{" and re.fullmatch(r"\w+", word) and not word.startswith("zz"):
                ops.extend(("send", "A", u) for u in ([word] if word in SPECIAL else word))
            else:
                ops.extend(word_ops(word))
        out[who] = ops
    return out


def size(scripts: dict[str, list[tuple[Any, ...]]]) -> int:
    return sum(len(o) for o in scripts.values())


def show(scripts: dict[str, str]) -> str:
    return " | ".join(f"{who}: {text}" for who, text in scripts.items())


def flat(ops: Iterable[Any]) -> Iterator[tuple[Any, ...]]:
    """All operations in a script."""
    for op in ops:
        if op is None:
            continue
        if op[0] in ("any", "now"):
            yield from flat(op[1:])
        else:
            yield op


class Lasso(tuple[Any, ...]):
    """A script that repeats a pattern of operations many times; the explorer chooses the pattern.

    The script is sequential.  In "A:*", * stands for a new message each time (elsewhere for a number).  `allow(word, state)` tells whether an operation makes
    sense (and records its effect in `state`, a Counter); those that do not (they would wait forever) are left out.
    """

    words: list[Any]
    length: int
    rounds: int
    allow: Callable[[Any, collections.Counter[str]], bool]
    tail: str

    def __new__(cls, words: list[Any], length: int, rounds: int, allow: Any = lambda word, state: True, tail: str = "") -> "Lasso":
        self = super().__new__(cls)
        self.words, self.length, self.rounds, self.allow, self.tail = words, length, rounds, allow, tail
        return self

    def ops(self, x: Any) -> Iterator[tuple[Any, ...]]:
        pattern = [x.pick(self.words, label="word") for _ in range(self.length)]
        state: collections.Counter[str] = collections.Counter()
        sent = 0
        for _ in range(self.rounds):
            for word in pattern:
                if not self.allow(word, state):
                    continue
                sent += 1
                if isinstance(word, str):
                    ch = re.search(r"(\w+):\*", word)
                    yield from word_ops(word.replace("*", f"{ch[1].lower() if ch else ''}{sent}"))
                else:
                    yield word
        for word in self.tail.split():
            yield from word_ops(word)


def unroll(x: Any, script: Iterable[tuple[Any, ...]]) -> Iterable[tuple[Any, ...]]:
    return script.ops(x) if isinstance(script, Lasso) else script


def shared(limit: int) -> Callable[[str, collections.Counter[str]], bool]:
    """For receivers that share what is sent: at most `limit` messages wait, and only what is there is received."""

    def allow(word: Any, state: collections.Counter[str]) -> bool:
        """Operations that are no words take one message."""
        if isinstance(word, str) and "*" in word or word == "set(e)":
            state["n"] += 1
            if state["n"] > limit:
                state["n"] = limit
                return False
        elif not isinstance(word, str) or re.fullmatch(r"&?[=>]?[rmef]\d*", word):
            if not state["n"]:
                return False
            state["n"] -= 1
        return True

    return allow


def each(limits: dict[str, int]) -> Callable[[str, collections.Counter[str]], bool]:
    """For receivers that get everything that is sent, up to a limit."""

    def allow(word: str, state: collections.Counter[str]) -> bool:
        word = word.lstrip("&=>")
        if word.endswith(":*"):
            for name, limit in limits.items():
                state[name] = min(limit, state[name] + 1)
        elif word in limits:
            if not state[word]:
                return False
            state[word] -= 1
        return True

    return allow
